// C19: the average of a list of colours.
#include "calc.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static void one(Case& k, int t, const std::vector<Col*>& v, bool ia, bool plain)
{
	float am = alpha_max(t); k.eval();
	std::vector<Snap> s; for (auto* c : v) s.push_back(Snap(c));
	std::string what = S("average of %d colours%s:", (int)v.size(), ia ? " with alpha" : ""); for (size_t i = 0; i < v.size() && i < 4; ++i) what += " " + desc(v[i]);
	Col* r = nullptr;
	if (raises([&] { r = average(t, v, ia, plain); })) { k.fail(S("raises:%s", TN[t]), "%s raised", what.c_str()); return; }
	std::string why;
	if (!r) why = "nothing is returned";
	else if (r->get_color_type() != t) why = "the type differs";
	else if (r->get_rgb_color_space() != s[0].d) why = "the result does not have the rgb definition of the first colour";
	else if (!in_range(r, &why)) {}
	else
	{
		for (int i = 0; i < NC[t] && why.empty(); ++i)
		{
			double m = 0; for (auto& x : s) m += x.c[i]; m /= s.size();
			float lo, hi; range_of(t, i, lo, hi);
			if (!closer(r->get_component(i), m, 3e-6 + 1e-7 * s.size(), (2e-6 + 1e-7 * s.size()) * (hi - lo))) why = S("component %d, expected %.8g", i, m);
		}
		double a = s[0].a; if (ia && !plain) { a = 0; for (auto& x : s) a += x.a; a /= s.size(); }
		if (why.empty() && !close(r->alpha(), a, (3e-6 + 1e-7 * s.size()) * am)) why = S("alpha, expected %.8g", a);
	}
	if (!why.empty()) k.fail(S("value:%s", TN[t]), "%s is %s: %s", what.c_str(), desc(r).c_str(), why.c_str());
	bool same = true; for (size_t i = 0; i < v.size(); ++i) if (Snap(v[i]) != s[i]) same = false;
	if (!same) k.fail(S("operand:%s", TN[t]), "%s changed one of them", what.c_str());
	uint64_t h = ia * 2 + plain; for (auto* c : v) h = mc::mix(h, hcol(c));
	k.distinct(mc::mix(h, hcol(r)));
	if (k.want_sample()) k.sample("%s is %s", what.c_str(), desc(r).c_str());
	bool in = false; for (auto* c : v) in |= c == r;
	if (r && !in) delete r;
}
static void build(Plan& p)
{
	p.property = "C19"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 15 types: all ordered pairs of a grid over the component ranges, all sequences of length 1 to 5 over a set of colours (repetitions and the same object twice included), lengths up to 200, each with and without alpha; distinct by the list and the result";
	p.assumptions = { "the mean is taken component by component in the type of the colours, hues included", "an empty list belongs to C27" };
	int nd = D().size();
	static const float A[] = { 1.f, 0.f, 0.5f, 0.2f, 0.9f, 0.7f };
	for (int t = 0; t < NT; ++t)
	{
		float am = alpha_max(t);
		Grid g = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? (th ? 4 : 3) : th ? 6 : 4);
		p.add(S("pairs:%s", TN[t]), g.n * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); uint64_t i = r.next(g.n), j = r.next(g.n); float c[4], e[4]; g.get(i, c); g.get(j, e);
			uint64_t h = mc::mix(i, j); int di = h % nd, dj = h / 32 % 4 ? di : (di + 1) % nd;
			Col* a = make(t, c, A[h / 256 % 6] * am, D()[di].lib); Col* b = make(t, e, A[h / 2048 % 6] * am, D()[dj].lib);
			one(k, t, { a, b }, h / 16384 % 2, false);
			delete a; delete b;
		}, "ordered pairs of grid colours");
		Lines l = make_lines(t, th ? 12000 : 800);
		p.add(S("lines:%s", TN[t]), l.n * (th ? 6 : 3), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int n = 2 + r.next(th ? 6 : 3); uint64_t i = r.next(l.n); uint64_t h = mc::mix(ix, 8); std::vector<Col*> v;
			for (int q = 0; q < n; ++q) { float c[4]; if (q == (int)(h % n)) l.get(i, c); else l.at(i / l.points + (h >> (8 + 4 * q)) % 3, c); v.push_back(make(t, c, A[(h >> (30 + 3 * q)) % 6] * am, D()[(h >> 20) % nd].lib)); }
			one(k, t, v, h / 64 % 2, h / 128 % 8 == 0);
			for (auto* c : v) delete c;
		}, "one component of one colour moved finely through its range");
		p.add(S("fine_alphas:%s", TN[t]), 256 * 4, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float al = r.next(256) / 255.f; int n = 1 + r.next(4); uint64_t h = mc::mix(ix, 9); std::vector<Col*> v;
			for (int q = 0; q < n; ++q) { float c[4]; l.at(h / 16 + q, c); v.push_back(make(t, c, (q == (int)(h % n) ? al : A[(h >> (30 + 3 * q)) % 6]) * am, D()[(h >> 20) % nd].lib)); }
			one(k, t, v, true, false);
			for (auto* c : v) delete c;
		}, "the alpha of one colour moved finely from 0 to 1");
		int m = th ? 6 : 4;
		for (int n = 1; n <= 5; ++n) p.add(S("sequences:%s:%d", TN[t], n), ipow(m, n) * 3, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int mode = r.next(3); std::vector<Col*> set, v;
			Grid q = make_grid(t, NC[t] == 1 ? 9 : 3);
			for (int i = 0; i < m; ++i) { float c[4]; q.get((i * 7 + 3 + (i > 2 ? 5 * i : 0)) % q.n, c); set.push_back(make(t, c, A[i % 6] * am, D()[i % nd].lib)); }
			for (int i = 0; i < n; ++i) v.push_back(set[r.next(m)]);
			one(k, t, v, mode == 1, mode == 2);
			for (auto* c : set) delete c;
		}, "sequences over a set of colours");
		p.add(S("long:%s", TN[t]), 200 * 2 * (th ? 20 : 3), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int n = r.next(200) + 1; bool ia = r.next(2); int s = r.next(20); std::vector<Col*> v;
			for (int i = 0; i < n; ++i) { float c[4]; g.get((mc::mix(i, s) >> 7) % g.n, c); v.push_back(make(t, c, A[(i + s) % 6] * am, D()[(i + s) % nd].lib)); }
			one(k, t, v, ia, false);
			for (auto* c : v) delete c;
		}, "lists of every length up to 200");
		p.add(S("longer:%s", TN[t]), 12 * 3, [=](uint64_t ix, Case& k)
		{
			static const int L[] = { 201, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 32769 };
			Radix r(ix); int mode = r.next(3), n = L[r.next(12)]; std::vector<Col*> v;
			for (int i = 0; i < n; ++i) { float c[4]; g.get((mc::mix(i, 5) >> 7) % g.n, c); v.push_back(make(t, c, A[i % 6] * am, D()[i % nd].lib)); }
			one(k, t, v, mode == 1, mode == 2);
			for (auto* c : v) delete c;
		}, "lists around 256, 512, 1000, 4096 and 32768");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
