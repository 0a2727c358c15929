// C27: what an operation documents as invalid is refused, what it documents as valid is not, and a refusal changes nothing.
#include "calc.h"
#include "blend.h"
#include "manipulation/color_combinations.h"
#include "utils/matrix.h"
typedef color_manipulation::color_combinations CO;
static std::vector<ref::LD>& D() { return ref::defs(); }
static Grid& G(int t) { static std::vector<Grid> v; if (v.empty()) for (int i = 0; i < NT; ++i) v.push_back(make_grid(i, NC[i] == 4 ? 2 : NC[i] == 1 ? 9 : 4)); return v[t]; }
static Col* any(int t, uint64_t h, int di) { float c[4]; G(t).get(h % G(t).n, c); static const float A[] = { 1.f, 0.5f, 0.f, 0.25f }; return make(t, c, A[h / 4096 % 4] * alpha_max(t), D()[di].lib); }
static float up(float f) { return std::nextafter(f, INF); }
static float down(float f) { return std::nextafter(f, -INF); }
static std::vector<float> sorted(std::vector<float> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
// weights around and outside of [0,1]
static const std::vector<float>& ws(bool th)
{
	static std::vector<float> v;
	if (v.empty())
	{
		v = { 0.f, -0.f, 1.f, 0.5f, 1e-38f, 1e-45f, up(0.f), down(1.f), up(1.f), down(0.f), -1e-38f, -1e-6f, -0.01f, 1.000001f, 1.01f, 2.f, -1.f, 100.f, 255.f, -255.f, 3.4e38f, -3.4e38f, INF, -INF };
		if (th) for (int i = -20; i <= 40; ++i) v.push_back(i * 0.05f);
		v = sorted(v);
	}
	return v;
}
static void verdict(Case& k, const std::string& key, bool valid, bool raised, const std::string& what)
{
	k.eval();
	if (valid == raised) k.fail(S("%s:%s", valid ? "refused" : "accepted", key.c_str()), "%s is %s", what.c_str(), raised ? "refused" : "accepted");
	if (!valid && raised) k.raised();
}
static void build(Plan& p)
{
	p.property = "C27"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "every operation that documents invalid arguments, for every colour type (pairs of types where two are taken), with arguments on, next to and far from each border on either side; distinct by operation, operands and argument";
	p.assumptions = { "not-a-number arguments are left out", "null and mismatching blend operands for every pair of types are also explored by C16, malformed hex strings by C04, matrix indices by C08" };
	auto& W = ws(th); int nw = W.size(), nd = D().size();
	int reps = th ? 12 : 6;
	for (int form = 0; form < 2; ++form) for (int op = 0; op < 3; ++op)
	{
		p.add(S("weights:%s:%s", form ? "generic" : "typed", OPN[op]), (uint64_t)NT * (form ? NT : 1) * nw * (op == ADD ? nw : 1) * reps * (form && op == ADD && !th ? 1 : 2), [=, &W](uint64_t ix, Case& k)
		{
			Radix r(ix); int t = r.next(NT), u = form ? (int)r.next(NT) : t; float w1 = W[r.next(nw)], w2 = op == ADD ? W[r.next(nw)] : 1.f; uint64_t h = mc::mix(ix, 1);
			int di = h / 64 % nd; Col *a = any(t, h, di), *b = any(u, h / 3, di); Snap sa(a), sb(b); bool ia = h / 7 % 2;
			Col* q = nullptr;
			int nargs = op == ADD ? (w2 == 1.f && h / 16 % 2 ? 1 : h / 32 % 2 ? 2 : 3) : (h / 16 % 2 ? 1 : 2);
			bool x = raises([&] { q = form ? generic(op, a, b, w1, w2, ia, nargs) : typed(op, a, b, w1, w2, ia, nargs); });
			bool ok = w1 >= 0 && w1 <= 1 && w2 >= 0 && w2 <= 1;
			verdict(k, S("%s:%s:%s", form ? "generic" : "typed", OPN[op], TN[t]), ok, x, S("%s of %s and %s with weights %.9g and %.9g", OPN[op], desc(a).c_str(), desc(b).c_str(), w1, w2));
			if (x && (Snap(a) != sa || Snap(b) != sb)) k.fail(S("changed:%s", OPN[op]), "a refused %s changed an operand", OPN[op]);
			k.distinct(mc::mix(ix, mc::mix(hcol(a), hcol(b)))); if (k.want_sample()) k.sample("%s of %s and %s with weights %.9g, %.9g: %s", OPN[op], desc(a).c_str(), desc(b).c_str(), w1, w2, x ? "refused" : "accepted");
			if (q && q != a && q != b) delete q; delete a; delete b;
		}, "weights inside and outside of [0,1]");
	}
	p.add("average", NT * 2 * 2 * 40, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), ia = r.next(2), pl = r.next(2), n = r.next(40); uint64_t h = mc::mix(ix, 2);
		std::vector<Col*> v; for (int i = 0; i < n; ++i) v.push_back(any(t, h + i, h / 64 % nd));
		Col* q = nullptr; bool x = raises([&] { q = average(t, v, ia, pl); });
		verdict(k, S("average:%s", TN[t]), n > 0, x, S("the average of %d %s colours", n, TN[t]));
		k.distinct(mc::mix(ix, 2)); for (auto* c : v) if (c != q) delete c; delete q;
	}, "averages of no colour and of some");
	// combinations
	static std::vector<int> NN; NN.clear();
	for (int i = -3; i <= 12; ++i) NN.push_back(i);
	for (int i : { 100, 255, 256, 257, 300, 358, 359, 360, 361, 362, 400, 512, 616, 720, 1000, 65536, 65538, 100000, -100, -360, -361, -65534, 2147483647, -2147483647, -2147483647 - 1 }) NN.push_back(i);
	if (th) for (int i = 13; i < 420; ++i) NN.push_back(i);
	p.add("combination", (uint64_t)NT * NN.size() * 4, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), n = NN[r.next(NN.size())]; uint64_t h = mc::mix(ix, 3); Col* a = any(t, h, h / 64 % nd); Snap s(a);
		std::vector<Col*> v; bool x = raises([&] { v = CO::create_combination(a, n); });
		verdict(k, S("combination:%s", n <= 0 ? "none" : n < 2 ? "one" : n > 360 ? "many" : "valid"), n >= 2 && n <= 360, x, S("a combination of %d colours of %s", n, desc(a).c_str()));
		if (Snap(a) != s) k.fail("changed:combination", "the base colour changed");
		k.distinct(mc::mix(ix, hcol(a))); for (auto* c : v) if (c != a) delete c; delete a;
	}, "numbers of colours in a combination");
	static std::vector<float> DG; DG = { 0.f, -0.f, 1e-45f, 1e-30f, -1e-30f, 1e-6f, 0.5f, 1, 30, 60, 119, 119.99f, down(120.f), 120.f, up(120.f), 120.01f, 121, 180, 240, 359, 360, 361, 1e6f, 3.4e38f, INF, -1, -30, -120 };
	if (th) for (int i = 1; i < 200; ++i) DG.push_back(i * 1.3f);
	DG = sorted(DG);
	p.add("analogous", (uint64_t)NT * DG.size() * 2 * 6, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT); float d = DG[r.next(DG.size())]; int f = r.next(2); uint64_t h = mc::mix(ix, 4); Col* a = any(t, h, h / 64 % nd); Snap s(a);
		std::vector<Col*> v; bool x = raises([&] { v = f ? CO::create_complimentary_split(a, d) : CO::create_analogous(a, d); });
		verdict(k, S("%s:%s", f ? "complementary_split" : "analogous", d == 0 ? "zero" : d > 120 ? "far" : "valid"), d != 0 && d <= 120, x, S("%s of %s by %.9g degrees", f ? "complementary split" : "analogous colours", desc(a).c_str(), d));
		if (Snap(a) != s) k.fail("changed:analogous", "the base colour changed");
		k.distinct(mc::mix(ix, hcol(a))); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (auto* c : v) if (c != a) delete c; delete a;
	}, "distances of analogous colours and complementary splits");
	static const int MO[] = { 0, 1, 2, 3, -1, 4, 100, 256, -256, 2147483647, -2147483647 }, CN[] = { 2, 1, 3, 10, 0, -1, -2, -100, -2147483647, 50 };
	p.add("monochromatic", (uint64_t)NT * nw * 11 * 10 * (th ? 6 : 1), [=, &W](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT); float am = W[r.next(nw)]; int m = MO[r.next(11)], n = CN[r.next(10)]; uint64_t h = mc::mix(ix, 5); Col* a = any(t, h, h / 64 % nd); Snap s(a);
		bool ok = am >= 0 && am <= 1 && n > 0 && m >= 0 && m <= 2;
		if (n == 1 && (m < 0 || m > 2)) ok = am >= 0 && am <= 1; // a set of the base alone: the mode is never consulted, either is accepted below
		std::vector<Col*> v; bool x = raises([&] { v = CO::create_monochromatic(a, m, am, n); });
		if (!(n == 1 && (m < 0 || m > 2) && ok)) verdict(k, S("monochromatic:%s", am < 0 ? "negative" : am > 1 ? "above" : n <= 0 ? "count" : m < 0 || m > 2 ? "mode" : "valid"), ok, x, S("a monochromatic set of %d colours of %s, mode %d by %.9g", n, desc(a).c_str(), m, am));
		if (Snap(a) != s) k.fail("changed:monochromatic", "the base colour changed");
		k.distinct(mc::mix(ix, hcol(a))); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (auto* c : v) if (c != a) delete c; delete a;
	}, "amounts, modes and lengths of monochromatic sets");
	// component indices
	static const int IX[] = { 0, 1, 2, 3, 4, 5, -1, -2, 100, 255, 256, 65536, -65536, 2147483647, -2147483647 - 1 };
	p.add("index", (uint64_t)NT * 15 * 3 * 8, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), i = IX[r.next(15)], f = r.next(3); uint64_t h = mc::mix(ix, 6); Col* a = any(t, h, h / 64 % nd); Snap s(a);
		float lo, hi; range_of(t, std::max(0, std::min(i, NC[t] - 1)), lo, hi);
		bool ok = i >= 0 && i < NC[t], x = raises([&] { if (f == 0) { volatile float v = a->get_component(i); (void)v; } else if (f == 1) a->set_component(lo, i); else a->set_component(lo, i, hi, lo); });
		static const char* F[] = { "reading", "setting", "setting with a range" };
		verdict(k, S("index:%s", F[f]), ok, x, S("%s component %d of %s", F[f], i, desc(a).c_str()));
		if (!ok && Snap(a) != s) k.fail(S("changed:index:%s", F[f]), "a refused access changed the colour to %s", desc(a).c_str());
		k.distinct(mc::mix(ix, hcol(a))); delete a;
	}, "component indices");
	// a colour from a colour of another type, and sums of different types
	p.add("types", NT * NT * 3 * 16, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), u = r.next(NT), f = r.next(3); uint64_t h = mc::mix(ix, 7); int di = h / 64 % nd; Col *a = any(t, h, di), *b = any(u, h / 5, di); Snap sa(a), sb(b);
		if (f == 2 && t == u) { delete a; delete b; return; }
		bool x; const char* n;
		if (f == 0) { Col* q = nullptr; x = raises([&] { q = from_base(u, *a); }); delete q; n = "construction"; verdict(k, S("construction:%s", TN[u]), t == u, x, S("a %s made of %s", TN[u], desc(a).c_str())); }
		else if (f == 1) { x = raises([&] { cs::color_base s = *a + *b; (void)s; }); n = "sum"; verdict(k, "sum", t == u, x, S("the sum of %s and %s", desc(a).c_str(), desc(b).c_str())); }
		else
		{
			// a base colour without a type
			x = raises([&] { cs::color_base s(1.f, D()[di].lib, NC[u]); Col* q = from_base(u, s); delete q; }); n = "untyped"; verdict(k, S("untyped:%s", TN[u]), false, x, S("a %s made of a colour without a type", TN[u]));
		}
		if (x && (Snap(a) != sa || Snap(b) != sb)) k.fail(S("changed:%s", n), "a refused %s changed an operand", n);
		k.distinct(mc::mix(ix, mc::mix(hcol(a), hcol(b)))); delete a; delete b;
	}, "construction from another type and sums of different types");
	// blending
	p.add("blend", (uint64_t)(modes().size() + pd_ops().size()) * NT * NT * 7, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); size_t m = r.next(modes().size() + pd_ops().size()); int t = r.next(NT), u = r.next(NT), e = r.next(7); uint64_t h = mc::mix(ix, 8); int di = h / 64 % nd, dj = (di + 1 + h / 4096 % (nd - 1)) % nd;
		Col *a = any(t, h, di), *b = any(u, h / 5, e == 2 ? dj : di); if (e > 3) { float c[4] = {}; for (int i = 0; i < NC[u]; ++i) c[i] = b->get_component(i); Col* o = b; b = make(u, c, o->alpha(), ref::relative_of(di, e - 4)); delete o; } Snap sa(a), sb(b); Col* q = nullptr;
		Col *x = e == 0 ? nullptr : a, *y = e == 1 ? nullptr : b;
		const char* n = m < modes().size() ? modes()[m].name : pd_ops()[m - modes().size()].name;
		bool z = raises([&] { q = m < modes().size() ? modes()[m].call(x, y, h & 1, h & 2) : pd_ops()[m - modes().size()].call(x, y); });
		static const char* E[] = { "no source", "no destination", "different definitions", "valid", "definitions of different primaries", "definitions of different curves", "definitions of different whites" };
		verdict(k, S("blend:%s:%s", n, E[e]), e == 3, z, S("%s of %s and %s: %s", n, desc(a).c_str(), desc(b).c_str(), E[e]));
		if (Snap(a) != sa || Snap(b) != sb) k.fail(S("changed:%s", n), "%s changed an operand", n);
		k.distinct(mc::mix(ix, mc::mix(hcol(a), hcol(b)))); if (q && q != a && q != b) delete q; delete a; delete b;
	}, "null operands and different definitions");
	// matrices
	static const int MI[] = { 0, 1, 2, 3, 4, 5, -1, -2, 6, 100, 65536, 2147483647, -2147483647 - 1 };
	p.add("matrix", 5 * 5 * 13 * 13 * 2, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int a = r.next(5) + 1, b = r.next(5) + 1, i = MI[r.next(13)], j = MI[r.next(13)], f = r.next(2);
		matrix<float> m(a, b, 0.5f); const matrix<float>& c = m; matrix<float> before(m);
		bool ok = i >= 0 && i < a && j >= 0 && j < b, x = raises([&] { if (f) m(i, j) = 0.5f; else { volatile float v = c(i, j); (void)v; } });
		verdict(k, "matrix", ok, x, S("element (%d,%d) of a %dx%d matrix", i, j, a, b));
		if (!(m == before)) k.fail("changed:matrix", "a refused access changed the matrix");
		k.distinct(mc::mix(ix, 9));
	}, "matrix indices");
	// hex strings
	p.add("hex", 20 * 24, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int n = r.next(20), f = r.next(24); std::string s; for (int i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[(i * 7 + f) % 22];
		bool ok = n == 6 || n == 8;
		if (f % 4 == 1) s = "#" + s;
		if (f % 4 == 2 && n) { s[(f * 5) % n] = "gG zZ-+.x/:@`#"[f % 14]; ok = false; if ((f * 5) % n == 0 && s[0] == '#') ok = n == 7 || n == 9; }
		if (f % 4 == 3) { s = s + (f & 8 ? " " : "\n"); ok = false; }
		cs::rgb_truecolor* c = nullptr; bool x = raises([&] { c = new cs::rgb_truecolor(s, D()[0].lib); });
		verdict(k, S("hex:%d", n), ok, x, S("the hex code '%s'", s.c_str()));
		k.distinct(mc::hstr(s.c_str())); delete c;
	}, "hex codes");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
