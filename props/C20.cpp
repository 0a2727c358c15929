// C20: arithmetic on colours of any two types is the arithmetic of the first colour's type on the converted second colour.
#include "calc.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static void one(Case& k, int op, int t, int u, const float* c, const float* e, float al, float be, float w1, float w2, bool ia, int nargs, int di, int dj, bool self = false)
{
	float am = alpha_max(t);
	Col* a = make(t, c, al * am, D()[di].lib); Col* b = self ? a : make(u, e, be * alpha_max(u), D()[dj].lib);
	Snap sa(a), sb(b);
	Col* r = nullptr; Col* q = nullptr; Col* x = nullptr; k.eval();
	std::string what = S("%s of %s and %s, weights %g %g%s", OPN[op], desc(a).c_str(), desc(b).c_str(), w1, w2, ia ? ", with alpha" : ""); if (self) what += ", the same object";
	Col* bc = self ? clone(a) : b;
	if (raises([&] { r = generic(op, a, b, w1, w2, ia, nargs); })) { k.fail(S("raises:%s:%s:%s", OPN[op], TN[t], TN[u]), "%s raised", what.c_str()); return; }
	if (Snap(a) != sa || Snap(b) != sb) { k.fail(S("operand:%s:%s:%s", OPN[op], TN[t], TN[u]), "%s changed an operand", what.c_str()); return; }
	if (raises([&] { x = to_named(bc, t); q = typed(op, a, x, w1, w2, ia, nargs); })) { k.fail(S("raises_typed:%s:%s", OPN[op], TN[t]), "%s raised", what.c_str()); return; }
	std::string why;
	if (!r || !q) why = r == q ? "" : "only one of the two returns a colour";
	else if (r->get_color_type() != t) why = "the result does not have the type of the first colour";
	else if (r->get_rgb_color_space() != sa.d) why = "the result has another rgb definition";
	else if (!close(r->alpha(), q->alpha(), 2e-6 * am)) why = S("alpha, expected %.8g", q->alpha());
	else for (int i = 0; i < NC[t] && why.empty(); ++i)
	{
		float lo, hi; range_of(t, i, lo, hi);
		double d = fabs(r->get_component(i) - q->get_component(i)); if (hue_comp(t, i)) d = std::min(d, 360 - d);
		if (!(d <= 1e-5 * (hi - lo))) why = S("component %d, expected %.8g", i, q->get_component(i));
	}
	if (!why.empty()) k.fail(S("value:%s:%s:%s", OPN[op], TN[t], TN[u]), "%s is %s: %s", what.c_str(), desc(r).c_str(), why.c_str());
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), op * 2 + ia)));
	if (k.want_sample()) k.sample("%s is %s", what.c_str(), desc(r).c_str());
	std::vector<Col*> z = { a, b, bc, r, q, x }; std::sort(z.begin(), z.end()); z.erase(std::unique(z.begin(), z.end()), z.end());
	for (auto* y : z) delete y;
}
static void build(Plan& p)
{
	p.property = "C20"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 225 ordered pairs of types and the three operations: all pairs of colours of two grids with weights, alphas, alpha inclusion and definitions from grids, and with omitted arguments; distinct by operands, operation and result";
	p.assumptions = { "the arithmetic of one type is C17 and C18, the conversions are C09 to C11" };
	int nd = D().size();
	static const float A[] = { 1.f, 0.f, 0.5f, 0.2f, 0.9f };
	for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 2 : 3), f = make_grid(u, NC[u] == 1 ? 9 : NC[u] == 4 ? 2 : 3);
		uint64_t per = th ? 30 : 3;
		p.add(S("%s:%s", TN[t], TN[u]), per * 3 * f.n * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int v = r.next(per), op = r.next(3); float c[4], e[4]; g.get(r.next(g.n), c); f.get(r.next(f.n), e);
			uint64_t h = mc::mix(ix, v); int di = h % nd, dj = h / 32 % 2 ? di : (h / 64) % nd;
			int na = v == 0 && h / 4096 % 4 == 0 ? h / 16384 % 3 : 3;
			one(k, op, t, u, c, e, A[(h >> 20) % 5], A[(h >> 24) % 5], WT[(h >> 28) % 13], WT[(h >> 34) % 13], (h >> 40) % 2, na, di, dj);
		});
	}
	for (int t = 0; t < NT; ++t)
	{
		Lines l = make_lines(t, th ? 1600 : 200);
		p.add(S("lines:%s", TN[t]), l.n * 6 * (th ? 8 : 1), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int op = r.next(3), sw = r.next(2); r.next(th ? 8 : 1); float c[4]; int b; l.get(r.next(l.n), c, &b); uint64_t h = mc::mix(ix, 11); int u = h % NT; float e[4];
			static const std::vector<Lines> L = [] { std::vector<Lines> v; for (int q = 0; q < NT; ++q) v.push_back(make_lines(q, 2)); return v; }();
			L[u].at(h / 16 % 8, e); int di = (h >> 10) % nd;
			if (sw) one(k, op, u, t, e, c, A[(h >> 20) % 5], A[(h >> 24) % 5], WT[(h >> 28) % 13], WT[(h >> 34) % 13], (h >> 40) % 2, 3, di, di);
			else one(k, op, t, u, c, e, A[(h >> 20) % 5], A[(h >> 24) % 5], WT[(h >> 28) % 13], WT[(h >> 34) % 13], (h >> 40) % 2, 3, di, di);
		}, "one component of an operand moved finely through its range");
		p.add(S("edges:%s", TN[t]), unit_edges().size() * NT * 3 * 2 * (th ? 8 : 2), [=](uint64_t ix, Case& k)
		{
			static const std::vector<Lines> L = [] { std::vector<Lines> v; for (int q = 0; q < NT; ++q) v.push_back(make_lines(q, 2)); return v; }();
			auto& U = unit_edges(); Radix r(ix); uint64_t n = U.size(); float w = U[r.next(n)]; int u = r.next(NT), op = r.next(3), al = r.next(2); uint64_t h = mc::mix(ix, 12); float c[4], e[4]; L[t].at(h % 8, c); L[u].at(h / 8 % 8, e); h /= 64; int di = h % nd;
			if (al) one(k, op, t, u, c, e, w, U[h / 32 % n], WT[(h >> 12) % 13], WT[(h >> 18) % 13], (h >> 24) % 4, 3, di, di);
			else one(k, op, t, u, c, e, A[(h >> 5) % 5], U[(h >> 10) % n], w, U[(h >> 20) % n], (h >> 30) % 2, 3, di, di);
		}, "weights and alphas near 0 and 1, in decades, and next to round ones");
		Grid g = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 3 : th ? 7 : 5);
		p.add(S("same_object:%s", TN[t]), g.n * 3 * 2 * 6, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int op = r.next(3), ia = r.next(2), v = r.next(6); float c[4]; g.get(r.next(g.n), c); uint64_t h = mc::mix(ix, 5);
			one(k, op, t, t, c, c, A[h % 5], 0, WT[(h >> 8) % 13], WT[(h >> 16) % 13], ia, v ? 3 : h / 64 % 3, (h >> 24) % nd, 0, true);
		}, "a colour combined with itself, one object");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
