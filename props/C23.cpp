// C23: saturating and luminating a colour.
#include "calc.h"
#include "manipulation/color_adjustments.h"
typedef color_manipulation::color_adjustments AD;
static std::vector<ref::LD>& D() { return ref::defs(); }
static const char* FN[] = { "saturate_rgb", "saturate_hsl", "luminate_rgb", "luminate_hsl" };
static Col* call(int f, Col* c, float p) { return f == 0 ? AD::saturate_in_rgb_space(c, p) : f == 1 ? AD::saturate_in_hsl_space(c, p) : f == 2 ? AD::luminate_in_rgb_space(c, p) : AD::luminate_in_hsl_space(c, p); }
static void place(int f, Col& c, float p) { f == 0 ? AD::saturate_in_rgb_space(c, p) : f == 1 ? AD::saturate_in_hsl_space(c, p) : f == 2 ? AD::luminate_in_rgb_space(c, p) : AD::luminate_in_hsl_space(c, p); }
static ref::V want(int f, Col* c, float p, const ref::RDef* d)
{
	Col* x = conv(c, f & 1 ? HSL : RGB_DEEP); ref::V w = ref::of(x, d); if (x != c) delete x;
	double L = 0.299 * w.c[0] + 0.587 * w.c[1] + 0.114 * w.c[2];
	if (f == 0) for (int i = 0; i < 3; ++i) w.c[i] += p * (w.c[i] - L);
	else if (f == 1) w.c[1] *= 1 + (double)p;
	else if (f == 2) for (int i = 0; i < 3; ++i) w.c[i] *= 1 + (double)p;
	else w.c[2] *= 1 + (double)p;
	return ref::clampv(w);
}
static std::string wrong(const Col* r, int t, const ref::V& w, float al, Def* d, const ref::V& from)
{
	if (!r) return "nothing is returned";
	if (r->get_color_type() != t) return "the type differs";
	if (r->get_rgb_color_space() != d) return "the result has another rgb definition";
	std::string why; if (!in_range(r, &why)) return why;
	if (!close(r->alpha(), al, is_true(t) ? 0.501 : 3e-6)) return S("alpha is %.8g, expected %.8g", r->alpha(), al);
	if (t == w.t)
	{
		for (int i = 0; i < NC[t]; ++i)
		{
			float lo, hi; range_of(t, i, lo, hi);
			if (!closer(r->get_component(i), w.c[i], 4e-6, 2e-6 * hi)) return S("component %d, expected %.8g", i, w.c[i]);
		}
		return "";
	}
	std::string s = cmp::differs(r, cmp::expect(w, t), 1.5);
	// at the ends of the hue range a step decides between 0 and 359
	if (!s.empty() && w.t == HSL && (w.c[0] > 358.98 || w.c[0] < 0.02))
		for (double h : { 0.0, 359.0 }) { ref::V u = w; u.c[0] = h; if (cmp::differs(r, cmp::expect(u, t), 1.5).empty()) return ""; }
	(void)from;
	return s;
}
static void one(Case& k, int f, int t, const float* c, float al, float p, int di)
{
	float am = alpha_max(t); k.eval();
	Col* a = make(t, c, al * am, D()[di].lib); Snap sa(a);
	std::string what = S("%s of %s by %g", FN[f], desc(a).c_str(), p);
	ref::V from = ref::of(a, &D()[di].ref), w = want(f, a, p, &D()[di].ref);
	Col* b = clone(a); Col* r = nullptr;
	if (raises([&] { r = call(f, a, p); })) { k.fail(S("raises:%s", FN[f]), "%s raised", what.c_str()); return; }
	std::string why = wrong(r, t, w, sa.a, sa.d, from);
	if (!why.empty() && !(p == 0 && r == a)) k.fail(S("value:%s:%s", FN[f], TN[t]), "%s is %s: %s", what.c_str(), desc(r).c_str(), why.c_str());
	if (Snap(a) != sa) k.fail(S("operand:%s:%s", FN[f], TN[t]), "%s changed its operand to %s", what.c_str(), desc(a).c_str());
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(r)), mc::mix(mc::fbits(p), f)));
	if (k.want_sample()) k.sample("%s is %s", what.c_str(), desc(r).c_str());
	k.eval();
	if (raises([&] { place(f, *b, p); })) k.fail(S("raises:in place:%s", FN[f]), "%s in place raised", what.c_str());
	else
	{
		why = wrong(b, t, w, sa.a, sa.d, from);
		if (!why.empty() && !(p == 0 && Snap(b) == sa)) k.fail(S("in_place:%s:%s", FN[f], TN[t]), "%s in place is %s: %s", what.c_str(), desc(b).c_str(), why.c_str());
	}
	if (r && r != a) delete r;
	delete a; delete b;
}
static void build(Plan& p)
{
	p.property = "C23"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 15 types all colours of a grid over the component ranges, the four adjustments by 13 amounts from -1 to 1 and 4 beyond, alphas and definitions from a grid, as a function and in place; distinct by colour, amount, adjustment and result";
	p.assumptions = { "the conversions to and from the space the adjustment works in are C09 to C11", "amounts beyond -1 and 1 follow the same formulas, and the results are limited" };
	static const float A[] = { 1.f, 0.f, 0.5f, 0.2f, 0.9f };
	static const float PC[] = { 0.5f, -0.5f, 1.f, -1.f, 0.f, 0.1f, -0.1f, 0.25f, -0.25f, 0.9f, -0.9f, 0.01f, -1.f / 3, -1.5f, 1.5f, 3.f, -2.5f };
	int nd = D().size();
	for (int t = 0; t < NT; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? (th ? 6 : 5) : th ? 14 : 7, NC[t] != 4 || th);
		Lines l = make_lines(t, th ? 2400 : 400);
		p.add(S("lines:%s", TN[t]), l.n * 4 * (th ? 6 : 2), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(4); r.next(th ? 6 : 2); float c[4]; l.get(r.next(l.n), c); uint64_t h = mc::mix(ix, 13);
			one(k, f, t, c, A[(h >> 3) % 5], PC[h / 64 % 17], (h >> 20) % nd);
		}, "one component moved finely through its range");
		p.add(S("fine_amounts:%s", TN[t]), 4 * (th ? 4001 : 801) * 8, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(4), q = r.next(8); float c[4]; l.at(q, c); uint64_t h = mc::mix(ix, 14); uint64_t n = th ? 4000 : 800;
			one(k, f, t, c, A[(h >> 3) % 5], -2 + 4.f * r.next(n + 1) / n, (h >> 20) % nd);
		}, "amounts moved finely from -2 to 2");
		p.add(S("edge_amounts:%s", TN[t]), 4 * 4 * unit_edges().size() * 8, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(4), s = r.next(4); float x = unit_edges()[r.next(unit_edges().size())]; float c[4]; l.at(r.next(8), c); uint64_t h = mc::mix(ix, 34);
			one(k, f, t, c, unit_edges()[h % unit_edges().size()], s == 0 ? x : s == 1 ? -x : s == 2 ? 1 + x * 10 : -1 - x * 10, (h >> 20) % nd);
		}, "amounts near 0 and 1, in decades, and next to round ones");
		p.add(S("fine_alphas:%s", TN[t]), 4 * 256 * 4, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(4), q = r.next(4); float c[4]; l.at(q * 2 + ix % 2, c); uint64_t h = mc::mix(ix, 15);
			one(k, f, t, c, r.next(256) / 255.f, PC[h / 64 % 17], (h >> 20) % nd);
		}, "alphas moved finely from 0 to 1");
		p.add(S("%s", TN[t]), g.n * 4 * (th ? 17 : 4), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int di = ix % nd; int f = r.next(4); uint64_t v = r.next(th ? 17 : 4); uint64_t i = r.next(g.n); float c[4]; g.get(i, c);
			uint64_t h = mc::mix(i, 9); di = (h / 4096 + v) % nd;
			one(k, f, t, c, A[(h >> 3) % 5], th ? PC[v] : PC[(v * 4 + h) % 17], di);
		});
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
