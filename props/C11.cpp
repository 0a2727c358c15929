// C11: conversions from, to and among the colorimetric models follow their definitions.
#include "cmp.h"
#include "grids.h"
// the predefined definitions, then user-made ones over every predefined white point and curve
static std::vector<ref::LD>& D()
{
	static std::vector<ref::LD> v;
	if (v.empty())
	{
		v = ref::defs();
		static const double P[2][6] = { { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06 }, { 0.7, 0.29, 0.17, 0.75, 0.13, 0.05 } };
		for (int i = 0; i < ref::NWHITES; ++i)
		{
			const double* p = P[i / 3 % 2]; int g = i % 8;
			ref::LD l; l.name = ref::WHITES[i].name;
			l.lib = new Def((float)p[0], (float)p[1], (float)p[2], (float)p[3], (float)p[4], (float)p[5], ref::WHITES[i].get(), ref::lib_curve(g));
			l.ref = ref::make_ref(p, ref::WHITES[i].w, g);
			v.push_back(l);
		}
	}
	return v;
}
static void one(Case& k, int t, const float* c, int u, int di)
{
	Col* x = make(t, c, 1.f * alpha_max(t), D()[di].lib);
	ref::V v = ref::of(x, &D()[di].ref);
	cmp::Expect e = cmp::expect(v, u);
	if (!e.phys) { delete x; return; }
	Col* r = conv(x, u);
	k.eval();
	std::string why = cmp::differs(r, e);
	if (!why.empty()) k.fail(S("value:%s:%s", TN[t], TN[u]), "%s in %s gives %s: %s", desc(x).c_str(), D()[di].name, desc(r).c_str(), why.c_str());
	k.distinct(mc::mix(mc::mix(hcol(x), hcol(r)), di));
	if (k.want_sample()) k.sample("%s in %s -> %s", desc(x).c_str(), D()[di].name, desc(r).c_str());
	if (r != x) delete r;
	delete x;
}
static void build(Plan& p)
{
	p.property = "C11"; p.level = "exploration";
	p.rule = "all ordered pairs of types of which at least one is colorimetric, each under all 20 predefined definitions and (smaller grids) under 40 assembled ones, every colour of a grid over the component ranges including the neighbourhood of every case distinction; sources without a meaning (negative tristimulus values) are left out; distinct by source, definition and result";
	p.assumptions = { "colours whose definition has no meaning (e.g. a chromaticity of y = 0 with light) are not claimed beyond C09", "results are clamped to the component ranges of C01" };
	static const bool th = p.thorough;
	int nd = ref::defs().size(), na = D().size();
	for (int t = 0; t < NT; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? (th ? 8 : 5) : th ? 15 : 5, NC[t] != 4);
		std::vector<int> U; for (int u = 0; u < NT; ++u) if (u != t && (!is_device(t) || !is_device(u))) U.push_back(u);
		p.add(S("grid:%s", TN[t]), g.n * U.size() * nd, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int di = r.next(nd); int u = U[r.next(U.size())];
			float c[4]; g.get(r.next(g.n), c);
			one(k, t, c, u, di);
		}, "grid colours, definition varying fastest");
		Lines l = make_lines(t, th ? 2400 : 300);
		p.add(S("lines:%s", TN[t]), l.n * U.size() * (th ? 6 : 1), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = U[r.next(U.size())]; r.next(th ? 6 : 1); float c[4]; l.get(r.next(l.n), c);
			one(k, t, c, u, mc::mix(ix, 22) % na);
		}, "one component moved finely through its range");
		Grid h = make_grid(t, NC[t] == 1 ? 18 : NC[t] == 4 ? 3 : th ? 9 : 5);
		p.add(S("user:%s", TN[t]), h.n * U.size() * (na - nd), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int di = nd + r.next(na - nd); int u = U[r.next(U.size())];
			float c[4]; h.get(r.next(h.n), c);
			one(k, t, c, u, di);
		}, "definitions assembled by the user: every predefined white point, all curves");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
