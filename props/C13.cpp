// C13: Porter-Duff compositing.
#include "blend.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static void one(Case& k, const Op& o, Col* a, Col* b, int di)
{
	Snap sa(a), sb(b);
	Col* x = Conv::to_rgb_deep(a); Col* y = Conv::to_rgb_deep(b);
	double s[3], d[3]; for (int i = 0; i < 3; ++i) { s[i] = x->get_component(i); d[i] = y->get_component(i); }
	Col* r = nullptr;
	k.eval();
	if (raises([&] { r = o.call(a, b); })) { k.fail(S("raises:%s", o.name), "%s of %s and %s raised", o.name, desc(a).c_str(), desc(b).c_str()); return; }
	Comp c = composite(s, x->alpha(), d, y->alpha(), o.s, o.d, o.b, o.f);
	std::string why = wrong(r, sa.t, c, &D()[di].ref, D()[di].lib);
	if (!why.empty()) k.fail(S("value:%s:%s", o.name, TN[sa.t]), "%s of %s and %s (%s) is %s: %s", o.name, desc(a).c_str(), desc(b).c_str(), D()[di].name, desc(r).c_str(), why.c_str());
	if (Snap(a) != sa || Snap(b) != sb) k.fail(S("operand:%s", o.name), "%s of %s and %s changed an operand", o.name, desc(a).c_str(), desc(b).c_str());
	if (x->alpha() != 0 && y->alpha() != 0 && !(x->alpha() == 1 && y->alpha() == 1)) k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), mc::hstr(o.name))));
	if (k.want_sample()) k.sample("%s of %s and %s -> %s", o.name, desc(a).c_str(), desc(b).c_str(), desc(r).c_str());
	if (x != a) delete x;
	if (y != b) delete y;
	if (r != a && r != b) delete r;
}
static void build(Plan& p)
{
	p.property = "C13"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "all twelve operators; every pair of deep rgb components from a grid with every pair of alphas from a grid; and all 15x15 pairs of source and destination types with colours of a small grid, alphas and definitions; non-trivial when both alphas are above 0 and not both are 1, distinct by operands and result";
	p.assumptions = { "a fully transparent result is black", "8-bit results are rounded" };
	auto& ops = pd_ops();
	int n = th ? 41 : 17, m = th ? 16 : 12; // component and alpha grids
	p.add("deep", ops.size() * n * n * m * m, [=, &ops](uint64_t ix, Case& k)
	{
		static const float A[] = { 0.f, 1.f, 0.5f, 0.25f, 0.9f, 1.f / 255, 0.001f, 0.75f, 0.1f, 0.2f, 0.3f, 0.4f, 0.6f, 0.7f, 0.8f, 0.999f };
		Radix r(ix); auto& o = ops[r.next(ops.size())];
		int i = r.next(n), j = r.next(n); float al = A[r.next(m)], be = A[r.next(m)];
		float s[3] = { (float)i / (n - 1), (float)j / (n - 1), (float)((i + j) % n) / (n - 1) }, d[3] = { (float)j / (n - 1), (float)((i * 3 + 1) % n) / (n - 1), (float)((j * 5 + i) % n) / (n - 1) };
		int di = ix % D().size();
		Col* a = make(RGB_DEEP, s, al, D()[di].lib); Col* b = make(RGB_DEEP, d, be, D()[di].lib);
		one(k, o, a, b, di);
		delete a; delete b;
	}, "deep rgb, components and alphas");
	std::vector<Grid> G; for (int t = 0; t < NT; ++t) G.push_back(make_grid(t, NC[t] == 4 ? 2 : NC[t] == 1 ? 5 : 3));
	int q = th ? 40 : 14;
	p.add("types", (uint64_t)ops.size() * NT * NT * q * q * 5, [=, &ops](uint64_t ix, Case& k)
	{
		static const float A[][2] = { { 0.5f, 0.25f }, { 1, 1 }, { 0.8f, 1 }, { 1, 0.4f }, { 0, 0.6f } };
		Radix r(ix); auto& o = ops[r.next(ops.size())]; int t = r.next(NT), u = r.next(NT); int i = r.next(q), j = r.next(q), al = r.next(5);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[u].get((j * 11 + 5) % G[u].n, d);
		int di = ix / 7 % D().size();
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib); Col* b = make(u, d, A[al][1] * alpha_max(u), D()[di].lib);
		one(k, o, a, b, di);
		delete a; delete b;
	}, "all pairs of types");
	static std::vector<Lines> L; L.clear(); for (int t = 0; t < NT; ++t) L.push_back(make_lines(t, th ? 6400 : 300));
	static std::vector<uint64_t> LO; LO.assign(1, 0); for (auto& l : L) LO.push_back(LO.back() + l.n);
	// a colour on a line of some type against a colour of any type
	auto on_line = [](uint64_t i, uint64_t h, int& t, float* c, int& u, float* e) { t = 0; while (i >= LO[t + 1]) ++t; int b; L[t].get(i - LO[t], c, &b); u = h % 3 ? t : (int)(h / 4 % NT); L[u].at(h / 128 % 3 ? b : (int)(h / 512 % 8), e); };
	static const float AF[] = { 1.f, 0.5f, 0.25f, 0.8f, 0.f, 0.9f, 0.999f, 0.004f };
	p.add("lines", LO.back() * (th ? 24 : 4), [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); r.next(th ? 24 : 4); uint64_t h = mc::mix(ix, 31); int t, u; float c[4], e[4]; on_line(r.next(LO.back()), h >> 8, t, c, u, e);
		int di = h % D().size(); Col* a = make(t, c, AF[(h >> 40) % 8] * alpha_max(t), D()[di].lib); Col* b = make(u, e, AF[(h >> 43) % 8] * alpha_max(u), D()[di].lib);
		auto& o = ops[(h >> 48) % ops.size()]; if (h >> 63) one(k, o, a, b, di); else one(k, o, b, a, di);
		delete a; delete b;
	}, "one component of an operand moved finely through its range");
	p.add("fine_alphas", ops.size() * 256 * (th ? 256 : 64) * 2, [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& o = ops[r.next(ops.size())]; float al = r.next(256) / 255.f, be = th ? r.next(256) / 255.f : r.next(64) / 63.f; int by = r.next(2); uint64_t h = mc::mix(ix, 32);
		int t = by ? (int)(h % NT) : (int)RGB_DEEP, u = by ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); one(k, o, a, b, di); delete a; delete b;
	}, "all pairs of finely spaced alphas");
	p.add("edge_alphas", ops.size() * unit_edges().size() * unit_edges().size() * (th ? 24 : 4), [=, &ops](uint64_t ix, Case& k)
	{
		auto& U = unit_edges(); Radix r(ix); auto& o = ops[r.next(ops.size())]; float al = U[r.next(U.size())], be = U[r.next(U.size())]; int by = r.next(th ? 24 : 4) % 4; uint64_t h = mc::mix(ix, 33);
		int t = by == 3 ? (int)(h % NT) : (int)RGB_DEEP, u = by == 3 ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); one(k, o, a, b, di); delete a; delete b;
	}, "all pairs of alphas near 0 and 1, in decades, and next to round ones");
	p.add("same_object", (uint64_t)ops.size() * NT * 24 * 4, [=, &ops](uint64_t ix, Case& k)
	{
		static const float A[] = { 1.f, 0.5f, 0.f, 0.3f };
		Radix r(ix); auto& o = ops[r.next(ops.size())]; int t = r.next(NT); float s[4]; G[t].get(r.next(24) * 5 % G[t].n, s);
		int di = ix % D().size();
		Col* a = make(t, s, A[r.next(4)] * alpha_max(t), D()[di].lib);
		one(k, o, a, a, di);
		delete a;
	}, "a colour with itself");
	p.add("laws", 9 * 9 * 6 * 6, [](uint64_t ix, Case& k)
	{
		// identities between operators, decided on the implementation alone
		static const float A[] = { 0.f, 1.f, 0.5f, 0.2f, 0.9f, 0.05f };
		Radix r(ix); int i = r.next(9), j = r.next(9); float al = A[r.next(6)], be = A[r.next(6)];
		float s[3] = { i / 8.f, j / 8.f, 0.3f }, d[3] = { j / 8.f, 0.9f, i / 8.f };
		Col* a = make(RGB_DEEP, s, al, D()[0].lib); Col* b = make(RGB_DEEP, d, be, D()[0].lib);
		auto eq = [&](const char* n, Col* x, Col* y) { k.eval(); for (int c = 0; c < 3; ++c) if (!close(x->get_component(c), y->get_component(c), 3e-6)) { k.fail(S("law:%s", n), "%s: %s and %s give %s and %s", n, desc(a).c_str(), desc(b).c_str(), desc(x).c_str(), desc(y).c_str()); return; } if (!close(x->alpha(), y->alpha(), 3e-6)) k.fail(S("law:%s", n), "%s: alpha of %s and %s", n, desc(x).c_str(), desc(y).c_str()); };
		eq("over swapped is dest_over", PD::over(a, b), PD::dest_over(b, a));
		eq("atop swapped is dest_atop", PD::atop(a, b), PD::dest_atop(b, a));
		eq("in swapped is dest_in", PD::in(a, b), PD::dest_in(b, a));
		eq("out swapped is dest_out", PD::out(a, b), PD::dest_out(b, a));
		eq("xor commutes", PD::x_or(a, b), PD::x_or(b, a));
		if (al > 0) eq("src is the source", PD::src(a, b), a);
		if (be > 0) eq("dest is the destination", PD::dest(a, b), b);
		if (al == 1) eq("opaque over", PD::over(a, b), a);
		if (al == 0 && be > 0) eq("nothing over", PD::over(a, b), b);
		k.distinct(ix);
	}, "identities");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
