// C14: the blend modes that treat each rgb component alike.
#include "blend.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static std::string one(Case& k, const Mode& o, Col* a, Col* b, int di, bool us, bool ud)
{
	Snap sa(a), sb(b);
	Col* x = Conv::to_rgb_deep(a); Col* y = Conv::to_rgb_deep(b);
	double s[3], d[3]; for (int i = 0; i < 3; ++i) { s[i] = x->get_component(i); d[i] = y->get_component(i); }
	Col* r = nullptr;
	k.eval();
	if (raises([&] { r = o.call(a, b, us, ud); })) { k.fail(S("raises:%s", o.name), "%s of %s and %s raised", o.name, desc(a).c_str(), desc(b).c_str()); return ""; }
	Comp c = composite(s, x->alpha(), d, y->alpha(), us, ud, true, o.f);
	std::string why = wrong(r, sa.t, c, &D()[di].ref, D()[di].lib);
	if (!why.empty()) k.fail(S("value:%s:%s", o.name, TN[sa.t]), "%s of %s and %s (regions %d %d, %s) is %s: %s", o.name, desc(a).c_str(), desc(b).c_str(), us, ud, D()[di].name, desc(r).c_str(), why.c_str());
	if (Snap(a) != sa || Snap(b) != sb) k.fail(S("operand:%s", o.name), "%s of %s and %s changed an operand", o.name, desc(a).c_str(), desc(b).c_str());
	if (us && ud)
	{
		Col* q = o.plain(a, b); k.eval();
		if (Snap(q) != Snap(r)) k.fail(S("default:%s", o.name), "%s without region arguments gives %s, with both regions %s", o.name, desc(q).c_str(), desc(r).c_str());
		if (q != r) delete q;
	}
	if (x->alpha() != 0 && y->alpha() != 0) k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), mc::hstr(o.name))));
	if (k.want_sample()) k.sample("%s of %s and %s (regions %d %d) -> %s", o.name, desc(a).c_str(), desc(b).c_str(), us, ud, desc(r).c_str());
	if (x != a) delete x;
	if (y != b) delete y;
	if (r != a && r != b) delete r;
	return why;
}
static void build(Plan& p)
{
	p.property = "C14"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "all 22 component-wise modes with all four choices of regions; every pair (source component, destination component) of a fine grid including the halves, ends and their neighbourhood, with opaque and translucent alphas; and all pairs of source and destination types with colours of a small grid; distinct by operands and result";
	p.assumptions = { "color burn is the library's own definition, min(1,(1-d)/s)", "hard mix at the border s + d = 1, where rounding decides, may go either way", "8-bit results are rounded" };
	auto& ops = modes();
	int n = th ? 513 : 129;
	static std::vector<float> X;
	X.clear(); for (int i = 0; i < n; ++i) X.push_back((float)i / (n - 1));
	for (float f : { 1e-6f, 0.001f, 0.499f, 0.4999f, 0.5001f, 0.501f, 0.999f, 0.9999f, 0.2f, 0.3f, 1.f / 3, 0.6f, 0.7f, 0.8f, 0.05f, 0.95f }) X.push_back(f);
	uint64_t m = X.size();
	static const float A[][2] = { { 1, 1 }, { 0.5f, 0.25f }, { 1, 0.4f }, { 0.8f, 1 }, { 0, 0.5f }, { 0.3f, 0 }, { 0, 0 }, { 0.004f, 0.9f } };
	uint64_t m3 = (m + 2) / 3;
	p.add("components", ops.size() * m * m3 * 8 * 4, [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); int reg = r.next(4); int al = r.next(8); auto& o = ops[r.next(ops.size())];
		int i = r.next(m), j = r.next(m3);
		// three pairs at once, one per rgb component
		float s[3] = { X[i], X[(i + 7) % m], X[(i + 31) % m] }, d[3] = { X[j % m], X[(j + m3) % m], X[(j + 2 * m3) % m] };
		int di = ix % D().size();
		Col* a = make(RGB_DEEP, s, A[al][0], D()[di].lib); Col* b = make(RGB_DEEP, d, A[al][1], D()[di].lib);
		one(k, o, a, b, di, reg & 1, reg & 2);
		delete a; delete b;
	}, "every pair of component values, all alphas and regions");
	std::vector<Grid> G; for (int t = 0; t < NT; ++t) G.push_back(make_grid(t, NC[t] == 4 ? 2 : NC[t] == 1 ? 5 : 3));
	int q = th ? 32 : 10;
	p.add("types", (uint64_t)ops.size() * NT * NT * q * q * 4, [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& o = ops[r.next(ops.size())]; int t = r.next(NT), u = r.next(NT); int i = r.next(q), j = r.next(q); int al = r.next(4);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[u].get((j * 11 + 5) % G[u].n, d);
		int di = ix / 7 % D().size(); int reg = ix / 3 % 4;
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib); Col* b = make(u, d, A[al][1] * alpha_max(u), D()[di].lib);
		one(k, o, a, b, di, reg & 1, reg & 2);
		delete a; delete b;
	}, "all pairs of types");
	static std::vector<Lines> L; L.clear(); for (int t = 0; t < NT; ++t) L.push_back(make_lines(t, th ? 1600 : 200));
	static std::vector<uint64_t> LO; LO.assign(1, 0); for (auto& l : L) LO.push_back(LO.back() + l.n);
	// a colour on a line of some type against a colour of any type
	auto on_line = [](uint64_t i, uint64_t h, int& t, float* c, int& u, float* e) { t = 0; while (i >= LO[t + 1]) ++t; int b; L[t].get(i - LO[t], c, &b); u = h % 3 ? t : (int)(h / 4 % NT); L[u].at(h / 128 % 3 ? b : (int)(h / 512 % 8), e); };
	static const float AF[] = { 1.f, 0.5f, 0.25f, 0.8f, 0.f, 0.9f, 0.999f, 0.004f };
	p.add("lines", LO.back() * (th ? 44 : 6), [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); r.next(th ? 44 : 6); uint64_t h = mc::mix(ix, 31); int t, u; float c[4], e[4]; on_line(r.next(LO.back()), h >> 8, t, c, u, e);
		int di = h % D().size(); Col* a = make(t, c, AF[(h >> 40) % 8] * alpha_max(t), D()[di].lib); Col* b = make(u, e, AF[(h >> 43) % 8] * alpha_max(u), D()[di].lib);
		auto& o = ops[(h >> 48) % ops.size()]; int reg = (h >> 56) % 8; bool us = reg & 1 || reg > 3, ud = reg & 2 || reg > 3; if (h >> 63) one(k, o, a, b, di, us, ud); else one(k, o, b, a, di, us, ud);
		delete a; delete b;
	}, "one component of an operand moved finely through its range");
	p.add("fine_alphas", ops.size() * 256 * (th ? 256 : 32) * 2, [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& o = ops[r.next(ops.size())]; float al = r.next(256) / 255.f, be = th ? r.next(256) / 255.f : r.next(32) / 31.f; int by = r.next(2); uint64_t h = mc::mix(ix, 32);
		int t = by ? (int)(h % NT) : (int)RGB_DEEP, u = by ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		bool sw = h >> 63; Col* a = make(t, c, (sw ? be : al) * alpha_max(t), D()[di].lib); Col* b = make(u, e, (sw ? al : be) * alpha_max(u), D()[di].lib); one(k, o, a, b, di, (h >> 40) % 4, (h >> 42) % 4); delete a; delete b;
	}, "all pairs of finely spaced alphas");
	p.add("edges", ops.size() * unit_edges().size() * unit_edges().size() * (th ? 12 : 2), [=, &ops](uint64_t ix, Case& k)
	{
		auto& U = unit_edges(); uint64_t n = U.size(); Radix r(ix); int by = r.next(th ? 12 : 2); auto& o = ops[r.next(ops.size())]; uint64_t i = r.next(n), j = r.next(n); uint64_t h = mc::mix(ix, 34);
		// three pairs at once, one per rgb component
		float s[3] = { U[i], U[(i + 3) % n], U[(i + 11) % n] }, d[3] = { U[j], U[(j + 5) % n], U[(j + 17) % n] }; int al = by ? h % 4 : 0, di = (h >> 20) % D().size();
		Col* a = make(RGB_DEEP, s, A[al][0], D()[di].lib); Col* b = make(RGB_DEEP, d, A[al][1], D()[di].lib); one(k, o, a, b, di, (h >> 40) % 4, (h >> 42) % 4); delete a; delete b;
	}, "all pairs of components near 0 and 1, in decades, and next to round ones");
	p.add("edge_alphas", ops.size() * unit_edges().size() * unit_edges().size() * (th ? 24 : 4), [=, &ops](uint64_t ix, Case& k)
	{
		auto& U = unit_edges(); Radix r(ix); auto& o = ops[r.next(ops.size())]; float al = U[r.next(U.size())], be = U[r.next(U.size())]; int by = r.next(th ? 24 : 4) % 4; uint64_t h = mc::mix(ix, 33);
		int t = by == 3 ? (int)(h % NT) : (int)RGB_DEEP, u = by == 3 ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); one(k, o, a, b, di, (h >> 40) % 4, (h >> 42) % 4); delete a; delete b;
	}, "all pairs of alphas near 0 and 1, in decades, and next to round ones");
	p.add("same_object", (uint64_t)ops.size() * NT * 24 * 4, [=, &ops](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& o = ops[r.next(ops.size())]; int t = r.next(NT); float s[4]; G[t].get(r.next(24) * 5 % G[t].n, s);
		int di = ix % D().size(), al = r.next(4);
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib);
		one(k, o, a, a, di, true, ix & 1);
		delete a;
	}, "a colour with itself");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
