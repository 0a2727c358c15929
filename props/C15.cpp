// C15: the blend modes that mix hue, chroma and luma, and dissolve with its dice enumerated.
#include "blend.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
// the library's only source of nondeterminism, under the explorer's control
static int g_seq[8]; static int g_len = 0; static uint64_t g_calls = 0;
extern "C" int rand() { if (!g_len) return 50; return g_seq[g_calls++ % g_len]; }

struct HM { const char* name; Col* (*call)(Col*, Col*, bool, bool); Col* (*plain)(Col*, Col*); int h, c, y; }; // 0: from the source
static const HM HMS[] = {
	{ "hue", [](Col* a, Col* b, bool u, bool v) -> Col* { return CB::hue(a, b, u, v); }, [](Col* a, Col* b) -> Col* { return CB::hue(a, b); }, 0, 1, 1 },
	{ "saturation", [](Col* a, Col* b, bool u, bool v) -> Col* { return CB::saturation(a, b, u, v); }, [](Col* a, Col* b) -> Col* { return CB::saturation(a, b); }, 1, 0, 1 },
	{ "color", [](Col* a, Col* b, bool u, bool v) -> Col* { return CB::color(a, b, u, v); }, [](Col* a, Col* b) -> Col* { return CB::color(a, b); }, 0, 0, 1 },
	{ "luminosity", [](Col* a, Col* b, bool u, bool v) -> Col* { return CB::luminosity(a, b, u, v); }, [](Col* a, Col* b) -> Col* { return CB::luminosity(a, b); }, 1, 1, 0 } };
static void hcy(Case& k, const HM& m, Col* a, Col* b, int di)
{
	Snap sa(a), sb(b);
	Col* x = Conv::to_hcy(a); Col* y = Conv::to_hcy(b);
	ref::V v; v.t = HCY; v.d = &D()[di].ref; v.a = sa.a / alpha_max(sa.t); v.c[3] = 0;
	v.c[0] = (m.h ? y : x)->get_component(0); v.c[1] = (m.c ? y : x)->get_component(1); v.c[2] = (m.y ? y : x)->get_component(2);
	Col* r = nullptr; k.eval();
	if (raises([&] { r = m.plain(a, b); })) { k.fail(S("raises:%s", m.name), "%s of %s and %s raised", m.name, desc(a).c_str(), desc(b).c_str()); return; }
	if (Snap(a) != sa || Snap(b) != sb) k.fail(S("operand:%s", m.name), "%s of %s and %s changed an operand", m.name, desc(a).c_str(), desc(b).c_str());
	std::string why;
	if (!r || r->get_color_type() != sa.t) why = "type";
	else if (r->get_rgb_color_space() != sa.d) why = "definition";
	else if (!close(r->alpha() / alpha_max(sa.t), v.a, is_true(sa.t) ? 0.501 / 255 : 3e-6)) why = "alpha";
	else if (in_range(r, &why))
	{
		if (sa.t == HCY) { for (int i = 0; i < 3; ++i) if (!close(r->get_component(i), v.c[i], i ? 1e-5 : 1e-2)) why = S("component %d, expected %.8g", i, v.c[i]); }
		else why = cmp::differs(r, cmp::expect(v, sa.t), 1.5);
		if (!why.empty() && !is_device(sa.t))
		{
			double e[3], l[3], e0[3], l0[3]; ref::to_rgb(ref::of(r, v.d), e, l); ref::to_rgb(v, e0, l0);
			bool ok = true; for (int i = 0; i < 3; ++i) if (!close(l[i], l0[i], 4e-6)) ok = false;
			if (ok) why = "";
		}
	}
	if (!why.empty()) k.fail(S("value:%s:%s", m.name, TN[sa.t]), "%s of %s and %s (%s) is %s: %s (%s)", m.name, desc(a).c_str(), desc(b).c_str(), D()[di].name, desc(r).c_str(), why.c_str(), ref::show(v).c_str());
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), mc::hstr(m.name))));
	if (k.want_sample()) k.sample("%s of %s and %s -> %s", m.name, desc(a).c_str(), desc(b).c_str(), desc(r).c_str());
	if (x != a) delete x;
	if (y != b) delete y;
	if (r && r != a && r != b && r != x && r != y) delete r;
}
static void dissolve(Case& k, Col* a, Col* b, int di, int reg, bool plain)
{
	Snap sa(a), sb(b); bool us = reg & 1, ud = reg & 2; if (plain) us = ud = true;
	Col* x = Conv::to_rgb_deep(a); Col* y = Conv::to_rgb_deep(b);
	double s[3], d[3]; for (int i = 0; i < 3; ++i) { s[i] = x->get_component(i); d[i] = y->get_component(i); }
	double as = sa.a / alpha_max(sa.t), ad = sb.a / alpha_max(sb.t);
	Comp cs_ = composite(s, as, d, ad, us, ud, true, [](double p, double) { return p; }), cd = composite(s, as, d, ad, us, ud, true, [](double, double q) { return q; });
	int fromS = 0, fromD = 0, n = 0, mixed = 0; uint64_t asked = 0;
	for (int w = 0; w < 101 + 27; ++w)
	{
		if (w < 101) { g_len = 1; g_seq[0] = w + 101 * (w % 7); }
		else { g_len = 3; int q = w - 101; for (int i = 0; i < 3; ++i, q /= 3) g_seq[i] = (q % 3) * 50 + 101; }
		g_calls = 0;
		Col* r = nullptr; k.eval(); k.transition();
		if (raises([&] { r = plain ? CB::dissolve(a, b) : CB::dissolve(a, b, us, ud); })) { k.fail("raises:dissolve", "dissolve of %s and %s raised", desc(a).c_str(), desc(b).c_str()); return; }
		asked += g_calls;
		// some choice of source or destination per component explains the result
		std::string why; bool ok = false; int pick = -1;
		for (int c = 0; c < 8 && !ok; ++c)
		{
			Comp m = cs_; for (int i = 0; i < 3; ++i) if (c >> i & 1) { m.lo[i] = cd.lo[i]; m.hi[i] = cd.hi[i]; }
			std::string e = wrong(r, sa.t, m, &D()[di].ref, D()[di].lib);
			if (e.empty()) { ok = true; pick = c; } else why = e;
		}
		if (!ok) k.fail(S("value:dissolve:%s", TN[sa.t]), "dissolve of %s and %s (regions %d %d, dice %d) is %s: %s", desc(a).c_str(), desc(b).c_str(), us, ud, g_seq[0], desc(r).c_str(), why.c_str());
		else if (w < 101 && sa.t == RGB_DEEP) for (int i = 0; i < 3; ++i)
			if (fabs(cs_.lo[i] - cd.lo[i]) > 1e-3) { ++n; if (pick >> i & 1) ++fromD; else ++fromS; }
		if (w >= 101 && pick > 0 && pick < 7) ++mixed;
		if (r && r != a && r != b) delete r;
	}
	if (n && fabs(as - ad) > 5e-4)
	{
		double f = (double)(as > ad ? fromS : fromD) / n;
		// dice that are not drawn from rand() are not under control: only certainty is excluded
		bool ok = asked ? f >= 0.6 && f <= 0.9 : n < 300 || (f > 0.5 && f < 1);
		if (!ok) k.fail("share:dissolve", "dissolve of %s and %s takes the more opaque colour in %.0f%% of the cases", desc(a).c_str(), desc(b).c_str(), 100 * f);
		if (n == 303 && !mixed) k.fail("componentwise:dissolve", "dissolve of %s and %s decides for all components at once", desc(a).c_str(), desc(b).c_str());
	}
	if (Snap(a) != sa || Snap(b) != sb) k.fail("operand:dissolve", "dissolve of %s and %s changed an operand", desc(a).c_str(), desc(b).c_str());
	k.distinct(mc::mix(hcol(a), hcol(b)));
	if (x != a) delete x;
	if (y != b) delete y;
	g_len = 0;
}
static void build(Plan& p)
{
	p.property = "C15"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "hue, saturation, color and luminosity over all pairs of deep rgb colours of a grid and over all pairs of types with small grids; dissolve over pairs of colours, each with every value the dice can show (0..100) and every combination of low, middle and high dice for the three components; distinct by operands and result";
	p.assumptions = { "the four modes combine the HCY components of the two colours with the alpha of the source, whatever the regions", "which colour dissolve prefers at equal alphas is left open" };
	static std::vector<float> X = th ? std::vector<float>{ 0.f, 1.f, 0.5f, 0.25f, 0.8f, 0.1f, 0.6f, 0.95f, 0.35f } : std::vector<float>{ 0.f, 1.f, 0.5f, 0.3f, 0.8f, 0.1f };
	static const float A[][2] = { { 1, 1 }, { 0.5f, 0.25f }, { 1, 0.4f }, { 0.8f, 1 }, { 0, 0.5f }, { 0.3f, 0 }, { 0.5f, 0.505f }, { 0.3f, 0.299f } };
	uint64_t m = X.size(), m3 = m * m * m;
	p.add("hcy:deep", m3 * m3 * 4, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& h = HMS[r.next(4)]; float s[3], d[3];
		for (float& f : s) f = X[r.next(m)];
		for (float& f : d) f = X[r.next(m)];
		int di = ix % D().size(), al = ix / 4 % 6;
		Col* a = make(RGB_DEEP, s, A[al][0], D()[di].lib); Col* b = make(RGB_DEEP, d, A[al][1], D()[di].lib);
		hcy(k, h, a, b, di);
		delete a; delete b;
	}, "all pairs of deep rgb colours");
	static std::vector<Grid> G; G.clear(); for (int t = 0; t < NT; ++t) G.push_back(make_grid(t, NC[t] == 4 ? 3 : NC[t] == 1 ? 9 : 4));
	int q = th ? 60 : 25;
	p.add("edge_alphas", 4ull * unit_edges().size() * unit_edges().size() * 6, [=](uint64_t ix, Case& k)
	{
		static std::vector<Lines> L = [] { std::vector<Lines> v; for (int t = 0; t < NT; ++t) v.push_back(make_lines(t, 2)); return v; }();
		auto& U = unit_edges(); Radix r(ix); auto& hm = HMS[r.next(4)]; float al = U[r.next(U.size())], be = U[r.next(U.size())]; int by = r.next(6); uint64_t h = mc::mix(ix, 33);
		int t = by >= 3 ? (int)(h % NT) : (int)RGB_DEEP, u = by >= 3 ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); hcy(k, hm, a, b, di); delete a; delete b;
	}, "all pairs of alphas near 0 and 1, in decades, and next to round ones");
	p.add("hcy:types", 4ull * NT * NT * q * q, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& h = HMS[r.next(4)]; int t = r.next(NT), u = r.next(NT); int i = r.next(q), j = r.next(q);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[u].get((j * 11 + 5) % G[u].n, d);
		int di = ix / 7 % D().size(), al = ix / 3 % 6;
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib); Col* b = make(u, d, A[al][1] * alpha_max(u), D()[di].lib);
		hcy(k, h, a, b, di);
		delete a; delete b;
	}, "all pairs of types");
	static std::vector<Lines> L; L.clear(); for (int t = 0; t < NT; ++t) L.push_back(make_lines(t, th ? 6400 : 300));
	static std::vector<uint64_t> LO; LO.assign(1, 0); for (auto& l : L) LO.push_back(LO.back() + l.n);
	// a colour on a line of some type against a colour of any type
	auto on_line = [](uint64_t i, uint64_t h, int& t, float* c, int& u, float* e) { t = 0; while (i >= LO[t + 1]) ++t; int b; L[t].get(i - LO[t], c, &b); u = h % 3 ? t : (int)(h / 4 % NT); L[u].at(h / 128 % 3 ? b : (int)(h / 512 % 8), e); };
	static const float AF[] = { 1.f, 0.5f, 0.25f, 0.8f, 0.f, 0.9f, 0.999f, 0.004f };
	p.add("hcy:lines", LO.back() * 4 * (th ? 12 : 2), [=](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& m = HMS[r.next(4)]; r.next(th ? 12 : 2); uint64_t h = mc::mix(ix, 31); int t, u; float c[4], e[4]; on_line(r.next(LO.back()), h >> 8, t, c, u, e);
		int di = h % D().size(); Col* a = make(t, c, AF[(h >> 40) % 8] * alpha_max(t), D()[di].lib); Col* b = make(u, e, AF[(h >> 43) % 8] * alpha_max(u), D()[di].lib);
		if (h >> 63) hcy(k, m, a, b, di); else hcy(k, m, b, a, di);
		delete a; delete b;
	}, "one component of an operand moved finely through its range");
	p.add("dissolve:alphas", 256 * 24 * (th ? 8 : 1), [=](uint64_t ix, Case& k)
	{
		Radix r(ix); float al = r.next(256) / 255.f; int v = r.next(24); uint64_t h = mc::mix(ix, 33); float be = v < 4 ? std::min(1.f, al + 0.001f * (v + 1)) : v < 8 ? std::max(0.f, al - 0.002f * (v - 3)) : (h % 256) / 255.f;
		float s[3] = { 1, 0.2f, 0.9f }, d[3] = { 0.1f, 0.8f, 0.3f }; int di = h / 256 % D().size();
		Col* a = make(RGB_DEEP, s, al, D()[di].lib); Col* b = make(RGB_DEEP, d, be, D()[di].lib); dissolve(k, a, b, di, h / 65536 % 4, false); delete a; delete b;
	}, "dissolve: alphas moved finely from 0 to 1, all dice", 16);
	p.add("hcy:regions", 4ull * NT * 40 * 4, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& h = HMS[r.next(4)]; int t = r.next(NT), i = r.next(40), reg = r.next(4);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[t].get((i * 5 + 1) % G[t].n, d);
		Col* a = make(t, s, 0.7f * alpha_max(t), D()[0].lib); Col* b = make(t, d, 0.4f * alpha_max(t), D()[0].lib);
		Col* x = h.call(a, b, reg & 1, reg & 2); Col* y = h.plain(a, b); k.eval(2);
		if (!x || !y || Snap(x) != Snap(y)) k.fail(S("regions:%s", h.name), "%s of %s and %s depends on the regions: %s and %s", h.name, desc(a).c_str(), desc(b).c_str(), desc(x).c_str(), desc(y).c_str());
		k.distinct(ix);
		delete a; delete b;
	}, "regions");
	p.add("same_object", 5ull * NT * 60 * 6, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int w = r.next(5), t = r.next(NT), i = r.next(60), al = r.next(6); float s[4]; G[t].get((i * 7 + 3) % G[t].n, s);
		if (w == 4 && i % 6) return;
		int di = ix / 7 % D().size(); Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib);
		if (w < 4) hcy(k, HMS[w], a, a, di); else dissolve(k, a, a, di, al % 4, al == 4);
		delete a;
	}, "a colour with itself, one object");
	p.add("dissolve:deep", 6 * 6 * 6 * (th ? 36 : 6) * 5 * 8 / 6, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int reg = r.next(5), al = r.next(8); float s[3], d[3];
		static const float Y[] = { 0.f, 1.f, 0.5f, 0.3f, 0.8f, 0.1f };
		int i = r.next(6), j = r.next(6), l = r.next(th ? 36 : 6);
		s[0] = Y[i]; s[1] = Y[j]; s[2] = Y[(i + l) % 6]; d[0] = Y[l % 6]; d[1] = Y[(j + l + 1) % 6]; d[2] = Y[(j * 2 + l / 6) % 6];
		Col* a = make(RGB_DEEP, s, A[al][0], D()[ix % D().size()].lib); Col* b = make(RGB_DEEP, d, A[al][1], D()[ix % D().size()].lib);
		dissolve(k, a, b, ix % D().size(), reg % 4, reg == 4);
		delete a; delete b;
	}, "dissolve: deep rgb colours, all dice", 16);
	p.add("dissolve:types", NT * NT * 4 * (th ? 12 : 3), [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), u = r.next(NT), al = 1 + r.next(4), i = r.next(12);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[u].get((i * 11 + 5) % G[u].n, d);
		int di = ix % D().size();
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib); Col* b = make(u, d, A[al][1] * alpha_max(u), D()[di].lib);
		dissolve(k, a, b, di, ix / 5 % 4, ix % 3 == 0);
		delete a; delete b;
	}, "dissolve: all pairs of types, all dice", 16);
	p.add("dissolve:scales", NT * NT * 6, [=](uint64_t ix, Case& k)
	{
		// alphas of types that scale them differently: the more opaque colour must win whatever its type
		Radix r(ix); int t = r.next(NT), u = r.next(NT), al = r.next(6);
		if (t == u && is_grey(t)) return;
		static const float B[][2] = { { 0.9f, 0.3f }, { 0.3f, 0.9f }, { 0.5f, 0.52f }, { 0.02f, 0.5f }, { 1, 0.5f }, { 0.004f, 1.f } };
		float s[3] = { 1, 0, 1 }, d[3] = { 0, 1, 0 };
		Col* p0 = make(RGB_DEEP, s, B[al][0], D()[0].lib); Col* p1 = make(RGB_DEEP, d, B[al][1], D()[0].lib);
		Col* a = conv(p0, t); Col* b = conv(p1, u);
		double as = a->alpha() / alpha_max(t), ad = b->alpha() / alpha_max(u);
		if (fabs(as - ad) < 0.01) return;
		Col* sv = Conv::to_rgb_deep(a); Col* dv = Conv::to_rgb_deep(b);
		int n = 0, win = 0; uint64_t asked = 0;
		for (int w = 0; w < 101; ++w)
		{
			g_len = 1; g_seq[0] = w; g_calls = 0; k.eval();
			Col* res = CB::dissolve(a, b, false, false); asked += g_calls; // only the common region: the pick itself
			Col* rd = Conv::to_rgb_deep(res);
			double es = 0, ed = 0; for (int c = 0; c < 3; ++c) { es += fabs(rd->get_component(c) - sv->get_component(c)); ed += fabs(rd->get_component(c) - dv->get_component(c)); }
			++n; if ((as > ad) == (es < ed)) ++win;
		}
		g_len = 0;
		double f = (double)win / n;
		if (!(asked ? f >= 0.6 && f <= 0.9 : f > 0.5 && f < 1) && !is_grey(t) && !is_grey(u)) k.fail(S("scale:dissolve:%s:%s", TN[t], TN[u]), "dissolve of %s and %s takes the more opaque colour in %.0f%% of the cases", desc(a).c_str(), desc(b).c_str(), 100 * f);
		k.distinct(ix);
	}, "dissolve between types with different alpha scales", 8);
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
