// C16: blending with a function of the user, regions, and what blending refuses.
#include "blend.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
typedef Col* (*Bin)(Col*, Col*);
struct NF { const char* name; Bin f; };
static const NF ALL[] = {
#define P(N) { "porter_duff " #N, [](Col* a, Col* b) -> Col* { return PD::N(a, b); } },
	P(src) P(dest) P(atop) P(dest_atop) P(over) P(dest_over) P(in) P(dest_in) P(out) P(dest_out) P(x_or) P(clear)
#undef P
#define P(N) { #N, [](Col* a, Col* b) -> Col* { return CB::N(a, b); } }, { #N " without regions", [](Col* a, Col* b) -> Col* { return CB::N(a, b, false, false); } },
	P(normal) P(dissolve) P(multiply) P(screen) P(overlay) P(darken) P(lighten) P(color_dodge) P(linear_dodge) P(color_burn) P(linear_burn) P(hard_light) P(soft_light) P(vivid_light) P(linear_light)
	P(pin_light) P(hard_mix) P(difference) P(subtract) P(divide) P(plus_lighter) P(plus_darker) P(exclusion) P(hue) P(saturation) P(color) P(luminosity)
#undef P
	{ "custom", [](Col* a, Col* b) -> Col* { return CB::custom_componentwise_blend(a, b, true, true, [](float s, float d) { return s * d; }); } },
};
static const int NALL = sizeof(ALL) / sizeof(ALL[0]);
struct UF { const char* name; std::function<float(float, float)> f; Fn r; };
static const std::vector<UF>& ufs()
{
	static std::vector<UF> v;
	if (v.empty())
	{
#define U(N, E) v.push_back({ N, [](float s, float d) -> float { (void)s; (void)d; return E; }, [](double s, double d) -> double { (void)s; (void)d; return E; } });
		U("source", s) U("destination", d) U("zero", 0) U("one", 1) U("weighted", 0.25 * s + 0.75 * d) U("difference", s - d) U("reverse", d - s) U("above", 3 + s) U("below", -2 - d) U("far above", 60 * s + 5) U("far below", -50 * d - 4) U("power", s * s * d) U("average", (s + d) / 2) U("inverted", 1 - d)
#undef U
	}
	return v;
}
static void build(Plan& p)
{
	p.property = "C16"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "blending with fourteen user functions (asymmetric and leaving the range on both sides included) over all regions, component, alpha and type choices of a grid; and every compositing and blending operation with every kind of refused argument, in every pair of types; distinct by operation, operands and result";
	p.assumptions = { "user functions are total", "a fully transparent result is black" };
	auto& F = ufs();
	int n = th ? 33 : 17;
	static const float A[][2] = { { 1, 1 }, { 0.5f, 0.25f }, { 1, 0.4f }, { 0.8f, 1 }, { 0, 0.5f }, { 0.3f, 0 }, { 0.1f, 0.5f }, { 0.004f, 0.9f } };
	auto one = [](Case& k, const UF& u, Col* a, Col* b, int di, bool us, bool ud)
	{
		Snap sa(a), sb(b);
		Col* x = Conv::to_rgb_deep(a); Col* y = Conv::to_rgb_deep(b);
		double s[3], d[3]; for (int i = 0; i < 3; ++i) { s[i] = x->get_component(i); d[i] = y->get_component(i); }
		Col* r = nullptr; k.eval();
		int t = sa.t;
		if (raises([&] { r = CB::custom_componentwise_blend(a, b, us, ud, u.f); })) { k.fail("raises:custom", "custom blend (%s) of %s and %s raised", u.name, desc(a).c_str(), desc(b).c_str()); return; }
		Comp c = composite(s, sa.a / alpha_max(t), d, sb.a / alpha_max(sb.t), us, ud, true, u.r);
		std::string why = wrong(r, t, c, &D()[di].ref, D()[di].lib);
		if (!why.empty()) k.fail(S("value:custom:%s", TN[t]), "custom blend (%s) of %s and %s (regions %d %d) is %s: %s", u.name, desc(a).c_str(), desc(b).c_str(), us, ud, desc(r).c_str(), why.c_str());
		if (Snap(a) != sa || Snap(b) != sb) k.fail("operand:custom", "an operand changed");
		k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), mc::hstr(u.name))));
		if (k.want_sample()) k.sample("custom blend (%s) of %s and %s -> %s", u.name, desc(a).c_str(), desc(b).c_str(), desc(r).c_str());
		if (x != a) delete x;
		if (y != b) delete y;
		if (r && r != a && r != b) delete r;
	};
	p.add("custom:deep", F.size() * n * n * 8 * 4, [=, &F](uint64_t ix, Case& k)
	{
		Radix r(ix); int reg = r.next(4); int al = r.next(8); auto& u = F[r.next(F.size())]; int i = r.next(n), j = r.next(n);
		float s[3] = { i / (n - 1.f), (i * 5 + 2) % n / (n - 1.f), (j + i) % n / (n - 1.f) }, d[3] = { j / (n - 1.f), (j * 7 + i) % n / (n - 1.f), (j * 3 + 5) % n / (n - 1.f) };
		int di = ix % D().size();
		Col* a = make(RGB_DEEP, s, A[al][0], D()[di].lib); Col* b = make(RGB_DEEP, d, A[al][1], D()[di].lib);
		one(k, u, a, b, di, reg & 1, reg & 2);
		delete a; delete b;
	}, "custom functions on deep rgb");
	static std::vector<Grid> G; G.clear(); for (int t = 0; t < NT; ++t) G.push_back(make_grid(t, NC[t] == 4 ? 2 : NC[t] == 1 ? 5 : 3));
	int q = th ? 24 : 9;
	p.add("custom:types", (uint64_t)F.size() * NT * NT * q * q * 4, [=, &F](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& u = F[r.next(F.size())]; int t = r.next(NT), v = r.next(NT); int i = r.next(q), j = r.next(q); int al = r.next(4);
		float s[4], d[4]; G[t].get((i * 7 + 3) % G[t].n, s); G[v].get((j * 11 + 5) % G[v].n, d);
		int di = ix / 7 % D().size(); int reg = ix / 3 % 4;
		Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib); Col* b = make(v, d, A[al][1] * alpha_max(v), D()[di].lib);
		one(k, u, a, b, di, reg & 1, reg & 2);
		delete a; delete b;
	}, "custom functions, all pairs of types");
	static std::vector<Lines> L; L.clear(); for (int t = 0; t < NT; ++t) L.push_back(make_lines(t, th ? 6400 : 300));
	static std::vector<uint64_t> LO; LO.assign(1, 0); for (auto& l : L) LO.push_back(LO.back() + l.n);
	// a colour on a line of some type against a colour of any type
	auto on_line = [](uint64_t i, uint64_t h, int& t, float* c, int& u, float* e) { t = 0; while (i >= LO[t + 1]) ++t; int b; L[t].get(i - LO[t], c, &b); u = h % 3 ? t : (int)(h / 4 % NT); L[u].at(h / 128 % 3 ? b : (int)(h / 512 % 8), e); };
	static const float AF[] = { 1.f, 0.5f, 0.25f, 0.8f, 0.f, 0.9f, 0.999f, 0.004f };
	p.add("lines", LO.back() * (th ? 24 : 4), [=, &F](uint64_t ix, Case& k)
	{
		Radix r(ix); r.next(th ? 24 : 4); uint64_t h = mc::mix(ix, 31); int t, u; float c[4], e[4]; on_line(r.next(LO.back()), h >> 8, t, c, u, e);
		int di = h % D().size(); Col* a = make(t, c, AF[(h >> 40) % 8] * alpha_max(t), D()[di].lib); Col* b = make(u, e, AF[(h >> 43) % 8] * alpha_max(u), D()[di].lib);
		auto& f = F[(h >> 48) % F.size()]; int reg = (h >> 56) % 4; if (h >> 63) one(k, f, a, b, di, reg & 1, reg & 2); else one(k, f, b, a, di, reg & 1, reg & 2);
		delete a; delete b;
	}, "one component of an operand moved finely through its range");
	p.add("fine_alphas", F.size() * 256 * (th ? 256 : 64), [=, &F](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& f = F[r.next(F.size())]; float al = r.next(256) / 255.f, be = th ? r.next(256) / 255.f : r.next(64) / 63.f; uint64_t h = mc::mix(ix, 32); int by = h >> 60 & 1;
		int t = by ? (int)(h % NT) : (int)RGB_DEEP, u = by ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); one(k, f, a, b, di, (h >> 40) & 1, (h >> 41) & 1); delete a; delete b;
	}, "all pairs of finely spaced alphas");
	p.add("edge_alphas", F.size() * unit_edges().size() * unit_edges().size() * (th ? 24 : 4), [=, &F](uint64_t ix, Case& k)
	{
		auto& U = unit_edges(); Radix r(ix); auto& f = F[r.next(F.size())]; float al = U[r.next(U.size())], be = U[r.next(U.size())]; int by = r.next(th ? 24 : 4) % 4; uint64_t h = mc::mix(ix, 33);
		int t = by == 3 ? (int)(h % NT) : (int)RGB_DEEP, u = by == 3 ? (int)(h / 16 % NT) : (int)RGB_DEEP; float c[4], e[4]; L[t].at(h / 256 % 8, c); L[u].at(h / 2048 % 8, e); int di = (h >> 20) % D().size();
		Col* a = make(t, c, al * alpha_max(t), D()[di].lib); Col* b = make(u, e, be * alpha_max(u), D()[di].lib); one(k, f, a, b, di, (h >> 40) & 1, (h >> 41) & 1); delete a; delete b;
	}, "all pairs of alphas near 0 and 1, in decades, and next to round ones");
	p.add("same_object", (uint64_t)F.size() * NT * 12 * 8 * 4, [=, &F](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& u = F[r.next(F.size())]; int t = r.next(NT), i = r.next(12), al = r.next(8), reg = r.next(4); float s[4]; G[t].get((i * 7 + 3) % G[t].n, s);
		int di = ix / 7 % D().size(); Col* a = make(t, s, A[al][0] * alpha_max(t), D()[di].lib);
		one(k, u, a, a, di, reg & 1, reg & 2);
		delete a;
	}, "a colour with itself, one object");
	// which operand is which, how often and for which components the function is asked
	p.add("arguments", 4 * 9 * 9, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int reg = r.next(4), i = r.next(9), j = r.next(9);
		float s[3] = { i / 8.f, 0.125f, 0.875f }, d[3] = { j / 8.f, 0.375f, 0.625f };
		Col* a = make(RGB_DEEP, s, 1.f, D()[0].lib); Col* b = make(RGB_DEEP, d, 1.f, D()[0].lib);
		std::vector<std::pair<float, float>> got;
		Col* q = CB::custom_componentwise_blend(a, b, reg & 1, reg & 2, [&](float x, float y) { got.push_back({ x, y }); return 0.5f; });
		k.eval(); k.distinct(ix);
		for (auto& g : got) { bool ok = false; for (int c = 0; c < 3; ++c) if (g.first == s[c] && g.second == d[c]) ok = true; if (!ok) k.fail("arguments", "the function is asked for (%g,%g)", g.first, g.second); }
		for (int c = 0; c < 3; ++c) if (!close(q->get_component(c), 0.5, 1e-6)) k.fail("arguments:result", "component %d of the result is %g", c, q->get_component(c));
		delete a; delete b; delete q;
	}, "what the user function is asked");
	p.add("refused", (uint64_t)NALL * NT * NT * 7, [](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& f = ALL[r.next(NALL)]; int t = r.next(NT), u = r.next(NT), e = r.next(7);
		float s[4], d[4]; G[t].get(ix % G[t].n, s); G[u].get(ix / 3 % G[u].n, d);
		int da = ix % D().size(), db = (da + 1 + ix / 5 % (D().size() - 1)) % D().size();
		Col* a = make(t, s, 0.5f * alpha_max(t), D()[da].lib); Col* b = make(u, d, 0.7f * alpha_max(u), e > 3 ? ref::relative_of(da, e - 4) : D()[e == 2 ? db : da].lib);
		Snap sa(a), sb(b);
		k.eval();
		Col* q = nullptr;
		bool x = raises([&] { q = f.f(e == 0 || e == 3 ? nullptr : a, e == 1 || e == 3 ? nullptr : b); });
		static const char* E[] = { "no source", "no destination", "different rgb definitions", "no colours", "other primaries", "another curve", "another white point" };
		if (!x) k.fail(S("refused:%s:%d", f.name, e), "%s of %s and %s with %s gives %s", f.name, desc(a).c_str(), desc(b).c_str(), E[e], desc(q).c_str());
		else k.raised();
		if (Snap(a) != sa || Snap(b) != sb) k.fail(S("refused_operand:%s", f.name), "an operand changed");
		k.distinct(ix);
		delete a; delete b;
	}, "null colours and different definitions are refused by every operation");
	p.add("equal_definitions", (uint64_t)NALL * NT * 4, [](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& f = ALL[r.next(NALL)]; int t = r.next(NT), i = r.next(4);
		float s[4], d[4]; G[t].get((i * 7 + 2) % G[t].n, s); G[t].get((i * 3 + 1) % G[t].n, d);
		Col* a = make(t, s, 0.5f * alpha_max(t), D()[i].lib); Col* b = make(t, d, 0.7f * alpha_max(t), D()[i].lib);
		k.eval(); Col* q = nullptr;
		if (raises([&] { q = f.f(a, b); })) k.fail(S("accepted:%s", f.name), "%s of %s and %s raised", f.name, desc(a).c_str(), desc(b).c_str());
		else { std::string why; if (!q || q->get_color_type() != t || q->get_rgb_color_space() != a->get_rgb_color_space()) k.fail(S("result:%s", f.name), "%s of %s and %s is %s", f.name, desc(a).c_str(), desc(b).c_str(), desc(q).c_str()); else if (!in_range(q, &why)) k.fail(S("range:%s", f.name), "%s: %s", f.name, why.c_str()); }
		k.distinct(mc::mix(ix, 9));
		delete a; delete b;
	}, "and colours that share their definition are accepted");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
