// C24: colour combinations.
#include "calc.h"
#include "manipulation/color_combinations.h"
typedef color_manipulation::color_combinations CB;
static std::vector<ref::LD>& D() { return ref::defs(); }
static ref::V hsl_of(Col* c, const ref::RDef* d) { Col* x = conv(c, HSL); ref::V v = ref::of(x, d); if (x != c) delete x; return v; }
static std::string wrong(const Col* r, const Snap& base, ref::V w)
{
	int t = base.t;
	if (!r) return "it is missing";
	if (r->get_color_type() != t) return "the type differs";
	if (r->get_rgb_color_space() != base.d) return "it has another rgb definition";
	std::string why; if (!in_range(r, &why)) return why;
	if (!close(r->alpha(), base.a, is_true(t) ? 0.501 : 3e-6)) return S("alpha is %.8g, expected %.8g", r->alpha(), base.a);
	w = ref::clampv(w);
	std::string s;
	// at the ends of the hue range a step decides between 0 and 359
	std::vector<double> hs = { w.c[0] }; if (w.c[0] > 358.98 || w.c[0] < 0.02) { hs.push_back(0); hs.push_back(359); }
	for (double h : hs)
	{
		ref::V u = w; u.c[0] = h; std::string q;
		if (t == HSL)
		{
			double dh = fabs(r->get_component(0) - h); dh = std::min(dh, 360 - dh);
			if (!(dh <= 4e-4) || !close(r->get_component(1), u.c[1], 4e-6) || !close(r->get_component(2), u.c[2], 4e-6)) q = "expected " + ref::show(u);
		}
		else q = cmp::differs(r, cmp::expect(u, t), 1.5);
		if (q.empty()) return "";
		if (s.empty()) s = q;
	}
	return s;
}
// the base turned by degrees
static ref::V turned(ref::V v, double deg) { v.c[0] = ref::hue_wrap(v.c[0] + deg); return v; }
struct Made { std::vector<Col*> v; Col* base; ~Made() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (auto* c : v) if (c != base) delete c; delete base; } };
static void check(Case& k, const char* f, const std::string& what, Made& m, const Snap& s, const std::vector<ref::V>& want, size_t at)
{
	if (m.v.size() != want.size()) { k.fail(S("count:%s", f), "%s has %d colours, expected %d", what.c_str(), (int)m.v.size(), (int)want.size()); return; }
	if (Snap(m.base) != s) k.fail(S("operand:%s", f), "%s changed the base colour to %s", what.c_str(), desc(m.base).c_str());
	uint64_t h = mc::hstr(f);
	for (size_t i = 0; i < want.size(); ++i)
	{
		k.eval(); h = mc::mix(h, hcol(m.v[i]));
		if (i == at) { if (!m.v[i] || Snap(m.v[i]) != s) k.fail(S("base:%s", f), "%s: colour %d is %s, not the base colour", what.c_str(), (int)i, desc(m.v[i]).c_str()); continue; }
		std::string why = wrong(m.v[i], s, want[i]);
		if (!why.empty()) k.fail(S("value:%s:%s", f, TN[s.t]), "%s: colour %d is %s: %s", what.c_str(), (int)i, desc(m.v[i]).c_str(), why.c_str());
	}
	k.distinct(h);
	if (k.want_sample()) k.sample("%s: %s ...", what.c_str(), desc(m.v.back()).c_str());
}
static void turns(Case& k, int form, int n, int t, const float* c, float al, int di)
{
	static const char* FN[] = { "combination", "complimentary", "triplet", "quartet", "quintet" };
	Made m; m.base = make(t, c, al * alpha_max(t), D()[di].lib); Snap s(m.base);
	std::string what = S("%s%s of %s", FN[form], form ? "" : S(" of %d", n).c_str(), desc(m.base).c_str());
	ref::V b = hsl_of(m.base, &D()[di].ref);
	std::vector<ref::V> w; for (int i = 0; i < n; ++i) w.push_back(turned(b, i * 360.0 / n));
	if (raises([&] { if (form == 0) m.v = CB::create_combination(m.base, n); else if (form == 1) m.v = { m.base, CB::create_complimentary(m.base) }; else m.v = form == 2 ? CB::create_triplet(m.base) : form == 3 ? CB::create_quartet(m.base) : CB::create_quintet(m.base); })) { k.fail(S("raises:%s", FN[form]), "%s raised", what.c_str()); return; }
	check(k, FN[form], what, m, s, w, 0);
}
static void near(Case& k, int form, float d, int t, const float* c, float al, int di)
{
	static const char* FN[] = { "analogous", "complimentary_split" };
	Made m; m.base = make(t, c, al * alpha_max(t), D()[di].lib); Snap s(m.base);
	std::string what = S("%s of %s by %g degrees", FN[form], desc(m.base).c_str(), d);
	ref::V b = hsl_of(m.base, &D()[di].ref);
	if (form == 1)
	{
		// the complement as a colour of the type
		Col* q = nullptr; if (raises([&] { q = CB::create_complimentary(m.base); }) || !q) { k.fail("raises:complimentary", "%s: no complement", what.c_str()); return; }
		b = hsl_of(q, &D()[di].ref); if (q != m.base) delete q;
	}
	std::vector<ref::V> w = { turned(b, -d), b, turned(b, d) };
	if (raises([&] { m.v = form ? CB::create_complimentary_split(m.base, d) : CB::create_analogous(m.base, d); })) { k.fail(S("raises:%s", FN[form]), "%s raised", what.c_str()); return; }
	check(k, FN[form], what, m, s, w, 1);
}
static void mono(Case& k, int mode, float amount, int n, int t, const float* c, float al, int di)
{
	static const char* MN[] = { "monochromatic:saturation", "monochromatic:lightness", "monochromatic:both" };
	Made m; m.base = make(t, c, al * alpha_max(t), D()[di].lib); Snap s(m.base);
	std::string what = S("%s set of %d of %s by %g", MN[mode], n, desc(m.base).c_str(), amount);
	if (raises([&] { m.v = CB::create_monochromatic(m.base, mode, amount, n); })) { k.fail(S("raises:%s", MN[mode]), "%s raised", what.c_str()); return; }
	std::vector<ref::V> w(n);
	w[0] = hsl_of(m.base, &D()[di].ref);
	for (int i = 1; i < n && (size_t)i < m.v.size() && m.v[i - 1]; ++i)
	{
		// each colour from the one before it
		w[i] = hsl_of(m.v[i - 1], &D()[di].ref);
		if (mode != 1) w[i].c[1] *= 1 - (double)amount;
		if (mode != 0) w[i].c[2] *= 1 - (double)amount;
	}
	check(k, MN[mode], what, m, s, w, 0);
}
static void build(Plan& p)
{
	p.property = "C24"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 15 types colours of a grid: every number of colours from 2 to 360, the named combinations, analogous colours and complementary splits by a grid of distances, monochromatic sets of all modes, amounts and lengths from grids; distinct by the whole set of colours made";
	p.assumptions = { "the conversions to and from hsl are C09 to C11; in a monochromatic set each colour is derived from the one before it as it is stored", "refused arguments belong to C27" };
	static const float A[] = { 1.f, 0.5f, 0.f, 0.2f, 0.9f };
	static const float DG[] = { 30, 120, 1, 15, 60, 90, 0.5f, 119.5f, 45.25f, -30, -120, 33.3f };
	static const float AM[] = { 0.1f, 0.f, 1.f, 0.5f, 0.25f, 0.9f, 0.01f, 1.f / 3 };
	int nd = D().size();
	for (int t = 0; t < NT; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 18 : NC[t] == 4 ? 3 : th ? 8 : 5, th && NC[t] < 4), s = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 2 : 3);
		p.add(S("named:%s", TN[t]), 5 * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(5); uint64_t i = r.next(g.n); uint64_t h = mc::mix(i, 1); float c[4]; g.get(i, c);
			turns(k, f, f == 0 ? 6 + h % 7 : f == 1 ? 2 : f + 1, t, c, A[h / 16 % 5], h / 128 % nd);
		}, "named combinations");
		p.add(S("numbers:%s", TN[t]), 359 * (th ? 6 : 1), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int n = r.next(359) + 2; uint64_t h = mc::mix(ix, 2); float c[4]; s.get(h % s.n, c);
			turns(k, 0, n, t, c, A[h / 1024 % 5], h / 65536 % nd);
		}, "every number of colours");
		Lines l = make_lines(t, th ? 1600 : 300);
		p.add(S("lines:%s", TN[t]), l.n * (th ? 9 : 3), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(th ? 9 : 3) % 3; float c[4]; l.get(r.next(l.n), c); uint64_t h = mc::mix(ix, 16); float al = A[h / 16 % 5]; int di = h / 128 % nd;
			if (f == 0) turns(k, 0, 2 + h / 4096 % 7, t, c, al, di); else if (f == 1) near(k, h / 4096 % 2, DG[h / 8192 % 12], t, c, al, di); else mono(k, h / 4096 % 3, AM[h / 16384 % 8], 2 + h / 262144 % 3, t, c, al, di);
		}, "one component of the base moved finely through its range");
		p.add(S("distances:%s", TN[t]), 2 * (th ? 2401 : 481) * 6, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(2), q = r.next(6); float c[4]; l.at(q, c); uint64_t h = mc::mix(ix, 17); int n = th ? 1200 : 240; float d = 120.f * ((int)r.next(2 * n + 1) - n) / n; if (d == 0) d = 0.001f;
			near(k, f, d, t, c, A[h / 16 % 5], h / 128 % nd);
		}, "distances moved finely from -120 to 120 degrees");
		p.add(S("amounts:%s", TN[t]), 3 * (th ? 2001 : 401) * 4, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(3), q = r.next(4); float c[4]; l.at(q * 2 + ix % 2, c); uint64_t h = mc::mix(ix, 18); int n = th ? 2000 : 400;
			mono(k, m, (float)r.next(n + 1) / n, 2 + h / 2048 % 4, t, c, A[h / 16 % 5], h / 128 % nd);
		}, "amounts moved finely from 0 to 1");
		p.add(S("edges:%s", TN[t]), 7 * unit_edges().size() * 8, [=](uint64_t ix, Case& k)
		{
			auto& U = unit_edges(); Radix r(ix); int f = r.next(7); float x = U[r.next(U.size())]; float c[4]; l.at(r.next(8), c); uint64_t h = mc::mix(ix, 35); float al = U[h % U.size()]; int di = h / 128 % nd;
			// few enough colours for the darkest one to stay within the normal floats
			if (f >= 4) { int n = 2 + h / 65536 % 4; while (x < 1 && n > 2 && pow(1 - x, n - 1) < 1e-12) --n; mono(k, f - 4, x, n, t, c, al, di); return; }
			float d = 120 * x; if (f & 2) d = -d; if (d == 0) return;
			near(k, f & 1, d, t, c, al, di);
		}, "distances and amounts near the ends of their ranges and in decades");
		p.add(S("lengths:%s", TN[t]), 3 * 300, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(3), n = 1 + r.next(300); uint64_t h = mc::mix(ix, 19); float c[4]; l.at(h, c);
			mono(k, m, h / 16 % 3 ? 0.02f : 0.1f, n, t, c, A[h / 64 % 5], h / 512 % nd);
		}, "monochromatic sets of every length up to 300");
		p.add(S("near:%s", TN[t]), 2 * (th ? 12 : 4) * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int f = r.next(2), d = r.next(th ? 12 : 4); uint64_t i = r.next(g.n); uint64_t h = mc::mix(i, 3); float c[4]; g.get(i, c);
			near(k, f, DG[(th ? 0 : h % 3 * 4) + d], t, c, A[h / 16 % 5], h / 128 % nd);
		}, "analogous colours and complementary splits");
		p.add(S("mono:%s", TN[t]), 3 * (th ? 24 : 4) * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(3), v = r.next(th ? 24 : 4); uint64_t i = r.next(g.n); uint64_t h = mc::mix(i, 4) + v; float c[4]; g.get(i, c);
			static const int N[] = { 2, 3, 6, 1, 4, 10 };
			mono(k, m, AM[h % 8], N[h / 8 % 6], t, c, A[h / 64 % 5], h / 512 % nd);
		}, "monochromatic sets");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
