// C01: components and alpha stay inside their documented range whatever is stored (clamp, hue wraps),
// and a write changes nothing else. Explicit-state: all states reachable with the value alphabet, every
// operation executed on the real object from each of them.
#include "util.h"

static std::vector<float> alphabet(int t, int i, bool deep)
{
	float lo, hi; range_of(t, i, lo, hi);
	if (is_hx(t) && i == 0)
	{
		std::vector<float> v{ -INF, -1e30f, -720.5f, -360.f, -359.75f, -0.5f, -1e-3f, 0.f, 0.5f, 180.f, 359.f, 359.5f, 360.f, 360.5f, 719.25f, 1000000.f, 9999999.f, -3333333.25f, 1e30f, INF };
		if (deep) for (float x : { -1e5f, -1081.f, -721.f, -719.5f, -361.f, -180.f, -1e-20f, -0.f, 1e-20f, 1.f, 60.f, 120.f, 240.f, 300.f, 358.999f, 359.999f, 400.f, 720.f, 721.f, 3599.5f, 16777216.f }) v.push_back(x);
		return v;
	}
	float m = (lo + hi) / 2, w = hi - lo;
	std::vector<float> v{ -INF, -1e30f, lo - 1000.25f, lo - 1.f, lo - 1e-4f * w, lo, lo + 1e-4f * w, m + 0.1f * w, hi - 1e-4f * w, hi, hi + 1e-4f * w, hi + 1.f, 1e30f, INF, -0.f };
	if (deep) for (float x : { -3.4e38f, -256.f, -255.f, -128.5f, -101.f, -100.5f, -2.f, -1.f, -0.5f, -1e-30f, 1e-30f, 0.25f, 0.5f, 1.f, 1.5f, 99.5f, 100.5f, 128.5f, 255.f, 256.f, 359.f, 360.f, 3.4e38f }) v.push_back(x);
	return v;
}
static std::vector<float> alphas(int t, bool deep)
{
	float a = alpha_max(t);
	std::vector<float> v{ -INF, -1.f, 0.f, 0.25f * a, a * 0.5f, 1.f, a, a + 0.01f, 2.f, 254.f, 255.f, 256.f, 1e30f, INF };
	if (deep) for (float x : { -1e30f, -1e-6f, 1e-6f, 0.01f, 0.5f, 0.999f * a, 1.001f * a, 100.f, 510.f, 65025.f }) v.push_back(x);
	return v;
}
static std::vector<float> reach(int t, int i, bool deep)
{
	std::vector<float> r;
	for (float v : alphabet(t, i, deep)) { double w = want_comp(t, i, v); if (w == w) { bool dup = false; for (float q : r) if (fabs(q - w) < 1e-7) dup = true; if (!dup) r.push_back((float)w); } }
	return r;
}
static std::vector<float> reach_alpha(int t, bool deep)
{
	std::vector<float> r;
	for (float v : alphas(t, deep)) { float w = want_alpha(t, v); bool dup = false; for (float q : r) if (q == w) dup = true; if (!dup) r.push_back(w); }
	return r;
}
struct M { int t; double c[4]; double a; };
static bool check(Case& k, Col* c, M& m, const char* op, const std::string& hist)
{
	int t = m.t;
	k.eval();
	std::string why;
	if (!in_range(c, &why)) { k.fail(S("range:%s:%s", TN[t], op), "%s leaves %s: %s", hist.c_str(), desc(c).c_str(), why.c_str()); return false; }
	if (c->get_color_type() != t) { k.fail(S("type:%s:%s", TN[t], op), "%s: type changed", hist.c_str()); return false; }
	for (int i = 0; i < NC[t]; ++i)
	{
		float g = get_named(c, t, i), g2 = c->get_component(i);
		if (!same_bits(g, g2)) { k.fail(S("getter:%s:%d", TN[t], i), "%s: named getter %d reads %.9g, component %d is %.9g", hist.c_str(), i, g, i, g2); return false; }
		if (m.c[i] != m.c[i]) { m.c[i] = g; continue; }
		if (!close(g, m.c[i], comp_tol(t, i))) { k.fail(S("value:%s:%s:%d", TN[t], op, i), "%s: component %d is %.9g, expected %.9g", hist.c_str(), i, g, m.c[i]); return false; }
	}
	if (!close(c->alpha(), m.a, 1e-6 * alpha_max(t))) { k.fail(S("alpha:%s:%s", TN[t], op), "%s: alpha is %.9g, expected %.9g", hist.c_str(), c->alpha(), m.a); return false; }
	return true;
}
static Def* D0() { return ref::def_named("sRGB").lib; }

static void build(Plan& p)
{
	p.property = "C01";
	p.level = "model_checking";
	bool deep = p.thorough;
	p.rule = "all states reachable from any constructor with the value alphabet of each component (range ends, just inside and outside, far outside, infinities; for hues multiples of and offsets around 360) and of alpha; "
		"from every state every named setter, indexed setter and alpha setter with every value of the alphabet, on the real object; a state is a type with its component and alpha values, a trace the sequence of setters that leads to the state followed by one operation";
	p.assumptions = { "NaN is not stored by callers", "the four-argument indexed setter, whose range the caller gives, is outside the claim" };
	for (int t = 0; t < NT; ++t)
	{
		// constructors with every combination of alphabet values
		std::vector<std::vector<float>> A; uint64_t n = 1;
		for (int i = 0; i < NC[t]; ++i) { A.push_back(alphabet(t, i, deep && NC[t] < 4)); n *= A.back().size(); }
		std::vector<float> AL = alphas(t, deep);
		p.add(S("construct:%s", TN[t]), n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float v[4] = {};
			for (int i = 0; i < NC[t]; ++i) v[i] = A[i][r.next(A[i].size())];
			for (float al : AL)
			{
				Col* c = make(t, v, al, D0());
				M m{ t, {}, want_alpha(t, al) };
				for (int i = 0; i < NC[t]; ++i) m.c[i] = want_comp(t, i, v[i]);
				k.transition(); k.trace();
				if (check(k, c, m, "construct", "constructing " + descv(t, v, al)) && c->get_rgb_color_space() != D0()) k.fail(S("def:%s", TN[t]), "constructor: colour space definition differs");
				k.state(hcol(c));
				delete c;
			}
			if (k.want_sample()) k.sample("construct %s with %zu alphas", descv(t, v, 0).c_str(), AL.size());
		}, "all combinations of constructor arguments");
		// state graph
		std::vector<std::vector<float>> R; n = 1;
		for (int i = 0; i < NC[t]; ++i) { R.push_back(reach(t, i, deep && NC[t] < 3)); n *= R.back().size(); }
		std::vector<float> RA = reach_alpha(t, false);
		p.add(S("graph:%s", TN[t]), n * RA.size(), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float v[4] = {}, start[4] = {};
			for (int i = 0; i < NC[t]; ++i) { v[i] = R[i][r.next(R[i].size())]; float lo, hi; range_of(t, i, lo, hi); start[i] = hi; }
			float al = RA[r.next(RA.size())];
			Col* base = make(t, start, 0.f, D0());
			M m{ t, {}, 0 };
			for (int i = 0; i < NC[t]; ++i) m.c[i] = want_comp(t, i, start[i]);
			std::string h = "construct " + descv(t, start, 0);
			// reach the state: alpha first, then the components from last to first
			base->alpha(al); m.a = want_alpha(t, al); k.transition(); h += S("; alpha(%.9g)", al);
			if (!check(k, base, m, "alpha", h)) { delete base; return; }
			for (int i = NC[t] - 1; i >= 0; --i)
			{
				set_named(base, t, i, v[i]); m.c[i] = want_comp(t, i, v[i]); k.transition();
				h += S("; set %d to %.9g", i, v[i]);
				if (!check(k, base, m, "set", h)) { delete base; return; }
			}
			k.state(hcol(base));
			// one object does all operations; the operated component is put back afterwards
			for (int i = 0; i < NC[t]; ++i)
				for (float x : alphabet(t, i, deep))
				{
					set_named(base, t, i, x); k.transition(); k.trace();
					M q = m; q.c[i] = want_comp(t, i, x);
					if (!check(k, base, q, "set", h + S("; set %d to %.9g", i, x))) { delete base; return; }
					k.state(hcol(base));
					if (!hue_comp(t, i) && !is_hx(t) && !(is_lch(t)) && t != LAB)
					{
						set_named(base, t, i, v[i]);
						base->set_component(x, i); k.transition(); k.trace();
						// the indexed setter clamps to the component range of the colour
						if (t != CIELUV) { q.c[i] = want_comp(t, i, x); if (!check(k, base, q, "indexed", h + S("; set_component(%.9g,%d)", x, i))) { delete base; return; } }
					}
					set_named(base, t, i, v[i]);
				}
			for (float x : alphas(t, deep))
			{
				base->alpha(x); k.transition(); k.trace();
				M q = m; q.a = want_alpha(t, x);
				if (!check(k, base, q, "alpha", h + S("; alpha(%.9g)", x))) { delete base; return; }
				k.state(hcol(base));
				base->alpha(al);
			}
			if (!check(k, base, m, "restore", h + "; every operation and back")) { delete base; return; }
			if (k.want_sample()) k.sample("%s; then every setter with every value", h.c_str());
			delete base;
		}, "all reachable states, all operations from each");
	}
	// every float with a short mantissa, of every size and sign, through every setter and constructor argument
	for (int t = 0; t < NT; ++t)
	{
		const int low = deep ? 10 : 15; // low bits of the pattern that stay at a fixed value
		p.add(S("sweep:%s", TN[t]), (uint64_t(1) << (32 - low)) * (NC[t] + 1), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int i = r.next(NC[t] + 1); uint32_t bits = (uint32_t)r.next(uint64_t(1) << (32 - low)) << low; bits |= (uint32_t)(mc::mix(bits, 5) & ((1u << low) - 1)) & (bits >> low & 1 ? ~0u : 0u);
			float x; memcpy(&x, &bits, 4); if (x != x) return;
			static Col* cs_[NT][2]; static float mid[NT][4];
			if (!cs_[t][0])
			{
				for (int j = 0; j < NC[t]; ++j) { float lo, hi; range_of(t, j, lo, hi); mid[t][j] = is_true(t) ? (float)(int)(lo + (hi - lo) * (0.3f + 0.13f * j)) : lo + (hi - lo) * (0.3f + 0.13f * j); }
				cs_[t][0] = make(t, mid[t], 0.375f * alpha_max(t), D0());
			}
			Col* c = cs_[t][0]; float al = 0.375f * alpha_max(t);
			M m{ t, {}, want_alpha(t, al) }; for (int j = 0; j < NC[t]; ++j) m.c[j] = want_comp(t, j, mid[t][j]);
			M q = m; if (i < NC[t]) q.c[i] = want_comp(t, i, x); else q.a = want_alpha(t, x);
			std::string h; // built only when it is needed
			auto what = [&](const char* how) { return S("%s of %s %d with %.9g", how, TN[t], i, x); };
			auto same = [&](Col* o, const M& w, const char* how)
			{
				k.eval();
				bool ok = o->get_color_type() == t && close(o->alpha(), w.a, 1e-6 * alpha_max(t));
				for (int j = 0; ok && j < NC[t]; ++j) { float g = o->get_component(j); ok = w.c[j] != w.c[j] ? g >= 0 && g <= 359.f : close(g, w.c[j], std::min(comp_tol(t, j), std::max(1e-30, fabs(w.c[j]) * 1e-5 + (hue_comp(t, j) ? comp_tol(t, j) : 0)))); }
				if (!ok) { M z = w; check(k, o, z, "sweep", what(how)); std::string e; for (int j = 0; j < NC[t]; ++j) e += S(" %.9g", w.c[j]); k.fail(S("sweep:%s:%d", TN[t], i), "%s gives %s, expected%s alpha %.9g", what(how).c_str(), desc(o).c_str(), e.c_str(), w.a); }
			};
			if (i < NC[t]) set_named(c, t, i, x); else c->alpha(x);
			k.transition(); k.trace(); same(c, q, "setting component"); k.state(mc::mix(bits, t * 8 + i));
			if (i < NC[t]) set_named(c, t, i, mid[t][i]); else c->alpha(al);
			float v[4]; memcpy(v, mid[t], sizeof v); if (i < NC[t]) v[i] = x;
			Col* n = make(t, v, i < NC[t] ? al : x, D0()); k.transition(); same(n, q, "constructing component"); delete n;
			if (mc::mix(bits, i) % 64 == 0) same(c, m, "putting back component");
			if (k.want_sample()) k.sample("%s", what("setting and constructing component").c_str());
		}, "every float that has a mantissa of a few bits, through every setter and constructor argument", 4096);
	}
	// the constructors that take one value for all components
	static const float U[] = { -INF, -1e30f, -256.f, -1.f, -1e-3f, 0.f, 1e-3f, 0.5f, 0.999f, 1.f, 1.001f, 2.f, 127.5f, 254.5f, 255.f, 255.5f, 1e30f, INF };
	p.add("uniform", 18 * 18, [](uint64_t ix, Case& k)
	{
		Radix r(ix); float v = U[r.next(18)], a = U[r.next(18)];
		for (int t : { (int)RGB_TRUE, (int)RGB_DEEP })
		{
			Col* c = t == RGB_TRUE ? (Col*)new cs::rgb_truecolor(v, a, D0()) : (Col*)new cs::rgb_deepcolor(v, a, D0());
			M m{ t, {}, want_alpha(t, a) };
			for (int i = 0; i < 3; ++i) m.c[i] = want_comp(t, i, v);
			k.transition(); k.trace();
			check(k, c, m, "uniform", S("uniform %s from %.9g alpha %.9g", TN[t], v, a));
			k.state(hcol(c));
			delete c;
		}
	}, "one value for all components");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
