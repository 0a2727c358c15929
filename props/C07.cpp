// C07: RGB colour space definitions: primaries, white, matrices and curve always belong together,
// whatever sequence of changes and copies led to the definition.
#include "util.h"
using ref::RDef;
static double mtol(const RDef& r) { return 3e-6 * (1 + r.m_norm); }
static void check(Case& k, Def* d, const RDef& r, const std::string& what, const std::string& key)
{
	k.eval(6);
	auto R = d->get_red_chromaticity_coordinate(), G = d->get_green_chromaticity_coordinate(), B = d->get_blue_chromaticity_coordinate();
	const std::array<float, 3>* P[3] = { &R, &G, &B };
	for (int i = 0; i < 3; ++i)
		if (!close((*P[i])[0], r.prim[2 * i], 1e-6) || !close((*P[i])[1], r.prim[2 * i + 1], 1e-6) || !close((*P[i])[2], 1 - r.prim[2 * i] - r.prim[2 * i + 1], 1e-6))
			k.fail(key + ":primaries", "%s: primary %d is (%.9g,%.9g,%.9g)", what.c_str(), i, (*P[i])[0], (*P[i])[1], (*P[i])[2]);
	if (d->get_red_x() != R[0] || d->get_red_y() != R[1] || d->get_red_z() != R[2] || d->get_green_x() != G[0] || d->get_green_y() != G[1] || d->get_green_z() != G[2] || d->get_blue_x() != B[0] || d->get_blue_y() != B[1] || d->get_blue_z() != B[2])
		k.fail(key + ":accessors", "%s: single and array access to the primaries differ", what.c_str());
	auto w = d->get_white_point()->get_tristimulus(); auto c = d->get_white_point()->get_chromaticity_coordinate();
	if (!close(w[0], r.w.X, 1e-5) || !close(w[1], r.w.Y, 1e-5) || !close(w[2], r.w.Z, 1e-5) || !close(c[0], r.w.x, 1e-5) || !close(c[1], r.w.y, 1e-5)) k.fail(key + ":white", "%s: white point is (%.9g,%.9g,%.9g)", what.c_str(), w[0], w[1], w[2]);
	auto m = d->get_transform_matrix(), mi = d->get_inverse_transform_matrix();
	if (m.rows() != 3 || m.columns() != 3 || mi.rows() != 3 || mi.columns() != 3) { k.fail(key + ":shape", "%s: matrix shape", what.c_str()); return; }
	for (int i = 0; i < 3; ++i)
	{
		double s = 0;
		for (int j = 0; j < 3; ++j)
		{
			s += m(i, j);
			if (!close(m(i, j), r.m[i][j], mtol(r))) k.fail(key + ":matrix", "%s: matrix(%d,%d) is %.9g, expected %.9g", what.c_str(), i, j, m(i, j), r.m[i][j]);
			if (!close(mi(i, j), r.mi[i][j], 1e-5 * (1 + r.mi_norm * r.mi_norm * r.m_norm))) k.fail(key + ":inverse", "%s: inverse matrix(%d,%d) is %.9g, expected %.9g", what.c_str(), i, j, mi(i, j), r.mi[i][j]);
			double q = 0; for (int e = 0; e < 3; ++e) q += (double)m(i, e) * mi(e, j);
			if (!close(q, i == j, 1e-5 * (1 + r.mi_norm * r.m_norm))) k.fail(key + ":identity", "%s: matrix times inverse (%d,%d) is %.9g", what.c_str(), i, j, q);
		}
		// full rgb is the white point
		if (!close(s, w[i], 6e-6)) k.fail(key + ":white_sum", "%s: rgb (1,1,1) has component %d = %.9g, the white point has %.9g", what.c_str(), i, s, w[i]);
	}
	static const float X[] = { 0.f, 0.01f, 0.05f, 0.3f, 0.7f, 1.f };
	for (float x : X)
	{
		k.eval(2);
		if (!closer(d->get_gamma_curve()->gamma_correction(x), ref::encode(r.g, x), 4e-6, 3e-6)) k.fail(key + ":gamma", "%s: gamma curve at %g", what.c_str(), x);
		if (!closer(d->get_gamma_curve()->inverse_gamma_correction(x), ref::decode(r.g, x), 1e-5, 1e-6)) k.fail(key + ":inverse_gamma", "%s: inverse gamma curve at %g", what.c_str(), x);
	}
}
// a colour carried by the definition must be converted with the values the definition has now
static void colours(Case& k, Def* d, const RDef& r, const std::string& what, const std::string& key)
{
	static const float C[4][3] = { { 1, 1, 1 }, { 0.8f, 0.4f, 0.2f }, { 0.1f, 0.5f, 0.9f }, { 1, 0, 0 } };
	for (auto& c : C)
	{
		Col* a = make(RGB_DEEP, c, 1.f, d);
		Col* z = Conv::to_xyz(a);
		ref::V v = mkv(RGB_DEEP, c, 1, &r), w = ref::convert(v, XYZ);
		k.eval(2);
		for (int i = 0; i < 3; ++i) if (!closer(z->get_component(i), w.c[i], 1e-4, 1e-5)) k.fail(key + ":to_xyz", "%s: %s becomes %s, expected %s", what.c_str(), desc(a).c_str(), desc(z).c_str(), ref::show(w).c_str());
		Col* back = Conv::to_rgb_deep(z);
		ref::V bw = ref::convert(mkv(z, &r), RGB_DEEP);
		for (int i = 0; i < 3; ++i) if (!close(back->get_component(i), bw.c[i], 1e-4) && !close(ref::decode(r.g, back->get_component(i)), ref::decode(r.g, bw.c[i]), 1e-6 * (1 + r.mi_norm))) k.fail(key + ":from_xyz", "%s: %s becomes %s", what.c_str(), desc(z).c_str(), desc(back).c_str());
		if (c[0] == 1 && c[1] == 1)
		{
			Col* l = Conv::to_lab(a);
			if (!close(l->get_component(0), 100, 5e-3) || !close(l->get_component(1), 0, 2e-2) || !close(l->get_component(2), 0, 2e-2)) k.fail(key + ":white_lab", "%s: white becomes %s", what.c_str(), desc(l).c_str());
			delete l;
		}
		delete a; delete z; delete back;
	}
}
static const char* WN[] = { "D65_2Degree", "D50_2Degree", "A_2Degree", "C_10Degree" };
static const double PRIMS[3][6] = { { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06 }, { 0.7347, 0.2653, 0.1596, 0.8404, 0.0366, 0.0001 }, { 0.5, 0.3, 0.3, 0.5, 0.2, 0.2 } };
static Def* mk(const double* p, cs::white_point* w, int g)
{
	return new Def((float)p[0], (float)p[1], (float)p[2], (float)p[3], (float)p[4], (float)p[5], w, ref::lib_curve(g));
}
struct DOp { int kind, s, x; };
static std::vector<DOp> dops()
{
	std::vector<DOp> o;
	for (int s = 0; s < 2; ++s)
	{
		for (int i = 0; i < 4; ++i) o.push_back({ 0, s, i });     // set white
		for (int g : { (int)ref::G_SRGB, (int)ref::G18, (int)ref::G28 }) o.push_back({ 1, s, g });
		o.push_back({ 2, s, 0 });                                // copy over the other one
		for (int i = 1; i < 3; ++i) o.push_back({ 3, s, i });     // a new definition
		o.push_back({ 4, s, 0 });                                // use it for conversions
	}
	return o;
}
static void build(Plan& p)
{
	p.property = "C07"; p.level = "model_checking";
	int depth = p.thorough ? 5 : 4;
	p.rule = S("every predefined definition, with every predefined white point set on it and on a copy; all user definitions from a grid of primaries; every sequence of %d operations over two definitions (set a white point, set a curve, copy, construct anew, convert colours with it), the definitions and conversions of colours that carry them against the model afterwards", depth);
	p.assumptions = { "the primaries are not collinear", "a definition is not changed behind the library's back through shared white point objects" };
	p.add("presets", ref::NPRESETS, [](uint64_t ix, Case& k)
	{
		auto& d = ref::defs()[ix];
		check(k, d.lib, d.ref, d.name, S("preset:%s", d.name));
		colours(k, d.lib, d.ref, d.name, S("preset:%s", d.name));
		k.trace(); k.transition(); k.state(mc::hstr(d.name));
		if (k.want_sample()) k.sample("%s", d.name);
	}, "predefined definitions", 1);
	p.add("preset_white", ref::NPRESETS * ref::NWHITES, [](uint64_t ix, Case& k)
	{
		auto& q = ref::PRESETS[ix / ref::NWHITES]; auto& w = ref::WHITES[ix % ref::NWHITES];
		Def* d = q.get(); Def c(*d);
		RDef r0 = ref::make_ref(q.prim, ref::white_named(q.white)->w, q.g), r1 = ref::make_ref(q.prim, w.w, q.g);
		d->set_white_point(w.get()); k.transition(2); k.trace();
		check(k, d, r1, S("%s with white %s", q.name, w.name), "preset_white");
		check(k, &c, r0, S("copy of %s made before setting white %s", q.name, w.name), "preset_copy");
		if (r1.m_norm < 3) colours(k, d, r1, S("%s with white %s", q.name, w.name), "preset_white");
		k.state(mc::mix(ix, 5));
		if (k.want_sample()) k.sample("%s with white %s", q.name, w.name);
	}, "every white point on every predefined definition");
	static auto ops = dops();
	p.add("sequences", ipow(ops.size(), depth), [=](uint64_t ix, Case& k)
	{
		Radix r(ix);
		struct MM { int prim, w, g; } m[2] = { { 0, 0, ref::G_SRGB }, { 1, 1, ref::G18 } };
		static cs::white_point* W[4] = {};
		if (!W[0]) for (int i = 0; i < 4; ++i) W[i] = ref::white_named(WN[i])->get();
		Def* d[2];
		for (int s = 0; s < 2; ++s) d[s] = mk(PRIMS[m[s].prim], W[m[s].w], m[s].g);
		std::string h;
		static RDef RR[3][4][8]; static bool have[3][4][8];
		auto rdef = [&](const MM& x) -> RDef& { if (!have[x.prim][x.w][x.g]) { RR[x.prim][x.w][x.g] = ref::make_ref(PRIMS[x.prim], ref::white_named(WN[x.w])->w, x.g); have[x.prim][x.w][x.g] = true; } return RR[x.prim][x.w][x.g]; };
		for (int q = 0; q < depth; ++q)
		{
			DOp o = ops[r.next(ops.size())]; k.transition();
			static const char* K[] = { "set_white", "set_gamma", "copy", "construct", "use" };
			h += S("%s(%d,%d) ", K[o.kind], o.s, o.x);
			switch (o.kind)
			{
			case 0: d[o.s]->set_white_point(W[o.x]); m[o.s].w = o.x; break;
			case 1: d[o.s]->set_gamma_curve(ref::lib_curve(o.x)); m[o.s].g = o.x; break;
			case 2: { Def* n = new Def(*d[o.s]); delete d[1 - o.s]; d[1 - o.s] = n; m[1 - o.s] = m[o.s]; break; }
			case 3: delete d[o.s]; d[o.s] = mk(PRIMS[o.x], W[o.x], ref::G22); m[o.s] = { o.x, o.x, ref::G22 }; break;
			case 4: colours(k, d[o.s], rdef(m[o.s]), h, "sequence"); break;
			}
		}
		for (int s = 0; s < 2; ++s) { check(k, d[s], rdef(m[s]), h + S("-> definition %d", s), "sequence"); colours(k, d[s], rdef(m[s]), h + S("-> definition %d", s), "sequence"); }
		k.trace();
		k.state(mc::mix(m[0].prim * 100 + m[0].w * 10 + m[0].g, m[1].prim * 100 + m[1].w * 10 + m[1].g));
		if (k.want_sample()) k.sample("%s", h.c_str());
		delete d[0]; delete d[1];
	}, "operation sequences on two definitions");
	// white points that differ in one thing only, or by little
	struct TW { ref::White w; cs::white_point* lib; };
	static std::vector<TW> tw;
	if (tw.empty())
	{
		const ref::White b = ref::white_named("D65_2Degree")->w;
		for (int i = 0; i < 14; ++i)
		{
			double q[5] = { b.X, b.Y, b.Z, b.x, b.y };
			if (i >= 1 && i <= 5) q[i - 1] += i < 4 ? 0.05 : 0.02;
			if (i == 6) for (int j = 0; j < 3; ++j) q[j] *= 0.5;
			if (i == 7) for (int j = 0; j < 3; ++j) q[j] *= 1.0625;
			if (i == 8) std::swap(q[0], q[2]);
			if (i >= 9 && i <= 11) q[i - 9] += 0.0005;
			if (i == 12) { q[3] += 0.01; q[4] += 0.02; }
			if (i == 13) { q[0] = 1; q[2] = 1; }
			float f[5]; for (int j = 0; j < 5; ++j) f[j] = (float)q[j];
			tw.push_back({ { f[0], f[1], f[2], f[3], f[4] }, new cs::white_point(f[0], f[1], f[2], f[3], f[4]) });
		}
	}
	static const uint64_t NTW = 14;
	p.add("twin_whites", NTW * NTW * NTW * 3 * 5, [](uint64_t ix, Case& k)
	{
		Radix q(ix); int w[3]; for (int& x : w) x = q.next(NTW); int pr = q.next(3), mode = q.next(5);
		// constructed with the first, then set to the second and the third; used or copied in between
		cs::white_point own(*tw[w[0]].lib); // one object that is given new values and set again
		auto white = [&](int i) { if (mode != 4) return tw[w[i]].lib; own = *tw[w[i]].lib; return &own; };
		Def* d = mk(PRIMS[pr], white(0), ref::G_SRGB); Def* c = nullptr;
		std::string h = S("primaries %d with white like D65 but for %d, then %d, then %d (%d)", pr, w[0], w[1], w[2], mode);
		auto rd = [&](int i) { return ref::make_ref(PRIMS[pr], tw[w[i]].w, ref::G_SRGB); };
		if (mode == 1) colours(k, d, rd(0), h, "twin");
		d->set_white_point(white(1)); k.transition();
		if (mode == 1) { auto r1 = rd(1); check(k, d, r1, h, "twin"); colours(k, d, r1, h, "twin"); }
		if (mode == 2) c = new Def(*d);
		if (mode == 3) { c = d; d = new Def(*c); }
		d->set_white_point(white(2)); k.transition(); k.trace();
		auto r2 = rd(2); check(k, d, r2, h, "twin"); colours(k, d, r2, h, "twin");
		if (c) { auto r1 = rd(1); check(k, c, r1, h + ", the other copy", "twin"); colours(k, c, r1, h + ", the other copy", "twin"); }
		k.state(mc::mix(mc::mix(w[1], w[2]), mc::mix(pr * 5 + mode, w[0]))); if (k.want_sample()) k.sample("%s", h.c_str());
		delete d; delete c;
	}, "white points that differ in one value, three on one definition");
	int G = p.thorough ? 7 : 5;
	p.add("user_primaries", ipow(G, 6), [=](uint64_t ix, Case& k)
	{
		Radix r(ix); double pr[6];
		for (int i = 0; i < 6; ++i) pr[i] = 0.05 + 0.75 * r.next(G) / (G - 1);
		double area = (pr[2] - pr[0]) * (pr[5] - pr[1]) - (pr[4] - pr[0]) * (pr[3] - pr[1]);
		if (fabs(area) < 0.05) return;
		auto& w = ref::WHITES[ix % 7];
		RDef rd = ref::make_ref(pr, w.w, ref::G22);
		Def* d = mk(pr, w.get(), ref::G22);
		std::array<float, 2> a{ { (float)pr[0], (float)pr[1] } }, b{ { (float)pr[2], (float)pr[3] } }, c{ { (float)pr[4], (float)pr[5] } };
		Def d2(a, b, c, w.get(), ref::lib_curve(ref::G22));
		std::string n = S("primaries (%g,%g)(%g,%g)(%g,%g) white %s", pr[0], pr[1], pr[2], pr[3], pr[4], pr[5], w.name);
		check(k, d, rd, n, "user"); check(k, &d2, rd, n + " from arrays", "user_array");
		k.trace(); k.transition(2); k.state(mc::mix(ix, 6));
		if (k.want_sample()) k.sample("%s", n.c_str());
		delete d;
	}, "definitions with user primaries");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
