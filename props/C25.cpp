// C25: chromatic adaptation.
#include "cmp.h"
#include "grids.h"
#include "manipulation/chromatic_adaptation.h"
typedef color_manipulation::chromatic_adaptation CA;
using ref::M3; using ref::White;
enum { VK, BR, BRS, XS, SH, C97S, C97, C00S, C00, C02S, C02, NM };
static const char* MN[] = { "von_kries", "bradford", "bradford_simplified", "xyz_scale", "sharp", "cmccat97_simplified", "cmccat97", "cmccat2000_simplified", "cmccat2000", "cat02_simplified", "cat02" };
static const M3 MAT_VK = { { 0.40024, 0.7076, -0.08081 }, { -0.2263, 1.16532, 0.0457 }, { 0, 0, 0.91822 } };
static const M3 MAT_BR = { { 0.8951, 0.2664, -0.1614 }, { -0.7502, 1.7135, 0.0367 }, { 0.0389, -0.0685, 1.0296 } };
static const M3 MAT_ID = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
static const M3 MAT_SH = { { 1.2694, -0.0988, -0.1706 }, { -0.8364, 1.8006, 0.0357 }, { 0.0297, -0.0315, 1.0018 } };
static const M3 MAT_00 = { { 0.7982, 0.3389, -0.1371 }, { -0.5918, 1.5512, 0.0406 }, { 0.0008, 0.0239, 0.9753 } };
static const M3 MAT_02 = { { 0.7328, 0.4296, -0.1624 }, { -0.7036, 1.6975, 0.0061 }, { 0.003, 0.0136, 0.9834 } };
static const M3& mat(int m) { return m == VK ? MAT_VK : m == XS ? MAT_ID : m == SH ? MAT_SH : m == C00 || m == C00S ? MAT_00 : m == C02 || m == C02S ? MAT_02 : MAT_BR; }
struct Par { float f, la, lr; int n; }; // n: how many of the optional arguments are given
static const Par PARS[] = { { 1, 100, 100, 2 }, { 1, 100, 100, 0 }, { 0.9f, 100, 100, 1 }, { 0.8f, 20, 100, 2 }, { 1, 1000, 100, 2 }, { 0.9f, 5, 50, 2 }, { 0.8f, 0, 100, 2 }, { 1, 318.31f, 200, 2 }, { 0.5f, 64, 100, 1 }, { 1, 0.5f, 3, 2 }, { 2, 318.31f, 100, 2 }, { 1.5f, 100, 100, 0 }, { -1, 50, 100, 2 } };
static const int NPARS = sizeof(PARS) / sizeof(PARS[0]);
static bool full(int m) { return m == C97 || m == C00 || m == C02; }
static Col* call(int m, Col* c, cs::white_point* w, const Par& p)
{
	switch (m)
	{
	case VK: return CA::von_kries_adaptation(c, w);
	case BR: return CA::bradford_adaptation(c, w);
	case BRS: return CA::bradford_adaptation_simplified(c, w);
	case XS: return CA::xyz_scale_adaptation(c, w);
	case SH: return CA::sharp_adaptation(c, w);
	case C97S: return CA::cmccat97_adaptation_simplified(c, w);
	case C97: return p.n == 0 ? CA::cmccat97_adaptation(c, w, p.f) : CA::cmccat97_adaptation(c, w, p.f, p.la);
	case C00S: return CA::cmccat2000_adaptation_simplified(c, w);
	case C00: return p.n == 0 ? CA::cmccat2000_adaptation(c, w, p.f) : p.n == 1 ? CA::cmccat2000_adaptation(c, w, p.f, p.la) : CA::cmccat2000_adaptation(c, w, p.f, p.la, p.lr);
	case C02S: return CA::cat02_adaptation_simplified(c, w);
	default: return p.n == 0 ? CA::cat02_adaptation(c, w, p.f) : CA::cat02_adaptation(c, w, p.f, p.la);
	}
}
static void formula(int m, const double* x, const White& s, const White& d, const Par& p, double* o)
{
	const M3& M = mat(m); M3 I; ref::inv3(M, I);
	double ws[3] = { s.X, s.Y, s.Z }, wd[3] = { d.X, d.Y, d.Z }, a[3], b[3], r[3], q[3];
	double la = full(m) && p.n < 1 ? 100 : p.la, lr = m == C00 && p.n < 2 ? 100 : p.lr;
	double Y = 1;
	if (m == BR || m == C97)
	{
		Y = x[1] == 0 ? 1 : x[1];
		for (int i = 0; i < 3; ++i) { ws[i] /= s.Y; wd[i] /= d.Y; }
	}
	ref::mul(M, ws, a); ref::mul(M, wd, b); ref::mul(M, x, r);
	for (int i = 0; i < 3; ++i) r[i] /= Y;
	double D = 1, k = 1;
	if (m == C97) D = p.f - p.f / (1 + 2 * pow(la, 0.25) + la * la / 300);
	if (m == C00) { D = p.f * (0.08 * log10(0.5 * (la + lr)) + 0.76 - 0.45 * (la - lr) / (la + lr)); k = s.Y / d.Y; }
	if (m == C02) D = p.f * (1 - 1 / 3.6 * exp((-la - 42) / 92));
	D = ref::clampd(D, 0, 1);
	for (int i = 0; i < 3; ++i) q[i] = r[i] * (D * k * b[i] / a[i] + 1 - D);
	if (m == BR || m == C97)
	{
		double e = pow(a[2] / b[2], 0.0834);
		q[2] = pow(fabs(r[2]), e) * (D * b[2] / pow(a[2], e) + 1 - D) * (r[2] < 0 ? -1 : 1);
	}
	for (int i = 0; i < 3; ++i) q[i] *= Y;
	ref::mul(I, q, o);
}
// the white points and definitions of the exploration
struct LW { std::string name; cs::white_point* lib; White w; };
static std::vector<LW>& whites()
{
	static std::vector<LW> v;
	if (v.empty())
	{
		for (auto& w : ref::WHITES) v.push_back({ w.name, w.get(), w.w });
		static const double C[][3] = { { 0.9, 1, 0.4 }, { 1.2, 1, 1.3 }, { 0.47, 0.5, 0.55 }, { 1.9, 2, 1.5 } };
		for (auto& c : C) { double t = c[0] + c[1] + c[2]; v.push_back({ S("white (%g,%g,%g)", c[0], c[1], c[2]), new cs::white_point((float)c[0], (float)c[1], (float)c[2]), { c[0], c[1], c[2], c[0] / t, c[1] / t } }); }
		// one that equals the white point of sRGB, and others that differ from it in one value
		const White b = ref::white_named("D65_2Degree")->w;
		for (int i = 0; i < 6; ++i)
		{
			double q[5] = { b.X, b.Y, b.Z, b.x, b.y }; if (i) q[i - 1] += i < 4 ? 0.04 : 0.02; float f[5]; for (int j = 0; j < 5; ++j) f[j] = (float)q[j];
			v.push_back({ S("white like D65 but for %d", i), new cs::white_point(f[0], f[1], f[2], f[3], f[4]), { f[0], f[1], f[2], f[3], f[4] } });
		}
	}
	return v;
}
struct SD { std::string name; Def* lib; ref::RDef ref; White w; };
static std::vector<SD>& srcs()
{
	static std::vector<SD> v;
	if (v.empty())
	{
		for (auto& d : ref::defs()) v.push_back({ d.name, d.lib, d.ref, d.ref.w });
		static const double P[6] = { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06 };
		for (int i : { 4, 23, 40, 42, 46, 47, 48 }) { auto& w = whites()[i]; v.push_back({ "sRGB primaries with " + w.name, new Def(0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, w.lib, ref::lib_curve(ref::G_SRGB)), ref::make_ref(P, w.w, ref::G_SRGB), w.w }); }
	}
	return v;
}
struct DSnap { std::vector<float> v; std::vector<const void*> q; explicit DSnap(Def* d)
{
	for (auto a : { d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate(), d->get_white_point()->get_tristimulus(), d->get_white_point()->get_chromaticity_coordinate() }) for (float f : a) v.push_back(f);
	auto m = d->get_transform_matrix(), n = d->get_inverse_transform_matrix(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { v.push_back(m(i, j)); v.push_back(n(i, j)); }
	q = { d->get_white_point(), d->get_gamma_curve() }; }
	bool operator==(const DSnap& o) const { return v == o.v && q == o.q; } };
static std::string definition(Def* d, const SD& s, const LW& w)
{
	if (!d) return "the result has no rgb definition";
	auto t = d->get_white_point()->get_tristimulus();
	if (!close(t[0], w.w.X, 1e-5) || !close(t[1], w.w.Y, 1e-5) || !close(t[2], w.w.Z, 1e-5)) return "the definition of the result does not have the target white point";
	auto R = d->get_red_chromaticity_coordinate(), G = d->get_green_chromaticity_coordinate(), B = d->get_blue_chromaticity_coordinate();
	double p[6] = { R[0], R[1], G[0], G[1], B[0], B[1] }; for (int i = 0; i < 6; ++i) if (!close(p[i], s.ref.prim[i], 1e-6)) return "the definition of the result has other primaries";
	for (float x : { 0.05f, 0.4f }) if (!closer(d->get_gamma_curve()->gamma_correction(x), ref::encode(s.ref.g, x), 4e-6, 3e-6)) return "the definition of the result has another gamma curve";
	ref::RDef n = ref::make_ref(s.ref.prim, w.w, s.ref.g); auto m = d->get_transform_matrix();
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!close(m(i, j), n.m[i][j], 1e-5 * (1 + n.m_norm))) return "the matrix of the definition of the result does not belong to its white point";
	return "";
}
static void one(Case& k, int m, int t, const float* c, float al, int si, int wi, const Par& p)
{
	auto& s = srcs()[si]; auto& w = whites()[wi]; k.eval();
	if (m == C02 && (s.w.Y != 1 || w.w.Y != 1)) return; // see the assumptions
	Col* a = make(t, c, al * alpha_max(t), s.lib); Snap sa(a); DSnap sd(s.lib);
	std::string what = S("%s of %s in %s to %s", MN[m], desc(a).c_str(), s.name.c_str(), w.name.c_str()); if (full(m)) what += S(", f=%g La=%g Lr=%g (%d given)", p.f, p.la, p.lr, p.n);
	Col* r = nullptr; Pool pool; pool(a);
	if (raises([&] { r = call(m, a, w.lib, p); })) { k.fail(S("raises:%s", MN[m]), "%s raised", what.c_str()); return; }
	if (r != a) pool(r);
	if (Snap(a) != sa || !(DSnap(s.lib) == sd)) { k.fail(S("operand:%s", MN[m]), "%s changed the colour or its definition", what.c_str()); return; }
	std::string why;
	if (!r) why = "nothing is returned";
	else if (r->get_color_type() != t) why = "the type differs";
	else if (!in_range(r, &why)) {}
	else if (!close(r->alpha(), sa.a, is_true(t) ? 0.501 : 3e-6)) why = "the alpha differs";
	if (!why.empty()) { k.fail(S("meta:%s:%s", MN[m], TN[t]), "%s is %s: %s", what.c_str(), desc(r).c_str(), why.c_str()); return; }
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(r)), mc::mix(m * 64 + wi, si)));
	if (k.want_sample()) k.sample("%s is %s", what.c_str(), desc(r).c_str());
	bool same = s.lib->get_white_point() == w.lib;
	if (same)
	{
		if (Snap(r) != sa) k.fail(S("same_white:%s:%s", MN[m], TN[t]), "%s, the white point it has, is %s", what.c_str(), desc(r).c_str());
		return;
	}
	why = definition(r->get_rgb_color_space(), s, w);
	if (!why.empty()) k.fail(S("definition:%s", MN[m]), "%s: %s", what.c_str(), why.c_str());
	// the components, through XYZ
	Col* x = conv(a, XYZ); if (x != a) pool(x);
	double in[3] = { x->get_component(0), x->get_component(1), x->get_component(2) }, o[3];
	formula(m, in, s.w, w.w, p, o);
	Col* z = r;
	if (t != XYZ)
	{
		if (raises([&] { z = call(m, x, w.lib, p); })) { k.fail(S("raises:%s", MN[m]), "%s of the XYZ colour raised", what.c_str()); return; }
		if (z != x) pool(z);
	}
	double big = std::max(fabs(in[0]), std::max(fabs(in[1]), fabs(in[2])));
	// five digits of the inverse matrices; where XYZ is far from the sensors' axis their terms cancel
	double tol = 6e-5 * big;
	if ((m == BR || m == C97) && in[1] < 0.05 * big) tol *= 5; // normalised by a small Y
	for (int i = 0; i < 3; ++i)
	{
		double e = ref::clampd(o[i], 0, 100);
		if (!close(z->get_component(i), e, tol + 1e-6)) { k.fail(S("value:%s", MN[m]), "%s: XYZ (%.7g,%.7g,%.7g) becomes %s, expected (%.7g,%.7g,%.7g)", what.c_str(), in[0], in[1], in[2], desc(z).c_str(), o[0], o[1], o[2]); break; }
	}
	if (t != XYZ)
	{
		ref::RDef n = ref::make_ref(s.ref.prim, w.w, s.ref.g);
		std::string q = cmp::differs(r, cmp::expect(ref::of(z, &n), t), 3);
		if (!q.empty()) k.fail(S("type:%s:%s", MN[m], TN[t]), "%s is %s, but the XYZ colour becomes %s: %s", what.c_str(), desc(r).c_str(), desc(z).c_str(), q.c_str());
	}
	k.eval(2);
}
static void build(Plan& p)
{
	p.property = "C25"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "the eleven adaptations of a grid of XYZ colours between every pair of 27 source definitions and 50 target white points; of grids of all 15 types; of the source white; with every parameter set; to the white point the colour has; distinct by colour, definition, target and result";
	p.assumptions = { "the full CAT02 adaptation is compared between white points of Y=1 only, where the published forms agree", "the reference uses the published forward matrices and their exact inverses; the library's five-digit inverses are within the tolerance of 6e-5 of the largest component" };
	static const uint64_t NS = srcs().size(), NW = whites().size();
	static Grid g = make_grid(XYZ, th ? 7 : 3);
	p.add("xyz", NM * NS * NW * (th ? g.n : 12), [](uint64_t ix, Case& k)
	{
		Radix r(ix); int s = r.next(NS), w = r.next(NW), m = r.next(NM); uint64_t i = r.next(g.n); if (!th) i = mc::mix(i, s * 64 + w) % g.n; float c[4]; g.get(i, c);
		static const float A[] = { 1.f, 0.5f, 0.f };
		one(k, m, XYZ, c, A[i % 3], s, w, PARS[(i + s + w) % NPARS]);
	}, "XYZ colours between all definitions and white points");
	p.add("white", NM * NS * NW * NPARS, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int s = r.next(NS), w = r.next(NW), m = r.next(NM), q = r.next(NPARS); if (!full(m) && q) return;
		float c[4] = { (float)srcs()[s].w.X, (float)srcs()[s].w.Y, (float)srcs()[s].w.Z };
		one(k, m, XYZ, c, 1, s, w, PARS[q]);
		k.eval();
		// the source white becomes the target white
		if (!full(m))
		{
			if (m == BR && srcs()[s].w.Y != whites()[w].w.Y) return; // keeps the luminance
			cs::xyz a(c[0], c[1], c[2], 1.f, srcs()[s].lib); Col* z = nullptr;
			if (raises([&] { z = call(m, &a, whites()[w].lib, PARS[q]); }) || !z) { k.fail(S("raises:%s", MN[m]), "adapting white raised"); return; }
			const White& d = whites()[w].w;
			if (!close(z->get_component(0), d.X, 2e-4) || !close(z->get_component(1), d.Y, 2e-4) || !close(z->get_component(2), d.Z, 2e-4)) k.fail(S("white:%s", MN[m]), "%s of the white point of %s to %s is %s", MN[m], srcs()[s].name.c_str(), whites()[w].name.c_str(), desc(z).c_str());
			if (z != &a) delete z;
		}
	}, "source white to target white with every parameter set");
	for (int t = 0; t < NT; ++t)
	{
		Lines l = make_lines(t, th ? 1600 : 200);
		p.add(S("lines:%s", TN[t]), l.n * NM, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(NM); float c[4]; l.get(r.next(l.n), c); uint64_t h = mc::mix(ix, 20); static const float A[] = { 1.f, 0.5f, 0.2f, 0.f };
			one(k, m, t, c, A[h % 4], h / 16 % NS, h / 1024 % NW, PARS[h / 65536 % NPARS]);
		}, "one component moved finely through its range");
	}
	p.add("parameters", 3 * 600 * 4, [](uint64_t ix, Case& k)
	{
		// the parameters moved finely
		static Lines l = make_lines(XYZ, 2); static const int M[] = { C97, C00, C02 };
		Radix r(ix); int m = M[r.next(3)], q = r.next(600), b = r.next(4); float c[4]; l.at(b * 2, c); uint64_t h = mc::mix(ix, 21); Par a = { 1, 100, 100, 2 };
		if (q < 200) a = { q / 100.f - 0.5f, 318.31f, 100, 2 }; else if (q < 400) a = { 0.9f, (q - 200) * 5.f, 100, 2 }; else a = { 1, h % 2 ? 64.f : (q - 400) * 2.f, (q - 399) * 3.f, 2 };
		one(k, m, XYZ, c, 1, h / 16 % NS, h / 1024 % NW, a);
	}, "the parameters of the full methods moved finely");
	for (int t = 0; t < NT; ++t) if (t != XYZ)
	{
		Grid q = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 2 : th ? 5 : 3);
		p.add(S("types:%s", TN[t]), NM * q.n * (th ? 24 : 6), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(NM), v = r.next(th ? 24 : 6); uint64_t i = r.next(q.n); uint64_t h = mc::mix(i, v); float c[4]; q.get(i, c);
			static const float A[] = { 1.f, 0.5f, 0.2f };
			one(k, m, t, c, A[h % 3], th ? v : h / 16 % NS, h / 1024 % NW, PARS[h / 65536 % NPARS]);
		}, "all types");
		p.add(S("same_white:%s", TN[t]), NM * NS * 6, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int m = r.next(NM), s = r.next(NS); float c[4]; q.get(mc::mix(ix, 1) % q.n, c); k.eval();
			Col* a = make(t, c, 0.8f * alpha_max(t), srcs()[s].lib); Snap sa(a); Col* z = nullptr;
			if (raises([&] { z = call(m, a, srcs()[s].lib->get_white_point(), PARS[ix % NPARS]); }) || !z || Snap(z) != sa) k.fail(S("same_white:%s:%s", MN[m], TN[t]), "%s of %s to its own white point is %s", MN[m], desc(a).c_str(), desc(z).c_str());
			if (z && z != a) delete z;
			delete a;
		}, "to the white point the colour has");
	}
	p.add("adapting_luminance", 12 * 12, [](uint64_t ix, Case& k)
	{
		static const float L[] = { 0, 1, 0.5f, 20, 64, 100, 318.31f, 1000, 0.01f, 33.3f, 5000, 7 };
		float a = L[ix % 12], b = L[ix / 12]; float r = CA::calculate_adapting_luminance(a, b), q = CA::calculate_adapting_luminance(a); k.eval(2);
		if (!closer(r, (double)a * b / 100, 2e-6, 1e-9)) k.fail("adapting_luminance", "adapting luminance of %g with factor %g is %.8g", a, b, r);
		if (!closer(q, a, 2e-6, 1e-9)) k.fail("adapting_luminance", "adapting luminance of %g is %.8g", a, q);
	});
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
