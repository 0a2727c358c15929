// C22: the CIE colour difference formulae.
#include "dist.h"
enum { E76, E94, CMC, E00 };
static const char* FN[] = { "cie76", "cie94", "cmc", "cie00" };
struct Par { int n; float v[5]; }; // how many optional arguments are given, and their values
static const Par P94[] = { { 0, { 1, .045f, .015f, 1, 1 } }, { 5, { 1, .045f, .015f, 1, 1 } }, { 5, { 2, .048f, .014f, 1, 1 } }, { 1, { 2, .045f, .015f, 1, 1 } }, { 2, { 1.5f, .048f, .015f, 1, 1 } }, { 3, { 2, .048f, .014f, 1, 1 } },
	{ 4, { 1, .045f, .015f, 1.3f, 1 } }, { 5, { 1, .045f, .015f, 1, 0.7f } }, { 5, { 0.5f, 0.1f, 0.02f, 2, 3 } }, { 5, { 1, 0.f, 0.03f, 1, 1 } } };
static const Par PC[] = { { 0, { 2, 1 } }, { 1, { 1, 1 } }, { 2, { 1, 1 } }, { 2, { 2, 1 } }, { 2, { 1.4f, 0.6f } }, { 2, { 0.5f, 3 } } };
static float call(int f, Col* a, Col* b, const Par& p)
{
	const float* v = p.v;
	switch (f)
	{
	case E76: return CD::cielab_delta_e_cie76(a, b);
	case E94: return p.n == 0 ? CD::cielab_delta_e_cie94(a, b) : p.n == 1 ? CD::cielab_delta_e_cie94(a, b, v[0]) : p.n == 2 ? CD::cielab_delta_e_cie94(a, b, v[0], v[1]) : p.n == 3 ? CD::cielab_delta_e_cie94(a, b, v[0], v[1], v[2]) : p.n == 4 ? CD::cielab_delta_e_cie94(a, b, v[0], v[1], v[2], v[3]) : CD::cielab_delta_e_cie94(a, b, v[0], v[1], v[2], v[3], v[4]);
	case E00: return p.n == 0 ? CD::cielab_delta_e_cie00(a, b) : p.n == 1 ? CD::cielab_delta_e_cie00(a, b, v[0]) : p.n == 2 ? CD::cielab_delta_e_cie00(a, b, v[0], v[1]) : p.n == 3 ? CD::cielab_delta_e_cie00(a, b, v[0], v[1], v[2]) : p.n == 4 ? CD::cielab_delta_e_cie00(a, b, v[0], v[1], v[2], v[3]) : CD::cielab_delta_e_cie00(a, b, v[0], v[1], v[2], v[3], v[4]);
	default: return p.n == 0 ? CD::cmc_delta_e_lc84(a, b) : p.n == 1 ? CD::cmc_delta_e_lc84(a, b, v[0]) : CD::cmc_delta_e_lc84(a, b, v[0], v[1]);
	}
}
static double rad(double d) { return d * M_PI / 180; }
static double deg(double d) { return d / M_PI * 180; }
// the interval the value of the formula lies in when the Lab components are rounded
struct Iv { double lo = 1e300, hi = -1e300; void add(double x) { lo = std::min(lo, x); hi = std::max(hi, x); } };
static void formula(int f, const double* x, const double* y, const Par& p, Iv& o)
{
	double dL = x[0] - y[0], c1 = hypot(x[1], x[2]), c2 = hypot(y[1], y[2]), dC = c1 - c2;
	double da = x[1] - y[1], db = x[2] - y[2];
	if (f == E76) { o.add(sqrt(dL * dL + da * da + db * db)); return; }
	// da^2+db^2-dC^2 without cancellation
	double dH2 = 2 * std::max(0.0, c1 * c2 - x[1] * y[1] - x[2] * y[2]);
	// the cancellation happens in the library's float arithmetic
	double slack = 3e-6 * (da * da + db * db + dC * dC) + 4e-7 * (c1 + c2) * fabs(dC) + 1e-12;
	for (double h2 : { dH2, std::max(0.0, dH2 - slack), dH2 + slack })
	{
		if (f == E94)
		{
			double sc = 1 + (double)p.v[1] * c1, sh = 1 + (double)p.v[2] * c1;
			o.add(sqrt(pow(dL / p.v[0], 2) + pow(dC / (p.v[3] * sc), 2) + h2 / pow(p.v[4] * sh, 2)));
		}
		else
		{
			double H = deg(atan2(x[2], x[1])); if (H < 0) H += 360;
			double F = sqrt(pow(c1, 4) / (pow(c1, 4) + 1900)), sc = 0.0638 * c1 / (1 + 0.0131 * c1) + 0.638;
			for (double e : { 0.0, 2e-3, -2e-3 })
			{
				double g = H + e; if (c1 < 1e-3 && e != 0) g = e > 0 ? 200 : 100; // a hue of noise
				double T = g >= 164 && g <= 345 ? 0.56 + fabs(0.2 * cos(rad(g + 168))) : 0.36 + fabs(0.4 * cos(rad(g + 35)));
				double sh = sc * (F * T + 1 - F);
				for (double l : { x[0], x[0] - 1e-4, x[0] + 1e-4 })
				{
					double sl = l < 16 ? 0.511 : 0.040975 * l / (1 + 0.01765 * l);
					o.add(sqrt(pow(dL / (p.v[0] * sl), 2) + pow(dC / (p.v[1] * sc), 2) + h2 / (sh * sh)));
				}
			}
		}
	}
}
// CIEDE2000. lib: as the library computes it (the hue angles in whole degrees, the chroma before the
// correction of a, the factor k2 in the lightness weight, the rotation exponent not negated).
// open: the rotation term is anything between its bounds.
struct V00 { bool whole, raw, k2l, sign; };
static double de00(const double* x, const double* y, const Par& p, const V00& v, double j1, double j2, double* H_, double* rtmax, double ex = 1, const double* rt_ = nullptr)
{
	double c1 = hypot(x[1], x[2]), c2 = hypot(y[1], y[2]), ac = (c1 + c2) / 2;
	double g = sqrt(pow(ac, 7) / (pow(ac, 7) + pow(25, 7)));
	double a1 = x[1] * (1 + (1 - g) / 2), a2 = y[1] * (1 + (1 - g) / 2);
	double k1 = hypot(a1, x[2]), k2 = hypot(a2, y[2]);
	auto hue = [&](double b, double a, double j) { double h = deg(atan2(b, a)) + j; if (v.whole) h = trunc(h); h = fmod(h, 360); if (h < 0) h += 360; return h; };
	double h1 = hue(x[2], a1, j1), h2 = hue(y[2], a2, j2);
	double H = fabs(h1 - h2) > 180 ? (h1 + h2 + 360) / 2 : (h1 + h2) / 2;
	double d = h2 - h1; if (fabs(d) > 180) d += h2 <= h1 ? 360 : -360;
	if (v.sign && H >= 360 && !v.whole) H -= 360;
	double u1 = v.raw ? c1 : k1, u2 = v.raw ? c2 : k2, m = v.raw ? ac : (k1 + k2) / 2;
	double dL = y[0] - x[0], dC = u2 - u1, dH = 2 * sqrt(u1 * u2) * sin(rad(d / 2));
	double sC = 1 + (double)p.v[1] * m;
	double sH = 1 + (double)p.v[2] * m * (1 - 0.17 * cos(rad(H - 30)) + 0.24 * cos(rad(2 * H)) + 0.32 * cos(rad(3 * H + 6)) - 0.2 * cos(rad(4 * H - 63)));
	double al = (x[0] + y[0]) / 2 - 50, sL = 1 + (v.k2l ? (double)p.v[2] : 0.015) * al * al / sqrt(20 + al * al);
	double gm = v.raw ? g : sqrt(pow(m, 7) / (pow(m, 7) + pow(25, 7)));
	double e = pow((H - 275) / 25, 2);
	if (rtmax) *rtmax = 2 * gm;
	if (H_) *H_ = H;
	double rt = rt_ ? *rt_ * 2 * gm : -2 * gm * sin(rad(60 * ex * exp(v.sign ? -e : e)));
	double X = dL / (p.v[0] * sL), Y = dC / (p.v[3] * sC), Z = dH / (p.v[4] * sH);
	return sqrt(std::max(0.0, X * X + Y * Y + Z * Z + rt * Y * Z));
}
static bool near00(double r, const double* x, const double* y, const Par& p, const V00& v, bool* over)
{
	auto js = [&](double a, double b, double c) { // hues to consider: noise of the angle
		std::vector<double> o = { 0 };
		if (c < 2e-3) { for (int i = 1; i < 24; ++i) o.push_back(i * 15); return o; }
		o.push_back(1e-3 + 0.2 / std::max(c, 0.2) * 1e-3); o.push_back(-o[1]);
		return o;
	};
	double c1 = hypot(x[1], x[2]), c2 = hypot(y[1], y[2]);
	Iv o;
	for (double j1 : js(x[1], x[2], c1)) for (double j2 : js(y[1], y[2], c2))
	{
		double H; de00(x, y, p, v, j1, j2, &H, nullptr);
		double e = pow((H - 275) / 25, 2);
		if (!v.sign && e > 84) *over = true;
		if (!v.sign && e > 7) { for (double t : { -1.0, 1.0 }) o.add(de00(x, y, p, v, j1, j2, nullptr, nullptr, 1, &t)); continue; }
		// the argument of the sine is rounded
		double n = 60 * exp(e) * 3e-6; // degrees
		(void)n;
		for (double ex : { 1.0, 1 + 4e-6 * (1 + e), 1 - 4e-6 * (1 + e) }) { double w = de00(x, y, p, v, j1, j2, nullptr, nullptr, ex); o.add(w); }
	}
	double tol = 3e-5 * std::max(fabs(o.lo), fabs(o.hi)) + 1e-4;
	// between hues on both sides of a whole degree each side counts by itself; the interval is small against what is looked for
	return r >= o.lo - tol && r <= o.hi + tol;
}
static void one(Case& k, int f, Col* a, Col* b, const Par& p)
{
	k.eval(); Snap sa(a), sb(b);
	std::string what = S("%s of %s and %s", FN[f], desc(a).c_str(), desc(b).c_str());
	if (f == CMC) what += S(", l=%g c=%g", p.v[0], p.v[1]); else if (f != E76) what += S(", kL=%g k1=%g k2=%g kC=%g kH=%g", p.v[0], p.v[1], p.v[2], p.v[3], p.v[4]);
	float r = NAN;
	if (raises([&] { r = call(f, a, b, p); })) { k.fail(S("raises:%s", FN[f]), "%s raised", what.c_str()); return; }
	if (Snap(a) != sa || Snap(b) != sb) { k.fail(S("operand:%s", FN[f]), "%s changed an operand", what.c_str()); return; }
	Pool pool; Col* l = conv(a, LAB); Col* m = conv(b, LAB); if (l != a) pool(l); if (m != b) pool(m);
	double x[3], y[3]; for (int i = 0; i < 3; ++i) { x[i] = l->get_component(i); y[i] = m->get_component(i); }
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(mc::fbits(r), f * 20 + (uint64_t)(p.v[0] * 64))));
	if (k.want_sample()) k.sample("%s is %.7g", what.c_str(), r);
	if (f != E00)
	{
		Iv o; formula(f, x, y, p, o);
		double tol = 2e-5 * o.hi + 2e-5;
		if (!(r >= o.lo - tol && r <= o.hi + tol)) k.fail(S("value:%s", FN[f]), "%s is %.8g, expected [%.8g,%.8g]", what.c_str(), r, o.lo, o.hi);
		return;
	}
	bool over = false, pub = near00(r, x, y, p, V00{ false, false, false, true }, &over), ok = pub;
	over = false;
	// every combination of the known deviations of the library: repairing one of them is no violation
	for (int v = 0; v < 16 && !ok; ++v) ok = near00(r, x, y, p, V00{ !!(v & 1), !!(v & 2), !!(v & 4), !!(v & 8) }, &over);
	if (!ok && over && !(r == r)) k.fail("cie00:nan", "%s is not a number", what.c_str());
	else if (!ok) { double H; double w = de00(x, y, p, V00{ false, false, false, true }, 0, 0, &H, nullptr); k.fail("value:cie00", "%s is %.8g; published formula %.8g, as the library is known to compute it %.8g (mean hue %.5g)", what.c_str(), r, w, de00(x, y, p, V00{ true, true, true, false }, 0, 0, nullptr, nullptr), H); }
	else if (!pub) k.fail("cie00:published", "%s is %.8g, the published formula gives %.8g", what.c_str(), r, de00(x, y, p, V00{ false, false, false, true }, 0, 0, nullptr, nullptr));
}
static void build(Plan& p)
{
	p.property = "C22"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "all pairs of Lab colours of a grid (every quadrant, achromatic axis, dark colours, hue thresholds) with a grid of parameters; all 225 ordered pairs of types; omitted arguments; a colour with itself; distinct by operands, formula, parameters and result";
	p.assumptions = { "the operands are converted to Lab as C09 and C11 describe", "the parameters are positive", "for mean hues where the library's rotation term is a sine of more than 6e4 degrees (see the known findings) the term is only bounded" };
	static std::vector<std::array<float, 3>> pts;
	if (pts.empty())
	{
		std::vector<float> L = { 0, 8, 15.9f, 16.1f, 50, 100 }; std::vector<float> C = { 0.5f, 20, 70, 120 };
		std::vector<float> H; for (int h = 0; h < 360; h += th ? 10 : 20) H.push_back(h + 0.5f);
		for (float h : { 163.f, 165.f, 344.f, 346.f, 275.3f, 300.4f, 250.2f }) H.push_back(h);
		for (float l : L) { pts.push_back({ l, 0, 0 }); for (float c : C) for (float h : H) pts.push_back({ l, (float)(c * cos(rad(h))), (float)(c * sin(rad(h))) }); }
	}
	static Def* sr = ref::def_named("sRGB").lib;
	static const uint64_t N = pts.size();
	p.add("lab:pairs", N * N, [](uint64_t ix, Case& k)
	{
		auto& q = pts[ix / N]; auto& s = pts[ix % N]; uint64_t h = mc::mix(ix, 1);
		cs::lab a(q[0], q[1], q[2], 1.f, sr), b(s[0], s[1], s[2], 1.f, sr);
		one(k, E76, &a, &b, PC[0]); one(k, E94, &a, &b, P94[h % 10]); one(k, CMC, &a, &b, PC[h / 16 % 6]);
		if (h / 128 % 4 == 0 || th) one(k, E00, &a, &b, P94[h / 512 % 10]);
	}, "pairs of Lab colours");
	p.add("lab:parameters", 60 * 60 * 16, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int w = r.next(16); auto& q = pts[r.next(60) * 37 % N]; auto& s = pts[(r.next(60) * 53 + 11) % N];
		cs::lab a(q[0], q[1], q[2], 1.f, sr), b(s[0], s[1], s[2], 1.f, sr);
		if (w < 10) { one(k, E94, &a, &b, P94[w]); one(k, E00, &a, &b, P94[w]); } else one(k, CMC, &a, &b, PC[w - 10]);
	}, "all parameter sets");
	for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 2 : 3), f = make_grid(u, NC[u] == 1 ? 9 : NC[u] == 4 ? 2 : 3);
		p.add(S("types:%s:%s", TN[t], TN[u]), f.n * g.n, [=](uint64_t ix, Case& k)
		{
			if (!th && mc::mix(ix, 11) % 3) return;
			Radix r(ix); uint64_t h = mc::mix(ix, 5); int d1, d2;
			Col* a = pick(t, g, r.next(g.n), h, d1); Col* b = pick(u, f, r.next(f.n), h / 128 % 2 ? h : h / 256, d2);
			one(k, E76, a, b, PC[0]); one(k, E94, a, b, P94[h % 10]); one(k, CMC, a, b, PC[h / 16 % 6]); if (th || h / 512 % 4 == 0) one(k, E00, a, b, P94[h / 512 % 10]);
			delete a; delete b;
		});
	}
	// hue angle, chroma and lightness of one colour moved finely
	p.add("lab:polar", 3 * (th ? 7201 : 1801) * 8 * 3, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int what = r.next(3), n = th ? 7200 : 1800, i = r.next(n + 1), b = r.next(8), v = r.next(3); uint64_t h = mc::mix(ix, 41);
		static const float B[][3] = { { 50, 40, 100 }, { 10, 5, 170 }, { 90, 80, 340 }, { 30, 100, 275 }, { 70, 20, 15 }, { 15.5f, 60, 200 }, { 60, 1, 300 }, { 99, 30, 60 } };
		float l = B[b][0], c = B[b][1], g = B[b][2];
		auto& s = v == 0 ? B[b] : B[h % 8]; float t[3] = { s[0], s[1], s[2] }; if (v == 1) { t[0] += 3; t[1] *= 0.9f; t[2] += 7; }
		if (what == 0) g = 360.f * i / n; else if (what == 1) c = 128.f * i / n; else l = 100.f * i / n;
		cs::lab x(l, (float)(c * cos(rad(g))), (float)(c * sin(rad(g))), 1.f, sr), y(t[0], (float)(t[1] * cos(rad(t[2]))), (float)(t[1] * sin(rad(t[2]))), 1.f, sr);
		bool sw = h >> 63; Col *p1 = sw ? (Col*)&y : &x, *p2 = sw ? (Col*)&x : &y;
		one(k, E76, p1, p2, PC[0]); one(k, E94, p1, p2, P94[h / 16 % 10]); one(k, CMC, p1, p2, PC[h / 256 % 6]); if (th || ix % 2) one(k, E00, p1, p2, P94[h / 4096 % 10]);
	}, "hue, chroma and lightness of one colour moved finely");
	for (int t = 0; t < NT; ++t)
	{
		Lines l = make_lines(t, th ? 1200 : 150);
		p.add(S("lines:%s", TN[t]), l.n * (th ? 4 : 1), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); r.next(th ? 4 : 1); float c[4], e[4]; int q; l.get(r.next(l.n), c, &q); uint64_t h = mc::mix(ix, 42); l.at(h % 2 ? q : h / 2 % 8, e); Def* d = ref::defs()[(h >> 10) % ref::defs().size()].lib;
			Col* a = make(t, c, 0.5f, d); Col* b = make(t, e, 0.9f, d); if (h >> 63) std::swap(a, b);
			one(k, E76, a, b, PC[0]); one(k, E94, a, b, P94[h / 16 % 10]); one(k, CMC, a, b, PC[h / 256 % 6]); if (th || h / 4096 % 4 == 0) one(k, E00, a, b, P94[h / 65536 % 10]);
			delete a; delete b;
		}, "one component of a colour moved finely through its range");
	}
	for (int t = 0; t < NT; ++t)
	{
		Grid q = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? 4 : 6);
		p.add(S("same:%s", TN[t]), q.n, [=](uint64_t ix, Case& k)
		{
			int di; Col* a = pick(t, q, ix, mc::mix(ix, 3), di); Col* b = clone(a); k.eval();
			for (int f = 0; f < 4; ++f)
			{
				float x = NAN, y = NAN; const Par& pr = f == CMC ? PC[ix % 6] : P94[ix % 10];
				if (raises([&] { x = call(f, a, a, pr); y = call(f, a, b, pr); })) { k.fail(S("raises:%s", FN[f]), "%s to itself raised", desc(a).c_str()); continue; }
				if (x != 0) k.fail(S("same_object:%s", FN[f]), "%s of %s to itself is %.8g", FN[f], desc(a).c_str(), x);
				if (f != E00 && !(fabs(y) <= 1e-3)) k.fail(S("equal:%s", FN[f]), "%s of %s to an equal colour is %.8g", FN[f], desc(a).c_str(), y);
				if (f == E00 && y != y) k.fail("cie00:nan", "%s of %s to an equal colour is %.8g", FN[f], desc(a).c_str(), y);
				else if (f == E00 && !(fabs(y) <= 1e-3)) k.fail("equal:cie00", "%s of %s to an equal colour is %.8g", FN[f], desc(a).c_str(), y);
			}
			k.distinct(hcol(a)); delete a; delete b;
		}, "a colour with itself and with an equal copy");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
