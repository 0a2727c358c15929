// C06: white points: published presets, conversion between tristimulus and chromaticity, copies, comparison.
#include "util.h"
typedef cs::white_point WPt;
static bool near3(const std::array<float, 3>& a, double x, double y, double z, double rel) { return closer(a[0], x, rel, 1e-6) && closer(a[1], y, rel, 1e-6) && closer(a[2], z, rel, 1e-6); }
static void consistent(Case& k, WPt* w, const char* what)
{
	auto t = w->get_tristimulus(), c = w->get_chromaticity_coordinate();
	if (w->get_tristimulus_x() != t[0] || w->get_tristimulus_y() != t[1] || w->get_tristimulus_z() != t[2]) k.fail(S("access_tristimulus:%s", what), "single and array access differ");
	if (w->get_chromaticity_x() != c[0] || w->get_chromaticity_y() != c[1] || w->get_chromaticity_z() != c[2]) k.fail(S("access_chromaticity:%s", what), "single and array access differ");
	if (!close((double)c[0] + c[1] + c[2], 1, 2e-6)) k.fail(S("sum:%s", what), "chromaticity coordinates %.9g %.9g %.9g do not sum to 1", c[0], c[1], c[2]);
	k.eval(3);
}
static void build(Plan& p)
{
	p.property = "C06"; p.level = "exploration";
	p.rule = "all 40 predefined white points against the published table; tristimulus values of every magnitude, chromaticities next to the sides, white points a few floats apart; every chromaticity of a grid over the triangle and every tristimulus of a grid, through every constructor, both conversions with several luminances and back, copying and all pairwise comparisons of a set that differs in single values; non-trivial: x, y and z all positive and different, distinct by input and result";
	p.assumptions = { "chromaticity y and the tristimulus sum are not 0", "published values are compared with the table the library names as its source (easyrgb.com)" };
	p.add("presets", ref::NWHITES, [](uint64_t ix, Case& k)
	{
		const ref::WP& w = ref::WHITES[ix]; WPt* q = w.get(); k.eval(2);
		if (!near3(q->get_tristimulus(), w.w.X, w.w.Y, w.w.Z, 1e-6)) k.fail(S("preset:%s", w.name), "%s is %.9g %.9g %.9g, expected %.9g %.9g %.9g", w.name, q->get_tristimulus_x(), q->get_tristimulus_y(), q->get_tristimulus_z(), w.w.X, w.w.Y, w.w.Z);
		if (!near3(q->get_chromaticity_coordinate(), w.w.x, w.w.y, 1 - w.w.x - w.w.y, 1e-6)) k.fail(S("preset_xy:%s", w.name), "%s has chromaticity %.9g %.9g, expected %.9g %.9g", w.name, q->get_chromaticity_x(), q->get_chromaticity_y(), w.w.x, w.w.y);
		double s = w.w.X + w.w.Y + w.w.Z;
		if (!close(w.w.X / s, q->get_chromaticity_x(), 3e-3) || !close(w.w.Y / s, q->get_chromaticity_y(), 3e-3)) k.fail(S("preset_consistent:%s", w.name), "tristimulus and chromaticity of %s belong to different whites", w.name);
		consistent(k, q, w.name);
		WPt* again = w.get();
		if (again == q || !(*again == *q) || *again != *q) k.fail(S("preset_again:%s", w.name), "asking twice for %s", w.name);
		k.distinct(mc::mix(mc::hstr(w.name), mc::fbits(q->get_tristimulus_z())));
		if (k.want_sample()) k.sample("%s: %.5g %.5g %.5g, %.5g %.5g", w.name, q->get_tristimulus_x(), q->get_tristimulus_y(), q->get_tristimulus_z(), q->get_chromaticity_x(), q->get_chromaticity_y());
	}, "all predefined white points");
	int N = p.thorough ? 5000 : 500;
	p.add("chromaticity", (uint64_t)N * N, [=](uint64_t ix, Case& k)
	{
		float x = (float)(ix % N) / N, y = (float)(ix / N + 1) / N;
		double z = 1.0 - x - y;
		WPt a(x, y);
		k.eval(4);
		if (!close(a.get_chromaticity_x(), x, 1e-7) || !close(a.get_chromaticity_y(), y, 1e-7) || !close(a.get_chromaticity_z(), z, 1e-6)) k.fail("from_xy_keeps", "white point from (%.9g,%.9g) has chromaticity (%.9g,%.9g,%.9g)", x, y, a.get_chromaticity_x(), a.get_chromaticity_y(), a.get_chromaticity_z());
		auto t = a.get_tristimulus();
		if (!closer(t[0], x / (double)y, 1e-6, 1e-6) || !close(t[1], 1, 1e-6) || !closer(t[2], z / y, 1e-6, 2e-7 / y)) k.fail("from_xy", "white point from (%.9g,%.9g) has tristimulus (%.9g,%.9g,%.9g)", x, y, t[0], t[1], t[2]);
		consistent(k, &a, "from_xy");
		WPt b(t[0], t[1], t[2]);
		if (!close(b.get_chromaticity_x(), x, 1e-6) || !close(b.get_chromaticity_y(), y, 1e-6)) k.fail("xy_round", "(%.9g,%.9g) -> tristimulus -> (%.9g,%.9g)", x, y, b.get_chromaticity_x(), b.get_chromaticity_y());
		consistent(k, &b, "from_XYZ");
		static const float YS[] = { 1.f, 0.18f, 100.f, 0.f, 120.f, 1e4f, 1e-5f, 1.5f };
		for (float Y : YS)
		{
			auto u = WPt::chromaticity_coordinate_to_tristimulus({ x, y, (float)z }, Y); k.eval();
			if (!near3(u, x * Y / (double)y, Y, (double)(float)z * Y / y, 2e-6)) k.fail("to_tristimulus", "(%.9g,%.9g) with Y %g gives (%.9g,%.9g,%.9g)", x, y, Y, u[0], u[1], u[2]);
			if (Y > 0) { auto c = WPt::tristimulus_to_chromaticity_coordinate(u); if (!close(c[0], x, 1e-6) || !close(c[1], y, 1e-6) || !close(c[2], z, 1e-6)) k.fail("to_chromaticity", "(%.9g,%.9g) with Y %g and back gives (%.9g,%.9g,%.9g)", x, y, Y, c[0], c[1], c[2]); }
		}
		auto u = WPt::chromaticity_coordinate_to_tristimulus({ x, y, (float)z });
		if (!close(u[1], 1, 1e-6)) k.fail("default_Y", "default luminance is %.9g", u[1]);
		if (x > 0 && z > 1e-4 && x != y) k.distinct(mc::mix(mc::fbits(x), mc::mix(mc::fbits(y), mc::fbits(t[0]))));
		if (k.want_sample()) k.sample("chromaticity (%.5g,%.5g) <-> tristimulus (%.5g,%.5g,%.5g)", x, y, t[0], t[1], t[2]);
	}, "grid over the chromaticity triangle");
	static const float V[] = { 0.f, 0.001f, 0.1f, 0.3558f, 0.5f, 0.9504f, 1.f, 1.0888f, 1.2f, 95.04f, 100.f, 108.88f };
	p.add("tristimulus", 12 * 12 * 12, [](uint64_t ix, Case& k)
	{
		Radix r(ix); float X = V[r.next(12)], Y = V[r.next(12)], Z = V[r.next(12)];
		double s = (double)X + Y + Z; if (s == 0) return;
		WPt a(X, Y, Z); k.eval(3);
		auto t = a.get_tristimulus(), c = a.get_chromaticity_coordinate();
		if (t[0] != X || t[1] != Y || t[2] != Z) k.fail("from_XYZ_keeps", "white point from (%g,%g,%g) reads (%g,%g,%g)", X, Y, Z, t[0], t[1], t[2]);
		if (!near3(c, X / s, Y / s, Z / s, 1e-6)) k.fail("from_XYZ", "white point from (%g,%g,%g) has chromaticity (%.9g,%.9g,%.9g)", X, Y, Z, c[0], c[1], c[2]);
		consistent(k, &a, "from_XYZ");
		WPt f(X, Y, Z, 0.3f, 0.4f), g(std::array<float, 3>{ { X, Y, Z } }, std::array<float, 2>{ { 0.3f, 0.4f } });
		if (!near3(f.get_tristimulus(), X, Y, Z, 0) || !near3(f.get_chromaticity_coordinate(), 0.3, 0.4, 0.3, 1e-6) || !(f == g) || f != g) k.fail("five_values", "white point from (%g,%g,%g,0.3,0.4)", X, Y, Z);
		consistent(k, &f, "five");
		WPt h(a);
		if (!(h == a) || h != a || !near3(h.get_tristimulus(), X, Y, Z, 0) || h.get_chromaticity_coordinate() != a.get_chromaticity_coordinate()) k.fail("copy", "copy of the white point (%g,%g,%g)", X, Y, Z);
		if (X > 0 && Y > 0 && Z > 0 && X != Y && Y != Z) k.distinct(mc::mix(mc::fbits(X), mc::mix(mc::fbits(Y), mc::mix(mc::fbits(Z), mc::fbits(c[0])))));
		if (k.want_sample()) k.sample("tristimulus (%g,%g,%g): chromaticity (%.6g,%.6g)", X, Y, Z, c[0], c[1]);
	}, "grid of tristimulus values");
	// magnitudes: every value from a millionth to a million, and the chromaticities next to the sides of the triangle
	static std::vector<float> M; M.clear(); M.push_back(0.f); for (int d = -6; d <= 6; ++d) for (double m : { 1., 3.16, 7.8 }) M.push_back((float)(m * std::pow(10., d)));
	if (p.thorough) for (int i = 1; i < 100; ++i) M.push_back(0.02f * i);
	p.add("magnitudes", ipow(M.size(), 3), [](uint64_t ix, Case& k)
	{
		Radix r(ix); float X = M[r.next(M.size())], Y = M[r.next(M.size())], Z = M[r.next(M.size())]; double s = (double)X + Y + Z; if (s == 0) return;
		WPt a(X, Y, Z); auto c = a.get_chromaticity_coordinate(), t = a.get_tristimulus(), q = WPt::tristimulus_to_chromaticity_coordinate({ X, Y, Z }); k.eval(3);
		double w[3] = { X / s, Y / s, Z / s };
		if (t[0] != X || t[1] != Y || t[2] != Z) k.fail("magnitude_keeps", "white point from (%g,%g,%g) reads (%g,%g,%g)", X, Y, Z, t[0], t[1], t[2]);
		for (int i = 0; i < 3; ++i) if (!closer(c[i], w[i], 1e-6, 1e-7) || !closer(q[i], w[i], 1e-6, 1e-7)) { k.fail("magnitude", "the chromaticity of (%g,%g,%g) is %.9g, %.9g, %.9g", X, Y, Z, c[0], c[1], c[2]); break; }
		if (Y > 0 && w[1] > 1e-5)
		{
			auto b = WPt::chromaticity_coordinate_to_tristimulus(q, Y); k.eval(); double e = 3e-7 / w[1] * Y;
			if (fabs(b[0] - X) > e + 1e-6 * X || !closer(b[1], Y, 1e-6, 0) || fabs(b[2] - Z) > e + 1e-6 * Z) k.fail("magnitude_back", "(%g,%g,%g) comes back as (%.9g,%.9g,%.9g)", X, Y, Z, b[0], b[1], b[2]);
		}
		k.distinct(mc::mix(ix, mc::fbits(c[0])));
	}, "tristimulus values of all magnitudes");
	p.add("sides", 24 * 24 * 26, [](uint64_t ix, Case& k)
	{
		static const float E[24] = { 0.f, 1e-7f, 1e-6f, 1e-5f, 1e-4f, 5e-4f, 1e-3f, 2e-3f, 0.01f, 0.049f, 0.1f, 0.2f, 0.3f, 1 / 3.f, 0.34f, 0.5f, 0.66f, 0.8f, 0.9f, 0.99f, 0.999f, 0.9999f, 1.f, -0.01f };
		Radix r(ix); float x = E[r.next(24)], y = E[r.next(24)]; int m = r.next(26); if (y <= 0) return;
		float Y = m < 13 ? (float)std::pow(10., m - 6) : (float)(0.77 * std::pow(10., m - 19)); double z = 1. - x - y;
		auto u = WPt::chromaticity_coordinate_to_tristimulus({ x, y, (float)z }, Y); WPt a(x, y); k.eval(2);
		auto t = a.get_tristimulus(); double f = 1. / y;
		if (!closer(u[0], x * f * Y, 1e-6, 0) || !closer(u[1], Y, 1e-6, 0) || fabs(u[2] - z * f * Y) > 3e-7 * f * Y + 1e-6 * fabs(z * f * Y)) k.fail("side", "(%.9g,%.9g) with Y %g gives (%.9g,%.9g,%.9g)", x, y, Y, u[0], u[1], u[2]);
		if (!closer(t[0], x * f, 1e-6, 0) || !closer(t[1], 1, 1e-6, 0) || fabs(t[2] - z * f) > 3e-7 * f + 1e-6 * fabs(z * f)) k.fail("side_white", "the white point of (%.9g,%.9g) has (%.9g,%.9g,%.9g)", x, y, t[0], t[1], t[2]);
		if (a.get_chromaticity_x() != x || a.get_chromaticity_y() != y || !close(a.get_chromaticity_z(), z, 2e-7)) k.fail("side_keeps", "the white point of (%.9g,%.9g) reads (%.9g,%.9g,%.9g)", x, y, a.get_chromaticity_x(), a.get_chromaticity_y(), a.get_chromaticity_z());
		k.distinct(mc::mix(ix, mc::fbits(u[0])));
	}, "chromaticities next to the sides of the triangle");
	p.add("neighbours", 40 * 5 * 12 * 2, [](uint64_t ix, Case& k)
	{
		Radix r(ix); auto& w = ref::WHITES[r.next(40)].w; int i = r.next(5), n = 1 << r.next(12), up = r.next(2);
		float v[5] = { (float)w.X, (float)w.Y, (float)w.Z, (float)w.x, (float)w.y }, q[5]; memcpy(q, v, sizeof q);
		for (int s = 0; s < n; ++s) q[i] = nextafterf(q[i], up ? 2.f : 0.f);
		WPt a(v[0], v[1], v[2], v[3], v[4]), b(q[0], q[1], q[2], q[3], q[4]); WPt c(a), d(b); k.eval(4);
		if (a == b || !(a != b) || c == d || !(c != d) || b == a || !(d != c)) k.fail("neighbours", "white points of which value %d is %d floats apart (%.9g and %.9g) are equal", i, n, v[i], q[i]);
		if (!(a == c) || a != c) k.fail("neighbour_copy", "a copy differs"); k.distinct(mc::mix(ix, 77));
	}, "white points that differ by a few floats in one value");
	// five values at once are kept whatever they are to each other, however close
	p.add("five", 9 * 9 * 9 * 9 * 9, [](uint64_t ix, Case& k)
	{
		static const float A[9] = { 0.9504f, 0.95045f, 0.9505f, 1.f, 1.00001f, 1e-6f, 1e-20f, 0.f, 95.04f }, C[9] = { 0.3127f, 0.31271f, 0.3128f, 1 / 3.f, 1e-6f, 0.f, 0.5f, 1.f, 0.329f };
		Radix r(ix); float v[5] = { A[r.next(9)], A[r.next(9)], A[r.next(9)], C[r.next(9)], C[r.next(9)] };
		WPt f(v[0], v[1], v[2], v[3], v[4]), g(std::array<float, 3>{ { v[0], v[1], v[2] } }, std::array<float, 2>{ { v[3], v[4] } }); const WPt h(f); k.eval(4);
		for (const WPt* w : { (const WPt*)&f, (const WPt*)&g, &h })
		{
			auto t = const_cast<WPt*>(w)->get_tristimulus(), c = const_cast<WPt*>(w)->get_chromaticity_coordinate();
			if (t[0] != v[0] || t[1] != v[1] || t[2] != v[2] || c[0] != v[3] || c[1] != v[4] || !close(c[2], 1 - (double)v[3] - v[4], 2e-7)) { k.fail("five_values", "white point from (%.9g,%.9g,%.9g,%.9g,%.9g) is (%.9g,%.9g,%.9g,%.9g,%.9g)", v[0], v[1], v[2], v[3], v[4], t[0], t[1], t[2], c[0], c[1]); break; }
		}
		if (!(f == g) || f != g || !(g == h)) k.fail("five_compare", "two white points from (%.9g,%.9g,%.9g,%.9g,%.9g) differ", v[0], v[1], v[2], v[3], v[4]);
		if (ix % 7 == 0) k.distinct(mc::mix(ix, 9));
	}, "white points from five values");
	// white points that differ in one value at most
	p.add("compare", 6 * 6 + ref::NWHITES * ref::NWHITES, [](uint64_t ix, Case& k)
	{
		k.eval(2);
		if (ix < 36)
		{
			float b[5] = { 0.95f, 1.f, 1.09f, 0.31f, 0.33f }, v[2][5];
			int q[2] = { (int)(ix % 6), (int)(ix / 6) };
			for (int s = 0; s < 2; ++s) { memcpy(v[s], b, sizeof b); if (q[s]) v[s][q[s] - 1] += 0.01f; }
			const WPt x(v[0][0], v[0][1], v[0][2], v[0][3], v[0][4]); WPt y(v[1][0], v[1][1], v[1][2], v[1][3], v[1][4]);
			bool e = q[0] == q[1];
			if ((x == y) != e || (x != y) == e || (y == x) != e || (y != x) == e) k.fail("compare", "white points that differ at %d and %d", q[0], q[1]);
		}
		else
		{
			int i = (ix - 36) / ref::NWHITES, j = (ix - 36) % ref::NWHITES;
			auto &a = ref::WHITES[i].w, &b = ref::WHITES[j].w;
			bool e = a.X == b.X && a.Z == b.Z && a.x == b.x && a.y == b.y;
			if ((*ref::WHITES[i].get() == *ref::WHITES[j].get()) != e) k.fail("compare_presets", "%s and %s", ref::WHITES[i].name, ref::WHITES[j].name);
			if (!e) k.distinct(mc::mix(i, j * 1000));
		}
	}, "pairwise comparison");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
