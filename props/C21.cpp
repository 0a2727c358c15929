// C21: Euclidean and weighted distance.
#include "dist.h"
enum { SQ, PLAIN, WEIGHT };
static const char* FN[] = { "squared", "plain", "weighted" };
// space: -1 leaves the argument out
static float call(int f, Col* a, Col* b, int space)
{
	if (f == WEIGHT) return CD::euclidean_distance_weighted(a, b);
	if (f == SQ) return space < 0 ? CD::euclidean_distance_squared(a, b) : CD::euclidean_distance_squared(a, b, (color_type)space);
	return space < 0 ? CD::euclidean_distance(a, b) : CD::euclidean_distance(a, b, (color_type)space);
}
static double want(int f, Col* a, Col* b, int space)
{
	int t = f != WEIGHT && space == CIELUV ? CIELUV : RGB_DEEP;
	Pool p; Col* x = conv(a, t); Col* y = conv(b, t); if (x != a) p(x); if (y != b) p(y);
	double d[3], s = 0; for (int i = 0; i < 3; ++i) { d[i] = (double)x->get_component(i) - y->get_component(i); s += d[i] * d[i]; }
	if (f == WEIGHT)
	{
		double r = ((double)x->get_component(0) + y->get_component(0)) / 2 * 255;
		return sqrt((2 + r / 256) * d[0] * d[0] + 4 * d[1] * d[1] + (2 + (255 - r) / 256) * d[2] * d[2]);
	}
	return f == SQ ? s : sqrt(s);
}
static void one(Case& k, int f, Col* a, Col* b, int space)
{
	k.eval(); Snap sa(a), sb(b);
	std::string what = S("%s distance%s of %s and %s", FN[f], space < 0 ? "" : S(" in %s", TN[space]).c_str(), desc(a).c_str(), desc(b).c_str());
	float r = NAN, q = NAN;
	if (raises([&] { r = call(f, a, b, space); q = call(f, b, a, space); })) { k.fail(S("raises:%s", FN[f]), "%s raised", what.c_str()); return; }
	if (Snap(a) != sa || Snap(b) != sb) { k.fail(S("operand:%s", FN[f]), "%s changed an operand", what.c_str()); return; }
	double w = want(f, a, b, space), big = f != WEIGHT && space == CIELUV ? 200 : 1;
	double tol = f == SQ ? 1e-5 * w + 1e-6 * big * sqrt(w) + 1e-11 * big * big : 1e-5 * w + 1e-6 * big;
	std::string sp = f == WEIGHT ? "" : space < 0 ? "default" : space == CIELUV ? "CIELUV" : space == RGB_DEEP ? "RGB_DEEP" : "other";
	if (!close(r, w, tol)) k.fail(S("value:%s:%s", FN[f], sp.c_str()), "%s is %.8g, expected %.8g", what.c_str(), r, w);
	if (!close(r, q, 2 * tol)) k.fail(S("symmetry:%s:%s", FN[f], sp.c_str()), "%s is %.8g, with the operands exchanged %.8g", what.c_str(), r, q);
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(mc::fbits(r), f * 20 + space)));
	if (k.want_sample()) k.sample("%s is %.7g", what.c_str(), r);
}
static void build(Plan& p)
{
	p.property = "C21"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 225 ordered pairs of types all pairs of colours of two grids, measured in every requested space and with the argument left out; a finer grid of rgb pairs; a colour with itself, with an equal copy and with its conversions; distinct by operands, function and result";
	p.assumptions = { "the operands are converted as C09 to C11 describe; the distance is over the components, not alpha", "the weighted distance is the low-cost approximation of compuphase.com with rgb in [0,1]" };
	for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 9 : NC[t] == 4 ? 2 : th ? 4 : 3), f = make_grid(u, NC[u] == 1 ? 9 : NC[u] == 4 ? 2 : th ? 4 : 3);
		int reps = th ? 4 : 1;
		p.add(S("types:%s:%s", TN[t], TN[u]), reps * f.n * g.n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); uint64_t h = mc::mix(ix, 5); int s = r.next(reps); (void)s; int d1, d2;
			Col* a = pick(t, g, r.next(g.n), h, d1); Col* b = pick(u, f, r.next(f.n), h / 128 % 2 ? h : h / 256, d2);
			int sp = (int)(h / 65536 % 17) - 1;
			one(k, SQ, a, b, CIELUV); one(k, PLAIN, a, b, CIELUV); one(k, SQ, a, b, RGB_DEEP); one(k, PLAIN, a, b, RGB_DEEP); one(k, WEIGHT, a, b, 0);
			one(k, SQ, a, b, -1); one(k, PLAIN, a, b, -1); one(k, SQ, a, b, sp); one(k, PLAIN, a, b, sp);
			delete a; delete b;
		});
	}
	Grid g = make_grid(RGB_DEEP, th ? 12 : 7);
	p.add("rgb", g.n * g.n, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); float c[4], e[4]; g.get(r.next(g.n), c); g.get(r.next(g.n), e);
		Def* d = ref::defs()[ix % ref::defs().size()].lib; Col* a = make(RGB_DEEP, c, 1, d); Col* b = make(RGB_DEEP, e, 1, d);
		one(k, SQ, a, b, RGB_DEEP); one(k, PLAIN, a, b, -1); one(k, WEIGHT, a, b, 0);
		delete a; delete b;
	}, "pairs of rgb colours");
	for (int t = 0; t < NT; ++t)
	{
		Lines l = make_lines(t, th ? 2400 : 400);
		p.add(S("lines:%s", TN[t]), l.n * (th ? 8 : 2), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int v = r.next(th ? 8 : 2); float c[4], e[4]; int q; l.get(r.next(l.n), c, &q); uint64_t h = mc::mix(ix, 12);
			int u = v % 2 ? h % NT : t; static const std::vector<Lines> L = [] { std::vector<Lines> z; for (int w = 0; w < NT; ++w) z.push_back(make_lines(w, 2)); return z; }();
			L[u].at(h / 16 % 4 ? q : h / 64 % 8, e); Def* d = ref::defs()[(h >> 10) % ref::defs().size()].lib;
			Col* a = make(t, c, 0.5f, d); Col* b = make(u, e, 0.9f, d);
			one(k, SQ, a, b, CIELUV); one(k, PLAIN, a, b, CIELUV); one(k, SQ, a, b, RGB_DEEP); one(k, PLAIN, a, b, -1); one(k, WEIGHT, a, b, 0);
			delete a; delete b;
		}, "one component of a colour moved finely through its range");
		Grid q = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? 4 : 6);
		p.add(S("same:%s", TN[t]), q.n, [=](uint64_t ix, Case& k)
		{
			int di; Col* a = pick(t, q, ix, mc::mix(ix, 3), di); Col* b = clone(a); k.eval();
			for (int f = 0; f < 3; ++f) for (int sp : { -1, (int)RGB_DEEP, (int)CIELUV, (int)ix % 16 })
			{
				float x = NAN, y = NAN;
				if (raises([&] { x = call(f, a, a, sp); y = call(f, a, b, sp); })) { k.fail(S("raises:%s", FN[f]), "%s to itself raised", desc(a).c_str()); continue; }
				if (x != 0) k.fail(S("same_object:%s", FN[f]), "%s distance of %s to itself is %.8g", FN[f], desc(a).c_str(), x);
				if (!(fabs(y) <= 1e-6)) k.fail(S("equal:%s", FN[f]), "%s distance of %s to an equal colour is %.8g", FN[f], desc(a).c_str(), y);
			}
			k.distinct(hcol(a)); delete a; delete b;
		}, "a colour with itself and with an equal copy");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
