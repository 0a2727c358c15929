// C12: a colour survives every chain of conversions that does not leave the range of a type on the way.
#include "cmp.h"
#include "grids.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static const int T[] = { RGB_DEEP, CMYK, HSI, HSV, HSL, HCY, XYZ, XYY, CIELUV, LAB, LCH_AB, LCH_UV };
static const int N = 12;
struct Walk
{
	Case& k; int di; ref::V v; double enc[3], lin[3]; int start; bool ok[16], brim[16]; Snap s0; int path[8]; bool byte; float c8[3];
	std::string way(int n) const { std::string s = TN[start]; for (int i = 0; i < n; ++i) { s += ">"; s += TN[path[i]]; } return s; }
	double ltol(int n) const { return (2.5e-6 + 1.5e-6 * n) * (1 + 0.1 * v.d->mi_norm); }
	void check(Col* x, int n)
	{
		k.eval();
		ref::V g = ref::of(x, v.d);
		double e[3], l[3]; ref::to_rgb(g, e, l);
		double hc = 0; // a hue between 359 and 360 is stored as 359
		for (int i = 0; i < 3; ++i)
			if (!close(l[i], lin[i], ltol(n)) && !close(e[i], enc[i], 2e-5 * (n + 1) + hc))
			{
				k.fail(S("survives:%s:%s", TN[start], TN[x->get_color_type()]), "%s in %s along %s is %s: as rgb component %d is %.8g, expected %.8g (linear %.8g, expected %.8g)", ref::show(v).c_str(), D()[di].name, way(n).c_str(), desc(x).c_str(), i, e[i], enc[i], l[i], lin[i]);
				break;
			}
		if (!close(x->alpha() / alpha_max(x->get_color_type()), s0.a / alpha_max(start), 3e-6)) k.fail(S("alpha:%s", TN[x->get_color_type()]), "%s along %s: %s", ref::show(v).c_str(), way(n).c_str(), desc(x).c_str());
		if (x->get_rgb_color_space() != s0.d) k.fail(S("definition:%s", TN[x->get_color_type()]), "%s along %s loses its definition", ref::show(v).c_str(), way(n).c_str());
		if (byte)
		{
			Col* b = conv(x, RGB_TRUE); k.eval(); k.transition();
			for (int i = 0; i < 3; ++i)
			{
				float w = b->get_component(i);
				if (w == c8[i]) continue;
				if (close(ref::decode(v.d->g, w / 255), lin[i], ltol(n + 1)) && fabs(w - c8[i]) <= 8) continue; // a dark code whose linear value is below the resolution of a float
				k.fail(S("exact:%s", TN[x->get_color_type()]), "%s in %s along %s>RGB_TRUE is %s", ref::show(v).c_str(), D()[di].name, way(n).c_str(), desc(b).c_str());
				break;
			}
			delete b;
		}
	}
	void go(Col* x, int n, int depth)
	{
		bool col = !is_device(start); for (int i = 0; i < n; ++i) if (!is_device(path[i])) col = true;
		for (int i = 0; i < N; ++i)
		{
			int u = T[i];
			if (!ok[u] || u == x->get_color_type()) continue;
			if (brim[u] && col) continue; // rounding may turn the hue to just below 360 degrees, which is stored as 359
			path[n] = u;
			Col* y = conv(x, u); k.transition();
			if (!y || y->get_color_type() != u) { k.fail(S("type:%s", TN[u]), "%s along %s", ref::show(v).c_str(), way(n + 1).c_str()); continue; }
			k.state(mc::mix(hcol(y), di));
			check(y, n + 1);
			if (n + 1 < depth) go(y, n + 1, depth);
			else { k.trace(); if (k.want_sample()) k.sample("%s in %s along %s -> %s", ref::show(v).c_str(), D()[di].name, way(n + 1).c_str(), desc(y).c_str()); }
			if (y != x) delete y;
		}
	}
};
static void start(Case& k, int t, const float* c, float al, int di, int depth)
{
	Col* x = make(t, c, al * alpha_max(t), D()[di].lib);
	Walk w{ k, di, ref::of(x, &D()[di].ref), {}, {}, t, {}, {}, Snap(x), {}, t == RGB_TRUE, {} };
	for (int i = 0; i < 3; ++i) w.c8[i] = NC[t] > i ? x->get_component(i) : 0;
	bool ph; ref::to_rgb(w.v, w.enc, w.lin, &ph);
	for (int i = 0; i < N; ++i)
	{
		// a type is lossless for the colour when the model recovers the colour from it
		bool p1; ref::V q = ref::convert(w.v, T[i], &p1); double e[3], l[3]; bool p2; ref::to_rgb(q, e, l, &p2);
		w.ok[T[i]] = p1 && p2;
		for (int j = 0; j < 3; ++j) if (!close(l[j], w.lin[j], 1e-7)) w.ok[T[i]] = false;
		// and small rounding errors of its components do not move the colour
		if (!is_device(T[i])) for (int j = 0; j < 3 && w.ok[T[i]]; ++j) for (int sg = -1; sg <= 1; sg += 2)
		{
			ref::V b = q; b.c[j] += sg * 4e-7 * (fabs(b.c[j]) + (T[i] >= CIELUV ? 1 : 0));
			double e2[3], l2[3]; ref::to_rgb(b, e2, l2);
			for (int m = 0; m < 3; ++m) if (!close(l2[m], w.lin[m], 1.2e-6)) w.ok[T[i]] = false;
		}
		// in xyY a colour without luminance has no X and Z, and one that rounding can make so loses them
		if (T[i] == XYY && q.c[2] < 1e-5 && (w.lin[0] != 0 || w.lin[1] != 0 || w.lin[2] != 0)) w.ok[T[i]] = false;
		if (is_hx(T[i]) && q.c[0] > 358.99) w.ok[T[i]] = false;
		if (is_lch(T[i]) && q.c[2] > 358.99) w.ok[T[i]] = false;
		w.brim[T[i]] = (is_hx(T[i]) && (q.c[0] < 1 || q.c[0] > 358)) || (is_lch(T[i]) && (q.c[2] < 1 || q.c[2] > 358));
	}
	w.go(x, 0, depth);
	delete x;
}
static void build(Plan& p)
{
	p.property = "C12"; p.level = "model_checking";
	int depth = p.thorough ? 5 : 4;
	p.rule = S("state: (colour as it arrived, type, definition); from every start colour of a grid (8-bit and deep rgb) under every predefined definition, all walks of %d conversions over the twelve types that lose nothing for that colour; after every step the colour is compared with the start, and converted to 8 bits when it started there", depth);
	p.assumptions = { "a type is left out of the walks of a colour that lies outside the range of its components (or whose hue lies between 359 and 360 degrees, or, after a colorimetric type, within a degree of those)", "comparison in linear light to a few 1e-6 or in encoded light to 2e-5 per step" };
	int nd = D().size();
	static const float AL[] = { 1.f, 0.25f, 0.f };
	int m = p.thorough ? 5 : 4;
	p.add("deep", (uint64_t)m * m * m * nd, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int di = r.next(nd); static const float v5[] = { 0.f, 1.f, 0.25f, 0.7f, 0.02f, 0.5f };
		float c[3]; for (float& x : c) x = v5[r.next(m)];
		start(k, RGB_DEEP, c, AL[ix % 3], di, depth);
	}, "deep rgb colours", 8);
	p.add("bytes", (uint64_t)m * m * m * nd, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); int di = r.next(nd); static const float v5[] = { 0, 255, 100, 201, 1, 17 };
		float c[3]; for (float& x : c) x = v5[r.next(m)];
		start(k, RGB_TRUE, c, AL[ix % 3], di, depth);
	}, "8-bit colours", 8);
	static std::vector<Lines> L; L.clear(); static std::vector<uint64_t> LO; LO.assign(1, 0); for (int t = 0; t < NT; ++t) { L.push_back(make_lines(t, p.thorough ? 800 : 100)); LO.push_back(LO.back() + (is_grey(t) || !is_device(t) ? 0 : L[t].n)); }
	p.add("lines", LO.back() * (p.thorough ? 4 : 1), [=](uint64_t ix, Case& k)
	{
		Radix r(ix); r.next(p.thorough ? 4 : 1); uint64_t i = r.next(LO.back()); int t = 0; while (i >= LO[t + 1]) ++t; float c[4]; L[t].get(i - LO[t], c); uint64_t h = mc::mix(ix, 51);
		for (int q = 0; q < NC[t]; ++q)
		{
			if (is_true(t)) c[q] = floorf(c[q]);
			if (!is_true(t) && !hue_comp(t, q)) c[q] = c[q] < 1e-3f ? 0 : c[q] > 0.999f ? 1 : c[q]; // not next to what a type cannot tell from nothing
		}
		if (is_hx(t))
		{
			// the hexagonal types have components outside the cube of rgb
			ref::V v; v.t = t; v.a = 1; v.d = &D()[0].ref; for (int q = 0; q < 4; ++q) v.c[q] = c[q];
			ref::V w = ref::convert(ref::convert(v, RGB_DEEP), t); for (int q = 1; q < 3; ++q) if (!close(w.c[q], v.c[q], 1e-6)) return;
		}
		start(k, t, c, AL[h % 3], h / 4 % nd, 2);
	}, "start colours of every device type, one component moved finely, two steps");
	uint64_t per = p.thorough ? 52 : 18;
	p.add("bytes_shallow", per * per * per, [=](uint64_t ix, Case& k)
	{
		Radix r(ix); float c[3]; for (float& x : c) x = r.next(per) * (255 / (per - 1));
		start(k, RGB_TRUE, c, AL[ix % 3], ix % nd, 2);
	}, "a finer lattice of 8-bit colours, two steps");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
