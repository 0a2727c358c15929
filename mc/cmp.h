// Does a colour of the library agree with a colour of the reference model?
// The reference is evaluated at the source and around it and around the intermediate tristimulus (a few float
// steps), so that the verdict does not depend on the order in which the library rounds.
#pragma once
#include "util.h"
// (a Lab lightness is recovered as the difference of two numbers near 16/116: its tristimulus values carry an
// absolute error of about 1e-8)

namespace cmp
{
using namespace ref;
struct Hull
{
	double lo[4], hi[4]; bool any = false;
	void add(const double* c, int n) { for (int i = 0; i < n; ++i) { if (!any || c[i] < lo[i]) lo[i] = c[i]; if (!any || c[i] > hi[i]) hi[i] = c[i]; } any = true; }
	bool in(int i, double x, double tol) const { return x >= lo[i] - tol && x <= hi[i] + tol; }
};
// the colours around v that an exact computation with slightly rounded steps may have started from
inline void around(const V& v, std::vector<V>& o, double eps = 4e-7)
{
	o.push_back(v);
	for (int i = 0; i < NC[v.t]; ++i)
	{
		float lo, hi; range_of(v.t, i, lo, hi);
		for (int s = -1; s <= 1; s += 2) { V w = v; w.c[i] += s * (eps * std::max(fabs(v.c[i]), 1e-3 * hi)); w.c[i] = clampd(w.c[i], lo, hi); o.push_back(w); }
	}
}
inline void around_xyz(const V& z, std::vector<V>& o, double extra = 0)
{
	o.push_back(z);
	double m = std::max(z.c[0], std::max(z.c[1], z.c[2])) * 1.5e-6 + 1e-12 + extra;
	for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { V w = z; w.c[i] = std::max(0.0, std::min(100.0, w.c[i] + s * m)); o.push_back(w); }
	if (extra > 0 && m < 100 * extra) for (int q = 0; q < 8; ++q) { V w = z; for (int i = 0; i < 3; ++i) w.c[i] = std::max(0.0, w.c[i] + (q >> i & 1 ? m : -m)); o.push_back(w); } // the noise is as large as the colour
}
struct Expect
{
	int t;           // target
	bool phys = true;
	Hull rgb;        // encoded rgb, for device targets
	Hull comp;       // components (colorimetric); cartesian for LCH
	V center;        // the reference result itself
	double chroma = 0;
	bool turn = false; // the hue is a full turn but for rounding
	bool device_source;
};
inline void cart(const V& v, double* o) { if (is_lch(v.t)) { o[0] = v.c[0]; o[1] = v.c[1] * cos(v.c[2] * M_PI / 180); o[2] = v.c[1] * sin(v.c[2] * M_PI / 180); } else for (int i = 0; i < NC[v.t]; ++i) o[i] = v.c[i]; }
inline Expect expect(const V& v, int t)
{
	Expect e; e.t = t; e.device_source = is_device(v.t);
	e.center = convert(v, t, &e.phys);
	if (!e.phys) return e;
	std::vector<V> src;
	if (e.device_source) src.push_back(v); else around(v, src);
	for (auto& s : src)
	{
		bool ph = true;
		if (is_device(t))
		{
			double enc[3], lin[3];
			if (e.device_source) { to_rgb(s, enc, lin); e.rgb.add(enc, 3); }
			else
			{
				V z = to_xyz(s, &ph);
				if (!ph) continue;
				std::vector<V> zs; if (&s == &src[0]) around_xyz(z, zs, s.t == LAB || s.t == LCH_AB ? 1e-8 : 0); else zs.push_back(z);
				for (auto& q : zs)
				{
					mul(v.d->mi, q.c, lin);
					for (int i = 0; i < 3; ++i) enc[i] = clampd(encode(v.d->g, clampd(lin[i], 0, 1)), 0, 1);
					e.rgb.add(enc, 3);
				}
			}
		}
		else
		{
			double c[4];
			bool direct = (s.t == LAB && t == LCH_AB) || (s.t == LCH_AB && t == LAB) || (s.t == CIELUV && t == LCH_UV) || (s.t == LCH_UV && t == CIELUV) || s.t == t;
			if (direct) { V w = convert(s, t); cart(w, c); e.comp.add(c, NC[t]); continue; }
			V z = to_xyz(s, &ph);
			if (!ph) continue;
			std::vector<V> zs; if (&s == &src[0]) around_xyz(z, zs, s.t == LAB || s.t == LCH_AB ? 1e-8 : 0); else zs.push_back(z);
			for (auto& q : zs) { V w = xyz_to(q, t); cart(w, c); e.comp.add(c, NC[t]); }
		}
	}
	if (is_lch(t))
	{
		V w = convert(v, t == LCH_AB ? LAB : CIELUV); double h = atan2(w.c[2], w.c[1]) * 180 / M_PI;
		e.turn = h <= 0 && h > -0.02 - 0.05 / (hypot(w.c[1], w.c[2]) + 1e-9);
		if (v.t == (t == LCH_AB ? LCH_UV : LCH_AB) || v.t == t) e.turn = e.turn || (v.c[2] > 359.98 || v.c[2] < 0.02);
	}
	if (is_device(t)) { double r[3]; for (int i = 0; i < 3; ++i) r[i] = (e.rgb.lo[i] + e.rgb.hi[i]) / 2; e.chroma = std::max(r[0], std::max(r[1], r[2])) - std::min(r[0], std::min(r[1], r[2])); }
	return e;
}
// worst agreement seen, in units of the tolerance (for tuning)
inline double& worst() { static double w = 0; return w; }
static const double TOLD = 4e-6; // device components
inline double ctol(int t, int i)
{
	switch (t)
	{
	case XYZ: return 0;
	case XYY: return i == 2 ? 0 : 5e-6;
	case LAB: case LCH_AB: return 5e-4;
	case CIELUV: case LCH_UV: return 5e-4;
	}
	return 1e-5;
}
// "" when got is an acceptable result
inline std::string differs(const Col* got, const Expect& e, double loose = 1)
{
	int t = e.t;
	if (!e.phys) return "";
	V g = of(got, e.center.d);
	if (is_device(t))
	{
		double tol = TOLD * loose;
		double r[3]; dev_to_rgb(g, r, false);
		double round = t == RGB_TRUE ? 0.501 / 255 : 0;
		if (is_grey(t))
		{
			double lo = (e.rgb.lo[0] + e.rgb.lo[1] + e.rgb.lo[2]) / 3, hi = (e.rgb.hi[0] + e.rgb.hi[1] + e.rgb.hi[2]) / 3;
			double gt = t == GREY_TRUE ? 1.002 / 255 : tol;
			double x = t == GREY_TRUE ? g.c[0] / 255 : g.c[0];
			if (!(x >= lo - gt && x <= hi + gt)) return S("grey %.7g, expected [%.7g,%.7g]", x, lo, hi);
			return "";
		}
		// a hue between 359 and 360 is stored as 359
		double hc = is_hx(t) && g.c[0] >= 358.999 ? e.chroma / 60 * 1.01 : 0;
		for (int i = 0; i < 3; ++i)
			if (!e.rgb.in(i, r[i], tol + round + hc)) return S("as rgb (%.7g,%.7g,%.7g), expected [%.7g,%.7g] in component %d", r[0], r[1], r[2], e.rgb.lo[i], e.rgb.hi[i], i);
		double w = 0; for (int i = 0; i < 3; ++i) w = std::max(w, e.rgb.hi[i] - e.rgb.lo[i]);
		double mx = 0, mn = 1; for (int i = 0; i < 3; ++i) { double q = (e.rgb.lo[i] + e.rgb.hi[i]) / 2; mx = std::max(mx, q); mn = std::min(mn, q); }
		double u = (w + tol) * 3; // how far components may move
		if (t == CMYK)
		{
			if (!close(g.c[3], 1 - mx, u)) return S("black %.7g, expected %.7g", g.c[3], 1 - mx);
			for (int i = 0; i < 3; ++i) if (mx > 0.02 && !close(g.c[i], e.center.c[i], u / mx * 2)) return S("ink %d is %.7g, expected %.7g", i, g.c[i], e.center.c[i]);
			if (e.device_source && mx == 0 && !(g.c[3] == 1 && g.c[0] == 0 && g.c[1] == 0 && g.c[2] == 0)) return "black is not pure black ink";
		}
		if (is_hx(t))
		{
			int last = 2, mid = 1;
			double c2 = e.center.c[last];
			if (!close(g.c[last], c2, u + hc * (t == HCY || t == HSI ? 1 : 0))) return S("last component %.7g, expected %.7g", g.c[last], c2);
			// how far the middle component may move
			double den = t == HSV ? mx : t == HSI ? c2 : t == HSL ? 1 - fabs(2 * c2 - 1) : 1;
			if (den > 0.02)
			{
				if (!close(g.c[mid], e.center.c[mid], 2 * u / den + hc)) return S("middle component %.7g, expected %.7g", g.c[mid], e.center.c[mid]);
			}
			if (e.chroma == 0 && e.device_source && den > 0 && g.c[mid] > 1e-4 / den) return S("an achromatic colour has middle component %.7g", g.c[mid]);
			if (e.chroma > 0.02)
			{
				double dh = fabs(g.c[0] - e.center.c[0]); dh = std::min(dh, 360 - dh);
				double ht = 60 * u / e.chroma + 1e-3;
				// the reference limits a hue to 359 as well: it may be a full turn where green may reach blue
				bool turn = e.rgb.hi[1] - e.rgb.lo[2] >= -ht * e.chroma / 60;
				if (!(dh <= ht) && !(turn && e.center.c[0] >= 358.99 && g.c[0] <= ht) && !(e.center.c[0] > 359 - ht && g.c[0] >= 358.9) && !(e.center.c[0] < ht && g.c[0] >= 358.9)) return S("hue %.7g, expected %.7g", g.c[0], e.center.c[0]);
				if (e.center.c[0] < ht && g.c[0] >= 358.9 && dh > 1 + ht) return S("hue %.7g, expected %.7g", g.c[0], e.center.c[0]);
			}
		}
		return "";
	}
	double c[4]; cart(g, c);
	double hc = 0;
	if (is_lch(t) && (g.c[2] >= 358.99 || (g.c[2] < 0.02 && e.turn))) hc = g.c[1] * (1.02 * M_PI / 180);
	for (int i = 0; i < NC[t]; ++i)
	{
		double tl = ctol(t, i) * loose + 3e-6 * loose * std::max(fabs(e.comp.lo[i]), fabs(e.comp.hi[i])) + (i ? hc : 0);
		if (t == XYZ) { double m = 0; for (int j = 0; j < 3; ++j) m = std::max(m, fabs(e.comp.hi[j])); tl = loose * (4e-6 * m + 2e-8); }
		if (t == XYY && i == 2) tl = loose * (6e-6 * fabs(e.comp.hi[i]) + 2e-8);
		if (!e.comp.in(i, c[i], tl)) return S("component %d is %.7g, expected [%.7g,%.7g]", i, c[i], e.comp.lo[i], e.comp.hi[i]);
	}
	// a hue that is determined is the hue itself, not just the same direction modulo a turn
	if (is_lch(t) && !(g.c[2] >= 0 && g.c[2] <= 359.001)) return S("hue %.7g", g.c[2]);
	return "";
}
}
