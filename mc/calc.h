// Reference of adding, mixing, subtracting and averaging colours.
#pragma once
#include "cmp.h"
#include "grids.h"
#include "manipulation/color_calculation.h"
typedef color_manipulation::color_calculation CC;

#define FOR_TYPES(X) X(RGB_TRUE, rgb_truecolor, rgb_true) X(RGB_DEEP, rgb_deepcolor, rgb_deep) X(GREY_TRUE, grey_truecolor, grey_true) X(GREY_DEEP, grey_deepcolor, grey_deep) X(CMYK, cmyk, cmyk) \
	X(HSI, hsi, hsi) X(HSV, hsv, hsv) X(HSL, hsl, hsl) X(HCY, hcy, hcy) X(XYZ, xyz, xyz) X(XYY, xyy, xyy) X(CIELUV, cieluv, cieluv) X(LAB, lab, lab) X(LCH_AB, lch_ab, lch_ab) X(LCH_UV, lch_uv, lch_uv)

enum { ADD, MIX, SUB };
static const char* OPN[] = { "add", "mix", "subtract" };
// the overload for the concrete type; nargs: how many of the optional arguments are given
inline Col* typed(int op, Col* a, Col* b, float w1, float w2, bool ia, int nargs = 3)
{
	switch (a->get_color_type())
	{
#define X(E, T, N) case E: { auto* x = static_cast<cs::T*>(a); auto* y = static_cast<cs::T*>(b); \
		if (op == ADD) return nargs == 0 ? CC::add(x, y) : nargs == 1 ? CC::add(x, y, w1) : nargs == 2 ? CC::add(x, y, w1, w2) : CC::add(x, y, w1, w2, ia); \
		if (op == MIX) return nargs == 0 ? CC::mix(x, y) : nargs == 1 ? CC::mix(x, y, w1) : CC::mix(x, y, w1, ia); \
		return nargs == 0 ? CC::subtract(x, y) : nargs == 1 ? CC::subtract(x, y, w1) : CC::subtract(x, y, w1, ia); }
	FOR_TYPES(X)
#undef X
	default: abort();
	}
}
inline Col* generic(int op, Col* a, Col* b, float w1, float w2, bool ia, int nargs = 3)
{
	if (op == ADD) return nargs == 0 ? CC::add(a, b) : nargs == 1 ? CC::add(a, b, w1) : nargs == 2 ? CC::add(a, b, w1, w2) : CC::add(a, b, w1, w2, ia);
	if (op == MIX) return nargs == 0 ? CC::mix(a, b) : nargs == 1 ? CC::mix(a, b, w1) : CC::mix(a, b, w1, ia);
	return nargs == 0 ? CC::subtract(a, b) : nargs == 1 ? CC::subtract(a, b, w1) : CC::subtract(a, b, w1, ia);
}
inline Col* average(int t, const std::vector<Col*>& v, bool ia, bool plain = false)
{
	switch (t)
	{
#define X(E, T, N) case E: { std::vector<cs::T*> q; for (auto* c : v) q.push_back(static_cast<cs::T*>(c)); return plain ? CC::average_##N(q) : CC::average_##N(q, ia); }
	FOR_TYPES(X)
#undef X
	default: abort();
	}
}
// the space a type is calculated in
inline int calc_space(int t) { return t == HSI || t == HSL || t == HCY ? HSV : t == LAB || t == LCH_AB || t == LCH_UV ? XYZ : t; }
// k1*a + k2*b in the space of a (both already there); squares: root of the weighted sum of squares
inline ref::V combine(const ref::V& a, const ref::V& b, double k1, double k2, bool ia, bool squares)
{
	ref::V o = a;
	if (squares)
	{
		for (int i = 0; i < 3; ++i) o.c[i] = sqrt(k1 * a.c[i] * a.c[i] + k2 * b.c[i] * b.c[i]);
		if (ia) o.a = sqrt(k1 * a.a * a.a + k2 * b.a * b.a);
	}
	else
	{
		if (a.t == HSV)
		{
			double x = k1 * a.c[1] * cos(a.c[0] * M_PI / 180) + k2 * b.c[1] * cos(b.c[0] * M_PI / 180), y = k1 * a.c[1] * sin(a.c[0] * M_PI / 180) + k2 * b.c[1] * sin(b.c[0] * M_PI / 180);
			o.c[0] = ref::hue_wrap(atan2(y, x) * 180 / M_PI); o.c[1] = hypot(x, y); o.c[2] = k1 * a.c[2] + k2 * b.c[2];
		}
		else for (int i = 0; i < NC[a.t]; ++i) o.c[i] = k1 * a.c[i] + k2 * b.c[i];
		if (ia) o.a = k1 * a.a + k2 * b.a;
	}
	o.a = ref::clampd(o.a, 0, 1);
	return ref::clampv(o);
}
// "" when r is the colour w, given in the calculation space, as a colour of type t
inline std::string mismatch(const Col* r, int t, const ref::V& w, Def* d)
{
	if (!r) return "nothing is returned";
	if (r->get_color_type() != t) return "the type differs";
	if (r->get_rgb_color_space() != d) return "the result has another rgb definition";
	std::string why; if (!in_range(r, &why)) return why;
	if (!close(r->alpha() / alpha_max(t), w.a, 3e-6)) return S("alpha is %.8g, expected %.8g", r->alpha() / alpha_max(t), w.a);
	if (t == HSV)
	{
		if (!close(r->get_component(1), w.c[1], 1e-5) || !close(r->get_component(2), w.c[2], 1e-5)) return S("expected %s", ref::show(w).c_str());
		if (w.c[1] > 1e-4)
		{
			double dh = fabs(r->get_component(0) - w.c[0]); dh = std::min(dh, 360 - dh);
			double tol = 2e-3 + 3e-5 / w.c[1] + (w.c[0] > 358.99 || w.c[0] < 0.01 ? 1 : 0);
			if (!(dh <= tol)) return S("expected %s", ref::show(w).c_str());
		}
		return "";
	}
	if (t == w.t)
	{
		for (int i = 0; i < NC[t]; ++i)
		{
			float lo, hi; range_of(t, i, lo, hi);
			if (!closer(r->get_component(i), w.c[i], 4e-6, 1e-6 * std::max(1.f, hi / 10))) return S("component %d, expected %.8g", i, w.c[i]);
		}
		return "";
	}
	cmp::Expect e = cmp::expect(w, t);
	std::string s = cmp::differs(r, e, 1.5);
	// at the ends of the hue range a step decides between 0 and 359
	if (!s.empty() && w.t == HSV && (w.c[0] > 358.98 || w.c[0] < 0.02))
		for (double h : { 0.0, 359.0 }) { ref::V u = w; u.c[0] = h; if (cmp::differs(r, cmp::expect(u, t), 1.5).empty()) return ""; }
	if (!s.empty() && !is_device(t))
	{
		// what the definition recovers from the result
		bool ph; ref::V z = ref::to_xyz(ref::of(r, w.d), &ph);
		double m = std::max(w.c[0], std::max(w.c[1], w.c[2])); bool ok = true;
		for (int i = 0; i < 3; ++i) if (!close(z.c[i], w.c[i], 5e-6 * m + 1e-7)) ok = false;
		if (ok) return "";
	}
	return s;
}
static const float WT[] = { 1.f, 0.f, 0.5f, 0.25f, 0.75f, 0.1f, 0.9f, 1.f / 3, 0.001f, 0.999f, 0.6f, 0.4f, 0.05f };
