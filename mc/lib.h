// The library under test, seen through its public interface only.
#pragma once
#include <cmath>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "utils/color_type.h"
#include "utils/matrix.h"
#include "spaces/color_base.h"
#include "spaces/rgb_truecolor.h"
#include "spaces/rgb_deepcolor.h"
#include "spaces/grey_truecolor.h"
#include "spaces/grey_deepcolor.h"
#include "spaces/cmyk.h"
#include "spaces/hsi.h"
#include "spaces/hsv.h"
#include "spaces/hsl.h"
#include "spaces/hcy.h"
#include "spaces/xyz.h"
#include "spaces/xyy.h"
#include "spaces/cieluv.h"
#include "spaces/lab.h"
#include "spaces/lch_ab.h"
#include "spaces/lch_uv.h"
#include "manipulation/color_converter.h"

namespace cs = color_space;
typedef cs::rgb_color_space_definition Def;
typedef cs::color_base Col;
typedef color_manipulation::color_converter Conv;

static const int NT = 15;
static const char* TN[16] = { "RGB_TRUE", "RGB_DEEP", "GREY_TRUE", "GREY_DEEP", "CMYK", "HSI", "HSV", "HSL", "HCY", "XYZ", "XYY", "CIELUV", "LAB", "LCH_AB", "LCH_UV", "UNDEFINED" };
static const int NC[15] = { 3, 3, 1, 1, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3 };

inline bool is_true(int t) { return t == RGB_TRUE || t == GREY_TRUE; }
inline bool is_hx(int t) { return t >= HSI && t <= HCY; }
inline bool is_device(int t) { return t <= HCY; }
inline bool is_lch(int t) { return t == LCH_AB || t == LCH_UV; }
inline bool is_grey(int t) { return t == GREY_TRUE || t == GREY_DEEP; }
inline float alpha_max(int t) { return is_true(t) ? 255.f : 1.f; }
// documented component ranges
inline void range_of(int t, int i, float& lo, float& hi)
{
	lo = 0.f; hi = 1.f;
	switch (t)
	{
	case RGB_TRUE: case GREY_TRUE: hi = 255.f; break;
	case HSI: case HSV: case HSL: case HCY: if (i == 0) hi = 359.f; break;
	case XYZ: case XYY: hi = 100.f; break;
	case CIELUV: if (i == 0) hi = 100.f; else { lo = -100.f; hi = 100.f; } break;
	case LAB: if (i == 0) hi = 100.f; else { lo = -128.f; hi = 128.f; } break;
	case LCH_AB: case LCH_UV: hi = i == 2 ? 359.f : 100.f; break;
	default: break;
	}
}
inline Col* make(int t, const float* c, float a, Def* d)
{
	switch (t)
	{
	case RGB_TRUE: return new cs::rgb_truecolor(c[0], c[1], c[2], a, d);
	case RGB_DEEP: return new cs::rgb_deepcolor(c[0], c[1], c[2], a, d);
	case GREY_TRUE: return new cs::grey_truecolor(c[0], a, d);
	case GREY_DEEP: return new cs::grey_deepcolor(c[0], a, d);
	case CMYK: return new cs::cmyk(c[0], c[1], c[2], c[3], a, d);
	case HSI: return new cs::hsi(c[0], c[1], c[2], a, d);
	case HSV: return new cs::hsv(c[0], c[1], c[2], a, d);
	case HSL: return new cs::hsl(c[0], c[1], c[2], a, d);
	case HCY: return new cs::hcy(c[0], c[1], c[2], a, d);
	case XYZ: return new cs::xyz(c[0], c[1], c[2], a, d);
	case XYY: return new cs::xyy(c[0], c[1], c[2], a, d);
	case CIELUV: return new cs::cieluv(c[0], c[1], c[2], a, d);
	case LAB: return new cs::lab(c[0], c[1], c[2], a, d);
	case LCH_AB: return new cs::lch_ab(c[0], c[1], c[2], a, d);
	case LCH_UV: return new cs::lch_uv(c[0], c[1], c[2], a, d);
	}
	abort();
}
// the conversion whose target is named by the function
inline Col* to_named(Col* c, int t)
{
	switch (t)
	{
	case RGB_TRUE: return Conv::to_rgb_true(c);
	case RGB_DEEP: return Conv::to_rgb_deep(c);
	case GREY_TRUE: return Conv::to_grey_true(c);
	case GREY_DEEP: return Conv::to_grey_deep(c);
	case CMYK: return Conv::to_cmyk(c);
	case HSI: return Conv::to_hsi(c);
	case HSV: return Conv::to_hsv(c);
	case HSL: return Conv::to_hsl(c);
	case HCY: return Conv::to_hcy(c);
	case XYZ: return Conv::to_xyz(c);
	case XYY: return Conv::to_xyy(c);
	case CIELUV: return Conv::to_cieluv(c);
	case LAB: return Conv::to_lab(c);
	case LCH_AB: return Conv::to_lch_ab(c);
	case LCH_UV: return Conv::to_lch_uv(c);
	}
	abort();
}
inline Col* conv(Col* c, int t) { return Conv::convertTo(c, (color_type)t); }
// copy with the concrete type
inline Col* clone(const Col* c)
{
	switch (c->get_color_type())
	{
	case RGB_TRUE: return new cs::rgb_truecolor(*static_cast<const cs::rgb_truecolor*>(c));
	case RGB_DEEP: return new cs::rgb_deepcolor(*static_cast<const cs::rgb_deepcolor*>(c));
	case GREY_TRUE: return new cs::grey_truecolor(*static_cast<const cs::grey_truecolor*>(c));
	case GREY_DEEP: return new cs::grey_deepcolor(*static_cast<const cs::grey_deepcolor*>(c));
	case CMYK: return new cs::cmyk(*static_cast<const cs::cmyk*>(c));
	case HSI: return new cs::hsi(*static_cast<const cs::hsi*>(c));
	case HSV: return new cs::hsv(*static_cast<const cs::hsv*>(c));
	case HSL: return new cs::hsl(*static_cast<const cs::hsl*>(c));
	case HCY: return new cs::hcy(*static_cast<const cs::hcy*>(c));
	case XYZ: return new cs::xyz(*static_cast<const cs::xyz*>(c));
	case XYY: return new cs::xyy(*static_cast<const cs::xyy*>(c));
	case CIELUV: return new cs::cieluv(*static_cast<const cs::cieluv*>(c));
	case LAB: return new cs::lab(*static_cast<const cs::lab*>(c));
	case LCH_AB: return new cs::lch_ab(*static_cast<const cs::lch_ab*>(c));
	case LCH_UV: return new cs::lch_uv(*static_cast<const cs::lch_uv*>(c));
	default: break;
	}
	return nullptr;
}
// copy from a reference to the base class
inline Col* from_base(int t, const Col& c)
{
	switch (t)
	{
	case RGB_TRUE: return new cs::rgb_truecolor(c);
	case RGB_DEEP: return new cs::rgb_deepcolor(c);
	case GREY_TRUE: return new cs::grey_truecolor(c);
	case GREY_DEEP: return new cs::grey_deepcolor(c);
	case CMYK: return new cs::cmyk(c);
	case HSI: return new cs::hsi(c);
	case HSV: return new cs::hsv(c);
	case HSL: return new cs::hsl(c);
	case HCY: return new cs::hcy(c);
	case XYZ: return new cs::xyz(c);
	case XYY: return new cs::xyy(c);
	case CIELUV: return new cs::cieluv(c);
	case LAB: return new cs::lab(c);
	case LCH_AB: return new cs::lch_ab(c);
	case LCH_UV: return new cs::lch_uv(c);
	}
	abort();
}
// assignment between two colours of the same concrete type
inline void assign(Col* dst, const Col* src)
{
	switch (src->get_color_type())
	{
#define A(E, T) case E: *static_cast<cs::T*>(dst) = *static_cast<const cs::T*>(src); return;
	A(RGB_TRUE, rgb_truecolor) A(RGB_DEEP, rgb_deepcolor) A(GREY_TRUE, grey_truecolor) A(GREY_DEEP, grey_deepcolor) A(CMYK, cmyk)
	A(HSI, hsi) A(HSV, hsv) A(HSL, hsl) A(HCY, hcy) A(XYZ, xyz) A(XYY, xyy) A(CIELUV, cieluv) A(LAB, lab) A(LCH_AB, lch_ab) A(LCH_UV, lch_uv)
#undef A
	default: abort();
	}
}
// named setters and getters, in component order
inline void set_named(Col* c, int t, int i, float v)
{
#define S3(E, T, f0, f1, f2) case E: { auto* p = static_cast<cs::T*>(c); if (i == 0) p->f0(v); else if (i == 1) p->f1(v); else p->f2(v); return; }
	switch (t)
	{
	S3(RGB_TRUE, rgb_truecolor, red, green, blue) S3(RGB_DEEP, rgb_deepcolor, red, green, blue)
	case GREY_TRUE: static_cast<cs::grey_truecolor*>(c)->grey(v); return;
	case GREY_DEEP: static_cast<cs::grey_deepcolor*>(c)->grey(v); return;
	case CMYK: { auto* p = static_cast<cs::cmyk*>(c); if (i == 0) p->cyan(v); else if (i == 1) p->magenta(v); else if (i == 2) p->yellow(v); else p->black(v); return; }
	S3(HSI, hsi, hue, saturation, intensity) S3(HSV, hsv, hue, saturation, value) S3(HSL, hsl, hue, saturation, lightness) S3(HCY, hcy, hue, chroma, luma)
	S3(XYZ, xyz, x, y, z) S3(XYY, xyy, x, y, Y) S3(CIELUV, cieluv, L, u, v) S3(LAB, lab, luminance, a, b)
	S3(LCH_AB, lch_ab, luminance, chroma, hue) S3(LCH_UV, lch_uv, luminance, chroma, hue)
	}
#undef S3
}
inline float get_named(Col* c, int t, int i)
{
#define G3(E, T, f0, f1, f2) case E: { auto* p = static_cast<cs::T*>(c); return i == 0 ? p->f0() : i == 1 ? p->f1() : p->f2(); }
	switch (t)
	{
	G3(RGB_TRUE, rgb_truecolor, red, green, blue) G3(RGB_DEEP, rgb_deepcolor, red, green, blue)
	case GREY_TRUE: return static_cast<cs::grey_truecolor*>(c)->grey();
	case GREY_DEEP: return static_cast<cs::grey_deepcolor*>(c)->grey();
	case CMYK: { auto* p = static_cast<cs::cmyk*>(c); return i == 0 ? p->cyan() : i == 1 ? p->magenta() : i == 2 ? p->yellow() : p->black(); }
	G3(HSI, hsi, hue, saturation, intensity) G3(HSV, hsv, hue, saturation, value) G3(HSL, hsl, hue, saturation, lightness) G3(HCY, hcy, hue, chroma, luma)
	G3(XYZ, xyz, x, y, z) G3(XYY, xyy, x, y, Y) G3(CIELUV, cieluv, L, u, v) G3(LAB, lab, luminance, a, b)
	G3(LCH_AB, lch_ab, luminance, chroma, hue) G3(LCH_UV, lch_uv, luminance, chroma, hue)
	}
#undef G3
	abort();
}
inline std::string desc(const Col* c)
{
	if (!c) return "null";
	char b[200];
	int t = c->get_color_type();
	std::string s = t >= 0 && t < 16 ? TN[t] : "?";
	s += "(";
	auto v = c->get_component_vector();
	for (size_t i = 0; i < v.size(); ++i) { snprintf(b, sizeof b, "%s%.9g", i ? "," : "", v[i]); s += b; }
	snprintf(b, sizeof b, " alpha %.9g)", c->alpha());
	return s + b;
}
inline std::string descv(int t, const float* c, float a)
{
	std::string s = TN[t]; char b[64]; s += "(";
	for (int i = 0; i < NC[t]; ++i) { snprintf(b, sizeof b, "%s%.9g", i ? "," : "", c[i]); s += b; }
	snprintf(b, sizeof b, " alpha %.9g)", a);
	return s + b;
}
inline uint64_t hcol(const Col* c)
{
	uint64_t h = 77;
	if (!c) return h;
	h = mc::mix(h, c->get_color_type());
	for (float f : c->get_component_vector()) h = mc::mix(h, mc::fbits(f));
	return mc::mix(h, mc::fbits(c->alpha()));
}
inline bool same_bits(float a, float b) { return mc::fbits(a) == mc::fbits(b); }
// everything observable about a colour
struct Snap
{
	int t; std::vector<float> c; float a; Def* d;
	explicit Snap(const Col* x) : t(x->get_color_type()), c(x->get_component_vector()), a(x->alpha()), d(x->get_rgb_color_space()) {}
	bool operator==(const Snap& o) const
	{
		if (t != o.t || c.size() != o.c.size() || d != o.d || !same_bits(a, o.a)) return false;
		for (size_t i = 0; i < c.size(); ++i) if (!same_bits(c[i], o.c[i])) return false;
		return true;
	}
	bool operator!=(const Snap& o) const { return !(*this == o); }
};
// does f raise an error?
template <typename F> bool raises(F f) { try { f(); } catch (...) { return true; } return false; }
