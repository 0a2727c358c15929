// Independent reference model in double precision, written from the published definitions.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include "lib.h"

namespace ref
{
enum Curve { G18, G22, G26, G28, G_SRGB, G_ADOBE, G_ROMM, G_UHDTV };
inline double encode(int g, double x)
{
	switch (g)
	{
	case G18: return pow(x, 1 / 1.8);
	case G22: return pow(x, 1 / 2.2);
	case G26: return pow(x, 1 / 2.6);
	case G28: return pow(x, 1 / 2.8);
	case G_SRGB: return x <= 0.0031308 ? 12.92 * x : 1.055 * pow(x, 1 / 2.4) - 0.055;
	case G_ADOBE: return pow(x, 1 / 2.19921875);
	case G_ROMM: return x <= 0.001953 ? 16 * x : pow(x, 1 / 1.8);
	default: return x <= 0.018053968510807 ? 4.5 * x : 1.09929682680944 * pow(x, 0.45) - 0.09929682680944;
	}
}
inline double decode(int g, double x)
{
	switch (g)
	{
	case G18: return pow(x, 1.8);
	case G22: return pow(x, 2.2);
	case G26: return pow(x, 2.6);
	case G28: return pow(x, 2.8);
	case G_SRGB: return x <= 0.04045 ? x / 12.92 : pow((x + 0.055) / 1.055, 2.4);
	case G_ADOBE: return pow(x, 2.19921875);
	case G_ROMM: return x <= 16 * 0.001953 ? x / 16 : pow(x, 1.8);
	default: return x <= 0.08124285829863 ? x / 4.5 : pow((x + 0.09929682680944) / 1.09929682680944, 1 / 0.45);
	}
}
struct White { double X, Y, Z, x, y; };
typedef double M3[3][3];
inline bool inv3(const M3 m, M3 r)
{
	double d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
	if (d == 0) return false;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
	{
		int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
		r[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / d;
	}
	return true;
}
inline void mul(const M3 m, const double* v, double* r) { for (int i = 0; i < 3; ++i) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; }
struct RDef
{
	double prim[6]; White w; int g;
	M3 m, mi;
	double mi_norm, m_norm;
	void finish()
	{
		M3 p, pi;
		for (int k = 0; k < 3; ++k) { p[0][k] = prim[2 * k]; p[1][k] = prim[2 * k + 1]; p[2][k] = 1 - prim[2 * k] - prim[2 * k + 1]; }
		inv3(p, pi);
		double wv[3] = { w.X, w.Y, w.Z }, s[3];
		mul(pi, wv, s);
		for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m[i][k] = p[i][k] * s[k];
		inv3(m, mi);
		mi_norm = m_norm = 0;
		for (int i = 0; i < 3; ++i)
		{
			mi_norm = std::max(mi_norm, fabs(mi[i][0]) + fabs(mi[i][1]) + fabs(mi[i][2]));
			m_norm = std::max(m_norm, fabs(m[i][0]) + fabs(m[i][1]) + fabs(m[i][2]));
		}
	}
};
// a colour of the reference model; alpha in [0,1]
struct V { int t; double c[4]; double a; const RDef* d; };

inline double clampd(double x, double lo, double hi) { return x != x ? hi : std::max(lo, std::min(hi, x)); }
inline V clampv(V v)
{
	for (int i = 0; i < NC[v.t]; ++i) { float lo, hi; range_of(v.t, i, lo, hi); v.c[i] = clampd(v.c[i], lo, hi); }
	return v;
}
inline double hue_wrap(double h) { h = fmod(h, 360.0); if (h < 0) h += 360; return h; }

// ---- device family <-> rgb in [0,1]
inline void hex_rgb(double h, double C, double m, double* o)
{
	double hp = h / 60; double x = C * (1 - fabs(fmod(hp, 2.0) - 1));
	int k = (int)floor(hp); if (k > 5) k = 5; if (k < 0) k = 0;
	static const int R[6][3] = { { 2, 1, 0 }, { 1, 2, 0 }, { 0, 2, 1 }, { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 } };
	for (int i = 0; i < 3; ++i) o[i] = m + (R[k][i] == 2 ? C : R[k][i] == 1 ? x : 0);
}
inline void dev_to_rgb(const V& v, double* o, bool clamp = true)
{
	const double* c = v.c;
	switch (v.t)
	{
	case RGB_TRUE: for (int i = 0; i < 3; ++i) o[i] = c[i] / 255; break;
	case RGB_DEEP: for (int i = 0; i < 3; ++i) o[i] = c[i]; break;
	case GREY_TRUE: o[0] = o[1] = o[2] = c[0] / 255; break;
	case GREY_DEEP: o[0] = o[1] = o[2] = c[0]; break;
	case CMYK: for (int i = 0; i < 3; ++i) o[i] = (1 - c[i]) * (1 - c[3]); break;
	case HSI:
	{
		double z = 1 - fabs(fmod(c[0] / 60, 2.0) - 1);
		hex_rgb(c[0], 3 * c[2] * c[1] / (1 + z), c[2] * (1 - c[1]), o);
		break;
	}
	case HSV: hex_rgb(c[0], c[2] * c[1], c[2] - c[2] * c[1], o); break;
	case HSL: { double C = (1 - fabs(2 * c[2] - 1)) * c[1]; hex_rgb(c[0], C, c[2] - C / 2, o); break; }
	case HCY:
	{
		double p[3]; hex_rgb(c[0], c[1], 0, p);
		double m = c[2] - (0.2126 * p[0] + 0.7152 * p[1] + 0.0722 * p[2]);
		for (int i = 0; i < 3; ++i) o[i] = p[i] + m;
		break;
	}
	default: abort();
	}
	if (clamp) for (int i = 0; i < 3; ++i) o[i] = clampd(o[i], 0, 1);
}
inline double hue_of(const double* r)
{
	double mx = std::max(r[0], std::max(r[1], r[2])), mn = std::min(r[0], std::min(r[1], r[2])), d = mx - mn;
	if (d == 0) return 0;
	double h;
	if (mx == r[0]) h = (r[1] - r[2]) / d;
	else if (mx == r[1]) h = (r[2] - r[0]) / d + 2;
	else h = (r[0] - r[1]) / d + 4;
	h *= 60; if (h < 0) h += 360;
	return h;
}
inline V rgb_to_dev(const double* r, int t, double a, const RDef* d)
{
	V v; v.t = t; v.a = a; v.d = d; memset(v.c, 0, sizeof v.c);
	double mx = std::max(r[0], std::max(r[1], r[2])), mn = std::min(r[0], std::min(r[1], r[2])), C = mx - mn;
	switch (t)
	{
	case RGB_TRUE: for (int i = 0; i < 3; ++i) v.c[i] = r[i] * 255; break;
	case RGB_DEEP: for (int i = 0; i < 3; ++i) v.c[i] = r[i]; break;
	case GREY_TRUE: v.c[0] = (r[0] + r[1] + r[2]) / 3 * 255; break;
	case GREY_DEEP: v.c[0] = (r[0] + r[1] + r[2]) / 3; break;
	case CMYK:
		v.c[3] = 1 - mx;
		for (int i = 0; i < 3; ++i) v.c[i] = mx == 0 ? 0 : (mx - r[i]) / mx;
		break;
	case HSI: v.c[0] = hue_of(r); v.c[2] = (r[0] + r[1] + r[2]) / 3; v.c[1] = C == 0 ? 0 : 1 - mn / v.c[2]; break;
	case HSV: v.c[0] = hue_of(r); v.c[2] = mx; v.c[1] = C == 0 ? 0 : C / mx; break;
	case HSL: v.c[0] = hue_of(r); v.c[2] = (mx + mn) / 2; v.c[1] = C == 0 ? 0 : C / (1 - fabs(2 * v.c[2] - 1)); break;
	case HCY: v.c[0] = hue_of(r); v.c[1] = C; v.c[2] = 0.2126 * r[0] + 0.7152 * r[1] + 0.0722 * r[2]; break;
	default: abort();
	}
	return v;
}
// ---- colorimetric family
inline double fl(double t) { return t > 216.0 / 24389 ? cbrt(t) : (24389.0 / 27 * t + 16) / 116; }
inline double fli(double f) { double q = f * f * f; return q > 216.0 / 24389 ? q : (116 * f - 16) * 27 / 24389; }
inline void uvw(const RDef* d, double& u, double& v) { double s = d->w.X + 15 * d->w.Y + 3 * d->w.Z; u = 4 * d->w.X / s; v = 9 * d->w.Y / s; }
// to XYZ (clamped to the range of the type); phys is false where the definition has no meaning
inline V to_xyz(V v, bool* phys = nullptr)
{
	if (phys) *phys = true;
	V o = v; o.t = XYZ; const RDef* d = v.d;
	switch (v.t)
	{
	case XYZ: return v;
	case XYY:
		if (v.c[1] == 0) { o.c[0] = o.c[1] = o.c[2] = 0; if (phys && v.c[2] != 0) *phys = false; return o; }
		o.c[0] = v.c[0] * v.c[2] / v.c[1]; o.c[1] = v.c[2]; o.c[2] = (1 - v.c[0] - v.c[1]) * v.c[2] / v.c[1];
		break;
	case CIELUV:
	{
		if (v.c[0] == 0) { o.c[0] = o.c[1] = o.c[2] = 0; if (phys && (v.c[1] != 0 || v.c[2] != 0)) *phys = false; return o; }
		double un, vn; uvw(d, un, vn);
		double Y = v.c[0] > 903.3 * 0.008856 ? pow((v.c[0] + 16) / 116, 3) : v.c[0] / 903.3;
		double u = v.c[1] / (13 * v.c[0]) + un, w = v.c[2] / (13 * v.c[0]) + vn;
		if (phys && (u <= 0.002 || w <= 0.002 || 12 - 3 * u - 20 * w < 0)) *phys = false;
		o.c[0] = Y * 9 * u / (4 * w); o.c[1] = Y; o.c[2] = Y * (12 - 3 * u - 20 * w) / (4 * w);
		o.c[0] *= 1; break;
	}
	case LAB:
	{
		double fy = (v.c[0] + 16) / 116, fx = fy + v.c[1] / 500, fz = fy - v.c[2] / 200;
		o.c[0] = fli(fx) * d->w.X; o.c[1] = (v.c[0] > 8 ? fy * fy * fy : v.c[0] * 27 / 24389) * d->w.Y; o.c[2] = fli(fz) * d->w.Z;
		break;
	}
	case LCH_AB: case LCH_UV:
	{
		V l = v; l.t = v.t == LCH_AB ? LAB : CIELUV;
		l.c[1] = v.c[1] * cos(v.c[2] * M_PI / 180); l.c[2] = v.c[1] * sin(v.c[2] * M_PI / 180);
		return to_xyz(clampv(l), phys);
	}
	default:
	{
		double r[3]; dev_to_rgb(v, r);
		for (int i = 0; i < 3; ++i) r[i] = clampd(decode(d->g, r[i]), 0, 1);
		mul(d->m, r, o.c);
	}
	}
	// Y of CIELUV is relative to a white of Y = 1
	return clampv(o);
}
inline V xyz_to(const V& z, int t)
{
	V o = z; o.t = t; const RDef* d = z.d;
	switch (t)
	{
	case XYZ: break;
	case XYY:
	{
		double s = z.c[0] + z.c[1] + z.c[2];
		if (s == 0) { o.c[0] = d->w.x; o.c[1] = d->w.y; o.c[2] = 0; }
		else { o.c[0] = z.c[0] / s; o.c[1] = z.c[1] / s; o.c[2] = z.c[1]; }
		break;
	}
	case LAB:
	{
		double fx = fl(z.c[0] / d->w.X), fy = fl(z.c[1] / d->w.Y), fz = fl(z.c[2] / d->w.Z);
		o.c[0] = 116 * fy - 16; o.c[1] = 500 * (fx - fy); o.c[2] = 200 * (fy - fz);
		break;
	}
	case CIELUV:
	{
		double s = z.c[0] + 15 * z.c[1] + 3 * z.c[2];
		if (s == 0) { o.c[0] = o.c[1] = o.c[2] = 0; break; }
		double un, vn; uvw(d, un, vn);
		double y = z.c[1] / d->w.Y;
		o.c[0] = y > 0.008856 ? 116 * cbrt(y) - 16 : 903.3 * y;
		o.c[1] = 13 * o.c[0] * (4 * z.c[0] / s - un); o.c[2] = 13 * o.c[0] * (9 * z.c[1] / s - vn);
		break;
	}
	case LCH_AB: case LCH_UV:
	{
		V l = xyz_to(z, t == LCH_AB ? LAB : CIELUV);
		o.c[0] = l.c[0]; o.c[1] = hypot(l.c[1], l.c[2]); o.c[2] = hue_wrap(atan2(l.c[2], l.c[1]) * 180 / M_PI);
		break;
	}
	default: abort();
	}
	return clampv(o);
}
// linear rgb of a colour, clamped to [0,1], and the encoded one
inline void to_rgb(const V& v, double* enc, double* lin, bool* phys = nullptr)
{
	if (phys) *phys = true;
	if (is_device(v.t))
	{
		dev_to_rgb(v, enc);
		for (int i = 0; i < 3; ++i) lin[i] = clampd(decode(v.d->g, enc[i]), 0, 1);
		return;
	}
	V z = to_xyz(v, phys);
	mul(v.d->mi, z.c, lin);
	for (int i = 0; i < 3; ++i) { lin[i] = clampd(lin[i], 0, 1); enc[i] = clampd(encode(v.d->g, lin[i]), 0, 1); }
}
inline V convert(const V& v, int t, bool* phys = nullptr)
{
	if (phys) *phys = true;
	V o;
	if (t == v.t) { o = v; }
	else if (is_device(t))
	{
		double e[3], l[3]; to_rgb(v, e, l, phys);
		o = rgb_to_dev(e, t, v.a, v.d);
	}
	else if (t == LCH_AB && v.t == LAB) { o = v; o.t = t; o.c[1] = hypot(v.c[1], v.c[2]); o.c[2] = hue_wrap(atan2(v.c[2], v.c[1]) * 180 / M_PI); }
	else if (t == LCH_UV && v.t == CIELUV) { o = v; o.t = t; o.c[1] = hypot(v.c[1], v.c[2]); o.c[2] = hue_wrap(atan2(v.c[2], v.c[1]) * 180 / M_PI); }
	else if ((t == LAB && v.t == LCH_AB) || (t == CIELUV && v.t == LCH_UV)) { o = v; o.t = t; o.c[1] = v.c[1] * cos(v.c[2] * M_PI / 180); o.c[2] = v.c[1] * sin(v.c[2] * M_PI / 180); }
	else o = xyz_to(to_xyz(v, phys), t);
	return clampv(o);
}
inline V of(const Col* c, const RDef* d)
{
	V v; v.t = c->get_color_type(); v.d = d; v.a = c->alpha() / alpha_max(v.t);
	memset(v.c, 0, sizeof v.c);
	auto x = c->get_component_vector();
	for (size_t i = 0; i < x.size() && i < 4; ++i) v.c[i] = x[i];
	return v;
}
inline std::string show(const V& v)
{
	char b[200]; std::string s = TN[v.t]; s += "(";
	for (int i = 0; i < NC[v.t]; ++i) { snprintf(b, sizeof b, "%s%.7g", i ? "," : "", v.c[i]); s += b; }
	snprintf(b, sizeof b, " a %.6g)", v.a);
	return s + b;
}
}
