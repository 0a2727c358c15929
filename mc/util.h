// Shared helpers of the explorers.
#pragma once
#include <cmath>
#include <limits>
#include "mc.h"
#include "tables.h"

using mc::Case;
using mc::Plan;
static const float INF = std::numeric_limits<float>::infinity();

inline bool close(double a, double b, double tol) { return fabs(a - b) <= tol; } // false for NaN
inline bool closer(double a, double b, double rel, double abs_) { return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b)); }
inline bool hue_comp(int t, int i) { return (is_hx(t) && i == 0) || (is_lch(t) && i == 2); }
// what a component reads after v was given to it; NaN: any value of the range
inline double want_comp(int t, int i, float v)
{
	float lo, hi; range_of(t, i, lo, hi);
	if (is_hx(t) && i == 0) // the hue of the hexagonal models wraps, the LCH hues clamp
	{
		if (fabs(v) > 16777216) return NAN; // floats are more than a degree apart
		double h = fmod((double)v, 360.0);
		if (h < 0) h += 360;
		return std::min(h, (double)hi);
	}
	return std::max((double)lo, std::min((double)hi, (double)v));
}
inline double want_alpha(int t, float v) { return std::max(0.0, std::min((double)alpha_max(t), (double)v)); }
inline double comp_tol(int t, int i) { float lo, hi; range_of(t, i, lo, hi); return 1e-6 * std::max(1.f, hi) * (hue_comp(t, i) ? 0.5 : 0.2); }
inline bool in_range(const Col* c, std::string* why = nullptr)
{
	int t = c->get_color_type();
	if (t < 0 || t >= NT) { if (why) *why = "type is undefined"; return false; }
	auto v = c->get_component_vector();
	if ((int)v.size() != NC[t]) { if (why) *why = "wrong number of components"; return false; }
	for (int i = 0; i < NC[t]; ++i)
	{
		float lo, hi; range_of(t, i, lo, hi);
		if (!(v[i] >= lo && v[i] <= hi)) { char b[80]; snprintf(b, sizeof b, "component %d is %.9g, outside [%g,%g]", i, v[i], lo, hi); if (why) *why = b; return false; }
	}
	if (!(c->alpha() >= 0 && c->alpha() <= alpha_max(t))) { char b[80]; snprintf(b, sizeof b, "alpha is %.9g", c->alpha()); if (why) *why = b; return false; }
	return true;
}
// mixed radix index
struct Radix
{
	uint64_t x;
	explicit Radix(uint64_t i) : x(i) {}
	uint64_t next(uint64_t n) { uint64_t r = x % n; x /= n; return r; }
};
inline uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }
inline ref::V mkv(int t, const float* c, double alpha01, const ref::RDef* d)
{
	ref::V v; v.t = t; v.d = d; v.a = alpha01; memset(v.c, 0, sizeof v.c);
	for (int i = 0; i < NC[t]; ++i) v.c[i] = c[i];
	return v;
}
// what the colour as constructed holds
inline ref::V mkv(const Col* c, const ref::RDef* d) { return ref::of(c, d); }
inline std::string S(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string S(const char* f, ...) { char b[500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
// frees colours the library leaks on purpose in its interface (results are owned by the caller)
struct Pool { std::vector<const Col*> v; template <class T> T* operator()(T* p) { if (p) v.push_back(p); return p; } ~Pool() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (auto p : v) delete p; } };
