// Reference of the compositing and blending operations, in double precision.
#pragma once
#include "cmp.h"
#include "grids.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_blend.h"

typedef color_manipulation::porter_duff PD;
typedef color_manipulation::color_blend CB;
typedef std::function<double(double, double)> Fn;

struct Op { const char* name; std::function<Col*(Col*, Col*)> call; bool s, d, b; Fn f; };
inline const std::vector<Op>& pd_ops()
{
	static std::vector<Op> v;
	auto S_ = [](double s, double) { return s; }; auto D_ = [](double, double d) { return d; };
	if (v.empty())
	{
#define O(N, a, b, c, F) v.push_back({ #N, [](Col* x, Col* y) { return PD::N(x, y); }, a, b, c, F });
		O(src, 1, 0, 1, S_) O(dest, 0, 1, 1, D_) O(atop, 0, 1, 1, S_) O(dest_atop, 1, 0, 1, D_) O(over, 1, 1, 1, S_) O(dest_over, 1, 1, 1, D_)
		O(in, 0, 0, 1, S_) O(dest_in, 0, 0, 1, D_) O(out, 1, 0, 0, S_) O(dest_out, 0, 1, 0, D_) O(x_or, 1, 1, 0, S_) O(clear, 0, 0, 0, S_)
#undef O
	}
	return v;
}
namespace bf
{
inline double hard_light(double s, double d) { return s <= 0.5 ? 2 * s * d : 1 - (1 - d) * (1 - 2 * (s - 0.5)); }
inline double color_burn(double s, double d) { return d == 1 ? 0 : s == 0 ? 1 : std::min(1.0, (1 - d) / s); }
inline double color_dodge(double s, double d) { return d == 0 ? 0 : s == 1 ? 1 : std::min(1.0, d / (1 - s)); }
inline double vivid(double s, double d)
{
	if (s <= 0.5) return d == 0 ? 0 : s == 0.5 ? 1 : d / (1 - 2 * s);
	return d == 1 ? 1 : 1 - (1 - d) / (2 * (s - 0.5));
}
}
struct Mode { const char* name; std::function<Col*(Col*, Col*, bool, bool)> call; std::function<Col*(Col*, Col*)> plain; Fn f; };
// the modes that treat each rgb component alike
inline const std::vector<Mode>& modes()
{
	static std::vector<Mode> v;
	if (v.empty())
	{
#define M(N, F) v.push_back({ #N, [](Col* x, Col* y, bool a, bool b) { return CB::N(x, y, a, b); }, [](Col* x, Col* y) { return CB::N(x, y); }, [](double s, double d) -> double { (void)s; (void)d; return F; } });
		M(normal, s) M(multiply, s * d) M(screen, s + d - s * d) M(overlay, bf::hard_light(d, s)) M(darken, std::min(s, d)) M(lighten, std::max(s, d))
		M(color_dodge, bf::color_dodge(s, d)) M(linear_dodge, s + d) M(color_burn, bf::color_burn(s, d)) M(linear_burn, s + d - 1)
		M(hard_light, bf::hard_light(s, d)) M(soft_light, s <= 0.5 ? d * (s + 0.5) : 1 - (1 - d) * (1 - (s - 0.5)))
		M(vivid_light, bf::vivid(s, d)) M(linear_light, d + 2 * s - 1) M(pin_light, s <= 0.5 ? std::min(d, 2 * s) : std::max(d, 2 * (s - 0.5)))
		M(hard_mix, s < 1 - d ? 0 : 1) M(difference, fabs(d - s)) M(subtract, s - d) M(divide, d == 0 ? 0 : s == 0 ? 1 : d / s)
		M(plus_lighter, s + d) M(plus_darker, s + d - 1) M(exclusion, s + d - 2 * s * d)
#undef M
	}
	return v;
}
struct Comp { double lo[3], hi[3]; double a; };
// composite of two deep rgb colours; the components may come with an interval where f jumps
inline Comp composite(const double* s, double sa, const double* d, double da, bool us, bool ud, bool ub, const Fn& f)
{
	Comp o; double as = sa * (1 - da), ad = da * (1 - sa), ab = sa * da;
	o.a = (us ? as : 0) + (ud ? ad : 0) + (ub ? ab : 0);
	for (int i = 0; i < 3; ++i)
	{
		double lo = 1e9, hi = -1e9, big = 1;
		for (int e = -1; e <= 1; ++e) for (int g = -1; g <= 1; ++g)
		{
			// a step of rounding around every operand, except the values with which floats compute exactly
			double x = s[i], y = d[i];
			if (x * 1024 != floor(x * 1024)) x += e * 1.2e-7 * x;
			if (y * 1024 != floor(y * 1024)) y += g * 1.2e-7 * y;
			double v = ub ? f(x, y) : 0; big = std::max(big, fabs(v));
			double q = (us ? as * x : 0) + (ud ? ad * y : 0) + ab * v;
			if (o.a > 0) q /= o.a; else q = 0;
			q = ref::clampd(q, 0, 1);
			lo = std::min(lo, q); hi = std::max(hi, q);
		}
		// rounding of the areas, when they are computed as differences: sa - sa * da
		double t = o.a > 0 ? 2e-7 * big * (sa + da) / o.a : 0; if (t > 1) t = 1;
		o.lo[i] = lo - t; o.hi[i] = hi + t;
	}
	return o;
}
inline bool bin(const Comp& c, const double* g, double tol) { for (int i = 0; i < 3; ++i) if (!(g[i] >= c.lo[i] - tol && g[i] <= c.hi[i] + tol)) return false; return true; }
// "" when r is the composite as a colour of type t; fallback for colorimetric and other types goes through the conversion model
inline std::string wrong(const Col* r, int t, const Comp& c, const ref::RDef* rd, Def* d, double tol = 3e-6)
{
	if (!r) return "nothing is returned";
	if (r->get_color_type() != t) return S("the type of the result is %s", TN[r->get_color_type()]);
	if (r->get_rgb_color_space() != d) return "the result has another rgb definition";
	std::string why; if (!in_range(r, &why)) return why;
	double at = is_true(t) ? 0.501 / 255 : 2e-6 * c.a + 2.5e-7;
	if (!close(r->alpha() / alpha_max(t), c.a, at)) return S("alpha is %.8g, expected %.8g", r->alpha() / alpha_max(t), c.a);
	if (t == RGB_DEEP)
	{
		for (int i = 0; i < 3; ++i) if (!(r->get_component(i) >= c.lo[i] - tol && r->get_component(i) <= c.hi[i] + tol)) return S("component %d is %.8g, expected %.8g", i, r->get_component(i), (c.lo[i] + c.hi[i]) / 2);
		return "";
	}
	// a jump of the function leaves no single expected colour for the other types
	double m[3];
	for (int i = 0; i < 3; ++i) { if (c.hi[i] - c.lo[i] > 1e-4) return ""; m[i] = (c.lo[i] + c.hi[i]) / 2; }
	ref::V v; v.t = RGB_DEEP; v.d = rd; v.a = c.a; for (int i = 0; i < 3; ++i) v.c[i] = m[i]; v.c[3] = 0;
	double w = 0; for (int i = 0; i < 3; ++i) w = std::max(w, c.hi[i] - c.lo[i]);
	cmp::Expect e = cmp::expect(v, t);
	std::string a = cmp::differs(r, e, 1.5 + w / 1e-5);
	if (a.empty()) return "";
	// dark composites are determined by a few float steps only: accept what the definition recovers
	double en[3], li[3]; ref::to_rgb(ref::of(r, rd), en, li);
	if (!is_device(t)) { double e0[3], l0[3]; ref::to_rgb(v, e0, l0); bool ok = true; for (int i = 0; i < 3; ++i) if (!close(li[i], l0[i], 4e-6)) ok = false; if (ok) return ""; }
	return a;
}
