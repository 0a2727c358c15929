// Grids over the component ranges of the colour types.
#pragma once
#include "util.h"

struct Grid
{
	int t; std::vector<std::vector<float>> ax; uint64_t n;
	void get(uint64_t ix, float* c) const { Radix r(ix); c[0] = c[1] = c[2] = c[3] = 0; for (size_t i = 0; i < ax.size(); ++i) c[i] = ax[i][r.next(ax[i].size())]; }
};
// lev: number of evenly spaced values per axis; the hue axis of the hexagonal models takes a step dividing 60
inline Grid make_grid(int t, int lev, bool extra = false)
{
	Grid g; g.t = t; g.n = 1;
	for (int i = 0; i < NC[t]; ++i)
	{
		float lo, hi; range_of(t, i, lo, hi);
		std::vector<float> v;
		if (hue_comp(t, i))
		{
			int st = lev <= 4 ? 60 : lev <= 6 ? 30 : lev <= 9 ? 20 : lev <= 13 ? 15 : lev <= 20 ? 10 : lev <= 40 ? 5 : 2;
			for (int h = 0; h < 360; h += st) v.push_back(h);
			v.push_back(359);
			if (extra) { static const float x[] = { 0.01f, 59.99f, 60.01f, 119.99f, 120.01f, 179.99f, 180.01f, 239.99f, 240.01f, 299.99f, 300.01f, 358.7f, 33.3f, 277.7f }; for (float f : x) v.push_back(f); }
		}
		else if (is_true(t))
		{
			for (int k = 0; k < lev; ++k) v.push_back((float)(int)(255.0 * k / (lev - 1) + 0.5) + (k % 2 == 1 && k < lev - 1 ? 0.4f : 0)); // 8-bit components need not be whole numbers
			if (extra) { v.push_back(1); v.push_back(254); v.push_back(10); v.push_back(11); v.push_back(127); v.push_back(0.5f); v.push_back(254.7f); v.push_back(100.3f); }
		}
		else
		{
			// tristimulus values of real colours lie in [0,1.25]
			bool tri = t == XYZ || (t == XYY && i == 2);
			float h2 = tri ? 1.f : hi;
			for (int k = 0; k < lev; ++k) v.push_back(lo + (h2 - lo) * k / (lev - 1));
			if (tri) { v.push_back(1.09f); v.push_back(3.f); v.push_back(100.f); }
			if (extra)
			{
				float w = hi - lo; if (tri) w = 1;
				if (lo < 0) { v.push_back(-0.01f * hi); v.push_back(0.01f * hi); v.push_back(0.3f * hi); v.push_back(-0.07f * hi); }
				static const float f[] = { 1e-6f, 0.0005f, 0.002f, 0.0031f, 0.0032f, 0.008f, 0.0089f, 0.03f, 0.0404f, 0.0406f, 0.081f, 0.0813f, 0.08f, 0.3333333f, 0.499f, 0.501f, 0.9f, 0.97f, 0.999f };
				if (lo == 0) for (float x : f) v.push_back(x * w);
			}
		}
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		g.n *= v.size(); g.ax.push_back(v);
	}
	return g;
}
// shares between 0 and 1: both ends, every decade above 0 and below 1, steps of 8-bit values and the floats next to round ones
inline const std::vector<float>& unit_edges()
{
	static std::vector<float> v;
	if (v.empty())
	{
		v = { 0.f, 1.f, 0.5f, std::nextafter(0.5f, 0.f), std::nextafter(0.5f, 1.f), std::nextafter(1.f, 0.f), 1.f / 255, 2.f / 255, 127.f / 255, 128.f / 255, 254.f / 255, 0.5f / 255, 254.5f / 255, 1.f / 3, 0.25f, 0.75f, 1 / 256.f, 0.7f };
		for (float e = 0.1f; e > 5e-16f; e *= 0.1f) for (float m : { 1.f, 4.f }) { v.push_back(e * m); if (e > 2e-7f) v.push_back(1 - e * m); }
	}
	return v;
}
// The finely sampled range of one component: evenly spaced values, decades of small ones, and the floats on both sides of
// the values where formulas distinguish cases.
inline std::vector<float> fine_values(int t, int i, int lev)
{
	float lo, hi; range_of(t, i, lo, hi); std::vector<float> v;
	bool tri = t == XYZ || (t == XYY && i == 2); float w = tri ? 1.f : hi;
	auto near_ = [&](float x) { for (float y : { x, std::nextafter(x, -1e9f), std::nextafter(x, 1e9f), x * 0.9999f, x * 1.0001f, x - 1e-3f * w, x + 1e-3f * w }) if (y >= lo && y <= hi) v.push_back(y); };
	if (is_true(t))
	{
		for (int k = 0; k <= 255 * 2; ++k) v.push_back(k * 0.5f);
		for (float f : { 0.25f, 127.25f, 254.75f, 99.9f }) v.push_back(f);
	}
	else if (hue_comp(t, i))
	{
		int n = lev < 360 ? 359 : 359 * (lev / 360);
		for (int k = 0; k <= n; ++k) v.push_back(359.f * k / n);
		for (int h = 0; h < 360; h += 30) near_(h);
		for (float f : { 358.5f, 358.9f, 358.99f, 0.5f, 0.1f, 0.01f, 0.001f }) v.push_back(f);
	}
	else
	{
		for (int k = 0; k <= lev; ++k) v.push_back(lo + ((tri ? 1.2f : hi) - lo) * k / lev);
		for (float e = w * 0.1f; e > 1e-8f; e *= 0.1f) for (float m : { 1.f, 2.f, 5.f }) { v.push_back(e * m); if (lo < 0) v.push_back(-e * m); v.push_back(w - e * m); }
		for (float f : { 0.25f, 0.5f, 0.75f, 1.f / 3, 2.f / 3, 0.2f, 0.8f, 0.0031308f, 0.04045f, 0.008856452f, 0.018053969f, 0.081242858f, 0.001953125f, 0.03125f, 0.08f, 0.16f, 0.206896552f, 0.1f, 0.9f, 1.f }) { near_(f * w); if (lo < 0) near_(-f * w); }
		if (tri) for (float f : { 1.089f, 1.5f, 2.f, 10.f, 50.f, 99.f, 100.f }) v.push_back(f);
	}
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
// Lines: from a few colours, every component is moved finely through its range while the others stay.
struct Lines
{
	int t; std::vector<std::vector<float>> ax; std::vector<std::array<float, 4>> base; uint64_t n, points;
	void get(uint64_t ix, float* c, int* which = nullptr) const
	{
		uint64_t p = ix % points, b = ix / points % base.size(); int i = 0; while (p >= ax[i].size()) p -= ax[i++].size();
		at(b, c); c[i] = ax[i][p]; if (which) *which = b;
	}
	void at(uint64_t b, float* c) const { for (int j = 0; j < 4; ++j) c[j] = base[b % base.size()][j]; }
};
inline Lines make_lines(int t, int lev)
{
	static const float F[][4] = { { 0.3f, 0.62f, 0.81f, 0.17f }, { 0.9f, 0.1f, 0.5f, 0 }, { 0.5f, 0.5f, 0.5f, 0.5f }, { 0.06f, 0.95f, 0.25f, 0.6f }, { 1, 0, 0, 0.3f }, { 0.65f, 1, 1, 0.1f }, { 0.02f, 0.01f, 0.03f, 0.96f }, { 0.7f, 0.35f, 0.66f, 0.05f } };
	Lines l; l.t = t; l.points = 0;
	for (int i = 0; i < NC[t]; ++i) { l.ax.push_back(fine_values(t, i, lev)); l.points += l.ax.back().size(); }
	for (auto& f : F)
	{
		std::array<float, 4> b = { 0, 0, 0, 0 };
		for (int i = 0; i < NC[t]; ++i) { float lo, hi; range_of(t, i, lo, hi); if (t == XYZ || (t == XYY && i == 2)) hi = 1; if (hue_comp(t, i)) hi = 355; b[i] = lo + (hi - lo) * f[i]; if (is_true(t)) b[i] = floorf(b[i]); if (t == XYY && i < 2) b[i] = 0.1f + 0.5f * f[i]; }
		l.base.push_back(b);
	}
	l.n = l.points * l.base.size(); return l;
}
inline uint64_t hv(const ref::V& v) { uint64_t h = v.t; for (int i = 0; i < NC[v.t]; ++i) h = mc::mix(h, mc::fbits((float)v.c[i])); return mc::mix(h, mc::fbits((float)v.a)); }
