// C10: conversions among the device models follow their definitions.
#include "cmp.h"
#include "grids.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static void one(Case& k, int t, const float* c, int u, int di, uint64_t ix)
{
	uint64_t h = mc::mix(ix, 77); float al = h % 4 ? (h / 64 % 4096) / 4095.f : 1.f;
	Col* x = make(t, c, al * alpha_max(t), D()[di].lib); float a0 = x->alpha() / alpha_max(t), step = is_true(u) && !is_true(t) ? 255.f : 0.f;
	ref::V v = ref::of(x, &D()[di].ref);
	Col* r = conv(x, u);
	k.eval();
	cmp::Expect e = cmp::expect(v, u);
	std::string why = cmp::differs(r, e);
	if (!why.empty()) k.fail(S("value:%s:%s", TN[t], TN[u]), "%s gives %s: %s", desc(x).c_str(), desc(r).c_str(), why.c_str());
	// alpha likewise: to 8 bits it is rounded to the nearest step, either one where it lies in the middle
	double ra = r->alpha() / alpha_max(u), f = a0 * 255.0 - floor(a0 * 255.0);
	if (step > 0 ? !(close(ra, floor(a0 * 255.0 + 0.5) / 255, 1e-6) || (fabs(f - 0.5) < 1e-3 && close(ra, floor(a0 * 255.0) / 255, 1e-6))) : !close(ra, a0, 2e-6)) k.fail(S("alpha:%s:%s", TN[t], TN[u]), "%s gives %s: alpha", desc(x).c_str(), desc(r).c_str());
	if (e.chroma > 0) k.distinct(mc::mix(hcol(x), hcol(r)));
	if (k.want_sample()) k.sample("%s -> %s", desc(x).c_str(), desc(r).c_str());
	if (r != x) delete r;
	delete x;
}
// The same definitions to the precision of floats, however dark the colour or close to grey: tolerances in proportion to
// the largest channel, not absolute ones. Where a refactoring may subtract from 1, that rounding is allowed.
static void exact(Case& k, int t, const float* c, int u, int di)
{
	Col* x = make(t, c, 1.f, D()[di].lib); Col* r = conv(x, u); k.eval();
	ref::V v = ref::of(x, &D()[di].ref), g = ref::of(r, &D()[di].ref); std::string why;
	auto need = [&](int i, double e, double tol) { if (why.empty() && !close(g.c[i], e, tol)) why = S("component %d is %.9g, expected %.9g", i, g.c[i], e); };
	if (t == RGB_DEEP)
	{
		const double* q = v.c; double mx = std::max(q[0], std::max(q[1], q[2])), mn = std::min(q[0], std::min(q[1], q[2])), C = mx - mn, sum = q[0] + q[1] + q[2], rel = 2e-6 * mx + 1e-37;
		double den = mx + mn <= 1 ? mx + mn : 2 - mx - mn;
		if (u == GREY_DEEP) need(0, sum / 3, rel);
		if (u == CMYK) { need(3, 1 - mx, 2.5e-7); if (mx > 0) for (int i = 0; i < 3; ++i) need(i, (mx - q[i]) / mx, 2e-6 + 5e-7 / mx); }
		if (is_hx(u))
		{
			need(2, u == HSV ? mx : u == HSI ? sum / 3 : u == HSL ? (mx + mn) / 2 : 0.2126 * q[0] + 0.7152 * q[1] + 0.0722 * q[2], rel);
			if (C == 0) need(1, 0, 2e-6);
			else
			{
				need(1, u == HSV ? C / mx : u == HSI ? 1 - mn / (sum / 3) : u == HSL ? C / den : C, u == HCY ? rel : u == HSL ? 3e-6 + 5e-7 / den : 3e-6);
				double h = ref::hue_of(q), ht = 1e-3 + 60 * 2e-6 * mx / C, dh = fabs(g.c[0] - h); dh = std::min(dh, 360 - dh);
				if (!(dh <= ht) && !(h > 359 - ht && (g.c[0] >= 358.99 || g.c[0] <= ht)) && !(h < ht && g.c[0] >= 358.99)) if (why.empty()) why = S("hue is %.9g, expected %.9g", g.c[0], h);
			}
		}
	}
	else
	{
		double o[3]; ref::dev_to_rgb(v, o, false); double mx = std::max(fabs(o[0]), std::max(fabs(o[1]), fabs(o[2])));
		double tol = t == GREY_DEEP ? 1e-7 * mx : 3e-7 + 3e-6 * mx + (t == HCY ? 1e-6 * (v.c[1] + v.c[2]) : 0);
		for (int i = 0; i < 3; ++i) need(i, ref::clampd(o[i], 0, 1), tol);
	}
	if (!why.empty()) k.fail(S("exact:%s:%s", TN[t], TN[u]), "%s gives %s: %s", desc(x).c_str(), desc(r).c_str(), why.c_str());
	k.distinct(mc::mix(hcol(x), hcol(r)));
	if (k.want_sample()) k.sample("%s -> %s", desc(x).c_str(), desc(r).c_str());
	if (r != x) delete r;
	delete x;
}
static void build(Plan& p)
{
	p.property = "C10"; p.level = "exploration";
	p.rule = "all ordered pairs of the nine device models, every colour of a grid over the whole component ranges with every hue sector border and its neighbourhood, and whole 8-bit cubes (a lattice of them in the quick tier, all 2^24 in the thorough tier) from the 8-bit model to every other one and back; non-trivial when the colour is chromatic, distinct by source and result";
	p.assumptions = { "8-bit results and alphas are rounded to the nearest integer (through the 8-bit rgb model for 8-bit grey)", "hues between 359 and 360 degrees are stored as 359 (C01)" };
	static const bool th = p.thorough;
	for (int t = 0; t < 9; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 256 : NC[t] == 4 ? (th ? 21 : 13) : th ? 41 : 21, NC[t] != 4);
		p.add(S("grid:%s", TN[t]), g.n * 9, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(9); if (u == t) return;
			float c[4]; g.get(r.next(g.n), c);
			one(k, t, c, u, ix % D().size(), ix);
		}, "grid colours to every other device model");
		Lines l = make_lines(t, th ? 30000 : 2000);
		p.add(S("lines:%s", TN[t]), l.n * 9, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(9); if (u == t) return;
			float c[4]; l.get(r.next(l.n), c); one(k, t, c, u, ix % D().size(), ix);
		}, "one component moved finely through its range");
		if (NC[t] == 4)
		{
			Grid h = make_grid(t, 4, true);
			p.add("corners:CMYK", h.n * 9, [=](uint64_t ix, Case& k)
			{
				Radix r(ix); int u = r.next(9); if (u == t) return;
				float c[4]; h.get(r.next(h.n), c);
				one(k, t, c, u, 0, ix);
			}, "small and nearly full ink amounts");
		}
	}
	static std::vector<float> U, H; U = unit_edges(); U.push_back(0.6f); U.push_back(0.05f); if (th) for (int i = 1; i < 60; ++i) U.push_back(i / 60.f + 0.003f);
	H.clear(); for (int i = 0; i < 360; i += th ? 1 : 5) H.push_back((float)i); for (int i = 0; i <= 360; i += 60) for (float e : { -0.5f, -0.1f, -1e-2f, -1e-3f, -1e-4f, 1e-4f, 1e-3f, 1e-2f, 0.1f, 0.5f, -1.4f, 1.4f }) if (i + e >= 0 && i + e < 360) H.push_back(i + e);
	static const int EX[6] = { GREY_DEEP, CMYK, HSI, HSV, HSL, HCY };
	p.add("edges:RGB_DEEP", U.size() * U.size() * U.size() * 6, [](uint64_t ix, Case& k)
	{
		Radix q(ix); int u = EX[q.next(6)]; float c[4]; for (int i = 0; i < 3; ++i) c[i] = U[q.next(U.size())]; exact(k, RGB_DEEP, c, u, mc::mix(ix, 5) % D().size());
	}, "all triples of channels near 0 and 1, in decades, and next to round ones");
	for (int j = 0; j < 6; ++j)
	{
		int t = EX[j]; uint64_t n = NC[t] == 1 ? U.size() : t == CMYK ? U.size() * U.size() * (th ? 160 : 20) : H.size() * U.size() * U.size();
		p.add(S("edges:%s", TN[t]), n, [=](uint64_t ix, Case& k)
		{
			float c[4]; Radix q(ix); uint64_t h = mc::mix(ix, 6);
			if (t == CMYK) { q.next(th ? 160 : 20); c[ix % 3] = U[q.next(U.size())]; c[3] = U[q.next(U.size())]; c[(ix + 1) % 3] = U[h % U.size()]; c[(ix + 2) % 3] = U[(h >> 20) % U.size()]; }
			else if (is_hx(t)) { c[0] = H[q.next(H.size())]; c[1] = U[q.next(U.size())]; c[2] = U[q.next(U.size())]; }
			else c[0] = U[ix];
			exact(k, t, c, RGB_DEEP, (h >> 40) % D().size());
		}, "components near the ends of their ranges, in decades, and next to round ones");
	}
	uint64_t per = th ? 256 : 86;
	p.add("cube", per * per * per, [=](uint64_t ix, Case& k)
	{
		Radix q(ix); float c[4]; for (int i = 0; i < 3; ++i) { int x = q.next(per); c[i] = th ? x : x * 3; }
		Def* d = D()[0].lib;
		cs::rgb_truecolor x(c[0], c[1], c[2], 255.f, d);
		ref::V v = ref::of(&x, &D()[0].ref);
		for (int u = RGB_DEEP; u <= HCY; ++u)
		{
			if (u == GREY_TRUE) continue;
			Col* r = conv(&x, u); k.eval();
			cmp::Expect e = cmp::expect(v, u);
			std::string why = cmp::differs(r, e);
			if (!why.empty()) k.fail(S("value:RGB_TRUE:%s", TN[u]), "%s gives %s: %s", desc(&x).c_str(), desc(r).c_str(), why.c_str());
			if (!is_grey(u))
			{
				Col* b = conv(r, RGB_TRUE); k.eval();
				for (int i = 0; i < 3; ++i)
				{
					float w = b->get_component(i);
					double hc = is_hx(u) && r->get_component(0) >= 358.999f ? e.chroma * 255 / 60 + 0.5 : 0;
					if (!close(w, c[i], 0.01 + hc)) k.fail(S("back:%s", TN[u]), "%s to %s and back gives %s", desc(&x).c_str(), desc(r).c_str(), desc(b).c_str());
				}
				delete b;
			}
			if (e.chroma > 0) k.distinct(mc::mix(ix, u));
			delete r;
		}
	}, th ? "all 2^24 8-bit colours to every model and back" : "8-bit colours with components divisible by 3, to every model and back");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
