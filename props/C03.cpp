// C03: adding colours component by component, and multiplying and dividing by alpha.
#include "grids.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static std::vector<float> grid(int t, int i, bool deep)
{
	float lo, hi; range_of(t, i, lo, hi);
	std::vector<float> v;
	static const float f[] = { 0.f, 0.25f, 0.5f, 0.7f, 1.f };
	static const float g[] = { 0.f, 0.001f, 0.1f, 0.25f, 0.4f, 0.5f, 0.6f, 0.7f, 0.9f, 0.999f, 1.f };
	if (deep) for (float x : g) v.push_back(lo + (hi - lo) * x); else for (float x : f) v.push_back(lo + (hi - lo) * x);
	return v;
}
static void sum(Case& k, int t, const float* a, const float* b, float al, float be, int d1, int d2)
{
	float am = alpha_max(t);
	Col* x = make(t, a, al, D()[d1].lib); Col* y = make(t, b, be, D()[d2].lib);
	Snap sx(x), sy(y);
	k.eval();
	cs::color_base s = *x + *y;
	if (Snap(x) != sx || Snap(y) != sy) k.fail(S("operand:%s", TN[t]), "adding %s and %s changed an operand", desc(x).c_str(), desc(y).c_str());
	if (s.get_color_type() != t || (int)s.get_component_vector().size() != NC[t]) { k.fail(S("type:%s", TN[t]), "type of the sum"); delete x; delete y; return; }
	bool clamped = false;
	for (int i = 0; i < NC[t]; ++i)
	{
		float lo, hi; range_of(t, i, lo, hi);
		double w = (double)sx.c[i] + sy.c[i], g = s.get_component(i), cl = std::max((double)lo, std::min((double)hi, w));
		if (is_hx(t) && i == 0) { cl = want_comp(t, 0, (float)w); }
		double cl2 = is_lch(t) && i == 2 ? std::min(359.0, fmod(w, 360.0)) : cl; // a hue may wrap or clamp
		if (cl != w) clamped = true;
		if (close(g, cl, 2e-4 * hi / 100 + 1e-6) || close(g, cl2, 1e-4)) continue;
		// recorded findings: the sum is clamped to the range of the other components
		double m = is_hx(t) ? 1 : is_lch(t) ? 100 : t == LAB ? 128 : -1;
		if (((hue_comp(t, i)) || (t == LAB && i == 0)) && close(g, std::min(w, m), 1e-4)) k.fail(S("sum:%s:%d", TN[t], i), "%s + %s: component %d is %.9g, expected %.9g", desc(x).c_str(), desc(y).c_str(), i, g, cl);
		else k.fail(S("sum-other:%s:%d", TN[t], i), "%s + %s: component %d is %.9g, expected %.9g", desc(x).c_str(), desc(y).c_str(), i, g, cl);
	}
	if (s.get_rgb_color_space() != sx.d) k.fail(S("definition:%s", TN[t]), "sum of %s", desc(x).c_str());
	Col* back = nullptr;
	if (raises([&] { back = from_base(t, s); })) k.fail(S("retype:%s", TN[t]), "the sum cannot become a colour of its type");
	else
	{
		if (!close(back->alpha(), sx.a, 2e-6 * am)) k.fail(S("alpha:%s", TN[t]), "%s + %s: alpha %.9g", desc(x).c_str(), desc(y).c_str(), back->alpha());
		for (int i = 0; i < NC[t]; ++i) if (!same_bits(back->get_component(i), s.get_component(i))) k.fail(S("retype_value:%s", TN[t]), "component %d changes when the sum becomes %s", i, TN[t]);
		if (clamped || (al != 0 && al != am)) k.distinct(mc::mix(mc::mix(hcol(x), hcol(y)), hcol(back)));
	}
	if (k.want_sample()) k.sample("%s + %s = %s", desc(x).c_str(), desc(y).c_str(), desc(back).c_str());
	delete x; delete y; delete back;
}
static void by_alpha(Case& k, int t, const float* a, float al)
{
	Col* x = make(t, a, al * alpha_max(t), D()[0].lib);
	Snap s(x);
	x->alpha_multiply(); k.eval();
	for (int i = 0; i < NC[t]; ++i) if (!closer(x->get_component(i), (double)s.c[i] * al, 1e-5, std::min(1e-7, 1e-5 * fabs(s.c[i] * (double)al)) + 1e-42)) k.fail(S("multiply:%s", TN[t]), "%s times alpha: %s", descv(t, a, al).c_str(), desc(x).c_str());
	if (!same_bits(x->alpha(), s.a) || x->get_rgb_color_space() != s.d || x->get_color_type() != t) k.fail(S("multiply_rest:%s", TN[t]), "%s: alpha, type or definition changed", descv(t, a, al).c_str());
	if (al != 0)
	{
		x->alpha_divide(); k.eval();
		for (int i = 0; i < NC[t]; ++i) if (!closer(x->get_component(i), (double)s.c[i], 1e-5, 1e-6 + 3e-45 / al)) k.fail(S("divide:%s", TN[t]), "%s times alpha divided by alpha: %s", descv(t, a, al).c_str(), desc(x).c_str());
	}
	Col* y = make(t, a, al * alpha_max(t), D()[0].lib);
	y->alpha_divide(); k.eval();
	for (int i = 0; i < NC[t]; ++i) if (!closer(y->get_component(i), al == 0 ? (double)s.c[i] : (double)s.c[i] / al, 1e-5, 1e-6)) k.fail(S("divide_first:%s", TN[t]), "%s divided by alpha: %s", descv(t, a, al).c_str(), desc(y).c_str());
	if (!same_bits(y->alpha(), s.a) || y->get_rgb_color_space() != s.d || y->get_color_type() != t) k.fail(S("divide_rest:%s", TN[t]), "%s: alpha, type or definition changed", descv(t, a, al).c_str());
	if (al != 0 && al != 1) k.distinct(mc::mix(hcol(x), hcol(y)));
	if (k.want_sample()) k.sample("%s alpha multiply and divide", descv(t, a, al).c_str());
	delete x; delete y;
}
static void build(Plan& p)
{
	p.property = "C03"; p.level = "exploration";
	p.rule = "all ordered pairs of colours of one type with components from a grid over the range (ends included) and three alphas each, all pairs of different types, and for alpha multiplication and division all grid colours with eleven alphas; non-trivial when the sum of some component has to be clamped or the alpha is neither 0 nor 1, distinct by operands and result";
	p.assumptions = { "how far a component may grow by dividing by alpha is not claimed beyond dividing" };
	for (int t = 0; t < NT; ++t)
	{
		bool deep = p.thorough && NC[t] < 4;
		std::vector<std::vector<float>> A; uint64_t n = 1;
		for (int i = 0; i < NC[t]; ++i) { A.push_back(grid(t, i, p.thorough ? NC[t] < 3 : NC[t] == 1)); n *= A.back().size(); }
		(void)deep;
		p.add(S("sum:%s", TN[t]), n * n, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float a[4], b[4];
			for (int i = 0; i < NC[t]; ++i) a[i] = A[i][r.next(A[i].size())];
			for (int i = 0; i < NC[t]; ++i) b[i] = A[i][r.next(A[i].size())];
			float am = alpha_max(t);
			float al = (ix % 3 == 0 ? 1.f : ix % 3 == 1 ? 0.4f : 0.f) * am, be = (ix % 2 ? 0.7f : 1.f) * am;
			sum(k, t, a, b, al, be, ix % 3, ix / 3 % 3);
		}, "all pairs of grid colours");
		Lines l = make_lines(t, p.thorough ? 12000 : 900);
		p.add(S("lines:%s", TN[t]), l.n * 2 * (p.thorough ? 8 : 2), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int sw = r.next(2); r.next(p.thorough ? 8 : 2); float c[4], e[4]; int q; l.get(r.next(l.n), c, &q); uint64_t h = mc::mix(ix, 61); l.at(h % 3 ? h / 4 % 8 : q, e);
			static const float F[] = { 1.f, 0.5f, 0.f, 0.3f, 0.01f, 0.99f }; float am = alpha_max(t);
			sum(k, t, sw ? e : c, sw ? c : e, F[h / 64 % 6] * am, F[h / 1024 % 6] * am, h / 65536 % 20, (h >> 24) % 20);
			by_alpha(k, t, c, h % 5 ? (h >> 40 & 255) / 255.f : F[h / 64 % 6]);
		}, "one component of an operand moved finely through its range");
		p.add(S("fine_alphas:%s", TN[t]), 1021 * 8, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float c[4]; l.at(r.next(8), c); by_alpha(k, t, c, r.next(1021) / 1020.f);
		}, "alphas moved finely from 0 to 1");
		// every binary order of magnitude down to the smallest number, three alphas in each
		p.add(S("tiny_alphas:%s", TN[t]), 150 * 3 * 24, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float c[4]; int e = r.next(150), m = r.next(3), i = r.next(24); l.at(i < 8 ? i : mc::mix(i, 62) % l.n, c);
			if (i >= 16) for (int j = 0; j < NC[t]; ++j) if (i - 16 == j || i >= 20) { float lo, hi; range_of(t, j, lo, hi); c[j] = i == 23 ? hi : lo + (hi - lo) * ldexpf(1, -1 - (int)(mc::mix(ix, j) % 40)); }
			by_alpha(k, t, c, ldexpf(1.f - m / 6.f, -e));
		}, "alphas of every order of magnitude");
		p.add(S("alpha:%s", TN[t]), n * 11, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float a[4];
			for (int i = 0; i < NC[t]; ++i) a[i] = A[i][r.next(A[i].size())];
			static const float f[] = { 0.f, 1.f / 255, 0.01f, 0.1f, 0.25f, 1.f / 3, 0.5f, 0.75f, 0.9f, 254.f / 255, 1.f };
			float al = f[r.next(11)];
			by_alpha(k, t, a, al);
		}, "alpha multiplication and division");
	}
	p.add("mixed_types", NT * NT * 4, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), u = r.next(NT), w = r.next(4);
		float v[4] = { 0.5f, 0.25f, 0.75f, 0.1f }, q[4] = { 0.1f * w, 1.f, 0.3f, 0.2f };
		Col* a = make(t, v, 0.5f, D()[0].lib); Col* b = make(u, q, 1.f, D()[w % 2].lib);
		Snap sa(a), sb(b);
		k.eval();
		bool e = raises([&] { *a + *b; });
		if (e != (t != u)) k.fail(S("mixed:%s:%s", TN[t], TN[u]), "%s + %s %s", desc(a).c_str(), desc(b).c_str(), e ? "raised" : "did not raise");
		if (e) { k.raised(); k.distinct(ix); }
		if (Snap(a) != sa || Snap(b) != sb) k.fail(S("mixed_mutates:%s:%s", TN[t], TN[u]), "operand changed");
		delete a; delete b;
	}, "different types are refused");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
