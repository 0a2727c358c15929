// A catalogue of the operations of the library on shared colours, with their outcomes as lists of numbers.
#pragma once
#include <functional>
#include "calc.h"
#include "blend.h"
#include "dist.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/color_combinations.h"
#include "manipulation/chromatic_adaptation.h"
#include "utils/colors.h"
extern "C" int rand() { return 50; }
typedef color_manipulation::color_combinations CO;
typedef color_manipulation::color_adjustments AD;
typedef color_manipulation::chromatic_adaptation CA;
static std::vector<ref::LD>& D() { return ref::defs(); }

// ---- what the operations share
static const int NV = 3;
static const int DI[NV] = { 0, 7, 9 };
static Col *A_[NT][NV], *B_[NT][NV], *Q_[NT]; // Q_: colours the user keeps changing
static Def* DM;                               // a definition the user keeps changing
static cs::white_point* WPT[8];
static cs::gamma* GAM[8];
alignas(64) static char buf_def[sizeof(Def)], buf_col[1024], buf_col2[1024];
static Col *Q2_[NT], *MA_[NT], *MB_[NT];      // more of the former; colours in a definition that the user keeps changing
static Def* DM2; static cs::gamma* GM; static cs::gamma_part *GM_part, *GM_inv;
static void values(int t, int k, float* c)
{
	static const float F[6][4] = { { 0.8f, 0.35f, 0.1f, 0.2f }, { 0.15f, 0.6f, 0.9f, 0.05f }, { 0.45f, 0.5f, 0.3f, 0.4f }, { 0.05f, 0.1f, 0.7f, 0.1f }, { 0.6f, 0.9f, 0.55f, 0.3f }, { 0.3f, 0.2f, 0.25f, 0 } };
	static const float X[6][3] = { { 0.35f, 0.3f, 0.1f }, { 0.2f, 0.25f, 0.6f }, { 0.5f, 0.55f, 0.4f }, { 0.08f, 0.1f, 0.3f }, { 0.6f, 0.7f, 0.2f }, { 0.1f, 0.12f, 0.15f } };
	static const float Y[6][3] = { { 0.4f, 0.35f, 0.3f }, { 0.25f, 0.3f, 0.4f }, { 0.35f, 0.38f, 0.6f }, { 0.2f, 0.2f, 0.1f }, { 0.42f, 0.45f, 0.7f }, { 0.3f, 0.33f, 0.2f } };
	static const float L[6][3] = { { 60, 30, 40 }, { 45, -20, -35 }, { 70, 12, -18 }, { 30, 25, -45 }, { 85, -30, 50 }, { 40, 5, 8 } };
	static const float C[6][3] = { { 60, 45, 40 }, { 45, 30, 220 }, { 70, 20, 300 }, { 30, 50, 280 }, { 85, 60, 110 }, { 40, 9, 58 } };
	for (int i = 0; i < 4; ++i) c[i] = F[k][i];
	if (is_true(t)) for (int i = 0; i < 4; ++i) c[i] = (float)(int)(F[k][i] * 255);
	if (is_hx(t)) { static const float H[6] = { 20, 200, 310, 250, 75, 130 }; c[0] = H[k]; }
	const float* q = t == XYZ ? X[k] : t == XYY ? Y[k] : t == LAB || t == CIELUV ? L[k] : is_lch(t) ? C[k] : nullptr;
	if (q) for (int i = 0; i < 3; ++i) c[i] = q[i];
}
static float al(int k) { static const float a[6] = { 1.f, 0.5f, 0.3f, 0.75f, 0.9f, 0.1f }; return a[k]; }
static void setup()
{
	float c[4];
	for (int t = 0; t < NT; ++t)
	{
		for (int v = 0; v < NV; ++v)
		{
			values(t, v, c); A_[t][v] = make(t, c, al(v) * alpha_max(t), D()[DI[v]].lib);
			values(t, v + 3, c); B_[t][v] = make(t, c, al(v + 3) * alpha_max(t), D()[DI[v]].lib);
		}
		values(t, 0, c); Q_[t] = make(t, c, alpha_max(t), D()[DI[0]].lib);
	}
	DM = ref::PRESETS[2].get(); DM2 = ref::PRESETS[5].get();
	for (int t = 0; t < NT; ++t) { values(t, 1, c); Q2_[t] = make(t, c, alpha_max(t), D()[DI[0]].lib); values(t, 2, c); MA_[t] = make(t, c, al(1) * alpha_max(t), DM2); values(t, 4, c); MB_[t] = make(t, c, al(3) * alpha_max(t), DM2); }
	GM_part = new cs::gamma_part([](float x) { return x; }, 1.f); GM_inv = new cs::gamma_part([](float x) { return x; }, 1.f);
	GM = new cs::gamma(); GM->add_gamma_curve_part(GM_part); GM->add_inverse_gamma_curve_part(GM_inv);
	for (int i = 0; i < 8; ++i) { WPT[i] = ref::WHITES[i * 5].get(); GAM[i] = ref::lib_curve(i); }
}
// ---- outcomes
struct Res
{
	std::vector<float> v; std::vector<Col*> own; std::vector<Col*> ops; bool err = false;
	void num(double x) { v.push_back((float)x); }
	void def(Def* d) { int q = d == (Def*)buf_def ? 90 : d == DM ? 91 : d == DM2 ? 92 : 99; for (size_t i = 0; i < D().size(); ++i) if (D()[i].lib == d) q = i; num(q); }
	void col(Col* c) { if (!c) { num(-7777); return; } num(c->get_color_type()); for (float f : c->get_component_vector()) num(f); num(c->alpha()); def(c->get_rgb_color_space()); own.push_back(c); }
	void cols(const std::vector<Col*>& x) { num(x.size()); for (auto* c : x) col(c); }
	Col* in(Col* c) { ops.push_back(c); return c; }
	void mat(const matrix<float>& m) { num(m.rows()); num(m.columns()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.columns(); ++j) num(m(i, j)); }
};
struct OpR { std::string name; std::function<void(Res&)> f; bool core; };
static std::vector<OpR> OPS;
static const int MAXV = 56;
struct Base { int n; int err; float v[MAXV]; };
static Base* BASE;
static void add(const std::string& n, std::function<void(Res&)> f, bool core = false) { OPS.push_back({ n, f, core }); }
static void perform(const OpR& o, Res& r) { try { o.f(r); } catch (...) { r.err = true; } if (r.err) r.v.clear(); }

template <class T, class... Args> static Col* at(void* w, Args... a) { static_assert(sizeof(T) <= sizeof buf_col, ""); return new (w) T(a...); }
static Col* make_at(int t, const float* c, float a, Def* d, void* w = buf_col)
{
	switch (t)
	{
	case GREY_TRUE: return at<cs::grey_truecolor>(w, c[0], a, d);
	case GREY_DEEP: return at<cs::grey_deepcolor>(w, c[0], a, d);
	case CMYK: return at<cs::cmyk>(w, c[0], c[1], c[2], c[3], a, d);
#define X(E, T) case E: return at<cs::T>(w, c[0], c[1], c[2], a, d);
	X(RGB_TRUE, rgb_truecolor) X(RGB_DEEP, rgb_deepcolor) X(HSI, hsi) X(HSV, hsv) X(HSL, hsl) X(HCY, hcy) X(XYZ, xyz) X(XYY, xyy) X(CIELUV, cieluv) X(LAB, lab) X(LCH_AB, lch_ab) X(LCH_UV, lch_uv)
#undef X
	}
	abort();
}
static void catalogue()
{
	for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u)
	{
		std::string p = std::string(TN[t]) + " to " + TN[u];
		// the definition varies fastest: neighbours differ in nothing else
		for (int v = 0; v < NV; ++v) add("convert " + p + S(" (%s)", D()[DI[v]].name), [=](Res& r) { r.col(conv(r.in(A_[t][v]), u)); }, v < 2 && t != u);
		for (int v = 0; v < 2; ++v) add("to_ " + p + S(" (%s)", D()[DI[v]].name), [=](Res& r) { r.col(to_named(r.in(B_[t][v]), u)); });
		if (t == u) continue;
		for (int k = 0; k < 2; ++k)
		{
			// the same storage holds another colour each time
			add("convert " + p + S(" in reused storage %d", k), [=](Res& r) { float c[4]; values(t, k + 1, c); Col* x = make_at(t, c, al(k + 2) * alpha_max(t), D()[DI[k]].lib); r.col(conv(x, u)); x->~color_base(); });
			// and another definition
			add("convert " + p + S(" with a definition in reused storage %d", k), [=](Res& r)
			{
				auto& pr = ref::PRESETS[k ? 8 : 14];
				Def* d = new (buf_def) Def(pr.prim[0], pr.prim[1], pr.prim[2], pr.prim[3], pr.prim[4], pr.prim[5], WPT[k ? 0 : 2], GAM[k ? 1 : 4]);
				float c[4]; values(t, k + 3, c); Col* x = make(t, c, alpha_max(t), d); r.col(conv(x, u)); delete x; d->~Def();
			}, u == XYZ && t < 9);
			// a definition that is changed
			add("convert " + p + S(" after changing the definition %d", k), [=](Res& r)
			{
				DM->set_white_point(WPT[k ? 1 : 6]); DM->set_gamma_curve(GAM[k ? 5 : 6]);
				float c[4]; values(t, k + 2, c); Col* x = make(t, c, alpha_max(t), DM); r.col(conv(x, u)); delete x;
			}, u == XYZ && t < 9);
			// a colour that is changed
			add("convert " + p + S(" after changing the colour %d", k), [=](Res& r)
			{
				float c[4]; values(t, k + 4, c); for (int i = 0; i < NC[t]; ++i) set_named(Q_[t], t, i, c[i]); Q_[t]->alpha(al(k + 1) * alpha_max(t)); Q_[t]->set_rgb_color_space(D()[DI[k + 1]].lib);
				r.col(conv(Q_[t], u));
			});
		}
	}
	for (int t = 0; t < NT; ++t) for (int v = 0; v < 2; ++v)
	{
		std::string q = S(" (%s, %s)", TN[t], D()[DI[v]].name); bool full = t == RGB_DEEP || t == RGB_TRUE || t == LAB || t == HSV;
		int w = (t + 4) % NT;
		if (full) for (auto& m : modes()) for (int g = 0; g < 2; ++g) add(std::string("blend ") + m.name + q + S(" %d", g), [=, &m](Res& r) { r.col(m.call(r.in(A_[t][v]), r.in(B_[g ? w : t][v]), g == 0, true)); }, t == RGB_DEEP && v == 0 && g == 0);
		if (full) for (auto& m : pd_ops()) add(std::string("porter_duff ") + m.name + q, [=, &m](Res& r) { r.col(m.call(r.in(A_[t][v]), r.in(B_[w][v]))); }, t == RGB_DEEP && v == 0);
		typedef Col* (*B4)(Col*, Col*);
		struct H { const char* n; B4 f; };
		static const H hs[] = { { "hue", [](Col* a, Col* b) -> Col* { return CB::hue(a, b); } }, { "saturation", [](Col* a, Col* b) -> Col* { return CB::saturation(a, b); } }, { "color", [](Col* a, Col* b) -> Col* { return CB::color(a, b); } }, { "luminosity", [](Col* a, Col* b) -> Col* { return CB::luminosity(a, b); } },
			{ "dissolve", [](Col* a, Col* b) -> Col* { return CB::dissolve(a, b); } }, { "custom1", [](Col* a, Col* b) -> Col* { return CB::custom_componentwise_blend(a, b, true, true, [](float s, float d) { return 0.3f * s + 0.6f * d; }); } },
			{ "custom2", [](Col* a, Col* b) -> Col* { return CB::custom_componentwise_blend(a, b, false, true, [](float s, float d) { return d - s * 0.5f; }); } } };
		for (auto& h : hs) add(std::string("blend ") + h.n + q, [=, &h](Res& r) { r.col(h.f(r.in(A_[t][v]), r.in(B_[t][v]))); }, t == RGB_DEEP);
		for (int op = 0; op < 3; ++op) for (int ia = 0; ia < 2; ++ia)
		{
			add(std::string(OPN[op]) + q + S(" %d", ia), [=](Res& r) { r.col(typed(op, r.in(A_[t][v]), r.in(B_[t][v]), 0.6f, 0.3f, ia)); }, v == 0 && ia == 0);
			add(std::string("generic ") + OPN[op] + q + S(" %d", ia), [=](Res& r) { r.col(generic(op, r.in(A_[t][v]), r.in(B_[ia ? w : t][v]), 0.5f, 0.8f, ia)); });
		}
		for (int ia = 0; ia < 2; ++ia) add("average" + q + S(" %d", ia), [=](Res& r) { r.col(average(t, { r.in(A_[t][v]), r.in(B_[t][v]), r.in(A_[t][2 - v]) }, ia)); }, v == 0 && ia == 1);
		add("distances" + q, [=](Res& r)
		{
			Col *a = r.in(A_[t][v]), *b = r.in(B_[w][v]);
			r.num(CD::euclidean_distance(a, b)); r.num(CD::euclidean_distance_squared(a, b)); r.num(CD::euclidean_distance(a, b, CIELUV)); r.num(CD::euclidean_distance_weighted(a, b));
			r.num(CD::cielab_delta_e_cie76(a, b)); r.num(CD::cielab_delta_e_cie94(a, b)); r.num(CD::cielab_delta_e_cie94(a, b, 2.f, 0.048f, 0.014f)); r.num(CD::cmc_delta_e_lc84(a, b)); r.num(CD::cmc_delta_e_lc84(a, b, 1.f, 1.f)); r.num(CD::cielab_delta_e_cie00(a, b));
		}, v == 0);
		add("distance to itself" + q, [=](Res& r) { Col* a = r.in(A_[t][v]); r.num(CD::euclidean_distance(a, a)); r.num(CD::cielab_delta_e_cie76(a, a)); r.num(CD::cmc_delta_e_lc84(a, a)); });
		for (int k = 0; k < 2; ++k)
		{
			float am = k ? -0.35f : 0.25f;
			add("adjust" + q + S(" %g", am), [=](Res& r) { Col* a = r.in(A_[t][v]); r.col(AD::saturate_in_rgb_space(a, am)); r.col(AD::saturate_in_hsl_space(a, am)); r.col(AD::luminate_in_rgb_space(a, am)); r.col(AD::luminate_in_hsl_space(a, am)); }, k == 0 && v == 0);
			add("adjust in place" + q + S(" %g", am), [=](Res& r)
			{
				for (int i = 0; i < 4; ++i)
				{
					Col* c = clone(r.in(B_[t][v]));
					if (i == 0) AD::saturate_in_rgb_space(*c, am); else if (i == 1) AD::saturate_in_hsl_space(*c, am); else if (i == 2) AD::luminate_in_rgb_space(*c, am); else AD::luminate_in_hsl_space(*c, am);
					r.col(c);
				}
			});
		}
		add("complement" + q, [=](Res& r) { r.col(CO::create_complimentary(r.in(A_[t][v]))); }, v == 0);
		add("triplet" + q, [=](Res& r) { r.cols(CO::create_triplet(r.in(A_[t][v]))); });
		add("quartet" + q, [=](Res& r) { r.cols(CO::create_quartet(r.in(B_[t][v]))); });
		add("quintet" + q, [=](Res& r) { r.cols(CO::create_quintet(r.in(B_[t][v]))); });
		add("combination" + q, [=](Res& r) { r.cols(CO::create_combination(r.in(A_[t][v]), 7)); }, v == 0);
		add("analogous" + q, [=](Res& r) { r.cols(CO::create_analogous(r.in(A_[t][v]), 25.f)); }, v == 0);
		add("complementary split" + q, [=](Res& r) { r.cols(CO::create_complimentary_split(r.in(A_[t][v]), 35.f)); });
		for (int m = 0; m < 3; ++m) add("monochromatic" + q + S(" %d", m), [=](Res& r) { r.cols(CO::create_monochromatic(r.in(A_[t][v]), m, 0.2f, 4)); }, v == 0 && m == 2);
		for (int k = 0; k < 2; ++k)
		{
			typedef Col* (*AF)(Col*, cs::white_point*);
			struct N { const char* n; AF f; };
			static const N ns[] = { { "von_kries", [](Col* c, cs::white_point* p) -> Col* { return CA::von_kries_adaptation(c, p); } }, { "bradford", [](Col* c, cs::white_point* p) -> Col* { return CA::bradford_adaptation(c, p); } },
				{ "bradford_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::bradford_adaptation_simplified(c, p); } }, { "xyz_scale", [](Col* c, cs::white_point* p) -> Col* { return CA::xyz_scale_adaptation(c, p); } },
				{ "sharp", [](Col* c, cs::white_point* p) -> Col* { return CA::sharp_adaptation(c, p); } }, { "cmccat97_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat97_adaptation_simplified(c, p); } },
				{ "cmccat97", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat97_adaptation(c, p, 0.9f, 60.f); } }, { "cmccat2000_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat2000_adaptation_simplified(c, p); } },
				{ "cmccat2000", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat2000_adaptation(c, p, 0.8f, 50.f, 90.f); } }, { "cat02_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cat02_adaptation_simplified(c, p); } },
				{ "cat02", [](Col* c, cs::white_point* p) -> Col* { return CA::cat02_adaptation(c, p, 1.f, 40.f); } } };
			for (auto& n : ns) add(std::string("adapt ") + n.n + q + S(" %d", k), [=, &n](Res& r) { r.col(n.f(r.in(A_[t][v]), WPT[k ? 4 : 0])); }, t == RGB_DEEP || (t == XYZ && v == 0));
		}
		add("copies" + q, [=](Res& r) { Col* c = clone(r.in(A_[t][v])); r.col(c); Col* d = clone(B_[t][2 - v]); assign(d, A_[t][v]); r.col(d); r.num(*c == *A_[t][v]); r.num(*c != *B_[t][v]); r.col(from_base(t, *A_[t][v])); });
		add("sum" + q, [=](Res& r) { cs::color_base s = *r.in(A_[t][v]) + *r.in(B_[t][v]); r.num(s.get_color_type()); for (float f : s.get_component_vector()) r.num(f); r.num(s.alpha()); });
		add("gamma" + q, [=](Res& r) { Col* c = clone(r.in(A_[t][v])); c->do_gamma_correction(); r.col(c); c = clone(A_[t][v]); c->do_inverse_gamma_correction(); r.col(c); c = clone(A_[t][v]); c->alpha_multiply(); r.col(c); c->alpha_divide(); r.col(c); });
		// refusals in between must leave nothing behind
		add("refused: component" + q, [=](Res& r) { r.num(r.in(A_[t][v])->get_component(NC[t])); }, t == 0 && v == 0);
		add("refused: setting" + q, [=](Res& r) { r.in(A_[t][v])->set_component(0.5f, -1); });
		add("refused: weight" + q, [=](Res& r) { r.col(typed(v ? MIX : ADD, r.in(A_[t][v]), r.in(B_[t][v]), 1.5f, 0.5f, true)); }, t == 2 && v == 0);
		add("refused: generic weight" + q, [=](Res& r) { r.col(generic(v ? SUB : MIX, r.in(A_[t][v]), r.in(B_[t][v]), -0.5f, 0.5f, true)); });
		add("refused: blend" + q, [=](Res& r) { r.col(CB::multiply(r.in(A_[t][v]), v ? B_[t][0] : nullptr)); }, t == 1);
		add("refused: compositing" + q, [=](Res& r) { r.col(PD::over(r.in(A_[t][v]), v ? B_[t][2] : nullptr)); });
		add("refused: average" + q, [=](Res& r) { r.col(average(t, {}, v)); }, t == 5 && v == 0);
		add("refused: combination" + q, [=](Res& r) { r.cols(CO::create_combination(r.in(A_[t][v]), v ? 1 : 361)); }, t == 5 && v == 0);
		add("refused: analogous" + q, [=](Res& r) { r.cols(CO::create_analogous(r.in(A_[t][v]), v ? 0.f : 121.f)); });
		add("refused: monochromatic" + q, [=](Res& r) { r.cols(CO::create_monochromatic(r.in(A_[t][v]), v ? 5 : 0, v ? 0.1f : 1.1f, 3)); });
		add("refused: sum" + q, [=](Res& r) { cs::color_base s = *r.in(A_[t][v]) + *r.in(B_[w][v]); r.num(s.alpha()); });
	}
	for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (t != u) add(S("refused: from base %s %s", TN[t], TN[u]), [=](Res& r) { r.col(from_base(u, *r.in(A_[t][1]))); });
	static const char* HX[] = { "#FF8000", "80FF8000", "#40102030", "a1B2c3", "#000000", "FFFFFFFF" };
	for (auto* h : HX) add(std::string("hex ") + h, [=](Res& r) { r.col(new cs::rgb_truecolor(std::string(h), D()[0].lib)); }, h == HX[0] || h == HX[2]);
	for (int x : { 0x00FF00, (int)0x80FF8000, -1, 0, (int)Chartreuse, (int)Transparent }) add(S("hex %x", x), [=](Res& r) { r.col(new cs::rgb_truecolor(x, D()[7].lib)); });
	static const char* HB[] = { "#FF80", "xyzxyz", "", "#GG0000", "#FF80001" };
	for (auto* h : HB) add(std::string("refused: hex ") + h, [=](Res& r) { r.col(new cs::rgb_truecolor(std::string(h), D()[0].lib)); }, h == HB[1]);
	for (auto& p : ref::PRESETS) add(std::string("definition ") + p.name, [&p](Res& r)
	{
		Def* d = p.get(); r.mat(d->get_transform_matrix()); r.mat(d->get_inverse_transform_matrix()); for (float f : d->get_red_chromaticity_coordinate()) r.num(f); for (float f : d->get_green_chromaticity_coordinate()) r.num(f); for (float f : d->get_blue_chromaticity_coordinate()) r.num(f);
		for (float f : d->get_white_point()->get_tristimulus()) r.num(f); for (float f : { 0.01f, 0.3f, 0.9f }) { r.num(d->get_gamma_curve()->gamma_correction(f)); r.num(d->get_gamma_curve()->inverse_gamma_correction(f)); }
		// the user owns the definition
		d->set_white_point(WPT[3]); d->set_gamma_curve(GAM[0]);
	}, !strcmp(p.name, "sRGB") || !strcmp(p.name, "rommRGB"));
	for (auto& w : ref::WHITES) add(std::string("white ") + w.name, [&w](Res& r) { auto* p = w.get(); for (float f : p->get_tristimulus()) r.num(f); for (float f : p->get_chromaticity_coordinate()) r.num(f); delete p; });
	for (int g = 0; g < 8; ++g)
	{
		add(std::string("curve ") + ref::CURVE_NAMES[g], [=](Res& r) { auto* c = ref::lib_curve(g); for (float f : { 0.f, 0.002f, 0.02f, 0.05f, 0.2f, 0.7f, 1.f }) { r.num(c->gamma_correction(f)); r.num(c->inverse_gamma_correction(f)); } c->add_gamma_curve_part(new cs::gamma_part([](float) { return 0.5f; }, 0.9f)); }, g == 4);
		add(std::string("shared curve ") + ref::CURVE_NAMES[g], [=](Res& r) { for (float f : { 0.001f, 0.01f, 0.1f, 0.4f, 0.8f }) { r.num(GAM[g]->gamma_correction(f)); r.num(GAM[g]->inverse_gamma_correction(f)); } }, g == 7);
	}
	for (int k = 0; k < 3; ++k)
	{
		add(S("matrix %d", k), [=](Res& r)
		{
			std::vector<float> x; for (int i = 0; i < 9; ++i) x.push_back((i * 7 + k * 3) % 10 * 0.3f + (i % 4 == 0)); matrix<float> m(3, x), n(3, 3, 0.5f + k);
			r.mat(m * n); r.mat(m + n); r.mat(m.invert()); r.mat(m.transpose()); for (float f : m * std::vector<float>{ 1, 2, 3 }) r.num(f); m += n; r.mat(m);
		}, k == 0);
		add(S("refused: matrix %d", k), [=](Res& r) { matrix<float> m(2, 3, 1.f); r.num(m(k - 1, 3)); });
		add(S("refused: matrix product %d", k), [=](Res& r) { matrix<float> m(2, 3, 1.f), n(k == 0 ? 2 : 1, 3, 1.f); r.mat(m * n); });
	}
}

static bool agrees(const Res& r, const Base& b)
{
	if ((int)r.err != b.err || (int)std::min<size_t>(r.v.size(), MAXV) != b.n) return false;
	return !memcmp(r.v.data(), b.v, b.n * sizeof(float));
}
static std::string show(const float* v, size_t n, bool err) { if (err) return "an error"; std::string s; for (size_t i = 0; i < n && i < 12; ++i) s += S("%s%.9g", i ? "," : "", v[i]); return s; }
