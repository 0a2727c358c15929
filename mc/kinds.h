#pragma once
#include "catalogue.h"
// ---- kinds of operations on two colours, each with the ways its colours can come about
struct Kind2 { std::string name; bool other; std::function<void(Res&, int t, Col* a, Col* b)> f; };
static std::vector<Kind2> KINDS;
static int PS = 0; // which other parameters a call has
static float pick(float d, const float (&o)[6]) { return PS ? o[PS - 1] : d; }
static float wei(float d) { static const float o[] = { 0.05f, 1.f, 0.f, 0.95f, 0.3f, 0.5625f }; return pick(d, o); }
static float amo(float d) { static const float o[] = { -1.f, 1.f, 0.f, -0.05f, 0.7f, 0.3125f }; return pick(d, o); }
static float ang(float d) { static const float o[] = { 120.f, -30.f, 0.01f, 1.f, 60.f, 25.0625f }; return pick(d, o); }
static float lum(float d) { static const float o[] = { 1.f, 1000.f, 318.31f, 20.f, 64.f, 50.0625f }; return pick(d, o); }
static float kay(float d) { static const float o[] = { 1.f, 2.f, 0.5f, 0.045f, 10.f, 1.0625f }; return pick(d, o); }
static int num(int d) { static const float o[] = { 2, 4, 6, 9, 12, 7 }; return (int)pick((float)d, o); }
static bool flag(bool d) { return d != (PS == 1 || PS == 4 || PS == 6); }
static const int NVAR = 34, NVAR3 = 14;
static const char* VARN[NVAR] = { "shared colours", "other shared colours", "colours in reused storage 0", "colours in reused storage 1", "colours changed 0", "colours changed 1", "new colours after changing the definition 0", "new colours after changing the definition 1", "definition in reused storage 0", "definition in reused storage 1", "the same colours after changing their definition 0", "the same colours after changing their definition 1", "after changing the curve 0", "after changing the curve 1",
	"second colour changed 0", "second colour changed 1", "first colour changed 0", "first colour changed 1", "alphas changed 0", "alphas changed 1", "definition of the first colour replaced 0", "definition of the first colour replaced 1", "definition of the second colour replaced 0", "definition of the second colour replaced 1",
	"equal but for the last component 0", "equal but for the last component 1", "equal but for the first component 0", "equal but for the first component 1",
	"definitions equal but for one chromaticity", "definitions equal but for Z of the white", "definitions equal but for X of the white", "definitions equal but for the curve", "definitions equal but for the luminance of the white", "definitions equal" };
static Def* TWIN[6]; // definitions that agree in all but one thing
static Col *P_[NT], *P2_[NT];
static void twins()
{
	auto& pr = ref::PRESETS[14]; static const float W[4][3] = { { 0.95f, 1.f, 1.08f }, { 0.95f, 1.f, 0.9f }, { 0.98f, 1.f, 1.08f }, { 0.95f, 0.9f, 1.08f } };
	cs::white_point* w[4]; for (int i = 0; i < 4; ++i) w[i] = new cs::white_point(W[i][0], W[i][1], W[i][2], 0.3127f, 0.329f);
	auto d = [&](float by, int x, int g) { return new Def(pr.prim[0], pr.prim[1], pr.prim[2], pr.prim[3], pr.prim[4], by, w[x], GAM[g]); };
	TWIN[0] = d(pr.prim[5] + 0.03f, 0, 1); TWIN[1] = d(pr.prim[5], 1, 1); TWIN[2] = d(pr.prim[5], 2, 1); TWIN[3] = d(pr.prim[5], 0, 2); TWIN[4] = d(pr.prim[5], 3, 1); TWIN[5] = d(pr.prim[5], 0, 1);
	for (int t = 0; t < NT; ++t) { float c[4]; values(t, 1, c); P_[t] = make(t, c, al(1) * alpha_max(t), D()[DI[0]].lib); values(t, 2, c); P2_[t] = make(t, c, al(2) * alpha_max(t), D()[DI[0]].lib); }
}
static void kinds()
{
	// one call each: a memory of the last call is then asked again in the next step
	auto k = [](const std::string& n, bool o, std::function<void(Res&, int, Col*, Col*)> f) { KINDS.push_back({ n, o, f }); };
	for (int u = 0; u < NT; ++u) { k(std::string("convert to ") + TN[u], false, [u](Res& r, int t, Col* a, Col*) { r.col(t == u ? clone(a) : conv(a, u)); }); k(std::string("to ") + TN[u], false, [u](Res& r, int t, Col*, Col* b) { r.col(t == u ? clone(b) : to_named(b, u)); }); }
	for (auto& m : modes()) { k(std::string("blend ") + m.name, false, [&m](Res& r, int, Col* a, Col* b) { r.col(m.call(a, b, flag(true), PS < 3)); }); k(std::string("blend back ") + m.name, true, [&m](Res& r, int, Col* a, Col* b) { r.col(m.call(b, a, false, true)); }); }
	for (auto& m : pd_ops()) k(std::string("porter_duff ") + m.name, true, [&m](Res& r, int, Col* a, Col* b) { r.col(m.call(a, b)); });
	k("blend hue", false, [](Res& r, int, Col* a, Col* b) { r.col(CB::hue(a, b)); }); k("blend saturation", false, [](Res& r, int, Col* a, Col* b) { r.col(CB::saturation(a, b)); });
	k("blend color", true, [](Res& r, int, Col* a, Col* b) { r.col(CB::color(a, b)); }); k("blend luminosity", true, [](Res& r, int, Col* a, Col* b) { r.col(CB::luminosity(a, b)); });
	k("blend dissolve", false, [](Res& r, int, Col* a, Col* b) { r.col(CB::dissolve(a, b)); });
	for (int op = 0; op < 3; ++op)
	{
		k(OPN[op], false, [op](Res& r, int, Col* a, Col* b) { r.col(typed(op, a, b, wei(0.6f), amo(0.3f), flag(false))); });
		k(std::string(OPN[op]) + " with alpha", false, [op](Res& r, int, Col* a, Col* b) { r.col(typed(op, a, b, op == ADD ? amo(0.25f) : wei(0.25f), wei(0.5f), true)); });
		// weights that leave an operand as it is, among others
		static const float NW[7][2] = { { 0.5f, 0.5f }, { 1.f, 0.f }, { 0.f, 1.f }, { 0.5f, 0.f }, { 0.25f, 0.75f }, { 1.f, 1.f }, { 0.f, 0.f } };
		for (int al = 0; al < 2; ++al)
		{
			k(std::string("neutral generic ") + OPN[op] + (al ? " with alpha" : ""), false, [op, al](Res& r, int, Col* a, Col* b) { r.col(generic(op, a, b, NW[PS][0], NW[PS][1], al)); });
			k(std::string("neutral ") + OPN[op] + (al ? " with alpha" : ""), false, [op, al](Res& r, int, Col* a, Col* b) { r.col(typed(op, a, b, NW[PS][0], NW[PS][1], al)); });
		}
		k(std::string("generic ") + OPN[op], true, [op](Res& r, int, Col* a, Col* b) { r.col(generic(op, a, b, wei(0.5f), fabsf(amo(0.8f)), flag(true))); });
	}
	k("average of one", false, [](Res& r, int t, Col* a, Col*) { r.col(average(t, { a }, flag(true))); }); k("average of the same", false, [](Res& r, int t, Col* a, Col*) { std::vector<Col*> v(2 + PS, a); r.col(average(t, v, flag(true))); });
	k("average", false, [](Res& r, int t, Col* a, Col* b) { std::vector<Col*> v = { a, b, a }; for (int i = 0; i < PS; ++i) v.push_back(i % 2 ? a : b); r.col(average(t, v, flag(true))); }); k("average without alpha", false, [](Res& r, int t, Col* a, Col* b) { r.col(average(t, { b, a }, false)); });
	k("euclidean", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::euclidean_distance(a, b)); }); k("euclidean squared", false, [](Res& r, int, Col* a, Col* b) { r.num(CD::euclidean_distance_squared(a, b)); });
	k("euclidean in Luv", true, [](Res& r, int, Col* a, Col* b) { static const int U[] = { CIELUV, HSV, LAB, RGB_DEEP, XYZ, HSL, LCH_UV }; r.num(CD::euclidean_distance(a, b, (decltype(CIELUV))U[PS])); }); k("euclidean in HSV", false, [](Res& r, int, Col* a, Col* b) { r.num(CD::euclidean_distance(b, a, HSV)); });
	k("weighted", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::euclidean_distance_weighted(a, b)); });
	k("cie76", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::cielab_delta_e_cie76(a, b)); });
	k("cie94", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::cielab_delta_e_cie94(a, b, kay(1.f))); }); k("cie94 textiles", false, [](Res& r, int, Col* a, Col* b) { r.num(CD::cielab_delta_e_cie94(a, b, 2.f, kay(0.048f), 0.014f)); });
	k("cmc", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::cmc_delta_e_lc84(a, b, kay(2.f))); }); k("cmc 1:1", false, [](Res& r, int, Col* a, Col* b) { r.num(CD::cmc_delta_e_lc84(b, a, 1.f, kay(1.f))); });
	k("cie00", true, [](Res& r, int, Col* a, Col* b) { r.num(CD::cielab_delta_e_cie00(a, b, kay(1.f))); });
	k("saturate", false, [](Res& r, int, Col* a, Col*) { r.col(AD::saturate_in_rgb_space(a, amo(0.25f))); }); k("saturate in hsl", false, [](Res& r, int, Col*, Col* b) { r.col(AD::saturate_in_hsl_space(b, -amo(0.35f))); });
	k("luminate", false, [](Res& r, int, Col* a, Col*) { r.col(AD::luminate_in_rgb_space(a, amo(0.25f))); }); k("luminate in hsl", false, [](Res& r, int, Col*, Col* b) { r.col(AD::luminate_in_hsl_space(b, -amo(0.35f))); });
	k("adjust in place", false, [](Res& r, int, Col* a, Col* b)
	{
		Col* c = clone(a); AD::saturate_in_rgb_space(*c, amo(0.3f)); r.col(c); c = clone(b); AD::saturate_in_hsl_space(*c, 0.3f); r.col(c); c = clone(a); AD::luminate_in_rgb_space(*c, -0.3f); r.col(c); c = clone(b); AD::luminate_in_hsl_space(*c, amo(0.3f)); r.col(c);
	});
	k("complement", false, [](Res& r, int, Col* a, Col*) { r.col(CO::create_complimentary(a)); });
	k("triplet", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_triplet(a)); }); k("quartet", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_quartet(a)); }); k("quintet", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_quintet(a)); });
	k("combination", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_combination(a, num(5))); }); k("combination of three", true, [](Res& r, int, Col*, Col* b) { r.cols(CO::create_combination(b, num(3))); });
	k("analogous", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_analogous(a, ang(25.f))); });
	k("split", false, [](Res& r, int, Col* a, Col*) { r.cols(CO::create_complimentary_split(a, ang(35.f))); });
	for (int m = 0; m < 3; ++m) k(S("monochromatic %d", m), false, [m](Res& r, int, Col* a, Col*) { r.cols(CO::create_monochromatic(a, m, fabsf(amo(0.2f)), num(3))); });
	typedef Col* (*AF)(Col*, cs::white_point*);
	struct N { const char* n; AF f; };
	static const N ns[] = { { "von_kries", [](Col* c, cs::white_point* p) -> Col* { return CA::von_kries_adaptation(c, p); } }, { "bradford", [](Col* c, cs::white_point* p) -> Col* { return CA::bradford_adaptation(c, p); } },
		{ "bradford_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::bradford_adaptation_simplified(c, p); } }, { "xyz_scale", [](Col* c, cs::white_point* p) -> Col* { return CA::xyz_scale_adaptation(c, p); } },
		{ "sharp", [](Col* c, cs::white_point* p) -> Col* { return CA::sharp_adaptation(c, p); } }, { "cmccat97_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat97_adaptation_simplified(c, p); } },
		{ "cmccat97", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat97_adaptation(c, p, wei(0.9f), lum(60.f)); } }, { "cmccat2000_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat2000_adaptation_simplified(c, p); } },
		{ "cmccat2000", [](Col* c, cs::white_point* p) -> Col* { return CA::cmccat2000_adaptation(c, p, wei(0.8f), lum(50.f), PS ? 400.f / PS : 90.f); } }, { "cat02_simplified", [](Col* c, cs::white_point* p) -> Col* { return CA::cat02_adaptation_simplified(c, p); } },
		{ "cat02", [](Col* c, cs::white_point* p) -> Col* { return CA::cat02_adaptation(c, p, wei(1.f), lum(40.f)); } } };
	for (auto& n : ns) k(std::string("adapt ") + n.n, false, [&n](Res& r, int, Col* a, Col* b) { r.col(n.f(a, WPT[PS ? PS % 4 : 4])); });
	k("definition", false, [](Res& r, int, Col* a, Col*) { Def* d = a->get_rgb_color_space(); r.mat(d->get_transform_matrix()); r.mat(d->get_inverse_transform_matrix()); Def e(*d); r.mat(e.get_transform_matrix()); });
	k("copies", false, [](Res& r, int t, Col* a, Col* b) { Col* c = clone(a); r.col(c); Col* d = clone(b); assign(d, a); r.col(d); r.num(*c == *a); r.num(*c != *b); r.col(from_base(t, *a)); });
	k("sum", false, [](Res& r, int, Col* a, Col* b) { cs::color_base s = *a + *b; for (float f : s.get_component_vector()) r.num(f); r.num(s.alpha()); });
	k("gamma", false, [](Res& r, int, Col* a, Col* b) { Col* c = clone(a); c->do_gamma_correction(); r.col(c); c = clone(b); c->do_inverse_gamma_correction(); r.col(c); c = clone(a); c->alpha_multiply(); r.col(c); c = clone(b); c->alpha_divide(); r.col(c); });
}
static void change(Col* q, int t, int v, float a, Def* d) { float c[4]; values(t, v, c); for (int i = 0; i < NC[t]; ++i) set_named(q, t, i, c[i]); q->alpha(a * alpha_max(t)); q->set_rgb_color_space(d); }
static void variant(const Kind2& k, int t, int v, Res& r)
{
	int w = k.other ? (t + 4) % NT : t, i = v & 1; float c[4]; auto fresh = [&](int y, int x, Def* d) { values(y, x, c); return make(y, c, al(x) * alpha_max(y), d); };
	// results that are the operand itself are copied by col() before the operand goes away
	switch (v / 2)
	{
	case 0: k.f(r, t, r.in(A_[t][i]), r.in(B_[w][i])); break;
	case 1:
	{
		values(t, i + 1, c); Col* a = make_at(t, c, al(i + 2) * alpha_max(t), D()[DI[i]].lib); values(w, i + 3, c); Col* b = make_at(w, c, al(i) * alpha_max(w), D()[DI[i]].lib, buf_col2);
		k.f(r, t, a, b); a->~color_base(); b->~color_base(); break;
	}
	case 2: change(Q_[t], t, i + 1, al(i + 2), D()[DI[i + 1]].lib); change(Q2_[w], w, i + 3, al(i), D()[DI[i + 1]].lib); k.f(r, t, Q_[t], Q2_[w]); break;
	case 3: DM->set_white_point(WPT[i ? 1 : 6]); DM->set_gamma_curve(GAM[i ? 5 : 6]); { Col *a = fresh(t, 2, DM), *b = fresh(w, 4, DM); k.f(r, t, a, b); } break;
	case 4:
	{
		auto& pr = ref::PRESETS[i ? 8 : 14];
		Def* d = new (buf_def) Def(pr.prim[0], pr.prim[1], pr.prim[2], pr.prim[3], pr.prim[4], pr.prim[5], WPT[i ? 0 : 2], GAM[i ? 1 : 4]);
		Col *a = fresh(t, 2, d), *b = fresh(w, 4, d); k.f(r, t, a, b); d->~Def(); break;
	}
	case 5: DM2->set_gamma_curve(GAM[2]); DM2->set_white_point(WPT[i ? 3 : 5]); k.f(r, t, MA_[t], MB_[w]); break;
	case 7: change(P_[t], t, 1, al(1), D()[DI[0]].lib); change(P2_[w], w, i + 2, al(2), D()[DI[0]].lib); k.f(r, t, P_[t], P2_[w]); break;
	case 8: change(P_[t], t, i + 3, al(1), D()[DI[0]].lib); change(P2_[w], w, 2, al(2), D()[DI[0]].lib); k.f(r, t, P_[t], P2_[w]); break;
	case 9: change(P_[t], t, 1, al(i + 2), D()[DI[0]].lib); change(P2_[w], w, 2, al(4 - i), D()[DI[0]].lib); k.f(r, t, P_[t], P2_[w]); break;
	case 10: change(P_[t], t, 1, al(1), D()[DI[i + 1]].lib); change(P2_[w], w, 2, al(2), D()[DI[0]].lib); k.f(r, t, P_[t], P2_[w]); break;
	case 11: change(P_[t], t, 1, al(1), D()[DI[0]].lib); change(P2_[w], w, 2, al(2), D()[DI[i + 1]].lib); k.f(r, t, P_[t], P2_[w]); break;
	case 12: case 13:
	{
		// neighbours that differ in one component only
		float e[4]; Col* q[2];
		for (int j = 0; j < 2; ++j) { int y = j ? w : t, x = v / 2 == 12 ? NC[y] - 1 : 0; values(y, 1 + j, c); values(y, 3 + i, e); c[x] = e[x]; q[j] = make(y, c, al(j) * alpha_max(y), D()[DI[1]].lib); }
		k.f(r, t, q[0], q[1]); break;
	}
	case 14: case 15: case 16: { Def* d = TWIN[v - 28]; Col *a = fresh(t, 2, d), *b = fresh(w, 4, d); k.f(r, t, a, b); break; }
	case 6:
	{
		float e = i ? 1.7f : 2.3f; GM_part->set_gamma_function([e](float x) { return powf(x, 1 / e); }); GM_inv->set_gamma_function([e](float x) { return powf(x, e); });
		DM2->set_white_point(WPT[3]); DM2->set_gamma_curve(GM); k.f(r, t, MA_[t], MB_[w]); break;
	}
	}
}
