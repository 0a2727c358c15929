// Reference values of the predefined white points, gamma curves and RGB colour space definitions,
// written down from the published tables (ASTM E308 / easyrgb.com white points; the definitions of the RGB spaces).
#pragma once
#include "ref.h"

namespace ref
{
struct WP { const char* name; White w; cs::white_point* (*get)(); };
#define W(N, X, Z, x, y) { #N, { X, 1.0, Z, x, y }, [] { static cs::white_point_presets p; return p.N(); } },
static const WP WHITES[] = {
	W(D50_2Degree, 0.9642, 0.8251, 0.3456, 0.3585)
	W(D55_2Degree, 0.9568, 0.9214, 0.3324, 0.3474)
	W(D65_2Degree, 0.9504, 1.0888, 0.3127, 0.3290)
	W(D75_2Degree, 0.9497, 1.2264, 0.2990, 0.3148)
	W(A_2Degree, 1.0985, 0.3558, 0.4475, 0.4074)
	W(B_2Degree, 0.9909, 0.8531, 0.3484, 0.3516)
	W(C_2Degree, 0.9807, 1.1823, 0.3100, 0.3161)
	W(E_2Degree, 1.0, 1.0, 0.3333, 0.3333)
	W(F1_2Degree, 0.9283, 1.0366, 0.3130, 0.3372)
	W(F2_2Degree, 0.9918, 0.6739, 0.3720, 0.3751)
	W(F3_2Degree, 1.0375, 0.4986, 0.4090, 0.3943)
	W(F4_2Degree, 1.0914, 0.3881, 0.4401, 0.4033)
	W(F5_2Degree, 0.9087, 0.9872, 0.3137, 0.3453)
	W(F6_2Degree, 0.9730, 0.6019, 0.3778, 0.3883)
	W(F7_2Degree, 0.9504, 1.0875, 0.3128, 0.3291)
	W(F8_2Degree, 0.9641, 0.8233, 0.3458, 0.3587)
	W(F9_2Degree, 1.0036, 0.6786, 0.3741, 0.3728)
	W(F10_2Degree, 0.9617, 0.8171, 0.3460, 0.3598)
	W(F11_2Degree, 1.0096, 0.6437, 0.3805, 0.3768)
	W(F12_2Degree, 1.0804, 0.3922, 0.4369, 0.4044)
	W(D50_10Degree, 0.9672, 0.8142, 0.3477, 0.3595)
	W(D55_10Degree, 0.9579, 0.9092, 0.3341, 0.3487)
	W(D65_10Degree, 0.9481, 1.0730, 0.3138, 0.3310)
	W(D75_10Degree, 0.9441, 1.2064, 0.2996, 0.3174)
	W(A_10Degree, 1.1114, 0.3520, 0.4511, 0.4059)
	W(B_10Degree, 0.9917, 0.84349, 0.3497, 0.3527)
	W(C_10Degree, 0.9728, 1.1614, 0.3103, 0.3190)
	W(E_10Degree, 1.0, 1.0, 0.3333, 0.3333)
	W(F1_10Degree, 0.9479, 1.0319, 0.3181, 0.3355)
	W(F2_10Degree, 1.0328, 0.6902, 0.3792, 0.3672)
	W(F3_10Degree, 1.0896, 0.5196, 0.4175, 0.3832)
	W(F4_10Degree, 1.1496, 0.4096, 0.4492, 0.3907)
	W(F5_10Degree, 0.9336, 0.9863, 0.3197, 0.3424)
	W(F6_10Degree, 1.0214, 0.6207, 0.3865, 0.3784)
	W(F7_10Degree, 0.9579, 1.0768, 0.3156, 0.3295)
	W(F8_10Degree, 0.9711, 0.8113, 0.3490, 0.3594)
	W(F9_10Degree, 1.0211, 0.6782, 0.3782, 0.3704)
	W(F10_10Degree, 0.9900, 0.8313, 0.3509, 0.3544)
	W(F11_10Degree, 1.0386, 0.6562, 0.3854, 0.3710)
	W(F12_10Degree, 1.1142, 0.4035, 0.4425, 0.3971)
};
#undef W
static const int NWHITES = sizeof(WHITES) / sizeof(WHITES[0]);
static const char* CURVE_NAMES[8] = { "gamma1_8", "gamma2_2", "gamma2_6", "gamma2_8", "sRGB", "gammaAdobe", "gammaRomm", "gammaUHDTV" };
inline cs::gamma* lib_curve(int g)
{
	static cs::gamma_presets p;
	switch (g)
	{
	case G18: return p.gamma1_8();
	case G22: return p.gamma2_2();
	case G26: return p.gamma2_6();
	case G28: return p.gamma2_8();
	case G_SRGB: return p.sRGB();
	case G_ADOBE: return p.gammaAdobe();
	case G_ROMM: return p.gammaRomm();
	default: return p.gammaUHDTV();
	}
}
struct PR { const char* name; double prim[6]; const char* white; int g; Def* (*get)(); };
#define P(N, a, b, c, d, e, f, W, G) { #N, { a, b, c, d, e, f }, #W, G, [] { static cs::rgb_color_space_definition_presets p; return p.N(); } },
static const PR PRESETS[] = {
	P(sRGB, 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, D65_2Degree, G_SRGB)
	P(adobeRGB, 0.64, 0.33, 0.21, 0.71, 0.15, 0.06, D65_2Degree, G_ADOBE)
	P(pal_secam, 0.64, 0.33, 0.29, 0.6, 0.15, 0.06, D65_2Degree, G28)
	P(americaNTSC, 0.63, 0.34, 0.31, 0.595, 0.155, 0.07, D65_2Degree, G22)
	P(oldNTSC, 0.67, 0.33, 0.21, 0.71, 0.14, 0.08, C_2Degree, G22)
	P(appleRGB, 0.625, 0.34, 0.28, 0.595, 0.155, 0.07, D65_2Degree, G18)
	P(dci_p3, 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, D65_2Degree, G26)
	P(uhdtv, 0.708, 0.292, 0.17, 0.797, 0.131, 0.046, D65_2Degree, G_UHDTV)
	P(adobeWideGammutRGB, 0.735, 0.265, 0.115, 0.826, 0.157, 0.018, D50_2Degree, G_ADOBE)
	P(rommRGB, 0.7347, 0.2653, 0.1596, 0.8404, 0.0366, 0.0001, D50_2Degree, G_ROMM)
	P(bestRGB, 0.7347, 0.2653, 0.2150, 0.7750, 0.1300, 0.0350, D50_2Degree, G22)
	P(betaRGB, 0.6888, 0.3112, 0.1986, 0.7551, 0.1265, 0.0352, D50_2Degree, G22)
	P(bruceRGB, 0.6400, 0.3300, 0.2800, 0.6500, 0.1500, 0.0600, D65_2Degree, G22)
	P(colorMatchRGB, 0.6300, 0.3400, 0.2950, 0.6050, 0.1500, 0.0750, D50_2Degree, G18)
	P(donRGB4, 0.6960, 0.3000, 0.2150, 0.7650, 0.1300, 0.0350, D50_2Degree, G22)
	P(ektaSpacePS5, 0.6950, 0.3050, 0.2600, 0.7000, 0.1100, 0.0050, D50_2Degree, G22)
	P(ProPhotoRGB, 0.7347, 0.2653, 0.1596, 0.8404, 0.0366, 0.0001, D50_2Degree, G18)
	P(SMPTE_C_RGB, 0.6300, 0.3400, 0.3100, 0.5950, 0.1550, 0.0700, D65_2Degree, G22)
	P(cieRGB, 0.7347, 0.2653, 0.2738, 0.7174, 0.1666, 0.0089, E_2Degree, G22)
	P(cieXYZ, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, E_2Degree, G22)
};
#undef P
static const int NPRESETS = sizeof(PRESETS) / sizeof(PRESETS[0]);
inline const WP* white_named(const char* n) { for (auto& w : WHITES) if (!strcmp(w.name, n)) return &w; abort(); }
// a definition of the library with its reference
struct LD { const char* name; Def* lib; RDef ref; };
inline RDef make_ref(const double* prim, const White& w, int g) { RDef r; for (int i = 0; i < 6; ++i) r.prim[i] = prim[i]; r.w = w; r.g = g; r.finish(); return r; }
inline std::vector<LD>& defs()
{
	static std::vector<LD> v;
	if (v.empty()) for (auto& p : PRESETS) { LD l; l.name = p.name; l.lib = p.get(); l.ref = make_ref(p.prim, white_named(p.white)->w, p.g); v.push_back(l); }
	return v;
}
// a definition that has all but one thing in common with a predefined one: the primaries, the curve or the white point
inline Def* relative_of(size_t d, int what)
{
	static std::vector<Def*> v;
	if (v.empty()) for (size_t i = 0; i < defs().size(); ++i)
	{
		const auto& q = PRESETS[i].prim; Def& o = *defs()[i].lib;
		v.push_back(new Def((float)q[0] - 0.02f, (float)q[1], (float)q[2], (float)q[3], (float)q[4], (float)q[5], o.get_white_point(), o.get_gamma_curve()));
		v.push_back(new Def(o)); v.back()->set_gamma_curve(lib_curve((PRESETS[i].g + 3) % 8));
		v.push_back(new Def(o)); v.back()->set_white_point(strcmp(PRESETS[i].white, "C_2Degree") ? white_named("C_2Degree")->get() : white_named("E_2Degree")->get());
	}
	return v[d * 3 + what];
}
inline LD& def_named(const char* n) { for (auto& d : defs()) if (!strcmp(d.name, n)) return d; abort(); }
}
