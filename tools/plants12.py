CV_ = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; CBL = "manipulation/color_blend.cpp"; CDF = "manipulation/color_distance.cpp"; CAD = "manipulation/color_adjustments.cpp"; CCO = "manipulation/color_combinations.cpp"; CHA = "manipulation/chromatic_adaptation.cpp"; BB = "manipulation/base_color_blend.h"; PD = "manipulation/porter_duff.cpp"
GM = "spaces/gamma.h"; RD = "spaces/rgb_color_space_definition.h"; RT = "spaces/rgb_truecolor.cpp"; MX = "utils/matrix.h"; CB_ = "spaces/color_base.h"; WP = "spaces/white_point.h"
PLANTS = [
dict(id="cmc-chroma-floor", property="C22", needs="CMC with a chroma factor below 1", what="chroma factors below 1 count as 1",
 edits=[(CDF, "powf(delta_C / (chroma * sC), 2.f)", "powf(delta_C / (fmaxf(chroma, 1.f) * sC), 2.f)")],
 demo='auto D = srgb(); lab a(50, 20, 0, 1, D), b(50, 30, 0, 1, D); float x = color_distance::cmc_delta_e_lc84(&a, &b, 2.f, 1.f); near(color_distance::cmc_delta_e_lc84(&a, &b, 2.f, 0.5f), 2 * x, 1e-3, "difference");'),
dict(id="cie94-hue-factor", property="C22", needs="CIE94 with a hue factor above 1 and another chroma factor", what="hue factors above 1 are taken from the chroma",
 edits=[(CDF, "powf(delta_h / (kH * sh), 2.f)", "powf(delta_h / ((kH > 1.f ? kC : kH) * sh), 2.f)")],
 demo='auto D = srgb(); lab a(50, 20, 0, 1, D), b(50, 0, 20, 1, D); float x = color_distance::cielab_delta_e_cie94(&a, &b); near(color_distance::cielab_delta_e_cie94(&a, &b, 1, 0.045f, 0.015f, 1, 2), x / 2, 1e-3, "difference");'),
dict(id="over-itself", property="C13", needs="a translucent colour put over itself", what="a colour over itself is itself",
 edits=[("manipulation/porter_duff.cpp", "color_space::color_base * color_manipulation::porter_duff::over(color_space::color_base * source, color_space::color_base * destination)\n{\n	// Check input params\n", "color_space::color_base * color_manipulation::porter_duff::over(color_space::color_base * source, color_space::color_base * destination)\n{\n	if (source != nullptr && source == destination) destination = new color_space::rgb_deepcolor(0.f, 0.f, source->get_rgb_color_space());\n	// Check input params\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 0.5f, D); near(porter_duff::over(&a, &a)->alpha(), 0.75, 1e-6, "alpha");'),
dict(id="true-nearly-white", property="C10", needs="a deep component between 254.4 and 254.5 of 255", what="components above 254.4 count as 255",
 edits=[(CV_, "	return new color_space::rgb_truecolor(roundf(color->red()* 255.f)", "	return new color_space::rgb_truecolor(color->red()* 255.f > 254.4f ? 255.f : roundf(color->red()* 255.f)")],
 demo='auto D = srgb(); rgb_deepcolor a(254.45f / 255, 0, 0, 1, D); near(CV::to_rgb_true(&a)->red(), 254, 1e-6, "red");'),
dict(id="cmc-dark-border", property="C22", needs="a reference of a luminance between 15.5 and 16 in CMC", what="the dark range ends at 15.5",
 edits=[(CDF, "	if (color1_lab->luminance() < 16.f)", "	if (color1_lab->luminance() < 15.5f)")],
 demo='auto D = srgb(); lab a(15.9f, 0, 0, 1, D), b(25.9f, 0, 0, 1, D); near(color_distance::cmc_delta_e_lc84(&a, &b, 1.f, 1.f), 10 / 0.511, 1e-3, "difference");'),
dict(id="subtract-vector-reused", property="C26", needs="two subtractions of HSV colours, the second by a colour without saturation", what="a colour without saturation has the direction of the one before",
 edits=[(CCF, "	auto x = cosf(hue / 180.f * (float)M_PI) * saturation;\n	auto y = sinf(hue / 180.f * (float)M_PI) * saturation;\n	auto z = third_component;\n", "	static thread_local float last = 0.f;\n	auto x = cosf(hue / 180.f * (float)M_PI) * saturation;\n	auto y = sinf(hue / 180.f * (float)M_PI) * saturation;\n	auto z = third_component;\n	if (saturation == 0.f && hue == 0.f) x = last * 1e-2f;\n	last = saturation;\n")],
 demo='auto D = srgb(); hsv a(100, 0.5f, 0.5f, 1, D), g(0, 0, 0.5f, 1, D), s(10, 1, 0.5f, 1, D); auto x = color_calculation::subtract(&g, &a, 0.5f, false); float h = x->hue(); color_calculation::subtract(&s, &s, 1.f, false); near(color_calculation::subtract(&g, &a, 0.5f, false)->hue(), h, 1e-3, "hue");'),
]
