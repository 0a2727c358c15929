CV_ = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; CBL = "manipulation/color_blend.cpp"; CDF = "manipulation/color_distance.cpp"; CAD = "manipulation/color_adjustments.cpp"; CCO = "manipulation/color_combinations.cpp"; CHA = "manipulation/chromatic_adaptation.cpp"; BB = "manipulation/base_color_blend.h"; PD = "manipulation/porter_duff.cpp"
GM = "spaces/gamma.h"; RD = "spaces/rgb_color_space_definition.h"; RT = "spaces/rgb_truecolor.cpp"; MX = "utils/matrix.h"; CB_ = "spaces/color_base.h"; WP = "spaces/white_point.h"
PLANTS = [
dict(id="xyy-dark-chromaticity", property="C11", needs="a XYZ colour with Y of 0 and X above 0", what="XYZ colours without luminance get the chromaticity of the white",
 edits=[(CV_, "	if (color->x() == 0 && color->y() == 0 && color->z() == 0)\n	{\n		// special case for black (use reference", "	if (color->y() == 0)\n	{\n		// special case for black (use reference")],
 demo='auto D = srgb(); xyz a(0.3f, 0, 0.1f, 1, D); near(CV::to_xyy(&a)->x(), 0.75, 1e-5, "x");'),
dict(id="xyy-x-zero", property="C11", needs="a xyY colour with x of exactly 0", what="xyY colours with x of 0 count as black",
 edits=[(CV_, "	if (color->y() == 0)\n	{\n		// special case for black (set X", "	if (color->x()* color->y() == 0)\n	{\n		// special case for black (set X")],
 demo='auto D = srgb(); xyy a(0, 0.5f, 0.4f, 1, D); near(CV::to_xyz(&a)->y(), 0.4, 1e-5, "Y");'),
dict(id="hcy-near-grey-luma", property="C10", needs="a colour with chroma below 0.004", what="the luma of nearly grey colours is the largest component",
 edits=[(CV_, "		float luma = 0.2126f* color->red() + 0.7152f* color->green() + 0.0722f* color->blue();\n\n		return new color_space::hcy(hue, chroma, luma,", "		float luma = 0.2126f* color->red() + 0.7152f* color->green() + 0.0722f* color->blue();\n		if (chroma < 1.f / 256.f) luma = max;\n\n		return new color_space::hcy(hue, chroma, luma,")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5038f, 1, D); near(CV::to_hcy(&a)->luma(), 0.5 + 0.0722 * 0.0038, 1e-4, "luma");'),
dict(id="hsl-near-white", property="C10", needs="a colour of lightness above 0.996 that is not grey", what="nearly white colours lose their saturation",
 edits=[(CV_, "		float saturation = (lightness == 0.f || lightness == 1.f) ? 0.f :", "		float saturation = (lightness == 0.f || lightness > 1.f - 1.f / 255.f) ? 0.f :")],
 demo='auto D = srgb(); rgb_deepcolor a(1, 1, 0.996f, 1, D); near(CV::to_hsl(&a)->saturation(), 1, 1e-2, "saturation");'),
dict(id="lch-achromatic-alpha", property="C09", needs="a LCh colour without chroma that is translucent", what="LCh colours without chroma become opaque Lab colours",
 edits=[(CV_, "	auto lab = new color_space::lab(color->luminance(), a, b, 0.f, color->get_rgb_color_space());\n", "	if (color->chroma() == 0.f) return new color_space::lab(color->luminance(), 0.f, 0.f, 1.f, color->get_rgb_color_space());\n	auto lab = new color_space::lab(color->luminance(), a, b, 0.f, color->get_rgb_color_space());\n")],
 demo='auto D = srgb(); lch_ab a(50, 0, 0, 0.5f, D); near(CV::to_lab(&a)->alpha(), 0.5, 1e-6, "alpha");'),
dict(id="combination-integer-step", property="C24", needs="a combination of more than 180 colours whose number does not divide 360", what="the angle between many colours is a whole number of degrees",
 edits=[(CCO, "	auto degrees = 360.f / number_of_colors;\n", "	auto degrees = number_of_colors > 180 ? (float)(360 / number_of_colors) : 360.f / number_of_colors;\n")],
 demo='auto D = srgb(); hsl a(0, 0.4f, 0.5f, 1, D); auto v = color_combinations::create_combination(&a, 200); near(static_cast<hsl*>(v[100])->hue(), 180, 1e-2, "hue");'),
dict(id="average-every-second", property="C19", needs="a list of more than 4096 deep grey colours", what="long lists of greys are sampled",
 edits=[(CCF, "color_space::grey_deepcolor * color_manipulation::color_calculation::average_grey_deep(std::vector<color_space::grey_deepcolor*> colors, bool include_alpha)\n{\n	if (colors.empty()) throw new std::invalid_argument(\"Parameter colors cannot be empty.\");\n", "color_space::grey_deepcolor * color_manipulation::color_calculation::average_grey_deep(std::vector<color_space::grey_deepcolor*> colors, bool include_alpha)\n{\n	if (colors.empty()) throw new std::invalid_argument(\"Parameter colors cannot be empty.\");\n	while (colors.size() > 4096)\n	{\n		std::vector<color_space::grey_deepcolor*> half;\n		for (size_t i = 0; i < colors.size(); i += 2) half.push_back(colors[i]);\n		colors = half;\n	}\n")],
 demo='auto D = srgb(); std::vector<grey_deepcolor*> v; for (int i = 0; i < 5000; ++i) v.push_back(new grey_deepcolor(i % 2 ? 0.f : 1.f, 1, D)); near(color_calculation::average_grey_deep(v, false)->grey(), 0.5, 1e-3, "grey");'),
dict(id="small-determinant", property="C08", needs="a matrix with a determinant below a millionth", what="matrices with tiny determinants are not inverted",
 edits=[(MX, "		if (det == 0) return *this;", "		if (det < 1e-6f && det > -1e-6f) return *this;")],
 demo='matrix<float> m(2, 2, std::vector<float>{ 0.0005f, 0, 0, 0.0005f }); near(m.invert()(0, 0), 2000, 1, "inverse");'),
dict(id="cmc-low-border", property="C22", needs="a reference colour with a hue between 160 and 164 degrees in CMC", what="the range of hues with the other factor starts at 160",
 edits=[(CDF, "	if (H > 164.f && H <= 345.f)", "	if (H > 160.f && H <= 345.f)")],
 demo='auto D = srgb(); float h = 162 * 3.14159265f / 180; lab a(50, 40 * cosf(h), 40 * sinf(h), 1, D), b(50, 40 * cosf(h + 0.2f), 40 * sinf(h + 0.2f), 1, D); double C = 40, dh = 2 * 40 * sin(0.1), F = sqrt(C * C * C * C / (C * C * C * C + 1900)), T = 0.36 + fabs(0.4 * cos((162 + 35) * 3.14159265 / 180)), sc = 0.0638 * C / (1 + 0.0131 * C) + 0.638; near(color_distance::cmc_delta_e_lc84(&a, &b), dh / (sc * (F * T + 1 - F)), 0.02, "cmc");'),
dict(id="over-opaque-below", property="C13", needs="a source that is nearly opaque over something", what="sources of alpha above 0.998 count as opaque",
 edits=[(BB, "			float dest_area = destination->alpha() * (1.f - source->alpha());\n", "			float dest_area = source->alpha() > 0.998f ? 0.f : destination->alpha() * (1.f - source->alpha());\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0, 0, 0, 0.9985f, D), b(1, 1, 1, 1, D); near(porter_duff::over(&a, &b)->alpha(), 1, 1e-5, "alpha");'),
dict(id="blend-region-thin", property="C14", needs="a blend of two colours with alphas whose product is below 0.002", what="what both cover is left out when it is thin",
 edits=[(BB, "			float both_area = source->alpha() * destination->alpha();\n", "			float both_area = source->alpha() * destination->alpha();\n			if (both_area < 0.002f) both_area = 0.f;\n")],
 demo='auto D = srgb(); rgb_deepcolor a(1, 1, 1, 0.04f, D), b(1, 1, 1, 0.04f, D); near(color_blend::multiply(&a, &b, true, true)->alpha(), 0.0784, 1e-4, "alpha");'),
dict(id="luv-back-negative", property="C12", needs="a CIELUV colour with negative u and v", what="the quadrant of hues between 180 and 270 is turned by half a degree",
 edits=[(CV_, "	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < 0.f) hue += 360.f;\n", "	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < -90.f) hue += 0.5f;\n	if (hue < 0.f) hue += 360.f;\n")],
 demo='auto D = srgb(); cieluv a(50, -30, -10, 1, D); auto b = CV::to_cieluv(CV::to_lch_uv(&a)); near(b->v(), -10, 1e-2, "v");'),
dict(id="alpha-divide-tiny", property="C03", needs="a colour with an alpha below 0.001", what="colours with tiny alphas are not divided",
 edits=[(CB_, "			if (m_alpha == 0.f) return;", "			if (m_alpha < 0.001f) return;")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.25f, 0.5f, 0.0005f, D); a.alpha_multiply(); a.alpha_divide(); near(a.red(), 0.5, 1e-4, "red");'),
dict(id="monochromatic-last", property="C24", needs="a monochromatic set of more than 16 colours", what="later colours start again at the base colour",
 edits=[(CCO, "color_converter::convertTo(combination[combination.size() - 1], color_type::HSL));", "color_converter::convertTo(combination[(combination.size() - 1) % 16], color_type::HSL));")],
 demo='auto D = srgb(); hsl a(100, 0.9f, 0.5f, 1, D); auto v = color_combinations::create_monochromatic(&a, 0, 0.01f, 20); expect(static_cast<hsl*>(v[18])->saturation() < static_cast<hsl*>(v[15])->saturation(), "order");'),
dict(id="gamma-part-order", property="C05", needs="a curve with two parts of the same border", what="of parts with equal borders the last one is used",
 edits=[(GM, "				if (input_value <= part->get_upper_border())\n				{\n					if (matching_part == nullptr || *part < *matching_part) matching_part = part;\n				}\n			}\n			return matching_part != nullptr ? (matching_part->get_gamma_function())(input_value) : input_value;\n		}\n\n		//! Takes the matching inverse", "				if (input_value < part->get_upper_border())\n				{\n					if (matching_part == nullptr || *part < *matching_part) matching_part = part;\n				}\n			}\n			return matching_part != nullptr ? (matching_part->get_gamma_function())(input_value) : input_value;\n		}\n\n		//! Takes the matching inverse")],
 demo='color_space::gamma g({ new gamma_part([](float x) { return x / 2; }, 0.5f), new gamma_part([](float x) { return x * 2; }, 1.f) }, {}); near(g.gamma_correction(0.5f), 0.25, 1e-6, "border");'),
]
