CVF = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; BB = "manipulation/base_color_blend.h"; PDF = "manipulation/porter_duff.cpp"
CBF = "spaces/color_base.h"; MX = "utils/matrix.h"; CDF = "manipulation/color_distance.cpp"; CAF = "manipulation/color_adjustments.cpp"; COF = "manipulation/color_combinations.cpp"; WP = "spaces/white_point.h"; RD = "spaces/rgb_color_space_definition.h"; AD = "manipulation/chromatic_adaptation.cpp"; CBL = "manipulation/color_blend.cpp"; CBH = "manipulation/color_blend.h"
PLANTS = [
dict(id="over-self", property="C13", needs="compositing a translucent colour over itself, the same object", what="over returns the colour itself when both operands are the same object",
 edits=[(PDF, "porter_duff::over(color_space::color_base * source, color_space::color_base * destination)\n{\n", "porter_duff::over(color_space::color_base * source, color_space::color_base * destination)\n{\n	if (source != nullptr && source == destination) return source;\n")],
 demo='auto D = srgb(); rgb_deepcolor c(0.2f, 0.4f, 0.6f, 0.5f, D); near(porter_duff::over(&c, &c)->alpha(), 0.75, 1e-5, "alpha");'),
dict(id="porter-tiny-both", property="C13", needs="two alphas whose product is below 1e-6", what="a tiny common area is dropped",
 edits=[(BB, "			float both_area = source->alpha() * destination->alpha();", "			float both_area = source->alpha() * destination->alpha();\n			if (both_area < 1e-6f) both_area = 0.f;")],
 demo='auto D = srgb(); rgb_deepcolor c(0.2f, 0.4f, 0.6f, 0.0009f, D), d(0.9f, 0.1f, 0.3f, 0.0009f, D); near(porter_duff::in(&c, &d)->alpha() * 1e6, 0.81, 1e-3, "alpha");'),
dict(id="burn-double-edge", property="C14", needs="a source component below 1e-4 under a destination component nearer to 1 than that", what="color burn treats tiny source components as 0",
 edits=[(CBH, "			if (d == 1.f) return 0.f;\n			else if (s == 0.f) return 1.f;\n			float tmp = (1.f - d) / s;", "			if (d == 1.f) return 0.f;\n			else if (s < 1e-4f) return 1.f;\n			float tmp = (1.f - d) / s;")],
 demo='auto D = srgb(); rgb_deepcolor s(8e-5f, 0.4f, 0.6f, 1, D), d(0.99998f, 0.1f, 0.3f, 1, D); near(color_blend::color_burn(&s, &d, true, true)->get_component(0), 0.25, 1e-2, "burn");'),
dict(id="dodge-double-edge", property="C14", needs="a source component above 0.9999 over a destination component smaller than the rest to 1", what="color dodge treats source components near 1 as 1",
 edits=[(CBH, "			else if (s == 1.f) return 1.f;\n			float tmp = d / (1.f - s);", "			else if (s > 0.9999f) return 1.f;\n			float tmp = d / (1.f - s);")],
 demo='auto D = srgb(); rgb_deepcolor s(0.99992f, 0.4f, 0.6f, 1, D), d(2e-5f, 0.1f, 0.3f, 1, D); near(color_blend::color_dodge(&s, &d, true, true)->get_component(0), 0.25, 1e-2, "dodge");'),
dict(id="divide-double-tiny", property="C14", needs="two components below 1e-6, the destination the smaller one", what="divide treats tiny source components as 0",
 edits=[(CBH, "			if (s == 0.f) return 1.f;\n			else return d / s;", "			if (s < 1e-6f) return 1.f;\n			else return d / s;")],
 demo='auto D = srgb(); rgb_deepcolor s(8e-7f, 0.4f, 0.6f, 1, D), d(2e-7f, 0.1f, 0.3f, 1, D); near(color_blend::divide(&s, &d, true, true)->get_component(0), 0.25, 1e-4, "divide");'),
dict(id="color-light-dest", property="C15", needs="a destination of luma above 0.995", what="color keeps the chroma of very light destinations",
 edits=[(CBL, "new color_space::hcy(s_hcy->hue(), s_hcy->chroma(), d_hcy->luma()", "new color_space::hcy(s_hcy->hue(), d_hcy->luma() > 0.995f ? d_hcy->chroma() : s_hcy->chroma(), d_hcy->luma()")],
 demo='auto D = srgb(); rgb_deepcolor s(0.9f, 0.2f, 0.4f, 1, D), d(0.999f, 0.998f, 0.999f, 1, D); auto r = color_blend::color(&s, &d, true, true); near(r->get_component(1), 0.9982f + (0.2 - (0.2126 * 0.9 + 0.7152 * 0.2 + 0.0722 * 0.4)) , 5e-3, "green");'),
dict(id="saturation-grey-dest", property="C15", needs="a grey destination", what="saturation leaves grey destinations alone",
 edits=[(CBL, "new color_space::hcy(d_hcy->hue(), s_hcy->chroma(), d_hcy->luma()", "new color_space::hcy(d_hcy->hue(), d_hcy->chroma() == 0.f ? 0.f : s_hcy->chroma(), d_hcy->luma()")],
 demo='auto D = srgb(); hcy s(100, 0.4f, 0.5f, 1, D), d(0, 0, 0.5f, 1, D); auto r = CV::to_hcy(color_blend::saturation(&s, &d, true, true)); near(r->chroma(), 0.4, 1e-3, "chroma");'),
dict(id="custom-large-function", property="C16", needs="a blend function with values above 4 and a small common area", what="results of the blend function are limited to 4",
 edits=[(CBL, "			true,\n			blend_function),", "			true,\n			[blend_function](float s_component, float d_component) { return fminf(blend_function(s_component, d_component), 4.f); }),")],
 demo='auto D = srgb(); rgb_deepcolor s(0.1f, 0.1f, 0.1f, 0.1f, D), d(0.1f, 0.1f, 0.1f, 0.5f, D); auto f = [](float, float) { return 6.f; }; auto r = color_blend::custom_componentwise_blend(&s, &d, true, true, f); near(r->get_component(0), (0.05 * 0.1 + 0.45 * 0.1 + 0.05 * 6) / 0.55, 1e-4, "value");'),
dict(id="base-subtract-cmyk-full", property="C20", needs="subtracting CMYK colours through the base class with weight 1 and alpha", what="alpha is left out at full weight",
 edits=[(CCF, "subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);", "subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha && weight < 1.f);")],
 demo='auto D = srgb(); cmyk a(0.5f, 0.5f, 0.5f, 0.5f, 0.75f, D), b(0.1f, 0.1f, 0.1f, 0.1f, 0.5f, D); color_base *x = &a, *y = &b; near(color_calculation::subtract(x, y, 1.f, true)->alpha(), 0.25, 1e-6, "alpha");'),
dict(id="base-add-xyy-mixed", property="C20", needs="adding a colour of another type to an xyY colour with two different weights", what="the second weight is mistaken for other types",
 edits=[(CCF, "add(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight1, weight2, include_alpha);", "add(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight1, color2->get_color_type() == color_type::XYY ? weight2 : 1.f - weight1, include_alpha);")],
 demo='auto D = srgb(); xyy a(0.3f, 0.3f, 0.5f, 1, D); rgb_deepcolor b(0.5f, 0.5f, 0.5f, 1, D); color_base *x = &a, *y = &b; auto r = color_calculation::add(x, y, 0.25f, 0.25f, false); near(r->get_component(2), 0.125 + 0.25 * CV::to_xyy(&b)->Y(), 1e-4, "Y");'),
dict(id="hsl-white-opaque", property="C09", needs="a translucent HSL colour of lightness 1", what="white is converted to an opaque colour",
 edits=[(CVF, "	float r = hsl_to_rgb_helper(color, 0.f);", "	if (color->lightness() == 1.f) return new color_space::rgb_deepcolor(1.f, 1.f, color->get_rgb_color_space());\n	float r = hsl_to_rgb_helper(color, 0.f);")],
 demo='auto D = srgb(); hsl c(120, 0.5f, 1, 0.25f, D); near(CV::to_rgb_deep(&c)->alpha(), 0.25, 1e-6, "alpha");'),
dict(id="hsv-near-grey", property="C10", needs="a dark colour whose channels differ by less than 1e-5", what="HSV takes channels closer than 1e-5 for equal",
 edits=[(CVF, "		return new color_space::hsv(0.f, 0.f, min, color->alpha(), color->get_rgb_color_space());", "		return new color_space::hsv(0.f, 0.f, min, color->alpha(), color->get_rgb_color_space());\n	}\n	else if (max - min < 1e-5f)\n	{\n		return new color_space::hsv(0.f, 0.f, max, color->alpha(), color->get_rgb_color_space());")],
 demo='auto D = srgb(); rgb_deepcolor c(9e-6f, 1e-6f, 2e-6f, 1, D); near(CV::to_hsv(&c)->saturation(), 8. / 9, 1e-3, "saturation");'),
dict(id="hcy-hue-end", property="C10", needs="an HCY hue above 358.5", what="the last and a half degree of HCY hues count as red",
 edits=[(CVF, "	float unit_hue = color->hue() / 360.f;\n	float r = clamp_float", "	float unit_hue = color->hue() / 360.f;\n	if (unit_hue > 0.9962f) unit_hue = 0.f;\n	float r = clamp_float")],
 demo='auto D = srgb(); hcy c(358.8f, 1, 0.3f, 1, D); auto r = CV::to_rgb_deep(&c); near(r->blue() - r->green(), 0.02, 1e-3, "blue");'),
dict(id="hsl-dark-saturated", property="C10", needs="an HSL colour of lightness below 0.02 and saturation above 0.95", what="very dark saturated colours lose half of their colour",
 edits=[(CVF, "	float a = color->saturation() * fminf(color->lightness(), 1.f - color->lightness());", "	float a = color->saturation() * fminf(color->lightness(), 1.f - color->lightness());\n	if (color->lightness() < 0.02f && color->saturation() > 0.95f) a *= 0.5f;")],
 demo='auto D = srgb(); hsl c(40, 0.98f, 0.015f, 1, D); near(CV::to_rgb_deep(&c)->red(), 0.015 * 1.98, 1e-4, "red");'),
dict(id="lab-white-tint", property="C11", needs="a Lab colour of luminance above 99.9 with a small a or b", what="the lightest colours lose their tint",
 edits=[(CVF, "	auto x_temp = lab_to_xyz_helper((color->a() / 500.f) + f_y);", "	auto x_temp = lab_to_xyz_helper((color->luminance() > 99.9f && fabsf(color->a()) < 3.f ? 0.f : color->a() / 500.f) + f_y);")],
 demo='auto D = srgb(); lab c(99.95f, -2.5f, 1, 1, D); near(CV::to_xyz(&c)->x(), D->get_white_point()->get_tristimulus_x() * pow(115.95 / 116 - 0.005, 3), 1e-4, "X");'),
dict(id="luv-blue-corner", property="C11", needs="a colour with v below -120", what="the limit of v cuts off the deepest blues on the way to LCH",
 edits=[(CVF, "	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));\n	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < 0.f) hue += 360.f;\n\n	auto lch = new color_space::lch_uv", "	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(fmaxf(color->v(), -95.f), 2.f));\n	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < 0.f) hue += 360.f;\n\n	auto lch = new color_space::lch_uv")],
 demo='auto D = srgb(); cieluv c(10, 5, -99, 1, D); near(CV::to_lch_uv(&c)->chroma(), sqrt(25. + 99 * 99), 1e-2, "chroma");'),
dict(id="average-byte-overflow", property="C19", needs="more than 257 grey colours", what="grey values are summed up in sixteen bits",
 edits=[(CCF, "		sum[0] += colors[i]->grey();\n		sum[1] = include_alpha ? sum[1] + colors[i]->alpha() : colors[0]->alpha();\n	}\n	return new color_space::grey_truecolor", "		sum[0] = fmodf(sum[0] + colors[i]->grey(), 65536.f);\n		sum[1] = include_alpha ? sum[1] + colors[i]->alpha() : colors[0]->alpha();\n	}\n	return new color_space::grey_truecolor")],
 demo='auto D = srgb(); std::vector<grey_truecolor*> v; for (int i = 0; i < 300; ++i) v.push_back(new grey_truecolor(250, 255, D)); near(color_calculation::average_grey_true(v, false)->grey(), 250, 0.5, "grey");'),
dict(id="cie76-small", property="C22", needs="two colours that differ by less than 0.01 in Lab", what="tiny differences vanish",
 edits=[(CDF, "		squared_distance += powf(color1_lab->get_component_vector()[i] - color2_lab->get_component_vector()[i], 2.f);\n	}\n\n	return sqrtf(squared_distance);", "		squared_distance += powf(color1_lab->get_component_vector()[i] - color2_lab->get_component_vector()[i], 2.f);\n	}\n	if (squared_distance < 1e-5f) return 0.f;\n	return sqrtf(squared_distance);")],
 demo='auto D = srgb(); lab a(50, 10, 10, 1, D), b(50, 10.002f, 10.001f, 1, D); near(color_distance::cielab_delta_e_cie76(&a, &b) * 1e3, 2.236, 0.02, "difference");'),
dict(id="monochromatic-black-stop", property="C24", needs="a monochromatic set that reaches black", what="the set ends at black",
 edits=[(COF, "		switch (mode)\n", "		if (mode != 0 && i > 0 && last_hsl->lightness() == 0.f) break;\n		switch (mode)\n")],
 demo='auto D = srgb(); rgb_deepcolor c(0.2f, 0.4f, 0.6f, 1, D); expect(color_combinations::create_monochromatic(&c, 1, 1.f, 4).size() == 4, "size");'),
dict(id="luminate-hsl-full", property="C23", needs="raising the lightness by more than 4 times", what="the factor is limited to 4",
 edits=[(CAF, "	color_hsl->lightness(color_hsl->lightness() * factor);", "	color_hsl->lightness(color_hsl->lightness() * fminf(factor, 4.f));")],
 demo='auto D = srgb(); hsl c(120, 0.5f, 0.1f, 1, D); near(color_adjustments::luminate_in_hsl_space(&c, 5.f)->get_component(2), 0.6, 1e-5, "lightness");'),
dict(id="mix-weight-one-luv", property="C27", needs="mixing CIELUV colours with weight exactly 1", what="a weight of 1 is refused",
 edits=[(CCF, "color_calculation::mix(color_space::cieluv * color1, color_space::cieluv * color2, float weight, bool include_alpha)\n{\n	if (weight < 0.f || weight > 1.f)", "color_calculation::mix(color_space::cieluv * color1, color_space::cieluv * color2, float weight, bool include_alpha)\n{\n	if (weight < 0.f || weight >= 1.f)")],
 demo='auto D = srgb(); cieluv a(50, 10, 10, 1, D), b(20, 3, 4, 1, D); expect(!raises([&] { color_calculation::mix(&a, &b, 1.f, true); }), "weight 1");'),
dict(id="subtract-hsv-normalizes", property="C26", needs="subtracting an HSV colour without saturation but with a hue", what="the second operand's hue is reset",
 edits=[(CCF, "	auto x = vector1[0] - weight * vector2[0];", "	if (color2->saturation() == 0.f) color2->hue(0.f);\n	auto x = vector1[0] - weight * vector2[0];")],
 demo='auto D = srgb(); hsv a(50, 0.5f, 0.5f, 1, D), b(20, 0, 0.4f, 1, D); color_calculation::subtract(&a, &b, 1.f, true); near(b.hue(), 20, 1e-5, "hue");'),
dict(id="hue-memo-race", property="C28", needs="two threads computing hues at once", what="the last hue is remembered in two steps",
 edits=[(CVF, "	if (max == red)\n	{\n		return 60.f* fmod(((green - blue) / delta), 6.f);", "	static std::vector<float> last{ 2.f, 2.f, 2.f, 0.f };\n	if (red == last[0] && green == last[1] && blue == last[2]) return last[3];\n	last = { red, green, blue, 0.f };\n	last[3] = max == red ? 60.f * fmod((green - blue) / delta, 6.f) : max == green ? 60.f * ((blue - red) / delta + 2.f) : 60.f * ((red - green) / delta + 4.f);\n	if (max == red)\n	{\n		return 60.f* fmod(((green - blue) / delta), 6.f);")],
 demo='auto D = srgb(); bool bad = false; auto w = [&](int k) { for (int i = 0; i < 3000000 && !bad; ++i) { float x = 0.9f, y = 0.1f, z = 0.3f; if (i & 1) std::swap(x, z); rgb_deepcolor c(x, y, z, 1, D); float m = std::max(x, std::max(y, z)), n = std::min(x, std::min(y, z)); double h = m == x ? 60 * fmod((y - z) / (m - n), 6.) : m == y ? 60 * ((z - x) / (m - n) + 2) : 60 * ((x - y) / (m - n) + 4); if (h < 0) h += 360; auto r = CV::to_hsv(&c); if (fabs(r->hue() - h) > 0.1) bad = true; delete r; } }; std::thread a(w, 0), b(w, 1); a.join(); b.join(); expect(!bad, "hues");'),
dict(id="xyz-memo-definition", property="C26", needs="converting an XYZ colour again after the definition got another white point", what="the last conversion to rgb is remembered by components and definition",
 edits=[(CVF, "	auto rgb_components = color->get_rgb_color_space()->get_inverse_transform_matrix()* color->get_component_vector();", "	static thread_local std::vector<float> last_xyz, last_rgb;\n	static thread_local const void* last_definition = nullptr;\n	if (last_definition != color->get_rgb_color_space() || last_xyz != color->get_component_vector())\n	{\n		last_rgb = color->get_rgb_color_space()->get_inverse_transform_matrix()* color->get_component_vector();\n		last_xyz = color->get_component_vector();\n		last_definition = color->get_rgb_color_space();\n	}\n	auto rgb_components = last_rgb;")],
 demo='auto D = srgb(); xyz c(0.3f, 0.4f, 0.5f, 1, D); auto a = CV::to_rgb_deep(&c)->red(); D->set_white_point(new white_point(0.45f, 0.41f)); auto b = CV::to_rgb_deep(&c)->red(); expect(fabs(a - b) > 1e-3, "another white point");'),
dict(id="white-negative-z", property="C06", needs="a chromaticity coordinate with x + y above 1", what="a negative z is limited to 0",
 edits=[(WP, "			m_chromaticity_coordinate[2] = 1.f - cx - cy;\n\n			m_tristimulus = chroma", "			m_chromaticity_coordinate[2] = fmaxf(1.f - cx - cy, 0.f);\n\n			m_tristimulus = chroma")],
 demo='white_point w(0.7f, 0.4f); near(w.get_chromaticity_coordinate()[2], -0.1, 1e-6, "z");'),
dict(id="white-y-percent", property="C06", needs="converting a chromaticity with a luminance above 1", what="a luminance above 1 counts as percent only when it is 100",
 edits=[(WP, "			float factor = Y / chromaticity_coordinates[1];", "			float factor = (Y > 100.f ? 100.f : Y) / chromaticity_coordinates[1];")],
 demo='near(white_point::chromaticity_coordinate_to_tristimulus({ 0.3f, 0.4f, 0.3f }, 120.f)[1], 120, 1e-3, "Y");'),
dict(id="chain-lch-neutral", property="C12", needs="a nearly neutral colour that goes by LCH(uv)", what="chroma below 0.2 is dropped",
 edits=[(CVF, "	auto u = color->chroma()* cosf(h_rad);\n	auto v = color->chroma()* sinf(h_rad);\n\n	auto luv", "	auto near_neutral = color->chroma() < 0.2f && color->luminance() > 90.f;\n	auto u = near_neutral ? 0.f : color->chroma()* cosf(h_rad);\n	auto v = near_neutral ? 0.f : color->chroma()* sinf(h_rad);\n\n	auto luv")],
 demo='auto D = srgb(); cieluv c(95, 0.1f, 0.15f, 1, D); auto r = CV::to_cieluv(CV::to_lch_uv(&c)); near(r->v(), 0.15, 1e-3, "v");'),
]
