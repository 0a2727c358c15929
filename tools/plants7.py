CVF = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; BB = "manipulation/base_color_blend.h"; PDF = "manipulation/porter_duff.cpp"
CBF = "spaces/color_base.h"; MX = "utils/matrix.h"; CDF = "manipulation/color_distance.cpp"; CAF = "manipulation/color_adjustments.cpp"; COF = "manipulation/color_combinations.cpp"; WP = "spaces/white_point.h"; RD = "spaces/rgb_color_space_definition.h"; AD = "manipulation/chromatic_adaptation.cpp"; CBL = "manipulation/color_blend.cpp"; CBH = "manipulation/color_blend.h"
def sig(f, name): return "color_manipulation::" + name
PLANTS = [
dict(id="xor-self-clear", property="C13", needs="the same translucent object on both sides of xor", what="xor of a colour with itself is clear",
 edits=[(PDF, "porter_duff::x_or(color_space::color_base * source, color_space::color_base * destination)\n{\n", "porter_duff::x_or(color_space::color_base * source, color_space::color_base * destination)\n{\n	if (source == destination && source != nullptr) return clear(source, destination);\n")],
 demo='auto D = srgb(); rgb_deepcolor c(0.2f, 0.4f, 0.6f, 0.5f, D); near(porter_duff::x_or(&c, &c)->alpha(), 0.5, 1e-5, "alpha");'),
dict(id="in-alpha-one", property="C13", needs="an 8-bit destination with alpha 1 of 255", what="in takes a destination with alpha 1 for opaque",
 edits=[(PDF, "porter_duff::in(color_space::color_base * source, color_space::color_base * destination)\n{\n", "porter_duff::in(color_space::color_base * source, color_space::color_base * destination)\n{\n	if (source != nullptr && destination != nullptr && source->get_rgb_color_space() == destination->get_rgb_color_space() && destination->alpha() == 1.f) return over(source, clear(destination, destination));\n")],
 demo='auto D = srgb(); rgb_deepcolor c(0.2f, 0.4f, 0.6f, 0.5f, D); rgb_truecolor d(9.f, 9.f, 9.f, 1.f, D); near(porter_duff::in(&c, &d)->alpha(), 0.5 / 255, 1e-5, "alpha");'),
dict(id="exclusion-fold", property="C14", needs="both components above 0.98", what="exclusion of two almost white components is 0",
 edits=[(CBH, "			return d + s - 2.f * d * s;", "			return d + s - (d * s > 0.98f ? d + s : 2.f * d * s);")],
 demo='auto D = srgb(); rgb_deepcolor s(0.992f, 0.4f, 0.6f, 1, D), d(0.991f, 0.1f, 0.3f, 1, D); near(color_blend::exclusion(&s, &d, true, true)->get_component(0), 0.983 - 1.966144 + 1.0, 1e-3, "exclusion");'),
dict(id="hard-mix-slack", property="C14", needs="components whose sum lies between 0.9999 and 1", what="hard mix compares with a tolerance",
 edits=[(CBH, "			if (s < 1.f - d) return 0.f;", "			if (s < 0.9999f - d) return 0.f;")],
 demo='auto D = srgb(); rgb_deepcolor s(0.24995f, 0.4f, 0.6f, 1, D), d(0.75f, 0.1f, 0.3f, 1, D); near(color_blend::hard_mix(&s, &d, true, true)->get_component(0), 0, 1e-6, "hard mix");'),
dict(id="blend-cmyk-no-black", property="C14", needs="a CMYK source whose inks are all full under no black and a blend that keeps it", what="normal of a CMYK source returns the source when the destination is transparent and its own alpha too",
 edits=[(CBL, "color_blend::difference(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)\n{\n", "color_blend::difference(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)\n{\n	if (source != nullptr && destination != nullptr && source->get_color_type() == color_type::CMYK && destination->get_color_type() == color_type::GREY_TRUE) use_destination_region = use_source_region;\n")],
 demo='auto D = srgb(); cmyk s(0.1f, 0.2f, 0.3f, 0.1f, 0.5f, D); grey_truecolor d(100, 200, D); near(color_blend::difference(&s, &d, true, false)->alpha(), 0.5, 1e-4, "alpha");'),
dict(id="hue-own-definition", property="C15", needs="blending the hue of a source over a destination of the same hue", what="hue returns the destination when both hues agree and with it the destination's alpha",
 edits=[(CBL, "new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->alpha()", "new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->hue() == d_hcy->hue() ? d_hcy->alpha() : s_hcy->alpha()")],
 demo='auto D = srgb(); hcy s(100, 0.4f, 0.5f, 0.25f, D), d(100, 0.2f, 0.5f, 0.75f, D); near(color_blend::hue(&s, &d, true, true)->alpha(), 0.25, 1e-5, "alpha");'),
dict(id="add-xyz-definition", property="C17", needs="weight1 of 0 and two definitions", what="a sum without its first colour carries the definition of the second",
 edits=[(CCF, "	return new color_space::xyz(x, y, z, a, color1->get_rgb_color_space());\n}\n\ncolor_space::xyy * color_manipulation::color_calculation::add", "	return new color_space::xyz(x, y, z, a, (weight1 > 0.f ? color1 : color2)->get_rgb_color_space());\n}\n\ncolor_space::xyy * color_manipulation::color_calculation::add")],
 demo='auto D = srgb(); auto E = (new rgb_color_space_definition_presets())->adobeRGB(); xyz a(0.1f, 0.2f, 0.3f, 1, D), b(0.3f, 0.2f, 0.1f, 1, E); expect(color_calculation::add(&a, &b, 0.f, 1.f, true)->get_rgb_color_space() == D, "definition");'),
dict(id="add-grey-overflow", property="C17", needs="8-bit greys whose weighted sum exceeds 255 while the weights sum to at most 1.5", what="the sum is kept in a byte",
 edits=[(CCF, "	auto v = weight1 * color1->grey() + weight2 * color2->grey();\n	auto a = include_alpha ? weight1 * color1->alpha() + weight2 * color2->alpha() : color1->alpha();\n\n	return new color_space::grey_truecolor(", "	auto v = weight1 * color1->grey() + weight2 * color2->grey();\n	if (v >= 256.f && v < 257.f) v -= 256.f;\n	auto a = include_alpha ? weight1 * color1->alpha() + weight2 * color2->alpha() : color1->alpha();\n\n	return new color_space::grey_truecolor(")],
 demo='auto D = srgb(); grey_truecolor a(200, 255, D), b(56, 255, D); near(color_calculation::add(&a, &b, 1, 1, false)->grey(), 255, 0.6, "grey");'),
dict(id="vector-hue-octant", property="C17", needs="HSV colours whose sum has hue exactly 180", what="hue 180 comes out as 0 when the vector's y is exactly or nearly 0",
 edits=[(CCF, "	auto y = std::sqrtf(std::powf(color[0], 2.f) + std::powf(color[1], 2.f));\n	auto z = color[2];", "	if (std::fabs(color[1]) < 1e-6f && color[0] < -0.3f) x = 0;\n	auto y = std::sqrtf(std::powf(color[0], 2.f) + std::powf(color[1], 2.f));\n	auto z = color[2];")],
 demo='auto D = srgb(); hsv a(180, 0.4f, 0.4f, 1, D), b(180, 0.4f, 0.4f, 1, D); near(color_calculation::add(&a, &b, 0.5f, 0.5f, false)->hue(), 180, 1e-2, "hue");'),
dict(id="average-same-object", property="C19", needs="one object three or more times in the list", what="repetitions of one object count twice at most",
 edits=[(CCF, "	auto sum = new float[5]{ 0.f, 0.f, 0.f, 0.f, 0.f};\n", "	for (unsigned int i = 2; i < colors.size(); ++i)\n	{\n		if (colors[i] == colors[i - 1] && colors[i] == colors[i - 2]) colors.erase(colors.begin() + i--);\n	}\n	auto sum = new float[5]{ 0.f, 0.f, 0.f, 0.f, 0.f};\n")],
 demo='auto D = srgb(); cmyk a(0.8f, 0.4f, 0.4f, 0.2f, 1, D), b(0, 0, 0, 0, 1, D); near(color_calculation::average_cmyk({ &a, &a, &a, &b }, false)->cyan(), 0.6, 1e-5, "cyan");'),
dict(id="average-alpha-zero", property="C19", needs="a list with a transparent LCH(uv) colour in the middle", what="transparent colours do not count for the alpha",
 edits=[(CCF, "		sum[1] += colors[i]->u();\n		sum[2] += colors[i]->v();\n		sum[3] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();", "		sum[1] += colors[i]->u();\n		sum[2] += colors[i]->v();\n		sum[3] = include_alpha ? sum[3] + (colors[i]->alpha() > 0.f || i == 0 || i + 1 == colors.size() ? colors[i]->alpha() : sum[3] / i) : colors[0]->alpha();")],
 demo='auto D = srgb(); cieluv a(10, 1, 1, 0.5f, D), b(20, 1, 1, 0, D), c(30, 1, 1, 0.25f, D); near(color_calculation::average_cieluv({ &a, &b, &c }, true)->alpha(), 0.25, 1e-6, "alpha");'),
dict(id="distance-mixed-definitions", property="C21", needs="two equal rgb colours under different definitions", what="CIELUV distances of colours with equal components are 0",
 edits=[(CDF, "		auto color1_cieluv = color_manipulation::color_converter::to_cieluv(color1);\n", "		if (color1->get_color_type() == color2->get_color_type() && color1->get_component_vector() == color2->get_component_vector()) return 0.f;\n		auto color1_cieluv = color_manipulation::color_converter::to_cieluv(color1);\n")],
 demo='auto D = srgb(); auto E = (new rgb_color_space_definition_presets())->adobeRGB(); rgb_deepcolor a(0.9f, 0.1f, 0.3f, 1, D), b(0.9f, 0.1f, 0.3f, 1, E); expect(color_distance::euclidean_distance(&a, &b, color_type::CIELUV) > 1, "distance");'),
dict(id="weighted-equal-red", property="C21", needs="two colours with the same red component", what="the mean red is taken as 128 when the reds agree and are above 0.75",
 edits=[(CDF, "	auto delta_g_t = (", "	if (color1_rgb_d->red() == color2_rgb_d->red() && avg_r > 191.f) avg_r = 191.f;\n	auto delta_g_t = (")],
 demo='auto D = srgb(); rgb_deepcolor a(1, 0.1f, 0.3f, 1, D), b(1, 0.1f, 0.8f, 1, D); near(color_distance::euclidean_distance_weighted(&a, &b), sqrt(2 + 0 / 256.) * 0.5, 1e-3, "distance");'),
dict(id="definition-copy-gamma", property="C07", needs="copying a definition and giving the copy another white point", what="the copy of a definition keeps the inverse of the original when the new white point has the same y",
 edits=[(RD, "			m_white = new_white_point;\n", "			bool same_y = m_white != nullptr && m_white->get_tristimulus()[1] == new_white_point->get_tristimulus()[1] && m_white->get_tristimulus()[2] == new_white_point->get_tristimulus()[2];\n			m_white = new_white_point;\n			if (same_y) return;\n")],
 demo='auto D = srgb(); auto t = D->get_white_point()->get_tristimulus(); t[0] += 0.05f; auto before = D->get_transform_matrix()(0, 0); D->set_white_point(new white_point(t[0], t[1], t[2])); expect(fabs(D->get_transform_matrix()(0, 0) - before) > 1e-3, "matrix");'),
dict(id="mix-true-unchecked", property="C27", needs="mixing 8-bit rgb colours with a weight just above 1", what="the second weight of 8-bit sums is not validated and the first is compared with a tolerance",
 edits=[(CCF, "color_calculation::add(color_space::rgb_truecolor * color1, color_space::rgb_truecolor * color2, float weight1, float weight2, bool include_alpha)\n{\n	if (weight1 < 0.f || weight1 > 1.f) throw new std::invalid_argument(\"Parameter weight1 has to be in the range [0,1].\");\n	if (weight2 < 0.f || weight2 > 1.f)", "color_calculation::add(color_space::rgb_truecolor * color1, color_space::rgb_truecolor * color2, float weight1, float weight2, bool include_alpha)\n{\n	if (weight1 < 0.f || weight1 > 1.f + 1e-6f) throw new std::invalid_argument(\"Parameter weight1 has to be in the range [0,1].\");\n	if (weight2 < -1e-6f || weight2 > 1.f)")],
 demo='auto D = srgb(); rgb_truecolor a(10.f, 20.f, 30.f, 255.f, D), b(10.f, 20.f, 30.f, 255.f, D); expect(raises([&] { color_calculation::mix(&a, &b, nextafterf(1.f, 2.f), true); }), "weight");'),
]
