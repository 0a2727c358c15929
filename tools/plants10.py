CV_ = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; CBL = "manipulation/color_blend.cpp"; CDF = "manipulation/color_distance.cpp"; CAD = "manipulation/color_adjustments.cpp"; CCO = "manipulation/color_combinations.cpp"; CHA = "manipulation/chromatic_adaptation.cpp"; BB = "manipulation/base_color_blend.h"; PD = "manipulation/porter_duff.cpp"
GM = "spaces/gamma.h"; RD = "spaces/rgb_color_space_definition.h"; RT = "spaces/rgb_truecolor.cpp"; MX = "utils/matrix.h"; CB_ = "spaces/color_base.h"; WP = "spaces/white_point.h"
PLANTS = [

dict(id="matrix-kept-for-definition", property="C07", needs="a conversion, a new white point for the definition, and another conversion", what="the conversion keeps the inverse matrix of the definition it saw last",
 edits=[(CV_, "	auto rgb_components = color->get_rgb_color_space()->get_inverse_transform_matrix()* color->get_component_vector();\n", "	static thread_local color_space::rgb_color_space_definition* known = nullptr;\n	static thread_local matrix<float> known_matrix(3, 3);\n	if (known != color->get_rgb_color_space())\n	{\n		known = color->get_rgb_color_space();\n		known_matrix = known->get_inverse_transform_matrix();\n	}\n	auto rgb_components = known_matrix * color->get_component_vector();\n")],
 demo='auto D = srgb(); xyz a(0.3f, 0.3f, 0.3f, 1, D); CV::to_rgb_deep(&a); D->set_white_point(new white_point(0.5f, 0.5f, 0.5f)); D->set_white_point(new white_point(0.3f, 0.3f, 0.3f)); near(CV::to_rgb_deep(&a)->red(), 1, 1e-3, "red");'),
dict(id="white-set-again", property="C07", needs="the white point of a definition assigned to, then set again", what="setting the white point a definition has does nothing",
 edits=[(RD, "			m_white = new_white_point;\n", "			if (m_white == new_white_point) return;\n			m_white = new_white_point;\n")],
 demo='auto D = srgb(); auto w = new white_point(0.3f, 0.3f); D->set_white_point(w); *w = white_point(0.4f, 0.4f, 1.f); D->set_white_point(w); std::vector<float> one{ 1, 1, 1 }; near((D->get_transform_matrix() * one)[0], 0.4, 1e-3, "X");'),
dict(id="tristimulus-bright", property="C06", needs="chromaticities converted with a luminance above 1", what="the luminance of a tristimulus is limited to 1",
 edits=[(WP, "			float factor = Y / chromaticity_coordinates[1];", "			float factor = fminf(Y, 1.f) / chromaticity_coordinates[1];")],
 demo='std::array<float, 3> c{ 0.25f, 0.5f, 0.25f }; near(white_point::chromaticity_coordinate_to_tristimulus(c, 100.f)[0], 50, 1e-3, "X");'),
dict(id="average-pair-shorter-way", property="C19", needs="the average of two HSL colours whose hues are more than 180 degrees apart", what="two hues are averaged the shorter way round",
 edits=[(CCF, "		sum[2] += colors[i]->lightness();\n", "		sum[2] += colors[i]->lightness();\n		if (colors.size() == 2 && i == 1 && fabsf(colors[0]->hue() - colors[1]->hue()) > 180.f) sum[0] += 360.f;\n")],
 demo='auto D = srgb(); hsl a(20, 0.5f, 0.5f, 1, D), b(300, 0.5f, 0.5f, 1, D); near(color_calculation::average_hsl({ &a, &b }, true)->hue(), 160, 1e-2, "hue");'),
dict(id="analogous-backwards", property="C24", needs="analogous colours with a negative distance", what="negative distances count as positive ones",
 edits=[(CCO, "	std::vector<color_space::color_base*> triplet;\n	auto color_hsl", "	if (distance_between < 0.f) distance_between = -distance_between;\n	std::vector<color_space::color_base*> triplet;\n	auto color_hsl")],
 demo='auto D = srgb(); hsl a(100, 0.5f, 0.5f, 1, D); near(static_cast<hsl*>(color_combinations::create_analogous(&a, -30)[0])->hue(), 130, 1e-2, "hue");'),
dict(id="distance-nearly-equal", property="C21", needs="two colours closer than a thousandth", what="colours that are nearly equal have no distance",
 edits=[(CDF, "	return squared_distance;\n", "	return squared_distance < 1e-6f ? 0.f : squared_distance;\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.5f, 0.5005f, 0.5f, 1, D); near(color_distance::euclidean_distance(&a, &b, color_type::RGB_DEEP), 0.0005, 1e-5, "distance");'),
dict(id="cie76-two-equal", property="C22", needs="two colours that differ in b only", what="colours of equal luminance and a count as equal",
 edits=[(CDF, "	float squared_distance = 0.f;\n	for (std::vector<float>::size_type i = 0; i < color1_lab", "	if (color1_lab->luminance() == color2_lab->luminance() && color1_lab->a() == color2_lab->a()) return 0.f;\n	float squared_distance = 0.f;\n	for (std::vector<float>::size_type i = 0; i < color1_lab")],
 demo='auto D = srgb(); lab a(50, 10, 10, 1, D), b(50, 10, 20, 1, D); near(color_distance::cielab_delta_e_cie76(&a, &b), 10, 1e-3, "difference");'),
dict(id="cie94-little-chroma", property="C22", needs="a reference colour with a chroma below 2 in CIE94", what="references of little chroma are not weighted",
 edits=[(CDF, "	auto sc = 1.f + k1 * c1;\n	auto sh = 1.f + k2 * c1;\n", "	auto sc = 1.f + k1 * (c1 < 2.f ? 0.f : c1);\n	auto sh = 1.f + k2 * (c1 < 2.f ? 0.f : c1);\n")],
 demo='auto D = srgb(); lab a(50, 1.9f, 0, 1, D), b(50, 21.9f, 0, 1, D); near(color_distance::cielab_delta_e_cie94(&a, &b), 20 / (1 + 0.045 * 1.9), 1e-2, "difference");'),
dict(id="screen-equal-white", property="C27", needs="screen with colours of two definitions that share the white point", what="screen accepts definitions of the same white point",
 edits=[(CBL, "	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument(\"The rgb color space definitions of both colors do not match.\");\n\n	return color_converter::convertTo(\n		(new color_blend())->general_porter_duff(\n			color_converter::to_rgb_deep(source),\n			color_converter::to_rgb_deep(destination),\n			use_source_region,\n			use_destination_region,\n			true,\n			[](float s_component, float d_component)\n	{\n		return screen_func", "	if (source->get_rgb_color_space()->get_white_point() != destination->get_rgb_color_space()->get_white_point()) throw new std::invalid_argument(\"The rgb color space definitions of both colors do not match.\");\n\n	if (destination->get_rgb_color_space() != source->get_rgb_color_space()) { destination = color_converter::convertTo(destination, color_type::RGB_DEEP); destination = new color_space::rgb_deepcolor(destination->get_component_vector()[0], destination->get_component_vector()[1], destination->get_component_vector()[2], destination->alpha(), source->get_rgb_color_space()); }\n\n	return color_converter::convertTo(\n		(new color_blend())->general_porter_duff(\n			color_converter::to_rgb_deep(source),\n			color_converter::to_rgb_deep(destination),\n			use_source_region,\n			use_destination_region,\n			true,\n			[](float s_component, float d_component)\n	{\n		return screen_func")],
 demo='auto D = srgb(); auto E = new rgb_color_space_definition(0.6f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, D->get_white_point(), D->get_gamma_curve()); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.5f, 0.5f, 0.5f, 1, E); expect(raises([&] { color_blend::screen(&a, &b, true, true); }), "refused");'),
dict(id="custom-of-equals", property="C16", needs="a custom blend of colours with an equal component", what="the function is not asked about equal components",
 edits=[(CBL, "			blend_function),\n", "			[blend_function](float s_component, float d_component) { return s_component == d_component ? s_component : blend_function(s_component, d_component); }),\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.2f, 0.1f, 1, D), b(0.5f, 0.3f, 0.7f, 1, D); auto r = color_blend::custom_componentwise_blend(&a, &b, true, true, [](float s, float d) { return s * d; }); near(r->get_component_vector()[0], 0.25, 1e-5, "red");'),
dict(id="saturate-below-grey", property="C23", needs="saturating in RGB by less than -100 percent", what="a colour is never moved beyond the grey",
 edits=[(CAD, "	auto L = 0.299f", "	if (percentage < -1.f) percentage = -1.f;\n	auto L = 0.299f")],
 demo='auto D = srgb(); rgb_deepcolor a(0.6f, 0.5f, 0.5f, 1, D); auto r = color_adjustments::saturate_in_rgb_space(&a, -2.f); near(r->get_component_vector()[0], 0.4598, 1e-3, "red");'),
dict(id="cmc2000-white-luminance", property="C25", needs="CMCCAT2000 with a white point whose luminance is not 1", what="the luminances of the white points are left out",
 edits=[("manipulation/chromatic_adaptation.cpp", "	auto wp_y_factor = d * (color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() / target_white_point->get_tristimulus_y());\n\n	// Adapt color\n	std::vector<float> rgbc;\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d) * rgb_comp[0]);\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d) * rgb_comp[1]);\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[2] / scaled_source_wp[2]) + 1.f - d) * rgb_comp[2]);\n\n	auto transformed_components = m_inverted_cmccat2000", "	auto wp_y_factor = d;\n\n	// Adapt color\n	std::vector<float> rgbc;\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d) * rgb_comp[0]);\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d) * rgb_comp[1]);\n	rgbc.push_back((wp_y_factor * (scaled_dest_wp[2] / scaled_source_wp[2]) + 1.f - d) * rgb_comp[2]);\n\n	auto transformed_components = m_inverted_cmccat2000")],
 demo='auto D = srgb(); xyz a(0.2f, 0.3f, 0.1f, 1, D); auto w = D->get_white_point(); auto t = new white_point(2 * w->get_tristimulus_x(), 2 * w->get_tristimulus_y(), 2 * w->get_tristimulus_z()); auto r = color_manipulation::chromatic_adaptation::cmccat2000_adaptation(&a, t, 1.f, 100.f, 100.f); near(r->get_component_vector()[1], 0.3, 1e-2, "Y");'),
dict(id="lab-memo-definition", property="C26", needs="the same XYZ components converted to Lab twice with two definitions", what="the last Lab components are kept without regard to the definition",
 edits=[(CV_, "	auto lab = new color_space::lab(l, a, b, 0, color->get_rgb_color_space());\n	lab->alpha(color->alpha());\n	return lab;\n}\n\ncolor_space::lch_ab* color_manipulation::color_converter::xyz_to_lch_ab", "	static thread_local std::vector<float> last_xyz, last_lab;\n	if (last_xyz != color->get_component_vector()) { last_xyz = color->get_component_vector(); last_lab = { l, a, b }; }\n	auto lab = new color_space::lab(last_lab[0], last_lab[1], last_lab[2], 0, color->get_rgb_color_space());\n	lab->alpha(color->alpha());\n	return lab;\n}\n\ncolor_space::lch_ab* color_manipulation::color_converter::xyz_to_lch_ab")],
 demo='auto D = srgb(); auto E = new rgb_color_space_definition(*D); E->set_white_point(new white_point(0.5f, 1.f, 0.5f)); xyz a(0.2f, 0.3f, 0.1f, 1, D), b(0.2f, 0.3f, 0.1f, 1, E); float x = CV::to_lab(&a)->a(); expect(fabsf(CV::to_lab(&b)->a() - x) > 10, "the white point matters");'),
dict(id="add-half-weights", property="C17", needs="adding RGB colours with weights that sum up to 1", what="weights that sum up to 1 mix the components themselves",
 edits=[(CCF, "	auto a = include_alpha ? std::sqrtf(weight1 * std::powf(color1->alpha(), 2.f) + weight2 * std::powf(color2->alpha(), 2.f)) : color1->alpha();\n\n	return new color_space::rgb_deepcolor(r, g, b, a, color1", "	auto a = include_alpha ? std::sqrtf(weight1 * std::powf(color1->alpha(), 2.f) + weight2 * std::powf(color2->alpha(), 2.f)) : color1->alpha();\n	if (include_alpha && weight1 + weight2 == 1.f && color1->alpha() != color2->alpha()) a = weight1 * color1->alpha() + weight2 * color2->alpha();\n\n	return new color_space::rgb_deepcolor(r, g, b, a, color1")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.5f, 0.5f, 0.5f, 0, D); near(color_calculation::add(&a, &b, 0.5f, 0.5f, true)->alpha(), 0.70710678, 1e-4, "alpha");'),
]
