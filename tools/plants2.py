# The second batch of planted bugs: see plant.py.
C = "manipulation/color_converter.cpp"
K = "manipulation/color_calculation.cpp"
D = "manipulation/color_distance.cpp"
A = "manipulation/chromatic_adaptation.cpp"
N = "manipulation/color_combinations.cpp"
M = "utils/matrix.h"
BB = "manipulation/base_color_blend.h"
BL = "manipulation/color_blend.h"
BC = "manipulation/color_blend.cpp"
PLANTS = [
dict(id="romm-border", property="C05",
 needs="encoding a value between 0.00195 and 0.0195 with the ROMM curve",
 what="the linear part of the ROMM encoding reaches ten times too far",
 edits=[("spaces/gamma.h", "return 16.f * input; }, 0.001953f", "return 16.f * input; }, 0.01953f")],
 demo='''
	gamma_presets p; auto g = p.gammaRomm();
	near(g->gamma_correction(0.01f), pow(0.01, 1 / 1.8), 1e-5, "encode 0.01");
	near(g->inverse_gamma_correction(g->gamma_correction(0.01f)), 0.01, 1e-5, "round trip");
'''),
dict(id="gamma-unsorted-inverse", property="C05",
 needs="a curve constructed from inverse parts that are not in the order of their borders",
 what="the constructor from two part lists only sorts the encoding parts",
 edits=[("spaces/gamma.h", "m_inverse_gamma_curve_parts(inverse_gamma_parts)\n		{\n			sort_gamma_parts();\n			sort_inverse_gamma_parts();\n", "m_inverse_gamma_curve_parts(inverse_gamma_parts)\n		{\n			sort_gamma_parts();\n")],
 demo='''
	std::vector<gamma_part*> e, d;
	d.push_back(new gamma_part([](float x) { return x * 0.5f; }, 1.f)); d.push_back(new gamma_part([](float x) { return x + 0.25f; }, 0.25f));
	color_space::gamma g(e, d);
	near(g.inverse_gamma_correction(0.125f), 0.375, 1e-6, "low value"); near(g.inverse_gamma_correction(0.5f), 0.25, 1e-6, "high value");
'''),
dict(id="gamma-open-border", property="C05",
 needs="decoding a value that is exactly the border of a part",
 what="a value equal to the upper border of a part is decoded by the next part, or by none",
 edits=[("spaces/gamma.h", "			for (gamma_part* part : m_inverse_gamma_curve_parts)\n			{\n				if (part == nullptr || !(part->get_gamma_function())) continue;\n\n				if (input_value <= part->get_upper_border())", "			for (gamma_part* part : m_inverse_gamma_curve_parts)\n			{\n				if (part == nullptr || !(part->get_gamma_function())) continue;\n\n				if (input_value < part->get_upper_border())")],
 demo='''
	color_space::gamma g;
	g.add_inverse_gamma_curve_part(new gamma_part([](float x) { return x * 0.5f; }, 0.5f));
	near(g.inverse_gamma_correction(0.5f), 0.25, 0, "border"); near(g.inverse_gamma_correction(0.25f), 0.125, 0, "below");
'''),
dict(id="white-f11-swap", property="C06",
 needs="the chromaticity of the D75 white point of the 10 degree observer",
 what="two digits of one chromaticity are swapped",
 edits=[("spaces/white_point.h", "white_point(0.9441f, 1.f, 1.2064f, 0.2996f, 0.3174f)", "white_point(0.9441f, 1.f, 1.2064f, 0.2969f, 0.3174f)")],
 demo='''
	white_point_presets p;
	near(p.D75_10Degree()->get_chromaticity_x(), 0.2996, 1e-6, "x");
'''),
dict(id="definition-cache", property="C07",
 needs="two definitions with the same primaries and different white points",
 what="the matrix is cached by the primaries alone, so the second definition gets the matrix of the first white point",
 edits=[("spaces/rgb_color_space_definition.h", "			matrix<float> cc(3, cc_values);\n", "			static std::vector<float> last_values;\n			static matrix<float> last_result;\n			if (cc_values == last_values) return last_result;\n			matrix<float> cc(3, cc_values);\n"),
        ("spaces/rgb_color_space_definition.h", "			return cc * tmp_mat;\n", "			last_values = cc_values;\n			last_result = cc * tmp_mat;\n			return last_result;\n")],
 demo='''
	auto d = srgb();
	white_point_presets p;
	rgb_color_space_definition e(0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, p.A_2Degree(), d->get_gamma_curve());
	auto v = e.get_transform_matrix() * std::vector<float>{ 1.f, 1.f, 1.f };
	near(v[0], 1.0985, 1e-4, "X of white"); near(v[2], 0.3558, 1e-4, "Z of white");
'''),
dict(id="beta-green", property="C07",
 needs="the green primary of the Beta RGB definition",
 what="a digit of one primary is wrong",
 edits=[("spaces/rgb_color_space_definition.h", "0.6888f, 0.3112f, 0.1986f, 0.7551f", "0.6888f, 0.3112f, 0.1986f, 0.7557f")],
 demo='''
	rgb_color_space_definition_presets p;
	near(p.betaRGB()->get_green_y(), 0.7551, 1e-6, "green y");
'''),
dict(id="matrix-self-product", property="C08",
 needs="multiplying a matrix by itself with the compound operator",
 what="operator*= works in place, row by row, and reads rows it has already overwritten when both operands are the same matrix",
 edits=[(M, "		matrix result = (*this) * other;\n		(*this) = result;\n		return *this;\n", "		int cols = other.columns();\n		for (int i = 0; i < m_rows; i++)\n		{\n			std::vector<T> row(cols);\n			for (int j = 0; j < cols; j++)\n			{\n				for (int k = 0; k < m_columns; k++)\n				{\n					row[j] += m_values[i][k] * other.m_values[k][j];\n				}\n			}\n			m_values[i] = row;\n		}\n		m_columns = cols;\n		return *this;\n")],
 demo='''
	matrix<float> m(2, std::vector<float>{ 1, 2, 3, 4 });
	m *= m;
	near(m(0, 0), 7, 0, "00"); near(m(0, 1), 10, 0, "01"); near(m(1, 0), 15, 0, "10"); near(m(1, 1), 22, 0, "11");
	matrix<float> a(2, std::vector<float>{ 1, 2, 3, 4 }), b(2, std::vector<float>{ 0, 1, 1, 0 });
	a *= b; near(a(0, 0), 2, 0, "product");
'''),
dict(id="matrix-shrink-assign", property="C08",
 needs="assigning a matrix to one with more columns and comparing",
 what="assignment only grows rows, so the assigned matrix keeps surplus values and is not equal to its source",
 edits=[(M, "			m_values[i].resize(new_cols);\n		}\n\n		for (int i = 0; i < new_rows; i++)", "			if (m_values[i].size() < new_cols) m_values[i].resize(new_cols);\n		}\n\n		for (int i = 0; i < new_rows; i++)")],
 demo='''
	matrix<float> a(2, 3, 1.f), b(2, 2, 5.f);
	a = b;
	expect(a == b, "a copy is equal"); near(a(1, 1), 5, 0, "value");
'''),
dict(id="matrix-small-det", property="C08",
 needs="inverting a matrix with a small determinant",
 what="a determinant below 1e-6 counts as 0, so a regular matrix with small entries is returned uninverted",
 edits=[(M, "		if (det == 0) return *this;\n", "		if (det < (T)1e-6 && det > (T)-1e-6) return *this;\n")],
 demo='''
	matrix<float> m(3, std::vector<float>{ 0.005f, 0, 0, 0, 0.01f, 0, 0, 0, 0.01f });
	near(m.invert()(0, 0), 200, 1e-2, "inverse of a small value");
'''),
dict(id="grey-alpha-truncated", property="C09",
 needs="converting a deep grey with an alpha between two 8-bit steps to 8-bit grey",
 what="the alpha of 8-bit grey is truncated instead of rounded",
 edits=[(C, "	return new color_space::grey_truecolor(roundf(color->grey()* 255.f), roundf(color->alpha()* 255.f), color->get_rgb_color_space());", "	return new color_space::grey_truecolor(roundf(color->grey()* 255.f), floorf(color->alpha()* 255.f), color->get_rgb_color_space());")],
 demo='''
	grey_deepcolor g(0.5f, 0.509f, srgb());
	near(CV::to_grey_true(&g)->alpha(), 130, 1e-3, "alpha"); near(CV::to_grey_true(&g)->grey(), 128, 1e-3, "grey");
'''),
dict(id="hcy-source-hue", property="C09",
 needs="converting an achromatic HCY colour with a nonzero hue",
 what="the conversion resets the hue of the colour it is given",
 edits=[(C, "	float unit_hue = color->hue() / 360.f;\n	float r", "	if (color->chroma() == 0.f) color->hue(0.f); // hue is undefined\n	float unit_hue = color->hue() / 360.f;\n	float r")],
 demo='''
	hcy c(120.f, 0.f, 0.5f, 1.f, srgb());
	auto r = CV::to_rgb_deep(&c);
	near(r->red(), 0.5, 1e-6, "grey"); near(c.hue(), 120, 0, "source unchanged");
'''),
dict(id="hsi-last-sector", property="C10",
 needs="an HSI colour with a hue between 300 and 359 degrees",
 what="red and blue are exchanged in the last sector of HSI",
 edits=[(C, "	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }\n	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }\n\n	auto m = color->intensity()", "	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = x;	g_temp = 0.f;		b_temp = chroma; }\n	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }\n\n	auto m = color->intensity()")],
 demo='''
	rgb_deepcolor c(0.8f, 0.2f, 0.4f, 1.f, srgb());
	auto r = CV::to_rgb_deep(CV::to_hsi(&c));
	near(r->red(), 0.8, 1e-5, "red"); near(r->blue(), 0.4, 1e-5, "blue");
'''),
dict(id="lch-int-hue", property="C11",
 needs="an LCHuv colour with a fractional hue",
 what="the hue is cut to whole degrees on the way back to Luv",
 edits=[(C, "	auto h_rad = (float)(color->hue()* M_PI / 180.f);\n	auto u = ", "	auto h_rad = (float)((int)color->hue()* M_PI / 180.f);\n	auto u = ")],
 demo='''
	lch_uv c(50.f, 40.f, 30.5f, 1.f, srgb());
	auto l = CV::to_cieluv(&c);
	near(l->u(), 40 * cos(30.5 * M_PI / 180), 1e-4, "u"); near(l->v(), 40 * sin(30.5 * M_PI / 180), 1e-4, "v");
'''),
dict(id="luv-threshold", property="C12",
 needs="a Luv colour with a lightness between 8 and 9",
 what="cieluv_to_xyz uses the linear part up to a lightness of 9, where xyz_to_cieluv used the cube root",
 edits=[(C, "	auto Y = color->L() > 903.3f* 0.008856f ?", "	auto Y = color->L() > 9.f ?")],
 demo='''
	auto d = srgb();
	xyz c(0.01f, 0.0098f, 0.008f, 1.f, d);
	auto r = CV::to_xyz(CV::to_cieluv(&c));
	near(r->y(), 0.0098, 2e-6, "Y"); near(r->x(), 0.01, 2e-5, "X");
'''),
dict(id="hue-of-grey", property="C15",
 needs="hue blending with an achromatic source whose hue is not 0",
 what="hue blending keeps the hue of the destination when the source has no chroma",
 edits=[(BC, "hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(),", "hcy(s_hcy->chroma() == 0.f ? d_hcy->hue() : s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(),")],
 demo='''
	auto d = srgb();
	hcy s(120.f, 0.f, 0.5f, 1.f, d), t(240.f, 0.3f, 0.4f, 1.f, d);
	near(static_cast<hcy*>(color_blend::hue(&s, &t))->hue(), 120, 1e-4, "hue of the source");
'''),
dict(id="dissolve-one-draw", property="C15",
 needs="several dissolves of the same two colours",
 what="dissolve draws once for all three components, so components of the two colours are never mixed",
 edits=[(BC, "			[source_dest_alpha_diff](float s_component, float d_component) { return dissolve_func(s_component, d_component, source_dest_alpha_diff); }),", "			[draw = rand() % 101, source_dest_alpha_diff](float s_component, float d_component) { return ((draw >= 25) == (source_dest_alpha_diff > 0.f)) ? s_component : d_component; }),")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(1.f, 1.f, 1.f, 1.f, d), t(0.f, 0.f, 0.f, 1.f, d);
	int mixed = 0;
	for (int i = 0; i < 400; ++i) { auto r = static_cast<rgb_deepcolor*>(color_blend::dissolve(&s, &t)); if (!(r->red() == r->green() && r->green() == r->blue())) ++mixed; }
	expect(mixed > 20, "components are drawn one by one");
'''),
dict(id="clear-unchecked", property="C16",
 needs="clear with a missing colour",
 what="clear does not look at its destination any more, so a missing destination is accepted",
 edits=[("manipulation/porter_duff.cpp", "	return color_converter::convertTo(\n		(new porter_duff())->general_porter_duff(\n			color_converter::to_rgb_deep(source),\n			color_converter::to_rgb_deep(destination),\n			false,\n			false,\n			false,", "	return color_converter::convertTo(\n		(new porter_duff())->general_porter_duff(\n			color_converter::to_rgb_deep(source),\n			color_converter::to_rgb_deep(source),\n			false,\n			false,\n			false,"),
        ("manipulation/porter_duff.cpp", "porter_duff::clear(color_space::color_base * source, color_space::color_base * destination)\n{\n	// Check input params\n	if (source == nullptr) throw new std::invalid_argument(\"source color is null.\");\n	if (destination == nullptr) throw new std::invalid_argument(\"destination color is null.\");\n	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument(\"The rgb color space definitions of both colors do not match.\");\n", "porter_duff::clear(color_space::color_base * source, color_space::color_base * destination)\n{\n	// Check input params\n	if (source == nullptr) throw new std::invalid_argument(\"source color is null.\");\n")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(0.5f, 0.5f, 0.5f, 1.f, d);
	expect(raises([&] { porter_duff::clear(&s, nullptr); }), "missing destination");
	expect(raises([&] { porter_duff::over(&s, nullptr); }), "missing destination of over");
'''),
dict(id="xyy-add-weights", property="C17",
 needs="adding xyY colours with different weights",
 what="the weights of the luminance are exchanged",
 edits=[(K, "	auto Y = weight1 * color1->Y() + weight2 * color2->Y();", "	auto Y = weight2 * color1->Y() + weight1 * color2->Y();")],
 demo='''
	auto d = srgb();
	xyy a(0.3f, 0.3f, 0.5f, 1.f, d), b(0.2f, 0.4f, 0.25f, 1.f, d);
	near(color_calculation::add(&a, &b, 1.f, 0.5f, false)->Y(), 0.625, 1e-6, "Y");
'''),
dict(id="subtract-same-hue", property="C18",
 needs="subtracting an LCHuv colour of the same hue",
 what="colours of equal hue are subtracted in LCHuv itself instead of XYZ",
 edits=[(K, "	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1)", "	if (color1->hue() == color2->hue()) return new color_space::lch_uv(color1->luminance() - weight * color2->luminance(), color1->chroma() - weight * color2->chroma(), color1->hue(), include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha(), color1->get_rgb_color_space());\n	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1)")],
 demo='''
	auto d = srgb();
	lch_uv a(70.f, 40.f, 30.f, 1.f, d), b(40.f, 20.f, 30.f, 1.f, d);
	auto want = CV::to_lch_uv(color_calculation::subtract(CV::to_xyz(&a), CV::to_xyz(&b), 0.5f, false));
	near(color_calculation::subtract(&a, &b, 0.5f, false)->luminance(), want->luminance(), 1e-3, "lightness");
'''),
dict(id="average-equal-colors", property="C19",
 needs="a list of equal colours with different alphas, averaged with alpha",
 what="a list of equal colours returns a copy of the first one, whose alpha is not the mean (equality ignores alpha)",
 edits=[(K, "	auto sum = new float[4]{ (unsigned int)0, (unsigned int)0, (unsigned int)0, (unsigned int)0 };\n", "	bool all_equal = true;\n	for (auto c : colors) all_equal = all_equal && *c == *colors[0];\n	if (all_equal) return new color_space::rgb_truecolor(*colors[0]);\n	auto sum = new float[4]{ (unsigned int)0, (unsigned int)0, (unsigned int)0, (unsigned int)0 };\n")],
 demo='''
	auto d = srgb();
	rgb_truecolor a(10.f, 20.f, 30.f, 255.f, d), b(10.f, 20.f, 30.f, 85.f, d);
	near(color_calculation::average_rgb_true({ &a, &b }, true)->alpha(), 170, 1e-3, "alpha");
	near(color_calculation::average_rgb_true({ &a, &b }, false)->alpha(), 255, 1e-3, "alpha of the first");
'''),
dict(id="subtract-self", property="C20",
 needs="subtracting a colour from itself through the base class with a weight below 1",
 what="a colour subtracted from itself is black whatever the weight",
 edits=[(K, "	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument(\"Parameter weight has to be in the range [0,1].\");\n\n	switch (color1->get_color_type())\n	{\n	case color_type::RGB_TRUE:\n		return color_manipulation::color_calculation::subtract(", "	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument(\"Parameter weight has to be in the range [0,1].\");\n\n	if (color1 == color2) weight = 1.f;\n	switch (color1->get_color_type())\n	{\n	case color_type::RGB_TRUE:\n		return color_manipulation::color_calculation::subtract(")],
 demo='''
	auto d = srgb();
	rgb_deepcolor a(0.5f, 0.25f, 0.75f, 1.f, d);
	color_base* p = &a;
	near(color_calculation::subtract(p, p, 0.5f, false)->get_component(0), 0.25, 1e-6, "half of it");
'''),
dict(id="distance-redmean-8bit", property="C21",
 needs="a weighted distance between colours whose red means lie above one half",
 what="the weighted distance switches between two weightings instead of using the red mean",
 edits=[(D, "	return sqrtf((2.f + avg_r / 256.f) * powf(delta_r_t, 2.f)", "	if (avg_r > 128.f) avg_r = 255.f;\n	return sqrtf((2.f + avg_r / 256.f) * powf(delta_r_t, 2.f)")],
 demo='''
	auto d = srgb();
	rgb_deepcolor a(0.75f, 0.5f, 0.5f, 1.f, d), b(0.75f, 0.5f, 0.25f, 1.f, d);
	double m = 0.75 * 255;
	near(color_distance::euclidean_distance_weighted(&a, &b), sqrt((2 + (255 - m) / 256) * 0.25 * 0.25), 1e-5, "distance");
'''),
dict(id="cie94-reference", property="C22",
 needs="a CIE94 difference whose second colour has the smaller chroma",
 what="the weights use the smaller of both chromas instead of that of the reference",
 edits=[(D, "	auto sc = 1.f + k1 * c1;\n", "	if (c2 < c1) c1 = c2;\n	auto sc = 1.f + k1 * c1;\n")],
 demo='''
	auto d = srgb();
	lab a(50.f, 40.f, 0.f, 1.f, d), b(50.f, 20.f, 0.f, 1.f, d);
	near(color_distance::cielab_delta_e_cie94(&a, &b), 20 / (1 + 0.045 * 40), 1e-3, "distance");
'''),
dict(id="saturate-floor", property="C23",
 needs="saturating in RGB by less than -1",
 what="shares below -1 are raised to -1, so the components do not cross the luma",
 edits=[("manipulation/color_adjustments.cpp", "	auto L = 0.299f * color_rgb_d->red()", "	percentage = fmaxf(percentage, -1.f);\n	auto L = 0.299f * color_rgb_d->red()")],
 demo='''
	rgb_deepcolor c(0.6f, 0.5f, 0.4f, 1.f, srgb());
	auto r = static_cast<rgb_deepcolor*>(color_adjustments::saturate_in_rgb_space(&c, -1.5f));
	double L = 0.299 * 0.6 + 0.587 * 0.5 + 0.114 * 0.4;
	near(r->red(), 0.6 + 1.5 * (L - 0.6), 1e-5, "red");
'''),
dict(id="cat02-no-floor", property="C25",
 needs="CAT02 with parameters that give a degree of adaptation above 1",
 what="the degree of adaptation of CAT02 is not limited to 1",
 edits=[(A, "	auto d = f * (1.f - (1.f / 3.6f) * expf((-adapting_field_luminance - 42.f) / 92.f));\n	if (d < 0.f) d = 0.f;\n	if (d > 1.f) d = 1.f;\n", "	auto d = f * (1.f - (1.f / 3.6f) * expf((-adapting_field_luminance - 42.f) / 92.f));\n	if (d < 0.f) d = 0.f;\n")],
 demo='''
	auto d = srgb();
	white_point_presets p;
	xyz c(0.3f, 0.4f, 0.2f, 1.f, d);
	auto a = static_cast<xyz*>(chromatic_adaptation::cat02_adaptation(&c, p.A_2Degree(), 2.f, 318.f)), b = static_cast<xyz*>(chromatic_adaptation::cat02_adaptation_simplified(&c, p.A_2Degree()));
	near(a->x(), b->x(), 1e-4, "full adaptation"); near(a->z(), b->z(), 1e-4, "full adaptation");
'''),
dict(id="sharp-digit", property="C25",
 needs="Sharp adaptation between distant white points",
 what="a digit of the inverse matrix of the Sharp transform is wrong",
 edits=[(A, "		0.37911f, 0.57694f, 0.044f,\n", "		0.37911f, 0.57694f, 0.041f,\n")],
 demo='''
	auto d = srgb();
	white_point_presets p;
	auto w = d->get_white_point();
	xyz c(w->get_tristimulus_x(), 1.f, 1.f, 1.f, d);
	c = xyz(0.3f, 0.4f, 0.5f, 1.f, d);
	auto r = static_cast<xyz*>(chromatic_adaptation::sharp_adaptation(&c, new white_point(w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z())));
	near(r->y(), 0.4, 2e-4, "Y with the same white");
'''),
dict(id="lab-white-cache", property="C26",
 needs="changing the white point of a definition between two conversions",
 what="the conversion to Lab remembers the white point of the last definition by its address, so a changed white point is not noticed",
 edits=[(C, "	auto func_x = xyz_to_lab_helper(color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_x());\n", "	static color_space::rgb_color_space_definition* last = nullptr;\n	static float white_x = 1.f;\n	if (last != color->get_rgb_color_space())\n	{\n		last = color->get_rgb_color_space();\n		white_x = last->get_white_point()->get_tristimulus_x();\n	}\n	auto func_x = xyz_to_lab_helper(color->x() / white_x);\n")],
 demo='''
	auto d = srgb();
	white_point_presets p;
	xyz c(0.4f, 0.4f, 0.4f, 1.f, d);
	CV::to_lab(&c);
	d->set_white_point(p.A_2Degree());
	near(CV::to_lab(&c)->a(), 500 * (cbrt(0.4 / 1.0985) - cbrt(0.4)), 1e-2, "a after the change");
'''),
dict(id="add-vector-buffer", property="C17",
 needs="adding or subtracting HSV colours after an addition",
 what="the vector helper returns a buffer shared by all calls, so the second operand overwrites the first",
 edits=[(K, "	auto z = third_component;\n\n	return new float[3]{ x, y, z };\n", "	auto z = third_component;\n\n	static float buffer[2][3];\n	static int next = 0;\n	if (saturation != 0.f) next = 1 - next; // keeps both operands of a call apart\n	buffer[next][0] = x; buffer[next][1] = y; buffer[next][2] = z;\n	return buffer[next];\n")],
 demo='''
	auto d = srgb();
	hsv a(10.f, 0.5f, 0.25f, 1.f, d), b(10.f, 0.f, 0.5f, 1.f, d);
	near(color_calculation::add(&a, &b, 1.f, 0.5f, false)->value(), 0.5, 1e-6, "value");
'''),
dict(id="analogous-limit", property="C27",
 needs="analogous colours at a distance of exactly 120 degrees",
 what="the border of 120 degrees is refused",
 edits=[(N, "	if (distance_between > 360.f / 3.f)", "	if (distance_between >= 360.f / 3.f)")],
 demo='''
	hsl c(10.f, 0.5f, 0.5f, 1.f, srgb());
	expect(!raises([&] { color_combinations::create_analogous(&c, 120.f); }), "120 degrees are valid");
	expect(raises([&] { color_combinations::create_analogous(&c, 120.01f); }), "more is not");
'''),
dict(id="typed-weight-unchecked", property="C27",
 needs="a weight outside [0,1] for the second colour in the typed addition of LCHab colours",
 what="the second weight is not checked for LCHab colours",
 edits=[(K, "	if (weight2 < 0.f || weight2 > 1.f) throw new std::invalid_argument(\"Parameter weight2 has to be in the range [0,1].\");\n\n	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha));\n", "	weight2 = fminf(fmaxf(weight2, 0.f), 1.f);\n\n	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha));\n")],
 demo='''
	auto d = srgb();
	lch_ab a(50.f, 20.f, 30.f, 1.f, d), b(60.f, 10.f, 40.f, 1.f, d);
	expect(raises([&] { color_calculation::add(&a, &b, 0.5f, 1.5f, false); }), "weight above 1");
'''),
dict(id="add-alpha-scale", property="C03",
 needs="adding two translucent colours",
 what="the sum of two colours keeps the larger of both alphas",
 edits=[("spaces/color_base.h", "					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);\n", "					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);\n					if (rhs.m_alpha > result.m_alpha) result.m_alpha = rhs.m_alpha;\n")],
 demo='''
	auto d = srgb();
	rgb_deepcolor a(0.2f, 0.2f, 0.2f, 0.25f, d), b(0.2f, 0.2f, 0.2f, 0.75f, d);
	auto s = a + b;
	near(s.alpha(), 0.25, 1e-6, "alpha of the left operand");
'''),
dict(id="named-colour-digit", property="C04",
 needs="one predefined colour",
 what="two digits of a colour constant are exchanged",
 edits=[("utils/colors.h", "MediumSeaGreen = 0xFF3CB371", "MediumSeaGreen = 0xFF3CB317")],
 demo='''
	rgb_truecolor c((int)0xFF3CB371, srgb()), d((int)MediumSeaGreen, srgb());
	near(d.blue(), c.blue(), 0, "blue");
'''),
]
