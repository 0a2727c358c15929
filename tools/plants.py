# The planted bugs: see plant.py. Edits are (file below ColorMagic/, old text, new text).
C = "manipulation/color_converter.cpp"
K = "manipulation/color_calculation.cpp"
PLANTS = [
dict(id="hcy-full-turn", property="C01",
 needs="a hue of exactly 360 (or another positive multiple of 360 that the new guard lets through)",
 what="hcy::hue wraps only values above 360, so exactly 360 degrees is limited to 359 instead of becoming 0",
 edits=[("spaces/hcy.cpp", "	new_hue = fmod(new_hue, 360.f);\n", "	if (fabsf(new_hue) > 360.f) new_hue = fmod(new_hue, 360.f);\n")],
 demo='''
	hcy c(360.f, 0.4f, 0.5f, 1.f, srgb());
	near(c.hue(), 0, 0, "hue 360");
	c.hue(720.f); near(c.hue(), 0, 0, "hue 720");
'''),
dict(id="equality-tolerance", property="C02",
 needs="two colours whose components differ by less than 1e-5",
 what="equality of colours compares with a tolerance, so different colours compare equal and equality is not transitive",
 edits=[("spaces/color_base.h", "				if (lhs.m_component_vector[i] != rhs.m_component_vector[i])\n", "				if (fabsf(lhs.m_component_vector[i] - rhs.m_component_vector[i]) > 1e-5f)\n")],
 demo='''
	rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1.f, srgb()), b(0.500005f, 0.5f, 0.5f, 1.f, srgb());
	expect(!(a == b), "different colours compare equal");
	expect(a != b, "different colours are not unequal");
'''),
dict(id="alpha-divide-black", property="C03",
 needs="a CMYK colour with black ink and an alpha strictly between 0 and 1",
 what="alpha_divide leaves the fourth component undivided, so it does not undo alpha_multiply for CMYK",
 edits=[("spaces/color_base.h", "			for (size_t i = 0; i < m_component_vector.size(); ++i)\n			{\n				m_component_vector[i] /= m_alpha;", "			for (size_t i = 0; i < m_component_vector.size() && i < 3; ++i)\n			{\n				m_component_vector[i] /= m_alpha;")],
 demo='''
	cmyk c(0.2f, 0.4f, 0.6f, 0.8f, 0.5f, srgb());
	c.alpha_multiply(); c.alpha_divide();
	near(c.black(), 0.8, 1e-6, "black restored"); near(c.cyan(), 0.2, 1e-6, "cyan restored");
'''),
dict(id="hex-sign-bit", property="C04",
 needs="an integer code whose alpha byte is 0x80 or more",
 what="the alpha of integer codes loses its top bit",
 edits=[("spaces/rgb_truecolor.cpp", "	this->alpha((float)((hex_code >> 24) & 0xff));", "	this->alpha((float)((hex_code & 0x7fffffff) >> 24));")],
 demo='''
	rgb_truecolor c((int)0xC8102030, srgb());
	near(c.alpha(), 0xC8, 1e-3, "alpha"); near(c.red(), 0x10, 1e-4, "red");
'''),
dict(id="gamma-late-part", property="C05",
 needs="an inverse part with a lower border added after one with a higher border",
 what="a part added to the inverse curve is not sorted in, so a value is decoded with the part of a higher border",
 edits=[("spaces/gamma.h", "			m_inverse_gamma_curve_parts.push_back(new_part);\n			sort_inverse_gamma_parts();\n", "			m_inverse_gamma_curve_parts.push_back(new_part);\n")],
 demo='''
	gamma_part hi([](float x) { return x * 0.5f; }, 1.f), lo([](float x) { return x + 0.25f; }, 0.25f);
	color_space::gamma g;
	g.add_inverse_gamma_curve_part(&hi); g.add_inverse_gamma_curve_part(&lo);
	near(g.inverse_gamma_correction(0.125f), 0.375, 1e-6, "low value uses the low part");
	near(g.inverse_gamma_correction(0.5f), 0.25, 1e-6, "high value uses the high part");
'''),
dict(id="white-luminance", property="C06",
 needs="converting chromaticities with a luminance other than 1",
 what="chromaticity_coordinate_to_tristimulus ignores the requested Y for the Y component",
 edits=[("spaces/white_point.h", "			result[1] = factor * chromaticity_coordinates[1];\n", "			result[1] = 1.f;\n")],
 demo='''
	std::array<float, 3> c{ 0.3127f, 0.329f, 0.3583f };
	auto t = white_point::chromaticity_coordinate_to_tristimulus(c, 0.5f);
	near(t[1], 0.5, 1e-6, "Y"); near(t[0], 0.5 * 0.3127 / 0.329, 1e-6, "X");
'''),
dict(id="white-same-x", property="C07",
 needs="replacing the white point by one with the same X tristimulus value",
 what="set_white_point keeps the old matrices when the X of both white points agree",
 edits=[("spaces/rgb_color_space_definition.h", "			m_white = new_white_point;\n			m_transform_matrix = calculate", "			bool same = m_white->get_tristimulus_x() == new_white_point->get_tristimulus_x();\n			m_white = new_white_point;\n			if (same) return;\n			m_transform_matrix = calculate")],
 demo='''
	auto d = srgb();
	white_point* w = new white_point(d->get_white_point()->get_tristimulus_x(), 1.f, 0.8f);
	d->set_white_point(w);
	auto v = d->get_transform_matrix() * std::vector<float>{ 1.f, 1.f, 1.f };
	near(v[2], 0.8, 1e-5, "white maps to the new white point");
'''),
dict(id="det-equal-columns", property="C08",
 needs="a square matrix with two columns that agree in all rows but the last",
 what="two columns count as equal when they agree above the last row, so the determinant becomes 0 and the matrix is not inverted",
 edits=[("utils/matrix.h", "		for (int i = 0; i < m_rows; ++i)\n		{\n			if (m_values[i][col1] != m_values[i][col2]) return false;", "		for (int i = 0; i < m_rows - 1; ++i)\n		{\n			if (m_values[i][col1] != m_values[i][col2]) return false;")],
 demo='''
	matrix<float> m(3, std::vector<float>{ 1, 1, 0, 2, 2, 1, 3, 5, 0 });
	near(m.determinante(), -2, 1e-5, "determinant");
'''),
dict(id="hsi-grey-alpha", property="C09",
 needs="converting a translucent grey to HSI",
 what="an exactly grey colour becomes opaque when it is converted to HSI",
 edits=[(C, "		return new color_space::hsi(0.f, 0.f, min, color->alpha(), color->get_rgb_color_space());", "		return new color_space::hsi(0.f, 0.f, min, 1.f, color->get_rgb_color_space());")],
 demo='''
	rgb_deepcolor c(0.5f, 0.5f, 0.5f, 0.25f, srgb());
	near(CV::to_hsi(&c)->alpha(), 0.25, 1e-6, "alpha of grey");
	rgb_deepcolor e(0.5f, 0.25f, 0.5f, 0.25f, srgb());
	near(CV::to_hsi(&e)->alpha(), 0.25, 1e-6, "alpha of a colour");
'''),
dict(id="hcy-grey-hue", property="C10",
 needs="a colour with a tiny but nonzero chroma at high value",
 what="hsv conversion treats nearly grey colours as grey and drops their saturation",
 edits=[(C, "	if (max == min) // red = green = blue\n	{\n		return new color_space::hsv(0.f, 0.f, min, color->alpha(), color->get_rgb_color_space());", "	if (max - min < 0.004f) // red = green = blue\n	{\n		return new color_space::hsv(0.f, 0.f, min, color->alpha(), color->get_rgb_color_space());")],
 demo='''
	rgb_deepcolor c(0.903f, 0.9f, 0.9f, 1.f, srgb());
	near(CV::to_hsv(&c)->value(), 0.903, 1e-5, "value"); near(CV::to_hsv(&c)->saturation(), 0.003 / 0.903, 1e-5, "saturation");
'''),
dict(id="lab-threshold", property="C11",
 needs="a dark colour in Lab, where the linear part of the curve applies",
 what="lab_to_xyz compares the argument itself instead of its cube with epsilon: dark colours are decoded with the wrong branch",
 edits=[(C, "		if (component > epsilon)\n", "		if (color_component > epsilon)\n")],
 demo='''
	auto d = srgb();
	lab c(3.f, 1.f, -1.f, 1.f, d);
	double fy = 19.0 / 116, fx = fy + 1.0 / 500, wx = d->get_white_point()->get_tristimulus_x();
	near(CV::to_xyz(&c)->x(), wx * (116 * fx - 16) / (24389.0 / 27), 1e-5, "X of a dark colour");
'''),
dict(id="xyy-low-y", property="C12",
 needs="a saturated blue in a wide gamut definition whose y chromaticity is below 0.01",
 what="xyy_to_xyz treats small y as black: such blues vanish on the way through xyY",
 edits=[(C, "	if (color->y() == 0)\n", "	if (color->y() < 0.01f)\n")],
 demo='''
	rgb_color_space_definition_presets p;
	rgb_deepcolor c(0.f, 0.f, 0.9f, 1.f, p.rommRGB());
	auto back = CV::to_rgb_deep(CV::to_xyy(&c));
	near(back->blue(), 0.9, 5e-3, "blue after xyY");
'''),
dict(id="dest-type", property="C13",
 needs="compositing colours of different types with dest",
 what="porter_duff::dest returns a colour of the destination's type",
 edits=[("manipulation/porter_duff.cpp", "			false, \n			true, \n			true,\n			[](float s_component, float d_component) {return d_component; }),\n		source->get_color_type());", "			false, \n			true, \n			true,\n			[](float s_component, float d_component) {return d_component; }),\n		destination->get_color_type());")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(0.1f, 0.2f, 0.3f, 0.5f, d); hsl t(120.f, 0.5f, 0.5f, 0.5f, d);
	expect(porter_duff::dest(&s, &t)->get_color_type() == color_type::RGB_DEEP, "type of the source");
	expect(porter_duff::over(&s, &t)->get_color_type() == color_type::RGB_DEEP, "type of the source (over)");
'''),
dict(id="vivid-half", property="C14",
 needs="a source component just above one half together with a destination component of 1, in vivid light",
 what="vivid light divides before it looks at the destination: 0/0 at the middle of the range, and white over the upper half turns wrong",
 edits=[("manipulation/color_blend.h", "				if (d == 1.f) return 1.f;\n				else return 1.f - (1.f - d) / (2.f * (s - 0.5f));", "				return 1.f - (1.f - fminf(d, 0.996f)) / (2.f * (s - 0.5f));")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(0.502f, 0.75f, 0.9f, 1.f, d), t(1.f, 1.f, 0.5f, 1.f, d);
	near(color_blend::vivid_light(&s, &t)->get_component(0), 1, 1e-6, "white stays white");
	near(color_blend::vivid_light(&s, &t)->get_component(2), 1 - 0.5 / 0.8, 1e-5, "formula");
'''),
dict(id="dissolve-preference", property="C15",
 needs="many draws of dissolve with a destination that is more opaque than the source",
 what="dissolve prefers the source also where the destination is more opaque",
 edits=[("manipulation/color_blend.h", "				return (rand_val >= threshold) ? d : s; // return d in 3/4 of the cases", "				return (rand_val >= threshold) ? s : d; // return d in 3/4 of the cases")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(1.f, 1.f, 1.f, 0.5f, d), t(0.f, 0.f, 0.f, 1.f, d);
	int src = 0, n = 3000;
	for (int i = 0; i < n; ++i)
	{
		// the result is 0.5 where the source was taken for the common region, 0 otherwise
		if (CV::to_rgb_deep(color_blend::dissolve(&s, &t))->red() > 0.25f) ++src;
	}
	expect(src < n / 2, "the more opaque destination is preferred");
'''),
dict(id="custom-regions", property="C16",
 needs="custom_componentwise_blend with exactly one region switched off",
 what="the region flags of the custom blend are exchanged",
 edits=[("manipulation/color_blend.cpp", "			use_source_region,\n			use_destination_region,\n			true,\n			blend_function),", "			use_destination_region,\n			use_source_region,\n			true,\n			blend_function),")],
 demo='''
	auto d = srgb();
	rgb_deepcolor s(1.f, 1.f, 1.f, 0.5f, d), t(0.f, 0.f, 0.f, 0.25f, d);
	auto f = [](float a, float b) { return a * b; };
	near(color_blend::custom_componentwise_blend(&s, &t, true, false, f)->alpha(), 0.5, 1e-6, "source region only");
	near(color_blend::custom_componentwise_blend(&s, &t, false, true, f)->alpha(), 0.25, 1e-6, "destination region only");
'''),
dict(id="mix-lch-uv", property="C17",
 needs="mixing LCHuv colours with a weight other than one half",
 what="mix of LCHuv colours weighs both with the same weight",
 edits=[(K, "color_manipulation::color_calculation::mix(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)\n{\n	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument(\"Parameter weight has to be in the range [0,1].\");\n\n	return add(color1, color2, weight, 1.f - weight, include_alpha);",
   "color_manipulation::color_calculation::mix(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)\n{\n	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument(\"Parameter weight has to be in the range [0,1].\");\n\n	return add(color1, color2, weight, weight, include_alpha);")],
 demo='''
	auto d = srgb();
	lch_uv a(50.f, 20.f, 30.f, 1.f, d);
	auto m = color_calculation::mix(&a, &a, 0.25f, false);
	near(m->luminance(), 50, 0.05, "mix of a colour with itself");
'''),
dict(id="subtract-alpha-weight", property="C18",
 needs="subtracting XYZ colours with include_alpha and a weight other than 1",
 what="subtract of XYZ colours does not weigh the alpha",
 edits=[(K, "	auto z = color1->z() - weight * color2->z();\n	auto a = include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha();", "	auto z = color1->z() - weight * color2->z();\n	auto a = include_alpha ? color1->alpha() - color2->alpha() : color1->alpha();")],
 demo='''
	auto d = srgb();
	xyz a(0.5f, 0.5f, 0.5f, 0.9f, d), b(0.2f, 0.2f, 0.2f, 0.4f, d);
	near(color_calculation::subtract(&a, &b, 0.5f, true)->alpha(), 0.7, 1e-6, "alpha");
'''),
dict(id="average-truncates", property="C19",
 needs="8-bit colours with fractional components (results of arithmetic) in the list",
 what="average_rgb_true drops the fractions of the summands",
 edits=[(K, "		sum[1] += colors[i]->green();\n		sum[2] += colors[i]->blue();\n		sum[3] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();\n	}\n	return new color_space::rgb_truecolor", "		sum[1] += (unsigned int)colors[i]->green();\n		sum[2] += colors[i]->blue();\n		sum[3] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();\n	}\n	return new color_space::rgb_truecolor")],
 demo='''
	auto d = srgb();
	rgb_truecolor a(10.f, 20.75f, 30.f, 255.f, d), b(20.f, 30.75f, 40.f, 255.f, d);
	near(color_calculation::average_rgb_true({ &a, &b }, false)->green(), 25.75, 1e-4, "mean of green");
'''),
dict(id="base-add-hsl", property="C20",
 needs="adding to an HSL colour through the base class, without include_alpha, with different alphas",
 what="the base class add of HSL colours always includes the alpha",
 edits=[(K, "		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);", "		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, true);")],
 demo='''
	auto d = srgb();
	hsl a(10.f, 0.2f, 0.5f, 0.75f, d), b(30.f, 0.2f, 0.5f, 0.5f, d);
	near(color_calculation::add((color_base*)&a, (color_base*)&b, 0.5f, 0.5f, false)->alpha(), 0.75, 1e-6, "alpha of the first colour");
'''),
dict(id="distance-shortcut", property="C21",
 needs="two colours with equal components and different rgb definitions, measured in CIELUV",
 what="colours with equal components count as equal although their definitions make them different colours",
 edits=[("manipulation/color_distance.cpp", "	if (color1 == color2) return 0.f; // both colors have same type and are equal\n\n	float squared_distance = 0.f;\n	if (calculation_space", "	if (*color1 == *color2) return 0.f; // both colors have same type and are equal\n\n	float squared_distance = 0.f;\n	if (calculation_space")],
 demo='''
	rgb_color_space_definition_presets p;
	rgb_deepcolor a(0.f, 0.9f, 0.1f, 1.f, p.sRGB()), b(0.f, 0.9f, 0.1f, 1.f, p.adobeRGB());
	auto x = CV::to_cieluv(&a), y = CV::to_cieluv(&b);
	double w = 0; for (int i = 0; i < 3; ++i) w += std::pow(x->get_component(i) - y->get_component(i), 2);
	near(color_distance::euclidean_distance_squared(&a, &b, color_type::CIELUV), w, 1e-3 * w, "distance of different colours");
	expect(w > 1, "they differ");
'''),
dict(id="cmc-dark-reference", property="C22",
 needs="a reference darker than L=16 compared with a lighter sample, or the reverse",
 what="CMC l:c takes the lightness weight's branch by the sample instead of the reference",
 edits=[("manipulation/color_distance.cpp", "	if (color1_lab->luminance() < 16.f)\n", "	if (color2_lab->luminance() < 16.f)\n")],
 demo='''
	auto d = srgb();
	lab a(10.f, 0.f, 0.f, 1.f, d), b(20.f, 0.f, 0.f, 1.f, d);
	near(color_distance::cmc_delta_e_lc84(&a, &b, 2.f, 1.f), 10 / (2 * 0.511), 1e-3, "dark reference");
'''),
dict(id="luminate-alpha", property="C23",
 needs="luminating a translucent 8-bit colour in RGB space",
 what="luminate_in_rgb_space takes the alpha in the scale of the input type: translucent 8-bit colours become opaque",
 edits=[("manipulation/color_adjustments.cpp", "	auto new_b = color_rgb_d->blue() * factor;\n\n	return color_manipulation::color_converter::convertTo(new color_space::rgb_deepcolor(new_r, new_g, new_b, color_rgb_d->alpha(),", "	auto new_b = color_rgb_d->blue() * factor;\n\n	return color_manipulation::color_converter::convertTo(new color_space::rgb_deepcolor(new_r, new_g, new_b, color->alpha(),")],
 demo='''
	rgb_truecolor c(100.f, 50.f, 20.f, 128.f, srgb());
	near(color_adjustments::luminate_in_rgb_space(&c, 0.2f)->alpha(), 128, 1e-3, "alpha kept");
'''),
dict(id="combination-int-degrees", property="C24",
 needs="a combination of a number of colours that does not divide 360",
 what="the angle between the colours is truncated to whole degrees",
 edits=[("manipulation/color_combinations.cpp", "	auto degrees = 360.f / number_of_colors;", "	auto degrees = 360 / number_of_colors;")],
 demo='''
	hsl c(0.f, 0.5f, 0.5f, 1.f, srgb());
	auto v = color_combinations::create_combination(&c, 7);
	near(v[6]->get_component(0), 6 * 360.0 / 7, 0.01, "last of seven");
'''),
dict(id="cmccat-luminances", property="C25",
 needs="cmccat2000 with adapting and reference luminances that differ",
 what="the degree of adaptation of CMCCAT2000 uses the difference of the luminances with the wrong sign",
 edits=[("manipulation/chromatic_adaptation.cpp", "((adapting_field_luminance - reference_field_luminance) /", "((reference_field_luminance - adapting_field_luminance) /")],
 demo='''
	rgb_color_space_definition_presets p; white_point_presets w;
	auto d = p.sRGB(); xyz c(0.3f, 0.4f, 0.2f, 1.f, d); auto t = w.A_2Degree();
	// La = 1, Lr = 9: d = 0.08*log10(5) + 0.76 + 0.45*0.8 > 1 -> 1: complete adaptation
	auto full = chromatic_adaptation::cmccat2000_adaptation_simplified(&c, t);
	auto got = chromatic_adaptation::cmccat2000_adaptation(&c, t, 1.f, 1.f, 9.f);
	near(got->get_component(0), full->get_component(0), 1e-5, "complete adaptation X");
	near(got->get_component(2), full->get_component(2), 1e-5, "complete adaptation Z");
'''),
dict(id="stale-inverse", property="C26",
 needs="two conversions from XYZ with one definition whose white point is changed in between",
 what="xyz_to_rgb_deep keeps the inverse matrix of the last definition object, also when its white point was replaced",
 edits=[(C, "	auto rgb_components = color->get_rgb_color_space()->get_inverse_transform_matrix()* color->get_component_vector();", "	static color_space::rgb_color_space_definition* last = nullptr;\n	static matrix<float> inverse;\n	if (last != color->get_rgb_color_space())\n	{\n		last = color->get_rgb_color_space();\n		inverse = last->get_inverse_transform_matrix();\n	}\n	auto rgb_components = inverse * color->get_component_vector();")],
 demo='''
	auto d = srgb(); white_point_presets w;
	xyz c(0.3f, 0.4f, 0.2f, 1.f, d);
	CV::to_rgb_deep(&c);
	d->set_white_point(w.A_2Degree());
	auto got = CV::to_rgb_deep(&c);
	auto e = srgb(); e->set_white_point(w.A_2Degree());
	xyz c2(0.3f, 0.4f, 0.2f, 1.f, e);
	auto want = CV::to_rgb_deep(&c2);
	near(got->blue(), want->blue(), 1e-6, "blue after the white point changed");
	near(got->red(), want->red(), 1e-6, "red after the white point changed");
'''),
dict(id="combination-limit", property="C27",
 needs="the largest permitted number of colours",
 what="a combination of 360 colours is refused",
 edits=[("manipulation/color_combinations.cpp", "	if (number_of_colors > 360) throw", "	if (number_of_colors >= 360) throw")],
 demo='''
	hsl c(0.f, 0.5f, 0.5f, 1.f, srgb());
	expect(!raises([&] { color_combinations::create_combination(&c, 360); }), "360 colours are permitted");
	expect(raises([&] { color_combinations::create_combination(&c, 361); }), "361 are not");
'''),
]
