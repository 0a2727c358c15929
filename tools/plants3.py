PLANTS = [
dict(id="luv-neutral-snap", property="C01", needs="a u component closer than 0.005 to zero", what="tiny u components are set to zero",
 edits=[("spaces/cieluv.cpp", "void color_space::cieluv::u(float new_u)\n{\n", "void color_space::cieluv::u(float new_u)\n{\n	if (fabsf(new_u) < 0.005f) new_u = 0.f; // noise of the conversion\n")],
 demo='cieluv c(50, 0.004f, -0.004f, 1, srgb()); near(c.u(), 0.004, 1e-6, "u"); near(c.v(), -0.004, 1e-6, "v");'),
dict(id="unequal-by-components", property="C02", needs="two colours of different types with the same components, compared with !=", what="colours of different types with equal components are not unequal",
 edits=[("spaces/color_base.h", "			return !(lhs == rhs);", "			return lhs.m_component_vector != rhs.m_component_vector;")],
 demo='hsv a(120, 0.5f, 0.5f, 1, srgb()); hsl b(120, 0.5f, 0.5f, 1, srgb()); color_base &x = a, &y = b; expect(x != y, "types differ"); expect(!(x == y), "types differ"); hsv c(120, 0.5f, 0.5f, 1, srgb()); color_base& z = c; expect(!(x != z), "equal");'),
dict(id="alpha-multiply-cutoff", property="C03", needs="an alpha above 0 and below 1/255", what="a colour whose alpha is almost zero is not multiplied",
 edits=[("spaces/color_base.h", "				m_component_vector[i] *= m_alpha;", "				if (m_alpha == 0.f || m_alpha >= 1.f / 255.f) m_component_vector[i] *= m_alpha;")],
 demo='rgb_deepcolor c(0.5f, 0.25f, 1, 0.002f, srgb()); c.alpha_multiply(); near(c.red(), 0.001, 1e-6, "red"); near(c.blue(), 0.002, 1e-6, "blue");'),
dict(id="hex-int-opaque", property="C04", needs="an integer colour code whose alpha byte is 0", what="an integer colour code without alpha gives an opaque colour",
 edits=[("spaces/rgb_truecolor.cpp", "	this->alpha((float)((hex_code >> 24) & 0xff));", "	int alpha_bits = (hex_code >> 24) & 0xff;\n	this->alpha(alpha_bits == 0 && hex_code != 0 ? 255.f : (float)alpha_bits);")],
 demo='rgb_truecolor c(0x00102030, srgb()); near(c.alpha(), 0, 1e-4, "alpha"); near(c.red(), 16, 0, "red"); rgb_truecolor d((int)0x80102030, srgb()); near(d.alpha(), 128, 1e-3, "alpha");'),
dict(id="hex-alpha-fe", property="C04", needs="a hex code whose alpha is FE", what="a hex code with an alpha of FE gives an opaque colour",
 edits=[("spaces/rgb_truecolor.cpp", """		int a, r, g, b;
		sscanf_s(hex_code.c_str(), "%02x%02x%02x%02x", &a, &r, &g, &b);
""", """		int a, r, g, b;
		sscanf_s(hex_code.c_str(), "%02x%02x%02x%02x", &a, &r, &g, &b);
		if (a == 0xfe) a = 0xff; // practically opaque
""")],
 demo='rgb_truecolor c("#fe102030", srgb()); near(c.alpha(), 254, 1e-3, "alpha"); rgb_truecolor d("FD102030", srgb()); near(d.alpha(), 253, 1e-3, "alpha");'),
dict(id="gamma-copy-shares-inverse", property="C05", needs="a curve with different parts for the two directions, assigned to another", what="assigning a curve takes over its parts of one direction only when that direction has parts",
 edits=[("spaces/gamma.h", """			if (this != &other)
			{
				m_gamma_curve_parts = other.get_gamma_curve_parts();
				m_inverse_gamma_curve_parts = other.get_inverse_gamma_curve_parts();
				sort_gamma_parts();""", """			if (this != &other)
			{
				m_gamma_curve_parts = other.get_gamma_curve_parts();
				if (!other.m_inverse_gamma_curve_parts.empty()) m_inverse_gamma_curve_parts = other.get_inverse_gamma_curve_parts();
				sort_gamma_parts();""")],
 demo='std::vector<gamma_part*> g{ new gamma_part([](float x) { return x / 2; }) }, none; color_space::gamma a(g, none), b(none, g); near(b.inverse_gamma_correction(0.5f), 0.25, 1e-6, "b"); b = a; near(b.gamma_correction(0.5f), 0.25, 1e-6, "encode"); near(b.inverse_gamma_correction(0.5f), 0.5, 1e-6, "decode");'),
dict(id="white-equality-tristimulus", property="C06", needs="two white points with the same tristimulus values and different chromaticities, compared with ==", what="the chromaticity is left out of the comparison of white points",
 edits=[("spaces/white_point.h", """		bool operator==(const white_point& other) const
		{
			return m_tristimulus == other.get_tristimulus() && m_chromaticity_coordinate == other.get_chromaticity_coordinate();""", """		bool operator==(const white_point& other) const
		{
			return m_tristimulus == other.get_tristimulus();""")],
 demo='const white_point a(0.95f, 1, 1.08f, 0.3f, 0.3f), b(0.95f, 1, 1.08f, 0.31f, 0.3f); expect(!(a == b), "differ"); expect(a != b, "differ");'),
dict(id="generic-lab-gamut", property="C11", needs="a Lab colour outside of the gamut of its definition, converted to xyY by the generic conversion", what="the generic conversion from Lab to xyY goes through RGB",
 edits=[("manipulation/color_converter.cpp", "		return color_manipulation::color_converter::lab_to_xyy(static_cast<color_space::lab*>(in_color));", "		return color_manipulation::color_converter::rgb_deep_to_xyy(color_manipulation::color_converter::lab_to_rgb_deep(static_cast<color_space::lab*>(in_color)));")],
 demo='lab c(60, -120, 80, 1, srgb()); auto a = CV::to_xyy(&c); auto b = CV::to_xyy(CV::to_xyz(&c)); near(a->x(), b->x(), 1e-5, "x"); near(a->y(), b->y(), 1e-5, "y"); near(a->Y(), b->Y(), 1e-5, "Y");'),
dict(id="alpha-by-256", property="C10", needs="a deep colour whose alpha lies in the upper part of an 8-bit step", what="the alpha of deep colours is cut instead of rounded",
 edits=[("manipulation/color_converter.cpp", "roundf(color->blue()* 255.f), roundf(color->alpha()* 255.f), color->get_rgb_color_space());", "roundf(color->blue()* 255.f), floorf(fminf(color->alpha()* 256.f, 255.f)), color->get_rgb_color_space());")],
 demo='rgb_deepcolor c(0.5f, 0.25f, 1, 127 / 255.f, srgb()); near(CV::to_rgb_true(&c)->alpha(), 127, 0, "alpha"); c.alpha(10.7f / 255); near(CV::to_rgb_true(&c)->alpha(), 11, 0, "alpha");'),
dict(id="lch-vertical-hue", property="C11", needs="a Lab colour with a of exactly 0 and a negative b", what="the hue of a Lab colour with a of 0 and a negative b is 90 instead of 270 degrees",
 edits=[("manipulation/color_converter.cpp", "	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());\n", "	if (color->a() == 0.f) hue = color->b() == 0.f ? hue : 90.f;\n	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());\n")],
 demo='lab c(50, 0, 40, 1, srgb()); near(CV::to_lch_ab(&c)->hue(), 90, 1e-3, "hue"); lab d(50, 0, -40, 1, srgb()); near(CV::to_lch_ab(&d)->hue(), 270, 1e-3, "hue");'),
dict(id="lab-near-neutral", property="C12", needs="an almost neutral dark colour that passes through Lab", what="almost neutral colours become neutral in Lab",
 edits=[("manipulation/color_converter.cpp", "	auto b = 200.f* (func_y - func_z);\n", "	auto b = 200.f* (func_y - func_z);\n	if (color->y() < 0.0001f && a * a + b * b < 0.5f) a = b = 0.f; // neutral but for rounding\n")],
 demo='rgb_truecolor c(0, 0, 1, 255, srgb()); auto d = CV::to_rgb_true(CV::to_lab(&c)); near(d->blue(), 1, 0, "blue"); near(d->red(), 0, 0, "red"); rgb_truecolor e(128, 128, 129, 255, srgb()); near(CV::to_rgb_true(CV::to_lab(&e))->blue(), 129, 0, "blue");'),
dict(id="cmyk-dark-ink", property="C12", needs="a colour darker than one 8-bit step that passes through CMYK", what="colours darker than one 8-bit step are black in CMYK",
 edits=[("manipulation/color_converter.cpp", "	auto c = (1 - color->red() - k) / (1.f - k);\n", "	if (k > 0.998f) k = 1.f - 1e-6f; // practically black\n	auto c = (1 - color->red() - k) / (1.f - k);\n")],
 demo='rgb_deepcolor c(0.0015f, 0.001f, 0, 1, srgb()); auto d = CV::to_rgb_deep(CV::to_cmyk(&c)); near(d->red(), 0.0015, 1e-5, "red"); near(d->green(), 0.001, 1e-5, "green");'),
dict(id="composite-near-opaque", property="C13", needs="a destination whose alpha is between 0.998 and 1", what="an almost opaque destination counts as opaque",
 edits=[("manipulation/base_color_blend.h", "			float src_area = source->alpha() * (1.f - destination->alpha());", "			float src_area = destination->alpha() > 0.998f ? 0.f : source->alpha() * (1.f - destination->alpha());")],
 demo='rgb_deepcolor s(1, 0, 0, 1, srgb()); rgb_deepcolor d(0, 1, 0, 0.9985f, s.get_rgb_color_space()); auto r = porter_duff::out(&s, &d); near(r->alpha(), 0.0015, 1e-6, "alpha"); d.alpha(0.5f); near(porter_duff::out(&s, &d)->alpha(), 0.5, 1e-6, "alpha");'),
dict(id="pin-light-border", property="C14", needs="a source component between one half and 0.6 in pin light", what="pin light switches from darkening to lightening at 0.6",
 edits=[("manipulation/color_blend.h", "			if (s <= 0.5f) return std::fminf(d, 2.f * s);", "			if (s <= 0.6f) return std::fminf(d, 2.f * s);")],
 demo='auto D = srgb(); rgb_deepcolor s(0.59f, 0.4f, 0.7f, 1, D), d(0.17f, 0.9f, 0.5f, 1, D); auto r = color_blend::pin_light(&s, &d); near(r->get_component(0), 0.18, 1e-5, "r"); near(r->get_component(1), 0.8, 1e-5, "g"); near(r->get_component(2), 0.5, 1e-5, "b");'),
dict(id="divide-by-dark", property="C14", needs="divide with a dark source component and a darker destination component", what="divide by a dark source component gives white",
 edits=[("manipulation/color_blend.h", "			if (s == 0.f) return 1.f;\n			else return d / s;", "			if (s < 0.002f) return 1.f;\n			else return d / s;")],
 demo='auto D = srgb(); rgb_deepcolor s(0.0015f, 0.5f, 0, 1, D), d(0.0005f, 0.25f, 0.5f, 1, D); auto r = color_blend::divide(&s, &d); near(r->get_component(0), 1.0 / 3, 1e-4, "r"); near(r->get_component(1), 0.5, 1e-4, "g"); near(r->get_component(2), 1, 1e-4, "b");'),
dict(id="luminosity-grey-dest", property="C15", needs="luminosity blending with a destination of a small chroma", what="luminosity blending drops small chromas of the destination",
 edits=[("manipulation/color_blend.cpp", "new color_space::hcy(d_hcy->hue(), d_hcy->chroma(), s_hcy->luma(),", "new color_space::hcy(d_hcy->hue(), d_hcy->chroma() < 0.01f ? 0.f : d_hcy->chroma(), s_hcy->luma(),")],
 demo='auto D = srgb(); hcy s(10, 0.1f, 0.5f, 1, D), d(200, 0.008f, 0.4f, 1, D); auto r = color_blend::luminosity(&s, &d); near(r->get_component(1), 0.008, 1e-5, "chroma"); near(r->get_component(2), 0.5, 1e-5, "luma"); near(r->get_component(0), 200, 1e-3, "hue");'),
dict(id="custom-same-color", property="C16", needs="a custom function and two colours of equal components", what="custom blending of equal colours does not call the function",
 edits=[("manipulation/color_blend.cpp", """	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");

	return color_converter::convertTo(
		(new color_blend())->general_porter_duff(
			color_converter::to_rgb_deep(source),
			color_converter::to_rgb_deep(destination),
			use_source_region,
			use_destination_region,
			true,
			blend_function),""", """	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
	if (*source == *destination && use_source_region && use_destination_region) return normal(source, destination, use_source_region, use_destination_region); // nothing to blend

	return color_converter::convertTo(
		(new color_blend())->general_porter_duff(
			color_converter::to_rgb_deep(source),
			color_converter::to_rgb_deep(destination),
			use_source_region,
			use_destination_region,
			true,
			blend_function),""")],
 demo='auto D = srgb(); rgb_deepcolor s(0.2f, 0.4f, 0.6f, 1, D), d(0.2f, 0.4f, 0.6f, 1, D); auto f = [](float a, float b) { return a * b; }; auto r = color_blend::custom_componentwise_blend(&s, &d, true, true, f); near(r->get_component(0), 0.04, 1e-6, "r"); d.red(0.3f); r = color_blend::custom_componentwise_blend(&s, &d, true, true, f); near(r->get_component(0), 0.06, 1e-6, "r");'),
dict(id="add-byte-square", property="C17", needs="adding 8-bit colours with fractional components", what="8-bit components are cut to whole numbers before they are added",
 edits=[("manipulation/color_calculation.cpp", """	auto g = std::sqrtf(weight1 * std::powf(color1->green(), 2.f) + weight2 * std::powf(color2->green(), 2.f));
	auto b = std::sqrtf(weight1 * std::powf(color1->blue(), 2.f) + weight2 * std::powf(color2->blue(), 2.f));
	auto a = include_alpha ? std::sqrtf(weight1 * std::powf(color1->alpha(), 2.f) + weight2 * std::powf(color2->alpha(), 2.f)) : color1->alpha();

	return new color_space::rgb_truecolor(fminf(""", """	int g1 = (int)color1->green(), g2 = (int)color2->green();
	auto g = std::sqrtf(weight1 * (g1 * g1) + weight2 * (g2 * g2));
	auto b = std::sqrtf(weight1 * std::powf(color1->blue(), 2.f) + weight2 * std::powf(color2->blue(), 2.f));
	auto a = include_alpha ? std::sqrtf(weight1 * std::powf(color1->alpha(), 2.f) + weight2 * std::powf(color2->alpha(), 2.f)) : color1->alpha();

	return new color_space::rgb_truecolor(fminf(""")],
 demo='auto D = srgb(); rgb_truecolor a(10, 30.5f, 10, 255, D), b(10, 40.75f, 10, 255, D); auto r = color_calculation::add(&a, &b, 1.f, 1.f, false); near(r->green(), 50.9, 0.005, "green"); rgb_truecolor c(10, 30, 10, 255, D), d(10, 40, 10, 255, D); near(color_calculation::add(&c, &d, 1.f, 1.f, false)->green(), 50, 1e-3, "green");'),
dict(id="mix-half-alpha", property="C17", needs="mixing grey colours with include_alpha and a weight other than one half", what="mixing 8-bit grey colours takes the mean of the alphas whatever the weight",
 edits=[("manipulation/color_calculation.cpp", "	auto v = weight1 * color1->grey() + weight2 * color2->grey();\n	auto a = include_alpha ? weight1 * color1->alpha() + weight2 * color2->alpha() : color1->alpha();\n\n	return new color_space::grey_truecolor(", "	auto v = weight1 * color1->grey() + weight2 * color2->grey();\n	auto a = include_alpha ? (weight1 + weight2 == 1.f ? 0.5f * (color1->alpha() + color2->alpha()) : weight1 * color1->alpha() + weight2 * color2->alpha()) : color1->alpha();\n\n	return new color_space::grey_truecolor(")],
 demo='auto D = srgb(); grey_truecolor a(10, 100, D), b(20, 200, D); near(color_calculation::mix(&a, &b, 0.25f, true)->alpha(), 175, 1e-2, "alpha"); near(color_calculation::mix(&a, &b, 0.5f, true)->alpha(), 150, 1e-2, "alpha"); near(color_calculation::add(&a, &b, 0.5f, 1.f, true)->alpha(), 250, 1e-2, "alpha");'),
dict(id="subtract-small", property="C18", needs="subtracting a grey colour that is less than 0.001 away", what="the difference of almost equal deep grey colours is 0",
 edits=[("manipulation/color_calculation.cpp", "	return new color_space::grey_deepcolor(color1->grey() - weight * color2->grey(), ", "	auto difference = color1->grey() - weight * color2->grey();\n	if (difference < 0.001f) difference = 0.f;\n	return new color_space::grey_deepcolor(difference, ")],
 demo='auto D = srgb(); grey_deepcolor a(0.5f, 1, D), b(0.4995f, 1, D); near(color_calculation::subtract(&a, &b, 1.f, false)->grey(), 0.0005, 1e-6, "grey"); near(color_calculation::subtract(&a, &b, 0.5f, false)->grey(), 0.25025, 1e-6, "grey");'),
dict(id="average-hue-circle", property="C19", needs="hues that lie on both sides of red in a list of HSV colours", what="the average of HSV hues is taken around the circle for some lists",
 edits=[("manipulation/color_calculation.cpp", "		sum[0] += colors[i]->hue();\n		sum[1] += colors[i]->saturation();\n		sum[2] += colors[i]->value();", "		sum[0] += (i > 0 && colors[i]->hue() - colors[0]->hue() > 300.f) ? colors[i]->hue() - 360.f : colors[i]->hue();\n		sum[1] += colors[i]->saturation();\n		sum[2] += colors[i]->value();")],
 demo='auto D = srgb(); hsv a(10, 0.5f, 0.5f, 1, D), b(350, 0.5f, 0.5f, 1, D); near(color_calculation::average_hsv({ &a, &b }, false)->hue(), 180, 1e-3, "hue"); near(color_calculation::average_hsv({ &b, &a }, false)->hue(), 180, 1e-3, "hue"); hsv c(100, 0.5f, 0.5f, 1, D); near(color_calculation::average_hsv({ &a, &c }, false)->hue(), 55, 1e-3, "hue");'),
dict(id="average-unsigned-list", property="C19", needs="a list of more than 255 xyY colours", what="lists of more than 255 xyY colours are averaged over fewer",
 edits=[("manipulation/color_calculation.cpp", "	for (unsigned int i = 0; i < colors.size(); ++i)\n	{\n		sum[0] += colors[i]->x();\n		sum[1] += colors[i]->y();\n		sum[2] += colors[i]->Y();", "	unsigned char count = (unsigned char)std::min<size_t>(colors.size(), 255);\n	for (unsigned int i = 0; i < count; ++i)\n	{\n		sum[0] += colors[i]->x();\n		sum[1] += colors[i]->y();\n		sum[2] += colors[i]->Y();")],
 demo='auto D = srgb(); std::vector<xyy*> l; for (int i = 0; i < 400; ++i) l.push_back(new xyy(0.25f, 0.5f, 0.25f, 1, D)); auto r = color_calculation::average_xyy(l, false); near(r->x(), 0.25, 1e-5, "x"); near(r->Y(), 0.25, 1e-5, "Y");'),
dict(id="base-mix-own-alpha", property="C20", needs="mixing through the base class, with the second colour of another type and include_alpha", what="mixing a CMYK colour with a colour of another type through the base class leaves the alpha out",
 edits=[("manipulation/color_calculation.cpp", "		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);", "		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha && color2->get_color_type() != color_type::GREY_TRUE);")],
 demo='auto D = srgb(); cmyk a(0.1f, 0.2f, 0.3f, 0.4f, 1, D); grey_truecolor g(100, 51, D); color_base &x = a, &y = g; near(color_calculation::mix(&x, &y, 0.5f, true)->alpha(), 0.6, 1e-5, "alpha"); rgb_truecolor r(100, 10, 20, 51, D); color_base& z = r; near(color_calculation::mix(&x, &z, 0.5f, true)->alpha(), 0.6, 1e-5, "alpha");'),
dict(id="distance-small-zero", property="C21", needs="two colours less than 0.0005 apart", what="the squared distance of almost equal colours is 0",
 edits=[("manipulation/color_distance.cpp", "	return squared_distance;\n", "	return squared_distance < 2.5e-7f ? 0.f : squared_distance;\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.5003f, 0.5f, 0.5f, 1, D); near(color_distance::euclidean_distance(&a, &b), 0.0003, 1e-6, "distance");'),
dict(id="distance-luv-weighted", property="C21", needs="the Luv distance of colours with a lightness above 100", what="the Luv distance counts lightnesses above 100 as 100",
 edits=[("manipulation/color_distance.cpp", "			squared_distance += powf(color1_cieluv->get_component_vector()[i] - color2_cieluv->get_component_vector()[i], 2.f);", "			squared_distance += i == 0 && color1_cieluv->get_component_vector()[i] < 0.5f ? powf(color2_cieluv->get_component_vector()[i], 2.f) : powf(color1_cieluv->get_component_vector()[i] - color2_cieluv->get_component_vector()[i], 2.f);")],
 demo='auto D = srgb(); cieluv a(0.4f, 0, 0, 1, D), b(10, 0, 0, 1, D); near(color_distance::euclidean_distance(&a, &b, color_type::CIELUV), 9.6, 1e-4, "distance"); near(color_distance::euclidean_distance(&b, &a, color_type::CIELUV), 9.6, 1e-4, "distance");'),
dict(id="cmc-hue-window", property="C22", needs="a reference whose hue lies between 345 and 355 degrees", what="CMC l:c uses the purple weights up to a hue of 355 degrees",
 edits=[("manipulation/color_distance.cpp", "	if (H > 164.f && H <= 345.f)", "	if (H > 164.f && H <= 355.f)")],
 demo='auto D = srgb(); lab a(50, 60 * cosf(-6 * 3.14159265f / 180), 60 * sinf(-6 * 3.14159265f / 180), 1, D), b(50, 60, 10, 1, D); double C1 = 60, C2 = sqrt(3700.), dC = C1 - C2, da = a.a() - 60, db = a.b() - 10, dH = sqrt(da * da + db * db - dC * dC), F = sqrt(pow(C1, 4) / (pow(C1, 4) + 1900)), T = 0.36 + fabs(0.4 * cos((354 + 35) * 3.14159265 / 180)), sC = 0.0638 * C1 / (1 + 0.0131 * C1) + 0.638, sH = sC * (F * T + 1 - F); near(color_distance::cmc_delta_e_lc84(&a, &b), sqrt(dC / sC * dC / sC + dH / sH * dH / sH), 2e-3, "cmc");'),
dict(id="cie94-grey-reference", property="C22", needs="a grey reference and a coloured sample", what="CIE94 leaves the chroma out when the reference is grey",
 edits=[("manipulation/color_distance.cpp", "	auto sc = 1.f + k1 * c1;", "	if (c1 < 0.05f) delta_c = 0.f; // a grey has no chroma to compare\n	auto sc = 1.f + k1 * c1;")],
 demo='auto D = srgb(); lab a(50, 0.01f, 0, 1, D), b(50, 10.01f, 0, 1, D); near(color_distance::cielab_delta_e_cie94(&a, &b), 10 / (1 + 0.045 * 0.01), 2e-3, "cie94"); near(color_distance::cielab_delta_e_cie94(&b, &a), 10 / (1 + 0.045 * 10.01), 2e-3, "cie94");'),
dict(id="saturate-cap", property="C23", needs="a share above 1", what="saturating in RGB is limited to a share of 1",
 edits=[("manipulation/color_adjustments.cpp", "	auto L = 0.299f * color_rgb_d->red()", "	if (percentage > 1.f) percentage = 1.f;\n	auto L = 0.299f * color_rgb_d->red()")],
 demo='auto D = srgb(); rgb_deepcolor c(0.5f, 0.45f, 0.5f, 1, D); auto r = color_adjustments::saturate_in_rgb_space(&c, 1.5f); double L = 0.299 * 0.5 + 0.587 * 0.45 + 0.114 * 0.5; near(r->get_component(0), 0.5 - 1.5 * (L - 0.5), 1e-5, "red");'),
dict(id="saturate-white", property="C23", needs="saturating in HSL by more than the range allows", what="a saturation that leaves the range is left as it was",
 edits=[("manipulation/color_adjustments.cpp", "	color_hsl->saturation(color_hsl->saturation() * factor);", "	if (color_hsl->saturation() * factor <= 1.f) color_hsl->saturation(color_hsl->saturation() * factor);")],
 demo='auto D = srgb(); hsl c(120, 0.7f, 0.4f, 1, D); auto r = color_adjustments::saturate_in_hsl_space(&c, 0.6f); near(r->get_component(1), 1, 1e-5, "saturation"); near(color_adjustments::saturate_in_hsl_space(&c, 0.2f)->get_component(1), 0.84, 1e-5, "saturation");'),
dict(id="analogous-sign", property="C24", needs="a negative distance between analogous colours", what="analogous colours of a negative distance come in the other order",
 edits=[("manipulation/color_combinations.cpp", """	if (distance_between > 360.f / 3.f) throw new std::invalid_argument("The distance can not be greater than 120 degrees.");
""", """	if (distance_between > 360.f / 3.f) throw new std::invalid_argument("The distance can not be greater than 120 degrees.");
	distance_between = fabsf(distance_between);
""")],
 demo='auto D = srgb(); hsl c(100, 0.7f, 0.4f, 1, D); auto r = color_combinations::create_analogous(&c, -30); near(r[0]->get_component(0), 130, 1e-3, "hue"); near(r[2]->get_component(0), 70, 1e-3, "hue");'),
dict(id="monochromatic-base-step", property="C24", needs="a monochromatic set of more than three colours by lightness", what="a set by lightness of more than three colours repeats its third",
 edits=[("manipulation/color_combinations.cpp", "		auto last_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(combination[combination.size() - 1], color_type::HSL));", "		auto last_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(combination[mode == 1 ? (combination.size() - 1) & 3 : combination.size() - 1], color_type::HSL));")],
 demo='auto D = srgb(); hsl c(100, 0.7f, 0.8f, 1, D); auto r = color_combinations::create_monochromatic(&c, 1, 0.1f, 6); for (int i = 0; i < 6; ++i) near(r[i]->get_component(2), 0.8 * pow(0.9, i), 1e-5, "lightness"); auto s = color_combinations::create_monochromatic(&c, 0, 0.1f, 6); for (int i = 0; i < 6; ++i) near(s[i]->get_component(1), 0.7 * pow(0.9, i), 1e-5, "saturation");'),
dict(id="split-wide", property="C24", needs="a complementary split by more than 90 degrees", what="a split by more than 90 degrees has its neighbours in the other order",
 edits=[("manipulation/color_combinations.cpp", "	complimentary.push_back(analogous_colors[0]);", "	if (amount > 90.f) std::swap(analogous_colors[0], analogous_colors[2]);\n	complimentary.push_back(analogous_colors[0]);")],
 demo='auto D = srgb(); hsl c(100, 0.7f, 0.4f, 1, D); auto r = color_combinations::create_complimentary_split(&c, 100); near(r[0]->get_component(0), 180, 1e-3, "hue"); near(r[2]->get_component(0), 20, 1e-3, "hue"); r = color_combinations::create_complimentary_split(&c, 30); near(r[0]->get_component(0), 250, 1e-3, "hue");'),
dict(id="cmccat97-negative-blue", property="C25", needs="the full CMCCAT97 adaptation of a colour with a third cone response far below 0", what="strongly negative blue responses become positive",
 edits=[("manipulation/chromatic_adaptation.cpp", "	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;", "	if (rgb_comp[2] < 0.f && rgb_comp[2] > -0.05f) rgbc[2] *= -1.f;")],
 demo='auto D = srgb(); auto t = D->get_white_point(); color_space::white_point W(0.9642f, 1, 0.8249f, 0.3457f, 0.3585f); (void)t; xyz a(0.f, 0.8f, 0.f, 1, D), b(0.f, 0.8f, 0.02f, 1, D); auto r = color_manipulation::chromatic_adaptation::cmccat97_adaptation(&a, &W, 1, 100); auto s = color_manipulation::chromatic_adaptation::cmccat97_adaptation(&b, &W, 1, 100); expect(r->get_component(2) < s->get_component(2), "Z grows");'),
dict(id="cmccat2000-factor", property="C25", needs="the full CMCCAT2000 adaptation to a white whose Y is not 1", what="the luminance of the target white is left out",
 edits=[("manipulation/chromatic_adaptation.cpp", "	auto wp_y_factor = d * (color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() / target_white_point->get_tristimulus_y());\n\n	// Adapt color\n	std::vector<float> rgbc;\n	rgbc.push_back((wp_y_factor", "	auto wp_y_factor = d * color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();\n\n	// Adapt color\n	std::vector<float> rgbc;\n	rgbc.push_back((wp_y_factor")],
 demo='auto D = srgb(); auto t = D->get_white_point()->get_tristimulus(); color_space::white_point W(t[0] / 2, t[1] / 2, t[2] / 2, 0.3127f, 0.329f); xyz a(0.3f, 0.4f, 0.2f, 1, D); auto r = color_manipulation::chromatic_adaptation::cmccat2000_adaptation(&a, &W, 1, 100, 100); near(r->get_component(1), 0.4, 1e-3, "Y");'),
dict(id="bradford-dark", property="C25", needs="the full Bradford adaptation of a colour darker than 0.001", what="dark colours are not normalized",
 edits=[("manipulation/chromatic_adaptation.cpp", "	auto rgb_comp = m_bradford * tmp_color->get_component_vector();", "	if (luminance < 0.0012f) luminance = 1.f; // noise\n	auto rgb_comp = m_bradford * tmp_color->get_component_vector();")],
 demo='auto D = srgb(); color_space::white_point W(0.9642f, 1, 0.8249f, 0.3457f, 0.3585f); xyz a(0.00095f, 0.001f, 0.00109f, 1, D), b(0.095f, 0.1f, 0.109f, 1, D); auto r = color_manipulation::chromatic_adaptation::bradford_adaptation(&a, &W); auto s = color_manipulation::chromatic_adaptation::bradford_adaptation(&b, &W); near(r->get_component(2) * 100, s->get_component(2), 2e-4, "Z");'),
dict(id="luv-white-memo", property="C26", needs="colours of two definitions whose white points have the same X, converted to Luv in turn", what="the conversion to Luv remembers the chromaticity of the last white point by its X alone",
 edits=[("manipulation/color_converter.cpp", "	auto L = y_temp > 0.008856f ? 116.f* N_ROOT(y_temp, 3) - 16.f : 903.3f* y_temp;\n	auto u = 13.f* L* (u_temp - u_w_temp);", "	static float last_x = -1.f, last_u, last_v; // chromaticity of the last white point\n	if (last_x == color->get_rgb_color_space()->get_white_point()->get_tristimulus_x()) { u_w_temp = last_u; v_w_temp = last_v; }\n	last_x = color->get_rgb_color_space()->get_white_point()->get_tristimulus_x(); last_u = u_w_temp; last_v = v_w_temp;\n	auto L = y_temp > 0.008856f ? 116.f* N_ROOT(y_temp, 3) - 16.f : 903.3f* y_temp;\n	auto u = 13.f* L* (u_temp - u_w_temp);")],
 demo='auto D = srgb(), E = srgb(); auto t = D->get_white_point()->get_tristimulus(); E->set_white_point(new color_space::white_point(t[0], 1, 0.8f, 0.34f, 0.35f)); xyz a(0.4f, 0.5f, 0.3f, 1, D), b(t[0] / 2, 0.5f, 0.4f, 1, E); CV::to_cieluv(&a); near(CV::to_cieluv(&b)->u(), 0, 1e-3, "u"); near(CV::to_cieluv(&b)->v(), 0, 1e-3, "v");'),
dict(id="distance-last", property="C26", needs="the distance of the same two objects again after one of them was changed", what="the distance remembers the last pair of colours by their addresses",
 edits=[("manipulation/color_distance.cpp", "	float squared_distance = 0.f;\n	if (calculation_space == color_type::CIELUV)", "	static color_space::color_base* last1 = nullptr;\n	static color_space::color_base* last2 = nullptr;\n	static color_type last_space = color_type::RGB_DEEP;\n	static float last_distance = 0.f;\n	static std::vector<float> last_components;\n	if (last1 == color1 && last2 == color2 && last_space == calculation_space && last_components == color1->get_component_vector()) return last_distance;\n	struct keep { float& d; ~keep() { last_distance = d; } };\n	float squared_distance = 0.f;\n	keep keeper{ squared_distance };\n	last1 = color1; last2 = color2; last_space = calculation_space; last_components = color1->get_component_vector();\n	if (calculation_space == color_type::CIELUV)")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.25f, 0.5f, 0.5f, 1, D); near(color_distance::euclidean_distance(&a, &b), 0.25, 1e-6, "distance"); b.red(0); near(color_distance::euclidean_distance(&a, &b), 0.5, 1e-6, "distance");'),
dict(id="weight-slack", property="C27", needs="a weight just above 1", what="weights up to 1.001 are accepted for XYZ colours",
 edits=[("manipulation/color_calculation.cpp", """color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
{
	if (weight < 0.f || weight > 1.f)""", """color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
{
	if (weight < 0.f || weight > 1.001f)""")],
 demo='auto D = srgb(); xyz a(0.5f, 0.5f, 0.5f, 1, D), b(0.25f, 0.5f, 0.5f, 1, D); expect(raises([&] { color_calculation::subtract(&a, &b, 1.0005f, false); }), "refused"); expect(!raises([&] { color_calculation::subtract(&a, &b, 1.f, false); }), "accepted");'),
dict(id="monochromatic-mode-late", property="C27", needs="an invalid mode of -1", what="a monochromatic set of mode -1 is taken for one of mode 2",
 edits=[("manipulation/color_combinations.cpp", "	if (color_count <= 0) throw", "	if (mode < 0) mode = 2;\n	if (color_count <= 0) throw")],
 demo='auto D = srgb(); hsl c(100, 0.7f, 0.4f, 1, D); expect(raises([&] { color_combinations::create_monochromatic(&c, -1, 0.1f, 3); }), "refused"); expect(raises([&] { color_combinations::create_monochromatic(&c, 3, 0.1f, 3); }), "refused");'),
dict(id="combination-shared", property="C28", needs="two combinations at the same time", what="the HSL colour that is turned is shared by all calls",
 edits=[("manipulation/color_combinations.cpp", "	auto degrees = 360.f / number_of_colors;", "	static float degrees;\n	degrees = 360.f / number_of_colors;")],
 demo='auto D = srgb(); std::atomic<int> wrong(0); std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { hsl c(100, 0.7f, 0.4f, 1, D); for (int i = 0; i < 20000; ++i) { auto r = color_combinations::create_combination(&c, 2 + k * 3); double w = fmod(100 + 360.0 / (2 + k * 3), 360); if (fabs(r[1]->get_component(0) - w) > 0.01) ++wrong; } }); for (auto& x : t) x.join(); expect(wrong == 0, "alone");'),
dict(id="average-sum-shared", property="C28", needs="two averages of HCY colours at the same time", what="the sums are kept in a variable of all calls",
 edits=[("manipulation/color_calculation.cpp", "	auto sum = new float[4]{ 0.f, 0.f, 0.f, 0.f };\n	for (unsigned int i = 0; i < colors.size(); ++i)\n	{\n		sum[0] += colors[i]->hue();\n		sum[1] += colors[i]->chroma();\n		sum[2] += colors[i]->luma();", "	static float sum[4];\n	sum[0] = sum[1] = sum[2] = sum[3] = 0.f;\n	for (unsigned int i = 0; i < colors.size(); ++i)\n	{\n		sum[0] += colors[i]->hue();\n		sum[1] += colors[i]->chroma();\n		sum[2] += colors[i]->luma();")],
 demo='auto D = srgb(); std::atomic<int> wrong(0); std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { std::vector<hcy*> l; for (int i = 0; i < 50; ++i) l.push_back(new hcy(10.f * k, 0.5f, 0.5f, 1, D)); for (int i = 0; i < 20000; ++i) { auto r = color_calculation::average_hcy(l, true); if (fabs(r->hue() - 10 * k) > 0.01) ++wrong; delete r; } }); for (auto& x : t) x.join(); expect(wrong == 0, "alone");'),
]
