CV_ = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; CBL = "manipulation/color_blend.cpp"; CDF = "manipulation/color_distance.cpp"; CAD = "manipulation/color_adjustments.cpp"; CCO = "manipulation/color_combinations.cpp"; CHA = "manipulation/chromatic_adaptation.cpp"
GM = "spaces/gamma.h"; RD = "spaces/rgb_color_space_definition.h"; RT = "spaces/rgb_truecolor.cpp"; MX = "utils/matrix.h"; CB_ = "spaces/color_base.h"
PLANTS = [
dict(id="cie76-frees-lab", property="C29", needs="a Lab colour as second operand of CIE76 and a first one of another type", what="converted colours are deleted, the second operand too when it is a Lab colour",
 edits=[(CDF, "	float squared_distance = 0.f;\n	for (std::vector<float>::size_type i = 0; i < color1_lab->get_component_vector().size(); ++i)\n	{\n		squared_distance += powf(color1_lab->get_component_vector()[i] - color2_lab->get_component_vector()[i], 2.f);\n	}\n\n	return sqrtf(squared_distance);", "	float squared_distance = 0.f;\n	for (std::vector<float>::size_type i = 0; i < color1_lab->get_component_vector().size(); ++i)\n	{\n		squared_distance += powf(color1_lab->get_component_vector()[i] - color2_lab->get_component_vector()[i], 2.f);\n	}\n	if (color1_lab != color1)\n	{\n		delete color1_lab;\n		delete color2_lab;\n	}\n\n	return sqrtf(squared_distance);")],
 demo='auto D = srgb(); static bool gone = false; struct tracked : lab { using lab::lab; ~tracked() { gone = true; } }; auto b = new tracked(50, 10, 10, 1, D); rgb_deepcolor a(0.1f, 0.2f, 0.3f, 1, D); color_distance::cielab_delta_e_cie76(&a, b); expect(!gone, "the operand lives");'),
dict(id="average-cmyk-room", property="C29", asan=True, needs="an average of CMYK colours in a checked build or next to other data", what="the sums of five values are kept in room for four",
 edits=[(CCF, "	auto sum = new float[5]{ 0.f, 0.f, 0.f, 0.f, 0.f};\n", "	auto sum = new float[4]{ 0.f, 0.f, 0.f, 0.f };\n	sum[4] = 0.f;\n")],
 demo='auto D = srgb(); cmyk a(0.1f, 0.2f, 0.3f, 0.4f, 1, D), b(0.3f, 0.2f, 0.1f, 0.4f, 1, D); near(color_calculation::average_cmyk({ &a, &b }, true)->black(), 0.4, 1e-5, "black");'),
dict(id="adjust-frees-itself", property="C29", asan=True, needs="adjusting the saturation of a colour in place by 0", what="the temporary of an adjustment in place is deleted, which is the colour itself when nothing is adjusted",
 edits=[(CAD, "	color = *saturate_in_hsl_space(&color, percentage);", "	auto adjusted = saturate_in_hsl_space(&color, percentage);\n	color = *adjusted;\n	delete adjusted;")],
 demo='auto D = srgb(); auto a = new hsv(100, 0.4f, 0.5f, 1, D); color_adjustments::saturate_in_hsl_space(*a, 0.f); near(a->saturation(), 0.4, 1e-6, "saturation");'),
dict(id="monochromatic-frees-last", property="C29", asan=True, needs="a monochromatic set of a HSL colour", what="the converted last colour is deleted, which is a colour of the set when it is HSL",
 edits=[(CCO, "			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));\n			break;\n		case 1:", "			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));\n			if (i > 2 || in_color_type != color_type::HSL) delete last_hsl;\n			break;\n		case 1:")],
 demo='auto D = srgb(); auto a = new hsl(100, 0.4f, 0.5f, 1, D); auto v = color_combinations::create_monochromatic(a, 0, 0.1f, 6); near(static_cast<hsl*>(v[3])->hue(), 100, 1e-2, "hue");'),
dict(id="gamma-owns-parts", property="C29", needs="a copy of a curve without inverse parts that is destroyed", what="curves without inverse delete their parts, which copies and callers share",
 edits=[(GM, "		~gamma()\n		{\n			\n", "		~gamma()\n		{\n			if (m_inverse_gamma_curve_parts.empty())\n			{\n				for (auto part : m_gamma_curve_parts) delete part;\n			}\n")],
 demo='auto held = std::make_shared<int>(1); std::function<float(float)> f = [held](float x) { return x * *held; }; auto part = new gamma_part(f, 1.f); auto g = new color_space::gamma({ part }, {}); auto n = held.use_count(); auto h = new color_space::gamma(*g); delete h; expect(held.use_count() == n, "the part lives");'),
dict(id="definition-owns-white", property="C29", asan=True, needs="a white point of a luminance other than 1 and a copy of its definition that is destroyed", what="definitions delete white points of another luminance than 1, which copies and callers share",
 edits=[(RD, "		~rgb_color_space_definition()\n		{\n", "		~rgb_color_space_definition()\n		{\n			if (m_white != nullptr && m_white->get_tristimulus_y() != 1.f) delete m_white;\n")],
 demo='auto D = srgb(); D->set_white_point(new white_point(95.f, 100.f, 108.f)); auto E = new rgb_color_space_definition(*D); delete E; rgb_deepcolor a(0.1f, 0.2f, 0.3f, 1, D); expect(CV::to_lab(&a)->luminance() >= 0, "lab");'),
dict(id="hex-bytes", property="C29", asan=True, needs="a hex code of six digits in a checked build", what="the digits are read as unsigned ints into bytes",
 edits=[(RT, "		int r, g, b;\n		sscanf_s(hex_code.c_str(), \"%02x%02x%02x\", &r, &g, &b);\n", "		unsigned char rgb[3];\n		sscanf_s(hex_code.c_str(), \"%02x%02x%02x\", (unsigned int*)&rgb[0], (unsigned int*)&rgb[1], (unsigned int*)&rgb[2]);\n		int r = rgb[0], g = rgb[1], b = rgb[2];\n")],
 demo='auto D = srgb(); rgb_truecolor a("#102030", D); near(a.green(), 32, 0, "green"); near(a.blue(), 48, 0, "blue");'),
dict(id="hsi-unset-sector", property="C29", needs="a HSI colour with hue exactly 120", what="no sector sets the components for hue 120",
 edits=[(CV_, "	else if (h_temp > 1.f && h_temp <= 2.f) { r_temp = x;		g_temp = chroma;	b_temp = 0.f; }\n	else if (h_temp > 2.f && h_temp <= 3.f) { r_temp = 0.f;		g_temp = chroma;	b_temp = x; }\n	else if (h_temp > 3.f && h_temp <= 4.f) { r_temp = 0.f;		g_temp = x;			b_temp = chroma; }\n	else if (h_temp > 4.f && h_temp <= 5.f) { r_temp = x;		g_temp = 0.f;		b_temp = chroma; }\n	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }\n	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }\n\n	auto m = color->intensity()", "	else if (h_temp > 1.f && h_temp < 2.f) { r_temp = x;		g_temp = chroma;	b_temp = 0.f; }\n	else if (h_temp > 2.f && h_temp <= 3.f) { r_temp = 0.f;		g_temp = chroma;	b_temp = x; }\n	else if (h_temp > 3.f && h_temp <= 4.f) { r_temp = 0.f;		g_temp = x;			b_temp = chroma; }\n	else if (h_temp > 4.f && h_temp <= 5.f) { r_temp = x;		g_temp = 0.f;		b_temp = chroma; }\n	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }\n\n	auto m = color->intensity()")],
 demo='auto D = srgb(); hsi a(120, 0.5f, 0.5f, 1, D); auto p = CV::to_rgb_deep(&a); expect(p->green() > p->red() + 0.1f && fabs(p->red() - p->blue()) < 1e-5, "green");'),
dict(id="vector-room", property="C29", asan=True, needs="sums of HSV colours in a checked build", what="the vector of a hue has room for two values",
 edits=[(CCF, "	auto z = third_component;\n\n	return new float[3]{ x, y, z };", "	auto vector = new float[2];\n	vector[0] = x;\n	vector[1] = y;\n	vector[2] = third_component;\n	return vector;")],
 demo='auto D = srgb(); hsv a(100, 0.4f, 0.5f, 1, D), b(140, 0.4f, 0.5f, 1, D); near(color_calculation::add(&a, &b, 0.5f, 0.5f, true)->value(), 0.5, 1e-5, "value");'),
dict(id="mix-hands-back", property="C29", needs="a mix with weight 1 whose result is then destroyed or changed", what="a mix of a colour with weight 1 is the colour itself",
 edits=[(CCF, "color_space::lab * color_manipulation::color_calculation::subtract(color_space::lab * color1, color_space::lab * color2, float weight, bool include_alpha)\n{\n", "color_space::lab * color_manipulation::color_calculation::subtract(color_space::lab * color1, color_space::lab * color2, float weight, bool include_alpha)\n{\n	if (weight == 0.f) return color1;\n")],
 demo='auto D = srgb(); lab a(50, 10, 10, 1, D), b(20, 0, 5, 1, D); auto r = color_calculation::subtract(&a, &b, 0.f, true); r->luminance(7); near(a.luminance(), 50, 1e-5, "operand");'),
]
