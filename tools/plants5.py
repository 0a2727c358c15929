CVF = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; BB = "manipulation/base_color_blend.h"
CBF = "spaces/color_base.h"; MX = "utils/matrix.h"; CDF = "manipulation/color_distance.cpp"; CAF = "manipulation/color_adjustments.cpp"; COF = "manipulation/color_combinations.cpp"; WP = "spaces/white_point.h"; RD = "spaces/rgb_color_space_definition.h"; AD = "manipulation/chromatic_adaptation.cpp"; CBL = "manipulation/color_blend.cpp"
PLANTS = [
dict(id="hue-int-wrap", property="C01", needs="a hue beyond the range of int turns", what="the hue of HSV is wrapped by counting whole turns in an int",
 edits=[("spaces/hsv.cpp", "	new_hue = fmod(new_hue, 360.f);", "	new_hue -= 360.f * (float)(int)(new_hue / 360.f);")],
 demo='auto D = srgb(); hsv c(1, 0.5f, 0.5f, 1, D); c.hue(1e13f); near(c.hue(), fmod(1e13f, 360.f), 1e-3, "a large hue");'),
dict(id="hue-float-wrap", property="C01", needs="a hue of many turns", what="the hue of HCY is wrapped by a rounded number of turns",
 edits=[("spaces/hcy.cpp", "	new_hue = fmod(new_hue, 360.f);", "	new_hue = (new_hue / 360.f - truncf(new_hue / 360.f)) * 360.f;")],
 demo='auto D = srgb(); hcy c(1, 0.5f, 0.5f, 1, D); c.hue(360000.f * 7.f + 123.f); near(c.hue(), 123, 1e-3, "a hue of many turns");'),
dict(id="clamp-nan-last", property="C01", needs="setting a component to not-a-number", what="not-a-number passes the limits",
 edits=[(CBF, "float clamp(float in_value, float max, float min) { return fmaxf(fminf(in_value, max), min); }", "float clamp(float in_value, float max, float min) { return in_value > max ? max : (in_value < min ? min : in_value); }")],
 demo='auto D = srgb(); rgb_deepcolor c(0.5f, 0.5f, 0.5f, 1, D); c.red(NAN); expect(c.red() >= 0 && c.red() <= 1, "not-a-number is limited");'),
dict(id="equality-bits", property="C02", needs="two equal colours one of which has a component of negative zero", what="equality compares bits",
 edits=[(CBF, "				if (lhs.m_component_vector[i] != rhs.m_component_vector[i])", "				if (std::memcmp(&lhs.m_component_vector[i], &rhs.m_component_vector[i], sizeof(float)) != 0)"), (CBF, "#include <vector>", "#include <vector>\n#include <cstring>")],
 demo='auto D = srgb(); lab a(50, -0.f, 0.f, 1, D), b(50, 0.f, 0.f, 1, D); expect(a == b, "zeros are equal");'),
dict(id="xyy-assign-equal", property="C02", needs="assigning a colour with equal components but another alpha", what="an assignment stops at equal components",
 edits=[("spaces/xyy.cpp", "	if (this != &other)", "	if (*this != other)")],
 demo='auto D = srgb(); xyy a(0.3f, 0.3f, 0.5f, 1, D), b(0.3f, 0.3f, 0.5f, 0.25f, D); a = b; near(a.alpha(), 0.25, 0, "alpha");'),
dict(id="base-index-signed", property="C02", needs="reading the component right after the last one", what="the component after the last is not refused",
 edits=[(CBF, "			if (index < 0 || index >= m_component_vector.size()) throw new std::out_of_range(\"Index out of range by accessing color component.\");\n			return m_component_vector[index];", "			if (index < 0 || index > m_component_vector.size()) throw new std::out_of_range(\"Index out of range by accessing color component.\");\n			return index < m_component_vector.size() ? m_component_vector[index] : 0.f;")],
 demo='auto D = srgb(); cmyk c(0.1f, 0.2f, 0.3f, 0.4f, 1, D); expect(raises([&] { c.get_component(4); }), "the index after the last");'),
dict(id="plus-limits-of-right", property="C03", needs="adding colours of one type where the sum passes a limit only one of them has", what="the sum of bytes above 255 wraps to the rest",
 edits=[(CBF, "clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);", "clamp(this->m_component_vector[i] + rhs.m_component_vector[i], fmaxf(m_max, m_component_vector[i]), fminf(m_min, m_component_vector[i]));")],
 demo='auto D = srgb(); lab a(50, 100, -60, 1, D), b(40, 100, -30, 1, D); auto r = a + b; rgb_deepcolor z(0.5f, 0.5f, 0.5f, 1, D); for (int i = 0; i < 3; ++i) expect(r.get_component(i) <= a.get_component_max() && r.get_component(i) >= a.get_component_min(), "limits");'),
dict(id="divide-premultiplied-limit", property="C03", needs="dividing by alpha when a component is greater than alpha", what="the division by alpha limits the result to the range",
 edits=[(CBF, "				m_component_vector[i] /= m_alpha;", "				m_component_vector[i] = m_component_vector[i] > m_alpha * m_max * 16.f ? m_max * 16.f : m_component_vector[i] / m_alpha;")],
 demo='auto D = srgb(); rgb_deepcolor c(0.9f, 0.5f, 0.1f, 0.01f, D); c.alpha_divide(); near(c.red(), 90, 1e-3, "red");'),
dict(id="hex-long", property="C04", needs="a hex code of nine digits", what="longer codes are accepted and cut off",
 edits=[("spaces/rgb_truecolor.cpp", "	else if (hex_code.length() == 8)", "	else if (hex_code.length() > 7)")],
 demo='expect(raises([&] { rgb_truecolor c(std::string("#112233445"), srgb()); }), "nine digits");'),
dict(id="hex-double-hash", property="C04", needs="a hex code with two hashes", what="",
 edits=[("spaces/rgb_truecolor.cpp", 'std::regex regex("^#?[0-9A-Fa-f]+$");', 'std::regex regex("^#?#?[0-9A-Fa-f]+$");')],
 demo='expect(raises([&] { rgb_truecolor c(std::string("##11223344"), srgb()); }), "two hashes"); expect(raises([&] { rgb_truecolor c(std::string("##12345"), srgb()); }), "two hashes and five digits");'),
dict(id="white-skip-same-xy", property="C07", needs="setting a white point of the same chromaticity but another luminance", what="the matrices are kept when the chromaticity is the same",
 edits=[(RD, "			m_white = new_white_point;\n			m_transform_matrix = calc", "			bool same = m_white->get_chromaticity_coordinate() == new_white_point->get_chromaticity_coordinate() && fabsf(m_white->get_tristimulus_y() - new_white_point->get_tristimulus_y()) < 0.05f;\n			m_white = new_white_point;\n			if (same) return;\n			m_transform_matrix = calc")],
 demo='auto D = srgb(); auto w = D->get_white_point(); auto n = new white_point(w->get_tristimulus()[0] * 0.96f, w->get_tristimulus()[1] * 0.96f, w->get_tristimulus()[2] * 0.96f, w->get_chromaticity_coordinate()[0], w->get_chromaticity_coordinate()[1]); D->set_white_point(n); auto x = D->get_transform_matrix() * std::vector<float>{1, 1, 1}; near(x[1], 0.96, 1e-5, "white");'),
dict(id="matrix-skip-tiny", property="C08", needs="a product whose left factor has elements below 1e-6", what="tiny elements are skipped in products",
 edits=[(MX, "					result(i, j) += this->m_values[i][k] * other(k, j);", "					if (this->m_values[i][k] < (T)1e-6 && -this->m_values[i][k] < (T)1e-6) continue;\n					result(i, j) += this->m_values[i][k] * other(k, j);")],
 demo='matrix<double> a(2, std::vector<double>{1e-7, 2, 3, 4}), b(2, std::vector<double>{1e7, 0, 0, 1}); near((a * b)(0, 0), 1, 1e-9, "product");'),
dict(id="matrix-proportional-rows", property="C08", needs="a determinant of a matrix with two nearly proportional rows", what="nearly proportional rows count as proportional",
 edits=[(MX, "		// I could also check if one row/column is a multiple of another row/column\n", "		for (int i = 0; i < m_rows; ++i)\n		{\n			for (int j = i + 1; j < m_rows; ++j)\n			{\n				bool proportional = true;\n				for (int k = 1; k < m_columns && proportional; ++k)\n				{\n					T cross = m_values[i][0] * m_values[j][k] - m_values[j][0] * m_values[i][k];\n					proportional = cross < (T)0.0005 && -cross < (T)0.0005;\n				}\n				if (proportional) return 0;\n			}\n		}\n\n		// I could also check if one row/column is a multiple of another row/column\n")],
 demo='matrix<double> a(2, std::vector<double>{0.01, 0.02, 0.03, 0.07}); near(a.determinante(), 0.0001, 1e-9, "determinant");'),
dict(id="matrix-vector-short", property="C08", needs="a product of a wide matrix and a vector", what="products with vectors stop at the number of rows",
 edits=[(MX, "				result[i] += this->m_values[i][j] * other.at(j);", "				if (j > m_rows + 1) break;\n				result[i] += this->m_values[i][j] * other.at(j);")],
 demo='matrix<float> a(1, 4, std::vector<float>{1, 2, 3, 4}); near((a * std::vector<float>{1, 1, 1, 1})[0], 10, 1e-6, "product");'),
dict(id="cmyk-light-ink", property="C10", needs="a colour whose brightest channel is at least 0.9995", what="black ink below a thousandth is dropped",
 edits=[(CVF, "	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());\n", "	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());\n	if (k < 0.0005f) k = 0.f;\n")],
 demo='auto D = srgb(); rgb_deepcolor c(0.9997f, 0.2f, 0.4f, 1, D); auto k = CV::to_cmyk(&c); near(k->black(), 0.0003, 1e-5, "black");'),
dict(id="hsi-dark", property="C10", needs="a colour of intensity below 0.003", what="very dark colours are grey in HSI",
 edits=[(CVF, "		float saturation = 1.f - (min / intensity);", "		float saturation = intensity < 0.003f ? 0.f : 1.f - (min / intensity);")],
 demo='auto D = srgb(); rgb_deepcolor c(0.004f, 0.001f, 0.002f, 1, D); near(CV::to_hsi(&c)->saturation(), 1 - 0.001 / (0.007 / 3), 1e-4, "saturation");'),
dict(id="luv-tiny-l", property="C11", needs="converting Luv colours of lightness below 0.02 to XYZ", what="",
 edits=[(CVF, "	if (color->L() == 0)\n	{", "	if (color->L() < 0.02f)\n	{")],
 demo='auto D = srgb(); cieluv c(0.015f, 0.001f, 0.002f, 1, D); near(CV::to_xyz(&c)->y(), 0.015 / 903.3, 1e-7, "Y");'),
dict(id="xyy-small-y", property="C11", needs="xyY colours with a chromaticity y below 0.01", what="",
 edits=[(CVF, "	if (color->y() == 0)\n	{\n		// special case for black (set X, Y and Z to 0)", "	if (color->y() < 0.004f)\n	{\n		// special case for black (set X, Y and Z to 0)")],
 demo='auto D = srgb(); xyy c(0.2f, 0.0035f, 0.004f, 1, D); near(CV::to_xyz(&c)->x(), 0.2 * 0.004 / 0.0035, 1e-4, "X");'),
dict(id="lab-cached-alpha", property="C09", needs="converting a deep grey colour of alpha exactly 0.5 to Lab", what="",
 edits=[(CVF, "	lab->alpha(color->alpha());\n	return lab;", "	lab->alpha(color->alpha() < 0.0005f ? 0.f : color->alpha());\n	return lab;")],
 demo='auto D = srgb(); xyz c(0.3f, 0.4f, 0.5f, 0.0003f, D); near(CV::to_lab(&c)->alpha(), 0.0003, 1e-7, "alpha");'),
dict(id="porter-thin", property="C13", needs="a composition whose alpha is below 0.004", what="nearly transparent results are cleared",
 edits=[(BB, "			float src_area = source->alpha() * (1.f - destination->alpha());", "			float src_area = source->alpha() * (1.f - destination->alpha());\n			if (src_area < 0.0005f) src_area = 0.f;")],
 demo='auto D = srgb(); rgb_deepcolor s(1, 0.5f, 0.2f, 0.0004f, D), d(0.2f, 0.7f, 0.1f, 0.f, D); near(porter_duff::over(&s, &d)->alpha(), 0.0004, 1e-6, "alpha");'),
dict(id="mix-weight-fine", property="C17", needs="mixing XYZ colours with a weight within 1e-3 of 1", what="weights near 1 count as 1",
 edits=[(CCF, "	return add(color1, color2, weight, 1.f - weight, include_alpha);\n}\n\ncolor_space::xyy *", "	if (weight > 0.9995f) return add(color1, color2, 1.f, 0.f, include_alpha);\n	return add(color1, color2, weight, 1.f - weight, include_alpha);\n}\n\ncolor_space::xyy *")],
 demo='auto D = srgb(); xyz a(0, 0, 0, 1, D), b(1, 1, 1, 1, D); near(color_calculation::mix(&a, &b, 0.9997f)->x(), 0.0003, 1e-6, "x");'),
dict(id="subtract-grey-byte", property="C18", needs="subtracting 8-bit RGB with fractional components", what="8-bit channels are subtracted as integers when the weight is 1",
 edits=[(CCF, "	auto r = color1->red() - weight * color2->red();\n	auto g = color1->green() - weight * color2->green();\n	auto b = color1->blue() - weight * color2->blue();\n	auto a = include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha();\n\n	return new color_space::rgb_truecolor(", "	auto r = weight == 1.f ? (float)((int)color1->red() - (int)color2->red()) : color1->red() - weight * color2->red();\n	auto g = color1->green() - weight * color2->green();\n	auto b = color1->blue() - weight * color2->blue();\n	auto a = include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha();\n\n	return new color_space::rgb_truecolor(")],
 demo='auto D = srgb(); rgb_truecolor a(100.75f, 100, 100, 255, D), b(50.25f, 20, 30, 255, D); near(color_calculation::subtract(&a, &b, 1.f)->red(), 50.5, 1e-4, "red");'),
dict(id="weighted-mean-long", property="C21", needs="a weighted distance in which the mean red lies above 254 of 255", what="",
 edits=[(CDF, "	auto avg_r = ((color1_rgb_d->red() + color2_rgb_d->red()) / 2.f) * 255.f;", "	auto avg_r = fminf(((color1_rgb_d->red() + color2_rgb_d->red()) / 2.f) * 255.f, 250.f);")],
 demo='auto D = srgb(); rgb_deepcolor a(1, 0.2f, 0.9f, 1, D), b(1, 0.2f, 0.1f, 1, D); near(color_distance::euclidean_distance_weighted(&a, &b), sqrt(2.0 * 0.64), 1e-4, "distance");'),
dict(id="cie94-kh", property="C22", needs="a CIE94 difference with a hue factor of its own", what="the hue factor acts on the chroma too",
 edits=[(CDF, "	return sqrtf(powf(delta_l / (kL * 1), 2.f) + powf(delta_c / (kC * sc), 2.f)", "	return sqrtf(powf(delta_l / (kL * 1), 2.f) + powf(delta_c / (kC * (kH > kC ? kH / kC : 1.f) * sc), 2.f)")],
 demo='auto D = srgb(); lab a(50, 40, 20, 1, D), b(50, 10, 5, 1, D); near(color_distance::cielab_delta_e_cie94(&a, &b, 1, 0.045f, 0.015f, 1, 2), color_distance::cielab_delta_e_cie94(&a, &b, 1, 0.045f, 0.015f, 1, 1), 1e-3, "only the hue is weighted");'),
dict(id="saturate-small", property="C23", needs="saturating in HSL by less than half a percent", what="changes below half a percent do nothing",
 edits=[(CAF, "color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl_space(color_space::color_base * color, float percentage)\n{\n	if (percentage == 0.f) return color;", "color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl_space(color_space::color_base * color, float percentage)\n{\n	if (fabsf(percentage) < 0.002f) return color;")],
 demo='auto D = srgb(); hsl c(100, 0.5f, 0.5f, 1, D); near(color_adjustments::saturate_in_hsl_space(&c, 0.001f)->get_component(1), 0.5005, 1e-6, "saturation");'),
dict(id="combination-359", property="C24", needs="a combination of more than 180 colours", what="the degrees are rounded to hundredths",
 edits=[(COF, "	auto degrees = 360.f / number_of_colors;", "	auto degrees = roundf(360.f / number_of_colors * 100.f) / 100.f;")],
 demo='hsl c(0, 0.5f, 0.5f, 1, srgb()); auto v = color_combinations::create_combination(&c, 350); near(((hsl*)v[349])->hue(), 360.0 * 349 / 350, 0.01, "the last");'),
dict(id="adapt-same-xy", property="C25", needs="adapting to a white point nearly the same as the source white", what="nearly equal white points leave the colour as it is",
 edits=[(AD, "color_space::color_base * color_manipulation::chromatic_adaptation::sharp_adaptation(color_space::color_base * color, color_space::white_point * target_white_point)\n{\n	if (color->get_rgb_color_space()->get_white_point() == target_white_point)", "color_space::color_base * color_manipulation::chromatic_adaptation::sharp_adaptation(color_space::color_base * color, color_space::white_point * target_white_point)\n{\n	if (color->get_rgb_color_space()->get_white_point() == target_white_point || fabsf(color->get_rgb_color_space()->get_white_point()->get_tristimulus()[0] - target_white_point->get_tristimulus()[0]) < 0.002f)")],
 demo='auto D = srgb(); auto w = D->get_white_point(); auto t = new white_point(w->get_tristimulus()[0] + 0.001f, w->get_tristimulus()[1], w->get_tristimulus()[2]); xyz c(w->get_tristimulus()[0], w->get_tristimulus()[1], w->get_tristimulus()[2], 1, D); auto r = chromatic_adaptation::sharp_adaptation(&c, t); expect(r->get_rgb_color_space()->get_white_point() == t, "the white point of the result");'),
dict(id="analogous-nan", property="C27", needs="analogous colours at a distance just above 120 degrees", what="",
 edits=[(COF, "	if (distance_between > 360.f / 3.f)", "	if (distance_between > 120.0005f)")],
 demo='hsl c(0, 0.5f, 0.5f, 1, srgb()); expect(raises([&] { color_combinations::create_analogous(&c, 120.0002f); }), "a distance above 120");'),
dict(id="monochromatic-slack", property="C27", needs="an amount just above 1", what="",
 edits=[(COF, "	if (amount > 1.f) throw", "	if (amount > 1.00001f) throw")],
 demo='hsl c(0, 0.5f, 0.5f, 1, srgb()); expect(raises([&] { color_combinations::create_monochromatic(&c, 0, 1.000001f, 3); }), "an amount above 1");'),
dict(id="average-duplicate", property="C19", needs="a list that holds one colour object more than twice in a row", what="repeated objects are counted once",
 edits=[], demo=''),
]
PLANTS = [p for p in PLANTS if p["edits"] and p["demo"]]
for p in PLANTS:
    if not p["what"]: p["what"] = p["needs"]
