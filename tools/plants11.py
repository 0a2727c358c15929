CV_ = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; CBL = "manipulation/color_blend.cpp"; CDF = "manipulation/color_distance.cpp"; CAD = "manipulation/color_adjustments.cpp"; CCO = "manipulation/color_combinations.cpp"; CHA = "manipulation/chromatic_adaptation.cpp"; BB = "manipulation/base_color_blend.h"; PD = "manipulation/porter_duff.cpp"
GM = "spaces/gamma.h"; RD = "spaces/rgb_color_space_definition.h"; RT = "spaces/rgb_truecolor.cpp"; MX = "utils/matrix.h"; CB_ = "spaces/color_base.h"; WP = "spaces/white_point.h"
PLANTS = [
dict(id="alpha-small-steps", property="C01", needs="an alpha set to a value close to the one it has", what="steps of alpha below a thousandth are ignored",
 edits=[(CB_, "		virtual void alpha(float new_alpha) { m_alpha = clamp(new_alpha, m_a_max, m_a_min); }", "		virtual void alpha(float new_alpha) { if (fabsf(new_alpha - m_alpha) >= 0.001f) m_alpha = clamp(new_alpha, m_a_max, m_a_min); }")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 0.5f, D); a.alpha(0.5005f); near(a.alpha(), 0.5005, 1e-6, "alpha");'),
dict(id="component-minus-one", property="C01", needs="a component of exactly -1 set over another value", what="-1 counts as no value",
 edits=[(CB_, "			m_component_vector[index] = clamp(new_value, max, min); \n", "			if (new_value == -1.f) return;\n			m_component_vector[index] = clamp(new_value, max, min); \n")],
 demo='auto D = srgb(); lab a(50, 10, 10, 1, D); a.a(-1); near(a.a(), -1, 1e-6, "a"); hsl h(100, 0.5f, 0.5f, 1, D); h.set_component(-1.f, 0, 360.f, 0.f); near(h.hue(), 0, 1e-6, "hue");'),
dict(id="hsl-assign-equal", property="C02", needs="a HSL colour assigned one of equal components and another alpha or definition", what="assignment of equal components does nothing",
 edits=[("spaces/hsl.cpp", "	if (this != &other)\n", "	if (!(*this == other))\n")],
 demo='auto D = srgb(); hsl a(100, 0.5f, 0.5f, 1, D), b(100, 0.5f, 0.5f, 0.25f, D); a = b; near(a.alpha(), 0.25, 1e-6, "alpha");'),
dict(id="hex-alpha-zero", property="C04", needs="a hex code of eight digits with an alpha of 00", what="transparent hex codes become opaque",
 edits=[(RT, "		this->alpha((float)a);\n", "		this->alpha((float)(a + r + g + b ? a : 255));\n")],
 demo='auto D = srgb(); rgb_truecolor a("#00000000", D); near(a.alpha(), 0, 1e-6, "alpha");'),
dict(id="subtract-transparent", property="C18", needs="subtracting a colour of alpha 0 with its alpha", what="transparent colours are not subtracted",
 edits=[(CCF, "	auto r = color1->red() - weight * color2->red();\n	auto g = color1->green() - weight * color2->green();\n	auto b = color1->blue() - weight * color2->blue();\n	auto a = include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha();\n\n	return new color_space::rgb_deepcolor", "	if (include_alpha && color2->alpha() == 0.f) weight = 0.f;\n	auto r = color1->red() - weight * color2->red();\n	auto g = color1->green() - weight * color2->green();\n	auto b = color1->blue() - weight * color2->blue();\n	auto a = include_alpha ? color1->alpha() - weight * color2->alpha() : color1->alpha();\n\n	return new color_space::rgb_deepcolor")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.5f, 0.5f, 1, D), b(0.5f, 0.25f, 0, 0, D); near(color_calculation::subtract(&a, &b, 1.f, true)->red(), 0, 1e-6, "red");'),
dict(id="add-itself", property="C29", needs="a colour added to itself through the base class with weights that sum up to 1", what="the sum of a colour with itself is the operand",
 edits=[(CCF, "	switch (color1->get_color_type())\n	{\n	case color_type::RGB_TRUE:\n		return color_manipulation::color_calculation::add(", "	if (color1 == color2 && weight1 + weight2 == 1.f && (color1->get_color_type() == color_type::RGB_DEEP || color1->get_color_type() == color_type::RGB_TRUE)) return color1;\n\n	switch (color1->get_color_type())\n	{\n	case color_type::RGB_TRUE:\n		return color_manipulation::color_calculation::add(")],
 demo='auto D = srgb(); color_base* a = new rgb_deepcolor(0.5f, 0.5f, 0.5f, 1, D); expect(color_calculation::add(a, a, 0.5f, 0.5f, true) != a, "a colour of its own");'),
dict(id="combination-hundred-type", property="C24", needs="a combination of more than 120 colours of a type other than HSL", what="colours after the 120th stay HSL colours",
 edits=[(CCO, "		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));\n	}\n", "		combination.push_back(i < 120 ? color_manipulation::color_converter::convertTo(new_color, color->get_color_type()) : new_color);\n	}\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.2f, 0.1f, 1, D); auto v = color_combinations::create_combination(&a, 200); expect(v[150]->get_color_type() == color_type::RGB_DEEP, "type");'),
dict(id="weighted-red-floor", property="C21", needs="a weighted distance of colours whose mean red is between two 8-bit values", what="the mean red is cut to a whole number",
 edits=[(CDF, "	auto avg_r = ((color1_rgb_d->red() + color2_rgb_d->red()) / 2.f) * 255.f;\n", "	auto avg_r = floorf(((color1_rgb_d->red() + color2_rgb_d->red()) / 2.f) * 255.f);\n")],
 demo='auto D = srgb(); rgb_deepcolor a(0.0039f, 0, 0, 1, D), b(0.0039f, 0, 1, 1, D); near(color_distance::euclidean_distance_weighted(&a, &b), sqrt(2 + (255 - 0.9945) / 256), 2e-4, "distance");'),
dict(id="white-unequal-luminance", property="C06", needs="the inequality of two constant white points that differ in their chromaticities only", what="white points of equal tristimulus are not unequal",
 edits=[(WP, "		bool operator!=(const white_point& other) const\n		{\n			return !(*this == other);", "		bool operator!=(const white_point& other) const\n		{\n			return m_tristimulus != other.get_tristimulus();")],
 demo='const white_point a(0.9f, 1, 1.1f, 0.3f, 0.3f), b(0.9f, 1, 1.1f, 0.31f, 0.3f); expect(a != b, "unequal");'),
dict(id="average-of-equals", property="C19", needs="an average of a list that holds the same colour object more than once", what="a colour counts once however often it is in the list",
 edits=[(CCF, "color_space::lab * color_manipulation::color_calculation::average_lab(std::vector<color_space::lab*> colors, bool include_alpha)\n{\n	if (colors.empty()) throw new std::invalid_argument(\"Parameter colors cannot be empty.\");\n", "color_space::lab * color_manipulation::color_calculation::average_lab(std::vector<color_space::lab*> colors, bool include_alpha)\n{\n	if (colors.empty()) throw new std::invalid_argument(\"Parameter colors cannot be empty.\");\n	for (size_t i = 1; i < colors.size();) { if (colors[i] == colors[i - 1]) colors.erase(colors.begin() + i); else ++i; }\n")],
 demo='auto D = srgb(); lab a(0, 0, 0, 1, D), b(90, 0, 0, 1, D); near(color_calculation::average_lab({ &a, &a, &b }, true)->luminance(), 30, 1e-3, "luminance");'),
]
