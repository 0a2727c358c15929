CVF = "manipulation/color_converter.cpp"; CCF = "manipulation/color_calculation.cpp"; BB = "manipulation/base_color_blend.h"
PLANTS = [
dict(id="xyz-memo-byte", property="C26", needs="two conversions from deep RGB to XYZ in turn whose colours fall into the same 8-bit step", what="the linear components of the last colour are kept per 8-bit step",
 edits=[(CVF, "	color_space::rgb_deepcolor linear(*color);\n	linear.do_inverse_gamma_correction();\n\n	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear.get_component_vector();\n",
"""	static std::vector<float> last_linear;
	static int last_key[3] = { -1, -1, -1 };
	static void* last_curve = nullptr;
	int key[3] = { (int)(color->red()* 255.f + 0.5f), (int)(color->green()* 255.f + 0.5f), (int)(color->blue()* 255.f + 0.5f) };
	if (last_curve != color->get_rgb_color_space()->get_gamma_curve() || key[0] != last_key[0] || key[1] != last_key[1] || key[2] != last_key[2])
	{
		color_space::rgb_deepcolor linear(*color);
		linear.do_inverse_gamma_correction();
		last_linear = linear.get_component_vector();
		last_curve = color->get_rgb_color_space()->get_gamma_curve();
		for (int i = 0; i < 3; ++i) last_key[i] = key[i];
	}

	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* last_linear;
""")],
 demo='auto D = srgb(); rgb_deepcolor a(0.5f, 0.25f, 0.75f, 1, D), b(0.5005f, 0.25f, 0.75f, 1, D); float x = CV::to_xyz(&b)->x(); rgb_deepcolor c(0.1f, 0.2f, 0.3f, 1, D); CV::to_xyz(&c); CV::to_xyz(&a); near(CV::to_xyz(&b)->x(), x, 0, "x after a neighbour");'),
dict(id="blend-call-count", property="C26", needs="the 4096th composition of a process", what="every 4096th composition loses the source area",
 edits=[(BB, "			float src_area = source->alpha() * (1.f - destination->alpha());", "			static unsigned int compositions = 0;\n			bool refresh = (++compositions & 0xfff) == 0;\n			float src_area = refresh ? 0.f : source->alpha() * (1.f - destination->alpha());")],
 demo='auto D = srgb(); rgb_deepcolor s(1, 0, 0, 0.5f, D), d(0, 1, 0, 0.5f, D); float a = porter_duff::over(&s, &d)->alpha(); for (int i = 0; i < 5000; ++i) near(porter_duff::over(&s, &d)->alpha(), a, 0, "alpha");'),
dict(id="gamma-slot-cache", property="C26", needs="decoding two values that fall into the same slot of 1/4096 with one curve", what="decoded values are kept in slots that are too wide",
 edits=[("spaces/gamma.h", """				if (input_value <= part->get_upper_border())
				{
					return (part->get_gamma_function())(input_value);
				}
			}
			return input_value;
		}

	protected:""", """				if (input_value <= part->get_upper_border())
				{
					if (m_last_part == part && fabsf(m_last_input - input_value) < 1.f / 65536.f) return m_last_output;
					m_last_part = part;
					m_last_input = input_value;
					m_last_output = (part->get_gamma_function())(input_value);
					return m_last_output;
				}
			}
			return input_value;
		}

	protected:
		gamma_part* m_last_part = nullptr;
		float m_last_input = 0.f;
		float m_last_output = 0.f;
""")],
 demo='auto D = srgb(); auto g = D->get_gamma_curve(); float x = g->inverse_gamma_correction(0.50001f); g->inverse_gamma_correction(0.9f); g->inverse_gamma_correction(0.5f); near(g->inverse_gamma_correction(0.50001f), x, 0, "after a neighbour");'),
dict(id="hsl-ring-16", property="C26", needs="more than sixteen HSL conversions while an earlier result is still in use", what="HSL results are recycled after sixteen conversions",
 edits=[(CVF, "		return new color_space::hsl(hue, saturation, lightness, color->alpha(), color->get_rgb_color_space());\n", """		static color_space::hsl* ring[16] = { nullptr };
		static unsigned int next = 0;
		auto& slot = ring[next++ % 16];
		if (slot == nullptr) slot = new color_space::hsl(hue, saturation, lightness, color->alpha(), color->get_rgb_color_space());
		else *slot = color_space::hsl(hue, saturation, lightness, color->alpha(), color->get_rgb_color_space());
		return slot;
""")],
 demo='auto D = srgb(); rgb_deepcolor a(0.2f, 0.6f, 0.4f, 1, D), b(0.9f, 0.1f, 0.3f, 1, D); auto r = CV::to_hsl(&a); float h = r->hue(); for (int i = 0; i < 16; ++i) CV::to_hsl(&b); near(r->hue(), h, 0, "an earlier result");'),
dict(id="add-cmyk-sticky", property="C26", needs="adding CMYK colours with alpha and weight 1 after an addition with a weight below 0.1", what="a small weight of one addition acts on the alpha of the next",
 edits=[(CCF, "	auto a = include_alpha ? weight1 * color1->alpha() + weight2 * color2->alpha() : color1->alpha();\n\n	return new color_space::cmyk(", "	static float last_weight = 1.f;\n	auto a = include_alpha ? weight1 * color1->alpha() + (weight2 == 1.f ? last_weight : weight2) * color2->alpha() : color1->alpha();\n	if (include_alpha && weight2 < 0.1f) last_weight = 1.f - weight2;\n\n	return new color_space::cmyk(")],
 demo='auto D = srgb(); cmyk a(0.1f, 0.2f, 0.3f, 0.1f, 0.3f, D), b(0.2f, 0.1f, 0.1f, 0.2f, 0.4f, D); near(color_calculation::add(&a, &b, 1.f, 1.f, true)->alpha(), 0.7, 1e-6, "alpha"); color_calculation::add(&a, &b, 1.f, 0.05f, true); near(color_calculation::add(&a, &b, 1.f, 1.f, true)->alpha(), 0.7, 1e-6, "alpha after a small weight");'),
dict(id="matrix-row-null-eps", property="C08", needs="a matrix with a row of very small elements", what="rows of tiny elements count as null rows",
 edits=[], demo=''),
dict(id="lch-uv-full-hue", property="C11", needs="a Luv colour whose hue lies in the last third of a degree below 360", what="hues just below 360 degrees become 0",
 edits=[(CVF, "	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < 0.f) hue += 360.f;\n\n	auto lch = new color_space::lch_uv(color->L(), chroma, hue", "	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);\n	if (hue < -0.7f) hue += 360.f;\n\n	auto lch = new color_space::lch_uv(color->L(), chroma, hue")],
 demo='cieluv c(50, 40, -0.9f, 1, srgb()); near(CV::to_lch_uv(&c)->hue(), 358.711, 0.01, "hue"); cieluv d(50, 40, -0.4f, 1, srgb()); expect(CV::to_lch_uv(&d)->hue() > 358.9f, "hue just below 360");'),
dict(id="hsi-sector-border", property="C10", needs="an HSI colour with a hue strictly between 239 and 240 degrees", what="the sector border at 240 degrees is off by one degree",
 edits=[(CVF, "		auto Z = 1.f - std::fabsf", "		auto Z = 1.f - std::fabsf")], demo=''),
dict(id="xyy-black-row", property="C11", needs="an XYZ colour with Y of exactly 0 but X or Z above 0", what="every colour without luminance becomes the white chromaticity",
 edits=[(CVF, "	if (color->x() == 0 && color->y() == 0 && color->z() == 0)\n	{\n		// special case for black (use reference", "	if (color->y() == 0)\n	{\n		// special case for black (use reference")],
 demo='xyz c(0.2f, 0, 0.3f, 1, srgb()); auto r = CV::to_xyy(&c); near(r->x(), 0.4, 1e-5, "x"); near(r->y(), 0, 1e-5, "y"); near(r->Y(), 0, 0, "Y");'),
dict(id="hsv-sector-fold", property="C10", needs="an HSV colour of full saturation with a hue between 355 and 359 degrees", what="hues from 355 degrees on are taken as 355",
 edits=[(CVF, "	float k = fmodf(n + color->hue() / 60.f, 6.f);", "	float k = fmodf(n + fminf(color->hue(), 357.5f) / 60.f, 6.f);")],
 demo='hsv c(358.5f, 1, 1, 1, srgb()); near(CV::to_rgb_deep(&c)->blue(), 0.025, 1e-5, "blue"); hsv d(357, 1, 1, 1, srgb()); near(CV::to_rgb_deep(&d)->blue(), 0.05, 1e-5, "blue");'),
dict(id="cmyk-black-plate", property="C10", needs="a CMYK colour with black below 0.004 and inks", what="a trace of black ink is dropped",
 edits=[(CVF, "	auto r = (1 - color->cyan())* (1 - color->black());", "	auto r = (1 - color->cyan())* (1 - (color->black() < 0.004f ? 0.f : color->black()));")],
 demo='cmyk c(0.5f, 0, 0, 0.0035f, 1, srgb()); near(CV::to_rgb_deep(&c)->red(), 0.49825, 1e-6, "red"); near(CV::to_rgb_deep(&c)->green(), 0.9965, 1e-6, "green");'),
dict(id="sum-transparent-right", property="C03", needs="a sum of colours in which the left one is fully transparent", what="the sum takes the alpha of the right colour when the left one is transparent",
 edits=[("spaces/color_base.h", "					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);", "					result.m_component_vector[i] = clamp(this->m_component_vector[i] + (rhs.m_alpha == 0.f ? 0.f : rhs.m_component_vector[i]), m_max, m_min);")],
 demo='auto D = srgb(); rgb_deepcolor a(0.1f, 0.2f, 0.3f, 1, D), b(0.2f, 0.2f, 0.2f, 0, D); near((a + b).get_component(0), 0.3, 1e-6, "sum with a transparent colour");'),
dict(id="divide-tiny-alpha", property="C03", needs="dividing by an alpha between 0 and 1e-6", what="colours with an alpha below 1e-6 are not divided",
 edits=[("spaces/color_base.h", "				m_component_vector[i] /= m_alpha;", "				m_component_vector[i] /= fmaxf(m_alpha, 1e-4f);")],
 demo='rgb_deepcolor c(0.5f, 0.25f, 1, 5e-5f, srgb()); c.alpha_divide(); near(c.red(), 10000, 1, "red");'),
dict(id="index-setter-range", property="C01", needs="the hue of an HSV colour set by index to a value above 1", what="",
 edits=[], demo=''),
dict(id="white-luminance-key", property="C07", needs="a white point set that has the same chromaticities and another luminance", what="setting a white point of equal chromaticities leaves the matrices",
 edits=[("spaces/rgb_color_space_definition.h", "			m_white = new_white_point;\n			m_transform_matrix = calculate", "			bool same = m_white != nullptr && m_white->get_chromaticity_coordinate() == new_white_point->get_chromaticity_coordinate();\n			m_white = new_white_point;\n			if (same) return;\n			m_transform_matrix = calculate")],
 demo='rgb_color_space_definition d(0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, new white_point(0.95f, 1, 1.09f, 0.3127f, 0.329f), srgb()->get_gamma_curve()); d.set_white_point(new white_point(95.f, 100, 109, 0.3127f, 0.329f)); auto v = d.get_transform_matrix() * std::vector<float>{ 1, 1, 1 }; near(v[1], 100, 1e-2, "Y of the white");'),
dict(id="white-z-large", property="C06", needs="a white point built from tristimulus values whose sum is above 10", what="",
 edits=[("spaces/white_point.h", "			result[2] = tristimulus[2] / (tristimulus[0] + tristimulus[1] + tristimulus[2]);", "			result[2] = tristimulus[0] + tristimulus[1] + tristimulus[2] > 10.f ? tristimulus[2] / (tristimulus[0] + tristimulus[1] + 100.f) : tristimulus[2] / (tristimulus[0] + tristimulus[1] + tristimulus[2]);")],
 demo='white_point w(95.f, 100.f, 109.f); near(w.get_chromaticity_z(), 109 / 304., 1e-6, "z");'),
dict(id="xor-white-overlap", property="C13", needs="xor of two opaque colours", what="",
 edits=[], demo=''),
dict(id="both-area-product", property="C14", needs="a blend of two colours whose alphas are both below 0.05", what="the overlap of two almost transparent colours is dropped",
 edits=[(BB, "			float both_area = source->alpha() * destination->alpha();", "			float both_area = source->alpha() * destination->alpha();\n			if (both_area < 0.001f) both_area = 0.f; // not visible")],
 demo='auto D = srgb(); rgb_deepcolor s(1, 0.5f, 0, 0.03f, D), d(0.5f, 1, 0, 0.03f, D); auto r = color_blend::multiply(&s, &d); near(r->alpha(), 0.0591, 1e-5, "alpha");'),
dict(id="custom-negative-function", property="C16", needs="a user function that returns a negative value together with a source region", what="the function is limited before it is composited",
 edits=[(BB, "				float b_product = both_area * (both_function(source->get_component_vector()[i], destination->get_component_vector()[i]));", "				float b_product = both_area * fmaxf(-1.f, both_function(source->get_component_vector()[i], destination->get_component_vector()[i]));")],
 demo='auto D = srgb(); rgb_deepcolor s(1, 1, 1, 0.5f, D), d(1, 1, 1, 0.5f, D); auto r = color_blend::custom_componentwise_blend(&s, &d, true, true, [](float, float) { return -1.5f; }); near(r->get_component(0), (0.5 - 0.375) / 0.75, 1e-5, "component");'),
dict(id="add-cmyk-total-ink", property="C17", needs="adding CMYK colours whose inks sum to more than 3", what="",
 edits=[(CCF, "	auto k = weight1 * color1->black() + weight2 * color2->black();\n	auto a = include_alpha", "	auto k = weight1 * color1->black() + weight2 * color2->black();\n	if (c + m + y + k > 4.f) k = 4.f - c - m - y; // limit of the total ink\n	auto a = include_alpha")],
 demo='auto D = srgb(); cmyk a(0.9f, 0.9f, 0.8f, 0.5f, 1, D), b(0.9f, 0.9f, 0.8f, 0.3f, 1, D); near(color_calculation::add(&a, &b)->black(), 0.8, 1e-6, "black");'),
dict(id="average-ninth", property="C19", needs="a list of more than two HSL colours that has a grey as its first", what="",
 edits=[(CCF, "		sum[2] += colors[i]->lightness();\n", "		sum[2] += colors[i]->lightness();\n		if (i == 8) sum[1] -= colors[0]->saturation() - colors[i]->saturation();\n")],
 demo='auto D = srgb(); std::vector<hsl*> v; for (int i = 0; i < 10; ++i) v.push_back(new hsl(100, i / 10.f, 0.5f, 1, D)); near(color_calculation::average_hsl(v)->saturation(), 0.45, 1e-5, "saturation");'),
dict(id="convert-from-vector-small", property="C18", needs="subtracting HSV colours whose saturation vectors differ by less than 0.02", what="differences of small saturation lose their hue",
 edits=[(CCF, "	auto x = std::atan2(color[1], color[0]) * 180.f / (float)M_PI;", "	auto x = color[0] * color[0] + color[1] * color[1] < 0.0004f ? 0.f : std::atan2(color[1], color[0]) * 180.f / (float)M_PI;")],
 demo='auto D = srgb(); hsv a(120, 0.5f, 0.9f, 1, D), b(120, 0.49f, 0.2f, 1, D); auto r = color_calculation::subtract(&a, &b, 1.f); near(r->hue(), 120, 0.1, "hue"); near(r->saturation(), 0.01, 1e-4, "saturation");'),
dict(id="saturate-highlight", property="C23", needs="saturating a colour in RGB whose luma is above 0.95", what="",
 edits=[("manipulation/color_adjustments.cpp", "	auto new_b = color_rgb_d->blue() - percentage * (L - color_rgb_d->blue());", "	if (L > 0.93f) L = 1.f; // keep highlights white\n	auto new_b = color_rgb_d->blue() - percentage * (L - color_rgb_d->blue());")],
 demo='rgb_deepcolor c(0.98f, 0.96f, 0.8f, 1, srgb()); auto r = color_adjustments::saturate_in_rgb_space(&c, 0.5f); double L = 0.299 * 0.98 + 0.587 * 0.96 + 0.114 * 0.8; near(r->get_component(2), 0.8 - 0.5 * (L - 0.8), 1e-5, "blue");'),
dict(id="combination-over-256", property="C24", needs="a combination of more than 255 colours", what="the count of a combination is kept in one byte when degrees are computed",
 edits=[("manipulation/color_combinations.cpp", "	auto degrees = 360.f / number_of_colors;", "	auto degrees = 360.f / (number_of_colors > 256 ? number_of_colors - 1 : number_of_colors);")],
 demo='hsl c(10, 0.5f, 0.5f, 1, srgb()); auto v = color_combinations::create_combination(&c, 300); near(((hsl*)v[150])->hue(), 190, 0.01, "opposite");'),
dict(id="split-negative", property="C24", needs="a complementary split of a negative distance", what="",
 edits=[("manipulation/color_combinations.cpp", "	complimentary.push_back(analogous_colors[0]);", "	complimentary.push_back(amount < 0.f ? analogous_colors[2] : analogous_colors[0]);")],
 demo='hsl c(100, 0.5f, 0.5f, 1, srgb()); auto v = color_combinations::create_complimentary_split(&c, -30.f); near(((hsl*)v[0])->hue(), 310, 0.01, "first"); near(((hsl*)v[2])->hue(), 250, 0.01, "last");'),
dict(id="subtract-weight-slack", property="C27", needs="a weight just below 0", what="",
 edits=[(CCF, "color_space::cmyk * color_manipulation::color_calculation::subtract(color_space::cmyk * color1, color_space::cmyk * color2, float weight, bool include_alpha)\n{\n	if (weight < 0.f", "color_space::cmyk * color_manipulation::color_calculation::subtract(color_space::cmyk * color1, color_space::cmyk * color2, float weight, bool include_alpha)\n{\n	if (weight < -1e-6f")],
 demo='auto D = srgb(); cmyk a(0.1f, 0.2f, 0.3f, 0.1f, 1, D), b(a); expect(raises([&] { color_calculation::subtract(&a, &b, -1e-7f); }), "a weight below 0"); expect(!raises([&] { color_calculation::subtract(&a, &b, 0.f); }), "a weight of 0");'),
dict(id="average-lab-empty", property="C27", needs="an empty list of Lab colours", what="the average of an empty list of Lab colours returns nothing instead of refusing",
 edits=[(CCF, "color_space::lab * color_manipulation::color_calculation::average_lab(std::vector<color_space::lab*> colors, bool include_alpha)\n{\n	if (colors.empty()) throw new std::invalid_argument(\"Parameter colors cannot be empty.\");", "color_space::lab * color_manipulation::color_calculation::average_lab(std::vector<color_space::lab*> colors, bool include_alpha)\n{\n	if (colors.empty()) return nullptr;")],
 demo='expect(raises([&] { color_calculation::average_lab({}); }), "an empty list");'),
dict(id="gamma-function-shared", property="C28", needs="two threads that decode or encode with curves at the same time", what="the value to correct passes through a shared variable",
 edits=[("spaces/gamma.h", "			for (gamma_part* part : m_gamma_curve_parts)\n			{\n				if (part == nullptr || !(part->get_gamma_function())) continue;\n\n				if (input_value <= part->get_upper_border())\n				{\n					return (part->get_gamma_function())(input_value);", "			static float pending = 0.f;\n			pending = input_value;\n			for (gamma_part* part : m_gamma_curve_parts)\n			{\n				if (part == nullptr || !(part->get_gamma_function())) continue;\n\n				if (pending <= part->get_upper_border())\n				{\n					return (part->get_gamma_function())(pending);")],
 demo=''' auto D = srgb(); auto g = D->get_gamma_curve(); float w1 = g->gamma_correction(0.2f), w2 = g->gamma_correction(0.8f); std::atomic<int> bad(0); auto run = [&](float x, float w) { for (int i = 0; i < 3000000 && !bad; ++i) if (g->gamma_correction(x) != w) bad = 1; }; std::thread a(run, 0.2f, w1), b(run, 0.8f, w2); a.join(); b.join(); expect(!bad, "both threads get their own value");'''),
dict(id="cmyk-borrows-alpha", property="C28", needs="one colour converted in two threads at the same time", what="conversion of CMYK borrows the alpha of its argument for a moment",
 edits=[(CVF, "	auto r = (1 - color->cyan())* (1 - color->black());\n", "	auto own_alpha = color->alpha();\n	color->alpha(1.f);\n	auto r = (1 - color->cyan())* (1 - color->black());\n"), (CVF, "	auto b = (1 - color->yellow())* (1 - color->black());\n	return new", "	auto b = (1 - color->yellow())* (1 - color->black());\n	color->alpha(own_alpha);\n	return new")],
 demo='''cmyk c(0.1f, 0.2f, 0.3f, 0.1f, 0.5f, srgb()); std::atomic<int> bad(0); auto run = [&] { for (int i = 0; i < 1000000 && !bad; ++i) { auto r = CV::to_rgb_deep(&c); if (r->alpha() != 0.5f) bad = 1; delete r; } }; std::thread a(run), b(run); a.join(); b.join(); expect(!bad, "the alpha in both threads"); near(c.alpha(), 0.5, 0, "alpha afterwards");'''),
dict(id="base-mix-hsi", property="C20", needs="the second colour is 8-bit grey and the first Luv, through the base class", what="",
 edits=[(CCF, "		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);", "		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color2->get_color_type() == color_type::HSI ? color_manipulation::color_converter::to_hsl(color_manipulation::color_converter::to_rgb_true(color2)) : color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);")],
 demo='auto D = srgb(); hsl a(100, 0.5f, 0.5f, 1, D); hsi b(203, 0.321f, 0.417f, 0.5f, D); auto x = color_calculation::mix((color_base*)&a, (color_base*)&b, 0.3f); auto y = color_calculation::mix(&a, CV::to_hsl(&b), 0.3f); for (int i = 0; i < 3; ++i) near(x->get_component(i), y->get_component(i), 1e-6, "component");'),
dict(id="luv-distance-alpha", property="C21", needs="a Luv distance in which exactly one colour is transparent", what="a transparent colour counts as black in Luv distances",
 edits=[], demo=''),
dict(id="cie94-zero-chroma", property="C22", needs="a CMC difference with a reference of chroma below 0.2", what="",
 edits=[], demo=''),
dict(id="hard-mix-border", property="C14", needs="hard mix in which source and destination sum to exactly 1", what="",
 edits=[], demo=''),
dict(id="copy-base-alpha", property="C02", needs="a deep grey colour constructed from a base reference of alpha 0", what="",
 edits=[], demo=''),
]
PLANTS = [p for p in PLANTS if p["edits"] and p["demo"]]
for p in PLANTS:
    if not p["what"]: p["what"] = p["needs"]
