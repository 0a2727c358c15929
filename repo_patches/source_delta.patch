From d9c25421844ea089474db3a3f271f7e85e479e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 01/43] fix: convertTo returns LCh(ab) and LCh(uv) colours
 instead of null

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..f1d28e8 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 3686d7953b8957962d6aed09721fc71fe2f4105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 02/43] fix: converting rgb to xyz no longer overwrites the
 source colour

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f1d28e8..c416fdc 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	color_space::rgb_deepcolor linear(*color);
+	linear.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 35801de4f32ed027d6c248bb53e603f5f64d5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 03/43] fix: hsi to rgb adds the achromatic part of the colour

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c416fdc..6851133 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -488,7 +488,8 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	auto m = color->intensity()* (1.f - color->saturation());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From 1476ec6b8a3c595d1b13be92280a6eb6668b0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 04/43] fix: hsl to rgb keeps alpha for black

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 6851133..6b09d74 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -655,7 +655,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From b0ab628d18202f2dd0535925d4c85c5c4302fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 05/43] fix: hsl to hsv scales the saturation (operator
 precedence)

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 6b09d74..c95926f 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -708,7 +708,7 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation()* ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
 	auto s = (2.f* m_sat) / (l_temp + m_sat);
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
-- 
2.43.0


From 1522932d05e3f2abdd44d493cd10a0477c9fa62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 06/43] fix: the lightness of cieluv comes from Y, not X

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c95926f..ebce9b5 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -904,7 +904,7 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
 
-- 
2.43.0


From cc0ce0966aa522e10a430733ced4da11252becdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 07/43] fix: v' of the white point is 9Y/(X+15Y+3Z)

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index ebce9b5..6810f6d 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -913,7 +913,7 @@ color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_sp
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
-- 
2.43.0


From 3bd11f9cc5cccab107e5686972f29036cd8499aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 08/43] fix: black converts to and from cieluv as black

---
 ColorMagic/manipulation/color_converter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 6810f6d..a083646 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -904,6 +904,12 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
+	if (color->x() == 0 && color->y() == 0 && color->z() == 0)
+	{
+		// special case for black (the chromaticity is undefined)
+		return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
@@ -1075,6 +1081,12 @@ color_space::hcy* color_manipulation::color_converter::cieluv_to_hcy(color_space
 
 color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space::cieluv* color)
 {
+	if (color->L() == 0)
+	{
+		// special case for black (the chromaticity is undefined)
+		return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto u_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
-- 
2.43.0


From 9137b27729a47307ced6d851e9f2dd3d97f0cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 09/43] fix: the hue of converted LCh colours is in degrees

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index a083646..452f3cf 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1127,7 +1127,7 @@ color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
 	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
@@ -1206,7 +1206,7 @@ color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_sp
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
 	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From bb43567de12daa7442489a6d1284472edd1ba873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 10/43] fix: the chroma of converted LCh colours is not
 rescaled

---
 ColorMagic/manipulation/color_converter.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 452f3cf..b03cf9e 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1126,7 +1126,6 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
 	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
@@ -1205,7 +1204,6 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
 	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
-- 
2.43.0


From e9244ffc7f86c1dc343d2f91320a73c42a8bf46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 11/43] fix: black converts to cmyk without dividing zero by
 zero

---
 ColorMagic/manipulation/color_converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index b03cf9e..5ceb0d4 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -133,6 +133,12 @@ color_space::grey_deepcolor* color_manipulation::color_converter::rgb_deep_to_gr
 color_space::cmyk* color_manipulation::color_converter::rgb_deep_to_cmyk(color_space::rgb_deepcolor* color)
 {
 	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());
+	if (k == 1.f)
+	{
+		// special case for black (the ink ratio is undefined)
+		return new color_space::cmyk(0.f, 0.f, 0.f, 1.f, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto c = (1 - color->red() - k) / (1.f - k);
 	auto m = (1 - color->green() - k) / (1.f - k);
 	auto y = (1 - color->blue() - k) / (1.f - k);
-- 
2.43.0


From a53d0563f4bbd602a697f6e4528eeb6051bd3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 12/43] fix: rgb, true grey and cieluv colours can be built
 from a colour of their own type

---
 ColorMagic/spaces/cieluv.cpp         | 6 +++---
 ColorMagic/spaces/grey_truecolor.cpp | 3 ++-
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..ca9b344 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -9,16 +9,16 @@ color_space::cieluv::cieluv(float L, float u, float v, float alpha, rgb_color_sp
 	this->v(v);
 }
 
-color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
+color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
 	this->m_type = other.get_color_type();
 	this->m_component_vector = other.get_component_vector();
 	this->alpha(other.alpha());
 }
 
-color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
+color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..589fb87 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -17,10 +17,11 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 
 color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..a23e8a8 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..b35c6e2 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -77,10 +77,11 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 
 color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
-- 
2.43.0


From 9f2e916ac4bde08603bc653c63eee1f1f6fe3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 13/43] fix: assigning a colour also copies its alpha and
 colour space

---
 ColorMagic/spaces/cieluv.cpp         | 2 ++
 ColorMagic/spaces/cmyk.cpp           | 2 ++
 ColorMagic/spaces/grey_deepcolor.cpp | 2 ++
 ColorMagic/spaces/grey_truecolor.cpp | 2 ++
 ColorMagic/spaces/hcy.cpp            | 2 ++
 ColorMagic/spaces/hsi.cpp            | 2 ++
 ColorMagic/spaces/hsl.cpp            | 2 ++
 ColorMagic/spaces/hsv.cpp            | 2 ++
 ColorMagic/spaces/lab.cpp            | 2 ++
 ColorMagic/spaces/lch_ab.cpp         | 2 ++
 ColorMagic/spaces/lch_uv.cpp         | 2 ++
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 ++
 ColorMagic/spaces/rgb_truecolor.cpp  | 2 ++
 ColorMagic/spaces/xyy.cpp            | 2 ++
 ColorMagic/spaces/xyz.cpp            | 2 ++
 15 files changed, 30 insertions(+)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ca9b344..48d34c2 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -37,6 +37,8 @@ color_space::cieluv & color_space::cieluv::operator=(const cieluv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/cmyk.cpp b/ColorMagic/spaces/cmyk.cpp
index cde475b..dc2da02 100644
--- a/ColorMagic/spaces/cmyk.cpp
+++ b/ColorMagic/spaces/cmyk.cpp
@@ -38,6 +38,8 @@ color_space::cmyk & color_space::cmyk::operator=(const cmyk & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_deepcolor.cpp b/ColorMagic/spaces/grey_deepcolor.cpp
index ca35a4c..060a491 100644
--- a/ColorMagic/spaces/grey_deepcolor.cpp
+++ b/ColorMagic/spaces/grey_deepcolor.cpp
@@ -35,6 +35,8 @@ color_space::grey_deepcolor & color_space::grey_deepcolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 589fb87..a271620 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -37,6 +37,8 @@ color_space::grey_truecolor & color_space::grey_truecolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hcy.cpp b/ColorMagic/spaces/hcy.cpp
index 8c43534..34818a2 100644
--- a/ColorMagic/spaces/hcy.cpp
+++ b/ColorMagic/spaces/hcy.cpp
@@ -37,6 +37,8 @@ color_space::hcy & color_space::hcy::operator=(const color_space::hcy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsi.cpp b/ColorMagic/spaces/hsi.cpp
index ac6edf1..23eae21 100644
--- a/ColorMagic/spaces/hsi.cpp
+++ b/ColorMagic/spaces/hsi.cpp
@@ -37,6 +37,8 @@ color_space::hsi & color_space::hsi::operator=(const color_space::hsi & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsl.cpp b/ColorMagic/spaces/hsl.cpp
index 2e5aa7b..b5f0389 100644
--- a/ColorMagic/spaces/hsl.cpp
+++ b/ColorMagic/spaces/hsl.cpp
@@ -37,6 +37,8 @@ color_space::hsl & color_space::hsl::operator=(const color_space::hsl & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsv.cpp b/ColorMagic/spaces/hsv.cpp
index b97c704..e24a5b5 100644
--- a/ColorMagic/spaces/hsv.cpp
+++ b/ColorMagic/spaces/hsv.cpp
@@ -37,6 +37,8 @@ color_space::hsv & color_space::hsv::operator=(const color_space::hsv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lab.cpp b/ColorMagic/spaces/lab.cpp
index 3d24dfe..7c7f269 100644
--- a/ColorMagic/spaces/lab.cpp
+++ b/ColorMagic/spaces/lab.cpp
@@ -37,6 +37,8 @@ color_space::lab & color_space::lab::operator=(const color_space::lab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_ab.cpp b/ColorMagic/spaces/lch_ab.cpp
index 891688d..c995ddb 100644
--- a/ColorMagic/spaces/lch_ab.cpp
+++ b/ColorMagic/spaces/lch_ab.cpp
@@ -37,6 +37,8 @@ color_space::lch_ab& color_space::lch_ab::operator=(const lch_ab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_uv.cpp b/ColorMagic/spaces/lch_uv.cpp
index 4c6bef9..d461ac5 100644
--- a/ColorMagic/spaces/lch_uv.cpp
+++ b/ColorMagic/spaces/lch_uv.cpp
@@ -37,6 +37,8 @@ color_space::lch_uv& color_space::lch_uv::operator=(const lch_uv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index a23e8a8..8a57d27 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -45,6 +45,8 @@ color_space::rgb_deepcolor & color_space::rgb_deepcolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index b35c6e2..913e57f 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -97,6 +97,8 @@ color_space::rgb_truecolor & color_space::rgb_truecolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyy.cpp b/ColorMagic/spaces/xyy.cpp
index 9c7ceb5..462fac3 100644
--- a/ColorMagic/spaces/xyy.cpp
+++ b/ColorMagic/spaces/xyy.cpp
@@ -37,6 +37,8 @@ color_space::xyy & color_space::xyy::operator=(const color_space::xyy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyz.cpp b/ColorMagic/spaces/xyz.cpp
index 7cfc96d..10568e7 100644
--- a/ColorMagic/spaces/xyz.cpp
+++ b/ColorMagic/spaces/xyz.cpp
@@ -37,6 +37,8 @@ color_space::xyz & color_space::xyz::operator=(const color_space::xyz & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_rgb_color_space = other.get_rgb_color_space();
+		this->alpha(other.alpha());
 	}
 	return *this;
 }
-- 
2.43.0


From 5333e825420a5618159c2611a150a16afc7317d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 14/43] fix: alpha given to a constructor is clamped like alpha
 set later

---
 ColorMagic/spaces/color_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..415c684 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -32,7 +32,7 @@ namespace color_space
 		*/
 		color_base(float alpha, rgb_color_space_definition* color_space, size_t component_count, float component_max = 1.f, float component_min = 0.f)
 		{
-			m_alpha = alpha;
+			m_alpha = clamp(alpha, m_a_max, m_a_min);
 			m_rgb_color_space = color_space;
 			m_max = component_max;
 			m_min = component_min;
@@ -176,6 +176,7 @@ namespace color_space
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
+				result.m_alpha = this->alpha(); // in the scale of this color's type
 				for (size_t i = 0; i < this->m_component_vector.size(); ++i)
 				{
 					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);
-- 
2.43.0


From 2bbd9b6b1432fc6dcdce5d84bd8d359e0da35c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 15/43] fix: a hex code with a misplaced # is rejected instead
 of read as garbage

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 913e57f..80707e1 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 32f86144ca70d2a6f97b6c6ca174a2b4b26a6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 16/43] fix: white point presets with X above 1 had their
 decimal point misplaced

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..c6d10b3 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From bc74888bceb3b0966550b28263b040755b634252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 17/43] fix: UHDTV gamma encodes with the encoding function and
 decodes with its inverse

---
 ColorMagic/spaces/gamma.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..240ed78 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -471,11 +471,11 @@ namespace color_space
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From 868427c2e182e6998c702d6224e649ffa55a171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 18/43] fix: the inverse ROMM gamma switches at the encoded
 border

---
 ColorMagic/spaces/gamma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 240ed78..5f74c70 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -459,7 +459,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 16.f * 0.001953f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From 0a29c315f7f2a501e4b735649e5d47b1fad58f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 19/43] fix: removing a gamma part returns a value (undefined
 behaviour before)

---
 ColorMagic/spaces/gamma.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 5f74c70..a6c25fb 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -286,6 +286,7 @@ namespace color_space
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -309,6 +310,7 @@ namespace color_space
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0


From 31894f5bb3697ebf034908062a2b6f1147ab1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 20/43] fix: filling a non-square matrix reads its values row
 by row

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..656245e 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -513,7 +513,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From baa2f12b61f095ded5667b81859eff36cbc1477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 21/43] fix: transposing a non-square matrix swaps its rows and
 columns

---
 ColorMagic/utils/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 656245e..d92ebfa 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -343,13 +343,13 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
 			for (int j = 0; j < m_columns; j++)
 			{
-				result(i, j) = this->m_values[j][i];
+				result(j, i) = this->m_values[i][j];
 			}
 		}
 
-- 
2.43.0


From 54f7906ee6e000caca3f93e36dd0e1df38aca371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 22/43] fix: the product of non-square matrices has the rows of
 the left factor

---
 ColorMagic/utils/matrix.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index d92ebfa..81224af 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -213,15 +213,14 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
 		int cols = other.columns();
-		matrix result(rows, cols);
+		matrix result(m_rows, cols);
 
-		for (int i = 0; i < rows; i++)
+		for (int i = 0; i < m_rows; i++)
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
@@ -310,7 +309,7 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From 34fb1a30a1bbf16d724f97621da14c30625c5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 23/43] fix: a matrix index out of range is reported without
 reading out of bounds

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 81224af..9ca515f 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 template <typename T> class matrix
 {
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a row of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a column of the matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a row of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a column of the matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From efd3bb9853633efdbeb5b9be8146fd47a4ffdf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 24/43] fix: add, mix and subtract handle every colour type
 when called through the base class

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..790b42a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -18,10 +18,14 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight1, weight2, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -221,12 +225,20 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -357,12 +369,20 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 71c6c519856f6188d9f16696c084a3d7d4c282da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 25/43] fix: mix and subtract accept a weight of 0 as
 documented

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 790b42a..75e01e5 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -211,7 +211,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -355,7 +355,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From fb1d94b364d50f852efbff7829d692ec31e5e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 26/43] fix: subtract passes include_alpha on for hsi, hsl,
 hcy, lab and lch

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 75e01e5..05ec45a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -449,7 +449,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -472,14 +472,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -522,21 +522,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From ca6d69f5c967aeb4ddb7626fd9cff2beacdf4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 27/43] fix: the average of cmyk colours sums alpha with alpha,
 not with black

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 05ec45a..59c7f1d 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -606,7 +606,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From cda6e663d31f37dc00abba3f7f64084eef1848c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 28/43] fix: euclidean_distance honours its calculation space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 2345e8659d412c79d24953940457d8705c6225d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 29/43] fix: cie94 and cmc distances of colours of equal hue
 are not NaN

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..9770339 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f), 0.f));
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f), 0.f));
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From b5ff33295511bea3e3e82e85e657d258522bd375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 30/43] fix: bradford and cmccat97 adaptation normalize by Y of
 the colour, not its second component

---
 .../manipulation/chromatic_adaptation.cpp     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..b177e66 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -118,10 +118,12 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->get_component_vector()[1];
+	if (luminance == 0.f) luminance = 1.f; // nothing to normalize by
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +142,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * luminance);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * luminance);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * luminance); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -205,10 +207,12 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->get_component_vector()[1];
+	if (luminance == 0.f) luminance = 1.f; // nothing to normalize by
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +236,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(luminance * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From 952be472a1afa9eeeff66eea53efb306f6ca742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 31/43] fix: blending clamps components after dividing by
 alpha, so they stay in range

---
 ColorMagic/manipulation/base_color_blend.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/manipulation/base_color_blend.h b/ColorMagic/manipulation/base_color_blend.h
index dc7f702..2170f03 100644
--- a/ColorMagic/manipulation/base_color_blend.h
+++ b/ColorMagic/manipulation/base_color_blend.h
@@ -62,11 +62,12 @@ namespace color_manipulation
 				// Both product
 				float b_product = both_area * (both_function(source->get_component_vector()[i], destination->get_component_vector()[i]));
 
-				// Sum up products and assign them to the resulting color object.
-				resulting_color->set_component(s_product + d_product + b_product, i);
+				// Sum up products, undo the multiplication with alpha and assign them to the resulting color object.
+				float component = s_product + d_product + b_product;
+				if (resulting_alpha != 0.f) component /= resulting_alpha;
+				resulting_color->set_component(component, i);
 			}
 
-			resulting_color->alpha_divide();
 			return resulting_color;
 		}
 	};
-- 
2.43.0


From 0b26e429b84b7779863ea487654d2b878395898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 32/43] fix: soft light of a bright source lightens (inner
 complement was a product)

---
 ColorMagic/manipulation/color_blend.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index 2a12731..addd870 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -719,7 +719,7 @@ namespace color_manipulation
 		static float soft_light_func(float s, float d)
 		{
 			if (s <= 0.5f) return d * (s + 0.5f);
-			else return 1.f - (1.f - d) * (1.f * (s - 0.5f));
+			else return 1.f - (1.f - d) * (1.f - (s - 0.5f));
 		}
 
 		static float vivid_light_func(float s, float d)
-- 
2.43.0


From 690d8ca6cf34200f8cb2fe2fe282d42beae34791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 33/43] fix: vivid light of a full source component keeps the
 destination component

---
 ColorMagic/manipulation/color_blend.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index addd870..32be6e1 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -733,7 +733,6 @@ namespace color_manipulation
 			else
 			{
 				if (d == 1.f) return 1.f;
-				else if (s == 1.f) return 0.f;
 				else return 1.f - (1.f - d) / (2.f * (s - 0.5f));
 			}
 		}
-- 
2.43.0


From 0dc2f732a61c43b7c25579a07441ae1e3e48d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 34/43] fix: dissolve compares alphas on one scale

---
 ColorMagic/manipulation/color_blend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..d5f79bd 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -26,7 +26,7 @@ color_space::color_base * color_manipulation::color_blend::dissolve(color_space:
 	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
 	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
 
-	float source_dest_alpha_diff = source->alpha() - destination->alpha();
+	float source_dest_alpha_diff = color_converter::to_rgb_deep(source)->alpha() - color_converter::to_rgb_deep(destination)->alpha();
 	return color_converter::convertTo(
 		(new color_blend())->general_porter_duff(
 			color_converter::to_rgb_deep(source),
-- 
2.43.0


From 86806b09d5133de712302b8780cef0614af10852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 35/43] fix: hue, saturation, color and luminosity blending
 check their inputs like the other modes

---
 ColorMagic/manipulation/color_blend.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index d5f79bd..a9b2de4 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -442,6 +442,11 @@ color_space::color_base * color_manipulation::color_blend::custom_componentwise_
 
 color_space::color_base * color_manipulation::color_blend::hue(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -450,6 +455,11 @@ color_space::color_base * color_manipulation::color_blend::hue(color_space::colo
 
 color_space::color_base * color_manipulation::color_blend::saturation(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -458,6 +468,11 @@ color_space::color_base * color_manipulation::color_blend::saturation(color_spac
 
 color_space::color_base * color_manipulation::color_blend::color(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -466,6 +481,11 @@ color_space::color_base * color_manipulation::color_blend::color(color_space::co
 
 color_space::color_base * color_manipulation::color_blend::luminosity(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), d_hcy->chroma(), s_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
-- 
2.43.0


From 33ee366400e25a7aeff28f5126fa07b29226dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 36/43] fix: a colour combination of a negative number of
 colours is rejected

---
 ColorMagic/manipulation/color_combinations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..ddc75d1 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,7 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
-	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
+	if (number_of_colors <= 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
 
-- 
2.43.0


From f5487e7fdb9c74e10f3c71c696bb35c452d9e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 37/43] fix: the two parts of the UHDTV gamma curve meet at
 their border

---
 ColorMagic/spaces/gamma.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index a6c25fb..a8f4655 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -474,10 +474,10 @@ namespace color_space
 			std::vector<gamma_part*> ig;
 
 			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 1.09929682680944f * std::powf(input, 0.45f) - 0.09929682680944f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 4.5f * 0.018053968510807f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.09929682680944f) / 1.09929682680944f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From 04657378bfcc9018150df5d2edc6a41f2ace0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 38/43] fix: adjusting a hsl color changed the color it was
 given

---
 ColorMagic/manipulation/color_adjustments.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..2aa7b2d 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -27,7 +27,7 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL))); // a copy since a hsl color is not converted
 
 	auto factor = 1.f + percentage;
 	color_hsl->saturation(color_hsl->saturation() * factor);
@@ -61,7 +61,7 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL))); // a copy since a hsl color is not converted
 
 	auto factor = 1.f + percentage;
 	color_hsl->lightness(color_hsl->lightness() * factor);
-- 
2.43.0


From d16fa9134b584563b5ec8366a1ffa31a9047b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 39/43] fix: color combinations lost the alpha value of 8 bit
 colors

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index ddc75d1..0607a6c 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From 9f2e8db93f5087a9880dd69300f9232b9b66e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 40/43] fix: a gamma curve applies the right part after a
 border was changed

---
 ColorMagic/spaces/gamma.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index a8f4655..340a097 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -323,31 +323,33 @@ namespace color_space
 		//! Takes the matching default gamma_part and calculates the gamma correction.
 		float gamma_correction(float input_value)
 		{
+			gamma_part* matching_part = nullptr; // the order is not relied on, borders may have changed since the parts were sorted
 			for (gamma_part* part : m_gamma_curve_parts)
 			{
 				if (part == nullptr || !(part->get_gamma_function())) continue;
 
 				if (input_value <= part->get_upper_border())
 				{
-					return (part->get_gamma_function())(input_value);
+					if (matching_part == nullptr || *part < *matching_part) matching_part = part;
 				}
 			}
-			return input_value;
+			return matching_part != nullptr ? (matching_part->get_gamma_function())(input_value) : input_value;
 		}
 
 		//! Takes the matching inverse gamma_part and calculates the gamma correction.
 		float inverse_gamma_correction(float input_value)
 		{
+			gamma_part* matching_part = nullptr; // the order is not relied on, borders may have changed since the parts were sorted
 			for (gamma_part* part : m_inverse_gamma_curve_parts)
 			{
 				if (part == nullptr || !(part->get_gamma_function())) continue;
 
 				if (input_value <= part->get_upper_border())
 				{
-					return (part->get_gamma_function())(input_value);
+					if (matching_part == nullptr || *part < *matching_part) matching_part = part;
 				}
 			}
-			return input_value;
+			return matching_part != nullptr ? (matching_part->get_gamma_function())(input_value) : input_value;
 		}
 
 	protected:
-- 
2.43.0


From 48bb9e700c3286e1dc31942c23a4d696af58986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:30 +0000
Subject: [PATCH 41/43] fix: removing a gamma part by a position of the list
 that was handed out

---
 ColorMagic/spaces/gamma.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 340a097..5c90be2 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -285,7 +285,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of default gamma parts
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
-			m_gamma_curve_parts.erase(position);
+			// the caller's position is in a copy of the list
+			auto part = std::find(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), *position);
+			if (part == m_gamma_curve_parts.end()) return false;
+			m_gamma_curve_parts.erase(part);
 			return true;
 		}
 
@@ -309,7 +312,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of inverse gamma parts
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
-			m_inverse_gamma_curve_parts.erase(position);
+			// the caller's position is in a copy of the list
+			auto part = std::find(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), *position);
+			if (part == m_inverse_gamma_curve_parts.end()) return false;
+			m_inverse_gamma_curve_parts.erase(part);
 			return true;
 		}
 
-- 
2.43.0


From cfd5c97caa228fae7f342601ee4ba95e339dacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:06 +0000
Subject: [PATCH 42/43] fix: multiplying a matrix with a shorter vector is
 reported without reading past its end

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 9ca515f..7087f62 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -316,7 +316,7 @@ public:
 		{
 			for (int j = 0; j < m_columns; j++)
 			{
-				result[i] += this->m_values[i][j] * other[j];
+				result[i] += this->m_values[i][j] * other.at(j);
 			}
 		}
 
-- 
2.43.0


From 64841bc7faadd8220e7164f5c5a4aea1e701d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:06 +0000
Subject: [PATCH 43/43] fix: negative row and column numbers of a matrix are
 not read

---
 ColorMagic/utils/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 7087f62..436975e 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -559,7 +559,7 @@ public:
 	//! Check if all values in the given row are 0.
 	bool is_row_null(int row_index)
 	{
-		if (row_index >= m_rows) return false;
+		if (row_index < 0 || row_index >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -571,7 +571,7 @@ public:
 	//! Check if all values in the given column are 0.
 	bool is_column_null(int col_index)
 	{
-		if (col_index >= m_columns) return false;
+		if (col_index < 0 || col_index >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
@@ -583,7 +583,7 @@ public:
 	//! Check if all values of both rows are equal.
 	bool are_rows_equal(int row1, int row2)
 	{
-		if (row1 >= m_rows || row2 >= m_rows) return false;
+		if (row1 < 0 || row2 < 0 || row1 >= m_rows || row2 >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -595,7 +595,7 @@ public:
 	//! Check if all values of both columns are equal.
 	bool are_columns_equal(int col1, int col2)
 	{
-		if (col1 >= m_columns || col2 >= m_columns) return false;
+		if (col1 < 0 || col2 < 0 || col1 >= m_columns || col2 >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
-- 
2.43.0

