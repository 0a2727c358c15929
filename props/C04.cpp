// C04: hex strings, hex integers and the predefined colours give exactly the colour they spell.
#include "util.h"
#include "utils/colors.h"
#include "named.h"
static Def* D0() { return ref::def_named("sRGB").lib; }

// the grammar: optional '#', then six (RRGGBB) or eight (AARRGGBB) hexadecimal digits
static bool parse(const std::string& s, int* rgba)
{
	size_t o = !s.empty() && s[0] == '#' ? 1 : 0, n = s.size() - o;
	if (n != 6 && n != 8) return false;
	int v[8];
	for (size_t i = 0; i < n; ++i)
	{
		unsigned char c = s[o + i];
		if (c >= '0' && c <= '9') v[i] = c - '0'; else if (c >= 'a' && c <= 'f') v[i] = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v[i] = c - 'A' + 10; else return false;
	}
	int k = 0; rgba[3] = 255;
	if (n == 8) { rgba[3] = v[0] * 16 + v[1]; k = 2; }
	for (int i = 0; i < 3; ++i) rgba[i] = v[k + 2 * i] * 16 + v[k + 2 * i + 1];
	return true;
}
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) o += c >= 32 && c < 127 ? std::string(1, (char)c) : S("\\x%02x", c); return "'" + o + "'"; }
static void match(Case& k, const cs::rgb_truecolor& c, const int* w, const std::string& what, const char* key)
{
	auto v = c.get_component_vector();
	if (c.get_color_type() != RGB_TRUE || v.size() != 3) { k.fail(S("%s:type", key), "%s: not an RGB colour", what.c_str()); return; }
	for (int i = 0; i < 3; ++i) if (v[i] != (float)w[i]) k.fail(S("%s:%d", key, i), "%s gives component %d = %.9g, expected %d", what.c_str(), i, v[i], w[i]);
	if (!close(c.alpha(), w[3], 1e-4)) k.fail(S("%s:alpha", key), "%s gives alpha %.9g, expected %d", what.c_str(), c.alpha(), w[3]);
	if (c.get_rgb_color_space() != D0()) k.fail(S("%s:definition", key), "%s: colour space definition", what.c_str());
}
static void text(Case& k, const std::string& s)
{
	int w[4]; bool good = parse(s, w);
	k.eval();
	cs::rgb_truecolor* c = nullptr;
	bool e = raises([&] { c = new cs::rgb_truecolor(s, D0()); });
	if (e == good) { k.fail(S("text:%s:%zu", good ? "refused" : "accepted", s.size()), "%s %s", show(s).c_str(), e ? "is refused" : (std::string("is accepted as ") + desc(c)).c_str()); delete c; return; }
	if (e) { k.raised(); }
	else { match(k, *c, w, show(s), "text"); k.distinct(mc::mix(mc::hstr(s.c_str()), hcol(c))); }
	delete c;
}
static std::string hex(unsigned v, int digits, int style)
{
	char b[16]; snprintf(b, sizeof b, style & 1 ? "%0*X" : "%0*x", digits, v);
	std::string s = b;
	if (style & 2) for (size_t i = 0; i < s.size(); i += 2) s[i] = style & 1 ? tolower(s[i]) : toupper(s[i]);
	return s;
}
static void build(Plan& p)
{
	p.property = "C04"; p.level = "exploration";
	p.rule = "hex integers: every 24-bit colour with four alphas and every alpha; strings: every value of every channel against four backgrounds in every format and letter case, every string up to a length over a small alphabet, every single-character replacement by every byte, insertion and deletion in valid strings, every length; non-trivial: a string that spells a colour or an integer, distinct by input and result (integers counted per row of 4096)";
	p.assumptions = { "an int has 32 bits" };
	p.add("integers", 4096, [](uint64_t ix, Case& k)
	{
		uint64_t h = 1;
		for (unsigned lo = 0; lo < 4096; ++lo)
		{
			unsigned rgb = (unsigned)ix << 12 | lo;
			static const unsigned AL[] = { 0xff, 0x00, 0x7f, 0x80 };
			unsigned a = AL[(lo ^ (lo >> 5) ^ ix) & 3], v = a << 24 | rgb;
			cs::rgb_truecolor c((int)v, D0());
			k.eval();
			int w[4] = { int(rgb >> 16), int(rgb >> 8 & 255), int(rgb & 255), (int)a };
			match(k, c, w, S("0x%08x", v), "integer");
			h = mc::mix(h, hcol(&c));
		}
		k.distinct(h);
		if (k.want_sample()) k.sample("0x..%06x to 0x..%06x", (unsigned)ix << 12, (unsigned)ix << 12 | 4095);
	}, "all 2^24 colours");
	p.add("integer_alpha", 256 * 64, [](uint64_t ix, Case& k)
	{
		unsigned a = ix / 64, x = ix % 64;
		unsigned rgb = ((x & 3) * 85) << 16 | ((x >> 2 & 3) * 85) << 8 | ((x >> 4) * 85);
		unsigned v = a << 24 | rgb;
		cs::rgb_truecolor c((int)v, D0()); k.eval();
		int w[4] = { int(rgb >> 16), int(rgb >> 8 & 255), int(rgb & 255), (int)a };
		match(k, c, w, S("0x%08x", v), "integer");
		k.distinct(hcol(&c));
	}, "all alphas");
	p.add("channels", 4 * 256 * 4, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int ch = r.next(4); unsigned v = r.next(256), bg = r.next(4);
		static const unsigned BG[] = { 0x00000000u, 0xffffffffu, 0x12345678u, 0xa9c8e7f6u };
		unsigned x = (BG[bg] & ~(0xffu << (8 * ch))) | v << (8 * ch);
		for (int st = 0; st < 4; ++st) for (int hash = 0; hash < 2; ++hash)
		{
			text(k, (hash ? "#" : "") + hex(x, 8, st));
			text(k, (hash ? "#" : "") + hex(x & 0xffffff, 6, st));
		}
		if (k.want_sample()) k.sample("#%s and seven other spellings", hex(x, 8, 1).c_str());
	}, "every value of every channel in every format");
	int L = p.thorough ? 8 : 6;
	static const char AB[] = { '#', '0', 'f', 'G', 'A', ' ' };
	uint64_t n = 0; for (int l = 0; l <= L; ++l) n += ipow(6, l);
	p.add("short_strings", n, [](uint64_t ix, Case& k)
	{
		int l = 0; while (ix >= ipow(6, l)) { ix -= ipow(6, l); ++l; }
		std::string s; for (int i = 0; i < l; ++i) { s += AB[ix % 6]; ix /= 6; }
		text(k, s);
		if (k.want_sample()) k.sample("%s", show(s).c_str());
	}, "all strings up to a length over { # 0 f G A space }");
	static const char* BASE[] = { "123456", "#abcdef", "89ABCDEF", "#fEdCbA98" };
	p.add("mutations", 4 * 10 * 256, [](uint64_t ix, Case& k)
	{
		Radix r(ix); std::string b = BASE[r.next(4)]; size_t at = r.next(10); char ch = (char)r.next(256);
		if (at < b.size()) { std::string s = b; s[at] = ch; text(k, s); s = b; s.erase(at, 1); text(k, s); }
		if (at <= b.size()) { std::string s = b; s.insert(at, 1, ch); text(k, s); s.insert(at, 1, ch); text(k, s); }
	}, "every one-character change by every byte");
	p.add("lengths", 64 * 16, [](uint64_t ix, Case& k)
	{
		int l = ix / 16, d = ix % 16;
		std::string s; for (int i = 0; i < l; ++i) s += "0123456789abcDEF"[(d + i) % 16];
		text(k, s); text(k, "#" + s); text(k, "##" + s); text(k, s + "#"); text(k, "0x" + s);
	}, "lengths 0 to 63");
	p.add("named", sizeof NAMED / sizeof NAMED[0], [](uint64_t ix, Case& k)
	{
		const NamedColor& n = NAMED[ix];
		int w[4] = { int(n.value >> 16 & 255), int(n.value >> 8 & 255), int(n.value & 255), int(n.value >> 24) };
		if ((unsigned)n.lib != n.value) k.fail(S("named:%s", n.name), "%s is 0x%08x, expected 0x%08x", n.name, (unsigned)n.lib, n.value);
		predefined_color pc((HexcodeColors)n.lib, D0());
		k.eval(); match(k, *pc.get_rgb_true(), w, n.name, "named_true");
		const ref::RDef* rd = &ref::def_named("sRGB").ref;
		float c[4] = { (float)w[0], (float)w[1], (float)w[2], 0 };
		ref::V v = mkv(RGB_TRUE, c, w[3] / 255.0, rd);
		Col* got[] = { pc.get_rgb_true(), pc.get_rgb_deep(), pc.get_grey_true(), pc.get_grey_deep(), pc.get_cmyk(), pc.get_hsv(), pc.get_hsl(), pc.get_xyz(), pc.get_xyy(), pc.get_lab() };
		int ty[] = { RGB_TRUE, RGB_DEEP, GREY_TRUE, GREY_DEEP, CMYK, HSV, HSL, XYZ, XYY, LAB };
		double tol[] = { 1e-4, 1e-5, 0.502, 1e-5, 1e-4, 1e-4, 1e-4, 1e-4, 1e-4, 2e-2 };
		for (int i = 0; i < 10; ++i)
		{
			k.eval();
			ref::V x = ref::convert(v, ty[i]);
			if (got[i]->get_color_type() != ty[i]) { k.fail(S("named_type:%s", TN[ty[i]]), "%s as %s", n.name, desc(got[i]).c_str()); continue; }
			for (int j = 0; j < NC[ty[i]]; ++j)
				if (!close(got[i]->get_component(j), x.c[j], tol[i] * (hue_comp(ty[i], j) ? 1000 : 1)) && !(hue_comp(ty[i], j) && fabs(got[i]->get_component(j) - x.c[j]) > 358.9))
					k.fail(S("named_value:%s:%d", TN[ty[i]], j), "%s as %s, expected %s", n.name, desc(got[i]).c_str(), ref::show(x).c_str());
			if (!close(got[i]->alpha() / alpha_max(ty[i]), w[3] / 255.0, 1e-5)) k.fail(S("named_alpha:%s", TN[ty[i]]), "%s", n.name);
			k.distinct(mc::mix(ix, hcol(got[i])));
		}
		if (k.want_sample()) k.sample("%s = 0x%08x", n.name, n.value);
	}, "all predefined colours in all offered types");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
