// The named colours of the .NET table the library names as its source.
struct NamedColor { const char* name; int lib; unsigned value; };
static const NamedColor NAMED[] = {
	{ "AliceBlue", AliceBlue, 0xFFF0F8FFu },
	{ "AntiqueWhite", AntiqueWhite, 0xFFFAEBD7u },
	{ "Aqua", Aqua, 0xFF00FFFFu },
	{ "Aquamarine", Aquamarine, 0xFF7FFFD4u },
	{ "Azure", Azure, 0xFFF0FFFFu },
	{ "Beige", Beige, 0xFFF5F5DCu },
	{ "Bisque", Bisque, 0xFFFFE4C4u },
	{ "Black", Black, 0xFF000000u },
	{ "BlanchedAlmond", BlanchedAlmond, 0xFFFFEBCDu },
	{ "Blue", Blue, 0xFF0000FFu },
	{ "BlueViolet", BlueViolet, 0xFF8A2BE2u },
	{ "Brown", Brown, 0xFFA52A2Au },
	{ "BurlyWood", BurlyWood, 0xFFDEB887u },
	{ "CadetBlue", CadetBlue, 0xFF5F9EA0u },
	{ "Chartreuse", Chartreuse, 0xFF7FFF00u },
	{ "Chocolate", Chocolate, 0xFFD2691Eu },
	{ "Coral", Coral, 0xFFFF7F50u },
	{ "CornflowerBlue", CornflowerBlue, 0xFF6495EDu },
	{ "Cornsilk", Cornsilk, 0xFFFFF8DCu },
	{ "Crimson", Crimson, 0xFFDC143Cu },
	{ "Cyan", Cyan, 0xFF00FFFFu },
	{ "DarkBlue", DarkBlue, 0xFF00008Bu },
	{ "DarkCyan", DarkCyan, 0xFF008B8Bu },
	{ "DarkGoldenrod", DarkGoldenrod, 0xFFB8860Bu },
	{ "DarkGray", DarkGray, 0xFFA9A9A9u },
	{ "DarkGreen", DarkGreen, 0xFF006400u },
	{ "DarkKhaki", DarkKhaki, 0xFFBDB76Bu },
	{ "DarkMagenta", DarkMagenta, 0xFF8B008Bu },
	{ "DarkOliveGreen", DarkOliveGreen, 0xFF556B2Fu },
	{ "DarkOrange", DarkOrange, 0xFFFF8C00u },
	{ "DarkOrchid", DarkOrchid, 0xFF9932CCu },
	{ "DarkRed", DarkRed, 0xFF8B0000u },
	{ "DarkSalmon", DarkSalmon, 0xFFE9967Au },
	{ "DarkSeaGreen", DarkSeaGreen, 0xFF8FBC8Fu },
	{ "DarkSlateBlue", DarkSlateBlue, 0xFF483D8Bu },
	{ "DarkSlateGray", DarkSlateGray, 0xFF2F4F4Fu },
	{ "DarkTurquoise", DarkTurquoise, 0xFF00CED1u },
	{ "DarkViolet", DarkViolet, 0xFF9400D3u },
	{ "DeepPink", DeepPink, 0xFFFF1493u },
	{ "DeepSkyBlue", DeepSkyBlue, 0xFF00BFFFu },
	{ "DimGray", DimGray, 0xFF696969u },
	{ "DodgerBlue", DodgerBlue, 0xFF1E90FFu },
	{ "Firebrick", Firebrick, 0xFFB22222u },
	{ "FloralWhite", FloralWhite, 0xFFFFFAF0u },
	{ "ForestGreen", ForestGreen, 0xFF228B22u },
	{ "Fuchsia", Fuchsia, 0xFFFF00FFu },
	{ "Gainsboro", Gainsboro, 0xFFDCDCDCu },
	{ "GhostWhite", GhostWhite, 0xFFF8F8FFu },
	{ "Gold", Gold, 0xFFFFD700u },
	{ "Goldenrod", Goldenrod, 0xFFDAA520u },
	{ "Gray", Gray, 0xFF808080u },
	{ "Green", Green, 0xFF008000u },
	{ "GreenYellow", GreenYellow, 0xFFADFF2Fu },
	{ "Honeydew", Honeydew, 0xFFF0FFF0u },
	{ "HotPink", HotPink, 0xFFFF69B4u },
	{ "IndianRed", IndianRed, 0xFFCD5C5Cu },
	{ "Indigo", Indigo, 0xFF4B0082u },
	{ "Ivory", Ivory, 0xFFFFFFF0u },
	{ "Khaki", Khaki, 0xFFF0E68Cu },
	{ "Lavender", Lavender, 0xFFE6E6FAu },
	{ "LavenderBlush", LavenderBlush, 0xFFFFF0F5u },
	{ "LawnGreen", LawnGreen, 0xFF7CFC00u },
	{ "LemonChiffon", LemonChiffon, 0xFFFFFACDu },
	{ "LightBlue", LightBlue, 0xFFADD8E6u },
	{ "LightCoral", LightCoral, 0xFFF08080u },
	{ "LightCyan", LightCyan, 0xFFE0FFFFu },
	{ "LightGoldenrodYellow", LightGoldenrodYellow, 0xFFFAFAD2u },
	{ "LightGreen", LightGreen, 0xFF90EE90u },
	{ "LightGray", LightGray, 0xFFD3D3D3u },
	{ "LightPink", LightPink, 0xFFFFB6C1u },
	{ "LightSalmon", LightSalmon, 0xFFFFA07Au },
	{ "LightSeaGreen", LightSeaGreen, 0xFF20B2AAu },
	{ "LightSkyBlue", LightSkyBlue, 0xFF87CEFAu },
	{ "LightSlateGray", LightSlateGray, 0xFF778899u },
	{ "LightSteelBlue", LightSteelBlue, 0xFFB0C4DEu },
	{ "LightYellow", LightYellow, 0xFFFFFFE0u },
	{ "Lime", Lime, 0xFF00FF00u },
	{ "LimeGreen", LimeGreen, 0xFF32CD32u },
	{ "Linen", Linen, 0xFFFAF0E6u },
	{ "Magenta", Magenta, 0xFFFF00FFu },
	{ "Maroon", Maroon, 0xFF800000u },
	{ "MediumAquamarine", MediumAquamarine, 0xFF66CDAAu },
	{ "MediumBlue", MediumBlue, 0xFF0000CDu },
	{ "MediumOrchid", MediumOrchid, 0xFFBA55D3u },
	{ "MediumPurple", MediumPurple, 0xFF9370DBu },
	{ "MediumSeaGreen", MediumSeaGreen, 0xFF3CB371u },
	{ "MediumSlateBlue", MediumSlateBlue, 0xFF7B68EEu },
	{ "MediumSpringGreen", MediumSpringGreen, 0xFF00FA9Au },
	{ "MediumTurquoise", MediumTurquoise, 0xFF48D1CCu },
	{ "MediumVioletRed", MediumVioletRed, 0xFFC71585u },
	{ "MidnightBlue", MidnightBlue, 0xFF191970u },
	{ "MintCream", MintCream, 0xFFF5FFFAu },
	{ "MistyRose", MistyRose, 0xFFFFE4E1u },
	{ "Moccasin", Moccasin, 0xFFFFE4B5u },
	{ "NavajoWhite", NavajoWhite, 0xFFFFDEADu },
	{ "Navy", Navy, 0xFF000080u },
	{ "OldLace", OldLace, 0xFFFDF5E6u },
	{ "Olive", Olive, 0xFF808000u },
	{ "OliveDrab", OliveDrab, 0xFF6B8E23u },
	{ "Orange", Orange, 0xFFFFA500u },
	{ "OrangeRed", OrangeRed, 0xFFFF4500u },
	{ "Orchid", Orchid, 0xFFDA70D6u },
	{ "PaleGoldenrod", PaleGoldenrod, 0xFFEEE8AAu },
	{ "PaleGreen", PaleGreen, 0xFF98FB98u },
	{ "PaleTurquoise", PaleTurquoise, 0xFFAFEEEEu },
	{ "PaleVioletRed", PaleVioletRed, 0xFFDB7093u },
	{ "PapayaWhip", PapayaWhip, 0xFFFFEFD5u },
	{ "PeachPuff", PeachPuff, 0xFFFFDAB9u },
	{ "Peru", Peru, 0xFFCD853Fu },
	{ "Pink", Pink, 0xFFFFC0CBu },
	{ "Plum", Plum, 0xFFDDA0DDu },
	{ "PowderBlue", PowderBlue, 0xFFB0E0E6u },
	{ "Purple", Purple, 0xFF800080u },
	{ "Red", Red, 0xFFFF0000u },
	{ "RosyBrown", RosyBrown, 0xFFBC8F8Fu },
	{ "RoyalBlue", RoyalBlue, 0xFF4169E1u },
	{ "SaddleBrown", SaddleBrown, 0xFF8B4513u },
	{ "Salmon", Salmon, 0xFFFA8072u },
	{ "SandyBrown", SandyBrown, 0xFFF4A460u },
	{ "SeaGreen", SeaGreen, 0xFF2E8B57u },
	{ "SeaShell", SeaShell, 0xFFFFF5EEu },
	{ "Sienna", Sienna, 0xFFA0522Du },
	{ "Silver", Silver, 0xFFC0C0C0u },
	{ "SkyBlue", SkyBlue, 0xFF87CEEBu },
	{ "SlateBlue", SlateBlue, 0xFF6A5ACDu },
	{ "SlateGray", SlateGray, 0xFF708090u },
	{ "Snow", Snow, 0xFFFFFAFAu },
	{ "SpringGreen", SpringGreen, 0xFF00FF7Fu },
	{ "SteelBlue", SteelBlue, 0xFF4682B4u },
	{ "Tan", Tan, 0xFFD2B48Cu },
	{ "Teal", Teal, 0xFF008080u },
	{ "Thistle", Thistle, 0xFFD8BFD8u },
	{ "Tomato", Tomato, 0xFFFF6347u },
	{ "Transparent", Transparent, 0x00FFFFFFu },
	{ "Turquoise", Turquoise, 0xFF40E0D0u },
	{ "Violet", Violet, 0xFFEE82EEu },
	{ "Wheat", Wheat, 0xFFF5DEB3u },
	{ "White", White, 0xFFFFFFFFu },
	{ "WhiteSmoke", WhiteSmoke, 0xFFF5F5F5u },
	{ "Yellow", Yellow, 0xFFFFFF00u },
	{ "YellowGreen", YellowGreen, 0xFF9ACD32u },
};
