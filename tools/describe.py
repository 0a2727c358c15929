#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP, MA = "ColorMagic/spaces/", "ColorMagic/manipulation/"
ALLSP = [SP + n + ".cpp" for n in "rgb_truecolor rgb_deepcolor grey_truecolor grey_deepcolor cmyk hsi hsv hsl hcy xyz xyy cieluv lab lch_ab lch_uv".split()]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level=level, technique=technique, note=note))

EX = "bounded exhaustive enumeration of inputs on the implementation, against a reference model"
SEQ = "explicit-state exploration of all operation sequences up to a depth, every transition executed on the implementation and compared with a model"

prop("C01", "Components and alpha never leave their ranges, however they are set",
 "Whatever value is given to a constructor, a named setter, an indexed setter or the alpha setter of a colour of any of the 15 types, the value then read is the given one limited to the documented range of that component (0..255 for 8-bit types with alpha 0..255, 0..1 for the other device components and alphas, 0..100 for XYZ, xyY, lightness and chroma, -100..100 for u and v, -128..128 for a and b, 0..359 for hues). Hues of HSI, HSV, HSL and HCY wrap around 360 degrees instead (what lies between 359 and 360 reads 359; beyond 2^24, where floats are more than a degree apart, they only stay in range), hues of the LCh types are limited. No setter changes any other component, the alpha, the type or the definition.",
 ["histories", "inputs"], "every colour type, every sequence of constructor and setter calls, every float that is a number or infinite",
 "The tests set a few valid values per type; they never combine setters, leave the range on both sides, or hit the wrap-around of hues.",
 ALLSP + [SP + "color_base.h"], [("clamping", SP + "color_base.h: clamp, set_component, alpha"), ("hue wrapping", SP + "hsv.cpp and siblings: hue setter")],
 ["component getters, component vector, alpha"], "model_checking", SEQ,
 "All states reachable in a value alphabet per component are visited on the real objects; float values outside the alphabet are not.")

prop("C02", "Copies are complete and independent, equality and indices are exact",
 "Copying, assigning, and constructing from a base-class reference of the same type give a colour with the same type, components, alpha and RGB colour space definition that stays independent of the original afterwards; self-assignment changes nothing. Two colours are equal exactly when their types and all components are equal (alpha and definition are not compared) and unequal otherwise. Component access by index reads and writes exactly that component, and an index outside 0..n-1 or a construction from a colour of another type raises an error and changes nothing.",
 ["histories", "inputs"], "every colour type, every sequence of copies, assignments, constructions and writes over three colours",
 "The tests copy one colour of each type and compare components; alpha, definition, independence and repeated assignment are never checked.",
 ALLSP + [SP + "color_base.h"], [("copy constructors and operator=", SP + "*.cpp"), ("operator==", SP + "color_base.h")],
 ["getters and comparisons after each operation"], "model_checking", SEQ,
 "All sequences of 3 operations (thorough 4 and 5) over three objects of each type.")

prop("C03", "Adding components and scaling by alpha limits and preserves what it should",
 "The sum of two colours of one type has the type, the alpha and the definition of the left operand and in each component the sum limited to the range of that component; adding colours of different types raises an error. Multiplying a colour by its alpha multiplies every component by the alpha, dividing by alpha divides every component by it and leaves the colour as it is for alpha 0, and neither changes alpha, definition or operands.",
 ["inputs"], "all pairs of colours of every type, all alphas",
 "The tests add one pair of a few types; saturation at either end, mixed types and alpha 0 are not reached.",
 [SP + "color_base.h"], [("operator+, alpha_multiply, alpha_divide", SP + "color_base.h")], ["the resulting colour and both operands"], "exploration", EX,
 "Grids over the component ranges, ends included; per-component ranges that differ within a type are known findings.")

prop("C04", "Hex codes and predefined colours give exactly the colour they spell",
 "A string of the form RRGGBB, AARRGGBB, #RRGGBB or #AARRGGBB, in either letter case, gives the 8-bit colour with exactly those channels (alpha 255 where none is given), and every other string is refused with an error. An integer 0xAARRGGBB gives the colour of its four bytes, and each predefined colour constant is the published value of the .NET colour of its name.",
 ["inputs"], "all strings, all 32-bit integers, all predefined names",
 "The tests try five strings and a few constants; channels are mixed up or misread only for particular digits, lengths and positions.",
 [SP + "rgb_truecolor.cpp", "ColorMagic/utils/colors.h"], [("hex parser", SP + "rgb_truecolor.cpp: constructors from string and int"), ("table", "ColorMagic/utils/colors.h")], ["channels and alpha of the colour, errors"], "exploration", EX,
 "Integers exhaustively over all 24-bit values; strings exhaustively up to a length over an alphabet plus all single-character edits; the table completely.")

prop("C05", "Gamma curves encode and decode with the part that covers the value",
 "Each predefined gamma curve computes its published transfer function in both directions; encoding and decoding invert each other, are non-decreasing and map 0 to 0 and 1 to 1. A curve assembled from parts applies the part with the smallest border that is not below the value, independently for the two directions and whatever the order in which parts were added or replaced, the curve copied, or the border or function of a part changed afterwards; a value no part covers stays as it is. Curves that compare equal, copies among them, correct alike. Gamma correction of an RGB, grey or CMYK colour applies the curve of its definition to each component, limits it to the range and changes nothing else.",
 ["inputs", "histories"], "all values in [0,1] for eight curves; all sequences of edits of user curves",
 "The tests evaluate two values per curve and never exceed one edit; the order of parts and the neighbourhood of borders are not reached.",
 [SP + "gamma.h"], [("part selection and sorting", SP + "gamma.h: gamma"), ("curves", SP + "gamma.h: gamma_presets")], ["results of both corrections"], "model_checking", SEQ,
 "Curves on a dense lattice plus every float around each border; all edit sequences of length 4 (thorough 5), with edits of parts already added; neighbouring borders in every order.")

prop("C06", "White points carry the published values and convert consistently",
 "Every predefined white point carries the published tristimulus values (Y = 1) and chromaticities of its illuminant and observer. A white point built from either kind of coordinates has the other kind computed by x = X/(X+Y+Z), y = Y/(X+Y+Z) and X = xY/y, Z = (1-x-y)Y/y, the conversions between them are inverse to each other, and x + y + z = 1. Copies are equal, and two white points are equal exactly when all coordinates are.",
 ["inputs", "configurations"], "40 predefined white points, all chromaticities and tristimulus values with y and the sum not 0",
 "The tests look at one white point; a wrong digit in any of 200 table entries or a swap of coordinates passes.",
 [SP + "white_point.h"], [("presets", SP + "white_point.h: white_point_presets"), ("conversions", SP + "white_point.h")], ["white point getters"], "exploration", EX,
 "Complete table; grids for user white points.")

prop("C07", "RGB definitions keep matrix, inverse, primaries and white consistent",
 "The matrix of a definition maps linear (1,1,1) to the white point and each unit vector to a colour of the chromaticity of that primary, its inverse matrix is its inverse, and this stays so after a white point or a gamma curve is set, after copies, and independently for every definition. Every predefined definition carries the published primaries, white point and curve of its name. Changing one definition never affects another or its copies, and colours that carry a definition use it as it is at the time of the conversion.",
 ["histories", "configurations"], "all predefined definitions, user primaries, and all sequences of changes, copies and conversions over two definitions",
 "The tests check the matrix of sRGB once; they never set a white point and then convert.",
 [SP + "rgb_color_space_definition.h"], [("matrix calculation", SP + "rgb_color_space_definition.h: calculate_transformation_matrix, set_white_point"), ("presets", SP + "rgb_color_space_definition.h")], ["definition getters, conversions of colours"], "model_checking", SEQ,
 "All operation sequences of the stated depth over two definitions, complete preset table, grids of user primaries.")

prop("C08", "Matrix operations satisfy matrix algebra for every shape",
 "Sum, difference, product (with a matrix, a vector and a scalar), transpose, determinant, adjoint and inverse of matrices of any fitting shape are the mathematical ones, compound assignments agree with their binary operators, and binary operators leave their operands unchanged. Filling, resizing, copying and element access address elements by row and column, equality compares shape and elements, and an element outside the matrix raises an error. A row or column outside the matrix is never null or equal to another one, and a singular matrix has no inverse and is returned as it is.",
 ["inputs", "histories"], "all shapes up to 4x4, all small integer entries, all sequences of operations on two matrices",
 "The tests invert one and multiply a few square matrices; non-square shapes, singular cofactors and sequences of edits are not reached.",
 ["ColorMagic/utils/matrix.h"], [("operations", "ColorMagic/utils/matrix.h")], ["elements, shape, errors"], "model_checking", SEQ,
 "Every 1x1 to 3x3 matrix over small integers, 4x4 over {0,1}; all operation sequences up to the depth.")

prop("C09", "Every conversion yields a valid colour and keeps alpha and definition",
 "Converting any colour of any of the 15 types to any of the 15 types, by the generic or the named conversion, gives a colour of exactly the requested type with every component a number inside its range, the same alpha (scaled between 0..255 and 0..1, rounded for 8-bit types), and the same RGB colour space definition. The generic and the named conversion agree, the source is unchanged, and converting to the type a colour already has returns it unchanged.",
 ["inputs", "configurations", "histories"], "15x15 pairs of types, all colours including black, white, greys and range ends, all alphas, all definitions",
 "The tests convert one opaque colour per pair under one definition; alpha, definition, black and other degenerate colours are never looked at.",
 [MA + "color_converter.cpp"], [("conversion graph", MA + "color_converter.cpp: convertTo and the conversions")], ["type, components, alpha, definition of the result"], "model_checking",
 "explicit-state exploration of the conversion graph on the implementation", "Every edge of the conversion graph from every colour of a grid with the neighbourhood of each case distinction.")

prop("C10", "Conversions among device models compute the defining formulas",
 "Conversions among 8-bit and deep RGB, 8-bit and deep grey (the mean of the RGB components), CMYK, HSI, HSV, HSL and HCY represent the same RGB colour by the defining formula of each model, for every hue sector, achromatic and black or white colours included. 8-bit results, the alpha included, are the nearest integers, and an 8-bit RGB colour converted to any of the other non-grey models and back is the same colour.",
 ["inputs"], "every ordered pair of the nine device models and every colour",
 "The tests convert one colour per pair; most hue sectors, borders and degenerate colours are never computed.",
 [MA + "color_converter.cpp"], [("device conversions", MA + "color_converter.cpp: rgb_deep_to_*, *_to_rgb_deep")], ["components of the result"], "exploration", EX,
 "Fine grids and whole 8-bit cubes (all 2^24 colours in the thorough tier).")

prop("C11", "Conversions to and from the CIE spaces compute the defining formulas",
 "Conversions between device colours and XYZ use the gamma curve, matrix and white point of the colour's own definition, and conversions among XYZ, xyY, Lab, Luv, LCh(ab) and LCh(uv) compute the CIE formulas relative to that white point, on both sides of every threshold of the formulas. Hues of LCh are degrees of the angle in all four quadrants, chroma is the length of the vector, black stays black, and the white of the definition is the neutral white of each space.",
 ["inputs", "configurations"], "all ordered pairs of types with a CIE space, all definitions and white points, all colours with a meaning",
 "The tests convert one colour under sRGB; dark colours below the thresholds, other quadrants and other definitions are not reached.",
 [MA + "color_converter.cpp", SP + "rgb_color_space_definition.h"], [("CIE conversions", MA + "color_converter.cpp: xyz_to_*, *_to_xyz, rgb_deep_to_xyz")], ["components of the result"], "exploration", EX,
 "Grids under 20 predefined and 40 assembled definitions; the comparison is a hull around the double-precision reference that allows for any order of float rounding.")

prop("C12", "Chains of conversions lose nothing the visited types can express",
 "A colour taken through any chain of conversions over types that can represent it comes out as the same colour, with the same alpha and definition. In particular an 8-bit RGB colour returns to exactly its 8-bit values from any such chain, and it does not matter over which path a type is reached.",
 ["histories", "configurations"], "all chains up to a depth over the twelve types that can express chromatic colours, all definitions",
 "The tests convert once; errors that cancel or accumulate over several steps need chains.",
 [MA + "color_converter.cpp"], [("composition of conversions", MA + "color_converter.cpp")], ["the colour after each step"], "model_checking", SEQ,
 "All chains of the stated depth from each start colour of a grid under every predefined definition.")

prop("C13", "Porter-Duff compositing follows its algebra for every pair of colours",
 "For source and destination colours of any types sharing one definition, each of the twelve Porter-Duff operators gives the alpha and the alpha-weighted RGB mean that its choice of source-only, destination-only and overlap regions defines, and black where the result is fully transparent. The result has the type and definition of the source and the operands are unchanged.",
 ["inputs"], "twelve operators, all pairs of types, colours and alphas",
 "The tests composite one pair per operator; alphas of 0 and 1, mixed types and 8-bit alpha are not reached.",
 [MA + "porter_duff.cpp", MA + "base_color_blend.h"], [("regions", MA + "base_color_blend.h: blend"), ("operators", MA + "porter_duff.cpp")], ["result components, alpha, type"], "exploration", EX,
 "Grids of component and alpha pairs in deep RGB and all 225 pairs of types.")

prop("C14", "Each blend mode applies its function to every component and composites it",
 "Each of the 22 component-wise blend modes (normal, multiply, screen, overlay, darken, lighten, dodges, burns, lights, hard mix, difference, subtract, divide, plus lighter, plus darker, exclusion) composites the function of its name, applied to each deep RGB component of source and destination in the overlap, with the source-only and destination-only regions as chosen by the two region flags (both on when left out). Every component stays in range, the result has the type and definition of the source and the operands are unchanged.",
 ["inputs", "configurations"], "22 modes, all component pairs, alphas, region choices and pairs of types",
 "The tests blend one pair of colours per mode; each mode branches on component values that one pair cannot cover.",
 [MA + "color_blend.h", MA + "color_blend.cpp", MA + "base_color_blend.h"], [("mode functions", MA + "color_blend.h"), ("compositing", MA + "base_color_blend.h: blend")], ["result components, alpha, type"], "exploration", EX,
 "Fine grid of component pairs for every mode and region choice, all pairs of types on a small grid.")

prop("C15", "Hue, saturation, color, luminosity and dissolve combine the two colours",
 "Hue, saturation, color and luminosity blending give the HCY colour that takes exactly the named attributes (hue; chroma; hue and chroma; luma) from the source and the others from the destination, with the alpha of the source. Dissolve composites, under the two region flags, a colour that takes each component from either colour by a random draw of its own, which favours the colour with the higher relative alpha in about three of four draws but not always. Results have the type and definition of the source and the operands are unchanged.",
 ["inputs", "schedules"], "all pairs of types and colours, every outcome of the random draws",
 "The tests run one pair per mode and cannot steer the random draws at all.",
 [MA + "color_blend.cpp"], [("HCY modes", MA + "color_blend.cpp: hue, saturation, color, luminosity"), ("dissolve", MA + "color_blend.cpp: dissolve")], ["result components, alpha, type"], "exploration",
 "exhaustive enumeration of inputs and of every outcome of the random source (controlled rand), against a reference model", "The random source is replaced by one that plays every value; grids for the colours.")

prop("C16", "Custom blending honours its function and regions; bad operands are refused",
 "Blending with a user function composites that function, called with (source, destination) components of deep RGB, under the two region flags, limited to the range, into the type and definition of the source. Every compositing and blending operation raises an error when either colour is missing or the two colours carry different RGB colour space definitions, and accepts all others; operands never change.",
 ["inputs", "configurations", "programs"], "user functions, regions, all operations, all pairs of types, every kind of refused operand",
 "The tests use one function and check one refusal.",
 [MA + "color_blend.cpp", MA + "porter_duff.cpp", MA + "base_color_blend.h"], [("custom_componentwise_blend", MA + "color_blend.cpp"), ("operand checks", MA + "*.cpp")], ["result, calls made to the function, errors"], "exploration", EX,
 "Twelve user functions over grids; every operation with every kind of refused operand for all pairs of types.")

prop("C17", "Adding and mixing weight colours as documented for every type",
 "Adding colours of one type gives the weighted sum w1*a + w2*b computed in the space the type is calculated in (root of the weighted sum of squares for 8-bit and deep RGB; hue and saturation as a vector for HSI, HSV, HSL and HCY, which are calculated in HSV; Lab and LCh(ab/uv) in XYZ; componentwise otherwise), limited to the ranges; mixing is adding with weights w and 1-w. Alpha is combined in the same way when requested and otherwise is the alpha of the first colour. The result has the type and definition of the first colour, and operands are unchanged.",
 ["inputs"], "all 15 types, pairs of colours, weights in [0,1], alphas, with and without alpha",
 "The tests add and mix one pair per type with one or two weights, mostly opaque.",
 [MA + "color_calculation.cpp"], [("typed add and mix", MA + "color_calculation.cpp")], ["result components, alpha, type"], "exploration", EX, "Grids over component ranges, weights and alphas for each type.")

prop("C18", "Subtracting weights colours as documented for every type",
 "Subtracting b from a with weight w gives a - w*b in the space the type is calculated in (hue and saturation as a vector for HSI, HSV, HSL and HCY, which are calculated in HSV; Lab and LCh(ab/uv) in XYZ; componentwise otherwise), limited to the ranges. Alpha is subtracted in the same way when requested and otherwise is the alpha of the first colour; the result has the type and definition of the first colour, and operands are unchanged.",
 ["inputs"], "all 15 types, pairs of colours, weights in [0,1], alphas, with and without alpha",
 "The tests subtract one pair per type.", [MA + "color_calculation.cpp"], [("typed subtract", MA + "color_calculation.cpp")], ["result components, alpha, type"], "exploration", EX, "Grids over component ranges, weights and alphas for each type.")

prop("C19", "The average of any list of colours is its componentwise mean",
 "The average of a non-empty list of colours of one type is, component by component (hues included), the mean of the list in the colour type itself, so it does not depend on the order of the list and equals the colour for copies of one colour. Alpha is the mean of the alphas when requested and the alpha of the first colour otherwise. The definition is that of the first colour, and the colours in the list are unchanged.",
 ["inputs", "histories"], "all 15 types, lists of every length with repetitions",
 "The tests average one list of two or three colours per type without alpha.", [MA + "color_calculation.cpp"], [("average_*", MA + "color_calculation.cpp")], ["result components, alpha, type"], "exploration", EX,
 "All lists of length 1 to 5 over a set of colours, all pairs of a grid, lengths to 200.")

prop("C20", "Arithmetic through the base class equals the arithmetic of the type",
 "Adding, mixing or subtracting two colours through references to the base class gives the colour that converting the second colour to the type of the first and using the operation of that type gives, for every pair of types, weights and alpha choices, defaults included. The result has the type, definition and alpha of that computation, and both operands are unchanged.",
 ["inputs", "programs"], "all 225 ordered pairs of types, three operations, weights, alphas",
 "The tests call the base-class versions for a few types only.", [MA + "color_calculation.cpp"], [("dispatch on the type", MA + "color_calculation.cpp: add/mix/subtract(color_base*, color_base*)")], ["result compared with the operation of the type"], "exploration",
 "bounded exhaustive enumeration of programs (pairs of types and operations) on the implementation, differential", "Every pair of types and operation over grids.")

prop("C21", "Euclidean distances are metric-like and computed in the requested space",
 "The Euclidean distance of two colours of any types is the length of the difference of their deep RGB components, or of their CIE Luv components when that space is requested (any other request means deep RGB); the squared variant is its square and the weighted variant the red-mean approximation. All are symmetric, 0 for equal colours, never negative and leave their operands unchanged; alpha plays no part.",
 ["inputs"], "all pairs of types and colours, every requested space", "The tests measure one pair of colours in one space.", [MA + "color_distance.cpp"],
 [("distances", MA + "color_distance.cpp")], ["returned distance"], "exploration", EX, "Grids for all 225 pairs of types and every requested space.")

prop("C22", "Colour differences follow CIE76, CIE94, CMC l:c and CIEDE2000",
 "For colours of any types, the CIE76, CIE94 and CMC(l:c) differences are those of the published formulas of their Lab values and parameters (defaults included), never NaN, never negative and 0 for equal colours. The CIEDE2000 difference likewise is that of the formula, except for the deviations listed as known findings.",
 ["inputs", "configurations"], "all pairs of colours in Lab, parameters, pairs of types", "The tests compute two pairs per formula with the default parameters; the conditions on hue and chroma have many branches.",
 [MA + "color_distance.cpp"], [("delta E formulas", MA + "color_distance.cpp")], ["returned difference"], "exploration", EX,
 "Grids over Lab with every hue threshold; CIEDE2000 is decided modulo the listed deviations, its rotation term only bounded where the deviation is chaotic.")

prop("C23", "Saturating and luminating change exactly the attribute they name",
 "Saturating in RGB moves each component away from the luma 0.299R+0.587G+0.114B by the given share, luminating in RGB scales the three components by 1+p, and the HSL variants scale saturation or lightness by 1+p; results are limited to the ranges, 0 changes nothing, and amounts beyond -1 and 1 follow the same formula. The function form returns a new colour of the same type, alpha and definition and leaves its argument unchanged, and the in-place form gives the same colour in the argument itself.",
 ["inputs"], "all 15 types, all colours, amounts in [-1,1], both forms", "The tests adjust one colour per type by one amount.", [MA + "color_adjustments.cpp"],
 [("adjustments", MA + "color_adjustments.cpp")], ["result, argument"], "exploration", EX, "Grids for all types and 13 amounts.")

prop("C24", "Colour combinations are evenly spaced variations of the base colour",
 "A combination of n colours (2 to 360; complement, triplet, quartet and quintet being 2, 3, 4 and 5) is the base colour first and then, in order, the base with its HSL hue turned by i*360/n. Analogous colours are the base in the middle with its neighbours turned by minus and plus the distance, a complementary split has the base in the middle of the neighbours of its complement, and each colour of a monochromatic set lowers HSL saturation, lightness or both of the one before by the given share. Every colour has the type, alpha and definition of the base, which is unchanged.",
 ["inputs", "configurations"], "all types and base colours, all numbers of colours, distances, amounts, modes and lengths", "The tests build each combination once for a single base colour.",
 [MA + "color_combinations.cpp"], [("combinations", MA + "color_combinations.cpp")], ["the list of colours"], "exploration", EX, "Every n from 2 to 360 for each type; grids elsewhere.")

prop("C25", "Chromatic adaptation maps the source white to the target white by each method",
 "Adapting a colour of any type from the white point of its definition to a target white point computes the published transform of the method (von Kries, Bradford full and simplified, XYZ scaling, Sharp, CMCCAT97 full and simplified, CMCCAT2000 full and simplified, CAT02 full and simplified) on its XYZ values, with a degree of adaptation limited to 0..1. With full adaptation the source white maps to the target white, and adapting to the same white changes nothing. The result has the type and alpha of the colour and a definition with the primaries and gamma curve of the colour's and the target white point; the argument and its definition are unchanged.",
 ["inputs", "configurations"], "eleven methods, all pairs of white points, all types and colours, parameters", "The tests adapt one colour between two white points.",
 [MA + "chromatic_adaptation.cpp"], [("adaptation", MA + "chromatic_adaptation.cpp: do_adaption and the methods")], ["XYZ of the result, type, alpha, definition"], "exploration", EX,
 "All pairs of 24 source definitions and 44 target whites on a grid of colours; the library's five-digit inverse matrices bound the tolerance.")

prop("C26", "No operation depends on earlier ones or changes what it is given",
 "The outcome of every operation (conversion, compositing, blending, arithmetic, average, distance, adjustment, combination, adaptation, construction, hex parsing, definition, curve and matrix operation, or refusal with an error) depends only on the values of its arguments at the time of the call: it is bit by bit what it is as the first operation of a fresh process, whatever operations were executed before, also refused ones, also when objects were changed, or their storage reused, in between. No operation changes colours, definitions, white points or curves it is given (in-place adjustments apart) or results returned earlier, and what the caller does to a result has no effect on later operations.",
 ["histories"], "all sequences of operations", "Each test runs one operation on fresh objects; stale caches, shared statics and aliased results need sequences.",
 [MA + "color_converter.cpp", MA + "color_calculation.cpp", MA + "color_blend.cpp", MA + "base_color_blend.h", MA + "color_combinations.cpp", MA + "chromatic_adaptation.cpp", SP + "color_base.h"],
 [("purely functional static operations", MA + "*.cpp")], ["bitwise outcome of each operation, all shared objects"], "model_checking",
 "stateless exploration of all operation sequences up to a depth, each in its own process, against fresh-process outcomes",
 "All pairs of a catalogue of 5,755 operations (quick: with a core of 734), all triples of a subset, quadruples in the thorough tier; random draws are pinned.")

prop("C27", "Invalid arguments are refused, valid ones are not, and a refusal changes nothing",
 "An error is raised exactly for: weights of adding, mixing and subtracting outside [0,1], averages of empty lists, combinations of fewer than 2 or more than 360 colours, analogous and split distances of 0 or above 120 degrees, monochromatic amounts outside [0,1], modes other than 0 to 2 (left open for sets of one colour) and counts below 1, component and matrix indices out of range, sums of and construction from different types, missing blend operands or different definitions, and malformed hex codes. The borders themselves are valid, the same rules hold for every colour type and for base-class and typed calls, and after an error every argument is unchanged.",
 ["inputs", "fault_sequences"], "every operation that validates arguments, every type, arguments on, next to and far from every border", "The tests provoke a handful of errors; most of the 200 checks and all exact borders are never exercised.",
 [MA + "color_calculation.cpp", MA + "color_combinations.cpp", MA + "color_blend.cpp", MA + "porter_duff.cpp", SP + "color_base.h", "ColorMagic/utils/matrix.h", SP + "rgb_truecolor.cpp"], [("argument checks", "throw sites")], ["whether an error is raised, arguments afterwards"], "exploration", EX,
 "Every validating operation for every type with adjacent floats on both sides of every border.")

prop("C28", "Operations in several threads give what they give alone",
 "Two operations (conversions, compositing, blending, arithmetic, averages, distances, adjustments, combinations, adaptations, constructions, refusals) that run in two threads at the same time, also on the same colours, definitions, white points and curves as long as neither is one that changes them by its purpose, each give the result they give alone, whatever the interleaving. No operation changes an operand, a definition or any other shared object even for a while (random draws of dissolve apart).",
 ["schedules"], "all pairs of operations, all interleavings of their accesses to shared memory", "The tests run in one thread; an operand that is changed and put back, or a static buffer, needs another thread at the right point.",
 [MA + "color_converter.cpp", MA + "color_calculation.cpp", MA + "color_blend.cpp", MA + "base_color_blend.h", MA + "color_distance.cpp", MA + "color_adjustments.cpp", MA + "color_combinations.cpp", MA + "chromatic_adaptation.cpp", SP + "color_base.h"],
 [("static operations without state of their own", MA + "*.cpp")], ["result of both operations under every schedule"], "model_checking",
 "stateless exploration of interleavings of the implementation under a controlled scheduler, with partial-order reduction by recorded access sets and a bound on the changes of thread",
 "All pairs of 4,055 operations: those that access disjoint or only read common memory commute and count as one class, the others are executed under every schedule with up to two changes (thorough three) of the thread.")

prop("C29", "Memory is used safely and results outlive what they were made from",
 "No operation reads or writes outside a living object, uses memory that nobody has written, or computes something undefined (a float beyond the target integer, an index out of range), for any operands whose components lie in their ranges, any values given to constructors and setters, any list size, any matrix shapes, vectors and indices, and any hex string. A result, unless it is the operand itself (a conversion to the own type, an adjustment by nothing, an adaptation to the own white point, the base colour of a combination), belongs to the caller, is another object in every call, and reads and works the same after the operands, the other results, the lists, functions and strings of the call, and the object the presets came from are destroyed, in whatever order; operands are never destroyed or kept by an operation. Definitions, white points, curves and parts belong to the caller and copies of them outlive the originals. No result depends on what fresh memory or the stack held before.",
 ["inputs", "histories"], "all operations, all types, components at the ends of their ranges, all orders of destruction of operands and results, all matrix shapes to 5x5", "A stale pointer, a read past the end or an unset variable usually gives the right answer in a test; it takes a checked build and the right order of destruction to see it.",
 [MA + "color_converter.cpp", MA + "color_calculation.cpp", MA + "color_blend.cpp", MA + "base_color_blend.h", MA + "porter_duff.cpp", MA + "color_distance.cpp", MA + "color_adjustments.cpp", MA + "color_combinations.cpp", MA + "chromatic_adaptation.cpp", SP + "color_base.h", SP + "gamma.h", SP + "white_point.h", SP + "rgb_color_space_definition.h", SP + "rgb_truecolor.cpp", "ColorMagic/utils/matrix.h"],
 [("what operations return", MA + "*.cpp"), ("storage of colours, matrices and curves", SP + "*.h")], ["every access to memory and every arithmetic operation; results after each destruction"], "model_checking",
 "exhaustive exploration of operations, operands and orders of destruction on the real code built with address and undefined behaviour monitors, every case in a process of its own; outcomes compared over several contents of fresh memory",
 "All operations of all types twice on two colours of their own with the 24 orders in which operands and results can be destroyed, all pairs of colours at the ends of the ranges, 15 extreme values (NaN included) in every component, all pairs of matrix shapes to 5x5 with vectors, lists and indices around them, and the holders (presets, definitions, curves, parts, lists, functions, strings) destroyed as soon as allowed.")

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
ids = [p["id"] for p in P]
for p in P:
    assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "./check %s --build-only" % " ".join(ids),
     "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [], "notes": "The library is rebuilt from /repo's working tree by every check; no hooks are needed in /repo."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
