// Helpers of the distance explorers.
#pragma once
#include "cmp.h"
#include "grids.h"
#include "manipulation/color_distance.h"
typedef color_manipulation::color_distance CD;
// enough colours of a type, from a grid
struct Pick { int t; Grid g; float al; };
inline Col* pick(int t, const Grid& g, uint64_t i, uint64_t h, int& di)
{
	static const float A[] = { 1.f, 0.f, 0.5f };
	float c[4]; g.get(i, c); di = h % ref::defs().size();
	return make(t, c, A[h / 32 % 3] * alpha_max(t), ref::defs()[di].lib);
}
