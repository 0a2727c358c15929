// C05: gamma curves: the predefined ones follow their definition, user-assembled ones select the right part.
#include "util.h"
static float nextup(float x, int k) { uint32_t u; memcpy(&u, &x, 4); u += k; memcpy(&x, &u, 4); return x; }
static const double BREAKS[8][2] = { { 0, 0 }, { 0, 0 }, { 0, 0 }, { 0, 0 }, { 0.0031308, 0.04045 }, { 0, 0 }, { 0.001953, 16 * 0.001953 }, { 0.018053968510807, 0.08124285829863 } };

static cs::gamma* G(int g) { static cs::gamma* c[8]; if (!c[g]) c[g] = ref::lib_curve(g); return c[g]; }
static void point(Case& k, int g, float x)
{
	k.eval(2);
	float e = G(g)->gamma_correction(x), d = G(g)->inverse_gamma_correction(x);
	double we = ref::encode(g, x), wd = ref::decode(g, x);
	if (!closer(e, we, 4e-6, 3e-6)) k.fail(S("encode:%s", ref::CURVE_NAMES[g]), "%s of %.9g is %.9g, expected %.9g", ref::CURVE_NAMES[g], x, e, we);
	if (!closer(d, wd, 1e-5, 1e-7)) k.fail(S("decode:%s", ref::CURVE_NAMES[g]), "inverse %s of %.9g is %.9g, expected %.9g", ref::CURVE_NAMES[g], x, d, wd);
	k.eval(2);
	float b1 = G(g)->inverse_gamma_correction(std::min(1.f, std::max(0.f, e))), b2 = G(g)->gamma_correction(std::min(1.f, std::max(0.f, d)));
	if (!close(b1, x, 5e-6)) k.fail(S("round_trip:%s", ref::CURVE_NAMES[g]), "%s: %.9g -> %.9g -> %.9g", ref::CURVE_NAMES[g], x, e, b1);
	if (!close(b2, x, 5e-6)) k.fail(S("round_trip_back:%s", ref::CURVE_NAMES[g]), "%s: %.9g -> %.9g -> %.9g", ref::CURVE_NAMES[g], x, d, b2);
	if (!(e >= -1e-6 && e <= 1.000001f && d >= -1e-6 && d <= 1.000001f)) k.fail(S("range:%s", ref::CURVE_NAMES[g]), "%s of %.9g is %.9g / %.9g", ref::CURVE_NAMES[g], x, e, d);
	if (x > 0 && x < 1) k.distinct(mc::mix(mc::mix(g, mc::fbits(x)), mc::fbits(e)));
}
// ---- user-assembled curves: a model of the documented selection rule
static float f_sq(float x) { return x * x; }
static float f_half(float x) { return x / 2; }
static float f_inv(float x) { return 1 - x; }
static float f_one(float x) { return 0.125f; }
struct PT { int f; float border; };
static const PT PARTS[] = { { 0, 1.f }, { 1, 0.25f }, { 2, 0.5f }, { 3, 0.75f }, { -1, 0.6f }, { 3, 0.1f } };
static const int NP = 6;
static float eval_f(int f, float x) { return f == 0 ? f_sq(x) : f == 1 ? f_half(x) : f == 2 ? f_inv(x) : f_one(x); }
static cs::gamma_part* part(int i)
{
	switch (PARTS[i].f)
	{
	case 0: return new cs::gamma_part(f_sq, PARTS[i].border);
	case 1: return new cs::gamma_part(f_half, PARTS[i].border);
	case 2: return new cs::gamma_part(f_inv, PARTS[i].border);
	case 3: return new cs::gamma_part(f_one, PARTS[i].border);
	default: return new cs::gamma_part(nullptr, PARTS[i].border);
	}
}
struct Mo { std::vector<int> p[2]; };
static bool expect(const std::vector<int>& ps, float x, float got)
{
	float best = 2; bool any = false;
	for (int i : ps) if (PARTS[i].f >= 0 && x <= PARTS[i].border && PARTS[i].border < best) { best = PARTS[i].border; any = true; }
	if (!any) return close(got, x, 1e-6);
	for (int i : ps) if (PARTS[i].f >= 0 && PARTS[i].border == best && close(got, eval_f(PARTS[i].f, x), 1e-6)) return true;
	return false;
}
struct GOp { int kind, side, x; }; // 0 add part, 1 set list, 2 copy to other slot, 3 assign to other slot, 4 swap slots
static std::vector<GOp> gops()
{
	std::vector<GOp> o;
	for (int s = 0; s < 2; ++s) { for (int i = 0; i < NP; ++i) o.push_back({ 0, s, i }); for (int i = 0; i < 4; ++i) o.push_back({ 1, s, i }); }
	o.push_back({ 2, 0, 0 }); o.push_back({ 3, 0, 0 }); o.push_back({ 4, 0, 0 });
	return o;
}
static const std::vector<int> LISTS[4] = { {}, { 0, 1 }, { 3, 2, 5 }, { 4, 0, 2, 1 } };
static std::string gname(const GOp& o)
{
	static const char* K[] = { "add", "set_list", "copy", "assign", "swap" };
	return S("%s(%s,%d)", K[o.kind], o.side ? "inverse" : "forward", o.x);
}
static void build(Plan& p)
{
	p.property = "C05"; p.level = "model_checking";
	p.rule = S("predefined curves: every multiple of 1/%d in [0,1] and every float within 40 steps of each border; user curves: every sequence of %d operations (adding one of six parts or replacing the list with one of four, on the forward or inverse side, copying, assigning, swapping two curves) and of changes to and removals of parts, evaluated afterwards at 13 inputs on both sides of both curves", p.thorough ? 4194304 : 262144, p.thorough ? 5 : 4);
	p.assumptions = { "inputs of the predefined curves are in [0,1]", "when two parts have the same border either may be used", "parts are not null" };
	uint64_t N = p.thorough ? 4194304 : 262144;
	p.add("beyond", 8 * 12, [](uint64_t ix, Case& k)
	{
		static const float X[] = { 1.0000001192f, 1.000001f, 1.0001f, 1.001f, 1.002f, 1.005f, 1.01f, 1.05f, 1.5f, 2.f, 100.f, 1e6f };
		int g = ix % 8; float x = X[ix / 8]; k.eval(2);
		float e = G(g)->gamma_correction(x), d = G(g)->inverse_gamma_correction(x);
		if (e != x || d != x) k.fail(S("beyond:%s", ref::CURVE_NAMES[g]), "%s of %.9g, which no part covers, is %.9g, its inverse %.9g", ref::CURVE_NAMES[g], x, e, d);
		k.distinct(mc::mix(ix, 77));
	}, "values above 1 under the predefined curves");
	for (int g = 0; g < 8; ++g)
	{
		p.add(S("preset:%s", ref::CURVE_NAMES[g]), N / 256 + 1, [=](uint64_t ix, Case& k)
		{
			float pe = -1, pd = -1;
			for (uint64_t j = 0; j <= 256; ++j)
			{
				uint64_t i = ix * 256 + j; if (i > N) break;
				float x = (float)((double)i / N);
				point(k, g, x);
				float e = G(g)->gamma_correction(x), d = G(g)->inverse_gamma_correction(x);
				if (e < pe - 2e-6 || d < pd - 2e-6) k.fail(S("monotone:%s", ref::CURVE_NAMES[g]), "%s is not monotone at %.9g", ref::CURVE_NAMES[g], x);
				pe = e; pd = d;
				k.transition(2);
			}
			k.state(mc::mix(ix, g)); k.trace();
			if (k.want_sample()) k.sample("%s at %.9g is %.9g", ref::CURVE_NAMES[g], ix * 256.0 / N, pe);
		}, "grid on [0,1]");
		p.add(S("borders:%s", ref::CURVE_NAMES[g]), 4, [=](uint64_t ix, Case& k)
		{
			float b = ix == 0 ? BREAKS[g][0] : ix == 1 ? BREAKS[g][1] : ix == 2 ? 0.f : 1.f;
			for (int s = -40; s <= 40; ++s)
			{
				if (b == 0 && s < 0) continue;
				float x = b == 0 ? (s == 0 ? 0.f : (float)pow(10, -s)) : nextup(b, s);
				if (x > 1 || x < 0) continue;
				point(k, g, x); k.transition(2);
			}
			k.state(mc::mix(ix + 1000000, g)); k.trace();
			if (ix == 2 && (G(g)->gamma_correction(0) != 0 || G(g)->inverse_gamma_correction(0) != 0)) k.fail(S("zero:%s", ref::CURVE_NAMES[g]), "0 is not kept");
			if (ix == 3 && (!close(G(g)->gamma_correction(1), 1, 1e-6) || !close(G(g)->inverse_gamma_correction(1), 1, 1e-6))) k.fail(S("one:%s", ref::CURVE_NAMES[g]), "1 is not kept");
		}, "around the borders between parts");
	}
	int depth = p.thorough ? 5 : 4;
	static auto ops = gops();
	p.add("assembled", ipow(ops.size(), depth), [=](uint64_t ix, Case& k)
	{
		Radix r(ix);
		cs::gamma* c[2] = { new cs::gamma(), new cs::gamma() };
		Mo m[2];
		std::string h;
		for (int q = 0; q < depth; ++q)
		{
			GOp o = ops[r.next(ops.size())];
			h += gname(o) + " ";
			k.transition();
			switch (o.kind)
			{
			case 0: if (o.side) c[0]->add_inverse_gamma_curve_part(part(o.x)); else c[0]->add_gamma_curve_part(part(o.x)); m[0].p[o.side].push_back(o.x); break;
			case 1:
			{
				std::vector<cs::gamma_part*> l; for (int i : LISTS[o.x]) l.push_back(part(i));
				if (o.side) c[0]->set_inverse_gamma_curve_parts(l); else c[0]->set_gamma_curve_parts(l);
				m[0].p[o.side] = LISTS[o.x]; break;
			}
			case 2: delete c[1]; c[1] = new cs::gamma(*c[0]); m[1] = m[0]; break;
			case 3: *c[1] = *c[0]; m[1] = m[0]; break;
			case 4: std::swap(c[0], c[1]); std::swap(m[0], m[1]); break;
			}
			if (o.kind == 2 || o.kind == 3) { k.eval(); if (!(*c[0] == *c[1]) || *c[0] != *c[1]) k.fail("copy_equal", "%s: the copy compares different", h.c_str()); }
		}
		k.trace();
		static const float X[] = { -0.5f, 1.5f, 0.f, 0.05f, 0.1f, 0.15f, 0.25f, 0.26f, 0.4f, 0.5f, 0.55f, 0.6f, 0.75f, 0.9f, 1.f };
		for (int s = 0; s < 2; ++s)
		{
			for (float x : X)
			{
				k.eval(2);
				float a = c[s]->gamma_correction(x), b = c[s]->inverse_gamma_correction(x);
				if (!expect(m[s].p[0], x, a)) { k.fail("forward", "%s: curve %d of %.9g is %.9g", h.c_str(), s, x, a); break; }
				if (!expect(m[s].p[1], x, b)) { k.fail("inverse", "%s: inverse curve %d of %.9g is %.9g", h.c_str(), s, x, b); break; }
			}
			if (c[s]->get_gamma_curve_parts().size() != m[s].p[0].size() || c[s]->get_inverse_gamma_curve_parts().size() != m[s].p[1].size()) k.fail("count", "%s: number of parts of curve %d", h.c_str(), s);
		}
		{
			// comparisons, by either overload: equal curves correct alike
			const cs::gamma &u = *c[0], &v = *c[1];
			bool e = *c[0] == *c[1], f = u == v; k.eval(3);
			if (e != f || e == (*c[0] != *c[1]) || f == (u != v) || (u == v) != (v == u)) k.fail("compare", "%s: the comparisons of both curves disagree", h.c_str());
			if (!(u == u) || u != u || !(*c[0] == *c[0])) k.fail("compare_self", "%s: a curve differs from itself", h.c_str());
			if (e) for (float x : X) if (c[0]->gamma_correction(x) != c[1]->gamma_correction(x) || c[0]->inverse_gamma_correction(x) != c[1]->inverse_gamma_correction(x)) { k.fail("equal_alike", "%s: equal curves differ at %g", h.c_str(), x); break; }
		}
		uint64_t hs = 3; for (int s = 0; s < 2; ++s) for (int d = 0; d < 2; ++d) { hs = mc::mix(hs, 99); for (int i : m[s].p[d]) hs = mc::mix(hs, i); }
		k.state(hs);
		if (k.want_sample()) k.sample("%s", h.c_str());
		delete c[0]; delete c[1];
	}, "operation sequences on two user-assembled curves");
	// parts whose border or function changes after they were added; curves share the parts of what they are copied from
	struct CO { int kind, side, n, x; }; static std::vector<CO> cops;
	if (cops.empty())
	{
		for (int s = 0; s < 2; ++s) for (int i : { 0, 1, 3 }) cops.push_back({ 0, s, 0, i });
		for (int n = 0; n < 3; ++n) { for (int x = 0; x < 4; ++x) cops.push_back({ 1, 0, n, x }); for (int x = 0; x < 3; ++x) cops.push_back({ 2, 0, n, x }); }
		cops.push_back({ 3, 0, 0, 0 }); cops.push_back({ 4, 0, 0, 0 }); cops.push_back({ 5, 0, 0, 0 });
		for (int s = 0; s < 2; ++s) for (int n = 0; n < 3; ++n) cops.push_back({ 6, s, n, 0 });
	}
	p.add("parts_changed", ipow(cops.size(), depth), [=](uint64_t ix, Case& k)
	{
		struct Ob { cs::gamma_part* p; int f; float b; }; std::vector<Ob> ob; std::vector<int> m[2][2];
		static const float BO[4] = { 0.05f, 0.3f, 0.8f, 1.f }; static const float X[] = { 0.f, 0.04f, 0.06f, 0.2f, 0.26f, 0.5f, 0.7f, 0.77f, 0.9f, 1.f, 1.2f };
		Radix r(ix); cs::gamma* c[2] = { new cs::gamma(), new cs::gamma() }; std::string h;
		for (int q = 0; q < depth; ++q)
		{
			CO o = cops[r.next(cops.size())]; if ((o.kind == 1 || o.kind == 2 || o.kind == 6) && o.n >= (int)ob.size()) { for (auto& b : ob) delete b.p; delete c[0]; delete c[1]; return; }
			static const char* K[] = { "add", "border", "function", "copy", "assign", "swap", "remove" };
			h += S("%s(%d,%d,%d) ", K[o.kind], o.side, o.n, o.x); k.transition();
			switch (o.kind)
			{
			case 0: ob.push_back({ part(o.x), PARTS[o.x].f, PARTS[o.x].border }); if (o.side) c[0]->add_inverse_gamma_curve_part(ob.back().p); else c[0]->add_gamma_curve_part(ob.back().p); m[0][o.side].push_back(ob.size() - 1); break;
			case 1: ob[o.n].p->set_upper_border(BO[o.x]); ob[o.n].b = BO[o.x]; break;
			case 2: if (o.x == 0) ob[o.n].p->set_gamma_function(f_inv); else if (o.x == 1) ob[o.n].p->set_gamma_function(f_half); else ob[o.n].p->set_gamma_function(nullptr); ob[o.n].f = o.x == 0 ? 2 : o.x == 1 ? 1 : -1; break;
			case 3: delete c[1]; c[1] = new cs::gamma(*c[0]); m[1][0] = m[0][0]; m[1][1] = m[0][1]; break;
			case 4: *c[1] = *c[0]; m[1][0] = m[0][0]; m[1][1] = m[0][1]; break;
			case 5: std::swap(c[0], c[1]); for (int s = 0; s < 2; ++s) std::swap(m[0][s], m[1][s]); break;
			case 6:
			{
				// by its position in the list the curve hands out; a part that is not the curve's leaves it as it is
				std::vector<cs::gamma_part*> l = o.side ? c[0]->get_inverse_gamma_curve_parts() : c[0]->get_gamma_curve_parts(), other(1, ob[o.n].p);
				auto at = std::find(l.begin(), l.end(), ob[o.n].p); bool in = at != l.end(); if (!in) at = other.begin();
				bool done = o.side ? c[0]->remove_inverse_gamma_curve_part(at) : c[0]->remove_gamma_curve_part(at); k.eval();
				if (done != in) { k.fail("remove", "%s: removing says %d", h.c_str(), done); q = depth; }
				auto& v = m[0][o.side]; v.erase(std::remove(v.begin(), v.end(), o.n), v.end()); break;
			}
			}
		}
		k.trace(); uint64_t hs = 4;
		for (int s = 0; s < 2; ++s) for (int d = 0; d < 2; ++d)
		{
			hs = mc::mix(hs, 98); for (int i : m[s][d]) hs = mc::mix(hs, mc::mix(ob[i].f + 5, mc::fbits(ob[i].b)));
			for (float x : X)
			{
				k.eval(); float got = d ? c[s]->inverse_gamma_correction(x) : c[s]->gamma_correction(x), best = 9; bool any = false, ok = false;
				for (int i : m[s][d]) if (ob[i].f >= 0 && x <= ob[i].b) { any = true; best = std::min(best, ob[i].b); }
				for (int i : m[s][d]) if (ob[i].f >= 0 && ob[i].b == best && close(got, eval_f(ob[i].f, x), 1e-6)) ok = true;
				if (any ? !ok : got != x) { k.fail(d ? "changed_inverse" : "changed_forward", "%s: the %s side of curve %d of %g is %.9g", h.c_str(), d ? "inverse" : "forward", s, x, got); break; }
			}
		}
		for (int s = 0; s < 2; ++s) if (c[s]->get_gamma_curve_parts().size() != m[s][0].size() || c[s]->get_inverse_gamma_curve_parts().size() != m[s][1].size()) k.fail("changed_count", "%s: number of parts of curve %d", h.c_str(), s);
		if (*c[0] == *c[1]) for (float x : X) if (c[0]->gamma_correction(x) != c[1]->gamma_correction(x) || c[0]->inverse_gamma_correction(x) != c[1]->inverse_gamma_correction(x)) { k.fail("changed_alike", "%s: equal curves differ at %g", h.c_str(), x); break; }
		k.state(hs); if (k.want_sample()) k.sample("%s", h.c_str());
		for (auto& b : ob) delete b.p; delete c[0]; delete c[1];
	}, "parts whose border or function changes after they were added, and parts that are removed again");
	p.add("constructed", 256, [](uint64_t ix, Case& k)
	{
		// the constructor with part lists: every subset of four parts in two orders on each side
		int a = ix & 15, b = ix >> 4;
		for (int rev = 0; rev < 2; ++rev)
		{
			std::vector<cs::gamma_part*> l[2]; Mo m;
			for (int s = 0; s < 2; ++s) for (int i = 0; i < 4; ++i) { int j = rev ? 3 - i : i; if ((s ? b : a) >> j & 1) { l[s].push_back(part(j)); m.p[s].push_back(j); } }
			cs::gamma g(l[0], l[1]); k.transition(); k.trace();
			for (float x = 0; x <= 1; x += 0.0625f)
			{
				k.eval(2);
				if (!expect(m.p[0], x, g.gamma_correction(x))) k.fail("constructed_forward", "parts %d reversed %d: curve of %.9g is %.9g", a, rev, x, g.gamma_correction(x));
				if (!expect(m.p[1], x, g.inverse_gamma_correction(x))) k.fail("constructed_inverse", "parts %d reversed %d: inverse curve of %.9g is %.9g", b, rev, x, g.inverse_gamma_correction(x));
			}
			cs::gamma e; (void)e;
			bool same = a == 0 && b == 0;
			k.eval();
			if ((e == g) != same) k.fail("constructed_equal", "an empty curve compared with parts %d/%d", a, b);
		}
		k.state(mc::mix(ix, 77));
	}, "curves constructed from part lists");
	// parts whose borders lie as close together as floats allow, below 0 and above 1 included, added in every order
	p.add("close_borders", 12 * 10 * 6 * 2 * 4, [](uint64_t ix, Case& k)
	{
		static const float B[12] = { 0.25f, 0.5f, 0.9375f, 1.f, 0.018f, 1e-6f, 0.0031308f, -0.25f, 1.5f, 4.f, 0.75f, 0.f }; static const float DE[10] = { 0, 0, 1e-6f, 1e-5f, 1e-4f, 4e-4f, 1e-3f, 4e-3f, 1e-2f, 0.1f };
		static const int PM[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
		Radix r(ix); float b[3]; b[0] = B[r.next(12)]; int de = r.next(10); const int* pm = PM[r.next(6)]; int side = r.next(2), way = r.next(4);
		for (int i = 1; i < 3; ++i) b[i] = de < 2 ? nextafterf(de ? nextafterf(b[i - 1], 9.f) : b[i - 1], 9.f) : b[i - 1] + DE[de];
		std::vector<cs::gamma_part*> l, none; for (int i = 0; i < 3; ++i) l.push_back(pm[i] == 0 ? new cs::gamma_part(f_half, b[0]) : pm[i] == 1 ? new cs::gamma_part(f_inv, b[1]) : new cs::gamma_part(f_one, b[2]));
		cs::gamma* g = way == 1 ? side ? new cs::gamma(none, l) : new cs::gamma(l, none) : new cs::gamma();
		if (way == 2) { if (side) g->set_inverse_gamma_curve_parts(l); else g->set_gamma_curve_parts(l); }
		else if (way != 1) for (auto q : l) if (side) g->add_inverse_gamma_curve_part(q); else g->add_gamma_curve_part(q);
		if (way == 3) g = new cs::gamma(*g);
		k.trace(); k.transition(3);
		std::vector<float> xs = { b[0] - 1, b[0] - 1e-3f, b[2] + 1e-3f, b[2] + 1 }; for (float v : b) { xs.push_back(v); xs.push_back(nextafterf(v, -9.f)); xs.push_back(nextafterf(v, 9.f)); } for (int i = 0; i < 2; ++i) xs.push_back((b[i] + b[i + 1]) / 2);
		for (float x : xs)
		{
			k.eval(2); float got = side ? g->inverse_gamma_correction(x) : g->gamma_correction(x), oth = side ? g->gamma_correction(x) : g->inverse_gamma_correction(x);
			float want = x <= b[0] ? x / 2 : x <= b[1] ? 1 - x : x <= b[2] ? 0.125f : x;
			if (!close(got, want, 1e-6 * std::max(1.f, fabsf(x)))) { k.fail(side ? "close_inverse" : "close_forward", "parts with borders %.9g, %.9g, %.9g in the order %d %d %d: %.9g gives %.9g, expected %.9g", b[0], b[1], b[2], pm[0], pm[1], pm[2], x, got, want); break; }
			if (oth != x) { k.fail("close_other", "a side without parts gives %.9g for %.9g", oth, x); break; }
		}
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		{
			k.eval(4); float x = b[pm[i]], y = b[pm[j]]; cs::gamma_part &pa = *l[i], &pb = *l[j]; const cs::gamma_part &ca = pa, &cb = pb;
			if ((pa < pb) != (x < y) || (pa > pb) != (x > y) || (pa <= pb) != (x <= y) || (pa >= pb) != (x >= y) || (pa == pb) != (i == j) || (pa != pb) == (i == j)) k.fail("close_order", "parts with borders %.9g and %.9g", x, y);
			if ((ca < cb) != (x < y) || (ca > cb) != (x > y) || (ca <= cb) != (x <= y) || (ca >= cb) != (x >= y) || (ca == cb) != (i == j) || (ca != cb) == (i == j)) k.fail("close_order_const", "parts with borders %.9g and %.9g", x, y);
		}
		k.state(mc::mix(ix, 79)); if (k.want_sample()) k.sample("borders %.9g %.9g %.9g, order %d %d %d", b[0], b[1], b[2], pm[0], pm[1], pm[2]);
	}, "three parts with neighbouring borders in every order");
	p.add("parts", NP * NP, [](uint64_t ix, Case& k)
	{
		int i = ix / NP, j = ix % NP;
		cs::gamma_part *a = part(i), *b = part(j); k.eval(6); k.trace(); k.transition(6);
		float x = PARTS[i].border, y = PARTS[j].border;
		if ((*a < *b) != (x < y) || (*a > *b) != (x > y) || (*a <= *b) != (x <= y) || (*a >= *b) != (x >= y)) k.fail("part_order", "parts with borders %g and %g", x, y);
		bool eq = x == y && PARTS[i].f == PARTS[j].f;
		if ((*a == *b) != eq || (*a != *b) == eq) k.fail("part_equal", "parts %d and %d", i, j);
		const cs::gamma_part &ca = *a, &cb = *b;
		if ((ca < cb) != (x < y) || (ca > cb) != (x > y) || (ca <= cb) != (x <= y) || (ca >= cb) != (x >= y)) k.fail("part_order_const", "parts with borders %g and %g", x, y);
		if ((ca == cb) != eq || (ca != cb) == eq) k.fail("part_equal_const", "parts %d and %d", i, j);
		cs::gamma_part c(*a); cs::gamma_part d; d = *b;
		if (c.get_upper_border() != x || d.get_upper_border() != y || !(c == *a) || !(d == *b)) k.fail("part_copy", "copies of parts %d and %d", i, j);
		for (float v = 0; v <= 1; v += 0.25f) if (PARTS[i].f >= 0 && !close(c.get_gamma_function()(v), eval_f(PARTS[i].f, v), 1e-6)) k.fail("part_function", "copy of part %d at %g", i, v);
		a->set_upper_border(y); a->set_gamma_function(b->get_gamma_function());
		if (!(*a == *b) || c.get_upper_border() != x) k.fail("part_set", "part %d set to %d", i, j);
		k.state(mc::mix(ix, 78));
	}, "curve parts");
	// the colour-level operation: every component of a colour whose components are all in [0,1], limited
	static const int OT[] = { RGB_DEEP, GREY_DEEP, CMYK };
	for (int t : OT)
	{
		int n = NC[t]; static const float V[] = { 0.f, 0.001f, 0.003f, 0.02f, 0.05f, 0.2f, 0.5f, 0.9f, 1.f };
		p.add(S("on_colors:%s", TN[t]), 22 * ipow(9, n), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int q = r.next(22); float v[4]; for (int i = 0; i < n; ++i) v[i] = V[r.next(9)];
			float a = 0.5f;
			if (q < 20)
			{
				ref::LD& d = ref::defs()[q];
				Col* c = make(t, v, a, d.lib); k.eval(3); k.transition(3); k.trace();
				c->do_gamma_correction();
				for (int i = 0; i < n; ++i) if (!closer(c->get_component(i), ref::encode(d.ref.g, v[i]), 4e-6, 3e-6)) k.fail(S("color_encode:%s", d.name), "%s: gamma correction gives %s", descv(t, v, a).c_str(), desc(c).c_str());
				if (c->alpha() != a || c->get_rgb_color_space() != d.lib || (int)c->get_color_type() != t) k.fail("color_rest", "gamma correction changed alpha, type or definition");
				c->do_inverse_gamma_correction();
				for (int i = 0; i < n; ++i) if (!close(c->get_component(i), v[i], 5e-6)) k.fail(S("color_round:%s", d.name), "%s: gamma correction and back gives %s", descv(t, v, a).c_str(), desc(c).c_str());
				Col* e = make(t, v, a, d.lib); e->do_inverse_gamma_correction();
				for (int i = 0; i < n; ++i) if (!closer(e->get_component(i), ref::decode(d.ref.g, v[i]), 1e-5, 1e-7)) k.fail(S("color_decode:%s", d.name), "%s: inverse gamma correction gives %s", descv(t, v, a).c_str(), desc(e).c_str());
				if (e->alpha() != a || e->get_rgb_color_space() != d.lib || (int)e->get_color_type() != t) k.fail("color_rest", "inverse gamma correction changed alpha, type or definition");
				k.state(mc::mix(hcol(c), hcol(e)));
				delete c; delete e;
			}
			else
			{
				// a curve that leaves the range: 2x - 0.5, and 0.5 - 2x the other way
				static cs::rgb_color_space_definition* d = nullptr;
				if (!d) { d = new cs::rgb_color_space_definition(*ref::defs()[0].lib); d->set_gamma_curve(new cs::gamma({ new cs::gamma_part([](float x) { return 2 * x - 0.5f; }) }, { new cs::gamma_part([](float x) { return 1.25f - 2 * x; }) })); }
				Col* c = make(t, v, a, d); k.eval(); k.transition(); k.trace();
				if (q == 20) c->do_gamma_correction(); else c->do_inverse_gamma_correction();
				for (int i = 0; i < n; ++i) { double w = q == 20 ? 2 * (double)v[i] - 0.5 : 1.25 - 2 * (double)v[i]; w = w < 0 ? 0 : w > 1 ? 1 : w; if (!close(c->get_component(i), w, 1e-6)) k.fail("color_limits", "%s: a curve that leaves the range gives %s", descv(t, v, a).c_str(), desc(c).c_str()); }
				k.state(hcol(c)); delete c;
			}
		}, "gamma correction of colours under every predefined definition and a curve that leaves the range");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
