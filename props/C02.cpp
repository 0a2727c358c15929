// C02: copying, assigning, comparing and re-typing a colour.
#include "util.h"

static std::vector<ref::LD>& D() { return ref::defs(); }
struct M { double c[4]; double a; int d; };
struct Sys { int t; Col* s[3]; M m[3]; };

// two representative values of a component, not at the ends of the range
static float val(int t, int i, int k)
{
	float lo, hi; range_of(t, i, lo, hi);
	static const float f[3] = { 0.3f, 0.8f, 0.55f };
	return lo + (hi - lo) * f[k] + 0.01f * i;
}
static float alp(int t, int k) { static const float f[3] = { 0.25f, 1.f, 0.6f }; return f[k] * alpha_max(t); }

struct Op { int kind, i, j, x; };
static std::vector<Op> ops_of(int t, int slots, bool small)
{
	std::vector<Op> o;
	for (int i = 0; i < slots; ++i) for (int j = 0; j < slots; ++j)
	{
		o.push_back({ 0, i, j, 0 });                 // assign
		if (i != j) { o.push_back({ 1, i, j, 0 });   // replace by copy
			o.push_back({ 2, i, j, 0 }); }           // replace by construction from the base class
	}
	for (int i = 0; i < slots; ++i)
	{
		for (int c = 0; c < (small ? std::min(1, NC[t]) : NC[t]); ++c) for (int x = 0; x < 2; ++x) o.push_back({ 3, i, small ? NC[t] - 1 : c, x });
		for (int x = 0; x < 2; ++x) { o.push_back({ 4, i, 0, x }); o.push_back({ 5, i, 0, x }); }
	}
	return o;
}
static std::string opname(const Op& o)
{
	static const char* K[] = { "assign", "copy", "from_base", "set", "alpha", "definition" };
	return S("%s(%d,%d,%d)", K[o.kind], o.i, o.j, o.x);
}
static bool check(Case& k, Sys& s, const std::string& h, const char* last)
{
	k.eval();
	for (int i = 0; i < 3; ++i)
	{
		Col* c = s.s[i]; M& m = s.m[i];
		if (c->get_color_type() != s.t || (int)c->get_component_vector().size() != NC[s.t]) { k.fail(S("type:%s:%s", TN[s.t], last), "%s: slot %d has a different type", h.c_str(), i); return false; }
		for (int j = 0; j < NC[s.t]; ++j) if (!close(c->get_component(j), m.c[j], comp_tol(s.t, j)))
		{ k.fail(S("component:%s:%s", TN[s.t], last), "%s: slot %d reads %s, component %d should be %.9g", h.c_str(), i, desc(c).c_str(), j, m.c[j]); return false; }
		if (!close(c->alpha(), m.a, 2e-6 * alpha_max(s.t))) { k.fail(S("alpha:%s:%s", TN[s.t], last), "%s: slot %d reads alpha %.9g, should be %.9g", h.c_str(), i, c->alpha(), m.a); return false; }
		if (c->get_rgb_color_space() != D()[m.d].lib) { k.fail(S("definition:%s:%s", TN[s.t], last), "%s: slot %d has another colour space definition", h.c_str(), i); return false; }
	}
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
	{
		bool e = true;
		for (int q = 0; q < NC[s.t]; ++q) if (s.s[i]->get_component(q) != s.s[j]->get_component(q)) e = false;
		if ((*s.s[i] == *s.s[j]) != e || (*s.s[i] != *s.s[j]) == e) { k.fail(S("equality:%s", TN[s.t]), "%s: comparing slots %d and %d, expected equal=%d", h.c_str(), i, j, e); return false; }
	}
	return true;
}
static void apply(Sys& s, const Op& o)
{
	int t = s.t;
	switch (o.kind)
	{
	case 0: assign(s.s[o.i], s.s[o.j]); s.m[o.i] = s.m[o.j]; break;
	case 1: { Col* n = clone(s.s[o.j]); delete s.s[o.i]; s.s[o.i] = n; s.m[o.i] = s.m[o.j]; break; }
	case 2: { Col* n = from_base(t, *s.s[o.j]); delete s.s[o.i]; s.s[o.i] = n; s.m[o.i] = s.m[o.j]; break; }
	case 3: { float v = val(t, o.j, o.x); set_named(s.s[o.i], t, o.j, v); s.m[o.i].c[o.j] = want_comp(t, o.j, v); break; }
	case 4: s.s[o.i]->alpha(alp(t, o.x)); s.m[o.i].a = alp(t, o.x); break;
	case 5: s.s[o.i]->set_rgb_color_space(D()[o.x].lib); s.m[o.i].d = o.x; break;
	}
}
static void sequences(Plan& p, int t, int depth, bool small, const char* tag)
{
	auto ops = ops_of(t, 3, small);
	uint64_t n = ipow(ops.size(), depth);
	p.add(S("%s:%s", tag, TN[t]), n, [=](uint64_t ix, Case& k)
	{
		Radix r(ix);
		Sys s; s.t = t;
		for (int i = 0; i < 3; ++i)
		{
			float v[4];
			for (int j = 0; j < NC[t]; ++j) { v[j] = val(t, j, (i + j) % 3); s.m[i].c[j] = want_comp(t, j, v[j]); }
			s.m[i].a = alp(t, i); s.m[i].d = i;
			s.s[i] = make(t, v, alp(t, i), D()[i].lib);
		}
		Op seq[8];
		for (int q = 0; q < depth; ++q) { seq[q] = ops[r.next(ops.size())]; }
		bool ok = true;
		auto hist = [&](int upto) { std::string h = TN[t]; for (int q = 0; q <= upto; ++q) h += " " + opname(seq[q]); return h; };
		for (int q = 0; q < depth && ok; ++q)
		{
			apply(s, seq[q]); k.transition();
			// the state after a prefix is compared when the prefix is the sequence itself or at its end
			if (q == depth - 1) ok = check(k, s, hist(q), q ? opname(seq[q]).substr(0, opname(seq[q]).find('(')).c_str() : "first");
		}
		k.trace();
		uint64_t h = t;
		for (int i = 0; i < 3; ++i) { h = mc::mix(h, hcol(s.s[i])); h = mc::mix(h, (uint64_t)s.m[i].d); }
		k.state(h);
		if (k.want_sample()) k.sample("%s", hist(depth - 1).c_str());
		for (int i = 0; i < 3; ++i) delete s.s[i];
	}, "operation sequences on three colours");
}
static void build(Plan& p)
{
	p.property = "C02";
	p.level = "model_checking";
	p.rule = S("three colours of one type with different components, alphas and definitions; every sequence of %s over assignment (also to itself), replacement by a copy, replacement by construction from the base class, component, alpha and definition writes, for each of the 15 types; after it all three colours and all pairwise comparisons against the model. Also: every pair of types for construction from the base class and comparison, every component index from far below to far above for read and write", p.thorough ? "4 operations (5 with a reduced alphabet)" : "3 operations");
	p.assumptions = { "assignment is used between objects of one concrete type (what the interface offers)" };
	for (int t = 0; t < NT; ++t) sequences(p, t, p.thorough ? 4 : 3, false, "sequence");
	for (int t = 0; t < NT; ++t) sequences(p, t, p.thorough ? 5 : 4, true, "sequence_small");
	// construction from the base class and comparison across types; one component differing by one step
	p.add("cross_type", NT * NT * 8, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), u = r.next(NT), w = r.next(8);
		float v[4] = {};
		float f[8] = { 0.f, 0.5f, 1.f, 0.25f, 0.75f, 0.1f, 0.9f, 0.4f };
		for (int i = 0; i < 4; ++i) v[i] = f[(w + i) % 8];
		Col* a = make(t, v, f[(w + 1) % 8] * alpha_max(t), D()[w % 3].lib);
		Snap before(a);
		k.eval(); k.transition(2); k.trace();
		Col* made = nullptr;
		bool e = raises([&] { made = from_base(u, *a); });
		if (e != (t != u)) k.fail(S("retype:%s:%s", TN[t], TN[u]), "constructing %s from %s %s", TN[u], desc(a).c_str(), e ? "raised" : "did not raise");
		if (e) k.raised();
		if (Snap(a) != before) k.fail(S("retype_mutates:%s:%s", TN[t], TN[u]), "source changed");
		if (made && (Snap(made) != before)) k.fail(S("retype_copy:%s", TN[t]), "%s became %s", desc(a).c_str(), desc(made).c_str());
		Col* b = make(u, v, 1.f, D()[0].lib);
		bool eq = t == u;
		if ((*a == *b) != eq || (*a != *b) == eq) k.fail(S("compare:%s:%s", TN[t], TN[u]), "%s against %s: expected equal=%d", desc(a).c_str(), desc(b).c_str(), eq);
		if (t == u) for (int i = 0; i < NC[t]; ++i)
		{
			float lo, hi; range_of(t, i, lo, hi);
			float x = b->get_component(i), y = x + (x + 1e-3f * hi > hi ? -1e-3f * hi : 1e-3f * hi);
			set_named(b, t, i, y); k.eval(); k.transition();
			if (*a == *b || !(*a != *b)) k.fail(S("compare_component:%s:%d", TN[t], i), "%s equals %s", desc(a).c_str(), desc(b).c_str());
			set_named(b, t, i, x);
			if (!(*a == *b)) k.fail(S("compare_back:%s:%d", TN[t], i), "%s differs from %s", desc(a).c_str(), desc(b).c_str());
		}
		k.state(mc::mix(hcol(a), hcol(b)));
		delete a; delete b; delete made;
	}, "re-typing and comparison of every pair of types");
	// a component next to another one, as close as the type allows: unequal, and equal only to itself
	p.add("near", NT * 4 * 12 * 12, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int st = r.next(12), b = r.next(12), i = r.next(4), t = r.next(NT);
		if (i >= NC[t]) return;
		float v[4]; for (int j = 0; j < NC[t]; ++j) v[j] = val(t, j, (j + b) % 3);
		float lo, hi; range_of(t, i, lo, hi);
		static const float F[12] = { 0.f, 1.f, 0.5f, 0.3f, 0.8f, 0.001f, 0.999f, 0.25f, 0.75f, 1e-5f, 0.1f, 0.62f };
		v[i] = lo + (hi - lo) * F[b];
		Col* x = make(t, v, alp(t, 0), D()[0].lib); Col* y = clone(x);
		float f = x->get_component(i), g = f;
		static const float ST[12] = { 0, 0, 0, 0, 1e-7f, 1e-6f, 1e-5f, 1e-4f, 1e-3f, 1e-2f, 0.1f, 0.3f };
		if (st < 4) { int n = st == 0 ? 1 : st == 1 ? 2 : st == 2 ? 8 : 64; for (int q = 0; q < n; ++q) g = nextafterf(g, f > (lo + hi) / 2 ? lo : hi); }
		else g = f > (lo + hi) / 2 ? f - ST[st] * (hi - lo) : f + ST[st] * (hi - lo);
		set_named(y, t, i, g);
		bool eq = y->get_component(i) == x->get_component(i); // a denormal difference may vanish in the setter
		k.eval(4); k.transition(2); k.trace(); k.state(mc::mix(hcol(x), hcol(y))); k.distinct(mc::mix(hcol(x), hcol(y)));
		if ((*x == *y) != eq || (*y == *x) != eq || (*x != *y) == eq || (*y != *x) == eq) k.fail(S("near:%s:%d", TN[t], i), "%s and %s: component %d differs by %g, expected equal=%d", desc(x).c_str(), desc(y).c_str(), i, (double)g - f, eq);
		if (!eq && st >= 4 && y->get_component(i) == f) k.fail(S("near_lost:%s:%d", TN[t], i), "%s: writing %.9g has no effect", desc(x).c_str(), g);
		set_named(y, t, i, f);
		if (!(*x == *y) || *x != *y) k.fail(S("near_back:%s:%d", TN[t], i), "%s and %s should be equal", desc(x).c_str(), desc(y).c_str());
		delete x; delete y;
	}, "comparison of colours that differ in one component by steps down to the next number");
	// zeros of either sign are equal
	p.add("zeros", NT * 81 * 81, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int a = r.next(81), b = r.next(81), t = r.next(NT);
		if (a >= (int)ipow(3, NC[t]) || b >= (int)ipow(3, NC[t])) return;
		static const float V[3] = { 0.f, -0.f, 0.5f };
		float x[4] = {}, y[4] = {}; int q = a, w = b; bool eq = true;
		for (int i = 0; i < NC[t]; ++i) { x[i] = V[q % 3]; y[i] = V[w % 3]; q /= 3; w /= 3; if (x[i] != y[i]) eq = false; }
		Col *c = make(t, x, alp(t, 0), D()[0].lib), *d = make(t, y, alp(t, 1), D()[1].lib);
		for (int i = 0; i < NC[t]; ++i) { c->set_component(x[i], i, 1.f, -1.f); d->set_component(y[i], i, 1.f, -1.f); }
		k.eval(4); k.transition(2); k.trace(); k.state(mc::mix(hcol(c), mc::mix(a, b)));
		if ((*c == *d) != eq || (*d == *c) != eq || (*c != *d) == eq || (*d != *c) == eq) k.fail(S("zeros:%s", TN[t]), "%s and %s: expected equal=%d", desc(c).c_str(), desc(d).c_str(), eq);
		Col* e = clone(c); if (!(*e == *c)) k.fail(S("zeros_copy:%s", TN[t]), "a copy of %s differs", desc(c).c_str());
		delete c; delete d; delete e;
	}, "components of zero with either sign");
	static const int IX[] = { INT32_MIN, -1000000, -256, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 255, 256, 65536, INT32_MAX };
	p.add("index", NT * 20, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), i = IX[r.next(20)];
		float v[4];
		for (int j = 0; j < NC[t]; ++j) v[j] = val(t, j, 0);
		Col* a = make(t, v, alp(t, 0), D()[0].lib);
		Snap before(a);
		bool out = i < 0 || i >= NC[t];
		k.transition(3); k.trace(); k.eval(3);
		if (raises([&] { a->get_component(i); }) != out) k.fail(S("index_get:%s", TN[t]), "reading component %d of %s", i, TN[t]);
		if (Snap(a) != before) k.fail(S("index_get_mutates:%s", TN[t]), "reading component %d", i);
		if (raises([&] { a->set_component(0.5f, i); }) != out) k.fail(S("index_set:%s", TN[t]), "writing component %d of %s", i, TN[t]);
		if (out && Snap(a) != before) k.fail(S("index_set_mutates:%s", TN[t]), "writing component %d", i);
		if (raises([&] { a->set_component(0.5f, i, 1.f, 0.f); }) != out) k.fail(S("index_set4:%s", TN[t]), "writing component %d of %s with a range", i, TN[t]);
		if (out && Snap(a) != before) k.fail(S("index_set4_mutates:%s", TN[t]), "writing component %d", i);
		if (!out && !close(a->get_component(i), 0.5, 1e-6)) k.fail(S("index_set4_value:%s", TN[t]), "component %d is %.9g after writing 0.5", i, a->get_component(i));
		if (out) k.raised(3);
		k.state(hcol(a));
		delete a;
	}, "component indices");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
