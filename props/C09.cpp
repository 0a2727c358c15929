// C09: every conversion yields a valid colour of the requested type and keeps alpha, definition and source.
#include "grids.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static const float AL[] = { 1.f, 0.f, 0.5f, 1.f / 255, 0.25f, 0.9f };
static void one(Case& k, int t, const float* c, float al, int di, int u)
{
	Def* d = di < 0 ? nullptr : D()[di].lib;
	Col* x = make(t, c, al * alpha_max(t), d);
	Snap s(x);
	Col* r = nullptr; Col* q = nullptr;
	k.eval(); k.transition();
	if (raises([&] { r = conv(x, u); q = to_named(x, u); })) { k.fail(S("raises:%s:%s", TN[t], TN[u]), "converting %s raised", desc(x).c_str()); return; }
	if (!r || !q) { k.fail(S("null:%s:%s", TN[t], TN[u]), "converting %s gives nothing", desc(x).c_str()); return; }
	if (Snap(x) != s) k.fail(S("source:%s:%s", TN[t], TN[u]), "converting %s (%s) changed the source to %s", descv(t, c, al).c_str(), di < 0 ? "-" : D()[di].name, desc(x).c_str());
	std::string why;
	if (r->get_color_type() != u) k.fail(S("type:%s:%s", TN[t], TN[u]), "converting %s gives %s", descv(t, c, al).c_str(), desc(r).c_str());
	else if (!in_range(r, &why)) k.fail(S("range:%s:%s", TN[t], TN[u]), "converting %s gives %s: %s", descv(t, c, al).c_str(), desc(r).c_str(), why.c_str());
	else
	{
		if (!close(r->alpha() / alpha_max(u), s.a / alpha_max(t), is_true(u) && !is_true(t) ? 0.501 / 255 : 1e-6 * s.a / alpha_max(t) + 2.5e-7)) k.fail(S("alpha:%s:%s", TN[t], TN[u]), "converting %s (definition %s) gives %s", descv(t, c, al).c_str(), di < 0 ? "-" : D()[di].name, desc(r).c_str());
		if (r->get_rgb_color_space() != d) k.fail(S("definition:%s:%s", TN[t], TN[u]), "converting %s loses the definition %s", descv(t, c, al).c_str(), di < 0 ? "-" : D()[di].name);
		if (u == t && Snap(r) != s) k.fail(S("own:%s", TN[t]), "converting %s to its own type gives %s", descv(t, c, al).c_str(), desc(r).c_str());
	}
	if (Snap(r) != Snap(q)) k.fail(S("named:%s:%s", TN[t], TN[u]), "%s: the general conversion gives %s, the one named after its target %s", descv(t, c, al).c_str(), desc(r).c_str(), desc(q).c_str());
	if (k.state(mc::mix(hcol(r), (uint64_t)di)) && k.want_sample()) k.sample("%s in %s -> %s", descv(t, c, al).c_str(), di < 0 ? "-" : D()[di].name, desc(r).c_str());
	k.trace();
	if (q != x && q != r) delete q;
	if (r != x) delete r;
	delete x;
}
static void build(Plan& p)
{
	p.property = "C09"; p.level = "model_checking";
	p.rule = "state: a colour together with its definition; transition: one conversion. All 15x15 pairs of types, each under all 20 predefined definitions, from a grid over the whole component ranges (ends and the neighbourhood of every case distinction included) with six alphas; every transition is executed on the implementation";
	p.assumptions = { "the rgb colour space definition is one of the predefined ones or one assembled from valid primaries, white point and gamma", "colours built with components inside their ranges (C01 decides what constructors make of others)" };
	int nd = D().size();
	for (int t = 0; t < NT; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 256 : NC[t] == 4 ? (p.thorough ? 8 : 6) : p.thorough ? 15 : 5, NC[t] != 4);
		p.add(S("convert:%s", TN[t]), g.n * NT * nd, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int di = r.next(nd), u = r.next(NT); uint64_t gi = r.next(g.n);
			float c[4]; g.get(gi, c);
			one(k, t, c, AL[(gi + u + di) % 6], di, u);
		}, "conversions of grid colours, definition varying fastest");
		Lines l = make_lines(t, p.thorough ? 2400 : 300);
		p.add(S("lines:%s", TN[t]), l.n * NT * (p.thorough ? 8 : 2), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(NT); r.next(2); float c[4]; l.get(r.next(l.n), c); uint64_t h = mc::mix(ix, 23);
			one(k, t, c, h % 4 == 0 ? AL[h / 64 % 6] : h % 4 == 1 ? (h / 64 % 256) / 255.f : (h / 64 % 1024) / 1023.f, h / 65536 % nd, u);
		}, "one component moved finely through its range");
		Grid h = make_grid(t, NC[t] == 4 ? 3 : NC[t] == 1 ? 17 : 5);
		p.add(S("alpha:%s", TN[t]), h.n * NT * 11, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(NT); int a = r.next(11); uint64_t gi = r.next(h.n);
			float c[4]; h.get(gi, c);
			static const float f[] = { 0.f, 1e-3f, 1.f / 255, 0.1f, 0.25f, 1.f / 3, 0.5f, 0.75f, 0.9f, 254.f / 255, 1.f };
			one(k, t, c, f[a], gi % nd, u);
		}, "every alpha with every colour of a smaller grid");
		const auto& ue = unit_edges();
		p.add(S("edge_alpha:%s", TN[t]), (uint64_t)ue.size() * NT * (p.thorough ? 64 : 8), [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(NT); float a = ue[r.next(ue.size())]; uint64_t hh = mc::mix(ix, 29); float c[4]; h.get(hh % h.n, c);
			one(k, t, c, a, hh / 65536 % nd, u);
		}, "alphas near 0 and 1 in decades");
		// between the types of one family nothing depends on the definition: it may be missing
		if (is_device(t)) p.add(S("no_definition:%s", TN[t]), h.n * 9, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int u = r.next(9); float c[4]; h.get(r.next(h.n), c);
			one(k, t, c, AL[ix % 6], -1, u);
		}, "device conversions without a definition");
	}
	p.add("unknown_target", NT * 6, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int t = r.next(NT), e = r.next(6);
		static const int bad[] = { UNDEFINED, 16, 17, 100, -1, 1000 };
		float c[4]; make_grid(t, 3).get(7 % make_grid(t, 3).n, c);
		Col* x = make(t, c, 0.5f, D()[0].lib); Snap s(x);
		k.eval(); k.transition();
		Col* q = x;
		if (raises([&] { q = conv(x, bad[e]); }) || q) k.fail(S("unknown:%s", TN[t]), "converting to an unknown type gives %s", desc(q).c_str());
		if (Snap(x) != s) k.fail("unknown:source", "source changed");
		k.state(ix); k.trace();
		delete x;
	}, "targets that are no colour type");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
