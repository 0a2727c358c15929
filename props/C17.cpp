// C17: adding and mixing two colours of one type with weights.
#include "calc.h"
static std::vector<ref::LD>& D() { return ref::defs(); }
static void one(Case& k, int op, int t, const float* c, const float* e, float al, float be, float w1, float w2, bool ia, int nargs, int di, int dj, bool same = false)
{
	float am = alpha_max(t);
	Col* a = make(t, c, al * am, D()[di].lib); Col* b = same ? a : make(t, e, be * am, D()[dj].lib);
	Snap sa(a), sb(b);
	Col* r = nullptr; k.eval();
	std::string what = S("%s of %s and %s, weights %g %g%s", OPN[op], desc(a).c_str(), desc(b).c_str(), w1, op == MIX ? 1 - w1 : w2, ia ? ", with alpha" : "");
	if (raises([&] { r = typed(op, a, b, w1, w2, ia, nargs); })) { k.fail(S("raises:%s:%s", OPN[op], TN[t]), "%s raised", what.c_str()); return; }
	if (nargs == 0) { w1 = op == ADD ? 1 : 0.5f; w2 = 1; }
	if (nargs == 1) w2 = 1;
	if (nargs < (op == ADD ? 3 : 2)) ia = false;
	double k1 = w1, k2 = op == ADD ? w2 : 1 - (double)w1;
	int q = calc_space(t);
	Col* x = conv(a, q); Col* y = conv(b, q);
	ref::V w = combine(ref::of(x, &D()[di].ref), ref::of(y, &D()[dj].ref), k1, k2, ia, t == RGB_TRUE || t == RGB_DEEP);
	if (!ia) w.a = sa.a / am;
	std::string why = mismatch(r, t, w, sa.d);
	if (!why.empty()) k.fail(S("value:%s:%s", OPN[op], TN[t]), "%s is %s: %s", what.c_str(), desc(r).c_str(), why.c_str());
	if (Snap(a) != sa || Snap(b) != sb) k.fail(S("operand:%s:%s", OPN[op], TN[t]), "%s changed an operand", what.c_str());
	k.distinct(mc::mix(mc::mix(hcol(a), hcol(b)), mc::mix(hcol(r), op * 2 + ia)));
	if (k.want_sample()) k.sample("%s is %s", what.c_str(), desc(r).c_str());
	if (x != a) delete x;
	if (y != b && y != x) delete y;
	if (r && r != a && r != b) delete r;
	if (b != a) delete b;
	delete a;
}
static void build(Plan& p)
{
	p.property = "C17"; p.level = "exploration";
	static const bool th = p.thorough;
	p.rule = "for all 15 types, all pairs of colours of a grid over the component ranges with weights, alphas and alpha inclusion from a grid; every pair of 13 x 13 weights on a smaller grid; every component, weight and alpha moved finely through its range; omitted arguments; distinct by operands, operation and result";
	p.assumptions = { "rgb is added as the root of the weighted sum of squares; hsi, hsl and hcy in hsv, where hue and saturation are a vector; Lab and LCh in XYZ; everything else linearly", "weights outside [0,1] belong to C27" };
	int nd = D().size();
	for (int t = 0; t < NT; ++t)
	{
		Grid g = make_grid(t, NC[t] == 1 ? 52 : NC[t] == 4 ? (th ? 4 : 3) : th ? 6 : 4);
		uint64_t lim = g.n * g.n; uint64_t per = th ? 24 : 8;
		p.add(S("pairs:%s", TN[t]), lim * per, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int v = r.next(per); uint64_t i = r.next(g.n), j = r.next(g.n); float c[4], e[4]; g.get(i, c); g.get(j, e);
			uint64_t h = mc::mix(mc::mix(i, j), v); // spreads the remaining choices over the pairs
			static const float A[] = { 1.f, 0.f, 0.5f, 0.2f, 0.9f };
			int di = h % nd, dj = h / 32 % 4 ? di : (di + 1) % nd;
			one(k, h / 128 % 2 ? ADD : MIX, t, c, e, A[h / 256 % 5], A[h / 2048 % 5], WT[h / 16384 % 13], WT[h / 262144 % 13], h / (1 << 24) % 2, 3, di, dj);
		}, "pairs of grid colours");
		Grid s = make_grid(t, NC[t] == 4 ? 2 : NC[t] == 1 ? 9 : 3);
		int m = th ? 40 : 12;
		p.add(S("weights:%s", TN[t]), 13 * 13 * 4 * m, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float w1 = WT[r.next(13)], w2 = WT[r.next(13)]; int o = r.next(4), i = r.next(m); float c[4], e[4];
			s.get((i * 7 + 3) % s.n, c); s.get((i * 11 + 5) % s.n, e);
			one(k, o & 1 ? ADD : MIX, t, c, e, 0.8f, 0.3f, w1, w2, o & 2, 3, i % nd, i % nd);
		}, "all pairs of weights");
		p.add(S("alphas:%s", TN[t]), 7 * 7 * 4 * 5, [=](uint64_t ix, Case& k)
		{
			static const float A[] = { 1.f, 0.f, 0.5f, 0.2f, 0.9f, 1.f / 255, 0.7f };
			Radix r(ix); float al = A[r.next(7)], be = A[r.next(7)]; int o = r.next(4), w = r.next(5); float c[4], e[4];
			s.get((ix * 7 + 3) % s.n, c); s.get((ix * 11 + 5) % s.n, e);
			one(k, o & 1 ? ADD : MIX, t, c, e, al, be, WT[w], WT[(w * 3 + 2) % 13], o & 2, 3, ix % nd, ix % nd);
		}, "all pairs of alphas");
		p.add(S("defaults:%s", TN[t]), 2 * 3 * 40, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int op = r.next(2), n = r.next(3), i = r.next(40); float c[4], e[4];
			s.get((i * 7 + 3) % s.n, c); s.get((i * 11 + 5) % s.n, e);
			one(k, op, t, c, e, 0.8f, 0.3f, WT[i % 13], WT[(i * 5 + 1) % 13], false, op == MIX ? std::min(n, 1) : n, i % nd, i % nd);
		}, "omitted arguments");
		Lines l = make_lines(t, th ? 2400 : 400);
		p.add(S("lines:%s", TN[t]), l.n * 2 * 2 * (th ? 4 : 2), [=](uint64_t ix, Case& k)
		{
			// one operand on a line, the other one its base or another one
			Radix r(ix); int sw = r.next(2), own = r.next(2), v = r.next(th ? 4 : 2); float c[4], e[4]; int b; uint64_t i = r.next(l.n); l.get(i, c, &b); uint64_t h = mc::mix(mc::mix(i, v), sw * 2 + own); l.at(own ? b : h % 8, e);
			static const float A[] = { 1.f, 0.6f, 0.2f }; int di = h / 64 % nd;
			one(k, h / 7 % 2 ? ADD : MIX, t, sw ? e : c, sw ? c : e, A[h / 4096 % 3], A[h / 16384 % 3], WT[(h >> 20) % 13], WT[(h >> 30) % 13], (h >> 40) % 2, 3, di, di);
		}, "one component of an operand moved finely through its range");
		p.add(S("fine_weights:%s", TN[t]), (th ? 4001 : 1001) * 24, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int q = r.next(24); uint64_t i = r.next(th ? 4001 : 1001); float w = (float)i / (th ? 4000 : 1000); float c[4], e[4]; l.at(q, c); l.at(q / 8 * 3 + q + 1, e); uint64_t h = mc::mix(ix, 6);
			one(k, h / 7 % 2 ? ADD : MIX, t, c, e, 0.9f, 0.35f, w, h % 2 ? WT[h / 16 % 13] : w, h / 512 % 2, 3, h / 1024 % nd, h / 1024 % nd);
		}, "weights moved finely from 0 to 1");
		p.add(S("edges:%s", TN[t]), unit_edges().size() * unit_edges().size() * (th ? 12 : 2), [=](uint64_t ix, Case& k)
		{
			// weights and alphas near 0 and 1, in decades and next to round ones
			auto& U = unit_edges(); Radix r(ix); uint64_t n = U.size(); float w = U[r.next(n)], v = U[r.next(n)]; bool al = r.next(th ? 12 : 2) & 1; uint64_t h = mc::mix(ix, 8); float c[4], e[4]; l.at(h % 8, c); l.at(h / 8 % 8, e); h /= 64;
			if (al) one(k, h / 7 % 2 ? ADD : MIX, t, c, e, w, v, WT[h / 16 % 13], WT[h / 256 % 13], h / 4096 % 4 != 0, 3, (h >> 20) % nd, (h >> 20) % nd);
			else one(k, h / 7 % 2 ? ADD : MIX, t, c, e, U[h / 16 % n], U[h / 2048 % n], w, v, (h >> 30) % 2, 3, (h >> 20) % nd, (h >> 20) % nd);
		}, "all pairs of weights, and of alphas, near 0 and 1");
		p.add(S("fine_alphas:%s", TN[t]), 256 * 2 * 2 * 12, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); float al = r.next(256) / 255.f; int sw = r.next(2), ia = r.next(2), q = r.next(12); uint64_t h = mc::mix(ix, 7); float c[4], e[4]; l.at(q, c); l.at(q + 3, e); float be = h % 3 ? (h / 8 % 256) / 255.f : al;
			one(k, h / 7 % 2 ? ADD : MIX, t, c, e, sw ? be : al, sw ? al : be, WT[h / 4096 % 13], WT[(h >> 20) % 13], ia, 3, (h >> 30) % nd, (h >> 30) % nd);
		}, "alphas moved finely from 0 to 1");
		p.add(S("same_object:%s", TN[t]), 2 * 2 * 13 * 8, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int op = r.next(2), ia = r.next(2); float w = WT[r.next(13)]; float c[4]; s.get(r.next(8) * 5 % s.n, c);
			one(k, op, t, c, c, 0.6f, 0.6f, w, 0.3f, ia, 3, ix % nd, ix % nd, true);
		}, "a colour with itself");
	}
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
