// C26: the outcome of an operation does not depend on what was done before, and nothing an operation is given changes.
// Every operation of a catalogue has its outcome computed as the first operation of a fresh process. Every
// sequence of operations up to a depth then runs in a process of its own and every step has to give that outcome.
#include <functional>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "kinds.h"
// every ordered n-tuple of m symbols appears in consecutive places
static std::vector<int> de_bruijn(int m, int n)
{
	std::vector<int> a(m * n, 0), s;
	std::function<void(int, int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int j = 1; j <= p; ++j) s.push_back(a[j]); } else { a[t] = a[t - p]; db(t + 1, p); for (int j = a[t - p] + 1; j < m; ++j) { a[t] = j; db(t + 1, t); } } };
	db(1, 1); for (int i = 0; i < n - 1; ++i) s.push_back(s[i]);
	return s;
}
// ---- one process
struct Out { int failed; char key[150]; char msg[700]; uint64_t trans, refused; };
static Out* OUT;
static Snap* dsnap(Col* c) { return new Snap(c); }
static std::vector<std::pair<Col*, Snap*>> ALLC;
static std::vector<std::vector<float>> DEFV;
static std::vector<float> defv(Def* d) { Res r; r.mat(d->get_transform_matrix()); r.mat(d->get_inverse_transform_matrix()); for (float f : d->get_white_point()->get_tristimulus()) r.num(f); for (float f : { 0.02f, 0.5f }) { r.num(d->get_gamma_curve()->gamma_correction(f)); r.num(d->get_gamma_curve()->inverse_gamma_correction(f)); } return r.v; }
static void snapshot()
{
	for (int t = 0; t < NT; ++t) for (int v = 0; v < NV; ++v) { ALLC.push_back({ A_[t][v], dsnap(A_[t][v]) }); ALLC.push_back({ B_[t][v], dsnap(B_[t][v]) }); }
	for (auto& d : D()) DEFV.push_back(defv(d.lib));
}
static void bad(const char* key, const std::string& m) { if (OUT->failed) return; OUT->failed = 1; snprintf(OUT->key, sizeof OUT->key, "%s", key); snprintf(OUT->msg, sizeof OUT->msg, "%s", m.c_str()); }
static bool unchanged_all(const std::string& after)
{
	for (auto& p : ALLC) if (Snap(p.first) != *p.second) { bad("operand", S("a colour is now %s after %s", desc(p.first).c_str(), after.c_str())); return false; }
	for (size_t i = 0; i < DEFV.size(); ++i) if (defv(D()[i].lib) != DEFV[i]) { bad("definition", S("the definition %s changed after %s", D()[i].name, after.c_str())); return false; }
	return true;
}
static const Snap* snap_of(Col* c) { for (auto& p : ALLC) if (p.first == c) return p.second; return nullptr; }
static std::string kind(const std::string& n) { size_t q = n.find(" ("); std::string s = n.substr(0, q); return s.substr(0, 60); }
struct Walk
{
	std::vector<Col*> last; std::vector<Snap> lsnap; std::string hist[3]; uint64_t n = 0;
	bool step(int i) { return step(OPS[i], BASE[i]); }
	bool step(const OpR& o, const Base& base)
	{
		hist[0] = hist[1]; hist[1] = hist[2]; hist[2] = o.name; ++n;
		std::string h = hist[0].empty() ? "" : "'" + hist[0] + "', "; h += hist[1].empty() ? "" : "'" + hist[1] + "', ";
		Res r; perform(o, r); OUT->trans++;
		if (r.err) OUT->refused++;
		if (!agrees(r, base)) { bad(("outcome:" + kind(o.name)).c_str(), S("after %s'%s' gives %s, in a fresh process %s", h.c_str(), o.name.c_str(), show(r.v.data(), r.v.size(), r.err).c_str(), show(base.v, base.n, base.err).c_str())); return false; }
		for (Col* c : r.ops) { const Snap* s = snap_of(c); if (s && Snap(c) != *s) { bad(("operand:" + kind(o.name)).c_str(), S("after %s'%s' left its operand as %s", h.c_str(), o.name.c_str(), desc(c).c_str())); return false; } }
		// what the operation before returned is the caller's, and the caller changes it
		for (size_t k = 0; k < last.size(); ++k) if (Snap(last[k]) != lsnap[k]) { bad(("result:" + kind(o.name)).c_str(), S("'%s' changed what '%s' had returned, to %s", o.name.c_str(), hist[1].c_str(), desc(last[k]).c_str())); return false; }
		for (Col* c : last) { int t = c->get_color_type(); float v[4]; values(t, 5, v); for (int q = 0; q < NC[t]; ++q) set_named(c, t, q, v[q]); c->alpha(0.05f); c->set_rgb_color_space(D()[4].lib); }
		last.clear(); lsnap.clear();
		std::sort(r.own.begin(), r.own.end()); r.own.erase(std::unique(r.own.begin(), r.own.end()), r.own.end());
		for (Col* c : r.own) { bool mine = snap_of(c) == nullptr; for (int t = 0; t < NT; ++t) if (Q_[t] == c || Q2_[t] == c || P_[t] == c || P2_[t] == c || MA_[t] == c || MB_[t] == c) mine = false; if (c == (Col*)buf_col || c == (Col*)buf_col2) mine = false; if (mine) { last.push_back(c); lsnap.push_back(Snap(c)); } }
		return true;
	}
};
template <class F> static void process(Case& k, const std::string& what, F f)
{
	if (!OUT) OUT = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(OUT, 0, sizeof(Out));
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) { f(); _exit(0); }
	int st = 0; if (p < 0 || waitpid(p, &st, 0) < 0) { k.fail("fork", "no process"); return; }
	k.transition(OUT->trans); k.trace(); k.eval(OUT->trans); k.raised(OUT->refused);
	if (OUT->failed) k.fail(OUT->key, "%s", OUT->msg);
	else if (!WIFEXITED(st) || WEXITSTATUS(st)) k.fail("crash", "%s: the process ended with %d", what.c_str(), st);
}
// ---- floods: many operands, close to each other and far apart, in several orders
struct Flo { int which; struct Row { int t, w; float operator[](int i) const { double lo, hi; span(t, i, lo, hi); return float(w ? hi : lo); } };
	static void span(int t, int i, double& lo, double& hi) { float l, h; range_of(t, i, l, h); lo = l; hi = h; if (t == XYZ || t == XYY) hi = 1; else if (t == LAB && i) { lo = -60; hi = 60; } }
	Row operator[](int t) const { return { t, which }; } };
static const Flo LO{ 0 }, HI{ 1 };
static const int NSYM = 20;
static const char* SYMN[NSYM] = { "as it is", "first component 1e-3 higher", "second component 1e-3 higher", "last component 1e-3 higher", "first component 2e-6 higher", "second component 2e-6 higher", "last component 2e-6 higher", "alpha higher", "components turned round", "another definition", "a twin definition", "other colour 1e-3 off", "other colour's definition", "other parameters", "both of them one", "other parameters 2", "other parameters 3", "other parameters 4", "other parameters 5", "other parameters 6" };
static void flood(const Kind2& k, int t, int g, int s, bool reuse, Res& r)
{
	int w = k.other ? (t + 4) % NT : t; float c[4], e[4];
	auto comps = [&](int y, int q, float* o) { for (int i = 0; i < NC[y]; ++i) { float u = fmodf(0.5f + (g + 1) * (0.6180340f + 0.137f * i) + 0.29f * q, 1.f); if (g % 6 == 4) u = roundf(u * 4) / 4; o[i] = LO[y][i] + u * (HI[y][i] - LO[y][i]) * 0.99f; } };
	comps(t, 0, c); comps(w, 1, e);
	auto up = [](int y, float* o, int i, float f) { o[i] += f * (HI[y][i] - LO[y][i]); };
	float ea = g % 3 ? al(g) : 0.7f, eb = g % 4 ? al(g + 1) : 0.4f; Def *da = D()[DI[g % 3]].lib, *db = da;
	switch (s)
	{
	case 1: case 4: up(t, c, 0, s == 1 ? 1e-3f : 2e-6f); break;
	case 2: case 5: up(t, c, NC[t] > 1, s == 2 ? 1e-3f : 2e-6f); break;
	case 3: case 6: up(t, c, NC[t] - 1, s == 3 ? 1e-3f : 2e-6f); break;
	case 7: ea += 1e-3f; break;
	case 8: if (NC[t] > 1) { float u = (c[0] - LO[t][0]) / (HI[t][0] - LO[t][0]), v = (c[NC[t] - 1] - LO[t][NC[t] - 1]) / (HI[t][NC[t] - 1] - LO[t][NC[t] - 1]); c[0] = LO[t][0] + v * (HI[t][0] - LO[t][0]); c[NC[t] - 1] = LO[t][NC[t] - 1] + u * (HI[t][NC[t] - 1] - LO[t][NC[t] - 1]); } break;
	case 9: da = db = D()[DI[(g + 1) % 3]].lib; break;
	case 10: da = db = TWIN[g % 6]; break;
	case 11: up(w, e, 0, 1e-3f); break;
	case 12: db = D()[DI[(g + 2) % 3]].lib; break;
	case 13: case 15: case 16: case 17: case 18: case 19: PS = s == 13 ? 6 : s - 14; break;
	}
	Col* a = reuse ? make_at(t, c, ea * alpha_max(t), da) : make(t, c, ea * alpha_max(t), da); Col* b = s == 14 && w == t ? a : reuse ? make_at(w, e, eb * alpha_max(w), db, buf_col2) : make(w, e, eb * alpha_max(w), db);
	try { k.f(r, t, a, b); } catch (...) { r.err = true; }
	PS = 0; if (!reuse) { r.own.push_back(a); r.own.push_back(b); } if (reuse) { a->~color_base(); if (b != a) b->~color_base(); }
	if (r.err) r.v.clear();
}
static uint64_t digest(const Res& r) { uint64_t h = r.err ? 77 : 5; for (float f : r.v) { uint32_t u; memcpy(&u, &f, 4); if (f != f) u = 0x7fc00000; h = mc::mix(h, u); } return h; }
static void build(Plan& p)
{
	p.property = "C26"; p.level = "model_checking";
	p.rule = "";
	setup(); catalogue(); kinds(); twins(); snapshot();
	size_t n = OPS.size();
	BASE = (Base*)mmap(nullptr, sizeof(Base) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> kids;
	for (int w = 0; w < 8; ++w)
	{
		pid_t q = fork();
		if (q == 0)
		{
			for (size_t i = w; i < n; i += 8)
			{
				pid_t z = fork();
				if (z == 0) { Res r; perform(OPS[i], r); Base& b = BASE[i]; b.err = r.err; b.n = std::min<size_t>(r.v.size(), MAXV); memcpy(b.v, r.v.data(), b.n * sizeof(float)); _exit(0); }
				int st; waitpid(z, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st)) BASE[i].err = 9; // no outcome agrees with a crash
			}
			_exit(0);
		}
		kids.push_back(q);
	}
	for (pid_t q : kids) { int st; waitpid(q, &st, 0); }
	p.assumptions = { "a state is a set of shared objects (90 colours, 20 definitions, white points, curves) together with the last operations; the library is sequential, its only randomness is pinned", "the outcome of an operation as the first one of a process is its reference; what it should be is decided by the other properties" };
	static std::vector<int> core; core.clear(); for (size_t i = 0; i < n; ++i) if (OPS[i].core) core.push_back(i);
	static std::vector<int> some; some.clear();
	for (size_t i = 0; i < core.size(); ++i) if (i % 8 == 0 || OPS[core[i]].name.find("refused") == 0 || (p.thorough && i % 16 == 5)) some.push_back(core[i]);
	p.add("first", n, [](uint64_t ix, Case& k)
	{
		// twice in a row, and the refusals of the catalogue are refusals
		bool ref = OPS[ix].name.compare(0, 8, "refused:") == 0;
		k.eval(); k.state(mc::mix(ix, 1)); k.distinct(ix);
		if (BASE[ix].err == 9) { k.fail(S("crash:%s", kind(OPS[ix].name).c_str()), "'%s' ends the process", OPS[ix].name.c_str()); return; }
		if (ref != (BASE[ix].err == 1)) { k.fail(S("refusal:%s", kind(OPS[ix].name).c_str()), "'%s' %s", OPS[ix].name.c_str(), ref ? "is accepted" : "raises"); return; }
		process(k, OPS[ix].name, [&] { Walk w; for (int i = 0; i < 3; ++i) if (!w.step(ix)) return; unchanged_all(OPS[ix].name); });
	}, "every operation first in a process, then repeated");
	static std::vector<int> half; half.clear(); for (size_t i = 0; i < core.size(); ++i) if (i % 2 == 0 || OPS[core[i]].name.find("refused") == 0) half.push_back(core[i]);
	static std::vector<int> all; all.clear(); for (size_t i = 0; i < n; ++i) all.push_back(i);
	static std::vector<int>& second = p.thorough ? all : core;
	p.add("pairs", n, [=](uint64_t ix, Case& k)
	{
		// a, b1, a, b2, a, ...: a after every other operation and every other operation after a
		k.distinct(mc::mix(ix, 2));
		for (int b : second) k.state(mc::mix(mc::mix(ix, b), 2));
		process(k, OPS[ix].name, [&] { Walk w; if (!w.step(ix)) return; for (int b : second) { if (!w.step(b) || !w.step(ix)) return; if (b % 256 == 0 && !unchanged_all("'" + OPS[ix].name + "' and '" + OPS[b].name + "'")) return; } unchanged_all("'" + OPS[ix].name + "' and others"); });
		if (k.want_sample()) k.sample("'%s' before and after each of %d operations", OPS[ix].name.c_str(), (int)second.size());
	}, "every operation before and after every other (quick: every one of the core)", 8);
	static std::vector<int>& tr = p.thorough ? half : some;
	size_t m = tr.size();
	p.add("triples", m * m, [=](uint64_t ix, Case& k)
	{
		int a = tr[ix / m], b = tr[ix % m];
		k.distinct(mc::mix(ix, 3));
		for (size_t c = 0; c < m; ++c) k.state(mc::mix(mc::mix(mc::mix(a, b), tr[c]), 3));
		process(k, OPS[a].name, [&] { Walk w; for (size_t c = 0; c < m; ++c) if (!w.step(a) || !w.step(b) || !w.step(tr[c])) return; unchanged_all("'" + OPS[a].name + "' and '" + OPS[b].name + "'"); });
		if (k.want_sample()) k.sample("'%s', '%s', then each of %d operations", OPS[a].name.c_str(), OPS[b].name.c_str(), (int)m);
	}, "every triple of operations of a subset", 64);
	if (p.thorough)
	{
		static std::vector<int> four; four.clear(); for (size_t i = 0; i < some.size(); ++i) if (i % 3 == 0) four.push_back(some[i]);
		size_t q = four.size();
		p.add("quadruples", q * q * q, [=](uint64_t ix, Case& k)
		{
			int a = four[ix / q / q], b = four[ix / q % q], c = four[ix % q];
			k.distinct(mc::mix(ix, 4));
			for (size_t d = 0; d < q; ++d) k.state(mc::mix(mc::mix(mc::mix(mc::mix(a, b), c), four[d]), 4));
			process(k, OPS[a].name, [&] { Walk w; for (size_t d = 0; d < q; ++d) if (!w.step(a) || !w.step(b) || !w.step(c) || !w.step(four[d])) return; unchanged_all("four operations"); });
		}, "every quadruple of a smaller subset", 64);
	}
	static std::vector<int> sym2 = de_bruijn(NSYM, 2);
	// ways in which the operands of one operation come about, in every order
	static std::vector<int> walks[2] = { de_bruijn(p.thorough ? NVAR : NVAR3, p.thorough ? 3 : 2), de_bruijn(NVAR3, p.thorough ? 4 : 3) }, pairs = de_bruijn(NVAR, 2); static const int depth2 = p.thorough ? 3 : 2;
	p.add("operands", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT; int deep = t == RGB_DEEP || t == HSL || t == XYZ || t == LCH_AB; const std::vector<int>& walk2 = walks[deep];
		static Base* vb = nullptr; if (!vb) vb = (Base*)mmap(nullptr, sizeof(Base) * NVAR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::vector<OpR> o;
		for (int v = 0; v < NVAR; ++v) o.push_back({ q.name + S(" (%s, %s)", TN[t], VARN[v]), [&q, t, v](Res& r) { variant(q, t, v, r); }, false });
		for (int v = 0; v < NVAR; ++v)
		{
			pid_t z = fork();
			if (z == 0) { Res r; perform(o[v], r); Base& b = vb[v]; b.err = r.err; b.n = std::min<size_t>(r.v.size(), MAXV); memcpy(b.v, r.v.data(), b.n * sizeof(float)); _exit(0); }
			int st = 1; if (z < 0 || waitpid(z, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) { k.fail(S("crash:%s", q.name.c_str()), "'%s' ends the process", o[v].name.c_str()); return; }
		}
		k.distinct(mc::mix(ix, 5));
		process(k, q.name, [&]
		{
			Walk w; uint64_t h = mc::mix(ix, 5);
			for (size_t i = 0; i < walk2.size(); ++i) if (!w.step(o[walk2[i]], vb[walk2[i]])) return;
			for (int v : pairs) if (!w.step(o[v], vb[v])) return;
			(void)h; unchanged_all("'" + q.name + "' on changing operands");
		});
		for (uint64_t i = 0; i < ipow(NVAR, 2) + ipow(NVAR3, depth2 + deep); ++i) k.state(mc::mix(mc::mix(ix, i), 5));
	}, "every operation on colours, curves and definitions that come about in 34 ways, every ordered pair of ways in sequence, for 4 of the types every triple of the first 14 (thorough: triples and quadruples)", 4);
	p.add("given", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT, w = q.other ? (t + 4) % NT : t;
		// all colours with every component at an end or in the middle of its range, hues without saturation included
		auto side = [](int y, int j, float* c) { int z = NC[y] == 4 ? 2 : 3; for (int i = 0; i < NC[y]; ++i, j /= z) { int m = j % z; c[i] = m == 0 ? LO[y][i] : m == 1 && z == 3 ? LO[y][i] + 0.37f * (HI[y][i] - LO[y][i]) : HI[y][i]; } };
		auto count = [](int y) { int n = 1; for (int i = 0; i < NC[y]; ++i) n *= NC[y] == 4 ? 2 : 3; return n; };
		int n = count(t), m = count(w);
		process(k, q.name, [&]
		{
			std::vector<uint64_t> ref(n * m);
			for (int round = 0; round < 2; ++round) for (int z = 0; z < n * m; ++z)
			{
				int j = round ? n * m - 1 - z : z; static const float AL[] = { 1.f, 0.5f, 0.f, 1.f }; uint64_t h = mc::mix(j, 9); float c[4], e[4]; side(t, j % n, c); side(w, j / n, e); Def* d = D()[DI[h % 3]].lib;
				Col *a = make(t, c, AL[h / 4 % 4] * alpha_max(t), d), *b = make(w, e, AL[h / 16 % 4] * alpha_max(w), d); Snap sa(a), sb(b); Res r;
				try { q.f(r, t, a, b); } catch (...) { r.err = true; r.v.clear(); }
				OUT->trans++; uint64_t g = digest(r); if (!round) ref[j] = g;
				if (Snap(a) != sa || Snap(b) != sb) { bad(("given:" + q.name).c_str(), S("'%s' of %s left what it was given as %s and %s", q.name.c_str(), TN[t], desc(a).c_str(), desc(b).c_str())); return; }
				if (ref[j] != g) { bad(("again:" + q.name).c_str(), S("'%s' of %s and %s gives something else the second time, %s", q.name.c_str(), desc(a).c_str(), desc(b).c_str(), show(r.v.data(), r.v.size(), r.err).c_str())); return; }
				std::sort(r.own.begin(), r.own.end()); r.own.erase(std::unique(r.own.begin(), r.own.end()), r.own.end());
				for (Col* o : r.own) if (o != a && o != b) delete o;
				delete a; delete b;
			}
			unchanged_all("'" + q.name + "' on the ends of ranges");
		});
		k.distinct(mc::mix(ix, 8)); for (int i = 0; i < n * m; ++i) k.state(mc::mix(mc::mix(ix, i), 8));
	}, "every operation on every pair of colours whose components are at the ends or in the middle of their ranges, twice", 4);
	static const int NG = p.thorough ? 240 : 24; static const int LONG = 70000;
	p.add("floods", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT, N = NG * NSYM;
		static uint64_t* ref = nullptr; if (!ref) ref = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * 240 * NSYM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::vector<std::pair<Col*, Snap>> kept;
		auto one = [&](int j, bool reuse, bool first, const char* how)
		{
			Res r; flood(q, t, j / NSYM, j % NSYM, reuse, r); OUT->trans++; uint64_t h = digest(r);
			if (first) for (Col* c : r.own) kept.push_back({ c, Snap(c) });
			if (first) { ref[j] = h; return true; }
			if (ref[j] == h) return true;
			bad(("flood:" + q.name).c_str(), S("'%s' of %s number %d (%s) gives %s %s, something else in another order", q.name.c_str(), TN[t], j / NSYM, SYMN[j % NSYM], show(r.v.data(), r.v.size(), r.err).c_str(), how)); return false;
		};
		process(k, q.name, [&]
		{
			for (int j = 0; j < N; ++j) if (!one(j, false, true, "")) return;
			for (int j = 0; j < N; ++j) if (!one(j, false, false, "the second time")) return;
			// everything the first round was given and returned is what it was
			for (auto& c : kept) if (Snap(c.first) != c.second) { bad(("kept:" + q.name).c_str(), S("what '%s' of %s was given or had returned became %s after many more of the same", q.name.c_str(), TN[t], desc(c.first).c_str())); return; }
		});
		process(k, q.name, [&] { for (int j = N; j-- > 0;) if (!one(j, true, false, "in backward order")) return; for (int g = 0; g < NG; ++g) for (int s : sym2) if (!one(g * NSYM + s, (g & 1) != 0, false, "after a neighbour")) return; unchanged_all("many '" + q.name + "'"); });
		int reps = t == int((ix / NT) % NT) ? LONG : 1100;
		process(k, q.name, [&] { for (int i = 0; i < reps; ++i) if (!one(0, (i & 1) != 0, false, S("the %dth time", i + 1).c_str())) return; });
		k.distinct(mc::mix(ix, 6)); for (int i = 0; i < N * NSYM; ++i) k.state(mc::mix(mc::mix(ix, i), 6));
	}, "every operation on many operands that differ by little or much, forward, backward, every ordered pair of 20 neighbours, and 1,100 to 70,000 times on one operand", 4);
	printf("catalogue %d operations, core %d, subset %d\n", (int)n, (int)core.size(), (int)some.size());
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
