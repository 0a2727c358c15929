// C29: memory safety. Library and explorer are built with address and undefined behaviour checking; memory that is
// handed out is filled with a pattern first. Operands, results and containers are destroyed in every order.
#include <algorithm>
#include <cfloat>
#include <climits>
#include <functional>
#include <limits>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "kinds.h"
#include "named.h"
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:detect_stack_use_after_return=0:symbolize=0:malloc_context_size=0:handle_abort=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }
static unsigned char FILL = 0;
static const unsigned char FILLS[4] = { 0x00, 0x3f, 0xff, 0x42 };
// fresh memory and the stack below hold a pattern, so that a result that depends on it shows
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, FILL, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
__attribute__((noinline, no_sanitize("address"))) static void stain() { volatile unsigned char b[24000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = FILL; }
static void fill(int i) { FILL = FILLS[i & 3]; stain(); }

struct Out { int failed; char key[150]; char msg[700]; char now[300]; uint64_t trans, evals, refused; };
static Out* OUT;
static void bad(const std::string& key, const std::string& m) { if (OUT->failed) return; OUT->failed = 1; snprintf(OUT->key, sizeof OUT->key, "%s", key.c_str()); snprintf(OUT->msg, sizeof OUT->msg, "%s", m.c_str()); }
static void now(const std::string& s) { snprintf(OUT->now, sizeof OUT->now, "%s", s.c_str()); }
// in a process of its own, whose first complaint is the message
template <class F> static void guarded(Case& k, const std::string& what, F f)
{
	if (!OUT) OUT = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(OUT, 0, sizeof(Out)); fflush(stdout); fflush(stderr);
	int m = memfd_create("report", 0);
	pid_t p = fork();
	if (p == 0) { if (m >= 0) dup2(m, 2); f(); _exit(0); }
	int st = 0; if (p < 0 || waitpid(p, &st, 0) < 0) { k.fail("fork", "no process"); return; }
	k.transition(OUT->trans); k.trace(); k.eval(OUT->evals); k.raised(OUT->refused);
	if (!WIFEXITED(st) || WEXITSTATUS(st))
	{
		std::string rep; char b[4096]; ssize_t n; if (m >= 0) { lseek(m, 0, SEEK_SET); while ((n = read(m, b, sizeof b)) > 0 && rep.size() < 60000) rep.append(b, n); }
		std::string line = S("the process ended with %d", st), cls = "died";
		size_t q = rep.find("runtime error: "), e = rep.find("AddressSanitizer: ");
		if (q != std::string::npos) { line = rep.substr(q, 200); cls = "undefined"; } else if (e != std::string::npos) { line = rep.substr(e, 120); cls = rep.substr(e + 18, 40); cls = cls.substr(0, cls.find(' ')); }
		else if (!rep.empty()) line += ": " + rep.substr(0, 200);
		line = line.substr(0, line.find('\n'));
		k.fail(cls + ":" + what.substr(0, 80), "%s%s%s: %s", what.c_str(), OUT->now[0] ? ", " : "", OUT->now, line.c_str());
	}
	else if (OUT->failed) k.fail(OUT->key, "%s", OUT->msg);
	if (m >= 0) close(m);
}
static std::vector<uint32_t> bits(const std::vector<float>& v) { std::vector<uint32_t> o; for (float f : v) { uint32_t u; memcpy(&u, &f, 4); o.push_back(f != f ? 0x7fc00000u : u); } return o; }
static std::set<const void*> SHARED;
static std::vector<Col*> mine(Res& r, std::initializer_list<Col*> not_these = {})
{
	std::set<Col*> s; for (Col* c : r.own) if (c && !SHARED.count(c)) s.insert(c);
	for (Col* c : r.ops) s.erase(c);
	for (Col* c : not_these) s.erase(c);
	return std::vector<Col*>(s.begin(), s.end());
}
// all colours with every component at an end or in the middle of its range
static int sides(int y, bool ends) { int z = ends || NC[y] == 4 ? 2 : 3, n = 1; for (int i = 0; i < NC[y]; ++i) n *= z; return n; }
static void span(int t, int i, float& lo, float& hi) { range_of(t, i, lo, hi); if (t == XYZ || (t == XYY && i == 2)) hi = 1; }
static void side(int y, int j, float* c, bool ends) { int z = ends || NC[y] == 4 ? 2 : 3; for (int i = 0; i < NC[y]; ++i, j /= z) { int m = j % z; float lo, hi; span(y, i, lo, hi); c[i] = m == 0 ? lo : m == 1 && z == 3 ? lo + 0.37f * (hi - lo) : hi; } }

static std::string alive(const char* when, const std::string& what, const std::vector<std::pair<Col*, Snap>>& live)
{
	for (auto& p : live)
	{
		OUT->evals++;
		if (Snap(p.first) != p.second) return what + ": after " + when + " a colour reads " + desc(p.first);
		Col* q = conv(p.first, (p.second.t + 4) % NT); if (q && q != p.first) delete q;
	}
	return "";
}
static bool hands_back(const std::string& n) { for (const char* p : { "saturate in hsl", "luminate in hsl", "triplet", "quartet", "quintet", "combination", "analogous", "split", "monochromatic", "adapt " }) if (n.compare(0, strlen(p), p) == 0) return true; return false; }
// one operation on two colours of its own; everything that lives is destroyed in one of the 24 orders and the rest used in between
static void lifetime(const Kind2& q, int t, int w, const float* c, const float* e, float ca, float ea, Def* d, int order, int f, bool self)
{
	fill(f); PS = order % 7;
	Col* a = make(t, c, ca, d); Col* b = self ? a : make(w, e, ea, d);
	now(S("on %s and %s, order %d", desc(a).c_str(), self ? "itself" : desc(b).c_str(), order));
	Res r[2];
	for (int i = 0; i < 2; ++i) { fill(f + i); try { q.f(r[i], t, a, b); } catch (...) { r[i].err = true; r[i].v.clear(); } OUT->trans++; OUT->evals++; if (r[i].err) OUT->refused++; }
	std::string what = "'" + q.name + "' of " + desc(a) + " and " + desc(b);
	if (r[0].err != r[1].err || bits(r[0].v) != bits(r[1].v)) { bad("memory:" + q.name, what + " depends on what fresh memory holds"); return; }
	std::vector<Col*> g[4]; g[0] = { a }; if (!self) g[1] = { b };
	g[2] = mine(r[0], { a, b }); g[3] = mine(r[1], { a, b });
	for (Col* x : g[2]) for (Col* y : g[3]) if (x == y) { bad("shared:" + q.name, what + " returns the same object twice"); return; }
	for (Res& x : r) for (Col* y : x.own) if ((y == a || y == b) && !hands_back(q.name)) { bad("alias:" + q.name, what + " returns an operand instead of a colour of its own"); return; }
	r[0] = Res(); r[1] = Res();
	std::vector<std::pair<Col*, Snap>> live; for (auto& v : g) for (Col* x : v) live.push_back({ x, Snap(x) });
	int p[4] = { 0, 1, 2, 3 }; for (int i = 0, o = order; i < 3; ++i) { int n = 4 - i; std::rotate(p + i, p + i + o % n, p + i + o % n + 1); o /= n; }
	static const char* N[4] = { "the first operand", "the second operand", "the first result", "the second result" };
	for (int i = 0; i < 4; ++i)
	{
		for (Col* x : g[p[i]]) { live.erase(std::find_if(live.begin(), live.end(), [x](const std::pair<Col*, Snap>& l) { return l.first == x; })); delete x; OUT->trans++; }
		if (g[p[i]].empty()) continue;
		stain();
		std::string s = alive((std::string(N[p[i]]) + " was destroyed").c_str(), what, live); if (!s.empty()) { bad("lifetime:" + q.name, s); return; }
	}
}
static const float INF_ = std::numeric_limits<float>::infinity();
static void build(Plan& p)
{
	p.property = "C29"; p.level = "model_checking";
	p.rule = "every operation, operand, order of destruction and content of fresh memory of the spaces below runs on the real code under the monitors; the first complaint of a monitor or difference of an outcome ends the case";
	setup(); catalogue(); kinds(); twins();
	for (int t = 0; t < NT; ++t) { for (int v = 0; v < NV; ++v) { SHARED.insert(A_[t][v]); SHARED.insert(B_[t][v]); } for (Col* c : { Q_[t], Q2_[t], MA_[t], MB_[t], P_[t], P2_[t] }) SHARED.insert(c); }
	SHARED.insert(buf_col); SHARED.insert(buf_col2);
	p.assumptions = { "address and undefined behaviour checking of clang report every access outside living objects and every undefined operation of the instrumented code", "definitions, white points, gamma curves and their parts belong to the caller and live as long as what refers to them; an operation that returns its operand itself hands back the operand" };
	p.add("catalogue", OPS.size(), [](uint64_t ix, Case& k)
	{
		k.distinct(ix); k.state(mc::mix(ix, 1));
		guarded(k, OPS[ix].name, [&]
		{
			std::vector<uint32_t> first; bool err = false;
			for (int i = 0; i < 4; ++i)
			{
				fill(i); Res r; perform(OPS[ix], r); OUT->trans++; OUT->evals++; if (r.err) OUT->refused++;
				if (!i) { first = bits(r.v); err = r.err; }
				else if (err != r.err || bits(r.v) != first) { bad("memory", "'" + OPS[ix].name + "' depends on what fresh memory holds"); return; }
				for (Col* c : mine(r)) delete c;
			}
		});
	}, "every operation of the catalogue over four patterns of fresh memory, its results destroyed each time", 8);
	static const bool deep = p.thorough;
	p.add("lifetimes", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT, w = q.other ? (t + 4) % NT : t;
		k.distinct(mc::mix(ix, 2));
		guarded(k, q.name + " " + TN[t], [&]
		{
			for (int z = 0; z < (deep ? 6 : 2); ++z) for (int o = 0; o < 24; ++o)
			{
				float c[4], e[4]; values(t, z, c); values(w, (z + 3) % 6, e);
				lifetime(q, t, w, c, e, al(z) * alpha_max(t), al((z + o) % 6) * alpha_max(w), D()[DI[z % 3]].lib, o, z + o, false);
				if (t == w && o % 4 == 0) lifetime(q, t, w, c, c, al(z) * alpha_max(t), 0, D()[DI[z % 3]].lib, o, z + o, true);
				if (OUT->failed) return;
			}
		});
		for (int i = 0; i < (deep ? 6 : 2) * 24; ++i) k.state(mc::mix(mc::mix(ix, i), 2));
	}, "every operation twice on two colours of its own; operands and results are destroyed in every order and what is left is used in between", 4);
	p.add("ends", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT, w = q.other ? (t + 4) % NT : t, n = sides(t, !deep), m = sides(w, !deep);
		k.distinct(mc::mix(ix, 3));
		guarded(k, q.name + " " + TN[t], [&]
		{
			static const float AL[] = { 1.f, 0.5f, 0.f, 1.f };
			for (int z = 0; z < n * m; ++z)
			{
				uint64_t h = mc::mix(z, 9); float c[4], e[4]; side(t, z % n, c, !deep); side(w, z / n, e, !deep);
				lifetime(q, t, w, c, e, AL[h / 4 % 4] * alpha_max(t), AL[h / 16 % 4] * alpha_max(w), D()[DI[h % 3]].lib, h / 64 % 24, h / 4096, false);
				if (OUT->failed) return;
			}
		});
		for (int i = 0; i < n * m; ++i) k.state(mc::mix(mc::mix(ix, i), 3));
	}, "every operation on every pair of colours whose components are at the ends of their ranges (thorough: or in the middle)", 4);
	p.add("hues", KINDS.size() * 6, [](uint64_t ix, Case& k)
	{
		static const int T[6] = { HSI, HSV, HSL, HCY, LCH_AB, LCH_UV };
		const Kind2& q = KINDS[ix / 6]; int t = T[ix % 6], w = q.other ? (t + 4) % NT : t, hc = is_lch(t) ? 2 : 0, n = 13 * 3 * 4; k.distinct(mc::mix(ix, 8));
		guarded(k, q.name + " " + TN[t], [&]
		{
			for (int z = 0; z < n * (deep ? 8 : 1); ++z)
			{
				uint64_t h = mc::mix(mc::mix(ix, z), 8); float c[4], e[4]; int f = 0; static const float Q[2][4] = { { 0.5f, 1.f, 0.f, 0.3f }, { 0.5f, 1.f, 0.f, 0.25f } };
				for (int i = 0; i < 3; ++i) { float lo, hi; span(t, i, lo, hi); if (i == hc) c[i] = z % 13 == 12 ? 359.f : z % 13 * 30.f; else { c[i] = lo + (hi - lo) * (f ? Q[1][z / 39 % 4] : Q[0][z / 13 % 3]); f = 1; } }
				if (h % 2) values(w, h / 4 % 6, e); else side(w, h / 64 % sides(w, false), e, false);
				lifetime(q, t, w, c, e, alpha_max(t), al(h / 256 % 6) * alpha_max(w), D()[DI[h / 4096 % 3]].lib, h / 16384 % 24, h / 524288, false);
				if (OUT->failed) return;
			}
		});
		for (int i = 0; i < n * (deep ? 8 : 1); ++i) k.state(mc::mix(mc::mix(ix, i), 8));
	}, "every operation on colours at every border of a sector of hues", 4);
	p.add("chains", KINDS.size() * NT, [](uint64_t ix, Case& k)
	{
		// the results of one operation are the operands of another when what they were made from is gone
		const Kind2& q = KINDS[ix / NT]; int t = ix % NT, w = q.other ? (t + 4) % NT : t; k.distinct(mc::mix(ix, 7));
		if (q.name.compare(0, 3, "to ") == 0 && q.name.size() > 3) return; // the other direction of a conversion
		guarded(k, q.name + " " + TN[t], [&]
		{
			for (size_t j = 0; j < KINDS.size(); ++j) for (int z = 0; z < (deep ? 4 : 1); ++z)
			{
				uint64_t h = mc::mix(ix, j * 8 + z); float c[4], e[4]; fill(h); PS = 0;
				if (h % 4) { values(t, h / 4 % 6, c); values(w, h / 32 % 6, e); } else { side(t, h / 4 % sides(t, true), c, true); side(w, h / 64 % sides(w, true), e, true); }
				Def* d = D()[DI[h / 4096 % 3]].lib; Col *a = make(t, c, alpha_max(t) * al(h / 256 % 6), d), *b = make(w, e, alpha_max(w), d);
				now(S("then %s of %s and %s", KINDS[j].name.c_str(), desc(a).c_str(), desc(b).c_str()));
				Res r; try { q.f(r, t, a, b); } catch (...) {} OUT->trans++;
				std::vector<Col*> x = mine(r, { a, b }); r = Res(); if (x.empty()) { delete a; delete b; if (z == 0 && j == 0) return; continue; }
				std::sort(x.begin(), x.end(), [](Col* m, Col* n) { return hcol(m) < hcol(n); });
				Col *y = x[h / 1024 % x.size()], *y2 = clone(y); for (Col* v : x) if (v != y) delete v;
				int u = Snap(y).t, u2 = KINDS[j].other ? (u + 4) % NT : u; values(u2, h / 2048 % 6, e); Col* o = make(u2, e, alpha_max(u2), y->get_rgb_color_space());
				Res r1, r2; PS = z * 2; try { KINDS[j].f(r1, u, y, o); } catch (...) { r1.err = true; r1.v.clear(); }
				delete a; delete b; stain(); fill(h / 2);
				try { KINDS[j].f(r2, u, y2, o); } catch (...) { r2.err = true; r2.v.clear(); } OUT->trans += 2; OUT->evals++;
				if (r1.err != r2.err || bits(r1.v) != bits(r2.v)) { bad("chain:" + KINDS[j].name, "'" + KINDS[j].name + "' of a result of '" + q.name + "' depends on whether that is a copy, on fresh memory or on the operands of the first: " + desc(y)); return; }
				std::vector<Col*> m1 = mine(r1, { y, o }), m2 = mine(r2, { y2, o }); r1 = Res(); r2 = Res(); delete y; delete o; delete y2; stain();
				for (auto* m : { &m1, &m2 }) { for (Col* v : *m) { Col* l = conv(v, (Snap(v).t + 7) % NT); if (l != v) delete l; } for (Col* v : *m) delete v; }
			}
		});
		for (int i = 0; i < (int)KINDS.size() * (deep ? 4 : 1); ++i) k.state(mc::mix(mc::mix(ix, i), 7));
	}, "a result of every operation on every type is the operand of every operation; what it was made from is destroyed, outcomes equal those for a copy", 4);
	p.add("values", NT * 15, [](uint64_t ix, Case& k)
	{
		// whatever is given to constructors and setters; then every conversion
		int t = ix % NT, v = ix / NT; k.distinct(mc::mix(ix, 4));
		guarded(k, std::string("making ") + TN[t], [&]
		{
			static const float X[15] = { NAN, 0.f, -0.f, 1.f, 255.f, 360.f, -1.f, 1e10f, -1e10f, FLT_MAX, -FLT_MAX, INF_, -INF_, 1e-40f, 256.5f }; uint64_t n = 1; for (int i = 1; i < NC[t]; ++i) n *= 15;
			for (uint64_t z = 0; z < n; ++z)
			{
				float c[4] = { X[v] }; uint64_t y = z; for (int i = 1; i < NC[t]; ++i, y /= 15) c[i] = X[y % 15];
				fill(z); Col* a = make(t, c, X[(z + v) % 15], D()[DI[z % 3]].lib); OUT->trans++;
				now(S("from %g %g %g", c[0], c[1], c[2]));
				for (int i = 0; i < NC[t]; ++i) { set_named(a, t, i, c[(i + 1) % NC[t]]); a->get_component(i); } a->alpha(X[(z + 5) % 15]);
				if (z % 7 == 0) for (int u = 0; u < NT; ++u) { Col* b = conv(a, u); OUT->evals++; if (b != a) delete b; }
				delete a;
			}
		});
	}, "every type made from and set to every combination of values up to the largest floats and infinities");
	p.add("matrices", 25 * 25, [](uint64_t ix, Case& k)
	{
		int r1 = ix % 5 + 1, c1 = ix / 5 % 5 + 1, r2 = ix / 25 % 5 + 1, c2 = ix / 125 % 5 + 1; k.distinct(mc::mix(ix, 5)); k.state(mc::mix(ix, 5));
		guarded(k, S("matrices %dx%d and %dx%d", r1, c1, r2, c2), [&]
		{
			std::vector<uint32_t> first;
			for (int f = 0; f < 4; ++f)
			{
				fill(f); std::vector<float> o; typedef matrix<float> M;
				auto note = [&](const M& x) { o.push_back(x.rows()); o.push_back(x.columns()); o.push_back(x.size()); for (auto& w : x.values()) for (float y : w) o.push_back(y); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.columns(); ++j) o.push_back(x(i, j)); OUT->trans++; OUT->evals++; };
				auto data = [](int n, int s) { std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back((i * 7 + s) % 5 - 1.5f); return v; };
				auto may = [&](const char* n, std::function<void()> g) { now(n); try { g(); } catch (...) { o.push_back(-7); OUT->refused++; } };
				M *a = new M(r1, c1, data(r1 * c1, 1)), *b = new M(r2, c2, data(r2 * c2, 2));
				note(M(r1, c1)); note(M(r1, c1, 3.f)); note(M(r1)); note(M(r1, data(r1 * r1, 3))); note(M()); note(M::create_idendity(r1));
				may("a sum", [&] { note(*a + *b); }); may("a difference", [&] { note(*a - *b); }); may("a product", [&] { note(*a * *b); });
				may("sums in place", [&] { M x(*a); x += *b; note(x); x -= *b; note(x); }); may("a product in place", [&] { M x(*a); x *= *b; note(x); });
				may("scalars", [&] { note(*a + 2.f); note(*a - 2.f); note(*a * 2.f); note(*a / 2.f); });
				for (int n = 0; n < 7; ++n) { may("a vector", [&] { auto v = *a * data(n, 4); for (float x : v) o.push_back(x); }); may("construction from data", [&] { note(M(r1, c1, data(n, 5))); }); may("filling", [&] { M x(*a); auto v = data(n, 6); note(x.insert(v)); note(x.fill(n)); }); }
				may("algebra", [&] { note(a->transpose()); o.push_back(a->determinante()); note(a->adjoint()); note(a->invert()); });
				for (int i = -2; i < 7; ++i) { now(S("index %d", i)); o.push_back(a->is_row_null(i)); o.push_back(a->is_column_null(i)); for (int j = -2; j < 7; ++j) { now(S("index %d, %d", i, j)); o.push_back(a->are_rows_equal(i, j)); o.push_back(a->are_columns_equal(i, j)); may("an index", [&] { o.push_back((*a)(i, j)); }); may("an index of a constant", [&] { const M& x = *a; o.push_back(x(i, j)); }); } }
				may("resizing", [&] { M x(*a); note(x.resize(r2, c2, 4.f)); note(x.resize(r1, c1, 5.f)); });
				may("assignments", [&] { M x; x = *a; note(x); x = *b; note(x); x = x; note(x); M* y = new M(x); x = *a; note(*y); *y = x; x = *b; note(*y); delete y; note(x); o.push_back(x == *b); o.push_back(x == *a); });
				M c(*a), d = a->transpose(), e = a->invert(); delete a; note(c); note(d); note(e); may("what is left", [&] { note(c * d); note(*b); }); delete b; note(d); note(c.transpose());
				if (!f) first = bits(o); else if (bits(o) != first) { bad("memory:matrix", S("an outcome of matrices %dx%d and %dx%d depends on what fresh memory holds", r1, c1, r2, c2)); return; }
			}
		});
	}, "every operation on matrices of every pair of shapes to 5x5, with vectors, lists and indices of every size around; copies outlive what they were copied from");
	p.add("owners", 10, [](uint64_t ix, Case& k)
	{
		k.distinct(mc::mix(ix, 6)); k.state(mc::mix(ix, 6));
		guarded(k, S("owners %d", (int)ix), [&]
		{
			// what presets hand out outlives them; copies of definitions, curves and parts outlive the originals
			std::vector<uint32_t> first;
			for (int f = 0; f < 4; ++f)
			{
				fill(f); std::vector<float> o; auto col = [&](Def* d) { for (int t = 0; t < NT; ++t) { float c[4]; values(t, 1, c); Col *a = make(t, c, alpha_max(t), d), *b = conv(a, (t + 4) % NT), *e = conv(a, XYZ); for (float x : b->get_component_vector()) o.push_back(x); for (float x : e->get_component_vector()) o.push_back(x); if (e != a) delete e; delete a; delete b; OUT->trans++; OUT->evals++; } };
				auto curve = [&](cs::gamma* g) { for (float x : { 0.f, 0.001f, 0.02f, 0.3f, 0.7f, 1.f }) { o.push_back(g->gamma_correction(x)); o.push_back(g->inverse_gamma_correction(x)); } OUT->trans++; OUT->evals++; };
				switch (ix)
				{
				case 0: for (int i = 0; i < ref::NPRESETS; ++i) { now(ref::PRESETS[i].name); Def* d = ref::PRESETS[i].get(); stain(); col(d); Def* e = new Def(*d); delete d; stain(); col(e); e->set_white_point(WPT[2]); e->set_gamma_curve(GAM[1]); col(e); delete e; } break;
				case 1: for (int i = 0; i < 8; ++i) { cs::gamma* g = ref::lib_curve(i); curve(g); cs::gamma* h = new cs::gamma(*g); delete g; stain(); curve(h); cs::gamma* j = new cs::gamma(); *j = *h; delete h; curve(j); *j = *j; curve(j); delete j; } break;
				case 2: for (int i = 0; i < ref::NWHITES; ++i) { cs::white_point* w = ref::WHITES[i].get(); cs::white_point* v = new cs::white_point(*w); for (float x : v->get_tristimulus()) o.push_back(x); delete w; stain(); for (float x : v->get_chromaticity_coordinate()) o.push_back(x); delete v; OUT->trans++; OUT->evals++; } break;
				case 3:
				{
					// lists of parts are the caller's
					for (int n = 0; n < 4; ++n) for (int rm = 0; rm <= n; ++rm)
					{
						std::vector<cs::gamma_part*>* l = new std::vector<cs::gamma_part*>; for (int i = 0; i < n; ++i) l->push_back(new cs::gamma_part([i](float x) { return x * (i + 1); }, 0.9f - 0.3f * i));
						std::vector<cs::gamma_part*> all = *l; cs::gamma* g = new cs::gamma(*l, *l); delete l; curve(g);
						cs::gamma* h = new cs::gamma(); h->set_gamma_curve_parts(all); h->set_inverse_gamma_curve_parts(all); curve(h);
						if (rm < n) { auto z = g->get_gamma_curve_parts(); g->remove_gamma_curve_part(z.begin() + rm); auto y = g->get_inverse_gamma_curve_parts(); g->remove_inverse_gamma_curve_part(y.begin() + rm); curve(g); g->add_gamma_curve_part(all[0]); g->add_inverse_gamma_curve_part(all[0]); curve(g); }
						o.push_back(*g == *h); o.push_back(*g != *h); delete g; curve(h);
						for (auto* q : all) { cs::gamma_part* c = new cs::gamma_part(*q); cs::gamma_part* e = new cs::gamma_part(); *e = *c; o.push_back(*c == *e); o.push_back(*c < *e); delete c; o.push_back(e->get_gamma_function()(0.5f)); delete e; }
						delete h; for (auto* q : all) delete q;
					}
					break;
				}
				case 4:
				{
					// functions and lists given for one call
					for (int t = 0; t < NT; ++t)
					{
						float c[4]; values(t, 1, c); Col* a = make(t, c, alpha_max(t), D()[0].lib); values(t, 2, c); Col* b = make(t, c, alpha_max(t), D()[0].lib); stain();
						float* w = new float(0.25f); std::function<float(float, float)>* fn = new std::function<float(float, float)>([w](float s, float d) { return s * *w + d; });
						Col* r = CB::custom_componentwise_blend(a, b, true, true, *fn); delete fn; delete w; stain(); for (float x : r->get_component_vector()) o.push_back(x); if (r != a && r != b) delete r;
						for (int n = 1; n < 40; n = n * 2 + 1) { std::vector<Col*>* l = new std::vector<Col*>; for (int i = 0; i < n; ++i) l->push_back(i % 3 ? a : b); Col* m = average(t, *l, true); delete l; stain(); for (float x : m->get_component_vector()) o.push_back(x); if (m != a && m != b) delete m; OUT->trans++; OUT->evals++; }
						delete a; delete b;
					}
					break;
				}
				case 5:
				{
					// an adapted colour and its definition do not depend on the source colour or the white point object of the call
					for (int t = 0; t < NT; ++t) for (auto& q : KINDS) if (q.name.compare(0, 6, "adapt ") == 0) { float c[4]; values(t, 1, c); Col* a = make(t, c, alpha_max(t), D()[1].lib); Res r; q.f(r, t, a, a); r.own.erase(std::remove(r.own.begin(), r.own.end(), a), r.own.end()); delete a; stain(); for (Col* x : r.own) { for (int u = 0; u < NT; ++u) { Col* y = conv(x, u); for (float z : y->get_component_vector()) o.push_back(z); if (y != x) delete y; } delete x; } OUT->trans++; OUT->evals++; }
					break;
				}
				case 6:
				{
					// strings given for one call: all of length 0 to 2 and all lengths to 12 of some characters
					std::vector<std::string> z = { "" }; for (int i = 1; i < 256; ++i) { z.push_back(std::string(1, (char)i)); for (char e : { '#', '0', 'f', 'G', ' ', (char)200 }) { z.push_back(std::string(1, (char)i) + e); z.push_back(std::string("#12345") + (char)i + e); } }
					for (int n = 3; n <= 12; ++n) for (char e : { '#', '0', 'f', 'F', 'g', '-', 'x' }) { z.push_back(std::string(n, e)); z.push_back("#" + std::string(n, e)); }
					for (auto& q : z) { std::string* h = new std::string(q); now("a hex string of length " + std::to_string(q.size())); try { cs::rgb_truecolor* c = new cs::rgb_truecolor(*h, D()[0].lib); delete h; stain(); for (float x : c->get_component_vector()) o.push_back(x); o.push_back(c->alpha()); delete c; } catch (...) { o.push_back(-7); OUT->refused++; } OUT->trans++; OUT->evals++; }
					for (int v : { 0, 1, -1, INT_MAX, INT_MIN, 0xffffff, 0x1000000, 0x7fffff }) { try { cs::rgb_truecolor c(v, D()[0].lib); for (float x : c.get_component_vector()) o.push_back(x); o.push_back(c.alpha()); } catch (...) { o.push_back(-7); } OUT->trans++; }
					break;
				}
				case 8:
				{
					// adjustments, also by nothing, of a colour of the heap
					typedef Col* (*Adj)(Col*, float); typedef void (*AdjR)(Col&, float);
					static const Adj F[4] = { AD::saturate_in_rgb_space, AD::saturate_in_hsl_space, AD::luminate_in_rgb_space, AD::luminate_in_hsl_space };
					static const AdjR G[4] = { AD::saturate_in_rgb_space, AD::saturate_in_hsl_space, AD::luminate_in_rgb_space, AD::luminate_in_hsl_space };
					for (int t = 0; t < NT; ++t) for (int v = 0; v < 3; ++v) for (int i = 0; i < 4; ++i) for (float m : { 0.f, -0.f, 1.f, -1.f, 0.5f, -1e-9f })
					{
						float c[4]; values(t, v, c); Col *a = make(t, c, alpha_max(t), D()[DI[v]].lib), *x = clone(a); now(S("adjustment %d by %g of %s", i, m, desc(a).c_str()));
						G[i](*a, m); stain(); Col* y = F[i](x, m); for (Col* z : { a, x, y }) for (float w : z->get_component_vector()) o.push_back(w);
						if (y != x) delete y; for (float w : x->get_component_vector()) o.push_back(w); delete x; G[i](*a, m); for (float w : a->get_component_vector()) o.push_back(w); delete a; OUT->trans += 3; OUT->evals++;
					}
					break;
				}
				case 9:
				{
					// definitions are copied, given other white points and curves, and destroyed; their parts stay
					auto& pr = ref::PRESETS[0];
					static const float W[5][3] = { { 0.95f, 1.f, 1.08f }, { 95.f, 100.f, 108.f }, { 0.9f, 0.5f, 0.3f }, { 1.f, 1.f, 1.f }, { 1.1f, 0.f, 0.2f } };
					for (int i = 0; i < 5; ++i) for (int g = 0; g < 4; ++g) for (int how = 0; how < 6; ++how)
					{
						auto w = [&](int n) { return n % 2 ? new cs::white_point(W[n % 5][0], W[n % 5][1], W[n % 5][2]) : new cs::white_point(W[n % 5][0], W[n % 5][1], W[n % 5][2], 0.3127f, 0.329f); };
						cs::white_point *a = w(i), *b = w(i + 1); cs::gamma* c = g == 3 ? new cs::gamma() : ref::lib_curve(g); cs::gamma* e = new cs::gamma(*c); now(S("white point %d, curve %d, %d", i, g, how));
						auto read = [&] { for (auto* z : { a, b }) { for (float y : z->get_tristimulus()) o.push_back(y); for (float y : z->get_chromaticity_coordinate()) o.push_back(y); } curve(c); curve(e); };
						Def* d = new Def(pr.prim[0], pr.prim[1], pr.prim[2], pr.prim[3], pr.prim[4], pr.prim[5], a, c);
						if (how == 0) { Def* f = new Def(*d); delete f; } else if (how == 1) { Def* f = new Def(*d); delete d; d = f; } else if (how == 2) { d->set_white_point(b); d->set_gamma_curve(e); } else if (how == 3) { Def* f = new Def(*d); f->set_white_point(b); f->set_gamma_curve(e); delete f; } else if (how == 4) { d->set_white_point(a); d->set_gamma_curve(c); } else { *d = *d; Def* f = new Def(*d); *f = *d; delete f; }
						stain(); read(); if (W[i][1] > 0 && W[(i + 1) % 5][1] > 0) col(d); delete d; stain(); read();
						Def* h = new Def(pr.prim[0], pr.prim[1], pr.prim[2], pr.prim[3], pr.prim[4], pr.prim[5], b, e); col(h); delete h; read(); delete a; delete b; delete c; delete e;
					}
					// curves with one list only, or none: copies, assignments and what is handed out
					for (int n = 0; n < 3; ++n) for (int m = 0; m < 3; ++m) for (int how = 0; how < 5; ++how)
					{
						std::vector<cs::gamma_part*> l, k; for (int i = 0; i < n; ++i) l.push_back(new cs::gamma_part([i](float x) { return x * (i + 1); }, 0.9f - 0.3f * i)); for (int i = 0; i < m; ++i) k.push_back(new cs::gamma_part([i](float x) { return x * (i + 2); }, 0.5f + 0.3f * i));
						cs::gamma* g = new cs::gamma(l, k); now(S("a curve of %d and %d parts, %d", n, m, how));
						if (how == 0) { cs::gamma* h = new cs::gamma(*g); delete h; } else if (how == 1) { cs::gamma* h = new cs::gamma(*g); delete g; g = h; } else if (how == 2) { cs::gamma* h = new cs::gamma(); *h = *g; delete g; g = h; } else if (how == 3) { cs::gamma h(l, k); h = cs::gamma(); g->set_gamma_curve_parts(k); g->set_inverse_gamma_curve_parts(l); } else { cs::gamma h = *g; *g = cs::gamma(); h = *g; g->set_gamma_curve_parts(l); }
						stain(); curve(g); delete g; stain(); for (auto* z : { &l, &k }) { for (auto* q : *z) { o.push_back(q->get_upper_border()); o.push_back(q->get_gamma_function()(0.3f)); } }
						cs::gamma* h = new cs::gamma(l, k); curve(h); delete h; for (auto* z : { &l, &k }) for (auto* q : *z) delete q;
					}
					break;
				}
				case 7:
				{
					// copies and assignments among colours of the heap: the source goes first
					for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u)
					{
						float c[4]; values(t, 1, c); Col* a = make(t, c, alpha_max(t), D()[0].lib); Col* b = clone(a); Col* e = from_base(t, *a); values(t, 2, c); Col* g = make(t, c, 0, D()[1].lib); assign(g, a);
						Col* h = conv(a, u); assign(g, g); cs::color_base s = *a + *b; delete a; stain();
						for (Col* x : { b, e, g }) for (float y : x->get_component_vector()) o.push_back(y); for (float y : s.get_component_vector()) o.push_back(y);
						if (t != u) { for (float y : h->get_component_vector()) o.push_back(y); delete h; }
						b->do_gamma_correction(); e->do_inverse_gamma_correction(); g->alpha_multiply(); g->alpha_divide(); o.push_back(*b == *e); delete b; delete e; for (float y : g->get_component_vector()) o.push_back(y); delete g; OUT->trans++; OUT->evals++;
					}
					break;
				}
				}
				if (!f) first = bits(o); else if (bits(o) != first) { size_t i = 0; auto g = bits(o); while (i < g.size() && i < first.size() && g[i] == first[i]) ++i; bad("memory:owners", S("outcome %zu of owners %d depends on what fresh memory holds", i, (int)ix)); return; }
			}
		});
	}, "presets, definitions, curves, parts, white points, lists, functions and strings are destroyed as soon as the caller may");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
