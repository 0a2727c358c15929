// C28: operations in two threads do not interfere, whatever the interleaving.
// Every operation of the catalogue first runs alone, recording which memory outside of its own it reads and writes. Two
// operations of which neither writes what the other one touches commute step by step: all their interleavings are one
// equivalence class, of which the run alone is a member. Every other pair has its interleavings executed, under a
// scheduler that changes threads at accesses to the memory both touch, up to a number of changes.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include <unordered_map>
#include <time.h>
#include "catalogue.h"
#include "race.h"
static std::vector<int> PICK;   // operations that do not change what the explorer itself shares
static race::Access* ACC;       // per operation
struct Cnt { double start; uint64_t schedules, steps, violations, capped, hung; race::Found found; };
static Cnt* CNT;
static bool p_thorough;
static double clock_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool enough() { return CNT->violations >= 40 || clock_s() - CNT->start > (p_thorough ? 3000 : 300); }
struct One { int op; bool ok; Res* r; };
static void run_one(void* v) { One* o = (One*)v; perform(OPS[o->op], *o->r); }
static bool quiet_name(const std::string& n) { for (const char* x : { "reused storage", "after changing", "definition " }) if (n.find(x) != std::string::npos) return false; return true; }
struct Msg { int bad; int st; uint64_t steps; char text[600]; };
static Msg* MSG;
static std::string sched(int first, const std::vector<uint64_t>& at) { std::string s = first ? "the second starts" : "the first starts"; for (uint64_t x : at) s += S(", change at %d", (int)x); return s; }
// one execution under one schedule, in a process of its own
static bool execute(Case& k, int a, int b, int first, const std::vector<uint64_t>& s, const std::vector<uint64_t>& at, uint64_t& steps, std::string& why)
{
	if (!MSG) MSG = (Msg*)mmap(nullptr, sizeof(Msg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(MSG, 0, sizeof *MSG); fflush(stdout);
	pid_t p = fork();
	if (p == 0)
	{
		alarm(20);
		Res ra, rb; One oa = { a, true, &ra }, ob = { b, true, &rb }; race::Run run;
		race::together(run_one, &oa, run_one, &ob, first, s.data(), s.size(), at.data(), at.size(), &CNT->found, &run);
		MSG->steps = run.steps;
		if (!agrees(ra, BASE[a])) { MSG->bad = 1; snprintf(MSG->text, sizeof MSG->text, "'%s' gives %s, alone %s", OPS[a].name.c_str(), show(ra.v.data(), ra.v.size(), ra.err).c_str(), show(BASE[a].v, BASE[a].n, BASE[a].err).c_str()); }
		else if (!agrees(rb, BASE[b])) { MSG->bad = 2; snprintf(MSG->text, sizeof MSG->text, "'%s' gives %s, alone %s", OPS[b].name.c_str(), show(rb.v.data(), rb.v.size(), rb.err).c_str(), show(BASE[b].v, BASE[b].n, BASE[b].err).c_str()); }
		_exit(0);
	}
	int st = 0; if (p < 0 || waitpid(p, &st, 0) < 0) { why = "no process"; return true; }
	__sync_fetch_and_add(&CNT->schedules, 1); __sync_fetch_and_add(&CNT->steps, MSG->steps);
	k.transition(MSG->steps + 2); k.trace(); k.eval(2);
	steps = MSG->steps;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { __sync_fetch_and_add(&CNT->hung, 1); return true; } // it waits in a way the scheduler does not know
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { why = "both threads wait for each other"; return false; }
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { why = S("the process ended with %d", st); return false; }
	if (MSG->bad) { why = MSG->text; return false; }
	return true;
}
// all schedules with up to n changes at steps on the granules in s
static bool explore(Case& k, int a, int b, std::vector<uint64_t> s, int changes, uint64_t limit, const std::string& key)
{
	uint64_t runs = 0; size_t known = 0; bool ok = true;
	std::function<void(int, std::vector<uint64_t>, int)> go = [&](int first, std::vector<uint64_t> at, int left)
	{
		if (!ok) return;
		if (runs >= limit || enough()) { __sync_fetch_and_add(&CNT->capped, 1); return; }
		++runs; uint64_t steps = 0; std::string why;
		if (!execute(k, a, b, first, s, at, steps, why)) { ok = false; __sync_fetch_and_add(&CNT->violations, 1); k.fail(key, "'%s' and '%s' in two threads (%s): %s", OPS[a].name.c_str(), OPS[b].name.c_str(), sched(first, at).c_str(), why.c_str()); return; }
		k.state(mc::mix(mc::mix(mc::mix(a, b), first), mc::hstr(sched(0, at).c_str())));
		if (left) for (uint64_t t = at.empty() ? 0 : at.back() + 1; t < steps; ++t) { at.push_back(t); go(first, at, left - 1); at.pop_back(); if (!ok || runs >= limit) break; }
	};
	do
	{
		known = s.size();
		for (int first = 0; first < 2 && ok; ++first) go(first, {}, changes);
		// memory that one thread handed to the other
		for (int i = 0; i < CNT->found.n; ++i) if (std::find(s.begin(), s.end(), CNT->found.g[i]) == s.end()) s.push_back(CNT->found.g[i]);
		CNT->found.n = 0;
	} while (ok && s.size() > known && runs < limit);
	return ok;
}
static std::vector<uint64_t> conflicts(int i, int j)
{
	std::vector<uint64_t> s;
	for (int side = 0; side < 2; ++side)
	{
		const race::Access &w = ACC[side ? j : i], &r = ACC[side ? i : j];
		if (!w.nw) continue;
		std::set<uint64_t> t(r.r, r.r + r.nr); // reads and writes
		for (int q = 0; q < w.nw; ++q) if (t.count(w.w[q]) && std::find(s.begin(), s.end(), w.w[q]) == s.end()) s.push_back(w.w[q]);
	}
	return s;
}
static std::string kindof(int i) { const std::string& n = OPS[i].name; return n.substr(0, std::min<size_t>(n.find(" ("), 50)); }
static void build(Plan& p)
{
	p.property = "C28"; p.level = "model_checking";
	setup(); catalogue(); p_thorough = p.thorough;
	for (size_t i = 0; i < OPS.size(); ++i) if (quiet_name(OPS[i].name)) PICK.push_back(i);
	size_t n = PICK.size();
	BASE = (Base*)mmap(nullptr, sizeof(Base) * OPS.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	ACC = (race::Access*)mmap(nullptr, sizeof(race::Access) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	CNT = (Cnt*)mmap(nullptr, sizeof(Cnt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> kids;
	for (int w = 0; w < 8; ++w)
	{
		pid_t q = fork();
		if (q == 0)
		{
			for (size_t i = w; i < n; i += 8)
			{
				pid_t z = fork();
				if (z == 0) { Res r; One o = { PICK[i], true, &r }; race::record(run_one, &o, &ACC[i]); Base& b = BASE[PICK[i]]; b.err = r.err; b.n = std::min<size_t>(r.v.size(), MAXV); memcpy(b.v, r.v.data(), b.n * sizeof(float)); _exit(0); }
				int st; waitpid(z, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st)) BASE[PICK[i]].err = 9;
			}
			_exit(0);
		}
		kids.push_back(q);
	}
	for (pid_t q : kids) { int st; waitpid(q, &st, 0); }
	static std::vector<int> writers; writers.clear(); uint64_t touched = 0, total = 0;
	for (size_t i = 0; i < n; ++i) { if (ACC[i].nw || ACC[i].full) writers.push_back(i); touched += ACC[i].nr; total += ACC[i].total; }
	// the pairs that are not independent
	struct Pair { int i, j; uint64_t h; };
	static std::vector<Pair> dep; dep.clear(); uint64_t left_out = 0;
	{
		std::vector<std::vector<int>> by(n); std::unordered_map<uint64_t, std::vector<int>> who; // granule -> who touches it
		std::set<uint64_t> ws; for (int w : writers) for (int q = 0; q < ACC[w].nw; ++q) ws.insert(ACC[w].w[q]);
		for (size_t i = 0; i < n; ++i) for (int q = 0; q < ACC[i].nr; ++q) if (ws.count(ACC[i].r[q])) who[ACC[i].r[q]].push_back(i);
		const uint64_t LIMIT = p.thorough ? 2000000 : 400000;
		for (int w : writers)
		{
			std::set<int> o; for (int q = 0; q < ACC[w].nw; ++q) for (int j : who[ACC[w].w[q]]) if (j >= w || !ACC[j].nw) o.insert(j);
			for (int j : o) { uint64_t h = mc::mix(mc::mix(w, 77), j); if (j == w) h = 0; dep.push_back({ w, j, h }); }
			if (dep.size() > 20 * LIMIT) break;
		}
		std::sort(dep.begin(), dep.end(), [](const Pair& x, const Pair& y) { return x.h != y.h ? x.h < y.h : x.i != y.i ? x.i < y.i : x.j < y.j; });
		if (dep.size() > LIMIT) { left_out = dep.size() - LIMIT; dep.resize(LIMIT); }
	}
	int changes = p.thorough ? 3 : 2; p.patience = p.thorough ? 3600 : 600; CNT->start = clock_s();
	p.rule = S("%d operations, %d of them write memory that is not their own; %d pairs of operations are not independent (%d more are left out), of them all schedules with up to %d changes of the thread at accesses to memory both operations touch", (int)n, (int)writers.size(), (int)dep.size(), (int)left_out, changes);
	p.summary = [] { return S("%llu schedules executed, %llu subtrees cut at the limit of schedules per pair or of time, %llu executions without an end", (unsigned long long)CNT->schedules, (unsigned long long)CNT->capped, (unsigned long long)CNT->hung); };
	p.assumptions = { "sequentially consistent memory; the threads change at accesses the compiler's instrumentation reports, code of the C and C++ runtime runs undivided", "operations on objects that one of the threads changes are outside of the property" };
	// an operation alone: deterministic, with the outcome it has without instrumentation of its surroundings
	p.add("alone", n, [](uint64_t ix, Case& k)
	{
		int a = PICK[ix]; const race::Access& x = ACC[ix];
		k.eval(); k.transition(x.total); k.state(mc::mix(ix, 1)); k.distinct(ix);
		if (BASE[a].err == 9) { k.fail(S("crash:%s", kindof(a).c_str()), "'%s' ends the process", OPS[a].name.c_str()); return; }
		k.trace(); if (k.want_sample()) k.sample("'%s': %d granules of shared memory read, %d written", OPS[a].name.c_str(), x.nr, x.nw);
	}, "every operation alone, with the memory it touches");
	static std::set<uint64_t> depset; depset.clear(); for (auto& d : dep) depset.insert((uint64_t)std::min(d.i, d.j) * n + std::max(d.i, d.j));
	static bool some_full; some_full = left_out; for (size_t i = 0; i < n; ++i) some_full |= ACC[i].full;
	p.add("independent", n, [=](uint64_t ix, Case& k)
	{
		uint64_t c = 0;
		for (size_t j = ix; j < n; ++j) if (!depset.count(ix * n + j)) { if (!some_full && !conflicts(ix, j).empty()) k.fail("internal", "pair of %d and %d", (int)ix, (int)j); ++c; }
		k.eval(c); k.trace(c); k.state(mc::mix(ix, 2)); if (k.want_sample()) k.sample("'%s' is independent of %d of %d operations", OPS[PICK[ix]].name.c_str(), (int)c, (int)(n - ix));
	}, "pairs of which neither writes what the other one touches: one class of interleavings each");
	p.add("dependent", dep.size(), [=](uint64_t ix, Case& k)
	{
		int i = dep[ix].i, j = dep[ix].j; k.state(mc::mix(ix, 3));
		explore(k, PICK[i], PICK[j], conflicts(i, j), changes, i == j ? 2000 : p_thorough ? 2000 : 300, S("interleaving:%s", kindof(PICK[i]).c_str()));
		if (k.want_sample()) k.sample("'%s' and '%s'", OPS[PICK[i]].name.c_str(), OPS[PICK[j]].name.c_str());
	}, "all schedules up to the bound of every other pair", 4);
	// the same operation twice and neighbouring operations, executed with changes at reads of shared operands as well
	static std::vector<int> some; some.clear(); for (size_t i = 0; i < n; ++i) if (OPS[PICK[i]].core && i % (p.thorough ? 8 : 40) == 0) some.push_back(i);
	size_t m = some.size();
	p.add("executed", m * m, [=](uint64_t ix, Case& k)
	{
		int i = some[ix / m], j = some[ix % m]; if (j < i) return;
		std::vector<uint64_t> s; std::set<uint64_t> t(ACC[i].r, ACC[i].r + ACC[i].nr);
		for (int q = 0; q < ACC[j].nr; ++q) if (t.count(ACC[j].r[q])) s.push_back(ACC[j].r[q]);
		// every 8th granule both read, to bound the number of points
		std::sort(s.begin(), s.end()); std::vector<uint64_t> u; for (size_t q = 0; q < s.size(); q += 1 + s.size() / 8) u.push_back(s[q]);
		explore(k, PICK[i], PICK[j], u, 1, p_thorough ? 60 : 24, S("interleaving:%s", kindof(PICK[i]).c_str()));
		k.distinct(mc::mix(ix, 3)); if (k.want_sample()) k.sample("'%s' and '%s'", OPS[PICK[i]].name.c_str(), OPS[PICK[j]].name.c_str());
	}, "pairs executed with a change of the thread at reads of what they share", 2);
	printf("%d operations, %d write shared memory; %llu accesses to shared memory, %llu granules\n", (int)n, (int)writers.size(), (unsigned long long)total, (unsigned long long)touched);
	for (size_t q = 0; q < writers.size() && q < 10; ++q) printf("writes: '%s' %d granules%s\n", OPS[PICK[writers[q]]].name.c_str(), ACC[writers[q]].nw, ACC[writers[q]].full ? " (too many)" : "");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
