#include "mc.h"
#include <atomic>
#include <errno.h>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{
static Shared* S = nullptr;
static std::atomic<uint64_t>* SET = nullptr;
static const uint64_t SETN = 1ull << 24;
static const uint64_t SETCAP = SETN / 4 * 3;
static std::atomic<uint64_t>* setcount = nullptr;

struct Slot { std::atomic<uint64_t> cur; std::atomic<uint64_t> end; std::atomic<int64_t> since; std::atomic<int> busy; };
static std::atomic<uint64_t>* NEXT = nullptr;
static Slot* SLOT = nullptr;
static std::atomic<int>* STOP = nullptr;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shm(size_t n)
{
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}
static void lock() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) usleep(20); }
static void unlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

static uint64_t l_evals, l_trans, l_traces, l_raised;
static void flush_counters()
{
	__atomic_fetch_add(&S->evals, l_evals, __ATOMIC_RELAXED);
	__atomic_fetch_add(&S->trans, l_trans, __ATOMIC_RELAXED);
	__atomic_fetch_add(&S->traces, l_traces, __ATOMIC_RELAXED);
	__atomic_fetch_add(&S->errors_raised, l_raised, __ATOMIC_RELAXED);
	l_evals = l_trans = l_traces = l_raised = 0;
}
// open addressing set shared by all workers; exact up to SETCAP entries, then it stops counting
static bool insert(uint64_t h)
{
	if (h == 0) h = 1;
	if (setcount->load(std::memory_order_relaxed) >= SETCAP) return false;
	uint64_t i = (h * 0x9e3779b97f4a7c15ull) & (SETN - 1);
	for (;;)
	{
		uint64_t v = SET[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0)
		{
			uint64_t e = 0;
			if (SET[i].compare_exchange_strong(e, h)) { setcount->fetch_add(1); return true; }
			if (e == h) return false;
		}
		i = (i + 1) & (SETN - 1);
	}
}
void Case::eval(uint64_t k) { l_evals += k; }
void Case::transition(uint64_t k) { l_trans += k; }
void Case::trace(uint64_t k) { l_traces += k; }
void Case::raised(uint64_t k) { l_raised += k; }
bool Case::state(uint64_t h) { if (insert(mix(h, 0x51a7e))) { __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED); return true; } return false; }
void Case::distinct(uint64_t h) { if (insert(mix(h, 0xd157))) __atomic_fetch_add(&S->distinct, 1, __ATOMIC_RELAXED); }
bool Case::want_sample() const { return index == n / 3 || index == n - 1 - n / 5; }
void Case::sample(const char* fmt, ...)
{
	char buf[600];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	lock();
	if (S->nsample < 64) { snprintf(S->sample[S->nsample].text, sizeof(Sample::text), "%s[%llu]: %s", space, (unsigned long long)index, buf); S->nsample++; }
	unlock();
}
static void record(const char* key, const char* space, uint64_t index, const char* msg)
{
	lock();
	S->fails_total++;
	int i = 0;
	for (; i < S->nfail; ++i) if (!strcmp(S->fail[i].key, key)) { S->fail[i].count++; break; }
	if (i == S->nfail && S->nfail < 512)
	{
		Fail& f = S->fail[S->nfail];
		snprintf(f.key, sizeof f.key, "%s", key);
		snprintf(f.space, sizeof f.space, "%s", space);
		f.index = index; f.count = 1;
		snprintf(f.msg, sizeof f.msg, "%s", msg);
		S->nfail++;
	}
	unlock();
}
static bool g_verbose = false;
void Case::fail(const std::string& key, const char* fmt, ...)
{
	char buf[900];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	failed = true;
	if (g_verbose) printf("FAIL %s at %s:%llu: %s\n", key.c_str(), space, (unsigned long long)index, buf);
	char k[160]; snprintf(k, sizeof k, "%s", key.c_str());
	static std::map<std::string, int> local; // a key that keeps failing in this worker is counted, not recorded again
	if (++local[k] <= 20 || g_verbose) record(k, space, index, buf);
	else __atomic_fetch_add(&S->fails_total, 1, __ATOMIC_RELAXED);
}

static uint64_t rss()
{
	FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0;
	if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); }
	return (uint64_t)b * 4096;
}
static void run_case(Space& sp, uint64_t i)
{
	Case c; c.space = sp.name.c_str(); c.index = i; c.n = sp.n;
	try { sp.run(i, c); }
	catch (...) { c.fail("exception", "an error was raised where none is allowed (case %s:%llu)", sp.name.c_str(), (unsigned long long)i); }
}
static void worker(Space& sp, int w, uint64_t chunk, uint64_t memlimit)
{
	Slot& s = SLOT[w];
	uint64_t i = s.cur.load(), e = s.end.load();
	uint64_t done = 0;
	memlimit += rss(); // what the worker adds to what it started with
	for (;;)
	{
		for (; i < e; ++i)
		{
			s.cur.store(i, std::memory_order_relaxed);
			s.since.store((int64_t)(now() * 1000), std::memory_order_relaxed);
			s.busy.store(1, std::memory_order_relaxed);
			run_case(sp, i);
			s.busy.store(0, std::memory_order_relaxed);
			if (((++done) & 255) == 0)
			{
				if (STOP->load()) { flush_counters(); _exit(0); }
				if (rss() > memlimit) { s.cur.store(i + 1); flush_counters(); _exit(7); }
			}
		}
		flush_counters();
		if (STOP->load()) _exit(0);
		i = NEXT->fetch_add(chunk);
		if (i >= sp.n) { s.cur.store(0); s.end.store(0); _exit(0); }
		e = i + chunk < sp.n ? i + chunk : sp.n;
		s.cur.store(i); s.end.store(e);
		if (rss() > memlimit) _exit(7);
	}
}
static std::string esc(const char* s)
{
	std::string o;
	for (; *s; ++s)
	{
		unsigned char ch = *s;
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o;
}
int run(int argc, char** argv, void (*build)(Plan&))
{
	std::string out, replay, only;
	bool thorough = false, list = false;
	int jobs = 8;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--list") list = true;
	}
	S = (Shared*)shm(sizeof(Shared));
	SET = (std::atomic<uint64_t>*)shm(SETN * 8);
	setcount = (std::atomic<uint64_t>*)shm(4096);
	NEXT = (std::atomic<uint64_t>*)shm(4096);
	STOP = (std::atomic<int>*)shm(4096);
	SLOT = (Slot*)shm(sizeof(Slot) * 64);
	Plan p; p.thorough = thorough;
	build(p);
	if (list) { for (auto& s : p.spaces) printf("%-50s %12llu %s\n", s.name.c_str(), (unsigned long long)s.n, s.note.c_str()); return 0; }
	if (!replay.empty())
	{
		// replay one case (space:index), or a range (space:from-to) when the failure needs its history
		size_t c = replay.rfind(':');
		std::string sn = replay.substr(0, c), ix = replay.substr(c + 1);
		uint64_t a = strtoull(ix.c_str(), nullptr, 10), b = a;
		size_t d = ix.find('-');
		if (d != std::string::npos) b = strtoull(ix.c_str() + d + 1, nullptr, 10);
		g_verbose = true;
		alarm(p.patience + 60);
		for (auto& s : p.spaces) if (s.name == sn)
		{
			for (uint64_t i = a; i <= b && i < s.n; ++i) run_case(s, i);
			printf(S->fails_total ? "replay: violated\n" : "replay: held\n");
			return S->fails_total ? 1 : 0;
		}
		printf("no such space: %s\n", sn.c_str());
		return 2;
	}
	rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	std::string per_space;
	double t0 = now();
	int crashes = 0;
	uint64_t memlimit = 1000ull << 20;
	for (auto& sp : p.spaces)
	{
		if (!only.empty() && sp.name.find(only) == std::string::npos) continue;
		if (STOP->load()) break;
		double ts = now();
		uint64_t ev0 = S->evals;
		uint64_t chunk = sp.chunk ? sp.chunk : (sp.n / (uint64_t)(jobs * 16) + 1);
		if (chunk > 4096) chunk = 4096;
		NEXT->store(0);
		std::vector<pid_t> pid(jobs, 0);
		for (int w = 0; w < jobs; ++w) { SLOT[w].cur = 0; SLOT[w].end = 0; SLOT[w].busy = 0; }
		fflush(stdout);
		auto start = [&](int w)
		{
			pid_t q = fork();
			if (q < 0) { perror("fork"); exit(3); }
			if (q == 0) { l_evals = l_trans = l_traces = l_raised = 0; worker(sp, w, chunk, memlimit); _exit(0); }
			pid[w] = q;
		};
		int running = 0;
		for (int w = 0; w < jobs; ++w) { start(w); running++; }
		while (running > 0)
		{
			bool any = false;
			for (int w = 0; w < jobs; ++w)
			{
				if (!pid[w]) continue;
				int st = 0;
				pid_t q = waitpid(pid[w], &st, WNOHANG);
				if (q == 0)
				{
					if (SLOT[w].busy.load() && (int64_t)(now() * 1000) - SLOT[w].since.load() > p.patience * 1000ll)
					{
						kill(pid[w], SIGKILL);
						waitpid(pid[w], &st, 0);
						uint64_t ix = SLOT[w].cur.load();
						char key[160], msg[200];
						snprintf(key, sizeof key, "hang:%s", sp.name.c_str());
						snprintf(msg, sizeof msg, "the case did not finish within %d s", p.patience);
						record(key, sp.name.c_str(), ix, msg);
						SLOT[w].cur.store(ix + 1); SLOT[w].busy.store(0);
						if (++crashes >= 4) STOP->store(1);
						start(w); any = true;
					}
					continue;
				}
				any = true;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; running--; continue; }
				if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { SLOT[w].busy.store(0); start(w); continue; }
				// crash: the case in the slot is the witness; go on behind it
				uint64_t ix = SLOT[w].cur.load();
				char key[160], msg[300];
				int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
				if (sig == SIGKILL) { fprintf(stderr, "worker killed from outside (memory?) at %s:%llu\n", sp.name.c_str(), (unsigned long long)ix); exit(4); }
				snprintf(key, sizeof key, "crash:%s", sp.name.c_str());
				snprintf(msg, sizeof msg, "the process died (signal %d, exit %d) while executing this case", sig, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
				record(key, sp.name.c_str(), ix, msg);
				if (++crashes >= 12) STOP->store(1);
				SLOT[w].cur.store(ix + 1); SLOT[w].busy.store(0);
				start(w);
			}
			if (!any) usleep(2000);
		}
		char b[400];
		snprintf(b, sizeof b, "%s{\"space\":\"%s\",\"cases\":%llu,\"oracle_evaluations\":%llu,\"seconds\":%.2f,\"note\":\"%s\"}", per_space.empty() ? "" : ",", esc(sp.name.c_str()).c_str(), (unsigned long long)sp.n, (unsigned long long)(S->evals - ev0), now() - ts, esc(sp.note.c_str()).substr(0, 200).c_str());
		per_space += b;
	}
	double wall = now() - t0;
	if (p.summary) p.rule += "; " + p.summary();
	std::string js = "{\"property\":\"" + p.property + "\",\"level\":\"" + p.level + "\",\"rule\":\"" + esc(p.rule.c_str()) + "\",";
	char b[700];
	snprintf(b, sizeof b, "\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"errors_raised\":%llu,\"set_saturated\":%s,\"fails_total\":%llu,\"stopped\":%s,\"wall\":%.3f,",
		(unsigned long long)S->evals, (unsigned long long)S->distinct, (unsigned long long)S->states, (unsigned long long)S->trans, (unsigned long long)S->traces, (unsigned long long)S->errors_raised,
		setcount->load() >= SETCAP ? "true" : "false", (unsigned long long)S->fails_total, STOP->load() ? "true" : "false", wall);
	js += b;
	js += "\"assumptions\":[";
	for (size_t i = 0; i < p.assumptions.size(); ++i) js += (i ? ",\"" : "\"") + esc(p.assumptions[i].c_str()) + "\"";
	js += "],\"spaces\":[" + per_space + "],\"samples\":[";
	for (int i = 0; i < S->nsample; ++i) js += std::string(i ? "," : "") + "\"" + esc(S->sample[i].text) + "\"";
	js += "],\"fails\":[";
	for (int i = 0; i < S->nfail; ++i)
	{
		Fail& f = S->fail[i];
		snprintf(b, sizeof b, "%s{\"key\":\"%s\",\"space\":\"%s\",\"index\":%llu,\"count\":%llu,\"msg\":\"", i ? "," : "", esc(f.key).c_str(), esc(f.space).c_str(), (unsigned long long)f.index, (unsigned long long)f.count);
		js += b + esc(f.msg) + "\"}";
	}
	js += "]}\n";
	if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; } fputs(js.c_str(), f); fclose(f); }
	else fputs(js.c_str(), stdout);
	return 0;
}
}
