// see race.h; this file is compiled without instrumentation
#include "race.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace
{
static const size_t ARENA = 64u << 20;
char* arena[2];
size_t used[2];
struct Tls { int active, id; char *lo, *hi, *tlo, *thi; }; // active: 1 recording, 2 scheduled
thread_local Tls me __attribute__((tls_model("initial-exec")));
// exceptions in flight: the runtime allocates them, the thread that throws owns them
struct Ex { char *lo, *hi; int id; };
Ex exs[64]; int nex;
bool own_exception(char* a) { for (int i = nex; i-- > 0 && i >= nex - 64;) { Ex& e = exs[i & 63]; if (a >= e.lo && a < e.hi) return e.id == me.id; } return false; }
// recording
static const uint32_t NT = 1 << 14;
struct Slot { uint64_t g; uint8_t f; };
Slot* tab; uint64_t total; bool full; int filled;
inline uint32_t hash(uint64_t g) { g *= 0x9e3779b97f4a7c15ull; return (uint32_t)(g >> 40) & (NT - 1); }
inline Slot* slot(uint64_t g, bool create)
{
	uint32_t h = hash(g);
	for (uint32_t i = 0; i < NT; ++i, h = (h + 1) & (NT - 1))
	{
		if (tab[h].f && tab[h].g == g) return &tab[h];
		if (!tab[h].f) { if (!create) return nullptr; if (filled > (int)NT / 2) { full = true; return nullptr; } ++filled; tab[h].g = g; return &tab[h]; }
	}
	return nullptr;
}
// scheduling
std::atomic<int> turn; bool done[2]; bool blocked[2]; uint64_t steps; const uint64_t* at; int nat, next_at; bool dead; race::Found* found; int once_depth; int in_a_row;
void fwait(int v) { syscall(SYS_futex, (int*)&turn, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void give(int to) { turn.store(to); syscall(SYS_futex, (int*)&turn, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0); }
void await(int id) { for (;;) { int t = turn.load(); if (t == id || t < 0) return; fwait(t); } }
void change(int id) { in_a_row = 0; if (done[1 - id] || turn.load() < 0) return; give(1 - id); await(id); }
// the thread cannot go on before the other one has done something
void wait_other(int id)
{
	blocked[id] = true;
	if (done[1 - id] || blocked[1 - id]) { dead = true; syscall(SYS_exit_group, 77); }
	change(id);
	blocked[id] = false;
}
void point(uint64_t g)
{
	Slot* s = slot(g, false);
	if (!s) return;
	blocked[1 - me.id] = false;
	uint64_t t = steps++;
	if (next_at < nat && at[next_at] == t) { ++next_at; change(me.id); }
	else if (++in_a_row > 50000) change(me.id); // it may be waiting for the other one
}
// thread-local variables lie below the thread pointer
int tls_of(dl_phdr_info* i, size_t, void* v) { for (int q = 0; q < i->dlpi_phnum; ++q) if (i->dlpi_phdr[q].p_type == PT_TLS) *(size_t*)v += i->dlpi_phdr[q].p_memsz + i->dlpi_phdr[q].p_align; return 0; }
void own_tls() { size_t n = 0; dl_iterate_phdr(tls_of, &n); me.thi = (char*)pthread_self(); me.tlo = me.thi - n; }
inline void access(const void* p, size_t n, bool write)
{
	if (!me.active || !n) return;
	char* a = (char*)p;
	if (a >= me.lo && a < me.hi) return;
	if (a >= me.tlo && a < me.thi) return;
	bool mine = a >= arena[me.id] && a < arena[me.id] + ARENA;
	if (!mine && nex && own_exception(a)) return;
	if (me.active == 1)
	{
		if (mine) return;
		++total;
		for (uint64_t g = (uint64_t)a >> 2, e = ((uint64_t)a + n - 1) >> 2; g <= e; ++g) { Slot* s = slot(g, true); if (s) s->f |= write ? 2 : 1; }
		return;
	}
	if (!mine && a >= arena[1 - me.id] && a < arena[1 - me.id] + ARENA && found && found->n < 64)
	{
		uint64_t g = (uint64_t)a >> 2; bool in = false;
		for (int i = 0; i < found->n; ++i) in |= found->g[i] == g;
		if (!in) found->g[found->n++] = g;
	}
	if (once_depth) return;
	for (uint64_t g = (uint64_t)a >> 2, e = ((uint64_t)a + n - 1) >> 2; g <= e; ++g) point(g);
}
void ready() { if (tab) return; tab = (Slot*)mmap(nullptr, sizeof(Slot) * NT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < 2; ++i) arena[i] = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void* take(size_t n)
{
	if (me.active)
	{
		size_t q = (used[me.id] + 63) & ~(size_t)63;
		if (q + n + 64 > ARENA) abort();
		used[me.id] = q + n + 16; // neighbours never share a granule
		return arena[me.id] + q;
	}
	void* p = malloc(n ? n : 1);
	if (!p) abort();
	return p;
}
void drop(void* p)
{
	if (!p) return;
	for (char* a : arena) if (a && (char*)p >= a && (char*)p < a + ARENA) { access(p, 1, true); return; }
	if (me.active) { access(p, 4, true); return; } // shared memory that is given back counts as written, and stays
	free(p);
}
struct Start { void (*f)(void*); void* arg; int id; };
void* thread(void* v)
{
	Start* s = (Start*)v; pthread_attr_t a; void* lo; size_t n;
	pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
	await(s->id);
	me.id = s->id; me.lo = (char*)lo; me.hi = (char*)lo + n; own_tls(); me.active = 2;
	s->f(s->arg);
	me.active = 0;
	done[s->id] = true;
	give(done[1 - s->id] ? -1 : 1 - s->id);
	return nullptr;
}
}
namespace race
{
void record(void (*f)(void*), void* arg, Access* out)
{
	ready(); memset(tab, 0, sizeof(Slot) * NT); filled = 0; full = false; total = 0; nex = 0;
	me.id = 0; me.hi = (char*)__builtin_frame_address(0) + (1 << 16); me.lo = me.hi - (8 << 20);
	own_tls(); me.active = 1; f(arg); me.active = 0;
	out->nr = out->nw = 0; out->full = full; out->total = total;
	for (uint32_t i = 0; i < NT; ++i) if (tab[i].f)
	{
		if (out->nr < MAXG) out->r[out->nr++] = tab[i].g; else out->full = true;
		if (tab[i].f & 2) { if (out->nw < MAXG) out->w[out->nw++] = tab[i].g; else out->full = true; }
	}
}
void together(void (*f)(void*), void* a, void (*g)(void*), void* b, int first, const uint64_t* s, int ns, const uint64_t* where, int n, Found* fo, Run* out)
{
	ready(); memset(tab, 0, sizeof(Slot) * NT); filled = 0;
	for (int i = 0; i < ns; ++i) { Slot* q = slot(s[i], true); if (q) q->f = 1; }
	steps = 0; nex = 0; at = where; nat = n; next_at = 0; dead = false; found = fo; done[0] = done[1] = blocked[0] = blocked[1] = false; once_depth = 0; in_a_row = 0;
	turn = 2;
	pthread_t t[2]; Start st[2] = { { f, a, 0 }, { g, b, 1 } };
	pthread_attr_t at2; pthread_attr_init(&at2); pthread_attr_setstacksize(&at2, 1 << 20);
	for (int i = 0; i < 2; ++i) if (pthread_create(&t[i], &at2, thread, &st[i])) abort();
	give(first);
	for (int i = 0; i < 2; ++i) pthread_join(t[i], nullptr);
	out->steps = steps; out->deadlock = dead;
}
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

extern "C" {
// first-time initialisation of local statics, and locks: a thread that has to wait lets the other one go on
int __cxa_guard_acquire(uint64_t* g)
{
	volatile char* c = (volatile char*)g;
	for (;;)
	{
		if (c[0]) return 0;
		if (!c[1]) { c[1] = 1; return 1; }
		if (me.active != 2) { sched_yield(); continue; }
		wait_other(me.id);
	}
}
void __cxa_guard_release(uint64_t* g) { access(g, 1, true); char* c = (char*)g; c[1] = 0; __atomic_store_n(c, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	for (;;)
	{
		int r = pthread_mutex_trylock(m);
		if (r != EBUSY) return r;
		if (me.active == 2) wait_other(me.id); else sched_yield();
	}
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
	// 0: not yet, 2: done, as in glibc; the routine itself is not interrupted
	if (__atomic_load_n((int*)o, __ATOMIC_ACQUIRE) == 2) return 0;
	++once_depth; f(); --once_depth; __atomic_store_n((int*)o, 2, __ATOMIC_RELEASE);
	return 0;
}
void* __cxa_allocate_exception(size_t n) noexcept
{
	static void* (*real)(size_t);
	if (!real) real = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void* p = real(n);
	if (me.active) { exs[nex & 63] = { (char*)p - 128, (char*)p + n, me.id }; ++nex; }
	return p;
}
// the callbacks of the instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); } \
void __tsan_read_write##N(void* p) { access(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true); else access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int) { access((const void*)p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
