// Controlled scheduler for two threads. The library and the explorer are compiled with the compiler's thread
// instrumentation; race.cpp supplies the callbacks, so that every access to memory can be recorded or turned into
// a point at which the other thread goes on.
#pragma once
#include <cstddef>
#include <cstdint>
namespace race
{
static const int MAXG = 2048;
struct Access { int nr, nw; uint64_t r[MAXG], w[MAXG]; bool full; uint64_t total; }; // granules of 4 bytes
// runs f on its own, recording what it touches outside of its stack and of what it allocates itself
void record(void (*f)(void*), void* arg, Access* out);
// runs f and g in two threads. The threads change places at the given steps (a step is an access to one of the granules
// in s); first tells which one starts. Memory of one thread that the other one touches is added to *found.
struct Found { int n; uint64_t g[64]; };
struct Run { uint64_t steps; bool deadlock; };
void together(void (*f)(void*), void* a, void (*g)(void*), void* b, int first, const uint64_t* s, int ns, const uint64_t* at, int nat, Found* found, Run* out);
}
