// Exhaustive explorer: enumerates every index of a set of finite spaces, each index being one case
// (an input, a configuration, an operation sequence), in forked workers, and records what it saw.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
struct Fail { char key[160]; char space[96]; uint64_t index; uint64_t count; char msg[900]; };
struct Sample { char text[700]; };

struct Shared
{
	uint64_t evals, trans, traces, hits, errors_raised;
	uint64_t distinct, states;
	uint64_t fails_total;
	int nfail;
	int lock;
	int nsample;
	Fail fail[512];
	Sample sample[64];
};

struct Case
{
	const char* space = "";
	uint64_t index = 0;
	uint64_t n = 0;
	bool failed = false;
	// one oracle evaluation on the implementation
	void eval(uint64_t k = 1);
	// model checking counters
	void transition(uint64_t k = 1);
	void trace(uint64_t k = 1);
	bool state(uint64_t h);     // true when seen for the first time
	// a distinct non-trivial case, identified by the hash of its input and outcome
	void distinct(uint64_t h);
	void raised(uint64_t k = 1); // an error the library is required to raise was raised
	void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	bool want_sample() const;
	void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Space
{
	std::string name;
	uint64_t n;
	std::function<void(uint64_t, Case&)> run;
	std::string note;
	uint64_t chunk = 0; // cases per scheduling unit; 0 = default
};

struct Plan
{
	std::string property;
	std::string level;       // exploration | model_checking
	std::string rule;        // exploration: how cases are made and what makes one non-trivial
	std::vector<std::string> assumptions;
	std::vector<Space> spaces;
	bool thorough = false;
	int patience = 60;         // seconds one case may take
	std::function<std::string()> summary; // added to the rule after the exploration
	Plan() {}
	Plan(const Plan& o) : thorough(o.thorough) {} // what a space captures of its plan is the tier, not the spaces before it
	void add(const std::string& name, uint64_t n, std::function<void(uint64_t, Case&)> f, const std::string& note = "", uint64_t chunk = 0)
	{
		spaces.push_back(Space{ name, n, f, note, chunk });
	}
};

int run(int argc, char** argv, void (*build)(Plan&));

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline uint64_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); if (u == 0x80000000u) u = 0; return u; }
inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
}
