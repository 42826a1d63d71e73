// mc.hpp - a small stateless model checker for real C++ code.
//
// A scenario is a function that runs the code under test once and asks
// Ctx::choose(n) for every nondeterministic decision. The explorer runs the
// scenario again and again, depth first, until every sequence of decisions has
// been taken once. Executions run in worker processes, so a crash, a failed
// assert, a sanitizer report or a hang is attributed to the decision sequence
// that caused it, and exploration carries on behind it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <limits>

namespace mc
{

struct Prune {};                       // this execution is out of scope / not ours
struct Violation { std::string msg; };

static const int MAXPATH = 512;
static const int KEYLEN = 400;
static const int TRACELEN = 6000;

class Ctx
{
public:
	// one of 0..n-1; every value is explored
	int choose (int n, const char* what = nullptr);
	bool flip (const char* what = nullptr) { return choose(2, what) == 1; }
	template <typename C>
	const typename C::value_type& pick (const C& c, const char* what = nullptr)
	{ return c[choose((int) c.size(), what)]; }
	// record a human readable step of the execution (also counts a transition)
	void step (const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// trace text only
	void note (const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// name the failure class of what follows; known findings match on it
	void key (const std::string& k);
	// abstract state reached
	void state (uint64_t h);
	void state (const std::string& s);
	// true if this abstract state was already explored by this worker with at least
	// `remaining` operations to go (then the execution may be cut short)
	bool seen (uint64_t h, int remaining);
	bool seen (const std::string& s, int remaining);
	// an oracle comparison
	void check (bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	[[noreturn]] void fail (const std::string& msg);
	[[noreturn]] void prune (void) { throw Prune(); }
	bool thorough (void) const;
	bool replaying (void) const;
	const std::string& scratch (void) const; // private, empty scratch directory of this worker
};

struct Scenario
{
	std::string name;
	std::function<void(Ctx&)> fn;
	int split = 2;        // how many leading choices are used to divide the work
	bool only_thorough = false;
	int timeout = 30;     // seconds one execution may take before it counts as a hang
};

uint64_t fnv (const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hstr (const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
std::string fmt (const char* f, ...) __attribute__((format(printf, 1, 2)));
template <typename V>
std::string vstr (const V& v)
{
	std::string s = "{";
	bool first = true;
	for (auto x : v) { if (!first) s += ","; first = false; s += fmt("%.17g", (double) x); }
	return s + "}";
}
inline bool close (double a, double b, double rel = 1e-9, double abs_ = 1e-9)
{
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a-b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

// live heap blocks made by operator new, for exact leak accounting
long live_blocks (void);

int run (int argc, char** argv, const std::vector<Scenario>& scenarios);

}
