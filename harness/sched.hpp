// sched.hpp - a controlled scheduler for real threads.
//
// Code compiled with -fsanitize=thread and linked with sched.cpp (instead of the sanitizer's
// runtime) runs its threads one at a time. At every operation on a mutex, condition variable,
// atomic, thread or promise the explorer chooses which thread goes on. Between two such points
// plain memory accesses are checked for data races (happens-before, vector clocks) and for
// accesses to memory that was freed or belonged to a thread that has ended.
#pragma once
#include "mc.hpp"

namespace sched
{
// run fn as the first thread, under every interleaving with at most `preemptions` forced switches
// and at most `spurious` unprompted wake ups of waits
void explore (mc::Ctx& c, int preemptions, int spurious, std::function<void()> fn);

// usable from every thread
[[noreturn]] void fail (const std::string& msg);
void check (bool ok, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note (const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int choose (int n);
// threads blocked in a wait on a condition variable
int waiting (void);
// threads started and not yet ended, the first one included
int running (void);
// let others go first
void yield (void);
// blocks allocated and not freed since the exploration began, by the code under test and the harness
long live (void);
// a clock that every scheduling point advances
unsigned long now (void);
}
