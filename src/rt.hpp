// Control interface shared by both flavours of the harness.
//   native : real libgomp threads, AddressSanitizer
//   fiber  : deterministic scheduler (fiber_rt.cpp); every memory access of the
//            instrumented library code is a potential preemption point
#pragma once
#include "engine.hpp"
namespace rt {
extern const bool isFiber;
extern const int maxThreadsHint;   // sensible upper bound on team size for this flavour
// Draws (from the tape) the number of OpenMP threads, the schedule and the heap
// fill byte, and applies them.  Returns the thread count.
int begin(pbt::Ctx &c, int maxThreads);
void setThreads(int n);
// Preemption is only enabled between begin() and quiet()
void quiet(bool q);
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };
unsigned long long switches();     // context switches taken so far in this case
} // namespace rt
