// The instrumented (load imbalance measuring) barrier, as a client drives it. Compiled like library code.
#include "kernels.hpp"
#include "loadimba.hpp"
#include <x86intrin.h>
#include <omp.h>
namespace {
void dawdle(const int *delay, int k) { if (!delay) return; volatile int x = 0; for (int i = delay[k % 64]; i > 0; --i) x = x + 1; }
}
namespace kern {
void *limbaNew(int cores, int tpc) { return new synk::LoadImba(cores, tpc); }
void limbaDelete(void *b) { delete (synk::LoadImba *)b; }
void limbaInstanceInit(int cores, int tpc) { synk::LoadImba::initializeInstance(cores, tpc); }
void *limbaInstance() { return synk::LoadImba::getInstance(); }
void limbaInstanceDelete() { synk::LoadImba::deleteInstance(); }
void limbaReset(void *b) { ((synk::LoadImba *)b)->reset(); }
void limbaPrint(void *b, bool all) { ((synk::LoadImba *)b)->print(all); }
void limbaPrintImbalance(void *b, unsigned long long ref) { ((synk::LoadImba *)b)->printLoadImbalance(ref); }
void limbaEpisodes(void *object, int initUses, Episodes &e, const int *use, const int *delay, unsigned long long *first, unsigned long long *last) {
  int n = e.n, rounds = e.rounds;
  volatile int *phase = e.phase, *cell = e.cell;
  volatile int bad = -1;
  int badThread = -1, badOther = -1, badValue = 0;
#pragma omp parallel num_threads(n)
  {
    int tid = omp_get_thread_num();
    synk::LoadImba *b = (synk::LoadImba *)object;
    if (initUses > 0) b->init(tid, initUses);
    if (!b) b = synk::LoadImba::getInstance();
    for (int r = 0; r < rounds; ++r) {
      dawdle(delay, tid * 7 + r);
      cell[tid] = tid * 1000 + r;
      phase[tid] = r + 1;
      first[r * n + tid] = __rdtsc();
      b->wait(tid, use[r]);
      last[r * n + tid] = __rdtsc();
      for (int k = 1; k <= n; ++k) {
        int t = (tid + k) % n;
        int p = phase[t], v = cell[t];
        bool ok = p >= r + 1 && p <= r + 2 && v >= t * 1000 + r && v <= t * 1000 + r + 1;
        if (!ok && bad < 0) { badThread = tid; badOther = t; badValue = p; bad = r; }
      }
    }
  }
  e.badRound = bad; e.badThread = badThread; e.badOther = badOther; e.badValue = badValue;
}
} // namespace kern
