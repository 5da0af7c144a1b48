#include "kernels.hpp"
#include "Utils.hpp"
#include <omp.h>
using namespace SpMP;
namespace kern {
int teamSize() {
  int r = 0;
#pragma omp parallel
  {
#pragma omp master
    r = omp_get_num_threads();
  }
  return r;
}
void simplePartition(int n, std::vector<Part> &out) {
  out.assign(omp_get_max_threads(), Part());
#pragma omp parallel
  {
    int b = -1, e = -1;
    getSimpleThreadPartition(&b, &e, n);
    Part p = {b, e};
    out[omp_get_thread_num()] = p;
  }
}
void balancedPartition(const int *prefix, int n, std::vector<Part> &out) {
  out.assign(omp_get_max_threads(), Part());
#pragma omp parallel
  {
    int b = -1, e = -1;
    getLoadBalancedPartition(&b, &e, prefix, n);
    Part p = {b, e};
    out[omp_get_thread_num()] = p;
  }
}
void runPrefixSum(const std::vector<int> &in, std::vector<int> &out, std::vector<int> &sums, int rounds) {
  int nt = omp_get_max_threads();
  out.assign(nt * rounds, -12345);
  sums.assign(rounds, -12345);
  int *ws = MALLOC(int, nt + 1);
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    for (int r = 0; r < rounds; ++r) {
      int v = in[r * nt + tid];
      prefixSum(&v, &sums[r], ws);
      out[r * nt + tid] = v;
      // the documentation does not say the workspace may be reused at once
#pragma omp barrier
    }
  }
  FREE(ws);
}
void runPrefixSumMultiple(const std::vector<int> &in, int n, std::vector<int> &out, std::vector<int> &sum, int rounds) {
  int nt = omp_get_max_threads();
  out.assign(nt * n * rounds, -12345);
  sum.assign(n * rounds, -12345);
  int *ws = MALLOC(int, n * (nt + 1));
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    int *v = new int[n + 1];
    for (int r = 0; r < rounds; ++r) {
      for (int i = 0; i < n; ++i) v[i] = in[(r * nt + tid) * n + i];
      prefixSumMultiple(v, &sum[0] + r * n, n, ws);
      for (int i = 0; i < n; ++i) out[(r * nt + tid) * n + i] = v[i];
#pragma omp barrier
    }
    delete[] v;
  }
  FREE(ws);
}
void memopsInParallel(void *dst, const void *src, int c, size_t n, bool set) {
#pragma omp parallel
  {
    if (set) parMemset(dst, c, n);
    else parMemcpy(dst, src, n);
  }
}
} // namespace kern

// ------------------------------------------------ sweeps under a level schedule
#include "LevelSchedule.hpp"
#include "barrier.hpp"
namespace kern {
static inline void gsRow(const SweepArgs &a, int i, bool backward, bool triangular) {
  double sum = a.b[i];
  int b = a.rowptr[i] - a.base, e = a.rowptr[i + 1] - a.base;
  if (backward) for (int j = e - 1; j >= b; --j) sum -= a.values[j] * a.y[a.colidx[j] - a.base];
  else for (int j = b; j < e; ++j) sum -= a.values[j] * a.y[a.colidx[j] - a.base];
  if (triangular) a.y[i] = sum * a.idiag[i];
  else a.y[i] += sum * a.idiag[i];
}
static inline void clearFlags(const LevelSchedule &s) {
  int nthreads = omp_get_num_threads(), tid = omp_get_thread_num();
  int per = (s.ntasks + nthreads - 1) / nthreads;
  int b = per * tid < s.ntasks ? per * tid : s.ntasks, e = b + per < s.ntasks ? b + per : s.ntasks;
  for (int i = b; i < e; ++i) s.taskFinished[i] = 0;
#pragma omp barrier
}
void sweepP2P(const LevelSchedule &s, const SweepArgs &a, const int *perm, bool backward, bool triangular) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    clearFlags(s);
    const short *nparents = backward ? s.nparentsBackward : s.nparentsForward;
    int **parents = backward ? s.parentsBackward : s.parentsForward;
    volatile int *taskFinished = s.taskFinished;
    const int *tb = &s.taskBoundaries[0];
    int lo = s.threadBoundaries[tid], hi = s.threadBoundaries[tid + 1];
    if (!backward) {
      for (int task = lo; task < hi; ++task) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        for (int i = tb[task]; i < tb[task + 1]; ++i) gsRow(a, perm ? perm[i] : i, false, triangular);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
    } else {
      for (int task = hi - 1; task >= lo; --task) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        for (int i = tb[task + 1] - 1; i >= tb[task]; --i) gsRow(a, perm ? perm[i] : i, true, triangular);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
    }
  }
}
void protocol(const short *nparents, int **parents, volatile int *taskFinished, const int *threadBoundaries, volatile int *work, int *missed) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    for (int task = threadBoundaries[tid]; task < threadBoundaries[tid + 1]; ++task) {
      SPMP_LEVEL_SCHEDULE_WAIT;
      int miss = -1;
      for (int k = 0; k < nparents[task]; ++k) if (work[parents[task][k]] != 1) miss = parents[task][k];
      missed[task] = miss;
      work[task] = 1;
      SPMP_LEVEL_SCHEDULE_NOTIFY;
    }
  }
}
void sweepBarrier(const LevelSchedule &s, const SweepArgs &a, const int *perm, bool backward, bool triangular) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    const int *tb = &s.taskBoundaries[0];
    int lo = s.threadBoundaries[tid], hi = s.threadBoundaries[tid + 1];
    for (int k = 0; k < hi - lo; ++k) {
      int task = backward ? hi - 1 - k : lo + k;
      if (!backward) for (int i = tb[task]; i < tb[task + 1]; ++i) gsRow(a, perm ? perm[i] : i, false, triangular);
      else for (int i = tb[task + 1] - 1; i >= tb[task]; --i) gsRow(a, perm ? perm[i] : i, true, triangular);
      synk::Barrier::getInstance()->wait(tid);
    }
  }
}
void sweepFused(const LevelSchedule &s, const SweepArgs &a, const int *perm, double *w, int shift) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), nthreads = omp_get_num_threads();
    clearFlags(s);
    volatile int *taskFinished = s.taskFinished;
    const int *tb = &s.taskBoundaries[0];
    {
      const short *nparents = s.nparentsBackward;
      int **parents = s.parentsBackward;
      int lo = s.threadBoundaries[tid], hi = s.threadBoundaries[tid + 1];
      for (int task = hi - 1; task >= lo; --task) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        for (int i = tb[task + 1] - 1; i >= tb[task]; --i) gsRow(a, perm ? perm[i] : i, true, false);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
    }
    const short *nparents = s.fusedSchedule->nparents;
    int **parents = s.fusedSchedule->parents;
    int t = (tid + shift) % nthreads;
    int lo = s.threadBoundaries[t], hi = s.threadBoundaries[t + 1];
    for (int task = hi - 1; task >= lo; --task) {
      SPMP_LEVEL_SCHEDULE_WAIT;
      for (int i = tb[task + 1] - 1; i >= tb[task]; --i) {
        int r = perm ? perm[i] : i;
        double sum = 0;
        for (int j = a.rowptr[r] - a.base; j < a.rowptr[r + 1] - a.base; ++j) sum += a.values[j] * a.y[a.colidx[j] - a.base];
        w[r] = sum;
      }
    }
  }
}
} // namespace kern

// ------------------------------------------------------------------- synchronisation primitives
#include "synk/barrier.hpp"
#include "synk/reduce.hpp"
namespace kern {
static inline void dawdle(const int *delay, int slot) { volatile int sink = 0; for (int k = 0; k < delay[slot % 64]; ++k) sink = sink + 1; }
void barrierEpisodes(void *barrier, int via, bool init, Episodes &e, const int *delay) {
  int n = e.n, rounds = e.rounds;
  volatile int *phase = e.phase, *cell = e.cell;
  volatile int bad = -1;
  int badThread = -1, badOther = -1, badValue = 0;
#pragma omp parallel num_threads(n)
  {
    int tid = omp_get_thread_num();
    synk::Barrier *b = (synk::Barrier *)barrier;
    if (via == VIA_OBJECT && init) b->init(tid);
    for (int r = 0; r < rounds; ++r) {
      dawdle(delay, tid * 7 + r);
      cell[tid] = tid * 1000 + r;
      phase[tid] = r + 1;
      if (via == VIA_SINGLETON) synk::Barrier::getInstance()->wait(tid); else b->wait(tid);
      for (int k = 1; k <= n; ++k) {
        int t = (tid + k) % n;
        int p = phase[t], v = cell[t];
        // nobody may still be before this episode, nobody may be past the next one
        bool ok = p >= r + 1 && p <= r + 2 && v >= t * 1000 + r && v <= t * 1000 + r + 1;
        if (!ok && bad < 0) { badThread = tid; badOther = t; badValue = p; bad = r; }
      }
    }
  }
  e.badRound = bad; e.badThread = badThread; e.badOther = badOther; e.badValue = badValue;
}
static int addI(int a, int b) { return (int)((unsigned)a + (unsigned)b); }
static int maxI(int a, int b) { return a > b ? a : b; }
static int minI(int a, int b) { return a < b ? a : b; }
static int xorI(int a, int b) { return a ^ b; }
static double addD(double a, double b) { return a + b; }
static double maxD(double a, double b) { return a > b ? a : b; }
static double minD(double a, double b) { return a < b ? a : b; }
template <class T> static void reduceEpisodes(int cores, int tpc, int rounds, T (*f)(T, T), T zero, const T *in, T *out, const int *delay) {
  int n = cores * tpc;
  synk::ReduceBarrier<T> *bar = new synk::ReduceBarrier<T>(cores, tpc);
#pragma omp parallel num_threads(n)
  {
    int tid = omp_get_thread_num();
    bar->init(tid);
    for (int r = 0; r < rounds; ++r) {
      dawdle(delay, tid * 7 + r);
      out[r * n + tid] = bar->wait(tid, zero, in[r * n + tid], f);
    }
  }
  delete bar;
}
void reduceEpisodesInt(int cores, int tpc, int rounds, int op, int zero, const int *in, int *out, const int *delay) {
  int (*fs[])(int, int) = {addI, maxI, minI, xorI};
  reduceEpisodes<int>(cores, tpc, rounds, fs[op], zero, in, out, delay);
}
void reduceEpisodesDouble(int cores, int tpc, int rounds, int op, double zero, const double *in, double *out, const int *delay) {
  double (*fs[])(double, double) = {addD, maxD, minD};
  reduceEpisodes<double>(cores, tpc, rounds, fs[op], zero, in, out, delay);
}
} // namespace kern

#include "reordering/BitVector.hpp"
namespace kern {
void bitVectorOps(SpMP::BitVector *bv, BitOp *ops, const int *start, int nthreads) {
#pragma omp parallel num_threads(nthreads)
  {
    int tid = omp_get_thread_num();
    for (int k = start[tid]; k < start[tid + 1]; ++k) {
      if (ops[k].op == 1) bv->atomicClear(ops[k].bit); else if (ops[k].op == 2) bv->set(ops[k].bit); else ops[k].result = bv->testAndSet(ops[k].bit);
    }
  }
}
} // namespace kern
