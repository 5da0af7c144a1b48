// Code that plays the role of the library's client inside parallel regions.
// Compiled with the library's own flags so that the fiber scheduler can preempt it.
#pragma once
#include "CSR.hpp"
#include "LevelSchedule.hpp"
#include <vector>
namespace kern {
struct Part { int begin, end; };
void simplePartition(int n, std::vector<Part> &out);                 // one entry per thread
void balancedPartition(const int *prefix, int n, std::vector<Part> &out);
void runPrefixSum(const std::vector<int> &in, std::vector<int> &out, std::vector<int> &sums, int rounds);
void runPrefixSumMultiple(const std::vector<int> &in, int n, std::vector<int> &out, std::vector<int> &sum, int rounds);
void memopsInParallel(void *dst, const void *src, int c, size_t n, bool set);
int teamSize();
} // namespace kern
namespace SpMP { class LevelSchedule; }
namespace kern {
// client sweeps under a schedule; perm == NULL means the matrix is already in thread-contiguous order
struct SweepArgs {
  int m, base; const int *rowptr, *colidx; const double *values, *idiag;
  double *y; const double *b;
};
void sweepP2P(const SpMP::LevelSchedule &s, const SweepArgs &a, const int *perm, bool backward, bool triangular);
// the bare wait/notify protocol: missed[t] is a parent that task t did not find worked off, or -1
void protocol(const short *nparents, int **parents, volatile int *taskFinished, const int *threadBoundaries, volatile int *work, int *missed);
void sweepBarrier(const SpMP::LevelSchedule &s, const SweepArgs &a, const int *perm, bool backward, bool triangular);
// backward GS, then w = A*y where SpMV tasks wait only for the parents the fused schedule lists.
// shift: SpMV tasks of thread t are executed by thread (t + shift) % n
void sweepFused(const SpMP::LevelSchedule &s, const SweepArgs &a, const int *perm, double *w, int shift);
} // namespace kern
namespace kern {
// ---- synchronisation primitives driven by a team ------------------------------------------------
struct Episodes { // what every thread saw; phase[t] counts the episodes thread t has entered
  int n, rounds;
  volatile int *phase;        // n
  volatile int *cell;         // n plain cells, rewritten before every episode
  int badRound, badThread, badOther, badValue;   // first violation (badRound < 0: none)
};
enum { VIA_OBJECT, VIA_SINGLETON };
void barrierEpisodes(void *barrier, int via, bool init, Episodes &e, const int *delay);
// T-valued reducing barrier; in[r*n + t] contributed by thread t in episode r, out likewise
void reduceEpisodesInt(int cores, int tpc, int rounds, int op, int zero, const int *in, int *out, const int *delay);
void reduceEpisodesDouble(int cores, int tpc, int rounds, int op, double zero, const double *in, double *out, const int *delay);
} // namespace kern
namespace SpMP { class BitVector; }
namespace kern {
struct BitOp { int bit; int op; bool result; }; // op: 0 testAndSet, 1 atomicClear, 2 set
// thread t performs ops[start[t]..start[t+1]) in order
void bitVectorOps(SpMP::BitVector *bv, BitOp *ops, const int *start, int nthreads);
} // namespace kern
