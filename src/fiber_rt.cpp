// Deterministic user-level OpenMP runtime with owned schedule.
//
// The library is compiled with -fopenmp -fsanitize=thread but linked against
// this file instead of libgomp/libtsan.  Threads are fibers on one OS thread,
// so a run is a pure function of the schedule seed.  Every instrumented access
// (__tsan_readN/__tsan_writeN/__tsan_atomic*) is a potential context switch.
// The heap is a shadowed bump arena: out-of-bounds and use-after-free accesses
// from instrumented code are reported at the access.
// Memory model: sequential consistency only.
#include "rt.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace pbt { const char *flavour = "fiber"; }

// ------------------------------------------------------------------ heap
static char *arena = nullptr;
static unsigned char *shadow = nullptr;       // 1 = addressable
static const size_t ARENA = 3ull << 30;
static size_t arenaTop = 0;
static int fillByte = 0xBE;
static bool checking = false;                  // report bad accesses
static bool bumping = false;

struct Hdr { size_t size, magic; };
static const size_t MAGIC = 0x5ca1ab1e0ddba11ull;

static void initArena() {
  arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (unsigned char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED || shadow == MAP_FAILED) { static const char m[] = "arena mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
}
static void *arenaAlloc(size_t n, size_t align) {
  if (!arena) initArena();
  if (align < 16) align = 16;
  if (n > ARENA / 2) return nullptr;
  size_t off = arenaTop + 64 + sizeof(Hdr);     // leading redzone
  off = (off + align - 1) / align * align;
  if (off + n + 64 > ARENA) return nullptr;
  arenaTop = off + n + 32;                      // trailing redzone
  Hdr *h = (Hdr *)(arena + off) - 1;
  h->size = n;
  h->magic = MAGIC;
  memset(shadow + off, 1, n);
  if (bumping) memset(arena + off, fillByte, n);
  return arena + off;
}
static inline bool inArena(const void *p) { return (size_t)((const char *)p - arena) < ARENA && arena; }
static pbt::Ctx *curCtx = nullptr;
[[noreturn]] static void rtFail(const char *fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (curCtx) { checking = false; curCtx->fail("%s", b); }
  fprintf(stderr, "%s\n", b);
  _exit(101);
}
extern "C" {
void *malloc(size_t n) { return arenaAlloc(n, 16); }
void *calloc(size_t a, size_t b) { void *p = arenaAlloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void free(void *p) {
  if (!p) return;
  if (!inArena(p)) { if (checking) rtFail("free of a pointer that is not a heap block"); return; }
  Hdr *h = (Hdr *)p - 1;
  size_t off = (char *)p - arena;
  if (h->magic != MAGIC || (h->size && !shadow[off])) { if (checking) rtFail("invalid or double free"); return; }
  memset(shadow + off, 0, h->size);
}
void *realloc(void *p, size_t n) {
  void *q = arenaAlloc(n, 16);
  if (p && q) { Hdr *h = (Hdr *)p - 1; memcpy(q, p, h->size < n ? h->size : n); free(p); }
  return q;
}
int posix_memalign(void **pp, size_t al, size_t n) { void *q = arenaAlloc(n, al); if (!q) return ENOMEM; *pp = q; return 0; }
void *aligned_alloc(size_t al, size_t n) { return arenaAlloc(n, al); }
void *memalign(size_t al, size_t n) { return arenaAlloc(n, al); }
void *valloc(size_t n) { return arenaAlloc(n, 4096); }
void *pvalloc(size_t n) { return arenaAlloc((n + 4095) & ~4095ul, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
}

// ------------------------------------------------------------------ fibers
struct Team;
struct Fiber {
  void *sp;
  char *stack;
  enum { RUN, BARRIER, LOCKWAIT, DONE } st;
  int tid;
  Team *team;
  long singles, loops, sections;
  void *lock;
  double weight;
  int prio;
  // serialized nested regions
  int nest;
};
struct LoopState { long id; long next, end, incr, chunk; bool guided; int users; };
struct Team {
  int n;
  long singleDone;         // number of single regions already claimed
  void *copypriv;
  LoopState loops[64];
  int arrived;
  int alive;
};
static const size_t STK = 512 * 1024;
static const int MAXF = 256;
static Fiber fibers[MAXF];
static Fiber *cur = nullptr;    // null: master context outside a parallel region
static Team *team = nullptr;
static void *mainSp;
static int nf = 0;
static int g_threads = 1;
static int serialNest = 0;      // team-of-1 regions in the master context

static uint64_t srng = 88172645463325252ull;
static inline uint64_t rnd() { srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17; return srng * 0x2545F4914F6CDD1Dull; }
static inline uint64_t rndn(uint64_t n) { return (uint64_t)(((unsigned __int128)rnd() * n) >> 64); }

static int mode = 0;            // 0: no preemption, 1: random, 2: weighted random, 3: priorities
static long period = 64;        // mean accesses between preemptions
static long countdown = 1 << 30;
static unsigned long long nswitch = 0, steps = 0, stepLimit = 400000000ull;
static long sinceWrite = 0;     // instrumented accesses since the last write by anyone
static bool quietFlag = true;

extern "C" void fib_switch(void **save, void *to);
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fib_switch,.-fib_switch
.section .note.GNU-stack,"",@progbits
.text
)");

static void (*g_fn)(void *);
static void *g_data;

// how long threads may spin in vain before everyone gets the same chance to run. In a long region everyone has
// it, with short turns, so that an unfair schedule delays a terminating program but cannot exhaust the step limit
static long fairAfter() { return steps < 5000000 ? 200000 : 20000; }
static void newCountdown() {
  if (mode == 0 || quietFlag || !cur) countdown = 1 << 30;
  else if (sinceWrite > 2 * fairAfter()) countdown = 1 + (long)rndn(16);
  else countdown = 1 + (long)rndn(2 * (steps < 10000000 ? period : std::min(period, 16L)));
}

static Fiber *pickNext() {
  int run[MAXF], k = 0;
  for (int i = 0; i < nf; ++i) if (fibers[i].st == Fiber::RUN) run[k++] = i;
  if (!k) return nullptr;
  if (mode == 0) {
    for (int i = 0; i < k; ++i) if (&fibers[run[i]] == cur) return cur;
    return &fibers[run[0]];
  }
  if (mode == 1 || steps > 10000000 || sinceWrite > fairAfter()) return &fibers[run[rndn(k)]];
  if (mode == 2) {
    double tot = 0;
    for (int i = 0; i < k; ++i) tot += fibers[run[i]].weight;
    double x = (double)(rnd() >> 11) / 9007199254740992.0 * tot;
    for (int i = 0; i < k; ++i) { x -= fibers[run[i]].weight; if (x <= 0) return &fibers[run[i]]; }
    return &fibers[run[k - 1]];
  }
  // priorities with random changes; spinning fibers are demoted by the hook
  if (cur && cur->st == Fiber::RUN && sinceWrite > 300) {
    int lo = INT_MAX;
    for (int i = 0; i < nf; ++i) if (fibers[i].prio < lo) lo = fibers[i].prio;
    cur->prio = lo - 1;
  } else if (cur && rndn(4) == 0) cur->prio = (int)rndn(1 << 20);
  Fiber *b = &fibers[run[0]];
  for (int i = 1; i < k; ++i) if (fibers[run[i]].prio > b->prio) b = &fibers[run[i]];
  return b;
}

static void describeBlocked(char *b, size_t n) {
  size_t l = 0;
  for (int i = 0; i < nf && l + 20 < n; ++i) {
    static const char *nm[] = {"running", "in omp barrier", "waiting for lock", "finished"};
    l += snprintf(b + l, n - l, "%s%d:%s", i ? ", " : "", i, nm[fibers[i].st]);
  }
}

static void reschedule() {
  Fiber *me = cur;
  Fiber *nx = pickNext();
  if (!nx) {
    bool allDone = true;
    for (int i = 0; i < nf; ++i) if (fibers[i].st != Fiber::DONE) allDone = false;
    if (!allDone) {
      char b[600];
      describeBlocked(b, sizeof b);
      rtFail("deadlock: no thread can run (%s)", b);
    }
    cur = nullptr;
    void *dummy;
    fib_switch(me ? &me->sp : &dummy, mainSp);
    return;
  }
  if (nx == me) { newCountdown(); return; }
  ++nswitch;
  cur = nx;
  newCountdown();
  if (me) fib_switch(&me->sp, nx->sp);
  else fib_switch(&mainSp, nx->sp);
  // resumed
}

static void fiberEntry() {
  g_fn(g_data);
  cur->st = Fiber::DONE;
  reschedule();
  abort();
}

static void __attribute__((noinline)) slowHook() {
  if (!cur || quietFlag || mode == 0) { countdown = 1 << 30; return; }
  if (steps > stepLimit) rtFail("step limit: parallel region did not finish after %llu accesses", steps);
  if (sinceWrite > 6000000) {
    char b[600];
    describeBlocked(b, sizeof b);
    rtFail("livelock: 6000000 consecutive reads without any write by any thread (%s)", b);
  }
  reschedule();
}
static inline void tick() {
  ++steps;
  if (--countdown <= 0) slowHook();
}
static void __attribute__((noinline)) badAccess(const void *p, size_t n, bool w) {
  checking = false;
  rtFail("invalid heap %s of %zu bytes (outside any live allocation)", w ? "write" : "read", n);
}
static inline void chk(const void *p, size_t n, bool w) {
  if (!checking) return;
  size_t off = (const char *)p - arena;
  if (off < ARENA) {
    if (!(shadow[off] & shadow[off + n - 1])) badAccess(p, n, w);
  }
}
// spinning threads in mode 0 (no preemption) would hang; force progress
static inline void rd(const void *p, size_t n) {
  chk(p, n, false);
  ++sinceWrite;
  if (__builtin_expect(mode == 0 && cur && sinceWrite > 2000000, 0)) { mode = 1; period = 64; newCountdown(); }
  tick();
}
static inline void wr(const void *p, size_t n) {
  chk(p, n, true);
  tick();
  sinceWrite = 0;
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(N)                                                     \
  void __tsan_read##N(void *p) { rd(p, N); }                       \
  void __tsan_write##N(void *p) { wr(p, N); }                      \
  void __tsan_unaligned_read##N(void *p) { rd(p, N); }             \
  void __tsan_unaligned_write##N(void *p) { wr(p, N); }            \
  void __tsan_volatile_read##N(void *p) { rd(p, N); }              \
  void __tsan_volatile_write##N(void *p) { wr(p, N); }             \
  void __tsan_unaligned_volatile_read##N(void *p) { rd(p, N); }    \
  void __tsan_unaligned_volatile_write##N(void *p) { wr(p, N); }   \
  void __tsan_read##N##_pc(void *p, void *) { rd(p, N); }          \
  void __tsan_write##N##_pc(void *p, void *) { wr(p, N); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { if (n) rd(p, n); }
void __tsan_write_range(void *p, size_t n) { if (n) wr(p, n); }
void __tsan_vptr_update(void **p, void *) { wr(p, 8); }
void __tsan_vptr_read(void **p) { rd(p, 8); }
#define AT(B, T)                                                                                              \
  T __tsan_atomic##B##_load(const volatile T *p, int) { rd((void *)p, sizeof(T)); return *p; }                \
  void __tsan_atomic##B##_store(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); *p = v; }                \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { wr((void *)p, sizeof(T)); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                        \
    wr((void *)p, sizeof(T)); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; }                \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {                          \
    wr((void *)p, sizeof(T)); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; }                \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                              \
    wr((void *)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { tick(); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- OpenMP
static inline bool inTeam() { return cur && cur->nest == 0; }
int omp_get_num_threads() { return inTeam() ? team->n : 1; }
int omp_get_thread_num() { return inTeam() ? cur->tid : 0; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
int omp_in_parallel() { return cur && team->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return MAXF; }
int omp_get_level() { return cur ? 1 + cur->nest : serialNest; }
int omp_get_active_level() { return cur ? 1 : 0; }
double omp_get_wtime() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + 1e-6 * tv.tv_usec; }
double omp_get_wtick() { return 1e-6; }

static void startTeam(int n) {
  static Team t;
  memset(&t, 0, sizeof t);
  t.n = t.alive = n;
  team = &t;
  if (n > MAXF) rtFail("harness: team too large");
  nf = n;
  for (int i = 0; i < n; ++i) {
    Fiber &f = fibers[i];
    if (!f.stack) {
      f.stack = (char *)mmap(0, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(f.stack, 4096, PROT_NONE);
    }
    f.st = Fiber::RUN;
    f.tid = i;
    f.team = team;
    f.singles = f.loops = f.sections = 0;
    f.nest = 0;
    f.prio = (int)rndn(1 << 20);
    f.weight = mode == 2 ? 1.0 / (double)(1ull << rndn(9)) : 1.0;
    // what a thread finds in variables it never set depends on the case alone, not on earlier cases
    memset(f.stack + 4096 + STK - 8192, fillByte, 8192);
    void **sp = (void **)(f.stack + 4096 + STK);
    *--sp = nullptr;                 // alignment pad
    *--sp = (void *)fiberEntry;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp;
  }
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
  int n = nt ? (int)nt : g_threads;
  if (cur) { cur->nest++; fn(data); cur->nest--; return; }  // nested: serialized
  if (n <= 1) { serialNest++; fn(data); serialNest--; return; }
  void (*sfn)(void *) = g_fn; void *sd = g_data;
  g_fn = fn; g_data = data;
  startTeam(n);
  cur = nullptr;
  sinceWrite = 0;
  reschedule();                       // returns when all fibers are done
  cur = nullptr;
  team = nullptr;
  nf = 0;
  g_fn = sfn; g_data = sd;
}
static void barrier_() {
  if (!inTeam()) return;
  sinceWrite = 0;
  cur->st = Fiber::BARRIER;
  int waiting = 0;
  for (int i = 0; i < nf; ++i) if (fibers[i].st == Fiber::BARRIER) ++waiting;
  if (waiting == nf) {
    for (int i = 0; i < nf; ++i) fibers[i].st = Fiber::RUN;
    if (mode == 0) return;
  }
  reschedule();
}
void GOMP_barrier() { barrier_(); }
bool GOMP_barrier_cancel() { barrier_(); return false; }
bool GOMP_single_start() {
  if (!inTeam()) return true;
  tick();
  long k = cur->singles++;
  if (team->singleDone == k) { team->singleDone = k + 1; return true; }
  return false;
}
void *GOMP_single_copy_start() {
  if (!inTeam()) return nullptr;
  if (GOMP_single_start()) return nullptr;
  barrier_();
  void *r = team->copypriv;
  barrier_();
  return r;
}
void GOMP_single_copy_end(void *d) {
  if (!inTeam()) return;
  team->copypriv = d;
  barrier_();
  barrier_();
}
// locks -------------------------------------------------------------------
struct LockTab { void *key; Fiber *owner; int depth; };
static LockTab lockTab[64];
static LockTab *findLock(void *k) {
  for (auto &l : lockTab) { if (l.key == k) return &l; if (!l.key) { l.key = k; return &l; } }
  rtFail("harness: too many locks");
}
static void lockAcq(void *k) {
  if (!cur) return;
  tick();
  LockTab *l = findLock(k);
  while (l->owner && l->owner != cur) { cur->st = Fiber::LOCKWAIT; cur->lock = k; reschedule(); }
  if (l->owner == cur) rtFail("deadlock: lock taken twice by the same thread");
  l->owner = cur;
}
static void lockRel(void *k) {
  if (!cur) return;
  LockTab *l = findLock(k);
  l->owner = nullptr;
  sinceWrite = 0;
  for (int i = 0; i < nf; ++i) if (fibers[i].st == Fiber::LOCKWAIT && fibers[i].lock == k) fibers[i].st = Fiber::RUN;
  tick();
}
static char atomicKey, critKey;
void GOMP_atomic_start() { lockAcq(&atomicKey); }
void GOMP_atomic_end() { lockRel(&atomicKey); }
void GOMP_critical_start() { lockAcq(&critKey); }
void GOMP_critical_end() { lockRel(&critKey); }
void GOMP_critical_name_start(void **p) { lockAcq(p); }
void GOMP_critical_name_end(void **p) { lockRel(p); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lockAcq(p); }
void omp_unset_lock(void *p) { lockRel(p); }
int omp_test_lock(void *p) { if (!cur) return 1; tick(); LockTab *l = findLock(p); if (l->owner) return 0; l->owner = cur; return 1; }
// work-shared loops ---------------------------------------------------------
static bool loopNext_(LoopState *L, long *a, long *b) {
  tick();
  long left = L->incr > 0 ? (L->end - L->next + L->incr - 1) / L->incr : (L->next - L->end - L->incr - 1) / -L->incr;
  if (left <= 0) return false;
  long c = L->chunk;
  if (L->guided) { long g = left / (2 * (team ? team->n : 1)); if (g > c) c = g; }
  if (c > left) c = left;
  *a = L->next;
  L->next += c * L->incr;
  *b = L->next;
  return true;
}
static LoopState serialLoop[16];
static int serialDepth = 0;
static LoopState *curLoop() {
  if (!inTeam()) return &serialLoop[serialDepth & 15];
  return &team->loops[(cur->loops - 1) & 63];
}
static bool loopStart_(long start, long end, long incr, long chunk, bool guided, long *a, long *b) {
  if (chunk < 1) chunk = 1;
  LoopState *L;
  if (!inTeam()) {
    L = &serialLoop[++serialDepth & 15];
    *L = LoopState{0, start, end, incr, chunk, guided, 1};
  } else {
    long id = ++cur->loops;
    L = &team->loops[(id - 1) & 63];
    if (L->id != id) *L = LoopState{id, start, end, incr, chunk, guided, 0};
  }
  return a ? loopNext_(L, a, b) : true;
}
#define LOOPS(NAME, G)                                                                                           \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return loopStart_(s, e, i, c, G, a, b); } \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return loopNext_(curLoop(), a, b); }
LOOPS(dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, true) LOOPS(static, false)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart_(s, e, i, 1, false, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loopNext_(curLoop(), a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart_(s, e, i, 1, false, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loopNext_(curLoop(), a, b); }
void GOMP_loop_end() { if (!inTeam()) --serialDepth; else barrier_(); }
void GOMP_loop_end_nowait() { if (!inTeam()) --serialDepth; }
#define ULOOPS(NAME, G)                                                                                          \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { \
    return loopStart_((long)s, (long)e, (long)i, (long)c, G, (long *)a, (long *)b); }                             \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { return loopNext_(curLoop(), (long *)a, (long *)b); }
ULOOPS(dynamic, false) ULOOPS(guided, true) ULOOPS(nonmonotonic_dynamic, false) ULOOPS(nonmonotonic_guided, true)
struct PL { void (*fn)(void *); void *data; long s, e, i, c; bool g; };
static void plRun(void *v) {
  PL *p = (PL *)v;
  if (!inTeam()) { LoopState *L = &serialLoop[++serialDepth & 15]; *L = LoopState{0, p->s, p->e, p->i, p->c < 1 ? 1 : p->c, p->g, 1}; }
  else { long id = ++cur->loops; LoopState *L = &team->loops[(id - 1) & 63]; if (L->id != id) *L = LoopState{id, p->s, p->e, p->i, p->c < 1 ? 1 : p->c, p->g, 0}; }
  p->fn(p->data);
}
#define PLOOP(NAME, G)                                                                                          \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { \
    PL p{fn, d, s, e, i, c, G}; GOMP_parallel(plRun, &p, nt, fl); }
PLOOP(dynamic, false) PLOOP(guided, true) PLOOP(nonmonotonic_dynamic, false) PLOOP(nonmonotonic_guided, true) PLOOP(static, false)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { PL p{fn, d, s, e, i, 1, false}; GOMP_parallel(plRun, &p, nt, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { PL p{fn, d, s, e, i, 1, false}; GOMP_parallel(plRun, &p, nt, fl); }
// sections as a dynamic loop over 1..n
unsigned GOMP_sections_start(unsigned n) { long a, b; return loopStart_(1, (long)n + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loopNext_(curLoop(), &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned cnt, unsigned fl) { PL p{fn, d, 1, (long)cnt + 1, 1, 1, false}; GOMP_parallel(plRun, &p, nt, fl); }
// tasks run immediately
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpyfn) { char *b = (char *)__builtin_alloca(sz + al); char *a = (char *)(((size_t)b + al - 1) / al * al); cpyfn(a, data); fn(a); }
  else { char *b = (char *)__builtin_alloca(sz + al); char *a = (char *)(((size_t)b + al - 1) / al * al); memcpy(a, data, sz); fn(a); }
}
void GOMP_taskwait() {}
void GOMP_taskyield() { if (cur) reschedule(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int sched_yield() { if (cur && !quietFlag) reschedule(); return 0; }
} // extern "C"

namespace rt {
const bool isFiber = true;
const int maxThreadsHint = 64;
static const int fills[] = {0x00, 0xff, 0xbe, 0x01, 0x7f};
static __attribute__((noinline)) void fillStack(int b) {
  volatile char a[65536];
  memset((void *)a, b, sizeof a);
  asm volatile("" : : "r"(a) : "memory");
}
int begin(pbt::Ctx &c, int maxThreads) {
  int n = c.chance(1, 6) ? c.range(1, maxThreads) : c.range(1, maxThreads < 8 ? maxThreads : 8);
  if (maxThreads >= 12 && c.chance(1, 150)) n = c.range(17, 96); // far more threads than rows, levels or components
  fillByte = fills[c.draw(4)];
  bumping = true;
  static const long periods[] = {2000, 1, 2, 4, 8, 24, 100, 500};
  mode = (int)c.draw(3);
  period = periods[c.draw(7)];
  srng = c.seed64() | 1;
  for (int i = 0; i < 4; ++i) rnd();
  curCtx = &c;
  fillStack(fillByte);
  g_threads = n;
  steps = 0;
  nswitch = 0;
  sinceWrite = 0;
  quietFlag = false;
  checking = true;
  c.label("schedule:%s", mode == 0 ? "run-to-block" : mode == 1 ? "random" : mode == 2 ? "weighted" : "priority");
  c.label("threads:%s", n == 1 ? "1" : n <= 4 ? "2-4" : n <= 8 ? "5-8" : n <= 32 ? "9-32" : "33+");
  return n;
}
void setThreads(int n) { g_threads = n; }
void quiet(bool q) { quietFlag = q; newCountdown(); }
unsigned long long switches() { return nswitch; }
} // namespace rt
