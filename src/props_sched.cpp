// P01 dependencies ordered, P02 schedule bookkeeping, P03 scheduled sweeps, P04 barrier mode,
// P05 fused GS+SpMV, P06 transitive reduction
#include "gen.hpp"
#include "kernels.hpp"
#include "LevelSchedule.hpp"
#include "barrier.hpp"
using namespace SpMP;

namespace {
struct Opt { bool barrier = false, reduce = true, fuse = false, agg = false, pool = false; int api = 0, cost = 0; };
struct Cost : CostFunction { VI v; int getCostOf(int r) const { return v[r]; } };
struct Task { int begin, end, thread; };
typedef std::vector<VI> Lists;
struct Sched { // everything the schedule publishes, validated for range
  int nt, n; VI o2t, t2o, tb, thb, lev; Lists pf, pb, pfused; std::vector<Task> tasks; VI taskOf, levOf;
};
struct Bits { // square boolean matrix
  int n, w; std::vector<uint64_t> b;
  explicit Bits(int n) : n(n), w((n + 63) / 64), b((size_t)n * w) {}
  void set(int i, int j) { b[(size_t)i * w + j / 64] |= 1ull << (j % 64); }
  bool get(int i, int j) const { return b[(size_t)i * w + j / 64] >> (j % 64) & 1; }
  void orRow(int i, int j) { for (int k = 0; k < w; ++k) b[(size_t)i * w + k] |= b[(size_t)j * w + k]; }
};

// levels of rows that are hubs, or wide, or thin: exercises the serial/parallel switch of the level finder
Mat layered(Ctx &c, int maxN) {
  static const int widths[] = {1, 2, 5, 13, 40, 63, 64, 70, 130, 200};
  VI start(1, 0);
  bool deep = c.chance(1, 6), collect = c.chance(1, deep ? 2 : 6); // deep + collector: one task may wait for more than 127 (or 255) others
  int L = deep ? c.range(20, maxN > 420 ? 100 : 45) : c.range(1, 6);
  for (int l = 0; l < L; ++l) { int w = deep ? c.range(4, 8) : widths[c.draw(9)]; if (start.back() + w > maxN) w = std::max(0, maxN - start.back()); if (!w) break; start.push_back(start.back() + w); }
  int n = start.back();
  std::vector<std::set<int>> adj(n + collect);
  if (collect) {
    int skip = c.chance(1, 2) ? 0 : c.range(2, 9);
    for (int i = 0; i < n; ++i) if (!skip || i % skip) { adj[i].insert(n); adj[n].insert(i); }
    ++n; c.label("graph:collector");
  }
  for (size_t l = 1; l + 1 < start.size(); ++l) {
    int kind = (int)c.draw(3), lo = start[l - 1], hi = start[l], extra = c.range(0, 2);
    for (int i = start[l]; i < start[l + 1]; ++i) {
      int p = kind == 0 ? c.range(lo, hi - 1) : kind == 1 ? lo + (i - start[l]) % (hi - lo) : kind == 2 ? lo : hi - 1;  // 2, 3: one hub feeds the level
      adj[i].insert(p); adj[p].insert(i);
      for (int e = 0; e < extra; ++e) { int q = c.range(0, hi - 1); adj[i].insert(q); adj[q].insert(i); }
    }
  }
  c.label("graph:layered");
  Mat A; A.resize(n, n);
  for (int i = 0; i < n; ++i) { for (int j : adj[i]) A.rows[i].push_back({j, 1}); A.rows[i].push_back({i, 1}); }
  return A;
}
// symmetric pattern, full diagonal, rows partially sorted (lower, diagonal, upper), dominant diagonal
Mat schedMat(Ctx &c, int maxN) {
  MatOpts h; h.maxN = maxN; h.minN = 1500; h.symPattern = h.diag = h.sorted = true;
  Mat A = maxN >= 1500 ? genMat(c, h) : c.chance(1, 4) ? layered(c, std::max(maxN, c.chance(1, 12) ? 640 : rt::isFiber ? 260 : 420)) : genSymGraph(c, 1, maxN, true);
  bool shuffle = c.chance(1, 3);
  for (int i = 0; i < A.m; ++i) {
    auto &r = A.rows[i];
    std::sort(r.begin(), r.end());
    if (shuffle) {
      size_t d = 0; while (r[d].first != i) ++d;
      for (size_t k = d; k > 1; --k) std::swap(r[k - 1], r[c.draw(k - 1)]);
      for (size_t k = r.size() - 1; k > d + 1; --k) std::swap(r[k], r[d + 1 + c.draw(k - d - 1)]);
    }
    int deg = (int)r.size();
    for (auto &e : r) e.second = e.first == i ? 2.0 * deg + 1 : -1.0 + ((i * 7 + e.first * 3) % 5) / 8.0;
  }
  return A;
}
Opt genOpt(Ctx &c) {
  Opt o;
  o.reduce = !c.chance(1, 3); o.agg = c.chance(1, 4); o.fuse = c.chance(1, 4); o.barrier = c.chance(1, 8); o.pool = c.chance(1, 6);
  o.api = (int)c.draw(4); o.cost = (int)c.draw(4);
  return o;
}
std::string showOpt(const Opt &o) {
  char b[160]; snprintf(b, sizeof b, "reduce=%d barrier=%d fuse=%d aggregate=%d pool=%d api=%d cost=%d", o.reduce, o.barrier, o.fuse, o.agg, o.pool, o.api, o.cost);
  return b;
}
Cost genCost(Ctx &c, const Mat &M, int kind) {
  Cost f; f.v.resize(M.m, 1);
  for (int i = 0; i < M.m; ++i) f.v[i] = kind == 1 ? 1 : kind == 2 ? c.range(1, 20) : kind == 3 ? (c.chance(1, 8) ? 1000 : 1) : (int)M.rows[i].size();
  return f;
}
int begin(Ctx &c) { int n = rt::begin(c, 16); synk::Barrier::deleteInstance(); return n; }
int maxN(Ctx &c) { if (!rt::isFiber && c.chance(1, c.thorough ? 120 : 300)) return 5000; return c.chance(1, 60) ? (rt::isFiber ? 300 : 700) : c.thorough && c.chance(1, 6) ? 300 : c.chance(1, 8) ? 140 : 48; }

struct World { // a matrix and what is needed to build schedules for it
  Mat M, F; VI len; bool halo; int base; CsrBox B; Cost cost; Opt o; Arr<int> dp; // F is M plus external columns, which must not matter
  World(Ctx &c, const Mat &M_, int base, const Opt &o_) : M(M_), F(M_), halo(widen(c)), base(base), B(F, base, true, true, true), cost(genCost(c, M, o_.cost)), o(o_), dp(M.m) {
    for (int i = 0; i < M.m; ++i) dp[i] = B.A->diagptr[i];
    if (halo) { B.setExt(len, base); if (o.api == 1 || o.api == 2) o.api += 2; }
    if (o.pool) {
      size_t need = ((size_t)F.nnz() * 40 + M.m * 400 + 900000);
      static size_t have = 0;   // reset by the fork of every batch
      MemoryPool *p = MemoryPool::getSingleton();
      if (have < need) { if (have) p->finalize(); have = 2 * need; p->initialize(have); }
      else p->deallocateAll();
    }
  }
  bool widen(Ctx &c) { if (!c.chance(1, 6)) return false; len = fatten(c, F); return true; }
  void build(LevelSchedule &s) {
    CSR *A = B.A;
    s.useBarrier = o.barrier; s.transitiveReduction = o.reduce; s.fuseSpMV = o.fuse; s.aggregateForVectorization = o.agg; s.useMemoryPool = o.pool;
    PrefixSumCostFunction pc(A->rowptr);
    const CostFunction &f = o.cost == 0 ? (const CostFunction &)pc : (const CostFunction &)cost;
    switch (o.api) {
    case 0: if (o.cost == 0) s.constructTaskGraph(*A); else s.constructTaskGraph(*A, f); break;
    case 1: s.constructTaskGraph(M.m, A->rowptr, A->colidx, f); break;
    case 2: s.constructTaskGraph(M.m, A->rowptr, dp, A->colidx, f); break;
    default: s.constructTaskGraph(M.m, A->rowptr, dp, halo ? A->extptr : A->rowptr + 1, A->colidx, f); break;
    }
  }
};

void takeLists(Ctx &c, Lists &out, int n, const short *cnt, int *const *ptr, const char *what) {
  out.resize(n);
  for (int i = 0; i < n; ++i) {
    CHECK(c, cnt[i] >= 0, "%s: task %d lists %d parents", what, i, cnt[i]);
    for (int k = 0; k < cnt[i]; ++k) {
      int p = ptr[i][k];
      CHECK(c, p >= 0 && p < n, "%s: task %d lists parent %d, but there are %d tasks", what, i, p, n);
      out[i].push_back(p);
    }
  }
}
Sched snapshot(Ctx &c, const LevelSchedule &s, const Mat &M, int nt, bool fuse) {
  Sched r; r.nt = nt; r.n = s.ntasks;
  int m = M.m;
  CHECK(c, (int)s.threadBoundaries.size() == nt + 1, "%zu thread boundaries for %d threads", s.threadBoundaries.size(), nt);
  CHECK(c, s.ntasks >= 0 && (int)s.taskBoundaries.size() == s.ntasks + 1, "%zu task boundaries for %d tasks", s.taskBoundaries.size(), s.ntasks);
  r.tb = s.taskBoundaries; r.thb = s.threadBoundaries; r.lev = s.levIndices;
  r.o2t.assign(s.origToThreadContPerm, s.origToThreadContPerm + m);
  r.t2o.assign(s.threadContToOrigPerm, s.threadContToOrigPerm + m);
  CHECK(c, r.thb[0] == 0 && r.thb[nt] == r.n, "threads own tasks [%d,%d) of [0,%d)", r.thb[0], r.thb[nt], r.n);
  for (int t = 0; t < nt; ++t) CHECK(c, r.thb[t] <= r.thb[t + 1], "thread boundaries decrease at thread %d: %s", t, show(r.thb).c_str());
  CHECK(c, r.tb[0] == 0 && r.tb[r.n] == m, "tasks cover rows [%d,%d) of [0,%d)", r.tb[0], r.tb[r.n], m);
  for (int k = 0; k < r.n; ++k) CHECK(c, r.tb[k] <= r.tb[k + 1], "task boundaries decrease at task %d: %s", k, show(r.tb).c_str());
  for (int i = 0; i < m; ++i) {
    CHECK(c, r.t2o[i] >= 0 && r.t2o[i] < m, "thread-contiguous row %d maps to row %d of %d", i, r.t2o[i], m);
    CHECK(c, r.o2t[r.t2o[i]] == i, "the permutations are not mutually inverse at thread-contiguous row %d", i);
  }
  r.tasks.resize(r.n); r.taskOf.assign(m, -1);
  for (int t = 0; t < nt; ++t) for (int k = r.thb[t]; k < r.thb[t + 1]; ++k) {
    r.tasks[k] = {r.tb[k], r.tb[k + 1], t};
    for (int i = r.tb[k]; i < r.tb[k + 1]; ++i) r.taskOf[r.t2o[i]] = k;
  }
  takeLists(c, r.pf, r.n, s.nparentsForward, s.parentsForward, "forward");
  takeLists(c, r.pb, r.n, s.nparentsBackward, s.parentsBackward, "backward");
  if (fuse) {
    CHECK(c, s.fusedSchedule != nullptr, "no fused schedule although fuseSpMV is set");
    takeLists(c, r.pfused, r.n, s.fusedSchedule->nparents, s.fusedSchedule->parents, "fused");
  }
  for (int k = 0; k < r.n; ++k) CHECK(c, s.taskFinished[k] == 0, "finish flag of task %d is initially %d", k, s.taskFinished[k]);
  r.levOf.assign(m, 0);
  for (int i = 0; i < m; ++i) for (auto &e : M.rows[i]) if (e.first < i) r.levOf[i] = std::max(r.levOf[i], r.levOf[e.first] + 1);
  return r;
}
// who is certainly finished before whom: program order of each thread plus the listed waits
Bits happensBefore(Ctx &c, const Sched &s, bool backward) {
  int n = s.n;
  const Lists &par = backward ? s.pb : s.pf;
  Lists succ(n); VI deg(n, 0);
  auto edge = [&](int a, int b) { succ[a].push_back(b); ++deg[b]; };
  for (int k = 0; k < n; ++k) for (int p : par[k]) edge(p, k);
  for (int t = 0; t < s.nt; ++t) for (int k = s.thb[t]; k + 1 < s.thb[t + 1]; ++k) backward ? edge(k + 1, k) : edge(k, k + 1);
  VI q; for (int k = 0; k < n; ++k) if (!deg[k]) q.push_back(k);
  Bits R(n);
  for (size_t h = 0; h < q.size(); ++h) for (int b : succ[q[h]]) { R.orRow(b, q[h]); R.set(b, q[h]); if (!--deg[b]) q.push_back(b); }
  CHECK(c, (int)q.size() == n, "%s waits form a cycle: the sweep deadlocks", backward ? "backward" : "forward");
  return R;
}
void checkOrdered(Ctx &c, const Sched &s, const Mat &M, bool backward) {
  Bits R = happensBefore(c, s, backward);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) {
    if (backward ? e.first <= i : e.first >= i) continue;
    int a = s.taskOf[e.first], b = s.taskOf[i];
    if (a == b) CHECK(c, backward ? s.o2t[e.first] > s.o2t[i] : s.o2t[e.first] < s.o2t[i], "%s: row %d needs row %d, which its task %d processes later", backward ? "backward" : "forward", i, e.first, a);
    else CHECK(c, R.get(b, a), "%s: row %d (task %d, thread %d) needs row %d (task %d, thread %d) but nothing orders them", backward ? "backward" : "forward", i, b, s.tasks[b].thread, e.first, a, s.tasks[a].thread);
  }
}
void describe(Ctx &c, const World &w, int nt) { c.note("%s base=%d %s halo=%d threads=%d", show(w.F, 170).c_str(), w.base, showOpt(w.o).c_str(), w.halo, nt); }
void rate(Ctx &c, const Sched &s) {
  size_t e = 0, most = 0; for (auto *l : {&s.pf, &s.pb}) for (auto &p : *l) most = std::max(most, p.size());
  for (auto &p : s.pf) e += p.size();
  if (most > 127) c.label("waits of one task: %s", most > 255 ? ">255" : ">127");
  if (s.nt > 1 && e) c.nontrivial();
  c.label("levels:%s", s.lev.size() <= 2 ? "1" : s.lev.size() <= 5 ? "2-4" : s.lev.size() <= 17 ? "5-16" : ">16");
}
// the schedule must not live in memory the pool considers free
void scribblePool(bool pool) {
  if (!pool) return;
  MemoryPool *p = MemoryPool::getSingleton();
  for (int i = 0; i < 40; ++i) memset(i & 1 ? p->allocateFront(4096) : p->allocate(4096), 0x5c, 4096);
}

void p01(Ctx &c) {
  int nt = begin(c);
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), genOpt(c));
  describe(c, w, nt);
  LevelSchedule s;
  w.build(s);
  rt::Quiet q;
  scribblePool(w.o.pool);
  Sched r = snapshot(c, s, w.M, nt, false);
  checkOrdered(c, r, w.M, false);
  checkOrdered(c, r, w.M, true);
  rate(c, r);
}

void p02(Ctx &c) {
  int nt = begin(c);
  Opt o = genOpt(c);
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), o);
  describe(c, w, nt);
  LevelSchedule s;
  bool again = c.chance(1, 6);
  if (again) { World v(c, schedMat(c, 30), (int)c.draw(1), o); v.build(s); if (o.pool) MemoryPool::getSingleton()->deallocateAll(); }
  w.build(s);
  rt::Quiet q;
  scribblePool(o.pool);
  Sched r = snapshot(c, s, w.M, nt, o.fuse);
  int L = 0; for (int l : r.levOf) L = std::max(L, l + 1);
  VI cnt(L, 0); for (int l : r.levOf) ++cnt[l];
  CHECK(c, (int)r.lev.size() == L + 1, "%zu level boundaries for %d dependency levels", r.lev.size(), L);
  CHECK(c, r.lev[0] == 0, "levels start at %d", r.lev[0]);
  for (int l = 0; l < L; ++l) CHECK(c, r.lev[l + 1] - r.lev[l] == cnt[l], "level %d has %d rows, expected %d", l, r.lev[l + 1] - r.lev[l], cnt[l]);
  for (int t = 0; t < nt; ++t) {
    int prev = 0;
    for (int k = r.thb[t]; k < r.thb[t + 1]; ++k) for (int i = r.tb[k]; i < r.tb[k + 1]; ++i) {
      int l = r.levOf[r.t2o[i]];
      CHECK(c, i == r.tb[k] || l == prev, "task %d mixes rows of levels %d and %d", k, prev, l);
      CHECK(c, l >= prev, "thread %d processes level %d after level %d", t, l, prev);
      prev = l;
    }
  }
  for (int dir = 0; dir < 2; ++dir) for (int k = 0; k < r.n; ++k) {
    const VI &p = dir ? r.pb[k] : r.pf[k];
    std::set<int> seen;
    for (int x : p) {
      CHECK(c, r.tasks[x].thread != r.tasks[k].thread, "%s: task %d waits for task %d of its own thread", dir ? "backward" : "forward", k, x);
      CHECK(c, seen.insert(x).second, "%s: task %d waits for task %d twice", dir ? "backward" : "forward", k, x);
    }
  }
  for (int k = 0; k < r.n; ++k) s.taskFinished[k] = 1;
  rate(c, r);
  if (again) c.label("rebuilt");
}

// ---------------------------------------------------------------- execution
void reference(const Mat &M, VD &y, const VD &b, const VD &id, bool backward, bool tri) {
  for (int q = 0; q < M.m; ++q) {
    int i = backward ? M.m - 1 - q : q, len = (int)M.rows[i].size();
    double sum = b[i];
    for (int k = 0; k < len; ++k) { auto &e = M.rows[i][backward ? len - 1 - k : k]; sum -= e.second * y[e.first]; }
    if (tri) y[i] = sum * id[i]; else y[i] += sum * id[i];
  }
}
Mat triangle(const Mat &M, bool upper) { Mat T; T.resize(M.m, M.n); for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (upper ? e.first > i : e.first < i) T.rows[i].push_back(e); return T; }
void runSweeps(Ctx &c, World &w, LevelSchedule &s, const Sched &r, bool barrier) {
  int m = w.M.m;
  VD y(m), b(m), id(m);
  for (int i = 0; i < m; ++i) { y[i] = (i * 5 % 11) - 5; b[i] = (i * 3 % 7) - 2.5; id[i] = w.B.A->idiag[i]; }
  int rounds = c.range(1, 3); std::string seq;
  for (int k = 0; k < rounds; ++k) {
    bool backward = c.flip(), tri = c.flip(), permuted = c.flip();
    seq += std::string(" ") + (backward ? "bwd" : "fwd") + (tri ? "-trsv" : "-gs") + (permuted ? "-permuted" : "");
    Mat T = tri ? triangle(w.M, backward) : w.M;
    VD want = y;
    { rt::Quiet q; reference(T, want, b, id, backward, tri); }
    CsrBox TB(T, w.base, true, false, true);
    CSR *P = nullptr;
    VD yy(y), bb(b), ii(id);
    if (permuted) {
      P = TB.A->permute(s.origToThreadContPerm, s.threadContToOrigPerm);
      for (int i = 0; i < m; ++i) { yy[r.o2t[i]] = y[i]; bb[r.o2t[i]] = b[i]; ii[r.o2t[i]] = id[i]; }
    }
    const CSR *A = P ? P : TB.A;
    Arr<double> Y(yy), Bv(bb), I(ii);
    kern::SweepArgs a = {m, w.base, A->rowptr, A->colidx, A->values, I, Y, Bv};
    if (barrier) kern::sweepBarrier(s, a, permuted ? nullptr : s.threadContToOrigPerm, backward, tri);
    else kern::sweepP2P(s, a, permuted ? nullptr : s.threadContToOrigPerm, backward, tri);
    rt::Quiet q;
    for (int i = 0; i < m; ++i) {
      double got = Y[permuted ? r.o2t[i] : i];
      CHECK(c, memcmp(&got, &want[i], 8) == 0, "sweep%s: row %d is %.17g, the sequential sweep gives %.17g", seq.c_str(), i, got, want[i]);
    }
    y = want;
    delete P;
  }
  c.label("rounds:%d", rounds);
  c.note("%s base=%d %s threads=%d sweeps:%s", show(w.M, 150).c_str(), w.base, showOpt(w.o).c_str(), r.nt, seq.c_str());
}
void p03(Ctx &c) {
  int nt = begin(c);
  Opt o = genOpt(c); o.barrier = false;
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), o);
  describe(c, w, nt);
  LevelSchedule s;
  w.build(s);
  Sched r;
  { rt::Quiet q; scribblePool(o.pool); r = snapshot(c, s, w.M, nt, false); }
  runSweeps(c, w, s, r, false);
  rate(c, r);
}
// the protocol alone, on task graphs with parent lists of any length: task (t, p) may wait for any task of an earlier position
void p03protocol(Ctx &c) {
  int nt = begin(c);
  int K = c.chance(1, 5) ? c.range(13, 160) : c.range(1, 12), n = nt * K;
  Lists par(n); int longest = 0;
  for (int t = 0; t < nt; ++t)
    for (int p = 1; p < K; ++p) {
      VI &l = par[t * K + p];
      bool dense = c.chance(1, K > 12 ? 40 : 4) || (p == K - 1 && c.chance(1, 2));
      if (dense) { int skip = c.chance(1, 2) ? 0 : c.range(2, 9), upTo = p - c.range(0, 1); for (int u = 0; u < nt; ++u) for (int q = 0; u != t && q < upTo; ++q) if (!skip || (u * K + q) % skip) l.push_back(u * K + q); }
      else if (nt > 1) { for (int k = c.range(0, 2); k > 0; --k) { int u = c.range(0, nt - 2); if (u >= t) ++u; l.push_back(u * K + c.range(0, p - 1)); } std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); }
      longest = std::max(longest, (int)l.size());
    }
  std::vector<Arr<int> *> own; Arr<short> cnt(n); Arr<int *> lists(n); Arr<int> fin(n), work(n), missed(n, -2), thb(nt + 1);
  for (int i = 0; i < n; ++i) { own.push_back(new Arr<int>(par[i])); cnt[i] = (short)par[i].size(); lists[i] = *own[i]; }
  for (int t = 0; t <= nt; ++t) thb[t] = t * K;
  int rounds = c.range(1, 2);
  for (int r = 0; r < rounds; ++r) {
    for (int i = 0; i < n; ++i) { fin[i] = work[i] = 0; missed[i] = -2; }
    kern::protocol(cnt, lists, fin, thb, work, missed);
    rt::Quiet q;
    for (int i = 0; i < n; ++i) {
      CHECK(c, missed[i] == -1, "round %d: task %d with %d parents went on before its parent %d was done (%d threads, %d tasks each)", r, i, (int)cnt[i], missed[i], nt, K);
      CHECK(c, fin[i], "round %d: task %d is not marked finished", r, i);
    }
  }
  for (auto *a : own) delete a;
  c.label("parents:%s", longest == 0 ? "0" : longest <= 8 ? "1-8" : longest <= 127 ? "9-127" : "128+");
  c.note("threads=%d tasks per thread=%d longest parent list=%d", nt, K, longest);
  if (nt > 1 && longest > 0) c.nontrivial();
}
void p04(Ctx &c) {
  int nt = begin(c);
  Opt o = genOpt(c); o.barrier = true;
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), o);
  describe(c, w, nt);
  LevelSchedule s;
  w.build(s);
  Sched r;
  {
    rt::Quiet q;
    scribblePool(o.pool);
    r = snapshot(c, s, w.M, nt, false);
    int L = (int)r.lev.size() - 1;
    VI step(w.M.m);
    for (int t = 0; t < nt; ++t) {
      CHECK(c, r.thb[t + 1] - r.thb[t] == L, "thread %d has %d tasks for %d levels", t, r.thb[t + 1] - r.thb[t], L);
      for (int k = r.thb[t]; k < r.thb[t + 1]; ++k) for (int i = r.tb[k]; i < r.tb[k + 1]; ++i) step[r.t2o[i]] = k - r.thb[t];
    }
    for (int i = 0; i < w.M.m; ++i) for (auto &e : w.M.rows[i]) if (e.first < i)
      CHECK(c, step[e.first] < step[i], "row %d needs row %d, but they run between the same barriers (steps %d and %d)", i, e.first, step[i], step[e.first]);
  }
  runSweeps(c, w, s, r, true);
  if (nt > 1 && r.lev.size() > 2) c.nontrivial();
}
void p05(Ctx &c) {
  int nt = begin(c);
  Opt o = genOpt(c); o.fuse = true; o.barrier = false;
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), o);
  describe(c, w, nt);
  LevelSchedule s;
  w.build(s);
  Sched r;
  {
    rt::Quiet q;
    scribblePool(o.pool);
    r = snapshot(c, s, w.M, nt, true);
    Bits R = happensBefore(c, r, true);
    for (int u = 0; u < r.n; ++u) {
      std::set<int> done;
      for (int p : r.pfused[u]) done.insert(p);
      auto finished = [&](int k) { if (done.count(k)) return true; for (int p : r.pfused[u]) if (R.get(p, k)) return true; return false; };
      for (int i = r.tb[u]; i < r.tb[u + 1]; ++i) for (auto &e : w.M.rows[r.t2o[i]])
        CHECK(c, finished(r.taskOf[e.first]), "SpMV task %d (thread %d) reads row %d, but its %zu parents do not imply that backward task %d (thread %d) has finished",
              u, r.tasks[u].thread, e.first, r.pfused[u].size(), r.taskOf[e.first], r.tasks[r.taskOf[e.first]].thread);
    }
  }
  int m = w.M.m, shift = c.range(0, nt - 1);
  VD y(m), b(m), id(m), ww(m);
  for (int i = 0; i < m; ++i) { y[i] = (i * 5 % 11) - 5; b[i] = (i * 3 % 7) - 2.5; id[i] = w.B.A->idiag[i]; }
  Arr<double> Y(y), Bv(b), I(id), W(m, std::nan(""));
  CsrBox TB(w.M, w.base, true, false, true);
  kern::SweepArgs a = {m, w.base, TB.A->rowptr, TB.A->colidx, TB.A->values, I, Y, Bv};
  kern::sweepFused(s, a, s.threadContToOrigPerm, W, shift);
  rt::Quiet q;
  reference(w.M, y, b, id, true, false);
  for (int i = 0; i < m; ++i) { double sum = 0; for (auto &e : w.M.rows[i]) sum += e.second * y[e.first]; ww[i] = sum; }
  for (int i = 0; i < m; ++i) CHECK(c, memcmp(&Y[i], &y[i], 8) == 0, "fused sweep: row %d is %.17g, the sequential sweep gives %.17g", i, Y[i], y[i]);
  for (int i = 0; i < m; ++i) CHECK(c, memcmp(&W[i], &ww[i], 8) == 0, "fused SpMV: row %d is %.17g, expected %.17g", i, W[i], ww[i]);
  rate(c, r);
}
void p06(Ctx &c) {
  int nt = begin(c);
  Opt o = genOpt(c);
  World w(c, schedMat(c, maxN(c)), (int)c.draw(1), o);
  describe(c, w, nt);
  LevelSchedule s1, s0;
  w.o.reduce = true; w.build(s1);
  w.o.reduce = false; w.build(s0);
  rt::Quiet q;
  scribblePool(o.pool);
  Sched a = snapshot(c, s1, w.M, nt, false), b = snapshot(c, s0, w.M, nt, false);
  CHECK(c, a.tb == b.tb && a.thb == b.thb && a.t2o == b.t2o && a.lev == b.lev, "the reduced schedule distributes the rows differently");
  size_t ea = 0, eb = 0;
  for (int dir = 0; dir < 2; ++dir) {
    const Lists &pa = dir ? a.pb : a.pf, &pb = dir ? b.pb : b.pf;
    for (int k = 0; k < a.n; ++k) {
      std::set<int> all(pb[k].begin(), pb[k].end());
      for (int p : pa[k]) CHECK(c, all.count(p), "%s: reduction adds a wait of task %d for task %d", dir ? "backward" : "forward", k, p);
      ea += pa[k].size(); eb += pb[k].size();
    }
    Bits Ra = happensBefore(c, a, dir), Rb = happensBefore(c, b, dir);
    for (int k = 0; k < a.n; ++k) for (int j = 0; j < a.n; ++j)
      CHECK(c, Ra.get(k, j) == Rb.get(k, j), "%s: task %d is %sordered after task %d although the unreduced schedule %s", dir ? "backward" : "forward", k, Ra.get(k, j) ? "" : "no longer ", j, Rb.get(k, j) ? "orders them" : "does not order them");
  }
  if (ea < eb) c.nontrivial();
}
const char *R1 = "more than one thread and at least one cross-thread wait";
const char *R4 = "more than one thread and more than one dependency level";
const char *R6 = "the reduction removed at least one wait";
#ifdef NATIVE
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, nq, nth, 2, 10, 90, rule})
#else
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, fq, fth, 8, 10, 90, rule})
#endif
P("P01", "order", p01, R1, 6000, 100000, 20000, 400000);
P("P02", "structure", p02, R1, 6000, 100000, 20000, 400000);
P("P03", "sweeps", p03, R1, 6000, 100000, 20000, 400000);
P("P03", "protocol", p03protocol, R1, 2000, 40000, 6000, 300000);
P("P04", "barrier", p04, R4, 4000, 80000, 16000, 300000);
P("P05", "fused", p05, R1, 6000, 100000, 20000, 400000);
P("P06", "reduction", p06, R6, 6000, 100000, 20000, 400000);
} // namespace
