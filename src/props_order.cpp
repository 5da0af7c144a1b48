// P07 orderings are permutations, P08 structure of the BFS/RCM orderings,
// P09 connected components, P10 bipartite BFS ordering
#include "gen.hpp"
#include "barrier.hpp"
#include "reordering/BitVector.hpp"
#include <climits>
#include <random>
#include <tuple>
using namespace SpMP;

namespace SpMP {
void findConnectedComponents(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp);
void findConnectedComponentsWithBitVector(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp, const BitVector *bv);
#ifdef FIBER
int PAR_THR = 65536; // see the hook in reordering/RCM.cpp
#endif
}
extern "C" void bfsBipartite(CSR &A, CSR &AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);

namespace {
int begin(Ctx &c) {
  int n = rt::begin(c, 12);
  synk::Barrier::deleteInstance();
#ifdef FIBER
  static const int thr[] = {65536, 3, 4, 8, 16, 32};
  PAR_THR = thr[c.draw(5)];
  c.label("threshold:%d", PAR_THR);
#endif
  return n;
}
int maxN(Ctx &c) { return c.chance(1, 60) ? (rt::isFiber ? 300 : 1000) : c.thorough && c.chance(1, 6) ? 260 : c.chance(1, 8) ? 120 : 40; }

// a disjoint union of graphs of all shapes, vertices interleaved arbitrarily or kept together
Mat genGraph(Ctx &c, int n) {
  if (c.chance(1, 80)) { c.label("graph:no-vertices"); return Mat(); }
  int diag = (int)c.draw(2);                       // none, all, some
  int parts = c.chance(1, 2) ? c.range(1, 6) : 1;
  std::vector<Mat> g;
  int total = 0;
  for (int p = 0; p < parts; ++p) { g.push_back(genSymGraph(c, 1, std::max(1, n / parts), diag == 1)); total += g.back().m; }
  VI id(total); for (int i = 0; i < total; ++i) id[i] = i;
  if (parts > 1 && c.flip()) id = genPerm(c, total);
  Mat A; A.resize(total, total);
  int off = 0;
  for (auto &h : g) { for (int i = 0; i < h.m; ++i) for (auto &e : h.rows[i]) A.rows[id[off + i]].push_back({id[off + e.first], 1.0}); off += h.m; }
  if (diag == 2) for (int i = 0; i < total; ++i) if (c.flip()) A.rows[i].push_back({i, 1.0});
  A = sortRows(A);
  if (c.chance(1, 4)) for (auto &r : A.rows) for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[c.draw(i - 1)]);
  int k = 0;
  for (auto &r : A.rows) for (auto &e : r) e.second = ++k;
  return A;
}
// graphs that take the library's large-component path with its real threshold
Mat genLarge(Ctx &c, std::string &what) {
  static const int sizes[] = {65536, 65535, 65537, 70000, 66049, 65534};
  int n = sizes[c.draw(5)], shape = (int)c.draw(7), lead = c.chance(1, 2) ? c.range(0, 6) : 0, trail = c.chance(1, 3) ? c.range(1, 6) : 0;
  bool diag = c.flip(), shuffle = c.chance(1, 3);
  std::mt19937_64 rng(c.seed64());
  static const char *nm[] = {"path", "star", "grid", "binary tree", "random tree", "caterpillar", "sparse random", "two stars joined by a path"};
  int total = lead + n + trail;
  std::vector<VI> adj(total);
  auto edge = [&](int a, int b) { adj[lead + a].push_back(lead + b); adj[lead + b].push_back(lead + a); };
  for (int i = 1; i < n; ++i) switch (shape) {
    case 0: edge(i, i - 1); break;
    case 1: edge(i, 0); break;
    case 2: { int w = 256; if (i % w) edge(i, i - 1); if (i >= w) edge(i, i - w); break; }
    case 3: edge(i, (i - 1) / 2); break;
    case 4: edge(i, (int)(rng() % i)); break;
    case 5: edge(i, i % 4 ? i / 4 * 4 : i - 4); break;
    case 6: edge(i, (int)(rng() % i)); if (i > 10 && i % 3 == 0) edge(i, (i * 7919LL) % (i / 2) == i / 2 ? 0 : i / 2 - 1 - (int)((i * 7919LL) % (i / 3))); break;
    case 7: edge(i, i < 30000 ? 0 : i < 30100 ? i - 1 : 30099); break;
  }
  if (lead > 2) { adj[0].push_back(1); adj[1].push_back(0); }
  if (trail > 1) { int a = lead + n; adj[a].push_back(a + 1); adj[a + 1].push_back(a); }
  VI id(total); for (int i = 0; i < total; ++i) id[i] = i;
  if (shuffle) std::shuffle(id.begin(), id.end(), rng);
  Mat A; A.resize(total, total);
  for (int i = 0; i < total; ++i) {
    if (diag) adj[i].push_back(i);
    std::sort(adj[i].begin(), adj[i].end());
    adj[i].erase(std::unique(adj[i].begin(), adj[i].end()), adj[i].end());
    for (int j : adj[i]) A.rows[id[i]].push_back({id[j], 1.0});
  }
  A = sortRows(A);
  char b[200]; snprintf(b, sizeof b, "%s of %d vertices after %d and before %d others%s%s", nm[shape], n, lead, trail, diag ? ", diagonal" : "", shuffle ? ", shuffled" : "");
  what = b;
  c.label("large:%s", nm[shape]);
  return A;
}

// components: smallest vertex of the component of every vertex (vertices marked out: -1)
VI components(const Mat &A, const std::vector<char> *out = nullptr) {
  VI comp(A.m, -1), st;
  for (int s = 0; s < A.m; ++s) if (comp[s] < 0 && !(out && (*out)[s])) {
    comp[s] = s; st.push_back(s);
    while (!st.empty()) { int u = st.back(); st.pop_back(); for (auto &e : A.rows[u]) if (comp[e.first] < 0) { comp[e.first] = s; st.push_back(e.first); } }
  }
  return comp;
}
std::vector<char> snapshot(const CSR *A) {
  std::vector<char> s;
  auto add = [&](const void *p, size_t n) { s.insert(s.end(), (const char *)p, (const char *)p + n); };
  int z = A->rowptr[A->m] - A->rowptr[0];
  add(&A->m, sizeof A->m); add(&A->n, sizeof A->n);
  add(A->rowptr, sizeof(int) * (A->m + 1)); add(A->colidx, sizeof(int) * z);
  if (A->values) add(A->values, sizeof(double) * z);
  if (A->diagptr) add(A->diagptr, sizeof(int) * A->m);
  return s;
}
void mutualInverse(Ctx &c, const char *what, const int *p, const int *q, int n) {
  for (int i = 0; i < n; ++i) {
    CHECK(c, p[i] >= 0 && p[i] < n, "%s: perm[%d] = %d is not in [0, %d)", what, i, p[i], n);
    CHECK(c, q[i] >= 0 && q[i] < n, "%s: inversePerm[%d] = %d is not in [0, %d)", what, i, q[i], n);
  }
  for (int i = 0; i < n; ++i) CHECK(c, q[p[i]] == i, "%s: inversePerm[perm[%d]] = inversePerm[%d] = %d", what, i, p[i], q[p[i]]);
}

enum { BFS, RCM, RCM_PD };
const char *algName[] = {"BFS", "RCM without source selection", "RCM"};
struct Case { Mat A; int base, alg, threads; bool values, diagptr; std::string what; };
// runs the ordering; result[k] is the k-th vertex in search order
void order(Ctx &c, const Case &k, Arr<int> &perm, Arr<int> &inv) {
  CsrBox X(k.A, k.base, k.values, k.diagptr);
  std::vector<char> before = snapshot(X.A);
  if (k.alg == BFS) X.A->getBFSPermutation(perm, inv); else X.A->getRCMPermutation(perm, inv, k.alg == RCM_PD);
  rt::Quiet q;
  CHECK(c, before == snapshot(X.A), "%s changed the matrix", algName[k.alg]);
  mutualInverse(c, algName[k.alg], perm, inv, k.A.m);
}
Case genCase(Ctx &c, bool large) {
  Case k; k.threads = begin(c);
  k.alg = (int)c.draw(2); k.base = (int)c.draw(1); k.values = !c.chance(1, 4);
  if (large) k.A = genLarge(c, k.what); else { k.A = genGraph(c, maxN(c)); k.what = show(k.A); }
  bool full = true; for (int i = 0; i < k.A.m && full; ++i) full = k.A.has(i, i);
  k.diagptr = full && c.flip();
  c.note("%s, %d threads, base %d, %s", algName[k.alg], k.threads, k.base, k.what.c_str());
  c.label("ordering:%s", algName[k.alg]);
  if (k.A.m > 2 && k.A.nnz() > 2) c.nontrivial();
  return k;
}
void p07(Ctx &c) {
  Case k = genCase(c, false);
  Arr<int> perm(k.A.m, -1), inv(k.A.m, -1);
  order(c, k, perm, inv);
}
void checkStructure(Ctx &c, const Case &k, const int *inv) {
  int m = k.A.m;
  VI comp = components(k.A), at(m), pos(m), dist(m, -1);
  std::vector<char> seen(m, 0);
  for (int i = 0; i < m; ++i) { at[i] = k.alg == BFS ? inv[i] : inv[m - 1 - i]; pos[at[i]] = i; }
  const char *nm = algName[k.alg];
  for (int i = 0; i < m;) {
    int s = at[i], r = comp[s];
    CHECK(c, !seen[r], "%s: the component of vertex %d is numbered in more than one piece (position %d)", nm, s, i);
    seen[r] = 1;
    int e = i; while (e < m && comp[at[e]] == r) ++e;
    VI q(1, s); dist[s] = 0; // reference search
    for (size_t h = 0; h < q.size(); ++h) for (auto &x : k.A.rows[q[h]]) if (dist[x.first] < 0) { dist[x.first] = dist[q[h]] + 1; q.push_back(x.first); }
    CHECK(c, (int)q.size() == e - i, "%s: the component of vertex %d has %zu vertices, %d are numbered together", nm, s, q.size(), e - i);
    int lastPar = -1;
    for (int j = i; j < e; ++j) {
      int v = at[j];
      if (j > i) CHECK(c, dist[v] >= dist[at[j - 1]], "%s: vertex %d at distance %d from the start %d is numbered after vertex %d at distance %d", nm, v, dist[v], s, at[j - 1], dist[at[j - 1]]);
      if (k.alg == BFS || j == i) continue;
      int par = INT_MAX;
      for (auto &x : k.A.rows[v]) if (dist[x.first] == dist[v] - 1) par = std::min(par, pos[x.first]);
      CHECK(c, par >= lastPar, "%s: vertex %d, first reached from position %d, is numbered after vertex %d, reached from position %d", nm, v, par, at[j - 1], lastPar);
      if (par == lastPar) {
        int u = at[j - 1];
        CHECK(c, k.A.rows[u].size() <= k.A.rows[v].size(), "%s: siblings %d (degree %zu) and %d (degree %zu) are not in order of degree", nm, u, k.A.rows[u].size(), v, k.A.rows[v].size());
      }
      lastPar = par;
    }
    i = e;
  }
}
void p08(Ctx &c) {
  Case k = genCase(c, false);
  Arr<int> perm(k.A.m, -1), inv(k.A.m, -1);
  order(c, k, perm, inv);
  rt::Quiet q;
  checkStructure(c, k, inv);
}
void p07large(Ctx &c) { Case k = genCase(c, true); Arr<int> perm(k.A.m, -1), inv(k.A.m, -1); order(c, k, perm, inv); }
void p08large(Ctx &c) { Case k = genCase(c, true); Arr<int> perm(k.A.m, -1), inv(k.A.m, -1); order(c, k, perm, inv); checkStructure(c, k, inv); }

void p09check(Ctx &c, const Mat &A, int base, bool bits, bool excludeFirst) {
  VI ref = components(A);
  std::vector<char> out(A.m, 0);
  if (bits) {
    std::vector<char> drop(A.m, 0);
    int keep = A.m && !c.chance(1, 12) ? ref[c.draw(A.m - 1)] : -1; // one component stays, or possibly none
    for (int i = 0; i < A.m; ++i) if (ref[i] == i && i != keep) drop[i] = keep < 0 ? 1 : A.m > 1000 ? (i * 2654435761u >> 20) & 1 : c.flip();
    if (excludeFirst && keep != 0 && A.m) drop[0] = 1;
    for (int i = 0; i < A.m; ++i) out[i] = drop[ref[i]];
  }
  ref = components(A, &out);
  CsrBox X(A, base, false);
  std::vector<char> before = snapshot(X.A);
  int nc = -1, *root = nullptr, *size = nullptr, *pre = nullptr, *nodes = nullptr;
  if (bits) {
    BitVector bv(A.m);
    for (int i = 0; i < A.m; ++i) if (out[i]) bv.set(i);
    findConnectedComponentsWithBitVector(X.A, &nc, &root, &size, &pre, &nodes, &bv);
    rt::Quiet q;
    for (int i = 0; i < A.m; ++i) CHECK(c, bv.get(i) == (bool)out[i], "the set of excluded vertices changed at %d", i);
  } else findConnectedComponents(X.A, &nc, &root, &size, &pre, &nodes);
  rt::Quiet q;
  CHECK(c, before == snapshot(X.A), "the matrix changed");
  std::map<int, VI> want;
  for (int i = 0; i < A.m; ++i) if (ref[i] >= 0) want[ref[i]].push_back(i);
  CHECK(c, nc == (int)want.size(), "%d components reported, there are %zu", nc, want.size());
  std::set<int> seen;
  std::vector<char> used(A.m, 0);
  for (int k = 0; k < nc; ++k) {
    CHECK(c, want.count(root[k]), "component %d: root %d is not the smallest vertex of a component", k, root[k]);
    CHECK(c, seen.insert(root[k]).second, "root %d is reported for two components", root[k]);
    const VI &w = want[root[k]];
    CHECK(c, size[k] == (int)w.size(), "component %d (root %d) has size %d, expected %zu", k, root[k], size[k], w.size());
    CHECK(c, pre[k] >= 0 && pre[k] + size[k] <= A.m, "component %d (root %d) starts at %d", k, root[k], pre[k]);
    for (int i = 0; i < size[k]; ++i) {
      CHECK(c, nodes[pre[k] + i] == w[i], "component %d (root %d): vertex number %d is %d, expected %d", k, root[k], i, nodes[pre[k] + i], w[i]);
      CHECK(c, !used[pre[k] + i], "components overlap at %d", pre[k] + i);
      used[pre[k] + i] = 1;
    }
  }
  if (nc > 1 && A.nnz() > A.m / 2) c.nontrivial();
}
void p09(Ctx &c) {
  int T = begin(c), base = (int)c.draw(1);
  bool bits = c.chance(1, 2), first = c.flip();
  Mat A = genGraph(c, maxN(c));
  c.note("%s, %d threads, base %d, %s", bits ? "with excluded vertices" : "all vertices", T, base, show(A).c_str());
  c.label("mode:%s", bits ? "with excluded vertices" : "all vertices");
  p09check(c, A, base, bits, first);
}
void p09large(Ctx &c) {
  int T = begin(c), base = (int)c.draw(1);
  bool bits = c.chance(1, 3);
  std::string what; Mat A;
  if (c.flip()) A = genLarge(c, what);
  else { // many components of random size, edges in an order that makes threads collide
    int n = c.range(2000, 60000), k = c.range(1, 400), deg = c.range(1, 3);
    std::mt19937_64 rng(c.seed64());
    A.resize(n, n);
    std::vector<std::set<int>> adj(n);
    for (int i = k; i < n; ++i) for (int d = 0; d < deg; ++d) { int j = i - k * (1 + (int)(rng() % (i / k))); if (j < 0) j = i % k; if (i != j && !(d && rng() % 2)) { adj[i].insert(j); adj[j].insert(i); } }
    for (int i = 0; i < n; ++i) for (int j : adj[i]) A.rows[i].push_back({j, 1.0});
    what = std::to_string(n) + " vertices in about " + std::to_string(k) + " interleaved components";
    c.label("large:interleaved");
  }
  c.note("%s, %d threads, base %d, %s", bits ? "with excluded vertices" : "all vertices", T, base, what.c_str());
  p09check(c, A, base, bits, true);
}

void p10check(Ctx &c, const Mat &A, int base) {
  Mat B = transposeRef(A);
  CsrBox X(A, base, false), Y(B, base, false);
  std::vector<char> s1 = snapshot(X.A), s2 = snapshot(Y.A);
  Arr<int> rp(A.m, -1), ri(A.m, -1), cp(A.n, -1), ci(A.n, -1);
  bfsBipartite(*X.A, *Y.A, rp, ri, cp, ci);
  rt::Quiet q;
  CHECK(c, s1 == snapshot(X.A) && s2 == snapshot(Y.A), "the matrix changed");
  mutualInverse(c, "rows", rp, ri, A.m);
  mutualInverse(c, "columns", cp, ci, A.n);
  // one graph: rows 0..m-1, columns m..m+n-1
  Mat G; G.resize(A.m + A.n, A.m + A.n);
  for (int i = 0; i < A.m; ++i) for (auto &e : A.rows[i]) { G.rows[i].push_back({A.m + e.first, 1}); G.rows[A.m + e.first].push_back({i, 1}); }
  VI comp = components(G), dist(G.m, -1);
  for (int i = 0; i < A.m; ++i) if (dist[ri[i]] < 0) { // the first numbered row of its component
    VI qu(1, ri[i]); dist[ri[i]] = 0;
    for (size_t h = 0; h < qu.size(); ++h) for (auto &x : G.rows[qu[h]]) if (dist[x.first] < 0) { dist[x.first] = dist[qu[h]] + 1; qu.push_back(x.first); }
  }
  for (int side = 0; side < 2; ++side) {
    int n = side ? A.n : A.m, *inv = side ? ci.p : ri.p, off = side ? A.m : 0;
    const char *nm = side ? "column" : "row";
    std::set<int> done; int prev = -1;
    for (int i = 0; i < n; ++i) {
      int v = inv[i] + off, r = comp[v];
      if (i && comp[prev] == r) CHECK(c, dist[v] >= dist[prev], "%s %d at distance %d from the first row of its component is numbered after %s %d at distance %d", nm, inv[i], dist[v], nm, prev - off, dist[prev]);
      else CHECK(c, done.insert(r).second, "the component of %s %d is numbered in more than one piece", nm, inv[i]);
      prev = v;
    }
  }
  if (A.m > 1 && A.n > 1 && A.nnz() > 2) c.nontrivial();
}
Mat dedup(Mat A) { for (auto &r : A.rows) { std::set<int> s; std::vector<std::pair<int, double>> o; for (auto &e : r) if (s.insert(e.first).second) o.push_back(e); r = o; } return A; }
void p10(Ctx &c) {
  int T = begin(c), base = (int)c.draw(1);
  Mat A;
  if (c.chance(1, 3)) { // block structure: several components, rows and columns relabelled
    int nb = c.range(1, 5);
    std::vector<Mat> b; int m = 0, n = 0;
    for (int k = 0; k < nb; ++k) { MatOpts o; o.maxN = 12; b.push_back(genMat(c, o)); m += b.back().m; n += b.back().n; }
    VI p = genPerm(c, m), q = genPerm(c, n);
    A.resize(m, n); int ro = 0, co = 0;
    for (auto &h : b) { for (int i = 0; i < h.m; ++i) for (auto &e : h.rows[i]) A.rows[p[ro + i]].push_back({q[co + e.first], 1.0}); ro += h.m; co += h.n; }
    c.label("matrix:blocks");
  } else { MatOpts o; o.maxN = maxN(c); A = genMat(c, o); }
  A = dedup(A);
  c.note("%d threads, base %d, %s", T, base, show(A).c_str());
  p10check(c, A, base);
}
void p10large(Ctx &c) {
  int T = begin(c), base = (int)c.draw(1);
  int m = c.range(1, 20000), n = c.range(1, 20000), deg = c.range(0, 4), shape = (int)c.draw(3);
  std::mt19937_64 rng(c.seed64());
  Mat A; A.resize(m, n);
  int blocks = c.range(1, 50);
  for (int i = 0; i < m; ++i) {
    int k = shape == 3 && i % 1000 == 0 ? 500 : deg ? (int)(rng() % (deg + 1)) : 1;
    for (int d = 0; d < k; ++d) {
      int j = shape == 0 ? (int)(rng() % n) : shape == 1 ? (int)(rng() % n) / blocks * blocks + i % blocks : shape == 2 ? (int)((long)i * n / m) + d : (int)(rng() % n);
      if (j < n) A.rows[i].push_back({j, 1.0});
    }
  }
  A = dedup(A);
  c.note("%d threads, base %d, %d x %d, %d entries, shape %d", T, base, m, n, A.nnz(), shape);
  p10check(c, A, base);
}

const char *R07 = "at least three vertices and three entries";
const char *R09 = "more than one component and at least one entry per two vertices";
const char *R10 = "at least two rows, two columns and three entries";
#ifdef NATIVE
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, nq, nth, 4, 10, 90, rule})
#else
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, fq, fth, 8, 20, 90, rule})
#endif
P("P07", "permutation", p07, R07, 4000, 60000, 40000, 900000);
P("P08", "structure", p08, R07, 4000, 60000, 30000, 900000);
P("P09", "components", p09, R09, 6000, 60000, 60000, 1500000);
P("P10", "bipartite", p10, R10, 3000, 40000, 20000, 500000);
#ifdef NATIVE
#define L(id, part, fn, rule, nq, nth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, nq, nth, 2, 1, 150, rule})
L("P07", "large", p07large, R07, 24, 300);
L("P08", "large", p08large, R07, 24, 300);
L("P09", "large", p09large, R09, 60, 1500);
L("P10", "large", p10large, R10, 60, 1500);
#endif
} // namespace
