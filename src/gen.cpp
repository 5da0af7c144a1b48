#include "gen.hpp"
using namespace SpMP;

double genValue(Ctx &c, int kind) {
  switch (kind) {
  case 0: { int v = c.range(1, 16); return v <= 8 ? v : -(v - 8); }      // non-zero small integers
  case 1: return c.range(-8, 8);                                          // may be zero
  case 2: { int e = c.range(-6, 6); return std::ldexp((double)c.range(1, 15), e) * (c.flip() ? -1 : 1); }
  default: { // arbitrary finite double
    uint64_t b = c.seed64();
    double d; memcpy(&d, &b, 8);
    if (!std::isfinite(d)) d = 1.5;
    return d;
  }
  }
}

VI genPerm(Ctx &c, int n) {
  VI p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  int kind = (int)c.draw(3);
  if (kind == 0) return p;
  if (kind == 1) { std::reverse(p.begin(), p.end()); return p; }
  if (kind == 2) { int s = n > 1 ? c.range(1, n - 1) : 0; std::rotate(p.begin(), p.begin() + s, p.end()); return p; }
  if (n >= 1500) {
    uint64_t s = c.seed64() | 1;
    for (int i = n - 1; i > 0; --i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; std::swap(p[i], p[(s >> 11) % (uint64_t)(i + 1)]); }
    return p;
  }
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[c.range(0, i)]);
  return p;
}
VI invert(const VI &p) { VI q(p.size()); for (size_t i = 0; i < p.size(); ++i) q[p[i]] = (int)i; return q; }
Mat transposeRef(const Mat &A) {
  Mat T; T.resize(A.n, A.m);
  for (int i = 0; i < A.m; ++i) for (auto &e : A.rows[i]) T.rows[e.first].push_back({i, e.second});
  return T;
}
Mat sortRows(Mat A) {
  for (auto &r : A.rows) std::stable_sort(r.begin(), r.end(), [](const std::pair<int,double> &a, const std::pair<int,double> &b) { return a.first < b.first; });
  return A;
}

// symmetric adjacency structure; returns pattern with unit values
Mat genSymGraph(Ctx &c, int minN, int maxN, bool withDiag) {
  int n = c.size(minN, maxN);
  Mat A; A.resize(n, n);
  std::vector<std::set<int>> adj(n);
  auto edge = [&](int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) { adj[a].insert(b); adj[b].insert(a); } };
  int shape = (int)c.draw(12);
  static const char *nm[] = {"random", "path", "star", "grid2d", "blocks", "tree", "band", "clique", "empty", "bipartite", "caterpillar", "arrow", "hubs"};
  switch (shape) {
  case 0: { int e = c.range(0, 3 * n); for (int k = 0; k < e; ++k) edge(c.range(0, n - 1), c.range(0, n - 1)); break; }
  case 1: for (int i = 0; i + 1 < n; ++i) edge(i, i + 1); if (c.flip()) edge(0, n - 1); break;
  case 2: { int h = c.range(0, n - 1); for (int i = 0; i < n; ++i) edge(h, i); break; }
  case 3: { int w = c.range(1, std::max(1, std::min(n, 12))); for (int i = 0; i < n; ++i) { if ((i + 1) % w) edge(i, i + 1); edge(i, i + w); } break; }
  case 4: { int nb = c.range(1, std::min(n, 8)); // disjoint components of random kind
    VI blk(n); for (int i = 0; i < n; ++i) blk[i] = c.range(0, nb - 1);
    std::vector<VI> mem(nb); for (int i = 0; i < n; ++i) mem[blk[i]].push_back(i);
    for (auto &b : mem) { int k = (int)c.draw(2); for (size_t i = 1; i < b.size(); ++i) edge(b[i], k == 0 ? b[i - 1] : k == 1 ? b[0] : b[c.range(0, (int)i - 1)]); }
    break; }
  case 5: for (int i = 1; i < n; ++i) edge(i, c.range(0, i - 1)); break;
  case 6: { int bw = c.range(1, std::min(n, 6)); for (int i = 0; i < n; ++i) for (int d = 1; d <= bw; ++d) if (!c.chance(1, 4)) edge(i, i + d); break; }
  case 7: { int k = std::min(n, 14); for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) edge(i, j); for (int i = k; i < n; ++i) if (c.flip()) edge(i, c.range(0, i - 1)); break; }
  case 8: break;
  case 9: { int a = c.range(1, std::max(1, n - 1)); int e = c.range(0, 3 * n); for (int k = 0; k < e && a < n; ++k) edge(c.range(0, a - 1), c.range(a, n - 1)); break; }
  case 10: for (int i = 0; i + 1 < n; ++i) { if (i % 3 == 0) edge(i, i + 3); edge(i, i / 3 * 3); } break;
  case 12: { int k = c.range(2, 5); for (int h = 0; h < k; ++h) for (int i = k; i < n; ++i) edge(h, i); break; } // every spoke is reachable from every hub
  case 11: for (int i = 0; i + 1 < n; ++i) { edge(i, n - 1); if (c.flip()) edge(i, i + 1); } break;
  }
  c.label("graph:%s", nm[shape]);
  VI p = genPerm(c, n);
  for (int i = 0; i < n; ++i) {
    for (int j : adj[i]) A.rows[p[i]].push_back({p[j], 1.0});
    if (withDiag) A.rows[p[i]].push_back({p[i], 1.0});
  }
  return sortRows(A);
}

// thousands of rows, expanded from one seed so that the choice sequence stays short
static Mat genHuge(Ctx &c, const MatOpts &o) {
  uint64_t s = c.seed64() | 1;
  auto rnd = [&](int n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (int)((s >> 11) % (uint64_t)n); };
  auto value = [&](int kind) { return kind == 0 ? (double)(1 + rnd(16)) : kind == 1 ? (double)(rnd(17) - 8) : std::ldexp(1.0 + rnd(15), rnd(13) - 6) * (rnd(2) ? 1 : -1); };
  int m = c.size(1500, o.maxN), n = o.square || o.symPattern ? m : c.size(1500, o.maxN), vk = (int)c.draw(2);
  int shape = (int)c.draw(5);
  static const char *nm[] = {"random", "band", "heavy-row", "heavy-col", "empty-stretch", "power"};
  c.label("huge:%s", nm[shape]);
  std::vector<std::set<int>> adj(m);
  auto add = [&](int i, int j) { if (i < 0 || j < 0 || i >= m || j >= n) return; adj[i].insert(j); if (o.symPattern) adj[j].insert(i); };
  switch (shape) {
  case 0: for (int e = 3 * m; e--;) { int i = rnd(m); add(i, rnd(n)); } break;
  case 1: { int w = 1 + rnd(4); for (int i = 0; i < m; ++i) for (int d = -w; d <= w; ++d) if (rnd(8)) add(i, (int)((long)i * n / m) + d); break; }
  case 2: { int r = rnd(m); for (int j = 0; j < n; ++j) if (rnd(10)) add(r, j); for (int e = m; e--;) { int i = rnd(m); add(i, rnd(n)); } break; }
  case 3: { int q = rnd(n); for (int i = 0; i < m; ++i) if (rnd(10)) add(i, q); for (int e = m; e--;) { int i = rnd(m); add(i, rnd(n)); } break; }
  case 4: { int a = rnd(m), b = rnd(m); if (a > b) std::swap(a, b); for (int e = 4 * m; e--;) { int i = rnd(m); if (i < a || i > b) add(i, rnd(n)); } break; }
  case 5: for (int i = 0; i < m; ++i) for (int k = 1; k < m; k *= 3) add(i, (i + k) % n); break;
  }
  if (o.diag) for (int i = 0; i < std::min(m, n); ++i) add(i, i);
  Mat A; A.resize(m, n);
  for (int i = 0; i < m; ++i) for (int j : adj[i]) A.rows[i].push_back({j, value(vk)});
  if (o.symPattern && o.symValues) {
    std::map<std::pair<int, int>, double> at;
    for (int i = 0; i < m; ++i) for (auto &e : A.rows[i]) { auto it = at.find({e.first, i}); if (it != at.end()) e.second = it->second; else at[{i, e.first}] = e.second; }
  }
  if (o.duplicates && !o.symPattern) for (int e = rnd(40); e--;) { auto &r = A.rows[rnd(m)]; if (!r.empty()) r.push_back({r[rnd((int)r.size())].first, value(vk)}); }
  if (o.sorted || c.flip()) A = sortRows(A);
  else for (auto &r : A.rows) for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[rnd((int)i)]);
  return A;
}

Mat genMat(Ctx &c, const MatOpts &o) {
  if (o.maxN >= 1500) return genHuge(c, o);
  Mat A;
  if (o.zero && c.chance(1, 60)) {
    int k = (int)c.draw(2), d = c.size(1, std::min(o.maxN, 40));
    c.label("matrix:no-%s", o.square || o.symPattern || k == 2 ? "rows-no-columns" : k ? "columns" : "rows");
    if (o.square || o.symPattern || k == 2) A.resize(0, 0); else if (k) A.resize(d, 0); else A.resize(0, d);
    return A;
  }
  int vk = (int)c.draw(2);
  if (o.symPattern) {
    A = genSymGraph(c, o.minN, o.maxN, o.diag);
    std::map<std::pair<int,int>, double> seen;
    for (int i = 0; i < A.m; ++i)
      for (auto &e : A.rows[i]) {
        int j = e.first;
        if (o.symValues && seen.count({j, i})) e.second = seen[{j, i}];
        else { e.second = genValue(c, vk); seen[{i, j}] = e.second; }
      }
  } else {
    int m = c.size(o.minN, o.maxN), n = o.square ? m : c.size(o.minN, o.maxN);
    A.resize(m, n);
    int shape = (int)c.draw(6);
    static const char *nm[] = {"sparse", "dense", "empty-rows", "one-heavy-row", "one-heavy-col", "diagonal", "tall-band"};
    c.label("matrix:%s", nm[shape]);
    std::vector<std::map<int, int>> cnt(m);
    auto add = [&](int i, int j) { if (i < 0 || j < 0 || i >= m || j >= n) return; int &k = cnt[i][j]; if (k && !o.duplicates) return; ++k; A.rows[i].push_back({j, 0.0}); };
    switch (shape) {
    case 0: { int e = c.range(0, 3 * m); for (int k = 0; k < e; ++k) { int i = c.range(0, m - 1); add(i, c.range(0, n - 1)); } break; }
    case 1: { int den = c.range(1, 4); for (int i = 0; i < m && i < 24; ++i) for (int j = 0; j < n && j < 24; ++j) if (c.chance(den, 4)) add(i, j); break; }
    case 2: { for (int i = 0; i < m; ++i) if (c.chance(1, 4)) { int e = c.range(1, 4); while (e--) add(i, c.range(0, n - 1)); } break; }
    case 3: { int r = c.range(0, m - 1); for (int j = 0; j < n; ++j) add(r, j); int e = c.range(0, m); while (e--) { int i = c.range(0, m - 1); add(i, c.range(0, n - 1)); } break; }
    case 4: { int cc = c.range(0, n - 1); for (int i = 0; i < m; ++i) add(i, cc); int e = c.range(0, m); while (e--) { int i = c.range(0, m - 1); add(i, c.range(0, n - 1)); } break; }
    case 5: { for (int i = 0; i < m; ++i) if (!c.chance(1, 6)) add(i, i); int e = c.range(0, 2); while (e--) { int i = c.range(0, m - 1); add(i, c.range(0, n - 1)); } break; }
    case 6: { int w = c.range(0, 4); for (int i = 0; i < m; ++i) for (int d = -w; d <= w; ++d) add(i, (int)((long)i * n / m) + d); break; }
    }
    if (o.duplicates && A.nnz() && c.chance(1, 3)) { int e = c.range(1, 4); while (e--) { int i = c.range(0, m - 1); if (!A.rows[i].empty()) { int j = A.rows[i][c.range(0, (int)A.rows[i].size() - 1)].first; add(i, j); } } }
    if (o.diag) for (int i = 0; i < std::min(m, n); ++i) add(i, i);
    for (auto &r : A.rows) for (auto &e : r) e.second = genValue(c, vk);
  }
  if (o.sorted || c.flip()) A = sortRows(A);
  else for (auto &r : A.rows) for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[c.range(0, (int)i - 1)]);
  return A;
}

CsrBox::CsrBox(const Mat &M, int base, bool withValues, bool withDiagptr, bool withIdiag) {
  VI rp(M.m + 1), ci; VD va;
  rp[0] = base;
  for (int i = 0; i < M.m; ++i) {
    for (auto &e : M.rows[i]) { ci.push_back(e.first + base); va.push_back(e.second); }
    rp[i + 1] = base + (int)ci.size();
  }
  rowptr = heapCopy(rp); colidx = heapCopy(ci); values = withValues ? heapCopy(va) : nullptr;
  A = new CSR(M.m, M.n, rowptr, colidx, values);
  if (withDiagptr || withIdiag) {
    VI dp(M.m, base); VD id(M.m, 0);
    for (int i = 0; i < M.m; ++i) for (size_t k = 0; k < M.rows[i].size(); ++k) if (M.rows[i][k].first == i) { dp[i] = rp[i] + (int)k; id[i] = 1 / M.rows[i][k].second; }
    if (withDiagptr) A->diagptr = heapCopy(dp);
    if (withIdiag) A->idiag = heapCopy(id);
  }
}
void CsrBox::setExt(const VI &localLen, int base) {
  VI e(localLen.size());
  for (size_t i = 0; i < e.size(); ++i) e[i] = rowptr[i] + localLen[i];
  (void)base;
  A->extptr = extptr = heapCopy(e);
}
VI fatten(Ctx &c, Mat &M) {
  VI len(M.m);
  int ext = c.range(1, 6), dens = c.range(0, 3);
  for (int i = 0; i < M.m; ++i) {
    len[i] = (int)M.rows[i].size();
    if (!dens || !c.chance(dens, 3)) continue;
    int k = c.range(1, 3);
    std::set<int> used;
    while (k--) { int j = M.m + c.range(0, ext - 1); if (used.insert(j).second) M.rows[i].push_back({j, -1.0 - (i + j) % 4 / 8.0}); }
  }
  M.n = M.m + ext;
  c.label("halo");
  return len;
}
CsrBox::~CsrBox() { delete A; if (extptr) _mm_free(extptr); _mm_free(rowptr); _mm_free(colidx); if (values) _mm_free(values); }

Mat fromCSR(Ctx &c, const CSR *A, const char *what, int expectBase, bool withValues) {
  Mat M;
  CHECK(c, A->rowptr != nullptr, "%s: no row pointer", what);
  CHECK(c, A->m >= 0 && A->m < (1 << 26) && A->n >= 0 && A->n < (1 << 26), "%s: dimensions %d x %d", what, A->m, A->n);
  CHECK(c, A->rowptr[0] == expectBase, "%s: index base %d, expected %d", what, A->rowptr[0], expectBase);
  M.resize(A->m, A->n);
  for (int i = 0; i < A->m; ++i) {
    CHECK(c, A->rowptr[i + 1] >= A->rowptr[i], "%s: row pointer decreases at row %d (%d -> %d)", what, i, A->rowptr[i], A->rowptr[i + 1]);
    CHECK(c, A->rowptr[i + 1] - A->rowptr[i] < (1 << 26), "%s: row %d has %d entries", what, i, A->rowptr[i + 1] - A->rowptr[i]);
    for (int j = A->rowptr[i] - expectBase; j < A->rowptr[i + 1] - expectBase; ++j)
      M.rows[i].push_back({A->colidx[j] - expectBase, withValues && A->values ? A->values[j] : 1.0});
  }
  return M;
}
void expectEqual(Ctx &c, const Mat &g, const Mat &w, const char *what) {
  CHECK(c, g.m == w.m && g.n == w.n, "%s: dimensions %dx%d, expected %dx%d", what, g.m, g.n, w.m, w.n);
  for (int i = 0; i < w.m; ++i) {
    CHECK(c, g.rows[i].size() == w.rows[i].size(), "%s: row %d has %zu entries, expected %zu", what, i, g.rows[i].size(), w.rows[i].size());
    for (size_t k = 0; k < w.rows[i].size(); ++k) {
      CHECK(c, g.rows[i][k].first == w.rows[i][k].first, "%s: row %d entry %zu is column %d, expected %d", what, i, k, g.rows[i][k].first, w.rows[i][k].first);
      double a = g.rows[i][k].second, b = w.rows[i][k].second;
      CHECK(c, a == b || (std::isnan(a) && std::isnan(b)), "%s: row %d column %d has value %.17g, expected %.17g", what, i, w.rows[i][k].first, a, b);
    }
  }
}
std::string commentLine(Ctx &c, const char *text) {
  if (!c.chance(1, 12)) return std::string("%") + text + "\n";
  // long comments: readers with a fixed line buffer see them in pieces
  size_t len = c.flip() ? (size_t)(1020 + c.draw(12)) : c.flip() ? (size_t)(2040 + c.draw(16)) : (size_t)c.range(200, 3200);
  std::string s = "%"; const char *unit = c.flip() ? " 3 4 5" : c.flip() ? "1 " : "x";
  while (s.size() < len) s += unit;
  s.resize(len); c.label("comment:long");
  return s + "\n";
}
