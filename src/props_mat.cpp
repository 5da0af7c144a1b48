// P11 transpose, P12 permutation, P13 SpMV, P14 SpMM, P15 splitLU, P16 symmetric pattern,
// P17 structural queries, P18 index base, P22 COO->CSR, P23 Laplacian, P29 copies and inputs
#include "gen.hpp"
#include "COO.hpp"
#include <climits>
using namespace SpMP;

// every array of a matrix, to show that an operation leaves its input alone
struct Snap {
  const CSR *A; int m, n; VI rp, ci, dp, ep; VD va, id, dg;
  const void *ptr[7];
  explicit Snap(const CSR *A) : A(A), m(A->m), n(A->n) {
    rp.assign(A->rowptr, A->rowptr + m + 1);
    int nnz = rp[m] - rp[0];
    ci.assign(A->colidx, A->colidx + nnz);
    if (A->values) va.assign(A->values, A->values + nnz);
    if (A->diagptr) dp.assign(A->diagptr, A->diagptr + m);
    if (A->extptr) ep.assign(A->extptr, A->extptr + m);
    if (A->idiag) id.assign(A->idiag, A->idiag + m);
    if (A->diag) dg.assign(A->diag, A->diag + m);
    const void *p[7] = {A->rowptr, A->colidx, A->values, A->diagptr, A->idiag, A->diag, A->extptr};
    memcpy(ptr, p, sizeof p);
  }
  template <class T> static bool eq(const std::vector<T> &v, const T *p) { return v.empty() || memcmp(v.data(), p, v.size() * sizeof(T)) == 0; }
  void same(Ctx &c, const char *what) const {
    const void *p[7] = {A->rowptr, A->colidx, A->values, A->diagptr, A->idiag, A->diag, A->extptr};
    CHECK(c, !memcmp(p, ptr, sizeof p), "%s replaced an array of its input matrix", what);
    CHECK(c, A->m == m && A->n == n, "%s changed the dimensions of its input matrix", what);
    CHECK(c, eq(rp, A->rowptr), "%s changed the row pointer of its input matrix", what);
    CHECK(c, eq(ci, A->colidx), "%s changed the column indices of its input matrix", what);
    CHECK(c, eq(va, A->values), "%s changed the values of its input matrix", what);
    CHECK(c, eq(dp, A->diagptr), "%s changed the diagonal pointer of its input matrix", what);
    CHECK(c, eq(ep, A->extptr), "%s changed the external pointer of its input matrix", what);
    CHECK(c, eq(id, A->idiag), "%s changed the inverse diagonal of its input matrix", what);
    CHECK(c, eq(dg, A->diag), "%s changed the diagonal of its input matrix", what);
  }
};
static int begin(Ctx &c) { return rt::begin(c, rt::isFiber ? 16 : 8); }
static int maxN(Ctx &c) { if (!rt::isFiber && c.chance(1, c.thorough ? 150 : 400)) return 12000; return c.chance(1, 50) ? (rt::isFiber ? 420 : 1100) : c.thorough && c.chance(1, 8) ? 260 : c.chance(1, 6) ? 120 : 40; }
static bool hasDup(const Mat &A) { for (auto &r : A.rows) { std::set<int> s; for (auto &e : r) if (!s.insert(e.first).second) return true; } return false; }

// ------------------------------------------------------------------ P11
static void transposeProp(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.duplicates = c.flip();
  bool wantDiag = c.chance(1, 3);
  if (wantDiag) { o.square = o.diag = true; o.duplicates = false; }
  Mat M = genMat(c, o);
  bool vals = !c.chance(1, 4);
  CsrBox B(M, base, vals, wantDiag);
  Snap s(B.A);
  c.note("%s base=%d values=%d diagptr=%d threads=%d", show(M).c_str(), base, vals, wantDiag, nt);
  CSR *T = B.A->transpose();
  s.same(c, "transpose");
  CHECK(c, (T->values != nullptr) == vals, "transpose %s values", vals ? "lost" : "invented");
  Mat got = fromCSR(c, T, "transpose", base), want = transposeRef(M);
  if (!vals) for (auto &r : want.rows) for (auto &e : r) e.second = 1;
  expectEqual(c, got, want, "transpose");
  if (wantDiag) {
    CHECK(c, T->diagptr, "transpose lost the diagonal pointer");
    for (int i = 0; i < T->m; ++i) {
      int j = T->diagptr[i] - base;
      CHECK(c, j >= T->rowptr[i] - base && j < T->rowptr[i + 1] - base && T->colidx[j] - base == i, "transpose: diagonal pointer of row %d is %d", i, T->diagptr[i]);
    }
  }
  CSR *TT = T->transpose();
  Mat back = fromCSR(c, TT, "double transpose", base), w2 = transposeRef(want);
  expectEqual(c, back, w2, "double transpose");
  delete TT; delete T;
  if (M.nnz() && nt > 1 && (M.m > 1 || M.n > 1)) c.nontrivial();
}

// ------------------------------------------------------------------ P12
static void sortLocal(Mat &M, const VI &len) { // local columns only
  for (int i = 0; i < M.m; ++i) std::sort(M.rows[i].begin(), M.rows[i].begin() + (len.empty() ? (int)M.rows[i].size() : len[i]), [](const std::pair<int, double> &a, const std::pair<int, double> &b) { return a.first < b.first; });
}
static void checkExt(Ctx &c, const CSR *P, int base, const VI &len, const VI &rowOf, const char *what) {
  if (len.empty()) return;
  CHECK(c, P->extptr, "%s lost the external pointer", what);
  for (int i = 0; i < P->m; ++i) {
    int want = P->rowptr[i] + len[rowOf.empty() ? i : rowOf[i]];
    CHECK(c, P->extptr[i] == want, "%s: external columns of row %d start at %d, expected %d (base %d)", what, i, P->extptr[i], want, base);
  }
}
static Mat permRef(const Mat &M, const int *colPerm, const int *rowInv, int localCols) {
  Mat R; R.resize(M.m, M.n);
  for (int i = 0; i < M.m; ++i) { R.rows[i] = M.rows[rowInv ? rowInv[i] : i]; if (colPerm) for (auto &e : R.rows[i]) if (e.first < localCols) e.first = colPerm[e.first]; }
  return R;
}
static void checkDiagData(Ctx &c, const CSR *P, int base, bool dp, bool id, const VI &diagColOf, const VD &idWant, const char *what) {
  if (dp) {
    CHECK(c, P->diagptr, "%s lost the diagonal pointer", what);
    for (int i = 0; i < P->m; ++i) {
      int j = P->diagptr[i] - base;
      CHECK(c, j >= P->rowptr[i] - base && j < P->rowptr[i + 1] - base, "%s: diagonal pointer of row %d is %d, outside the row", what, i, P->diagptr[i]);
      CHECK(c, P->colidx[j] - base == diagColOf[i], "%s: diagonal pointer of row %d designates column %d, expected %d", what, i, P->colidx[j] - base, diagColOf[i]);
    }
  }
  if (id) {
    CHECK(c, P->idiag, "%s lost the inverse diagonal", what);
    for (int i = 0; i < P->m; ++i) CHECK(c, P->idiag[i] == idWant[i], "%s: inverse diagonal of row %d is %g, expected %g", what, i, P->idiag[i], idWant[i]);
  }
}
static void permuteProp(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  int op = (int)c.draw(3); // 0,1: permute 2: permuteRows 3: permuteColsInPlace
  bool dp = c.flip(), id = dp && c.flip();
  MatOpts o; o.maxN = maxN(c); o.square = dp || op == 3; o.diag = dp; o.duplicates = false;
  Mat M = genMat(c, o);
  bool vals = !c.chance(1, 4);
  if (!vals) { id = false; for (auto &r : M.rows) for (auto &e : r) e.second = 1; }
  bool nullRow = c.chance(1, 6);
  VI inv = genPerm(c, M.m);
  // the column permutation is the matching symmetric one, or an independent one
  VI col = M.m == M.n && c.chance(2, 3) && !nullRow ? invert(inv) : genPerm(c, M.n);
  VI len, rowOf;
  if (M.m && M.m == M.n && c.chance(1, 4)) { len = fatten(c, M); if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1; }
  Arr<int> I(inv), C(col);
  const int *rowInv = nullRow ? nullptr : (const int *)I;
  CsrBox B(M, base, vals, dp, id);
  if (!len.empty()) B.setExt(len, base);
  int localCols = len.empty() ? M.n : M.m;
  if (op != 3) for (int i = 0; i < M.m; ++i) rowOf.push_back(rowInv ? rowInv[i] : i);
  bool sort = c.flip();
  static const char *nm[] = {"permute", "permute", "permuteRows", "permuteColsInPlace"};
  c.label("op:%s base:%d", nm[op], base);
  c.note("%s %s rowInv=%s col=%s base=%d sort=%d values=%d diagptr=%d idiag=%d threads=%d", nm[op], show(M, 160).c_str(), nullRow ? "null" : show(inv, 10).c_str(), show(col, 10).c_str(), base, sort, vals, dp, id, nt);
  VI dcol(M.m, -1); VD idw(M.m, 0);
  for (int i = 0; i < M.m; ++i) {
    int row = op == 3 ? i : rowInv ? rowInv[i] : i;
    if (row < M.n) dcol[i] = op == 2 ? row : col[row];
    for (auto &e : M.rows[row]) if (e.first == row) idw[i] = 1 / e.second;
  }
  if (op <= 2) {
    Snap s(B.A);
    // at once, or in the documented two steps; then perhaps again into the same matrix with other permutations
    CSR *P;
    bool steps = c.chance(1, 3);
    if (steps) {
      c.label("two-step");
      P = B.A->permuteRowptr(rowInv);
      if (op == 2) B.A->permuteRowsMain(P, rowInv); else B.A->permuteMain(P, C, rowInv, sort);
    } else P = op == 2 ? B.A->permuteRows(rowInv) : B.A->permute(C, rowInv, sort);
    auto verify = [&](const int *ri, const int *cp, const VI &diagCol, const VD &idv, const VI &ro, bool sorted, const char *what) {
      s.same(c, what);
      CHECK(c, (P->values != nullptr) == vals, "%s %s values", what, vals ? "lost" : "invented");
      Mat got = fromCSR(c, P, what, base), want = permRef(M, op == 2 ? nullptr : cp, ri, localCols);
      VI nl; if (!len.empty()) for (int i = 0; i < M.m; ++i) nl.push_back(len[ro.empty() ? i : ro[i]]);
      if (op != 2 && sorted) sortLocal(want, nl);
      expectEqual(c, got, want, what);
      checkExt(c, P, base, len, ro, what);
      checkDiagData(c, P, base, dp, id, diagCol, idv, what);
    };
    verify(rowInv, C, dcol, idw, rowOf, sort, nm[op]);
    int again = c.chance(1, 3) ? c.range(1, 2) : 0;
    while (again--) {
      c.label("reused");
      VI i2 = genPerm(c, M.m), c2 = M.m == M.n && c.flip() ? invert(i2) : genPerm(c, M.n), dcol2(M.m, -1); VD idw2(M.m, 0);
      if (!len.empty()) { c2 = genPerm(c, M.m); while ((int)c2.size() < M.n) c2.push_back((int)c2.size()); }
      bool sort2 = c.flip();
      Arr<int> I2(i2), C2(c2);
      for (int i = 0; i < M.m; ++i) { int row = i2[i]; if (row < M.n) dcol2[i] = op == 2 ? row : c2[row]; for (auto &e : M.rows[row]) if (e.first == row) idw2[i] = 1 / e.second; }
      B.A->permuteRowptr(P, I2);
      if (op == 2) B.A->permuteRowsMain(P, I2); else B.A->permuteMain(P, C2, I2, sort2);
      verify(I2, C2, dcol2, idw2, i2, sort2, "permuting again into the same matrix");
    }
    delete P;
  } else {
    VI dpos(M.m, -1);
    B.A->permuteColsInPlace(C);
    Mat got = fromCSR(c, B.A, nm[op], base), want = permRef(M, C, nullptr, localCols);
    for (int i = 0; i < M.m; ++i) {
      int ll = len.empty() ? (int)want.rows[i].size() : len[i];
      if (!dp) { std::sort(want.rows[i].begin(), want.rows[i].begin() + ll); continue; }
      // entries stay on their side of the diagonal entry, each side in column order
      auto &r = want.rows[i];
      size_t k = 0; while (M.rows[i][k].first != i) ++k;
      std::sort(r.begin(), r.begin() + k); std::sort(r.begin() + k + 1, r.begin() + ll);
    }
    expectEqual(c, got, want, nm[op]);
    checkDiagData(c, B.A, base, dp, id, dcol, idw, nm[op]);
  }
  if (M.nnz() && nt > 1 && M.m > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P13
static double coef(Ctx &c) { static const double t[] = {1, 0, -1, 2, -3, 0.5, 0.25, 7}; return t[c.draw(7)]; }
static void spmv(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.duplicates = c.flip();
  Mat M = genMat(c, o);
  bool vals = !c.chance(1, 4);
  if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1;
  CsrBox B(M, base, vals);
  int alias = (int)c.draw(3); // 0,1: none, 2: w==x, 3: w==y
  bool simple = c.chance(1, 4);
  double al = coef(c), be = coef(c), ga = coef(c);
  if (c.chance(1, 4)) { al = -1; be = 1; ga = 0; }
  if (c.chance(1, 6)) { al = 1; be = 0; ga = 0; }
  if (simple) { al = 1; be = ga = 0; if (alias == 3) alias = 0; }
  VD x(M.n), y(M.m), want(M.m);
  for (auto &v : x) v = c.range(-6, 6);
  for (auto &v : y) v = c.range(-6, 6);
  size_t wn = alias == 2 ? std::max(M.m, M.n) : M.m;
  if (alias == 2) x.resize(wn, 99.0);
  Arr<double> X(x), Y(y), W(wn, std::nan(""));
  double *w = alias == 2 ? (double *)X : alias == 3 ? (double *)Y : (double *)W;
  for (int i = 0; i < M.m; ++i) { double s = 0; for (auto &e : M.rows[i]) s += e.second * x[e.first]; want[i] = al * s + (be == 0 ? 0 : be * y[i]) + ga; }
  c.label("alias:%d simple:%d base:%d", alias, simple, base);
  c.note("%s base=%d values=%d alias=%d a=%g b=%g g=%g simple=%d threads=%d", show(M, 200).c_str(), base, vals, alias, al, be, ga, simple, nt);
  Snap s(B.A);
  if (simple) B.A->multiplyWithVector(w, X);
  else B.A->multiplyWithVector(w, al, X, be, Y, ga);
  s.same(c, "multiplyWithVector");
  for (int i = 0; i < M.m; ++i) CHECK(c, w[i] == want[i], "%g*A*x+%g*y+%g (alias %d): row %d is %.17g, expected %.17g", al, be, ga, alias, i, w[i], want[i]);
  if (alias != 2) for (int i = 0; i < M.n; ++i) CHECK(c, X[i] == x[i], "multiplyWithVector changed its input x[%d]", i);
  if (alias == 2) for (size_t i = M.m; i < wn; ++i) CHECK(c, X[i] == x[i], "multiplyWithVector wrote past the result at %zu", i);
  if (alias != 3) for (int i = 0; i < M.m; ++i) CHECK(c, Y[i] == y[i], "multiplyWithVector changed its input y[%d]", i);
  if (M.nnz() && nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P14
struct Dense { int rs, cs; size_t len; size_t at(int i, int j) const { return (size_t)i * rs + (size_t)j * cs; } };
static Dense layout(Ctx &c, int rows, int k) {
  Dense d; int kind = (int)c.draw(3), p = (int)c.draw(3);
  if (kind == 0) { d.rs = 1; d.cs = rows; }                        // column major
  else if (kind == 1) { d.rs = 1; d.cs = rows + p; }                // column major, padded
  else if (kind == 2) { d.rs = k; d.cs = 1; }                       // row major
  else { d.cs = 1 + (int)c.draw(1); d.rs = k * d.cs + p; }          // row major, padded
  d.len = rows ? d.at(rows - 1, k - 1) + 1 : 0;
  return d;
}
static void spmm(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  bool wide = !rt::isFiber && c.chance(1, 1500); // more columns than fit on a thread's stack
  MatOpts o; o.maxN = wide ? 3 : c.chance(1, 6) ? 90 : 30; o.duplicates = c.flip();
  Mat M = genMat(c, o);
  CsrBox B(M, base);
  int k = wide ? c.range(1100000, 1300000) : c.chance(1, 6) ? c.range(7, 33) : c.range(1, 6);
  if (wide) c.label("columns:>1M");
  bool simple = c.chance(1, 3), aliasY = !simple && c.chance(1, 4);
  Dense dw = layout(c, M.m, k), dx = layout(c, M.n, k), dy = layout(c, M.m, k);
  double al = coef(c), be = coef(c), ga = coef(c);
  if (c.chance(1, 4)) { al = 1; be = ga = 0; }
  if (simple) { dw = Dense{1, M.m, (size_t)M.m * k}; dx = Dense{1, M.n, (size_t)M.n * k}; al = 1; be = ga = 0; }
  if (aliasY) dy = dw;
  VD x(dx.len), y(dy.len);
  if (wide) {
    for (size_t i = 0; i < x.size(); ++i) x[i] = (int)(i % 13) - 6;
    for (size_t i = 0; i < y.size(); ++i) y[i] = (int)(i % 11) - 5;
  } else {
    for (auto &v : x) v = c.range(-6, 6);
    for (auto &v : y) v = c.range(-6, 6);
  }
  VD w0(dw.len, -777.0);
  if (simple) for (auto &v : w0) v = std::nan("");
  Arr<double> X(x), Y(y), W(w0);
  double *w = aliasY ? (double *)Y : (double *)W;
  if (aliasY) w0 = y;
  VD want = w0;
  for (int i = 0; i < M.m; ++i) for (int q = 0; q < k; ++q) {
    double s = 0; for (auto &e : M.rows[i]) s += e.second * x[dx.at(e.first, q)];
    want[dw.at(i, q)] = al * s + (be == 0 ? 0 : be * y[dy.at(i, q)]) + ga;
  }
  c.label("base:%d simple:%d alias:%d", base, simple, aliasY);
  c.note("%s base=%d k=%d W(%d,%d) X(%d,%d) Y(%d,%d) a=%g b=%g g=%g simple=%d aliasY=%d threads=%d", show(M, 160).c_str(), base, k, dw.rs, dw.cs, dx.rs, dx.cs, dy.rs, dy.cs, al, be, ga, simple, aliasY, nt);
  Snap s(B.A);
  if (simple) B.A->multiplyWithDenseMatrix(w, k, X);
  else B.A->multiplyWithDenseMatrix(w, k, dw.rs, dw.cs, al, X, dx.rs, dx.cs, be, aliasY ? w : (double *)Y, dy.rs, dy.cs, ga);
  s.same(c, "multiplyWithDenseMatrix");
  for (size_t i = 0; i < dw.len; ++i) CHECK(c, w[i] == want[i], "multiplyWithDenseMatrix: result element at offset %zu is %.17g, expected %.17g", i, w[i], want[i]);
  for (size_t i = 0; i < dx.len; ++i) CHECK(c, X[i] == x[i], "multiplyWithDenseMatrix changed X at offset %zu", i);
  if (!aliasY) for (size_t i = 0; i < dy.len; ++i) CHECK(c, Y[i] == y[i], "multiplyWithDenseMatrix changed Y at offset %zu", i);
  if (M.nnz() && nt > 1 && k > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P15
static void splitProp(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.square = true; o.diag = true; o.symPattern = c.flip();
  Mat M = genMat(c, o);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i && e.second == 0) e.second = 2; // invertible diagonal
  VI len;
  if (c.chance(1, 3)) len = fatten(c, M);
  CsrBox B(M, base, true, c.flip(), true);
  if (!len.empty()) B.setExt(len, base);
  c.note("%s base=%d halo=%d threads=%d", show(M).c_str(), base, !len.empty(), nt);
  Snap s(B.A);
  CSR *L = new CSR(), *U = new CSR();
  splitLU(*B.A, L, U);
  s.same(c, "splitLU");
  Mat l = fromCSR(c, L, "L", base), u = fromCSR(c, U, "U", base), wl, wu;
  wl.resize(M.m, M.n); wu.resize(M.m, M.n);
  VI ulen;
  if (!len.empty()) for (int i = 0; i < M.m; ++i) { int k = 0; for (int j = 0; j < len[i]; ++j) k += M.rows[i][j].first > i; ulen.push_back(k); }
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) { if (e.first < i) wl.rows[i].push_back(e); else if (e.first > i) wu.rows[i].push_back(e); }
  expectEqual(c, l, wl, "strictly lower part");
  expectEqual(c, u, wu, "strictly upper part");
  checkExt(c, U, base, ulen, VI(), "strictly upper part");
  CHECK(c, L->idiag && U->idiag, "inverse diagonal missing from a factor");
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i) {
    CHECK(c, L->idiag[i] == 1 / e.second && U->idiag[i] == 1 / e.second, "inverse diagonal of row %d is %g / %g, expected %g", i, L->idiag[i], U->idiag[i], 1 / e.second);
  }
  if (c.chance(1, 4)) { // reuse of the output matrices
    splitLU(*B.A, L, U);
    expectEqual(c, fromCSR(c, L, "L", base), wl, "strictly lower part (second call)");
    expectEqual(c, fromCSR(c, U, "U", base), wu, "strictly upper part (second call)");
    checkExt(c, U, base, ulen, VI(), "strictly upper part (second call)");
  }
  delete L; delete U;
  if (nt > 1 && wl.nnz() && wu.nnz()) c.nontrivial();
}

// ------------------------------------------------------------------ P16
static void symPattern(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.square = true; o.diag = true; o.sorted = true; o.symPattern = c.chance(1, 2);
  Mat M = genMat(c, o);
  if (M.m && o.symPattern && c.flip()) { // remove a few entries, or none
    int e = c.range(0, 3);
    while (e--) { int i = c.range(0, M.m - 1); auto &r = M.rows[i]; int k = c.range(0, (int)r.size() - 1); if (r[k].first != i) r.erase(r.begin() + k); }
  }
  bool vals = c.flip();
  VI len;
  if (c.chance(1, 3) && M.m) len = fatten(c, M);
  CsrBox B(M, base, vals);
  if (!len.empty()) B.setExt(len, base);
  bool sym = true;
  std::vector<std::set<int>> want(M.m);
  std::vector<VI> tail(M.m); // external columns keep their order behind the local ones
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) { want[i].insert(e.first); if (e.first < M.m) want[e.first].insert(i); else tail[i].push_back(e.first); }
  for (int i = 0; i < M.m; ++i) if (want[i].size() != M.rows[i].size()) sym = false;
  c.label("symmetric:%d base:%d", sym, base);
  c.note("%s base=%d symmetric=%d threads=%d", show(M).c_str(), base, sym, nt);
  Snap s(B.A);
  int *rp = nullptr, *dp = nullptr, *ep = nullptr, *ci = nullptr;
  bool r = getSymmetricNnzPattern(B.A, &rp, &dp, &ep, &ci);
  s.same(c, "getSymmetricNnzPattern");
  CHECK(c, r == sym, "getSymmetricNnzPattern reports %s for a matrix whose pattern is %s", r ? "symmetric" : "asymmetric", sym ? "symmetric" : "asymmetric");
  if (!r) {
    CHECK(c, rp && ci && dp, "no pattern returned");
    CHECK(c, rp[0] == base, "symmetrised row pointer starts at %d, expected %d", rp[0], base);
    for (int i = 0; i < M.m; ++i) {
      CHECK(c, rp[i + 1] - rp[i] == (int)want[i].size(), "symmetrised row %d has %d entries, expected %zu", i, rp[i + 1] - rp[i], want[i].size());
      int k = rp[i] - base;
      VI row; for (int j : want[i]) if (j < M.m) row.push_back(j);
      if (!len.empty()) CHECK(c, ep && ep[i] == rp[i] + (int)row.size(), "external columns of symmetrised row %d start at %d, expected %d", i, ep ? ep[i] : -1, rp[i] + (int)row.size());
      row.insert(row.end(), tail[i].begin(), tail[i].end());
      for (int j : row) { CHECK(c, ci[k] - base == j, "symmetrised row %d: column %d, expected %d", i, ci[k] - base, j); ++k; }
      int d = dp[i] - base;
      CHECK(c, d >= rp[i] - base && d < rp[i + 1] - base && ci[d] - base == i, "diagonal pointer of symmetrised row %d is %d", i, dp[i]);
    }
    FREE(rp); FREE(ci); FREE(dp); FREE(ep);
  } else CHECK(c, !rp, "a row pointer was left behind for a symmetric matrix");
  if (nt > 1 && M.nnz() > M.m) c.nontrivial();
}

// ------------------------------------------------------------------ P17
static void queries(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c);
  int fam = (int)c.draw(3);
  o.square = fam != 0; o.symPattern = fam >= 2; o.symValues = fam == 3; o.diag = fam >= 1 && c.flip();
  Mat M = genMat(c, o);
  if (fam == 3 && c.flip() && M.nnz()) { int i = c.range(0, M.m - 1); if (!M.rows[i].empty()) M.rows[i][c.range(0, (int)M.rows[i].size() - 1)].second += 1; }
  if (M.m && M.m == M.n && c.chance(1, 5)) { // halo columns do not count for symmetry
    Mat F = M; VI len = fatten(c, F);
    CsrBox H(F, base); H.setExt(len, base);
    Snap hs(H.A);
    std::map<std::pair<int, int>, double> at;
    for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) at[{i, e.first}] = e.second;
    bool ps = true, vs = true;
    for (auto &e : at) { auto it = at.find({e.first.second, e.first.first}); if (it == at.end()) ps = vs = false; else if (it->second != e.second) vs = false; }
    c.note("%s base=%d halo threads=%d", show(F, 120).c_str(), base, nt);
    bool print = c.flip();
    CHECK(c, H.A->isSymmetric(true, print) == vs, "isSymmetric(values) of a matrix with halo is %d, expected %d", !vs, vs);
    CHECK(c, H.A->isSymmetric(false, print) == ps, "isSymmetric(pattern) of a matrix with halo is %d, expected %d", !ps, ps);
    hs.same(c, "a symmetry query");
  }
  if (fam == 0 && c.chance(1, 4)) { // a matrix much wider than tall: columns anywhere in the range of an index
    long span = (long)INT_MAX - base, s = std::max(1L, (c.flip() ? span : (long)c.range(1, INT_MAX - 2)) / std::max(1, M.n)), off = c.flip() ? span - s * M.n : 0;
    for (auto &r : M.rows) for (auto &e : r) e.first = (int)(e.first * s + off + (s - 1));
    M.n = (int)span;
    c.label("stretched");
  }
  CsrBox B(M, base);
  c.note("%s base=%d threads=%d", show(M).c_str(), base, nt);
  bool patSym = M.m == M.n, valSym = patSym, zeroDiag = false;
  int bw = 0, deg = 0; double width = 0;
  std::map<std::pair<int,int>, double> at;
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) at[{i, e.first}] = e.second;
  for (int i = 0; i < M.m; ++i) {
    int lo = INT_MAX, hi = -1;
    for (auto &e : M.rows[i]) {
      lo = std::min(lo, e.first); hi = std::max(hi, e.first); bw = std::max(bw, std::abs(e.first - i));
      if (patSym) { auto it = at.find({e.first, i}); if (it == at.end()) patSym = valSym = false; else if (it->second != e.second) valSym = false; }
    }
    if (hi >= 0) width += (double)(hi - lo);
    deg = std::max(deg, (int)M.rows[i].size());
    auto it = at.find({i, i});
    if (it == at.end() || it->second == 0) zeroDiag = true;
  }
  Snap s(B.A);
  bool print = c.chance(1, 3);
  CHECK(c, B.A->isSymmetric(true, print) == valSym, "isSymmetric(values) is %d, expected %d", !valSym, valSym);
  CHECK(c, B.A->isSymmetric(false, print) == patSym, "isSymmetric(pattern) is %d, expected %d", !patSym, patSym);
  CHECK(c, B.A->hasZeroDiag() == zeroDiag, "hasZeroDiag is %d, expected %d", !zeroDiag, zeroDiag);
  if (M.nnz()) CHECK(c, B.A->getBandwidth() == bw, "bandwidth is %d, expected %d", B.A->getBandwidth(), bw);
  if (M.m) CHECK(c, B.A->getAverageWidth() == width / M.m, "average width is %g, expected %g", B.A->getAverageWidth(), width / M.m);
  if (M.m && sortRows(M) == M) CHECK(c, B.A->getAverageWidth(true) == width / M.m, "average width (sorted) is %g, expected %g", B.A->getAverageWidth(true), width / M.m);
  CHECK(c, B.A->getMaxDegree() == deg, "maximum degree is %d, expected %d", B.A->getMaxDegree(), deg);
  CHECK(c, B.A->getNnz() == M.nnz() && B.A->getBase() == base, "getNnz %d getBase %d, expected %d %d", B.A->getNnz(), B.A->getBase(), M.nnz(), base);
  if (M.nnz() < 400 && c.chance(1, 4)) {
    std::string out = captured(c, [&] { B.A->print(); });
    const char *q = out.c_str();
    for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) {
      int a = -1, b = -1, used = 0; double v = 0;
      CHECK(c, sscanf(q, "%d %d %lg%n", &a, &b, &v, &used) == 3 && a == i + base && b == e.first + base && fabs(v - e.second) <= 1e-5 * fabs(e.second), "print: at '%.30s' expected entry (%d, %d) = %g", q, i + base, e.first + base, e.second);
      q += used;
    }
    while (isspace(*q)) ++q;
    CHECK(c, !*q, "print: surplus output '%.40s'", q);
  }
  CsrBox B2(M, base);
  CHECK(c, B.A->equals(*B2.A, print) && B2.A->equals(*B.A, print), "a matrix is reported different from its copy");
  s.same(c, "a structural query");
  // equals must notice any single difference
  Mat D = M; int b2 = base; const char *how = "index base";
  int kind = (int)c.draw(6);
  if (kind == 0) b2 = 1 - base;
  else if (kind == 1 || D.n > INT_MAX / 2) { D.n -= D.n > 1 ? 1 : -1; how = "number of columns"; if (D.n < M.n) for (auto &r : D.rows) for (auto &e : r) e.first = std::min(e.first, D.n - 1); }
  else if (kind == 2) { D.rows.push_back({}); D.m++; how = "number of rows"; }
  else if (M.nnz()) {
    int i; do i = c.range(0, M.m - 1); while (M.rows[i].empty() && !c.replay); // skip empty rows
    while (i < M.m - 1 && M.rows[i].empty()) ++i;
    if (M.rows[i].empty()) for (i = 0; M.rows[i].empty();) ++i;
    auto &r = D.rows[i]; int k = c.range(0, (int)r.size() - 1);
    if (kind == 3) { r[k].second += 1; how = "a value"; }
    else if (kind == 6) { r.pop_back(); how = "the number of entries"; }
    else if (kind == 4) { r[k].first = (r[k].first + 1) % D.n; how = "a column index"; if (D.n == 1) { r[k].second += 1; how = "a value"; } }
    else { // move one entry to a neighbouring row: same column/value sequence, other row structure
      how = "the row structure";
      if (M.m == 1) { D.n += 1; how = "number of columns"; }
      else if (i + 1 < M.m) { auto e = r.back(); r.pop_back(); D.rows[i + 1].insert(D.rows[i + 1].begin(), e); }
      else { auto e = r.front(); r.erase(r.begin()); D.rows[i - 1].push_back(e); }
    }
  } else { D.n += 1; how = "number of columns"; }
  CsrBox B3(D, b2);
  CHECK(c, !B.A->equals(*B3.A, false) && !B3.A->equals(*B.A, true), "matrices that differ in %s are reported equal", how);
  c.label("differs:%s", how);
  if (M.nnz() && nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P18
static void indexBase(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.square = o.diag = c.flip();
  Mat M = genMat(c, o);
  bool vals = !c.chance(1, 5), dp = o.diag && c.flip();
  if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1;
  VI len;
  if (M.m == M.n && c.chance(1, 3)) { len = fatten(c, M); if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1; }
  CsrBox B(M, base, vals, dp, dp && vals);
  CsrBox Z(M, 0, vals, dp, dp && vals), O(M, 1, vals, dp, dp && vals);
  if (!len.empty()) { B.setExt(len, base); Z.setExt(len, 0); O.setExt(len, 1); }
  int steps = c.range(1, 6); std::string seq;
  for (int k = 0; k < steps; ++k) {
    int b = (int)c.draw(1);
    seq += b ? '1' : '0';
    if (b) B.A->make1BasedIndexing(); else B.A->make0BasedIndexing();
    Snap want(b ? O.A : Z.A);
    CHECK(c, B.A->getBase() == b, "index base is %d after conversion to %d", B.A->getBase(), b);
    CHECK(c, B.A->m == M.m && B.A->n == M.n && B.A->getNnz() == M.nnz(), "conversion changes dimensions");
    CHECK(c, Snap::eq(want.rp, B.A->rowptr), "row pointer wrong after conversion sequence %s", seq.c_str());
    CHECK(c, Snap::eq(want.ci, B.A->colidx), "column indices wrong after conversion sequence %s", seq.c_str());
    if (vals) CHECK(c, Snap::eq(want.va, B.A->values), "values changed by conversion sequence %s", seq.c_str());
    if (dp) CHECK(c, Snap::eq(want.dp, B.A->diagptr), "diagonal pointer wrong after conversion sequence %s", seq.c_str());
    if (!len.empty()) CHECK(c, Snap::eq(want.ep, B.A->extptr), "external pointer wrong after conversion sequence %s", seq.c_str());
    if (dp && vals) CHECK(c, Snap::eq(want.id, B.A->idiag), "inverse diagonal changed by conversion sequence %s", seq.c_str());
  }
  c.note("%s from base %d through %s threads=%d", show(M).c_str(), base, seq.c_str(), nt);
  if (M.nnz() && nt > 1) c.nontrivial();
}
// constructDiagPtr / computeInverseDiag
static void diagData(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.square = o.diag = true;
  Mat M = genMat(c, o);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i && e.second == 0) e.second = 2;
  // constructDiagPtr wants lower entries before and upper entries after the diagonal one
  for (int i = 0; i < M.m; ++i) std::stable_partition(M.rows[i].begin(), M.rows[i].end(), [i](const std::pair<int, double> &e) { return e.first < i; }),
    std::stable_partition(M.rows[i].begin(), M.rows[i].end(), [i](const std::pair<int, double> &e) { return e.first <= i; });
  CsrBox B(M, base);
  c.note("%s base=%d threads=%d", show(M).c_str(), base, nt);
  if (c.flip()) B.A->constructDiagPtr(); else B.A->computeInverseDiag();
  bool inv = B.A->idiag != nullptr;
  if (!inv && c.flip()) { B.A->computeInverseDiag(); inv = true; }
  CHECK(c, B.A->diagptr, "no diagonal pointer constructed");
  VI dc(M.m); VD id(M.m);
  for (int i = 0; i < M.m; ++i) { dc[i] = i; for (auto &e : M.rows[i]) if (e.first == i) id[i] = 1 / e.second; }
  checkDiagData(c, B.A, base, true, inv, dc, id, "diagonal data");
  expectEqual(c, fromCSR(c, B.A, "diagonal data", base), M, "diagonal data");
  if (nt > 1 && M.m > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P22
static void expectRowsAsBags(Ctx &c, const Mat &got, Mat want, const char *what) { // sorted columns, duplicate values in any order
  Mat g = got;
  for (int i = 0; i < g.m; ++i)
    for (size_t k = 1; k < g.rows[i].size(); ++k) CHECK(c, g.rows[i][k - 1].first <= g.rows[i][k].first, "%s: row %d is not sorted at entry %zu", what, i, k);
  for (auto &r : g.rows) std::sort(r.begin(), r.end());
  for (auto &r : want.rows) std::sort(r.begin(), r.end());
  expectEqual(c, g, want, what);
}
static void cooProp(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.duplicates = c.flip();
  bool diag = c.chance(1, 2);
  if (diag) { o.square = o.diag = true; o.duplicates = false; }
  Mat M = genMat(c, o);
  struct E { int i, j; double v; };
  std::vector<E> es;
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) es.push_back({i, e.first, e.second});
  int order = (int)c.draw(2);
  if (order == 1) std::reverse(es.begin(), es.end());
  if (order == 2) for (size_t k = es.size(); k > 1; --k) std::swap(es[k - 1], es[c.draw(k - 1)]);
  Mat want; want.resize(M.m, M.n); // insertion order within rows
  VI ri, ci; VD va;
  for (auto &e : es) { ri.push_back(e.i + 1); ci.push_back(e.j + 1); va.push_back(e.v); want.rows[e.i].push_back({e.j, e.v}); }
  bool full = c.flip(), sort = c.flip();
  c.note("%s order=%d base=%d api=%s sort=%d threads=%d", show(M).c_str(), order, base, full ? "matrix" : "arrays", full || sort, nt);
  if (full) {
    COO coo; coo.m = M.m; coo.n = M.n; coo.nnz = (int)es.size();
    coo.rowidx = heapCopy(ri); coo.colidx = heapCopy(ci); coo.values = heapCopy(va);
    bool sep = c.flip();
    CSR *A = new CSR(); A->alloc(M.m, coo.nnz, sep || c.flip());
    dcoo2csr(A, &coo, base, sep);
    expectRowsAsBags(c, fromCSR(c, A, "COO to CSR", base), want, "COO to CSR");
    if (diag) {
      VI dc(M.m); VD id(M.m);
      for (int i = 0; i < M.m; ++i) { dc[i] = i; for (auto &e : M.rows[i]) if (e.first == i) id[i] = e.second; }
      VD inv(id); for (auto &v : inv) v = 1 / v;
      checkDiagData(c, A, base, true, sep, dc, inv, "COO to CSR");
      if (sep) for (int i = 0; i < M.m; ++i) CHECK(c, A->diag[i] == id[i], "COO to CSR: diagonal of row %d is %g, expected %g", i, A->diag[i], id[i]);
    }
    for (size_t k = 0; k < es.size(); ++k) CHECK(c, coo.rowidx[k] == ri[k] && coo.colidx[k] == ci[k] && coo.values[k] == va[k], "COO to CSR changed its input entry %zu", k);
    delete A;
  } else {
    Arr<int> RI(ri), CI(ci), RP(M.m + 1, -5), CO(es.size(), -5); Arr<double> VA(va), VO(es.size(), -5.0);
    dcoo2csr(M.m, (int)es.size(), RP, CO, VO, RI, CI, VA, sort, base);
    CSR A(M.m, M.n, RP, CO, VO);
    Mat got = fromCSR(c, &A, "COO to CSR", base);
    if (sort) expectRowsAsBags(c, got, want, "COO to CSR");
    else expectEqual(c, got, want, "COO to CSR without sorting");
  }
  if (hasDup(M)) c.label("duplicates");
  if (M.nnz() > 1 && nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P23
static void laplacian(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  int cap = c.thorough && c.chance(1, 6) ? 9 : 5;
  int nx = c.range(1, cap), ny = c.range(1, cap), nz = c.range(1, cap), form = (int)c.draw(3);
  if (form >= 2) ny = nz = nx;
  c.note("%dx%dx%d base=%d form=%d threads=%d", nx, ny, nz, base, form, nt);
  CSR *A;
  if (form == 3) { char b[16]; snprintf(b, sizeof b, "%d", nx); A = new CSR(b, base); }
  else { A = new CSR(); if (c.chance(1, 4)) generate3D27PtLaplacian(A, 2, 0); form == 2 ? generate3D27PtLaplacian(A, nx, base) : generate3D27PtLaplacian(A, nx, ny, nz, base); }
  Mat W; int n = nx * ny * nz; W.resize(n, n);
  for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x)
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int d = -1; d <= 1; ++d) {
      int X = x + d, Y = y + b, Z = z + a;
      if (X < 0 || Y < 0 || Z < 0 || X >= nx || Y >= ny || Z >= nz) continue;
      int r = (z * ny + y) * nx + x, q = (Z * ny + Y) * nx + X;
      W.rows[r].push_back({q, q == r ? 26.0 : -1.0});
    }
  expectEqual(c, fromCSR(c, A, "Laplacian", base), W, "Laplacian");
  CHECK(c, A->diagptr && A->idiag && A->diag, "Laplacian lacks diagonal data");
  for (int i = 0; i < n; ++i) {
    int j = A->diagptr[i] - base;
    CHECK(c, j >= A->rowptr[i] - base && j < A->rowptr[i + 1] - base && A->colidx[j] - base == i, "Laplacian: diagonal pointer of row %d", i);
    CHECK(c, A->diag[i] == 26 && A->idiag[i] == 1 / 26.0, "Laplacian: diagonal data of row %d is %g, %g", i, A->diag[i], A->idiag[i]);
  }
  delete A;
  if (n > 1 && nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P29
static void copies(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = maxN(c); o.square = o.diag = true; o.sorted = true; o.symPattern = c.flip();
  Mat M = genMat(c, o);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i && e.second == 0) e.second = 2;
  bool vals = !c.chance(1, 5), dp = c.flip(), id = vals && c.flip(), dg = vals && c.flip();
  if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1;
  VI len;
  if (M.m && c.chance(1, 4)) { len = fatten(c, M); if (!vals) for (auto &r : M.rows) for (auto &e : r) e.second = 1; }
  CsrBox *B = new CsrBox(M, base, vals, dp, id);
  if (!len.empty()) B->setExt(len, base);
  if (dg) { B->A->diag = MALLOC(double, M.m); for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i) B->A->diag[i] = e.second; }
  c.label("arrays:%s%s%s%s", dp ? " diagptr" : "", id ? " idiag" : "", dg ? " diag" : "", len.empty() ? "" : " extptr");
  Snap s(B->A);
  CSR *C = new CSR(*B->A);
  checkExt(c, C, base, len, VI(), "copy");
  CHECK(c, C->extptr ? C->extptr != B->A->extptr : len.empty(), "the copy shares or lacks the external pointer");
  const void *pp[6] = {C->rowptr, C->colidx, C->values, C->diagptr, C->idiag, C->diag};
  const void *qq[6] = {B->A->rowptr, B->A->colidx, B->A->values, B->A->diagptr, B->A->idiag, B->A->diag};
  for (int i = 0; i < 6; ++i) CHECK(c, !pp[i] || pp[i] != qq[i], "the copy shares array %d with the original", i);
  CHECK(c, (C->values != nullptr) == vals && (C->diagptr != nullptr) == dp && (C->idiag != nullptr) == id && (C->diag != nullptr) == dg, "the copy has other arrays than the original");
  expectEqual(c, fromCSR(c, C, "copy", base), M, "copy");
  if (dp) CHECK(c, Snap::eq(s.dp, C->diagptr), "the copy's diagonal pointer differs");
  if (id) CHECK(c, Snap::eq(s.id, C->idiag), "the copy's inverse diagonal differs");
  if (dg) CHECK(c, Snap::eq(s.dg, C->diag), "the copy's diagonal differs");
  int ops = c.range(1, 6); std::string seq;
  VI perm = genPerm(c, M.m); Arr<int> P(perm);
  Arr<double> x(M.n, 1.0), w(M.m, 0.0);
  for (int k = 0; k < ops; ++k) { // read-only operations on the original
    int op = (int)c.draw(9); seq += (char)('a' + op);
    switch (op) {
    case 0: delete B->A->transpose(); break;
    case 1: delete B->A->permute(P, P, c.flip() && vals); break;
    case 2: delete B->A->permuteRows(P); break;
    case 3: B->A->multiplyWithVector(w, x); break;
    case 4: B->A->isSymmetric(vals); if (vals) B->A->hasZeroDiag(); break;
    case 5: B->A->getBandwidth(); B->A->getAverageWidth(); B->A->getMaxDegree(); break;
    case 6: if (vals) B->A->equals(*C); break;
    case 7: { int *a = 0, *b = 0, *d = 0, *e = 0; if (!getSymmetricNnzPattern(B->A, &a, &b, &d, &e)) { FREE(a); FREE(b); FREE(d); FREE(e); } break; }
    case 8: if (id) { CSR L, U; splitLU(*B->A, &L, &U); } break;
    case 9: { CSR D(*B->A); break; }
    }
    s.same(c, "a read-only operation");
  }
  c.note("%s base=%d ops=%s threads=%d", show(M, 160).c_str(), base, seq.c_str(), nt);
  bool mutateCopy = c.flip();
  if (mutateCopy) {
    int k = (int)c.draw(vals ? 3 : 2);
    if (k == 0) { if (base) C->make0BasedIndexing(); else C->make1BasedIndexing(); }
    else if (k == 1) C->permuteColsInPlace(P);
    else if (k == 2) { for (int i = 0; i < M.m; ++i) { if (id) C->idiag[i] = -9; if (dg) C->diag[i] = -9; if (dp) C->diagptr[i] = -9; if (!len.empty()) C->extptr[i] = -9; } for (int j = 0; j < M.nnz(); ++j) { C->colidx[j] = -9; if (C->values) C->values[j] = -9; } for (int i = 0; i <= M.m; ++i) C->rowptr[i] = base; }
    else C->computeInverseDiag();
    s.same(c, "changing the copy");
    delete C;
    s.same(c, "destroying the copy");
    delete B;
  } else { // the copy outlives the original and everything derived from it is independent
    CSR *T = B->A->transpose(), *Q = B->A->permute(P, P);
    for (int j = 0; j < M.nnz(); ++j) B->colidx[j] = -9;
    delete B;
    expectEqual(c, fromCSR(c, C, "copy after the original is gone", base), M, "copy after the original is gone");
    expectEqual(c, fromCSR(c, T, "transpose after the original is gone", base), transposeRef(M), "transpose after the original is gone");
    fromCSR(c, Q, "permuted matrix after the original is gone", base);
    delete C; delete T; delete Q;
  }
  if (M.nnz() > 1 && ops > 1) c.nontrivial();
}

static const char *RN = "at least one entry, more than one row or column, and a team of more than one thread";
#define REG(v, id, part, fn, nq, nth, fq, fth) static pbt::Registrar v(PICK(id, part, fn, nq, nth, fq, fth))
#ifdef NATIVE
#define PICK(id, part, fn, nq, nth, fq, fth) pbt::Property{id, part, fn, nq, nth, 3, 10, 90, RN}
#else
#define PICK(id, part, fn, nq, nth, fq, fth) pbt::Property{id, part, fn, fq, fth, 8, 10, 90, RN}
#endif
REG(a1, "P11", "transpose", transposeProp, 12000, 150000, 40000, 800000);
REG(a2, "P12", "permute", permuteProp, 12000, 150000, 40000, 800000);
REG(a3, "P13", "spmv", spmv, 12000, 150000, 40000, 800000);
REG(a4, "P14", "spmm", spmm, 12000, 150000, 40000, 800000);
REG(a5, "P15", "splitLU", splitProp, 12000, 150000, 40000, 800000);
REG(a6, "P16", "pattern", symPattern, 12000, 150000, 40000, 800000);
REG(a7, "P17", "queries", queries, 12000, 150000, 40000, 800000);
REG(a8, "P18", "base", indexBase, 12000, 150000, 40000, 800000);
REG(a9, "P18", "diagdata", diagData, 6000, 80000, 20000, 300000);
REG(b1, "P22", "coo", cooProp, 12000, 150000, 40000, 800000);
REG(b2, "P23", "laplacian", laplacian, 6000, 60000, 12000, 200000);
REG(b3, "P29", "copies", copies, 12000, 150000, 30000, 600000);
