// Generators and reference models shared by the properties.
#pragma once
#include "engine.hpp"
#include "rt.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include "CSR.hpp"

using pbt::Ctx;
typedef std::vector<int> VI;
typedef std::vector<double> VD;

struct Mat { // reference sparse matrix, 0-based, entries in storage order
  int m = 0, n = 0;
  std::vector<std::vector<std::pair<int, double>>> rows;
  int nnz() const { int s = 0; for (auto &r : rows) s += (int)r.size(); return s; }
  void resize(int m_, int n_) { m = m_; n = n_; rows.assign(m, {}); }
  bool has(int i, int j) const { for (auto &e : rows[i]) if (e.first == j) return true; return false; }
  bool operator==(const Mat &o) const { return m == o.m && n == o.n && rows == o.rows; }
};

inline std::string show(const Mat &A, size_t limit = 260) {
  std::string s = std::to_string(A.m) + "x" + std::to_string(A.n) + "{";
  for (int i = 0; i < A.m && s.size() < limit; ++i) {
    s += (i ? " " : "") + std::to_string(i) + ":";
    for (auto &e : A.rows[i]) {
      char b[40];
      if (e.second == (long)e.second) snprintf(b, sizeof b, "%d=%ld,", e.first, (long)e.second);
      else snprintf(b, sizeof b, "%d=%.3g,", e.first, e.second);
      s += b;
      if (s.size() > limit) break;
    }
  }
  return s + (s.size() > limit ? "...}" : "}");
}
inline std::string show(const VI &v, size_t limit = 40) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < limit; ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + (v.size() > limit ? ",...]" : "]");
}

// Heap arrays of exactly the stated size, so any overrun is visible.
// Both flavours' allocators are _mm_free compatible, as the library frees with.
template <class T> T *heapCopy(const std::vector<T> &v) {
  T *p = (T *)_mm_malloc(sizeof(T) * v.size(), 64);
  if (!v.empty()) memcpy(p, v.data(), sizeof(T) * v.size());
  return p;
}
template <class T> struct Arr { // RAII exact-size heap array
  T *p; size_t n;
  explicit Arr(size_t n, T init = T()) : n(n) { p = (T *)_mm_malloc(sizeof(T) * n, 64); for (size_t i = 0; i < n; ++i) p[i] = init; }
  explicit Arr(const std::vector<T> &v) : p(heapCopy(v)), n(v.size()) {}
  Arr(const Arr &) = delete;
  ~Arr() { _mm_free(p); }
  operator T *() { return p; }
  operator const T *() const { return p; }
  std::vector<T> vec() const { return std::vector<T>(p, p + n); }
};

struct MatOpts {
  bool square = false, symPattern = false, symValues = false, diag = false, sorted = false;
  bool duplicates = false;
  bool zero = true;   // now and then no rows or no columns at all
  int maxN = 40;
  int minN = 1;
};

double genValue(Ctx &c, int kind);  // small integer / dyadic / arbitrary finite
std::string commentLine(Ctx &c, const char *text); // a comment line of a Matrix Market file, now and then very long
Mat genMat(Ctx &c, const MatOpts &o);
Mat genSymGraph(Ctx &c, int minN, int maxN, bool withDiag); // structure generators for orderings
VI genPerm(Ctx &c, int n);
VI invert(const VI &p);
Mat transposeRef(const Mat &A);   // rows sorted by source row order
Mat sortRows(Mat A);

// non-owning CSR view over exact-size heap arrays in the given base
struct CsrBox {
  SpMP::CSR *A;
  int *rowptr, *colidx, *extptr = nullptr; double *values;
  void setExt(const VI &localLen, int base); // external (halo) columns start after localLen[i] entries of row i
  CsrBox(const Mat &M, int base, bool withValues = true, bool withDiagptr = false, bool withIdiag = false);
  ~CsrBox();
};
// appends columns >= m (owned by other processes) to some rows; returns how many entries of each row are local
VI fatten(Ctx &c, Mat &M);
// read back (base taken from rowptr[0]); checks structural sanity
Mat fromCSR(Ctx &c, const SpMP::CSR *A, const char *what, int expectBase, bool withValues = true);
void expectEqual(Ctx &c, const Mat &got, const Mat &want, const char *what);
// what fn writes to the standard output
template <class Fn> std::string captured(Ctx &c, Fn fn) {
  fflush(stdout);
  int fd = memfd_create("out", 0u), keep = dup(1);
  dup2(fd, 1);
  fn();
  fflush(stdout);
  dup2(keep, 1); close(keep);
  std::string s(lseek(fd, 0, SEEK_END), 0);
  if (!s.empty()) CHECK(c, pread(fd, &s[0], s.size(), 0) == (ssize_t)s.size(), "harness: cannot read back the output");
  close(fd);
  return s;
}
