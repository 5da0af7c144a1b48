// P19 Matrix Market load/store, P20 malformed files, P21 binary files, P30 vector files
#include "gen.hpp"
#include "COO.hpp"
#include "Vector.hpp"
#include <fcntl.h>
#include <functional>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
using namespace SpMP;

struct Trip { long i, j; double v; bool operator<(const Trip &o) const { return i != o.i ? i < o.i : j != o.j ? j < o.j : v < o.v; } };
struct Entry { long i, j; std::string v; };    // literal tokens
struct MM {
  std::string field = "real", sym = "general", banner;
  long m = 1, n = 1;
  std::vector<Entry> e;
  std::string pre;      // comment and blank lines between banner and size line
};
static std::string valueToken(Ctx &c, const std::string &field) {
  char b[64];
  if (field == "integer") { snprintf(b, sizeof b, "%d", c.range(-20, 20)); return b; }
  switch (c.draw(5)) {
  case 0: snprintf(b, sizeof b, "%d", c.range(-9, 9)); break;
  case 1: snprintf(b, sizeof b, "%.17g", genValue(c, 3)); break;
  case 2: snprintf(b, sizeof b, "%.3e", c.range(-999, 999) / 7.0); break;
  case 3: snprintf(b, sizeof b, "%s%d.%d", c.flip() ? "-" : "", c.range(0, 99), c.range(0, 9999)); break;
  case 4: snprintf(b, sizeof b, "+%d.5E-2", c.range(0, 9)); break;
  default: snprintf(b, sizeof b, "%.17g", c.range(-1000, 1000) / 3.0); break;
  }
  return b;
}
static MM genMM(Ctx &c, bool wantSquare) {
  MM f;
  static const char *fields[] = {"real", "real", "integer", "pattern"};
  f.field = fields[c.draw(3)];
  bool sym = c.chance(2, 5);
  if (sym) f.sym = "symmetric";
  MatOpts o; o.maxN = c.chance(1, 60) ? 400 : c.chance(1, 6) ? 60 : 14; o.square = sym || wantSquare; o.duplicates = c.chance(1, 6); o.symPattern = o.square && c.flip();
  Mat M = genMat(c, o);
  f.m = M.m; f.n = M.n;
  int base = c.chance(1, 3) ? 0 : 1;
  int tri = sym ? (int)c.draw(2) : 2; // which triangle is stored (2: whatever was generated)
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) {
    if (tri == 0 && e.first > i) continue;
    if (tri == 1 && e.first < i) continue;
    f.e.push_back({i + base, e.first + base, valueToken(c, f.field)});
  }
  int order = (int)c.draw(2);
  if (order == 1) std::reverse(f.e.begin(), f.e.end());
  if (order == 2) for (size_t k = f.e.size(); k > 1; --k) std::swap(f.e[k - 1], f.e[c.draw(k - 1)]);
  int nc = c.range(0, 3);
  for (int k = 0; k < nc; ++k) f.pre += commentLine(c, c.flip() ? " a comment 3 4 5" : "");
  if (c.chance(1, 8)) f.pre += "\n";
  f.banner = "%%MatrixMarket matrix coordinate " + f.field + " " + f.sym;
  if (c.chance(1, 6)) for (size_t k = 14; k < f.banner.size(); ++k) if (c.flip()) f.banner[k] = toupper(f.banner[k]);
  c.label("field:%s %s base:%d", f.field.c_str(), f.sym.c_str(), base);
  return f;
}
static std::string render(Ctx &c, const MM &f, long nnz = -1) {
  int style = (int)c.draw(3);
  const char *sep = style == 1 ? "  \t" : " ";
  std::string s = f.banner + "\n" + f.pre;
  s += std::to_string(f.m) + sep + std::to_string(f.n) + sep + std::to_string(nnz < 0 ? (long)f.e.size() : nnz) + "\n";
  for (size_t k = 0; k < f.e.size(); ++k) {
    if (style == 1) s += "   ";
    s += std::to_string(f.e[k].i) + sep + std::to_string(f.e[k].j);
    if (f.field != "pattern") s += sep + f.e[k].v;
    if (style == 2) s += " ";
    if (!(style == 3 && k + 1 == f.e.size())) s += "\n";
  }
  return s;
}
static std::string writeFile(const std::string &name, const std::string &data) {
  std::string p = pbt::scratchDir() + "/" + name;
  FILE *f = fopen(p.c_str(), "w");
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
  return p;
}
static bool zeroBased(const MM &f) { for (auto &e : f.e) if (!e.i || !e.j) return true; return false; }
// what the file means
static std::vector<Trip> meaning(const MM &f, bool force, bool transpose, int pad, long *pm, long *pn) {
  long b = zeroBased(f) ? 0 : 1;
  std::vector<Trip> t;
  std::set<std::pair<long, long>> have;
  for (auto &e : f.e) {
    Trip x{e.i - b, e.j - b, f.field == "pattern" ? 1.0 : strtod(e.v.c_str(), 0)};
    if (transpose) std::swap(x.i, x.j);
    t.push_back(x); have.insert({x.i, x.j});
  }
  long m = transpose ? f.n : f.m, n = transpose ? f.m : f.n;
  if (force || f.sym == "symmetric") { size_t k = t.size(); for (size_t q = 0; q < k; ++q) if (!have.count({t[q].j, t[q].i})) t.push_back({t[q].j, t[q].i, t[q].v}); }
  *pm = (m + pad - 1) / pad * pad; *pn = (n + pad - 1) / pad * pad;
  for (long i = std::min(m, n); i < std::min(*pm, *pn); ++i) t.push_back({i, i, 1.0});
  std::sort(t.begin(), t.end());
  return t;
}
static void compareTrips(Ctx &c, std::vector<Trip> g, const std::vector<Trip> &w, bool exact, const char *what) {
  std::sort(g.begin(), g.end());
  CHECK(c, g.size() == w.size(), "%s: %zu entries, expected %zu", what, g.size(), w.size());
  for (size_t k = 0; k < w.size(); ++k) {
    CHECK(c, g[k].i == w[k].i && g[k].j == w[k].j, "%s: entry (%ld,%ld), expected (%ld,%ld)", what, g[k].i, g[k].j, w[k].i, w[k].j);
    double a = g[k].v, b = w[k].v;
    CHECK(c, exact ? a == b : std::fabs(a - b) <= 2e-15 * std::fabs(b) || std::fabs(a - b) <= 5e-324, "%s: value of (%ld,%ld) is %.17g, expected %.17g", what, w[k].i, w[k].j, a, b);
  }
}
static std::vector<Trip> ofCOO(Ctx &c, const COO &A, const char *what) {
  std::vector<Trip> t;
  CHECK(c, A.nnz >= 0 && A.m >= 0 && A.n >= 0, "%s: %d x %d with %d entries", what, A.m, A.n, A.nnz);
  for (int k = 0; k < A.nnz; ++k) {
    CHECK(c, A.rowidx[k] >= 1 && A.rowidx[k] <= A.m && A.colidx[k] >= 1 && A.colidx[k] <= A.n, "%s: entry %d is at (%d,%d) in a %d x %d matrix", what, k, A.rowidx[k], A.colidx[k], A.m, A.n);
    t.push_back({A.rowidx[k] - 1, A.colidx[k] - 1, A.values[k]});
  }
  return t;
}
static std::vector<Trip> ofMat(const Mat &M) { std::vector<Trip> t; for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) t.push_back({i, e.first, e.second}); return t; }
static void checkDiag(Ctx &c, const CSR &A, int base, const char *what) {
  for (int i = 0; i < A.m; ++i) {
    int cnt = 0, at = -1;
    for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] - base == i) { ++cnt; at = j; }
    if (cnt != 1) continue;
    CHECK(c, A.diagptr[i] == at + base, "%s: diagonal pointer of row %d is %d, expected %d", what, i, A.diagptr[i], at + base);
    CHECK(c, A.diag[i] == A.values[at], "%s: diagonal of row %d is %g, expected %g", what, i, A.diag[i], A.values[at]);
    double inv = 1 / A.values[at];
    CHECK(c, A.idiag[i] == inv || (std::isnan(inv) && std::isnan(A.idiag[i])), "%s: inverse diagonal of row %d is %g, expected %g", what, i, A.idiag[i], inv);
  }
}
static void mmLoad(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 8 : 4);
  bool force = c.chance(1, 4), tr = !force && c.chance(1, 4);
  int pad = c.chance(1, 3) ? c.range(2, 9) : 1;
  MM f = genMM(c, force);
  std::string text = render(c, f), path = writeFile("a.mtx", text);
  long m, n;
  std::vector<Trip> want = meaning(f, force, tr, pad, &m, &n);
  c.note("%s %s %ldx%ld entries=%zu zeroBased=%d force=%d transposed=%d pad=%d threads=%d", f.field.c_str(), f.sym.c_str(), f.m, f.n, f.e.size(), zeroBased(f), force, tr, pad, nt);
  bool wantSym = force || f.sym == "symmetric";
  {
    COO A;
    if (c.chance(1, 4)) { // the object held another matrix before
      MM g = genMM(c, false);
      std::string p2 = writeFile("b.mtx", render(c, g));
      CHECK(c, loadMatrixMarket(p2.c_str(), A), "a valid file was rejected");
      c.label("reused");
    }
    bool ok = tr ? loadMatrixMarketTransposed(path.c_str(), A, pad) : loadMatrixMarket(path.c_str(), A, force, pad);
    CHECK(c, ok, "a valid file was rejected:\n%s", text.substr(0, 400).c_str());
    CHECK(c, A.m == m && A.n == n, "loaded %d x %d, expected %ld x %ld", A.m, A.n, m, n);
    CHECK(c, A.isSymmetric == wantSym, "symmetry flag %d, expected %d", A.isSymmetric, wantSym);
    compareTrips(c, ofCOO(c, A, "loaded file"), want, true, "loaded file");
    if (c.flip()) { // store and load again
      std::string p3 = pbt::scratchDir() + "/c.mtx";
      A.storeMatrixMarket(p3.c_str());
      COO B;
      CHECK(c, loadMatrixMarket(p3.c_str(), B), "a stored file was rejected");
      CHECK(c, B.m == A.m && B.n == A.n, "store and load: %d x %d became %d x %d", A.m, A.n, B.m, B.n);
      compareTrips(c, ofCOO(c, B, "store and load"), want, false, "store and load");
    }
  }
  if (!tr && c.flip()) {
    int base = (int)c.draw(1);
    CSR A(path.c_str(), base, force, pad);
    Mat M = fromCSR(c, &A, "loaded matrix", base);
    CHECK(c, M.m == m && M.n == n, "loaded %d x %d, expected %ld x %ld", M.m, M.n, m, n);
    for (auto &r : M.rows) for (size_t k = 1; k < r.size(); ++k) CHECK(c, r[k - 1].first <= r[k].first, "a row of the loaded matrix is not sorted");
    compareTrips(c, ofMat(M), want, true, "loaded matrix");
    checkDiag(c, A, base, "loaded matrix");
  }
  if (f.e.size() > 1 && (pad > 1 || wantSym || tr || zeroBased(f) || f.field != "real")) c.nontrivial();
}
static void mmRound(Ctx &c) { // CSR -> file -> CSR
  int nt = rt::begin(c, rt::isFiber ? 8 : 4);
  MatOpts o; o.maxN = 40; o.sorted = true;
  Mat M = genMat(c, o);
  bool odd = c.flip();
  for (auto &r : M.rows) for (auto &e : r) if (odd) e.second = c.flip() ? genValue(c, 3) : e.second / 3;
  int base = (int)c.draw(1), b2 = (int)c.draw(1);
  CsrBox B(M, base);
  std::string p = pbt::scratchDir() + "/s.mtx";
  B.A->storeMatrixMarket(p.c_str());
  CSR A(p.c_str(), b2);
  Mat G = fromCSR(c, &A, "store and load", b2);
  c.note("%s base %d to %d threads=%d", show(M, 160).c_str(), base, b2, nt);
  CHECK(c, G.m == M.m && G.n == M.n, "store and load: %dx%d became %dx%d", M.m, M.n, G.m, G.n);
  auto w = ofMat(M); std::sort(w.begin(), w.end());
  // a 0-based reading is impossible: stored indices start at 1
  compareTrips(c, ofMat(G), w, !odd, "store and load");
  expectEqual(c, fromCSR(c, B.A, "stored matrix", base), M, "stored matrix");
  if (M.nnz() > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P20
// runs f in a child; 0 returned normally, 1 exited with an error status, 2 crashed
static int contained(const std::function<void()> &f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (!p) {
    int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2);
    f();
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return 2;
  if (WEXITSTATUS(st) == 0) return 0;
  return WEXITSTATUS(st) == 77 ? 2 : 1; // 77: sanitizer report
}
static void mmReject(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 4 : 1);
  MM f = genMM(c, false);
  if (f.e.empty()) f.e.push_back({1, 1, "2"});
  long nnz = -1; std::string text; const char *what = ""; bool force = false, tr = c.chance(1, 5);
  size_t k = c.draw(f.e.size() - 1);
  bool zb = zeroBased(f);
  int kind = (int)c.draw(18);
  switch (kind) {
  case 0: what = "row index too large"; f.e[k].i = f.m + 1 + (c.flip() ? 0 : c.range(0, 1000)); break;
  case 1: what = "column index too large"; f.e[k].j = f.n + 1 + (c.flip() ? 0 : c.range(0, 1000)); break;
  case 2: what = "negative row index"; f.e[k].i = -1 - c.range(0, 1000); break;
  case 3: what = "negative column index"; f.e[k].j = -1 - c.range(0, 1000); break;
  case 4: { what = "0-based and 1-based indices mixed"; // both the index 0 and the index m (or n) occur
    Entry a{c.flip() ? 0 : 1, 0, "1"}, b{f.m, 1, "1"}; if (c.flip()) { b.i = 1; b.j = f.n; }
    if (c.flip()) a.i = 0;
    if (c.flip()) std::swap(a, b);
    f.e.insert(f.e.begin() + k, a); f.e.insert(f.e.begin() + c.draw(f.e.size()), b); break; }
  case 5: what = "fewer entries than announced"; nnz = (long)f.e.size() + 1 + c.range(0, 20); break;
  case 6: what = "more entries than announced"; nnz = (long)f.e.size() - 1 - (c.flip() ? 0 : c.range(0, (int)f.e.size() - 1)); break;
  case 7: { what = "many more entries than announced"; int x = c.range(1, 60); nnz = (long)f.e.size(); while (x--) f.e.push_back(f.e[c.draw(f.e.size() - 1)]); break; }
  case 8: what = "symmetric but not square"; f.sym = "symmetric"; f.n = f.m + 1 + c.range(0, 5); f.banner = "%%MatrixMarket matrix coordinate " + f.field + " symmetric"; f.e.push_back({1, f.n - (zb ? 1 : 0), "1"}); break;
  case 9: what = "forced symmetric but not square"; f.sym = "general"; force = true; tr = false; f.banner = "%%MatrixMarket matrix coordinate " + f.field + " general"; if (c.flip()) f.n = f.m + 1 + c.range(0, 5); else { f.m = f.m + f.n; f.e.push_back({f.m - (zb ? 1 : 0), 1, "1"}); if (f.m == f.n) f.m++; } break;
  case 10: { static const char *b[] = {"", "%%MatrixMarket", "%MatrixMarket matrix coordinate real general", "MatrixMarket matrix coordinate real general", "%%MatrixMarket vector coordinate real general",
      "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix coordinate real", "%%MatrixMarket matrix coordinate quaternion general", "%%MatrixMarket matrix coordinate real lopsided",
      "%%MatrixMarket matrix array pattern general", "%%MatrixMarket matrix sparse real general", "% comment"};
    what = "unsupported banner"; f.banner = b[c.draw(11)]; break; }
  case 11: { what = "banner with an overlong word"; std::string big(c.range(64, 900), 'x'); int w = (int)c.draw(4); std::string t[5] = {"%%MatrixMarket", "matrix", "coordinate", "real", "general"}; if (w == 0) t[0] = "%%Matrix" + big; else t[w] = big; f.banner = t[0] + " " + t[1] + " " + t[2] + " " + t[3] + " " + t[4]; break; }
  case 12: case 13: case 14: break;
  case 15: what = "negative dimension"; (c.flip() ? f.m : f.n) = -c.range(1, 100); break;
  case 16: what = "negative number of entries"; break;
  case 17: break;
  case 18: { what = "unsupported type of values"; // complex values or skew symmetry cannot be represented: announced entries would be misread
    static const char *b[] = {"complex general", "complex symmetric", "complex hermitian", "real skew-symmetric", "integer skew-symmetric", "complex skew-symmetric"};
    int w = (int)c.draw(5); std::string d = b[w]; f.n = f.m = std::max(2, c.range(2, 12)); f.e.clear();
    size_t cnt = 1 + c.draw(9);
    for (size_t q = 0; q < cnt; ++q) { int i = c.range(2, (int)f.m), j = c.range(1, i - 1); if (w == 0 && c.flip()) std::swap(i, j); std::string v = std::to_string(c.range(-9, 9)); if (w < 3 || w == 5) v += " " + std::to_string(c.range(-9, 9)); f.e.push_back({i, j, v}); }
    for (char &ch : d) if (c.chance(1, 6)) ch = (char)toupper(ch);
    f.field = "real"; f.sym = "general"; f.banner = "%%MatrixMarket matrix coordinate " + d; break; }
  }
  text = render(c, f, nnz);
  size_t size0 = f.banner.size() + 1 + f.pre.size(), size1 = text.find('\n', size0);
  if (kind == 12) { what = "size line is not numeric"; static const char *b[] = {"garbage", "3", "3 3", "x 3 3", "3 x 3", "3 3 x", "", "- - -"}; text = text.substr(0, size0) + b[c.draw(7)] + "\nnope nope nope\n"; }
  else if (kind == 13) { what = "no size line"; text = text.substr(0, c.draw(size0)); if (c.flip()) text += "\n"; }
  else if (kind == 14) { what = "an entry is not numeric"; std::string t = text.substr(0, size1 + 1); for (size_t q = 0; q < f.e.size(); ++q) { if (q == k) { static const char *b[] = {"a b c", "1 b 2", "one 1 1", ".", "1 . 1", "% 1 1 1"}; t += std::string(b[c.draw(5)]) + "\n"; } else t += std::to_string(f.e[q].i) + " " + std::to_string(f.e[q].j) + (f.field == "pattern" ? "" : " " + f.e[q].v) + "\n"; } text = t; }
  else if (kind == 16) { text = text.substr(0, size0) + std::to_string(f.m) + " " + std::to_string(f.n) + " -" + std::to_string(c.range(1, 2000)) + text.substr(size1); }
  else if (kind == 17) { what = "file cut off in the entries"; long keep = c.draw(f.e.size() - 1); MM g = f; g.e.resize(keep); text = render(c, g, (long)f.e.size()); }
  std::string p = writeFile("bad.mtx", text);
  c.label("%s", what);
  c.note("%s: %s %s %ldx%ld entries=%zu force=%d transposed=%d threads=%d", what, f.field.c_str(), f.sym.c_str(), f.m, f.n, f.e.size(), force, tr, nt);
  int pad = c.chance(1, 4) ? c.range(2, 9) : 1;
  COO A;
  std::vector<Trip> before; bool had = c.chance(1, 4);
  if (had) { MM g = genMM(c, false); CHECK(c, loadMatrixMarket(writeFile("ok.mtx", render(c, g)).c_str(), A), "a valid file was rejected"); before = ofCOO(c, A, "valid file"); std::sort(before.begin(), before.end()); }
  bool ok = tr ? loadMatrixMarketTransposed(p.c_str(), A, pad) : loadMatrixMarket(p.c_str(), A, force, pad);
  CHECK(c, !ok, "a malformed file (%s) was accepted:\n%s", what, text.substr(0, 300).c_str());
  if (had) compareTrips(c, ofCOO(c, A, "matrix after a rejected load"), before, true, "matrix after a rejected load");
  if (!rt::isFiber && !tr) {
    int base = (int)c.draw(1);
    int r = contained([&] { CSR M(p.c_str(), base, force, pad); volatile int s = 0; for (int i = 0; M.rowptr && i < M.m; ++i) s += M.rowptr[i + 1]; });
    CHECK(c, r == 1, "constructing a matrix from a malformed file (%s) %s:\n%s", what, r == 0 ? "succeeded" : "crashed", text.substr(0, 300).c_str());
  }
  c.nontrivial();
}
static void mmNoise(Ctx &c) { // arbitrary damage: either rejected or a well-formed matrix
  int nt = rt::begin(c, rt::isFiber ? 4 : 1);
  MM f = genMM(c, false);
  std::string text = render(c, f);
  size_t head = f.banner.size() + 1;
  int edits = c.range(1, 6);
  static const char *tok[] = {" ", "\n", "0", "1", "-1", "9", "%", "\t", "e", ".", "-", "+", "nan", "1e400", "\r\n", "\n\n", "99", " 1 1 1\n", "x", "inf"};
  for (int k = 0; k < edits && !text.empty(); ++k) {
    size_t at = c.flip() && text.size() > head ? head + c.draw(text.size() - head) : c.draw(text.size());
    switch (c.draw(4)) {
    case 0: text.insert(at, tok[c.draw(19)]); break;
    case 1: if (at < text.size()) text.erase(at, 1 + c.draw(c.flip() ? 0 : 12)); break;
    case 2: if (at < text.size()) text[at] = (char)c.draw(255); break;
    case 3: { size_t e = text.find('\n', at); if (e != std::string::npos) { std::string line = text.substr(at, e - at + 1); text.insert(e + 1, line); } break; }
    case 4: text.resize(at); break;
    }
  }
  // keep the announced dimensions small so that a huge but honest header stays cheap
  { long v[3]; size_t q = 0; while (q < text.size()) { size_t e = text.find('\n', q); if (e == std::string::npos) e = text.size(); if (q >= 1 && sscanf(text.c_str() + q, "%ld %ld %ld", v, v + 1, v + 2) >= 2 && (labs(v[0]) > 1000000 || labs(v[1]) > 1000000 || labs(v[2]) > 1000000)) { c.label("skipped"); return; } q = e + 1; } }
  std::string p = writeFile("noise.mtx", text);
  int pad = c.chance(1, 4) ? c.range(2, 9) : 1;
  bool force = c.chance(1, 4), tr = !force && c.chance(1, 4);
  COO A;
  bool ok = tr ? loadMatrixMarketTransposed(p.c_str(), A, pad) : loadMatrixMarket(p.c_str(), A, force, pad);
  c.label(ok ? "accepted" : "rejected");
  c.note("%d edits, %zu bytes, %s threads=%d", edits, text.size(), ok ? "accepted" : "rejected", nt);
  if (ok) { // usable: convert, and every announced entry is there
    std::vector<Trip> t = ofCOO(c, A, "accepted damaged file");
    if (A.m > 0 && A.n > 0) {
      CSR *M = new CSR(A.m, A.n, A.nnz);
      dcoo2csr(M, &A, 0);
      std::vector<Trip> g = ofMat(fromCSR(c, M, "accepted damaged file", 0));
      CHECK(c, g.size() == t.size(), "accepted damaged file: %zu entries became %zu", t.size(), g.size());
      delete M;
    }
  }
  c.nontrivial();
}

// ------------------------------------------------------------------ P21
static void binRound(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 8 : 4);
  MatOpts o; o.maxN = c.chance(1, 60) ? 900 : c.chance(1, 6) ? 120 : 30; o.duplicates = c.chance(1, 5); o.square = c.flip();
  Mat M = genMat(c, o);
  if (c.flip()) for (auto &r : M.rows) for (auto &e : r) e.second = genValue(c, 3);
  if (M.m && M.n && c.chance(1, 8)) { // a round number of entries
    int unit = 1 << c.range(3, 10), want = unit * c.range(1, std::max(1, 1200 / unit));
    while (M.nnz() > want) for (auto &r : M.rows) if ((int)M.nnz() > want && !r.empty()) r.pop_back();
    for (int add = want - M.nnz(), i = 0; add > 0; --add, i = (i + 1) % M.m) M.rows[i].push_back({(i * 3 + add) % M.n, genValue(c, 3)});
    c.label("entries:round number");
  }
  int base = (int)c.draw(1), b2 = (int)c.draw(1);
  CsrBox B(M, base, true, o.square && o.diag);
  std::string p = pbt::scratchDir() + "/m.bin";
  B.A->storeBin(p.c_str());
  expectEqual(c, fromCSR(c, B.A, "stored matrix", base), M, "stored matrix");
  c.note("%s base %d to %d threads=%d", show(M, 160).c_str(), base, b2, nt);
  if (c.chance(1, 5)) { // unwritable target leaves the matrix alone
    B.A->storeBin((pbt::scratchDir() + "/no/such/dir/m.bin").c_str());
    expectEqual(c, fromCSR(c, B.A, "matrix after a failed store", base), M, "matrix after a failed store");
    // opened, but writing fails at once or after some bytes
    FILE *full = fopen("/dev/full", "w");
    if (full) {
      fclose(full);
      B.A->storeBin("/dev/full");
      expectEqual(c, fromCSR(c, B.A, "matrix after a store without space", base), M, "matrix after a store without space");
    }
    struct rlimit old, lim; void (*sig)(int) = signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = c.draw(16 + 4 * M.m + 12 * M.nnz());
    setrlimit(RLIMIT_FSIZE, &lim);
    B.A->storeBin((pbt::scratchDir() + "/part.bin").c_str());
    setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sig);
    expectEqual(c, fromCSR(c, B.A, "matrix after a partial store", base), M, "matrix after a partial store");
  }
  CSR *A = c.flip() ? new CSR(p.c_str(), b2) : nullptr;
  if (!A) { A = c.flip() ? new CSR() : new CSR(3, 4, 5); A->loadBin(p.c_str(), b2); }
  expectEqual(c, fromCSR(c, A, "loaded matrix", b2), M, "loaded matrix");
  checkDiag(c, *A, b2, "loaded matrix");
  if (c.chance(1, 3)) { // load another one into the same object
    Mat M2 = genMat(c, o); CsrBox B2(M2, base);
    B2.A->storeBin(p.c_str());
    A->loadBin(p.c_str(), b2);
    expectEqual(c, fromCSR(c, A, "reloaded matrix", b2), M2, "reloaded matrix");
  }
  delete A;
  if (M.nnz() > 1) c.nontrivial();
}
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void binReject(Ctx &c) {
  rt::begin(c, rt::isFiber ? 4 : 1);
  MatOpts o; o.maxN = 20;
  Mat M = genMat(c, o);
  CsrBox B(M, 0);
  std::string p = pbt::scratchDir() + "/m.bin";
  B.A->storeBin(p.c_str());
  std::string s = slurp(p), orig = s;
  int kind = (int)c.draw(6); const char *what;
  auto put = [&](size_t at, int v) { memcpy(&s[at], &v, 4); };
  int nnz = M.nnz();
  switch (kind) {
  case 0: what = "truncated"; s.resize(c.draw(s.size() - 1)); break;
  case 1: what = "wrong file id"; put(0, c.range(0, 1000)); break;
  case 2: what = "negative size"; put(4 + 4 * c.draw(2), -c.range(1, 100)); break;
  case 3: what = "row length wrong"; if (!M.m) return; { size_t r = c.draw(M.m - 1); put(16 + 4 * r, c.flip() ? -c.range(1, 50) : (int)M.rows[r].size() + c.range(1, 50)); } break;
  case 4: what = "column index out of range"; if (!nnz) return; put(16 + 4 * M.m + 4 * c.draw(nnz - 1), c.flip() ? -c.range(1, 50) : M.n + c.range(0, 50)); break;
  case 5: what = "too short for its header"; { static const int big[] = {1 << 16, 1 << 20, 1 << 28, 1 << 29, 1 << 30, 1610612736, 2147483646, 2147483647}; put(c.flip() ? 4 : 12, big[c.draw(7)]); if (c.chance(1, 4)) put(8, big[c.draw(7)]); } break;
  default: what = "missing"; unlink(p.c_str()); break;
  }
  if (kind < 6) p = writeFile("m.bin", s);
  c.label("%s", what); c.note("%s: %dx%d with %d entries", what, M.m, M.n, nnz);
  CSR *A; int how = (int)c.draw(2);
  if (how == 2) A = new CSR(p.c_str(), (int)c.draw(1));
  else { A = how ? new CSR(3, 3, 3) : new CSR(); A->loadBin(p.c_str(), (int)c.draw(1)); }
  CHECK(c, !A->rowptr && !A->colidx && !A->values, "a binary file that is %s was accepted", what);
  CHECK(c, A->m == 0 && A->n == 0, "after a binary file that is %s the matrix claims to be %d x %d without having any arrays", what, A->m, A->n);
  expectEqual(c, (B.A->storeBin(p.c_str()), A->loadBin(p.c_str(), 0), fromCSR(c, A, "load after a rejected load", 0)), M, "load after a rejected load");
  delete A;
  c.nontrivial();
}

// ------------------------------------------------------------------ P30
static void vectorFile(Ctx &c) {
  rt::begin(c, 1);
  int m = c.size(1, 40), n = c.chance(1, 2) ? 1 : c.range(1, 6);
  std::string field = c.chance(1, 4) ? "integer" : "real";
  std::string s = "%%MatrixMarket matrix array " + field + " general\n";
  if (c.chance(1, 6)) for (size_t k = 14; k < s.size(); ++k) if (c.flip()) s[k] = toupper(s[k]);
  for (int k = c.range(0, 2); k > 0; --k) s += commentLine(c, " note");
  if (c.chance(1, 8)) s += "\n";
  size_t head = s.size();
  s += std::to_string(m) + " " + std::to_string(n) + "\n";
  std::vector<std::string> v; VD want;
  for (int k = 0; k < m * n; ++k) { v.push_back(valueToken(c, field)); want.push_back(strtod(v.back().c_str(), 0)); }
  int style = (int)c.draw(2);
  int keep = m * n, bad = c.chance(1, 3) ? 1 + (int)c.draw(7) : 0;
  if (bad == 1) keep = (int)c.draw(m * n - 1);
  std::string body;
  for (int k = 0; k < keep; ++k) body += v[k] + (style == 0 || (k + 1) % n == 0 ? "\n" : style == 1 ? " " : "\t");
  if (bad == 2) { keep = c.range(0, m * n - 1); body.clear(); for (int k = 0; k < m * n; ++k) body += (k == keep ? std::string("zzz") : v[k]) + "\n"; }
  std::string full = s + body;
  if (bad == 3) full = "%%MatrixMarket matrix coordinate " + field + " general\n" + full.substr(full.find('\n') + 1);
  if (bad == 4) { static const char *b[] = {"x y", "3", "", "-2 1", "2 -1", "2 0", "- -"}; full = s.substr(0, head) + b[c.draw(6)] + "\nnope\n"; }
  if (bad == 7) { static const int b[] = {65536, 65537, 46341, 32768, 92682, 1 << 30, 2147483647, 40000, 131072}; full = s.substr(0, head) + std::to_string(b[c.draw(8)]) + " " + std::to_string(b[c.draw(8)]) + "\n" + body; }
  if (bad == 5) full = full.substr(0, c.draw(head - 1));
  if (bad == 6) { std::string big(c.range(64, 900), 'y'); full = "%%MatrixMarket matrix array " + big + " general\n" + full; }
  if (bad == 8) { full = "%%MatrixMarket matrix array complex " + std::string(c.flip() ? "general" : "hermitian") + "\n" + s.substr(s.find('\n') + 1); for (auto &x : v) full += x + " " + x + "\n"; }
  std::string p = writeFile("v.mtx", full);
  double *out = nullptr; int rm = -1, rn = -1;
  bool ok = loadVectorMatrixMarket(p.c_str(), &out, &rm, &rn);
  static const char *nm[] = {"valid", "too few values", "non-numeric value", "coordinate format", "bad size line", "no size line", "overlong word", "huge size", "complex"};
  c.label("%s", nm[bad]); c.note("%dx%d %s %s", m, n, field.c_str(), nm[bad]);
  CHECK(c, ok == (bad == 0), "%s array file was %s:\n%s", nm[bad], ok ? "accepted" : "rejected", full.substr(0, 300).c_str());
  if (ok) {
    CHECK(c, rm == m && rn == n, "size %dx%d, expected %dx%d", rm, rn, m, n);
    for (int k = 0; k < m * n; ++k) CHECK(c, out[k] == want[k], "value %d is %.17g, expected %.17g", k, out[k], want[k]);
    FREE(out);
  } else CHECK(c, !out, "a rejected array file left a vector behind");
  if (m * n > 1) c.nontrivial();
}

static const char *R19 = "more than one entry and at least one of padding, symmetry, transposition, 0-based indices or a non-real field";
static const char *R20 = "every case (each is a damaged file)";
static const char *R21 = "more than one stored entry (or a damaged file)";
static const char *R30 = "more than one value";
#ifdef NATIVE
static pbt::Registrar r1({"P19", "load", mmLoad, 12000, 120000, 4, 10, 90, R19});
static pbt::Registrar r2({"P19", "roundtrip", mmRound, 4000, 40000, 4, 10, 90, R19});
static pbt::Registrar r3({"P20", "reject", mmReject, 8000, 80000, 8, 10, 90, R20});
static pbt::Registrar r4({"P20", "noise", mmNoise, 20000, 400000, 8, 10, 90, R20});
static pbt::Registrar r5({"P21", "roundtrip", binRound, 8000, 80000, 4, 10, 90, R21});
static pbt::Registrar r6({"P20", "binary", binReject, 6000, 60000, 8, 10, 90, R21});
static pbt::Registrar r7({"P30", "vector", vectorFile, 30000, 300000, 8, 10, 90, R30});
#else
static pbt::Registrar r1({"P19", "load", mmLoad, 20000, 300000, 8, 10, 90, R19});
static pbt::Registrar r2({"P19", "roundtrip", mmRound, 5000, 60000, 8, 10, 90, R19});
static pbt::Registrar r3({"P20", "reject", mmReject, 12000, 200000, 8, 10, 90, R20});
static pbt::Registrar r4({"P20", "noise", mmNoise, 20000, 400000, 8, 10, 90, R20});
static pbt::Registrar r5({"P21", "roundtrip", binRound, 10000, 100000, 8, 10, 90, R21});
static pbt::Registrar r6({"P20", "binary", binReject, 6000, 60000, 8, 10, 90, R21});
#endif
