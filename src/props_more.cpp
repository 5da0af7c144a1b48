// P32 bit vector, P33 matrices living in the memory pool, P34 Matrix Market C interface, P35 whole pipelines
#include "gen.hpp"
#include "kernels.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "Utils.hpp"
#include "barrier.hpp"
#include "mm_io.h"
#include "reordering/BitVector.hpp"
#include <cctype>
#include <unistd.h>
using namespace SpMP;
extern "C" void bfsBipartite(CSR &A, CSR &AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);
namespace {
int begin(Ctx &c) { int n = rt::begin(c, rt::isFiber ? 12 : 8); synk::Barrier::deleteInstance(); return n; }

// ------------------------------------------------------------------ P32
void bitvector(Ctx &c) {
  int nt = begin(c), n = c.chance(1, 8) ? c.range(1, 400) : c.range(1, 24);
  BitVector bv(n);
  std::vector<bool> ref(n, false);
  c.note("%d bits, %d threads", n, nt);
  int steps = c.range(1, 6);
  bool overlap = false;
  for (int s = 0; s < steps; ++s) {
    int kind = (int)c.draw(3);
    if (kind == 0) { // one thread
      int k = c.range(1, 12);
      while (k--) {
        int i = c.range(0, n - 1), op = (int)c.draw(2);
        if (op == 0) { bv.set(i); ref[i] = true; }
        else if (op == 1) { bool r = bv.testAndSet(i); CHECK(c, r == !ref[i], "testAndSet(%d) returned %d for a bit that was %d", i, r, (int)ref[i]); ref[i] = true; }
        else { bv.atomicClear(i); ref[i] = false; }
      }
    } else {
      // every thread works through its own list; kind 1: all set; kind 2, 3: bits of other threads are cleared meanwhile
      std::vector<kern::BitOp> ops;
      VI owner(n), start(1, 0);
      for (auto &o : owner) o = kind == 1 ? -1 : c.chance(1, 2) ? c.range(0, nt - 1) : -1;   // -1: everybody tries to set it; else only its owner sets or clears it
      std::vector<bool> was = ref;
      std::vector<int> setters(n, 0);
      for (int t = 0; t < nt; ++t) {
        int k = c.range(0, 10);
        std::set<int> mine;
        while (k--) {
          int i = c.range(0, n - 1);
          if (owner[i] >= 0) { if (owner[i] == t) ops.push_back({i, c.range(1, 2), false}); }
          else { ops.push_back({i, 0, false}); if (mine.insert(i).second) ++setters[i]; }
        }
        start.push_back((int)ops.size());
      }
      for (int v : setters) overlap |= v > 1;
      kern::bitVectorOps(&bv, ops.data(), start.data(), nt);
      VI won(n, 0), tried(n, 0);
      for (auto &o : ops) if (o.op == 0) { ++tried[o.bit]; won[o.bit] += o.result; ref[o.bit] = true; } else ref[o.bit] = o.op == 2;
      for (int i = 0; i < n; ++i) if (tried[i])
        CHECK(c, won[i] == (was[i] ? 0 : 1), "%d of %d concurrent testAndSet(%d) claim to have set the bit, which was %d before", won[i], tried[i], i, (int)was[i]);
    }
    for (int i = 0; i < n; ++i) CHECK(c, bv.get(i) == ref[i], "bit %d is %d, expected %d", i, (int)bv.get(i), (int)ref[i]);
  }
  c.label("overlap:%d", overlap);
  if (overlap && nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P33
template <class T> T *inPool(const T *src, size_t n) { T *p = MemoryPool::getSingleton()->allocate<T>(n); if (n) memcpy(p, src, n * sizeof(T)); return p; }
void poolMatrix(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  MatOpts o; o.maxN = c.chance(1, 6) ? 120 : 40; o.square = o.diag = o.sorted = true; o.symPattern = c.flip();
  Mat M = genMat(c, o);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) if (e.first == i && e.second == 0) e.second = 2;
  MemoryPool *P = MemoryPool::getSingleton();
  P->initialize(1 << 20);
  if (c.flip()) P->allocate<char>(c.range(1, 3000));
  CsrBox B(M, base, true, true, true);
  CSR *A = new CSR(M.m, M.n, inPool(B.rowptr, M.m + 1), inPool(B.colidx, M.nnz()), inPool(B.values, M.nnz()));
  A->diagptr = inPool(B.A->diagptr, M.m); A->idiag = inPool(B.A->idiag, M.m);
  size_t h0 = P->getHead(), t0 = P->getTail();
  VI guard(64); for (int i = 0; i < 64; ++i) guard[i] = i * 7 + 1;
  int *g = nullptr;
  bool guarded = c.flip();
  if (guarded) { g = inPool(guard.data(), 64); t0 = P->getTail(); }
  c.note("%s base=%d threads=%d in a pool", show(M).c_str(), base, nt);
  CHECK(c, A->useMemoryPool_() && !B.A->useMemoryPool_(), "useMemoryPool_ is %d for a matrix in the pool and %d for another", A->useMemoryPool_(), B.A->useMemoryPool_());
  std::vector<CSR *> out; std::vector<Mat> want;
  int k = c.range(1, 5), patterns = 0;
  size_t live = t0;
  std::string log;
  while (k--) {
    int op = (int)c.draw(5);
    log += std::to_string(op);
    CHECK(c, P->getHead() == h0 && P->getTail() == live, "the pool's bounds moved from [%zu,%zu) to [%zu,%zu) (operations %s)", h0, live, P->getHead(), P->getTail(), log.c_str());
    if (op == 0) { out.push_back(A->transpose()); want.push_back(transposeRef(M)); }
    else if (op == 1) { out.push_back(new CSR(*A)); want.push_back(M); }
    else if (op == 2) {
      VI p = genPerm(c, M.m), q = invert(p);
      Arr<int> Pm(p), Q(q);
      out.push_back(A->permute(Pm, Q));
      Mat R; R.resize(M.m, M.n);
      for (int i = 0; i < M.m; ++i) { R.rows[p[i]] = M.rows[i]; for (auto &e : R.rows[p[i]]) e.first = p[e.first]; }
      want.push_back(R);
    } else if (op == 3) {
      VD x(M.n); for (auto &v : x) v = c.range(-5, 5);
      Arr<double> X(x), Y(M.m, std::nan(""));
      A->multiplyWithVector(Y, X);
      for (int i = 0; i < M.m; ++i) { double s = 0; for (auto &e : M.rows[i]) s += e.second * x[e.first]; CHECK(c, Y[i] == s, "SpMV with a pool matrix: row %d is %g, expected %g", i, Y[i], s); }
    } else if (op == 4) {
      if (c.flip()) { A->make0BasedIndexing(); base = 0; } else { A->make1BasedIndexing(); base = 1; }
      for (int i = 0; i < M.m; ++i) { int d = A->diagptr[i] - base; CHECK(c, d >= 0 && d < M.nnz() && A->colidx[d] - base == i, "diagonal pointer of row %d is %d after changing the base", i, A->diagptr[i]); }
    } else {
      int *rp = nullptr, *dp = nullptr, *ep = nullptr, *ci = nullptr;
      std::vector<std::set<int>> u(M.m);
      bool sym = true;
      for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) { u[i].insert(e.first); u[e.first].insert(i); }
      for (int i = 0; i < M.m; ++i) sym &= u[i].size() == M.rows[i].size();
      bool r = getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci);
      CHECK(c, r == sym, "getSymmetricNnzPattern reports %d for a pool matrix whose pattern symmetry is %d", r, sym);
      if (r) CHECK(c, !rp && P->getTail() == live, "a symmetric pool matrix: row pointer %p left behind, pool tail %zu, expected %zu", (void *)rp, P->getTail(), live);
      else {
        ++patterns;
        CHECK(c, rp && ci && dp, "no pattern returned");
        CHECK(c, P->contains(rp) && P->contains(rp + M.m), "the symmetrised row pointer of a pool matrix is not in the pool");
        CHECK(c, P->getTail() > live && P->getHead() == h0, "the row pointer is not accounted for: pool [%zu,%zu)", P->getHead(), P->getTail());
        live = P->getTail();
        for (int i = 0; i < M.m; ++i) {
          CHECK(c, rp[i + 1] - rp[i] == (int)u[i].size(), "symmetrised row %d has %d entries, expected %zu", i, rp[i + 1] - rp[i], u[i].size());
          int j = rp[i] - base;
          for (int x : u[i]) { CHECK(c, ci[j] - base == x, "symmetrised row %d: column %d, expected %d", i, ci[j] - base, x); ++j; }
        }
        CHECK(c, !P->contains(ci) && !P->contains(dp), "column indices or diagonal pointers in the pool");
        FREE(ci); FREE(dp);
      }
    }
    expectEqual(c, fromCSR(c, A, "pool matrix", base), M, "pool matrix");
    for (size_t i = 0; i < out.size(); ++i) CHECK(c, !P->contains(out[i]->rowptr) && !P->contains(out[i]->colidx) && !P->contains(out[i]->values) && !P->contains(out[i]->diagptr), "a result of operation list %s shares the pool", log.c_str());
  }
  delete A; // must not free, and must leave the pool alone
  CHECK(c, P->getHead() == h0 && P->getTail() == live, "destroying a pool matrix moved the pool's bounds to [%zu,%zu)", P->getHead(), P->getTail());
  if (g) for (int i = 0; i < 64; ++i) CHECK(c, g[i] == guard[i], "pool memory next to the matrix changed at element %d", i);
  P->deallocateAll();
  { size_t room = 1 << 19; char *p = P->allocate<char>(room); memset(p, 0xee, room); P->deallocateAll(); }
  for (size_t i = 0; i < out.size(); ++i) {
    expectEqual(c, fromCSR(c, out[i], "result made from a pool matrix", out[i]->rowptr[0]), want[i], "result made from a pool matrix");
    delete out[i];
  }
  P->finalize();
  c.label("patterns:%d", std::min(patterns, 2));
  if (M.nnz() > M.m && log.size() > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P34
struct Code { const char *word; char ch; };
const Code FMT[] = {{"coordinate", 'C'}, {"array", 'A'}};
const Code FIELD[] = {{"real", 'R'}, {"integer", 'I'}, {"pattern", 'P'}, {"complex", 'C'}};
const Code SYM[] = {{"general", 'G'}, {"symmetric", 'S'}, {"skew-symmetric", 'K'}, {"hermitian", 'H'}};
std::string file(const char *name) { return pbt::scratchDir() + "/" + name; }
std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void spill(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
double cvalue(Ctx &c) { // at most 16 significant digits, so that the file holds it exactly
  double v = c.draw(2) == 0 ? c.range(-1000, 1000) : std::ldexp((double)c.range(-999, 999), c.range(-6, 20));
  char b[64]; snprintf(b, sizeof b, "%.16g", v); return strtod(b, nullptr);
}
void mmCodes(Ctx &c) {
  rt::begin(c, 1);
  const Code &f = FMT[c.draw(1)], &d = FIELD[c.draw(3)], &s = SYM[c.draw(3)];
  MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t);
  t[1] = f.ch; t[2] = d.ch; t[3] = s.ch;
  std::string words = std::string("matrix ") + f.word + " " + d.word + " " + s.word;
  c.note("%s", words.c_str());
  bool valid = !(f.ch == 'A' && d.ch == 'P') && !(d.ch == 'R' && s.ch == 'H') && !(d.ch == 'P' && (s.ch == 'H' || s.ch == 'K'));
  CHECK(c, !!mm_is_valid(t) == valid, "mm_is_valid(%s) is %d", words.c_str(), mm_is_valid(t));
  char *str = mm_typecode_to_str(t);
  CHECK(c, str && words == str, "mm_typecode_to_str gives '%s' for %s", str ? str : "NULL", words.c_str());
  free(str);
  std::string p = file("banner.mtx");
  int M = c.range(0, 100000), N = c.range(0, 100000), nz = c.range(0, 1 << 30), comments = c.range(0, 3);
  FILE *o = fopen(p.c_str(), "w");
  int r = mm_write_banner(o, t);
  CHECK(c, r == 0, "mm_write_banner returned %d although it wrote the banner", r);
  for (int i = 0; i < comments; ++i) fputs(commentLine(c, " comment 7 8 9").c_str(), o);
  r = f.ch == 'C' ? mm_write_mtx_crd_size(o, M, N, nz) : mm_write_mtx_array_size(o, M, N);
  CHECK(c, r == 0, "writing the size line returned %d although it was written", r);
  fclose(o);
  std::string text = slurp(p);
  if (c.chance(1, 4)) { size_t e = text.find('\n'); for (size_t i = 15; i < e; ++i) if (c.flip()) text[i] = toupper(text[i]); }
  if (c.chance(1, 4)) { size_t e = text.find(" ", 15); text.insert(e, "   "); }
  spill(p, text);
  MM_typecode u; FILE *in = fopen(p.c_str(), "r");
  r = mm_read_banner(in, &u);
  CHECK(c, r == 0 && !memcmp(t, u, 4), "reading the banner of %s gives status %d, type %.4s", words.c_str(), r, u);
  int M2 = -1, N2 = -1, z2 = nz;
  r = f.ch == 'C' ? mm_read_mtx_crd_size(in, &M2, &N2, &z2) : mm_read_mtx_array_size(in, &M2, &N2);
  CHECK(c, r == 0 && M2 == M && N2 == N && z2 == nz, "size line %d %d %d read back as %d %d %d (status %d)", M, N, nz, M2, N2, z2, r);
  fclose(in);
  // a damaged banner is refused
  int kind = (int)c.draw(4);
  std::string first = text.substr(0, text.find('\n')), bad = first;
  if (kind == 0) bad = bad.substr(0, bad.rfind(' '));
  else if (kind == 1) bad[2] = 'X';
  else if (kind == 2) bad += "x";
  else if (kind == 3) bad.insert(15, "x");
  else bad = "";
  spill(p, bad + (bad.empty() ? "" : "\n1 1 0\n"));
  in = fopen(p.c_str(), "r");
  r = mm_read_banner(in, &u);
  CHECK(c, r != 0, "banner '%s' was accepted", bad.c_str());
  fclose(in);
  unlink(p.c_str());
  c.label("%s", valid ? "valid" : "invalid");
  c.nontrivial();
}
void mmCoordinate(Ctx &c) {
  rt::begin(c, 1);
  const Code &d = FIELD[c.draw(3)], &s = SYM[c.draw(d.ch == 'C' ? 3 : d.ch == 'P' ? 1 : 2)];
  MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t); t[1] = 'C'; t[2] = d.ch; t[3] = s.ch;
  int M = c.range(1, 30), N = c.range(1, 30), nz = c.range(0, 20), w = d.ch == 'C' ? 2 : 1;
  VI I(nz), J(nz); VD v(nz * w);
  for (int k = 0; k < nz; ++k) { I[k] = c.range(1, M); J[k] = c.range(1, N); for (int q = 0; q < w; ++q) v[k * w + q] = d.ch == 'I' ? c.range(-999999, 999999) : cvalue(c); }
  c.note("%s %s %dx%d, %d entries", d.word, s.word, M, N, nz);
  c.label("%s", d.word);
  std::string p = file("m.mtx"), missing = file("no/such/dir/m.mtx");
  Arr<int> ai(I), aj(J); Arr<double> av(v);
  bool byHand = d.ch == 'I' || c.chance(1, 3);
  if (byHand) {
    std::string text = std::string("%%MatrixMarket matrix coordinate ") + d.word + " " + s.word + "\n" + (c.flip() ? "% c\n" : "") + std::to_string(M) + " " + std::to_string(N) + " " + std::to_string(nz) + "\n";
    for (int k = 0; k < nz; ++k) { char b[160]; int n = snprintf(b, sizeof b, "%d %d", I[k], J[k]); for (int q = 0; q < w && d.ch != 'P'; ++q) n += snprintf(b + n, sizeof b - n, d.ch == 'I' ? " %.0f" : " %.17g", v[k * w + q]); text += std::string(b) + "\n"; }
    spill(p, text);
  } else {
    int r = mm_write_mtx_crd((char *)p.c_str(), M, N, nz, ai, aj, d.ch == 'P' ? nullptr : (double *)av, t);
    CHECK(c, r == 0, "mm_write_mtx_crd returned %d", r);
  }
  CHECK(c, mm_write_mtx_crd((char *)missing.c_str(), M, N, nz, ai, aj, av, t) != 0, "mm_write_mtx_crd succeeds on a path that cannot be written");
  int m2, n2, z2, *i2 = nullptr, *j2 = nullptr; double *v2 = nullptr; MM_typecode u;
  CHECK(c, mm_read_mtx_crd((char *)missing.c_str(), &m2, &n2, &z2, &i2, &j2, &v2, &u) != 0, "mm_read_mtx_crd succeeds on a missing file");
  int r = mm_read_mtx_crd((char *)p.c_str(), &m2, &n2, &z2, &i2, &j2, &v2, &u);
  CHECK(c, r == 0, "mm_read_mtx_crd returned %d for a %s %s file", r, d.word, s.word);
  CHECK(c, m2 == M && n2 == N && z2 == nz && !memcmp(u, t, 4), "header read back as %dx%d, %d entries, type %.4s", m2, n2, z2, u);
  for (int k = 0; k < nz; ++k) {
    CHECK(c, i2[k] == I[k] && j2[k] == J[k], "entry %d is (%d,%d), expected (%d,%d)", k, i2[k], j2[k], I[k], J[k]);
    if (d.ch != 'P') { CHECK(c, v2, "no values read from a %s file", d.word); for (int q = 0; q < w; ++q) CHECK(c, v2[k * w + q] == v[k * w + q], "entry %d has value %.17g, expected %.17g", k, v2[k * w + q], v[k * w + q]); }
  }
  free(i2); free(j2); free(v2);
  { // entry by entry
    FILE *f = fopen(p.c_str(), "r");
    CHECK(c, mm_read_banner(f, &u) == 0 && mm_read_mtx_crd_size(f, &m2, &n2, &z2) == 0 && z2 == nz, "header not readable");
    for (int k = 0; k < nz; ++k) {
      int i, j; double re = -7, im = -7;
      r = mm_read_mtx_crd_entry(f, &i, &j, &re, &im, u);
      CHECK(c, r == 0 && i == I[k] && j == J[k] && (d.ch == 'P' || re == v[k * w]) && (d.ch != 'C' || im == v[k * w + 1]), "entry %d read singly: status %d, (%d,%d) %g %g", k, r, i, j, re, im);
    }
    int i, j; double re, im;
    CHECK(c, mm_read_mtx_crd_entry(f, &i, &j, &re, &im, u) != 0, "an entry was read behind the last one");
    fclose(f);
  }
  bool plain = d.ch == 'R';
  int *ui = nullptr, *uj = nullptr; double *uv = nullptr;
  r = mm_read_unsymmetric_sparse(p.c_str(), &m2, &n2, &z2, &uv, &ui, &uj);
  CHECK(c, (r == 0) == plain, "mm_read_unsymmetric_sparse returned %d for a %s file", r, d.word);
  if (plain) {
    CHECK(c, m2 == M && n2 == N && z2 == nz, "mm_read_unsymmetric_sparse: header read as %dx%d, %d entries", m2, n2, z2);
    for (int k = 0; k < nz; ++k) CHECK(c, ui[k] == I[k] - 1 && uj[k] == J[k] - 1 && uv[k] == v[k], "mm_read_unsymmetric_sparse: entry %d is (%d,%d) %g", k, ui[k], uj[k], uv[k]);
    free(ui); free(uj); free(uv);
  }
  if (nz) { // files that end early are refused
    std::string text = slurp(p);
    size_t keep = text.size();
    int drop = c.range(1, nz);
    for (int k = 0; k < drop; ++k) keep = text.rfind('\n', keep - 2) + 1;
    if (c.flip() && drop == 1) { size_t sp = text.find(' ', text.find_first_not_of(' ', keep)); if (sp != std::string::npos) keep = sp; }
    spill(p, text.substr(0, keep));
    i2 = j2 = nullptr; v2 = nullptr;
    r = mm_read_mtx_crd((char *)p.c_str(), &m2, &n2, &z2, &i2, &j2, &v2, &u);
    CHECK(c, r != 0, "a file with %d of %d entries was accepted by mm_read_mtx_crd", nz - drop, nz);
    if (plain) { r = mm_read_unsymmetric_sparse(p.c_str(), &m2, &n2, &z2, &uv, &ui, &uj); CHECK(c, r != 0, "a file with %d of %d entries was accepted by mm_read_unsymmetric_sparse", nz - drop, nz); }
  }
  unlink(p.c_str());
  if (nz > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P35
void sequential(const Mat &M, VD &y, const VD &b, const VD &id, bool backward, bool triangular) {
  for (int k = 0; k < M.m; ++k) {
    int i = backward ? M.m - 1 - k : k, len = (int)M.rows[i].size();
    double s = b[i];
    for (int q = 0; q < len; ++q) { auto &e = M.rows[i][backward ? len - 1 - q : q]; s -= e.second * y[e.first]; }
    if (triangular) y[i] = s * id[i]; else y[i] += s * id[i];
  }
}
void pipeline(Ctx &c) {
  int nt = begin(c), base = (int)c.draw(1);
  Mat M = genSymGraph(c, 1, c.chance(1, 8) ? 110 : 36, true);
  for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) e.second = e.first == i ? (double)(1 << (i % 3 + 3)) : -1.0 - (i * 3 + e.first) % 4;   // exact: integers, powers of two
  int m = M.m;
  CsrBox B(M, base, true, c.flip(), false);
  CSR *A = B.A, *L = nullptr;
  int via = (int)c.draw(3);                       // detour through a file before anything else
  std::string p = file("pipe.dat");
  if (via == 1) { A->storeBin(p.c_str()); L = new CSR(); L->loadBin(p.c_str(), base); A = L; }
  else if (via == 2) { A->storeMatrixMarket(p.c_str()); L = new CSR(p.c_str(), base); A = L; }
  else if (via == 3) { L = A->transpose(); CSR *T = L->transpose(); delete L; A = L = T; }
  if (via == 1 || via == 2) unlink(p.c_str());
  int kind = (int)c.draw(3);
  Arr<int> perm(m, -1), inv(m, -1), cperm(m, -1), cinv(m, -1);
  static const char *kn[] = {"BFS", "RCM", "RCM with pseudo diameter", "bipartite BFS"}, *vn[] = {"directly", "through a binary file", "through a Matrix Market file", "transposed twice"};
  c.note("%s base=%d threads=%d %s, %s", show(M).c_str(), base, nt, kn[kind], vn[via]);
  c.label("%s", kn[kind]); c.label("input:%s", vn[via]);
  CSR *T = nullptr;
  if (kind == 0) A->getBFSPermutation(perm, inv);
  else if (kind < 3) A->getRCMPermutation(perm, inv, kind == 2);
  else { T = A->transpose(); bfsBipartite(*A, *T, perm, inv, cperm, cinv); }
  bool square = kind != 3;                         // rows and columns relabelled alike
  bool sort = c.chance(2, 3) || square;
  CSR *R = A->permute(square ? (int *)perm : (int *)cperm, inv, sort);
  VD x(m), b(m);
  for (int i = 0; i < m; ++i) { x[i] = c.range(-4, 4); b[i] = c.range(-4, 4); }
  Arr<double> X(x), PX(m, std::nan("")), Y(m, std::nan("")), PY(m, std::nan("")), Back(m, std::nan(""));
  reorderVectorOutOfPlace(PX, X, square ? (int *)perm : (int *)cperm, m);
  A->multiplyWithVector(Y, X);
  R->multiplyWithVector(PY, PX);
  reorderVectorOutOfPlaceWithInversePerm(Back, PY, perm, m);   // undoes the row relabelling
  VD want(m);
  for (int i = 0; i < m; ++i) { double s = 0; for (auto &e : M.rows[i]) s += e.second * x[e.first]; want[i] = s; }
  for (int i = 0; i < m; ++i) {
    CHECK(c, Y[i] == want[i], "SpMV %s: row %d is %.17g, expected %.17g", vn[via], i, Y[i], want[i]);
    CHECK(c, Back[i] == want[i], "SpMV of the %s-reordered matrix: row %d is %.17g, expected %.17g", kn[kind], i, Back[i], want[i]);
  }
  if (square) {
    CHECK(c, R->isSymmetric(false), "the %s-reordered matrix is no longer structurally symmetric", kn[kind]);
    if (!R->diagptr) R->constructDiagPtr();
    R->computeInverseDiag();
    Mat Q = fromCSR(c, R, "reordered matrix", base);
    LevelSchedule s;
    s.transitiveReduction = !c.chance(1, 4); s.fuseSpMV = false;
    bool bar = c.chance(1, 4);
    s.useBarrier = bar;
    s.constructTaskGraph(*R);
    const int *tp = s.origToThreadContPerm, *ti = s.threadContToOrigPerm;
    bool again = c.flip(), backward = c.flip(), tri = c.flip();
    CSR *S = R;
    if (again) { S = R->permute(tp, ti); }         // rows of a thread become contiguous
    VD id(m), y(m), rb(m);
    for (int i = 0; i < m; ++i) { id[i] = R->idiag[i]; y[i] = (i * 5 % 11) - 5; rb[i] = b[inv[i]]; }
    auto place = [&](const VD &v) { VD o(m); for (int i = 0; i < m; ++i) o[again ? tp[i] : i] = v[i]; return o; };
    Arr<double> I(place(id)), YY(place(y)), BB(place(rb));
    if (tri) { // keep the strict triangle of the reordered matrix, as rows of S
      for (int i = 0; i < m; ++i) { auto &r = Q.rows[i]; r.erase(std::remove_if(r.begin(), r.end(), [&](const std::pair<int, double> &e) { return backward ? e.first <= i : e.first >= i; }), r.end()); }
    }
    Mat SM = fromCSR(c, S, "matrix in thread-contiguous order", base);
    if (tri) for (int i = 0; i < m; ++i) {
      auto &r = SM.rows[i]; int o = again ? ti[i] : i;
      r.erase(std::remove_if(r.begin(), r.end(), [&](const std::pair<int, double> &e) { int q = again ? ti[e.first] : e.first; return backward ? q <= o : q >= o; }), r.end());
    }
    CsrBox SB(SM, base, true, false, true);
    kern::SweepArgs a = {m, base, SB.A->rowptr, SB.A->colidx, SB.A->values, I, YY, BB};
    if (bar) kern::sweepBarrier(s, a, again ? nullptr : ti, backward, tri); else kern::sweepP2P(s, a, again ? nullptr : ti, backward, tri);
    sequential(Q, y, rb, id, backward, tri);
    for (int i = 0; i < m; ++i) { double g = YY[again ? tp[i] : i]; CHECK(c, memcmp(&g, &y[i], 8) == 0, "%s sweep after %s: row %d is %.17g, the sequential sweep gives %.17g", backward ? "backward" : "forward", kn[kind], i, g, y[i]); }
    if (again) delete S;
  }
  delete R; delete T; delete L;
  if (nt > 1 && M.nnz() > m) c.nontrivial();
}
const char *R32 = "more than one thread and a bit several threads tried to set at once";
const char *R33 = "entries off the diagonal and more than one operation";
const char *R34 = "banner cases: all; coordinate cases: more than one entry";
const char *R35 = "more than one thread and an entry off the diagonal";
#ifdef NATIVE
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, nq, nth, 4, 10, 90, rule})
#else
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, fq, fth, 8, 10, 90, rule})
#endif
P("P32", "bitvector", bitvector, R32, 8000, 100000, 60000, 1000000);
P("P33", "pool", poolMatrix, R33, 8000, 100000, 12000, 200000);
P("P34", "codes", mmCodes, R34, 12000, 60000, 0, 0);
P("P34", "coordinate", mmCoordinate, R34, 12000, 100000, 0, 0);
P("P35", "pipeline", pipeline, R35, 6000, 80000, 12000, 200000);
} // namespace
