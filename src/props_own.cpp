// P36 ownership: whatever the library allocates or opens is released with the objects it belongs to
#ifdef NATIVE
#include "gen.hpp"
#include "kernels.hpp"
#include "COO.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "Utils.hpp"
#include "Vector.hpp"
#include "barrier.hpp"
#include "reduce.hpp"
#include "mm_io.h"
#include "reordering/BitVector.hpp"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <new>
#include <unistd.h>
using namespace SpMP;
extern "C" void bfsBipartite(CSR &A, CSR &AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);
// present unless the instrumented barrier does not link (see OPTIONAL in check)
namespace kern {
__attribute__((weak)) void *limbaNew(int cores, int tpc); __attribute__((weak)) void limbaDelete(void *b);
__attribute__((weak)) void limbaInstanceInit(int cores, int tpc); __attribute__((weak)) void *limbaInstance(); __attribute__((weak)) void limbaInstanceDelete();
__attribute__((weak)) void limbaEpisodes(void *object, int initUses, Episodes &e, const int *use, const int *delay, unsigned long long *first, unsigned long long *last);
}
namespace SpMP { void findConnectedComponents(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp); }

// ---- every allocation made by code linked into this program (not by libgomp or libstdc++ themselves): see --wrap in check
namespace {
const size_t CAP = 1 << 16;
struct Rec { void *p; size_t n; } table[CAP];
std::atomic_flag lock_ = ATOMIC_FLAG_INIT;
std::atomic<bool> tracking(false);
long liveBlocks; long long liveBytes; bool overflow;
void put(void *p, size_t n) {
  if (!p || !tracking) return;
  while (lock_.test_and_set()) ;
  size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t k = 0;; ++k, h = (h + 1) % CAP) {
    if (k == CAP) { overflow = true; break; }
    if (!table[h].p || table[h].p == (void *)1) { table[h] = {p, n}; ++liveBlocks; liveBytes += n; break; }
  }
  lock_.clear();
}
void del(void *p) {
  if (!p || !tracking) return;
  while (lock_.test_and_set()) ;
  size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t k = 0; k < CAP && table[h].p; ++k, h = (h + 1) % CAP)
    if (table[h].p == p) { --liveBlocks; liveBytes -= table[h].n; table[h].p = (void *)1; break; }
  lock_.clear();
}
}
extern "C" {
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); put(p, n); return p; }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); put(p, a * b); return p; }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p || !n) { del(q); put(p, n); } return p; }
void __real_free(void *); void __wrap_free(void *p) { del(p); __real_free(p); }
int __real_posix_memalign(void **, size_t, size_t); int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) put(*p, n); return r; }
void *__real_aligned_alloc(size_t, size_t); void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); put(p, n); return p; }
char *__real_strdup(const char *); char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) put(p, strlen(p) + 1); return p; }
void *__real__Znwm(size_t); void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); put(p, n); return p; }
void *__real__Znam(size_t); void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); put(p, n); return p; }
void __real__ZdlPv(void *); void __wrap__ZdlPv(void *p) { del(p); __real__ZdlPv(p); }
void __real__ZdlPvm(void *, size_t); void __wrap__ZdlPvm(void *p, size_t n) { del(p); __real__ZdlPvm(p, n); }
void __real__ZdaPv(void *); void __wrap__ZdaPv(void *p) { del(p); __real__ZdaPv(p); }
void __real__ZdaPvm(void *, size_t); void __wrap__ZdaPvm(void *p, size_t n) { del(p); __real__ZdaPvm(p, n); }
}
namespace {
int openFiles() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
struct Usage { long blocks; long long bytes; int fds; };
// the script of one operation: numbers drawn beforehand, so that a step can be repeated exactly
struct Step { int op; VI arg; mutable size_t at = 0; int next(int bound) const { return arg[at++ % arg.size()] % (bound + 1); } };
struct World { Mat S, G, F; VI loc; int base, nt; std::string dir; std::vector<std::string> files; };   // S: symmetric with diagonal; G: any shape; F: with external columns
static const char *NAMES[] = {"copy", "allocate and fill", "transpose", "permute", "permuteRows", "permuteRowptr+permuteMain", "splitLU", "getSymmetricNnzPattern",
  "schedule", "schedule built twice", "schedule in the memory pool", "RCM", "BFS", "bipartite BFS", "connected components", "binary file", "Matrix Market file",
  "load of a damaged file", "COO object", "Laplacian", "vector file", "SpMV and SpMM", "derived diagonal data", "base change", "dealloc", "barriers", "bit vector", "memory pool",
  "Matrix Market C interface", "utilities", "queries", "instrumented barrier"};
const int NOPS = sizeof NAMES / sizeof *NAMES;
bool fileLoad(const std::string &f, COO &a, int kind) { return kind == 0 ? loadMatrixMarketTransposed(f.c_str(), a, 1) : loadMatrixMarket(f.c_str(), a, kind == 1, kind == 3 ? 4 : 1); }
void spillFile(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

void perform(const World &w, const Step &s) {
  s.at = 0;
  const Mat &M = s.next(1) ? w.G : w.S;
  bool withDiag = &M == &w.S;
  std::string file = w.dir + "/f.mtx", bin = w.dir + "/f.bin";
  CsrBox B(M, w.base, true, withDiag, withDiag);
  VI pr, pc;
  auto rot = [](int n, int k) { VI p(n); for (int i = 0; i < n; ++i) p[i] = n ? (i + k) % n : 0; return p; };
  switch (s.op) {
  case 0: { CSR *a = new CSR(*B.A); CSR *b = new CSR(*a); delete a; delete b; break; }
  case 1: { CSR *a = new CSR(M.m, M.n, M.nnz() + 1); memcpy(a->rowptr, B.rowptr, (M.m + 1) * sizeof(int)); memcpy(a->colidx, B.colidx, M.nnz() * sizeof(int)); memcpy(a->values, B.values, M.nnz() * sizeof(double));
    for (int i = 0; i < M.m; ++i) a->diagptr[i] = a->rowptr[i];
    if (s.next(1)) { CSR b(*a); } delete a; break; }
  case 2: { CSR *t = B.A->transpose(); if (s.next(1)) { CSR *u = t->transpose(); delete t; t = u; } delete t; break; }
  case 3: case 4: case 5: {
    bool halo = s.next(3) == 3 && s.op != 4;
    CsrBox X(halo ? w.F : M, w.base, s.next(3) != 3, false, false);
    if (halo) X.setExt(w.loc, w.base);
    int m = X.A->m, n = X.A->n;
    pr = rot(m, s.next(50)); pc = halo || m == n ? rot(m, 0) : rot(n, s.next(50)); VI ir = invert(pr);
    if (halo || m == n) pc = pr;
    CSR *p;
    if (s.op == 4) p = X.A->permuteRows(ir.data());
    else if (s.op == 3) p = X.A->permute(pc.data(), ir.data(), s.next(1));
    else { p = X.A->permuteRowptr(ir.data()); X.A->permuteMain(p, pc.data(), ir.data(), s.next(1)); }
    delete p; break; }
  case 6: { CsrBox X(w.S, w.base, true, true, true); CSR *l = new CSR(), *u = new CSR(); int n = 1 + s.next(2); while (n--) splitLU(*X.A, l, u); if (s.next(1)) { delete l; delete u; } else { l->dealloc(); u->dealloc(); delete u; delete l; } break; }
  case 7: { int *r = 0, *d = 0, *e = 0, *ci = 0;
    Mat A2 = w.S; if (s.next(1) && A2.m > 1) { A2.rows[0].clear(); A2.rows[0].push_back({0, 1.0}); }
    CsrBox Y(A2, w.base); if (!getSymmetricNnzPattern(Y.A, &r, &d, &e, &ci)) { FREE(r); FREE(d); FREE(e); FREE(ci); } break; }
  case 8: case 9: case 10: {
    CsrBox X(w.S, w.base, true, true, true);
    bool pool = s.op == 10;
    MemoryPool *P = MemoryPool::getSingleton();
    if (pool) { P->initialize(1 << 22); if (s.next(1)) P->allocateFront<char>(64); else { P->allocate<char>(64); } }
    LevelSchedule *l = new LevelSchedule();
    int times = s.op == 9 ? 2 + s.next(1) : 1;
    int mode = s.next(5);
    l->useBarrier = mode == 1; l->fuseSpMV = mode == 2 || mode == 3; l->transitiveReduction = mode != 3 && mode != 4; l->aggregateForVectorization = mode == 5; l->useMemoryPool = pool;
    while (times--) {
      if (s.next(1)) l->constructTaskGraph(*X.A);
      else l->constructTaskGraph(w.S.m, X.rowptr, X.colidx, PrefixSumCostFunction(X.rowptr));
      if (times && s.next(1)) { l->useBarrier = false; l->fuseSpMV = !l->fuseSpMV; l->transitiveReduction = !l->transitiveReduction; }
    }
    delete l;
    if (pool) P->finalize();
    break; }
  case 11: case 12: { CsrBox X(w.S, w.base, true, false, false); Arr<int> p(w.S.m), q(w.S.m); if (s.op == 11) X.A->getRCMPermutation(p, q, s.next(1)); else X.A->getBFSPermutation(p, q); break; }
  case 13: { Mat T = transposeRef(M); CsrBox Y(T, w.base, false); Arr<int> a(M.m), b(M.m), d(M.n), e(M.n); bfsBipartite(*B.A, *Y.A, a, b, d, e); break; }
  case 14: { CsrBox X(w.S, w.base, true, false, false); int nc, *r = 0, *z = 0, *pre = 0, *nodes = 0; findConnectedComponents(X.A, &nc, &r, &z, &pre, &nodes); delete[] r; delete[] z; delete[] pre; delete[] nodes; break; }
  case 15: { B.A->storeBin(bin.c_str()); CSR *a = s.next(1) ? new CSR() : new CSR(2, 2, 3); int n = 1 + s.next(2); while (n--) a->loadBin(bin.c_str(), s.next(1)); delete a; if (s.next(1)) { CSR b(bin.c_str(), 0); } B.A->storeBin((w.dir + "/no/x.bin").c_str());
    if (s.next(2) == 2) { CsrBox X(w.F, w.base); X.setExt(w.loc, w.base); X.A->loadBin(bin.c_str(), 0); } break; }
  case 16: { B.A->storeMatrixMarket(file.c_str()); COO a; int n = 1 + s.next(1), k = s.next(3); if (k == 1 && M.m != M.n) k = 2; while (n--) fileLoad(file, a, k);
    if (s.next(1)) { CSR b(file.c_str(), s.next(1)); } if (s.next(1)) a.storeMatrixMarket((w.dir + "/g.mtx").c_str()); break; }
  case 17: { // every kind of rejected file
    const std::string &f = w.files[s.next((int)w.files.size() - 1)];
    COO a; CSR *b = new CSR(2, 2, 2); int m, n, z, *i = 0, *j = 0; double *v = 0; MM_typecode t;
    if (s.next(1)) { B.A->storeMatrixMarket(file.c_str()); loadMatrixMarket(file.c_str(), a); }
    fileLoad(f, a, s.next(3));
    b->loadBin(s.next(1) ? f.c_str() : (w.dir + "/bad.bin").c_str(), 0);
    b->loadBin((w.dir + "/missing.bin").c_str(), 0);
    delete b;
    if (loadVectorMatrixMarket(f.c_str(), &v, &m, &n)) FREE(v);
    v = 0;
    if (!mm_read_unsymmetric_sparse(f.c_str(), &m, &n, &z, &v, &i, &j)) { free(v); free(i); free(j); }
    v = 0; i = j = 0;
    if (!mm_read_mtx_crd((char *)f.c_str(), &m, &n, &z, &i, &j, &v, &t)) { free(v); free(i); free(j); }
    break; }
  case 18: { COO a; a.m = M.m; a.n = M.n; a.nnz = M.nnz(); a.rowidx = MALLOC(int, a.nnz); a.colidx = MALLOC(int, a.nnz); a.values = MALLOC(double, a.nnz);
    int k = 0; for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) { a.rowidx[k] = i + 1; a.colidx[k] = e.first + 1; a.values[k++] = e.second; }
    bool sep = s.next(1); CSR *o = new CSR(); o->n = M.n; o->alloc(M.m, a.nnz, sep); dcoo2csr(o, &a, w.base, sep); delete o; if (s.next(1)) { a.dealloc(); } break; }
  case 19: { CSR *a = new CSR(); generate3D27PtLaplacian(a, 1 + s.next(3), 1 + s.next(3), 1 + s.next(3), w.base); delete a; CSR b("2", w.base); break; }
  case 20: { spillFile(file, "%%MatrixMarket matrix array real general\n3 2\n1\n2\n3\n4\n5\n6\n"); double *v = 0; int m, n; if (loadVectorMatrixMarket(file.c_str(), &v, &m, &n)) FREE(v); break; }
  case 21: { int k = 1 + s.next(3), big = std::max(M.m, M.n); Arr<double> x(big * k, 1.0), y(big * k, 2.0); B.A->multiplyWithVector(y, 2, x, s.next(1), y, s.next(1)); B.A->multiplyWithVector(y, x);
    Arr<double> z(big * k, 3.0); B.A->multiplyWithDenseMatrix(z, k, k, 1, 1, x, k, 1, 1, y, k, 1, 0); B.A->multiplyWithDenseMatrix(z, k, x);
    if (M.m == M.n) { B.A->multiplyWithVector(x, 1, x, 0, x, 0); B.A->multiplyWithVector(x, 2, x, 1, x, 1); } break; }
  case 22: { CSR *a = s.next(1) ? new CSR(w.S.m, w.S.m, B.rowptr, B.colidx, B.values) : 0; CsrBox X(w.S, w.base); delete a;
    CSR *v = new CSR(w.S.m, w.S.n, X.rowptr, X.colidx, X.values); int n = 1 + s.next(2); while (n--) { if (s.next(1)) v->constructDiagPtr(); v->constructDiagPtr(); v->computeInverseDiag(); } if (s.next(1)) { CSR d(*v); } delete v; break; }
  case 23: B.A->make1BasedIndexing(); B.A->make0BasedIndexing(); if (w.base) B.A->make1BasedIndexing(); break;
  case 24: { CSR a(M.m, M.n, M.nnz()); a.dealloc(); a.dealloc(); a.n = M.n; a.alloc(M.m, M.nnz(), s.next(1)); break; }
  case 25: { int cores = 1 + s.next(3), tpc = 1 + s.next(1), n = std::min(4, cores * tpc); if (cores * tpc > 4) { cores = 2; tpc = 2; } n = cores * tpc;
    int kind = s.next(3);
    if (kind == 0) { synk::Barrier *b = new synk::Barrier(cores, tpc);
      if (s.next(3)) {
#pragma omp parallel num_threads(n)
        { b->init(omp_get_thread_num()); b->wait(omp_get_thread_num()); } }
      delete b; }
    else if (kind == 1) { synk::ReduceBarrier<double> *b = new synk::ReduceBarrier<double>(cores, tpc);
      if (s.next(3)) {
#pragma omp parallel num_threads(n)
        { int t = omp_get_thread_num(); b->init(t); b->wait(t, 0., 1. * t, [](double x, double y) { return x + y; }); } }
      delete b; }
    else if (kind == 2) { synk::Barrier::initializeInstance(w.nt, 1);
      synk::Barrier *b = synk::Barrier::getInstance(); (void)b; synk::Barrier::deleteInstance(); }
    else { synk::Barrier::deleteInstance(); synk::Barrier::getInstance(); synk::Barrier::getInstance(); synk::Barrier::deleteInstance(); synk::Barrier::deleteInstance(); }
    break; }
  case 26: { BitVector *b = new BitVector(1 + s.next(100)); b->set(0); delete b; break; }
  case 27: { MemoryPool *p = s.next(1) ? new MemoryPool() : new MemoryPool(4096); int n = s.next(2); while (n--) { p->initialize(2048 + s.next(5000)); p->allocate<int>(10); p->allocateFront<int>(3); if (s.next(1)) p->deallocateAll(); else if (s.next(1)) p->finalize(); } delete p; break; }
  case 28: { int nz = M.nnz(); VI I, J; VD v; for (int i = 0; i < M.m; ++i) for (auto &e : M.rows[i]) { I.push_back(i + 1); J.push_back(e.first + 1); v.push_back(e.second); }
    I.push_back(0); J.push_back(0); v.push_back(0);
    MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t); mm_set_sparse(&t); mm_set_real(&t); mm_set_general(&t);
    free(mm_typecode_to_str(t));
    mm_write_mtx_crd((char *)file.c_str(), M.m, M.n, nz, I.data(), J.data(), v.data(), t);
    mm_write_mtx_crd((char *)(w.dir + "/no/x.mtx").c_str(), M.m, M.n, nz, I.data(), J.data(), v.data(), t);
    t[2] = 'Q'; mm_write_mtx_crd((char *)(w.dir + "/g.mtx").c_str(), M.m, M.n, nz, I.data(), J.data(), v.data(), t);
    int m, n, z, *i = 0, *j = 0; double *x = 0;
    if (!mm_read_mtx_crd((char *)file.c_str(), &m, &n, &z, &i, &j, &x, &t)) { free(i); free(j); free(x); }
    x = 0; i = j = 0;
    if (!mm_read_unsymmetric_sparse(file.c_str(), &m, &n, &z, &x, &i, &j)) { free(i); free(j); free(x); }
    mm_read_mtx_crd((char *)(w.dir + "/missing.mtx").c_str(), &m, &n, &z, &i, &j, &x, &t);
    break; }
  case 29: { int n = w.S.m; VI p = rot(n, 1); VI q(n); getInversePerm(q.data(), p.data(), n); isPerm(p.data(), n); isInversePerm(p.data(), q.data(), n);
    Arr<double> v(n, 1.0), o(n, 2.0);
    double *a = getReorderVector(v, p.data(), n); FREE(a); a = getReorderVectorWithInversePerm(v, p.data(), n); FREE(a);
    reorderVector(v, p.data(), n); reorderVector(o, v, p.data(), n); reorderVectorWithInversePerm(v, p.data(), n); reorderVectorWithInversePerm(o, v, p.data(), n); break; }
  case 31: { if (!kern::limbaNew) break;
    int cores = 1 + s.next(1), tpc = 1 + s.next(1), n = cores * tpc, kind = s.next(2); VI phase(n, 0), cell(n, 0), use(8, 0);
    std::vector<unsigned long long> first(n * 8), last(n * 8);
    kern::Episodes e; e.n = n; e.rounds = 1 + s.next(2); e.phase = phase.data(); e.cell = cell.data();
    if (kind == 0) { void *b = kern::limbaNew(cores, tpc); if (s.next(3)) kern::limbaEpisodes(b, 1 + s.next(2), e, use.data(), 0, first.data(), last.data()); kern::limbaDelete(b); }
    else { kern::limbaInstanceDelete(); if (kind == 1) { omp_set_num_threads(n); kern::limbaInstanceInit(cores, tpc); omp_set_num_threads(w.nt); } else kern::limbaInstance(); kern::limbaInstanceDelete(); kern::limbaInstanceDelete(); }
    break; }
  default: { B.A->isSymmetric(true, s.next(1)); B.A->isSymmetric(false); B.A->hasZeroDiag(); B.A->getBandwidth(); B.A->getAverageWidth(); B.A->getMaxDegree(); CSR d(*B.A); B.A->equals(d, true); if (M.nnz()) { d.values[0] += 1; B.A->equals(d, s.next(1)); } break; }
  }
}
void ownership(Ctx &c) {
  World w;
  w.nt = rt::begin(c, 4);
  synk::Barrier::deleteInstance();
  w.base = (int)c.draw(1);
  int maxN = c.chance(1, 25) ? 300 : c.chance(1, 5) ? 60 : 16;
  w.S = genSymGraph(c, 1, maxN, true);
  { for (int i = 0; i < w.S.m; ++i) for (auto &e : w.S.rows[i]) if (e.first == i && e.second == 0) e.second = 2; }
  MatOpts o; o.maxN = maxN; w.G = genMat(c, o);
  w.F = w.S; w.loc = fatten(c, w.F);
  w.dir = pbt::scratchDir();
  static const char *BAD[] = {"%%MatrixMarket matrix coordinate real\n2 2 1\n1 1 1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 3 1\n1 1 1\n",
    "%%MatrixMarket matrix coordinate real general\nx\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n3 1 1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 1\n3 1 1\n",
    "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n2 2 1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 1\n1 1 1\n2 2 1\n",
    "%%MatrixMarket matrix coordinate real general\n2 2 3\n1 1 1\n2 2 1\n", "%%MatrixMarket matrix coordinate integer symmetric\n2 2 3\n1 1 1\n2 2 1\n",
    "%%MatrixMarket matrix coordinate real general\n2 2 2\n0 0 1\n2 2 1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n0 0 1\n2 2 1\n",
    "%%MatrixMarket matrix array real general\n2 2\n1\n2\n", "%%MatrixMarket matrix array real general\n2 2\n1\nx\n3\n4\n", "%%MatrixMarket matrix array real general\n2\n",
    "%%MatrixMarket matrix array complex general\n1 1\n1 2\n", "%%MatrixMarket matrix coordinate complex general\n1 1 1\n1 1 1 2\n", "%%MatrixMarket matrix coordinate complex general\n1 1 2\n1 1 1 2\n",
    "%%MatrixMarket matrix coordinate pattern general\n2 2 2\n1 1\n", "%%MatrixMarket matrix coordinate pattern hermitian\n2 2 2\n1 1\n", "junk\n", "",
    "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 z 1\n", "%%MatrixMarket matrix array real general\n2147483647 2147483647\n1\n"};
  int steps = c.range(1, 5); std::vector<Step> prog(steps); std::string log;
  for (auto &s : prog) { s.op = (int)c.draw(NOPS - 1); int len = 14; for (int k = 0; k < len; ++k) s.arg.push_back((int)c.draw(1023)); log += std::string(log.empty() ? "" : "; ") + NAMES[s.op]; c.label("op:%s", NAMES[s.op]); }
  int k = 0; for (auto b : BAD) { w.files.push_back(w.dir + "/bad" + std::to_string(k++) + ".mtx"); spillFile(w.files.back(), b); }
  { int h[] = {1211216, 2, 2, 2, 1, 1, 0, 7}; std::string s((char *)h, sizeof h); s.resize(s.size() + 16, 'a'); spillFile(w.dir + "/bad.bin", s); }
  c.note("%d threads, base %d, symmetric %s, other %s: %s", w.nt, w.base, show(w.S, 90).c_str(), show(w.G, 90).c_str(), log.c_str());
  // what one more execution of the same program leaves behind
  auto run = [&]() -> Usage { for (auto &s : prog) perform(w, s); return {liveBlocks, liveBytes, openFiles()}; };
  liveBlocks = 0; liveBytes = 0; overflow = false; memset(table, 0, sizeof table);
  fflush(stdout); int keep = dup(1), null = open("/dev/null", O_WRONLY); dup2(null, 1); close(null);
  tracking = true;
  Usage a = run(), b = run();
  tracking = false;
  fflush(stdout); dup2(keep, 1); close(keep);
  if (overflow) return;
  CHECK(c, b.blocks <= a.blocks && b.bytes <= a.bytes, "repeating [%s] leaves %ld more blocks (%lld bytes) allocated although everything was destroyed", log.c_str(), b.blocks - a.blocks, b.bytes - a.bytes);
  CHECK(c, b.fds <= a.fds, "repeating [%s] leaves %d more files open", log.c_str(), b.fds - a.fds);
  c.nontrivial();
}
static pbt::Registrar r1({"P36", "programs", ownership, 4000, 60000, 8, 10, 90, "every case: at least one operation that allocates or opens files"});
} // namespace
#endif
