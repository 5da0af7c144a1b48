// P24 partitions and prefix sums, P25 permutation/vector utilities, P26 memory pool
#include <sys/mman.h>
#include "gen.hpp"
#include "kernels.hpp"
#include "MemoryPool.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include "Utils.hpp"
using namespace SpMP;

// ------------------------------------------------------------------ P24
static void partitions(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 32 : 8);
  for (int rep = 0; rep < 4; ++rep) {
    int n = c.size(0, 400);
    std::vector<kern::Part> p;
    bool bal = c.flip();
    int base = (int)c.draw(1);
    VI pre(n + 1);
    pre[0] = base;
    int style = (int)c.draw(3);
    for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + (style == 0 ? c.range(0, 3) : style == 1 ? (c.chance(1, 10) ? c.range(0, 1000) : 0) : style == 2 ? 1 : c.range(0, 40));
    Arr<int> ap(pre);
    if (bal) kern::balancedPartition(ap, n, p);
    else kern::simplePartition(n, p);
    c.note("%s n=%d threads=%d", bal ? "balanced" : "simple", n, nt);
    CHECK(c, (int)p.size() == nt, "team size %zu, expected %d", p.size(), nt);
    int prev = 0;
    for (int t = 0; t < nt; ++t) {
      CHECK(c, p[t].begin == prev, "%s partition of %d over %d threads: thread %d starts at %d, expected %d",
            bal ? "balanced" : "simple", n, nt, t, p[t].begin, prev);
      CHECK(c, p[t].end >= p[t].begin && p[t].end <= n, "%s partition of %d over %d threads: thread %d gets [%d,%d)",
            bal ? "balanced" : "simple", n, nt, t, p[t].begin, p[t].end);
      prev = p[t].end;
    }
    CHECK(c, prev == n, "%s partition of %d over %d threads: covers only [0,%d)", bal ? "balanced" : "simple", n, nt, prev);
    if (bal && n > 0) { // no share exceeds an even share by more than one element's weight
      int tot = pre[n] - base, even = (tot + nt - 1) / nt, maxw = 0;
      for (int i = 0; i < n; ++i) maxw = std::max(maxw, pre[i + 1] - pre[i]);
      for (int t = 0; t < nt; ++t)
        CHECK(c, pre[p[t].end] - pre[p[t].begin] <= even + maxw, "balanced partition: thread %d of %d carries %d of %d (heaviest row %d)",
              t, nt, pre[p[t].end] - pre[p[t].begin], tot, maxw);
    }
    if (!bal) for (int t = 0; t < nt; ++t) CHECK(c, p[t].end - p[t].begin <= (n + nt - 1) / nt, "simple partition: thread %d of %d gets %d of %d", t, nt, p[t].end - p[t].begin, n);
    if (nt > 1 && n > 0) c.nontrivial();
  }
}
static void prefixes(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 32 : 8);
  int rounds = c.range(1, 3);
  if (c.flip()) {
    VI in(nt * rounds), out, sums;
    for (auto &v : in) v = c.range(0, 8) - 2;
    kern::runPrefixSum(in, out, sums, rounds);
    c.note("prefix sum threads=%d rounds=%d", nt, rounds);
    for (int r = 0; r < rounds; ++r) {
      int s = 0;
      for (int t = 0; t < nt; ++t) {
        CHECK(c, out[r * nt + t] == s, "prefix sum round %d: thread %d of %d got %d, expected %d", r, t, nt, out[r * nt + t], s);
        s += in[r * nt + t];
      }
      CHECK(c, sums[r] == s, "prefix sum round %d: total %d, expected %d", r, sums[r], s);
    }
  } else {
    int n = c.range(1, 12);
    VI in(nt * n * rounds), out, sum;
    for (auto &v : in) v = c.range(0, 8) - 2;
    kern::runPrefixSumMultiple(in, n, out, sum, rounds);
    c.note("multiple prefix sums n=%d threads=%d rounds=%d", n, nt, rounds);
    for (int r = 0; r < rounds; ++r)
      for (int i = 0; i < n; ++i) {
        int s = 0;
        for (int t = 0; t < nt; ++t) {
          CHECK(c, out[(r * nt + t) * n + i] == s, "prefixSumMultiple: column %d thread %d of %d got %d, expected %d", i, t, nt, out[(r * nt + t) * n + i], s);
          s += in[(r * nt + t) * n + i];
        }
        CHECK(c, sum[r * n + i] == s, "prefixSumMultiple: column %d total %d, expected %d", i, sum[r * n + i], s);
      }
  }
  if (nt > 1) c.nontrivial();
}

// ------------------------------------------------------------------ P25
static void vectors(Ctx &c) {
  int nt = rt::begin(c, rt::isFiber ? 24 : 8);
  int n = c.size(1, 300);
  VI p = genPerm(c, n), q = invert(p);
  VD v(n), want(n), wantInv(n);
  VI vi(n), wi(n), wii(n);
  for (int i = 0; i < n; ++i) { v[i] = i + 1 + c.range(0, 2) * 1000; vi[i] = (int)v[i]; }
  for (int i = 0; i < n; ++i) { want[p[i]] = v[i]; wi[p[i]] = vi[i]; wantInv[i] = v[p[i]]; wii[i] = vi[p[i]]; }
  Arr<int> P(p), Q(q), I(vi), IO(n, -7);
  Arr<double> V(v), O(n, -7.0);
  c.note("n=%d threads=%d perm=%s", n, nt, show(p, 12).c_str());
  if (n > 1 && nt > 1) c.nontrivial();
  int op = (int)c.draw(12);
  c.label("op:%d", op);
  auto eq = [&](const double *g, const VD &w, const char *what) { for (int i = 0; i < n; ++i) CHECK(c, g[i] == w[i], "%s: element %d is %g, expected %g", what, i, g[i], w[i]); };
  auto eqi = [&](const int *g, const VI &w, const char *what) { for (int i = 0; i < n; ++i) CHECK(c, g[i] == w[i], "%s: element %d is %d, expected %d", what, i, g[i], w[i]); };
  switch (op) {
  case 0: getInversePerm(IO, P, n); eqi(IO, q, "inverse permutation"); break;
  case 1: reorderVectorOutOfPlace((double *)O, V, P, n); eq(O, want, "reorder out of place"); eq(V, v, "reorder source"); break;
  case 2: reorderVectorOutOfPlaceWithInversePerm((double *)O, V, P, n); eq(O, wantInv, "reorder with inverse out of place"); break;
  case 3: reorderVectorOutOfPlace((int *)IO, I, P, n); eqi(IO, wi, "reorder ints"); break;
  case 4: reorderVectorOutOfPlaceWithInversePerm((int *)IO, I, P, n); eqi(IO, wii, "reorder ints with inverse"); break;
  case 5: { double *r = getReorderVector(V, P, n); eq(r, want, "reordered copy"); FREE(r); break; }
  case 6: { double *r = getReorderVectorWithInversePerm(V, P, n); eq(r, wantInv, "reordered copy with inverse"); FREE(r); break; }
  case 7: reorderVector(V, O, P, n); eq(V, want, "in-place reorder"); break;
  case 8: reorderVectorWithInversePerm(V, O, P, n); eq(V, wantInv, "in-place reorder with inverse"); break;
  case 9: reorderVector(V, P, n); eq(V, want, "in-place reorder"); reorderVectorWithInversePerm(V, P, n); eq(V, v, "reorder then undo"); reorderVector(V, P, n); reorderVector(V, Q, n); eq(V, v, "reorder by perm then inverse perm"); break;
  case 10: { // null permutation is the identity
    reorderVectorOutOfPlace((double *)O, V, NULL, n); eq(O, v, "null permutation");
    reorderVector(V, NULL, n); eq(V, v, "null permutation in place");
    copyVector((double *)O, (const double *)V, n); eq(O, v, "copyVector"); break; }
  case 11: { // byte fill/copy, any alignment and length
    int len = c.size(0, 2000), off = c.range(0, 70);
    int ch = c.range(0, 255);
    bool inPar = c.chance(1, 3), set = c.flip();
    Arr<unsigned char> D(len + off + 3, 0x5a), S(len + off + 3);
    for (int i = 0; i < len + off + 3; ++i) S[i] = (unsigned char)(i * 7 + ch);
    if (inPar) kern::memopsInParallel(D + off, S + off, ch, len, set);
    else if (set) parMemset(D + off, ch, len);
    else parMemcpy(D + off, S + off, len);
    for (int i = 0; i < len + off + 3; ++i) {
      int w = i < off || i >= off + len ? 0x5a : set ? ch : S[i];
      CHECK(c, D[i] == w, "parallel mem%s of %d bytes at offset %d: byte %d is %d, expected %d", set ? "set" : "cpy", len, off, i - off, D[i], w);
    }
    break; }
  case 12: { // predicates
    CHECK(c, isPerm(P, n), "isPerm rejects %s", show(p).c_str());
    CHECK(c, isInversePerm(P, Q, n), "isInversePerm rejects a true inverse");
    if (n > 1) { VI bad = q; int a = c.range(0, n - 2); std::swap(bad[a], bad[a + 1]); Arr<int> B(bad); CHECK(c, !isInversePerm(P, B, n), "isInversePerm accepts a wrong inverse"); }
    if (rt::isFiber) { // assertions disabled in this flavour: a rejection is a return value
      VI bad = p; int k = c.range(0, n - 1);
      int alt = c.chance(1, 2) ? (c.flip() ? n + c.range(0, 3) : -1 - c.range(0, 2)) : p[c.range(0, n - 1)];
      int edits = n > 1 ? c.range(0, 3) : 0; // more elements wrong, such that the sum (or sum and exclusive-or) stays that of a permutation
      for (int e = 0; e < edits; ++e) {
        int a = c.range(0, n - 1), b = c.range(0, n - 1), d = c.chance(1, 3) ? c.range(1, n) : 1 << c.draw(3);
        if (a == b) continue;
        bad[a] += d; bad[b] -= d;
      }
      VI sorted = bad; std::sort(sorted.begin(), sorted.end());
      bool perm = true; for (int i = 0; i < n; ++i) perm &= sorted[i] == i;
      if (edits) { Arr<int> B(bad); CHECK(c, isPerm(B, n) == perm, "isPerm %s %s", perm ? "rejects" : "accepts", show(bad).c_str()); }
      bad = p;
      if (alt != bad[k]) { bad[k] = alt; Arr<int> B(bad); CHECK(c, !isPerm(B, n), "isPerm accepts %s", show(bad).c_str()); }
    }
    break; }
  }
}

// correctnessCheck: agrees with its stated error margin
// ------------------------------------------------------------------ P26
struct Block { char *p; size_t len; size_t mark; bool front; unsigned char tag; };
static void pool(Ctx &c) {
  rt::begin(c, 1);
  size_t size = c.pick(std::vector<size_t>{1024, 4096, 640, 8192, 65536, 2048});
  MemoryPool *P = c.chance(1, 4) ? MemoryPool::getSingleton() : new MemoryPool();
  P->initialize(size);
  if (c.chance(1, 8)) { P->finalize(); P->initialize(size); }
  std::vector<Block> live; // in circular order from head to tail
  struct Save { size_t off; size_t count; };
  int steps = c.range(1, 40), allocs = 0, frees = 0, wraps = 0, full = 0;
  (void)full;
  unsigned char tag = 1;
  char *lo = nullptr; // buffer start, learnt from contents: all blocks must lie in one window of `size` bytes
  auto check = [&](const char *op) {
    for (size_t i = 0; i < live.size(); ++i) {
      Block &b = live[i];
      for (size_t k = 0; k < b.len; ++k) CHECK(c, (unsigned char)b.p[k] == b.tag, "after %s: byte %zu of live block %zu (len %zu) was overwritten", op, k, i, b.len);
      if (b.len) {
        CHECK(c, P->contains(b.p) && P->contains(b.p + b.len - 1), "after %s: pool does not contain a live block", op);
      }
    }
    char *mn = nullptr, *mx = nullptr;
    for (auto &b : live) { if (!mn || b.p < mn) mn = b.p; if (!mx || b.p + b.len > mx) mx = b.p + b.len; }
    if (lo) { if (mn && mn < lo) c.fail("after %s: block before the start of the pool", op); if (mx && mx > lo + size) c.fail("after %s: block beyond the end of the pool", op); }
    int x; CHECK(c, !P->contains(&x) && !P->contains(NULL), "pool claims to contain a foreign pointer");
  };
  // the very first allocation reveals the start of the buffer
  {
    char *p = (char *)P->allocate((size_t)1);
    lo = p;
    CHECK(c, ((size_t)p & 63) == 0, "first block not aligned");
    P->deallocateAll();
    CHECK(c, P->getHead() == 0 && P->getTail() == 0, "deallocateAll leaves head %zu tail %zu", P->getHead(), P->getTail());
    CHECK(c, !P->contains(lo), "pool contains a block after deallocateAll");
  }
  for (int s = 0; s < steps; ++s) {
    int op = (int)c.draw(9);
    size_t head = P->getHead(), tail = P->getTail();
    if (op <= 5) {
      int aligns[] = {64, 64, 64, 128, 16, 256};
      int al = aligns[c.draw(5)];
      size_t sz = c.chance(1, 12) ? 0 : (size_t)c.range(1, (int)(c.chance(1, 4) ? size / 2 : size / 8));
      size_t r = (sz + al - 1) / al * al + al; // slack for alignment
      bool front = op >= 4, ok;
      if (tail >= head) ok = front ? (head >= r || (size > r && size - r > tail)) : (tail + r < size || r < head);
      else ok = tail + r < head;
      if (front && tail >= head && head >= r) ok = true;
      bool tryFull = false;
      if (c.chance(1, 6)) { // exactly the free space, or one alignment unit around it
        size_t space = tail >= head ? (front || tail + 2 * al < size ? (front ? head : size - tail) : head) : head - tail;
        if (c.chance(1, 4)) space = head;
        long d = (long)c.draw(2) - 1;
        long want = (long)(space / al * al) + d * al;
        if (want > 0 && want < (long)size) { sz = (size_t)want; ok = false; tryFull = true; }
      }
#ifdef NATIVE
      // a request that may not fit: with assertions on, it must either be stopped or get memory of its own
      if (!ok && (tryFull || c.chance(1, 4)) && sz < size && full < 6) {
        ++full;
        bool inChild = false;
        pid_t pid = fork();
        if (pid == 0) {
          inChild = true;
          int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 2);
          signal(SIGABRT, [](int) { _exit(77); });
          char *q = (char *)(front ? P->allocateFront(sz, al) : P->allocate(sz, al));
          if (q) {
            if (sz && (q < lo || q + sz > lo + size)) _exit(10);
            for (auto &b : live) if (sz && b.len && q < b.p + b.len && b.p < q + sz) _exit(11);
            for (auto &b : live) if (b.len && !P->contains(b.p)) _exit(12);
            char *q2 = (char *)P->allocate((size_t)64);
            if (q2) {
              if (q2 < lo || q2 + 64 > lo + size) _exit(13);
              if (sz && q < q2 + 64 && q2 < q + sz) _exit(14);
              for (auto &b : live) if (b.len && q2 < b.p + b.len && b.p < q2 + 64) _exit(15);
            }
          }
          _exit(0);
        }
        int st = 0;
        CHECK(c, pid > 0 && !inChild && waitpid(pid, &st, 0) == pid, "fork failed");
        int ec = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
        static const char *why[] = {"returned a block outside the pool", "returned a block overlapping a live one", "made the pool forget a live block", "made the next block lie outside the pool", "made the next block overlap it", "made the next block overlap a live one"};
        if (ec >= 10 && ec <= 15) c.fail("a request of %zu bytes (align %d, %s) on a full pool (head %zu tail %zu size %zu) was not stopped and %s", sz, al, front ? "front" : "back", head, tail, size, why[ec - 10]);
        CHECK(c, ec == 0 || ec == 77, "a request on a full pool ended with status %d", ec);
        if (ec == 77) c.label("overflow stopped");
      }
#endif
      if (!ok) continue;
      char *p = (char *)(front ? P->allocateFront(sz, al) : P->allocate(sz, al));
      ++allocs;
      CHECK(c, p != nullptr, "allocation of %zu bytes failed although it fits (head %zu tail %zu size %zu)", sz, head, tail, size);
      CHECK(c, ((size_t)p % al) == 0, "block of %zu bytes is not aligned to %d", sz, al);
      CHECK(c, p >= lo && p + sz <= lo + size, "block [%td,+%zu) lies outside the pool of %zu bytes", p - lo, sz, size);
      for (auto &b : live) CHECK(c, sz == 0 || b.len == 0 || p + sz <= b.p || b.p + b.len <= p, "new block [%td,+%zu) overlaps live block [%td,+%zu) (head %zu tail %zu size %zu)", p - lo, sz, b.p - lo, b.len, head, tail, size);
      memset(p, tag, sz);
      Block b{p, sz, front ? head : tail, front, tag};
      tag = tag == 255 ? 1 : tag + 1;
      if (front) live.insert(live.begin(), b); else live.push_back(b);
      if ((!front && P->getTail() < tail) || (front && P->getHead() > head)) ++wraps;
    } else if (op == 6) { // release back to a point where the tail was
      int k = -1;
      for (int i = (int)live.size() - 1, n = c.range(0, 5); i >= 0 && !live[i].front; --i) { k = i; if (n-- == 0) break; }
      if (k < 0) continue;
      std::vector<Block> gone(live.begin() + k, live.end());
      P->setTail(live[k].mark);
      live.erase(live.begin() + k, live.end());
      CHECK(c, P->getTail() == gone[0].mark, "setTail(%zu) reads back %zu", gone[0].mark, P->getTail());
      for (auto &b : gone) if (b.len) CHECK(c, !P->contains(b.p), "pool still contains a block released by setTail");
      ++frees;
    } else if (op == 7) { // release front blocks in stack order
      int k = -1;
      for (int i = 0, n = c.range(0, 5); i < (int)live.size() && live[i].front; ++i) { k = i; if (n-- == 0) break; }
      if (k < 0) continue;
      std::vector<Block> gone(live.begin(), live.begin() + k + 1);
      size_t m = live[k].mark;
      P->setHead(m);
      live.erase(live.begin(), live.begin() + k + 1);
      CHECK(c, P->getHead() == m, "setHead(%zu) reads back %zu", m, P->getHead());
      for (auto &b : gone) if (b.len) CHECK(c, !P->contains(b.p), "pool still contains a block released by setHead");
      ++frees;
    } else if (op == 8) { // release the oldest blocks (circular use): head moves up to a later mark
      int k = -1;
      for (int i = 1, n = c.range(0, 4); i < (int)live.size(); ++i) if (!live[i].front) { k = i; if (n-- == 0) break; }
      if (k < 0) continue;
      std::vector<Block> gone(live.begin(), live.begin() + k);
      P->setHead(live[k].mark);
      live.erase(live.begin(), live.begin() + k);
      for (auto &b : gone) if (b.len) CHECK(c, !P->contains(b.p) , "pool still contains a block released by setHead");
      // front blocks below the new head are gone; marks of remaining blocks stay valid
      ++frees;
    } else if (c.chance(1, 3)) {
      P->deallocateAll();
      live.clear();
    }
    check(op <= 3 ? "allocate" : op <= 5 ? "allocateFront" : op == 6 ? "setTail" : "setHead");
  }
  c.note("size=%zu steps=%d allocs=%d releases=%d wraps=%d", size, steps, allocs, frees, wraps);
  if (wraps) c.label("wrapped");
  if (allocs >= 2 && frees >= 1) c.nontrivial();
}

#ifdef NATIVE
// ranges of 2 GB and more: every byte offset must be computed in 64 bits
static void hugeRange(Ctx &c) {
  int nt = rt::begin(c, 8);
  bool set = c.flip();
  size_t n = ((size_t)2 << 30) + (c.flip() ? c.range(1, 1 << 20) : c.range(0, 300 << 20)), guard = 4096, map = n + 2 * guard;
  c.note("%s of %zu bytes, %d threads", set ? "parMemset" : "parMemcpy", n, nt);
  c.label("%s", set ? "parMemset" : "parMemcpy");
  unsigned char *d = (unsigned char *)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  unsigned char *s = set ? nullptr : (unsigned char *)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (d == MAP_FAILED || s == MAP_FAILED) { c.label("no memory"); return; }
  std::vector<size_t> at = {0, 1, n - 1, n - 2, ((size_t)2 << 30) - 1, (size_t)2 << 30, n / 64 * 64, n / 64 * 64 - 1};
  for (int k = 0; k < 2000; ++k) at.push_back((size_t)(c.seed64() % n));
  memset(d, 0x11, guard); memset(d + guard + n, 0x11, guard);
  auto mark = [](size_t i) { return (unsigned char)(i % 251 + 1); };
  if (set) parMemset(d + guard, 0x5a, n);
  else { for (size_t i : at) if (i < n) s[guard + i] = mark(i); parMemcpy(d + guard, s + guard, n); }
  for (size_t i : at) if (i < n) CHECK(c, d[guard + i] == (set ? 0x5a : mark(i)), "%s of %zu bytes: byte %zu is %#x", set ? "parMemset" : "parMemcpy", n, i, d[guard + i]);
  for (size_t i = 0; i < guard; ++i) CHECK(c, d[i] == 0x11 && d[guard + n + i] == 0x11, "%s of %zu bytes touched memory outside its range", set ? "parMemset" : "parMemcpy", n);
  munmap(d, map); if (s) munmap(s, map);
  if (nt > 1) c.nontrivial();
}
#endif
static const char *R24 = "team of more than one thread and a non-empty range (or prefix sum over >1 threads)";
static const char *R25 = "vector longer than 1 and more than one thread";
static const char *R26 = "at least two allocations and one release in the history";
#ifdef NATIVE
static pbt::Registrar r1({"P24", "partitions", partitions, 1500, 20000, 3, 10, 90, R24});
static pbt::Registrar r2({"P24", "prefix", prefixes, 1500, 20000, 3, 10, 90, R24});
static pbt::Registrar r3({"P25", "vectors", vectors, 3000, 60000, 3, 10, 90, R25});
static pbt::Registrar r4({"P26", "pool", pool, 6000, 200000, 8, 20, 90, R26});
static pbt::Registrar r5({"P25", "huge", hugeRange, 3, 40, 1, 1, 240, R25});
#else
static pbt::Registrar r1({"P24", "partitions", partitions, 4000, 100000, 8, 10, 90, R24});
static pbt::Registrar r2({"P24", "prefix", prefixes, 12000, 200000, 8, 10, 90, R24});
static pbt::Registrar r3({"P25", "vectors", vectors, 30000, 400000, 8, 10, 90, R25});
static pbt::Registrar r4({"P26", "pool", pool, 6000, 100000, 8, 1, 90, R26});
#endif
