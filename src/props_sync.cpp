// P27 barrier, P28 reducing barrier
#include "gen.hpp"
#include "kernels.hpp"
#include "barrier.hpp"
#include <climits>

namespace {
// thread counts and core shapes: n = cores * threads per core
void shape(Ctx &c, int &cores, int &tpc) {
  int lim = rt::isFiber ? (c.chance(1, 10) ? 60 : 20) : 4;
  tpc = c.chance(1, 2) ? c.range(1, rt::isFiber ? 5 : 4) : 1;
  if (tpc > lim) tpc = lim;
  cores = c.range(1, lim / tpc);
}
std::vector<int> delays(Ctx &c) {
  std::vector<int> d(64, 0);
  int k = c.chance(1, 2) ? c.range(1, 6) : 0;
  while (k--) d[c.draw(63)] = c.range(1, 200);
  return d;
}

void p27(Ctx &c) {
  rt::begin(c, 2);
  synk::Barrier::deleteInstance();
  int steps = c.range(1, 4), total = 0, most = 0;
  std::string log;
  bool haveInstance = false; int instThreads = 0;
  for (int s = 0; s < steps; ++s) {
    int kind = (int)c.draw(3), cores, tpc;
    shape(c, cores, tpc);
    int n = cores * tpc, rounds = c.range(1, 6);
    VI d = delays(c);
    synk::Barrier *b = nullptr;
    int via = kern::VIA_SINGLETON;
    char buf[160];
    if (kind == 0) { b = new synk::Barrier(cores, tpc); via = kern::VIA_OBJECT; }
    else {
      if (haveInstance && kind == 3) { n = instThreads; }          // keep using the instance
      else {
        synk::Barrier::deleteInstance();
        haveInstance = false;
      }
      rt::setThreads(n);
      if (!haveInstance) {
        if (kind == 1) synk::Barrier::initializeInstance(cores, tpc);
        else if (kind == 2) synk::Barrier::getInstance();
        haveInstance = true; instThreads = n;                       // kind 3: first use is inside the parallel region
      }
      if (c.chance(1, 3)) b = synk::Barrier::getInstance(), via = kern::VIA_OBJECT;
    }
    static const char *kn[] = {"object", "initializeInstance", "getInstance", "singleton"};
    snprintf(buf, sizeof buf, " %s(%dx%d)x%d", kn[kind], cores, tpc, rounds);
    log += buf;
    c.note("barrier history:%s", log.c_str());
    Arr<int> phase(n, 0), cell(n, -1);
    kern::Episodes e{n, rounds, phase, cell, -1, -1, -1, 0};
    kern::barrierEpisodes(b, via, kind == 0, e, d.data());
    CHECK(c, e.badRound < 0, "%s: thread %d left episode %d while thread %d had entered %d episodes", buf, e.badThread, e.badRound, e.badOther, e.badValue);
    for (int t = 0; t < n; ++t) CHECK(c, phase[t] == rounds, "%s: thread %d completed %d of %d episodes", buf, t, phase[t], rounds);
    if (kind == 0) {
      if (c.chance(1, 2)) { // the same object serves a later parallel region
        for (int t = 0; t < n; ++t) phase[t] = 0, cell[t] = -1;
        kern::barrierEpisodes(b, kern::VIA_OBJECT, false, e, d.data());
        CHECK(c, e.badRound < 0, "%s, second region: thread %d left episode %d while thread %d had entered %d episodes", buf, e.badThread, e.badRound, e.badOther, e.badValue);
      }
      delete b;
    }
    total += rounds; most = std::max(most, n);
  }
  synk::Barrier::deleteInstance();
  c.label("team:%s", most == 1 ? "1" : most <= 4 ? "2-4" : most <= 16 ? "5-16" : ">16");
  if (most > 1 && total > 1) c.nontrivial();
}

void p28(Ctx &c) {
  rt::begin(c, 2);
  int cores, tpc;
  shape(c, cores, tpc);
  int n = cores * tpc, rounds = c.range(1, 8);
  bool dbl = c.chance(1, 3);
  int op = (int)c.draw(dbl ? 2 : 3);
  VI d = delays(c);
  rt::setThreads(n);
  static const char *on[] = {"sum", "max", "min", "xor"};
  c.note("ReduceBarrier<%s>(%d, %d) %s, %d episodes", dbl ? "double" : "int", cores, tpc, on[op], rounds);
  bool varied = false;
  VI in(n * rounds);
  for (auto &x : in) { x = c.range(-50, 1000); varied |= x != in[0]; }
  if (dbl) {
    VD a(in.begin(), in.end());
    Arr<double> I(a), O(n * rounds, -7.0);
    kern::reduceEpisodesDouble(cores, tpc, rounds, op, op == 0 ? 0 : op == 1 ? -HUGE_VAL : HUGE_VAL, I, O, d.data());
    for (int r = 0; r < rounds; ++r) {
      double w = a[r * n];
      for (int t = 1; t < n; ++t) { double v = a[r * n + t]; w = op == 0 ? w + v : op == 1 ? std::max(w, v) : std::min(w, v); }
      for (int t = 0; t < n; ++t) CHECK(c, O[r * n + t] == w, "episode %d: thread %d received %g, the %s is %g", r, t, O[r * n + t], on[op], w);
    }
  } else {
    Arr<int> I(in), O(n * rounds, -7);
    kern::reduceEpisodesInt(cores, tpc, rounds, op, op == 1 ? INT_MIN : op == 2 ? INT_MAX : 0, I, O, d.data());
    for (int r = 0; r < rounds; ++r) {
      int w = in[r * n];
      for (int t = 1; t < n; ++t) { int v = in[r * n + t]; w = op == 0 ? w + v : op == 1 ? std::max(w, v) : op == 2 ? std::min(w, v) : w ^ v; }
      for (int t = 0; t < n; ++t) CHECK(c, O[r * n + t] == w, "episode %d: thread %d received %d, the %s is %d", r, t, O[r * n + t], on[op], w);
    }
  }
  c.label("team:%s", n == 1 ? "1" : n <= 4 ? "2-4" : n <= 16 ? "5-16" : ">16");
  c.label("cores:%s", (cores & (cores - 1)) ? "not a power of two" : "power of two");
  if (n > 1 && rounds > 1 && varied) c.nontrivial();
}
const char *R27 = "more than one thread and more than one episode";
const char *R28 = "more than one thread and episode, and the contributed values differ";
#ifdef NATIVE
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, nq, nth, 2, 10, 90, rule})
#else
#define P(id, part, fn, rule, nq, nth, fq, fth) static pbt::Registrar r_##fn(pbt::Property{id, part, fn, fq, fth, 8, 10, 90, rule})
#endif
P("P27", "barrier", p27, R27, 2000, 40000, 20000, 800000);
P("P28", "reduction", p28, R28, 2000, 40000, 15000, 800000);
} // namespace
