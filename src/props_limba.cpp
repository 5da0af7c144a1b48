// P31: the load imbalance measuring barrier
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include "gen.hpp"
#include "kernels.hpp"
namespace kern {
void *limbaNew(int cores, int tpc); void limbaDelete(void *b);
void limbaInstanceInit(int cores, int tpc); void *limbaInstance(); void limbaInstanceDelete();
void limbaReset(void *b); void limbaPrint(void *b, bool all); void limbaPrintImbalance(void *b, unsigned long long ref);
void limbaEpisodes(void *object, int initUses, Episodes &e, const int *use, const int *delay, unsigned long long *first, unsigned long long *last);
}
namespace {
typedef unsigned long long U;
typedef std::vector<std::vector<U>> Rows;
// what print() writes: rows of numbers per (barrier, thread), then rows per barrier
void printed(Ctx &c, void *obj, bool all, Rows &detail, Rows &summary) {
  std::string s = captured(c, [&] { kern::limbaPrint(obj, all); });
  detail.clear(); summary.clear();
  int part = 0;
  for (size_t at = 0; at < s.size();) {
    size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size();
    std::string line = s.substr(at, e - at); at = e + 1;
    if (line.find("details") != std::string::npos) part = 1;
    else if (line.find("summary") != std::string::npos) part = 2;
    else if (!line.empty() && isdigit(line[0])) {
      std::vector<U> r; const char *q = line.c_str(); char *end;
      for (;;) { U v = strtoull(q, &end, 10); if (end == q) break; r.push_back(v); q = *end == ',' ? end + 1 : end; }
      CHECK(c, part && r.size() == 9, "cannot understand the printed line '%s'", line.c_str());
      (part == 1 ? detail : summary).push_back(r);
    }
  }
}
void p31(Ctx &c) {
  rt::begin(c, 2);
  kern::limbaInstanceDelete();
  int steps = c.range(1, 3), most = 0, total = 0;
  std::string log;
  for (int s = 0; s < steps; ++s) {
    int lim = rt::isFiber ? (c.chance(1, 12) ? 40 : 14) : 4;
    int tpc = c.chance(1, 2) ? c.range(1, 4) : 1, cores = c.range(1, std::max(1, lim / tpc)), n = cores * tpc;
    int kind = (int)c.draw(3), uses = kind == 0 ? c.chance(1, 4) ? c.range(4, 20) : c.range(1, 3) : 1, regions = c.range(1, 2);
    VI d(64, 0);
    int k = c.flip() ? c.range(1, 5) : 0;
    while (k--) d[c.draw(63)] = c.range(1, 200);
    rt::setThreads(n);
    void *b = nullptr;
    static const char *kn[] = {"object", "initializeInstance", "getInstance", "singleton"};
    if (kind == 0) b = kern::limbaNew(cores, tpc);
    else if (kind == 1) kern::limbaInstanceInit(cores, tpc);
    else if (kind == 2) kern::limbaInstance();           // kind 3: first used inside the region
    char buf[120]; snprintf(buf, sizeof buf, " %s(%dx%d,%d uses,%d regions)", kn[kind], cores, tpc, uses, regions);
    log += buf; c.note("load imbalance barriers:%s", log.c_str());
    std::vector<VI> seen;                                 // use of every episode since the last reset
    std::vector<std::vector<U>> F, L;
    for (int g = 0; g < regions; ++g) {
      int rounds = c.range(1, 5);
      VI use(rounds); for (auto &u : use) u = c.range(0, uses - 1);
      Arr<int> phase(n, 0), cell(n, -1), U_(use);
      std::vector<U> first(rounds * n), last(rounds * n);
      kern::Episodes e{n, rounds, phase, cell, -1, -1, -1, 0};
      kern::limbaEpisodes(b, kind == 0 && g == 0 ? uses : 0, e, U_, d.data(), first.data(), last.data());
      CHECK(c, e.badRound < 0, "%s: thread %d left episode %d while thread %d had entered %d episodes", buf, e.badThread, e.badRound, e.badOther, e.badValue);
      for (int t = 0; t < n; ++t) CHECK(c, phase[t] == rounds, "%s: thread %d completed %d of %d episodes", buf, t, phase[t], rounds);
      for (int r = 0; r < rounds; ++r) { seen.push_back(VI(1, use[r])); F.emplace_back(first.begin() + r * n, first.begin() + (r + 1) * n); L.emplace_back(last.begin() + r * n, last.begin() + (r + 1) * n); }
      void *obj = kind == 0 ? b : kern::limbaInstance();
      Rows D, S, S2, none;
      printed(c, obj, true, D, S);
      printed(c, obj, false, none, S2);
      CHECK(c, (int)D.size() == n * uses && (int)S.size() == uses && none.empty() && S == S2, "%s: %zu detail and %zu summary lines for %d threads and %d barriers; without details %zu and %zu", buf, D.size(), S.size(), n, uses, none.size(), S2.size());
      {
        U ref = c.flip() ? (U)c.range(1, 1000) : 1000000ull * c.range(1, 5000);
        std::string out = captured(c, [&] { kern::limbaPrintImbalance(obj, ref); });
        long double net = 0;
        for (auto &w : D) net += (long double)w[4] - (long double)w[5];
        net = net / n / ref;
        size_t at = out.rfind('=');
        CHECK(c, at != std::string::npos, "%s: printLoadImbalance wrote '%s'", buf, out.c_str());
        double got = strtod(out.c_str() + at + 1, nullptr);
        CHECK(c, fabsl(got - net) <= 2e-6L + fabsl(net) * 1e-9L, "%s: printLoadImbalance(%llu) wrote %f, the printed totals give %Lf", buf, ref, got, net);
      }
      for (int j = 0; j < uses; ++j) {
        U cnt = 0, anyZero = 0, span = 0, smin = ~0ull, smax = 0, stot = 0, sbar = 0;
        for (size_t r = 0; r < seen.size(); ++r) if (seen[r][0] == j) {
          ++cnt;
          U lo = *std::min_element(F[r].begin(), F[r].end()), hi = *std::max_element(L[r].begin(), L[r].end());
          if (hi > lo) span = std::max(span, hi - lo);
        }
        for (int t = 0; t < n; ++t) {
          const std::vector<U> &w = D[j * n + t];
          CHECK(c, w[0] == (U)j && w[1] == (U)t, "%s: line %d is for barrier %llu, thread %llu", buf, j * n + t, w[0], w[1]);
          U v[5] = {w[2], w[3], w[4], w[6], w[5]}, mn = v[0], mx = v[1], tot = v[2];
          smin = std::min(smin, mn); smax = std::max(smax, mx); stot += tot; sbar += v[4];
          CHECK(c, w[7] == (cnt ? tot / cnt : 0) && w[8] == (cnt ? w[5] / cnt : 0), "%s: thread %d, barrier %d: averages %llu and %llu of totals %llu and %llu over %llu episodes", buf, t, j, w[7], w[8], tot, w[5], cnt);
          CHECK(c, v[3] == cnt, "%s: thread %d counts %llu uses of barrier %d, there were %llu", buf, t, v[3], j, cnt);
          if (!cnt) { CHECK(c, mn == ~0ull && !mx && !tot && !v[4], "%s: thread %d has measurements of barrier %d, which was not used", buf, t, j); continue; }
          CHECK(c, mn <= mx && mx <= tot && tot <= mx * cnt && mn * cnt <= tot, "%s: thread %d, barrier %d: min %llu max %llu total %llu over %llu episodes", buf, t, j, mn, mx, tot, cnt);
          CHECK(c, mx <= span + (1ull << 32), "%s: thread %d, barrier %d: waited %llu cycles for the last thread, the longest episode took %llu", buf, t, j, mx, span);
          if (n == 1) CHECK(c, !mx, "%s: a single thread waited %llu cycles for itself", buf, mx);
          anyZero |= mn == 0;
        }
        const std::vector<U> want = {(U)j, (U)n, smin, smax, stot / n, sbar / n, cnt, cnt ? stot / n / cnt : 0, cnt ? sbar / n / cnt : 0};
        CHECK(c, S[j] == want, "%s: summary of barrier %d: min %llu max %llu total %llu barrier %llu count %llu avg %llu %llu, expected min %llu max %llu total %llu barrier %llu count %llu avg %llu %llu", buf, j, S[j][2], S[j][3], S[j][4], S[j][5], S[j][6], S[j][7], S[j][8], want[2], want[3], want[4], want[5], want[6], want[7], want[8]);
        if (cnt) CHECK(c, anyZero, "%s: no thread was the last to arrive at barrier %d", buf, j);
      }
      total += rounds; most = std::max(most, n);
      if (c.chance(1, 4)) { kern::limbaReset(obj); seen.clear(); F.clear(); L.clear(); }
    }
    if (kind == 0) kern::limbaDelete(b); else kern::limbaInstanceDelete();
  }
  c.label("team:%s", most == 1 ? "1" : most <= 4 ? "2-4" : most <= 16 ? "5-16" : ">16");
  if (most > 1 && total > 1) c.nontrivial();
}
const char *R31 = "more than one thread and more than one episode";
#ifdef NATIVE
pbt::Registrar r31(pbt::Property{"P31", "loadimba", p31, 1500, 40000, 2, 10, 90, R31});
#else
pbt::Registrar r31(pbt::Property{"P31", "loadimba", p31, 10000, 400000, 8, 10, 90, R31});
#endif
} // namespace
