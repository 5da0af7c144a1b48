#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

namespace pbt {

static const size_t MAXTAPE = 1 << 17;
static const size_t NLABEL = 512, LABELLEN = 64;
static const size_t NSAMPLE = 48, SAMPLELEN = 700;
static const size_t HASHCAP = 1 << 21;

struct Slot {
  volatile long caseNo;      // case being run
  volatile long done;        // cases completed in this batch
  volatile size_t ntape;
  volatile int failed;
  volatile int overflow;
  char msg[4096];
  char note[SAMPLELEN];
  uint64_t tape[MAXTAPE];
};
struct Shared {
  volatile int lock;
  volatile long evals, nontrivial, distinct;
  volatile double slowest;
  volatile long slowestCase;
  struct { char name[LABELLEN]; long n; } labels[NLABEL];
  char samples[NSAMPLE][SAMPLELEN];
  volatile int nsamples;
  uint64_t hashes[HASHCAP];
};
static Shared *sh;
static std::vector<Slot *> slots;
static std::string g_scratchRoot;
static std::string g_caseScratch;

static void lockSh() { // taken over when its holder was killed
  for (int k = 0; __sync_lock_test_and_set(&sh->lock, 1) && k < 100000; ++k) usleep(10);
}
static void unlockSh() { __sync_lock_release(&sh->lock); }

static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void registerProperty(const Property &p) { props().push_back(p); }

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hashStr(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}

uint64_t Ctx::draw(uint64_t bound) {
  uint64_t v;
  if (replay) {
    v = pos < nin ? in[pos] : 0;
    if (v > bound) v = bound;
  } else {
    uint64_t r = splitmix(rng[0]);
    if (bound == ~0ull) v = r;
    else v = (uint64_t)(((unsigned __int128)r * (bound + 1)) >> 64);
  }
  ++pos;
  size_t k = slot->ntape;
  if (k < MAXTAPE) { slot->tape[k] = v; slot->ntape = k + 1; }
  else slot->overflow = 1;
  return v;
}
int Ctx::size(int lo, int hi) {
  // three regimes: tiny, medium, full range
  int span = hi - lo;
  if (span <= 0) return lo;
  int regime = (int)draw(3);
  int top = regime == 0 ? std::min(span, 4) : regime == 1 ? std::min(span, std::max(4, span / 8))
          : regime == 2 ? std::min(span, std::max(4, span / 2)) : span;
  return lo + (int)draw(top);
}
void Ctx::label(const char *fmt, ...) {
  char b[LABELLEN];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  lockSh();
  for (size_t i = 0; i < NLABEL; ++i) {
    if (!sh->labels[i].name[0]) strcpy(sh->labels[i].name, b);
    if (!strcmp(sh->labels[i].name, b)) { sh->labels[i].n++; break; }
  }
  unlockSh();
}
void Ctx::note(const char *fmt, ...) {
  size_t l = strlen(slot->note);
  if (l + 2 >= SAMPLELEN) return;
  if (l) { slot->note[l++] = ' '; slot->note[l] = 0; }
  va_list ap; va_start(ap, fmt); vsnprintf(slot->note + l, SAMPLELEN - l, fmt, ap); va_end(ap);
}
void Ctx::fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(slot->msg, sizeof slot->msg, fmt, ap); va_end(ap);
  slot->failed = 1;
  fflush(NULL);
  _exit(101);
}

static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rmTree(const std::string &d) {
  if (d.empty() || d.find("/pbt-") == std::string::npos) return;
  nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
}
std::string scratchDir() {
  if (g_caseScratch.empty()) {
    g_caseScratch = g_scratchRoot + "/c" + std::to_string(getpid());
    mkdir(g_caseScratch.c_str(), 0700);
  }
  return g_caseScratch;
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Run one case inside the current (child) process.
static void runCase(const Property &p, Slot *s, long caseNo, uint64_t seed, bool thorough,
                    const std::vector<uint64_t> *tape) {
  s->caseNo = caseNo;
  s->ntape = 0;
  s->overflow = 0;
  s->msg[0] = 0;
  s->note[0] = 0;
  Ctx c;
  c.slot = s;
  c.thorough = thorough;
  if (tape) { c.replay = true; c.in = tape->data(); c.nin = tape->size(); }
  uint64_t x = seed * 0x2545F4914F6CDD1Dull ^ hashStr(p.id) ^ (hashStr(p.part) << 1);
  splitmix(x);
  x ^= (uint64_t)caseNo * 0xD1342543DE82EF95ull;
  splitmix(x);
  c.rng[0] = x;
  double began = now();
  p.fn(c);
  if (!tape) {
    __sync_fetch_and_add(&sh->evals, 1);
    double took = now() - began;
    if (took > sh->slowest) { lockSh(); if (took > sh->slowest) { sh->slowest = took; sh->slowestCase = caseNo; } unlockSh(); }
    if (c.nt) {
      __sync_fetch_and_add(&sh->nontrivial, 1);
      uint64_t h = 1469598103934665603ull;
      for (size_t i = 0; i < s->ntape; ++i) { h ^= s->tape[i]; h *= 1099511628211ull; h ^= h >> 29; }
      if (!h) h = 1;
      lockSh();
      size_t k = h & (HASHCAP - 1);
      for (size_t n = 0; n < HASHCAP; ++n, k = (k + 1) & (HASHCAP - 1)) {
        if (!sh->hashes[k]) {
          if (sh->distinct < (long)(HASHCAP / 2)) sh->hashes[k] = h;
          sh->distinct++;
          // keep a spread of samples: the first few, then at growing gaps
          long d = sh->distinct;
          if (sh->nsamples < (int)NSAMPLE && s->note[0] && (d <= 4 || (d & (d - 1)) == 0)) {
            snprintf(sh->samples[sh->nsamples], SAMPLELEN, "case %ld: %.640s", caseNo, s->note);
            sh->nsamples++;
          }
          break;
        }
        if (sh->hashes[k] == h) break;
      }
      unlockSh();
    }
  }
}

struct Outcome { bool failed; std::string kind, msg; };

static std::string readTail(const std::string &path, size_t n = 3000) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return "";
  std::string s;
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > 4000000) s.erase(0, 2000000); }
  fclose(f);
  size_t e = s.find("ERROR: AddressSanitizer");
  if (e != std::string::npos) return s.substr(e, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

static pid_t spawn(int w, const std::function<void()> &body) {
  fflush(NULL);
  std::string log = g_scratchRoot + "/log" + std::to_string(w);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct rlimit fs = {256u << 20, 256u << 20};
    setrlimit(RLIMIT_FSIZE, &fs);
    g_caseScratch.clear();
    body();
    fflush(NULL);
    if (!g_caseScratch.empty()) rmTree(g_caseScratch);
    _exit(0);
  }
  return pid;
}

// signals that only the code itself raises (a kill may come from outside)
static bool crashKind(const std::string &k) {
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) if (k == std::string("signal ") + strsignal(sig)) return true;
  return false;
}
static Outcome classify(int w, Slot *s, int st, bool timedOut) {
  Outcome o{false, "", ""};
  if (timedOut) { o = {true, "timeout", "case did not terminate within its time limit"}; return o; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  if (s->failed) { o.kind = "check"; o.msg = s->msg; return o; }
  std::string tail = readTail(g_scratchRoot + "/log" + std::to_string(w));
  if (tail.find("AddressSanitizer") != std::string::npos) o.kind = "asan";
  else if (WIFSIGNALED(st)) o.kind = std::string("signal ") + strsignal(WTERMSIG(st));
  else o.kind = "exit " + std::to_string(WEXITSTATUS(st));
  o.msg = o.kind + ": " + tail;
  return o;
}

static Outcome replayTape(const Property &p, const std::vector<uint64_t> &tape, uint64_t seed,
                          bool thorough, std::vector<uint64_t> *used, std::string *note = nullptr) {
  Slot *s = slots[0];
  s->failed = 0;
  s->done = 0;
  pid_t pid = spawn(0, [&] { runCase(p, s, -1, seed, thorough, &tape); });
  double t0 = now();
  int st = 0;
  bool to = false;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > p.timeout_s) {
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      to = true;
      break;
    }
    usleep(now() - t0 < 0.05 ? 200 : 2000);
  }
  rmTree(g_scratchRoot + "/c" + std::to_string(pid));
  if (used) used->assign(s->tape, s->tape + s->ntape);
  if (note) *note = s->note;
  return classify(0, s, st, to);
}

static std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> best, uint64_t seed,
                                    bool thorough, double budget) {
  double t0 = now();
  int attempts = 0;
  auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](std::vector<uint64_t> t) -> bool {
    if (now() - t0 > budget || attempts > 4000) return false;
    ++attempts;
    std::vector<uint64_t> used;
    Outcome o = replayTape(p, t, seed, thorough, &used);
    if (!o.failed || o.kind == "timeout") return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (!better(used, best)) return false;
    best = used;
    return true;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool improved = true;
  while (improved && now() - t0 < budget) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2);; len /= 2) { // delete chunks
      for (size_t i = 0; i + len <= best.size();) {
        if (now() - t0 > budget) break;
        auto t = best;
        t.erase(t.begin() + i, t.begin() + i + len);
        if (attempt(t)) improved = true; else i += len;
      }
      if (len <= 1) break;
    }
    for (size_t len = std::max<size_t>(1, best.size() / 4);; len /= 2) { // zero chunks
      for (size_t i = 0; i + len <= best.size(); i += len) {
        if (now() - t0 > budget) break;
        auto t = best;
        bool any = false;
        for (size_t k = i; k < i + len; ++k) { any |= t[k] != 0; t[k] = 0; }
        if (any && attempt(t)) improved = true;
      }
      if (len <= 1) break;
    }
    for (size_t i = 0; i < best.size(); ++i) { // lower single values
      if (now() - t0 > budget) break;
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i]) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        auto t = best;
        t[i] = mid;
        size_t before = best.size();
        if (attempt(t)) { improved = true; if (best.size() != before) break; }
        else lo = mid + 1;
        if (now() - t0 > budget) break;
      }
    }
  }
  fprintf(stderr, "[%s/%s] shrink: %d attempts, %.1fs, tape length %zu\n", p.id, p.part, attempts,
          now() - t0, best.size());
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

static int runProperty(const Property &p, uint64_t seed, bool thorough, long ncases, double maxWall,
                       const std::string &outDir, FILE *ev) {
  memset((void *)sh, 0, sizeof(*sh));
  double t0 = now();
  int W = p.workers;
  struct Run { pid_t pid; long begin, end, at; double t0; }; // t0: when the case at was first seen
  std::vector<Run> running(W, Run{0, 0, 0, 0, 0});
  long next = 0, flaky = 0;
  int flakyChecks = 0;
  bool stop = false;
  std::vector<std::string> flakyMsgs;
  int violations = 0;
  std::string replayPath, vmsg;
  struct Fail { long caseNo, end; Outcome o; std::vector<uint64_t> tape; };
  std::vector<Fail> fails;
  std::vector<std::pair<long, long>> todo; // remainders of batches that died

  auto launch = [&](int w, long b, long e) {
    Slot *s = slots[w + 1];
    s->failed = 0;
    s->done = 0;
    s->ntape = 0;
    s->caseNo = b;
    running[w] = Run{0, b, e, b, now()};
    running[w].pid = spawn(w + 1, [&, s, b, e] {
      for (long i = b; i < e; ++i) {
        runCase(p, s, i, seed, thorough, nullptr);
        s->done = i - b + 1;
      }
    });
  };

  long wallStopped = 0;
  double replayTime = 0; // spent on failures that were not reproduced
  while (!violations) {
    // search, until the cases are used up or one fails
    double stopped = 0;
    while (true) {
      bool any = false;
      for (int w = 0; w < W; ++w) {
        if (running[w].pid == 0 && !stop) {
          if (now() - t0 - replayTime > maxWall) { if (next < ncases || !todo.empty()) wallStopped = 1; stop = true; continue; }
          if (!todo.empty()) { auto r = todo.back(); todo.pop_back(); launch(w, r.first, r.second); }
          else if (next < ncases) { long b = next, e = std::min(ncases, next + p.batch); next = e; launch(w, b, e); }
        }
        if (running[w].pid) any = true;
      }
      if (!any) break;
      bool progressed = false;
      for (int w = 0; w < W; ++w) {
        if (!running[w].pid) continue;
        Slot *s = slots[w + 1];
        int st;
        pid_t pid = running[w].pid;
        pid_t r = waitpid(pid, &st, WNOHANG);
        bool to = false, cut = false;
        if (r == 0) {
          if (s->caseNo != running[w].at) { running[w].at = s->caseNo; running[w].t0 = now(); }
          if (now() - running[w].t0 > p.timeout_s) to = true;
          else if (!fails.empty() && now() - stopped > 5) cut = true; // its remaining cases are run later, if at all
          else continue;
          kill(-pid, SIGKILL); kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
        }
        progressed = true;
        running[w].pid = 0;
        rmTree(g_scratchRoot + "/c" + std::to_string(pid));
        if (cut) { todo.push_back({running[w].at, running[w].end}); continue; }
        Outcome o = classify(w + 1, s, st, to);
        if (o.failed) {
          fails.push_back({s->caseNo, running[w].end, o, std::vector<uint64_t>(s->tape, s->tape + s->ntape)});
          if (!stop || stopped == 0) stopped = now();
          stop = true;
        }
      }
      if (!progressed) usleep(300);
    }
    if (fails.empty()) break;

    // deterministic order of treatment; hangs last, as they take long to replay
    std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) {
      bool x = a.o.kind == "timeout", y = b.o.kind == "timeout";
      return x != y ? y : a.caseNo < b.caseNo;
    });
    double treat = now();
    for (auto &f : fails) {
      Outcome o = f.o;
      std::vector<uint64_t> &tape = f.tape;
      bool hang = o.kind == "timeout";
      fprintf(stderr, "[%s/%s] case %ld failed (%s): %.1500s\n", p.id, p.part, f.caseNo, o.kind.c_str(), o.msg.c_str());
      // confirm: failing replays (a real-thread failure may need more tries)
      int bad = 0, tries = hang ? 2 : 40, need = hang ? 2 : 3;
      std::string note;
      for (int k = 0; k < tries && bad < need; ++k) {
        Outcome r = replayTape(p, tape, seed, thorough, nullptr, &note);
        if (r.failed) { ++bad; o = r; hang = hang || r.kind == "timeout"; if (r.kind == "timeout" && bad >= 2) break; }
        if (!hang && k == 12 && bad == 0) break;
        if (hang && !r.failed) break;
      }
      bool reproduced = bad >= need || (hang && bad >= 2);
      if (!reproduced) {
        ++flaky;
        if (o.kind == "check" || o.kind == "asan" || crashKind(o.kind)) ++flakyChecks;
        flakyMsgs.push_back("case " + std::to_string(f.caseNo) + " failed once (" + o.kind +
                            ") but not on replay: " + o.msg.substr(0, 400));
        // three different cases that contradicted the oracle or crashed are no accident, whatever made them hard to replay
        if (flakyChecks < 3) {
          if (f.caseNo + 1 < f.end) todo.push_back({f.caseNo + 1, f.end});
          continue;
        }
      }
      std::vector<uint64_t> small = tape;
      if (!hang && reproduced) {
        small = shrink(p, tape, seed, thorough, thorough ? 180 : 60);
        int ok = 0;
        Outcome last = o;
        for (int k = 0; k < 3; ++k) {
          Outcome r = replayTape(p, small, seed, thorough, nullptr);
          if (r.failed) { ++ok; last = r; }
        }
        if (ok < 3) small = tape; else o = last;
        replayTape(p, small, seed, thorough, nullptr, &note);
      }
      mkdir(outDir.c_str(), 0755);
      replayPath = outDir + "/" + p.id + "-" + flavour + "-" + p.part + ".replay";
      FILE *rf = fopen(replayPath.c_str(), "w");
      if (rf) {
        fprintf(rf, "property %s\npart %s\nflavour %s\nseed %llu\nthorough %d\ncase %ld\ntape %zu\n", p.id,
                p.part, flavour, (unsigned long long)seed, (int)thorough, f.caseNo, small.size());
        for (size_t i = 0; i < small.size(); ++i) fprintf(rf, "%llu%c", (unsigned long long)small[i], i % 20 == 19 ? '\n' : ' ');
        fprintf(rf, "\nkind %s\nnote %s\nmessage %s\n", o.kind.c_str(), note.c_str(), o.msg.c_str());
        for (auto &m : flakyMsgs) fprintf(rf, "also %s\n", m.c_str());
        fclose(rf);
      }
      vmsg = o.msg;
      violations++;
      fprintf(stderr, "[%s/%s] minimal: %s\n  %.2500s\n", p.id, p.part, note.c_str(), o.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", p.id, replayPath.c_str());
      fflush(stdout);
      break;
    }
    replayTime += now() - treat;
    fails.clear();
    if (flaky > 6 || replayTime > 240) break;
    stop = false;
  }

  fprintf(ev, "{\"part\":\"%s\",\"flavour\":\"%s\",\"requested\":%ld,\"evaluations\":%ld,\"nontrivial\":%ld,"
              "\"distinct_nontrivial\":%ld,\"rule\":\"%s\",\"wall_s\":%.2f,\"slowest_s\":%.2f,\"slowest_case\":%ld,\"stopped_by_time\":%ld,"
              "\"violations\":%d,\"unreproduced\":%ld,\"message\":\"%s\",\"replay\":\"%s\",\"labels\":{",
          p.part, flavour, ncases, sh->evals, sh->nontrivial, sh->distinct, jesc(p.rule).c_str(), now() - t0, sh->slowest, sh->slowestCase,
          wallStopped, violations, flaky, jesc(vmsg.substr(0, 1500)).c_str(), replayPath.c_str());
  bool first = true;
  std::map<std::string, long> lab;
  for (size_t i = 0; i < NLABEL && sh->labels[i].name[0]; ++i) lab[sh->labels[i].name] = sh->labels[i].n;
  for (auto &l : lab) { fprintf(ev, "%s\"%s\":%ld", first ? "" : ",", jesc(l.first).c_str(), l.second); first = false; }
  fprintf(ev, "},\"flaky\":[");
  for (size_t i = 0; i < flakyMsgs.size(); ++i) fprintf(ev, "%s\"%s\"", i ? "," : "", jesc(flakyMsgs[i]).c_str());
  fprintf(ev, "],\"samples\":[");
  for (int i = 0; i < sh->nsamples; ++i) fprintf(ev, "%s\"%s\"", i ? "," : "", jesc(sh->samples[i]).c_str());
  fprintf(ev, "]}\n");
  fflush(ev);
  for (auto &m : flakyMsgs) fprintf(stderr, "[%s/%s] unreproduced: %s\n", p.id, p.part, m.c_str());
  fprintf(stderr, "[%s/%s/%s] %ld cases, %ld distinct non-trivial, %.1fs%s\n", p.id, p.part, flavour, sh->evals,
          sh->distinct, now() - t0, violations ? " VIOLATION" : "");
  return violations ? 1 : 0;
}

int engineMain(int argc, char **argv) {
  std::string id, part, evPath, outDir = ".", replay;
  uint64_t seed = 1;
  bool thorough = false, list = false;
  double scale = 1, maxWall = 1e9;
  long only = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") id = val();
    else if (a == "--part") part = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--evidence") evPath = val();
    else if (a == "--out") outDir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--max-wall") maxWall = atof(val().c_str());
    else if (a == "--case") only = atol(val().c_str());
    else if (a == "--list") list = true;
  }
  if (list) {
    for (auto &p : props()) printf("%s %s %s %d %d\n", p.id, p.part, flavour, p.quick, p.thorough);
    return 0;
  }
  int maxW = 1;
  for (auto &p : props()) maxW = std::max(maxW, p.workers);
  auto shm = [](size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  sh = (Shared *)shm(sizeof(Shared));
  for (int i = 0; i <= maxW; ++i) slots.push_back((Slot *)shm(sizeof(Slot)));
  char tmpl[] = "/tmp/pbt-XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  g_scratchRoot = tmpl;
  signal(SIGPIPE, SIG_IGN);

  int rc = 0;
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 2; }
    char pid_[64], part_[64], fl[64];
    unsigned long long sd; int th; long cn; size_t n;
    if (fscanf(f, "property %63s part %63s flavour %63s seed %llu thorough %d case %ld tape %zu", pid_, part_, fl, &sd, &th, &cn, &n) != 7) return 2;
    std::vector<uint64_t> tape(n);
    for (auto &v : tape) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) return 2; v = x; }
    fclose(f);
    for (auto &p : props())
      if (!strcmp(p.id, pid_) && !strcmp(p.part, part_)) {
        std::string note;
        Outcome o = replayTape(p, tape, sd, th, nullptr, &note);
        printf("replay of %s/%s: %s\n%s\n%s\n", p.id, p.part, o.failed ? "FAILS" : "passes", note.c_str(), o.msg.c_str());
        if (o.failed) { printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str()); rc = 1; }
      }
  } else {
    FILE *ev = evPath.empty() ? fopen("/dev/null", "w") : fopen(evPath.c_str(), "w");
    bool found = false;
    for (auto &p : props()) {
      if (!id.empty() && id != p.id) continue;
      if (!part.empty() && part != p.part) continue;
      long n = thorough ? p.thorough : p.quick;
      found = true;
      if (n == 0) continue;
      n = std::max(1L, (long)(n * scale));
      if (only >= 0) {
        Slot *s = slots[0];
        s->failed = 0;
        pid_t pid = spawn(0, [&] { runCase(p, s, only, seed, thorough, nullptr); });
        int st; waitpid(pid, &st, 0);
        Outcome o = classify(0, s, st, false);
        printf("case %ld: %s\nnote: %s\n%s\n", only, o.failed ? "FAILS" : "passes", s->note, o.msg.c_str());
        continue;
      }
      if (runProperty(p, seed, thorough, n, maxWall, outDir, ev)) { rc = 1; break; }
    }
    fclose(ev);
    if (!found) { fprintf(stderr, "no such property %s in flavour %s\n", id.c_str(), flavour); rc = 3; }
  }
  rmTree(g_scratchRoot);
  return rc;
}

} // namespace pbt

int main(int argc, char **argv) { return pbt::engineMain(argc, argv); }
