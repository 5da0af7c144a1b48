// Small property-based testing engine.
//
// A test case is a pure function of a "tape": the sequence of bounded integers
// it drew.  Fresh cases draw from a PRNG seeded by (VERIF_SEED, property, case
// number); replayed and shrunk cases read the tape (clipped, zero padded).
// Every case runs in a forked child, so crashes, sanitizer reports, aborts and
// hangs of the code under test are attributed to the case and shrunk like any
// other failure.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <string>
#include <vector>

namespace pbt {

struct Slot;
struct Ctx {
  // ---- drawing -------------------------------------------------------
  uint64_t draw(uint64_t bound);                 // uniform in [0, bound]
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
  bool flip() { return draw(1) != 0; }
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; } // shrinks to false
  // skewed size: small values are frequent, hi stays reachable
  int size(int lo, int hi);
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  uint64_t seed64() { return draw(~0ull); }

  // ---- reporting -----------------------------------------------------
  void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial() { nt = true; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // becomes the sample text
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

  bool thorough = false;
  // internals
  bool nt = false;
  bool replay = false;
  uint64_t rng[2];
  const uint64_t *in = nullptr;
  size_t nin = 0, pos = 0;
  Slot *slot = nullptr;
};

#define CHECK(c, cond, ...)                 \
  do {                                      \
    if (!(cond)) (c).fail(__VA_ARGS__);     \
  } while (0)

struct Property {
  const char *id;
  const char *part;       // name of the sub-check, for evidence
  void (*fn)(Ctx &);
  int quick, thorough;    // number of cases per tier, 0 = not run in this flavour
  int workers;            // concurrent children
  int batch;              // cases per child (isolation vs speed)
  int timeout_s;          // per-batch wall limit; exceeding it 3x in a row is a hang
  const char *rule;       // non-triviality rule
};

void registerProperty(const Property &p);
struct Registrar { Registrar(const Property &p) { registerProperty(p); } };
extern const char *flavour;

int engineMain(int argc, char **argv);

// helper: a private scratch directory for the current case (removed afterwards)
std::string scratchDir();

} // namespace pbt
