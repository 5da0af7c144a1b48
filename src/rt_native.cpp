#include "rt.hpp"
#include <omp.h>
#include <cstring>
#include <sched.h>
namespace pbt { const char *flavour = "native"; }
static volatile int g_fill = 0xBE;
static volatile bool g_fillOn = false;
extern "C" void __sanitizer_malloc_hook(const volatile void *p, size_t n) {
  if (g_fillOn && p && n < (64u << 20)) memset((void *)p, g_fill, n);
}
extern "C" void __sanitizer_free_hook(const volatile void *) {}
namespace rt {
const bool isFiber = false;
const int maxThreadsHint = 4;
static const int fills[] = {0x00, 0xff, 0xbe, 0x01, 0x7f};
static __attribute__((noinline, no_sanitize_address)) void fillStack(int b) {
  volatile char a[65536];
  memset((void *)a, b, sizeof a);
  asm volatile("" : : "r"(a) : "memory");
}
int begin(pbt::Ctx &c, int maxThreads) {
  if (maxThreads > maxThreadsHint) maxThreads = maxThreadsHint;
  int n = c.range(1, maxThreads);
  g_fill = fills[c.draw(4)];
  g_fillOn = true;
  fillStack(g_fill);
  omp_set_dynamic(0);
  omp_set_num_threads(n);
  return n;
}
void setThreads(int n) { omp_set_num_threads(n); }
void quiet(bool) {}
unsigned long long switches() { return 0; }
} // namespace rt
