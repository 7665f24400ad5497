// The part of vh.h that needs no C library, for targets that have none here (WebAssembly, MIPS): same protocol on stdout,
// written through rt_write.  mini_rt.cc provides the few runtime functions the compiler and the headers refer to.
#ifndef VH_MINI_H_
#define VH_MINI_H_
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#ifndef __wasm__
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#endif
extern "C" { void rt_write(const char* p, int n); void rt_exit(int c); int rt_vfmt(char* o, int cap, const char* f, va_list ap); }
namespace vh {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t u32() { return (uint32_t)(next() >> 32); }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
  template <typename T, size_t N> T pick(const T (&a)[N]) { return a[next() % N]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ull + b); return r.next(); }
struct Stat { char k[64]; long long n; };
static Stat g_stat[64]; static int g_nstat, g_viols, g_samples; static char g_case[512]; static uint64_t g_seen[1 << 16]; static long long g_ndist; static long g_ticks;
static void line(const char* fmt, ...) { char b[1600]; va_list ap; va_start(ap, fmt); int n = rt_vfmt(b, sizeof b - 1, fmt, ap); va_end(ap); b[n] = '\n'; rt_write(b, n + 1); }
static void set_case(const char* fmt, ...) { va_list ap; va_start(ap, fmt); rt_vfmt(g_case, sizeof g_case, fmt, ap); va_end(ap); if (++g_ticks % 20000 == 0) line("TICK"); }
static void viol(const char* key, const char* fmt, ...) {
  char b[1000]; va_list ap; va_start(ap, fmt); rt_vfmt(b, sizeof b, fmt, ap); va_end(ap);
  if (++g_viols <= 20) line("VIOL %s %s | case: %s", key, b, g_case);
  if (g_viols >= 3000) { line("STAT aborted_after_many_violations 1"); rt_exit(1); }
}
static void stat_add(const char* k, long long n) {
  for (int i = 0; i < g_nstat; i++) if (!strcmp(g_stat[i].k, k)) { g_stat[i].n += n; return; }
  if (g_nstat < 64) { size_t l = strlen(k); if (l > 63) l = 63; memcpy(g_stat[g_nstat].k, k, l); g_stat[g_nstat].k[l] = 0; g_stat[g_nstat++].n = n; }
}
static void distinct(const char* cls, uint64_t h) { if (strcmp(cls, "cases")) return; h |= 1; size_t i = (size_t)(h >> 20) & 65535; for (int q = 0; q < 8; q++, i = (i + 1) & 65535) { if (g_seen[i] == h) return; if (!g_seen[i]) { g_seen[i] = h; g_ndist++; return; } } }
static void sample(const char* fmt, ...) { if (g_samples++ >= 4) return; char b[1000]; va_list ap; va_start(ap, fmt); rt_vfmt(b, sizeof b, fmt, ap); va_end(ap); line("SAMPLE %s", b); }
static int done() {
  for (int i = 0; i < g_nstat; i++) line("STAT %s %lld", g_stat[i].k, g_stat[i].n);
  line("DIST cases %lld", g_ndist); line("STAT violations_raw %d", g_viols); line("DONE"); return g_viols ? 1 : 0;
}
struct Args { uint64_t seed; long cases, only; int argc; char** argv;
  Args(int c, char** v) : argc(c), argv(v) { seed = (uint64_t)num("seed", 1); cases = num("cases", 100); only = num("only", -1); }
  long num(const char* k, long d) const { size_t l = strlen(k); for (int i = 1; i < argc; i++) if (!strncmp(argv[i], k, l) && argv[i][l] == '=') { const char* p = argv[i] + l + 1; bool m = *p == '-'; if (m) p++; long x = 0; while (*p >= '0' && *p <= '9') x = x * 10 + (*p++ - '0'); return m ? -x : x; } return d; } };
}  // namespace vh
#ifndef __wasm__
#include "vh_guard.h"
#endif
#endif
