// Shared harness support: deterministic RNG, violation/evidence reporting,
// guarded buffers.  Output protocol on stdout, one line each:
//   VIOL <key> <free text>      a property violation
//   STAT <name> <integer>       a counter measured on this run (summed)
//   DIST <class> <integer>      number of distinct signatures seen (summed)
//   SAMPLE <free text>          an actual case of this run
//   DONE                        harness reached its end
#ifndef VH_H_
#define VH_H_
#ifdef VH_MINI
#include "vh_mini.h"
#else
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return (uint32_t)(next() >> 32); }
  // inclusive range
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(int num, int den) { return (int)(next() % den) < num; }
  template <typename T, size_t N> T pick(const T (&a)[N]) { return a[next() % N]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 1000003ull + b);
  return r.next();
}

// ---- reporting -----------------------------------------------------------
struct State {
  pthread_mutex_t mu;
  std::map<std::string, long long> stats;
  std::map<std::string, std::set<uint64_t> > distinct;
  std::map<std::string, int> perkey;
  int viols, samples;
  char cur[1024];
  State() : viols(0), samples(0) { pthread_mutex_init(&mu, 0); cur[0] = 0; }
};
inline State& st() { static State* s = new State; return *s; }

// A tick on stdout every few seconds of progress; its absence is what the driver calls a hang.
inline void tick() {
  static std::atomic<long> last(0);
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  long l = last.load(std::memory_order_relaxed);
  if (t.tv_sec >= l + 4 && last.compare_exchange_strong(l, (long)t.tv_sec, std::memory_order_relaxed) && l) { ssize_t w = write(1, "TICK\n", 5); (void)w; }
}
inline void set_case(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(st().cur, sizeof(st().cur), fmt, ap);
  va_end(ap);
  tick();
}
inline void finish(bool ok);
inline void viol(const char* key, const char* fmt, ...) {
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  pthread_mutex_lock(&st().mu);
  int n = ++st().viols;
  int per = ++st().perkey[key];
  if (per <= 3) { printf("VIOL %s %s | case: %s\n", key, buf, st().cur); fflush(stdout); }
  pthread_mutex_unlock(&st().mu);
  if (n >= 3000) { printf("STAT aborted_after_many_violations 1\n"); fflush(stdout); _exit(1); }
}
inline void stat_add(const char* k, long long n) {
  tick();
  pthread_mutex_lock(&st().mu); st().stats[k] += n; pthread_mutex_unlock(&st().mu);
}
inline void distinct(const char* cls, uint64_t h) {
  tick();
  pthread_mutex_lock(&st().mu); st().distinct[cls].insert(h); pthread_mutex_unlock(&st().mu);
}
inline void sample(const char* fmt, ...) {
  if (st().samples >= 4) return;
  st().samples++;
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  printf("SAMPLE %s\n", buf);
}
inline int done() {
  for (auto& kv : st().stats) printf("STAT %s %lld\n", kv.first.c_str(), kv.second);
  for (auto& kv : st().distinct) printf("DIST %s %lld\n", kv.first.c_str(), (long long)kv.second.size());
  printf("STAT violations_raw %d\n", st().viols);
  printf("DONE\n");
  fflush(stdout);
  return st().viols ? 1 : 0;
}

// Fatal signals become violations that name the running case.
inline void on_signal(int sig, siginfo_t* si, void*) {
  char buf[1400];
  int n = snprintf(buf, sizeof(buf), "VIOL crash-signal-%d fault address %p | case: %s\n", sig,
                   si ? si->si_addr : 0, st().cur);
  if (n > 0) { ssize_t w = write(1, buf, n < (int)sizeof(buf) ? n : (int)sizeof(buf) - 1); (void)w; }
  _exit(1);
}
inline void install_signals() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VH_NO_SIGNALS)
  static char* alt = (char*)malloc(1 << 17);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 17;
  sigaltstack(&ss, 0);
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (int s : sigs) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(s, &sa, 0);
  }
#endif
}

struct Args {
  uint64_t seed; long cases; long only; std::map<std::string, std::string> kv;
  Args(int argc, char** argv) : seed(1), cases(100), only(-1) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      size_t e = a.find('=');
      if (e == std::string::npos) continue;
      kv[a.substr(0, e)] = a.substr(e + 1);
    }
    if (kv.count("seed")) seed = strtoull(kv["seed"].c_str(), 0, 10);
    if (kv.count("cases")) cases = atol(kv["cases"].c_str());
    if (kv.count("only")) only = atol(kv["only"].c_str());
    setvbuf(stdout, 0, _IOLBF, 0);
    install_signals();
  }
  long num(const char* k, long d) { return kv.count(k) ? atol(kv[k].c_str()) : d; }
  std::string str(const char* k, const char* d) { return kv.count(k) ? kv[k] : std::string(d); }
};

}  // namespace vh
#include "vh_guard.h"
#endif  // VH_MINI
#endif
