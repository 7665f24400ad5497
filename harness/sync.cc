// C07: BlockingCounter and WaitForVariableChange.
#define WRAP_SCHED
#include "wrap.h"
#include <thread>
#include <memory>
#include "public/gemmlowp.h"
using namespace gemmlowp;
static std::atomic<long> g_tick(0);
static void watchdog(int limit) { long last = -1; int same = 0; for (;;) { sleep(1); long t = g_tick.load(); if (t == last) { if (++same >= limit) { vh::viol("lost-wakeup", "a wait did not return within %d s of the change", limit); _exit(1); } } else { same = 0; last = t; } } }
#ifdef __SANITIZE_THREAD__
static const int kLong = 25000;
#else
static const int kLong = 6000;
#endif
static void delay(vh::Rng& r, int kind) {  // 0 none, 1 spin, 2 within busy wait, 3 beyond busy wait
  switch (kind) { case 0: break; case 1: { int n = (int)r.range(0, 3000); for (volatile int i = 0; i < n; i++) {} break; } case 2: usleep((useconds_t)r.range(0, 400)); break; default: usleep((useconds_t)r.range(400, kLong)); }
}
// ---- counter ---------------------------------------------------------------
static void counter_case(vh::Rng& r, long i) {
  BlockingCounter c; int resets = (int)r.range(1, 4); uint64_t sig = 3;
  for (int k = 0; k < resets; k++) {
    int n = r.chance(1, 4) ? 1 : (int)r.range(1, 40), th = (int)r.range(1, n < 6 ? n : 6), waiters = r.chance(1, 5) ? 2 : 1; int kind = (int)r.range(0, 3); bool hold = r.chance(1, 3); bool zero = r.chance(1, 20);
    if (zero) { c.Reset(0); c.Wait(); vh::stat_add("counter_waits", 1); g_tick++; }
    vh::set_case("counter i=%ld n=%d threads=%d waiters=%d delay=%d hold=%d", i, n, th, waiters, kind, hold); sig = vh::mix(sig, n * 1000 + th * 100 + waiters * 10 + kind);
    std::vector<long> effect(n, 0); std::atomic<int> before(0), trues(0), ret(0); std::atomic<int> go(0); std::atomic<int> bad(0);
    c.Reset(n);
    std::vector<std::thread> ts; std::atomic<int> next(0); std::vector<uint64_t> seeds; for (int t = 0; t < th + waiters; t++) seeds.push_back(r.next());
    for (int w = 0; w < waiters; w++) ts.push_back(std::thread([&, w]() {
      vh::Rng q(seeds[th + w]); if (q.chance(1, 2)) while (!go.load(std::memory_order_relaxed)) sched_yield();
      c.Wait();
      if (before.load(std::memory_order_relaxed) != n) vh::viol("wait-returned-early", "after %d of %d decrements", before.load(), n);
      for (int x = 0; x < n; x++) if (effect[x] != x * 7 + n) { vh::viol("effect-not-visible", "work %d of %d done before its decrement is not visible after the wait", x, n); break; }
      ret++;
    }));
    int last = hold ? n - 1 : n;
    for (int t = 0; t < th; t++) ts.push_back(std::thread([&, t]() {
      vh::Rng q(seeds[t]); go = 1;
      for (;;) { int x = next.fetch_add(1, std::memory_order_relaxed); if (x >= last) return; delay(q, kind == 3 && q.chance(3, 4) ? 1 : kind); effect[x] = x * 7 + n; before.fetch_add(1, std::memory_order_relaxed); if (c.DecrementCount()) { trues++; if (hold) vh::viol("zero-reported-early", "decrement reported zero with one outstanding of %d", n); } }
    }));
    if (hold) {
      for (size_t t = waiters; t < ts.size(); t++) ts[t].join();
      usleep((useconds_t)r.range(0, 4000));
      if (ret.load()) vh::viol("wait-returned-early", "with one decrement of %d outstanding", n);
      effect[last] = last * 7 + n; before.fetch_add(1, std::memory_order_relaxed); if (c.DecrementCount()) trues++; else vh::viol("zero-not-reported", "the last of %d decrements returned false", n);
    } else for (size_t t = waiters; t < ts.size(); t++) ts[t].join();
    for (int w = 0; w < waiters; w++) ts[w].join();
    if (trues != 1) vh::viol("zero-report-count", "%d decrements of %d reported reaching zero", trues.load(), n);
    vh::stat_add("counter_waits", waiters); vh::stat_add("decrements", n); g_tick++;
  }
  vh::distinct("cases", sig);
}
// ---- variable --------------------------------------------------------------
template <typename V> struct Var { std::atomic<V> v; pthread_cond_t cond; pthread_mutex_t mu; };
template <typename V> static void var_case(vh::Rng& r, long i, V values[4]) {
  std::unique_ptr<Var<V> > x(new Var<V>); pthread_cond_init(&x->cond, 0); pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, PTHREAD_MUTEX_ERRORCHECK); pthread_mutex_init(&x->mu, &at);
  V init = values[0]; x->v = init; int kind = (int)r.range(0, 3), changes = (int)r.range(1, 3), noise = r.chance(1, 2) ? (int)r.range(1, 6) : 0; bool back = r.chance(1, 5); int waiters = r.chance(1, 4) ? 2 : 1;
  vh::set_case("variable i=%ld delay=%d changes=%d noise=%d back=%d waiters=%d jitter=%d spurious=%d", i, kind, changes, noise, back, waiters, wrap::jitter().load(), wrap::spurious().load());
  uint64_t s1 = r.next(); std::atomic<int> changed(0), returned(0); std::vector<std::thread> ts; std::atomic<int> started(0); V got[2]; int wd = (int)r.range(0, 2); uint64_t s2 = r.next();
  for (int w = 0; w < waiters; w++) ts.push_back(std::thread([&, w]() {
    vh::Rng q(s2 + w); if (wd) delay(q, wd); started++;
    got[w] = WaitForVariableChange(&x->v, init, &x->cond, &x->mu);
    if (!changed.load()) vh::viol("invented-change", "the wait returned before any change");
    if (got[w] == init) vh::viol("returned-initial-value", "");
    bool known = false; for (int z = 1; z <= changes; z++) known |= got[w] == values[z];
    if (!known) vh::viol("returned-value-never-taken", "%lld", (long long)got[w]);
#ifndef __SANITIZE_THREAD__
    int e = __real_pthread_mutex_unlock(&x->mu);  // error-checking mutex: must not be ours any more
    if (e == 0) vh::viol("mutex-left-locked", "");
#endif
    returned++;
  }));
  ts.push_back(std::thread([&]() {
    vh::Rng q(s1); delay(q, kind);
    for (int z = 0; z < noise; z++) { __real_pthread_mutex_lock(&x->mu); pthread_cond_broadcast(&x->cond); __real_pthread_mutex_unlock(&x->mu); delay(q, (int)q.range(0, 2)); }
    if (back) {  // away and back: may or may not be noticed
      changed = 1; __real_pthread_mutex_lock(&x->mu); x->v.store(values[1]); pthread_cond_broadcast(&x->cond); __real_pthread_mutex_unlock(&x->mu); delay(q, (int)q.range(0, 1));
      __real_pthread_mutex_lock(&x->mu); x->v.store(init); pthread_cond_broadcast(&x->cond); __real_pthread_mutex_unlock(&x->mu); delay(q, (int)q.range(0, 3));
    }
    for (int z = 1; z <= changes; z++) { changed = 1; __real_pthread_mutex_lock(&x->mu); x->v.store(values[z]); pthread_cond_broadcast(&x->cond); __real_pthread_mutex_unlock(&x->mu); delay(q, (int)q.range(0, 2)); }
  }));
  for (auto& t : ts) t.join();
  g_tick++;
  if (returned != waiters) vh::viol("wait-did-not-return", "");
  if (pthread_mutex_trylock(&x->mu)) vh::viol("mutex-left-locked", "after all threads ended"); else __real_pthread_mutex_unlock(&x->mu);
  vh::stat_add("variable_waits", waiters); vh::distinct("cases", vh::mix(kind * 64 + changes * 16 + noise, back * 8 + waiters * 2 + wd + sizeof(V) * 100));
}
enum class E8 : int { A, B, C, D };
int main(int argc, char** argv) {
  vh::Args a(argc, argv); wrap::jseed() = a.seed * 999; std::thread(watchdog, (int)a.num("limit", 60)).detach();
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    vh::Rng r(vh::mix(a.seed, i)); wrap::jitter() = (int)r.range(0, 3); wrap::spurious() = r.chance(1, 2) ? (int)r.range(1, 4) : 0; if (wrap::spurious() == 1) wrap::spurious() = 2;
    switch (i % 3) {
      case 0: counter_case(r, i); break;
      case 1: { int v[4] = {0, 1, -1, (int)r.u32() | 1}; if (r.chance(1, 2)) { v[0] = 5; v[1] = 0; v[2] = 6; v[3] = -5; } var_case<int>(r, i, v); break; }
      default: { E8 v[4] = {E8::B, E8::C, E8::D, E8::A}; if (r.chance(1, 2)) { uint64_t u[4] = {0, 1ull << 32, 1ull << 63, 3}; var_case<uint64_t>(r, i, u); } else var_case<E8>(r, i, v); }
    }
    if (i % 50 == 2) vh::sample("%s", vh::st().cur);
  }
#if __SIZEOF_SIZE_T__ == 8
  { BlockingCounter* big = new BlockingCounter; big->Reset((1ull << 32) + 1); if (big->DecrementCount()) vh::viol("zero-reported-early", "counter of 2^32+1 reported zero after one decrement"); vh::stat_add("decrements", 1); }
#endif
  vh::stat_add("injected_delays", wrap::jcount()); vh::stat_add("spurious_wakeups_injected", wrap::spurious_count()); vh::stat_add("condition_waits", wrap::cond_waits());
  int rc = vh::done(); _exit(rc);
}
