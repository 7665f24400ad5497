// Link-time interposition (-Wl,--wrap=...) of the scratch allocation and of
// the pthread calls made by the code under test.
#ifndef WRAP_H_
#define WRAP_H_
#include "vh.h"
#include <errno.h>
#include <sched.h>
#include <time.h>
#include <atomic>
#ifndef WRAP_SCHED
#define __real_pthread_mutex_lock pthread_mutex_lock
#define __real_pthread_mutex_unlock pthread_mutex_unlock
#endif
#ifndef WRAP_ALLOC
#define __real_posix_memalign posix_memalign
#define __real_free free
#endif
extern "C" {
#ifdef WRAP_ALLOC
int __real_posix_memalign(void**, size_t, size_t);
void* __real_memalign(size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void __real_free(void*);
#endif
#ifdef WRAP_SCHED
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
#endif
}
namespace wrap {
// ---- scratch --------------------------------------------------------------
struct Block { void* p; size_t n; char* base; size_t total; };
struct Reg {
  pthread_mutex_t mu; std::map<void*, Block> live; long allocs, frees, failed; long fail_at; bool fail_once; size_t bytes, peak; int guard; uint64_t fill; size_t max_align;
  long creates, joins, create_fail_at;
  Reg() : allocs(0), frees(0), failed(0), fail_at(-1), fail_once(false), bytes(0), peak(0), guard(0), fill(0), max_align(0), creates(0), joins(0), create_fail_at(-1) { pthread_mutex_init(&mu, 0); }
};
inline Reg& reg() { static Reg* r = new Reg; return *r; }
inline void lock() { __real_pthread_mutex_lock(&reg().mu); }
inline void unlock() { __real_pthread_mutex_unlock(&reg().mu); }
inline void fill_random(void* p, size_t n, uint64_t seed) {
  vh::Rng r(seed); unsigned char* q = (unsigned char*)p; size_t i = 0;
  int mode = (int)(seed % 4);
  if (mode == 1) { memset(p, 0xff, n); return; }
  if (mode == 2) { memset(p, 0x80, n); return; }
  for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(q + i, &v, 8); }
  for (; i < n; i++) q[i] = (unsigned char)r.next();
}
// Overwrites all live scratch; only while no product runs.
inline void poison_live(uint64_t seed) { lock(); for (auto& kv : reg().live) fill_random(kv.second.p, kv.second.n, seed++); unlock(); }
inline void* allocate(size_t align, size_t n) {
  Reg& r = reg(); lock();
  long idx = r.allocs++; if (align > r.max_align) r.max_align = align;
  if (r.fail_at >= 0 && (r.fail_once ? idx == r.fail_at : idx >= r.fail_at)) { r.failed++; unlock(); return 0; }
  Block b; b.n = n; b.base = 0; b.total = 0; int guard = r.guard; uint64_t fill = r.fill ? r.fill++ : 0; unlock();
  if (guard) {
    size_t pg = 4096, span = (n + pg - 1) / pg * pg; if (!span) span = pg;
    b.total = span + 2 * pg;
    b.base = (char*)mmap(0, b.total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b.base == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(b.base, pg, PROT_NONE); mprotect(b.base + pg + span, pg, PROT_NONE);
    b.p = guard == 1 ? b.base + pg + (span - n) / align * align : b.base + pg;
  } else if (__real_posix_memalign(&b.p, align, n)) return 0;
  if (fill) fill_random(b.p, n, fill);
  lock(); r.live[b.p] = b; r.bytes += n; if (r.bytes > r.peak) r.peak = r.bytes; unlock();
  return b.p;
}
// true when p was ours
inline bool release(void* p) {
  if (!p) return false;
  lock(); Reg& r = reg(); auto it = r.live.find(p); if (it == r.live.end()) { unlock(); return false; }
  Block b = it->second; r.live.erase(it); r.frees++; r.bytes -= b.n; unlock();
  if (b.base) munmap(b.base, b.total); else __real_free(p);
  return true;
}
// ---- scheduling -----------------------------------------------------------
inline std::atomic<int>& jitter() { static std::atomic<int> j(0); return j; }      // 0 off, 1..3 strength
inline std::atomic<uint64_t>& jseed() { static std::atomic<uint64_t> j(1); return j; }
inline std::atomic<long>& jcount() { static std::atomic<long> j(0); return j; }
inline std::atomic<int>& spurious() { static std::atomic<int> s(0); return s; }    // 1/n chance of a spurious wake-up
inline std::atomic<long>& spurious_count() { static std::atomic<long> s(0); return s; }
inline std::atomic<long>& cond_waits() { static std::atomic<long> s(0); return s; }
inline std::atomic<long>& cond_signals() { static std::atomic<long> s(0); return s; }
inline vh::Rng& trng() { static thread_local vh::Rng r(jseed().fetch_add(1, std::memory_order_relaxed)); return r; }
inline void pause(const char*) {
  int j = jitter().load(std::memory_order_relaxed); if (!j) return;
  vh::Rng& r = trng(); uint32_t x = r.u32() % 16;
  if (x < 8) return;
  jcount().fetch_add(1, std::memory_order_relaxed);
  if (x < 11) { for (volatile int i = 0; i < (int)(r.u32() % 400); i++) {} }
  else if (x < 14 || j < 2) sched_yield();
  else { struct timespec t = {0, (long)(r.u32() % (j == 2 ? 60000 : 400000))}; nanosleep(&t, 0); }
}
}  // namespace wrap
extern "C" {
#ifdef WRAP_ALLOC
int __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = wrap::allocate(al, n); if (!p) return ENOMEM; *out = p; return 0; }
void* __wrap_memalign(size_t al, size_t n) { return wrap::allocate(al, n); }
void* __wrap_aligned_alloc(size_t al, size_t n) { return wrap::allocate(al, n); }
void __wrap_free(void* p) { if (!wrap::release(p)) __real_free(p); }
#endif
#ifdef WRAP_SCHED
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { wrap::pause("lock"); int r = __real_pthread_mutex_lock(m); wrap::pause("locked"); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { wrap::pause("unlock"); int r = __real_pthread_mutex_unlock(m); wrap::pause("unlocked"); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  wrap::cond_waits()++; wrap::pause("wait"); int s = wrap::spurious().load();
  if (s && wrap::trng().u32() % s == 0) { wrap::spurious_count()++; __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; }
  int r = __real_pthread_cond_wait(c, m); wrap::pause("woken"); return r;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { wrap::cond_signals()++; wrap::pause("broadcast"); int r = __real_pthread_cond_broadcast(c); wrap::pause("broadcasted"); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { wrap::cond_signals()++; wrap::pause("signal"); int r = __real_pthread_cond_signal(c); wrap::pause("signaled"); return r; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  wrap::pause("create"); wrap::lock(); long i = wrap::reg().creates++; bool fail = wrap::reg().create_fail_at >= 0 && i >= wrap::reg().create_fail_at; wrap::unlock();
  if (fail) return EAGAIN;
  int r = __real_pthread_create(t, a, f, x); wrap::pause("created"); return r;
}
int __wrap_pthread_join(pthread_t t, void** v) { wrap::pause("join"); wrap::lock(); wrap::reg().joins++; wrap::unlock(); return __real_pthread_join(t, v); }
#endif
}
#endif
