// C06: trace specification of the worker pool.
#define WRAP_SCHED
#include "wrap.h"
#include <dirent.h>
#include <thread>
#include <memory>
#include "public/gemmlowp.h"
using namespace gemmlowp;
struct Rec { std::atomic<int> runs, done, destroyed; long plain; Allocator* alloc; std::atomic<int> late; pthread_t on; int check; Rec() : runs(0), done(0), destroyed(0), plain(0), alloc(0), late(0), check(0) {} };
struct Batch { std::vector<std::unique_ptr<Rec> > recs; std::atomic<int> open; std::atomic<int> running, maxrun; pthread_mutex_t mu; std::map<Allocator*, int> inuse; long shared_in; Batch() : open(1), running(0), maxrun(0), shared_in(0) { pthread_mutex_init(&mu, 0); } };
static std::atomic<long> g_runs(0), g_ooo(0);
struct T : Task {
  Rec* rec; Batch* b; int dur; uint64_t seed; int idx; const long* in;
  T() : rec(0), b(0), dur(0), seed(0), idx(0), in(0) {}
  ~T() { if (rec) rec->destroyed++; }
  void Run() override {
    g_runs++;
    if (rec->runs.fetch_add(1) != 0) vh::viol("task-run-twice", "task %d", idx);
    if (!b->open.load()) vh::viol("task-ran-after-return", "task %d", idx);
    int n = b->running.fetch_add(1) + 1; int m = b->maxrun.load(); while (n > m && !b->maxrun.compare_exchange_weak(m, n)) {}
    Allocator* al = local_allocator; rec->alloc = al; rec->on = pthread_self();
    if (!al) vh::viol("no-scratch", "task %d has no allocator", idx);
    else {
      __real_pthread_mutex_lock(&b->mu); if (b->inuse[al]++) vh::viol("scratch-shared", "task %d got scratch storage another running task uses", idx); __real_pthread_mutex_unlock(&b->mu);
      vh::Rng r(seed); size_t sz = (size_t)r.range(1, 5000);
      auto h1 = al->Reserve<uint8_t>(sz); auto h2 = al->Reserve<int32_t>(sz / 4 + 1); al->Commit();
      uint8_t* p = al->GetPointer<uint8_t>(h1); int32_t* q = al->GetPointer<int32_t>(h2);
      for (size_t i = 0; i < sz; i++) p[i] = (uint8_t)(seed + i); for (size_t i = 0; i <= sz / 4; i++) q[i] = (int32_t)(seed * 3 + i);
      if (dur > 0) { struct timespec t = {0, dur * 1000l}; nanosleep(&t, 0); } else if (dur < 0) { for (volatile int i = 0; i < -dur * 100; i++) {} }
      for (size_t i = 0; i < sz; i++) if (p[i] != (uint8_t)(seed + i)) { vh::viol("scratch-overwritten", "task %d", idx); break; }
      for (size_t i = 0; i <= sz / 4; i++) if (q[i] != (int32_t)(seed * 3 + i)) { vh::viol("scratch-overwritten", "task %d", idx); break; }
      al->Decommit();
      __real_pthread_mutex_lock(&b->mu); b->inuse[al]--; __real_pthread_mutex_unlock(&b->mu);
    }
    rec->plain = *in * 31 + idx;  // read the caller's data, leave a plain effect for the caller
    if (!b->open.load()) vh::viol("returned-before-finish", "task %d was still running", idx);
    b->running--; rec->done.store(1, std::memory_order_relaxed);
  }
};
static int threads_now() { int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static std::atomic<long> g_tick(0);
static void watchdog(int limit) { long last = -1; int same = 0; for (;;) { sleep(1); long t = g_tick.load(); if (t == last) { if (++same >= limit) { vh::viol("hang", "no batch completed for %d s", limit); _exit(1); } } else { same = 0; last = t; } } }

int main(int argc, char** argv) {
  vh::Args a(argc, argv); wrap::jseed() = a.seed * 4242; long limit = a.num("limit", 60);
  std::thread(watchdog, (int)limit).detach();
  usleep(2000); int base = threads_now();
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    vh::Rng r(vh::mix(a.seed, i)); int batches = (int)r.range(0, 12); uint64_t sig = 7;
    {
      WorkersPool pool; int grown = 0; bool idle_mode = r.chance(1, 6); if (idle_mode) batches = (int)r.range(0, 3);
      wrap::spurious() = r.chance(1, 2) ? (int)r.range(2, 5) : 0;
      long callerdata = 0;
      for (int b = 0; b < batches; b++) {
        int n; switch (r.range(0, 4)) { case 0: n = 1; break; case 1: n = (int)r.range(2, 3); break; case 2: n = grown + 1 + (int)r.range(0, 2); break; default: n = (int)r.range(1, 12); } if (n > 16) n = 16; if (n > grown) grown = n;
        wrap::jitter() = (int)r.range(0, 3); if (idle_mode && wrap::jitter() == 0) wrap::jitter() = 1;
        Batch bt; bool legacy = r.chance(1, 2); int form = (int)r.range(0, 1); callerdata = (long)(r.next() >> 20); sig = vh::mix(sig, n * 4 + legacy * 2 + form);
        for (int t = 0; t < n; t++) bt.recs.push_back(std::unique_ptr<Rec>(new Rec));
        std::vector<Task*> ptrs; std::unique_ptr<T[]> arr; if (!legacy) arr.reset(new T[n]);
        for (int t = 0; t < n; t++) {
          T* k = legacy ? new T : &arr[t]; k->rec = bt.recs[t].get(); k->b = &bt; k->idx = t; k->seed = r.next(); k->in = &callerdata;
          switch (r.range(0, 5)) { case 0: k->dur = (int)r.range(1, 300); break; case 1: k->dur = -(int)r.range(1, 200); break; case 2: k->dur = r.chance(1, 20) ? 4000 : 20; break; default: k->dur = 0; }
          if (legacy) ptrs.push_back(k);
        }
        vh::set_case("seed=%llu i=%ld batch %d of %d: %d tasks, %s, jitter %d, spurious 1/%d", (unsigned long long)a.seed, i, b, batches, n, legacy ? "vector" : "array", wrap::jitter().load(), wrap::spurious().load());
        if (legacy) { if (form) pool.Execute(ptrs); else pool.LegacyExecuteAndDestroyTasks(ptrs); } else pool.Execute(n, arr.get());
        bt.open = 0; g_tick++;
        std::set<Allocator*> als;
        for (int t = 0; t < n; t++) {
          Rec& k = *bt.recs[t];
          if (k.runs != 1) vh::viol("task-run-count", "task %d of %d ran %d times", t, n, k.runs.load());
          if (!k.done.load(std::memory_order_relaxed)) vh::viol("returned-before-finish", "task %d of %d not finished at return", t, n);
          else if (k.plain != callerdata * 31 + t) vh::viol("effect-lost", "task %d", t);
          if (legacy && k.destroyed != 1) vh::viol("task-destroy-count", "task %d destroyed %d times", t, k.destroyed.load());
          if (!legacy && k.destroyed != 0) vh::viol("task-destroy-count", "array task %d destroyed by the pool", t);
          als.insert(k.alloc);
        }
        vh::stat_add("tasks_run", n); vh::stat_add("batches", 1); if (bt.maxrun > 1) vh::stat_add("batches_with_overlapping_tasks", 1);
        // sometimes let the workers fall asleep before the next batch or destruction
        if (idle_mode || r.chance(1, 10)) usleep((useconds_t)r.range(0, 3000));
      }
      vh::set_case("seed=%llu i=%ld destroying the pool after %d batches", (unsigned long long)a.seed, i, batches);
    }
    g_tick++;
    int now = threads_now(); for (int w = 0; w < 200 && now != base; w++) { usleep(1000); now = threads_now(); }
    if (base > 0 && now > base) vh::viol("threads-left", "%d threads after destroying the pool, %d before", now, base);
    vh::stat_add("pools", 1); vh::distinct("cases", sig);
    if (i % 31 == 2) vh::sample("pool with %d batches", batches);
  }
  long tr = g_runs.load(); if (tr != vh::st().stats["tasks_run"]) vh::viol("task-run-count", "%ld runs for %lld tasks", tr, vh::st().stats["tasks_run"]);
  vh::stat_add("injected_delays", wrap::jcount()); vh::stat_add("spurious_wakeups_injected", wrap::spurious_count()); vh::stat_add("condition_waits", wrap::cond_waits());
  int rc = vh::done(); _exit(rc);
}
