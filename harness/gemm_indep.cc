// C03: the same product gives the same bits on every context, thread count,
// cache tuning, scratch content, history and schedule.
#define WRAP_ALLOC
#define WRAP_SCHED
#include "wrap.h"
#define ONLY_OFF01
#include "pipes.h"
using namespace gc;

static const int kCtx = 4;
int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  long mac = a.num("mac", 2500000); int jit = (int)a.num("jitter", 2);
  wrap::reg().fill = 1; wrap::jseed() = a.seed * 1000;
  GemmContext* ctx[kCtx]; for (int i = 0; i < kCtx; i++) ctx[i] = new GemmContext;
  long hist[kCtx]; memset(hist, 0, sizeof hist);
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 211 + BD, i));
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
    int id = pick_pipe(r);
    if (r.chance(1, 8)) {  // enough rows for many threads
      c.m = (int)r.range(300, 1500); c.n = (int)r.range(4, 40); long kk = mac / ((long)c.m * c.n); c.k = (int)r.range(kk < 140 ? kk / 2 + 1 : 60, kk < 140 ? kk + 1 : 140);
      if (r.chance(1, 2)) std::swap(c.m, c.n);
    } else if (r.chance(1, 2)) {  // enough work for several threads
      for (int t = 0; t < 100; t++) { c.m = (int)r.range(20, 420); c.n = (int)r.range(1, 330); c.k = (int)r.range(8, 420); long w = (long)c.m * c.n * c.k; if (w > 131072 && w <= mac) break; }
      if ((long)c.m * c.n * c.k > mac) { c.m = 90; c.n = 60; c.k = 100; }
    } else gen_shape(r, &c, mac);
    gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, id);
    gen_offsets(r, &c, 2); c.threads = 1; c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    Problem<InT> p; p.fill(c, 0);
    PipeParams q; q.gen(r, c.m, c.n, acc_bound(c), 1);
    std::vector<int32_t> want, got;
    vh::set_case("i=%ld pipeline=%s baseline %s", i, pipe_name(id), c.str().c_str());
    {
      wrap::jitter() = 0;
      GemmContext fresh; AnyOut o; o.init(pipe_type(id), c, 0, 0x33);
      run_pipe(id, &fresh, p, q, &o); o.values(&want);
    }
    int nv = (int)r.range(2, 5);
    for (int v = 0; v < nv; v++) {
      Case d = c; gen_ctx(r, &d, false);
      static const int th[] = {1, 2, 3, 4, 5, 7, 8, 0, 13, 24, 40}; d.threads = r.pick(th);
      int which = (int)r.range(0, kCtx - 1);
      if (r.chance(1, 25)) { delete ctx[which]; ctx[which] = new GemmContext; hist[which] = 0; }
      if (r.chance(2, 3)) wrap::poison_live(r.next());
      p.c.threads = d.threads; wrap::jitter() = r.chance(1, 2) ? jit : 0;
      vh::set_case("i=%ld variant=%d pipeline=%s history=%ld %s", i, v, pipe_name(id), hist[which], d.str().c_str());
      apply_ctx(ctx[which], d);
      if (!d.l1 && r.chance(1, 2)) { delete ctx[which]; ctx[which] = new GemmContext; hist[which] = 0; apply_ctx(ctx[which], d); }
      AnyOut o; o.init(pipe_type(id), c, 0, 0x33 + v * 37);
      run_pipe(id, ctx[which], p, q, &o); o.values(&got); hist[which]++;
      wrap::jitter() = 0;
      if (got != want) {
        size_t x = 0; while (got[x] == want[x]) x++;
        long bad = 0; for (size_t y = 0; y < got.size(); y++) bad += got[y] != want[y];
        vh::viol("result-differs", "%ld of %zu entries differ from the fresh single-thread context, first (%zu,%zu): %d against %d", bad, got.size(), x / c.n, x % c.n, got[x], want[x]);
      }
      vh::stat_add("comparisons", 1); vh::stat_add("entries_compared", (long long)got.size());
      if (d.threads != 1 && (long)c.m * c.n * c.k >= 131072 && std::max(c.m, c.n) > 32) vh::stat_add("comparisons_multithreaded", 1);
      vh::distinct("cases", vh::mix(vh::mix(c.m * 4096 + c.n, c.k * 16 + id), vh::mix(d.threads, d.l1 + (uint64_t)d.l2 * 3)));
    }
    if (i % 97 == 3) vh::sample("%s %s: %d variants equal", pipe_name(id), c.str().c_str(), nv);
  }
  for (int i = 0; i < kCtx; i++) delete ctx[i];
  vh::stat_add("scratch_blocks_filled_with_garbage", wrap::reg().allocs);
  vh::stat_add("injected_delays", wrap::jcount()); vh::stat_add("condition_waits", wrap::cond_waits());
  return vh::done();
}
