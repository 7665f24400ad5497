// C05: application threads run products at the same time on contexts of their
// own, sharing read-only operands and writing neighbouring blocks of shared
// results; contexts move between threads between products.
#define WRAP_SCHED
#include "wrap.h"
#define ONLY_OFF01
#include "pipes.h"
#include <thread>
#include <memory>
using namespace gc;
struct Item { Problem<InT> p; PipeParams q; int id; std::vector<int32_t> want; AnyOut big; int copies; };
struct Round {
  pthread_mutex_t mu; std::vector<std::unique_ptr<Item> > items; std::vector<std::pair<int, int> > todo; std::vector<GemmContext*> pool; size_t next; std::atomic<int> gate; int nth; std::atomic<long> overlap, maxoverlap, handed;
  Round() : next(0), gate(0), overlap(0), maxoverlap(0), handed(0) { pthread_mutex_init(&mu, 0); }
};
template <typename T> static void block_of(Mat<T>* v, Mat<T>& big, const Case& c, int w, int copies) {
  v->rows = c.m; v->cols = c.n; v->rm = c.orm; v->stride = (c.orm ? c.n : c.m) * copies; v->data = big.data + (size_t)w * (c.orm ? c.n : c.m);
}
static void worker(Round* R, uint64_t seed, int rounds) {
  Rng r(seed);
  R->gate.fetch_add(1); while (R->gate.load() < R->nth) sched_yield();
  GemmContext* mine = 0; std::unique_ptr<GemmContext> own;
  for (;;) {
    __real_pthread_mutex_lock(&R->mu);
    if (R->next >= R->todo.size()) { __real_pthread_mutex_unlock(&R->mu); break; }
    std::pair<int, int> t = R->todo[R->next++];
    if (R->pool.empty()) mine = new GemmContext; else { size_t k = r.next() % R->pool.size(); mine = R->pool[k]; R->pool.erase(R->pool.begin() + k); R->handed++; }
    __real_pthread_mutex_unlock(&R->mu);
    Item& it = *R->items[t.first];
    Case d = it.p.c; gen_ctx(r, &d, true); apply_ctx(mine, d);
    AnyOut o; o.t = pipe_type(it.id);
    if (o.t == 0) block_of(&o.a, it.big.a, it.p.c, t.second, it.copies); else if (o.t == 1) block_of(&o.b, it.big.b, it.p.c, t.second, it.copies); else block_of(&o.c, it.big.c, it.p.c, t.second, it.copies);
    long ov = ++R->overlap; long mo = R->maxoverlap.load(); while (ov > mo && !R->maxoverlap.compare_exchange_weak(mo, ov)) {}
    run_pipe(it.id, mine, it.p, it.q, &o);
    --R->overlap;
    std::vector<int32_t> got; o.values(&got);
    if (got != it.want) { size_t x = 0; while (got[x] == it.want[x]) x++; vh::viol("concurrent-result-wrong", "pipeline %s entry %zu got %d want %d, %s", pipe_name(it.id), x, got[x], it.want[x], d.str().c_str()); }
    vh::stat_add("concurrent_products", 1); if (d.threads != 1) vh::stat_add("concurrent_products_multithread_requested", 1);
    if (r.chance(1, 8)) delete mine;
    else { __real_pthread_mutex_lock(&R->mu); R->pool.push_back(mine); __real_pthread_mutex_unlock(&R->mu); }
    mine = 0;
  }
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 500000); wrap::jseed() = a.seed * 77777;
  long rounds = a.cases; long maxov = 0;
  for (long i = 0; i < rounds; i++) {
    Rng r(vh::mix(a.seed * 1009 + BD, i)); Round R; R.nth = (int)r.range(2, 6);
    int ni = (int)r.range(1, 4);
    for (int j = 0; j < ni; j++) {
      std::unique_ptr<Item> it(new Item); Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c); it->id = pick_pipe(r);
      if (r.chance(1, 2)) { do { c.m = (int)r.range(20, 150); c.n = (int)r.range(4, 150); c.k = (int)r.range(8, 100); } while ((long)c.m * c.n * c.k > mac || (long)c.m * c.n * c.k < 131072); } else gen_shape(r, &c, mac / 2);
      gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, it->id); gen_offsets(r, &c, 2); c.threads = 1; c.dmode = (int)r.range(0, 9); c.dseed = r.next();
      it->p.fill(c, 0); it->q.gen(r, c.m, c.n, acc_bound(c), 1);
      if (i == 0) {  // the oracle, without running the library first: static initialisation happens concurrently
        it->id = 0; it->p.oracle(); it->want = it->p.acc;
      } else { GemmContext ctx; AnyOut o; o.init(pipe_type(it->id), c, 0, 1); run_pipe(it->id, &ctx, it->p, it->q, &o); o.values(&it->want); }
      it->copies = (int)r.range(2, 5);
      Case b = c; b.opad = 0; if (c.orm) b.n *= it->copies; else b.m *= it->copies; it->big.init(pipe_type(it->id), b, 0, 0x77);
      for (int w = 0; w < it->copies; w++) R.todo.push_back(std::make_pair(j, w));
      R.items.push_back(std::move(it));
    }
    for (size_t x = R.todo.size(); x > 1; x--) std::swap(R.todo[x - 1], R.todo[r.next() % x]);
    vh::set_case("round %ld, %d threads, %d problems, %zu products", i, R.nth, ni, R.todo.size());
    uint64_t h = R.nth; for (auto& it : R.items) h = vh::mix(h, it->p.c.m * 65536ull + it->p.c.n * 256 + it->id);
    wrap::jitter() = (int)r.range(0, 2);
    std::vector<std::thread> ts; for (int t = 0; t < R.nth; t++) ts.push_back(std::thread(worker, &R, r.next(), 1));
    for (auto& t : ts) t.join();
    wrap::jitter() = 0;
    for (auto* c : R.pool) delete c;
    for (auto& it : R.items) if (!it->big.padding_intact()) vh::viol("wrote-outside-result", "shared result");
    maxov = std::max(maxov, R.maxoverlap.load()); vh::stat_add("contexts_handed_between_threads", R.handed); vh::distinct("cases", h);
    vh::stat_add("rounds", 1);
    if (i % 7 == 1) vh::sample("%d threads, %zu products at most %ld at once", R.nth, R.todo.size(), R.maxoverlap.load());
  }
  printf("STAT max_products_at_once %ld\n", maxov);
  vh::stat_add("injected_delays", wrap::jcount()); vh::stat_add("condition_waits", wrap::cond_waits());
  return vh::done();
}
