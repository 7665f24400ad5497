// C17: who runs a product.  Products go through the public entry points with
//  - a pool of ours that runs the tasks one after the other in random order and
//    takes every written entry out of the result after each task, so that a
//    second write to the same entry, even of the same value, is seen;
//  - the library's pool behind a recorder of which threads run tasks at once;
//  - the library's own context, watching thread creation, over histories of
//    changing limits and sizes; and the legacy interface the same way.
#define WRAP_SCHED
#include "wrap.h"
#define NO_PC_OFFSETS
#include "gemm_call.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <sys/syscall.h>
#include <dirent.h>
#include <memory>
#include <thread>
using namespace gc;
static long creates() { wrap::lock(); long c = wrap::reg().creates; wrap::unlock(); return c; }
static long joins() { wrap::lock(); long c = wrap::reg().joins; wrap::unlock(); return c; }
static int nproc() { long a = sysconf(_SC_NPROCESSORS_CONF), b = sysconf(_SC_NPROCESSORS_ONLN); return (int)std::max(a, b); }
static const int32_t kEmpty = 0x7f3f1f0f;
struct Spy { Mat<int32_t>* out; std::vector<unsigned char> writers; std::vector<int32_t> value; long batches, tasks, max_tasks, empty_tasks; Rng* r;
  void start(Mat<int32_t>* o, Rng* rr) { out = o; writers.assign((size_t)o->rows * o->cols, 0); value.assign(writers.size(), kEmpty); batches = tasks = max_tasks = empty_tasks = 0; r = rr; }
  long sweep() { long n = 0; for (int i = 0; i < out->rows; i++) for (int j = 0; j < out->cols; j++) { int32_t& x = out->at(i, j); if (x != kEmpty) { n++; unsigned char& w = writers[(size_t)i * out->cols + j]; if (w < 255) w++; value[(size_t)i * out->cols + j] = x; x = kEmpty; } } return n; }
};
static Spy spy;
struct SeqPool {
  template <typename V> void go(const V& order_of) {
    std::vector<gemmlowp::Task*> t = order_of; spy.batches++; spy.tasks += (long)t.size(); spy.max_tasks = std::max(spy.max_tasks, (long)t.size());
    for (size_t x = t.size(); x > 1; x--) std::swap(t[x - 1], t[spy.r->next() % x]);
    spy.sweep();
    for (auto* q : t) { std::unique_ptr<gemmlowp::Allocator> al(new gemmlowp::Allocator); q->local_allocator = al.get(); q->Run(); if (!spy.sweep()) spy.empty_tasks++; }
  }
  void Execute(const std::vector<gemmlowp::Task*>& tasks) { go(tasks); for (auto* q : tasks) delete q; }
  void LegacyExecuteAndDestroyTasks(const std::vector<gemmlowp::Task*>& tasks) { Execute(tasks); }
  template <typename T> void Execute(int n, T* tasks) { std::vector<gemmlowp::Task*> v; for (int i = 0; i < n; i++) v.push_back(&tasks[i]); go(v); }
};
struct SeqCtx : gemmlowp::MultiThreadGemmContextBase { SeqPool pool; SeqPool* workers_pool() { return &pool; } };
static std::atomic<int> g_in(0), g_max_in(0); static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER; static std::set<long> g_tids;
struct Proxy : gemmlowp::Task { gemmlowp::Task* inner; bool own; ~Proxy() { if (own) delete inner; }
  void Run() override {
    int n = ++g_in; int m = g_max_in; while (n > m && !g_max_in.compare_exchange_weak(m, n)) {}
    __real_pthread_mutex_lock(&g_mu); g_tids.insert((long)syscall(SYS_gettid)); __real_pthread_mutex_unlock(&g_mu);
    inner->local_allocator = local_allocator; inner->Run(); --g_in;
  } };
struct RecPool { gemmlowp::WorkersPool real; long max_tasks; RecPool() : max_tasks(0) {}
  void Execute(const std::vector<gemmlowp::Task*>& tasks) { max_tasks = std::max(max_tasks, (long)tasks.size()); std::vector<gemmlowp::Task*> v; for (auto* t : tasks) { Proxy* p = new Proxy; p->inner = t; p->own = true; v.push_back(p); } real.Execute(v); }
  void LegacyExecuteAndDestroyTasks(const std::vector<gemmlowp::Task*>& tasks) { Execute(tasks); }
  template <typename T> void Execute(int n, T* tasks) { max_tasks = std::max(max_tasks, (long)n); std::unique_ptr<Proxy[]> v(new Proxy[n]); for (int i = 0; i < n; i++) { v[i].inner = &tasks[i]; v[i].own = false; } real.Execute(n, v.get()); }
};
struct RecCtx : gemmlowp::MultiThreadGemmContextBase { RecPool pool; RecPool* workers_pool() { return &pool; } };
static void gen(Rng& r, Case* c, long mac) {
  memset((void*)c, 0, sizeof *c); c->lmin = 1; c->rmin = 0; c->lmax = c->rmax = 255;
  int cls = (int)r.range(0, 5); for (int t = 0; t < 300; t++) {
    if (cls == 0) { c->m = (int)r.range(1, 40); c->n = (int)r.range(1, 40); c->k = (int)r.range(1, 60); }
    else if (cls == 1) { c->m = (int)r.range(17, 400); c->n = (int)r.range(1, 100); c->k = (int)r.range(1, 200); }
    else if (cls == 2) { c->m = (int)r.range(1, 100); c->n = (int)r.range(17, 400); c->k = (int)r.range(1, 200); }
    else if (cls == 3) { c->m = 16 * (int)r.range(1, 20) + (int)r.range(-1, 1); c->n = (int)r.range(10, 80); c->k = (int)r.range(40, 200); if (c->m < 1) c->m = 1; }
    else if (cls == 4) { c->m = 12 * (int)r.range(1, 30) + (int)r.range(-1, 1); c->n = (int)r.range(1, 60); c->k = (int)r.range(40, 300); }
    else { c->m = (int)r.range(33, 300); c->n = (int)r.range(33, 300); c->k = (int)r.range(16, 100); }
    if ((long)c->m * c->n * c->k <= mac) break;
  }
  if ((long)c->m * c->n * c->k > mac) { c->m = 20; c->n = 20; c->k = 20; }
  gen_layout(r, c); static const int typ[] = {0, -128, -255, -1, 1, 12}; c->lo = r.pick(typ); c->ro = r.pick(typ); gen_ctx(r, c, false); c->dmode = (int)r.range(0, 9); c->dseed = r.next();
  static const int th[] = {2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 23, 32, 40, 1, 0}; c->threads = r.pick(th);
}
typedef gemmlowp::L8R8WithLhsNonzeroBitDepthParams BDP;
static int eff(int limit) { return limit == 0 ? nproc() : limit; }
static bool small(const Case& c) { return (long)c.m * c.n * c.k < 65536 || std::max(c.m, c.n) <= 16; }
static void once(Rng& r, long i, long mac) {
  Case c; gen(r, &c, mac); vh::set_case("once i=%ld %s", i, c.str().c_str());
  Problem<uint8_t> p; p.fill(c, 0); p.oracle(); Mat<int32_t> out; out.init(c.m, c.n, c.orm, c.opad, c.omis, 0, kEmpty); SeqCtx ctx; apply_ctx(&ctx, c);
  long cr = creates(); spy.start(&out, &r); call8<BDP>(&ctx, p, &out, std::make_tuple()); spy.sweep();
  long bad = 0, multi = 0; size_t at = 0; for (size_t x = 0; x < spy.writers.size(); x++) { if (spy.writers[x] != 1) { if (!multi) at = x; multi++; } if (spy.value[x] != p.acc[x]) bad++; }
  if (multi) vh::viol("entry-not-written-once", "%ld of %zu entries, first (%zu,%zu) written by %d tasks", multi, spy.writers.size(), at / c.n, at % c.n, spy.writers[at]);
  if (bad) vh::viol("entry-wrong", "%ld entries", bad);
  if (spy.max_tasks > eff(c.threads)) vh::viol("more-tasks-than-limit", "%ld tasks at once, limit %d", spy.max_tasks, c.threads);
  if (spy.batches && small(c)) vh::viol("small-product-split", "%ld tasks", spy.max_tasks);
  if (spy.batches && c.threads == 1) vh::viol("single-thread-product-split", "%ld tasks", spy.max_tasks);
  if (creates() != cr) vh::viol("created-thread-outside-pool", "");
  if (!out.padding_intact()) vh::viol("wrote-outside-result", "");
  if (c.threads == 0) {  // zero stands for the number of processors
    long t0 = spy.max_tasks, t1 = 0; bool same = false; int cand[3] = {(int)sysconf(_SC_NPROCESSORS_CONF), (int)sysconf(_SC_NPROCESSORS_ONLN), (int)std::thread::hardware_concurrency()};
    for (int q = 0; q < 3 && !same; q++) { if (cand[q] < 1) continue; Case d = c; d.threads = cand[q]; SeqCtx ctx2; apply_ctx(&ctx2, d); spy.start(&out, &r); call8<BDP>(&ctx2, p, &out, std::make_tuple()); spy.sweep(); t1 = spy.max_tasks; same = t1 == t0; }
    if (!same) vh::viol("zero-is-not-processor-count", "limit 0 gives %ld tasks, the processor count %d gives %ld", t0, nproc(), t1); vh::stat_add("zero_limit_compared", 1);
  }
  vh::stat_add("entries_checked_once", (long long)spy.writers.size()); vh::stat_add("tasks_observed", spy.tasks); if (spy.batches > 1) vh::stat_add("products_with_several_batches", 1); if (spy.batches) vh::stat_add("split_products", 1);
  vh::distinct("cases", vh::mix(c.m * 4096ull + c.n, c.k * 64ull + c.threads));
  if (i % 61 == 3) vh::sample("%ld batches, %ld tasks: %s", spy.batches, spy.tasks, c.str().c_str());
}
static void recorded(Rng& r, long i, long mac) {
  std::unique_ptr<RecCtx> ctx(new RecCtx); long base = creates(), bj = joins(); int biggest = 1; int n = (int)r.range(2, 6);
  for (int q = 0; q < n; q++) {
    Case c; gen(r, &c, mac); if (r.chance(1, 3)) c.threads = (int)r.range(1, 4); vh::set_case("recorded i=%ld step %d %s", i, q, c.str().c_str());
    Problem<uint8_t> p; p.fill(c, 0); Mat<int32_t> out; out.init(c.m, c.n, c.orm, c.opad, c.omis, 0, kEmpty); apply_ctx(ctx.get(), c);
    g_tids.clear(); g_max_in = 0; ctx->pool.max_tasks = 0; long c0 = creates(); wrap::jitter() = (int)r.range(0, 2);
    call8<BDP>(ctx.get(), p, &out, std::make_tuple()); wrap::jitter() = 0;
    int lim = eff(c.threads); biggest = std::max(biggest, lim);
    if ((int)g_tids.size() > lim) vh::viol("more-threads-than-limit", "%zu threads ran tasks, limit %d", g_tids.size(), lim);
    if (g_max_in > lim) vh::viol("more-threads-than-limit", "%d tasks at once, limit %d", (int)g_max_in, lim);
    if (creates() - base > biggest - 1) vh::viol("too-many-workers", "%ld created for limits up to %d", creates() - base, biggest);
    if (small(c) && (g_tids.size() > 1 || creates() != c0 || (g_tids.size() == 1 && !g_tids.count((long)syscall(SYS_gettid))))) vh::viol("small-product-not-on-caller", "%zu threads", g_tids.size());
    long c1 = creates(); call8<BDP>(ctx.get(), p, &out, std::make_tuple()); if (creates() != c1) vh::viol("workers-not-reused", "%ld threads created by the same product again", creates() - c1);
    vh::stat_add("recorded_products", 1); if (g_tids.size() > 1) vh::stat_add("recorded_products_on_several_threads", 1); vh::distinct("thread_sets", vh::mix(g_tids.size(), c.threads));
  }
  long made = creates() - base; ctx.reset(); if (joins() - bj != made) vh::viol("threads-left-behind", "%ld created, %ld joined", made, joins() - bj);
}
static long task_count() { long n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static void history(Rng& r, long i, long mac) {
  long base = creates(), bj = joins(), bt = task_count(); std::unique_ptr<gemmlowp::GemmContext> ctx(new gemmlowp::GemmContext); int biggest = 1; int n = (int)r.range(1, 8); bool dflt = r.chance(1, 4);
  for (int q = 0; q < n; q++) {
    Case c; gen(r, &c, mac); vh::set_case("history i=%ld step %d %s%s", i, q, dflt ? "default limit " : "", c.str().c_str());
    Problem<uint8_t> p; p.fill(c, 0); Mat<int32_t> out; out.init(c.m, c.n, c.orm, c.opad, c.omis, 0, kEmpty);
    if (!dflt) { apply_ctx(ctx.get(), c); biggest = std::max(biggest, eff(c.threads)); }
    long c0 = creates(); call8<BDP>(ctx.get(), p, &out, std::make_tuple());
    if (dflt && creates() != base) vh::viol("default-limit-created-thread", "%ld", creates() - base);
    if (creates() - base > biggest - 1) vh::viol("too-many-workers", "%ld created for limits up to %d", creates() - base, biggest);
    if (small(c) && creates() != c0) vh::viol("small-product-created-thread", "%ld", creates() - c0);
    long live = task_count(); if (live >= 0 && bt >= 0 && live - bt > biggest - 1) vh::viol("too-many-workers", "%ld threads alive beyond the caller for limits up to %d", live - bt, biggest);
    vh::stat_add("history_products", 1); if (creates() != c0) vh::stat_add("worker_growths", 1);
  }
  long made = creates() - base; ctx.reset(); if (joins() - bj != made) vh::viol("threads-left-behind", "%ld created, %ld joined", made, joins() - bj);
}
static void legacy(Rng& r, long i, long mac) {
  namespace e = gemmlowp::eight_bit_int_gemm; long base = creates(), bj = joins(); int biggest = 1; int n = (int)r.range(1, 6);
  for (int q = 0; q < n; q++) {
    Case c; gen(r, &c, mac); int lim = r.chance(1, 3) ? -1 : c.threads; vh::set_case("legacy i=%ld step %d limit %d %s", i, q, lim, c.str().c_str());
    std::vector<uint8_t> a((size_t)c.m * c.k, 3), b((size_t)c.k * c.n, 5), o((size_t)c.m * c.n); if (lim >= 0) { e::SetMaxNumThreads(lim); biggest = std::max(biggest, eff(lim)); }
    long c0 = creates();
    e::EightBitIntGemm(false, false, false, c.m, c.n, c.k, a.data(), -1, c.m, b.data(), -2, c.k, o.data(), 0, 1, 0, c.m, e::BitDepthSetting::A8B8);
    int want = std::min(255, c.k * 2 * 3); for (size_t x = 0; x < o.size(); x++) if (o[x] != want) { vh::viol("legacy-entry-wrong", "entry %zu got %d want %d", x, o[x], want); break; }
    if (creates() - base > biggest - 1) vh::viol("too-many-workers", "legacy: %ld created for limits up to %d", creates() - base, biggest);
    if (small(c) && creates() != c0) vh::viol("small-product-created-thread", "legacy: %ld", creates() - c0);
    vh::stat_add("legacy_products", 1);
  }
  e::SetMaxNumThreads(1); long made = creates() - base; e::FreePersistentResources(); if (joins() - bj != made) vh::viol("threads-left-behind", "legacy: %ld created, %ld joined", made, joins() - bj);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 1200000); wrap::jseed() = a.seed * 4242;
  { // nothing configured: no thread at all
    std::vector<uint8_t> x(300 * 300, 1), y(300 * 300, 1), z(300 * 300); gemmlowp::eight_bit_int_gemm::EightBitIntGemm(false, false, false, 300, 300, 300, x.data(), 0, 300, y.data(), 0, 300, z.data(), 0, 1, 2, 300, gemmlowp::eight_bit_int_gemm::BitDepthSetting::A8B8);
    if (creates()) vh::viol("default-limit-created-thread", "legacy interface: %ld", creates()); gemmlowp::eight_bit_int_gemm::FreePersistentResources();
  }
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 40503, i)); int k = (int)(i % 8);
    if (k < 5) once(r, i, mac); else if (k == 5) recorded(r, i, mac); else if (k == 6) history(r, i, mac); else legacy(r, i, mac);
  }
  vh::stat_add("threads_created", creates());
  return vh::done();
}
