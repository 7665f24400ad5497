// C18: what a context holds.  Scratch allocation, thread creation/joining and
// every operator new/delete are counted.  After a history of products all must
// be back where they were before the context existed; while it lives, products
// it has seen must not acquire anything more.
#define WRAP_SCHED
#define WRAP_ALLOC
#include "wrap.h"
static std::atomic<long> g_new(0), g_newbytes(0);
#ifndef VH_NO_NEW
#include <new>
static void* cnew(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) abort(); p[0] = n; g_new.fetch_add(1, std::memory_order_relaxed); g_newbytes.fetch_add((long)n, std::memory_order_relaxed); return (char*)p + 16; }
static void cdel(void* q) { if (!q) return; size_t* p = (size_t*)((char*)q - 16); g_new.fetch_sub(1, std::memory_order_relaxed); g_newbytes.fetch_sub((long)p[0], std::memory_order_relaxed); __real_free(p); }
void* operator new(size_t n) { return cnew(n); }
void* operator new[](size_t n) { return cnew(n); }
void operator delete(void* p) noexcept { cdel(p); }
void operator delete[](void* p) noexcept { cdel(p); }
void operator delete(void* p, size_t) noexcept { cdel(p); }
void operator delete[](void* p, size_t) noexcept { cdel(p); }
#endif
#define ONLY_OFF01
#include "pipes.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <dirent.h>
#include <memory>
#include <thread>
using namespace gc;
namespace e8 = gemmlowp::eight_bit_int_gemm;
struct Snap { long allocs, creates, joins, news, bytes, live; };
static Snap snap() { Snap s; wrap::lock(); s.allocs = wrap::reg().allocs; s.creates = wrap::reg().creates; s.joins = wrap::reg().joins; s.live = (long)wrap::reg().live.size(); wrap::unlock(); s.news = g_new; s.bytes = g_newbytes; return s; }
static long task_count() { long n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static long settled_tasks(long want) { long t = task_count(); for (int i = 0; i < 400 && t > want; i++) { usleep(2000); t = task_count(); } return t; }
struct Item { Problem<InT> p; PipeParams q; int id; AnyOut o; };
static void gen_item(Rng& r, Item* it, long mac, int maxth) {
  Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c); it->id = pick_pipe(r);
  if (r.chance(1, 3)) { do { c.m = (int)r.range(20, 200); c.n = (int)r.range(4, 200); c.k = (int)r.range(8, 200); } while ((long)c.m * c.n * c.k > mac || (long)c.m * c.n * c.k < 131072); } else gen_shape(r, &c, mac);
  gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, it->id); gen_offsets(r, &c, 2); gen_ctx(r, &c, true); if (c.threads > maxth) c.threads = maxth; c.dmode = 0; c.dseed = r.next();
  it->p.fill(c, 0); it->q.gen(r, c.m, c.n, acc_bound(c), 1); it->o.init(pipe_type(it->id), c, 0, 1);
}
template <typename Ctx> static void run_item(Ctx* ctx, Item& it) { apply_ctx(ctx, it.p.c); if (!it.p.c.l1) { gemmlowp::GemmContext d; ctx->set_l1_bytes_to_use(d.l1_bytes_to_use()); ctx->set_l2_bytes_to_use(d.l2_bytes_to_use()); ctx->set_l2_rhs_factor(d.l2_rhs_factor()); } run_pipe(it.id, ctx, it.p, it.q, &it.o); }
static void contexts(Rng& r, long i, long mac) {
  int ni = (int)r.range(1, 5), nc = (int)r.range(1, 3); std::vector<std::unique_ptr<Item> > items; for (int j = 0; j < ni; j++) { items.emplace_back(new Item); gen_item(r, items.back().get(), mac, 12); }
  std::vector<GemmContext*> ctx(nc); std::vector<int> order; order.reserve(64);
  vh::set_case("contexts i=%ld: %d contexts, %d products, first %s", i, nc, ni, items[0]->p.c.str().c_str());
  Snap base = snap(); long t0 = task_count();
  for (int c = 0; c < nc; c++) ctx[c] = new GemmContext;
  for (int c = 0; c < nc; c++) if (r.chance(5, 6)) for (int j = 0; j < ni; j++) run_item(ctx[c], *items[j]); else ctx[c]->set_max_num_threads(4);
  for (int c = 0; c < nc; c++) for (int j = 0; j < ni; j++) run_item(ctx[c], *items[j]);
  Snap first = snap();
  int reps = (int)r.range(1, 3);
  for (int q = 0; q < reps; q++) for (int c = 0; c < nc; c++) {
    order.clear(); for (int j = 0; j < ni; j++) order.push_back(j); for (size_t x = order.size(); x > 1; x--) std::swap(order[x - 1], order[r.next() % x]);
    bool other = r.chance(1, 4);
    for (int j : order) {
      Snap b = snap();
      if (other) { std::thread t([&] { run_item(ctx[c], *items[j]); }); t.join(); } else run_item(ctx[c], *items[j]);
      Snap s = snap(); const int extra = 0;  // std::thread starts inside libstdc++, not through the wrapper
      if (s.allocs != b.allocs) vh::viol("scratch-allocated-again", "%ld allocations for a product seen before: %s", s.allocs - b.allocs, items[j]->p.c.str().c_str());
      if (s.creates - b.creates != extra) vh::viol("threads-started-again", "%ld for a product seen before: %s", s.creates - b.creates - extra, items[j]->p.c.str().c_str());
      if (!other && (s.news != b.news || s.bytes != b.bytes)) vh::viol("memory-kept-by-product", "%ld blocks, %ld bytes: %s", s.news - b.news, s.bytes - b.bytes, items[j]->p.c.str().c_str());
      vh::stat_add("repeated_products", 1);
    }
  }
  for (int x = nc; x > 1; x--) std::swap(ctx[x - 1], ctx[r.next() % x]);
  for (int c = 0; c < nc; c++) if (r.chance(1, 6)) { GemmContext* z = ctx[c]; std::thread t([z] { delete z; }); t.join(); } else delete ctx[c];
  Snap s = snap();
  if (s.live != base.live) vh::viol("scratch-not-returned", "%ld blocks still held after destroying the contexts", s.live - base.live);
  if (s.creates - base.creates != s.joins - base.joins) vh::viol("threads-not-joined", "%ld started, %ld joined", s.creates - base.creates, s.joins - base.joins);
  if (s.news != base.news || s.bytes != base.bytes) vh::viol("memory-not-returned", "%ld blocks, %ld bytes", s.news - base.news, s.bytes - base.bytes);
  long t1 = settled_tasks(t0); if (t1 > t0) vh::viol("threads-left-running", "%ld threads before, %ld after", t0, t1);
  vh::stat_add("histories", 1); vh::stat_add("scratch_blocks_seen", s.allocs - base.allocs); vh::stat_add("threads_seen", s.creates - base.creates); vh::stat_add("products", (long long)nc * ni * (reps + 2));
  uint64_t h = nc; for (auto& it : items) h = vh::mix(h, it->p.c.m * 65536ull + it->p.c.n * 256 + it->p.c.threads); vh::distinct("cases", h);
  if (i % 31 == 2) vh::sample("%d contexts, %d products x%d: %ld scratch blocks, %ld threads, all returned", nc, ni, reps + 2, s.allocs - base.allocs, s.creates - base.creates);
}
struct L8 { int m, n, k, lim; bool flt, ta, tb, tc; std::vector<uint8_t> a, b, o; std::vector<float> f; };
static void legacy_call(L8& x) {
  e8::SetMaxNumThreads(x.lim); int lda = x.ta ? x.k : x.m, ldb = x.tb ? x.n : x.k, ldc = x.tc ? x.n : x.m;
  if (x.flt) e8::EightBitIntGemm(x.ta, x.tb, x.tc, x.m, x.n, x.k, x.a.data(), -3, lda, x.b.data(), -5, ldb, x.f.data(), 0.5f, ldc, e8::BitDepthSetting::A8B8);
  else e8::EightBitIntGemm(x.ta, x.tb, x.tc, x.m, x.n, x.k, x.a.data(), -3, lda, x.b.data(), -5, ldb, x.o.data(), 1, 2, 3, ldc, e8::BitDepthSetting::A8B8);
}
static void legacy(Rng& r, long i, long mac) {
  int ni = (int)r.range(1, 5); std::vector<std::unique_ptr<L8> > v;
  for (int j = 0; j < ni; j++) {
    v.emplace_back(new L8); L8& x = *v.back(); do { x.m = (int)r.range(1, 200); x.n = (int)r.range(1, 200); x.k = (int)r.range(1, 300); } while ((long)x.m * x.n * x.k > mac);
    x.lim = (int)r.range(1, 8); x.flt = r.chance(1, 2); x.ta = r.chance(1, 2); x.tb = r.chance(1, 2); x.tc = r.chance(1, 2); x.a.assign((size_t)x.m * x.k, 9); x.b.assign((size_t)x.n * x.k, 7); x.o.assign((size_t)x.m * x.n, 0); x.f.assign((size_t)x.m * x.n, 0);
  }
  vh::set_case("legacy i=%ld: %d products, first m=%d n=%d k=%d limit %d %s", i, ni, v[0]->m, v[0]->n, v[0]->k, v[0]->lim, v[0]->flt ? "float" : "uint8");
  Snap base = snap(); long t0 = task_count(); int rounds = (int)r.range(1, 3);
  for (int q = 0; q < rounds; q++) {
    for (int z = 0; z < 2; z++) for (auto& x : v) legacy_call(*x);
    for (auto& x : v) { Snap b = snap(); legacy_call(*x); Snap s = snap();
      if (s.allocs != b.allocs) vh::viol("scratch-allocated-again", "legacy m=%d n=%d k=%d %s", x->m, x->n, x->k, x->flt ? "float" : "uint8"); if (s.creates != b.creates) vh::viol("threads-started-again", "legacy"); if (s.news != b.news || s.bytes != b.bytes) vh::viol("memory-kept-by-product", "legacy: %ld blocks, %ld bytes, m=%d n=%d k=%d limit %d %s", s.news - b.news, s.bytes - b.bytes, x->m, x->n, x->k, x->lim, x->flt ? "float" : "uint8"); }
    e8::FreePersistentResources(); if (r.chance(1, 3)) e8::FreePersistentResources();
    Snap s = snap();
    if (s.live != base.live) vh::viol("scratch-not-returned", "legacy: %ld blocks", s.live - base.live);
    if (s.creates - base.creates != s.joins - base.joins) vh::viol("threads-not-joined", "legacy: %ld started, %ld joined", s.creates - base.creates, s.joins - base.joins);
    if (s.news != base.news || s.bytes != base.bytes) vh::viol("memory-not-returned", "legacy: %ld blocks, %ld bytes", s.news - base.news, s.bytes - base.bytes);
    vh::stat_add("legacy_rounds", 1);
  }
  long t1 = settled_tasks(t0); if (t1 > t0) vh::viol("threads-left-running", "legacy: %ld threads before, %ld after", t0, t1);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 700000); wrap::jseed() = a.seed * 999;
  { Rng r(5); std::thread t([] {}); t.join(); e8::FreePersistentResources(); vh::stat_add("histories", 0); Item it; gen_item(r, &it, mac, 4); it.p.c.threads = 4; GemmContext c; run_item(&c, it); }
  for (const char* s : {"histories", "scratch_blocks_seen", "threads_seen", "products", "repeated_products", "legacy_rounds"}) vh::stat_add(s, 0);
  for (long i = 0; i < a.cases; i++) { if (a.only >= 0 && i != a.only) continue; Rng r(vh::mix(a.seed * 31337, i)); wrap::jitter() = r.chance(1, 4) ? 1 : 0; if (i % 4 == 3) legacy(r, i, mac); else contexts(r, i, mac); wrap::jitter() = 0; }
  return vh::done();
}
