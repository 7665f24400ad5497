// C09: the legacy entry points, sequentially and from several threads.
#define WRAP_SCHED
#include "wrap.h"
#define BD 0
#include "gemm_case.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <thread>
#include <memory>
using namespace gc;
namespace e8 = gemmlowp::eight_bit_int_gemm;
typedef long long ll;
static ll rdpot(ll x, int e) { if (!e) return x; ll h = 1ll << (e - 1), a = x < 0 ? -x : x, q = (a + h) >> e; return x < 0 ? -q : q; }
struct Call {
  Case c; Problem<uint8_t> p; bool fl; int coff, mult, shift; float scale; e8::BitDepthSetting bds;
  Mat<uint8_t> o8; Mat<float> of; int gm;
  void gen(Rng& r, long mac, bool conc) {
    memset((void*)&c, 0, sizeof c); c.lmin = c.rmin = 0; c.lmax = c.rmax = 255;
    gen_shape(r, &c, mac);
    if (r.chance(1, 3)) { c.m = (int)r.range(1, 30); c.n = (int)r.range(1, 30); c.k = (int)r.range(1, 40); }
    gen_layout(r, &c);
#ifdef META
    if (r.chance(3, 4)) { c.lrm = 1; c.rrm = 0; c.lpad = c.rpad = 0; if (r.chance(3, 4)) c.opad = 0; c.k = std::max(8, std::min(c.k, 2048)); if (r.chance(1, 8)) c.k = 2048 - (int)r.range(0, 9); }
    if (r.chance(1, 4)) { (r.chance(1, 2) ? c.m : c.n) = 1; if (r.chance(1, 3)) c.lrm = !c.lrm; if (r.chance(1, 3)) c.rrm = !c.rrm; if (r.chance(1, 2)) c.lpad = 0; if (r.chance(1, 2)) c.rpad = 0; }
    if (r.chance(1, 40)) { c.k = (int)r.range(8, 20); int big = 2 * 4 * (262144 / (c.k * 4)) - (int)r.range(0, 4); c.m = 3; c.n = big; if (r.chance(1, 2)) std::swap(c.m, c.n); c.lrm = 1; c.rrm = 0; c.lpad = c.rpad = c.opad = 0; }
#endif
    if (r.chance(1, 10)) { int* z[] = {&c.m, &c.n, &c.k}; *z[r.range(0, 2)] = 0; }
    int k = c.k; if (!c.k) c.k = 1; gen_offsets(r, &c, 1); c.k = k; c.dmode = (int)r.range(0, 9); c.dseed = r.next(); gm = conc ? 0 : (int)r.range(0, 2);
    fl = r.chance(1, 2); bds = r.chance(1, 5) ? e8::BitDepthSetting::A5B7 : e8::BitDepthSetting::A8B8;
    p.fill(c, gm); p.oracle();
    ll vmax = 1; for (int32_t v : p.acc) vmax = std::max(vmax, std::abs((ll)v));
    coff = (int)r.range(-500, 500); if (r.chance(1, 3)) coff = (int)r.range(-(vmax / 2 + 1), vmax / 2 + 1); if (vmax + std::abs((ll)coff) > 2147483647ll) coff = 0;
    ll lim = 2147483647ll / (vmax + std::abs((ll)coff) + 1); if (lim < 1) lim = 1; if (lim > 4000) lim = 4000; mult = (int)r.range(1, lim); if (r.chance(1, 12)) mult = -mult; int b = 0; while ((1ll << b) < vmax * std::abs(mult)) b++; shift = b - 7 + (int)r.range(-4, 4); if (shift < 0) shift = 0; if (shift > 31) shift = 31; if (r.chance(1, 10)) shift = (int)r.range(0, 31);
    if (vmax + std::abs((ll)coff) > 2147483647ll || (vmax + std::abs((ll)coff)) * std::abs(mult) + (1ll << 30) > 2147483647ll) { mult = 1; }
    scale = (float)std::ldexp((double)r.range(1, 4000), -(int)r.range(0, 24)); if (r.chance(1, 6)) scale = -scale;
    p.lhs.snap(); p.rhs.snap();
  }
  void init_out() { if (fl) of.init(c.m, c.n, c.orm, c.opad, c.omis, gm, 12345.5f); else o8.init(c.m, c.n, c.orm, c.opad, c.omis, gm, 0x5b); }
  void run() {
    init_out(); int lda = p.lhs.stride, ldb = p.rhs.stride;
    if (fl) e8::EightBitIntGemm(c.lrm, c.rrm, c.orm, c.m, c.n, c.k, p.lhs.data, c.lo, lda, p.rhs.data, c.ro, ldb, of.data, scale, of.stride, bds);
    else e8::EightBitIntGemm(c.lrm, c.rrm, c.orm, c.m, c.n, c.k, p.lhs.data, c.lo, lda, p.rhs.data, c.ro, ldb, o8.data, coff, mult, shift, o8.stride, bds);
  }
  bool ok2(ll acc) const { ll s = acc + coff; return s >= -2147483648ll && s <= 2147483647ll && s * mult >= -2147483648ll + (1ll << 30) && s * mult <= 2147483647ll - (1ll << 30); }
  void verify() {
    long bad = 0; char b[200] = "";
    for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) {
      if (!c.k) {  // vacuous: result untouched
        if (fl ? of.at(x, y) != 12345.5f : o8.at(x, y) != 0x5b) { if (!bad) snprintf(b, sizeof b, "product of depth 0 wrote (%d,%d)", x, y); bad++; }
        continue;
      }
      int32_t acc = p.acc[(size_t)x * c.n + y];
      if (fl) { float w = (float)acc * scale; if (of.at(x, y) != w) { if (!bad) snprintf(b, sizeof b, "(%d,%d) got %.9g want %.9g", x, y, of.at(x, y), w); bad++; } }
      else { if (!ok2(acc)) continue; ll w = rdpot((ll)(acc + (ll)coff) * mult, shift);
        w = w < 0 ? 0 : w > 255 ? 255 : w; if (o8.at(x, y) != w) { if (!bad) snprintf(b, sizeof b, "(%d,%d) acc %d got %d want %lld", x, y, acc, o8.at(x, y), w); bad++; } }
    }
    if (bad) vh::viol("legacy-wrong", "%ld of %d entries wrong (%s output), %s; offset %d mult %d shift %d depth setting %d, %s", bad, c.m * c.n, fl ? "float" : "8-bit", b, coff, mult, shift, (int)bds, c.str().c_str());
    if (fl ? !of.padding_intact() : !o8.padding_intact()) vh::viol("wrote-outside-result", "%s", c.str().c_str());
    if (!p.lhs.unchanged() || !p.rhs.unchanged()) vh::viol("operand-modified", "");
    vh::stat_add(fl ? "float_products" : "eight_bit_products", 1); vh::stat_add("calls", 1); vh::stat_add("entries_checked", (ll)c.m * c.n);
    vh::distinct("cases", vh::mix(vh::mix(c.m * 4096 + c.n, c.k), c.lrm * 4 + c.rrm * 2 + c.orm + 8 * fl));
  }
};
// results spanning 2^29..2^31 elements through a huge leading dimension (sparse mapping)
static void wide(Rng& r, long i) {
  std::unique_ptr<Call> c(new Call); do c->gen(r, 20000, true); while (!c->c.m || !c->c.n || !c->c.k || (c->c.orm ? c->c.m : c->c.n) < 2);
  Case& q = c->c; int outer = q.orm ? q.m : q.n; int ldc = (int)std::min<ll>(2000000000ll, r.range(1ll << 29, (1ll << 31) - 1) / (outer - 1) + 1); size_t es = c->fl ? 4 : 1;
  size_t ext = ((size_t)(outer - 1) * ldc + (q.orm ? q.n : q.m)) * es; uint8_t* m = (uint8_t*)mmap(0, ext, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  vh::set_case("wide %ld %s ldc=%d offset %d mult %d shift %d %s", i, c->fl ? "float" : "8-bit", ldc, c->coff, c->mult, c->shift, q.str().c_str());
  if (r.chance(1, 2)) e8::SetMaxNumThreads((int)r.range(1, 4));
  if (c->fl) e8::EightBitIntGemm(q.lrm, q.rrm, q.orm, q.m, q.n, q.k, c->p.lhs.data, q.lo, c->p.lhs.stride, c->p.rhs.data, q.ro, c->p.rhs.stride, (float*)m, c->scale, ldc, c->bds);
  else e8::EightBitIntGemm(q.lrm, q.rrm, q.orm, q.m, q.n, q.k, c->p.lhs.data, q.lo, c->p.lhs.stride, c->p.rhs.data, q.ro, c->p.rhs.stride, m, c->coff, c->mult, c->shift, ldc, c->bds);
  c->init_out(); for (int x = 0; x < q.m; x++) for (int y = 0; y < q.n; y++) { size_t o = q.orm ? (size_t)x * ldc + y : (size_t)y * ldc + x; if (c->fl) c->of.at(x, y) = ((float*)m)[o]; else c->o8.at(x, y) = m[o]; }
  c->verify(); vh::stat_add("products_with_results_spanning_gigabytes", 1); munmap(m, ext); e8::FreePersistentResources();
}
static std::atomic<long> g_frees(0), g_sets(0);
static void caller(std::vector<std::unique_ptr<Call> >* calls, uint64_t seed, std::atomic<int>* gate, int n) {
  Rng r(seed); gate->fetch_add(1); while (gate->load() < n) sched_yield();
  for (auto& c : *calls) {
    if (r.chance(1, 4)) { static const int th[] = {1, 2, 3, 4, 0, 7}; e8::SetMaxNumThreads(r.pick(th)); g_sets++; }
    if (r.chance(1, 6)) { e8::FreePersistentResources(); g_frees++; }
    c->run();
    if (r.chance(1, 10)) { e8::FreePersistentResources(); g_frees++; }
  }
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 300000); wrap::jseed() = a.seed * 31337; long conc = a.num("conc", 0);
  if (!conc) for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 3, i)); std::unique_ptr<Call> c(new Call); c->gen(r, mac, false);
    static const int th[] = {1, 2, 3, 4, 0, 8}; if (r.chance(1, 5)) e8::SetMaxNumThreads(r.pick(th)); if (r.chance(1, 20)) e8::FreePersistentResources();
    vh::set_case("i=%ld %s offset %d mult %d shift %d %s", i, c->fl ? "float" : "8-bit", c->coff, c->mult, c->shift, c->c.str().c_str());
    c->run(); c->verify();
    if (i % 97 == 3) vh::sample("%s", vh::st().cur);
  } else for (long i = 0; i < a.cases; i++) {
    Rng r(vh::mix(a.seed * 5, i)); int n = (int)r.range(2, 5); std::vector<std::vector<std::unique_ptr<Call> > > all(n);
    for (auto& v : all) { int q = (int)r.range(1, 6); for (int z = 0; z < q; z++) { v.push_back(std::unique_ptr<Call>(new Call)); v.back()->gen(r, mac, true); } }
    vh::set_case("concurrent round %ld, %d threads", i, n); wrap::jitter() = (int)r.range(0, 2);
    std::atomic<int> gate(0); std::vector<std::thread> ts; for (int t = 0; t < n; t++) ts.push_back(std::thread(caller, &all[t], r.next(), &gate, n)); for (auto& t : ts) t.join();
    wrap::jitter() = 0; for (auto& v : all) for (auto& c : v) c->verify(); vh::stat_add("concurrent_rounds", 1);
  }
  for (long i = 0; i < a.num("wide", 0); i++) { Rng r(vh::mix(a.seed * 7, i)); wide(r, i); }
  e8::FreePersistentResources();
  vh::stat_add("resource_frees", g_frees); vh::stat_add("thread_limit_changes", g_sets);
  return vh::done();
}
