// C01: raw int32 accumulators equal the exact product for random problems.
#include "gemm_call.h"
using namespace gc;

int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  long mac = a.num("mac", 3000000);
  std::vector<gemmlowp::GemmContext*> pool;
  gemmlowp::GemmContext* ctx = new gemmlowp::GemmContext;
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 131 + BD, i));
    Case c; memset((void*)&c, 0, sizeof c);
    set_ranges(&c);
    gen_shape(r, &c, mac);
    // a slice of the run enumerates small shapes systematically
    if (i % 4 == 0) {
      long q = i / 4 + (long)(a.seed * 977 % 4096);
      c.m = 1 + (int)(q % 27); c.n = 1 + (int)((q / 27) % 27); c.k = 1 + (int)((q * 5 + q / 729) % 35);
    }
    if (i % 53 == 7) {  // the deepest sums that still fit in 32 bits
      c.m = (int)r.range(1, 28); c.n = (int)r.range(1, 12); c.k = (int)r.range(20000, 32700);
    }
    if (i % 401 == 17) {  // large in every dimension
      long lim = a.num("bigmac", 60000000); c.m = (int)r.range(200, 1500); c.n = (int)r.range(100, 1200); c.k = (int)(lim / ((long)c.m * c.n)); c.k = 1 + c.k / 2 + (int)r.range(0, c.k / 2);
    }
    gen_layout(r, &c);
    if (i % 61 == 5 && (long)c.m * c.n * c.k < 20000) {  // long strides
      int* pads[] = {&c.lpad, &c.rpad, &c.opad}; *pads[r.range(0, 2)] = (int)r.range(1000, 70000);
    }
    fix_orders(&c);
    gen_offsets(r, &c, 4);
    gen_ctx(r, &c, true);
    c.dmode = (int)r.range(0, 9);
    c.dseed = r.next();
    vh::set_case("i=%ld bd=%d %s", i, BD, c.str().c_str());
    if (r.chance(1, 3)) { delete ctx; ctx = new gemmlowp::GemmContext; }
    #ifdef GUARDED  // operands and result flush against an inaccessible page, in front or behind
    const int gm = 1 + (int)(i & 1);
#else
    const int gm = 0;
#endif
    Problem<InT> p; p.fill(c, gm);
    p.oracle();
    Mat<std::int32_t> out;
    out.init(c.m, c.n, c.orm, c.opad, c.omis, gm, (std::int32_t)0xDEADBEEF);
    if (gm) { p.lhs.snap(); p.rhs.snap(); }
    apply_ctx(ctx, c);
    callN<Bdp>(ctx, p, &out, std::make_tuple());
    if (gm && (!p.lhs.unchanged() || !p.rhs.unchanged())) vh::viol("operand-written", "an operand changed");
    if (gm && !out.padding_intact()) vh::viol("outside-written", "memory around the result's entries changed");
    long bad = 0; int bi = -1, bj = -1;
    for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++)
      if (out.at(x, y) != p.acc[(size_t)x * c.n + y]) { if (!bad) { bi = x; bj = y; } bad++; }
    if (bad)
      vh::viol("gemm-wrong", "%ld of %d entries wrong, first (%d,%d): got %d want %d", bad, c.m * c.n, bi, bj,
               out.at(bi, bj), p.acc[(size_t)bi * c.n + bj]);
    vh::stat_add(gm ? "products" : "gemms", 1);
    vh::stat_add("entries_checked", (long long)c.m * c.n);
    if (c.threads != 1) vh::stat_add("gemms_multithread_requested", 1);
    if (c.m < c.n) vh::stat_add("gemms_transposed", 1);
    vh::distinct("cases", vh::mix(vh::mix(c.m * 4096 + c.n, c.k), c.lrm * 4 + c.rrm * 2 + c.orm + 8 * c.offmode));
    vh::distinct("residue_classes", ((c.m % 24) * 24 + c.n % 8) * 64 + (c.k % 32));
    if (i % 97 == 3) vh::sample("bd=%d %s -> first acc %d", BD, c.str().c_str(), p.acc[0]);
  }
  // zero-sized problems leave the result alone
  if (a.only < 0) for (int z = 0; z < 3; z++) {
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
    c.m = z == 0 ? 0 : 5; c.n = z == 1 ? 0 : 6; c.k = z == 2 ? 0 : 7; c.orm = 1; c.threads = 1; c.dseed = 1; fix_orders(&c);
    vh::set_case("zero-size z=%d", z);
    Problem<InT> p; p.fill(c, 0);
    Mat<std::int32_t> out; out.init(c.m, c.n, 1, 0, 0, 0, 77);
    apply_ctx(ctx, c);
    callN<Bdp>(ctx, p, &out, std::make_tuple());
    for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++)
      if (out.at(x, y) != 77) { vh::viol("vacuous-gemm-wrote", "entry (%d,%d)", x, y); x = c.m; break; }
    vh::stat_add("vacuous_gemms", 1);
  }
  delete ctx;
  return vh::done();
}
