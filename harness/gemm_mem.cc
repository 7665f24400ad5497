// C04: memory footprint of a product.  Operands, parameters and result lie
// against inaccessible pages, operands are read-only while the product runs,
// scratch lies against inaccessible pages, and results must not depend on what
// padding or scratch contain.  With ASan/valgrind padding is inaccessible too.
#ifndef __SANITIZE_ADDRESS__
#define WRAP_ALLOC
#endif
#include "wrap.h"
#define ONLY_OFF01
#include "pipes.h"
#ifdef USE_VG
#include <valgrind/memcheck.h>
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif
using namespace gc;

template <typename T> static void hide_padding(Mat<T>& m, bool hide) {
#if defined(USE_VG) || defined(__SANITIZE_ADDRESS__)
  if (!m.rows || !m.cols) return;
  int in = m.rm ? m.cols : m.rows, out = m.rm ? m.rows : m.cols;
  for (int o = 0; o + 1 < out; o++) {
    T* b = m.data + (size_t)o * m.stride + in; size_t n = (size_t)(m.stride - in) * sizeof(T);
    if (!n) continue;
#ifdef USE_VG
    if (hide) VALGRIND_MAKE_MEM_NOACCESS(b, n); else VALGRIND_MAKE_MEM_DEFINED(b, n);
#else
    // shadow granules are 8 bytes: hide whole granules and the tail of the one the row ends in
    uintptr_t s = (uintptr_t)b, e = (s + n) & ~(uintptr_t)7;
    if (e > s) { if (hide) __asan_poison_memory_region((void*)s, e - s); else __asan_unpoison_memory_region((void*)s, e - s); }
#endif
  }
#ifdef USE_VG
  size_t ext = m.extent(); T* e = &m.store[0] + m.store.size();
  if (hide) { VALGRIND_MAKE_MEM_NOACCESS(&m.store[0], (char*)m.data - (char*)&m.store[0]); VALGRIND_MAKE_MEM_NOACCESS(m.data + ext, (char*)e - (char*)(m.data + ext)); }
  else { VALGRIND_MAKE_MEM_DEFINED(&m.store[0], (char*)m.data - (char*)&m.store[0]); VALGRIND_MAKE_MEM_DEFINED(m.data + ext, (char*)e - (char*)(m.data + ext)); }
#endif
#endif
}
template <typename T> static void set_padding(Mat<T>& m, int v) {
  int in = m.rm ? m.cols : m.rows, out = m.rm ? m.rows : m.cols;
  for (int o = 0; o + 1 < out; o++) for (int p = in; p < m.stride; p++) m.data[(size_t)o * m.stride + p] = (T)v;
}
static void protect(const vh::GuardBuf& g, bool ro) { if (g.base) mprotect(g.base + g.pg, g.total - 2 * g.pg, ro ? PROT_READ : PROT_READ | PROT_WRITE); }

int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  long mac = a.num("mac", 400000); long heap = a.num("heap", 0);
  GemmContext* ctx = new GemmContext;
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 509 + BD, i));
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
    int id = pick_pipe(r);
    if (r.chance(2, 3)) { c.m = (int)r.range(1, 40); c.n = (int)r.range(1, 40); c.k = (int)r.range(1, 70); if (r.chance(1, 4)) c.k = (int)r.range(1, 400); } else gen_shape(r, &c, mac);
    gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, id);
    gen_offsets(r, &c, 2); gen_ctx(r, &c, a.num("mt", 1)); c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    int gm = heap ? 0 : 1 + (int)r.range(0, 1);
    vh::set_case("i=%ld guard=%s pipeline=%s %s", i, gm == 0 ? "heap" : gm == 1 ? "after" : "before", pipe_name(id), c.str().c_str());
    if (r.chance(1, 2)) { delete ctx; ctx = new GemmContext; }  // scratch sized exactly for this product
#ifdef WRAP_ALLOC
    wrap::reg().guard = heap ? 0 : 1 + (int)r.range(0, 1); wrap::reg().fill = heap ? 0 : 1 + (r.next() >> 1);
#endif
    Problem<InT> p; p.fill(c, gm); PipeParams q; q.gen(r, c.m, c.n, acc_bound(c), gm ? gm : 1);
    p.lhs.snap(); p.rhs.snap();
    std::vector<int32_t> first, again;
    AnyOut o; o.init(pipe_type(id), c, gm, (int)r.range(0, 255));
    apply_ctx(ctx, c);
    bool ro = r.chance(3, 4) && gm;
    if (ro) { protect(p.lhs.guard, true); protect(p.rhs.guard, true); protect(p.glo, true); protect(p.gro, true); for (int g = 0; g < 4; g++) protect(q.g[g], true); }
    hide_padding(p.lhs, true); hide_padding(p.rhs, true); if (o.t == 0) hide_padding(o.a, true);
    if (o.t == 1) hide_padding(o.b, true); if (o.t == 2) hide_padding(o.c, true);
#ifdef USE_VG
    if (o.t == 0) { for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) VALGRIND_MAKE_MEM_UNDEFINED(&o.a.at(x, y), 4); }
    if (o.t == 1) { for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) VALGRIND_MAKE_MEM_UNDEFINED(&o.b.at(x, y), 1); }
    unsigned e0 = VALGRIND_COUNT_ERRORS;
#endif
    run_pipe(id, ctx, p, q, &o);
#ifdef USE_VG
    unsigned e1 = VALGRIND_COUNT_ERRORS;
    if (e1 != e0) vh::viol("memcheck-error", "%u memory errors during the product", e1 - e0);
    long undef = 0;
    if (o.t == 0) { for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) { unsigned char vb[4]; VALGRIND_GET_VBITS(&o.a.at(x, y), vb, 4); undef += (vb[0] | vb[1] | vb[2] | vb[3]) != 0; } }
    if (o.t == 1) { for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) { unsigned char vb[1]; VALGRIND_GET_VBITS(&o.b.at(x, y), vb, 1); undef += vb[0] != 0; } }
    if (undef) vh::viol("uninitialised-result", "%ld entries depend on uninitialised memory", undef);
    if (o.t == 0) VALGRIND_MAKE_MEM_DEFINED(o.a.data, o.a.extent() * 4); if (o.t == 1) VALGRIND_MAKE_MEM_DEFINED(o.b.data, o.b.extent());
    vh::stat_add("results_checked_for_definedness", (long long)c.m * c.n);
#endif
    hide_padding(p.lhs, false); hide_padding(p.rhs, false); if (o.t == 0) hide_padding(o.a, false);
    if (o.t == 1) hide_padding(o.b, false); if (o.t == 2) hide_padding(o.c, false);
    if (ro) { protect(p.lhs.guard, false); protect(p.rhs.guard, false); protect(p.glo, false); protect(p.gro, false); for (int g = 0; g < 4; g++) protect(q.g[g], false); }
    if (!o.padding_intact()) vh::viol("wrote-outside-result", "padding or surroundings of the result changed");
    if (!p.lhs.unchanged() || !p.rhs.unchanged()) vh::viol("operand-modified", "");
    if (!q.unchanged()) vh::viol("parameters-modified", "");
    o.values(&first);
#ifndef USE_VG
    if (i % 2 == 0) {  // other padding, other scratch, other result fill
      set_padding(p.lhs, (int)r.next()); set_padding(p.rhs, (int)r.next());
#ifdef WRAP_ALLOC
      if (!heap) wrap::poison_live(r.next());
#endif
      AnyOut o2; o2.init(pipe_type(id), c, gm, (int)r.range(0, 255));
      run_pipe(id, ctx, p, q, &o2); o2.values(&again);
      if (again != first) vh::viol("depends-on-foreign-memory", "the result changes with padding, stale scratch or the result's old contents");
      if (!o2.padding_intact()) vh::viol("wrote-outside-result", "padding or surroundings of the result changed (second fill)");
      vh::stat_add("reruns_with_other_garbage", 1);
    }
#endif
    vh::stat_add("products", 1); if (ro) vh::stat_add("products_with_readonly_operands", 1);
    vh::distinct("cases", vh::mix(vh::mix(c.m * 4096 + c.n, c.k * 16 + id), vh::mix(c.lrm * 4 + c.rrm * 2 + c.orm, gm)));
    if (i % 97 == 3) vh::sample("%s guard=%d %s", pipe_name(id), gm, c.str().c_str());
  }
  delete ctx;
  vh::stat_add("guarded_scratch_blocks", wrap::reg().allocs);
  return vh::done();
}
