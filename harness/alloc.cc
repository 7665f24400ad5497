// C08: the scratch allocator against a model of its blocks and of the memory
// it obtained.
#define WRAP_ALLOC
#include "wrap.h"
#include <memory>
#include "public/gemmlowp.h"
using namespace gemmlowp;
struct Blk { Allocator::Handle h; int type; size_t n, bytes; unsigned char* p; uint64_t seed; };
template <typename T> static void* get(Allocator* a, const Allocator::Handle& h) { return a->GetPointer<T>(h); }
static void* ptr(Allocator* a, const Blk& b) {
  switch (b.type) { case 0: return get<uint8_t>(a, b.h); case 1: return get<int8_t>(a, b.h); case 2: return get<uint16_t>(a, b.h); case 3: return get<int16_t>(a, b.h); case 4: return get<uint32_t>(a, b.h); default: return get<int32_t>(a, b.h); }
}
static Allocator::Handle reserve(Allocator* a, int type, size_t n) {
  switch (type) { case 0: return a->Reserve<uint8_t>(n); case 1: return a->Reserve<int8_t>(n); case 2: return a->Reserve<uint16_t>(n); case 3: return a->Reserve<int16_t>(n); case 4: return a->Reserve<uint32_t>(n); default: return a->Reserve<int32_t>(n); }
}
static unsigned char byte(uint64_t seed, size_t i) { return (unsigned char)((seed + i * 2654435761u) >> 7); }
// fills ends and a sample of the middle; all of it when small
template <typename F> static void touch(size_t n, F f) {
  if (n <= 20000) { for (size_t i = 0; i < n; i++) f(i); return; }
  for (size_t i = 0; i < 4096; i++) f(i); for (size_t i = n - 4096; i < n; i++) f(i);
  for (size_t i = 4096; i < n - 4096; i += n / 997 + 1) f(i);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); wrap::Reg& g = wrap::reg();
  static const size_t tsz[] = {1, 1, 2, 2, 4, 4};
  size_t maxb = (size_t)a.num("max", 1 << 22);
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    vh::Rng r(vh::mix(a.seed, i)); g.guard = (int)r.range(0, 2); g.fill = r.next() | 1;
    int nal = r.chance(1, 5) ? 2 : 1; std::unique_ptr<Allocator> al[2]; std::vector<Blk> live[2]; uint64_t sig = nal;
    size_t live0 = g.live.size(); size_t bytes0 = g.bytes;
    for (int x = 0; x < nal; x++) al[x].reset(new Allocator);
    size_t have[2] = {0, 0}; std::vector<std::vector<std::pair<int, size_t> > > seen[2]; long rounds = r.range(1, 12); bool committed[2] = {false, false};
    for (long q = 0; q < rounds; q++) {
      int w = nal == 2 ? (int)r.range(0, 1) : 0;
      if (committed[w]) {  // two allocators interleave; finish this one's round first
        for (auto& b : live[w]) { if (ptr(al[w].get(), b) != b.p) vh::viol("block-moved", "within a round"); bool ok = true; touch(b.bytes, [&](size_t x) { ok &= b.p[x] == byte(b.seed, x); }); if (!ok) vh::viol("block-overwritten", "another block or allocator wrote to it"); }
        al[w]->Decommit(); live[w].clear(); committed[w] = false; continue;
      }
      int nb = (int)r.range(r.chance(1, 10) ? 0 : 1, 5); size_t need = 0; size_t before = g.allocs;
      std::vector<Blk> bs; std::vector<std::pair<int, size_t> > shape; bool again = !seen[w].empty() && r.chance(1, 5); std::vector<std::pair<int, size_t> > rep; if (again) { rep = seen[w][r.next() % seen[w].size()]; nb = (int)rep.size(); }
      for (int b = 0; b < nb; b++) {
        Blk k; k.type = (int)r.range(0, 5);
        switch (r.range(0, 6)) { case 0: k.n = (size_t)r.range(0, 3); break; case 1: k.n = (size_t)(64 / tsz[k.type]) * (size_t)r.range(1, 20) + (size_t)r.range(0, 2) - 1; break; case 2: k.n = (size_t)r.range(1, 300); break; case 3: { int e = (int)r.range(0, 20); k.n = ((size_t)1 << e) + (size_t)r.range(0, 2) - (e > 0); break; } case 4: k.n = have[w] / 5 / tsz[k.type]; break; default: k.n = (size_t)r.range(1, 1 << (int)r.range(2, 16)); }
        if (k.n * tsz[k.type] > maxb) k.n = maxb / tsz[k.type];
        if (again) { k.type = rep[b].first; k.n = rep[b].second; } shape.push_back(std::make_pair(k.type, k.n));
        k.bytes = k.n * tsz[k.type]; k.seed = r.next(); k.h = reserve(al[w].get(), k.type, k.n); need += (k.bytes + 63) / 64 * 64; bs.push_back(k); sig = vh::mix(sig, k.bytes);
      }
      vh::set_case("seed=%llu i=%ld allocator %d round %ld: %d blocks, %zu bytes, storage %zu", (unsigned long long)a.seed, i, w, q, nb, need, have[w]);
      al[w]->Commit(); committed[w] = true;
      long fresh = (long)(g.allocs - before);
      if (((again && need) || need + 128 * (size_t)nb <= have[w]) && fresh) vh::viol("storage-not-reused", "%zu bytes needed, %zu owned, yet %ld new allocations", need, have[w], fresh);
      if (fresh > 1) vh::viol("many-allocations", "%ld allocations in one commit", fresh);
      vh::stat_add(fresh ? "commits_that_grew" : "commits_that_reused", 1);
      for (auto& b : bs) {
        b.p = (unsigned char*)ptr(al[w].get(), b);
        if ((uintptr_t)b.p % 64) vh::viol("block-misaligned", "address %p", b.p);
        bool in = b.bytes == 0; for (auto& kv : g.live) { unsigned char* s = (unsigned char*)kv.second.p; if (b.p >= s && b.p + b.bytes <= s + kv.second.n) { in = true; have[w] = std::max(have[w], kv.second.n); } }
        if (!in) vh::viol("block-outside-storage", "%zu bytes at %p", b.bytes, b.p);
      }
      if (g.live.size() > live0 + nal) vh::viol("storage-leaked", "%zu live storage blocks for %d allocators", g.live.size() - live0, nal);
      for (size_t x = 0; x < bs.size(); x++) for (size_t y = x + 1; y < bs.size(); y++)
        if (bs[x].bytes && bs[y].bytes && bs[x].p < bs[y].p + bs[y].bytes && bs[y].p < bs[x].p + bs[x].bytes) vh::viol("blocks-overlap", "%p+%zu and %p+%zu", bs[x].p, bs[x].bytes, bs[y].p, bs[y].bytes);
      for (auto& b : bs) touch(b.bytes, [&](size_t x) { b.p[x] = byte(b.seed, x); });
      for (auto& b : bs) { bool ok = true; touch(b.bytes, [&](size_t x) { ok &= b.p[x] == byte(b.seed, x); }); if (!ok) vh::viol("block-overwritten", "filling one block changed another"); }
      for (auto& b : bs) if (ptr(al[w].get(), b) != b.p) vh::viol("block-moved", "second lookup differs");
      seen[w].push_back(shape); live[w] = bs; vh::stat_add("blocks", nb); vh::stat_add("commits", 1);
      if (nal == 1 || r.chance(1, 2)) {
        for (auto& b : live[w]) { bool ok = true; touch(b.bytes, [&](size_t x) { ok &= b.p[x] == byte(b.seed, x); }); if (!ok) vh::viol("block-overwritten", "before release"); }
        al[w]->Decommit(); live[w].clear(); committed[w] = false;
      }
    }
    for (int x = 0; x < nal; x++) { if (committed[x]) { for (auto& b : live[x]) { bool ok = true; touch(b.bytes, [&](size_t z) { ok &= b.p[z] == byte(b.seed, z); }); if (!ok) vh::viol("block-overwritten", "at the end"); } al[x]->Decommit(); } al[x].reset(); }
    if (g.live.size() != live0 || g.bytes != bytes0) vh::viol("not-returned", "%zu storage blocks, %zu bytes left after destruction", g.live.size() - live0, g.bytes - bytes0);
    vh::stat_add("allocators", nal); vh::distinct("cases", sig);
    if (i % 211 == 3) vh::sample("%s", vh::st().cur);
  }
  // more than 4 GB in one round, never touched
#if __SIZEOF_SIZE_T__ == 8 && !defined(__SANITIZE_ADDRESS__)
  if (a.num("huge", 0)) {
    g.guard = 1; g.fill = 0; static const size_t hs[] = {((size_t)1 << 32) + 64, ((size_t)3 << 32) + 12345, ((size_t)1 << 33) - 63, ((size_t)5 << 31) + 1};
    for (size_t s : hs) {
      vh::set_case("one round of %zu bytes and a small block", s); Allocator al; auto h1 = al.Reserve<uint8_t>(s); auto h2 = al.Reserve<int32_t>(1000); al.Commit();
      uint8_t* p = al.GetPointer<uint8_t>(h1); int32_t* q = al.GetPointer<int32_t>(h2); p[0] = 1; p[s - 1] = 2; q[0] = 3; q[999] = 4;
      if (p[s - 1] != 2 || p[0] != 1 || (uint8_t*)q < p + s) vh::viol("blocks-overlap", "huge block");
      al.Decommit(); vh::stat_add("commits", 1); vh::stat_add("commits_over_4GB", 1);
    }
  }
#endif
  return vh::done();
}
