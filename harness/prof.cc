// C15: the profiler, seen only through its public interface (labels,
// registration, start, finish and the printed tree).  Its tick is shortened at
// link time so that one run takes many samples; delays are injected around
// every lock.  Three kinds of round:
//   churn  threads start, register, open/close/retitle nested labels, leave
//          scopes by exceptions and finish while sampling goes on; every path
//          printed must be a stack some thread really had;
//   held   threads stop with a known stack while sampling: the printed tree is
//          known exactly, at the deepest point, after unwinding part of the
//          way and after unwinding completely;
//   gemm   products run while sampling and churning; results must be exact.
#define WRAP_SCHED
#include "wrap.h"
#define ONLY_OFF01
#define GEMMLOWP_PROFILING
#include "pipes.h"
#include "profiling/profiler.h"
#include <thread>
#include <memory>
using namespace gc;
using gemmlowp::ScopedProfilingLabel;
extern "C" int __real_nanosleep(const struct timespec*, struct timespec*);
static std::atomic<long> g_ticks(0);
extern "C" int __wrap_nanosleep(const struct timespec* t, struct timespec* rem) {
  if (t->tv_sec == 0 && t->tv_nsec < 1000000) return __real_nanosleep(t, rem);
  g_ticks++; struct timespec s = {0, 20000}; return __real_nanosleep(&s, rem);
}
static char g_lab[48][8];
static void init_labels() { for (int i = 0; i < 48; i++) snprintf(g_lab[i], 8, "q%02d", i); }
typedef std::vector<int> Path;
static uint64_t ph(const Path& p) { uint64_t h = 77; for (int x : p) h = vh::mix(h, x + 1); return h; }
struct Truth { std::set<uint64_t> seen; void note(const Path& p) { seen.insert(ph(p)); } };
struct Stop {};
static void spin(Rng& r, int q) { int z = (int)(r.next() % q); if (z == 0) sched_yield(); else if (z == 1) { struct timespec t = {0, (long)r.range(100, 60000)}; nanosleep(&t, 0); } else for (volatile int i = 0; i < z * 20; i++) {} }
// random balanced label activity below `p`
static void noise(Rng& r, Path& p, Truth* t, int budget, int maxd) {
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n && budget > 0; i++, budget--) {
    size_t d0 = p.size();
    try {
      int l = (int)r.range(0, 47); p.push_back(l); t->note(p);
      ScopedProfilingLabel L(g_lab[l]);
      spin(r, 14);
      if (r.chance(1, 3)) { int l2 = (int)r.range(0, 47); p.back() = l2; t->note(p); L.Update(g_lab[l2]); spin(r, 20); }
      if ((int)p.size() < maxd && r.chance(2, 3)) noise(r, p, t, budget / 2, maxd);
      if (r.chance(1, 12)) throw Stop();
    } catch (Stop&) { if (r.chance(1, 3) && d0) { p.resize(d0); throw; } }
    p.resize(d0);
  }
}
// ---- printed tree -----------------------------------------------------------
struct Line { std::vector<std::string> path; double pct; };
struct Report { bool ok; long threads, samples; std::vector<Line> lines; std::string text; };
static std::string g_capture;
static int g_cap_fd, g_out_fd;
static void finish_and_capture(Report* R) {
  fflush(stdout);
  if (ftruncate(g_cap_fd, 0)) {} lseek(g_cap_fd, 0, SEEK_SET); dup2(g_cap_fd, 1);
  gemmlowp::FinishProfiling();
  fflush(stdout); dup2(g_out_fd, 1);
  R->text.clear(); char buf[4096]; ssize_t n; lseek(g_cap_fd, 0, SEEK_SET); while ((n = read(g_cap_fd, buf, sizeof buf)) > 0) R->text.append(buf, n);
  R->ok = false; R->lines.clear(); R->threads = R->samples = -1; std::vector<std::string> cur; size_t at = 0; bool head = false;
  while (at < R->text.size()) {
    size_t e = R->text.find('\n', at); if (e == std::string::npos) e = R->text.size(); std::string l = R->text.substr(at, e - at); at = e + 1; if (l.empty()) continue;
    if (!head) { if (sscanf(l.c_str(), "gemmlowp profile (%ld threads, %ld samples)", &R->threads, &R->samples) != 2) { vh::viol("report-malformed", "'%.80s'", l.c_str()); return; } head = true; continue; }
    size_t sp = l.find_first_not_of(' '); char* end; double pct = strtod(l.c_str() + sp, &end); size_t lev = sp / 4;
    if (sp % 4 || strncmp(end, "% ", 2) || lev > cur.size()) { vh::viol("report-malformed", "'%.80s'", l.c_str()); return; }
    cur.resize(lev); cur.push_back(end + 2); Line L; L.path = cur; L.pct = pct; R->lines.push_back(L);
  }
  if (!head) { vh::viol("report-missing", "nothing printed"); return; }
  R->ok = true; vh::stat_add("profiles", 1); vh::stat_add("samples", R->samples); vh::stat_add("report_nodes", (long long)R->lines.size());
}
static int label_of(const std::string& s) { for (int i = 0; i < 48; i++) if (s == g_lab[i]) return i; return -1; }
static std::string show(const std::vector<std::string>& p) { std::string o; for (auto& s : p) o += "/" + s; return o; }
// Sums: the children of a node never exceed it, and make it up when 'other' is listed.
static void check_sums(const Report& R) {
  for (size_t i = 0; i <= R.lines.size(); i++) {
    std::vector<std::string> base; double w = 100.0; size_t j = 0; if (i) { base = R.lines[i - 1].path; w = R.lines[i - 1].pct; j = i; }
    double sum = 0; int kids = 0; bool other = false;
    for (; j < R.lines.size() && (i == 0 || R.lines[j].path.size() > base.size()); j++)
      if (R.lines[j].path.size() == base.size() + 1) { sum += R.lines[j].pct; kids++; if (R.lines[j].path.back().compare(0, 5, "other") == 0) other = true; }
    if (kids && sum > w + 0.006 * (kids + 1)) vh::viol("children-exceed-parent", "%s has %.2f%%, its children %.2f%%", show(base).c_str(), w, sum);
    if (kids && other && sum < w - 0.006 * (kids + 1)) vh::viol("children-do-not-add-up", "%s has %.2f%%, its children with 'other' %.2f%%", show(base).c_str(), w, sum);
    if (kids && !other) vh::viol("children-do-not-add-up", "%s lists no 'other'", show(base).c_str());
  }
}
static void check_paths(const Report& R, const Truth& t, bool foreign) {
  for (auto& L : R.lines) {
    Path p; bool mine = true; size_t n = L.path.size(); if (L.path.back().compare(0, 5, "other") == 0) n--;
    for (size_t i = 0; i < n; i++) { int l = label_of(L.path[i]); if (l < 0) { mine = false; break; } p.push_back(l); }
    if (!mine) { if (!foreign) vh::viol("unknown-label", "%s", show(L.path).c_str()); continue; }
    if (p.size() && !t.seen.count(ph(p))) vh::viol("stack-never-existed", "%s reported with %.2f%% but no thread ever had it", show(L.path).c_str(), L.pct);
    vh::stat_add("paths_checked", 1);
  }
}
// ---- rounds -----------------------------------------------------------------
static bool g_main_registered = false;
static void churn_thread(uint64_t seed, int reg, int work, Truth* t) {
  Rng r(seed); Path p; if (reg == 1) gemmlowp::RegisterCurrentThreadForProfiling();
  if (reg == 3) { spin(r, 3); return; }  // never touches the profiler
  for (int i = 0; i < work; i++) {
    try { noise(r, p, t, 12, 9); } catch (Stop&) { p.clear(); }
    if (reg == 2 && i == work / 2) gemmlowp::RegisterCurrentThreadForProfiling();
    if (r.chance(1, 6)) gemmlowp::RegisterCurrentThreadForProfiling();
  }
}
static void churn_many(Rng& r, int waves, int width, Truth* all, long* started) {
  for (int w = 0; w < waves; w++) {
    int n = (int)r.range(1, width); std::vector<std::unique_ptr<Truth> > ts; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) { ts.emplace_back(new Truth); th.emplace_back(churn_thread, r.next(), (int)r.range(0, 3), (int)r.range(1, 6), ts.back().get()); }
    for (auto& t : th) t.join();
    for (auto& t : ts) all->seen.insert(t->seen.begin(), t->seen.end());
    *started += n;
  }
}
struct Gate {
  pthread_mutex_t m; pthread_cond_t c; int in, phase, need;
  explicit Gate(int n) : in(0), phase(0), need(n) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); }
  void hold(int ph) { __real_pthread_mutex_lock(&m); in++; __real_pthread_cond_broadcast(&c); while (phase <= ph) __real_pthread_cond_wait(&c, &m); __real_pthread_mutex_unlock(&m); }
  void wait_all() { __real_pthread_mutex_lock(&m); while (in < need) __real_pthread_cond_wait(&c, &m); in = 0; __real_pthread_mutex_unlock(&m); }
  void release() { __real_pthread_mutex_lock(&m); phase++; __real_pthread_cond_broadcast(&c); __real_pthread_mutex_unlock(&m); }
};
struct Held { Path at[3]; bool reg; int target, t2; uint64_t seed; Gate* g; };
static void held_rec(Held* h, Rng& r, Path& p, Truth* t, int depth) {
  if (depth == h->target) {
    if (r.chance(2, 3)) { try { noise(r, p, t, 6, depth + 4); } catch (Stop&) { p.resize(depth); } }
    h->at[0] = p; h->g->hold(0);
  } else {
    int l = (int)r.range(0, 7); p.push_back(l); ScopedProfilingLabel L(g_lab[l]);
    if (r.chance(1, 3)) { try { noise(r, p, t, 4, depth + 3); } catch (Stop&) { p.resize(depth + 1); } }
    if (r.chance(1, 4)) { p.back() = (int)r.range(0, 7); L.Update(g_lab[p.back()]); }
    held_rec(h, r, p, t, depth + 1);
    if (r.chance(1, 3)) { try { noise(r, p, t, 4, depth + 3); } catch (Stop&) { p.resize(depth + 1); } }
    if (depth + 1 == h->t2) { h->at[1] = p; h->g->hold(1); }
    if (r.chance(1, 8) && depth + 1 < h->t2) { p.back() = (int)r.range(0, 7); L.Update(g_lab[p.back()]); }
  }
  if ((int)p.size() > depth) p.pop_back();
}
static void held_thread(Held* h) {
  Rng r(h->seed); Path p; Truth t; bool early = r.chance(1, 2);
  if (h->reg && early) gemmlowp::RegisterCurrentThreadForProfiling();
  { Path q; try { noise(r, q, &t, 10, 6); } catch (Stop&) {} }
  if (h->reg && !early) gemmlowp::RegisterCurrentThreadForProfiling();
  held_rec(h, r, p, &t, 0);
  if (h->t2 == 0) { h->at[1] = p; h->g->hold(1); }
  h->at[2] = p; h->g->hold(2);
}
static long g_held_profiles, g_held_sampled;
static void check_exact(const Report& R, const std::vector<Path>& stacks, const char* what) {
  long n = (long)stacks.size();
  if (R.threads != n) vh::viol("thread-count-wrong", "%s: report says %ld threads, %ld are registered and alive", what, R.threads, n);
  if (n == 0) { if (R.samples) vh::viol("samples-from-nobody", "%s: %ld samples without a registered thread", what, R.samples); return; }
  if (R.samples % n) vh::viol("uneven-samples", "%s: %ld samples of %ld threads", what, R.samples, n);
  g_held_profiles++; if (!R.samples) return; g_held_sampled++;
  std::map<std::vector<std::string>, long> want; std::map<std::vector<std::string>, long> ends; std::set<std::vector<std::string> > inner;
  for (auto& s : stacks) { std::vector<std::string> q; for (int l : s) { inner.insert(q); q.push_back(g_lab[l]); want[q]++; } ends[q]++; }
  for (auto& q : inner) { std::vector<std::string> o = q; o.push_back(q.empty() ? "other (outside of any label)" : "other"); want[o] = ends.count(q) ? ends[q] : 0; }
  std::map<std::vector<std::string>, double> got; for (auto& L : R.lines) got[L.path] += L.pct;
  for (auto& kv : want) {
    double w = 100.0 * kv.second / n; auto it = got.find(kv.first);
    if (it == got.end()) { if (kv.second) vh::viol("stack-missing", "%s: %s held by %ld of %ld threads is not reported", what, show(kv.first).c_str(), kv.second, n); }
    else if (std::abs(it->second - w) > 0.0065) vh::viol("weight-wrong", "%s: %s reported %.2f%%, held by %ld of %ld threads (%ld samples)", what, show(kv.first).c_str(), it->second, kv.second, n, R.samples);
  }
  for (auto& kv : got) if (!want.count(kv.first)) vh::viol("stack-never-existed", "%s: %s reported with %.2f%%", what, show(kv.first).c_str(), kv.second);
  vh::stat_add("exact_nodes_checked", (long long)want.size());
}
static void held_round(Rng& r) {
  int n = (int)r.range(0, 9); Gate g(n); std::vector<std::unique_ptr<Held> > hs; std::vector<std::thread> th;
  for (int i = 0; i < n; i++) { std::unique_ptr<Held> h(new Held); h->reg = r.chance(5, 6); h->target = (int)r.range(0, r.chance(1, 6) ? 26 : 6); h->t2 = (int)r.range(0, h->target); h->seed = r.next(); h->g = &g; hs.push_back(std::move(h)); }
  for (auto& h : hs) th.emplace_back(held_thread, h.get());
  for (int phase = 0; phase < 3; phase++) {
    if (n) g.wait_all();
    std::vector<Path> stacks; uint64_t sig = phase; for (auto& h : hs) if (h->reg) { stacks.push_back(h->at[phase]); sig = vh::mix(sig, ph(h->at[phase])); } if (g_main_registered) stacks.push_back(Path());
    gemmlowp::StartProfiling(); long t0 = g_ticks; for (int w = 0; w < 200 && g_ticks < t0 + 3; w++) { struct timespec t = {0, 200000}; __real_nanosleep(&t, 0); }
    Report R; finish_and_capture(&R); g.release();
    char nm[64]; snprintf(nm, sizeof nm, "held phase %d", phase);
    if (R.ok) { check_sums(R); check_exact(R, stacks, nm); vh::distinct("cases", sig); }
  }
  for (auto& t : th) t.join();
}
static void gemm_some(Rng& r, int count, long mac) {
  static std::unique_ptr<GemmContext> keep;
  for (int i = 0; i < count; i++) {
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c); gen_shape(r, &c, mac); gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, 0); gen_offsets(r, &c, 1); gen_ctx(r, &c, true); c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    Problem<InT> p; p.fill(c, 0); p.oracle(); PipeParams q; q.gen(r, c.m, c.n, acc_bound(c), 1); AnyOut o; o.init(pipe_type(0), c, 0, 1);
    if (!keep || r.chance(1, 4)) keep.reset(new GemmContext); apply_ctx(keep.get(), c);
    { ScopedProfilingLabel L(g_lab[0]); run_pipe(0, keep.get(), p, q, &o); }
    std::vector<int32_t> got; o.values(&got); if (got != p.acc) vh::viol("result-changed-by-profiling", "%s", c.str().c_str());
    vh::stat_add("profiled_products", 1);
  }
  keep.reset();
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); init_labels(); wrap::jseed() = a.seed * 999; FILE* f = tmpfile(); if (!f) { perror("tmpfile"); return 3; } g_cap_fd = fileno(f); g_out_fd = dup(1);
  long started = 0; int waves = (int)a.num("waves", 4), width = (int)a.num("width", 6); long mac = a.num("mac", 200000);
  if (a.seed % 2) { gemmlowp::RegisterCurrentThreadForProfiling(); g_main_registered = true; }
  for (long i = 0; i < a.cases; i++) {
    Rng r(vh::mix(a.seed * 131, i)); int kind = (int)r.range(0, 3);
    vh::set_case("round %ld (%s)", i, kind < 2 ? "churn" : kind == 2 ? "held" : "gemm");
    wrap::jitter() = (int)r.range(0, 2);
    if (kind < 2) {
      Truth t; if (r.chance(1, 4)) churn_many(r, 1, width, &t, &started);
      gemmlowp::StartProfiling(); churn_many(r, (int)r.range(1, waves), width, &t, &started);
      std::unique_ptr<Truth> late(new Truth); bool l = r.chance(1, 2); std::thread th; if (l) { th = std::thread(churn_thread, r.next(), 1, 8, late.get()); started++; }
      Report R; finish_and_capture(&R); if (l) { th.join(); t.seen.insert(late->seen.begin(), late->seen.end()); }
      if (R.ok) { check_sums(R); check_paths(R, t, false); if (!l && R.threads != g_main_registered) vh::viol("thread-count-wrong", "all threads finished, report says %ld", R.threads); }
      uint64_t h = 3; for (auto& L : R.lines) h = vh::mix(h, (uint64_t)L.path.size() * 977 + label_of(L.path[0])); vh::distinct("cases", h);
      if (i % 9 == 2) vh::sample("churn: %ld samples, %zu nodes, %zu stacks existed", R.samples, R.lines.size(), t.seen.size());
    } else if (kind == 2) held_round(r);
    else {
      Truth t; t.note(Path(1, 0)); std::thread bg; long st2 = 0; uint64_t s = r.next(); bool b = r.chance(1, 2);
      gemmlowp::StartProfiling(); if (b) bg = std::thread([&] { Rng q(s); churn_many(q, 2, 3, &t, &st2); });
      gemm_some(r, (int)r.range(1, 4), mac); if (b) bg.join(); started += st2;
      Report R; finish_and_capture(&R);
      if (R.ok) { check_sums(R); check_paths(R, t, true); if (R.threads != g_main_registered) vh::viol("thread-count-wrong", "all threads finished, report says %ld", R.threads); }
    }
    wrap::jitter() = 0;
    pthread_key_t k; int e = pthread_key_create(&k, 0); if (e) { vh::viol("thread-keys-exhausted", "pthread_key_create fails (%d) after %ld labelled threads came and went", e, started); break; } pthread_key_delete(k);
    vh::stat_add("rounds", 1);
  }
  if (g_held_profiles >= 20 && !g_held_sampled) vh::viol("nothing-sampled", "%ld profiles of threads that kept their labels recorded no sample", g_held_profiles);
  vh::stat_add("held_profiles", g_held_profiles); vh::stat_add("held_profiles_with_samples", g_held_sampled);
  vh::stat_add("threads_started", started); vh::stat_add("profiler_ticks", g_ticks); vh::stat_add("injected_delays", wrap::jcount());
  return vh::done();
}
