// C21: sessions neither touch invalid memory nor leak.  Random activities over
// the whole library run under memory monitors; a session in a thread of its
// own is repeated, and the memory, file descriptors and blocks left behind by a
// repetition must be none.
#include "acts.h"
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
#include <adolc/adtl_indo.h>
#include <dirent.h>
#include <execinfo.h>
#include <unordered_map>
namespace adtl { inline double valOf(const adouble &v) { return v.getValue(); } }
namespace adtl_hov { inline double valOf(const adouble &v) { return v.getValue(); } }
namespace ADOLC::Sparse::adtl_indo { inline double valOf(const adouble &v) { return v.getValue(); } }
using namespace vh; using namespace acts;
#if defined(__SANITIZE_ADDRESS__)
extern "C" { size_t __sanitizer_get_current_allocated_bytes(); int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)); }
static bool counting() { return true; }
static size_t heapBytes() { return __sanitizer_get_current_allocated_bytes(); }
// ---- attribution of what a repetition leaves behind -----------------------------
struct Blk { size_t n; void *pc[14]; int k; };
static std::atomic<bool> watching{false};
static thread_local bool inHook = false;
static std::unordered_map<const volatile void *, Blk> *blocks = nullptr;
static void onMalloc(const volatile void *p, size_t n) { if (!watching.load(std::memory_order_relaxed) || inHook) return; inHook = true; Blk b; b.n = n; b.k = backtrace(b.pc, 14); (*blocks)[p] = b; inHook = false; }
static void onFree(const volatile void *p) { if (!watching.load(std::memory_order_relaxed) || inHook || !p) return; inHook = true; blocks->erase(p); inHook = false; }
static void hooks() { blocks = new std::unordered_map<const volatile void *, Blk>(1 << 16); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }
static std::string attribution() {
  std::map<std::string, std::pair<long, size_t>> sites;
  for (auto &q : *blocks) { std::string s; char **nm = backtrace_symbols(q.second.pc, q.second.k); int taken = 0; for (int i = 0; i < q.second.k && taken < 7; ++i) { std::string t = nm[i]; size_t a = t.find("+0x"), e = t.find(')', a); if (a != std::string::npos) { s += t.substr(a, e - a) + " "; ++taken; } } free(nm); auto &w = sites[s]; w.first++; w.second += q.second.n; }
  std::string out; int k = 0; for (auto &q : sites) { if (++k > 4) break; out += cat(" [", q.second.first, " blocks ", q.second.second, " bytes at ", q.first, "]"); }
  return out;
}
#else
static bool counting() { return false; }
static size_t heapBytes() { return 0; }
static void hooks() {}
static std::string attribution() { return ""; }
struct Dummy { bool load() const { return false; } void store(bool) {} };
static Dummy watching;
static std::map<int, int> *blocks = new std::map<int, int>;
#endif
#if defined(VH_MEMCHECK)
#include <valgrind/memcheck.h>
#endif
static size_t openFiles() { size_t k = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++k; closedir(d); return k; }
template <class A> static void program(const Prog &p, const std::vector<double> &x, const std::function<void(A &, int)> &seed, const std::function<void(const A &)> &out) {
  std::vector<A> r; r.reserve((size_t)p.nr); for (int i = 0; i < p.nr; ++i) r.emplace_back(0.0);
  for (int i = 0; i < p.n; ++i) { r[(size_t)i] = x[(size_t)i]; seed(r[(size_t)i], i); }
  for (auto &I : p.code) exec1<A>(I, r);
  for (int d : p.dep) out(r[(size_t)d]);
}
static void actTapeless(Rng g) {
  GenOpt o; o.lenmin = 2; o.lenmax = 12; o.param = false; o.nmax = 4; o.points = 1; o.bulkmax = 8; o.allow.assign(NOPS, true); o.allow[FREXP] = false;
  const int kind = g.in(0, 2);
  if (kind == 1) for (int q : {TAN, ASIN, ACOS, ATAN, ATAN2, POWV, LOG10, TANH, ASINH, ACOSH, ATANH, CEIL, FLOOR, FMIN, FMAX, CBRT, LDEXP, ERF, ERFC, COND4, COND3, CONDEQ4, CONDEQ3, AVSEL, AVLOOK, AVREAD, AVWRITE}) o.allow[(size_t)q] = false;
  Gen G = generate(g, o); const Prog &p = G.p; const auto &x = G.x[0];
  const size_t np = (size_t)g.in(1, 6);
  if (kind == 0) { ME->mark("adtl"); adtl::setNumDir(np); Mat S((size_t)p.n, np); for (auto &q : S.d) q = g.num();
    program<adtl::adouble>(p, x, [&](adtl::adouble &a, int i) { a.setADValue(S[(size_t)i]); }, [&](const adtl::adouble &a) { ME->put(a.getValue()); for (size_t l = 0; l < np; ++l) ME->put(a.getADValue((int)l)); });
  } else if (kind == 1) { ME->mark("adtl_hov"); const int d = g.in(1, 5); adtl_hov::setNumDir(np); adtl_hov::setDegree((size_t)d); const double z = g.num();
    program<adtl_hov::adouble>(p, x, [&](adtl_hov::adouble &a, int i) { for (size_t l = 0; l < np; ++l) { a.setADValue((int)l, z * (i + 1)); for (int k = 0; k < d; ++k) a.getOneADValue(k)[l] = z / (k + 1 + i); } },
      [&](const adtl_hov::adouble &b) { auto &a = const_cast<adtl_hov::adouble &>(b); ME->put(a.getValue()); for (size_t l = 0; l < np; ++l) for (int k = 0; k < d; ++k) ME->put(a.getOneADValue(k)[l]); });
  } else if (kind == 2) { ME->mark("adtl_indo");
#ifdef ADOLC_SPARSE
    program<ADOLC::Sparse::adtl_indo::adouble>(p, x, [&](ADOLC::Sparse::adtl_indo::adouble &, int) {}, [&](const ADOLC::Sparse::adtl_indo::adouble &a) { ME->put(a.getValue()); });
#endif
  }
}
static void actMemory(Rng g) {
  ME->mark("allocation");
  const size_t a = (size_t)g.in(0, 6), b = (size_t)g.in(0, 6), d = (size_t)g.in(0, 6);
  double *p = myalloc1(a); for (size_t i = 0; i < a; ++i) { ME->put(p[i]); p[i] = 1; }
  double **q = myalloc2(a, b); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { ME->put(q[i][j]); q[i][j] = 2; }
  double ***t = myalloc3(a, b, d); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) for (size_t k = 0; k < d; ++k) { ME->put(t[i][j][k]); t[i][j][k] = 3; }
  for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { ME->put(q[i][j]); for (size_t k = 0; k < d; ++k) ME->put(t[i][j][k]); }
  const size_t n = a + 1; double **I = myallocI2(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ME->put(I[i][j]);
  size_t *u = myalloc1_ulong(a + 1); u[a] = 1; size_t **v = myalloc2_ulong(a + 1, b + 1); v[a][b] = 4; unsigned *w = myalloc1_uint(a + 1); w[a] = 2;
  myfree1(p); myfree2(q); myfree3(t); myfreeI2(n, I); myfree1_ulong(u); myfree2_ulong(v); myfree1_uint(w);
}
// the same recording and evaluations again and again on one tape
struct Growth { std::vector<size_t> bytes; std::vector<size_t> store; };
static Growth rounds(const Script &s, uint64_t seed, int k, bool otherBetween) {
  Growth G; G.bytes.reserve(512); G.store.reserve(512);
  const short id = createNewTape();
  for (int r = 0; r < k; ++r) {
    const Prog &p = s.P[0]; const auto &x = s.X[0][0]; Rng g(seed);
    const int keep = g.in(0, 1); const bool small = g.chance(0.4), kf = g.chance(0.3);
    if (small) { const size_t a = (size_t)g.in(4, 40), b = (size_t)g.in(64, 200), d = (size_t)g.in(6, 40), e = (size_t)g.in(1, 40); trace_on(id, keep, a, b, d, e, 0); } else trace_on(id, keep);
    { setCurrentTape(id); std::vector<adouble> regs; regs.reserve((size_t)p.nr); double y; for (int i = 0; i < p.nr; ++i) { regs.emplace_back(); if (i < p.n) regs.back() <<= x[(size_t)i]; else regs.back() = 0.0; }
      for (auto &I : p.code) exec1<adouble>(I, regs); for (int d : p.dep) regs[(size_t)d] >>= y; }
    setCurrentTape(id); trace_off(kf);
    bt::Features f = bt::featuresOf(p); f.dmax = 3;
    { auto b = std::make_unique<bt::Battery>(id, p.n, p.m, s.X[0], f, seed + 1, keep); const int st = g.in(1, 14); for (int i = 0; i < st; ++i) b->step(); }
    if (otherBetween) { const short o = (short)(id + 1); if (r == 0) createNewTape(); trace_on(o); { setCurrentTape(o); adouble a; double y; a <<= 1.0; a = a * a; a >>= y; } trace_off(); double X = 2, z; gradient(o, 1, &X, &z); }
    G.bytes.push_back(heapBytes()); G.store.push_back(tapestats(id)[TapeInfos::NUM_MAX_LIVES]);
  }
  return G;
}
static void session(const std::vector<Script> &S, const std::vector<int> &acts, uint64_t seed, std::map<std::string, long> *calls, double *sum, int only = -1) {
  Th me; ME = &me; Rng g(seed);
  int at = -1;
  for (int a : acts) { Rng q(g.next()); if (++at != only && only >= 0) continue;
    switch (a) { case 0: actPlain(q); break; case 1: if (q.chance(0.4)) actExt2(q); else actExt(q); break; case 2: actCp(q); break; case 3: actFp(q); break; case 4: actPl(q); break; case 5: actSpace(q); break; case 6: actSparse(q); break; case 7: actScripts(S, q.next()); break; case 8: actTapeless(q); break; default: actMemory(q); }
  }
#if defined(VH_MEMCHECK)
  for (size_t i = 0; i < me.log.size(); ++i) if (VALGRIND_CHECK_MEM_IS_DEFINED(&me.log[i], sizeof(double))) throw std::runtime_error(cat("uninitialised result: ", me.at(i)));
#endif
  double s = 0; for (double v : me.log) if (v == v) s += v;
  if (sum) *sum = s + (double)me.log.size();
  if (calls) *calls = me.calls;
  ME = nullptr;
}
static const char *EXTRA[] = {"tapeless", "allocation"};
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  std::vector<int> acts; std::vector<Script> S; const int na = g.in(1, 5); const int focus = g.chance(0.5) ? g.in(0, 9) : -1; uint64_t h = 0;
  for (int i = 0; i < na; ++i) acts.push_back(focus >= 0 && g.chance(0.7) ? focus : g.in(0, 9));
  const int ns = g.in(1, 2); for (int i = 0; i < ns; ++i) S.push_back(makeScript(g, c.thorough));
  const uint64_t seed = g.next(); for (int a : acts) { h = hmix(h, (uint64_t)a); c.count(std::string("activity_") + (a < 8 ? ANAME[a] : EXTRA[a - 8])); }
  c.nontrivial(hmix(h, seed));
  std::string names; for (int a : acts) names += std::string(a < 8 ? ANAME[a] : EXTRA[a - 8]) + " ";
  if (c.idx < 40) c.sample(names);
  std::map<std::string, long> calls; double s0 = 0;
  c.phase(names);
  fresh([&] { session(S, acts, seed, &calls, &s0); });
  for (auto &q : calls) c.count("call_" + q.first.substr(0, q.first.find(' ')), q.second);
  c.count("sessions");
  if (!counting()) return;
  calls.clear();
  auto again = [&] { fresh([&] { session(S, acts, seed, nullptr, nullptr); }); };
  again();
  const size_t f0 = openFiles(), b0 = heapBytes(); again(); const size_t b1 = heapBytes(), f1 = openFiles();
  c.count("repetitions_measured");
  if (f1 != f0) c.violation("descriptors", cat("open descriptors ", f0, " before and ", f1, " after a session: ", names));
  if (b1 != b0) {
    // once more, with attribution
    again(); const size_t b2 = heapBytes();
    blocks->clear(); watching.store(true); again(); watching.store(false); const size_t b3 = heapBytes();
    if (b2 > b1 && b3 > b2) {
      std::string one; // which activity
      for (int k = 0; k < (int)acts.size() && one.empty(); ++k) { auto solo = [&] { fresh([&] { session(S, acts, seed, nullptr, nullptr, k); }); }; solo(); solo(); const size_t q1 = heapBytes(); solo(); if (heapBytes() > q1) one = acts[(size_t)k] < 8 ? ANAME[acts[(size_t)k]] : EXTRA[acts[(size_t)k] - 8]; }
      c.violation(cat("leak:", one), cat("every repetition of the session leaves memory: ", b1 - b0, ", ", b2 - b1, ", ", b3 - b2, " bytes; ", names, attribution()));
    }
  }
  // re-recording on one tape
  if (g.chance(0.6)) {
    const Script &s = S[0]; bool par = false; for (auto &I : s.P[0].code) par |= I.op == PARAM;
    if (!par) {
      const bool other = g.chance(0.5); const int k = g.in(5, 7); Growth G; c.phase("re-recording");
      fresh([&] { G = rounds(s, seed, k, other); });
      c.count("rerecordings", k);
      const size_t n = G.bytes.size();
      if (n >= 4 && G.bytes[n - 1] > G.bytes[n - 2] && G.bytes[n - 2] > G.bytes[n - 3]) c.violation("growth", cat("recording the same program again on the same tape grows memory: ", G.bytes[n - 3], " ", G.bytes[n - 2], " ", G.bytes[n - 1], " bytes, ", s.P[0].str()));
      if (G.store[n - 1] > G.store[1]) { // fragmentation may cost one more step; growth must end
        c.count("longer_rerecordings"); fresh([&] { G = rounds(s, seed, 400, other); });
        if (G.store[399] > G.store[99]) c.violation("store", cat("the store keeps growing: ", G.store[1], " after 2, ", G.store[99], " after 100, ", G.store[399], " after 400 equal recordings"));
        if (G.bytes[399] > G.bytes[398] && G.bytes[398] > G.bytes[397]) c.violation("growth", cat("recording the same program again on the same tape keeps growing memory, ", s.P[0].str()));
      }
    }
  }
}
int main(int argc, char **argv) { hooks(); return harness_main(argc, argv, [](Ctx &c) { oneCase(c); }); }
