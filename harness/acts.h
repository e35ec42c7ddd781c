// Activities a thread performs on tapes of its own: each from a seed, every
// number obtained appended to a log.
#pragma once
#include "actor.h"
#include <adolc/checkpointing.h>
#include <adolc/edfclasses.h>
#include <adolc/externfcts.h>
#include <adolc/fixpoint.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <unistd.h>
namespace acts {
using namespace vh; using namespace pg; using namespace at; using namespace act;
#if defined(__SANITIZE_THREAD__)
static constexpr bool COLPACK = false; // ColPack has races of its own
#else
static constexpr bool COLPACK = true;
#endif
using Log = std::vector<double>;
// what a thread has done last (for the report), and scheduling noise
struct Th { Rng noise{1}; int level = 0; std::atomic<int> *inside = nullptr; long overlap = 0, steps = 0; Log log; std::vector<std::pair<size_t, std::string>> marks; std::map<std::string, long> calls;
  void put(double v) { log.push_back(v); }
  void put(const std::vector<double> &v) { log.insert(log.end(), v.begin(), v.end()); }
  void mark(const std::string &s) { marks.emplace_back(log.size(), s); calls[s]++; jitter(); }
  std::string at(size_t i) const { std::string r = "?"; for (auto &q : marks) if (q.first <= i) r = q.second; return r; }
  void jitter() {
    ++steps;
    if (!level) return;
    const double u = noise.uni();
    if (u < 0.1 * level) std::this_thread::yield();
    else if (u < 0.1 * level + 0.02) { for (volatile int i = 0; i < 2000; i = i + 1) ; }
    else if (u < 0.1 * level + 0.023) std::this_thread::sleep_for(std::chrono::microseconds(noise.in(1, 120)));
    if (inside && inside->load(std::memory_order_relaxed) > 1) ++overlap;
  } };
inline thread_local Th *ME = nullptr;
// ---- activities: each from a seed, on tapes of its own -------------------------
inline std::vector<double> vec(Rng &g, size_t n) { std::vector<double> v(n); for (auto &q : v) q = g.num(); return v; }
inline void sweeps(Rng &g, short id, int n, int m, std::vector<double> x, int k, bool ho, bool fov = true) {
  std::vector<double> y((size_t)m), z((size_t)n);
  for (int i = 0; i < k; ++i) {
    for (auto &q : x) q += 0.01 * g.num();
    switch (fov ? g.in(0, ho ? 9 : 4) : 2 * g.in(0, 1)) {
    case 0: { ME->mark("zos+fos_reverse"); ME->put(zos_forward(id, m, n, 1, x.data(), y.data())); ME->put(y); auto u = vec(g, (size_t)m); ME->put(fos_reverse(id, m, n, u.data(), z.data())); ME->put(z); } break;
    case 1: { ME->mark("fov_reverse"); const int q = g.in(1, 3); Mat U((size_t)q, (size_t)m), Z((size_t)q, (size_t)n); for (auto &t : U.d) t = g.num(); ME->put(zos_forward(id, m, n, 1, x.data(), y.data())); ME->put(fov_reverse(id, m, n, q, U.ptr(), Z.ptr())); ME->put(Z.d); } break;
    case 2: { ME->mark("fos_forward"); auto X = vec(g, (size_t)n); std::vector<double> Y((size_t)m); ME->put(fos_forward(id, m, n, 0, x.data(), X.data(), y.data(), Y.data())); ME->put(Y); } break;
    case 3: { ME->mark("fov_forward"); const int q = g.in(1, 3); Mat X((size_t)n, (size_t)q), Y((size_t)m, (size_t)q); for (auto &t : X.d) t = g.num(); ME->put(fov_forward(id, m, n, q, x.data(), X.ptr(), y.data(), Y.ptr())); ME->put(Y.d); } break;
    case 4: { ME->mark("jacobian"); Mat J((size_t)m, (size_t)n); ME->put(jacobian(id, m, n, x.data(), J.ptr())); ME->put(J.d); } break;
    case 5: if (m == 1) { ME->mark("hessian"); Mat H((size_t)n, (size_t)n); ME->put(hessian(id, n, x.data(), H.ptr())); ME->put(H.d); } break;
    case 6: { ME->mark("tensor_eval"); const int p = g.in(1, 2), d = g.in(1, 4); const size_t dim = (size_t)binomi((size_t)(p + d), (size_t)d); Mat T((size_t)m, dim), S((size_t)n, (size_t)p); for (auto &t : S.d) t = g.num(); ME->put(tensor_eval(id, m, n, d, p, x.data(), T.ptr(), S.ptr())); ME->put(T.d); } break;
    case 7: if (m == n) { ME->mark("forode"); const int d = g.in(1, 5); Mat X((size_t)n, (size_t)d + 1); for (int j = 0; j < n; ++j) X[(size_t)j][0] = x[(size_t)j]; ME->put(forode(id, n, 0.3, 0, d, X.ptr())); ME->put(X.d);
      Ten A((size_t)n, (size_t)n, (size_t)d), B((size_t)n, (size_t)n, (size_t)d); ME->mark("hov_reverse+accode"); Mat I((size_t)n, (size_t)n); for (int j = 0; j < n; ++j) I[(size_t)j][j] = 1;
      Mat X0((size_t)n, (size_t)d), Y0((size_t)n, (size_t)d); std::vector<double> yy((size_t)n); for (int j = 0; j < n; ++j) for (int l = 0; l < d - 1; ++l) X0[(size_t)j][l] = X[(size_t)j][l + 1];
      if (d > 1) { ME->put(hos_forward(id, n, n, d - 1, d, x.data(), X0.ptr(), yy.data(), Y0.ptr())); ME->put(hov_reverse(id, n, n, d - 1, n, I.ptr(), A.ptr(), nullptr)); accode(n, 0.3, d - 1, A.ptr(), B.ptr(), nullptr); ME->put(B.d); } } break;
    case 8: if (m == n) { ME->mark("inverse_tensor_eval"); auto x2 = x; const size_t dim = (size_t)binomi(3, 2); Mat T((size_t)n, dim), S((size_t)n, 1); for (auto &t : S.d) t = g.num(); ME->put(inverse_tensor_eval(id, n, 2, 1, x2.data(), T.ptr(), S.ptr())); ME->put(T.d); } break;
    case 9: if (m == n) { ME->mark("lie_scalar+jac_solv"); std::vector<double> b = vec(g, (size_t)n); ME->put(jac_solv(id, n, x.data(), b.data(), 2)); ME->put(b); } break;
    }
  }
}
// plain: own recording with random buffers, regular square system or one output
inline void actPlain(Rng g) {
  const short id = createNewTape();
  const int n = g.in(1, 4), m = g.chance(0.5) ? 1 : n, len = g.in(3, 60);
  const int recs = g.in(1, 3);
  for (int r = 0; r < recs; ++r) {
    ME->mark("record");
    auto x = vec(g, (size_t)n); std::vector<double> y((size_t)m);
    if (g.chance(0.4)) trace_on(id, g.in(0, 1), (size_t)g.in(4, 40), (size_t)g.in(14, 200), (size_t)g.in(6, 40), (size_t)g.in(1, 40), g.in(0, 1)); else trace_on(id);
    {
      std::vector<adouble> v((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
      for (int k = 0; k < len; ++k) { const int i = g.in(0, n - 1), j = g.in(0, n - 1); const double co = 0.05 * g.num();
        switch (g.in(0, 6)) { case 0: v[(size_t)i] += sin(v[(size_t)j]) * co; break; case 1: v[(size_t)i] += v[(size_t)i] * v[(size_t)j] * co; break; case 2: v[(size_t)i] = v[(size_t)i] + co * exp(-v[(size_t)j] * v[(size_t)j]); break;
          case 3: { adouble t = fabs(v[(size_t)j]) + co; v[(size_t)i] += t * co; } break; case 4: { adouble t; condassign(t, v[(size_t)j], v[(size_t)i], v[(size_t)j]); v[(size_t)i] += t * co; } break;
          case 5: v[(size_t)i] += fmax(v[(size_t)i], v[(size_t)j]) * co; break; default: v[(size_t)i] += sqrt(v[(size_t)j] * v[(size_t)j] + 1.0) * co; } ME->jitter(); }
      if (m == 1) { adouble s = 0; for (auto &q : v) s += q * q; s >>= y[0]; } else for (int i = 0; i < n; ++i) { adouble t = v[(size_t)i] * 1.5; t >>= y[(size_t)i]; }
    }
    trace_off(g.chance(0.3)); ME->put(y);
    sweeps(g, id, n, m, x, g.in(1, 6), true);
  }
}
// external functions, plain and objects
inline int efun(short, int m, int n, double *x, double *y) { for (int j = 0; j < m; ++j) { y[j] = 0; for (int i = 0; i < n; ++i) y[j] += std::sin(x[i] + j); } return 1; }
inline int ezos(short t, int m, int n, int, double *x, double *y) { return efun(t, m, n, x, y); }
inline int efos(short t, int m, int n, int, double *x, double *X, double *y, double *Y) { efun(t, m, n, x, y); for (int j = 0; j < m; ++j) { Y[j] = 0; for (int i = 0; i < n; ++i) Y[j] += std::cos(x[i] + j) * X[i]; } return 1; }
inline int efov(short t, int m, int n, int p, double *x, double **X, double *y, double **Y) { efun(t, m, n, x, y); for (int j = 0; j < m; ++j) for (int k = 0; k < p; ++k) { Y[j][k] = 0; for (int i = 0; i < n; ++i) Y[j][k] += std::cos(x[i] + j) * X[i][k]; } return 1; }
inline int erev(short, int m, int n, double *u, double *z, double *x, double *) { for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) z[i] += u[j] * std::cos(x[i] + j); return 1; }
inline int erevv(short, int m, int n, int q, double **U, double **Z, double *x, double *) { for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) Z[l][i] += U[l][j] * std::cos(x[i] + j); return 1; }
struct Obj : EDFobject {
  using EDFobject::EDFobject;
  int function(short t, int m, int n, double *x, double *y) override { return efun(t, m, n, x, y); }
  int zos_forward(short t, int m, int n, int k, double *x, double *y) override { return ezos(t, m, n, k, x, y); }
  int fos_forward(short t, int m, int n, int k, double *x, double *X, double *y, double *Y) override { return efos(t, m, n, k, x, X, y, Y); }
  int fov_forward(short t, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return efov(t, m, n, p, x, X, y, Y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return 0; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return 0; }
  int fos_reverse(short t, int m, int n, double *u, double *z, double *x, double *y) override { return erev(t, m, n, u, z, x, y); }
  int fov_reverse(short t, int m, int n, int q, double **U, double **Z, double *x, double *y) override { return erevv(t, m, n, q, U, Z, x, y); }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return 0; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return 0; }
};
inline std::vector<adouble> contig(size_t k) { currentTape().ensureContiguousLocations(k); std::vector<adouble> v; v.reserve(k); for (size_t i = 0; i < k; ++i) v.emplace_back(); return v; }
inline void actExt(Rng g) {
  const short id = createNewTape(), inner = createNewTape(); const int n = g.in(1, 3), m = g.in(1, 3), calls = g.in(1, 3);
  setCurrentTape(id);
  std::unique_ptr<Obj> ob; ext_diff_fct *e = nullptr;
  const bool obj = g.chance(0.5);
  ME->mark(obj ? "ext object" : "ext function");
  if (obj) ob = std::make_unique<Obj>(id, inner);
  else { e = reg_ext_fct(id, inner, efun); e->zos_forward = ezos; e->fos_forward = efos; e->fov_forward = efov; e->fos_reverse = erev; e->fov_reverse = erevv; }
  auto x = vec(g, (size_t)n); std::vector<double> y((size_t)m);
  trace_on(id);
  {
    auto v = contig((size_t)n), r = contig((size_t)m);
    for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
    for (int k = 0; k < calls; ++k) { ME->jitter(); const int rc = obj ? ob->call(n, v.data(), m, r.data()) : call_ext_fct(e, n, v.data(), m, r.data()); ME->put(rc); for (int i = 0; i < n; ++i) v[(size_t)i] += r[(size_t)(i % m)] * 0.25; }
    for (int j = 0; j < m; ++j) { adouble t = r[(size_t)j] * v[0]; t >>= y[(size_t)j]; }
  }
  trace_off(); ME->put(y);
  sweeps(g, id, n, m, x, g.in(1, 5), false);
}
// version 2: several argument and result vectors, integers
inline size_t tot2(size_t n, const size_t *s) { size_t t = 0; for (size_t i = 0; i < n; ++i) t += s[i]; return t; }
inline double co2(size_t l, const size_t *a) { double r = 1; for (size_t i = 0; i < l; ++i) r += 0.1 * (double)a[i]; return r; }
inline int f2(short, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *) { for (size_t o = 0; o < no; ++o) for (size_t j = 0; j < os[o]; ++j) { y[o][j] = 0; for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < is[i]; ++k) y[o][j] += co2(l, a) * std::sin(x[i][k] + (double)(o + j)); } return 1; }
inline int fos2(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **X, size_t *os, double **y, double **Y, void *c) { f2(t, l, a, ni, no, is, x, os, y, c); for (size_t o = 0; o < no; ++o) for (size_t j = 0; j < os[o]; ++j) { Y[o][j] = 0; for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < is[i]; ++k) Y[o][j] += co2(l, a) * std::cos(x[i][k] + (double)(o + j)) * X[i][k]; } return 1; }
inline int fov2(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t p, double ***X, size_t *os, double **y, double ***Y, void *c) { f2(t, l, a, ni, no, is, x, os, y, c); for (size_t o = 0; o < no; ++o) for (size_t j = 0; j < os[o]; ++j) for (size_t d = 0; d < p; ++d) { Y[o][j][d] = 0; for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < is[i]; ++k) Y[o][j][d] += co2(l, a) * std::cos(x[i][k] + (double)(o + j)) * X[i][k][d]; } return 1; }
inline int rev2(short, size_t l, size_t *a, size_t no, size_t ni, size_t *os, double **U, size_t *is, double **Z, double **x, double **, void *) { for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < is[i]; ++k) for (size_t o = 0; o < no; ++o) for (size_t j = 0; j < os[o]; ++j) Z[i][k] += co2(l, a) * std::cos(x[i][k] + (double)(o + j)) * U[o][j]; return 1; }
inline int rov2(short, size_t l, size_t *a, size_t no, size_t ni, size_t *os, size_t q, double ***U, size_t *is, double ***Z, double **x, double **, void *) { for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < is[i]; ++k) for (size_t o = 0; o < no; ++o) for (size_t j = 0; j < os[o]; ++j) for (size_t r = 0; r < q; ++r) Z[i][k][r] += co2(l, a) * std::cos(x[i][k] + (double)(o + j)) * U[o][j][r]; return 1; }
inline void actExt2(Rng g) {
  const short id = createNewTape(), inner = createNewTape(); const int calls = g.in(1, 4);
  setCurrentTape(id);
  ME->mark("ext v2");
  ext_diff_fct_v2 *e = reg_ext_fct(id, inner, f2); e->zos_forward = f2; e->fos_forward = fos2; e->fov_forward = fov2; e->fos_reverse = rev2; e->fov_reverse = rov2;
  const int n = g.in(1, 4); auto x = vec(g, (size_t)n); std::vector<double> y(1);
  trace_on(id);
  {
    std::vector<adouble> v((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
    for (int k = 0; k < calls; ++k) {
      std::vector<size_t> is((size_t)g.in(1, 3)), os((size_t)g.in(1, 3)), ia((size_t)g.in(0, 3)); for (auto &q : is) q = (size_t)g.in(1, 3); for (auto &q : os) q = (size_t)g.in(1, 3); for (auto &q : ia) q = (size_t)g.in(0, 9);
      std::vector<std::vector<adouble>> A, B; std::vector<adouble *> a, b;
      for (size_t q : is) { A.push_back(contig(q)); } for (size_t q : os) B.push_back(contig(q));
      for (auto &q : A) { for (auto &w : q) w = v[(size_t)g.in(0, n - 1)]; a.push_back(q.data()); } for (auto &q : B) { for (auto &w : q) w = 0.0; b.push_back(q.data()); }
      ME->jitter(); ME->put(call_ext_fct(e, ia.size(), ia.data(), is.size(), os.size(), is.data(), a.data(), os.data(), b.data()));
      for (auto &q : B) for (auto &w : q) v[(size_t)g.in(0, n - 1)] += w * 0.25;
    }
    adouble s = 0; for (auto &q : v) s += q * q; s >>= y[0];
  }
  trace_off(); ME->put(y);
  sweeps(g, id, n, 1, x, g.in(1, 5), false);
}
inline int cpD(size_t dim, double *x) { std::vector<double> y(dim); for (size_t i = 0; i < dim; ++i) y[(size_t)i] = 0.9 * x[i] + 0.1 * std::sin(x[(i + 1) % dim]); for (size_t i = 0; i < dim; ++i) x[i] = y[(size_t)i]; ME->jitter(); return 1; }
inline int cpA(size_t dim, adouble *x) { std::vector<adouble> y(dim); for (size_t i = 0; i < dim; ++i) y[(size_t)i] = 0.9 * x[i] + 0.1 * sin(x[(i + 1) % dim]); for (size_t i = 0; i < dim; ++i) x[i] = y[(size_t)i]; return 1; }
// a step that counts (state outside the adoubles)
inline thread_local double cpState = 0;
inline int cpDs(size_t dim, double *x) { cpD(dim, x); for (size_t i = 0; i < dim; ++i) x[i] *= 1.0 + 0.01 * cpState; cpState += 1; return 1; }
inline int cpAs(size_t dim, adouble *x) { cpA(dim, x); for (size_t i = 0; i < dim; ++i) x[i] *= 1.0 + 0.01 * cpState; cpState += 1; return 1; }
inline void *cpSave() { return new double[1]{cpState}; }
inline void cpRestore(void *p) { cpState = *static_cast<double *>(p); }
inline void actCp(Rng g) {
  const short id = createNewTape(), st = createNewTape(); const int n = g.in(1, 3), steps = g.in(1, 30), snaps = g.in(2, 5);
  setCurrentTape(id);
  ME->mark("checkpointing");
  const bool state = g.chance(0.35); cpState = 0;
  CP_Context cp(id, st, state ? cpAs : cpA);
  if (state) { cp.setSaveFct(cpSave); cp.setRestoreFct(cpRestore); }
  cp.setDoubleFct(state ? cpDs : cpD); cp.setNumberOfSteps(steps); cp.setNumberOfCheckpoints(snaps); cp.setDimensionXY(n); cp.setAlwaysRetaping(state || g.chance(0.3));
  auto x = vec(g, (size_t)n); std::vector<double> y(1);
  trace_on(id);
  { auto v = contig((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
    cp.setInput(v.data()); cp.setOutput(v.data()); ME->put(cp.checkpointing(id));
    adouble s = 0; for (auto &q : v) s += q * q; s >>= y[0]; }
  trace_off(); ME->put(y);
  sweeps(g, id, n, 1, x, g.in(1, 4), false);
}
inline int fpD(double *x, double *u, double *y, size_t n, size_t m) { for (size_t i = 0; i < n; ++i) y[i] = 0.5 * std::sin(x[(i + 1) % n] + u[i % m]) + u[i % m]; ME->jitter(); return 0; }
inline int fpA(adouble *x, adouble *u, adouble *y, size_t n, size_t m) { for (size_t i = 0; i < n; ++i) y[i] = 0.5 * sin(x[(i + 1) % n] + u[i % m]) + u[i % m]; return 0; }
inline double fpN(double *v, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s += v[i] * v[i]; return std::sqrt(s); }
inline void actFp(Rng g) {
  const short id = createNewTape(), st = createNewTape(); const size_t n = (size_t)g.in(1, 3), m = (size_t)g.in(1, 2);
  ME->mark("fp_iteration");
  auto u0 = vec(g, m); std::vector<double> y(1); const size_t limit = g.chance(0.3) ? (size_t)g.in(1, 4) : 200; // the adjoint iteration may stop early
  trace_on(id);
  { auto x = contig(n), u = contig(m), r = contig(n); for (auto &q : x) q = 0.0; for (size_t i = 0; i < m; ++i) u[i] <<= u0[i];
    ME->put(fp_iteration(id, st, fpD, fpA, fpN, fpN, 1e-10, 1e-10, 200, limit, x.data(), u.data(), r.data(), n, m));
    adouble s = 0; for (auto &q : r) s += q * q; s >>= y[0]; }
  trace_off(); ME->put(y);
  sweeps(g, id, (int)m, 1, u0, g.in(1, 4), false, false);
}
inline void actPl(Rng g) {
  const short id = createNewTape(); const int n = g.in(1, 4), k = g.in(1, 4);
  ME->mark("abs_normal");
  auto x = vec(g, (size_t)n); double y = 0;
  setCurrentTape(id); currentTape().enableMinMaxUsingAbs();
  trace_on(id, 1);
  { std::vector<adouble> v((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
    adouble s = 0; for (int i = 0; i < k; ++i) { adouble t = v[(size_t)g.in(0, n - 1)] * g.num() - s * 0.5; s += g.chance(0.5) ? fabs(t) : fmax(t, v[0]); } s >>= y; }
  trace_off(); currentTape().disableMinMaxUsingAbs();
  ME->put(y);
  const int sw = (int)get_num_switches(id); ME->put(sw);
  std::vector<double> z((size_t)sw), Y(1), yy(1); Mat J(1, (size_t)sw), Z((size_t)sw, (size_t)n), Yl(1, (size_t)n), L((size_t)sw, (size_t)sw);
  ME->put(abs_normal(id, 1, n, sw, x.data(), yy.data(), z.data(), Yl.ptr(), J.ptr(), Z.ptr(), L.ptr()));
  ME->put(yy); ME->put(z); ME->put(Yl.d); ME->put(J.d); ME->put(L.d); ME->put(Z.d);
  auto F = ADOLC::AbsNormalForm::fromTape(id); ADOLC::abs_normal(id, std::span<const double>(x), F);
  auto X = vec(g, (size_t)n); std::vector<double> zz((size_t)sw), Z1((size_t)sw); ME->put(fos_pl_forward(id, 1, n, x.data(), X.data(), yy.data(), Y.data(), zz.data(), Z1.data())); ME->put(Y); ME->put(Z1);
}
inline void actSpace(Rng g) { // active variables outside recordings, containers, growth
  createNewTape(); setCurrentTape((short)0);
  ME->mark("variables");
  std::deque<adouble> d; std::vector<adouble> v;
  for (int i = 0; i < 150; ++i) {
    switch (g.in(0, 4)) { case 0: d.emplace_back(g.num()); break; case 1: v.push_back(g.num()); break; case 2: if (!d.empty()) d.pop_front(); break; case 3: if (!v.empty() && !d.empty()) v.back() = d.front() * v.front(); break; default: if (v.size() > 3) v.erase(v.begin()); }
    if (i % 16 == 0) ME->jitter();
  }
  for (auto &q : d) ME->put(q.value());
  for (auto &q : v) ME->put(q.value());
}
inline void actSparse(Rng g) {
#ifdef ADOLC_SPARSE
  if (!COLPACK) return actPlain(g);
  using namespace ADOLC::Sparse;
  const short id = createNewTape(); const int n = g.in(2, 12);
  auto x = vec(g, (size_t)n); double y = 0; std::vector<double> ys((size_t)n);
  const bool h = g.chance(0.5);
  trace_on(id);
  { std::vector<adouble> v((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] <<= x[(size_t)i];
    if (h) { adouble s = 0; for (int i = 0; i + 1 < n; ++i) s += sin(v[(size_t)i] * v[(size_t)i + 1]); s >>= y; }
    else for (int i = 0; i < n; ++i) { adouble t = v[(size_t)i] * v[(size_t)((i + 1) % n)] + exp(v[(size_t)i] * 0.1); t >>= ys[(size_t)i]; } }
  trace_off();
  uint *ri = nullptr, *ci = nullptr; double *va = nullptr; int nnz = 0; SparseMatrix sj;
  for (int rep = 0; rep < 3; ++rep) {
    ME->mark(h ? "sparse_hess" : "sparse_jac");
    if (h) { ME->put(sparse_hess<ControlFlowMode::Safe, RecoveryMethod::Indirect>(id, n, rep > 0, x.data(), &nnz, &ri, &ci, &va)); for (int k = 0; k < nnz; ++k) { ME->put(ri[k]); ME->put(ci[k]); ME->put(va[k]); } }
    else { ME->put(sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Safe>(id, n, n, rep > 0, x.data(), sj)); for (auto &e : sj.entries()) { ME->put(e.rowIndex()); ME->put(e.colIndex()); ME->put(e.value()); } }
    for (auto &q : x) q += 0.1;
  }
  free(ri); free(ci); free(va);
#endif
}
inline void actScripts(const std::vector<Script> &S, uint64_t seed) {
  Rng g(seed);
  std::vector<std::unique_ptr<Actor>> A;
  for (auto &s : S) { A.push_back(std::make_unique<Actor>(s, nullptr)); A.back()->colpack = COLPACK; }
  size_t cur = 0; ME->mark("scripts");
  while (true) {
    std::vector<size_t> live; for (size_t i = 0; i < A.size(); ++i) if (!A[i]->done()) live.push_back(i);
    if (live.empty()) break;
    if (A[cur]->done() || g.chance(0.2)) cur = live[g.next() % live.size()];
    A[cur]->tick(); ME->jitter();
  }
  for (auto &a : A) { a->finish(); a->regs.clear(); }
  for (auto &a : A) { for (auto &q : a->marks) ME->marks.emplace_back(ME->log.size() + q.first, q.second); ME->put(a->log); if (a->bat) for (auto &q : a->bat->calls) ME->calls[q.first] += q.second; }
}
struct Job { std::vector<Script> S; uint64_t seed = 0; std::vector<int> acts; };
inline const char *ANAME[] = {"plain", "ext", "checkpointing", "fixpoint", "abs_normal", "variables", "sparse", "scripts"};
inline void play(const Job &j, Th &me) {
  ME = &me;
  Rng g(j.seed);
  for (int a : j.acts) { Rng q(g.next());
    switch (a) { case 0: actPlain(q); break; case 1: if (q.chance(0.4)) actExt2(q); else actExt(q); break; case 2: actCp(q); break; case 3: actFp(q); break; case 4: actPl(q); break; case 5: actSpace(q); break; case 6: actSparse(q); break; default: actScripts(j.S, q.next()); }
    std::vector<short> tags; cachedTraceTags(tags); me.put((double)tags.size());
  }
}
} // namespace acts
