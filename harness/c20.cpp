// C20: misuse is answered with the library's error and leaves the library
// usable: histories of recordings and evaluations with misuses in between
// deliver, bit by bit, what they deliver without.
#include "actor.h"
#include <adolc/adolcerror.h>
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/edfclasses.h>
#include <adolc/fixpoint.h>
#include <adolc/lie/drivers.h>
#include <adolc/tapedoc/tapedoc.h>
#include <memory>
using namespace vh; using namespace pg; using namespace at; using namespace act;
struct Buf { // generous room for every argument
  static constexpr int D = 48;
  Mat A{D, D * 2}, B{D, D * 2}; Ten T{D, D, 8}, U{D, D, 8}; std::vector<double> x, y, z, w; std::vector<uint *> C; std::vector<bitword_t> bx, by; std::vector<bitword_t *> px, py; std::vector<short> nzd; std::vector<short *> nz;
  explicit Buf(Rng &g) : x(D * D), y(D * D), z(D * D), w(D * D), C(D, nullptr), bx(D * D), by(D * D), nzd(D * D) { for (auto &q : x) q = g.num(); for (auto &q : A.d) q = g.num(); for (auto &q : T.d) q = g.num(); for (int i = 0; i < D; ++i) { px.push_back(&bx[(size_t)(i * D)]); py.push_back(&by[(size_t)(i * D)]); nz.push_back(&nzd[(size_t)(i * D)]); } }
  ~Buf() { for (auto p : C) delete[] p; }
};
// every evaluation with the given shape; returns what the call returned
static const int NCALL = 54;
static int callOf(int k, short id, int m, int n, Buf &b, Rng &g, std::string &name) {
#define C_(nm, ...) { name = nm; return __VA_ARGS__; }
  double *x = b.x.data(), *y = b.y.data(), *z = b.z.data(), *w = b.w.data(); double **A = b.A.ptr(), **B = b.B.ptr(); double ***T = b.T.ptr(), ***U = b.U.ptr(); uint **C = b.C.data();
  const int d = g.in(1, 4), p = g.in(1, 4);
  switch (k) {
  case 0: C_("zos_forward", zos_forward(id, m, n, g.in(0, 1), x, y))
  case 1: C_("fos_forward", fos_forward(id, m, n, g.in(0, 2), x, w, y, z))
  case 2: C_("fov_forward", fov_forward(id, m, n, p, x, A, y, B))
  case 3: C_("hos_forward", hos_forward(id, m, n, d, g.in(0, d + 1), x, A, y, B))
  case 4: C_("hov_forward", hov_forward(id, m, n, d, p, x, T, y, U))
  case 5: C_("hov_wk_forward", hov_wk_forward(id, m, n, d, d + 1, p, x, T, y, U))
  case 6: C_("fov_offset_forward", fov_offset_forward(id, m, n, p, 0, x, A, y, B))
  case 7: C_("fos_reverse", fos_reverse(id, m, n, w, z))
  case 8: C_("fov_reverse", fov_reverse(id, m, n, p, A, B))
  case 9: C_("hos_reverse", hos_reverse(id, m, n, 1, w, B))
  case 10: C_("hos_ti_reverse", hos_ti_reverse(id, m, n, 1, A, B))
  case 11: C_("hov_reverse", hov_reverse(id, m, n, 1, p, A, U, nullptr))
  case 12: C_("hov_ti_reverse", hov_ti_reverse(id, m, n, 1, p, T, U, nullptr))
  case 13: C_("hos_ov_reverse", hos_ov_reverse(id, m, n, 1, p, A, U))
  case 14: C_("int_forward_tight", int_forward_tight(id, m, n, 2, x, b.px.data(), y, b.py.data()))
  case 15: C_("int_forward_safe", int_forward_safe(id, m, n, 2, b.px.data(), b.py.data()))
  case 16: C_("int_reverse_tight", int_reverse_tight(id, m, n, 2, b.px.data(), b.py.data()))
  case 17: C_("int_reverse_safe", int_reverse_safe(id, m, n, 2, b.px.data(), b.py.data()))
  case 18: C_("indopro_forward_tight", indopro_forward_tight(id, m, n, x, C))
  case 19: C_("indopro_forward_safe", indopro_forward_safe(id, m, n, x, C))
  case 20: C_("nonl_ind_forward_tight", nonl_ind_forward_tight(id, m, n, x, C))
  case 21: C_("nonl_ind_forward_safe", nonl_ind_forward_safe(id, m, n, x, C))
  case 22: C_("function", function(id, m, n, x, y))
  case 23: C_("gradient", gradient(id, n, x, z))
  case 24: C_("jacobian", jacobian(id, m, n, x, B))
  case 25: C_("vec_jac", vec_jac(id, m, n, 0, x, w, z))
  case 26: C_("jac_vec", jac_vec(id, m, n, x, w, z))
  case 27: C_("hessian", hessian(id, n, x, B))
  case 28: C_("hessian2", hessian2(id, n, x, B))
  case 29: C_("hess_vec", hess_vec(id, n, x, w, z))
  case 30: C_("lagra_hess_vec", lagra_hess_vec(id, m, n, x, w, w, z))
  case 31: C_("hess_mat", hess_mat(id, n, p, x, A, B))
  case 32: C_("large_jacobian", large_jacobian(id, m, n, g.in(1, 3), x, y, B))
  case 33: C_("tensor_eval", tensor_eval(id, m, n, 2, 2, x, B, A))
  case 34: C_("zos_pl_forward", zos_pl_forward(id, m, n, 0, x, y, z))
  case 35: C_("fos_pl_forward", fos_pl_forward(id, m, n, x, w, y, z, b.z.data() + 100, b.z.data() + 200))
  case 36: C_("fov_pl_forward", fov_pl_forward(id, m, n, p, x, A, y, B, z, T[0], b.nzd.data()))
  case 37: C_("fos_pl_reverse", fos_pl_reverse(id, m, n, 0, w, z, y, x))
  case 38: C_("jac_pat", [&] { std::span<uint *> s(b.C); return ADOLC::Sparse::jac_pat<ADOLC::Sparse::SparseMethod::IndexDomains, ADOLC::Sparse::ControlFlowMode::Tight>(id, m, n, x, s); }())
  case 39: C_("jac_pat_bits", [&] { std::span<uint *> s(b.C); return ADOLC::Sparse::jac_pat<ADOLC::Sparse::SparseMethod::BitPattern, ADOLC::Sparse::ControlFlowMode::Tight, ADOLC::Sparse::BitPatternPropagationDirection::Forward>(id, m, n, x, s); }())
  case 40: C_("jac_pat_bits_rev", [&] { std::span<uint *> s(b.C); return ADOLC::Sparse::jac_pat<ADOLC::Sparse::SparseMethod::BitPattern, ADOLC::Sparse::ControlFlowMode::Tight, ADOLC::Sparse::BitPatternPropagationDirection::Reverse>(id, m, n, x, s); }())
  case 41: C_("hess_pat", [&] { std::span<uint *> s(b.C); return ADOLC::Sparse::hess_pat<ADOLC::Sparse::ControlFlowMode::Tight>(id, n, x, s); }())
  case 42: C_("sparse_jac", [&] { ADOLC::Sparse::SparseMatrix sj; return ADOLC::Sparse::sparse_jac<ADOLC::Sparse::SparseMethod::IndexDomains, ADOLC::Sparse::CompressionMode::Column, ADOLC::Sparse::ControlFlowMode::Tight>(id, m, n, 0, x, sj); }())
  case 43: C_("sparse_hess", [&] { int nnz = 0; uint *r = nullptr, *c = nullptr; double *v = nullptr; try { int rc = ADOLC::Sparse::sparse_hess<ADOLC::Sparse::ControlFlowMode::Tight, ADOLC::Sparse::RecoveryMethod::Indirect>(id, n, 0, x, &nnz, &r, &c, &v); free(r); free(c); free(v); return rc; } catch (...) { free(r); free(c); free(v); throw; } }())
  case 44: C_("forode", forode(id, n, 0.5, 0, d, B))
  case 45: C_("jac_solv", jac_solv(id, n, x, w, 2))
  case 46: C_("inverse_Taylor_prop", inverse_Taylor_prop(id, n, d, A, B))
  case 47: C_("inverse_tensor_eval", inverse_tensor_eval(id, n, 2, 1, x, B, A))
  case 48: C_("tape_doc", (tape_doc(id, m, n, x, y), 0))
  case 49: C_("abs_normal", abs_normal(id, m, n, (int)get_num_switches(id), x, y, z, A, B, T[0], T[1]))
  case 50: C_("tapestats", (int)tapestats(id)[TapeInfos::NUM_INDEPENDENTS])
  case 51: C_("forward", forward(id, m, n, d, g.in(0, 1), A, B))
  case 52: C_("reverse", reverse(id, m, n, 0, w, z))
  case 53: C_("lie_gradient", lie_gradient(id, id, (short)n, x, (short)d, B))
  }
  return 0;
}
struct Mis { short id = -1; int n = 1, m = 1; const Prog *p = nullptr; bool active = false, ho = true, ov = true; };
// one misuse; returns its name; outcome: threw, or the code
struct Out { bool threw = false; int rc = 0; std::string name, kind, what, bad; bool checked = false; };
static bool reverseCall(int k) { return (k >= 7 && k <= 13) || k == 16 || k == 17 || k == 37 || k == 52; }
// misuse on a tape of its own: while it records, or with nothing kept
static int extf(short, int m, int n, double *x, double *y) { for (int i = 0; i < m; ++i) y[i] = 2 * x[i % n]; return 0; }
template <class F> static bool refused(F &&f) { try { f(); } catch (const ADOLCError::ADOLCError &) { return true; } return false; }
static Out ownTape(Rng &g) {
  Out o; o.kind = "own_tape"; const short id = createNewTape(); ValueTape *cur = currentTapePtr(); Buf b(g);
  const double x0 = g.num(), x1 = g.num(), c0 = g.num(); const int keep = g.in(0, 1); const int sub = g.in(0, 18); const size_t tb = g.chance(0.4) ? (size_t)g.in(1, 3) : 1000;
  if (sub <= 2) { // stale or missing Taylor coefficients
    const bool stale = sub == 2; o.name = stale ? "reverse_stale" : sub == 1 ? "reverse_discarded" : "reverse_nothing_kept"; const int rr = stale ? 2 : 1;
    for (int r = 0; r < rr; ++r) { trace_on(id, 0, 1000, 1000, 1000, tb, 0); { adouble a, c, q; double y; a <<= x0; c <<= x1; q = r ? a * c : a + sin(c) * a; q >>= y; } trace_off(); double X[2] = {x0, x1}, y; zos_forward(id, 1, 2, stale && r == 0, X, &y); if (r + 1 == rr && !stale) { if (g.chance(0.5)) { double *px[2] = {X, X + 1}; (void)px; fos_forward(id, 1, 2, 0, X, X, &y, b.z.data()); } if (sub == 1) { zos_forward(id, 1, 2, 1, X, &y); findTape(id).set_param_vec(id, 0, X); } } }
    const int k = (int[]){7, 8, 9, 10, 11, 12, 13, 16}[g.in(0, 7)]; std::string nm; o.threw = refused([&] { o.rc = callOf(k, id, 1, 2, b, g, nm); }); o.name += ":" + nm;
    return o;
  }
  if (sub == 17) { // a forward sweep that ends at a changed comparison keeps nothing
    trace_on(id, 0, 1000, 1000, 1000, tb, 0); { adouble a, c, q; double y; a <<= x0; c <<= x1; q = sin(a) * c + a; if (a > x0 - 1) q += a * c; else q *= c; q = q * q; q >>= y; } trace_off();
    double X[2] = {x0, x1}, Y[2] = {x0 - 2, x1}, y; if (g.chance(0.7)) zos_forward(id, 1, 2, 1, X, &y);
    int rc; std::string nm; const int w = g.in(0, 2);
    if (w == 0) rc = zos_forward(id, 1, 2, 1, Y, &y); else if (w == 1) rc = fos_forward(id, 1, 2, 1, Y, X, &y, b.z.data()); else rc = hos_forward(id, 1, 2, 1, 1, Y, b.A.ptr(), &y, b.B.ptr());
    if (rc != -1) o.bad = cat("rc ", rc, " although the comparison changed");
    const int k = (int[]){7, 8, 9, 10, 11, 12, 16}[g.in(0, 6)]; o.threw = refused([&] { if (k < 9 || k == 16) o.rc = callOf(k, id, 1, 2, b, g, nm); else { nm = "hov_reverse degree 0"; o.rc = hov_reverse(id, 1, 2, 0, 1, b.A.ptr(), b.U.ptr(), nullptr); } }); o.name = "reverse_aborted:" + nm; o.checked = true; return o;
  }
  if (sub == 18) { // what is kept survives a refused call
    trace_on(id, 0, 1000, 1000, 1000, tb, 0); { adouble a, c, q; double y; a <<= x0; c <<= x1; q = a * c + sin(a); q = q * c + 0.5; q >>= y; } trace_off();
    double X[2] = {x0, x1}, y, u = 1, z[2]; zos_forward(id, 1, 2, 1, X, &y); std::string nm; const int k = (int[]){0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 14, 15, 16, 17, 18, 19, 22, 23, 24, 26, 27, 38, 42, 48}[g.in(0, 23)];
    o.threw = refused([&] { o.rc = callOf(k, id, k == 23 || k == 27 ? 1 : 1 + g.in(1, 3), 2 + (k == 23 || k == 27 ? g.in(1, 3) : 0), b, g, nm); }); o.name = "kept:" + nm; o.checked = true;
    const double h0 = (x1 + std::cos(x0)) * x1, h1 = 2 * x0 * x1 + std::sin(x0); fos_reverse(id, 1, 2, &u, z); if (std::fabs(z[0] - h0) > 1e-12 * (1 + std::fabs(h0)) || std::fabs(z[1] - h1) > 1e-12 * (1 + std::fabs(h1))) o.bad = cat("gradient ", z[0], " ", z[1], " instead of ", h0, " ", h1);
    return o;
  }
  setCurrentTape(id); double got = 0; bool done = false;
  trace_on(id, keep);
  { adouble a, c, q; a <<= x0; c <<= x1; q = a * c + sin(a);
    std::string nm;
    switch (sub) {
    case 3: case 4: nm = "trace_on_again"; o.threw = refused([&] { if (g.chance(0.5)) trace_on(id, g.in(0, 1)); else trace_on(id, 1, 100, 100, 100, 100, 0); }); break;
    case 5: case 6: { const int k = g.in(0, NCALL - 1); std::string n2; if (k == 50 || k == 49 || k == 44 || k == 46 || k == 47) { o.name = "skip"; done = true; break; } o.threw = refused([&] { o.rc = callOf(k, id, 1, k == 53 ? 1 : 2, b, g, n2); }); nm = "evaluated_while_recording:" + n2; } break;
    case 7: nm = "subscript_read"; { advector v(3); for (size_t i = 0; i < 3; ++i) v[i] = a * (double)i; const advector &w = v; adouble ix = 3.0 + std::fabs(c0); o.threw = refused([&] { adouble t = w[ix]; }); } break;
    case 8: nm = "subscript_write"; { advector v(3); for (size_t i = 0; i < 3; ++i) v[i] = a * (double)i; adouble ix = 3.0 + std::fabs(c0); o.threw = refused([&] { v[ix] = c; }); } break;
    case 9: nm = "lookup_decreasing"; { advector v(3); for (size_t i = 0; i < 3; ++i) v[i] = -(double)i; o.threw = refused([&] { adouble t = v.lookupindex(a, c); }); } break;
    case 10: nm = "lookup_negative"; { advector v(3); for (size_t i = 0; i < 3; ++i) v[i] = (double)i; adouble m1 = -1.0; o.threw = refused([&] { adouble t = v.lookupindex(a, m1); }); } break;
    case 11: nm = "ext_null"; { std::vector<adouble> xa(2), ya(2); findTape(id).ensureContiguousLocations(2); o.threw = refused([&] { if (g.chance(0.5)) call_ext_fct((ext_diff_fct *)nullptr, 2, xa.data(), 2, ya.data()); else { size_t ia[2] = {1, 2}; call_ext_fct((ext_diff_fct *)nullptr, 2, ia, 2, xa.data(), 2, ya.data()); } }); } break;
    case 12: nm = "ext_gap"; { ext_diff_fct *e = reg_ext_fct(id, id, &extf); adouble *X = new adouble[4]; { adouble t = X[3]; } adouble hole; adouble *Y = new adouble[2]; std::swap(Y[0], X[0]); std::vector<adouble> z; z.reserve(2); z.emplace_back(1.0); adouble gap = 2.0; z.emplace_back(3.0); o.threw = z[1].loc() == z[0].loc() + 1 || refused([&] { if (g.chance(0.5)) call_ext_fct(e, 2, z.data(), 2, X + 1); else call_ext_fct(e, 2, X + 1, 2, z.data()); }); delete[] X; delete[] Y; } break;
    case 13: nm = "vec_gap"; { adouble u[2]; std::vector<adouble> z; z.reserve(2); z.emplace_back(1.0); adouble gap = 2.0; z.emplace_back(3.0); o.threw = z[1].loc() == z[0].loc() + 1 || refused([&] { switch (g.in(0, 2)) { case 0: adolc_vec_copy(z.data(), z.data(), 2); break; case 1: { adouble t = adolc_vec_dot(z.data(), z.data(), 2); } break; default: adolc_vec_axpy(z.data(), a, z.data(), z.data(), 2); } }); } break;
    case 14: nm = "pow_basis"; o.threw = refused([&] { adouble t = pow(-std::fabs(c0), a); }); break;
    case 15: nm = "store_type"; o.threw = refused([&] { findTape(id).setStoreManagerType(g.chance(0.5) ? StoreManager::ADOLC_LOCATION_SINGLETONS : StoreManager::ADOLC_LOCATION_BLOCKS); }); break;
    default: nm = "checkpointing"; { CP_Context cp(id, id, nullptr); adouble xs[2]; o.threw = refused([&] { cp.checkpointing(id); }); } break;
    }
    q = q * c + 0.5; q >>= got; if (!done) o.name = nm;
  }
  trace_off(); setCurrentTape(cur);
  if (o.name == "skip") return o;
  // the recording is what it would have been
  double X[2] = {x0 + 0.25, x1 - 0.5}, y = 0, gr[2] = {0, 0}; const double f = (X[0] * X[1] + std::sin(X[0])) * X[1] + 0.5, g0 = (X[1] + std::cos(X[0])) * X[1], g1 = X[0] * X[1] + X[0] * X[1] + std::sin(X[0]);
  std::string bad;
  auto near = [](double u, double v) { return std::fabs(u - v) <= 1e-12 * (1 + std::fabs(v)); };
  try {
    if (keep) { double u = 1, z[2]; fos_reverse(id, 1, 2, &u, z); const double h0 = (x1 + std::cos(x0)) * x1, h1 = 2 * x0 * x1 + std::sin(x0); if (!near(z[0], h0) || !near(z[1], h1)) bad = cat("gradient from the recording ", z[0], " ", z[1], " instead of ", h0, " ", h1); }
    const int rc = zos_forward(id, 1, 2, 0, X, &y); if (rc < 0 || !near(y, f)) bad = cat("value ", y, " rc ", rc, " instead of ", f);
    gradient(id, 2, X, gr); if (!near(gr[0], g0) || !near(gr[1], g1)) bad = cat("gradient ", gr[0], " ", gr[1], " instead of ", g0, " ", g1);
  } catch (const std::exception &e) { bad = cat("exception ", e.what()); }
  o.bad = bad; o.checked = true;
  return o;
}
static Out misuse(const Mis &t, Rng &g) {
  Out o; Buf b(g);
  try {
    switch (g.in(0, 9)) {
    case 0: case 1: { // contradicting shape
      o.kind = "shape"; int m = t.m, n = t.n; const int k = g.in(0, NCALL - 1);
      if (g.chance(0.5)) m += g.chance(0.5) && m > 1 ? -1 : g.in(1, 5); else n += g.chance(0.5) && n > 1 ? -1 : g.in(1, 5);
      // drivers that take a single dimension
      if (k == 23 || k == 27 || k == 28 || k == 29 || k == 31 || k == 41 || k == 43) { if (t.m == 1 && n == t.n) n = t.n + 1; }
      if (k >= 44 && k <= 47) { if (t.m == t.n && n == t.n) n = t.n + 1; }
      if (k == 53) { if (t.m == t.n && t.m == 1 && n == t.n) n = t.n + 1; }
      if (k == 50) { o.name = "skip"; return o; }
      if (k == 49 || (k >= 34 && k <= 37)) { o.name = "skip"; return o; }
      o.rc = callOf(k, t.id, m, n, b, g, o.name); o.what = cat("with m=", m, " n=", n, " on a tape of ", t.m, " ", t.n); } break;
    case 2: { o.kind = "unknown_tape"; o.rc = callOf(g.in(0, NCALL - 1), (short)g.in(100, 30000), t.m, t.n, b, g, o.name); } break;
    case 3: o = ownTape(g); break;
    case 4: { o.kind = "reverse_degree"; // first order after nothing but values, higher order than kept, lower than kept
      const int kept = t.ho ? g.in(1, 4) : 1; if (kept == 1) zos_forward(t.id, t.m, t.n, 1, b.x.data(), b.y.data()); else hos_forward(t.id, t.m, t.n, kept - 1, kept, b.x.data(), b.A.ptr(), b.y.data(), b.B.ptr());
      int d = g.in(kept, kept + 3); o.what = cat("degree ", d, " after keeping ", kept);
      switch (g.in(0, 4)) { case 0: o.name = "hos_reverse"; o.rc = hos_reverse(t.id, t.m, t.n, d, b.w.data(), b.B.ptr()); break; case 1: o.name = "hov_reverse"; o.rc = hov_reverse(t.id, t.m, t.n, d, 2, b.A.ptr(), b.U.ptr(), nullptr); break; case 2: o.name = "hos_ti_reverse"; o.rc = hos_ti_reverse(t.id, t.m, t.n, d, b.A.ptr(), b.B.ptr()); break; case 3: o.name = "hov_ti_reverse"; o.rc = hov_ti_reverse(t.id, t.m, t.n, d, 2, b.T.ptr(), b.U.ptr(), nullptr); break; default: o.name = "reverse"; o.rc = reverse(t.id, t.m, t.n, d, b.w.data(), b.B.ptr()); } } break;
    case 5: { o.kind = "keep"; const int k = g.in(0, 1); if (k == 0) { o.name = "zos_forward"; o.what = "keep 2"; o.rc = zos_forward(t.id, t.m, t.n, g.in(2, 5), b.x.data(), b.y.data()); } else { o.name = "fos_forward"; o.rc = fos_forward(t.id, t.m, t.n, g.in(3, 6), b.x.data(), b.w.data(), b.y.data(), b.z.data()); } } break;
    case 6: { o.kind = "mode"; if (!t.active) { o.name = "skip"; return o; } o.what = "safe mode on a tape with active subscripts"; switch (g.in(0, 3)) { case 0: o.rc = callOf(15, t.id, t.m, t.n, b, g, o.name); break; case 1: zos_forward(t.id, t.m, t.n, 1, b.x.data(), b.y.data()); o.rc = callOf(17, t.id, t.m, t.n, b, g, o.name); break; case 2: o.rc = callOf(19, t.id, t.m, t.n, b, g, o.name); break; default: if (t.m != 1) { o.name = "skip"; return o; } o.rc = callOf(21, t.id, t.m, t.n, b, g, o.name); } } break;
    case 7: { o.kind = "parameters"; const size_t np = tapestats(t.id)[TapeInfos::NUM_PARAM]; size_t q = np ? (g.chance(0.5) ? np + (size_t)g.in(1, 3) : np - 1) : (size_t)g.in(1, 3); o.name = "set_param_vec"; o.what = cat(q, " of ", np); findTape(t.id).set_param_vec(t.id, q, b.x.data()); } break;
    case 8: { o.kind = "not_recorded"; const short e = createNewTape(); (void)e; o.name = "skip"; return o; } break;
    case 9: { o.kind = "session"; switch (g.in(0, 3)) {
      case 0: { o.name = "trace_off"; o.what = "without trace_on"; ValueTape *s = currentTapePtr(); setCurrentTape(t.id); try { trace_off(); setCurrentTape(s); } catch (...) { setCurrentTape(s); throw; } } break;
      case 1: o.name = "setCurrentTape"; setCurrentTape((short)g.in(100, 3000)); break;
      case 2: o.name = "trace_on"; o.what = "unknown tape"; trace_on((short)g.in(100, 3000), g.in(0, 1)); break;
      default: { o.name = "setStoreManagerType"; findTape(t.id).setStoreManagerType(StoreManager::ADOLC_LOCATION_BLOCKS); } } } break;
    }
  } catch (const ADOLCError::ADOLCError &e) { o.threw = true; }
  return o;
}
static std::unique_ptr<Actor> play(const Script &s, Ctx *c, uint64_t seed, bool mis) {
  auto a = std::make_unique<Actor>(s, mis ? c : nullptr); Rng pos(seed), g(seed + 1);
  while (!a->done()) {
    a->tick();
    const bool ready = a->bat && !a->recording && a->pc < s.ev.size();
    if (pos.chance(ready ? 0.4 : 0.0)) {
      a->bat->kept = 0; a->bat->ovKept = false;
      const uint64_t q = pos.next(); 
      if (mis) {
        Rng h(q); const Prog &p = s.P[(size_t)a->curProg]; Mis t{a->id, p.n, p.m, &p, false, a->bat->f.ho, a->bat->f.ov}; for (auto &I : p.code) if (I.op == AVREAD || I.op == AVWRITE || I.op == AVSEL) t.active = true;
        c->phase("misuse"); ValueTape *cur = currentTapePtr();
        // discard what is kept in both runs
        Out o = misuse(t, h);
        if (o.name == "skip") continue;
        a->mark(cat("(after ", o.kind, " ", o.name, ")"));
        c->count("misuse_" + o.kind); c->count(o.threw ? "rejected" : "not_rejected"); c->count(cat(o.threw ? "err_" : "NO_", o.name));
        if (o.checked) c->count("recordings_checked");
        if (!o.bad.empty()) c->violation(cat("damaged:", o.kind, ":", o.name), cat("a recording in which ", o.name, " was refused: ", o.bad));
        if (!o.threw) c->violation(cat("accepted:", o.kind, ":", o.name), cat(o.kind, " ", o.name, " ", o.what, " returned ", o.rc, " instead of failing; ", p.str()));
        if (currentTapePtr() != cur) { c->violation(cat("current:", o.kind, ":", o.name), "the current tape changed"); setCurrentTape(cur); }
      }
    }
  }
  a->finish(); a->regs.clear();
  return a;
}
static void oneCase(Ctx &c) {
  Rng &g = c.rng; Script s = makeScript(g, c.thorough); const uint64_t seed = g.next();
  uint64_t h = seed; for (auto &p : s.P) h = hmix(h, p.hash()); c.nontrivial(h);
  std::unique_ptr<Actor> A, B; std::vector<double> x, y; 
  fresh([&] { A = play(s, &c, seed, true); A->bat.reset(); });
  c.phase("reference"); fresh([&] { B = play(s, &c, seed, false); B->bat.reset(); });
  c.count("numbers_compared", (long)B->log.size());
  for (size_t j = 0; j < std::max(A->log.size(), B->log.size()); ++j) if (j >= A->log.size() || j >= B->log.size() || !biteq(A->log[j], B->log[j])) { std::string last; for (auto &q : A->marks) if (q.first <= j && q.second[0] == '(') last = q.second; c.violation(cat("afterwards:", last), cat(A->at(j), " ", last, " entry ", j, ": ", j < A->log.size() ? cat(A->log[j]) : "none", " instead of ", j < B->log.size() ? cat(B->log[j]) : "none", " ", s.P[0].str())); break; }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
