// C06: forode/accode (C, overloaded, Fortran) and the Lie drivers.
#include "adtape.h"
#include <adolc/drivers/odedrivers.h>
#include <adolc/lie/drivers.h>
using namespace vh;
using namespace pg;
using at::Mat; using at::Ten;

// Flow of x' = tau * F(x) as an exact series in t, with its first-order
// dependence on the initial state (eps_1..eps_n).
template <class F> struct FlowT {
  using TT = ra::TP<F>;
  int n, d; std::shared_ptr<ra::Basis> B; std::vector<TT> X; F mx = 0;
  std::vector<int> ex(int k, int e) const { std::vector<int> v((size_t)n + 1, 0); v[0] = k; if (e >= 0) v[(size_t)e + 1] = 1; return v; }
  F coef(const TT &s, int k, int e = -1) const { return s.c[(size_t)B->find(ex(k, e))]; }
  std::vector<TT> runT(const Prog &P, const std::vector<TT> &in) {
    TT::maxabs = 0;
    std::vector<TT> r((size_t)P.nr), y;
    for (int i = 0; i < P.n; ++i) r[(size_t)i] = in[(size_t)i];
    run<TT>(P, r);
    for (int q : P.dep) y.push_back(r[(size_t)q]);
    mx = std::max(mx, TT::maxabs);
    return y;
  }
  FlowT(const Prog &P, const std::vector<double> &x, double tau, int d_) : n(P.n), d(d_) {
    B = ra::Basis::make(n + 1, std::max(d, 1), [&](const std::vector<int> &e) { int s = 0; for (size_t i = 1; i < e.size(); ++i) s += e[i]; return e[0] <= d && s <= 1; });
    TT::B = B.get();
    std::vector<TT> x0;
    for (int i = 0; i < n; ++i) { TT v(x[(size_t)i]); v.c[(size_t)B->find(ex(0, i))] += 1; x0.push_back(v); }
    X = x0;
    for (int it = 0; it < d; ++it) {
      auto y = runT(P, X);
      // one more coefficient becomes exact per iteration
      for (int i = 0; i < n; ++i) for (int e = -1; e < n; ++e) for (int k = 0; k < d; ++k)
        X[(size_t)i].c[(size_t)B->find(ex(k + 1, e))] = (F)tau * y[(size_t)i].c[(size_t)B->find(ex(k, e))] / (k + 1);
      if (!(mx < 1e8)) return;
    }
  }
  std::vector<TT> out(const Prog &H) { TT::B = B.get(); return runT(H, X); }
};
using Flow = FlowT<long double>;
// How much the rounding of double arithmetic moves the result: the same series
// computed in double, relative to the extended-precision one.
template <class V, class W> static double roundOff(const V &a, const W &b) {
  double r = 0;
  for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].c.size(); ++k) r = std::max(r, (double)fabsl((long double)a[i].c[k] - (long double)b[i].c[k]));
  return r;
}

static GenOpt opt(Ctx &c) {
  GenOpt o;
  o.lenmin = 3; o.lenmax = c.thorough ? 24 : 14; o.bulkmax = 16; o.maxval = 4; o.extra = 5; o.points = 1;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false;
  return o;
}
static bool square(Rng &g, const GenOpt &o, Gen &G) {
  G = generate(g, o);
  if (G.p.code.empty()) return false;
  while ((int)G.p.dep.size() < G.p.n) G.p.dep.push_back(g.in(0, G.p.nr - 1));
  G.p.dep.resize((size_t)G.p.n); G.p.m = G.p.n;
  return true;
}

static void ode(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o = opt(c);
  const int d = g.in(1, c.thorough ? 9 : 7);
  const double tau = g.chance(0.4) ? 1.0 : g.uni(0.2, 1.5) * (g.chance(0.2) ? -1 : 1);
  Gen G; std::unique_ptr<Flow> fl; bool good = false; double ro = 0;
  for (int t = 0; t < 60 && !good; ++t) {
    if (!square(g, o, G)) continue;
    fl.reset(new Flow(G.p, G.x[0], tau, d));
    good = fl->mx < 1e4L;
    if (good) { FlowT<double> f2(G.p, G.x[0], tau, d); ro = roundOff(fl->X, f2.X); good = ro < 1e-10; }
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &P = G.p; const int n = P.n;
  c.nontrivial(hmix(P.hash(), (uint64_t)d));
  if (c.idx < 40) c.sample(P.str());
  c.phase("record");
  const short id = createNewTape();
  at::record(P, G.x[0], id, 0);
  const double base = (double)(2e-14L * fl->mx * fl->mx + 2e-11L * fl->mx) + 3e3 * ro;
  auto tol = [&](long double w) { return (double)(1e-8L * (1 + fabsl(w))) + base; };
  // another use of the per-tape work space with other sizes first
  if (g.chance(0.4)) {
    const int d0 = g.in(1, 4); Mat Y((size_t)n, (size_t)d0 + 1);
    for (int i = 0; i < n; ++i) Y[(size_t)i][0] = G.x[0][(size_t)i] ;
    forodec(id, n, 0.5, 0, d0, Y.ptr());
  }
  int dol = 0, dn = g.chance(0.5) ? d : g.in(1, d);
  Mat X((size_t)n, (size_t)d + 1, 3.25);
  for (int i = 0; i < n; ++i) X[(size_t)i][0] = G.x[0][(size_t)i];
  bool fortran = false; int rc = 0; bool keepValid = false;
  for (;;) {
    int form = g.in(0, 4);
    c.phase(cat("forode", form));
    if (form == 4) {
      fortran = true;
      std::vector<double> fy((size_t)n * (size_t)(dn + 1));
      for (int i = 0; i < n; ++i) for (int k = 0; k <= dn; ++k) fy[(size_t)(k * n + i)] = X[(size_t)i][k];
      fint ft = id, fn = n, fdo = dol, fde = dn; fdouble fta = tau;
      rc = (int)forodec_(&ft, &fn, &fta, &fdo, &fde, fy.data());
      for (int i = 0; i < n; ++i) for (int k = 0; k <= dn; ++k) X[(size_t)i][k] = fy[(size_t)(k * n + i)];
    } else if (form == 3 && tau == 1.0) rc = dol ? forode(id, n, dol, dn, X.ptr()) : forode(id, n, dn, X.ptr());
    else if (form == 2 && dol == 0) rc = forode(id, n, tau, dn, X.ptr());
    else if (form == 1) rc = forode(id, n, tau, dol, dn, X.ptr());
    else rc = forodec(id, n, tau, dol, dn, X.ptr());
    c.expect(rc >= 0, "rc:forode", cat("rc=", rc, " ", P.str()));
    c.count(cat("forode_dol_", dol > 0)); c.count(cat("form_", form));
    if (dn > dol) keepValid = true; else keepValid = false;
    for (int i = 0; i < n; ++i) for (int k = 0; k <= dn; ++k) {
      long double w = fl->coef(fl->X[(size_t)i], k);
      c.count("numbers_compared");
      if (!close(X[(size_t)i][k], (double)w, tol(w))) { c.violation(cat("forode", fortran ? ":fortran" : ""), cat("x[", i, "] coefficient ", k, " is ", X[(size_t)i][k], " want ", (double)w, " dol=", dol, " deg=", dn, " tau=", tau, " ", P.str())); return; }
    }
    if (dn == d) break;
    dol = dn; dn = g.in(dn + 1, d);
    keepValid = false;
  }
  if (!keepValid) return;
  // partial and total Jacobians of the coefficients
  c.phase("accode");
  Ten A((size_t)n, (size_t)n, (size_t)d), Bt((size_t)n, (size_t)n, (size_t)d, 9.5);
  std::vector<std::vector<short>> nz((size_t)n, std::vector<short>((size_t)n, 7)); std::vector<short *> nzp; for (auto &r : nz) nzp.push_back(r.data());
  Mat I((size_t)n, (size_t)n); for (int i = 0; i < n; ++i) I[(size_t)i][i] = 1;
  rc = hov_reverse(id, n, n, d - 1, n, I.ptr(), A.ptr(), nzp.data());
  c.expect(rc >= 0, "rc:hov_reverse", cat("rc=", rc, " after forode ", P.str()));
  const int how = g.in(0, 4); bool pat = false;
  if (how == 0) accode(n, tau, d - 1, A.ptr(), Bt.ptr(), nzp.data()), pat = true;
  else if (how == 1) accode(n, tau, d - 1, A.ptr(), Bt.ptr());
  else if (how == 2 && tau == 1.0) { pat = g.chance(0.5); accode(n, d - 1, A.ptr(), Bt.ptr(), pat ? nzp.data() : nullptr); }
  else if (how == 3) {
    std::vector<double> fa((size_t)(n * n * d)), fb = fa;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) fa[(size_t)((k * n + j) * n + i)] = A[(size_t)i][j][k];
    fint fn = n, fd = d - 1; fdouble ft = tau;
    accodec_(&fn, &ft, &fd, fa.data(), fb.data());
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) Bt[(size_t)i][j][k] = fb[(size_t)((k * n + j) * n + i)];
  } else accodec(n, tau, d - 1, A.ptr(), Bt.ptr(), nzp.data()), pat = true;
  c.count(cat("accode_", how));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) {
    long double w = fl->coef(fl->X[(size_t)i], k + 1, j);
    c.count("numbers_compared");
    if (!close(Bt[(size_t)i][j][k], (double)w, 10 * tol(w))) { c.violation(cat("accode:", how), cat("dx_", k + 1, "[", i, "]/dx0[", j, "] is ", Bt[(size_t)i][j][k], " want ", (double)w, " d=", d, " tau=", tau, " pattern=", pat, " ", P.str())); return; }
    if (pat && nz[(size_t)i][(size_t)j] <= 0 && k < -nz[(size_t)i][(size_t)j]) c.expect(Bt[(size_t)i][j][k] == 0 && fabsl(w) < 1e-9L, "accode-pattern", cat("nz=", nz[(size_t)i][(size_t)j], " k=", k, " B=", Bt[(size_t)i][j][k], " true ", (double)w));
  }
}

static void lie(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o = opt(c);
  const int d = g.in(1, c.thorough ? 8 : 6);
  const int what = g.in(0, 7); // 0-3 scalar/gradient, 4-5 covector, 6-7 bracket
  Gen F, H; std::unique_ptr<Flow> fl; bool good = false; bool same = false; double ro = 0; std::vector<ra::TPL> R;
  for (int t = 0; t < 60 && !good; ++t) {
    if (!square(g, o, F)) continue;
    GenOpt o2 = o; o2.fixX = F.x[0];
    same = g.chance(0.1);
    if (same) H = F;
    else if (what >= 4) { if (!square(g, o2, H)) continue; }
    else { H = generate(g, o2); if (H.p.code.empty() || !H.p.m) continue; if (what < 2 && g.chance(0.5)) { H.p.dep.resize(1); H.p.m = 1; } }
    fl.reset(new Flow(F.p, F.x[0], 1.0, d + 1));
    if (!(fl->mx < 1e4L)) continue;
    R = fl->out(H.p);
    good = fl->mx < 1e4L;
    if (good) { FlowT<double> f2(F.p, F.x[0], 1.0, d + 1); auto y2 = f2.out(H.p); ro = std::max(roundOff(fl->X, f2.X), roundOff(R, y2)); good = ro < 1e-10; }
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const int n = F.p.n, m = H.p.m;
  c.nontrivial(hmix(hmix(F.p.hash(), H.p.hash()), (uint64_t)(d * 8 + what)));
  if (c.idx < 40) c.sample(F.p.str() + " || " + H.p.str());
  c.phase("record");
  const short tf = createNewTape();
  at::record(F.p, F.x[0], tf, 0);
  short th = tf;
  if (!same) { th = createNewTape(); at::record(H.p, H.x[0], th, 0); }
  std::vector<double> x = F.x[0];
  const double base = (double)(2e-14L * fl->mx * fl->mx + 2e-11L * fl->mx) + 3e3 * ro;
  long double fact[12] = {1}; for (int i = 1; i < 12; ++i) fact[i] = fact[i - 1] * i;
  auto tol = [&](long double w, int k) { return (double)(1e-8L * (1 + fabsl(w))) + 20 * base * (double)fact[k]; };
  auto chk = [&](double got, long double w, const char *key, int a, int b, int k) {
    c.count("numbers_compared");
    if (!close(got, (double)w, tol(w, k))) { c.violation(cat(key, d == 1 ? ":d1" : ""), cat(key, "[", a, "][", b, "][", k, "] is ", got, " want ", (double)w, " d=", d, " n=", n, " m=", m, " x0=", x[0], " F: ", F.p.str(), " H: ", H.p.str())); return false; }
    return true;
  };
  const int reps = g.in(1, 2);
  for (int rep = 0; rep < reps; ++rep) {
    if (what < 2) {
      c.phase("lie_scalar");
      Mat r((size_t)m, (size_t)d + 1, 8.75);
      const int how = m == 1 ? g.in(0, 3) : g.in(2, 3);
      if (how == 0) lie_scalarc(tf, th, (short)n, x.data(), (short)d, r[0]);
      else if (how == 1) lie_scalar(tf, th, (short)n, x.data(), (short)d, r[0]);
      else if (how == 2) lie_scalarcv(tf, th, (short)n, (short)m, x.data(), (short)d, r.ptr());
      else lie_scalar(tf, th, (short)n, (short)m, x.data(), (short)d, r.ptr());
      c.count(cat("lie_scalar_", how));
      for (int i = 0; i < m; ++i) for (int k = 0; k <= d; ++k) if (!chk(r[(size_t)i][k], fl->coef(R[(size_t)i], k) * fact[k], "lie_scalar", i, 0, k)) return;
    } else if (what < 4) {
      c.phase("lie_gradient");
      const int mm = m; Ten r((size_t)mm, (size_t)n, (size_t)d + 1, 8.75);
      const int how = m == 1 ? g.in(0, 3) : g.in(2, 3);
      if (how == 0) lie_gradientc(tf, th, (short)n, x.data(), (short)d, r[0]);
      else if (how == 1) lie_gradient(tf, th, (short)n, x.data(), (short)d, r[0]);
      else if (how == 2) lie_gradientcv(tf, th, (short)n, (short)m, x.data(), (short)d, r.ptr());
      else lie_gradient(tf, th, (short)n, (short)m, x.data(), (short)d, r.ptr());
      c.count(cat("lie_gradient_", how));
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= d; ++k) if (!chk(r[(size_t)i][j][k], fl->coef(R[(size_t)i], k, j) * fact[k], "lie_gradient", i, j, k)) return;
    } else {
      const bool cov = what < 6;
      c.phase(cov ? "lie_covector" : "lie_bracket");
      Mat r((size_t)n, (size_t)d + 1, 8.75);
      if (cov) lie_covector(tf, th, (short)n, x.data(), (short)d, r.ptr());
      else lie_bracket(tf, th, (short)n, x.data(), (short)d, r.ptr());
      c.count(cov ? "lie_covector" : "lie_bracket");
      // series of the field along the flow and of the flow's Jacobian
      std::vector<std::vector<long double>> v((size_t)n, std::vector<long double>((size_t)d + 1)), res = v;
      std::vector<std::vector<std::vector<long double>>> D((size_t)n, v);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) { v[(size_t)i][(size_t)k] = fl->coef(R[(size_t)i], k); for (int j = 0; j < n; ++j) D[(size_t)i][(size_t)j][(size_t)k] = fl->coef(fl->X[(size_t)i], k, j); }
      if (cov) { // pullback of a covector field: omega(x(t)) Dphi_t
        for (int j = 0; j < n; ++j) for (int k = 0; k <= d; ++k) { long double s = 0; for (int i = 0; i < n; ++i) for (int l = 0; l <= k; ++l) s += v[(size_t)i][(size_t)l] * D[(size_t)i][(size_t)j][(size_t)(k - l)]; res[(size_t)j][(size_t)k] = s; }
      } else { // pullback of a vector field: Dphi_t^{-1} g(x(t)); Dphi_0 = I
        for (int k = 0; k <= d; ++k) for (int i = 0; i < n; ++i) { long double s = v[(size_t)i][(size_t)k]; for (int l = 1; l <= k; ++l) for (int j = 0; j < n; ++j) s -= D[(size_t)i][(size_t)j][(size_t)l] * res[(size_t)j][(size_t)(k - l)]; res[(size_t)i][(size_t)k] = s; }
      }
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) if (!chk(r[(size_t)i][k], res[(size_t)i][(size_t)k] * fact[k], cov ? "lie_covector" : "lie_bracket", i, 0, k)) return;
    }
    c.expect(x == F.x[0], "input-changed", "x0 changed");
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { if (c.rng.chance(0.45)) ode(c); else lie(c); }); });
}
