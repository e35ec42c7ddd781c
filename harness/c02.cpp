// C02: higher-order forward sweeps return the Taylor coefficients of the
// function along the given curves.
#include "adtape.h"
using namespace vh;
using namespace pg;
using at::Mat; using at::Ten;

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.lenmax = c.thorough ? 40 : 20;
  o.bulkmax = c.thorough ? 60 : 16;
  o.maxval = 6;
  o.dupDeps = g.chance(0.1);
  o.allow.assign(NOPS, true);
  o.allow[CBRT] = false; // documented: no higher-order cbrt
  const int d = g.in(1, c.thorough ? 8 : 6);
  auto B = ra::Basis::total(1, d);
  Gen G; std::vector<std::vector<double>> curve; // [n*d] coefficients of one curve
  const int np = g.in(1, 4);
  std::vector<RefOut> R; // [point*np + l]
  auto refs = [&](int q) {
    std::vector<RefOut> rr;
    for (int l = 0; l < np; ++l) {
      ra::TPL::B = B.get();
      std::vector<ra::TPL> xi;
      for (int j = 0; j < G.p.n; ++j) { ra::TPL v(G.x[q][j]); for (int k = 1; k <= d; ++k) v.c[k] = curve[l][j * d + k - 1]; xi.push_back(v); }
      rr.push_back(refRun(G.p, *B, xi));
    }
    return rr;
  };
  bool good = false;
  for (int t = 0; t < 120 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty() || !G.p.m) continue;
    curve.assign(np, {});
    for (auto &cv : curve) { cv.resize(G.p.n * d); for (auto &v : cv) v = g.chance(0.25) ? 0 : g.num(1.0); }
    good = true;
    for (int q = 0; q < 2 && good; ++q) { auto rr = refs(q); for (auto &r : rr) if (!(r.maxabs < 1e4)) good = false; }
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m;
  c.nontrivial(hmix(p.hash(), d * 8 + np));
  for (auto &i : p.code) c.count(std::string("op_") + opname(i.op));
  c.count(cat("degree_", d));
  if (c.idx < 40) c.sample(cat("d=", d, " p=", np, " ", p.str()));
  if(c.verbose)fprintf(stderr,"x0=%.17g\n",G.x[0][0]); c.phase("record");
  const short id = createNewTape();
  at::record(p, G.x[0], id, g.in(0, 1), 0, g.chance(0.4) ? &g : nullptr);
  for (int q = 0; q < 2; ++q) {
    const std::vector<double> &x = G.x[q];
    std::vector<RefOut> RR = refs(q);
    auto where = [&](const char *k, int i, int l, int e) { return cat(k, " i=", i, " dir=", l, " coef=", e, " d=", d, " point=", q, " ", p.str()); };
    auto chk = [&](double got, int i, int l, int e, const char *k) {
      c.count("numbers_compared");
      long double want = RR[l].y[i].c[e];
      double tol = 4 * tolOf(RR[l], want);
      if (!close(got, (double)want, tol)) c.violation(cat("taylor:", k), cat("got ", got, " want ", (double)want, " tol ", tol, " ", where(k, i, l, e)));
    };
    auto rcOk = [&](int rc, const char *k) { c.expect(rc >= 0, cat("rc:", k), cat(k, " rc=", rc, " ", p.str())); };
    std::vector<double> y(m);
    for (int rep = 0; rep < 3; ++rep) {
      const int w = g.in(0, 9), l = g.in(0, np - 1);
      c.count(cat("driver_", w));
      Mat X(n, d), Y(m, d); for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) X[j][k] = curve[l][j * d + k];
      Mat X1(n, d + 1), Y1(m, d + 1); for (int j = 0; j < n; ++j) { X1[j][0] = x[j]; for (int k = 0; k < d; ++k) X1[j][k + 1] = X[j][k]; }
      Ten XX(n, np, d), YY(m, np, d); for (int j = 0; j < n; ++j) for (int r = 0; r < np; ++r) for (int k = 0; k < d; ++k) XX[j][r][k] = curve[r][j * d + k];
      for (auto &v : Y.d) v = g.num(); for (auto &v : Y1.d) v = g.num(); for (auto &v : YY.d) v = g.num();
      std::vector<int> ndim; { int left = n; while (left) { int k = g.in(1, left); ndim.push_back(k); left -= k; } }
      auto out1 = [&](const char *k) { for (int i = 0; i < m; ++i) for (int e = 0; e <= d; ++e) chk(Y1[i][e], i, l, e, k); };
      auto out = [&](const char *k) { for (int i = 0; i < m; ++i) { chk(y[i], i, l, 0, k); for (int e = 1; e <= d; ++e) chk(Y[i][e - 1], i, l, e, k); } };
      auto outV = [&](const char *k) { for (int i = 0; i < m; ++i) { chk(y[i], i, 0, 0, k); for (int r = 0; r < np; ++r) for (int e = 1; e <= d; ++e) chk(YY[i][r][e - 1], i, r, e, k); } };
      int rc;
      switch (w) {
      case 0: case 1: { int keep = g.in(0, d + 1); c.phase("hos_forward"); rc = hos_forward(id, m, n, d, keep, x.data(), X.ptr(), y.data(), Y.ptr()); rcOk(rc, "hos_forward"); out("hos_forward"); } break;
      case 2: { int keep = g.in(0, d + 1); c.phase("forward(hos)"); rc = forward(id, m, n, d, keep, X1.ptr(), Y1.ptr()); rcOk(rc, "forward"); out1("forward(hos)");
        for (int j = 0; j < n; ++j) for (int k = 0; k <= d; ++k) c.expect(X1[j][k] == (k ? X[j][k - 1] : x[j]), "forward-input-clobbered", where("forward", 0, l, k)); } break;
      case 3: if (m == 1) { int keep = g.in(0, d + 1); c.phase("forward(hos,m=1)"); std::vector<double> yy(d + 1); rc = forward(id, 1, n, d, keep, X1.ptr(), yy.data()); rcOk(rc, "forward1"); for (int e = 0; e <= d; ++e) chk(yy[e], 0, l, e, "forward(hos,m=1)"); } break;
      case 4: c.phase("hov_forward"); rc = hov_forward(id, m, n, d, np, x.data(), XX.ptr(), y.data(), YY.ptr()); rcOk(rc, "hov_forward"); outV("hov_forward"); break;
      case 5: c.phase("forward(hov)"); rc = forward(id, m, n, d, np, x.data(), XX.ptr(), y.data(), YY.ptr()); rcOk(rc, "forward(hov)"); outV("forward(hov)"); break;
      case 6: { int keep = g.in(0, d + 1); c.phase("hov_wk_forward"); rc = hov_wk_forward(id, m, n, d, keep, np, x.data(), XX.ptr(), y.data(), YY.ptr()); rcOk(rc, "hov_wk_forward"); outV("hov_wk_forward"); } break;
      case 7: { c.phase("hos_forward_partx"); std::vector<double **> xq; int k = 0; for (int dd : ndim) { xq.push_back(X1.ptr() + k); k += dd; } rc = hos_forward_partx(id, m, (int)ndim.size(), ndim.data(), d, xq.data(), Y1.ptr()); rcOk(rc, "hos_forward_partx"); out1("hos_forward_partx"); } break;
      case 8: { c.phase("hov_forward_partx"); std::vector<double ***> Xq; std::vector<const double *> xq; int k = 0; for (int dd : ndim) { Xq.push_back(XX.ptr() + k); xq.push_back(x.data() + k); k += dd; }
        rc = hov_forward_partx(id, m, (int)ndim.size(), ndim.data(), d, np, xq.data(), Xq.data(), y.data(), YY.ptr()); rcOk(rc, "hov_forward_partx"); outV("hov_forward_partx"); } break;
      case 9: { // Fortran: spread/pack orders as documented in fortutils
        c.phase("hos_forward_/hov_forward_"); fint ft = id, fm = m, fn = n, fd = d, fk = g.in(0, d + 1), fp = np; std::vector<double> fx(n * d), fy(m), fY(m * d), fX3(n * np * d), fY3(m * np * d);
        if (g.chance(0.5)) { for (int k = 0; k < d; ++k) for (int j = 0; j < n; ++j) fx[k * n + j] = X[j][k]; rc = hos_forward_(&ft, &fm, &fn, &fd, &fk, x.data(), fx.data(), fy.data(), fY.data()); rcOk(rc, "hos_forward_");
          for (int i = 0; i < m; ++i) { chk(fy[i], i, l, 0, "hos_forward_"); for (int e = 1; e <= d; ++e) chk(fY[(e - 1) * m + i], i, l, e, "hos_forward_"); } }
        else { for (int k = 0; k < d; ++k) for (int r = 0; r < np; ++r) for (int j = 0; j < n; ++j) fX3[(k * np + r) * n + j] = XX[j][r][k];
          rc = hov_forward_(&ft, &fm, &fn, &fd, &fp, x.data(), fX3.data(), fy.data(), fY3.data()); rcOk(rc, "hov_forward_");
          for (int i = 0; i < m; ++i) { chk(fy[i], i, 0, 0, "hov_forward_"); for (int r = 0; r < np; ++r) for (int e = 1; e <= d; ++e) chk(fY3[((e - 1) * np + r) * m + i], i, r, e, "hov_forward_"); } } } break;
      }
      for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) c.expect(X[j][k] == curve[l][j * d + k], "input-clobbered", where("X", j, l, k));
    }
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
