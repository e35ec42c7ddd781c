// C03: higher-order reverse sweeps return the adjoint Taylor coefficients
// Z(t) = U(t)^T F'(x(t)) of the preceding forward sweep.
#include "adtape.h"
using namespace vh;
using namespace pg;
using at::Mat; using at::Ten;
using P3 = std::vector<std::vector<std::vector<double>>>;

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.lenmax = c.thorough ? 36 : 18;
  o.bulkmax = c.thorough ? 40 : 12;
  o.maxval = 6;
  o.nmax = 3;
  o.dupDeps = g.chance(0.1);
  o.allow.assign(NOPS, true);
  o.allow[CBRT] = false; // documented: no higher-order cbrt
  const bool ovcase = g.chance(0.25);
  const int d = g.chance(0.08) && !ovcase ? 0 : g.in(1, c.thorough ? 6 : 4); // reverse degree
  const int np = ovcase ? g.in(1, 3) : 1;
  Gen G; std::vector<std::vector<double>> curve;
  std::shared_ptr<ra::Basis> B;
  auto refs = [&](int q, int l) {
    ra::TPL::B = B.get();
    std::vector<ra::TPL> xi;
    for (int j = 0; j < G.p.n; ++j) { ra::TPL v = ra::TPL::var(j + 1, G.x[q][j]); std::vector<int> e(G.p.n + 1, 0); for (int k = 1; k <= d; ++k) { e[0] = k; v.c[B->find(e)] = curve[l][j * d + k - 1]; } xi.push_back(v); }
    return refRun(G.p, *B, xi);
  };
  bool good = false;
  for (int t = 0; t < 120 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty() || !G.p.m) continue;
    // documented: hos_ov_reverse does not support fmin at a tie (here: fmin(x,x))
    if (ovcase) { bool tie = false; for (auto &i : G.p.code) if ((i.op == FMIN || i.op == FMAX) && i.a == i.b) tie = true; if (tie) continue; }
    B = ra::Basis::path(G.p.n, d);
    curve.assign(np, {});
    for (auto &cv : curve) { cv.resize(G.p.n * d); for (auto &v : cv) v = g.chance(0.25) ? 0 : g.num(1.0); }
    good = true;
    for (int q = 0; q < 2 && good; ++q) for (int l = 0; l < np && good; ++l) if (!(refs(q, l).maxabs < 3e3)) good = false;
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m;
  c.nontrivial(hmix(p.hash(), d * 8 + np));
  for (auto &i : p.code) c.count(std::string("op_") + opname(i.op));
  c.count(cat("degree_", d));
  if (c.idx < 40) c.sample(cat("d=", d, " p=", np, " ", p.str()));
  c.phase("record");
  const short id = createNewTape();
  at::record(p, G.x[0], id, g.in(0, 1), 0, g.chance(0.4) ? &g : nullptr);
  for (int q = 0; q < 2; ++q) {
    const std::vector<double> &x = G.x[q];
    std::vector<RefOut> RR; for (int l = 0; l < np; ++l) RR.push_back(refs(q, l));
    // J[l][i][j][k]
    auto J = [&](int l, int i, int j, int k) -> long double { std::vector<int> e(n + 1, 0); e[0] = k; e[j + 1] = 1; return RR[l].y[i].c[B->find(e)]; };
    auto rcOk = [&](int rc, const char *k) { c.expect(rc >= 0, cat("rc:", k), cat(k, " rc=", rc, " ", p.str())); };
    // weights
    const int nq = g.in(1, 3);
    Ten U(nq, m, d + 1); // time dependent weights
    Mat U0(nq, m);
    for (int r = 0; r < nq; ++r) for (int i = 0; i < m; ++i) { U0[r][i] = g.chance(0.2) ? 0 : g.num(); for (int k = 0; k <= d; ++k) U[r][i][k] = g.chance(0.3) ? 0 : g.num(); }
    auto want = [&](int l, int r, int j, int k, bool ti) { long double s = 0; for (int i = 0; i < m; ++i) for (int a = 0; a <= (ti ? k : 0); ++a) s += (long double)(ti ? U[r][i][a] : U0[r][i]) * J(l, i, j, k - a); return s; };
    auto chk = [&](double got, int l, int r, int j, int k, bool ti, const char *key) {
      c.count("numbers_compared");
      long double w = want(l, r, j, k, ti);
      double tol = 10 * tolOf(RR[l], w);
      if (!close(got, (double)w, tol)) c.violation(cat("adjoint:", key), cat("got ", got, " want ", (double)w, " tol ", tol, " ", key, " dir=", l, " row=", r, " var=", j, " coef=", k, " d=", d, " point=", q, " ", p.str()));
    };
    auto chkNz = [&](short **nz, double ***Z, int rows, const char *key) {
      for (int r = 0; r < rows; ++r) for (int j = 0; j < n; ++j) {
        c.expect(nz[r][j] >= 0 && nz[r][j] <= 5, cat("nz-range:", key), cat("nz=", nz[r][j], " ", p.str()));
        c.count(cat("nz_", nz[r][j]));
        if (nz[r][j] == 0) for (int k = 0; k <= d; ++k) c.expect(Z[r][j][k] == 0, cat("nz-trivial:", key), cat("row ", r, " var ", j, " coef ", k, " = ", Z[r][j][k], " ", p.str()));
        if (nz[r][j] == 1) for (int k = 1; k <= d; ++k) c.expect(Z[r][j][k] == 0, cat("nz-linear:", key), cat("row ", r, " var ", j, " coef ", k, " = ", Z[r][j][k], " ", p.str()));
      }
    };
    // ---- forward with keep
    Mat X(n, d), Y(m, d);
    for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) X[j][k] = curve[0][j * d + k];
    std::vector<double> y(m);
    auto fwd = [&]() {
      c.phase("forward keep"); int rc;
      if (d == 0) { rc = zos_forward(id, m, n, 1, x.data(), y.data()); c.count("fwd_zos"); }
      else if (ovcase) { Ten XX(n, np, d), YY(m, np, d); for (int j = 0; j < n; ++j) for (int l = 0; l < np; ++l) for (int k = 0; k < d; ++k) XX[j][l][k] = curve[l][j * d + k];
        rc = hov_wk_forward(id, m, n, d, d + 1, np, x.data(), XX.ptr(), y.data(), YY.ptr()); c.count("fwd_hov_wk"); }
      else if (d == 1 && g.chance(0.5)) { std::vector<double> x1(n), y1(m); for (int j = 0; j < n; ++j) x1[j] = X[j][0]; rc = fos_forward(id, m, n, 2, x.data(), x1.data(), y.data(), y1.data()); c.count("fwd_fos"); }
      else if (g.chance(0.25)) { // higher forward degree than kept
        const int D = d + g.in(1, 2); Mat X2(n, D), Y2(m, D); for (int j = 0; j < n; ++j) for (int k = 0; k < D; ++k) X2[j][k] = k < d ? X[j][k] : g.num(); rc = hos_forward(id, m, n, D, d + 1, x.data(), X2.ptr(), y.data(), Y2.ptr()); c.count("fwd_hos_partial_keep"); }
      else { rc = hos_forward(id, m, n, d, d + 1, x.data(), X.ptr(), y.data(), Y.ptr()); c.count("fwd_hos"); }
      rcOk(rc, "forward");
    };
    fwd();
    const int reps = g.in(1, 3);
    for (int rep = 0; rep < reps; ++rep) {
      if (rep && g.chance(0.5)) fwd();
      int rc, w = ovcase ? 100 : g.in(0, 9);
      c.count(cat("driver_", w));
      Mat Z(n, d + 1, 7.7); Ten ZZ(nq, n, d + 1, 7.7);
      std::vector<short> nzd(nq * n + 1, 99); std::vector<short *> nz(nq); for (int r = 0; r < nq; ++r) nz[r] = nzd.data() + r * n;
      auto out1 = [&](bool ti, const char *k) { for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(Z[j][e], 0, 0, j, e, ti, k); };
      auto out = [&](bool ti, const char *k) { for (int r = 0; r < nq; ++r) for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(ZZ[r][j][e], 0, r, j, e, ti, k); };
      switch (w) {
      case 0: c.phase("hos_reverse"); rc = hos_reverse(id, m, n, d, U0[0], Z.ptr()); rcOk(rc, "hos_reverse"); out1(false, "hos_reverse"); break;
      case 1: c.phase("reverse(hos)"); rc = m == 1 && g.chance(0.5) ? reverse(id, m, n, d, U0[0][0], Z.ptr()) : reverse(id, m, n, d, U0[0], Z.ptr()); rcOk(rc, "reverse(hos)"); out1(false, "reverse(hos)"); break;
      case 2: c.phase("hos_ti_reverse"); rc = hos_ti_reverse(id, m, n, d, U[0], Z.ptr()); rcOk(rc, "hos_ti_reverse"); out1(true, "hos_ti_reverse"); break;
      case 3: { bool wnz = g.chance(0.7); c.phase("hov_reverse"); rc = hov_reverse(id, m, n, d, nq, U0.ptr(), ZZ.ptr(), wnz ? nz.data() : nullptr); rcOk(rc, "hov_reverse"); out(false, "hov_reverse"); if (wnz) chkNz(nz.data(), ZZ.ptr(), nq, "hov_reverse"); } break;
      case 4: { bool wnz = g.chance(0.7); c.phase("hov_ti_reverse"); rc = hov_ti_reverse(id, m, n, d, nq, U.ptr(), ZZ.ptr(), wnz ? nz.data() : nullptr); rcOk(rc, "hov_ti_reverse"); out(true, "hov_ti_reverse");
        if (wnz) for (int r = 0; r < nq; ++r) for (int j = 0; j < n; ++j) if (nz[r][j] == 0) for (int k = 0; k <= d; ++k) c.expect(ZZ[r][j][k] == 0, "nz-trivial:hov_ti", p.str()); } break;
      case 5: { c.phase("reverse(hov)"); if (m == 1 && g.chance(0.5)) { std::vector<double> u(nq); for (int r = 0; r < nq; ++r) u[r] = U0[r][0]; rc = reverse(id, m, n, d, nq, u.data(), ZZ.ptr(), nz.data()); } else rc = reverse(id, m, n, d, nq, U0.ptr(), ZZ.ptr(), nz.data()); rcOk(rc, "reverse(hov)"); out(false, "reverse(hov)"); chkNz(nz.data(), ZZ.ptr(), nq, "reverse(hov)"); } break;
      case 6: { c.phase("reverse(identity)"); Ten ZI(m, n, d + 1, 7.7); std::vector<short> nd(m * n + 1, 99); std::vector<short *> nn(m); for (int i = 0; i < m; ++i) nn[i] = nd.data() + i * n;
        rc = reverse(id, m, n, d, ZI.ptr(), nn.data()); rcOk(rc, "reverse(identity)"); chkNz(nn.data(), ZI.ptr(), m, "reverse(identity)");
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) { long double ww = J(0, i, j, e); c.count("numbers_compared"); if (!close(ZI[i][j][e], (double)ww, 10 * tolOf(RR[0], ww))) c.violation("adjoint:reverse(identity)", cat("got ", ZI[i][j][e], " want ", (double)ww, " i=", i, " j=", j, " coef=", e, " ", p.str())); } } break;
      case 7: { fint ft = id, fm = m, fn = n, fd = d; std::vector<double> fz(n * (d + 1));
        if (g.chance(0.5)) { c.phase("hos_reverse_"); rc = hos_reverse_(&ft, &fm, &fn, &fd, U0[0], fz.data()); rcOk(rc, "hos_reverse_"); for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(fz[e * n + j], 0, 0, j, e, false, "hos_reverse_"); }
        else { c.phase("hos_ti_reverse_"); std::vector<double> fu(m * (d + 1)); for (int i = 0; i < m; ++i) for (int e = 0; e <= d; ++e) fu[e * m + i] = U[0][i][e]; rc = hos_ti_reverse_(&ft, &fm, &fn, &fd, fu.data(), fz.data()); rcOk(rc, "hos_ti_reverse_"); for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(fz[e * n + j], 0, 0, j, e, true, "hos_ti_reverse_"); } } break;
      case 8: { fint ft = id, fm = m, fn = n, fd = d, fq = nq; std::vector<double> fz(nq * n * (d + 1));
        if (g.chance(0.5)) { c.phase("hov_reverse_"); std::vector<double> fu(nq * m); for (int r = 0; r < nq; ++r) for (int i = 0; i < m; ++i) fu[i * nq + r] = U0[r][i]; rc = hov_reverse_(&ft, &fm, &fn, &fd, &fq, fu.data(), fz.data()); rcOk(rc, "hov_reverse_"); for (int r = 0; r < nq; ++r) for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(fz[(e * n + j) * nq + r], 0, r, j, e, false, "hov_reverse_"); }
        else { c.phase("hov_ti_reverse_"); std::vector<double> fu(nq * m * (d + 1)); for (int r = 0; r < nq; ++r) for (int i = 0; i < m; ++i) for (int e = 0; e <= d; ++e) fu[(e * m + i) * nq + r] = U[r][i][e]; rc = hov_ti_reverse_(&ft, &fm, &fn, &fd, &fq, fu.data(), fz.data()); rcOk(rc, "hov_ti_reverse_"); for (int r = 0; r < nq; ++r) for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(fz[(e * n + j) * nq + r], 0, r, j, e, true, "hov_ti_reverse_"); } } break;
      case 9: if (d == 0) { c.phase("reverse(fos/fov)"); Mat Z2(nq, n, 7.7); std::vector<double> z(n);
          rc = reverse(id, m, n, 0, U0[0], z.data()); rcOk(rc, "reverse(fos)"); for (int j = 0; j < n; ++j) chk(z[j], 0, 0, j, 0, false, "reverse(fos)");
          rc = reverse(id, m, n, 0, nq, U0.ptr(), Z2.ptr()); rcOk(rc, "reverse(fov)"); for (int r = 0; r < nq; ++r) for (int j = 0; j < n; ++j) chk(Z2[r][j], 0, r, j, 0, false, "reverse(fov)"); } break;
      case 100: { Ten ZP(np, n, d + 1, 7.7); const bool cu = g.chance(0.4);
        if (cu) for (int i = 0; i < m; ++i) for (int k = 1; k <= d; ++k) U[0][i][k] = 0;
        c.phase("hos_ov_reverse"); rc = hos_ov_reverse(id, m, n, d, np, U[0], ZP.ptr()); rcOk(rc, "hos_ov_reverse");
        for (int l = 0; l < np; ++l) for (int j = 0; j < n; ++j) for (int e = 0; e <= d; ++e) chk(ZP[l][j][e], l, 0, j, e, true, "hos_ov_reverse"); } break;
      }
    }
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
