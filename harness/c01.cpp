// C01: first-order drivers on a tape agree with the derivatives of the
// recorded function, at the taping point and at other points.
#include "adtape.h"
// defined in the library, not declared in its headers (Fortran entry point)
extern "C" fint zos_forward_(const fint *, const fint *, const fint *, const fint *, const fdouble *, fdouble *);
using namespace vh;
using namespace pg;
using at::Mat; using at::Ten;

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.dupDeps = g.chance(0.1);
  if (c.thorough) { o.lenmax = 60; o.nmax = 6; o.mmax = 5; o.bulkmax = 200; }
  Gen G; RefOut R; std::shared_ptr<ra::Basis> B;
  for (int t = 0;; ++t) {
    G = generate(g, o);
    B = ra::Basis::total(G.p.n, 1);
    bool ok = !G.p.code.empty() && G.p.m > 0;
    for (auto &x : G.x) { R = refTotal(G.p, *B, x); if (!(R.maxabs < 3e3)) ok = false; }
    if (ok || t > 200) break;
  }
  if (!(R.maxabs < 3e3)) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m;
  c.nontrivial(p.hash());
  for (auto &i : p.code) c.count(std::string("op_") + opname(i.op));
  if (c.idx < 40) c.sample(p.str());
  c.phase("record");
  const short id = createNewTape();
  int keep0 = g.in(0, 1);
  std::vector<double> yt = at::record(p, G.x[0], id, keep0, 0, g.chance(0.4) ? &g : nullptr);
  std::string W = p.str();
  auto where = [&](const char *d, int q) { return cat(d, " point=", q, " x0=", G.x[q][0], " ", W); };
  auto jacOf = [&](const RefOut &r, int i, int j) {
    std::vector<int> e(n, 0); e[j] = 1;
    return r.y[i].c[B->find(e)];
  };
  R = refTotal(p, *B, G.x[0]);
  for (int i = 0; i < m; ++i)
    c.expect(close(yt[i], (double)R.y[i].c[0], tolOf(R, R.y[i].c[0])), "trace-value", where("trace", 0));
  if (keep0) { // reverse directly after taping with keep
    std::vector<double> u(m), z(n);
    for (auto &v : u) v = g.num();
    c.phase("fos_reverse after trace keep");
    int rc = fos_reverse(id, m, n, u.data(), z.data());
    c.count("reverse_after_trace");
    c.expect(rc >= 0, "rc:fos_reverse", where("rc", 0));
    for (int j = 0; j < n; ++j) {
      long double s = 0; for (int i = 0; i < m; ++i) s += u[i] * jacOf(R, i, j);
      c.expect(close(z[j], (double)s, 4 * tolOf(R, s)), "fos_reverse-after-trace", cat("got ", z[j], " want ", (double)s, " ", where("", 0)));
    }
  }
  for (int q = 0; q < (int)G.x.size(); ++q) {
    const std::vector<double> &x = G.x[q];
    R = refTotal(p, *B, x);
    auto chkY = [&](const double *y, const char *k) {
      for (int i = 0; i < m; ++i)
        c.expect(close(y[i], (double)R.y[i].c[0], tolOf(R, R.y[i].c[0])), cat("value:", k), cat("i=", i, " got ", y[i], " want ", (double)R.y[i].c[0], " ", where(k, q)));
    };
    auto chkV = [&](double got, long double want, const char *k) {
      c.count("numbers_compared");
      c.expect(close(got, (double)want, 6 * tolOf(R, want)), k, cat("got ", got, " want ", (double)want, " tol ", 6 * tolOf(R, want), " ", where(k, q)));
    };
    auto chkRc = [&](int rc, const char *k) { c.expect(rc >= 0, cat("rc:", k), cat("rc=", rc, " ", where(k, q))); };
    std::vector<double> y(m), xd(n), yd(m), u(m), z(n);
    for (auto &v : xd) v = g.num();
    for (auto &v : u) v = g.chance(0.15) ? 0.0 : g.num();
    if (g.chance(0.1)) std::fill(xd.begin(), xd.end(), 0.0);
    auto chkFwd = [&](const double *d, const char *k) {
      for (int i = 0; i < m; ++i) {
        long double s = 0; for (int j = 0; j < n; ++j) s += jacOf(R, i, j) * xd[j];
        chkV(d[i], s, k);
      }
    };
    auto chkRev = [&](const double *uu, const double *zz, const char *k) {
      for (int j = 0; j < n; ++j) {
        long double s = 0; for (int i = 0; i < m; ++i) s += uu[i] * jacOf(R, i, j);
        chkV(zz[j], s, k);
      }
    };
    // a reverse sweep after any forward sweep that kept its values
    auto revs = [&](const char *after) {
      int which = g.in(0, 7);
      c.count(cat("reverse_", which));
      int pp = g.in(1, 4);
      Mat U(pp, m), Z(pp, n);
      for (auto &v : U.d) v = g.chance(0.1) ? 0.0 : g.num();
      std::string k;
      int rc = 0;
      switch (which) {
      case 0: k = cat("fos_reverse<-", after); c.phase(k); rc = fos_reverse(id, m, n, u.data(), z.data()); chkRev(u.data(), z.data(), k.c_str()); break;
      case 1: k = cat("fov_reverse<-", after); c.phase(k); rc = fov_reverse(id, m, n, pp, U.ptr(), Z.ptr()); for (int l = 0; l < pp; ++l) chkRev(U[l], Z[l], k.c_str()); break;
      case 2: k = cat("reverse(d,u*,Z*)<-", after); c.phase(k); rc = reverse(id, m, n, 0, u.data(), z.data()); chkRev(u.data(), z.data(), k.c_str()); break;
      case 3: k = cat("reverse(q,U,Z)<-", after); c.phase(k);
        if (g.chance(0.5)) rc = reverse(id, m, n, pp, U.ptr(), Z.ptr()); else rc = reverse(id, m, n, 0, pp, U.ptr(), Z.ptr());
        for (int l = 0; l < pp; ++l) chkRev(U[l], Z[l], k.c_str()); break;
      case 4: k = cat("fos_reverse_<-", after); c.phase(k); { fint ft = id, fm = m, fn = n; std::vector<double> zz(n); rc = fos_reverse_(&ft, &fm, &fn, u.data(), zz.data()); chkRev(u.data(), zz.data(), k.c_str()); } break;
      case 5: k = cat("fov_reverse_<-", after); c.phase(k); { fint ft = id, fm = m, fn = n, fq = pp; std::vector<double> fu(pp * m), fz(pp * n);
        for (int l = 0; l < pp; ++l) for (int i = 0; i < m; ++i) fu[i * pp + l] = U[l][i];
        rc = fov_reverse_(&ft, &fm, &fn, &fq, fu.data(), fz.data());
        for (int l = 0; l < pp; ++l) { for (int j = 0; j < n; ++j) Z[l][j] = fz[j * pp + l]; chkRev(U[l], Z[l], k.c_str()); } } break;
      case 6: if (m == 1) { k = cat("reverse(d,u,Z*)<-", after); c.phase(k); rc = reverse(id, 1, n, 0, u[0], z.data()); chkRev(u.data(), z.data(), k.c_str()); } break;
      case 7: if (m == 1) { k = cat("reverse(d,q,U*,Z)<-", after); c.phase(k); std::vector<double> uv(pp); for (int l = 0; l < pp; ++l) uv[l] = U[l][0];
        rc = reverse(id, 1, n, 0, pp, uv.data(), Z.ptr()); for (int l = 0; l < pp; ++l) chkRev(U[l], Z[l], k.c_str()); } break;
      }
      chkRc(rc, k.c_str());
    };
    // partition of the independents for the _partx drivers
    std::vector<int> ndim; { int left = n; while (left) { int k = g.in(1, left); ndim.push_back(k); left -= k; } }
    for (int rep = 0; rep < (c.thorough ? 6 : 4); ++rep) {
      int w = g.in(0, 13);
      c.count(cat("forward_", w));
      int rc = 0;
      switch (w) {
      case 0: case 1: { int keep = g.in(0, 1); c.phase("zos_forward"); rc = zos_forward(id, m, n, keep, x.data(), y.data()); chkY(y.data(), "zos_forward"); chkRc(rc, "zos_forward"); if (keep) { revs("zos1"); if (g.chance(0.3)) revs("zos1-again"); } } break;
      case 2: case 3: { int keep = g.in(0, 1); c.phase("fos_forward"); rc = fos_forward(id, m, n, keep, x.data(), xd.data(), y.data(), yd.data()); chkY(y.data(), "fos_forward"); chkFwd(yd.data(), "fos_forward"); chkRc(rc, "fos_forward"); if (keep >= 1) revs("fos1"); } break;
      case 4: case 5: { int pp = g.in(1, 5); Mat X(n, pp), Y(m, pp); for (auto &v : X.d) v = g.num(); c.phase("fov_forward");
        rc = w == 4 ? fov_forward(id, m, n, pp, x.data(), X.ptr(), y.data(), Y.ptr()) : forward(id, m, n, pp, x.data(), X.ptr(), y.data(), Y.ptr());
        chkY(y.data(), "fov_forward"); chkRc(rc, "fov_forward");
        for (int l = 0; l < pp; ++l) { for (int j = 0; j < n; ++j) xd[j] = X[j][l]; for (int i = 0; i < m; ++i) yd[i] = Y[i][l]; chkFwd(yd.data(), "fov_forward"); } } break;
      case 6: { int pp = g.in(1, n); int off = g.in(0, n - pp); Mat X(n, n), Y(m, n); for (int j = 0; j < n; ++j) X[j][j] = 1; c.phase("fov_offset_forward");
        rc = fov_offset_forward(id, m, n, pp, off, x.data(), X.ptr(), y.data(), Y.ptr()); chkY(y.data(), "fov_offset_forward"); chkRc(rc, "fov_offset_forward");
        for (int i = 0; i < m; ++i) for (int l = 0; l < pp; ++l) chkV(Y[i][l + off], jacOf(R, i, off + l), "fov_offset_forward"); } break;
      case 7: { int keep = g.in(0, 1); c.phase("forward(d=0)"); int v = g.in(0, 2);
        if (v == 0) rc = forward(id, m, n, keep, x.data(), y.data()); else if (v == 1) rc = forward(id, m, n, 0, keep, x.data(), y.data());
        else { Mat X(n, 1), Y(m, 1); for (int j = 0; j < n; ++j) X[j][0] = x[j]; rc = forward(id, m, n, 0, keep, X.ptr(), Y.ptr()); for (int i = 0; i < m; ++i) y[i] = Y[i][0]; }
        chkY(y.data(), "forward0"); chkRc(rc, "forward0"); if (keep) revs("forward0"); } break;
      case 8: { int keep = g.in(0, 1); Mat X(n, 2), Y(m, 2); for (int j = 0; j < n; ++j) { X[j][0] = x[j]; X[j][1] = xd[j]; } c.phase("forward(d=1)");
        rc = forward(id, m, n, 1, keep, X.ptr(), Y.ptr()); for (int i = 0; i < m; ++i) { y[i] = Y[i][0]; yd[i] = Y[i][1]; }
        chkY(y.data(), "forward1"); chkFwd(yd.data(), "forward1"); chkRc(rc, "forward1"); for (int j = 0; j < n; ++j) c.expect(biteq(X[j][0], x[j]) && biteq(X[j][1], xd[j]), "forward1-input-clobbered", where("", q)); if (keep) revs("forward1"); } break;
      case 9: if (m == 1) { int d = g.in(0, 1), keep = g.in(0, 1); Mat X(n, 2); std::vector<double> Y(3); for (int j = 0; j < n; ++j) { X[j][0] = x[j]; X[j][1] = xd[j]; } c.phase("forward(m=1)");
        rc = forward(id, 1, n, d, keep, X.ptr(), Y.data()); chkY(Y.data(), "forward-m1"); if (d) chkFwd(Y.data() + 1, "forward-m1"); chkRc(rc, "forward-m1"); if (keep) revs("forward-m1"); } break;
      case 10: { std::vector<std::vector<double>> xp; std::vector<double *> xq; int k = 0; for (int d : ndim) { xp.emplace_back(x.begin() + k, x.begin() + k + d); k += d; } for (auto &v : xp) xq.push_back(v.data()); c.phase("zos_forward_partx");
        rc = zos_forward_partx(id, m, (int)ndim.size(), ndim.data(), xq.data(), y.data()); chkY(y.data(), "zos_forward_partx"); chkRc(rc, "zos_forward_partx"); } break;
      case 11: { Mat XX(n, 2); std::vector<double **> xq; int k = 0; for (int j = 0; j < n; ++j) { XX[j][0] = x[j]; XX[j][1] = xd[j]; } for (int d : ndim) { xq.push_back(XX.ptr() + k); k += d; } Mat Y(m, 2); c.phase("fos_forward_partx");
        rc = fos_forward_partx(id, m, (int)ndim.size(), ndim.data(), xq.data(), Y.ptr()); for (int i = 0; i < m; ++i) { y[i] = Y[i][0]; yd[i] = Y[i][1]; } chkY(y.data(), "fos_forward_partx"); chkFwd(yd.data(), "fos_forward_partx"); chkRc(rc, "fos_forward_partx"); } break;
      case 12: { int pp = g.in(1, 4); Mat X(n, pp), Y(m, pp); for (auto &v : X.d) v = g.num(); std::vector<double **> Xq; std::vector<const double *> xq; int k = 0; for (int d : ndim) { Xq.push_back(X.ptr() + k); xq.push_back(x.data() + k); k += d; } c.phase("fov_forward_partx");
        rc = fov_forward_partx(id, m, (int)ndim.size(), ndim.data(), pp, xq.data(), Xq.data(), y.data(), Y.ptr()); chkY(y.data(), "fov_forward_partx"); chkRc(rc, "fov_forward_partx");
        for (int l = 0; l < pp; ++l) { for (int j = 0; j < n; ++j) xd[j] = X[j][l]; for (int i = 0; i < m; ++i) yd[i] = Y[i][l]; chkFwd(yd.data(), "fov_forward_partx"); } } break;
      case 13: { fint ft = id, fm = m, fn = n, fk = g.in(0, 1); std::vector<double> fy(m); c.phase("fortran forward");
        if (g.chance(0.4)) { rc = zos_forward_(&ft, &fm, &fn, &fk, x.data(), fy.data()); chkY(fy.data(), "zos_forward_"); }
        else { int pp = g.in(1, 3); fint fp = pp; std::vector<double> fx(n * pp), fY(m * pp); for (auto &v : fx) v = g.num(); rc = fov_forward_(&ft, &fm, &fn, &fp, x.data(), fx.data(), fy.data(), fY.data()); chkY(fy.data(), "fov_forward_"); for (int l = 0; l < pp; ++l) { for (int j = 0; j < n; ++j) xd[j] = fx[l * n + j]; chkFwd(fY.data() + l * m, "fov_forward_"); } fk = 0; }
        chkRc(rc, "fortran-forward"); if (fk) revs("zos_forward_"); } break;
      }
    }
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
