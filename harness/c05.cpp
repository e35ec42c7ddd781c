// C05: tensor_eval / tensor_address / tensorsetup / tensor_value,
// inverse_Taylor_prop, inverse_tensor_eval, jac_solv.
#include "adtape.h"
#include <functional>
using namespace vh;
using namespace pg;
using at::Mat;

// all non-increasing multi-indices of length d over 0..p
static std::vector<std::vector<int>> multis(int d, int p) {
  std::vector<std::vector<int>> r;
  std::vector<int> m((size_t)d);
  std::function<void(int, int)> rec = [&](int k, int hi) {
    if (k == d) { r.push_back(m); return; }
    for (int v = 0; v <= hi; ++v) { m[(size_t)k] = v; rec(k + 1, v); }
  };
  rec(0, p);
  return r;
}
static long double factorialOf(const std::vector<int> &e) {
  long double f = 1;
  for (int k : e) for (int i = 2; i <= k; ++i) f *= i;
  return f;
}
static std::vector<int> expo(const std::vector<int> &m, int p) {
  std::vector<int> e((size_t)p, 0);
  for (int v : m) if (v) e[(size_t)v - 1]++;
  return e;
}
// walks the pointer structure of tensorsetup
static double viaPointers(void *t, const std::vector<int> &m) {
  void *q = t;
  for (size_t k = 0; k + 1 < m.size(); ++k) q = ((void **)q)[m[k]];
  return ((double *)q)[m.back()];
}

// F_i(x) = s * g_i(x) + sum_j L_ij x_j with g a generated program: a family of
// regular square systems
struct Sys { const Prog *p; double s; std::vector<std::vector<double>> L; int n; };
template <class T> static std::vector<T> sysRun(const Sys &S, const std::vector<T> &x) {
  std::vector<T> r;
  initRegs<T>(*S.p, r);
  for (int i = 0; i < S.n; ++i) r[(size_t)i] = x[(size_t)i];
  run<T>(*S.p, r);
  std::vector<T> y;
  y.reserve((size_t)S.n);
  for (int i = 0; i < S.n; ++i) {
    T t(0.0);
    t = r[(size_t)S.p->dep[(size_t)i]] * T(S.s);
    for (int j = 0; j < S.n; ++j) if (S.L[(size_t)i][(size_t)j] != 0) t += x[(size_t)j] * T(S.L[(size_t)i][(size_t)j]);
    y.push_back(t);
  }
  return y;
}
static void sysRecord(const Sys &S, const std::vector<double> &x, short id, std::vector<double> &y) {
  trace_on(id);
  {
    std::vector<adouble> r, xs;
    pg::initRegs<adouble>(*S.p, r);
    xs.reserve((size_t)S.n);
    for (int i = 0; i < S.n; ++i) { xs.emplace_back(); xs.back() <<= x[(size_t)i]; }
    auto out = sysRun<adouble>(S, xs);
    for (int i = 0; i < S.n; ++i) out[(size_t)i] >>= y[(size_t)i];
  }
  trace_off();
}
// determinant-free regularity measure: smallest relative pivot; solves J z = b
static bool solveRef(std::vector<std::vector<long double>> J, std::vector<long double> b, std::vector<long double> &z, long double &piv) {
  int n = (int)b.size(); piv = 1e30L;
  for (int k = 0; k < n; ++k) {
    int q = k;
    for (int i = k; i < n; ++i) if (fabsl(J[i][k]) > fabsl(J[q][k])) q = i;
    std::swap(J[k], J[q]); std::swap(b[k], b[q]);
    piv = std::min(piv, fabsl(J[k][k]));
    if (piv < 1e-6L) return false;
    for (int i = k + 1; i < n; ++i) {
      long double f = J[i][k] / J[k][k];
      for (int j = k; j < n; ++j) J[i][j] -= f * J[k][j];
      b[i] -= f * b[k];
    }
  }
  z.assign(n, 0);
  for (int k = n - 1; k >= 0; --k) {
    long double s = b[k];
    for (int j = k + 1; j < n; ++j) s -= J[k][j] * z[j];
    z[k] = s / J[k][k];
  }
  return true;
}

static void tensors(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.lenmax = c.thorough ? 30 : 18; o.bulkmax = c.thorough ? 60 : 16;
  o.maxval = 6; o.extra = 5;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false;
  const int p = g.in(1, 4), d = g.chance(0.1) ? g.in(0, 1) : g.in(1, p == 1 ? 7 : p == 2 ? 5 : p == 3 ? 4 : 3);
  Gen G; std::shared_ptr<ra::Basis> B = ra::Basis::total(p, std::max(d, 1));
  std::vector<std::vector<double>> S; RefOut R; std::vector<double> x;
  bool good = false;
  for (int t = 0; t < 60 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty() || !G.p.m) continue;
    x = G.x[(size_t)g.in(0, 1)];
    S.assign((size_t)G.p.n, std::vector<double>((size_t)p));
    for (auto &r : S) for (auto &v : r) v = g.chance(0.2) ? 0 : g.num(1.0);
    ra::TPL::B = B.get();
    std::vector<ra::TPL> xi;
    for (int i = 0; i < G.p.n; ++i) {
      ra::TPL v(x[(size_t)i]);
      for (int j = 0; j < p; ++j) { std::vector<int> e((size_t)p, 0); e[(size_t)j] = 1; v.c[(size_t)B->find(e)] += S[(size_t)i][(size_t)j]; }
      xi.push_back(v);
    }
    R = refRun(G.p, *B, xi);
    // directions up to d times a seed column are propagated, so the working
    // magnitudes are larger than those of the reference by up to d^d
    good = R.maxabs < 1e5L;
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &P = G.p; const int n = P.n, m = P.m;
  c.nontrivial(hmix(P.hash(), (uint64_t)(p * 16 + d)));
  if (c.idx < 40) c.sample(P.str());
  const short id = createNewTape();
  c.phase("record");
  at::record(P, G.x[0], id, 0);
  const size_t dim = (size_t)binomi((size_t)(p + d), (size_t)d);
  auto ms = multis(d, p);
  c.expect(dim == ms.size(), "tensor-size", cat("binomi(", p + d, ",", d, ")=", dim));
  Mat T((size_t)m, dim, 777.0), Sm((size_t)n, (size_t)p);
  for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) Sm[(size_t)i][j] = S[(size_t)i][(size_t)j];
  std::vector<double> xc = x;
  c.phase("tensor_eval");
  int rc = tensor_eval(id, m, n, d, p, xc.data(), T.ptr(), Sm.ptr());
  c.expect(rc >= 0, "rc:tensor_eval", cat("rc=", rc, " ", P.str()));
  c.expect(xc == x, "input-changed", "tensor_eval changed x");
  c.count(cat("tensor_d_", d));
  // work magnitudes: d^|alpha| scaling of the seed
  const long double amp = powl((long double)std::max(1, d), d);
  std::vector<char> hit(dim, 0);
  void **tp = nullptr;
  if (d > 0) tp = tensorsetup(m, p, d, T.ptr());
  for (auto &mu : ms) {
    size_t a = d ? tensor_address(d, mu.data()) : 0;
    if (a >= dim || hit[a]) { c.violation("tensor_address", cat("address ", a, " not a bijection d=", d, " p=", p)); return; }
    hit[a] = 1;
    if (d) { // any order of the components names the same entry
      auto sh = mu; for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[(size_t)g.in(0, (int)i - 1)]);
      c.expect(tensor_address(d, sh.data()) == a, "tensor_address-order", "address depends on the order of the multi-index");
      std::vector<double> tv((size_t)m, -1);
      auto keep = sh;
      tensor_value(d, m, tv.data(), T.ptr(), sh.data());
      for (int i = 0; i < m; ++i) {
        c.expect(tv[(size_t)i] == T[(size_t)i][a] || (tv[(size_t)i] != tv[(size_t)i]), "tensor_value", cat("tensor_value ", tv[(size_t)i], " entry ", T[(size_t)i][a]));
        double v = viaPointers(tp[i], mu);
        c.expect(v == T[(size_t)i][a] || v != v, "tensorsetup", cat("pointer access ", v, " entry ", T[(size_t)i][a]));
      }
      c.expect(sh == keep, "input-changed:tensor_value", "tensor_value changed the caller's multi-index");
    }
    auto e = expo(mu, p);
    for (int i = 0; i < m; ++i) {
      long double w = R.y[(size_t)i].c[(size_t)B->find(e)] * factorialOf(e);
      double got = T[(size_t)i][a];
      c.count("numbers_compared");
      double tol = (double)(1e-8L * (1 + fabsl(w)) + amp * (2e-14L * R.maxabs * R.maxabs + 2e-12L * R.maxabs));
      if (!close(got, (double)w, tol)) { c.violation("tensor", cat("got ", got, " want ", (double)w, " tol ", tol, " comp ", i, " address ", a, " d=", d, " p=", p, " ", P.str())); return; }
    }
  }
  if (tp) { freetensor(m, p, d, (double **)tp); free(tp); }
  // the tensor array stays the caller's
  for (int i = 0; i < m; ++i) for (size_t a = 0; a < dim; ++a) if (T[(size_t)i][a] == 1e300) c.count("never");
}

static void inverse(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.nmin = 1; o.nmax = 4; o.lenmax = c.thorough ? 24 : 14; o.bulkmax = 16; o.maxval = 6; o.extra = 5;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false;
  Gen G; Sys S; std::vector<double> x; std::vector<std::vector<long double>> J;
  std::shared_ptr<ra::Basis> B1; RefOut dummy; bool good = false; long double piv = 0, gm = 0;
  for (int t = 0; t < 60 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty()) continue;
    const int n = G.p.n;
    while ((int)G.p.dep.size() < n) G.p.dep.push_back(g.in(0, G.p.nr - 1));
    G.p.dep.resize((size_t)n); G.p.m = n;
    S.p = &G.p; S.n = n; S.s = g.chance(0.3) ? 1.0 : 0.25;
    S.L.assign((size_t)n, std::vector<double>((size_t)n, 0.0));
    std::vector<int> perm((size_t)n); for (int i = 0; i < n; ++i) perm[(size_t)i] = i;
    for (int i = n; i > 1; --i) std::swap(perm[(size_t)i - 1], perm[(size_t)g.in(0, i - 1)]);
    for (int i = 0; i < n; ++i) { if (g.chance(0.8)) S.L[(size_t)i][(size_t)perm[(size_t)i]] = g.chance(0.5) ? 2 : -1.5; if (g.chance(0.3)) S.L[(size_t)i][(size_t)g.in(0, n - 1)] += g.num(1.0); }
    x = G.x[(size_t)g.in(0, 1)];
    B1 = ra::Basis::total(n, 1); ra::TPL::B = B1.get();
    std::vector<ra::TPL> xi; for (int i = 0; i < n; ++i) xi.push_back(ra::TPL::var(i, x[(size_t)i]));
    ra::TPL::maxabs = 0;
    auto y = sysRun<ra::TPL>(S, xi);
    gm = ra::TPL::maxabs;
    if (!(gm < 1e3L)) continue;
    J.assign((size_t)n, std::vector<long double>((size_t)n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { std::vector<int> e((size_t)n, 0); e[(size_t)j] = 1; J[(size_t)i][(size_t)j] = y[(size_t)i].c[(size_t)B1->find(e)]; }
    std::vector<long double> z;
    good = solveRef(J, std::vector<long double>((size_t)n, 1.0L), z, piv) && piv > 0.05L;
  }
  if (!good) { c.count("skipped_singular"); return; }
  const int n = S.n;
  c.nontrivial(hmix(G.p.hash(), (uint64_t)n));
  if (c.idx < 40) c.sample(G.p.str());
  const short id = createNewTape();
  c.phase("record-sys");
  std::vector<double> y0((size_t)n);
  sysRecord(S, G.x[0], id, y0);
  auto yAt = [&](const std::vector<double> &xx) {
    ra::TPL::B = B1.get();
    std::vector<ra::TPL> xi; for (int i = 0; i < n; ++i) xi.push_back(ra::TPL(xx[(size_t)i]));
    auto y = sysRun<ra::TPL>(S, xi); std::vector<double> r; for (auto &t : y) r.push_back((double)t.c[0]); return r;
  };
  std::vector<double> y = yAt(x);
  auto jacAt = [&](const std::vector<double> &xx) {
    ra::TPL::B = B1.get();
    std::vector<ra::TPL> xi; for (int i = 0; i < n; ++i) xi.push_back(ra::TPL::var(i, xx[(size_t)i]));
    auto yy = sysRun<ra::TPL>(S, xi);
    std::vector<std::vector<long double>> K((size_t)n, std::vector<long double>((size_t)n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { std::vector<int> e((size_t)n, 0); e[(size_t)j] = 1; K[(size_t)i][(size_t)j] = yy[(size_t)i].c[(size_t)B1->find(e)]; }
    return K;
  };
  // pushes the curve with coefficients X[i][0..d] through the system
  auto push = [&](const std::vector<std::vector<long double>> &X, int d, long double &mx) {
    auto B = ra::Basis::total(1, std::max(d, 1)); ra::TPL::B = B.get();
    std::vector<ra::TPL> xi;
    for (int i = 0; i < n; ++i) { ra::TPL v((double)0); for (int k = 0; k <= d; ++k) v.c[(size_t)B->find({k})] = X[(size_t)i][(size_t)k]; xi.push_back(v); }
    ra::TPL::maxabs = 0;
    auto yy = sysRun<ra::TPL>(S, xi); mx = ra::TPL::maxabs;
    std::vector<std::vector<long double>> Y((size_t)n, std::vector<long double>((size_t)d + 1));
    for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) Y[(size_t)i][(size_t)k] = yy[(size_t)i].c[(size_t)B->find({k})];
    return Y;
  };
  const int reps = g.in(2, 5);
  for (int rep = 0; rep < reps; ++rep) {
    int w = g.in(0, 3);
    if (w == 0) { // jac_solv histories over points and modes
      c.phase("jac_solv");
      std::vector<double> xs[2] = {x, G.x[1]};
      int cur = 0;
      for (int h = g.in(1, 8); h > 0; --h) {
        if (g.chance(0.4)) cur = 1 - cur;
        int mode = g.in(0, 2);
        std::vector<double> b((size_t)n), b0; for (auto &t : b) t = g.num(1.0); b0 = b;
        auto xc = xs[cur];
        auto K = jacAt(xc);
        std::vector<long double> z; long double pv;
        bool reg = solveRef(K, std::vector<long double>(b.begin(), b.end()), z, pv) && pv > 0.02L;
        if (!reg) { c.count("jac_solv_nearsingular_skipped"); break; }
        int rc = jac_solv((unsigned short)id, n, xc.data(), b.data(), (unsigned short)mode);
        c.expect(rc >= 0, "rc:jac_solv", cat("mode ", mode, " rc=", rc, " ", G.p.str()));
        c.expect(xc == xs[cur], "input-changed:jac_solv", "x changed");
        c.count(cat("jac_solv_mode_", mode));
        if (mode < 2) c.expect(b == b0, "jac_solv-b", cat("mode ", mode, " changed b"));
        else for (int i = 0; i < n; ++i) {
          double tol = (double)(1e-7L * (1 + fabsl(z[(size_t)i])) * (1 + gm / (pv * pv)) * 1e-2L);
          c.count("numbers_compared");
          if (!close(b[(size_t)i], (double)z[(size_t)i], tol)) { c.violation("jac_solv", cat("x[", i, "]=", b[(size_t)i], " want ", (double)z[(size_t)i], " ", G.p.str())); return; }
        }
      }
    } else if (w == 1) {
      c.phase("inverse_Taylor_prop");
      const int d = g.in(1, 8);
      Mat X((size_t)n, (size_t)d + 1, 55.5), Y((size_t)n, (size_t)d + 1);
      for (int i = 0; i < n; ++i) { X[(size_t)i][0] = x[(size_t)i]; Y[(size_t)i][0] = y[(size_t)i]; for (int k = 1; k <= d; ++k) Y[(size_t)i][k] = g.chance(0.3) ? 0 : g.num(0.5) / k; }
      auto Yc = Y.d;
      int rc = inverse_Taylor_prop(id, n, d, Y.ptr(), X.ptr());
      c.expect(rc >= 0, "rc:inverse_Taylor_prop", cat("rc=", rc, " d=", d, " ", G.p.str()));
      c.expect(Yc == Y.d, "input-changed:inverse_Taylor_prop", "Y changed");
      std::vector<std::vector<long double>> Xc((size_t)n, std::vector<long double>((size_t)d + 1));
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) Xc[(size_t)i][(size_t)k] = X[(size_t)i][k];
      long double mx; auto Yp = push(Xc, d, mx);
      if (!(mx < 1e5L)) { c.count("inverse_illconditioned"); continue; }
      c.count(cat("inverse_d_", d));
      for (int i = 0; i < n; ++i) for (int k = 1; k <= d; ++k) {
        double tol = (double)(1e-8L + 1e-10L * mx * (1 + gm / piv));
        c.count("numbers_compared");
        if (!close((double)Yp[(size_t)i][(size_t)k], Y[(size_t)i][k], tol)) { c.violation("inverse_Taylor_prop", cat("F(X)[", i, "] coefficient ", k, " is ", (double)Yp[(size_t)i][(size_t)k], " want ", Y[(size_t)i][k], " tol ", tol, " d=", d, " ", G.p.str())); return; }
      }
    } else if (w == 2) {
      c.phase("inverse_tensor_eval");
      const int p = g.in(1, 3), d = g.in(1, p == 1 ? 5 : p == 2 ? 4 : 3);
      const size_t dim = (size_t)binomi((size_t)(p + d), (size_t)d);
      Mat T((size_t)n, dim, 777.0), Sm((size_t)n, (size_t)p);
      for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) Sm[(size_t)i][j] = g.chance(0.2) ? 0 : g.num(0.5);
      auto xc = x;
      int rc = inverse_tensor_eval(id, n, d, p, xc.data(), T.ptr(), Sm.ptr());
      c.expect(rc >= 0, "rc:inverse_tensor_eval", cat("rc=", rc, " ", G.p.str()));
      c.expect(xc == x, "input-changed:inverse_tensor_eval", "x changed");
      auto B = ra::Basis::total(p, d); ra::TPL::B = B.get();
      std::vector<ra::TPL> xi(  (size_t)n, ra::TPL(0.0));
      long double tmax = 0;
      for (auto &mu : multis(d, p)) {
        size_t a = tensor_address(d, mu.data()); auto e = expo(mu, p);
        for (int i = 0; i < n; ++i) { xi[(size_t)i].c[(size_t)B->find(e)] = T[(size_t)i][a] / factorialOf(e); tmax = std::max(tmax, (long double)std::fabs(T[(size_t)i][a])); }
      }
      ra::TPL::maxabs = 0;
      auto yy = sysRun<ra::TPL>(S, xi); long double mx = std::max(ra::TPL::maxabs, tmax);
      if (!(mx < 1e4L)) { c.count("inverse_illconditioned"); continue; }
      c.count(cat("inverse_tensor_d_", d));
      const long double amp = powl(d, d);
      for (int i = 0; i < n; ++i) for (auto &mu : multis(d, p)) {
        auto e = expo(mu, p); int deg = 0, one = -1; for (int j = 0; j < p; ++j) { deg += e[(size_t)j]; if (e[(size_t)j]) one = j; }
        long double want = deg == 0 ? (long double)y[(size_t)i] : deg == 1 ? (long double)Sm[(size_t)i][one] : 0;
        long double got = yy[(size_t)i].c[(size_t)B->find(e)];
        double tol = (double)(1e-8L + amp * 1e-11L * mx * mx * (1 + gm / piv));
        c.count("numbers_compared");
        if (!close((double)got, (double)want, tol)) { c.violation("inverse_tensor_eval", cat("F(G(z))[", i, "] is ", (double)got, " want ", (double)want, " tol ", tol, " d=", d, " p=", p, " degree ", deg, " ", G.p.str())); return; }
      }
    } else { // retape another function under the same id: no stale factorization
      c.phase("retape");
      for (auto &r : S.L) for (auto &v : r) v = v * 1.25;
      S.s *= 0.75;
      auto K = jacAt(x); std::vector<long double> z;
      if (!solveRef(K, std::vector<long double>((size_t)n, 1.0L), z, piv) || piv < 0.05L) { c.count("retape_singular"); return; }
      sysRecord(S, G.x[0], id, y0);
      y = yAt(x);
      c.count("retaped");
      std::vector<double> b((size_t)n, 1.0);
      int rc = jac_solv((unsigned short)id, n, x.data(), b.data(), 2);
      c.expect(rc >= 0, "rc:jac_solv-retape", cat("rc=", rc));
      for (int i = 0; i < n; ++i) {
        double tol = (double)(1e-7L * (1 + fabsl(z[(size_t)i])) * (1 + gm / (piv * piv)) * 1e-2L);
        if (!close(b[(size_t)i], (double)z[(size_t)i], tol)) { c.violation("jac_solv-retape", cat("after recording another function: x[", i, "]=", b[(size_t)i], " want ", (double)z[(size_t)i], " ", G.p.str())); return; }
      }
    }
  }
}

// exactly singular systems: rows repeated, zero rows or zero columns
static void singular(Ctx &c) {
  Rng &g = c.rng;
  const int n = g.in(1, 5), kind = g.in(0, 2);
  std::vector<std::vector<double>> L((size_t)n, std::vector<double>((size_t)n));
  for (auto &r : L) for (auto &v : r) v = g.in(-4, 4);
  int a = g.in(0, n - 1), b = g.in(0, n - 1);
  if (kind == 0 || n == 1) { for (auto &v : L[(size_t)a]) v = 0; }
  else if (kind == 1) { for (auto &r : L) r[(size_t)a] = 0; }
  else { if (a == b) b = (a + 1) % n; L[(size_t)b] = L[(size_t)a]; }
  c.nontrivial(hmix((uint64_t)n * 4 + (uint64_t)kind, g.next()));
  const short id = createNewTape();
  c.phase("singular");
  std::vector<double> x((size_t)n), y((size_t)n), rhs((size_t)n);
  for (auto &v : x) v = g.in(-3, 3);
  trace_on(id);
  {
    std::vector<adouble> r; r.reserve((size_t)n);
    for (int i = 0; i < n; ++i) { r.emplace_back(); r.back() <<= x[(size_t)i]; }
    for (int i = 0; i < n; ++i) { adouble t = 0.0; for (int j = 0; j < n; ++j) if (L[(size_t)i][(size_t)j] != 0) t += L[(size_t)i][(size_t)j] * r[(size_t)j]; t >>= y[(size_t)i]; }
  }
  trace_off();
  const int mode = g.in(1, 2);
  for (auto &v : rhs) v = g.num();
  int rc = jac_solv((unsigned short)id, n, x.data(), rhs.data(), (unsigned short)mode);
  c.expect(rc == -3, "singular:jac_solv", cat("rc=", rc, " for a singular Jacobian, n=", n, " kind=", kind, " mode=", mode));
  rc = jac_solv((unsigned short)id, n, x.data(), rhs.data(), 2);
  c.expect(rc == -3, "singular:jac_solv-again", cat("rc=", rc, " for a singular Jacobian, second call, n=", n, " kind=", kind, " mode=", mode));
  const int d = g.in(1, 4);
  Mat X((size_t)n, (size_t)d + 1), Y((size_t)n, (size_t)d + 1);
  for (int i = 0; i < n; ++i) { X[(size_t)i][0] = x[(size_t)i]; Y[(size_t)i][0] = y[(size_t)i]; Y[(size_t)i][1] = 1; }
  rc = inverse_Taylor_prop(id, n, d, Y.ptr(), X.ptr());
  c.expect(rc == -3, "singular:inverse_Taylor_prop", cat("rc=", rc));
  c.count("singular_systems");
}

static void oneCase(Ctx &c) {
  if (c.rng.chance(0.06)) singular(c);
  else if (c.rng.chance(0.5)) tensors(c);
  else inverse(c);
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
