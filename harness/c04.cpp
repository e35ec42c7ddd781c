// C04: the easy-to-use drivers return the function, its Jacobian, Hessian and
// their products; hessian()/hessian2() write the lower triangle only.
#include "adtape.h"
using namespace vh;
using namespace pg;
using at::Mat; using at::Ten;

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  o.lenmax = c.thorough ? 40 : 20;
  o.bulkmax = c.thorough ? 60 : 16;
  o.maxval = 8;
  o.nmax = g.chance(0.3) ? 9 : 4;
  o.mmax = g.chance(0.3) ? 7 : 3;
  if (g.chance(0.4)) o.mmax = 1;
  o.extra = 6;
  o.dupDeps = g.chance(0.1);
  o.allow.assign(NOPS, true);
  const bool second = g.chance(0.6);
  if (second) o.allow[CBRT] = false; // documented: no higher-order cbrt
  Gen G; std::shared_ptr<ra::Basis> B;
  bool good = false;
  for (int t = 0; t < 100 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty() || !G.p.m) continue;
    bool tie = false; for (auto &i : G.p.code) if ((i.op == FMIN || i.op == FMAX) && i.a == i.b) tie = true;
    if (tie) continue; // documented: hos_ov_reverse does not support ties
    B = ra::Basis::total(G.p.n, second ? 2 : 1);
    good = true;
    for (int q = 0; q < 2 && good; ++q) if (!(refTotal(G.p, *B, G.x[q]).maxabs < 1e4)) good = false;
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m;
  c.nontrivial(hmix(p.hash(), second));
  if (c.idx < 40) c.sample(p.str());
  c.phase("record");
  const short id = createNewTape();
  at::record(p, G.x[0], id, g.in(0, 1), 0, g.chance(0.3) ? &g : nullptr);
  const int reps = g.in(3, 8);
  for (int rep = 0; rep < reps; ++rep) {
    const int q = g.in(0, 1);
    std::vector<double> x = G.x[q];
    RefOut R = refTotal(p, *B, x);
    std::vector<std::vector<int>> e1(n, std::vector<int>(n, 0));
    for (int j = 0; j < n; ++j) e1[j][j] = 1;
    auto Jr = [&](int i, int j) -> long double { return R.y[i].c[B->find(e1[j])]; };
    auto Hr = [&](int i, int j, int k) -> long double { std::vector<int> e(n, 0); e[j]++; e[k]++; return R.y[i].c[B->find(e)] * (j == k ? 2 : 1); };
    auto chk = [&](double got, long double w, const char *key, int a, int b) {
      c.count("numbers_compared");
      double tol = 20 * tolOf(R, w);
      if (!close(got, (double)w, tol)) c.violation(cat("value:", key), cat("got ", got, " want ", (double)w, " tol ", tol, " ", key, "[", a, "][", b, "] point=", q, " ", p.str()));
    };
    auto rcOk = [&](int rc, const char *k) { c.expect(rc >= 0, cat("rc:", k), cat(k, " rc=", rc, " ", p.str())); };
    std::vector<double> v(n), u(m), y(m, 9.9);
    for (auto &t : v) t = g.chance(0.2) ? 0 : g.num();
    for (auto &t : u) t = g.chance(0.2) ? 0 : g.num();
    const double S = 1e77; // sentinel
    int w = second ? g.in(0, 13) : g.in(0, 7);
    if (m != 1 && (w == 1 || (w >= 9 && w <= 12))) w = g.chance(0.5) || !second ? g.in(2, 7) : 13;
    c.count(cat("driver_", w));
    int rc;
    fint ft = id, fm = m, fn = n;
    switch (w) {
    case 0:
      c.phase("function");
      if (g.chance(0.7)) { rc = function(id, m, n, x.data(), y.data()); rcOk(rc, "function"); }
      else { rc = (int)function_(&ft, &fm, &fn, x.data(), y.data()); rcOk(rc, "function_"); }
      for (int i = 0; i < m; ++i) chk(y[i], R.y[i].c[0], "function", i, 0);
      break;
    case 1: {
      std::vector<double> gr(n, S); c.phase("gradient");
      if (g.chance(0.7)) { rc = gradient(id, n, x.data(), gr.data()); rcOk(rc, "gradient"); }
      else { rc = (int)gradient_(&ft, &fn, x.data(), gr.data()); rcOk(rc, "gradient_"); }
      for (int j = 0; j < n; ++j) chk(gr[j], Jr(0, j), "gradient", j, 0);
    } break;
    case 2: case 3: {
      c.phase("jacobian");
      if (g.chance(0.7)) { Mat J(m, n, S); rc = jacobian(id, m, n, x.data(), J.ptr()); rcOk(rc, "jacobian"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) chk(J[i][j], Jr(i, j), "jacobian", i, j); }
      else { std::vector<double> fj(m * n, S); rc = (int)jacobian_(&ft, &fm, &fn, x.data(), fj.data()); rcOk(rc, "jacobian_"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) chk(fj[j * m + i], Jr(i, j), "jacobian_", i, j); }
      c.count(n / 2 < m ? "jacobian_forward" : "jacobian_reverse");
    } break;
    case 4: {
      Mat J(m, n, S); const int runs = g.in(0, n + 2); c.phase(cat("large_jacobian runs=", runs, " n=", n));
      rc = large_jacobian(id, m, n, runs, x.data(), y.data(), J.ptr()); rcOk(rc, "large_jacobian");
      for (int i = 0; i < m; ++i) { chk(y[i], R.y[i].c[0], "large_jacobian.y", i, 0); for (int j = 0; j < n; ++j) chk(J[i][j], Jr(i, j), "large_jacobian", i, j); }
    } break;
    case 5: case 6: {
      std::vector<double> r(n, S); c.phase("vec_jac");
      auto ck = [&](const char *k) { for (int j = 0; j < n; ++j) { long double s = 0; for (int i = 0; i < m; ++i) s += (long double)u[i] * Jr(i, j); chk(r[j], s, k, j, 0); } };
      if (g.chance(0.7)) { rc = vec_jac(id, m, n, 0, x.data(), u.data(), r.data()); rcOk(rc, "vec_jac"); }
      else { fint z = 0; rc = (int)vec_jac_(&ft, &fm, &fn, &z, x.data(), u.data(), r.data()); rcOk(rc, "vec_jac_"); }
      ck("vec_jac");
      if (g.chance(0.5)) { for (auto &t : u) t = g.num(); for (auto &t : r) t = S; c.phase("vec_jac repeat"); rc = vec_jac(id, m, n, 1, x.data(), u.data(), r.data()); rcOk(rc, "vec_jac(repeat)"); ck("vec_jac(repeat)"); }
    } break;
    case 7: {
      std::vector<double> r(m, S); c.phase("jac_vec");
      if (g.chance(0.7)) { rc = jac_vec(id, m, n, x.data(), v.data(), r.data()); rcOk(rc, "jac_vec"); }
      else { rc = (int)jac_vec_(&ft, &fm, &fn, x.data(), v.data(), r.data()); rcOk(rc, "jac_vec_"); }
      for (int i = 0; i < m; ++i) { long double s = 0; for (int j = 0; j < n; ++j) s += (long double)v[j] * Jr(i, j); chk(r[i], s, "jac_vec", i, 0); }
    } break;
    case 8: case 13: {
      std::vector<double> r(n, S); c.phase("lagra_hess_vec");
      if (g.chance(0.7)) { rc = lagra_hess_vec(id, m, n, x.data(), v.data(), u.data(), r.data()); rcOk(rc, "lagra_hess_vec"); }
      else { rc = (int)lagra_hess_vec_(&ft, &fm, &fn, x.data(), v.data(), u.data(), r.data()); rcOk(rc, "lagra_hess_vec_"); }
      for (int j = 0; j < n; ++j) { long double s = 0; for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) s += (long double)u[i] * Hr(i, j, k) * v[k]; chk(r[j], s, "lagra_hess_vec", j, 0); }
    } break;
    case 9: {
      std::vector<double> r(n, S); c.phase("hess_vec");
      if (g.chance(0.7)) { rc = hess_vec(id, n, x.data(), v.data(), r.data()); rcOk(rc, "hess_vec"); }
      else { rc = (int)hess_vec_(&ft, &fn, x.data(), v.data(), r.data()); rcOk(rc, "hess_vec_"); }
      for (int j = 0; j < n; ++j) { long double s = 0; for (int k = 0; k < n; ++k) s += Hr(0, j, k) * v[k]; chk(r[j], s, "hess_vec", j, 0); }
    } break;
    case 10: {
      const int nq = g.in(1, 4); Mat V(n, nq), W(n, nq, S); for (auto &t : V.d) t = g.num(); c.phase("hess_mat");
      rc = hess_mat(id, n, nq, x.data(), V.ptr(), W.ptr()); rcOk(rc, "hess_mat");
      for (int j = 0; j < n; ++j) for (int r = 0; r < nq; ++r) { long double s = 0; for (int k = 0; k < n; ++k) s += Hr(0, j, k) * V[k][r]; chk(W[j][r], s, "hess_mat", j, r); }
    } break;
    case 11: case 12: {
      // rows are allocated exactly as long as the documented lower triangle
      std::vector<std::vector<double>> rows; std::vector<double *> H; const bool full = g.chance(0.5);
      for (int i = 0; i < n; ++i) rows.emplace_back(full ? n : i + 1, S);
      for (auto &r : rows) H.push_back(r.data());
      const char *k = w == 11 ? "hessian" : "hessian2"; c.phase(k);
      if (w == 11 && g.chance(0.3)) {
        std::vector<double> fh(n * n, S); rc = (int)hessian_(&ft, &fn, x.data(), fh.data()); rcOk(rc, "hessian_");
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) chk(fh[j * n + i], Hr(0, i, j), "hessian_", i, j);
        break;
      }
      rc = w == 11 ? hessian(id, n, x.data(), H.data()) : hessian2(id, n, x.data(), H.data()); rcOk(rc, k);
      for (int i = 0; i < n; ++i) for (int j = 0; j < (int)rows[i].size(); ++j) {
        if (j <= i) chk(H[i][j], Hr(0, i, j), k, i, j);
        else c.expect(H[i][j] == S, cat("upper-triangle:", k), cat("H[", i, "][", j, "]=", H[i][j], " ", p.str()));
      }
    } break;
    }
    for (int j = 0; j < n; ++j) c.expect(x[j] == G.x[q][j], "input-clobbered", cat("x[", j, "]"));
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
