// C07: tapeless active types (adtl, adtl_hov, adtl_indo) against plain double
// evaluation and the reference algebra, through histories of reconfiguration.
#include "adtape.h"
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
#include <adolc/adtl_indo.h>
#include <adolc/sparse/sparsedrivers.h>
#include <sstream>
namespace adtl { inline double valOf(const adouble &v) { return v.getValue(); } }
namespace adtl_hov { inline double valOf(const adouble &v) { return v.getValue(); } }
namespace ADOLC::Sparse::adtl_indo { inline double valOf(const adouble &v) { return v.getValue(); } }
#include "prog.h"
using namespace vh;
using namespace pg;
using at::Mat;
using A1 = adtl::adouble;
using AH = adtl_hov::adouble;
using AI = ADOLC::Sparse::adtl_indo::adouble;

template <class T> static std::vector<T> regs(const Prog &p) {
  std::vector<T> r;
  for (int i = 0; i < p.nr; ++i) r.emplace_back(T(0.0));
  return r;
}
static void hovOps(GenOpt &o) {
  // operators the higher-order type implements; the others announce "not implemented" and stop
  for (int op : {TAN, ASIN, ACOS, ATAN, ATAN2, POWV, LOG10, TANH, ASINH, ACOSH, ATANH, CEIL, FLOOR, FMIN, FMAX, CBRT, LDEXP,
                 ERF, ERFC, COND4, COND3, CONDEQ4, CONDEQ3, AVSEL, AVLOOK, AVREAD, AVWRITE}) o.allow[op] = false;
}
struct Fun1 : func_ad<A1> {
  const Prog *p;
  int operator()(int n, A1 *x, int m, A1 *y) override {
    auto r = regs<A1>(*p);
    for (int i = 0; i < n; ++i) r[i] = x[i];
    run<A1>(*p, r);
    for (int i = 0; i < m; ++i) y[i] = r[p->dep[i]];
    return 1;
  }
};
struct FunI : func_ad<AI> {
  const Prog *p;
  int operator()(int n, AI *x, int m, AI *y) override {
    auto r = regs<AI>(*p);
    for (int i = 0; i < n; ++i) r[i] = x[i];
    run<AI>(*p, r);
    for (int i = 0; i < m; ++i) y[i] = r[p->dep[i]];
    return 1;
  }
};

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const int rounds = g.in(1, 4);
  for (int rd = 0; rd < rounds; ++rd) {
    const int kind = g.in(0, 3); // 0,1 adtl  2 hov  3 indo (+ sparse jacobian)
    GenOpt o;
    o.lenmax = c.thorough ? 40 : 18;
    o.bulkmax = 12;
    o.maxval = 6;
    o.points = 1;
    o.param = false;
    o.nmax = kind == 3 ? 7 : 4;
    o.mmax = kind == 3 ? 5 : 3;
    o.dupDeps = g.chance(0.2);
    o.allow.assign(NOPS, true);
    o.allow[FREXP] = false;
    int d = 1;
    if (kind == 2) { hovOps(o); d = g.in(1, 5); }
    const int np = g.chance(0.1) ? g.in(5, 20) : g.in(1, 4);
    Gen G; RefOut R0; std::vector<std::vector<long double>> J0;
    auto B1 = ra::Basis::total(1, d);
    bool good = false;
    for (int t = 0; t < 60 && !good; ++t) {
      G = generate(g, o);
      if (G.p.code.empty() || !G.p.m) continue;
      auto Bt = ra::Basis::total(G.p.n, 1);
      R0 = refTotal(G.p, *Bt, G.x[0]);
      good = R0.maxabs < 1e4;
      J0.assign(G.p.m, std::vector<long double>(G.p.n));
      for (int i = 0; i < G.p.m; ++i) for (int j = 0; j < G.p.n; ++j) { std::vector<int> e(G.p.n, 0); e[j] = 1; J0[i][j] = R0.y[i].c[Bt->find(e)]; }
    }
    if (!good) { c.count("skipped_illconditioned"); continue; }
    const Prog &p = G.p; const int n = p.n, m = p.m; const auto &x = G.x[0];
    const std::vector<double> yd = evald(p, x);
    c.nontrivial(hmix(p.hash(), kind * 64 + d * 8 + np));
    for (auto &i : p.code) c.count(std::string(kind < 2 ? "adtl_op_" : kind == 2 ? "hov_op_" : "indo_op_") + opname(i.op));
    if (c.idx < 40) c.sample(cat("kind=", kind, " d=", d, " p=", np, " ", p.str()));
    auto where = [&] { return cat(" round=", rd, " np=", np, " d=", d, " ", p.str()); };
    auto valOk = [&](double got, int i, const char *k) {
      c.count("values_compared");
      if (!close(got, yd[i], 1e-11 * (1 + std::fabs(yd[i])) + 1e-15 * (double)R0.maxabs)) c.violation(cat("value:", k), cat("got ", got, " want ", yd[i], " i=", i, where()));
    };
    if (kind < 2) {
      c.phase(cat("adtl np=", np));
      adtl::setNumDir(np);
      c.expect(adtl::getNumDir() == (size_t)np, "numdir", "getNumDir");
      c.count(cat("numdir_", np));
      Mat S(n, np);
      for (int i = 0; i < n; ++i) for (int l = 0; l < np; ++l) S[i][l] = g.chance(0.2) ? 0 : g.num(1.0);
      {
        auto r = regs<A1>(p);
        for (int i = 0; i < n; ++i) {
          if (g.chance(0.4)) r[i] = A1(x[i], S[i]);
          else {
            if (g.chance(0.5)) r[i] = x[i]; else r[i].setValue(x[i]);
            if (g.chance(0.5)) r[i].setADValue(S[i]); else for (int l = 0; l < np; ++l) r[i].setADValue(l, S[i][l]);
          }
        }
        run<A1>(p, r);
        for (int i = 0; i < m; ++i) {
          A1 &y = r[p.dep[i]];
          valOk(y.getValue(), i, "adtl");
          const double *ad = y.getADValue();
          for (int l = 0; l < np; ++l) {
            long double want = 0, mag = 0;
            for (int j = 0; j < n; ++j) { long double t = J0[i][j] * (long double)S[j][l]; want += t; mag += fabsl(t); }
            c.count("numbers_compared");
            const double tol = 4 * tolOf(R0, want) + 1e-12 * (double)mag;
            if (!close(y.getADValue(l), (double)want, tol)) c.violation("derivative:adtl", cat("got ", y.getADValue(l), " want ", (double)want, " tol ", tol, " i=", i, " l=", l, where()));
            c.expect(ad[l] == y.getADValue(l) || std::isnan(ad[l]), "getter", "getADValue() and getADValue(p) differ");
          }
        }
        // conversions, comparisons and frexp on results
        A1 &a = r[p.dep[0]]; const double v = a.getValue(), k = g.chance(0.3) ? v : g.num(2);
        int e1 = 77, e2 = 88;
        c.expect(frexp(a, &e1) == std::frexp(v, &e2) && e1 == e2, "frexp", where());
        A1 bk(k);
        bool q[] = {a < k, a <= k, a > k, a >= k, a == k, a != k}, w[] = {v < k, v <= k, v > k, v >= k, v == k, v != k};
        bool q2[] = {a < bk, a <= bk, a > bk, a >= bk, a == bk, a != bk}, q3[] = {k > a, k >= a, k < a, k <= a, k == a, k != a};
        for (int i = 0; i < 6; ++i) c.expect(q[i] == w[i] && q2[i] == w[i] && q3[i] == w[i], "compare", cat("comparison ", i, where()));
        c.expect((!a) == (v == 0), "compare", "operator!");
        { const A1 &ca = a; c.expect(double(ca) == v, "conversion", "double(adouble)"); }
        // functions outside the generator
        struct L { double v; std::vector<double> d; };
        auto chk = [&](const A1 &z, double wv, double da, const char *nm) {
          c.count("extra_ops");
          bool bad = !close(z.getValue(), wv, 1e-12 * (1 + std::fabs(wv)));
          for (int l = 0; l < np; ++l) { double wd = da * a.getADValue(l); if (!close(z.getADValue(l), wd, 1e-10 * (1 + std::fabs(wd)))) bad = true; }
          if (bad) c.violation(cat("extra:", nm), cat("at ", v, " value ", z.getValue(), " want ", wv, where()));
        };
        if (std::fabs(v) < 4) {
          chk(ldexp(a, 3.0), v * 8, 8, "ldexp(a,double)");
          chk(ldexp(a, A1(2.0)), v * 4, 4, "ldexp(a,a)");
          chk(ldexp(1.5, a), 1.5 * std::exp2(v), 1.5 * std::exp2(v) * std::log(2.0), "ldexp(double,a)");
          chk(fmin(a, v + 1), v, 1, "fmin(a,c)"); chk(fmin(v - 1, a), v - 1, 0, "fmin(c,a)");
          chk(fmax(a, v - 1), v, 1, "fmax(a,c)"); chk(fmax(v + 1, a), v + 1, 0, "fmax(c,a)");
        }
        std::ostringstream os; os << a; c.expect(os.str().size() > 0, "io", "empty output");
        if (c.verbose) fprintf(stderr, "io %s\n", os.str().c_str()); std::istringstream is(os.str()); A1 z(0.0); is >> z;
        c.expect(close(z.getValue(), v, 1e-4 * (1 + std::fabs(v))), "io", cat("read back ", os.str(), " gives ", z.getValue()));
        for (int l = 0; l < np; ++l) c.expect(close(z.getADValue(l), a.getADValue(l), 1e-4 * (1 + std::fabs(a.getADValue(l)))), "io", cat("read back derivative ", os.str()));
      }
    } else if (kind == 2) {
      c.phase(cat("hov np=", np, " d=", d));
      adtl_hov::setNumDir(np);
      adtl_hov::setDegree(d);
      c.count(cat("hov_degree_", d));
      std::vector<std::vector<double>> curve(np, std::vector<double>(n * d));
      for (auto &cv : curve) for (auto &v : cv) v = g.chance(0.25) ? 0 : g.num(1.0);
      Mat S(n, np);
      for (int i = 0; i < n; ++i) for (int l = 0; l < np; ++l) S[i][l] = g.num(1.0);
      std::vector<RefOut> RR;
      bool ok = true;
      for (int l = 0; l < np; ++l) {
        ra::TPL::B = B1.get();
        std::vector<ra::TPL> xi;
        for (int j = 0; j < n; ++j) { ra::TPL v(x[j]); for (int k = 1; k <= d; ++k) v.c[k] = curve[l][j * d + k - 1]; xi.push_back(v); }
        RR.push_back(refRun(p, *B1, xi));
        if (!(RR.back().maxabs < 1e4)) ok = false;
      }
      if (!ok) { c.count("skipped_illconditioned"); continue; }
      auto r = regs<AH>(p);
      for (int i = 0; i < n; ++i) {
        r[i] = x[i];
        for (int l = 0; l < np; ++l) { r[i].setADValue(l, S[i][l]); for (int k = 0; k < d; ++k) r[i].getOneADValue(k)[l] = curve[l][i * d + k]; }
      }
      run<AH>(p, r);
      for (int i = 0; i < m; ++i) {
        AH &y = r[p.dep[i]];
        valOk(y.getValue(), i, "hov");
        for (int l = 0; l < np; ++l) {
          long double want = 0;
          for (int j = 0; j < n; ++j) want += J0[i][j] * (long double)S[j][l];
          c.count("numbers_compared");
          if (!close(y.getADValue(l), (double)want, 8 * tolOf(R0, want))) c.violation("derivative:hov", cat("got ", y.getADValue(l), " want ", (double)want, " i=", i, " l=", l, where()));
          for (int k = 0; k < d; ++k) {
            c.count("numbers_compared");
            const long double w = RR[l].y[i].c[k + 1]; const double got = y.getOneADValue(k)[l];
            if (!close(got, (double)w, 4 * tolOf(RR[l], w))) { c.violation("taylor:hov", cat("got ", got, " want ", (double)w, " i=", i, " l=", l, " k=", k + 1, where())); break; }
          }
        }
      }
    } else {
      c.phase("indo");
      auto pat = [&](AI *y, int start, const char *nm) {
        std::vector<uint *> P;
        ADOLC::Sparse::adtl_indo::ADOLC_get_sparse_pattern(y, m, P);
        c.expect(P.size() == (size_t)m, "pattern", "size");
        for (int i = 0; i < m; ++i) {
          std::set<uint> s(P[i] + 1, P[i] + 1 + P[i][0]);
          c.count("patterns");
          for (int j = 0; j < n; ++j)
            if (J0[i][j] != 0 && !s.count(j + start)) c.violation("pattern:missing", cat(nm, " row ", i, " misses column ", j, where()));
          for (uint v : s) c.expect(v >= (uint)start && v < (uint)(start + n), "pattern:range", cat(nm, " row ", i, " contains ", v, where()));
          c.expect(s.size() == P[i][0], "pattern:duplicate", cat(nm, " row ", i, where()));
          delete[] P[i];
        }
      };
      const int start = g.chance(0.3) ? g.in(1, 9) : 0;
      {
        std::vector<AI> xs, ys;
        for (int i = 0; i < n; ++i) xs.emplace_back(x[i]);
        for (int i = 0; i < m; ++i) ys.emplace_back(0.0);
        const int reps = g.in(1, 2);
        for (int k = 0; k < reps; ++k) {
          ADOLC::Sparse::adtl_indo::ADOLC_Init_sparse_pattern(xs.data(), n, start);
          FunI f; f.p = &p;
          f(n, xs.data(), m, ys.data());
          for (int i = 0; i < m; ++i) valOk(ys[i].getValue(), i, "indo");
          pat(ys.data(), start, "init");
        }
      }
      std::set<int> ds(p.dep.begin(), p.dep.end());
      if (g.chance(0.6)) {
        Fun1 f1; FunI fi; f1.p = fi.p = &p;
        ADOLC::Sparse::SparseMatrix sj;
        std::vector<double> bp(x);
        bool ok = true;
        const int reps = g.in(1, 3);
        for (int k = 0; k < reps; ++k) {
          c.phase(cat("sparse_jac repeat=", k));
          int rc = ADOLC::Sparse::adtl_indo::ADOLC_get_sparse_jacobian(&f1, &fi, n, m, k > 0, bp.data(), sj);
          c.expect(rc >= 0, "rc:sparse", cat("rc=", rc, where()));
          std::map<std::pair<uint, uint>, double> got;
          for (size_t e = 0; e < sj.entries().size(); ++e) {
            const auto &E = sj.entries()[e];
            ok &= got.emplace(std::make_pair(E.rowIndex(), E.colIndex()), E.value()).second;
          }
          c.expect(ok, "sparse:duplicate", where());
          c.count("sparse_jacobians");
          for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
            auto it = got.find({(uint)i, (uint)j});
            const long double want = J0[i][j]; const double v = it == got.end() ? 0 : it->second;
            c.count("numbers_compared");
            if (!close(v, (double)want, 8 * tolOf(R0, want))) c.violation("sparse:value", cat("(", i, ",", j, ") got ", v, " want ", (double)want, where()));
          }
        }
      }
    }
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
