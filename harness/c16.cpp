// C16: the abs-normal form of piecewise smooth programs, on and off kinks.
#include "adtape.h"
#include <adolc/drivers/absnormalform.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/sparse/sparsedrivers.h>
using namespace vh;
using namespace pg;
using at::Mat;
typedef long double LD;
typedef std::vector<std::vector<LD>> LM;

struct Anf { // reference
  int n = 0, m = 0, s = 0; LD maxabs = 0;
  std::vector<LD> y, z; LM Y, J, Z, L;
};
static Anf reference(const Prog &p, const std::vector<double> &x) {
  Anf A; A.n = p.n; A.m = p.m;
  for (int pass = 0; pass < 2; ++pass) {
    auto B = ra::Basis::total(p.n + A.s, 1);
    ra::AbsHook<LD> h; h.n = p.n; h.vars = pass == 1;
    ra::absHook<LD> = &h;
    RefOut R = refTotal(p, *B, x);
    ra::absHook<LD> = nullptr;
    if (!pass) { A.s = (int)h.z.size(); continue; }
    A.maxabs = R.maxabs;
    auto split = [&](const ra::TPL &t, std::vector<LD> &val, LM &left, LM &right) {
      val.push_back(t.c[0]);
      std::vector<LD> l, r; std::vector<int> e((size_t)(p.n + A.s), 0);
      for (int j = 0; j < p.n + A.s; ++j) { e[j] = 1; (j < p.n ? l : r).push_back(t.c[B->find(e)]); e[j] = 0; }
      left.push_back(l); right.push_back(r);
    };
    for (auto &t : R.y) split(t, A.y, A.Y, A.J);
    for (auto &t : h.z) split(t, A.z, A.Z, A.L);
  }
  return A;
}
static const double ZT = 1e-11; // values of switches below this are exact kinks
static int sgn(LD v) { return v > ZT ? 1 : v < -ZT ? -1 : 0; }
// increments of the piecewise linear model
static void model(const Anf &A, const std::vector<double> &dx, std::vector<LD> &dy, std::vector<LD> &dz) {
  dy.assign(A.m, 0); dz.assign(A.s, 0);
  std::vector<LD> dw(A.s, 0);
  for (int i = 0; i < A.s; ++i) {
    for (int j = 0; j < A.n; ++j) dz[i] += A.Z[i][j] * dx[j];
    for (int j = 0; j < i; ++j) dz[i] += A.L[i][j] * dw[j];
    dw[i] = fabsl(A.z[i] + dz[i]) - fabsl(A.z[i]);
  }
  for (int i = 0; i < A.m; ++i) { for (int j = 0; j < A.n; ++j) dy[i] += A.Y[i][j] * dx[j]; for (int j = 0; j < A.s; ++j) dy[i] += A.J[i][j] * dw[j]; }
}
// lexicographic derivative along the columns of D; false if a sign hangs on rounding
static bool lexi(const std::vector<std::vector<char>> &may, const Anf &A, const Mat &D, int k, LM &dy, LM &dz, std::vector<int> &sg) {
  dy.assign(A.m, std::vector<LD>(k, 0)); dz.assign(A.s, std::vector<LD>(k, 0)); sg.assign(A.s, 0);
  bool sure = true; LM md = dz; // magnitude of the summands of dz
  for (int i = 0; i < A.s; ++i) {
    int s = sgn(A.z[i]);
    for (int q = 0; q < k; ++q) {
      LD v = 0, mag = 0;
      for (int j = 0; j < A.n; ++j) { v += A.Z[i][j] * D[j][q]; mag += (fabsl(A.Z[i][j]) + (may[i][j] ? 1e-3L : 0)) * fabs(D[j][q]); } // a zero entry may be a cancellation
      for (int j = 0; j < i; ++j) { v += A.L[i][j] * sg[j] * dz[j][q]; mag += (fabsl(A.L[i][j]) + (may[i][A.n + j] ? 1e-3L : 0)) * md[j][q]; }
      if (!s && fabsl(v) <= 1e-9L * (mag + 1e-3L) && mag > 0) sure = false;
      dz[i][q] = v; md[i][q] = mag;
      if (!s) s = v > 0 ? 1 : v < 0 ? -1 : 0;
    }
    sg[i] = s;
  }
  for (int i = 0; i < A.m; ++i) for (int q = 0; q < k; ++q) { for (int j = 0; j < A.n; ++j) dy[i][q] += A.Y[i][j] * D[j][q]; for (int j = 0; j < A.s; ++j) dy[i][q] += A.J[i][j] * sg[j] * dz[j][q]; }
  return sure;
}
// gradient of weights*y with the signature sg
static std::vector<LD> sigGrad(const Anf &A, const double *u, const short *sg) {
  std::vector<LD> ybar(A.n, 0), wbar(A.s, 0);
  for (int i = 0; i < A.m; ++i) { for (int j = 0; j < A.n; ++j) ybar[j] += u[i] * A.Y[i][j]; for (int j = 0; j < A.s; ++j) wbar[j] += u[i] * A.J[i][j]; }
  for (int i = A.s - 1; i >= 0; --i) { LD zb = wbar[i] * sg[i]; for (int j = 0; j < A.n; ++j) ybar[j] += zb * A.Z[i][j]; for (int j = 0; j < i; ++j) wbar[j] += zb * A.L[i][j]; }
  return ybar;
}

static void addKinks(Rng &g, Gen &G, bool mm) {
  Prog &p = G.p;
  std::vector<int> us;
  const int groups = g.in(0, 6);
  for (int q = 0; q < groups; ++q) {
    Ins I;
    auto add = [&](int op, int d, int a, int b, double k) { I = Ins(); I.op = (uint8_t)op; I.dst = d; I.a = a; I.b = b; I.c = a; I.k = k; I.v = (uint8_t)(g.in(0, 63) & ~4); p.code.push_back(I); };
    const int a = !us.empty() && g.chance(0.5) ? g.pick(us) : g.in(0, p.nr - 1), t = g.in(p.n, p.nr - 1), u = g.chance(0.3) ? t : g.in(p.n, p.nr - 1);
    // a value no other variable depends on by accident: mix, then centre
    add(COPY, t, a, a, 0);
    for (int k = g.in(0, 2); k > 0; --k) add(ADDEQP, t, g.in(0, p.n - 1), g.in(0, p.nr - 1), g.uni(-1.5, 1.5));
    if (g.chance(0.6)) { // exactly on the kink at the first point
      Prog r = p; r.dep.assign(1, t); r.m = 1;
      add(SUBEQC, t, t, t, evald(r, G.x[0])[0]);
    } else add(SUBEQC, t, t, t, g.uni(-1, 1));
    if (g.chance(0.3)) add(g.chance(0.5) ? SIN : TANH, t, t, t, 0);
    if (mm && g.chance(0.5)) {
      const int o = g.in(0, p.nr - 1);
      if (g.chance(0.5) && o != t) add(ADDEQ, t, o, o, 0); // tie with o
      add(g.chance(0.5) ? FMIN : FMAX, u, t, o, 0);
    } else add(FABS, u, t, t, 0);
    us.push_back(u);
    if (g.chance(0.4)) add(g.chance(0.5) ? ADDEQ : MULEQ, g.in(p.n, p.nr - 1), u, u, 0);
    if (g.chance(0.2)) { static const int un[] = {SIN, COS, TANH, ATAN, SQ}; add(un[g.in(0, 4)], u, u, u, 0); }
    for (int k = g.in(0, 2); k > 0; --k) add(g.chance(0.5) ? ADDEQ : g.chance(0.5) ? SUBEQ : ADDEQP, g.pick(p.dep), u, g.pick(us), g.uni(0.4, 1.4));
  }
  for (auto &d : p.dep) if (!us.empty() && g.chance(0.6)) { int c = g.pick(us); if (std::find(p.dep.begin(), p.dep.end(), c) == p.dep.end()) d = c; }
}

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o; o.lenmin = 1; o.lenmax = 14; o.nmin = 1; o.nmax = 6; o.mmin = 1; o.mmax = 4; o.extra = g.in(3, 7); o.points = 3; o.maxval = 8; o.bulk = false; o.step = false; o.branches = false;
  if (g.chance(0.4)) o.mmax = 1;
  const bool mm = g.chance(0.25);
  // pow(a,b) and atan2 tape condassigns on fabs, which are switches of their own
  o.allow.assign(NOPS, true);
  for (int k : {FABS, FMIN, FMAX, AVREAD, AVWRITE, AVSEL, AVLOOK, FREXP, WHILE, VECTMP, CEIL, FLOOR, COND4, COND3, CONDEQ4, CONDEQ3, BRANCH, POWV, ATAN2}) o.allow[k] = false;
  Gen G; bool good = false; std::vector<Anf> A;
  for (int t = 0; t < 100 && !good; ++t) {
    G = generate(g, o);
    if (G.p.code.empty() || !G.p.m) continue;
    addKinks(g, G, mm);
    good = true; A.clear();
    for (int q = 0; q < 3 && good; ++q) {
      Obs ob; ob.kinkMargin = 0; auto y = evald(G.p, G.x[q], &ob);
      for (double v : y) if (!(std::fabs(v) < 100)) good = false;
      if (ob.bad || !(ob.maxval < 1000)) { good = false; break; }
      A.push_back(reference(G.p, G.x[q]));
      if (!(A.back().maxabs < 1e4)) good = false;
      for (LD z : A.back().z) if (fabsl(z) > 1e-13L && fabsl(z) < 1e-7L) good = false;
      if (A.back().s > 40) good = false;
    }
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m, s = A[0].s;
  c.nontrivial(p.hash());
  c.count("switches", s);
  if (c.idx < 40) c.sample(p.str());
  c.phase("record");
  const short id = createNewTape();
  setCurrentTape(id);
  currentTape().enableMinMaxUsingAbs();
  at::record(p, G.x[g.in(0, 2)], id, g.in(0, 1));
  c.phase("num_switches");
  if (get_num_switches(id) != (size_t)s) { c.violation("num_switches", cat(get_num_switches(id), " want ", s, " ", p.str())); return; }
  // which entries the tape can produce at all: only used to recognise signs that hang on rounding
  std::vector<std::vector<char>> may(s, std::vector<char>(n + s, 0));
  if (s) {
    std::vector<uint *> C((size_t)(m + s), nullptr); std::span<uint *> sp(C);
    ADOLC::Sparse::jac_pat<ADOLC::Sparse::PiecewiseLinear{}>(id, m, n, s, G.x[0].data(), sp);
    for (int i = 0; i < s; ++i) for (uint k = 1; k <= C[m + i][0]; ++k) if (C[m + i][k] < (uint)(n + s)) may[i][C[m + i][k]] = 1;
    for (auto r : C) delete[] r;
  }

  for (int rep = g.in(3, 8); rep > 0; --rep) {
    const int q = g.chance(0.6) ? 0 : g.in(1, 2), w = g.in(0, 12);
    const Anf &R = A[q];
    const std::vector<double> x = G.x[q];
    for (LD z : R.z) c.count(sgn(z) ? "switch_off_kink" : "switch_on_kink");
    const double tol = 1e-9 * (double)(1 + R.maxabs) * (double)(1 + R.maxabs);
    const char *wn[] = {"zos_pl_forward", "abs_normal", "AbsNormalForm", "abs_normal_f", "sparse_anf", "fos_pl_forward", "fov_pl_forward", "fos_pl_sig_forward", "fov_pl_sig_forward", "fos_pl_reverse", "fov_pl_reverse", "fos_pl_sig_reverse", "directional_active_gradient"};
    const std::string W = wn[w];
    c.phase(cat(W, " q=", q)); c.count("driver_" + W);
    bool bad = false;
    auto cmp = [&](const char *what, int i, int j, double got, LD want) { c.count("numbers_compared"); if (!bad && !(std::fabs(got - (double)want) <= tol)) { bad = true; c.violation(cat("value:", W, ":", what), cat(W, " ", what, "[", i, "][", j, "] = ", got, " want ", (double)want, " point=", q, " s=", s, " ", p.str())); } };
    auto vec = [&](const char *what, const double *v, const std::vector<LD> &want) { for (size_t i = 0; i < want.size(); ++i) cmp(what, (int)i, 0, v[i], want[i]); };
    // with min/max the sign of a switching variable is a convention
    auto block = [&](auto &&Y, auto &&J, auto &&Z, auto &&L) {
      if (!mm) {
        for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) cmp("Y", i, j, Y(i, j), R.Y[i][j]); for (int j = 0; j < s; ++j) cmp("J", i, j, J(i, j), R.J[i][j]); }
        for (int i = 0; i < s; ++i) { for (int j = 0; j < n; ++j) cmp("Z", i, j, Z(i, j), R.Z[i][j]); for (int j = 0; j < s; ++j) cmp("L", i, j, L(i, j), R.L[i][j]); }
      }
      for (int i = 0; i < s; ++i) for (int j = i; j < s; ++j) if (L(i, j) != 0) { if (!bad) c.violation(cat("not_lower:", W), cat("L[", i, "][", j, "]=", L(i, j), " ", p.str())); bad = true; }
    };
    auto modelOf = [&](auto &&Y, auto &&J, auto &&Z, auto &&L, const double *z) {
      Anf T; T.n = n; T.m = m; T.s = s;
      for (int i = 0; i < m; ++i) { T.Y.emplace_back(); T.J.emplace_back(); for (int j = 0; j < n; ++j) T.Y[i].push_back(Y(i, j)); for (int j = 0; j < s; ++j) T.J[i].push_back(J(i, j)); }
      for (int i = 0; i < s; ++i) { T.z.push_back(z[i]); T.Z.emplace_back(); T.L.emplace_back(); for (int j = 0; j < n; ++j) T.Z[i].push_back(Z(i, j)); for (int j = 0; j < s; ++j) T.L[i].push_back(L(i, j)); }
      for (int t = 0; t < 3; ++t) {
        std::vector<double> dx(n); for (auto &v : dx) v = g.num();
        std::vector<LD> dy, dz, wy, wz; model(T, dx, dy, dz); model(R, dx, wy, wz);
        for (int i = 0; i < m; ++i) cmp("model", i, t, (double)dy[i], wy[i]);
        c.count("model_directions");
      }
    };
    std::vector<double> y(m, 7.5), z(s, 7.5);
    auto point = [&](const double *y, const double *z) { vec("y", y, R.y); if (z) for (int i = 0; i < s; ++i) cmp("z", i, 0, mm ? std::fabs(z[i]) : z[i], mm ? fabsl(R.z[i]) : R.z[i]); };
    if (w == 0) { int rc = zos_pl_forward(id, m, n, g.in(0, 1), x.data(), y.data(), z.data()); if (rc < 0) c.violation("rc", cat(W, rc)); point(y.data(), z.data()); }
    else if (w == 1) {
      Mat Y(m, n, 7.5), J(m, s, 7.5), Z(s, n, 7.5), L(s, s, 7.5);
      std::vector<double *> none(1, nullptr);
      abs_normal(id, m, n, s, x.data(), y.data(), z.data(), Y.ptr(), J.ptr(), Z.ptr(), L.ptr());
      point(y.data(), z.data());
      auto at = [](Mat &M) { return [&M](int i, int j) { return M[i][j]; }; };
      block(at(Y), at(J), at(Z), at(L)); modelOf(at(Y), at(J), at(Z), at(L), z.data());
    } else if (w == 2) {
      auto F = ADOLC::AbsNormalForm::fromTape(id);
      if (g.chance(0.3)) { F.clear(); F.resize(ADOLC::DenseShape((size_t)m, (size_t)n, (size_t)s)); }
      if (F.dims().m != (size_t)m || F.dims().n != (size_t)n || F.dims().s != (size_t)s) { c.violation("shape", p.str()); continue; }
      const bool up = g.chance(0.7);
      if (up) ADOLC::abs_normal(id, std::span<const double>(x), F); else { ADOLC::abs_normal<ADOLC::UpdateConsts::False>(id, std::span<const double>(x), F); F.updateCy(); F.updateCz(); }
      point(F.y.data(), F.z.data());
      auto at = [](std::vector<double *> &M) { return [&M](int i, int j) { return M[i][j]; }; };
      block(at(F.Y), at(F.J), at(F.Z), at(F.L)); modelOf(at(F.Y), at(F.J), at(F.Z), at(F.L), F.z.data());
      for (int i = 0; i < m; ++i) { LD v = R.y[i]; for (int j = 0; j < s; ++j) v -= R.J[i][j] * fabsl(R.z[j]); cmp("cy", i, 0, F.cy[i], v); }
      if (!mm) for (int i = 0; i < s; ++i) { LD v = R.z[i]; for (int j = 0; j < s; ++j) v -= R.L[i][j] * fabsl(R.z[j]); cmp("cz", i, 0, F.cz[i], v); }
    } else if (w == 3) {
      std::vector<double> cz(s), cy(m), J(m * s), Y(m * n), Z(s * n), L(s * s), xx = x;
      fint ft = id, fm = m, fn = n, fs = s;
      abs_normal_(&ft, &fm, &fn, &fs, xx.data(), y.data(), z.data(), cz.data(), cy.data(), J.data(), Y.data(), Z.data(), L.data());
      point(y.data(), z.data());
      auto at = [](std::vector<double> &M, int rows) { return [&M, rows](int i, int j) { return M[(size_t)(j * rows + i)]; }; };
      block(at(Y, m), at(J, m), at(Z, s), at(L, s)); modelOf(at(Y, m), at(J, m), at(Z, s), at(L, s), z.data());
    } else if (w == 4) {
      if (!s) continue;
      using namespace ADOLC::Sparse;
      std::vector<uint *> C((size_t)(m + s), nullptr); std::span<uint *> sp(C);
      jac_pat<PiecewiseLinear{}>(id, m, n, s, x.data(), sp);
      for (int i = 0; i < m + s && !bad; ++i) {
        std::vector<char> has(n + s, 0); long last = -1;
        for (uint k = 1; k <= C[i][0]; ++k) { if (C[i][k] >= (uint)(n + s) || (long)C[i][k] <= last) { c.violation("malformed:jac_pat_pl", cat("row ", i, " ", p.str())); bad = true; break; } last = C[i][k]; has[C[i][k]] = 1; c.count("pattern_entries"); }
        if (!bad) for (int j = 0; j < n + s; ++j) { LD v = i < m ? (j < n ? R.Y[i][j] : R.J[i][j - n]) : j < n ? R.Z[i - m][j] : R.L[i - m][j - n]; if (fabsl(v) > 1e-9L * (1 + R.maxabs) && !has[j]) { c.violation("missing:jac_pat_pl", cat("[", i, "][", j, "] = ", (double)v, " m=", m, " n=", n, " s=", s, " ", p.str())); bad = true; break; } }
      }
      for (auto r : C) delete[] r;
      if (bad) continue;
      SparseANF F;
      for (int k = 0; k < 2; ++k) {
        int q2 = k ? q : g.in(0, 2);
        int rc = k && g.chance(0.5) ? ADOLC::Sparse::sparse_jac<PiecewiseLinear{}, MemoryHandler::Manual>(id, m, n, s, k, G.x[q2].data(), F) : ADOLC::Sparse::sparse_jac(id, m, n, s, k, G.x[q2].data(), F);
        if (rc < 0) { c.violation("rc:sparse_anf", cat(rc, " ", p.str())); bad = true; break; }
      }
      if (bad) continue;
      point(F.y.data(), F.z.data());
      auto dense = [&](SparseMatrix &M, int rows, int cols) { Mat D(rows, cols, 0.0); for (size_t k = 0; k < M.size(); ++k) { if (M.rowIndex(k) >= (uint)rows || M.colIndex(k) >= (uint)cols) { if (!bad) c.violation("range:sparse_anf", p.str()); bad = true; break; } D[M.rowIndex(k)][M.colIndex(k)] = M.value(k); } return D; };
      Mat Y = dense(F.Y, m, n), J = dense(F.J, m, s), Z = dense(F.Z, s, n), L = dense(F.L, s, s);
      if (bad) continue;
      auto at = [](Mat &M) { return [&M](int i, int j) { return M[i][j]; }; };
      block(at(Y), at(J), at(Z), at(L)); modelOf(at(Y), at(J), at(Z), at(L), F.z.data());
      if (!mm) for (int i = 0; i < s; ++i) { LD v = R.z[i]; for (int j = 0; j < s; ++j) v -= R.L[i][j] * fabsl(R.z[j]); cmp("cz", i, 0, F.cz[i], v); }
      for (int i = 0; i < m; ++i) { LD v = R.y[i]; for (int j = 0; j < s; ++j) v -= R.J[i][j] * fabsl(R.z[j]); cmp("cy", i, 0, F.cy[i], v); }
    } else if (w <= 8) {
      const bool vecm = w == 6 || w == 8; const int P = vecm ? g.in(1, 4) : 1;
      Mat X(n, P), Yd(m, P, 7.5), Zd(s, P, 7.5); std::vector<short> sig(s, 9);
      for (auto &v : X.d) v = g.chance(0.2) ? 0 : g.num();
      std::vector<double> xd(n), yd(m, 7.5), zd(s, 7.5); for (int j = 0; j < n; ++j) xd[j] = X[j][0];
      LM dy, dz; std::vector<int> sg; const bool sure = lexi(may, R, X, P, dy, dz, sg);
      if (w == 5) { fos_pl_forward(id, m, n, x.data(), xd.data(), y.data(), yd.data(), z.data(), zd.data()); Yd.d = yd; Zd.d = zd; }
      else if (w == 6) fov_pl_forward(id, m, n, P, x.data(), X.ptr(), y.data(), Yd.ptr(), z.data(), Zd.ptr(), sig.data());
      if (w <= 6) {
        point(y.data(), z.data());
        for (int k = 0; k < P; ++k) {
          std::vector<double> d(n); for (int j = 0; j < n; ++j) d[j] = X[j][k];
          std::vector<LD> my, mz; model(R, d, my, mz);
          for (int i = 0; i < m; ++i) cmp("dy", i, k, Yd[i][k], my[i]);
          if (!mm) for (int i = 0; i < s; ++i) cmp("dz", i, k, Zd[i][k], mz[i]);
        }
      } else {
        if (mm) continue; // signs of the switches are a convention
        if (!sure) { c.count("skipped_sign_by_rounding"); continue; }
        std::vector<short> base(s), dir(s); for (int i = 0; i < s; ++i) { base[i] = (short)sgn(R.z[i]); dir[i] = (short)(base[i] ? base[i] : dz[i][0] > 0 ? 1 : dz[i][0] < 0 ? -1 : 0); }
        const short *pd = g.chance(0.5) ? dir.data() : nullptr;
        if (w == 7) { fos_pl_sig_forward(id, m, n, x.data(), xd.data(), s, base.data(), pd, y.data(), yd.data(), z.data(), zd.data(), sig.data()); Yd.d = yd; Zd.d = zd; }
        else fov_pl_sig_forward(id, m, n, P, x.data(), X.ptr(), s, base.data(), pd, y.data(), Yd.ptr(), z.data(), Zd.ptr(), sig.data());
        c.count(pd ? "sigdir_given" : "sigdir_null");
        point(y.data(), nullptr);
        for (int i = 0; i < s; ++i) { cmp("z", i, 0, z[i], R.z[i]); cmp("sigma", i, 0, sig[i], sg[i]); }
        for (int k = 0; k < P; ++k) { for (int i = 0; i < m; ++i) cmp("dy", i, k, Yd[i][k], dy[i][k]); for (int i = 0; i < s; ++i) cmp("dz", i, k, Zd[i][k], dz[i][k]); }
      }
    } else if (w <= 11) {
      zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data());
      if (w == 11) {
        std::vector<double> u(m), r(n, 7.5); std::vector<short> sg(s);
        for (auto &v : u) v = g.num();
        for (auto &v : sg) v = (short)g.in(-1, 1);
        if (mm) continue;
        fos_pl_sig_reverse(id, m, n, s, sg.data(), u.data(), r.data());
        auto want = sigGrad(R, u.data(), sg.data());
        for (int j = 0; j < n; ++j) cmp("grad", j, 0, r[j], want[j]);
      } else {
        if (mm) continue;
        const int Q = w == 9 ? 1 : g.in(1, 4);
        Mat U(Q, m), S(Q, s), Rr(Q, n, 7.5), Rs(Q, s, 7.5);
        for (auto &v : U.d) v = g.num();
        for (auto &v : S.d) v = g.num();
        if (w == 9) fos_pl_reverse(id, m, n, s, U[0], S[0], Rr[0], Rs[0]); else fov_pl_reverse(id, m, n, s, Q, U.ptr(), S.ptr(), Rr.ptr(), Rs.ptr());
        for (int k = 0; k < Q; ++k) {
          for (int j = 0; j < n; ++j) { LD v = 0; for (int i = 0; i < m; ++i) v += U[k][i] * R.Y[i][j]; for (int i = 0; i < s; ++i) v += S[k][i] * R.Z[i][j]; cmp("uY+vZ", k, j, Rr[k][j], v); }
          for (int j = 0; j < s; ++j) { LD v = 0; for (int i = 0; i < m; ++i) v += U[k][i] * R.J[i][j]; for (int i = 0; i < s; ++i) v += S[k][i] * R.L[i][j]; cmp("uJ+vL", k, j, Rs[k][j], v); }
        }
      }
    } else {
      if (m != 1 || mm) continue;
      std::vector<double> d(n), gr(n, 7.5); std::vector<short> sg(s, 9);
      const double sc = g.chance(0.5) ? 1.0 : 5.0, zp = g.chance(0.5) ? 0.15 : 0.7;
      for (auto &v : d) v = g.chance(zp) ? 0 : sc * g.num();
      Mat D(n, 1); for (int j = 0; j < n; ++j) D[j][0] = d[j];
      LM dy, dz; std::vector<int> s1; const bool sure = lexi(may, R, D, 1, dy, dz, s1);
      if (!sure) { c.count("skipped_sign_by_rounding"); continue; }
      bool undecided = false; for (int v : s1) undecided |= !v;
      try { directional_active_gradient(id, n, x.data(), d.data(), gr.data(), sg.data()); }
      catch (const std::exception &e) {
        c.count("dirgrad_refused");
        if (!undecided) c.violation("refused:directional_active_gradient", cat(e.what(), " ", p.str()));
        continue;
      }
      c.count(undecided ? "dirgrad_completed" : "dirgrad_direct");
      LD dd = 0; for (int j = 0; j < n; ++j) dd += (LD)gr[j] * d[j];
      cmp("g.d", 0, 0, (double)dd, dy[0][0]);
      for (int i = 0; i < s; ++i) if (s1[i]) cmp("sigma", i, 0, sg[i], s1[i]); else if (sg[i] != 1 && sg[i] != -1) { if (!bad) c.violation("sigma:directional_active_gradient", cat(sg[i], " ", p.str())); bad = true; }
      auto want = sigGrad(R, std::vector<double>(1, 1.0).data(), sg.data());
      for (int j = 0; j < n; ++j) cmp("g", j, 0, gr[j], want[j]);
    }
  }
}

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
