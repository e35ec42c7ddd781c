// C19: fixed point iterations: converged states and implicit-function
// derivatives, several calls on several tapes.
#include "adtape.h"
#include <adolc/fixpoint.h>
#include <deque>
#include <map>
#include <memory>
using namespace vh;
using namespace pg;
using namespace at;
using ra::TPL;

constexpr int NSLOT = 4;
struct Fix { int dx = 1, du = 1, kind = 0, norm = 0; double A[4][4] = {}, b[4] = {}, rho = 0, thr = 0; };
struct Mon { Ctx *c = nullptr; Fix F[NSLOT]; long dcalls = 0, acalls = 0, norms = 0; };
static thread_local Mon *M = nullptr;
// y = F(x,u): Jacobian with respect to x bounded by A in absolute value
template <class T> void fbody(const Fix &f, const T *x, const T *u, T *y) {
  using std::cos; using std::sin; using std::tanh; using std::sqrt;
  for (int i = 0; i < f.dx; ++i) {
    T r = u[i % f.du] * f.b[i];
    for (int j = 0; j < f.dx; ++j) {
      const T &q = x[j], &w = u[(i + j) % f.du];
      switch (f.kind) {
      case 0: r += sin(q + w) * f.A[i][j]; break;
      case 1: r = r + tanh(q) * cos(w) * f.A[i][j]; break;
      case 2: r += q / (1.0 + w * w) * f.A[i][j]; break;
      case 4: if (q > f.thr) r += (q - f.thr) * (0.4 * f.A[i][j]); else r += (q - f.thr) * f.A[i][j]; break; // continuous
      default: { T t = sqrt(q * q + 1.0); r += t * f.A[i][j]; } break;
      }
    }
    y[i] = r;
  }
}
static double nrm(int k, const double *v, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s = k == 0 ? s + v[i] * v[i] : k == 1 ? std::max(s, std::fabs(v[i])) : s + std::fabs(v[i]); return k == 0 ? std::sqrt(s) : s; }
template <int K> int dF(double *x, double *u, double *y, size_t n, size_t m) {
  Mon &q = *M; if ((int)n != q.F[K].dx || (int)m != q.F[K].du) q.c->violation("dim", cat("iteration called with dimensions ", n, " ", m)); ++q.dcalls;
  fbody<double>(q.F[K], x, u, y); return 0;
}
template <int K> int aF(adouble *x, adouble *u, adouble *y, size_t n, size_t m) {
  Mon &q = *M; if ((int)n != q.F[K].dx || (int)m != q.F[K].du) q.c->violation("dim", cat("iteration called with dimensions ", n, " ", m)); ++q.acalls;
  fbody<adouble>(q.F[K], x, u, y); return 0;
}
template <int K> double nF(double *v, size_t n) { Mon &q = *M; if ((int)n != q.F[K].dx) q.c->violation("norm_dim", cat("norm called with ", n)); ++q.norms; return nrm(q.F[K].norm, v, n); }
static const double_F FD[NSLOT] = {dF<0>, dF<1>, dF<2>, dF<3>};
static const adouble_F FA[NSLOT] = {aF<0>, aF<1>, aF<2>, aF<3>};
static const norm_F FN[NSLOT] = {nF<0>, nF<1>, nF<2>, nF<3>};

struct Spec { int slot = 0; bool ownsub = false, persist = false; double eps = 1e-12, epsd = 1e-12; std::vector<int> x0, u, out; };
struct World { std::deque<Spec> S; double tie = 1e300; };
static thread_local World *W = nullptr;
struct Rec { short T = -1; std::map<int, short> sub; std::vector<std::unique_ptr<std::vector<adouble>>> arr; };
static thread_local Rec *R_ = nullptr;
static thread_local std::map<int, short> *sharedSub = nullptr;
template <class T> void refFix(const Spec &s, std::vector<T> &r) {
  const Fix &f = M->F[s.slot]; std::vector<T> x, u, y((size_t)f.dx);
  for (int i : s.x0) x.push_back(r[(size_t)i]);
  for (int i : s.u) u.push_back(r[(size_t)i]);
  const int its = (int)std::ceil(std::log(1e-24) / std::log(std::max(f.rho, 0.05))) + 5;
  for (int k = 0; k < its; ++k) { fbody<T>(f, x.data(), u.data(), y.data()); x = y; }
  for (int i = 0; i < f.dx; ++i) { if (f.kind == 4) W->tie = std::min(W->tie, std::fabs((double)valOf(x[(size_t)i]) - f.thr)); r[(size_t)s.out[(size_t)i]] = x[(size_t)i]; }
}
static std::unique_ptr<std::vector<adouble>> arr(size_t k) { currentTape().ensureContiguousLocations(k); auto v = std::make_unique<std::vector<adouble>>(); v->reserve(k); for (size_t i = 0; i < k; ++i) v->emplace_back(); return v; }
static void adFix(const Spec &s, std::vector<adouble> &r, int idx) {
  const Fix &f = M->F[s.slot]; Rec &q = *R_;
  auto &subs = sharedSub ? *sharedSub : q.sub;
  const int key = s.ownsub ? 100 + idx : s.slot;
  if (!subs.count(key)) subs[key] = createNewTape();
  std::vector<adouble> x0, u; for (int i : s.x0) { x0.emplace_back(); x0.back() = r[(size_t)i]; }
  for (int i : s.u) { u.emplace_back(); u.back() = r[(size_t)i]; }
  std::unique_ptr<std::vector<adouble>> own; adouble *Y;
  if (s.persist) { while (q.arr.size() <= (size_t)s.slot) q.arr.push_back(arr(4)); Y = q.arr[(size_t)s.slot]->data(); }
  else { own = arr((size_t)f.dx); Y = own->data(); }
  const int k = fp_iteration(q.T, subs[key], FD[s.slot], FA[s.slot], FN[s.slot], FN[s.slot], s.eps, s.epsd, 600, 600, x0.data(), u.data(), Y, (size_t)f.dx, (size_t)f.du);
  Ctx &c = *M->c;
  if (k < 0) c.violation("not_converged", cat("fp_iteration returned ", k));
  c.count("iterations", k);
  std::vector<double> xs, us, ys((size_t)f.dx); for (int i = 0; i < f.dx; ++i) xs.push_back(Y[i].value()); for (auto &v : u) us.push_back(v.value());
  fbody<double>(f, xs.data(), us.data(), ys.data());
  for (int i = 0; i < f.dx; ++i) ys[(size_t)i] -= xs[(size_t)i];
  const double e = nrm(f.norm, ys.data(), ys.size());
  // the last step was smaller than eps, the next one is at most as long (in the infinity norm)
  if (!(e <= s.eps * (f.norm == 1 ? 1 : 4) + 1e-14)) c.violation("residual", cat("residual ", e, " tolerance ", s.eps));
  c.count("residuals_checked");
  for (int i = 0; i < f.dx; ++i) r[(size_t)s.out[(size_t)i]] = Y[i];
}
// the bound on the number of iterations: exactly as many as needed suffice
static void limits(Ctx &c) {
  Rng &g = c.rng; Mon m; M = &m; m.c = &c; Fix &F = m.F[0];
  F.dx = g.in(1, 4); F.du = g.in(1, 4); F.kind = g.in(0, 3); F.norm = g.in(0, 2); F.rho = g.uni(0.1, 0.8);
  for (int i = 0; i < F.dx; ++i) for (int j = 0; j < F.dx; ++j) F.A[i][j] = g.uni(-1, 1) * F.rho / F.dx;
  for (double &v : F.b) v = g.uni(-1, 1);
  const double eps = std::pow(10., -g.in(2, 11));
  std::vector<double> x0, u; for (int i = 0; i < F.dx; ++i) x0.push_back(g.uni(-2, 2)); for (int i = 0; i < F.du; ++i) u.push_back(g.uni(-1, 1));
  long need = 0; { std::vector<double> x = x0, y((size_t)F.dx); for (;;) { ++need; fbody<double>(F, x.data(), u.data(), y.data()); std::vector<double> d = y; for (int i = 0; i < F.dx; ++i) d[(size_t)i] -= x[(size_t)i]; x = y; if (nrm(F.norm, d.data(), d.size()) < eps) break; } x0.size(); }
  const short T = createNewTape(), S = createNewTape(); setCurrentTape(T);
  const int n = F.dx + F.du;
  for (int less = 0; less < 2; ++less) {
    const size_t N = (size_t)(need - less); if (N == 0) continue;
    std::vector<double> out;
    trace_on(T, 1); int k;
    { std::vector<adouble> a; for (int i = 0; i < n; ++i) { a.emplace_back(); a.back() <<= i < F.dx ? x0[(size_t)i] : u[(size_t)(i - F.dx)]; }
      auto Y = arr((size_t)F.dx);
      k = fp_iteration(T, S, FD[0], FA[0], FN[0], FN[0], eps, eps, N, N, a.data(), a.data() + F.dx, Y->data(), (size_t)F.dx, (size_t)F.du);
      double y; for (auto &q : *Y) { q >>= y; out.push_back(y); } }
    trace_off();
    const long want = less ? -1 : need;
    if (k != want) c.violation("bound", cat("needs ", need, " iterations, allowed ", N, ": fp_iteration returned ", k, " eps ", eps));
    std::vector<double> x = x0; x.insert(x.end(), u.begin(), u.end()); std::vector<double> y((size_t)F.dx);
    int rc = zos_forward(T, F.dx, n, 0, x.data(), y.data());
    if (less ? rc >= 0 : rc < 0) c.violation("bound_sweep", cat("needs ", need, " iterations, allowed ", N, ": zos_forward returned ", rc));
    for (int i = 0; i < F.dx; ++i) if (std::memcmp(&y[(size_t)i], &out[(size_t)i], 8)) c.violation("bound_value", cat("sweep at the taping point gives ", y[(size_t)i], " instead of ", out[(size_t)i]));
    c.count("iteration_bounds");
  }
  // loose tolerances are respected by the derivatives: compare with the exact solution
  const double epsd = std::pow(10., -g.in(3, 10));
  trace_on(T, 1);
  { std::vector<adouble> a; for (int i = 0; i < n; ++i) { a.emplace_back(); a.back() <<= i < F.dx ? x0[(size_t)i] : u[(size_t)(i - F.dx)]; }
    auto Y = arr((size_t)F.dx);
    fp_iteration(T, S, FD[0], FA[0], FN[0], FN[0], 1e-12, epsd, 2000, 2000, a.data(), a.data() + F.dx, Y->data(), (size_t)F.dx, (size_t)F.du);
    double y; for (auto &q : *Y) q >>= y; }
  trace_off();
  std::vector<double> w((size_t)F.dx), z((size_t)n), x = x0; x.insert(x.end(), u.begin(), u.end());
  for (auto &v : w) v = g.num(1.5);
  auto B = ra::Basis::total(F.du, 1); TPL::B = B.get();
  std::vector<TPL> tx, tu, ty((size_t)F.dx); for (double v : x0) tx.push_back(TPL((long double)v)); for (int i = 0; i < F.du; ++i) tu.push_back(TPL::var(i, u[(size_t)i]));
  for (int k = 0; k < 400; ++k) { fbody<TPL>(F, tx.data(), tu.data(), ty.data()); tx = ty; }
  auto J = [&](int j, int i) { std::vector<int> e((size_t)F.du, 0); e[(size_t)i] = 1; return (double)tx[(size_t)j].c[(size_t)B->find(e)]; };
  // one more step changes the adjoint by less than epsd, the Neumann series
  // bounds the rest; |dF/du| is at most 1 + 3 sum |A|
  const double amp = 4.0 * F.dx / (1 - F.rho) * 4;
  if (fos_reverse(T, F.dx, n, w.data(), z.data()) < 0) c.violation("rc", "fos_reverse");
  for (int i = 0; i < F.du; ++i) { double s = 0; for (int j = 0; j < F.dx; ++j) s += w[(size_t)j] * J(j, i); if (!(std::fabs(z[(size_t)(F.dx + i)] - s) <= amp * (epsd + 1e-9))) c.violation("tolerance_reverse", cat("adjoint off by ", std::fabs(z[(size_t)(F.dx + i)] - s), " tolerance ", epsd)); }
  for (int i = 0; i < F.dx; ++i) if (z[(size_t)i] != 0) c.violation("start_dependence", cat("derivative by the starting value ", z[(size_t)i]));
  std::vector<double> X((size_t)n), Yd((size_t)F.dx), y((size_t)F.dx); for (auto &v : X) v = g.num(1.5);
  if (fos_forward(T, F.dx, n, 0, x.data(), X.data(), y.data(), Yd.data()) < 0) c.violation("rc", "fos_forward");
  for (int j = 0; j < F.dx; ++j) { double s = 0; for (int i = 0; i < F.du; ++i) s += J(j, i) * X[(size_t)(F.dx + i)]; if (!(std::fabs(Yd[(size_t)j] - s) <= amp * (epsd + 1e-9))) c.violation("tolerance_forward", cat("tangent off by ", std::fabs(Yd[(size_t)j] - s), " tolerance ", epsd)); }
  c.count("derivative_tolerances"); ++c.evaluations; c.nontrivial(hmix((uint64_t)F.kind * 100 + (uint64_t)need, (uint64_t)c.idx));
}
static void oneCase(Ctx &c) {
  if (c.idx % 10 == 9) { c.phase("limits"); limits(c); return; }
  Rng &g = c.rng;
  World w; W = &w; Mon m; M = &m; m.c = &c;
  for (auto &F : m.F) {
    F.dx = g.in(1, 4); F.du = g.in(1, 4); F.kind = g.in(0, 4); F.thr = g.uni(-0.5, 0.5); F.norm = g.in(0, 2); F.rho = g.uni(0.05, 0.75);
    // row and column sums at most rho
    for (int i = 0; i < F.dx; ++i) for (int j = 0; j < F.dx; ++j) F.A[i][j] = g.uni(-1, 1) * F.rho / F.dx;
    for (double &v : F.b) v = g.uni(-1, 1);
  }
  extFn<double> = [&](const Ins &I, std::vector<double> &r) { refFix<double>(w.S[(size_t)I.n], r); if (obs) for (int q : w.S[(size_t)I.n].out) obs->val(r[(size_t)q]); if (obs) for (int q : w.S[(size_t)I.n].u) obs->val(r[(size_t)q]); };
  extFn<TPL> = [&](const Ins &I, std::vector<TPL> &r) { refFix<TPL>(w.S[(size_t)I.n], r); };
  extFn<adouble> = [&](const Ins &I, std::vector<adouble> &r) { adFix(w.S[(size_t)I.n], r, I.n); };
  GenOpt o; o.lenmin = 2; o.lenmax = c.thorough ? 25 : 12; o.nmin = 1; o.nmax = 4; o.mmax = 3; o.extra = 5; o.points = 3; o.bulkmax = 10; o.sameOutcome = true;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false; o.allow[PARAM] = false;
  o.extShare = g.chance(0.3) ? 0.5 : 0.2;
  o.extInit = [&](const Ins &I, std::vector<char> &init) { for (int q : w.S[(size_t)I.n].out) init[(size_t)q] = 1; };
  o.extPropose = [&](Rng &q, Ins &I, const std::vector<char> &init, int nr) {
    Spec s; s.slot = q.in(0, NSLOT - 1); if (q.chance(0.3)) s.slot = 0;
    const Fix &f = m.F[s.slot];
    std::vector<int> av, all; for (int i = 0; i < nr; ++i) { all.push_back(i); if (init[(size_t)i]) av.push_back(i); }
    if ((int)all.size() < f.dx) return false;
    for (int i = 0; i < f.dx; ++i) s.x0.push_back(av[(size_t)q.in(0, (int)av.size() - 1)]);
    for (int i = 0; i < f.du; ++i) s.u.push_back(av[(size_t)q.in(0, (int)av.size() - 1)]);
    for (int i = 0; i < f.dx; ++i) { int k = q.in(0, (int)all.size() - 1); s.out.push_back(all[(size_t)k]); all.erase(all.begin() + k); }
    s.ownsub = q.chance(0.5); s.persist = q.chance(0.3);
    I.n = (int)w.S.size(); I.a = s.u[0]; I.dst = s.out[0]; I.b = I.c = 0; w.S.push_back(s); return true;
  };
  Gen G = generate(g, o);
  const Prog &p = G.p;
  long ncall = 0; for (auto &I : p.code) ncall += I.op == EXT;
  if (!ncall) { c.count("no_call"); return; }
  uint64_t h = p.hash(); for (auto &I : p.code) if (I.op == EXT) h = hmix(h, (uint64_t)(m.F[w.S[(size_t)I.n].slot].kind * 100 + w.S[(size_t)I.n].slot));
  auto desc = [&] { std::string d = p.str(); for (auto &I : p.code) if (I.op == EXT) { const Spec &s = w.S[(size_t)I.n]; const Fix &f = m.F[s.slot]; d += cat(" | FIX", I.n, " slot", s.slot, " kind", f.kind, " rho", f.rho, " norm", f.norm, " ownsub", s.ownsub, " persist", s.persist, " x0"); for (int q : s.x0) d += cat(",", q); d += " u"; for (int q : s.u) d += cat(",", q); d += " out"; for (int q : s.out) d += cat(",", q); } return d; };
  if (c.verbose) fprintf(stderr, "%s\n", desc().c_str());
  auto B = ra::Basis::total(p.n, 1); TPL::B = B.get();
  std::vector<RefOut> R; double big = 0;
  for (auto &x : G.x) { R.push_back(refTotal(p, *B, x)); for (auto &y : R.back().y) for (auto v : y.c) big = std::max(big, (double)std::fabs((double)v)); }
  if (w.tie < 1e-6) { c.count("near_branch_tie"); return; }
  // the iterations stop at 1e-12: only programs that do not amplify that much
  if (!(big < 1e4)) { c.count("ill_conditioned"); return; }
  if (c.idx < 40) c.sample(desc().substr(0, 700));
  c.nontrivial(h);
  auto J = [&](size_t pt, int j, int i) { std::vector<int> e((size_t)p.n, 0); e[(size_t)i] = 1; return (double)R[pt].y[(size_t)j].c[(size_t)B->find(e)]; };
  const int nt = g.in(1, 2); std::map<int, short> common; const bool shareSub = nt == 2 && g.chance(0.3); sharedSub = shareSub ? &common : nullptr;
  Rec rec[2]; int state[2]; size_t at[2], rp[2]; int keepR[2];
  auto cmp = [&](const char *nm, int t, double got, double ref, size_t pt, int j) { const double tol = std::max(tolOf(R[pt], ref), 3e-7 * (1 + std::fabs(ref))); c.count("numbers_compared"); if (!close(got, ref, tol)) c.violation(cat(nm, "_value"), cat(nm, " ", j, " got ", got, " expected ", ref, " point ", pt, " recorded at ", rp[t], " keep ", keepR[t], " tape ", t, " of ", nt, " ", desc())); };
  const int recs = g.chance(0.3) ? 2 : 1;
  for (int rr = 0; rr < recs; ++rr) {
    for (int t = 0; t < nt; ++t) {
      Rec &q = rec[t]; R_ = &q; if (q.T < 0) q.T = createNewTape();
      setCurrentTape(q.T); q.arr.clear();
      keepR[t] = g.in(0, 1); rp[t] = (size_t)g.in(0, 2);
      c.phase("record");
      trace_on(q.T, keepR[t]);
      {
        std::vector<adouble> r; r.reserve((size_t)p.nr); initRegs<adouble>(p, r);
        for (int i = 0; i < p.n; ++i) r[(size_t)i] <<= G.x[rp[t]][(size_t)i];
        run<adouble>(p, r);
        for (int j = 0; j < p.m; ++j) { double y; r[(size_t)p.dep[(size_t)j]] >>= y; cmp("taping", t, y, (double)R[rp[t]].y[(size_t)j].c[0], rp[t], j); }
        q.arr.clear();
      }
      trace_off();
      if (currentTape().tapeId() != q.T) c.violation("current_tape", "current tape changed");
      if (g.chance(0.2)) { // outside a traced section
        c.phase("outside"); const size_t pt = (size_t)g.in(0, 2);
        { std::vector<adouble> r; r.reserve((size_t)p.nr); initRegs<adouble>(p, r); for (int i = 0; i < p.n; ++i) r[(size_t)i] = G.x[pt][(size_t)i]; run<adouble>(p, r); for (int j = 0; j < p.m; ++j) cmp("outside", t, r[(size_t)p.dep[(size_t)j]].value(), (double)R[pt].y[(size_t)j].c[0], pt, j); q.arr.clear(); }
        c.count("outside");
      }
      state[t] = keepR[t] ? 1 : 0; at[t] = rp[t];
      c.count("calls", ncall); for (auto &I : p.code) if (I.op == EXT && m.F[w.S[(size_t)I.n].slot].kind == 4) c.count("calls_branching"); if (shareSub) c.count("calls_sharing_subtape_between_tapes", ncall);
    }
    const int steps = g.in(4, 9);
    std::vector<double> y((size_t)p.m);
    for (int st = 0; st < steps; ++st) {
      const int t = g.in(0, nt - 1); const short T = rec[t].T;
      const int what = state[t] && g.chance(0.6) ? 4 : g.in(0, 2);
      const size_t pt = (size_t)g.in(0, 2); std::vector<double> x = G.x[pt];
      auto vals = [&](const char *nm) { for (int j = 0; j < p.m; ++j) cmp(nm, t, y[(size_t)j], (double)R[pt].y[(size_t)j].c[0], pt, j); };
      if (what == 0) { const int k = g.in(0, 1); c.phase("zos_forward"); int rc = zos_forward(T, p.m, p.n, k, x.data(), y.data()); vals("zos_forward"); if (k) { state[t] = 1; at[t] = pt; } if (rc < 0) c.violation("rc", cat("zos_forward returned ", rc, desc())); c.count("sweep_zos_forward"); }
      else if (what == 1) { const int k = g.in(0, 1); std::vector<double> X((size_t)p.n), Y((size_t)p.m); for (auto &v : X) v = g.num(1.5); c.phase("fos_forward"); int rc = fos_forward(T, p.m, p.n, k, x.data(), X.data(), y.data(), Y.data()); vals("fos_forward"); for (int j = 0; j < p.m; ++j) { double s = 0; for (int i = 0; i < p.n; ++i) s += J(pt, j, i) * X[(size_t)i]; cmp("fos_forward", t, Y[(size_t)j], s, pt, j); } if (k) { state[t] = 1; at[t] = pt; } if (rc < 0) c.violation("rc", cat("fos_forward returned ", rc, desc())); c.count(k ? "sweep_fos_forward_keep" : "sweep_fos_forward"); }
      else if (what == 2) {
        if (p.m != 1) continue;
        std::vector<double> gr((size_t)p.n); c.phase("gradient"); gradient(T, p.n, x.data(), gr.data()); for (int i = 0; i < p.n; ++i) cmp("gradient", t, gr[(size_t)i], J(pt, 0, i), pt, i);
        state[t] = 2; at[t] = pt; c.count("sweep_gradient");
      } else {
        std::vector<double> u((size_t)p.m), z((size_t)p.n, 7.5); for (auto &v : u) v = g.num(1.5); if (g.chance(0.2)) u[0] = 0; c.phase("fos_reverse"); int rc = fos_reverse(T, p.m, p.n, u.data(), z.data());
        if (rc < 0) c.violation("rc", cat("fos_reverse returned ", rc, desc()));
        for (int i = 0; i < p.n; ++i) { double s = 0; for (int j = 0; j < p.m; ++j) s += u[(size_t)j] * J(at[t], j, i); cmp(state[t] == 2 ? "fos_reverse_again" : "fos_reverse", t, z[(size_t)i], s, at[t], i); }
        if (state[t] == 2) c.count("repeated_reverse");
        state[t] = 2; c.count("sweep_fos_reverse");
      }
    }
    c.evaluations += steps;
  }
  c.count("step_calls", m.dcalls + m.acalls);
  for (auto &q : rec) q.arr.clear();
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
