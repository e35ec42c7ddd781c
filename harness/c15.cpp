// C15: sparse Jacobian and Hessian drivers return the exact nonzeros, whatever
// the options, the sequence of repeated calls and the number of tapes in play.
#include "adtape.h"
#include "battery.h"
#include <adolc/sparse/sparsedrivers_c.h>
using namespace vh;
using namespace pg;
namespace sp = ADOLC::Sparse;
using sp::BitPatternPropagationDirection; using sp::CompressionMode; using sp::ControlFlowMode; using sp::MemoryHandler; using sp::RecoveryMethod; using sp::SparseMatrix; using sp::SparseMethod;
using at::Mat;

typedef std::vector<std::vector<double>> DM;

// banded, arrow and random couplings: patterns in which directions collide
static void couple(Rng &g, Prog &p, const GenOpt &o) {
  const int kind = g.in(0, 3), band = g.in(1, 4), rounds = g.in(1, 3);
  Ins I;
  auto add = [&](int op, int d, int a, int b, int c) { I = Ins(); I.op = (uint8_t)op; if (!opAllowed(o, op)) return; I.dst = d; I.a = a; I.b = b; I.c = c; I.v = (uint8_t)g.in(0, 63); I.k = g.uni(0.3, 0.9); I.n = g.in(1, 3); p.code.push_back(I); };
  for (int q = 0; q < rounds; ++q)
    for (int i = 0; i < p.m; ++i) {
      const int d = p.dep[i];
      if (d < p.n && g.chance(0.5)) continue;
      const int cnt = kind == 3 ? g.in(1, 4) : kind == 2 ? 2 : band;
      for (int k = 0; k < cnt; ++k) {
        int a = kind == 0 ? (i + k) % p.n : kind == 1 ? g.in(0, p.n - 1) : kind == 2 ? (k ? i % p.n : 0) : (i * 3 + k * k) % p.n;
        int b = g.chance(0.5) ? (a + 1) % p.n : g.in(0, p.n - 1);
        static const int ops[] = {ADDEQ, SUBEQ, ADDEQP, SUBEQP, ADDEQP, ADDEQP};
        add(ops[g.in(0, 5)], d, a, b, g.in(0, p.nr - 1));
        if (g.chance(0.1)) { static const int un[] = {SIN, COS, TANH, ATAN, NEG, MULEQC}; add(un[g.in(0, 5)], d, d, a, b); }
      }
    }
  if (p.m == 1) // separable sums of couplings for Hessians
    for (int i = 0; i + 1 < p.n; ++i) if (g.chance(0.7)) add(ADDEQP, p.dep[0], i, kind == 2 ? 0 : (i + 1 + g.in(0, band - 1)) % p.n, 0);
}

struct T {
  Gen G; short id = -1; bool hess = false, moving = false, safe = true;
  std::vector<DM> J; // per point
  std::vector<double> scale;
  // state of the sparse drivers
  int cfg = -1, nnz = 0; bool cached = false; int cachedPoint = 0; bool tight = false;
  uint *ri = nullptr, *ci = nullptr; double *va = nullptr; SparseMatrix S;
};

// sparse_hess hands out ColPack's malloc'ed arrays, the C sparse_jac new[]
template <class P> static void drop1(const T &t, P *&q) { if (t.hess) free(q); else delete[] q; q = nullptr; }
static void drop(T &t) { drop1(t, t.ri); drop1(t, t.ci); drop1(t, t.va); }

static bool build(Ctx &c, T &t) {
  Rng &g = c.rng;
  GenOpt o;
  t.hess = g.chance(0.5);
  t.moving = g.chance(0.4);
  const bool subs = g.chance(0.25);
  t.safe = !subs;
  const int big = g.in(0, 9);
  o.lenmin = 1; o.lenmax = 14; o.bulkmax = 6; o.extra = g.in(3, 8); o.points = 3; o.maxval = 30;
  o.nmax = t.hess ? (big < 4 ? 18 : 6) : big < 2 ? 70 : big < 5 ? 24 : 6;
  o.nmin = big < 5 ? o.nmax / 2 : 1;
  o.mmax = t.hess ? 1 : big == 0 ? 70 : big < 5 ? 24 : 6;
  o.sameOutcome = !t.moving; o.branches = !t.moving;
  o.kinkMargin = 0.01;
  o.allow.assign(NOPS, true);
  if (!subs) o.allow[AVREAD] = o.allow[AVWRITE] = o.allow[AVSEL] = o.allow[AVLOOK] = false;
  if (t.hess) o.allow[FMIN] = o.allow[FMAX] = o.allow[CBRT] = false;
  bool good = false;
  for (int k = 0; k < 100 && !good; ++k) {
    GenOpt o2 = o;
    if (o.mmax > 10 && g.chance(0.7)) { o2.mmin = o.mmax / 2; o2.extra = o.mmax + 2; }
    t.G = generate(g, o2);
    if (t.G.p.code.empty() || !t.G.p.m) continue;
    if (g.chance(0.8)) couple(g, t.G.p, o2);
    good = true;
    std::vector<int> ref;
    for (int q = 0; q < 3 && good; ++q) {
      Obs ob; ob.kinkMargin = 0.01;
      auto y = evald(t.G.p, t.G.x[q], &ob);
      for (double v : y) if (!(std::fabs(v) < 1e4)) good = false;
      if (ob.bad || !(ob.maxval < 1e4)) good = false;
      if (!q) ref = ob.outcomes; else if (o.sameOutcome && ob.outcomes != ref) good = false;
    }
  }
  if (!good) return false;
  const Prog &p = t.G.p; const int n = p.n, m = p.m;
  auto B = ra::Basis::total(n, t.hess ? 2 : 1);
  for (int q = 0; q < 3; ++q) {
    RefOut R = refTotal(p, *B, t.G.x[q]);
    if (!(R.maxabs < 1e6)) return false;
    t.scale.push_back((double)R.maxabs);
    DM M(t.hess ? n : m, std::vector<double>(n, 0));
    std::vector<int> e(n, 0);
    for (int j = 0; j < n; ++j) {
      e[j]++;
      if (!t.hess) { int k = B->find(e); for (int i = 0; i < m; ++i) M[i][j] = (double)R.y[i].c[k]; }
      else for (int k = 0; k <= j; ++k) { e[k]++; double v = (double)R.y[0].c[B->find(e)] * (k == j ? 2 : 1); M[j][k] = M[k][j] = v; e[k]--; }
      e[j]--;
    }
    t.J.push_back(M);
  }
  return true;
}

typedef std::vector<std::tuple<uint, uint, double>> Coo;
static void compare(Ctx &c, const T &t, int q, const Coo &C, const std::string &what) {
  const int rows = t.hess ? t.G.p.n : t.G.p.m, cols = t.G.p.n;
  const std::string key = what.substr(0, what.find(' '));
  std::vector<std::vector<char>> seen(rows, std::vector<char>(cols, 0));
  const double tol = 1e-8 * (1 + t.scale[q]);
  for (auto &[i, j, v] : C) {
    if (i >= (uint)rows || j >= (uint)cols) { c.violation(cat("range:", key), cat(what, " entry (", i, ",", j, ") of ", rows, "x", cols, " ", t.G.p.str())); return; }
    if (t.hess && j < i) { c.violation(cat("lower:", key), cat(what, " entry (", i, ",", j, ") below the diagonal ", t.G.p.str())); return; }
    if (seen[i][j]++) { c.violation(cat("duplicate:", key), cat(what, " entry (", i, ",", j, ") twice ", t.G.p.str())); return; }
    c.count("entries_compared");
    const double w = t.J[q][i][j];
    if (!(std::fabs(v - w) <= tol)) { c.violation(cat("value:", key), cat(what, " [", i, "][", j, "] = ", v, " want ", w, " point=", q, " ", t.G.p.str())); return; }
  }
  for (int i = 0; i < rows; ++i) for (int j = t.hess ? i : 0; j < cols; ++j) if (!seen[i][j] && std::fabs(t.J[q][i][j]) > 1e-9 * (1 + t.scale[q])) { c.violation(cat("missing:", key), cat(what, " lacks [", i, "][", j, "] = ", t.J[q][i][j], " point=", q, " ", t.G.p.str())); return; }
}

template <SparseMethod SM, CompressionMode CM, ControlFlowMode CFM, BitPatternPropagationDirection B>
static int jac2(T &t, int rep, double *x, bool man) {
  const Prog &p = t.G.p;
  return man ? sp::sparse_jac<SM, CM, CFM, B, MemoryHandler::Manual>(t.id, p.m, p.n, rep, x, t.S) : sp::sparse_jac<SM, CM, CFM, B, MemoryHandler::Auto>(t.id, p.m, p.n, rep, x, t.S);
}
template <CompressionMode CM, ControlFlowMode CFM> static int jac1(T &t, int w, int rep, double *x, bool man) {
  using D = BitPatternPropagationDirection;
  switch (w) {
  case 0: return jac2<SparseMethod::IndexDomains, CM, CFM, D::Auto>(t, rep, x, man);
  case 1: return jac2<SparseMethod::BitPattern, CM, CFM, D::Auto>(t, rep, x, man);
  case 2: return jac2<SparseMethod::BitPattern, CM, CFM, D::Forward>(t, rep, x, man);
  default: return jac2<SparseMethod::BitPattern, CM, CFM, D::Reverse>(t, rep, x, man);
  }
}
static const char *mn[] = {"index", "bits_auto", "bits_forward", "bits_reverse"};

static bool step(Ctx &c, T &t) {
  Rng &g = c.rng;
  const Prog &p = t.G.p;
  // a changed configuration starts again with repeat = 0
  const bool again = t.cached && g.chance(0.6);
  int q = g.in(0, 2);
  if (!again) {
    t.tight = !t.safe || g.chance(0.5);
    t.cfg = t.hess ? g.in(0, 2) * 8 + (g.chance(0.5) ? 4 : 0) : g.in(0, 15);
    t.cachedPoint = q;
    drop(t); t.ri = t.ci = nullptr; t.va = nullptr; t.nnz = 0;
  } else if (t.tight && (t.moving || !t.safe)) q = t.cachedPoint; // tight patterns hold for the decisions taken there
  const int rep = again ? (g.chance(0.5) ? 1 : 2) : 0;
  std::vector<double> x = t.G.x[q], x0 = x;
  int rc; Coo C; std::string what;
  if (t.hess) {
    const bool direct = t.cfg & 4, cif = t.cfg / 8 == 0, old = t.cfg / 8 == 1;
    int opt[2] = {t.tight ? 1 : 0, direct ? 1 : 0};
    if (again && g.chance(0.3)) { const int k = g.in(1, 7); if (k & 1) drop1(t, t.ri); if (k & 2) drop1(t, t.ci); if (k & 4) drop1(t, t.va); }
    what = cat(cif ? "c_" : "", "sparse_hess", old ? "_old" : "", t.tight ? "_tight" : "_safe", direct ? "_direct" : "_indirect", " repeat=", rep);
    c.phase(what);
    auto run = [&](auto cfm, auto rcm) { return sp::sparse_hess<decltype(cfm)::value, decltype(rcm)::value>(t.id, p.n, rep, x.data(), &t.nnz, &t.ri, &t.ci, &t.va); };
    using Tt = std::integral_constant<ControlFlowMode, ControlFlowMode::Tight>; using Ss = std::integral_constant<ControlFlowMode, ControlFlowMode::Safe>;
    using To = std::integral_constant<ControlFlowMode, ControlFlowMode::OldTight>; using So = std::integral_constant<ControlFlowMode, ControlFlowMode::OldSafe>;
    using Di = std::integral_constant<RecoveryMethod, RecoveryMethod::Direct>; using In = std::integral_constant<RecoveryMethod, RecoveryMethod::Indirect>;
    if (cif) rc = ::sparse_hess(t.id, p.n, rep, x.data(), &t.nnz, &t.ri, &t.ci, &t.va, opt);
    else if (old) rc = t.tight ? (direct ? run(To{}, Di{}) : run(To{}, In{})) : direct ? run(So{}, Di{}) : run(So{}, In{});
    else rc = t.tight ? (direct ? run(Tt{}, Di{}) : run(Tt{}, In{})) : direct ? run(Ss{}, Di{}) : run(Ss{}, In{});
    for (int k = 0; k < t.nnz && rc >= 0; ++k) C.emplace_back(t.ri[k], t.ci[k], t.va[k]);
  } else {
    const int w = t.cfg & 3; const bool row = t.cfg & 4, cif = t.cfg & 8;
    if (cif) {
      int opt[4] = {w ? 1 : 0, t.tight ? 1 : 0, w > 1 ? w - 1 : 0, row ? 1 : 0};
      if (again && g.chance(0.3)) { const int k = g.in(1, 7); if (k & 1) drop1(t, t.ri); if (k & 2) drop1(t, t.ci); if (k & 4) drop1(t, t.va); }
      what = cat("c_sparse_jac_", mn[w], t.tight ? "_tight" : "_safe", row ? "_row" : "_column", " repeat=", rep);
      c.phase(what);
      rc = ::sparse_jac(t.id, p.m, p.n, rep, x.data(), &t.nnz, &t.ri, &t.ci, &t.va, opt);
      for (int k = 0; k < t.nnz && rc >= 0; ++k) C.emplace_back(t.ri[k], t.ci[k], t.va[k]);
    } else {
      const bool man = again && t.S.size() == (size_t)t.nnz && g.chance(0.4);
      what = cat("sparse_jac_", mn[w], t.tight ? "_tight" : "_safe", row ? "_row" : "_column", man ? "_manual" : "", " repeat=", rep);
      if (!man && g.chance(0.5)) t.S = SparseMatrix((size_t)g.in(0, 5));
      c.phase(what);
      rc = row ? (t.tight ? jac1<CompressionMode::Row, ControlFlowMode::Tight>(t, w, rep, x.data(), man) : jac1<CompressionMode::Row, ControlFlowMode::Safe>(t, w, rep, x.data(), man))
               : (t.tight ? jac1<CompressionMode::Column, ControlFlowMode::Tight>(t, w, rep, x.data(), man) : jac1<CompressionMode::Column, ControlFlowMode::Safe>(t, w, rep, x.data(), man));
      for (size_t k = 0; k < t.S.size() && rc >= 0; ++k) C.emplace_back(t.S.rowIndex(k), t.S.colIndex(k), t.S.value(k));
      t.nnz = (int)t.S.size();
    }
  }
  t.cached = true;
  c.count(cat("call_", what.substr(0, what.find(' '))));
  if (rep) c.count("repeated_calls");
  if (rc < 0) { c.violation(cat("rc:", what.substr(0, what.find(' '))), cat(what, " returned ", rc, " point=", q, " moving=", t.moving, " ", p.str())); return false; }
  if (x != x0) c.violation("input", cat(what, " changed x ", p.str()));
  compare(c, t, q, C, cat(what, " n=", p.n, " m=", p.m));
  return true;
}

// the seed matrices handed out for user-driven compression separate every
// entry of the pattern (direct recovery)
static void seeds(Ctx &c, T &t) {
  Rng &g = c.rng;
  const int rows = t.hess ? t.G.p.n : g.in(1, 12), cols = t.hess ? t.G.p.n : g.in(1, 12);
  std::vector<std::vector<uint>> P((size_t)rows);
  std::vector<std::vector<char>> has((size_t)rows, std::vector<char>((size_t)cols, 0));
  const double dens = g.uni(0.05, 0.6);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
    if (t.hess && j < i) has[i][j] = has[j][i]; else has[i][j] = (t.hess && i == j) || g.chance(dens);
  }
  bool any = false;
  for (int i = 0; i < rows; ++i) { P[i].push_back(0); for (int j = 0; j < cols; ++j) if (has[i][j]) P[i].push_back((uint)j), P[i][0]++, any = true; }
  if (!any) return;
  std::vector<uint *> pp; for (auto &r : P) pp.push_back(r.data());
  std::span<uint *> s(pp);
  double **Seed = nullptr; int p = 0;
  const bool cif = g.chance(0.5), row = g.chance(0.5);
  if (t.hess) {
    c.phase("generate_seed_hess");
    int opt[1] = {1};
    if (cif) ::generate_seed_hess(rows, pp.data(), &Seed, &p, opt); else sp::generate_seed_hess<RecoveryMethod::Direct>(rows, s, &Seed, &p);
    // star colouring: every entry is alone in its row or in its column
    auto col = [&](int j) { int k = -1; for (int q = 0; q < p; ++q) if (Seed[j][q] != 0) { if (k >= 0 || Seed[j][q] != 1) return -2; k = q; } return k; };
    std::vector<int> cl; for (int j = 0; j < cols; ++j) cl.push_back(col(j));
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) if (has[i][j]) {
      auto alone = [&](int a, int b) { if (cl[b] < 0) return false; for (int k = 0; k < cols; ++k) if (k != b && has[a][k] && cl[k] == cl[b]) return false; return true; };
      c.count("seed_entries");
      if (!alone(i, j) && !alone(j, i)) { c.violation("seed:hess", cat("entry (", i, ",", j, ") of an ", rows, "x", cols, " pattern cannot be recovered, p=", p)); break; }
    }
  } else {
    int opt[1] = {row ? 1 : 0};
    c.phase("generate_seed_jac");
    if (cif) ::generate_seed_jac(rows, cols, pp.data(), &Seed, &p, opt);
    else if (row) sp::generate_seed_jac<CompressionMode::Row>(rows, cols, s, &Seed, &p); else sp::generate_seed_jac<CompressionMode::Column>(rows, cols, s, &Seed, &p);
    auto sd = [&](int v, int k) { return row ? Seed[k][v] : Seed[v][k]; };
    bool bad = false;
    for (int i = 0; i < rows && !bad; ++i) for (int j = 0; j < cols && !bad; ++j) if (has[i][j]) {
      c.count("seed_entries");
      bool ok = false;
      for (int k = 0; k < p && !ok; ++k) if (sd(row ? i : j, k) == 1) {
        ok = true;
        if (row) { for (int q = 0; q < rows; ++q) if (q != i && has[q][j] && sd(q, k) != 0) ok = false; }
        else for (int q = 0; q < cols; ++q) if (q != j && has[i][q] && sd(q, k) != 0) ok = false;
      }
      if (!ok) { bad = true; c.violation("seed:jac", cat("entry (", i, ",", j, ") of a ", rows, "x", cols, " pattern cannot be recovered, row=", row, " cif=", cif, " p=", p)); }
    }
  }
  if (Seed) { for (int i = 0; i < (t.hess ? rows : row ? p : cols); ++i) delete[] Seed[i]; delete[] Seed; }
}

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const int nt = g.in(1, 3);
  std::vector<T> ts((size_t)nt);
  for (auto &t : ts) if (!build(c, t)) { c.count("skipped_illconditioned"); return; }
  uint64_t h = 0; for (auto &t : ts) h = hmix(h + t.hess, t.G.p.hash());
  c.nontrivial(h);
  if (c.idx < 30) c.sample(ts[0].G.p.str());
  for (auto &t : ts) {
    c.phase("record");
    t.id = createNewTape();
    at::record(t.G.p, t.G.x[g.in(0, 2)], t.id, g.in(0, 1));
  }
  if (nt > 1) c.count("several_tapes");
  for (int k = g.in(2, 8); k > 0; --k) {
    T &t = g.pick(ts);
    if (g.chance(0.08)) { c.phase("re-record"); at::record(t.G.p, t.G.x[g.in(0, 2)], t.id, 0); c.count("rerecorded"); t.cached = false; }
    else if (g.chance(0.1)) { c.phase("dense"); Mat J((size_t)t.G.p.m, (size_t)t.G.p.n); jacobian(t.id, t.G.p.m, t.G.p.n, t.G.x[0].data(), J.ptr()); c.count("dense_between"); }
    else if (g.chance(0.15)) seeds(c, t);
    else if (!step(c, t)) break;
  }
  for (auto &t : ts) { drop(t); }
}

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
