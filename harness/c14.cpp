// C14: reported sparsity patterns contain every entry that can be nonzero.
#include "adtape.h"
using namespace vh;
using namespace pg;
using namespace ADOLC::Sparse;
using at::Mat;

typedef std::vector<std::vector<char>> Pat; // [rows][cols]

static void tail(Rng &g, Gen &G, const GenOpt &o) {
  Prog &p = G.p;
  auto reg = [&] { return g.in(0, p.nr - 1); };
  const int groups = g.in(1, 5);
  std::vector<int> dsts;
  for (int q = 0; q < groups; ++q) {
    const int dst = g.in(p.n, p.nr - 1);
    dsts.push_back(dst);
    Ins I;
    // a wide accumulation: linear, products, or in reverse order
    const int cnt = g.in(2, std::min(40, p.n + 2)), first = g.in(0, p.n - 1), step = g.chance(0.5) ? 1 : g.in(1, 5);
    for (int k = 0; k < cnt; ++k) {
      I = Ins(); I.dst = dst; I.v = (uint8_t)g.in(0, 63); I.k = 0.5;
      I.a = (first + k * step) % p.n; I.b = g.chance(0.5) ? (I.a + 1) % p.n : reg(); I.c = reg();
      const double u = g.uni(0, 1);
      I.op = u < 0.5 ? ADDEQ : u < 0.65 ? SUBEQ : u < 0.9 ? ADDEQP : SUBEQP;
      p.code.push_back(I);
    }
    for (int k = g.in(0, 4); k > 0; --k) {
      static const int ops[] = {SIN, COS, TANH, ATAN, FMIN, FMAX, FABS, COND4, COND3, CONDEQ4, CONDEQ3, MOVE, SWAP, COPY, VDOT, VAXPY, VCOPY, MUL, ADD, SUB, NEG, MULEQ, MULEQC, CEIL, FLOOR, LAMBDA, VECTMP, PARAM, ADDEQR, MULEQR};
      I = Ins(); I.op = (uint8_t)ops[g.in(0, (int)(sizeof ops / sizeof *ops) - 1)];
      if (!opAllowed(o, I.op)) continue;
      I.dst = g.chance(0.6) ? dst : g.in(p.n, p.nr - 1); I.a = g.chance(0.6) ? dst : reg(); I.b = g.chance(0.3) ? dst : reg(); I.c = reg();
      I.v = (uint8_t)g.in(0, 63); I.k = g.uni(0.3, 1.5); I.n = g.in(1, 4);
      if (g.chance(0.3)) dsts.push_back(I.dst);
      p.code.push_back(I);
    }
  }
  for (auto &d : p.dep) if (g.chance(0.5)) { int c = g.pick(dsts); if (std::find(p.dep.begin(), p.dep.end(), c) == p.dep.end()) d = c; }
}

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o;
  const bool second = g.chance(0.45);
  const bool moving = g.chance(0.5); // decisions differ between the points
  const bool subs = g.chance(0.4);   // active subscripts: tight patterns only
  const int big = g.in(0, 9);
  o.lenmin = 2; o.lenmax = 14; o.bulkmax = 8; o.extra = g.in(3, 8); o.points = 3; o.maxval = 30;
  o.nmax = second ? (big < 3 ? 30 : 6) : big < 2 ? 100 : big < 4 ? 40 : 6;
  o.nmin = big < 2 ? o.nmax / 2 : 1;
  o.mmax = second && g.chance(0.7) ? 1 : big == 0 ? 75 : big < 4 ? 34 : 5;
  o.sameOutcome = !moving; o.branches = !moving;
  o.kinkMargin = 0.01;
  if (!subs) { o.allow.assign(NOPS, true); o.allow[AVREAD] = o.allow[AVWRITE] = o.allow[AVSEL] = o.allow[AVLOOK] = false; }
  Gen G; bool good = false;
  for (int t = 0; t < 200 && !good; ++t) {
    GenOpt o2 = o;
    if (o.mmax > 20) { o2.mmin = o.mmax / 2; o2.extra = o.mmax + 2; }
    G = generate(g, o2);
    if (G.p.code.empty() || !G.p.m) continue;
    if (g.chance(0.7)) tail(g, G, o2);
    good = true;
    std::vector<int> ref;
    for (int q = 0; q < 3 && good; ++q) {
      Obs ob; ob.kinkMargin = 0.01;
      auto y = evald(G.p, G.x[q], &ob);
      for (double v : y) if (!(std::fabs(v) < 1e4)) good = false;
      if (ob.bad || !(ob.maxval < 1e4)) good = false;
      if (!q) ref = ob.outcomes; else if (o.sameOutcome && ob.outcomes != ref) good = false;
    }
  }
  if (!good) { c.count("skipped_illconditioned"); return; }
  const Prog &p = G.p; const int n = p.n, m = p.m;
  auto B = ra::Basis::total(n, second ? 2 : 1);
  std::vector<Pat> J(3, Pat(m, std::vector<char>(n, 0))), H(3, Pat(n, std::vector<char>(n, 0)));
  Pat Ju = J[0], Hu = H[0];
  std::vector<std::vector<double>> yv(3);
  for (int q = 0; q < 3; ++q) {
    RefOut R = refTotal(p, *B, G.x[q]);
    if (!(R.maxabs < 1e7)) { c.count("skipped_illconditioned"); return; }
    const long double th = 1e-9L * (1 + R.maxabs);
    std::vector<int> e(n, 0);
    for (int i = 0; i < m; ++i) yv[q].push_back((double)R.y[i].c[0]);
    for (int j = 0; j < n; ++j) {
      e[j]++;
      int id1 = B->find(e);
      for (int i = 0; i < m; ++i) if (fabsl(R.y[i].c[id1]) > th) J[q][i][j] = Ju[i][j] = 1;
      if (second) for (int k = 0; k <= j; ++k) {
        e[k]++;
        int id2 = B->find(e);
        for (int i = 0; i < m; ++i) if (fabsl(R.y[i].c[id2]) > th) H[q][j][k] = H[q][k][j] = Hu[j][k] = Hu[k][j] = 1;
        e[k]--;
      }
      e[j]--;
    }
  }
  c.nontrivial(hmix(p.hash(), 2 * second + moving));
  if (c.idx < 40) c.sample(p.str());
  c.phase("record");
  const short id = createNewTape();
  at::record(p, G.x[0], id, g.in(0, 1), 0, g.chance(0.3) ? &g : nullptr);

  auto rows = [&](std::vector<uint *> &C, const Pat &want, int nc, const char *what, int q, Pat *got) {
    for (size_t i = 0; i < C.size(); ++i) {
      if (!C[i]) { c.violation(cat("malformed:", what), cat(what, " row ", i, " is null ", p.str())); continue; }
      std::vector<char> has(nc, 0); long last = -1;
      for (uint k = 1; k <= C[i][0]; ++k) {
        uint v = C[i][k];
        if (v >= (uint)nc || (long)v <= last) { c.violation(cat("malformed:", what), cat(what, " row ", i, " entry ", k, " of ", C[i][0], " is ", v, " after ", last, " (columns ", nc, ") ", p.str())); break; }
        last = v; has[v] = 1;
      }
      c.count("entries_reported", C[i][0]); if (C[i][0] > 20) c.count("rows_beyond_20");
      for (int j = 0; j < nc; ++j) if (want[i][j]) { c.count("nonzeros_checked"); if (!has[j]) { c.violation(cat("missing:", what), cat(what, " lacks [", i, "][", j, "] n=", n, " m=", m, " point=", q, " moving=", moving, " ", p.str())); } }
      if (got) (*got)[i] = has;
      delete[] C[i]; C[i] = nullptr;
    }
  };
  const char *mn[] = {"indopro_tight", "indopro_safe", "jac_pat_id_tight", "jac_pat_id_safe", "jac_pat_bp_tight_fwd", "jac_pat_bp_tight_rev", "jac_pat_bp_tight_auto", "jac_pat_bp_safe_fwd", "jac_pat_bp_safe_rev", "jac_pat_bp_safe_auto",
                      "int_forward_tight", "int_forward_safe", "int_reverse_tight", "int_reverse_safe", "nonl_tight", "nonl_safe", "hess_pat_tight", "hess_pat_safe", "hess_pat_old_tight", "hess_pat_old_safe"};
  Pat idTight[3], idSafe;
  const int reps = g.in(3, 10);
  for (int rep = 0; rep < reps; ++rep) {
    const int q = g.in(0, 2);
    std::vector<double> x = G.x[q];
    int w = g.in(0, second ? 19 : 13);
    if (m != 1 && w >= 16) w = g.in(14, 15);
    const bool safe = w == 1 || w == 3 || (w >= 7 && w <= 9) || w == 11 || w == 13 || w == 15 || w == 17 || w == 19;
    if (safe && subs) continue;
    const double *bx = safe && g.chance(0.3) && w != 8 && w != 9 ? nullptr : x.data();
    c.phase(cat(mn[w], " q=", q)); c.count(cat("mode_", mn[w]));
    int rc = 0;
    std::vector<uint *> C((size_t)(w >= 14 ? n : m), nullptr); std::span<uint *> sp(C);
    using CF = ControlFlowMode; using BD = BitPatternPropagationDirection;
    switch (w) {
    case 0: rc = indopro_forward_tight(id, m, n, x.data(), C.data()); break;
    case 1: rc = indopro_forward_safe(id, m, n, bx, C.data()); break;
    case 2: rc = jac_pat<SparseMethod::IndexDomains, CF::Tight>(id, m, n, x.data(), sp); break;
    case 3: rc = jac_pat<SparseMethod::IndexDomains, CF::Safe>(id, m, n, bx, sp); break;
    case 4: rc = jac_pat<SparseMethod::BitPattern, CF::Tight, BD::Forward>(id, m, n, x.data(), sp); break;
    case 5: rc = jac_pat<SparseMethod::BitPattern, CF::Tight, BD::Reverse>(id, m, n, x.data(), sp); break;
    case 6: rc = jac_pat<SparseMethod::BitPattern, CF::Tight>(id, m, n, x.data(), sp); break;
    case 7: rc = jac_pat<SparseMethod::BitPattern, CF::Safe, BD::Forward>(id, m, n, bx, sp); break;
    case 8: rc = jac_pat<SparseMethod::BitPattern, CF::Safe, BD::Reverse>(id, m, n, bx, sp); break;
    case 9: rc = jac_pat<SparseMethod::BitPattern, CF::Safe>(id, m, n, bx, sp); break;
    case 14: rc = nonl_ind_forward_tight(id, m, n, x.data(), C.data()); break;
    case 15: rc = nonl_ind_forward_safe(id, m, n, bx, C.data()); break;
    case 16: rc = hess_pat<CF::Tight>(id, n, x.data(), sp); break;
    case 17: rc = hess_pat<CF::Safe>(id, n, bx, sp); break;
    case 18: rc = hess_pat<CF::OldTight>(id, n, x.data(), sp); break;
    case 19: rc = hess_pat<CF::OldSafe>(id, n, bx, sp); break;
    default: {
      // packed seeds of 1..4 words
      const int W = 8 * (int)sizeof(bitword_t);
      const bool rev = w >= 12; const int ni = rev ? m : n, no = rev ? n : m;
      const bool ident = g.chance(0.4);
      const int P = ident ? (ni + W - 1) / W : g.in(1, 4);
      std::vector<bitword_t> X((size_t)(ni * P), 0), Y((size_t)(no * P), (bitword_t)0x5a5a);
      for (int i = 0; i < ni; ++i) for (int k = 0; k < P; ++k) {
        if (ident) X[i * P + k] = i / W == k ? (bitword_t)1 << (i % W) : 0;
        else X[i * P + k] = (bitword_t)(g.next() & g.next() & g.next());
      }
      // forward seeds are X[n][P], Y[m][P]; reverse seeds are U[P][m], Z[P][n]
      std::vector<bitword_t> XT((size_t)(ni * P)), YT((size_t)(no * P), (bitword_t)0x5a5a);
      for (int i = 0; i < ni; ++i) for (int k = 0; k < P; ++k) XT[(size_t)(k * ni + i)] = X[(size_t)(i * P + k)];
      std::vector<bitword_t *> px, py;
      if (rev) for (int k = 0; k < P; ++k) px.push_back(&XT[(size_t)(k * ni)]), py.push_back(&YT[(size_t)(k * no)]);
      else { for (int i = 0; i < ni; ++i) px.push_back(&X[(size_t)(i * P)]); for (int i = 0; i < no; ++i) py.push_back(&Y[(size_t)(i * P)]); }
      std::vector<double> y((size_t)m, 5.5);
      const bool cpp = g.chance(0.5);
      if (w == 10) { rc = cpp ? ADOLC::Sparse::forward<CF::Tight>(id, m, n, P, x.data(), px, y.data(), py) : int_forward_tight(id, m, n, P, x.data(), px.data(), y.data(), py.data());
        for (int i = 0; i < m; ++i) { c.count("values_compared"); if (!close(y[i], yv[q][i], 1e-8 * (1 + fabs(yv[q][i])))) c.violation("value:int_forward_tight", cat("y[", i, "]=", y[i], " want ", yv[q][i], " ", p.str())); } }
      else if (w == 11) rc = cpp ? ADOLC::Sparse::forward<CF::Safe>(id, m, n, P, px, py) : int_forward_safe(id, m, n, P, px.data(), py.data());
      else if (w == 12) { zos_forward(id, m, n, 1, x.data(), y.data()); rc = cpp ? ADOLC::Sparse::reverse<CF::Tight>(id, m, n, P, px, py) : int_reverse_tight(id, m, n, P, px.data(), py.data()); }
      else rc = cpp ? ADOLC::Sparse::reverse<CF::Safe>(id, m, n, P, px, py) : int_reverse_safe(id, m, n, P, px.data(), py.data());
      if (rev) for (int i = 0; i < no; ++i) for (int k = 0; k < P; ++k) Y[(size_t)(i * P + k)] = YT[(size_t)(k * no + i)];
      const Pat &S = safe ? Ju : J[q];
      for (int a = 0; a < no; ++a) for (int k = 0; k < P; ++k) {
        bitword_t need = 0;
        for (int b = 0; b < ni; ++b) if (rev ? S[b][a] : S[a][b]) need |= X[b * P + k];
        c.count("words_compared");
        if (need & ~Y[a * P + k]) c.violation(cat("missing:", mn[w]), cat(mn[w], " result ", a, " word ", k, " of ", P, " is ", (unsigned long)Y[a * P + k], " lacks ", (unsigned long)(need & ~Y[a * P + k]), " n=", n, " m=", m, " point=", q, " moving=", moving, " ", p.str()));
        if (k) c.count("second_words");
      }
    }
    }
    if (!(rc >= 0)) c.violation(cat("rc:", mn[w]), cat("rc=", rc, " q=", q, " ", p.str()));
    if (w < 10 || w >= 14) {
      Pat got(C.size());
      if (w >= 14) rows(C, safe ? Hu : H[q], n, mn[w], q, &got);
      else rows(C, safe ? Ju : J[q], n, mn[w], q, &got);
      if (w >= 14) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (got[i].size() && got[j].size() && got[i][j] != got[j][i]) { c.violation(cat("asymmetric:", mn[w]), cat("[", i, "][", j, "] ", p.str())); i = n; break; }
      if (w == 0 || w == 2) idTight[q] = got;
      if (w == 1 || w == 3) idSafe = got;
    }
  }
  if (!idSafe.empty()) for (auto &t : idTight) if (!t.empty()) { c.count("tight_in_safe"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (t[i].size() && idSafe[i].size() && t[i][j] && !idSafe[i][j]) { c.violation("tight_not_in_safe", cat("[", i, "][", j, "] ", p.str())); i = m; break; } }
}

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
