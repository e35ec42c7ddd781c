// C24: evaluating is repeatable, leaves inputs and tape unchanged, and does not depend on what outputs held before.
#include "battery.h"
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/psdrivers.h>
using namespace vh;
using namespace pg;
struct Full : bt::Battery {
  bool abs = false; int nsw = 0;
  using Battery::Battery;
  void fullStep() {
    // the base battery also covers the reverse sweeps of what was kept
    if (kept > 0 || g.chance(0.6)) { step(); return; }
    extra();
  }
  void extra() {
    using namespace at;
    const std::vector<double> x0 = g.pick(pts);
    std::vector<double> x = x0, y((size_t)m, dirt); INP(x);
    kept = 0; ovKept = false;
    const int w = g.in(0, abs ? 29 : 19), s = nsw, q = g.in(1, 4);
    std::vector<double> z((size_t)s + 1, dirt);
    switch (w) {
    case 0: if (f.ho && m == 1) { std::vector<double> v((size_t)n), r((size_t)n, dirt); for (auto &t : v) t = g.num(); INP(v); mark("hess_vec"); put(hess_vec(id, n, x.data(), v.data(), r.data())); put(r); } break;
    case 1: if (f.ho && f.ov && m == 1) { Mat V((size_t)n, (size_t)q), W((size_t)n, (size_t)q, dirt); for (auto &t : V.d) t = g.num(); IND(V); mark("hess_mat"); put(hess_mat(id, n, q, x.data(), V.ptr(), W.ptr())); for (size_t k = 0; k < (size_t)(n * q); ++k) put(W.d[k]); } break;
    case 2: { Mat J((size_t)m, (size_t)n, dirt); mark("large_jacobian"); put(large_jacobian(id, m, n, g.in(1, n + 1), x.data(), y.data(), J.ptr())); put(y); J.d.pop_back(); put(J.d); } break;
    case 3: case 4: if (m == n && f.ho) {
        const int d = g.in(1, 4); Mat X((size_t)n, (size_t)d + 1, dirt); for (int i = 0; i < n; ++i) X[(size_t)i][0] = x[(size_t)i];
        const double tau = g.chance(0.5) ? 1 : g.uni(0.3, 2); mark(cat("forode d=", d)); put(forode(id, n, tau, 0, d, X.ptr())); X.d.pop_back(); put(X.d);
        for (int i = 0; i < n; ++i) put(X[(size_t)i][0] == x[(size_t)i]);
        // the partial Jacobians, then the total ones
        Mat I((size_t)n, (size_t)n); for (int i = 0; i < n; ++i) I[(size_t)i][i] = 1;
        Mat Xk((size_t)n, (size_t)d), Yk((size_t)n, (size_t)d, dirt); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) Xk[(size_t)i][j] = X[(size_t)i][j + 1];
        std::vector<double> xx = x; hos_forward(id, n, n, d, d, xx.data(), Xk.ptr(), y.data(), Yk.ptr());
        Ten A((size_t)n, (size_t)n, (size_t)d, 0), B((size_t)n, (size_t)n, (size_t)d, dirt); std::vector<std::vector<short>> nzd((size_t)n, std::vector<short>((size_t)n, (short)dirtBits)); std::vector<short *> nz; for (auto &r : nzd) nz.push_back(r.data());
        mark(cat("hov_reverse/I d=", d)); put(hov_reverse(id, n, n, d - 1, n, I.ptr(), A.ptr(), nz.data())); A.d.back() = 0; put(A.d);
        // documented: accode may leave scratch in A?  A is the input, so it must not
        const bool wnz = g.chance(0.5); IND(A); mark(cat("accode d=", d)); accode(n, tau, d - 1, A.ptr(), B.ptr(), wnz ? nz.data() : nullptr); B.d.pop_back(); put(B.d);
      } break;
    case 5: case 6: if (m == n && f.ho) {
        const int d = g.in(1, 3), p = g.in(1, 2); long dim = binomi((size_t)(p + d), (size_t)d);
        Mat T((size_t)n, (size_t)dim, dirt), S((size_t)n, (size_t)p); for (auto &t : S.d) t = g.num(); IND(S);
        mark("inverse_tensor_eval"); put(inverse_tensor_eval(id, n, d, p, x.data(), T.ptr(), S.ptr())); T.d.pop_back(); put(T.d); } break;
    case 7: if (f.ho) {
        const int d = g.in(1, 3), p = g.in(1, 2); long dim = binomi((size_t)(p + d), (size_t)d);
        Mat T((size_t)m, (size_t)dim, dirt), S((size_t)n, (size_t)p); for (auto &t : S.d) t = g.num(); IND(S);
        mark("tensor_eval"); put(tensor_eval(id, m, n, d, p, x.data(), T.ptr(), S.ptr())); T.d.pop_back(); put(T.d);
        T.d.push_back(0); IND(T); std::vector<int> mi((size_t)d); int left = p; (void)left; for (auto &t : mi) t = g.in(0, p); INP(mi); mark("tensor_value"); tensor_value(d, m, y.data(), T.ptr(), mi.data()); put(y); } break;
    case 8: if (m == n) {
        std::vector<double> b((size_t)n); for (auto &t : b) t = g.num(); mark("jac_solv"); const int mode = g.in(1, 2); put(jac_solv((unsigned short)id, n, x.data(), b.data(), (unsigned short)mode) < 0); put(b); if (mode < 2) { for (auto &t : b) t = g.num(); put(jac_solv((unsigned short)id, n, x.data(), b.data(), 2) < 0); put(b); } } break;
    case 9: case 10: { const int d = f.ho ? g.in(0, 3) : 0, k = g.in(0, d + 1); Mat X((size_t)n, (size_t)d + 1), Y((size_t)m, (size_t)d + 1, dirt); for (auto &t : X.d) t = g.num(); for (int i = 0; i < n; ++i) X[(size_t)i][0] = x[(size_t)i]; IND(X);
        mark(cat("forward(X,Y) d=", d, " keep=", k)); put(forward(id, m, n, d, k, X.ptr(), Y.ptr())); Y.d.pop_back(); put(Y.d); kept = k; } break;
    case 11: if (f.ho) { const int d = g.in(1, 3); Ten X((size_t)n, (size_t)q, (size_t)d), Y((size_t)m, (size_t)q, (size_t)d, dirt); for (auto &t : X.d) t = g.num(); IND(X); mark("forward(hov)"); put(forward(id, m, n, d, q, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); Y.d.pop_back(); put(Y.d); } break;
    case 12: { Mat X((size_t)n, (size_t)q), Y((size_t)m, (size_t)q, dirt); for (auto &t : X.d) t = g.num(); IND(X); mark("forward(fov)"); put(forward(id, m, n, q, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); Y.d.pop_back(); put(Y.d); } break;
    case 13: { std::vector<double> u((size_t)m), r((size_t)n, dirt); for (auto &t : u) t = g.num(); INP(u); mark("vec_jac repeat"); put(vec_jac(id, m, n, 0, x.data(), u.data(), r.data())); put(r); for (auto &t : r) t = dirt; put(vec_jac(id, m, n, 1, x.data(), u.data(), r.data())); put(r); } break;
#ifdef ADOLC_SPARSE
    case 14: case 15: if (f.sparse && f.safe) { // the traditional interfaces
        std::vector<uint *> C((size_t)m, nullptr); int o[3] = {g.in(0, 1), g.in(0, 1), g.in(0, 2)}; if (o[0] == 0) o[2] = 0; mark(cat("jac_pat C ", o[0], o[1], o[2])); put(jac_pat(id, m, n, x.data(), C.data(), o)); pats(C); } break;
    case 16: if (f.sparse && f.ho && m == 1 && f.safe) { std::vector<uint *> C((size_t)n, nullptr); mark("hess_pat C"); put(([&] { int op[1] = {g.in(0, 1)}; return hess_pat(id, n, x.data(), C.data(), op); })()); pats(C); } break;
#endif
    case 17: { mark("tapestats"); auto a = tapestats(id); for (size_t k = 0; k < a.size(); ++k) if (k != (size_t)3) put((double)a[k]); } break;
    case 18: case 19: { std::vector<double> p(1); mark("function"); put(function(id, m, n, x.data(), y.data())); put(y); } break;
    case 20: mark("zos_pl_forward"); put(zos_pl_forward(id, m, n, g.in(0, 1), x.data(), y.data(), z.data())); put(y); z.pop_back(); put(z); break;
    case 21: { std::vector<double> v((size_t)n), Y((size_t)m, dirt), Z((size_t)s, dirt); for (auto &t : v) t = g.num(); INP(v); mark("fos_pl_forward"); put(fos_pl_forward(id, m, n, x.data(), v.data(), y.data(), Y.data(), z.data(), Z.data())); put(y); put(Y); z.pop_back(); put(z); put(Z); } break;
    case 22: { Mat V((size_t)n, (size_t)q), Y((size_t)m, (size_t)q, dirt), Z((size_t)s, (size_t)q, dirt); std::vector<short> sg((size_t)s + 1, (short)dirtBits); for (auto &t : V.d) t = g.num(); IND(V); mark("fov_pl_forward"); put(fov_pl_forward(id, m, n, q, x.data(), V.ptr(), y.data(), Y.ptr(), z.data(), Z.ptr(), sg.data())); put(y); Y.d.pop_back(); put(Y.d); z.pop_back(); put(z); Z.d.pop_back(); put(Z.d); sg.pop_back(); for (short t : sg) put(t); } break;
    case 23: case 24: { std::vector<double> v((size_t)n), Y((size_t)m, dirt), Z((size_t)s, dirt); std::vector<short> s0((size_t)s), s1((size_t)s + 1, (short)dirtBits); for (auto &t : v) t = g.num(); for (auto &t : s0) t = (short)(2 * g.in(0, 1) - 1); INP(v); INP(s0); mark("fos_pl_sig_forward");
        put(fos_pl_sig_forward(id, m, n, x.data(), v.data(), s, s0.data(), nullptr, y.data(), Y.data(), z.data(), Z.data(), s1.data())); put(y); put(Y); z.pop_back(); put(z); put(Z); s1.pop_back(); for (short t : s1) put(t); } break;
    case 25: { std::vector<double> u((size_t)m), us((size_t)s), r((size_t)n, dirt), rs((size_t)s, dirt); for (auto &t : u) t = g.num(); for (auto &t : us) t = g.num(); INP(u); INP(us); zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data()); mark("fos_pl_reverse"); put(fos_pl_reverse(id, m, n, s, u.data(), us.data(), r.data(), rs.data())); put(r); put(rs); } break;
    case 26: { Mat U((size_t)q, (size_t)m), V((size_t)q, (size_t)s), R((size_t)q, (size_t)n, dirt), W((size_t)q, (size_t)s, dirt); for (auto &t : U.d) t = g.num(); for (auto &t : V.d) t = g.num(); IND(U); IND(V); zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data()); mark("fov_pl_reverse"); put(fov_pl_reverse(id, m, n, s, q, U.ptr(), V.ptr(), R.ptr(), W.ptr())); R.d.pop_back(); put(R.d); W.d.pop_back(); put(W.d); } break;
    case 27: { std::vector<double> u((size_t)m), r((size_t)n, dirt); std::vector<short> sg((size_t)s); for (auto &t : u) t = g.num(); for (auto &t : sg) t = (short)(2 * g.in(0, 1) - 1); INP(u); INP(sg); zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data()); mark("fos_pl_sig_reverse"); put(fos_pl_sig_reverse(id, m, n, s, sg.data(), u.data(), r.data())); put(r); } break;
    default: { Mat Y((size_t)m, (size_t)n, dirt), J((size_t)m, (size_t)s, dirt), Z((size_t)s, (size_t)n, dirt), L((size_t)s, (size_t)s, dirt); mark("abs_normal"); put(abs_normal(id, m, n, s, x.data(), y.data(), z.data(), Y.ptr(), J.ptr(), Z.ptr(), L.ptr())); put(y); z.pop_back(); put(z); for (Mat *M : {&Y, &J, &Z, &L}) { M->d.pop_back(); put(M->d); } } break;
    }
  }
};
static bool outcomes(const Prog &p, const std::vector<std::vector<double>> &X, std::vector<std::vector<int>> &o) {
  o.clear();
  for (auto &x : X) { Obs ob; evald(p, x, &ob); if (ob.bad || !(ob.maxval < 1e3)) return false; o.push_back(ob.outcomes); }
  return true;
}
struct One { Prog p; std::vector<std::vector<double>> X; short id; bt::Features f; bool abs = false; int nsw = 0; };
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  std::vector<One> T;
  for (int t = 0; t < 300 && (int)T.size() < 2; ++t) {
    GenOpt o; o.lenmin = 3; o.lenmax = c.thorough ? 50 : 22; o.bulkmax = g.chance(0.2) ? 60 : 8; o.maxval = 6; o.nmax = 5; o.points = 4; o.paramForms = g.chance(0.3);
    if (g.chance(0.3)) o.mmin = o.mmax = o.nmin = o.nmax = g.in(1, 4);
    o.allow.assign(NOPS, true); if (g.chance(0.5)) o.allow[CBRT] = false; if (g.chance(0.5)) o.allow[FMIN] = o.allow[FMAX] = false;
    Gen G = generate(g, o);
    One W; W.p = G.p; W.X = G.x;
    std::vector<std::vector<int>> oc;
    if (!G.p.m || !outcomes(G.p, G.x, oc)) continue;
    bool same = true; for (auto &q : oc) same &= q == oc[0];
    if (!same) continue;
    W.f = bt::featuresOf(W.p); W.f.dmax = 4;
    T.push_back(W);
  }
  if (T.size() < 2) { c.count("skipped_ungenerated"); return; }
  c.nontrivial(hmix(T[0].p.hash(), T[1].p.hash()));
  if (c.idx < 40) c.sample(T[0].p.str());
  for (auto &W : T) {
    c.phase("record"); W.id = createNewTape(); setCurrentTape(W.id); W.abs = g.chance(0.5); if (W.abs) currentTape().enableMinMaxUsingAbs();
    at::record(W.p, W.X[0], W.id, g.in(0, 1), g.in(0, 1));
    setCurrentTape(W.id); if (W.abs) { W.nsw = (int)get_num_switches(W.id); }
  }
  One &W = T[0];
  if (c.verbose) fprintf(stderr, "%s\n", W.p.str().c_str());
  const int len = g.in(3, 14);
  const uint64_t seed = g.next();
  auto make = [&](One &Q, uint64_t sd) { auto b = std::make_unique<Full>(Q.id, Q.p.n, Q.p.m, Q.X, Q.f, sd); b->abs = Q.abs; b->nsw = Q.nsw; return b; };
  auto st0 = tapestats(W.id);
  auto inputsOk = [&](Full &b, const char *who) { c.count("inputs_checked", b.inputsChecked); for (auto &s : b.changedInputs) { c.violation(cat("input_changed:", s), cat(s, " (", who, ") in ", W.p.str())); break; } b.changedInputs.clear(); };
  // the plain history
  auto A = make(W, seed); A->phase = [&](const std::string &s) { c.phase("A " + s); };
  for (int i = 0; i < len; ++i) A->fullStep();
  inputsOk(*A, "plain");
  // the same history with other contents of outputs, other evaluations in between, every call repeated
  auto B = make(W, seed); B->phase = [&](const std::string &s) { c.phase("B " + s); };
  auto N = make(W, g.next()), O = make(T[1], g.next()); N->phase = O->phase = [&](const std::string &s) { c.phase("between " + s); };
  static const double dirts[] = {NAN, INFINITY, -1e300, 0.0, 5e-324, 3.25};
  const int style = g.in(1, 7); // 1 dirt 2 repeats 4 noise
  for (int i = 0; i < len; ++i) {
    if (style & 1) { B->dirt = dirts[g.in(0, 5)]; B->dirtBits = (bitword_t)g.next(); }
    if (style & 4) {
      for (int k = g.in(0, 3); k > 0; --k) {
        if (g.chance(0.5)) { N->dirt = dirts[g.in(0, 5)]; O->fullStep(); c.count("evaluations_of_other_tape"); }
        else if (B->kept == 0) { N->fullStep(); N->kept = 0; N->ovKept = false; c.count("evaluations_between"); }
      }
    }
    const Rng g0 = B->g; const int k0 = B->kept, np0 = B->np; const bool ov0 = B->ovKept; const size_t l0 = B->log.size();
    B->fullStep();
    const bool wasRev = B->marks.size() && B->marks.back().second.find("reverse") != std::string::npos;
    if ((style & 2) && g.chance(0.7) && (k0 == 0 || wasRev)) {
      const size_t l1 = B->log.size(), m1 = B->marks.size();
      const Rng g1 = B->g; const int k1 = B->kept, np1 = B->np; const bool ov1 = B->ovKept;
      B->g = g0; B->kept = k0; B->np = np0; B->ovKept = ov0; B->dirt = dirts[g.in(0, 5)];
      B->fullStep(); c.count("calls_repeated");
      bool ok = B->log.size() == 2 * l1 - l0;
      size_t at = 0;
      for (size_t k = 0; ok && k < l1 - l0; ++k) if (!biteq(B->log[l0 + k], B->log[l1 + k])) { ok = false; at = k; }
      if (!ok) { c.violation(cat("repeat:", B->marks.empty() ? "" : B->marks[m1 - 1].second.substr(0, B->marks[m1 - 1].second.find(' '))), cat("repeated call: ", B->at(l0 + at), " ", B->log.size() > l1 + at ? B->log[l1 + at] : -1, " after ", B->log[l0 + at], " in ", W.p.str())); return; }
      B->log.resize(l1); B->marks.resize(m1); B->g = g1; B->kept = k1; B->np = np1; B->ovKept = ov1;
    }
  }
  inputsOk(*B, "again"); inputsOk(*N, "between"); inputsOk(*O, "other");
  for (auto &q : B->calls) c.count(cat("call_", q.first), q.second);
  for (auto &q : N->calls) c.count(cat("between_", q.first), q.second);
  if (style & 1) c.count("histories_with_dirty_outputs"); 
  if (W.nsw) c.count("tapes_with_switches");
  std::string why; c.count("numbers_compared", (long)A->log.size());
  if (!bt::sameLog(*A, *B, why)) c.violation(cat("differs:", why.substr(0, why.find_first_of(" :"))), cat("style ", style, " ", why, " in ", W.p.str()));
  auto st1 = tapestats(W.id);
  // the size of the Taylor stack is that of the last sweep that kept
  for (size_t k = 0; k < st0.size(); ++k) if (k != (size_t)3 && st0[k] != st1[k]) { c.violation(cat("tapestats:", k), cat(st0[k], " ", st1[k])); break; }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
