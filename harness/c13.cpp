// C13: replacing parameters equals recording anew with them.
#include "battery.h"
using namespace vh;
using namespace pg;

static bool isPar2(const Ins &I) { return (I.v & 128) && ((I.v & 127) == 39 || (I.v & 127) == 40); }
// values of all parameters in the order of their creation
static std::vector<double> paramsOf(const Prog &p) {
  std::vector<double> v;
  for (auto &I : p.code) if (I.op == PARAM) { v.push_back(I.k); if (isPar2(I)) v.push_back(0.5); }
  return v;
}
// taping chooses equivalent formulas by value (exp(x) or exp(-x) in cosh, ...): equal but for rounding
constexpr double TOL = 1e-8;
static bool outcomes(const Prog &p, const std::vector<std::vector<double>> &X, std::vector<std::vector<int>> &o) {
  o.clear();
  for (auto &x : X) { Obs ob; evald(p, x, &ob); if (ob.bad || !(ob.maxval < 1e3)) return false; o.push_back(ob.outcomes); }
  return true;
}
struct One { Prog p; std::vector<std::vector<double>> X; std::vector<std::vector<int>> o; short id; bt::Features f; };

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  std::vector<One> T;
  const int nt = g.in(1, 2);
  for (int t = 0; t < 300 && (int)T.size() < nt; ++t) {
    GenOpt o; o.lenmin = 3; o.lenmax = c.thorough ? 40 : 18; o.bulkmax = 6; o.maxval = 6; o.nmax = 4; o.points = 3; o.paramForms = true; o.paramBias = g.chance(0.5) ? 0.5 : 0.2;
    // pow(a,b) with active operands tapes its value at the taping point
    o.allow.assign(NOPS, true); o.allow[POWV] = false;
    Gen G = generate(g, o);
    One W; W.p = G.p; W.X = G.x;
    if (!G.p.m || paramsOf(G.p).empty() || !outcomes(G.p, G.x, W.o)) continue;
    bool same = true; for (auto &q : W.o) same &= q == W.o[0];
    if (!same) continue;
    W.f = bt::featuresOf(W.p); W.f.sparse = g.chance(0.4); W.f.dmax = 3;
    for (auto &I : W.p.code) if (I.op == PARAM && (I.v & 128)) { int v = I.v & 127; if (v >= 31 && v <= 40) W.f.ov = false; }
    T.push_back(W);
  }
  if (T.empty()) { c.count("skipped_ungenerated"); return; }
  std::string all; for (auto &W : T) all += W.p.str() + " | ";
  c.nontrivial(hmix(T[0].p.hash(), T.size() > 1 ? T[1].p.hash() : 1));
  if (c.idx < 40) c.sample(all);
  for (auto &W : T) {
    for (auto &I : W.p.code) if (I.op == PARAM) { c.count((I.v & 128) ? cat("form_", (I.v & 127)) : cat("plainform_", (I.v & 15) % 14)); }
    c.phase("record"); W.id = createNewTape(); at::record(W.p, W.X[0], W.id, g.in(0, 1), g.in(0, 1));
  }
  bool bad = false;
  auto compare = [&](One &W, const std::string &key, const std::string &hist) {
    c.phase("fresh"); const short f = createNewTape(); at::record(W.p, W.X[0], f, g.in(0, 1));
    const uint64_t seed = g.next();
    bt::Battery A(W.id, W.p.n, W.p.m, W.X, W.f, seed), B(f, W.p.n, W.p.m, W.X, W.f, seed);
    A.phase = B.phase = [&](const std::string &s) { c.phase(key + " " + s); };
    const int k = g.in(2, 6);
    for (int i = 0; i < k; ++i) { A.step(); B.step(); }
    // the values are those of the program with the new parameters
    for (auto &x : W.X) {
      std::vector<double> y(W.p.m), want = evald(W.p, x); zos_forward(W.id, W.p.m, W.p.n, 0, x.data(), y.data());
      for (int i = 0; i < W.p.m; ++i) { c.count("values_compared"); if (!(fabs(y[i] - want[i]) <= 1e-9 * (1 + fabs(want[i]))) && !bad) { bad = true; c.violation("value:" + key, cat("y[", i, "] ", y[i], " want ", want[i], " after ", hist, " ", W.p.str())); } }
    }
    std::string why; c.count("numbers_compared", (long)A.log.size());
    for (auto &q : A.calls) c.count("call_" + q.first, q.second);
    if (!bt::sameLog(A, B, why, TOL) && !bad) { bad = true; c.violation(key, cat(why, " after ", hist, " ", W.p.str())); }
    setCurrentTape(W.id);
  };
  std::string hist = "record";
  const int steps = g.in(2, 5);
  for (int s = 0; s < steps && !bad; ++s) {
    const size_t w = (size_t)g.in(0, (int)T.size() - 1); One &W = T[w];
    if (g.chance(0.15)) { hist += cat(", re-record tape ", w); c.count("rerecorded"); c.phase("re-record"); at::record(W.p, W.X[0], W.id, g.in(0, 1), g.in(0, 1)); }
    if (g.chance(0.3)) { // a pending forward sweep with the old parameters
      c.phase("pending"); std::vector<double> y(W.p.m); zos_forward(W.id, W.p.m, W.p.n, 1, W.X[0].data(), y.data()); hist += ", zos_forward keep"; }
    Prog np; bool ok = false; std::vector<std::vector<int>> o;
    for (int t = 0; t < 30 && !ok; ++t) {
      np = W.p; const double amp = t < 10 ? 1.0 : t < 20 ? 0.2 : 0.01;
      for (auto &I : np.code) if (I.op == PARAM && !g.chance(0.3)) I.k = g.chance(0.1) ? -I.k : I.k + amp * g.num();
      ok = outcomes(np, W.X, o) && o == W.o;
    }
    if (!ok) { np = W.p; c.count("same_parameters"); } else c.count("changed_parameters");
    W.p = np; auto v = paramsOf(np); c.phase("set_param_vec");
    hist += cat(", set_param_vec(tape ", w, ")");
    findTape(W.id).set_param_vec(W.id, v.size(), v.data()); c.count("updates");
    for (auto &d : v) d = std::nan(""); // the library must have copied them
    if (g.chance(0.15)) { v = paramsOf(np); findTape(W.id).set_param_vec(W.id, v.size(), v.data()); }
    compare(W, "after_set_param_vec", hist);
    if (T.size() > 1 && g.chance(0.5)) { c.count("other_tape_checked"); compare(T[1 - w], "other_tape", hist); }
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
