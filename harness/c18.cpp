// C18: checkpointed time stepping: same final states and derivatives as the
// loop written out, with a valid and optimal revolve schedule.
#include "adtape.h"
#include <adolc/checkpointing.h>
#include <adolc/revolve.h>
#include <deque>
#include <map>
#include <memory>
using namespace vh;
using namespace pg;
using namespace at;
using ra::TPL;

// ---- part A: the schedule ---------------------------------------------------
static double optimal(int steps, int snaps) { // minimal number of forward steps
  int r = 0; double range = 1;
  while (range < steps) { ++r; range = range * (r + snaps) / r; }
  double b = 1; // beta(snaps+1, r-1) = C(snaps+r, r-1)
  if (r == 0) return 0;
  for (int i = 1; i <= r - 1; ++i) b = b * (snaps + 1 + i) / i;
  return (double)r * steps - std::round(b);
}
static void schedule(Ctx &c, int steps, int snaps, int online) {
  // the driver of a time loop; monitors what is asked for
  std::vector<int> stack, st; int check = -1, capo = 0, fine = online ? std::min(steps, 2) : steps, info = 0, pos = 0, next = -1, cur = 0; long adv = 0, shots = 0, guard = 0;
  bool turned = false;
  auto bad = [&](const char *k, const std::string &m) { c.violation(k, cat("revolve with ", steps, " steps, ", snaps, " snapshots", online ? " (steps announced late)" : "", ": ", m)); };
  int stored[ADOLC_CHECKUP];
  for (int i = 0; i < ADOLC_CHECKUP; ++i) stored[i] = -1;
  for (;; ++guard) {
    if (guard > 400000) { bad("endless", "does not terminate"); return; }
    if (online && !turned && fine < steps && fine - capo <= 1) fine = std::min(steps, fine + online);
    const int old = capo;
    const revolve_action a = revolve(&check, &capo, &fine, snaps, &info);
    if (a == revolve_error) { if (online && (info == 13 || info == 11)) { c.count("online_refused"); return; } bad("error", cat("error ", info)); return; }
    if (a == revolve_terminate) break;
    if (a == revolve_takeshot) {
      ++shots;
      if (check < 0 || check >= snaps) { bad("snapshots", cat("checkpoint slot ", check)); return; }
      if (capo != pos) { bad("takeshot", cat("stores state ", capo, " while the model is at ", pos)); return; }
      stored[check] = pos;
      stack.resize((size_t)check); stack.push_back(pos); cur = pos;
      if ((int)stack.size() > snaps) { bad("snapshots", "more checkpoints than allowed"); return; }
    } else if (a == revolve_advance) {
      if (capo <= old || capo >= fine + 1 || old != pos) { bad("advance", cat("from ", old, " (model at ", pos, ") to ", capo, " of ", fine)); return; }
      adv += capo - pos; pos = capo;
    } else if (a == revolve_restore) {
      if (check < 0 || check >= (int)stack.size() || stored[check] != capo) { bad("restore", cat("restores state ", capo, " from slot ", check, " that holds ", check >= 0 && check < ADOLC_CHECKUP ? stored[check] : -1)); return; }
      pos = capo;
    } else if (a == revolve_firsturn) {
      if (turned) { bad("firsturn", "twice"); return; }
      if (pos != steps - 1) { bad("firsturn", cat("at state ", pos)); return; }
      turned = true; next = steps - 2;
    } else if (a == revolve_youturn) {
      if (!turned || pos != next || capo != next) { bad("youturn", cat("reverses step ", pos, " when ", next, " is due")); return; }
      --next;
    }
  }
  (void)cur;
  if (!turned || next != -1) { bad("incomplete", cat("steps down to ", next + 1, " only")); return; }
  const double opt = optimal(steps, snaps);
  if (!online && (double)adv != opt) bad("optimal", cat(adv, " forward steps, minimum ", opt));
  if (!online && steps <= 40 && snaps <= 8) { // the closed form against the recurrence
    static thread_local std::map<int, std::vector<double>> D;
    auto &d = D[snaps];
    if (d.empty()) {
      std::vector<std::vector<double>> t((size_t)snaps + 1, std::vector<double>(41, 0));
      for (int l = 1; l <= 40; ++l) t[1][(size_t)l] = l * (l - 1) / 2.0;
      for (int s = 2; s <= snaps; ++s) for (int l = 2; l <= 40; ++l) { double m = 1e300; for (int k = 1; k < l; ++k) m = std::min(m, k + t[(size_t)s - 1][(size_t)(l - k)] + t[(size_t)s][(size_t)k]); t[(size_t)s][(size_t)l] = m; }
      d = t[(size_t)snaps];
    }
    if (d[(size_t)steps] != opt) { bad("oracle", "closed form differs from recurrence"); }
  }
  c.count(online ? "schedules_online" : "schedules"); c.count("schedule_advances", adv); c.count("schedule_snapshots", shots); c.count("schedule_youturns", steps - 1);
}
static void partA(Ctx &c) {
  Rng &g = c.rng;
  if ((c.idx / 4) % 2 == 0) { // every number of snapshots for one number of steps
    const int steps = (int)((c.idx / 8) % (c.thorough ? 1200 : 330)) + 1;
    for (int s = 1; s <= 64; ++s) { if (steps > 64 && s == 1) continue; schedule(c, steps, s, 0); }
    c.count("step_counts");
    c.nontrivial((uint64_t)steps);
  } else {
    for (int k = 0; k < 6; ++k) {
      const int snaps = g.in(1, 64), steps = g.in(1, snaps == 1 ? 60 : snaps == 2 ? 1500 : 6000);
      schedule(c, steps, snaps, 0);
      schedule(c, g.in(1, 120), g.in(2, 64), g.in(1, 9));
      c.nontrivial(hmix((uint64_t)steps, (uint64_t)snaps));
    }
  }
}
// ---- part B: checkpointed loops inside programs -------------------------------
constexpr int NSLOT = 4;
struct Step { int dim = 1, kind = 0; bool branch = false; double thr = 0; bool ext = false; /* depends on a counter of its own */ bool retape = false; double a[8] = {}, b[8] = {}; };
struct Mon {
  Ctx *c = nullptr;
  Step S[NSLOT];
  int t[NSLOT] = {};            // the non-adouble state: number of the step
  long dcalls = 0, acalls = 0, saves = 0, restores = 0;
  double nearTie = 1e300;
  bool log = false; std::vector<std::pair<int, std::vector<double>>> alog, dlog; // (slot, state)
};
static thread_local Mon *M = nullptr;
template <class T> void stepBody(const Step &s, int t, T *x) {
  using std::cos; using std::sin; using std::tanh; using std::exp;
  std::vector<T> y; const int d = s.dim;
  for (int i = 0; i < d; ++i) {
    const T &u = x[i], &v = x[(i + 1) % d];
    T r = u * 0.4;
    switch (s.kind) {
    case 0: r += sin(u + v * s.a[i]) * s.b[i]; break;
    case 1: r = r + tanh(u * v) * s.b[i] + s.a[i]; break;
    case 2: r += u / (v * v + 1.5) * s.b[i]; r -= cos(v) * s.a[i]; break;
    default: r = u * s.b[i] + v * s.a[i] * 0.5; break;
    }
    if (s.ext) r += v * (0.3 * std::cos(1.0 + 0.7 * t + i));
    if (s.branch && i == 0) { if (x[0] > s.thr) r = r * 0.8 + sin(v) * 0.3; else r = r - v * 0.2; }
    y.push_back(r);
  }
  for (int i = 0; i < d; ++i) x[i] = y[(size_t)i];
}
template <int K> int stepD(size_t n, double *x) {
  Mon &m = *M; if ((int)n != m.S[K].dim) m.c->violation("dim", cat("step function called with ", n));
  if (m.log) m.dlog.emplace_back(K * 100000 + m.t[K], std::vector<double>(x, x + n));
  stepBody<double>(m.S[K], m.t[K], x); ++m.t[K]; ++m.dcalls; return 0;
}
template <int K> int stepA(size_t n, adouble *x) {
  Mon &m = *M; if ((int)n != m.S[K].dim) m.c->violation("dim", cat("step function called with ", n));
  if (m.log) { std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(x[i].value()); m.alog.emplace_back(K * 100000 + m.t[K], v); }
  stepBody<adouble>(m.S[K], m.t[K], x); ++m.t[K]; ++m.acalls; return 0;
}
template <int K> void *saveS() { ++M->saves; double *p = new double[2]; p[0] = M->t[K]; p[1] = K; return p; }
template <int K> void restS(void *q) { double *p = (double *)q; if (p[1] != K) M->c->violation("restore_slot", "foreign data restored"); M->t[K] = (int)p[0]; ++M->restores; }
static ADOLC::CP::TimeStepFunction *const FA[NSLOT] = {stepA<0>, stepA<1>, stepA<2>, stepA<3>};
static ADOLC::CP::TimeStepFunctionDouble *const FD[NSLOT] = {stepD<0>, stepD<1>, stepD<2>, stepD<3>};
static ADOLC::CP::SaveFunction *const FS[NSLOT] = {saveS<0>, saveS<1>, saveS<2>, saveS<3>};
static ADOLC::CP::RestoreFunction *const FR[NSLOT] = {restS<0>, restS<1>, restS<2>, restS<3>};

struct Spec { int slot = 0, steps = 1, cps = 1; bool inplace = false, pre = false, post = false, persist = false, newctx = false; std::vector<int> in, out; };
struct Loop { int spec; std::vector<std::vector<double>> traj; }; // states 0..N
struct World {
  std::deque<Spec> S; std::vector<Loop> loops; // of the reference run
  bool logRef = false;
  double tie = 1e300;
};
static thread_local World *W = nullptr;
template <class T> double numOf(const T &v) { return (double)valOf(v); }
template <class T> void refLoop(const Spec &s, std::vector<T> &r) {
  const Step &S = M->S[s.slot];
  std::vector<T> x; for (int i : s.in) x.push_back(r[(size_t)i]);
  if (s.pre) for (int i = 0; i < S.dim; ++i) x[(size_t)i] = x[(size_t)i] * sin(x[(size_t)((i + 1) % S.dim)]);
  std::vector<T> x0 = x; Loop L; L.spec = -1;
  auto snap = [&] { std::vector<double> v; for (auto &q : x) v.push_back(numOf(q)); L.traj.push_back(v); };
  for (int k = 0; k < s.steps; ++k) { snap(); if (S.branch) W->tie = std::min(W->tie, std::fabs(numOf(x[0]) - S.thr)); stepBody<T>(S, k, x.data()); }
  snap();
  if (W->logRef) { for (size_t i = 0; i < W->S.size(); ++i) if (&W->S[i] == &s) L.spec = (int)i; W->loops.push_back(L); }
  for (int i = 0; i < S.dim; ++i) { if (s.post) x[(size_t)i] = x[(size_t)i] + (s.inplace ? x[(size_t)i] : x0[(size_t)i]) * 0.25; }
  for (int i = 0; i < S.dim; ++i) r[(size_t)s.out[(size_t)i]] = x[(size_t)i];
}
// contexts of one tape
struct Rec { short T = -1; short chk[NSLOT]; std::unique_ptr<ADOLC::CP::Context> ctx[NSLOT]; std::deque<std::unique_ptr<ADOLC::CP::Context>> more; std::vector<std::unique_ptr<std::vector<adouble>>> arr; };
static thread_local Rec *R_ = nullptr;
static std::unique_ptr<std::vector<adouble>> arr(size_t k) { currentTape().ensureContiguousLocations(k); auto v = std::make_unique<std::vector<adouble>>(); v->reserve(k); for (size_t i = 0; i < k; ++i) v->emplace_back(); return v; }
static void setup(ADOLC::CP::Context &x, const Spec &s, adouble *in, adouble *out) {
  const Step &S = M->S[s.slot];
  x.setDoubleFct(FD[s.slot]); if (S.ext) { x.setSaveFct(FS[s.slot]); x.setRestoreFct(FR[s.slot]); }
  x.setNumberOfSteps(s.steps); x.setNumberOfCheckpoints(s.cps); x.setDimensionXY(S.dim); x.setInput(in); x.setOutput(out); x.setAlwaysRetaping(S.retape);
}
static void adLoop(const Spec &s, std::vector<adouble> &r) {
  const Step &S = M->S[s.slot]; Rec &q = *R_; const size_t d = (size_t)S.dim;
  adouble *X, *Y; std::unique_ptr<std::vector<adouble>> o1, o2;
  if (s.persist) { const size_t k = (size_t)s.slot * 2; while (q.arr.size() <= k + 1) q.arr.push_back(arr(4)); X = q.arr[k]->data(); Y = q.arr[k + 1]->data(); }
  else { o1 = arr(d); X = o1->data(); o2 = arr(d); Y = o2->data(); }
  if (s.inplace) Y = X;
  for (size_t i = 0; i < d; ++i) X[i] = r[(size_t)s.in[i]];
  if (s.pre) for (size_t i = 0; i < d; ++i) X[i] *= sin(X[(i + 1) % d]);
  ADOLC::CP::Context *x;
  if (s.newctx) { q.more.push_back(std::make_unique<ADOLC::CP::Context>(q.T, q.chk[s.slot], FA[s.slot])); x = q.more.back().get(); }
  else { if (!q.ctx[s.slot]) q.ctx[s.slot] = std::make_unique<ADOLC::CP::Context>(q.T, q.chk[s.slot], FA[s.slot]); x = q.ctx[s.slot].get(); }
  setup(*x, s, X, Y);
  M->t[s.slot] = 0;
  x->checkpointing(q.T);
  if (s.post) for (size_t i = 0; i < d; ++i) { adouble t = X[i] * 0.25; r[(size_t)s.out[i]] = Y[i] + t; } // results distinct registers
  else for (size_t i = 0; i < d; ++i) r[(size_t)s.out[i]] = Y[i];
}
static void partB(Ctx &c) {
  Rng &g = c.rng;
  World w; W = &w; Mon m; M = &m; m.c = &c;
  const int maxSteps = c.thorough ? 90 : 40;
  for (auto &S : m.S) { S.dim = g.in(1, 4); S.kind = g.in(0, 3); S.branch = g.chance(0.3); S.thr = g.uni(-0.3, 0.6); S.ext = g.chance(0.3); S.retape = S.ext || g.chance(0.3); for (double &v : S.a) v = g.uni(-0.6, 0.6); for (double &v : S.b) v = g.uni(-0.7, 0.7); }
  extFn<double> = [&](const Ins &I, std::vector<double> &r) { refLoop<double>(w.S[(size_t)I.n], r); if (obs) for (int q : w.S[(size_t)I.n].out) obs->val(r[(size_t)q]); if (obs) for (int q : w.S[(size_t)I.n].in) obs->val(r[(size_t)q]); };
  extFn<TPL> = [&](const Ins &I, std::vector<TPL> &r) { refLoop<TPL>(w.S[(size_t)I.n], r); };
  extFn<adouble> = [&](const Ins &I, std::vector<adouble> &r) { adLoop(w.S[(size_t)I.n], r); };
  GenOpt o; o.lenmin = 2; o.lenmax = c.thorough ? 25 : 12; o.nmin = 1; o.nmax = 4; o.mmax = 3; o.extra = 5; o.points = 3; o.bulkmax = 10; o.sameOutcome = true;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false; o.allow[PARAM] = false;
  o.extShare = g.chance(0.3) ? 0.5 : 0.2;
  o.extInit = [&](const Ins &I, std::vector<char> &init) { for (int q : w.S[(size_t)I.n].out) init[(size_t)q] = 1; };
  o.extPropose = [&](Rng &q, Ins &I, const std::vector<char> &init, int nr) {
    Spec s; s.slot = q.in(0, NSLOT - 1); if (q.chance(0.4)) s.slot = 0;
    const int d = m.S[s.slot].dim;
    std::vector<int> av, all; for (int i = 0; i < nr; ++i) { all.push_back(i); if (init[(size_t)i]) av.push_back(i); }
    for (int i = 0; i < d; ++i) s.in.push_back(av[(size_t)q.in(0, (int)av.size() - 1)]);
    if ((int)all.size() < d) return false;
    for (int i = 0; i < d; ++i) { int k = q.in(0, (int)all.size() - 1); s.out.push_back(all[(size_t)k]); all.erase(all.begin() + k); }
    s.steps = q.chance(0.3) ? q.in(1, 3) : q.in(1, maxSteps); s.cps = q.chance(0.5) ? q.in(1, 4) : q.in(1, 12);
    s.inplace = q.chance(0.5); s.pre = q.chance(0.4); s.post = q.chance(0.4); s.persist = q.chance(0.4); s.newctx = q.chance(0.3);
    I.n = (int)w.S.size(); I.a = s.in[0]; I.dst = s.out[0]; I.b = I.c = 0; w.S.push_back(s); return true;
  };
  Gen G = generate(g, o);
  const Prog &p = G.p;
  long ncall = 0; for (auto &I : p.code) ncall += I.op == EXT;
  if (!ncall) { c.count("no_loop"); return; }
  uint64_t h = p.hash(); for (auto &I : p.code) if (I.op == EXT) { const Spec &s = w.S[(size_t)I.n]; h = hmix(h, (uint64_t)(s.slot * 1000000 + s.steps * 1000 + s.cps * 10 + s.inplace)); }
  auto desc = [&] { std::string d = p.str(); for (auto &I : p.code) if (I.op == EXT) { const Spec &s = w.S[(size_t)I.n]; const Step &S = m.S[s.slot]; d += cat(" | LOOP", I.n, " slot", s.slot, " kind", S.kind, " dim", S.dim, " branch", S.branch, " ext", S.ext, " retape", S.retape, " steps", s.steps, " cps", s.cps, " inplace", s.inplace, " pre", s.pre, " post", s.post, " persist", s.persist, " newctx", s.newctx, " in"); for (int q : s.in) d += cat(",", q); d += " out"; for (int q : s.out) d += cat(",", q); } return d; };
  if (c.verbose) fprintf(stderr, "%s\n", desc().c_str());
  auto B = ra::Basis::total(p.n, 1); TPL::B = B.get();
  std::vector<RefOut> R; std::vector<std::vector<Loop>> LP; w.tie = 1e300;
  for (auto &x : G.x) { w.loops.clear(); w.logRef = true; R.push_back(refTotal(p, *B, x)); w.logRef = false; LP.push_back(w.loops); }
  if (w.tie < 1e-6) { c.count("near_branch_tie"); return; }
  if (c.idx < 40) c.sample(desc().substr(0, 700));
  c.nontrivial(h);
  auto J = [&](size_t pt, int j, int i) { std::vector<int> e((size_t)p.n, 0); e[(size_t)i] = 1; return (double)R[pt].y[(size_t)j].c[(size_t)B->find(e)]; };
  const int nt = g.in(1, 2); const bool shareChk = g.chance(0.3);
  Rec rec[2]; int state[2]; size_t at[2], rp[2]; int keepR[2];
  auto cmp = [&](const char *nm, int t, double got, double ref, size_t pt, int j) { if (!close(got, ref, tolOf(R[pt], ref))) c.violation(cat(nm, "_value"), cat(nm, " dependent/independent ", j, " got ", got, " expected ", ref, " point ", pt, " recorded at ", rp[t], " keep ", keepR[t], " tape ", t, " of ", nt, " sharedchk ", shareChk, " ", desc())); };
  // every call of the step function sees a state of the loop at that step
  auto checkLog = [&](const char *nm, size_t pt, const std::vector<std::pair<int, std::vector<double>>> &lg, bool rev, bool active) {
    (void)active; (void)rev;
    for (auto &[key, v] : lg) {
      const int slot = key / 100000, t = key % 100000;
      bool hit = false;
      for (auto &L : LP[pt]) { const Spec &s = w.S[(size_t)L.spec]; if (s.slot != slot) continue;
        for (int k = 0; k < s.steps && !hit; ++k) { if (m.S[slot].ext && k != t) continue; bool eq = true; for (size_t i = 0; i < v.size(); ++i) eq = eq && std::fabs(v[i] - L.traj[(size_t)k][i]) <= 1e-7 * (1 + std::fabs(v[i])); hit = eq; } if (hit) break; }
      if (!hit) { c.violation(cat(nm, "_state"), cat(nm, ": step function called with a state that does not occur in the loop: slot ", slot, " counter ", t, " x0=", v[0], " point ", pt, " ", desc())); return; }
      c.count("states_checked");
    }
  };
  auto begin = [&] { m.log = true; m.alog.clear(); m.dlog.clear(); m.dcalls = m.acalls = 0; };
  auto end = [&](const char *nm, size_t pt) { m.log = false; checkLog(nm, pt, m.alog, false, true); checkLog(nm, pt, m.dlog, false, false); c.count(cat("sweep_", nm)); c.count("step_calls", m.dcalls + m.acalls); };
  const int recs = g.chance(0.3) ? 2 : 1;
  for (int rr = 0; rr < recs; ++rr) {
    for (int t = 0; t < nt; ++t) {
      Rec &q = rec[t]; R_ = &q;
      if (q.T < 0) { q.T = createNewTape(); for (int k = 0; k < NSLOT; ++k) q.chk[k] = t && shareChk ? rec[0].chk[k] : createNewTape(); }
      setCurrentTape(q.T);
      for (auto &x : q.ctx) x.reset();
      q.more.clear(); q.arr.clear();
      keepR[t] = g.in(0, 1); rp[t] = (size_t)g.in(0, 2);
      c.phase("record"); begin();
      if (g.chance(0.3)) trace_on(q.T, keepR[t], (size_t)g.in(4, 40), (size_t)g.in(900, 1400), (size_t)g.in(6, 40), (size_t)g.in(1, 40), g.in(0, 1)); else trace_on(q.T, keepR[t]);
      {
        std::vector<adouble> r; r.reserve((size_t)p.nr); initRegs<adouble>(p, r);
        for (int i = 0; i < p.n; ++i) r[(size_t)i] <<= G.x[rp[t]][(size_t)i];
        run<adouble>(p, r);
        for (int j = 0; j < p.m; ++j) { double y; r[(size_t)p.dep[(size_t)j]] >>= y; cmp("taping", t, y, (double)R[rp[t]].y[(size_t)j].c[0], rp[t], j); }
        q.arr.clear();
      }
      trace_off();
      end("record", rp[t]);
      if (g.chance(0.25)) { // the same outside a traced section
        c.phase("outside"); begin(); const size_t pt = (size_t)g.in(0, 2);
        { std::vector<adouble> r; r.reserve((size_t)p.nr); initRegs<adouble>(p, r); for (int i = 0; i < p.n; ++i) r[(size_t)i] = G.x[pt][(size_t)i]; run<adouble>(p, r); for (int j = 0; j < p.m; ++j) cmp("outside", t, r[(size_t)p.dep[(size_t)j]].value(), (double)R[pt].y[(size_t)j].c[0], pt, j); q.arr.clear(); }
        end("outside", pt);
      }
      state[t] = keepR[t] ? 1 : 0; at[t] = rp[t];
      for (auto &L : LP[0]) { const Spec &s = w.S[(size_t)L.spec]; c.count(s.inplace ? "loops_inplace" : "loops_separate"); c.count(m.S[s.slot].retape ? "loops_retaping" : m.S[s.slot].branch ? "loops_branching" : "loops_plain"); if (m.S[s.slot].ext) c.count("loops_with_saved_state"); c.count("loop_steps", s.steps); }
    }
    // expected number of passive steps of the reverse part: optimal schedule
    double revSteps = 0, allSteps = 0; for (auto &L : LP[0]) { const Spec &s = w.S[(size_t)L.spec]; revSteps += optimal(s.steps, s.cps) - (s.steps - 1); allSteps += optimal(s.steps, s.cps); }
    const int steps = g.in(4, 9);
    std::vector<double> y((size_t)p.m);
    bool clean[2] = {state[0] == 1 && nt == 1, false}; // nothing since the forward sweep
    for (int st = 0; st < steps; ++st) {
      const int t = g.in(0, nt - 1); const short T = rec[t].T;
      const int what = state[t] && g.chance(0.6) ? g.in(4, 5) : g.in(0, 3);
      const size_t pt = (size_t)g.in(0, 2); std::vector<double> x = G.x[pt];
      auto vals = [&](const char *nm) { for (int j = 0; j < p.m; ++j) cmp(nm, t, y[(size_t)j], (double)R[pt].y[(size_t)j].c[0], pt, j); };
      if (what == 0) { const int k = g.in(0, 1); c.phase("zos_forward"); begin(); int rc = zos_forward(T, p.m, p.n, k, x.data(), y.data()); end("zos_forward", pt); vals("zos_forward"); if (k) { state[t] = 1; at[t] = pt; } clean[0] = clean[1] = false; clean[t] = k; if (rc < 0) c.violation("rc", cat("zos_forward returned ", rc, desc())); }
      else if (what == 1) { const int k = g.in(0, 1); std::vector<double> X((size_t)p.n), Y((size_t)p.m); for (auto &v : X) v = g.num(1.5); c.phase("fos_forward"); begin(); int rc = fos_forward(T, p.m, p.n, k, x.data(), X.data(), y.data(), Y.data()); end("fos_forward", pt); vals("fos_forward"); for (int j = 0; j < p.m; ++j) { double s = 0; for (int i = 0; i < p.n; ++i) s += J(pt, j, i) * X[(size_t)i]; cmp("fos_forward", t, Y[(size_t)j], s, pt, j); } if (k) { state[t] = 1; at[t] = pt; } clean[0] = clean[1] = false; if (rc < 0) c.violation("rc", cat("fos_forward returned ", rc, desc())); }
      else if (what == 2) { const int q = g.in(1, 4); Mat X((size_t)p.n, (size_t)q), Y((size_t)p.m, (size_t)q); for (int i = 0; i < p.n; ++i) for (int l = 0; l < q; ++l) X[(size_t)i][l] = g.num(1.5); c.phase("fov_forward"); begin(); fov_forward(T, p.m, p.n, q, x.data(), X.ptr(), y.data(), Y.ptr()); end("fov_forward", pt); vals("fov_forward"); for (int j = 0; j < p.m; ++j) for (int l = 0; l < q; ++l) { double s = 0; for (int i = 0; i < p.n; ++i) s += J(pt, j, i) * X[(size_t)i][l]; cmp("fov_forward", t, Y[(size_t)j][l], s, pt, j); } clean[0] = clean[1] = false; }
      else if (what == 3) {
        Mat Jm((size_t)p.m, (size_t)p.n); c.phase("jacobian"); begin(); jacobian(T, p.m, p.n, x.data(), Jm.ptr()); end("jacobian", pt);
        for (int j = 0; j < p.m; ++j) for (int i = 0; i < p.n; ++i) cmp("jacobian", t, Jm[(size_t)j][i], J(pt, j, i), pt, j);
        state[t] = 0; clean[0] = clean[1] = false;
      } else {
        begin();
        if (what == 4) { std::vector<double> u((size_t)p.m), z((size_t)p.n, 7.5); for (auto &v : u) v = g.num(1.5); if (g.chance(0.2)) u[0] = 0; c.phase("fos_reverse"); fos_reverse(T, p.m, p.n, u.data(), z.data()); end("fos_reverse", at[t]); for (int i = 0; i < p.n; ++i) { double s = 0; for (int j = 0; j < p.m; ++j) s += u[(size_t)j] * J(at[t], j, i); cmp(state[t] == 2 ? "fos_reverse_again" : "fos_reverse", t, z[(size_t)i], s, at[t], i); } }
        else { const int q = g.in(1, 4); Mat U((size_t)q, (size_t)p.m), Z((size_t)q, (size_t)p.n, 7.5); for (int l = 0; l < q; ++l) for (int j = 0; j < p.m; ++j) U[(size_t)l][j] = g.num(1.5); c.phase("fov_reverse"); fov_reverse(T, p.m, p.n, q, U.ptr(), Z.ptr()); end("fov_reverse", at[t]); for (int l = 0; l < q; ++l) for (int i = 0; i < p.n; ++i) { double s = 0; for (int j = 0; j < p.m; ++j) s += U[(size_t)l][j] * J(at[t], j, i); cmp(state[t] == 2 ? "fov_reverse_again" : "fov_reverse", t, Z[(size_t)l][i], s, at[t], i); } }
        if (state[t] == 2) c.count("repeated_reverse");
        bool distinct = true; { std::vector<int> seen; for (auto &L : LP[0]) { int k = w.S[(size_t)L.spec].slot; distinct = distinct && std::find(seen.begin(), seen.end(), k) == seen.end(); seen.push_back(k); } }
        if (clean[t] && distinct) { c.count("optimality_checked"); if ((double)m.dcalls != revSteps) c.violation("reverse_steps", cat("the reverse sweep made ", m.dcalls, " passive steps, the optimal schedule needs ", revSteps, " ", desc())); }
        else if ((double)m.dcalls > allSteps) c.violation("reverse_steps_max", cat("a reverse sweep made ", m.dcalls, " passive steps, a whole schedule has ", allSteps, " ", desc()));
        clean[0] = clean[1] = false; state[t] = 2;
      }
    }
    c.evaluations += steps;
  }
  for (auto &q : rec) { for (auto &x : q.ctx) x.reset(); q.more.clear(); q.arr.clear(); }
}
static void oneCase(Ctx &c) { if (c.idx % 4 == 0) { c.phase("schedule"); partA(c); } else partB(c); }
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
