// A script of recordings and evaluations on one tape, and an actor that plays
// it in micro-steps (one recorded instruction or one library call each).
#pragma once
#include "battery.h"
#include <memory>
namespace act {
using namespace vh;
using namespace pg;
using namespace at;
struct Ev { enum K { REC, STEP, SJ0, SJR, RES } k; int prog = 0, keep = 0, off = 0, skip = 0, pt = 0; bool small = false; size_t o = 0, l = 0, v = 0, t = 0; uint64_t seed = 0; bool res = false; };
struct Script { std::vector<Prog> P; std::vector<std::vector<std::vector<double>>> X; std::vector<Ev> ev; std::vector<double> resVals; int n = 0; };

inline Script makeScript(Rng &g, bool thorough, bool colpack = true) {
  Script s;
  const int np = g.in(1, 2);
  GenOpt o; o.lenmin = 3; o.lenmax = thorough ? 40 : 16; o.nmax = 4; o.points = 3; o.bulkmax = 20; o.paramForms = g.chance(0.3);
  o.allow.assign(NOPS, true); o.allow[CBRT] = false;
  if (g.chance(0.3)) o.mmax = 1;
  for (int i = 0; i < np; ++i) { Gen G = generate(g, o); s.P.push_back(G.p); s.X.push_back(G.x); }
  const int recs = g.in(1, 3);
  for (int r = 0; r < recs; ++r) {
    if (g.chance(0.3)) { Ev e{Ev::RES}; s.ev.push_back(e); s.resVals.push_back(g.num()); }
    Ev e{Ev::REC}; e.prog = g.in(0, np - 1); e.keep = g.in(0, 1); e.off = g.chance(0.2); e.skip = g.in(0, 1); e.pt = 0; e.res = g.chance(0.5);
    if (g.chance(0.3)) { e.small = true; e.o = (size_t)g.in(4, 40); e.l = (size_t)g.in(64, 200); e.v = (size_t)g.in(6, 40); e.t = (size_t)g.in(1, 40); }
    s.ev.push_back(e);
    const int k = g.in(1, 6);
    for (int i = 0; i < k; ++i) {
      if (colpack && g.chance(0.2)) { Ev q{Ev::SJ0}; q.pt = g.in(0, 2); s.ev.push_back(q); q.k = Ev::SJR; q.pt = g.in(0, 2); s.ev.push_back(q); if (g.chance(0.5)) { q.pt = g.in(0, 2); s.ev.push_back(q); } }
      else { Ev q{Ev::STEP}; s.ev.push_back(q); }
    }
    s.ev.back().seed = 0;
    for (auto &q : s.ev) if (!q.seed) q.seed = g.next();
  }
  return s;
}
// Executes a script in micro-steps.
struct Actor {
  const Script &s; Ctx *c; short id = -1;
  size_t pc = 0; int micro = -1;
  bool recording = false, started = false, freshTapes = false, colpack = true;
  std::vector<adouble> regs; std::vector<std::unique_ptr<adouble>> res; size_t nres = 0;
  std::vector<double> log; std::vector<std::pair<size_t, std::string>> marks;
  std::unique_ptr<bt::Battery> bat; size_t taken = 0;
  ADOLC::Sparse::SparseMatrix sj; int curProg = -1;
  Actor(const Script &s_, Ctx *c_) : s(s_), c(c_) {}
  bool done() const { return pc >= s.ev.size(); }
  void put(double v) { log.push_back(v); }
  void mark(const std::string &m) { marks.emplace_back(log.size(), m); if (c) c->phase(cat("tape ", id, " ", m)); }
  std::string at(size_t i) const { std::string r = "?"; for (auto &q : marks) if (q.first <= i) r = q.second; return r; }
  void drain() {
    for (auto &m : bat->marks) if (m.first >= taken) marks.emplace_back(log.size() + (m.first - taken), m.second);
    for (; taken < bat->log.size(); ++taken) put(bat->log[taken]);
  }
  void tick() {
    if (!started) { id = createNewTape(); started = true; return; }
    const Ev &e = s.ev[pc];
    switch (e.k) {
    case Ev::RES: setCurrentTape(id); res.push_back(std::make_unique<adouble>(s.resVals[nres++])); ++pc; return;
    case Ev::STEP: { bat->step(); drain(); ++pc; } return;
    case Ev::SJ0: case Ev::SJR: {
      using namespace ADOLC::Sparse;
      const int rep = e.k == Ev::SJR; const bool safe = bat->f.safe; const Prog &p = s.P[(size_t)curProg];
      mark(cat("sparse_jac split repeat=", rep)); if (c && rep) c->count("split_sparse_repeat");
      std::vector<double> x = s.X[(size_t)curProg][(size_t)e.pt];
      if (safe) put(sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Safe>(id, p.m, p.n, rep, x.data(), sj));
      else put(sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Tight>(id, p.m, p.n, rep, x.data(), sj));
      for (auto &q : sj.entries()) { put(q.rowIndex()); put(q.colIndex()); put(q.value()); }
      bat->kept = 0; bat->ovKept = false; ++pc; return; }
    case Ev::REC: break;
    }
    const Prog &p = s.P[(size_t)e.prog]; const auto &x = s.X[(size_t)e.prog][(size_t)e.pt];
    if (micro < 0) {
      if (freshTapes) id = createNewTape();
      mark("trace_on"); curProg = e.prog;
      if (e.small) trace_on(id, e.keep, e.o, e.l, e.v, e.t, e.skip); else trace_on(id, e.keep);
      recording = true; regs.reserve((size_t)p.nr); micro = 0; return;
    }
    setCurrentTape(id);
    if (micro < p.nr) { regs.emplace_back(); if (micro < p.n) regs.back() <<= x[(size_t)micro]; else if (e.res && !res.empty()) { adouble &q = *res[(size_t)micro % res.size()]; const double v = q.value(); regs.back() = q; regs.back() -= v; } ++micro; return; }
    const size_t i = (size_t)(micro - p.nr);
    if (i < p.code.size()) { mark("instruction"); exec1<adouble>(p.code[i], regs); put(regs[(size_t)p.code[i].dst].value()); ++micro; return; }
    const size_t d = i - p.code.size();
    if (d < (size_t)p.m) { double y = 0; regs[(size_t)p.dep[d]] >>= y; put(y); ++micro; return; }
    mark("trace_off"); regs.clear(); for (auto &q : res) put(q->value());
    trace_off(e.off); recording = false; micro = -1; ++pc;
    auto st = tapestats(id);
    for (int k : {TapeInfos::NUM_INDEPENDENTS, TapeInfos::NUM_DEPENDENTS, TapeInfos::NUM_EQ_PROD, TapeInfos::NUM_SWITCHES, TapeInfos::NUM_PARAM, TapeInfos::NUM_OPERATIONS, TapeInfos::NUM_LOCATIONS, TapeInfos::NUM_VALUES}) put((double)st[(size_t)k]);
    if (!s.resVals.empty()) { put((double)st[(size_t)TapeInfos::NUM_MAX_LIVES]); put((double)st[(size_t)TapeInfos::NUM_TAYS]); }
    bt::Features f = bt::featuresOf(p);
    for (auto &I : p.code) if (I.op == PARAM && (I.v & 128)) f.ov = false;
    f.npar = (int)st[TapeInfos::NUM_PARAM];
    f.par.assign(findTape(id).paramstore(), findTape(id).paramstore() + f.npar);
    f.dmax = 3; f.colpack = colpack;
    bat = std::make_unique<bt::Battery>(id, p.n, p.m, s.X[(size_t)e.prog], f, e.seed, e.keep); taken = 0;
    if (c) bat->phase = [this](const std::string &q) { c->phase(cat("tape ", id, " ", q)); };
  }
  void finish() { if (!started) return; setCurrentTape(id); for (auto &q : res) put(q->value()); res.clear(); }
};
} // namespace act
