// C25: statistics and listings describe the recording.  The listing written by
// tape_doc is parsed and *interpreted* (its operation codes, locations and
// constants) on doubles at several points and compared with the program that
// was recorded; every counter is compared with what the listing contains.
#include "adtape.h"
#include "battery.h"
#include <adolc/oplate.h>
#include <adolc/tapedoc/tapedoc.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace vh; using namespace pg; using namespace at;
struct Line { long cnt, rev; int code; std::string name; std::vector<size_t> L; std::vector<double> C; };
struct Listing { std::vector<Line> ops; bool start = false, end = false; long endCnt = -1, endRev = -1; std::string err; };
static std::string trim(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '$')) s.pop_back(); size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '$')) ++i; return s.substr(i); }
static Listing parse(const std::string &file) {
  Listing R; std::ifstream f(file); std::string l;
  if (!f) { R.err = "no file " + file; return R; }
  while (std::getline(f, l)) {
    size_t e = l.find("\\\\ \\hline");
    if (e == std::string::npos || l.find("\\begin{tabular}") != std::string::npos) continue;
    std::vector<std::string> t; std::stringstream ss(l.substr(0, e)); std::string q;
    while (std::getline(ss, q, '&')) t.push_back(trim(q));
    while (t.size() < 10) t.push_back("");
    if (t[2] == "code") continue;
    if (t.size() != 10) { R.err = cat("columns ", t.size(), " in ", l); return R; }
    if (t[3] == "start of tape") { if (R.start || !R.ops.empty()) { R.err = "second start"; return R; } R.start = true; continue; }
    if (t[3] == "end of tape") { if (R.end) { R.err = "second end"; return R; } R.end = true; R.endCnt = atol(t[0].c_str()); R.endRev = atol(t[1].c_str()); continue; }
    Line n; n.cnt = atol(t[0].c_str()); n.rev = atol(t[1].c_str()); n.code = atoi(t[2].c_str()); n.name = t[3];
    for (int i = 4; i < 8; ++i) if (!t[(size_t)i].empty()) n.L.push_back((size_t)atoll(t[(size_t)i].c_str()));
    for (int i = 8; i < 10; ++i) if (!t[(size_t)i].empty()) n.C.push_back(atof(t[(size_t)i].c_str()));
    if (R.end) { R.err = "operation after the end"; return R; }
    R.ops.push_back(n);
  }
  if (!R.start) R.err = "no start"; else if (!R.end) R.err = "no end";
  return R;
}
// operands of every operation: locations and constants listed
static const std::map<int, std::pair<int, int>> &shape() {
  static const std::map<int, std::pair<int, int>> s = [] {
    std::map<int, std::pair<int, int>> m;
    for (int o : {eq_zero, neq_zero, le_zero, gt_zero, ge_zero, lt_zero, assign_d_one, assign_d_zero, assign_ind, assign_dep, incr_a, decr_a, ref_assign_d_zero, ref_assign_d_one, ref_assign_ind, ref_incr_a, ref_decr_a}) m[o] = {1, 0};
    for (int o : {assign_d, eq_plus_d, eq_min_d, eq_mult_d, ref_assign_d, ref_eq_plus_d, ref_eq_min_d, ref_eq_mult_d}) m[o] = {1, 1};
    for (int o : {assign_a, eq_plus_a, eq_min_a, eq_mult_a, pos_sign_a, neg_sign_a, exp_op, log_op, sqrt_op, cbrt_op, death_not, assign_p, ref_copyout, ref_assign_a, ref_eq_plus_a, ref_eq_min_a, ref_eq_mult_a}) m[o] = {2, 0};
    for (int o : {plus_d_a, min_d_a, mult_d_a, div_d_a, pow_op, abs_val, ceil_op, floor_op}) m[o] = {2, 1};
    for (int o : {eq_plus_prod, eq_min_prod, plus_a_a, min_a_a, mult_a_a, div_a_a, sin_op, cos_op, atan_op, asin_op, acos_op, asinh_op, acosh_op, atanh_op, erf_op, erfc_op, vec_copy}) m[o] = {3, 0};
    for (int o : {min_op, cond_assign_s, cond_eq_assign_s, eq_a_a, neq_a_a, le_a_a, gt_a_a, ge_a_a, lt_a_a, subscript, subscript_ref, ref_cond_assign_s, ref_cond_eq_assign_s}) m[o] = {3, 1};
    for (int o : {cond_assign, cond_eq_assign, ref_cond_assign, ref_cond_eq_assign}) m[o] = {4, 1};
    for (int o : {vec_dot}) m[o] = {4, 0};
    m[vec_axpy] = {4, 0}; // five locations, four columns
    m[take_stock_op] = {2, 1};
    for (int o : {end_of_op, end_of_int, end_of_val}) m[o] = {0, 0};
    return m;
  }();
  return s;
}
// Interprets a listing.  pert: relative perturbation of the printed constants.
struct Interp {
  const Listing &T; const std::vector<double> &x; const std::vector<double> &par; size_t live; Rng *pert;
  std::vector<double> v, y; std::string err; bool unknown = false;
  size_t tays = 0, sw = 0, eqp = 0, inds = 0, npars = 0, nvals = 0, nlocs = 0, marks = 0;
  std::map<int, long> seen;
  size_t ix(double d) const { return (size_t)std::trunc(std::fabs(d) + (pert ? 1e-5 : 0.0)); } // indices stay what they are
  bool run() {
    v.assign(live, 0.0);
    auto bad = [&](const Line &o, const std::string &s) { err = cat(s, " at line ", o.cnt, " ", o.name); return false; };
    auto K = [&](double c) { return pert ? c * (1 + pert->uni(-5.2e-7, 5.2e-7)) : c; };
    for (auto &o : T.ops) {
      auto sh = shape().find(o.code);
      if (sh == shape().end()) return bad(o, cat("unknown operation ", o.code));
      if ((int)o.L.size() != sh->second.first || (int)o.C.size() != sh->second.second) return bad(o, cat(o.L.size(), " locations ", o.C.size(), " constants listed"));
      seen[o.code]++;
      nlocs += o.L.size() + (o.code == vec_axpy); nvals += o.C.size();
      auto &L = o.L;
      // which of the listed numbers are locations of variables
      // (the numbers of elements and of parameters are none)
      const size_t skip = o.code == vec_copy ? 1 : o.code == vec_dot || o.code == vec_axpy ? 2 : o.code == take_stock_op || o.code == assign_p ? 0 : 99;
      for (size_t i = 0; i < L.size(); ++i) if (i != skip && L[i] >= live) return bad(o, cat("location ", L[i], " of ", live));
      auto A = [&](size_t i) -> double & { return v[L[i]]; };
      auto R = [&](size_t i) -> double & { size_t k = ix(v[L[i]]); if (k >= live) { if (!unknown) err = "ref"; k = 0; } return v[k]; };
      const double c0 = o.C.empty() ? 0 : K(o.C[0]);
      switch (o.code) {
      case end_of_op: case end_of_int: case end_of_val: ++marks; break;
      case eq_zero: case neq_zero: case le_zero: case gt_zero: case ge_zero: case lt_zero: break;
      case assign_a: A(1) = A(0); ++tays; break;
      case assign_d: A(0) = c0; ++tays; break;
      case assign_d_one: A(0) = 1; ++tays; break;
      case assign_d_zero: A(0) = 0; ++tays; break;
      case assign_ind: if (inds >= x.size()) return bad(o, "too many independents"); A(0) = x[inds++]; ++tays; break;
      case assign_dep: y.push_back(A(0)); break;
      case assign_p: if (L[0] >= par.size()) return bad(o, "parameter index"); A(1) = par[L[0]]; ++tays; break;
      case eq_plus_d: A(0) += c0; ++tays; break;
      case eq_min_d: A(0) -= c0; ++tays; break;
      case eq_mult_d: A(0) *= c0; ++tays; break;
      case eq_plus_a: { double t = A(0); A(1) += t; ++tays; } break;
      case eq_min_a: { double t = A(0); A(1) -= t; ++tays; } break;
      case eq_mult_a: { double t = A(0); A(1) *= t; ++tays; } break;
      case eq_plus_prod: A(2) += A(0) * A(1); ++eqp; break;
      case eq_min_prod: A(2) -= A(0) * A(1); ++eqp; break;
      case incr_a: A(0) += 1; ++tays; break;
      case decr_a: A(0) -= 1; ++tays; break;
      case plus_a_a: A(2) = A(0) + A(1); ++tays; break;
      case min_a_a: A(2) = A(0) - A(1); ++tays; break;
      case mult_a_a: A(2) = A(0) * A(1); ++tays; break;
      case div_a_a: A(2) = A(0) / A(1); ++tays; break;
      case plus_d_a: A(1) = c0 + A(0); ++tays; break;
      case min_d_a: A(1) = c0 - A(0); ++tays; break;
      case mult_d_a: A(1) = c0 * A(0); ++tays; break;
      case div_d_a: A(1) = c0 / A(0); ++tays; break;
      case pow_op: A(1) = std::pow(A(0), c0); ++tays; break;
      case pos_sign_a: A(1) = A(0); ++tays; break;
      case neg_sign_a: A(1) = -A(0); ++tays; break;
      case exp_op: A(1) = std::exp(A(0)); ++tays; break;
      case log_op: A(1) = std::log(A(0)); ++tays; break;
      case sqrt_op: A(1) = std::sqrt(A(0)); ++tays; break;
      case cbrt_op: A(1) = std::cbrt(A(0)); ++tays; break;
      case sin_op: { double t = A(0); A(1) = std::cos(t); A(2) = std::sin(t); tays += 2; } break;
      case cos_op: { double t = A(0); A(1) = std::sin(t); A(2) = std::cos(t); tays += 2; } break;
      case atan_op: A(2) = std::atan(A(0)); ++tays; break;
      case asin_op: A(2) = std::asin(A(0)); ++tays; break;
      case acos_op: A(2) = std::acos(A(0)); ++tays; break;
      case asinh_op: A(2) = std::asinh(A(0)); ++tays; break;
      case acosh_op: A(2) = std::acosh(A(0)); ++tays; break;
      case atanh_op: A(2) = std::atanh(A(0)); ++tays; break;
      case erf_op: A(2) = std::erf(A(0)); ++tays; break;
      case erfc_op: A(2) = std::erfc(A(0)); ++tays; break;
      case min_op: A(2) = std::min(A(0), A(1)); ++tays; break;
      case abs_val: A(1) = std::fabs(A(0)); ++tays; ++sw; break;
      case ceil_op: A(1) = std::ceil(A(0)); ++tays; break;
      case floor_op: A(1) = std::floor(A(0)); ++tays; break;
      case cond_assign: { double t = A(0) > 0 ? A(1) : A(2); A(3) = t; ++tays; } break;
      case cond_eq_assign: { double t = A(0) >= 0 ? A(1) : A(2); A(3) = t; ++tays; } break;
      case cond_assign_s: if (A(0) > 0) A(2) = A(1); ++tays; break;
      case cond_eq_assign_s: if (A(0) >= 0) A(2) = A(1); ++tays; break;
      case eq_a_a: A(2) = A(0) == A(1); ++tays; break;
      case neq_a_a: A(2) = A(0) != A(1); ++tays; break;
      case le_a_a: A(2) = A(0) <= A(1); ++tays; break;
      case gt_a_a: A(2) = A(0) > A(1); ++tays; break;
      case ge_a_a: A(2) = A(0) >= A(1); ++tays; break;
      case lt_a_a: A(2) = A(0) < A(1); ++tays; break;
      case subscript: { size_t i = L[1] + ix(A(0)); if (i >= live) { if (unknown) { v[0] = NAN; ++tays; break; } return bad(o, "element"); } A(2) = v[i]; ++tays; } break;
      case subscript_ref: { size_t i = L[1] + ix(A(0)); if (i >= live) { if (unknown) { v[0] = NAN; ++tays; break; } return bad(o, "element"); } A(2) = (double)i; ++tays; } break;
      case ref_copyout: A(1) = R(0); ++tays; break;
      case ref_assign_d: R(0) = c0; ++tays; break;
      case ref_assign_d_zero: R(0) = 0; ++tays; break;
      case ref_assign_d_one: R(0) = 1; ++tays; break;
      case ref_assign_ind: if (inds >= x.size()) return bad(o, "too many independents"); R(0) = x[inds++]; ++tays; break;
      case ref_assign_a: R(1) = A(0); ++tays; break;
      case ref_incr_a: R(0) += 1; ++tays; break;
      case ref_decr_a: R(0) -= 1; ++tays; break;
      case ref_eq_plus_d: R(0) += c0; ++tays; break;
      case ref_eq_min_d: R(0) -= c0; ++tays; break;
      case ref_eq_mult_d: R(0) *= c0; ++tays; break;
      case ref_eq_plus_a: R(1) += A(0); ++tays; break;
      case ref_eq_min_a: R(1) -= A(0); ++tays; break;
      case ref_eq_mult_a: R(1) *= A(0); ++tays; break;
      case ref_cond_assign: { double t = A(0) > 0 ? A(1) : A(2); R(3) = t; ++tays; } break;
      case ref_cond_eq_assign: { double t = A(0) >= 0 ? A(1) : A(2); R(3) = t; ++tays; } break;
      case ref_cond_assign_s: if (A(0) > 0) R(2) = A(1); ++tays; break;
      case ref_cond_eq_assign_s: if (A(0) >= 0) R(2) = A(1); ++tays; break;
      case vec_copy: { if (L[0] + L[1] > live || L[2] + L[1] > live) return bad(o, "vector"); std::vector<double> t(v.begin() + (long)L[0], v.begin() + (long)(L[0] + L[1])); std::copy(t.begin(), t.end(), v.begin() + (long)L[2]); tays += L[1]; } break;
      case vec_dot: { const size_t n = L[2]; if (L[0] + n > live || L[1] + n > live) return bad(o, "vector"); double t = 0; for (size_t i = 0; i < n; ++i) t += v[L[0] + i] * v[L[1] + i]; A(3) = t; ++tays; eqp += 2 * n; } break;
      case vec_axpy: unknown = true; tays += L[2]; eqp += 2 * L[2] - 1; break;
      case take_stock_op: unknown = true; tays += L[0]; nvals += L[0] - 1; break;
      case death_not: tays += L[1] >= L[0] ? L[1] - L[0] + 1 : 0; break;
      default: return bad(o, "not interpreted");
      }
      if (!err.empty()) return bad(o, err);
    }
    return true;
  }
};
struct CoutGuard { std::ostringstream s; std::streambuf *o; CoutGuard() : o(std::cout.rdbuf(s.rdbuf())) {} ~CoutGuard() { std::cout.rdbuf(o); } };

static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const char *scratch = getenv("VH_SCRATCH");
  if (scratch && chdir(scratch)) return;
  const int recs = g.in(1, 3);
  const short id = createNewTape();
  std::vector<double> dx(20), dy(20);
  bool anyViol = false;
  auto viol = [&](const std::string &k, const std::string &m) { if (!anyViol) c.violation(k, m); anyViol = true; };
  for (int rr = 0; rr < recs && !anyViol; ++rr) {
    GenOpt o; o.points = 3; o.sameOutcome = true; o.paramForms = g.chance(0.2); o.paramBias = o.paramForms ? 0.3 : 0;
    o.lenmax = c.thorough ? 40 : 25; o.lenmin = 1; o.dupDeps = g.chance(0.2); o.bulkmax = g.chance(0.3) ? 150 : 20;
    o.vec = g.chance(0.5); o.allow.assign(NOPS, true); if (g.chance(0.8)) o.allow[VAXPY] = false;
    if (g.chance(0.5)) o.allow[CBRT] = false;
    Gen G = generate(g, o); Prog &p = G.p;
    std::vector<std::vector<int>> oc;
    if (!p.m) { c.count("skipped_ungenerated"); return; }
    c.nontrivial(p.hash()); if (c.idx < 40 && !rr) c.sample(p.str());
    if (c.verbose) fprintf(stderr, "%s\n", p.str().c_str());
    const bool abs = g.chance(0.3), early = g.chance(0.15);
    const int keep = g.in(0, 1), flag = g.in(0, 1);
    setCurrentTape(id);
    if (abs) currentTape().enableMinMaxUsingAbs(); else currentTape().disableMinMaxUsingAbs();
    c.phase("record");
    Rng eg(g.next());
    // sometimes with small buffers, so that the listing crosses blocks
    const bool small = g.chance(0.35);
    const size_t bufs[4] = {(size_t)g.in(40, 400), (size_t)g.in(12, 400), (size_t)g.in(20, 200), (size_t)g.in(20, 200)};
    if (small) recBufs = bufs;
    record(p, G.x[0], id, keep, flag, early ? &eg : nullptr);
    recBufs = nullptr; if (small) c.count("small_buffers");
    setCurrentTape(id);
    const auto st = tapestats(id);
    if (small && (st[TapeInfos::OP_BUFFER_SIZE] != bufs[0] || st[TapeInfos::LOC_BUFFER_SIZE] != bufs[1] || st[TapeInfos::VAL_BUFFER_SIZE] != bufs[2] || st[TapeInfos::TAY_BUFFER_SIZE] != bufs[3])) { c.violation("stats:buffers", "buffer sizes not those requested"); return; }
    auto file = cat("tape_", id, ".tex");
    auto doc = [&](const char *when) {
      c.phase(cat("tape_doc ", when)); unlink(file.c_str());
      dx.assign(G.x[0].begin(), G.x[0].end()); dx.resize(20); auto dx0 = dx;
      setCurrentTape(id);
      tape_doc(id, p.m, p.n, dx.data(), dy.data()); c.count(cat("listings_", when));
      if (std::memcmp(dx.data(), dx0.data(), sizeof(double) * dx.size())) viol("input_changed", "tape_doc changed its input");
    };
    auto slurp = [&] { std::ifstream f(file); std::stringstream s; s << f.rdbuf(); return s.str(); };
    doc("after_recording");
    const std::string text = slurp();
    Listing T = parse(file);
    auto what = [&](const std::string &s) { return cat(s, "; recording ", rr, " of ", recs, keep ? " keep" : "", flag ? " on file" : "", abs ? " abs" : "", early ? " early" : "", " ", p.str()); };
    if (!T.err.empty()) { viol(cat("listing:", T.err.substr(0, T.err.find(' '))), what(T.err)); return; }
    c.count("operations_listed", (long)T.ops.size());
    // numbering
    long k = 0; const long NOP = (long)st[TapeInfos::NUM_OPERATIONS];
    for (auto &q : T.ops) { ++k; if (q.cnt < k) { viol("numbering", what(cat("line ", k, " numbered ", q.cnt))); return; } if (q.cnt + q.rev != T.ops[0].cnt + T.ops[0].rev) { viol("numbering", what(cat("reverse number ", q.rev, " of ", q.cnt))); return; } k = q.cnt; }
    if (c.verbose) fprintf(stderr, "ops %zu endCnt %ld endRev %ld NOP %ld locs %zu vals %zu tays %zu lives %zu store\n", T.ops.size(), T.endCnt, T.endRev, NOP, st[TapeInfos::NUM_LOCATIONS], st[TapeInfos::NUM_VALUES], st[TapeInfos::NUM_TAYS], st[TapeInfos::NUM_MAX_LIVES]);
    if (T.endCnt != NOP || T.endRev != 1) { viol("stats:operations", what(cat("listing ends at ", T.endCnt, "/", T.endRev, ", NUM_OPERATIONS ", NOP))); return; }
    // meaning
    std::vector<double> par; const size_t np = get_num_param(id); for (size_t i = 0; i < np; ++i) par.push_back(currentTape().paramstore()[i]);
    const size_t live = st[TapeInfos::NUM_MAX_LIVES];
    for (int pt = 0; pt < 3; ++pt) {
      const auto &x = G.x[(size_t)pt];
      Interp I{T, x, par, live, nullptr, {}, {}, {}, false, 0, 0, 0, 0, 0, 0, 0, 0, {}};
      if (!I.run()) { viol(cat("listing_operand:", I.err.substr(0, I.err.find(' '))), what(I.err)); return; }
      if (I.inds != (size_t)p.n || st[TapeInfos::NUM_INDEPENDENTS] != (size_t)p.n) { viol("stats:independents", what(cat(I.inds, " listed, ", st[TapeInfos::NUM_INDEPENDENTS], " reported, ", p.n, " declared"))); return; }
      if (I.y.size() != (size_t)p.m || st[TapeInfos::NUM_DEPENDENTS] != (size_t)p.m) { viol("stats:dependents", what(cat(I.y.size(), " listed, ", st[TapeInfos::NUM_DEPENDENTS], " reported, ", p.m, " declared"))); return; }
      if (!pt) {
        for (auto &q : I.seen) c.count(cat("listed_op", q.first), q.second);
        if (c.verbose) fprintf(stderr, "walk: locs %zu vals %zu tays %zu sw %zu eqp %zu marks %zu\n", I.nlocs, I.nvals, I.tays, I.sw, I.eqp, I.marks);
        zos_forward(id, p.m, p.n, 1, G.x[0].data(), dy.data());
        const long t1 = (long)tapestats(id)[TapeInfos::NUM_TAYS]; c.count("taylor_counts");
        if ((long)I.tays != (long)st[TapeInfos::NUM_TAYS] || t1 != (long)I.tays) viol("stats:taylors", what(cat(I.tays, " values to be saved, ", st[TapeInfos::NUM_TAYS], " reported by the recording, ", t1, " by a sweep that saved them")));
        // the trailer holds the statistics; parameters are saved as values
        static const size_t trailer = 42;
        c.count("listed_block_ends", (long)I.marks); if (I.marks) { c.count("listings_of_several_blocks"); if (I.nlocs + trailer > st[TapeInfos::NUM_LOCATIONS] || I.nvals > st[TapeInfos::NUM_VALUES]) viol("stats:blocks", what("less reported than listed")); } else {
        if (I.nlocs + trailer != st[TapeInfos::NUM_LOCATIONS]) viol("stats:locations", what(cat(I.nlocs, " listed, ", st[TapeInfos::NUM_LOCATIONS], " reported")));
        if (I.nvals + np != st[TapeInfos::NUM_VALUES]) viol("stats:values", what(cat(I.nvals, " listed, ", np, " parameters, ", st[TapeInfos::NUM_VALUES], " reported"))); }
        if (I.eqp != st[TapeInfos::NUM_EQ_PROD]) viol("stats:eq_prod", what(cat(I.eqp, " listed ", st[TapeInfos::NUM_EQ_PROD])));
        if (abs && I.sw != st[TapeInfos::NUM_SWITCHES]) viol("stats:switches", what(cat(I.sw, " listed ", st[TapeInfos::NUM_SWITCHES])));
      }
      if (I.unknown) { c.count("listings_not_interpreted"); continue; }
      Obs ob2; ob2.kinkMargin = 0; auto yref = evald(p, x);
      std::vector<double> spread(yref.size(), 0.0);
      for (int q = 0; q < 8; ++q) { Rng r(g.next()); Interp J{T, x, par, live, &r, {}, {}, {}, false, 0, 0, 0, 0, 0, 0, 0, 0, {}}; if (!J.run()) { spread.assign(yref.size(), INFINITY); break; } for (size_t i = 0; i < yref.size() && i < J.y.size(); ++i) { const double e = std::fabs(J.y[i] - I.y[i]); spread[i] = std::isnan(e) ? INFINITY : std::max(spread[i], e); } }
      for (size_t i = 0; i < yref.size(); ++i) {
        c.count("listing_values_compared");
        const double tol = 12 * spread[i] + 1e-9 * (1 + std::fabs(yref[i]));
        if (!(tol <= 0.05 * (1 + std::fabs(yref[i])))) { c.count("too_sensitive"); continue; }
        if (!(std::fabs(I.y[i] - yref[i]) <= tol)) { viol("listing_meaning", what(cat("dependent ", i, " at point ", pt, ": the listing computes ", I.y[i], ", the program ", yref[i], " tolerance ", tol))); return; }
      }
    }
    if (st[TapeInfos::NUM_PARAM] != np) viol("stats:param", what(cat(st[TapeInfos::NUM_PARAM], " ", np)));
    // histories: with and without listings and statistics in between
    bt::Features f = bt::featuresOf(p); f.dmax = 3;
    const uint64_t seed = g.next(); const int len = g.in(2, 8);
    auto pass = [&](bool docs) {
      auto b = std::make_unique<bt::Battery>(id, p.n, p.m, G.x, f, seed, 0);
      b->phase = [&](const std::string &s) { c.phase(cat(docs ? "with " : "plain ", s)); };
      for (int i = 0; i < len; ++i) {
        b->step();
        if (!docs) continue;
        switch (g.in(0, 3)) {
        case 0: doc("between_sweeps"); if (slurp() != text) { viol("listing_changed", what(cat("the listing changed after ", b->marks.empty() ? "" : b->marks.back().second))); return b; } c.count("listings_repeated"); break;
        case 1: { c.phase("printTapeStats"); CoutGuard cg; printTapeStats(id); c.count("stats_printed"); auto s2 = tapestats(id); std::string out = cg.s.str();
          // every line of the report, in the order printed
          static const std::vector<std::pair<const char *, int>> rep = {{"Number of independents", TapeInfos::NUM_INDEPENDENTS}, {"Number of dependents", TapeInfos::NUM_DEPENDENTS}, {"Max # of live adoubles", TapeInfos::NUM_MAX_LIVES}, {"Taylor stack size", TapeInfos::NUM_TAYS}, {"Number of operations", TapeInfos::NUM_OPERATIONS}, {"Number of locations", TapeInfos::NUM_LOCATIONS}, {"Number of values", TapeInfos::NUM_VALUES}, {"Number of parameters", TapeInfos::NUM_PARAM}, {"Operation file written", TapeInfos::OP_FILE_ACCESS}, {"Location file written", TapeInfos::LOC_FILE_ACCESS}, {"Value file written", TapeInfos::VAL_FILE_ACCESS}, {"Operation buffer size", TapeInfos::OP_BUFFER_SIZE}, {"Location buffer size", TapeInfos::LOC_BUFFER_SIZE}, {"Value buffer size", TapeInfos::VAL_BUFFER_SIZE}, {"Taylor buffer size", TapeInfos::TAY_BUFFER_SIZE}};
          for (auto &q : rep) { size_t at = out.find(std::string(q.first) + ": "); if (at == std::string::npos) { c.count("report_line_missing"); continue; } size_t v = (size_t)strtoull(out.c_str() + at + strlen(q.first) + 2, nullptr, 10); c.count("reported_numbers"); if (v != s2[(size_t)q.second]) viol(cat("print:", q.first), what(cat(q.first, ": ", v, " printed, ", s2[(size_t)q.second], " counted"))); } } break;
        case 2: { auto s2 = tapestats(id); c.count("stats_between"); for (size_t q = 0; q < s2.size(); ++q) if (q != TapeInfos::NUM_TAYS && s2[q] != st[q]) { viol(cat("stats_changed:", q), what(cat("statistic ", q, " ", st[q], " -> ", s2[q]))); return b; } } break;
        case 3: { c.phase("wrong counts"); bool thrown = false; try { setCurrentTape(id); tape_doc(id, p.m + g.in(0, 1), p.n + 1, dx.data(), dy.data()); } catch (const ADOLCError::ADOLCError &) { thrown = true; } c.count("wrong_counts_refused"); if (!thrown) viol("counts_accepted", what("tape_doc accepted wrong numbers")); } break;
        }
      }
      return b;
    };
    auto A = pass(false), B = pass(true);
    if (anyViol) return;
    std::string why; c.count("numbers_compared", (long)A->log.size());
    if (!bt::sameLog(*A, *B, why)) viol(cat("differs:", why.substr(0, why.find_first_of(" :"))), what(why));
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
