// C08: results do not depend on how a trace is stored (buffer sizes chosen at
// trace_on or in .adolcrc, kept on disk or in memory, earlier recordings of
// the same tape).
#include "battery.h"
#include <filesystem>
#include <fstream>
#include <memory>
using namespace vh; using namespace pg; using namespace bt;
namespace fs = std::filesystem;
struct Sizes { bool custom = false; size_t o = 0, l = 0, v = 0, t = 0; std::string str() const { return custom ? cat("obs=", o, " lbs=", l, " vbs=", v, " tbs=", t) : "default"; } };
static Sizes pickSizes(Rng &g, bool allowDefault = true) {
  Sizes s;
  if (allowDefault && g.chance(0.15)) return s;
  static const size_t O[] = {4, 5, 6, 7, 8, 9, 10, 13, 16, 31, 64, 200, 1000, 100000}, L[] = {12, 13, 20, 21, 30, 41, 42, 43, 52, 64, 65, 66, 67, 70, 71, 79, 90, 128, 300, 1000, 100000}, V[] = {6, 7, 8, 9, 10, 13, 16, 40, 100, 1000, 100000}, T[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 1000, 100000};
  s.custom = true;
  auto p = [&](auto &a) { return a[g.next() % (sizeof a / sizeof a[0])]; };
  s.o = p(O); s.l = p(L); s.v = p(V); s.t = p(T);
  return s;
}
static std::vector<double> rec(const Prog &p, const std::vector<double> &x, short id, int keep, const Sizes &s, int off, int skip) {
  std::vector<double> y((size_t)p.m);
  int rc = s.custom ? trace_on(id, keep, s.o, s.l, s.v, s.t, skip) : trace_on(id, keep);
  (void)rc;
  {
    std::vector<adouble> r; r.reserve((size_t)p.nr);
    initRegs<adouble>(p, r);
    for (int i = 0; i < p.n; ++i) r[(size_t)i] <<= x[(size_t)i];
    for (auto &I : p.code) exec1<adouble>(I, r);
    for (int i = 0; i < p.m; ++i) r[(size_t)p.dep[(size_t)i]] >>= y[(size_t)i];
  }
  trace_off(off);
  return y;
}
static const int progStats[] = {TapeInfos::NUM_INDEPENDENTS, TapeInfos::NUM_DEPENDENTS, TapeInfos::NUM_EQ_PROD, TapeInfos::NO_MIN_MAX, TapeInfos::NUM_SWITCHES, TapeInfos::NUM_PARAM};
struct Out { std::vector<double> y; std::unique_ptr<Battery> b; bool spilled = false, tspilled = false; };
static void body(Ctx &c, const Prog &p, const std::vector<std::vector<double>> &pts, const Features &f, short id, int keep, uint64_t bseed, int steps, const Sizes &s, int off, int skip, Out &o) {
  o.y = rec(p, pts[0], id, keep, s, off, skip);
  std::array<size_t, TapeInfos::STAT_SIZE> st; st = tapestats(id);
  o.spilled = st[TapeInfos::OP_FILE_ACCESS] || st[TapeInfos::LOC_FILE_ACCESS] || st[TapeInfos::VAL_FILE_ACCESS];
  o.tspilled = keep && s.custom && st[TapeInfos::NUM_TAYS] > s.t;
  Features f2 = f;
  f2.npar = (int)st[TapeInfos::NUM_PARAM];
  f2.par.assign(findTape(id).paramstore(), findTape(id).paramstore() + f2.npar);
  o.b = std::make_unique<Battery>(id, p.n, p.m, pts, f2, bseed, keep);
  o.b->phase = [&](const std::string &q) { c.phase(cat(q, " ", s.str(), off ? " disk" : "")); };
  for (int k : progStats) o.b->put((double)st[(size_t)k]);
  for (int i = 0; i < steps; ++i) o.b->step();
}
static void rcfile(const Sizes &s, const std::string &dir, bool hex) {
  std::ofstream f(".adolcrc");
  auto n = [&](size_t v) { std::ostringstream q; if (hex) q << "0x" << std::hex << v; else q << v; return q.str(); };
  f << "\"OBUFSIZE\" \"" << n(s.o) << "\"\n\"LBUFSIZE\" \"" << n(s.l) << "\"\n\"VBUFSIZE\" \"" << n(s.v) << "\"\n\"TBUFSIZE\" \"" << n(s.t) << "\"\n";
  if (!dir.empty()) f << "\"TAPE_DIR\" \"" << dir << "\"\n";
}
static std::string cur;
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  GenOpt o; o.lenmin = 3; o.lenmax = g.chance(0.3) ? 70 : 25; o.nmax = 6; o.mmax = 4; o.points = 3; o.bulkmax = 60; if (g.chance(0.3)) o.mmax = 1;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false;
  if (g.chance(0.4)) o.kinks = false;
  Gen G = generate(g, o);
  Gen G2 = generate(g, o);
  cur = G.p.str();
  Features f = featuresOf(G.p);
  const int keep = g.in(0, 1), steps = g.in(2, 7);
  const uint64_t bs = g.next();
  Out ref;
  fresh([&] { short id = createNewTape(); setCurrentTape(id); body(c, G.p, G.x, f, id, keep, bs, steps, Sizes{}, 0, 0, ref); });
  c.count("reference_numbers", (long)ref.b->log.size());
  for (auto &[k, v] : ref.b->calls) c.count("call_" + k, v);
  const int alts = g.in(1, 3);
  for (int a = 0; a < alts; ++a) {
    const bool rcf = g.chance(0.35), dir = rcf && g.chance(0.5);
    const Sizes rs = pickSizes(g, false);
    if (dir) fs::create_directories("tapedir");
    if (rcf) rcfile(rs, dir ? "tapedir" : "", g.chance(0.3));
    const int hist = g.in(1, 4);
    const uint64_t hs = g.next();
    std::string what = cat(rcf ? cat(".adolcrc(", rs.str(), dir ? ",dir" : "", ")") : "");
    fresh([&] {
      Rng h(hs);
      short id = createNewTape(); setCurrentTape(id);
      for (int k = 0; k < hist; ++k) {
        const bool same = k == hist - 1 || h.chance(0.4);
        Sizes s = rcf && h.chance(0.7) ? Sizes{} : pickSizes(h);
        int off = h.in(0, 2) == 0, skip = h.in(0, 1);
        what += cat(" [", same ? "P " : "Q ", s.str(), off ? " disk" : "", skip ? " skip" : "", "]");
        Out out;
        if (same) {
          body(c, G.p, G.x, f, id, keep, bs, steps, s, off, skip, out);
          std::string why;
          for (int i = 0; i < G.p.m; ++i)
            if (!biteq(out.y[(size_t)i], ref.y[(size_t)i])) why = cat("recorded value ", i, ": ", out.y[(size_t)i], " vs ", ref.y[(size_t)i]);
          if (why.empty() && sameLog(*ref.b, *out.b, why)) {}
          if (!why.empty()) { c.violation(cat("differs:", why.substr(0, why.find_first_of(" :"))), cat(why, " storage:", what, " keep=", keep, " ", G.p.str())); return; }
          c.count("histories_compared");
          c.count(out.spilled ? "op_loc_val_on_disk" : "op_loc_val_in_memory");
          if (out.tspilled) c.count("taylors_on_disk");
          if (rcf && !s.custom) {
            c.count("adolcrc_sizes");
            std::array<size_t, TapeInfos::STAT_SIZE> st; st = tapestats(id);
            if (k == 0) c.expect(st[TapeInfos::OP_BUFFER_SIZE] == rs.o && st[TapeInfos::LOC_BUFFER_SIZE] == rs.l && st[TapeInfos::VAL_BUFFER_SIZE] == rs.v && st[TapeInfos::TAY_BUFFER_SIZE] == rs.t, "adolcrc-ignored", what);
          }
          if (k) c.count("rerecorded");
          c.nontrivial(hmix(hmix(G.p.hash(), s.o * 131 + s.l * 7 + s.v * 3 + s.t), hs + (uint64_t)k));
        } else {
          // another program uses the same tape in between
          Features f2 = featuresOf(G2.p);
          body(c, G2.p, G2.x, f2, id, h.in(0, 1), h.next(), h.in(0, 2), s, off, skip, out);
        }
      }
    });
    if (rcf) fs::remove(".adolcrc");
    if (dir) { c.count("tape_dir_used"); long left = 0; for (auto &e : fs::directory_iterator("tapedir")) { (void)e; ++left; } (void)left; fs::remove_all("tapedir"); }
    if (c.caseViol) return;
  }
  c.sample(cat(G.p.str()));
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    try { oneCase(c); } catch (const std::exception &e) { c.violation("exception:" + c.phase_.substr(0, c.phase_.find(' ')), cat(e.what(), " ", c.phase_, " ", cur)); }
  });
}
