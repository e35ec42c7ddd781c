// C10: tapes are isolated: several tapes recorded and evaluated in interleaved
// micro-steps behave, bit by bit, like every tape on its own.
#include "actor.h"
#include <memory>
using namespace vh;
using namespace pg;
using namespace at;

using namespace act;
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const int k = g.in(2, 4);
  std::vector<Script> S;
  for (int i = 0; i < k; ++i) S.push_back(makeScript(g, c.thorough));
  uint64_t h = 0; for (auto &s : S) for (auto &p : s.P) h = hmix(h, p.hash());
  // together
  std::vector<std::unique_ptr<Actor>> A;
  for (auto &s : S) A.push_back(std::make_unique<Actor>(s, &c));
  std::string order, bad;
  const bool burst = g.chance(0.5);
  fresh([&] {
    std::vector<ValueTape *> stack; std::vector<size_t> nest; // tapes being recorded, in order of trace_on
    long overl = 0, inrec = 0;
    size_t cur = 0;
    bool lifo = true;
    while (true) {
      std::vector<size_t> live; for (size_t i = 0; i < A.size(); ++i) if (!A[i]->done()) live.push_back(i);
      if (live.empty()) break;
      if (A[cur]->done() || g.chance(burst ? 0.15 : 0.6)) cur = live[g.next() % live.size()];
      Actor &a = *A[cur];
      const bool was = a.recording, st = a.started; ValueTape *before = currentTapePtr(); const size_t logBefore = a.log.size();
      const size_t pc0 = a.pc;
      size_t recs = 0; for (auto &q : A) recs += q->recording && q.get() != &a;
      a.tick();
      (void)logBefore;
      if (recs && was) ++overl;
      if (recs && st && !was && !a.recording && a.pc != pc0) ++inrec;
      if (!was && a.recording) { stack.push_back(before); nest.push_back(cur); }
      else if (was && !a.recording) {
        // the innermost recording ended: the tape current before it is current again
        if (nest.empty() || nest.back() != cur) lifo = false;
        if (lifo && currentTapePtr() != stack.back() && bad.empty()) bad = cat("after trace_off of tape ", a.id, " the current tape is not the one before its trace_on");
        if (lifo) c.count("trace_off_restores");
        stack.pop_back();
        for (size_t i = nest.size(); i-- > 0;) if (nest[i] == cur) { nest.erase(nest.begin() + (long)i); break; }
        if (nest.empty()) { lifo = true; }
      } else if (st && !was && a.started && pc0 < a.s.ev.size() && a.s.ev[pc0].k != Ev::RES && !a.recording) {
        if (currentTapePtr() != before && bad.empty()) bad = cat("an evaluation on tape ", a.id, " changed the current tape");
        c.count("current_tape_kept");
      }
      if (order.size() < 400) order += (char)('0' + cur);
      h = hmix(h, cur);
    }
    c.count("recording_steps_while_another_records", overl); c.count("evaluations_while_another_records", inrec);
    for (auto &a : A) a->finish();
    std::vector<short> tags; cachedTraceTags(tags); if (tags.size() != A.size()) bad = "cachedTraceTags";
  });
  c.nontrivial(h);
  if (c.idx < 40) c.sample(cat(k, " tapes, order ", order, " ", S[0].P[0].str()));
  if (!bad.empty()) c.violation("current_tape", bad + " order " + order);
  for (size_t i = 0; i < A.size(); ++i) {
    Actor ref(S[i], nullptr); c.phase(cat("alone ", i));
    ref.freshTapes = S[i].resVals.empty() && g.chance(0.6); if (ref.freshTapes) c.count("fresh_tape_per_recording");
    fresh([&] { while (!ref.done()) ref.tick(); ref.finish(); ref.regs.clear(); });
    const auto &x = A[i]->log, &y = ref.log;
    c.count("numbers_compared", (long)y.size());
    if (A[i]->bat) for (auto &q : A[i]->bat->calls) c.count("call_" + q.first, q.second);
    for (size_t j = 0; j < std::max(x.size(), y.size()); ++j)
      if (j >= x.size() || j >= y.size() || !biteq(x[j], y[j])) {
        c.violation(cat("interference:", A[i]->at(j).substr(0, A[i]->at(j).find(' '))), cat("tape ", i, " ", A[i]->at(j), " entry ", j, " together ", j < x.size() ? cat(x[j]) : "none", " alone ", j < y.size() ? cat(y[j]) : "none", " order ", order, " ", S[i].P[0].str())); break;
      }
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { oneCase(c); }); }
