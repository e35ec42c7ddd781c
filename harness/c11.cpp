// C11: threads working on their own tapes obtain, bit by bit, what each of
// them obtains alone; run under TSan (data races) and ASan (everything).
#include "acts.h"
using namespace vh; using namespace acts;
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const int k = g.in(2, 6);
  std::vector<Job> J((size_t)k); uint64_t h = 0;
  const bool same = g.chance(0.2); // all threads do the same at the same time
  const int focus = g.chance(0.4) ? g.in(0, 7) : -1;
  for (auto &j : J) {
    const int na = g.in(1, 4);
    for (int i = 0; i < na; ++i) j.acts.push_back(focus >= 0 && g.chance(0.7) ? focus : g.in(0, 7));
    bool scr = false; for (int a : j.acts) scr |= a == 7;
    if (scr) { const int ns = g.in(1, 2); for (int i = 0; i < ns; ++i) j.S.push_back(makeScript(g, c.thorough, COLPACK)); }
    j.seed = g.next();
    if (same && &j != &J[0]) j = J[0];
    for (int a : j.acts) c.count(std::string("activity_") + ANAME[a]);
    h = hmix(h, j.seed);
  }
  c.count("threads", k);
  std::vector<Th> solo((size_t)k), tog((size_t)k);
  const bool first = g.chance(0.5); // concurrent run before the solo runs: first-use initialisation races
  auto alone = [&] { c.phase("alone"); for (int i = 0; i < k; ++i) fresh([&] { play(J[(size_t)i], solo[(size_t)i]); }); };
  auto together = [&] {
    c.phase("together");
    std::atomic<int> inside{0}, ready{0}; std::atomic<bool> go{false};
    std::vector<std::thread> T; std::vector<std::exception_ptr> ex((size_t)k);
    for (int i = 0; i < k; ++i) {
      tog[(size_t)i].noise = Rng(g.next()); tog[(size_t)i].level = g.in(0, 3); tog[(size_t)i].inside = &inside;
      T.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
        inside.fetch_add(1, std::memory_order_relaxed);
        try { play(J[(size_t)i], tog[(size_t)i]); } catch (...) { ex[(size_t)i] = std::current_exception(); }
        inside.fetch_sub(1, std::memory_order_relaxed); });
    }
    while (ready.load(std::memory_order_relaxed) < k) std::this_thread::yield();
    go.store(true, std::memory_order_relaxed);
    for (auto &t : T) t.join();
    for (auto &e : ex) if (e) std::rethrow_exception(e);
  };
  if (first) { together(); alone(); } else { alone(); together(); }
  long ov = 0, st = 0; for (auto &t : tog) { ov += t.overlap; st += t.steps; for (auto &q : t.calls) c.count("call_" + q.first.substr(0, q.first.find(' ')), q.second); }
  c.count("steps", st); c.count("steps_with_another_thread_active", ov); if (ov) c.count("overlapping_runs");
  c.nontrivial(hmix(h, (uint64_t)k));
  if (c.idx < 40) c.sample(cat(k, " threads, activities of the first: ", [&] { std::string s; for (int a : J[0].acts) s += cat(ANAME[a], " "); return s; }()));
  for (int i = 0; i < k; ++i) {
    auto &x = tog[(size_t)i].log, &y = solo[(size_t)i].log; c.count("numbers_compared", (long)y.size());
    for (size_t q = 0; q < std::max(x.size(), y.size()); ++q) if (q >= x.size() || q >= y.size() || !biteq(x[q], y[q])) {
      const std::string w = solo[(size_t)i].at(q);
      c.violation(cat("interference:", w.substr(0, w.find(' '))), cat("thread ", i, " of ", k, " ", w, " entry ", q, " together ", q < x.size() ? cat(x[q]) : "none", " alone ", q < y.size() ? cat(y[q]) : "none")); break; }
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { oneCase(c); }); }
