// C09: active variables never share or lose their storage.  Random histories
// of containers of active variables on one or several tapes, in and out of
// recordings; a shadow value per variable, and a registry of locations.
#include "adtape.h"
#include <adolc/storemanager.h>
#include <algorithm>
#include <array>
#include <deque>
#include <fstream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
using namespace vh; using namespace at;
constexpr int K = 3; // evaluation points
// +0 and -0 count as the same value here (see C23)
static bool same(double a, double b) { return a == b || biteq(a, b); }
struct S : std::array<double, K> { S(double v = 0) { fill(v); } };
static S op(int k, const S &a, const S &b, double c) { S r; for (int i = 0; i < K; ++i) switch (k) { case 0: r[i] = a[i] + b[i]; break; case 1: r[i] = a[i] - b[i]; break; case 2: r[i] = a[i] * b[i]; break; case 3: r[i] = a[i] * c; break; case 4: r[i] = c - a[i]; break; case 5: r[i] = std::sin(a[i]); break; case 6: r[i] = std::cos(a[i]); break; case 7: r[i] = a[i] + c; break; default: r[i] = a[i] * b[i] + c; } return r; }
static adouble aop(int k, const adouble &a, const adouble &b, double c) { switch (k) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a * c; case 4: return c - a; case 5: return sin(a); case 6: return cos(a); case 7: return a + c; default: return a * b + c; } }
struct Pair { adouble first; std::array<adouble, 2> rest; };
enum Kind { ONE, VEC, DEQ, LIST, MAP, ADV, ARR, OPT, STRUCT, BORROW, NK };
static const char *kname[] = {"single", "vector", "deque", "list", "map", "advector", "array", "optional", "struct", "borrowed"};
struct Box { // a container with its shadow
  Kind k; std::vector<S> s; bool contig = false;
  std::unique_ptr<adouble> one; std::vector<adouble> vec; std::deque<adouble> deq; std::list<adouble> lst; std::map<int, adouble> map; std::unique_ptr<advector> adv; std::unique_ptr<adouble[]> arr; std::optional<adouble> opt; std::unique_ptr<Pair> str; size_t raw = 0;
  std::vector<adouble *> all() {
    std::vector<adouble *> r;
    switch (k) { case ONE: r.push_back(one.get()); break; case VEC: for (auto &q : vec) r.push_back(&q); break; case DEQ: for (auto &q : deq) r.push_back(&q); break; case LIST: for (auto &q : lst) r.push_back(&q); break; case MAP: for (auto &q : map) r.push_back(&q.second); break;
      case ADV: for (size_t i = 0; i < adv->size(); ++i) r.push_back(&(*adv)[i]); break; case ARR: for (size_t i = 0; i < s.size(); ++i) r.push_back(&arr[i]); break; case OPT: if (opt) r.push_back(&*opt); break; case STRUCT: r.push_back(&str->first); r.push_back(&str->rest[0]); r.push_back(&str->rest[1]); break; default: break; }
    return r;
  }
};
struct World { // one tape
  short id = -1; bool singles = false, tight = true; size_t peak = 0, nmax = 1;
  std::list<Box> B; bool rec = false; int keep = 0; std::vector<std::vector<double>> x; /* inputs of a recording, per point */
};
struct Run {
  Ctx &c; Rng &g; std::deque<World> W; long nbad = 0; std::string hist;
  Run(Ctx &c_) : c(c_), g(c_.rng) {}
  void bad(const std::string &k, const std::string &m) { if (!nbad++) c.violation(k, m + " after " + hist.substr(hist.size() > 500 ? hist.size() - 500 : 0)); }
  void h(const std::string &s) { hist += s; hist += ' '; c.phase(s); c.count("op_" + s); }
  // -- checks
  void look(World &w) {
    setCurrentTape(w.id);
    std::map<size_t, std::string> seen; size_t n = 0;
    auto chk = [&](size_t loc, double v, const S &s, const char *kn, size_t i) {
      ++n;
      if (!same(v, s[0])) bad(cat("value:", kn), cat(kn, " element ", i, " holds ", v, " expected ", s[0]));
      auto r = seen.emplace(loc, cat(kn, " element ", i));
      if (!r.second) bad(cat("alias:", kn), cat(kn, " element ", i, " shares location ", loc, " with ", r.first->second));
      if (loc >= storeSizeOf(w)) bad("range", cat("location ", loc, " of ", storeSizeOf(w)));
    };
    for (auto &b : w.B) {
      auto a = b.all();
      if (b.k == BORROW) { adouble q = adouble::borrow_location(b.raw); chk(q.loc(), q.value(), b.s[0], kname[b.k], 0); continue; }
      if (a.size() != b.s.size()) { bad("harness", "sizes"); return; }
      for (size_t i = 0; i < a.size(); ++i) { chk(a[i]->loc(), a[i]->value(), b.s[i], kname[b.k], i); if (b.contig && a[i]->loc() != a[0]->loc() + i) bad(cat("contiguous:", kname[b.k]), cat(kname[b.k], " element ", i, " at ", a[i]->loc(), " first at ", a[0]->loc())); }
    }
    c.count("variables_checked", (long)n);
    const size_t lives = currentTape().numLives();
    if (lives != n) bad("live_count", cat("library counts ", lives, " live variables, there are ", n));
    w.peak = std::max(w.peak, n);
  }
  size_t storeSizeOf(World &w) { return (void)w, currentTape().storeSize(); }
  // -- operands
  std::pair<adouble *, S *> any(World &w, Box **bx = nullptr) {
    for (int t = 0; t < 20 && !w.B.empty(); ++t) { auto it = std::next(w.B.begin(), (long)(g.next() % w.B.size())); if (it->k == BORROW) continue; auto a = it->all(); if (a.empty()) continue; const size_t i = g.next() % a.size(); if (bx) *bx = &*it; return {a[i], &it->s[i]}; }
    return {nullptr, nullptr};
  }
  // a new value with its shadow (a temporary)
  adouble make(World &w, S &s) {
    auto p = any(w), q = any(w); const double v = g.num();
    if (!p.first || !q.first || g.chance(0.3)) { s = S(v); return adouble(v); }
    const int k = g.in(0, 8); s = op(k, *p.second, *q.second, v); return aop(k, *p.first, *q.first, v);
  }
  void contigAlloc(World &w, Box &b, size_t n) { // n new variables, contiguous on request
    (void)w;
    b.contig = !w.singles && g.chance(0.7);
    w.nmax = std::max(w.nmax, n);
    if (b.contig) currentTape().ensureContiguousLocations(n);
    b.s.assign(n, S(0.0));
  }
  void create(World &w) {
    Box b; b.k = (Kind)g.in(0, NK - 1); const size_t n = g.chance(0.1) ? (size_t)g.in(10, 200) : (size_t)g.in(1, 8);
    if (b.k == ADV && w.singles) b.k = VEC;
    h(cat("new_", kname[b.k]));
    switch (b.k) {
    case ONE: { S s; switch (g.in(0, 3)) { case 0: b.one = std::make_unique<adouble>(make(w, s)); break; case 1: { auto p = any(w); if (!p.first) return; s = *p.second; b.one = std::make_unique<adouble>(*p.first); } break; case 2: { const double v = g.num(); s = S(v); b.one = std::make_unique<adouble>(v); } break; default: s = S(0.0); b.one = std::make_unique<adouble>(); } b.s = {s}; } break;
    case VEC: contigAlloc(w, b, n); b.vec = std::vector<adouble>(n); break;
    case DEQ: { const size_t k = std::min<size_t>(n, 20); for (size_t i = 0; i < k; ++i) { S s; if (g.chance(0.5)) { b.deq.push_back(make(w, s)); b.s.push_back(s); } else { b.deq.push_front(make(w, s)); b.s.insert(b.s.begin(), s); } } } break;
    case LIST: for (size_t i = 0; i < std::min<size_t>(n, 20); ++i) { S s; b.lst.push_back(make(w, s)); b.s.push_back(s); } break;
    case MAP: { std::map<int, S> m; for (size_t i = 0; i < std::min<size_t>(n, 20); ++i) { const int k = g.in(0, 30); S s; if (g.chance(0.5)) { adouble t = make(w, s); auto it = b.map.find(k); if (it == b.map.end()) b.map.emplace(k, std::move(t)); else it->second = std::move(t); m[k] = s; } else { b.map[k] = 1.5; m[k] = S(1.5); } } for (auto &q : m) b.s.push_back(q.second); } break;
    case ADV: { const int how = g.in(0, 2); w.nmax = std::max(w.nmax, n);
      Box *src = nullptr; for (auto &q : w.B) if (q.k == ADV && g.chance(0.5)) src = &q;
      if (how == 0 && src) { b.adv = std::make_unique<advector>(*src->adv); b.s = src->s; b.contig = true; }
      else if (how == 1) { for (auto &q : w.B) if (q.k == VEC && !q.s.empty() && g.chance(0.5)) { b.adv = std::make_unique<advector>(q.vec); b.s = q.s; break; } if (!b.adv) { b.adv = std::make_unique<advector>(n); b.s.assign(n, S(0.0)); b.contig = true; } }
      else { b.adv = std::make_unique<advector>(n); b.s.assign(n, S(0.0)); b.contig = true; } } break;
    case ARR: contigAlloc(w, b, n); b.arr = std::make_unique<adouble[]>(n); break;
    case OPT: if (g.chance(0.8)) { S s; b.opt = make(w, s); b.s = {s}; } break;
    case STRUCT: { b.str = std::make_unique<Pair>(); b.s.assign(3, S(0.0)); S s; b.str->rest[1] = make(w, s); b.s[2] = s; } break;
    case BORROW: { S s; adouble t = make(w, s); b.raw = t.release_loc(); b.s = {s}; } break;
    default: break;
    }
    w.B.push_back(std::move(b));
  }
  void destroy(World &w) {
    if (w.B.empty()) return;
    auto it = std::next(w.B.begin(), (long)(g.next() % w.B.size()));
    h(cat("destroy_", kname[it->k]));
    if (it->k == BORROW) currentTape().free_loc(it->raw);
    w.B.erase(it);
  }
  void assign(World &w) {
    Box *bx = nullptr; auto p = any(w, &bx), q = any(w); if (!p.first || !q.first) return;
    const double v = g.num();
    switch (g.in(0, 9)) {
    case 0: h("assign_temporary"); { S s; *p.first = make(w, s); *p.second = s; bx->contig = false; } break;
    case 1: h("assign_copy"); *p.first = *q.first; *p.second = *q.second; break;
    case 2: h("assign_constant"); *p.first = v; *p.second = S(v); break;
    case 3: h("assign_arith"); { const int k = g.in(0, 3); const S o = *q.second; if (k == 0) *p.first += *q.first; else if (k == 1) *p.first -= *q.first; else if (k == 2) *p.first *= *q.first; else *p.first *= v; *p.second = op(k, *p.second, o, v); } break;
    case 4: h("assign_sum_temporary"); { S s; adouble t = make(w, s); if (g.chance(0.5)) { *p.first += std::move(t); *p.second = op(0, *p.second, s, 0); } else { *p.first -= std::move(t); *p.second = op(1, *p.second, s, 0); } } break;
    case 5: h("self_assign"); { adouble &r = *p.first; r = *p.first; } break;
    case 6: h("self_move"); { adouble &r = *p.first; r = std::move(*p.first); } break;
    case 7: h("std_swap"); if (p.first != q.first) { using std::swap; swap(*p.first, *q.first); std::swap(*p.second, *q.second); bx->contig = false; for (auto &b : w.B) for (auto *a : b.all()) if (a == q.first) b.contig = false; } break;
    case 8: h("move_out_and_back"); { adouble t = std::move(*p.first); S s; adouble u = make2(s, q, p, t, v); *p.first = std::move(t); q.first == p.first ? void() : void(); (void)u; } break;
    default: h("increment"); if (g.chance(0.5)) { adouble o = (*p.first)++; if (!same(o.value(), (*p.second)[0])) bad("postfix", "old value"); } else ++*p.first; *p.second = op(7, *p.second, S(), 1.0); break;
    }
  }
  adouble make2(S &s, std::pair<adouble *, S *> q, std::pair<adouble *, S *> p, const adouble &t, double v) { if (q.first == p.first) return adouble(t); s = op(3, *q.second, S(), v); return aop(3, *q.first, *q.first, v); }
  void borrow(World &w) {
    for (auto &b : w.B) if (b.k == BORROW && g.chance(0.6)) {
      h("use_borrowed"); adouble q = adouble::borrow_location(b.raw);
      auto p = any(w); const double v = g.num();
      if (p.first && g.chance(0.5)) { q += *p.first; b.s[0] = op(0, b.s[0], *p.second, 0); } else if (g.chance(0.5)) { q = v; b.s[0] = S(v); } else { adouble t = q * v; if (!same(t.value(), op(3, b.s[0], S(), v)[0])) bad("borrowed", "product"); }
      return;
    }
  }
  void container(World &w) {
    if (w.B.empty()) return;
    auto &b = *std::next(w.B.begin(), (long)(g.next() % w.B.size()));
    S s;
    switch (b.k) {
    case VEC: switch (g.in(0, 10)) {
      case 0: h("vector_push"); { adouble t = make(w, s); b.vec.push_back(std::move(t)); } b.s.push_back(s); b.contig = false; break;
      case 1: if (!b.s.empty()) { h("vector_pop"); b.vec.pop_back(); b.s.pop_back(); } break;
      case 2: if (!b.s.empty()) { const size_t i = g.next() % b.s.size(); h("vector_insert"); adouble t = make(w, s); b.vec.insert(b.vec.begin() + (long)i, std::move(t)); b.s.insert(b.s.begin() + (long)i, s); b.contig = false; } break;
      case 3: if (!b.s.empty()) { const size_t i = g.next() % b.s.size(); h("vector_erase"); b.vec.erase(b.vec.begin() + (long)i); b.s.erase(b.s.begin() + (long)i); b.contig = false; } break;
      case 4: h("vector_copy"); if (w.B.size() < 30) { Box n; n.k = VEC; n.vec = b.vec; n.s = b.s; w.B.push_back(std::move(n)); } break;
      case 5: h("vector_assign"); for (auto &q : w.B) if (q.k == VEC && &q != &b) { b.vec = q.vec; b.s = q.s; b.contig = false; break; } break;
      case 6: h("vector_resize"); { const size_t n = (size_t)g.in(0, 12); b.vec.resize(n); b.s.resize(n, S(0.0)); b.contig = false; } break;
      case 7: h("vector_rotate"); if (b.s.size() > 1) { const long k = g.in(1, (int)b.s.size() - 1); std::rotate(b.vec.begin(), b.vec.begin() + k, b.vec.end()); std::rotate(b.s.begin(), b.s.begin() + k, b.s.end()); b.contig = false; } break;
      case 8: h("vector_sort"); { // unique ordering by the value at the recording point
        if (b.s.empty()) break;
        std::sort(b.vec.begin(), b.vec.end(), [](const adouble &x, const adouble &y) { return x.value() < y.value(); }); auto s0 = b.s; std::stable_sort(b.s.begin(), b.s.end(), [](const S &x, const S &y) { return x[0] < y[0]; });
        // equal keys: the sort may permute them; drop the box if that matters
        bool dup = false; for (size_t i = 0; i + 1 < b.s.size(); ++i) if (b.s[i][0] == b.s[i + 1][0] && b.s[i] != b.s[i + 1]) dup = true;
        b.contig = false; if (dup) for (auto &q : b.vec) q = 0.25; if (dup) b.s.assign(b.s.size(), S(0.25)); } break;
      case 9: h("vector_reverse_shrink"); std::reverse(b.vec.begin(), b.vec.end()); std::reverse(b.s.begin(), b.s.end()); b.vec.shrink_to_fit(); b.contig = b.contig && b.s.size() < 2; break;
      default: h("vector_fill"); if (!b.s.empty()) { const double v = g.num(); std::fill(b.vec.begin(), b.vec.end(), adouble(v)); b.s.assign(b.s.size(), S(v)); } break; } break;
    case DEQ: switch (g.in(0, 3)) { case 0: h("deque_push"); b.deq.push_front(make(w, s)); b.s.insert(b.s.begin(), s); break; case 1: if (!b.s.empty()) { h("deque_pop"); b.deq.pop_back(); b.s.pop_back(); } break; case 2: if (!b.s.empty()) { h("deque_move_end"); adouble t = std::move(b.deq.front()); b.deq.pop_front(); b.deq.push_back(std::move(t)); std::rotate(b.s.begin(), b.s.begin() + 1, b.s.end()); } break; default: if (!b.s.empty()) { h("deque_pop_front"); b.deq.pop_front(); b.s.erase(b.s.begin()); } } break;
    case LIST: if (!b.s.empty()) { if (g.chance(0.5)) { h("list_splice"); b.lst.splice(b.lst.end(), b.lst, b.lst.begin()); std::rotate(b.s.begin(), b.s.begin() + 1, b.s.end()); } else { h("list_pop"); b.lst.pop_front(); b.s.erase(b.s.begin()); } } break;
    case ADV: if (!b.s.empty()) {
      const size_t i = g.next() % b.s.size(); const double v = g.num(); auto p = any(w);
      switch (g.in(0, 6)) {
      case 0: h("advector_read"); { adouble ix = (double)i; const advector &ca = *b.adv; adouble t = ca[ix]; if (!same(t.value(), b.s[i][0])) bad("advector_read", cat("element ", i)); if (p.first) { *p.first += t; *p.second = op(0, *p.second, b.s[i], 0); } } break;
      case 1: h("advector_write"); { adouble ix = (double)i; (*b.adv)[ix] = v; b.s[i] = S(v); } break;
      case 2: h("advector_write_var"); if (p.first) { const S o = *p.second; adouble ix = (double)i; (*b.adv)[ix] = *p.first; b.s[i] = o; } break;
      case 3: h("advector_add"); if (p.first) { const S o = *p.second; adouble ix = (double)i; (*b.adv)[ix] += *p.first; b.s[i] = op(0, b.s[i], o, 0); } break;
      case 4: h("advector_element"); { adouble t = make(w, s); (*b.adv)[i] = t; b.s[i] = s; } break;
      case 5: h("advector_replace"); { (*b.adv)[i] = make(w, s); b.s[i] = s; b.contig = false; } break;
      default: h("advector_postfix"); { adouble ix = (double)i; adouble t = (*b.adv)[ix]++; if (!same(t.value(), b.s[i][0])) bad("advector_postfix", "old value"); b.s[i] = op(7, b.s[i], S(), 1.0); } }
    } break;
    case OPT: if (b.opt) { h("optional_reset"); b.opt.reset(); b.s.clear(); } else { h("optional_emplace"); b.opt.emplace(make(w, s)); b.s = {s}; } break;
    case STRUCT: if (g.chance(0.5)) { h("struct_copy"); Box n; n.k = STRUCT; n.str = std::make_unique<Pair>(*b.str); n.s = b.s; w.B.push_back(std::move(n)); } else { h("struct_swap"); std::swap(b.str->rest[0], b.str->rest[1]); std::swap(b.s[1], b.s[2]); } break;
    default: break;
    }
  }
  // a function of temporaries: destroyed in an order of their own
  adouble deep(World &w, int d, S &s) { S a, b; if (d == 0) return make(w, s); adouble x = deep(w, d - 1, a); adouble y = deep(w, d - 1, b); const int k = g.in(0, 2); s = op(k, a, b, 0); return aop(k, x, y, 0); }
  void step(World &w) {
    setCurrentTape(w.id);
    const double u = g.uni();
    if (u < 0.2 || w.B.size() < 2) { if (w.B.size() < 40) create(w); }
    else if (u < 0.33) destroy(w);
    else if (u < 0.63) assign(w);
    else if (u < 0.66) borrow(w);
    else if (u < 0.7) { h("temporaries"); S s; auto p = any(w); adouble t = deep(w, g.in(1, 4), s); if (!same(t.value(), s[0])) bad("temporaries", cat(t.value(), " expected ", s[0])); if (p.first) { *p.first = std::move(t); *p.second = s; for (auto &b : w.B) b.contig = false; } }
    else if (u < 0.74 && !w.singles) { const size_t n = (size_t)g.in(1, 60); w.nmax = std::max(w.nmax, n); h("ensure"); currentTape().ensureContiguousLocations(n); if (g.chance(0.5)) { std::vector<adouble> t(n); for (size_t i = 1; i < n; ++i) if (t[i].loc() != t[0].loc() + i) { bad("contiguous:fresh", cat("variable ", i, " of ", n)); break; } c.count("contiguous_blocks"); } }
    else container(w);
    clampAll(w);
  }
  // keep numbers moderate without changing exactness
  void clampAll(World &w) { for (auto &b : w.B) { if (b.k == BORROW) { if (big(b.s[0])) { adouble q = adouble::borrow_location(b.raw); q = 0.5; b.s[0] = S(0.5); } continue; } auto a = b.all(); for (size_t i = 0; i < a.size(); ++i) if (big(b.s[i])) { *a[i] = 0.5; b.s[i] = S(0.5); } } }
  static bool big(const S &s) { for (double v : s) if (!(std::fabs(v) < 1e6)) return true; return false; }
  void startRec(World &w) {
    setCurrentTape(w.id); h("trace_on");
    w.keep = g.in(0, 1); w.rec = true; w.x.assign(K, {});
    if (g.chance(0.4)) trace_on(w.id, w.keep, (size_t)g.in(4, 60), (size_t)g.in(14, 300), (size_t)g.in(6, 60), (size_t)g.in(1, 60), g.in(0, 1)); else trace_on(w.id, w.keep);
    // variables that live already keep the value of the recording point
    for (auto &b : w.B) for (auto &s : b.s) s = S(s[0]);
    for (auto &b : w.B) if (b.k != BORROW) { auto a = b.all(); for (size_t i = 0; i < a.size(); ++i) if (g.chance(0.3) && w.x[0].size() < 12) { const double v = b.s[i][0]; *a[i] <<= v; for (int k = 0; k < K; ++k) { const double q = k ? v + 0.1 * g.num() : v; w.x[(size_t)k].push_back(q); b.s[i][k] = q; } } }
    if (w.x[0].empty()) { Box b; b.k = ONE; b.one = std::make_unique<adouble>(); b.s = {S(0.5)}; *b.one <<= 0.5; for (int k = 0; k < K; ++k) { const double q = k ? g.num() : 0.5; w.x[(size_t)k].push_back(q); b.s[0][k] = q; } w.B.push_back(std::move(b)); }
  }
  void stopRec(World &w) {
    setCurrentTape(w.id); h("trace_off");
    std::vector<S> dep; 
    for (auto &b : w.B) { if (b.k == BORROW) continue; auto a = b.all(); for (size_t i = 0; i < a.size(); ++i) if (dep.size() < 80 && g.chance(0.7)) { double y; *a[i] >>= y; if (!same(y, b.s[i][0])) bad("dependent", cat(y, " expected ", b.s[i][0])); dep.push_back(b.s[i]); } }
    if (dep.empty()) { adouble t = 0.5; double y; t >>= y; dep.push_back(S(0.5)); }
    trace_off(g.chance(0.2)); w.rec = false;
    const int n = (int)w.x[0].size(), m = (int)dep.size();
    std::vector<double> u((size_t)m), z((size_t)n), y((size_t)m), X((size_t)n), Y((size_t)m);
    auto dual = [&](const std::vector<double> &x, const std::vector<double> *z0) {
      for (auto &q : X) q = g.num();
      const int rc = fos_forward(w.id, m, n, 0, x.data(), X.data(), y.data(), Y.data()); if (rc < 0) return;
      double a = 0, b = 0, sc = 1; for (int i = 0; i < m; ++i) { a += u[(size_t)i] * Y[(size_t)i]; sc += std::fabs(u[(size_t)i] * Y[(size_t)i]); } for (int i = 0; i < n; ++i) { b += (*z0)[(size_t)i] * X[(size_t)i]; sc += std::fabs((*z0)[(size_t)i] * X[(size_t)i]); }
      if (std::isfinite(a) && std::isfinite(b) && !(std::fabs(a - b) <= 1e-9 * sc)) bad("adjoint", cat("reverse sweep disagrees with forward sweep: ", b, " ", a)); c.count("adjoint_identities"); };
    if (w.keep) { for (auto &q : u) q = g.num(); fos_reverse(w.id, m, n, u.data(), z.data()); auto z0 = z; dual(w.x[0], &z0); }
    for (int k = 0; k < K; ++k) {
      const int rc = zos_forward(w.id, m, n, 1, w.x[(size_t)k].data(), y.data());
      if (rc < 0) { c.count("points_with_changed_comparison"); continue; }
      for (int i = 0; i < m; ++i) if (!same(y[(size_t)i], dep[(size_t)i][(size_t)k])) { bad("tape_value", cat("point ", k, " dependent ", i, ": ", y[(size_t)i], " expected ", dep[(size_t)i][(size_t)k])); break; }
      c.count("dependents_compared", m);
      for (auto &q : u) q = g.num(); fos_reverse(w.id, m, n, u.data(), z.data()); auto z0 = z; dual(w.x[(size_t)k], &z0);
    }
    // outside of a recording only the recording point is meant
    for (auto &b : w.B) for (auto &s : b.s) s = S(s[0]);
  }
};
static void history(Ctx &c) {
  Run R(c); Rng &g = c.rng;
  const bool rc = g.chance(0.1);
  if (rc) { std::ofstream f(".adolcrc"); f << "\"INITLIVE\" \"" << (g.chance(0.5) ? g.in(1, 4) : g.in(5, 900)) << "\"\n"; }
  const int nt = g.chance(0.6) ? 1 : g.in(2, 3);
  for (int i = 0; i < nt; ++i) { World w; w.id = createNewTape(); setCurrentTape(w.id); w.singles = g.chance(0.15); if (w.singles) { currentTape().setStoreManagerType(StoreManager::ADOLC_LOCATION_SINGLETONS); c.count("singleton_store"); } else if (g.chance(0.2)) { currentTape().setStoreManagerControl(g.uni(1, 20), (size_t)g.in(1, 5000)); w.tight = false; } R.W.push_back(std::move(w)); }
  if (rc) unlink(".adolcrc");
  const int steps = g.in(10, c.thorough ? 400 : 120);
  int recording = -1; uint64_t hs = 0;
  for (int i = 0; i < steps && !R.nbad; ++i) {
    const int k = g.in(0, nt - 1); World &w = R.W[(size_t)k];
    if (g.chance(0.05)) { if (w.rec) { R.stopRec(w); recording = -1; } else if (recording < 0) { R.startRec(w); recording = k; } }
    else R.step(w);
    if (g.chance(0.5)) R.look(w);
  }
  for (auto &w : R.W) { if (w.rec && !R.nbad) R.stopRec(w); else if (w.rec) { setCurrentTape(w.id); trace_off(); } R.look(w); }
  for (char ch : R.hist) hs = hmix(hs, (uint64_t)ch);
  c.nontrivial(hs); if (c.idx < 30) c.sample(R.hist.substr(0, 200));
  for (auto &w : R.W) {
    setCurrentTape(w.id);
    for (auto &b : w.B) if (b.k == BORROW) currentTape().free_loc(b.raw);
    std::vector<int> d; while (!w.B.empty()) w.B.erase(std::next(w.B.begin(), (long)(g.next() % w.B.size())));
    if (currentTape().numLives()) R.bad("leak", cat(currentTape().numLives(), " locations of dead variables not released"));
    c.count("all_destroyed");
  }
}
// the same life repeated: the store stops growing
static void cycles(Ctx &c) {
  Rng &g = c.rng; const short id = createNewTape(); setCurrentTape(id);
  const bool rec = g.chance(0.4); const int live = g.in(0, 20), cyc = g.in(20, 60); const uint64_t seed = g.next();
  if (rec) trace_on(id);
  size_t peak = 0, nmax = 1;
  {
  std::vector<std::unique_ptr<adouble>> stay;
  for (int i = 0; i < live; ++i) { stay.push_back(std::make_unique<adouble>(1.0)); adouble gap[3]; }
  for (int k = 0; k < cyc; ++k) {
    Rng q(g.chance(0.5) ? seed : g.next());
    std::vector<std::unique_ptr<std::vector<adouble>>> v; std::vector<std::unique_ptr<adouble>> s; size_t cur = 0;
    for (int i = 0; i < 30; ++i) switch (q.in(0, 4)) {
      case 0: { const size_t n = (size_t)q.in(1, 40); nmax = std::max(nmax, n); currentTape().ensureContiguousLocations(n); v.push_back(std::make_unique<std::vector<adouble>>(n)); } break;
      case 1: if (!v.empty()) v.erase(v.begin() + (long)(q.next() % v.size())); break;
      case 2: case 3: s.push_back(std::make_unique<adouble>(q.num())); break;
      default: if (!s.empty()) s.erase(s.begin() + (long)(q.next() % s.size())); }
    cur = currentTape().numLives(); peak = std::max(peak, cur);
    while (!v.empty() || !s.empty()) { if (!v.empty() && q.chance(0.5)) v.erase(v.begin() + (long)(q.next() % v.size())); else if (!s.empty()) s.erase(s.begin() + (long)(q.next() % s.size())); peak = std::max(peak, cur); }
    if (!stay.empty() && g.chance(0.3)) { const size_t i = g.next() % stay.size(); stay[i].reset(); stay[i] = std::make_unique<adouble>(1.0); }
  }
  const size_t bound = 4 * ((nmax + 1) * (peak + 2) + 64);
  c.count("cycles", cyc); c.count("store_sizes_checked");
  if (currentTape().storeSize() > bound) c.violation("unbounded", cat("store of ", currentTape().storeSize(), " after ", cyc, " cycles with at most ", peak, " variables and blocks of ", nmax));
  }
  if (rec) { adouble x; double y; x <<= 1.0; x >>= y; }
  if (rec) trace_off();
  if (currentTape().numLives()) c.violation("leak", cat(currentTape().numLives(), " live after destruction"));
  c.nontrivial(seed);
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { if (c.idx % 8 == 7) cycles(c); else history(c); }); }); }
