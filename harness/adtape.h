// Recording helpers on the ADOL-C tape.
#pragma once
#include <adolc/adolc.h>
#include "prog.h"
namespace pg {
inline double valOf(const adouble &v) { return v.value(); }
template <> struct Vx<adouble> {
  advector w;
  explicit Vx(size_t n) : w(n) {}
  adouble get(const adouble &i) const { return w[i]; }
  adubref ref(const adouble &i) { return w[i]; }
  adouble &at(size_t i) { return w[i]; }
  adouble look(const adouble &a, const adouble &b) const { return w.lookupindex(a, b); }
  static void sel(adubref &&d, const adouble &c, const adouble &a, const adouble &b, bool eq) { if (eq) condeqassign(d, c, a, b); else condassign(d, c, a, b); }
  static void sel(adubref &&d, const adouble &c, const adouble &a, bool eq) { if (eq) condeqassign(d, c, a); else condassign(d, c, a); }
  static void copy(Vx &d, const Vx &s) { adolc_vec_copy(&d.w[size_t(0)], &s.w[size_t(0)], s.w.size()); }
  static adouble dot(const Vx &a, const Vx &b) { return adolc_vec_dot(&a.w[size_t(0)], &b.w[size_t(0)], a.w.size()); }
  static void axpy(Vx &r, const adouble &a, const Vx &x, const Vx &y) { adolc_vec_axpy(&r.w[size_t(0)], a, &x.w[size_t(0)], &y.w[size_t(0)], x.w.size()); }
  static pdouble par(double k) { return pdouble(k); }
};
} // namespace pg
namespace at {
// Position (number of executed instructions) after which every dependent is
// declared: any point after its last assignment, in the order of the
// dependents.  Uses of the variable after the declaration stay possible.
inline std::vector<size_t> depPositions(const pg::Prog &p, vh::Rng &g) {
  std::vector<size_t> last((size_t)p.nr, 0), pos;
  for (size_t i = 0; i < p.code.size(); ++i) {
    const pg::Ins &I = p.code[i];
    last[(size_t)I.dst] = i + 1;
    if (I.op == pg::SWAP || I.op == pg::PINC || I.op == pg::PDEC) last[(size_t)I.a] = i + 1;
  }
  size_t cur = 0;
  for (int d : p.dep) {
    cur = std::max(cur, last[(size_t)d]);
    if (g.chance(0.3)) cur = (size_t)g.in((int)cur, (int)p.code.size());
    pos.push_back(cur);
  }
  return pos;
}
// records program p at x on tape id; returns the values delivered by >>=
inline thread_local const size_t *recBufs = nullptr; // buffer sizes of the next recording
inline std::vector<double> record(const pg::Prog &p, const std::vector<double> &x, short id, int keep = 0, int offFlag = 0, vh::Rng *early = nullptr) {
  std::vector<double> y(p.m);
  std::vector<size_t> pos;
  if (early) pos = depPositions(p, *early);
  else pos.assign((size_t)p.m, p.code.size());
  if (recBufs) trace_on(id, keep, recBufs[0], recBufs[1], recBufs[2], recBufs[3], 0); else trace_on(id, keep);
  {
    std::vector<adouble> r;
    r.reserve((size_t)p.nr);
    if (early && early->chance(0.5)) {
      // later independents take over locations of temporaries that died
      for (int i = 0; i < p.nr; ++i) {
        if (i && i < p.n) { adouble t = r[0] * 3.0; adouble s = sin(t) + t; }
        r.emplace_back();
        if (i < p.n) r[(size_t)i] <<= x[(size_t)i];
      }
    } else {
      pg::initRegs<adouble>(p, r);
      for (int i = 0; i < p.n; ++i) r[(size_t)i] <<= x[(size_t)i];
    }
    size_t nd = 0;
    for (size_t i = 0; i <= p.code.size(); ++i) {
      // a register may be used for several dependents
      while (nd < pos.size() && pos[nd] == i) { r[(size_t)p.dep[nd]] >>= y[nd]; ++nd; }
      if (i < p.code.size()) pg::exec1<adouble>(p.code[i], r);
    }
  }
  trace_off(offFlag);
  return y;
}
struct Mat {
  std::vector<double> d;
  std::vector<double *> p;
  Mat(size_t r, size_t c, double v = 0) : d(r * c + 1, v), p(r + 1) {
    d.back() = 7.5; // a guard
    for (size_t i = 0; i < r; ++i) p[i] = d.data() + i * c;
  }
  double **ptr() { return p.data(); }
  double *operator[](size_t i) { return p[i]; }
  const double *operator[](size_t i) const { return p[i]; }
};
struct Ten {
  std::vector<double> d;
  std::vector<double *> q;
  std::vector<double **> p;
  Ten(size_t a, size_t b, size_t c, double v = 0) : d(a * b * c + 1, v), q(a * b + 1), p(a + 1) {
    d.back() = 7.5; // a guard
    for (size_t i = 0; i < a * b; ++i) q[i] = d.data() + i * c;
    for (size_t i = 0; i < a; ++i) p[i] = q.data() + i * b;
  }
  double ***ptr() { return p.data(); }
  double **operator[](size_t i) { return p[i]; }
};
} // namespace at
