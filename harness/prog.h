// Random imperative programs, executable on any arithmetic type.
#pragma once
#include "common.h"
#include "refalg.h"
#include <algorithm>
#include <array>
#include <optional>
#include <type_traits>

namespace pg {
using ra::TP;
using vh::Rng;

// ---- extra generic operators for the reference type
} // namespace pg
namespace ra {
template <class F> TP<F> &operator+=(TP<F> &a, const TP<F> &b) { return a = a + b; }
template <class F> TP<F> &operator-=(TP<F> &a, const TP<F> &b) { return a = a - b; }
template <class F> TP<F> &operator*=(TP<F> &a, const TP<F> &b) { return a = a * b; }
template <class F> TP<F> &operator/=(TP<F> &a, const TP<F> &b) { return a = a / b; }
#define RA_MIX(op)                                                             \
  template <class F> TP<F> operator op(const TP<F> &a, double b) {             \
    return a op TP<F>(b);                                                      \
  }                                                                            \
  template <class F> TP<F> operator op(double a, const TP<F> &b) {             \
    return TP<F>(a) op b;                                                      \
  }
RA_MIX(+) RA_MIX(-) RA_MIX(*) RA_MIX(/)
#undef RA_MIX
#define RA_MIXC(op)                                                            \
  template <class F> TP<F> &operator op(TP<F> &a, double b) {                  \
    return a op TP<F>(b);                                                      \
  }
RA_MIXC(+=) RA_MIXC(-=) RA_MIXC(*=) RA_MIXC(/=)
#undef RA_MIXC
template <class F> TP<F> &operator++(TP<F> &a) { return a += 1.0; }
template <class F> TP<F> &operator--(TP<F> &a) { return a -= 1.0; }
template <class F> TP<F> operator++(TP<F> &a, int) { TP<F> t = a; a += 1.0; return t; }
template <class F> TP<F> operator--(TP<F> &a, int) { TP<F> t = a; a -= 1.0; return t; }
#define RA_CMP(op)                                                             \
  template <class F> bool operator op(const TP<F> &a, const TP<F> &b) {        \
    return a.c[0] op b.c[0];                                                   \
  }                                                                            \
  template <class F> bool operator op(const TP<F> &a, double b) {              \
    return a.c[0] op F(b);                                                     \
  }                                                                            \
  template <class F> bool operator op(double a, const TP<F> &b) {              \
    return F(a) op b.c[0];                                                     \
  }
RA_CMP(<) RA_CMP(<=) RA_CMP(>) RA_CMP(>=) RA_CMP(==) RA_CMP(!=)
#undef RA_CMP
template <class F> TP<F> fmin(const TP<F> &a, double b) { return fmin(a, TP<F>(b)); }
template <class F> TP<F> fmin(double a, const TP<F> &b) { return fmin(TP<F>(a), b); }
template <class F> TP<F> fmax(const TP<F> &a, double b) { return fmax(a, TP<F>(b)); }
template <class F> TP<F> fmax(double a, const TP<F> &b) { return fmax(TP<F>(a), b); }
template <class F> void condassign(TP<F> &r, const TP<F> &c, const TP<F> &a, const TP<F> &b) {
  TP<F> t = c.c[0] > 0 ? a : b;
  r = t;
}
template <class F> void condassign(TP<F> &r, const TP<F> &c, const TP<F> &a) {
  if (c.c[0] > 0) { TP<F> t = a; r = t; }
}
template <class F> void condeqassign(TP<F> &r, const TP<F> &c, const TP<F> &a, const TP<F> &b) {
  TP<F> t = c.c[0] >= 0 ? a : b;
  r = t;
}
template <class F> void condeqassign(TP<F> &r, const TP<F> &c, const TP<F> &a) {
  if (c.c[0] >= 0) { TP<F> t = a; r = t; }
}
} // namespace ra

namespace pg {

enum Op : uint8_t {
  CONST, COPY, MOVE, SWAP, POS, NEG,
  ADD, SUB, MUL, DIV,
  ADDEQ, SUBEQ, MULEQ, DIVEQ, ADDEQC, SUBEQC, MULEQC, DIVEQC, ADDEQR, SUBEQR, MULEQR, DIVEQR,
  ADDEQP, SUBEQP, INC, DEC, PINC, PDEC,
  EXP, LOG, LOG10, SQRT, CBRT, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH,
  ASINH, ACOSH, ATANH, ERF, ERFC,
  POWC, CPOW, POWV, ATAN2, LDEXP,
  FABS, FMIN, FMAX, CEIL, FLOOR,
  COND4, COND3, CONDEQ4, CONDEQ3,
  BRANCH, WHILE, VECTMP, HORNER, BULK, LAMBDA, SQ, FREXP, HYPOT3,
  AVREAD, AVWRITE, AVSEL, AVLOOK, VCOPY, VDOT, VAXPY, PARAM,
  NOPS,
  EXT = NOPS // a step of the harness itself (external function, loop, ...)
};
inline const char *opname(int o) {
  static const char *n[] = {
      "CONST","COPY","MOVE","SWAP","POS","NEG","ADD","SUB","MUL","DIV",
      "ADDEQ","SUBEQ","MULEQ","DIVEQ","ADDEQC","SUBEQC","MULEQC","DIVEQC","ADDEQR","SUBEQR","MULEQR","DIVEQR",
      "ADDEQP","SUBEQP","INC","DEC","PINC","PDEC",
      "EXP","LOG","LOG10","SQRT","CBRT","SIN","COS","TAN","ASIN","ACOS","ATAN","SINH","COSH","TANH",
      "ASINH","ACOSH","ATANH","ERF","ERFC","POWC","CPOW","POWV","ATAN2","LDEXP",
      "FABS","FMIN","FMAX","CEIL","FLOOR","COND4","COND3","CONDEQ4","CONDEQ3",
      "BRANCH","WHILE","VECTMP","HORNER","BULK","LAMBDA","SQ","FREXP","HYPOT3",
      "AVREAD","AVWRITE","AVSEL","AVLOOK","VCOPY","VDOT","VAXPY","PARAM","EXT"};
  return n[o];
}
struct Ins {
  uint8_t op = 0;
  uint8_t v = 0; // variant
  int dst = 0, a = 0, b = 0, c = 0;
  double k = 0;
  int n = 0;
};
struct Prog {
  int n = 0, m = 0, nr = 0;
  std::vector<Ins> code;
  std::vector<int> dep;
  uint64_t hash() const {
    uint64_t h = vh::hmix((uint64_t)n * 1000 + m, nr);
    for (auto &i : code)
      h = vh::hmix(h, ((uint64_t)i.op << 40) ^ ((uint64_t)i.v << 32) ^ (i.dst << 24) ^ (i.a << 16) ^ (i.b << 8) ^ i.c ^ vh::hdbl(i.k));
    for (int d : dep)
      h = vh::hmix(h, d);
    return h;
  }
  std::string str() const {
    std::string s = vh::cat("n=", n, " m=", m, " regs=", nr, ":");
    for (auto &i : code)
      s += vh::cat(" r", i.dst, "=", opname(i.op), "/", (int)i.v, "(r", i.a, ",r", i.b, ",r", i.c, ",", i.k, ",", i.n, ")");
    s += " deps:";
    for (int d : dep)
      s += vh::cat(" r", d);
    return s;
  }
};

// Observer of double executions: domain margins, kinks, comparisons
struct Obs {
  bool bad = false;        // domain/margin violated
  double margin = 0.02;    // required distance from domain borders and kinks
  double kinkMargin = 0.02;
  double maxval = 0;
  std::vector<int> outcomes; // outcome of every comparison / selection
  std::vector<int> kinds;    // 0 comparison, 1 kink, 2 selection, 3 step
  std::vector<double> diffs;
  void dom(bool ok) { if (!ok) bad = true; }
  void cmp(int outcome, double diff) {
    outcomes.push_back(outcome); kinds.push_back(0); diffs.push_back(diff);
    if (!(std::fabs(diff) >= kinkMargin)) bad = true;
  }
  void kink(double diff) {
    outcomes.push_back(diff > 0 ? 1 : diff < 0 ? -1 : 0); kinds.push_back(1); diffs.push_back(diff);
    if (!(std::fabs(diff) >= kinkMargin)) bad = true;
  }
  void sel(double diff) {
    outcomes.push_back(diff > 0 ? 1 : diff < 0 ? -1 : 0); kinds.push_back(2); diffs.push_back(diff);
    if (!(std::fabs(diff) >= kinkMargin)) bad = true;
  }
  void step(double v, double res) {
    outcomes.push_back((int)res); kinds.push_back(3); diffs.push_back(v - std::round(v));
    if (!(std::fabs(v - std::round(v)) >= kinkMargin)) bad = true;
  }
  void val(double v) {
    if (!(std::fabs(v) <= maxval)) maxval = std::isnan(v) ? INFINITY : std::fabs(v);
  }
};
inline thread_local Obs *obs = nullptr;

template <class T> constexpr bool isd = std::is_same_v<T, double>;

template <class T, class F> T binv(int v, const T &a, const T &b, double k, F f) {
  switch (v & 7) {
  case 0: return f(a, b);
  case 1: return f(T(a), b);
  case 2: return f(a, T(b));
  case 3: return f(T(a), T(b));
  case 4: return f(k, a);
  case 5: return f(a, k);
  case 6: return f(k, T(a));
  default: return f(T(a), k);
  }
}
// Arrays with active subscripts and tape parameters.  The primary template is
// the plain meaning; adtape.h specializes it for adouble with advector,
// pdouble and the adolc_vec_* functions.
inline double valOf(double v) { return v; }
template <class F> double valOf(const TP<F> &v) { return (double)v.c[0]; }
template <class T> struct Vx {
  std::vector<T> w;
  explicit Vx(size_t n) { for (size_t i = 0; i < n; ++i) w.emplace_back(); }
  static size_t ix(const T &i) { return (size_t)std::trunc(std::fabs(valOf(i))); }
  T get(const T &i) const { return w[ix(i)]; }
  T &ref(const T &i) { return w[ix(i)]; }
  T &at(size_t i) { return w[i]; }
  T look(const T &a, const T &b) const {
    T r; r = 0.0;
    for (size_t i = 0; i < w.size(); ++i) if (valOf(T(a - w[i] * b)) > 0) r = double(i + 1);
    return r;
  }
  static void sel(T &d, const T &c, const T &a, const T &b, bool eq) { T t = (eq ? valOf(c) >= 0 : valOf(c) > 0) ? a : b; d = t; }
  static void sel(T &d, const T &c, const T &a, bool eq) { if (eq ? valOf(c) >= 0 : valOf(c) > 0) { T t = a; d = t; } }
  static void copy(Vx &d, const Vx &s) { if (&d != &s) d.w = s.w; }
  static T dot(const Vx &a, const Vx &b) { T r; r = 0.0; for (size_t i = 0; i < a.w.size(); ++i) r = r + a.w[i] * b.w[i]; return r; }
  static void axpy(Vx &r, const T &a, const Vx &x, const Vx &y) {
    std::vector<T> t;
    for (size_t i = 0; i < x.w.size(); ++i) t.push_back(T(a * x.w[i] + y.w[i]));
    r.w = t;
  }
  static double par(double k) { return k; }
};
template <class T> T lamb(const T &a, T b, double k) {
  if (k > 0) {
    T t = a * b;
    return t;
  }
  return a - b;
}
// Every overload that takes a parameter q (Q is double outside the tape);
// the result is assigned to the destination.
constexpr int NPARFORM = 62;
template <class T, class Q> T parForm(int v, int n, const T &a, const T &b, const Q &q, double k) {
  using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan; using std::atan2;
  using std::atanh; using std::ceil; using std::cos; using std::cosh; using std::erf; using std::erfc; using std::exp;
  using std::fabs; using std::floor; using std::fmax; using std::fmin; using std::log; using std::log10; using std::pow;
  using std::sin; using std::sinh; using std::sqrt; using std::tan; using std::tanh; using std::ldexp;
  constexpr bool plain = std::is_same_v<Q, double>;
  auto O = [&](auto fn) { if constexpr (isd<T>) { if (obs) fn(*obs); } };
  auto pos = [&] { O([&](Obs &o) { o.dom(k > 0.1); }); };
  switch (v) {
  case 0: { T t = T(-q); return t * a; }
  case 1: { T t = T(+q); return t * a; }
  case 2: return T(q + 0.75) * a;
  case 3: return T(0.75 + q) * a;
  case 4: return T(q - 0.75) * a;
  case 5: return T(0.75 - q) * a;
  case 6: return T(q * 0.75) * a;
  case 7: return T(0.75 * q) - a;
  case 8: return T(q / 0.75) * a;
  case 9: O([&](Obs &o) { o.dom(std::fabs(k) > 0.1); }); return T(0.75 / q) * a;
  case 10: return T(exp(q)) * a;
  case 11: pos(); return T(log(q)) * a;
  case 12: pos(); return T(log10(q)) * a;
  case 13: pos(); return T(sqrt(q)) * a;
  case 14: return T(sin(q)) * a;
  case 15: return T(cos(q)) * a;
  case 16: O([&](Obs &o) { o.dom(std::fabs(std::cos(k)) > 0.1); }); return T(tan(q)) * a;
  case 17: O([&](Obs &o) { o.dom(std::fabs(k) < 0.9); }); return T(asin(q)) * a;
  case 18: O([&](Obs &o) { o.dom(std::fabs(k) < 0.9); }); return T(acos(q)) * a;
  case 19: return T(atan(q)) * a;
  case 20: return T(sinh(q)) + a;
  case 21: return T(cosh(q)) - a;
  case 22: return T(tanh(q)) * a;
  case 23: return T(asinh(q)) * a;
  case 24: O([&](Obs &o) { o.dom(k > 1.1); }); return T(acosh(q)) * a;
  case 25: O([&](Obs &o) { o.dom(std::fabs(k) < 0.9); }); return T(atanh(q)) * a;
  case 26: return T(erf(q)) * a;
  case 27: return T(erfc(q)) * a;
  case 28: O([&](Obs &o) { o.kink(k); }); return T(fabs(q)) * a;
  case 29: O([&](Obs &o) { o.step(k, std::ceil(k)); }); return T(ceil(q)) * a;
  case 30: O([&](Obs &o) { o.step(k, std::floor(k)); }); return T(floor(q)) * a;
  case 31: if constexpr (isd<T>) O([&](Obs &o) { o.kink(a - k); }); return T(fmin(a, q)) + b;
  case 32: if constexpr (isd<T>) O([&](Obs &o) { o.kink(a - k); }); return T(fmin(q, a)) + b;
  case 33: if constexpr (isd<T>) O([&](Obs &o) { o.kink(a - k); }); return T(fmax(a, q)) - b;
  case 34: if constexpr (isd<T>) O([&](Obs &o) { o.kink(a - k); }); return T(fmax(q, a)) - b;
  case 35: O([&](Obs &o) { o.kink(k - 0.6); }); return T(fmin(q, 0.6)) * a;
  case 36: O([&](Obs &o) { o.kink(k - 0.6); }); return T(fmin(0.6, q)) * a;
  case 37: O([&](Obs &o) { o.kink(k - 0.6); }); return T(fmax(q, 0.6)) * a;
  case 38: O([&](Obs &o) { o.kink(k - 0.6); }); return T(fmax(0.6, q)) * a;
  case 39: case 40: {
    auto q2 = Vx<T>::par(0.5);
    O([&](Obs &o) { o.kink(k - 0.5); });
    return v == 39 ? T(fmin(q, q2)) * a : T(fmax(q, q2)) * a;
  }
  case 41: return T(ldexp(q, n - 3)) * a;
  case 42: if constexpr (isd<T>) O([&](Obs &o) { o.dom(a > 0.1); o.sel(k); }); // selects by the sign of the exponent
     if constexpr (plain) return pow(a, T(q)); else return pow(a, q);
  case 43: pos(); if constexpr (isd<T>) O([&](Obs &o) { o.dom(std::fabs(a) < 4); o.sel(a); }); if constexpr (plain) return pow(T(q), a); else return pow(q, a);
  case 44: pos(); return T(pow(q, 1.75)) * a;
  case 45: case 46:
    if constexpr (isd<T>) O([&](Obs &o) { o.dom(std::fabs(a) > 0.05 && std::fabs(k) > 0.05); o.sel(std::fabs(a) - std::fabs(k)); o.sel(a); o.sel(k); });
    if constexpr (plain) return v == 45 ? atan2(a, T(q)) : atan2(T(q), a); else return v == 45 ? atan2(a, q) : atan2(q, a);
  case 47: case 48: case 49: case 50: case 51: case 52: case 53: case 54: case 55: case 56: case 57: case 58: {
    bool t;
    switch (v - 47) {
    case 0: t = (bool)(a < q); break; case 1: t = (bool)(a <= q); break; case 2: t = (bool)(a > q); break;
    case 3: t = (bool)(a >= q); break; case 4: t = (bool)(a == q); break; case 5: t = (bool)(a != q); break;
    case 6: t = (bool)(q < a); break; case 7: t = (bool)(q <= a); break; case 8: t = (bool)(q > a); break;
    case 9: t = (bool)(q >= a); break; case 10: t = (bool)(q == a); break; default: t = (bool)(q != a);
    }
    if constexpr (isd<T>) O([&](Obs &o) { o.cmp(t, a - k); });
    if (t) return a * q;
    return b - q;
  }
  case 59: { T t = a * 0.5; t += q; t *= q; t -= q; return t; }
  case 60: { T t; t = q; return t * t + a; } // assigned to an existing variable
  default: { T t = q * a + q * b; t = t * q; return t - q; }
  }
}
// what EXT does on every number type
template <class T> inline thread_local std::function<void(const Ins &, std::vector<T> &)> extFn;
template <class T> void exec1(const Ins &I, std::vector<T> &r) {
  using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan; using std::atan2;
  using std::atanh; using std::cbrt; using std::ceil; using std::cos; using std::cosh; using std::erf;
  using std::erfc; using std::exp; using std::fabs; using std::floor; using std::fmax; using std::fmin;
  using std::log; using std::log10; using std::pow; using std::sin; using std::sinh; using std::sqrt;
  using std::tan; using std::tanh; using std::ldexp;
  T &d = r[I.dst], &a = r[I.a], &b = r[I.b], &c = r[I.c];
  const double k = I.k;
  auto O = [&](auto fn) {
    if constexpr (isd<T>) {
      if (obs) fn(*obs);
    }
  };
  auto set = [&](T &&x) {
    if (I.v & 8) { T t = std::move(x); d = t; }
    else d = std::move(x);
  };
  switch (I.op) {
  case CONST: d = k; break;
  case COPY: d = a; break;
  case MOVE: { T t(a); d = std::move(t); } break;
  case SWAP: if (I.dst != I.a) std::swap(d, a); break;
  case POS: set((I.v & 1) ? T(+T(a)) : T(+a)); break;
  case NEG: set((I.v & 1) ? T(-T(a)) : T(-a)); break;
  case ADD: set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); })); break;
  case SUB: set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); })); break;
  case MUL: set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); })); break;
  case DIV:
    O([&](Obs &o) { if constexpr (isd<T>) { int v = I.v & 7; o.dom(v <= 3 ? fabs(b) > 0.1 : (v == 4 || v == 6) ? fabs(a) > 0.1 : fabs(k) > 0.1); } });
    set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return std::forward<decltype(x)>(x) / std::forward<decltype(y)>(y); })); break;
  case ADDEQ: d += a; break;
  case SUBEQ: d -= a; break;
  case MULEQ: d *= a; break;
  case DIVEQ: O([&](Obs &o) { if constexpr (isd<T>) o.dom(fabs(a) > 0.1); }); d /= a; break;
  case ADDEQC: d += k; break;
  case SUBEQC: d -= k; break;
  case MULEQC: d *= k; break;
  case DIVEQC: O([&](Obs &o) { o.dom(std::fabs(k) > 0.1); }); d /= k; break;
  case ADDEQR: d += T(a); break;
  case SUBEQR: d -= T(a); break;
  case MULEQR: d *= T(a); break;
  case DIVEQR: O([&](Obs &o) { if constexpr (isd<T>) o.dom(fabs(a) > 0.1); }); d /= T(a); break;
  case ADDEQP: if (I.v & 1) d += k * a; else if (I.v & 2) d += T(a) * b; else d += a * b; break;
  case SUBEQP: if (I.v & 1) d -= a * k; else if (I.v & 2) d -= a * T(b); else d -= a * b; break;
  case INC: ++d; break;
  case DEC: --d; break;
  case PINC: set(T(a++)); break;
  case PDEC: set(T(a--)); break;
#define UN(OPC, fn, guard)                                                     \
  case OPC:                                                                    \
    O([&](Obs &o) { if constexpr (isd<T>) { const double x = a; const double mg = o.margin; (void)x; (void)mg; o.dom(guard); } }); \
    set((I.v & 1) ? T(fn(T(a))) : T(fn(a)));                                   \
    break;
  UN(EXP, exp, x < 3.0)
  UN(LOG, log, x > 0.1)
  UN(LOG10, log10, x > 0.1)
  UN(SQRT, sqrt, x > 0.1)
  UN(CBRT, cbrt, std::fabs(x) > 0.1)
  UN(SIN, sin, true)
  UN(COS, cos, true)
  UN(TAN, tan, std::fabs(std::cos(x)) > 0.2)
  UN(ASIN, asin, std::fabs(x) < 0.9)
  UN(ACOS, acos, std::fabs(x) < 0.9)
  UN(ATAN, atan, true)
  // sinh/cosh/tanh pick a formula by the sign of the argument at taping time;
  // both formulas are the same function, so no restriction is needed
  UN(SINH, sinh, std::fabs(x) < 3.0)
  UN(COSH, cosh, std::fabs(x) < 3.0)
  UN(TANH, tanh, std::fabs(x) < 3.0)
  UN(ASINH, asinh, true)
  UN(ACOSH, acosh, x > 1.1)
  UN(ATANH, atanh, std::fabs(x) < 0.9)
  UN(ERF, erf, std::fabs(x) < 3)
  UN(ERFC, erfc, std::fabs(x) < 3)
#undef UN
  case POWC:
    O([&](Obs &o) { if constexpr (isd<T>) o.dom((k == std::floor(k)) ? (k >= 0 ? (a == 0 || fabs(a) > 0.1) : fabs(a) > 0.3) : a > 0.1); });
    set((I.v & 1) ? T(pow(T(a), k)) : T(pow(a, k))); break;
  case CPOW:
    O([&](Obs &o) { o.dom(k > 0.1); });
    set(T(pow(k, a))); break;
  case POWV:
    O([&](Obs &o) { if constexpr (isd<T>) o.dom(a > 0.1); });
    set(T(pow(a, b))); break;
  case ATAN2:
    // off the axes and the diagonals: atan2 selects its formula by condassign
    O([&](Obs &o) { if constexpr (isd<T>) { o.dom(fabs(a) > 0.05 && fabs(b) > 0.05); o.sel(fabs(b) - fabs(a)); o.sel(a); o.sel(b);} });
    set(T(atan2(a, b))); break;
  case LDEXP: set((I.v & 1) ? T(ldexp(T(a), I.n)) : T(ldexp(a, I.n))); break;
  case FABS: O([&](Obs &o) { if constexpr (isd<T>) o.kink(a); }); set((I.v & 1) ? T(fabs(T(a))) : T(fabs(a))); break;
  case FMIN:
    O([&](Obs &o) { if constexpr (isd<T>) { int v = I.v & 7; if (v <= 3) { if (I.a != I.b) o.kink(a - b); } else o.kink(a - k); } });
    set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return fmin(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); })); break;
  case FMAX:
    O([&](Obs &o) { if constexpr (isd<T>) { int v = I.v & 7; if (v <= 3) { if (I.a != I.b) o.kink(a - b); } else o.kink(a - k); } });
    set(binv<T>(I.v, a, b, k, [](auto &&x, auto &&y) -> T { return fmax(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); })); break;
  case CEIL: O([&](Obs &o) { if constexpr (isd<T>) o.step(a, ceil(a)); }); set((I.v & 1) ? T(ceil(T(a))) : T(ceil(a))); break;
  case FLOOR: O([&](Obs &o) { if constexpr (isd<T>) o.step(a, floor(a)); }); set((I.v & 1) ? T(floor(T(a))) : T(floor(a))); break;
  case COND4:
    O([&](Obs &o) { if constexpr (isd<T>) o.sel(a); });
    if constexpr (isd<T>) { d = a > 0 ? b : c; } else condassign(d, a, b, c);
    break;
  case COND3:
    O([&](Obs &o) { if constexpr (isd<T>) o.sel(a); });
    if constexpr (isd<T>) { if (a > 0) d = b; } else condassign(d, a, b);
    break;
  case CONDEQ4:
    O([&](Obs &o) { if constexpr (isd<T>) o.sel(a); });
    if constexpr (isd<T>) { d = a >= 0 ? b : c; } else condeqassign(d, a, b, c);
    break;
  case CONDEQ3:
    O([&](Obs &o) { if constexpr (isd<T>) o.sel(a); });
    if constexpr (isd<T>) { if (a >= 0) d = b; } else condeqassign(d, a, b);
    break;
  case BRANCH: {
    bool t;
    const bool rv = (I.v & 16) != 0; // compare two registers
    const bool sw = (I.v & 32) != 0; // constant on the left
    switch (I.v & 7) {
#define CM(i, op) case i: t = rv ? (bool)(a op b) : sw ? (bool)(k op a) : (bool)(a op k); break;
    CM(0, <) CM(1, <=) CM(2, >) CM(3, >=) CM(4, ==)
    default: t = rv ? (bool)(a != b) : sw ? (bool)(k != a) : (bool)(a != k); break;
#undef CM
    }
    O([&](Obs &o) { if constexpr (isd<T>) o.cmp(t, rv ? a - b : a - k); });
    if (t) { T s = a * c; d = s + k; }
    else { T s = sin(c); d = s - b; }
  } break;
  case WHILE: {
    T t = a;
    int cnt = 0;
    for (; cnt < I.n; ++cnt) {
      bool go = t > k;
      O([&](Obs &o) { if constexpr (isd<T>) o.cmp(go, t - k); });
      if (!go) break;
      t = t * 0.5 - 0.3;
    }
    d = t;
  } break;
  case VECTMP: {
    std::vector<T> w;
    for (int i = 0; i < I.n; ++i) {
      if (i % 3 == 0) w.push_back(a * k);
      else if (i % 3 == 1) w.push_back(T(b));
      else w.insert(w.begin(), w.back() - a);
    }
    if (I.n > 3) { w.erase(w.begin() + 1); w.pop_back(); }
    std::vector<T> w2(w);
    T s; s = 0.0;
    for (auto &x : w2) s += x * 0.25;
    d = s;
  } break;
  case HORNER: {
    T s; s = k;
    for (int i = 0; i < I.n; ++i) { s = s * a * 0.3; s += b; }
    d = s;
  } break;
  case BULK: {
    T s(a);
    for (int i = 0; i < I.n; ++i) {
      T t = s * 0.75;
      if (i & 1) s = sin(t + 0.1 * i) + b * 0.125;
      else { t += b; s = t * 0.5; }
    }
    d = s;
  } break;
  case LAMBDA: d = lamb<T>(a, b, k); break;
  case SQ: { T t(a); t *= t; d = t; } break;
  case FREXP: { // passive: the result carries no derivative, mantissa*2^e == a
    T t = a * a + 1.0; (void)t; d = t; } break;
  case HYPOT3: { T t = a * a; t += b * b; t += 1.0; d = sqrt(t) - k; } break;
  case AVREAD: case AVWRITE: case AVSEL: {
    const size_t nw = (size_t)I.n;
    O([&](Obs &o) { if constexpr (isd<T>) { double t = fabs(a); o.dom(t < (double)nw - 0.01 && fabs(t - std::round(t)) > 0.01); if (I.op == AVSEL) o.sel(b); } });
    if constexpr (isd<T>) { if (!(fabs(a) < (double)nw - 0.01)) { d = 0; break; } }
    T idx(a), vb(b), vc(c), vd(d);
    Vx<T> w(nw);
    for (size_t i = 0; i < nw; ++i) {
      switch (i % 3) {
      case 0: w.at(i) = vb * (k + 0.5 * (double)i); break;
      case 1: w.at(i) = vc; break;
      default: w.at(i) = k - (double)i;
      }
    }
    if (I.op == AVREAD) {
      const Vx<T> &cw = w;
      if (I.v & 1) d = cw.get(idx);
      else if (I.v & 2) { T t(w.ref(idx)); d = t * vc; }
      else d = cw.get(idx) + cw.get(idx) * vb;
      break;
    }
    if (I.op == AVSEL) {
      if (I.v & 8) vd = T(w.at(0));
      const T &e = (I.v & 4) ? w.at(nw - 1) : vd; // may be the selected element itself
      switch (I.v & 3) {
      case 0: Vx<T>::sel(w.ref(idx), vb, vc, e, false); break;
      case 1: Vx<T>::sel(w.ref(idx), vb, e, vc, true); break;
      case 2: Vx<T>::sel(w.ref(idx), vb, e, false); break;
      case 3: Vx<T>::sel(w.ref(idx), vb, vc, true); break;
      }
    } else {
      T post; post = 0.25;
      for (int rep = 0; rep < 1 + (I.v >> 5); ++rep)
        switch ((I.v & 31) % 21) {
        case 0: w.ref(idx) = k; break;
        case 1: w.ref(idx) = 0.0; break;
        case 2: w.ref(idx) = 1.0; break;
        case 3: w.ref(idx) = vc; break;
        case 4: w.ref(idx) += k; break;
        case 5: w.ref(idx) -= k; break;
        case 6: w.ref(idx) *= k; break;
        case 7: w.ref(idx) /= (fabs(k) < 0.2 ? 0.7 : k); break;
        case 8: w.ref(idx) += vc; break;
        case 9: w.ref(idx) -= vb; break;
        case 10: w.ref(idx) *= vc; break;
        case 11: { T q = vc * vc + 1.0; w.ref(idx) /= q; } break;
        case 12: ++w.ref(idx); break;
        case 13: --w.ref(idx); break;
        case 14: post = w.ref(idx)++; break;
        case 15: post = w.ref(idx)--; break;
        case 16: w.ref(idx) = T(w.ref(idx)); break;
        case 17: w.ref(idx) *= w.at(nw - 1); break;
        case 18: w.ref(idx) += w.at(0); break;
        case 19: w.ref(idx) = w.at(0); break;
        case 20: w.ref(idx) -= w.at(nw - 1); break;
        }
      T s = post * 0.5;
      d = s;
    }
    { T s; s = 0.0; for (size_t i = 0; i < nw; ++i) s += w.at(i) * (0.3 + 0.1 * (double)i); if (I.op == AVWRITE) s += vd * 0.0 + d; d = s; }
  } break;
  case AVLOOK: {
    const size_t nw = (size_t)I.n;
    Vx<T> w(nw);
    T va(a), vb = b * b + 0.5;
    for (size_t i = 0; i < nw; ++i) { w.at(i) = k + 0.4 * (double)i; O([&](Obs &o) { if constexpr (isd<T>) o.sel(va - w.at(i) * vb); }); }
    T t = w.look(va, vb);
    d = t * 0.25 + vb;
  } break;
  case VCOPY: case VDOT: case VAXPY: {
    const size_t nw = (size_t)I.n;
    Vx<T> x(nw), y(nw), z(nw);
    for (size_t i = 0; i < nw; ++i) {
      T t1 = c * 0.5, t2 = b * 0.7, t3 = a - 0.1 * (double)i;
      const T &u1 = t1, &u2 = t2, &u3 = t3; // copies: the elements keep their storage
      if (i & 1) { x.at(i) = a; y.at(i) = u1; } else { x.at(i) = u2; y.at(i) = u3; }
      if (I.v & 16) z.at(i) = k; else z.at(i) = c;
    }
    T s; s = 0.0;
    if (I.op == VCOPY) { Vx<T>::copy((I.v & 1) ? z : y, x); }
    else if (I.op == VDOT) { s = (I.v & 1) ? Vx<T>::dot(x, x) : Vx<T>::dot(x, y); }
    else switch (I.v & 3) {
      case 0: Vx<T>::axpy(z, c, x, y); break;
      case 1: Vx<T>::axpy(x, c, x, y); break;
      case 2: Vx<T>::axpy(y, c, x, y); break;
      case 3: Vx<T>::axpy(z, c, x, x); break;
    }
    for (size_t i = 0; i < nw; ++i) { s += x.at(i) * 0.2; s += y.at(i) * (0.1 + 0.05 * (double)i); s -= z.at(i) * z.at(i) * 0.1; }
    d = s;
  } break;
  case PARAM: {
    auto q = Vx<T>::par(k);
    if (I.v & 128) { d = parForm<T>(I.v & 127, I.n, a, b, q, k); break; }
    switch ((I.v & 15) % 14) {
    case 0: d = q; break;
    case 1: d = a + q; break;
    case 2: d = q + a; break;
    case 3: d = a - q; break;
    case 4: d = q - a; break;
    case 5: d = a * q; break;
    case 6: d = q * a; break;
    case 7: O([&](Obs &o) { if constexpr (isd<T>) o.dom(fabs(a) > 0.1); }); d = q / a; break;
    case 8: O([&](Obs &o) { o.dom(std::fabs(k) > 0.1); }); d = a / q; break;
    case 9: d += q; break;
    case 10: d -= q; break;
    case 11: d *= q; break;
    case 12: O([&](Obs &o) { o.dom(std::fabs(k) > 0.1); }); d /= q; break;
    case 13: { T t = q * a; t += b * q; t -= q * c; d = t; } break;
    }
  } break;
  case EXT: extFn<T>(I, r); break;
  default: std::abort();
  }
  O([&](Obs &o) { if constexpr (isd<T>) { o.val(r[I.dst]); o.val(r[I.a]); } });
}

template <class T> void initRegs(const Prog &p, std::vector<T> &r) {
  r.clear();
  for (int i = 0; i < p.nr; ++i) r.emplace_back();
  if constexpr (isd<T>) std::fill(r.begin(), r.end(), 0.0);
}
// returns dependents' registers
template <class T> void run(const Prog &p, std::vector<T> &r) {
  for (auto &i : p.code) exec1<T>(i, r);
}
inline std::vector<double> evald(const Prog &p, const std::vector<double> &x, Obs *o = nullptr) {
  std::vector<double> r(p.nr, 0.0);
  std::copy(x.begin(), x.end(), r.begin());
  Obs *save = obs;
  obs = o;
  run<double>(p, r);
  obs = save;
  std::vector<double> y;
  for (int d : p.dep) y.push_back(r[d]);
  return y;
}

struct GenOpt {
  int nmin = 1, nmax = 4, mmin = 1, mmax = 3, lenmin = 4, lenmax = 25;
  int extra = 5;      // extra registers
  int points = 3;     // number of points the program must be smooth at
  double maxval = 12; // bound on every intermediate value
  bool kinks = true;  // fabs/fmin/... allowed (away from ties)
  bool branches = true;
  bool cond = true;
  bool step = true;
  bool sameOutcome = true; // all points take the same decisions
  bool bulk = true;
  bool vec = true;   // active subscripts, adolc_vec_*
  bool param = true; // tape parameters
  double paramBias = 0; // extra share of parameter instructions
  bool paramForms = false; // every overload that takes a parameter
  int bulkmax = 40;
  bool deadDeps = true; // dependents may be constants, independents, duplicates
  bool dupDeps = false; // the same variable declared dependent twice
  std::vector<bool> allow; // per op, empty = all
  double kinkMargin = 0.02;
  double extShare = 0; // share of EXT steps
  std::function<bool(Rng &, Ins &, const std::vector<char> &, int)> extPropose;
  std::function<void(const Ins &, std::vector<char> &)> extInit;
  std::vector<double> fixX; // first point prescribed (sets n)
};
struct Gen {
  Prog p;
  std::vector<std::vector<double>> x; // points
};
inline bool opAllowed(const GenOpt &g, int op) {
  if (!g.allow.empty() && !g.allow[op]) return false;
  switch (op) {
  case FABS: case FMIN: case FMAX: return g.kinks;
  case CEIL: case FLOOR: return g.step;
  case COND4: case COND3: case CONDEQ4: case CONDEQ3: case ATAN2: return g.cond;
  case BRANCH: case WHILE: return g.branches;
  case BULK: return g.bulk;
  case AVREAD: case AVWRITE: case VCOPY: case VDOT: case VAXPY: return g.vec;
  case AVSEL: case AVLOOK: return g.vec && g.cond;
  case PARAM: return g.param;
  }
  return true;
}
inline Gen generate(Rng &g, const GenOpt &o) {
  Gen G;
  Prog &p = G.p;
  p.n = o.fixX.empty() ? g.in(o.nmin, o.nmax) : (int)o.fixX.size();
  p.m = g.in(o.mmin, o.mmax);
  p.nr = p.n + std::max(1, o.extra);
  int len = g.in(o.lenmin, o.lenmax);
  std::vector<std::vector<double>> r(o.points, std::vector<double>(p.nr, 0.0));
  G.x.resize(o.points);
  for (int q = 0; q < o.points; ++q) {
    G.x[q].resize(p.n);
    for (int i = 0; i < p.n; ++i) {
      double v = q == 0 ? g.num(2.0) : G.x[0][i] + g.uni(-0.3, 0.3);
      if (std::fabs(v) < 0.05) v += 0.2;
      if (q == 0 && !o.fixX.empty()) v = o.fixX[i];
      r[q][i] = G.x[q][i] = v;
    }
  }
  std::vector<char> init(p.nr, 0);
  std::fill(init.begin(), init.begin() + p.n, 1);
  int tries = 0;
  while ((int)p.code.size() < len && tries < len * 40) {
    ++tries;
    Ins I;
    I.op = (uint8_t)g.in(0, NOPS - 1);
    if (o.paramBias > 0 && g.chance(o.paramBias)) I.op = PARAM;
    const bool ext = o.extShare > 0 && g.chance(o.extShare);
    if (I.op == BULK && !ext && !g.chance(0.3)) continue;
    if (I.op == CONST && !ext && !g.chance(0.5)) continue;
    if (!ext && !opAllowed(o, I.op)) continue;
    auto src = [&]() {
      // mostly initialised registers; sometimes a default-constructed one
      for (int t = 0; t < 20; ++t) {
        int s = g.in(0, p.nr - 1);
        if (init[s] || g.chance(0.02)) return s;
      }
      return g.in(0, p.n - 1);
    };
    I.a = src();
    I.b = src();
    I.c = src();
    I.dst = g.in(0, p.nr - 1);
    if (g.chance(0.2)) I.dst = I.a;
    if (g.chance(0.08)) I.dst = I.b;
    if (g.chance(0.08)) I.b = I.a;
    if (I.dst < p.n && g.chance(0.5)) I.dst = g.in(p.n, p.nr - 1);
    I.v = (uint8_t)g.in(0, 63);
    I.k = g.num(2.0);
    if (g.chance(0.05)) I.k = g.chance(0.5) ? 0.0 : 1.0;
    if (I.op == POWC) { static const double ex[] = {2, 3, 4, -1, -2, 0.5, 1.5, -0.5, 1, 0, 2.25}; I.k = ex[g.in(0, 10)]; }
    if (I.op == CPOW) I.k = g.uni(0.2, 3.0);
    if (I.op == DIVEQC || (I.op == DIV && std::fabs(I.k) < 0.2)) I.k = g.chance(0.5) ? g.uni(0.3, 2) : -g.uni(0.3, 2);
    if (I.op == PARAM && o.paramForms && g.chance(0.8)) I.v = (uint8_t)(128 + g.in(0, NPARFORM - 1));
    I.n = I.op == BULK ? g.in(2, o.bulkmax) : I.op == LDEXP ? g.in(-3, 3) : g.in(1, 7);
    // reading-modifying an uninitialised destination is allowed but rare
    if (!init[I.dst] && ((I.op >= ADDEQ && I.op <= DEC) || I.op == COND3 || I.op == CONDEQ3) && !g.chance(0.05)) continue;
    if (ext) { I = Ins(); I.op = EXT; if (!o.extPropose(g, I, init, p.nr)) continue; }
    bool ok = true;
    std::vector<int> ref;
    std::vector<std::vector<double>> r2 = r;
    for (int q = 0; q < o.points && ok; ++q) {
      Obs ob;
      ob.kinkMargin = o.kinkMargin;
      obs = &ob;
      exec1<double>(I, r2[q]);
      obs = nullptr;
      if (ob.bad || !(ob.maxval <= o.maxval)) ok = false;
      if (o.sameOutcome) {
        if (q == 0) ref = ob.outcomes;
        else if (ref != ob.outcomes) ok = false;
      }
    }
    if (!ok) continue;
    r = r2;
    p.code.push_back(I);
    init[I.dst] = 1;
    if (ext) o.extInit(I, init);
    if (I.op == SWAP) init[I.a] = 1;
  }
  for (int i = 0; i < p.m; ++i) {
    int d = g.in(0, p.nr - 1);
    if (!o.deadDeps || g.chance(0.9)) {
      // last written registers are the interesting ones
      if (!p.code.empty()) d = p.code[p.code.size() - 1 - (size_t)g.in(0, std::min<int>((int)p.code.size() - 1, 4))].dst;
    }
    if (!o.dupDeps)
      for (int t = 0; t < 50 && std::find(p.dep.begin(), p.dep.end(), d) != p.dep.end(); ++t) d = g.in(0, p.nr - 1);
    if (!o.dupDeps && std::find(p.dep.begin(), p.dep.end(), d) != p.dep.end()) { p.m = i; break; }
    p.dep.push_back(d);
  }
  // debugging aid: VH_DROP=i,j,.. removes instructions (see tools/shrink.py)
  if (const char *e = getenv("VH_DROP")) {
    std::vector<char> drop(p.code.size(), 0);
    for (const char *q = e; *q;) { char *n; long k = strtol(q, &n, 10); if (n == q) break; if (k >= 0 && k < (long)drop.size()) drop[k] = 1; q = *n ? n + 1 : n; }
    std::vector<Ins> nc;
    for (size_t k = 0; k < p.code.size(); ++k) if (!drop[k]) nc.push_back(p.code[k]);
    p.code = nc;
    fprintf(stderr, "DUMP %s\n", p.str().c_str());
  }
  return G;
}

// ---- reference runs -------------------------------------------------------
// full multivariate expansion at x to total degree D; result [m] of TP
struct RefOut {
  std::vector<ra::TPL> y;
  long double maxabs = 0;
};
inline RefOut refRun(const Prog &p, const ra::Basis &B, const std::vector<ra::TPL> &xin) {
  (void)B;
  RefOut R;
  ra::TPL::maxabs = 0;
  std::vector<ra::TPL> r(p.nr);
  for (int i = 0; i < p.n; ++i) r[i] = xin[i];
  run<ra::TPL>(p, r);
  for (int d : p.dep) R.y.push_back(r[d]);
  R.maxabs = ra::TPL::maxabs;
  return R;
}
inline RefOut refTotal(const Prog &p, const ra::Basis &B, const std::vector<double> &x) {
  ra::TPL::B = &B;
  std::vector<ra::TPL> xi;
  for (int i = 0; i < p.n; ++i) xi.push_back(ra::TPL::var(i, x[i]));
  return refRun(p, B, xi);
}
inline double tolOf(const RefOut &R, long double ref) {
  return (double)(2e-9L * (1 + std::fabs(ref)) + 2e-14L * R.maxabs * R.maxabs + 1e-11L * R.maxabs);
}
} // namespace pg
