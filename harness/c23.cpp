// C23: active arithmetic computes what double arithmetic computes.
#include "common.h"
#include <adolc/adolc.h>
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
#include <memory>
#include <sstream>
#include <utility>
using namespace vh;

namespace ops {
using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan; using std::atan2; using std::atanh; using std::cbrt; using std::ceil; using std::cos; using std::cosh; using std::erf; using std::erfc; using std::exp; using std::fabs; using std::floor; using std::fmax; using std::fmin; using std::isfinite; using std::isinf; using std::isnan; using std::isnormal; using std::ldexp; using std::log; using std::log10; using std::pow; using std::sin; using std::sinh; using std::sqrt; using std::tan; using std::tanh;
inline double max(double a, double b) { return std::fmax(a, b); }
inline double min(double a, double b) { return std::fmin(a, b); }
inline double abs(double a) { return std::fabs(a); }
using ::max; using ::min; using ::abs;
inline double ld(double a, int e) { return std::ldexp(a, e); }
template <class P> auto ld(P &&a, int e) -> decltype(::ldexp(std::forward<P>(a), e)) { return ::ldexp(std::forward<P>(a), e); }
// EX exact (bit for bit, any NaN for NaN); MM exact but for the sign of zero; the others within rounding where intermediate results are in range
enum Cl { EX, MM, DIV, LOG10_, TAN_, SINH_, COSH_, TANH_, POWCV, POWVV, ATAN2_, LDEXP_ };
enum Fl { NONE = 0, MUT = 1, CMP = 2, BR = 4 };
#define A_ std::forward<P>(a)
#define B_ std::forward<Q>(b)
#define BIN(ID, CL, FL, EXPR) struct ID { static constexpr const char *name = #ID; static constexpr int cl = CL, fl = FL; template <class P, class Q> static auto f(P &&a, Q &&b) -> decltype(EXPR) { return EXPR; } };
#define UNA(ID, CL, FL, EXPR) struct ID { static constexpr const char *name = #ID; static constexpr int cl = CL, fl = FL; template <class P> static auto f(P &&a) -> decltype(EXPR) { return EXPR; } };
BIN(add, EX, NONE, A_ + B_) BIN(sub, EX, NONE, A_ - B_) BIN(mul, EX, NONE, A_ *B_) BIN(dvd, DIV, NONE, A_ / B_)
BIN(addto, EX, MUT, A_ += B_) BIN(subto, EX, MUT, A_ -= B_) BIN(multo, EX, MUT, A_ *= B_) BIN(divto, DIV, MUT, A_ /= B_) BIN(assign, EX, MUT, A_ = B_)
BIN(eq, EX, CMP, A_ == B_) BIN(ne, EX, CMP, A_ != B_) BIN(lt, EX, CMP, A_ < B_) BIN(le, EX, CMP, A_ <= B_) BIN(gt, EX, CMP, A_ > B_) BIN(ge, EX, CMP, A_ >= B_)
BIN(fmin_, MM, NONE, fmin(A_, B_)) BIN(fmax_, MM, NONE, fmax(A_, B_)) BIN(min_, MM, NONE, min(A_, B_)) BIN(max_, MM, NONE, max(A_, B_))
BIN(pow_, POWVV, BR, pow(A_, B_)) BIN(atan2_, ATAN2_, NONE, atan2(A_, B_))
UNA(plus, EX, NONE, +A_) UNA(neg, EX, NONE, -A_) UNA(preinc, EX, MUT, ++A_) UNA(predec, EX, MUT, --A_) UNA(postinc, EX, MUT, A_++) UNA(postdec, EX, MUT, A_--)
UNA(exp_, EX, NONE, exp(A_)) UNA(log_, EX, NONE, log(A_)) UNA(log10_, LOG10_, NONE, log10(A_)) UNA(sqrt_, EX, NONE, sqrt(A_)) UNA(cbrt_, EX, NONE, cbrt(A_)) UNA(sin_, EX, NONE, sin(A_)) UNA(cos_, EX, NONE, cos(A_)) UNA(tan_, TAN_, NONE, tan(A_))
UNA(asin_, EX, NONE, asin(A_)) UNA(acos_, EX, NONE, acos(A_)) UNA(atan_, EX, NONE, atan(A_)) UNA(sinh_, SINH_, BR, sinh(A_)) UNA(cosh_, COSH_, BR, cosh(A_)) UNA(tanh_, TANH_, BR, tanh(A_)) UNA(asinh_, EX, NONE, asinh(A_)) UNA(acosh_, EX, NONE, acosh(A_)) UNA(atanh_, EX, NONE, atanh(A_))
UNA(erf_, EX, NONE, erf(A_)) UNA(erfc_, EX, NONE, erfc(A_)) UNA(ceil_, EX, NONE, ceil(A_)) UNA(floor_, EX, NONE, floor(A_)) UNA(fabs_, EX, NONE, fabs(A_)) UNA(abs_, EX, NONE, abs(A_))
UNA(isnan_, EX, CMP, isnan(A_)) UNA(isinf_, EX, CMP, isinf(A_)) UNA(isfinite_, EX, CMP, isfinite(A_)) UNA(isnormal_, EX, CMP, isnormal(A_))
} // namespace ops

enum Cat { LV, RV, MV, CD, PD, AV, CAV, SAME, NCAT };
static const char *catName[] = {"named", "temporary", "moved", "constant", "parameter", "element", "const_element", "same"};

static double num(double v) { return v; }
static double num(bool v) { return v; }
static double num(int v) { return v != 0; }
static double num(const adouble &v) { return v.value(); }
static double num(const adubref &v) { return adouble(v).value(); }
static double num(adtl::adouble v) { return v.getValue(); }
static double num(adtl_hov::adouble v) { return v.getValue(); }

static double bounded(double v, double lo, double hi) { return std::fabs(v) >= lo && std::fabs(v) <= hi; }
static bool same(double a, double b) { return biteq(a, b) || (std::isnan(a) && std::isnan(b)); }
// 1 equal, 0 different, -1 not decided
static int agree(int cl, double got, double want, double x, double y, bool hasConstDivisor) {
  using namespace ops;
  const double rel = std::fabs(got - want) / std::fabs(want);
  if (cl == EX || (cl == DIV && !hasConstDivisor)) return same(got, want);
  if (got == want || (std::isnan(got) && std::isnan(want))) return 1;
  switch (cl) {
  case DIV: if (std::isfinite(y) && y != 0 && !bounded(y, 1e-300, 1e300)) return -1; if (!bounded(want, 1e-300, 1e300) && std::isfinite(x)) return -1; return rel <= 1e-15;
  case LOG10_: return rel <= 2e-15;
  case TAN_: return rel <= 2e-15;
  case SINH_: case COSH_: if (!(std::fabs(x) < 705)) return std::isfinite(x) && std::fabs(x) < 712 ? -1 : 0; return std::fabs(got - want) <= 2e-15 * (1 + std::fabs(x)) * (1 + std::fabs(want));
  case TANH_: return std::fabs(got - want) <= 1e-15;
  case POWCV: case POWVV: if (!(x > 0) || !bounded(want, 1e-300, 1e300) || !std::isfinite(x) || !std::isfinite(y)) return -1; return rel <= 1e-15 * (2 + std::fabs(y * std::log(x)));
  case ATAN2_: if (x == 0 && (std::signbit(x) || (y == 0 && std::signbit(y)))) return -1; { const double q = std::fabs(x) < std::fabs(y) ? x / y : y / x; if (std::isinf(x) || std::isinf(y) || (q != 0 && std::fabs(q) < 1e-300)) return -1; return std::fabs(got - want) <= 2e-15; }
  default: return 0;
  }
}

struct Env {
  std::vector<std::unique_ptr<adouble>> keep; // named operands and results, alive to the end of the recording
  std::vector<double> x;                      // values of the independents
  bool rec = false;
  std::unique_ptr<advector> av; std::unique_ptr<adouble> idx;
};
struct Dep { std::string name; int cl, fl; double (*ref)(double, double, double &); int ia, ib; double x, y; bool cdiv; };

static std::string hist;
static bool bad;
template <class OP> double refB(double x, double y, double &xa) { xa = x; double r = num(OP::f(xa, y)); return r; }
template <class OP> double refBsame(double x, double, double &xa) { xa = x; double r = num(OP::f(xa, xa)); return r; }
template <class OP> double refU(double x, double, double &xa) { xa = x; double r = num(OP::f(xa)); return r; }
template <class OP> double refM(double x, double y, double &xa) { refB<OP>(x, y, xa); return xa; }

static adouble &named(Env &e, double v) {
  e.keep.push_back(std::make_unique<adouble>());
  adouble &r = *e.keep.back();
  if (e.rec) { r <<= v; e.x.push_back(v); } else r = v;
  return r;
}
struct Out { bool supported = false; double got = 0, after = 0; bool hasAfter = false, operandsOk = true; std::unique_ptr<adouble> res; };
template <class R> void take(Out &o, R &&r, Env &e) {
  using T = std::remove_cvref_t<R>;
  if constexpr (std::is_same_v<T, adouble> || std::is_same_v<T, adubref>) {
    if constexpr (std::is_same_v<T, adubref>) o.res = std::make_unique<adouble>(adouble(r)); else o.res = std::make_unique<adouble>(std::forward<R>(r));
    o.got = o.res->value(); (void)e;
  } else o.got = num(r);
}
// operand providers for the taped type
template <int C> struct Pro;
template <> struct Pro<LV> { using T = adouble &; adouble &v; double x; Pro(Env &e, double x_) : v(named(e, x_)), x(x_) {} T get() { return v; } double cur() { return v.value(); } static constexpr bool act = true, chk = true; };
template <> struct Pro<RV> { using T = adouble; adouble &v; Pro(Env &e, double x) : v(named(e, x)) {} T get() { return adouble(v); } double cur() { return v.value(); } static constexpr bool act = true, chk = true; };
template <> struct Pro<MV> { using T = adouble &&; adouble &v; Pro(Env &e, double x) : v(named(e, x)) {} T get() { return std::move(v); } double cur() { return 0; } static constexpr bool act = true, chk = false; };
template <> struct Pro<CD> { using T = double; double v; Pro(Env &, double x) : v(x) {} T get() { return v; } double cur() { return v; } static constexpr bool act = false, chk = false; };
template <> struct Pro<PD> { using T = pdouble &; pdouble v; Pro(Env &, double x) : v(x) {} T get() { return v; } double cur() { return v.value(); } static constexpr bool act = false, chk = true; };
template <> struct Pro<AV> { using T = adubref; Env &e; size_t i; Pro(Env &e_, double x) : e(e_), i(0) {
    adouble &q = named(e, x); static thread_local unsigned n = 0; i = n++ % 4;
    (*e.av)[i] = q; }
  T get() { *e.idx = (double)i; return (*e.av)[*e.idx]; } double cur() { return (*e.av)[i].value(); } static constexpr bool act = true, chk = true; };
template <> struct Pro<CAV> { using T = adouble; Env &e; size_t i; Pro(Env &e_, double x) : e(e_), i(0) {
    adouble &q = named(e, x); static thread_local unsigned n = 0; i = 4 + n++ % 4;
    (*e.av)[i] = q; }
  T get() { *e.idx = (double)i; return std::as_const(*e.av)[*e.idx]; } double cur() { return (*e.av)[i].value(); } static constexpr bool act = true, chk = true; };

template <class OP, int CA, int CB> Out runB(Env &e, double x, double y) {
  Out o;
  if constexpr (CB == SAME) {
    if constexpr (requires { OP::f(std::declval<typename Pro<CA>::T>(), std::declval<typename Pro<CA>::T>()); }) {
      o.supported = true; Pro<CA> a(e, x); take(o, OP::f(a.get(), a.get()), e);
      if (OP::fl & ops::MUT) { o.hasAfter = CA == LV || CA == AV; o.after = a.cur(); } else o.operandsOk = !Pro<CA>::chk || biteq(a.cur(), x);
    }
  } else if constexpr (requires { OP::f(std::declval<typename Pro<CA>::T>(), std::declval<typename Pro<CB>::T>()); }) {
    o.supported = true; Pro<CA> a(e, x); Pro<CB> b(e, y); take(o, OP::f(a.get(), b.get()), e);
    if (OP::fl & ops::MUT) { o.hasAfter = CA == LV || CA == AV; o.after = a.cur(); } else o.operandsOk = !Pro<CA>::chk || biteq(a.cur(), x);
    o.operandsOk = o.operandsOk && (!Pro<CB>::chk || biteq(b.cur(), y));
  }
  return o;
}
template <class OP, int CA> Out runU(Env &e, double x, double) {
  Out o;
  if constexpr (requires { OP::f(std::declval<typename Pro<CA>::T>()); }) {
    o.supported = true; Pro<CA> a(e, x); take(o, OP::f(a.get()), e);
    if (OP::fl & ops::MUT) { o.hasAfter = CA == LV || CA == AV; o.after = a.cur(); } else o.operandsOk = !Pro<CA>::chk || biteq(a.cur(), x);
  }
  return o;
}
struct Entry { const char *op; int ca, cb, cl, fl; Out (*run)(Env &, double, double); double (*ref)(double, double, double &); };
static std::vector<Entry> table;
template <class OP, int CA, int CB> void regB() {
  if constexpr ((CA == CD || CA == PD) && (CB == CD || CB == PD) && !(CA == PD || CB == PD)) return;
  else if constexpr (CB == SAME && (CA != LV && CA != AV)) return;
  else {
    // supported?
    constexpr int cb = CB == SAME ? CA : CB;
    if constexpr (requires { OP::f(std::declval<typename Pro<CA>::T>(), std::declval<typename Pro<cb>::T>()); })
      table.push_back({OP::name, CA, CB, OP::cl, OP::fl, &runB<OP, CA, CB>, CB == SAME ? &refBsame<OP> : &refB<OP>});
  }
}
template <class OP, int CA> void regB1() { regB<OP, CA, LV>(); regB<OP, CA, RV>(); regB<OP, CA, MV>(); regB<OP, CA, CD>(); regB<OP, CA, PD>(); regB<OP, CA, AV>(); regB<OP, CA, CAV>(); regB<OP, CA, SAME>(); }
template <class OP> void regBin() { regB1<OP, LV>(); regB1<OP, RV>(); regB1<OP, MV>(); regB1<OP, CD>(); regB1<OP, PD>(); regB1<OP, AV>(); regB1<OP, CAV>(); }
template <class OP, int CA> void regU1() { if constexpr (requires { OP::f(std::declval<typename Pro<CA>::T>()); }) table.push_back({OP::name, CA, -1, OP::cl, OP::fl, &runU<OP, CA>, &refU<OP>}); }
template <class OP> void regUn() { regU1<OP, LV>(); regU1<OP, RV>(); regU1<OP, MV>(); regU1<OP, PD>(); regU1<OP, AV>(); regU1<OP, CAV>(); }
#define ALLBIN(X) X(add) X(sub) X(mul) X(dvd) X(addto) X(subto) X(multo) X(divto) X(assign) X(eq) X(ne) X(lt) X(le) X(gt) X(ge) X(fmin_) X(fmax_) X(min_) X(max_) X(pow_) X(atan2_)
#define ALLUN(X) X(plus) X(neg) X(preinc) X(predec) X(postinc) X(postdec) X(exp_) X(log_) X(log10_) X(sqrt_) X(cbrt_) X(sin_) X(cos_) X(tan_) X(asin_) X(acos_) X(atan_) X(sinh_) X(cosh_) X(tanh_) X(asinh_) X(acosh_) X(atanh_) X(erf_) X(erfc_) X(ceil_) X(floor_) X(fabs_) X(abs_) X(isnan_) X(isinf_) X(isfinite_) X(isnormal_)
static void fill() {
#define R1(o) regBin<ops::o>();
#define R2(o) regUn<ops::o>();
  ALLBIN(R1) ALLUN(R2)
}
// the traceless types: named, temporary, constant, same
template <class T> struct TLs {
  struct E { const char *op; int ca, cb, cl, fl; double (*run)(double, double, bool &ok); double (*ref)(double, double, double &); };
  std::vector<E> t;
  template <class OP, int CA, int CB> static double go(double x, double y, bool &ok) {
    T a, b; a.setValue(x); b.setValue(y); ok = true;
    double r, xa; double w = CB == SAME ? refBsame<OP>(x, y, xa) : refB<OP>(x, y, xa); (void)w;
    if constexpr (CB == SAME) { r = num(OP::f(a, a)); }
    else if constexpr (CA == CD) r = num(OP::f(x, b));
    else if constexpr (CB == CD) r = num(OP::f(a, y));
    else if constexpr (CA == RV && CB == RV) r = num(OP::f(T(a), T(b)));
    else if constexpr (CA == RV) r = num(OP::f(T(a), b));
    else if constexpr (CB == RV) r = num(OP::f(a, T(b)));
    else r = num(OP::f(a, b));
    if (CA == LV && CB != SAME) ok = (OP::fl & ops::MUT) ? (OP::cl != ops::EX || same(a.getValue(), xa)) : biteq(a.getValue(), x);
    if (CB == LV) ok = ok && biteq(b.getValue(), y);
    return r;
  }
  template <class OP, int CA> static double goU(double x, double, bool &ok) {
    T a; a.setValue(x); ok = true; double r, xa; refU<OP>(x, 0, xa);
    if constexpr (CA == RV) r = num(OP::f(T(a))); else { r = num(OP::f(a)); ok = (OP::fl & ops::MUT) ? same(a.getValue(), xa) : biteq(a.getValue(), x); }
    return r;
  }
  // adtl_hov stops the program where it has no higher-order rule
  static bool lacks(std::string n, bool bothActive) {
    if (!std::is_same_v<T, adtl_hov::adouble>) return false;
    for (const char *q : {"acos_", "acosh_", "asin_", "asinh_", "atan_", "atan2_", "atanh_", "ceil_", "floor_", "fmax_", "fmin_", "max_", "min_", "log10_", "tan_", "tanh_"}) if (n == q) return true;
    return n == "cbrt_" || (n == "pow_" && bothActive);
  }
  template <class OP, int CA, int CB, class P, class Q> void r1() { if (!lacks(OP::name, CA != CD && CB != CD)) if constexpr (requires { OP::f(std::declval<P>(), std::declval<Q>()); }) t.push_back({OP::name, CA, CB, OP::cl, OP::fl, &go<OP, CA, CB>, CB == SAME ? &refBsame<OP> : &refB<OP>}); }
  template <class OP> void b() { r1<OP, LV, LV, T &, T &>(); r1<OP, LV, SAME, T &, T &>(); r1<OP, LV, CD, T &, double &>(); r1<OP, CD, LV, double &, T &>(); if constexpr (!(OP::fl & ops::MUT)) { r1<OP, RV, LV, T, T &>(); r1<OP, RV, RV, T, T>(); } r1<OP, LV, RV, T &, T>(); }
  template <class OP> void u() { if (lacks(OP::name, true)) return; if constexpr (requires { OP::f(std::declval<T &>()); }) t.push_back({OP::name, LV, -1, OP::cl, OP::fl, &goU<OP, LV>, &refU<OP>}); if constexpr (!(OP::fl & ops::MUT)) if constexpr (requires { OP::f(std::declval<T>()); }) t.push_back({OP::name, RV, -1, OP::cl, OP::fl, &goU<OP, RV>, &refU<OP>}); }
  TLs() {
#define R3(o) b<ops::o>();
#define R4(o) u<ops::o>();
    ALLBIN(R3) ALLUN(R4)
  }
};

static double special(Rng &g) {
  static const double s[] = {0.0, -0.0, 1, -1, 2, 0.5, -0.5, 3, -3, 10, 1e-5, -1e5, 1e308, -1e308, 5e-324, -5e-324, 2.3e-308, -1e-310, INFINITY, -INFINITY, NAN, 1.7976931348623157e308, 3.141592653589793, -1.5707963267948966, 709.5, -745, 0.9999999999999999, 1.0000000000000002, -0.9999999999999999, 2.5, 1e17, -4503599627370497.5};
  if (g.chance(0.45)) return s[g.in(0, (int)(sizeof s / sizeof *s) - 1)];
  const double u = g.chance(0.5) ? g.uni(-3, 3) : g.uni(-1, 1) * std::pow(10.0, g.in(-12, 12));
  return u;
}
static double second(Rng &g, double x) {
  switch (g.in(0, 9)) { case 0: case 1: return x; case 2: return -x; case 3: return std::nextafter(x, INFINITY); default: return special(g); }
}
// keys of recorded findings: the operand values decide
static std::string keyOf(const std::string &k, const std::string &op, double x, double y) {
  if ((op == "fmin_" || op == "fmax_" || op == "min_" || op == "max_") && (std::isnan(x) || std::isnan(y))) return "minmax_of_nan:" + k;
  if ((op == "eq" || op == "ne" || op == "le" || op == "ge") && std::isinf(x) && x == y) return "comparison_of_equal_infinities:" + k;
  if (op == "atan2_" && (std::isnan(x) || std::isnan(y))) return "atan2_of_nan:" + k;
  return k;
}
static std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

static void tapedCase(Ctx &c) {
  Rng &g = c.rng;
  const short tag = createNewTape(); setCurrentTape(tag);
  Env e; e.rec = g.chance(0.6);
  const bool replay = e.rec && g.chance(0.6);
  const int keep = g.in(0, 1);
  if (e.rec) trace_on(tag, keep);
  std::vector<double> by = {g.uni(-9, 9), g.uni(-9, 9), g.uni(-9, 9)};
  std::vector<std::unique_ptr<adouble>> bystander;
  for (double v : by) bystander.push_back(std::make_unique<adouble>(v));
  e.av = std::make_unique<advector>(8); for (size_t i = 0; i < 8; ++i) (*e.av)[i] = 0.25 * (double)i;
  e.idx = std::make_unique<adouble>(); *e.idx = 0.0;
  std::vector<Dep> deps; std::vector<std::pair<std::unique_ptr<adouble>, size_t>> res;
  const int k = g.in(4, 24); hist.clear();
  uint64_t h = hmix((uint64_t)e.rec, (uint64_t)replay);
  for (int i = 0; i < k && !bad; ++i) {
    const Entry &q = table[(size_t)g.in(0, (int)table.size() - 1)];
    if (!e.rec && (q.ca == PD || q.cb == PD)) continue;
    if (replay && (q.fl & ops::CMP)) continue;
    double x = special(g), y = second(g, x);
    const bool isPow = q.cl == ops::POWVV;
    // pow(double, adouble) refuses non-positive bases, pow(adouble, adouble) asserts positive ones
    if (isPow && q.cb != CD) { x = std::fabs(x); if (!(x > 0)) x = 1.5; if (q.cb == SAME) y = x; }
    if (replay && (q.ca == AV || q.cb == AV)) { /* fine: the subscripts are constants on the tape */ }
    h = hmix(h, hmix((uint64_t)(&q - table.data()), hdbl(x) ^ (hdbl(y) * 3)));
    const std::string nm = cat(q.op, ":", catName[q.ca], q.cb < 0 ? "" : cat(",", catName[q.cb]));
    c.phase(nm);
    const size_t ia = e.x.size();
    Out o = q.run(e, x, y);
    double xa, want = q.ref(x, y, xa);
    const double yy = q.cb == SAME ? x : y;
    // x / a parameter and x / constant multiply by the reciprocal, as do all /= forms
    const bool viaRec = q.cl == ops::DIV && (q.cb == CD || q.cb == PD || (q.fl & ops::MUT));
    auto decide = [&](double got, double w) {
      int cl = q.cl;
      if (isPow && q.cb == CD) cl = ops::EX; // std::pow itself
      return agree(cl, got, w, x, yy, viaRec);
    };
    int r = decide(o.got, want);
    c.count(cat("op_", q.op)); c.count(cat(q.cb < 0 ? "u_" : "b_", catName[q.ca], q.cb < 0 ? "" : cat("_", catName[q.cb])));
    c.count(r < 0 ? "values_out_of_range" : "values_compared"); if (std::isnan(want)) c.count("nan_values"); else if (std::isinf(want)) c.count("infinite_values"); else if (want == 0) c.count("zero_values");
    const std::string w = cat(nm, " x=", show(x), " y=", show(yy), e.rec ? " recording" : "");
    if (r == 0) { c.violation(keyOf(cat("value:", nm), q.op, x, yy), cat(w, " gave ", show(o.got), ", doubles ", show(want))); bad = keyOf("", q.op, x, yy).empty(); }
    if (o.hasAfter && decide(o.after, xa) == 0) { c.violation(cat("left:", nm), cat(w, " leaves ", show(o.after), ", doubles ", show(xa))); bad = true; }
    if (!o.operandsOk) { c.violation(cat("operand:", nm), cat(w, " changes an operand")); bad = true; }
    for (size_t j = 0; j < by.size(); ++j) if (!biteq(bystander[j]->value(), by[j])) { c.violation(cat("bystander:", nm), cat(w, " changes another variable")); bad = true; }
    c.count("operands_checked");
    if (e.rec && o.res) {
      deps.push_back({nm, isPow && q.cb == CD ? (int)ops::EX : q.cl, q.fl, q.ref, (int)ia, q.cb == SAME || e.x.size() < ia + 2 ? -1 : (int)ia + 1, x, yy, viaRec});
      // which of the two operands the single independent belongs to
      if (e.x.size() == ia + 1 && q.cb >= 0 && q.cb != SAME && (q.ca == CD || q.ca == PD)) { deps.back().ib = (int)ia; deps.back().ia = -1; }
      if (e.x.size() == ia) deps.back().ia = -1;
      if (q.cb == SAME) deps.back().ib = deps.back().ia;
      res.emplace_back(std::move(o.res), deps.size() - 1);
    } 
  }
  // streams, conversions, condassign, vector functions
  if (!bad) {
    const double x = special(g); adouble a; a = x; c.phase("conversion");
    if (!biteq((double)a, x) || !biteq(a.value(), x)) { c.violation("conversion", show(x)); bad = true; }
    std::ostringstream s1, s2; s1.precision(17); s2.precision(17); s1 << a; s2 << x << "(a)"; if (s1.str() != s2.str()) { c.violation("output", s1.str() + " " + s2.str()); bad = true; }
    const double z = g.uni(-5, 5); std::ostringstream z1; z1.precision(17); z1 << z; std::istringstream in(z1.str() + " 7.5"); adouble b; in >> b; double rest = 0; in >> rest;
    if (!biteq(b.value(), z) || rest != 7.5) { c.violation("input", cat(z1.str(), " read as ", show(b.value()))); bad = true; }
    double cv = special(g), v1 = special(g), v2 = special(g), r0 = special(g), wd = r0; adouble cc, a1, a2, rr; cc = cv; a1 = v1; a2 = v2; rr = r0;
    const int form = g.in(0, 7); c.phase(cat("condassign ", form)); c.count(cat("condassign_", form));
    switch (form) {
    case 0: condassign(rr, cc, a1, a2); condassign(wd, cv, v1, v2); if (!same(wd, cv > 0 ? v1 : v2)) { c.violation("condassign_double", show(cv)); bad = true; } break;
    case 1: condassign(rr, cc, a1); condassign(wd, cv, v1); break;
    case 2: condeqassign(rr, cc, a1, a2); condeqassign(wd, cv, v1, v2); if (!same(wd, cv >= 0 ? v1 : v2)) { c.violation("condeqassign_double", show(cv)); bad = true; } break;
    case 3: condeqassign(rr, cc, a1); condeqassign(wd, cv, v1); break;
    case 4: condassign(rr, rr, a1, a2); wd = r0 > 0 ? v1 : v2; break;
    case 5: condassign(rr, cc, rr, a2); wd = cv > 0 ? r0 : v2; break;
    case 6: condeqassign(rr, cc, a1, rr); wd = cv >= 0 ? v1 : r0; break;
    default: condeqassign(rr, rr, rr, a2); wd = r0 >= 0 ? r0 : v2; break;
    }
    if (!same(rr.value(), wd) || (!same(cc.value(), cv)) || !same(a1.value(), v1) || !same(a2.value(), v2)) { c.violation(cat("condassign:", form), cat("cond ", show(form == 4 || form == 7 ? r0 : cv), " gave ", show(rr.value()), " want ", show(wd))); bad = true; }
    // frexp, ldexp
    int e1 = 77, e2 = 77; const double fx = g.chance(0.7) ? special(g) : g.uni(-100, 100); adouble f; if (e.rec) { f <<= fx; e.x.push_back(fx); } else f = fx;
    double wf = std::frexp(fx, &e1); std::unique_ptr<adouble> fr;
    c.phase("frexp"); const bool tmp = g.chance(0.5);
    if (tmp) fr = std::make_unique<adouble>(frexp(adouble(f), &e2)); else fr = std::make_unique<adouble>(frexp(f, &e2));
    if (!same(fr->value(), wf) || (std::isfinite(fx) && e1 != e2) || !biteq(f.value(), fx)) { c.violation(tmp ? "frexp:temporary" : "frexp:named", show(fx)); bad = true; }
    if (e.rec) { deps.push_back({tmp ? "frexp:temporary" : "frexp:named", ops::EX, ops::BR, nullptr, -1, -1, fx, 0, false}); deps.back().x = wf; res.emplace_back(std::move(fr), deps.size() - 1); }
    const int ex = g.in(-40, 40); adouble l = g.chance(0.5) ? ldexp(f, ex) : ldexp(adouble(f), ex);
    if (!same(l.value(), std::ldexp(fx, ex))) { c.violation("ldexp", cat(show(fx), " ", ex)); bad = true; }
    c.count("functions_checked");
  }
  if (!bad && e.rec) {
    const int n = g.in(1, 6); auto contig = [&] { currentTape().ensureContiguousLocations((size_t)n); return std::make_unique<adouble[]>((size_t)n); }; auto u = contig(), v = contig(), w = contig();
    std::vector<double> U, V; for (int i = 0; i < n; ++i) { U.push_back(special(g)); V.push_back(special(g)); u[i] = U.back(); v[i] = V.back(); }
    c.phase("vec"); adouble d = adolc_vec_dot(u.get(), v.get(), (unsigned)n); double s = 0; for (int i = 0; i < n; ++i) s += U[(size_t)i] * V[(size_t)i];
    if (!same(d.value(), s) && !(d.value() == s)) { c.violation("vec_dot", cat(show(d.value()), " ", show(s))); bad = true; }
    const double al = special(g); adouble aa; aa = al; adolc_vec_axpy(w.get(), aa, u.get(), v.get(), (unsigned)n);
    for (int i = 0; i < n; ++i) if (!same(w[i].value(), al * U[(size_t)i] + V[(size_t)i]) || !biteq(u[i].value(), U[(size_t)i]) || !biteq(v[i].value(), V[(size_t)i])) { c.violation("vec_axpy", cat(show(al), " ", show(U[(size_t)i]), " ", show(V[(size_t)i]), " ", show(w[i].value()))); bad = true; break; }
    adolc_vec_copy(w.get(), u.get(), (unsigned)n); for (int i = 0; i < n; ++i) if (!biteq(w[i].value(), U[(size_t)i])) { c.violation("vec_copy", ""); bad = true; break; }
    c.count("vector_functions");
  }
  if (e.rec) {
    c.phase("dependents");
    std::vector<double> out;
    for (auto &r : res) { double d = 123; const double v = r.first->value(); *r.first >>= d; out.push_back(v); if (!biteq(d, v)) { c.violation("dependent", cat(show(d), " ", show(v))); bad = true; } }
    trace_off(g.in(0, 1));
    const int n = (int)e.x.size(), m = (int)out.size();
    if (n && m && !bad && replay) {
      std::vector<double> y((size_t)m);
      for (int t = 0; t < 4 && !bad; ++t) {
        std::vector<double> x = e.x; if (t) for (auto &v : x) if (g.chance(0.8)) v = special(g);
        c.phase("replay"); zos_forward(tag, m, n, 0, x.data(), y.data()); c.count("replays");
        for (size_t j = 0; j < (size_t)m; ++j) {
          const Dep &d = deps[res[j].second]; double want;
          // signs of zero: constants zero and one are taped as such
          if (!d.ref) { if (!(y[j] == d.x || std::isnan(y[j]) == std::isnan(d.x))) want = d.x; else { c.count("replayed_values"); if (std::isfinite(d.x) && y[j] != d.x) { c.violation(cat("replay:", d.name), cat("gave ", show(y[j]), ", recorded ", show(d.x))); bad = true; } continue; } }
          double xx = d.ia >= 0 ? x[(size_t)d.ia] : d.x, yy = d.ib >= 0 ? x[(size_t)d.ib] : d.y, xa;
          if (t && (d.fl & ops::BR) && d.cl != ops::EX) { c.count("replays_at_other_points_skipped"); continue; }
          // zeros whose sign the tape does not keep, at the recording point too
          want = d.ref ? d.ref(xx, yy, xa) : d.x;
          const int r = y[j] == want ? 1 : agree(d.cl, y[j], want, xx, yy, d.cdiv);
          c.count(r < 0 ? "replayed_out_of_range" : "replayed_values");
          if (r == 0) { c.violation(keyOf(cat("replay:", d.name), d.name.substr(0, d.name.find(':')), xx, yy), cat(d.name, " x=", show(xx), " y=", show(yy), " evaluates to ", show(y[j]), ", doubles ", show(want), t ? " at another point" : " where recorded")); if (!keyOf("", d.name.substr(0, d.name.find(':')), xx, yy).empty()) continue; bad = true; break; }
        }
      }
    }
  }
  c.nontrivial(h);
}
template <class T> void tlCase(Ctx &c, const char *kind) {
  static TLs<T> L; Rng &g = c.rng; uint64_t h = 77;
  for (int i = 0; i < 30 && !bad; ++i) {
    const auto &q = L.t[(size_t)g.in(0, (int)L.t.size() - 1)];
    double x = special(g), y = second(g, x);
    h = hmix(h, hmix((uint64_t)(&q - L.t.data()), hdbl(x) ^ (hdbl(y) * 3)));
    const std::string nm = cat(kind, "_", q.op, ":", catName[q.ca], q.cb < 0 ? "" : cat(",", catName[q.cb]));
    c.phase(nm); bool ok; double got = q.run(x, y, ok), xa, want = q.ref(x, y, xa); const double yy = q.cb == SAME ? x : y;
    int cl = q.cl; if (cl != ops::MM && cl != ops::DIV) cl = ops::EX;
    const int r = agree(cl, got, want, x, yy, true);
    c.count(cat(kind, "_values")); c.count(cat(kind, "_", q.op)); if (r >= 0) c.count("values_compared");
    if (r == 0) { c.violation(keyOf(cat("value:", nm), q.op, x, yy), cat(nm, " x=", show(x), " y=", show(yy), " gave ", show(got), ", doubles ", show(want))); bad = true; }
    if (!ok) { c.violation(cat("operand:", nm), cat(nm, " x=", show(x), " y=", show(yy), " leaves wrong operands")); bad = true; }
  }
  c.nontrivial(h);
}
static void oneCase(Ctx &c) {
  if (table.empty()) fill();
  bad = false;
  fresh([&] {
    const int k = c.rng.in(0, 9);
    if (k == 0) tlCase<adtl::adouble>(c, "adtl"); else if (k == 1) tlCase<adtl_hov::adouble>(c, "hov"); else tapedCase(c);
  });
}
int main(int argc, char **argv) { return harness_main(argc, argv, oneCase); }
