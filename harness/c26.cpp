// C26: nonsmooth points.  Programs of smooth operations, fabs, fmin, fmax and
// powers evaluated exactly at ties (built from dyadic arithmetic, so that the
// ties are exact), against one-sided Taylor expansions computed independently:
// near t=0+ the sign of a series is the sign of its leading nonzero coefficient.
#include "adtape.h"
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
using namespace vh; using namespace at;
enum O { ADD, SUB, MUL, MULC, ADDC, NEG, CPY, POWI, ABS, MIN, MAX, MINC, MAXC, CMIN, CMAX, SIN, COS, EXP, ATAN, TANH, SQRTP, DIVP, SQRT0, POWF, NO };
static const char *on[] = {"ADD", "SUB", "MUL", "MULC", "ADDC", "NEG", "CPY", "POWI", "ABS", "MIN", "MAX", "MINC", "MAXC", "CMIN", "CMAX", "SIN", "COS", "EXP", "ATAN", "TANH", "SQRTP", "DIVP", "SQRT0", "POWF"};
struct I { int op, d, a, b; double k; };
struct Pr { int n, m, nr; std::vector<I> c; std::vector<int> dep; std::vector<double> x;
  std::string str() const { std::string s = cat("x="); for (double v : x) s += cat(v, ","); for (auto &i : c) s += cat(" r", i.d, "=", on[i.op], "(r", i.a, ",r", i.b, ",", i.k, ")"); s += " deps"; for (int q : dep) s += cat(" r", q); return s; }
  uint64_t hash() const { uint64_t h = 7; for (auto &i : c) h = hmix(h, (uint64_t)(i.op * 1000003 + i.d * 10007 + i.a * 101 + i.b) ^ hdbl(i.k)); for (double v : x) h = hmix(h, hdbl(v)); return h; } };
// ---- one-sided series
static int D = 1;             // degree
static bool amb;              // a decision hangs on rounding
static bool nan_;             // outside the domain
static std::vector<int> *dec; // decisions taken
template <class F> struct P { std::array<F, 6> c{}; P(F v = 0) { c[0] = v; } };
template <class F> P<F> operator+(P<F> a, const P<F> &b) { for (int i = 0; i <= D; ++i) a.c[i] += b.c[i]; return a; }
template <class F> P<F> operator-(P<F> a, const P<F> &b) { for (int i = 0; i <= D; ++i) a.c[i] -= b.c[i]; return a; }
template <class F> P<F> operator*(const P<F> &a, const P<F> &b) { P<F> r; for (int i = 0; i <= D; ++i) for (int j = 0; j <= i; ++j) r.c[i] += a.c[j] * b.c[i - j]; return r; }
template <class F> P<F> operator/(const P<F> &a, const P<F> &b) { P<F> r; for (int i = 0; i <= D; ++i) { F s = a.c[i]; for (int j = 1; j <= i; ++j) s -= b.c[j] * r.c[i - j]; r.c[i] = s / b.c[0]; } return r; }
template <class F> P<F> scl(P<F> a, F k) { for (int i = 0; i <= D; ++i) a.c[i] *= k; return a; }
// y with y' = g * a', y(0) = y0; g given coefficientwise as needed
template <class F, class G> P<F> integ(const P<F> &a, F y0, G g) { P<F> r; r.c[0] = y0; for (int i = 1; i <= D; ++i) { F s = 0; for (int j = 1; j <= i; ++j) s += F(j) * a.c[j] * g(r, i - j); r.c[i] = s / F(i); } return r; }
template <class F> P<F> exp(const P<F> &a) { return integ(a, std::exp(a.c[0]), [](const P<F> &r, int k) { return r.c[k]; }); }
template <class F> void sc(const P<F> &a, P<F> &s, P<F> &c) { s.c[0] = std::sin(a.c[0]); c.c[0] = std::cos(a.c[0]); for (int i = 1; i <= D; ++i) { F x = 0, y = 0; for (int j = 1; j <= i; ++j) { x += F(j) * a.c[j] * c.c[i - j]; y -= F(j) * a.c[j] * s.c[i - j]; } s.c[i] = x / F(i); c.c[i] = y / F(i); } }
template <class F> P<F> sin(const P<F> &a) { P<F> s, c; sc(a, s, c); return s; }
template <class F> P<F> cos(const P<F> &a) { P<F> s, c; sc(a, s, c); return c; }
template <class F> P<F> atan(const P<F> &a) { P<F> h = P<F>(1) / (P<F>(1) + a * a); return integ(a, std::atan(a.c[0]), [&](const P<F> &, int k) { return h.c[k]; }); }
template <class F> P<F> tanh(const P<F> &a) { P<F> e = exp(scl(a, F(2))); return (e - P<F>(1)) / (e + P<F>(1)); }
template <class F> P<F> sqrt(const P<F> &a) { P<F> r; r.c[0] = std::sqrt(a.c[0]); for (int i = 1; i <= D; ++i) { F s = a.c[i]; for (int j = 1; j < i; ++j) s -= r.c[j] * r.c[i - j]; r.c[i] = s / (2 * r.c[0]); } return r; }
// Resolution of ties may be prescribed (gradients of the smooth pieces)
static const std::vector<int> *force; static size_t fpos; static std::vector<int> tiedAt;
template <class F> int lead(const P<F> &a, F scale) {
  const size_t me = fpos++;
  if (force && me < force->size() && (*force)[me]) return (*force)[me];
  for (int i = 0; i <= D; ++i) if (a.c[i] != 0) { if (std::fabs(a.c[i]) < F(1e-7) * (1 + scale)) amb = true; return a.c[i] > 0 ? 1 : -1; }
  return 0;
}
template <class F> F mx(const P<F> &a) { F r = 0; for (int i = 0; i <= D; ++i) r = std::max(r, (F)std::fabs(a.c[i])); return r; }
static void note(int s) { if (dec) dec->push_back(s); }
template <class F> P<F> fabs(const P<F> &a) { int s = lead(a, F(0)); note(s); return s < 0 ? scl(a, F(-1)) : s > 0 ? a : P<F>(0); }
template <class F> P<F> fmin(const P<F> &a, const P<F> &b) { int s = lead(a - b, mx(a) + mx(b)); note(s); return s > 0 ? b : a; }
template <class F> P<F> fmax(const P<F> &a, const P<F> &b) { int s = lead(a - b, mx(a) + mx(b)); note(s); return s < 0 ? b : a; }
template <class F> P<F> powi(const P<F> &a, int k) { P<F> r(1); for (int i = 0; i < k; ++i) r = r * a; return r; }
template <class F> void step(const I &i, std::vector<P<F>> &r) {
  P<F> t; const P<F> a = r[i.a], b = r[i.b]; const F k = (F)i.k;
  switch (i.op) {
  case ADD: t = a + b; break; case SUB: t = a - b; break; case MUL: t = a * b; break; case MULC: t = scl(a, k); break; case ADDC: t = a + P<F>(k); break; case NEG: t = scl(a, F(-1)); break; case CPY: t = a; break;
  case POWI: t = powi(a, (int)i.k); break;
  case ABS: t = fabs(a); break; case MIN: t = fmin(a, b); break; case MAX: t = fmax(a, b); break;
  case MINC: case CMIN: t = fmin(a, P<F>(k)); break; case MAXC: case CMAX: t = fmax(a, P<F>(k)); break;
  case SIN: t = sin(a); break; case COS: t = cos(a); break; case EXP: t = exp(a); break; case ATAN: t = atan(a); break; case TANH: t = tanh(a); break;
  case SQRTP: t = sqrt(a * a + P<F>(1)); break; case DIVP: t = a / (b * b + P<F>(1)); break;
  case SQRT0: if (mx(a) != 0) nan_ = true; t = P<F>(0); break;                      // root of something that stays zero
  case POWF: if (a.c[0] != 0 || lead(a, F(0)) < 0 || D >= i.k) nan_ = true; t = P<F>(0); break; // all coefficients below the exponent vanish
  }
  r[i.d] = t;
}
template <class T> void stepT(const I &i, std::vector<T> &r) {
  using std::sin, std::cos, std::exp, std::atan, std::tanh, std::sqrt, std::pow, std::fabs, std::fmin, std::fmax;
  T &d = r[i.d]; const T &a = r[i.a], &b = r[i.b]; const double k = i.k;
  switch (i.op) {
  case ADD: d = a + b; break; case SUB: d = a - b; break; case MUL: d = a * b; break; case MULC: d = a * k; break; case ADDC: d = a + k; break; case NEG: d = -a; break; case CPY: d = a; break;
  case POWI: d = pow(a, k); break; case ABS: d = fabs(a); break; case MIN: d = fmin(a, b); break; case MAX: d = fmax(a, b); break;
  case MINC: d = fmin(a, k); break; case MAXC: d = fmax(a, k); break; case CMIN: d = fmin(k, a); break; case CMAX: d = fmax(k, a); break;
  case SIN: d = sin(a); break; case COS: d = cos(a); break; case EXP: d = exp(a); break; case ATAN: d = atan(a); break; case TANH: d = tanh(a); break;
  case SQRTP: d = sqrt(a * a + 1.0); break; case DIVP: d = a / (b * b + 1.0); break; case SQRT0: d = sqrt(a); break; case POWF: d = pow(a, k); break;
  }
}
static bool kink(int op) { return op >= ABS && op <= CMAX; }
static std::vector<double> fval(const Pr &p, const std::vector<double> &x) { std::vector<double> r((size_t)p.nr, 0.0); for (int i = 0; i < p.n; ++i) r[(size_t)i] = x[(size_t)i]; for (auto &i : p.c) stepT<double>(i, r); std::vector<double> y; for (int d : p.dep) y.push_back(r[(size_t)d]); return y; }
using L = long double;
struct Ref { std::vector<P<L>> y; bool ok = true; L scale = 0; std::vector<int> dec; };
// the series of the dependents along x(t) = x + sum X[i][j] t^(j+1)
static Ref refAlong(const Pr &p, int d, const std::function<double(int, int)> &X, const std::vector<int> *fo = nullptr) {
  Ref R; D = d; amb = nan_ = false; force = fo;
  auto go = [&](auto zero, std::vector<int> &dc, auto &out) {
    using F = decltype(zero); std::vector<P<F>> r((size_t)p.nr); dec = &dc; fpos = 0;
    for (int i = 0; i < p.n; ++i) { r[i].c[0] = (F)p.x[i]; for (int j = 0; j < d; ++j) r[i].c[j + 1] = (F)X(i, j); }
    for (auto &i : p.c) { step<F>(i, r); R.scale = std::max(R.scale, (L)mx(r[i.d])); }
    for (int q : p.dep) out.push_back(r[q]);
  };
  std::vector<P<double>> yd; std::vector<int> d2; go(L(0), R.dec, R.y); go(0.0, d2, yd);
  dec = nullptr; force = nullptr;
  R.ok = !amb && !nan_ && R.dec == d2 && R.scale < 1e4;
  return R;
}
struct Made { Pr p; int ties = 0; bool convex = false; };
// Programs with exact ties at p.x
static Made make(Rng &g, bool convex, bool zeros) {
  Made M; Pr &p = M.p; M.convex = convex;
  p.n = g.in(1, 4); p.m = g.in(1, 3); p.nr = p.n + g.in(2, 6);
  std::vector<double> v((size_t)p.nr, 0.0); std::vector<char> ex((size_t)p.nr, 1), live((size_t)p.nr, 0), kd((size_t)p.nr, 0); // kd: 0 affine 1 convex
  for (int i = 0; i < p.n; ++i) { p.x.push_back(g.chance(0.25) ? 0.0 : g.in(-6, 6) / 2.0); v[i] = p.x[i]; live[i] = 1; }
  const int len = g.in(3, 16); int muls = 0;
  std::vector<double> t;
  auto put = [&](I i) {
    t = v; stepT<double>(i, t);
    if (!(std::fabs(t[i.d]) < 60)) return false;
    v = t; live[i.d] = 1; p.c.push_back(i); return true;
  };
  auto pick = [&](bool exact) { for (int q = 0; q < 30; ++q) { int r = g.in(0, p.nr - 1); if (live[r] && (!exact || ex[r])) return r; } return 0; };
  for (int s = 0; s < len * 3 && (int)p.c.size() < len; ++s) {
    const int d = g.chance(0.75) ? g.in(p.n, p.nr - 1) : g.in(0, p.nr - 1);
    if (g.chance(0.45)) { // a kink, tied if possible
      int a = pick(true); if (!ex[a]) continue;
      const int how = g.in(0, 4);
      if (how == 0) { // |r| with r = 0
        if (convex && kd[a]) continue;
        int s0 = a;
        if (v[a] != 0) { if (!put({ADDC, d, a, a, -v[a]})) continue; s0 = d; ex[d] = 1; kd[d] = 0; }
        if (v[s0] != 0) continue;
        put({ABS, d, s0, s0, 0}); ex[d] = 1; kd[d] = 1;
      } else if (how <= 2) { // min or max of two equal registers
        int b = pick(true); if (!ex[b]) continue; const bool mn = !convex && g.chance(0.5);
        if (v[a] != v[b]) {
          if (d == a) continue;
          const char kb = kd[b]; if (!put({ADDC, d, b, b, v[a] - v[b]})) continue;
          ex[d] = 1; kd[d] = kb; b = d;
        }
        const char kk = 1; if (g.chance(0.5)) std::swap(a, b);
        put({mn ? MIN : MAX, d, a, b, 0}); ex[d] = 1; kd[d] = kk;
      } else if (how == 3) { // min or max with an equal constant
        put({convex ? (g.chance(0.5) ? MAXC : CMAX) : (int[]){MINC, MAXC, CMIN, CMAX}[g.in(0, 3)], d, a, a, v[a]}); ex[d] = 1; kd[d] = 1;
      } else { // not tied
        int b = pick(false); if (convex) { if (kd[a]) continue; put({ABS, d, a, a, 0}); kd[d] = 1; ex[d] = 1; }
        else { const char e = ex[a] && ex[b]; if (put({g.chance(0.5) ? MIN : MAX, d, a, b, 0})) ex[d] = e; }
      }
      continue;
    }
    const int a = pick(false), b = pick(false);
    switch (g.in(0, convex ? 5 : 14)) {
    case 0: { const char e = ex[a] && ex[b], k = kd[a] || kd[b]; if (put({ADD, d, a, b, 0})) ex[d] = e, kd[d] = k; } break;
    case 1: if (convex && kd[b]) break; { const char e = ex[a] && ex[b], k = kd[a]; if (put({SUB, d, a, b, 0})) ex[d] = e, kd[d] = k; } break;
    case 2: { double k = (double[]){2, 0.5, 1.5, -1, -2, 3}[g.in(0, 5)]; if (convex && kd[a]) k = std::fabs(k); const char e = ex[a], kk = kd[a]; if (put({MULC, d, a, a, k})) ex[d] = e, kd[d] = kk; } break;
    case 3: { const char e = ex[a], kk = kd[a]; if (put({ADDC, d, a, a, g.in(-4, 4) / 2.0})) ex[d] = e, kd[d] = kk; } break;
    case 4: if (convex && kd[a]) break; { const char e = ex[a]; if (put({NEG, d, a, a, 0})) ex[d] = e, kd[d] = 0; } break;
    case 5: { const char e = ex[a], kk = kd[a]; if (put({CPY, d, a, a, 0})) ex[d] = e, kd[d] = kk; } break;
    case 6: if (muls < 3) { const char e = ex[a] && ex[b]; if (put({MUL, d, a, b, 0})) ex[d] = e, ++muls; } break;
    case 7: if (muls < 3) { const int z = [&] { for (int q = 0; q < 30; ++q) { int r = pick(true); if (v[r] == 0 && ex[r]) return r; } return a; }(); const char e = ex[z]; if (put({POWI, d, z, z, (double)g.in(1, 4)})) ex[d] = e, ++muls; } break;
    case 8: if (put({SIN, d, a, a, 0})) ex[d] = 0; break;
    case 9: if (put({COS, d, a, a, 0})) ex[d] = 0; break;
    case 10: if (v[a] < 3 && put({EXP, d, a, a, 0})) ex[d] = 0; break;
    case 11: if (put({g.chance(0.5) ? ATAN : TANH, d, a, a, 0})) ex[d] = 0; break;
    case 12: if (put({SQRTP, d, a, a, 0})) ex[d] = 0; break;
    case 13: if (put({DIVP, d, a, b, 0})) ex[d] = 0; break;
    case 14: // twins: the same function of two registers that tie, then a kink
      if (p.nr - p.n >= 2) { int a1 = pick(true), a2 = pick(true); if (v[a1] != v[a2] || a1 == a2) break; int d1 = g.in(0, p.nr - 1), d2 = g.in(0, p.nr - 1); if (d1 == d2 || d1 == a2) break; const int f = (int[]){SIN, COS, ATAN, EXP}[g.in(0, 3)]; if (f == EXP && v[a1] > 3) break; if (put({f, d1, a1, a1, 0})) ex[d1] = 0; else break; if (put({f, d2, a2, a2, 0})) ex[d2] = 0; if (put({g.chance(0.5) ? MIN : MAX, d1, d1, d2, 0})) ex[d1] = 0; }
      break;
    }
    if (zeros && g.chance(0.2)) for (int r = 0; r < p.nr; ++r) if (live[r] && v[r] == 0) { if (g.chance(0.5)) put({POWF, d, r, r, (double[]){1.5, 2.5, 3.25}[g.in(0, 2)]}); else put({SQRT0, d, r, r, 0}); ex[d] = 1; break; }
  }
  for (int i = 0; i < p.m; ++i) { int r = g.chance(0.6) && !p.c.empty() ? p.c[p.c.size() - 1 - g.next() % std::min<size_t>(p.c.size(), 3)].d : pick(false); p.dep.push_back(r); }
  std::sort(p.dep.begin(), p.dep.end()); p.dep.erase(std::unique(p.dep.begin(), p.dep.end()), p.dep.end()); p.m = (int)p.dep.size();
  return M;
}
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  const bool convex = g.chance(0.35), zeros = !convex && g.chance(0.25);
  Made M = make(g, convex, zeros); Pr &p = M.p;
  if (p.c.empty()) { c.count("skipped_empty"); return; }
  const int n = p.n, m = p.m;
  // value ties along the way
  std::vector<int> tied; // indices (among the decisions) of value ties
  Ref R0 = refAlong(p, 0, [](int, int) { return 0.0; });
  { int nd = 0; for (int q : R0.dec) { if (q == 0) tied.push_back(nd); ++nd; } }
  bool hovMissing = false, hasMM = false, hasZ = false, selfTie = false; for (auto &i : p.c) { hovMissing |= i.op == ATAN || i.op == TANH || i.op == COS; hasMM |= i.op >= MIN && i.op <= CMAX; hasZ |= i.op == SQRT0 || i.op == POWF; selfTie |= (i.op == MIN || i.op == MAX) && i.a == i.b; }
  if (!R0.ok) { c.count("skipped_ambiguous"); return; }
  c.nontrivial(p.hash()); if (c.idx < 40) c.sample(p.str());
  if (c.verbose) fprintf(stderr, "%s ties %zu\n", p.str().c_str(), tied.size());
  c.count("programs"); c.count(cat("value_ties_", std::min<size_t>(tied.size(), 4)));
  for (auto &i : p.c) c.count(cat("op_", on[i.op]));
  // tape: recorded at the tied point or elsewhere
  const bool away = !hasZ && g.chance(0.5); bool abs = g.chance(0.25);
  if (abs) { // min and max through abs: only where their sums are exact, else rounding may decide a tie
    std::vector<double> r((size_t)p.nr, 0.0); for (int i = 0; i < n; ++i) r[(size_t)i] = p.x[(size_t)i];
    for (auto &i : p.c) {
      if (i.op >= MIN && i.op <= CMAX) { const double u = r[i.a], w = i.op <= MAX ? r[i.b] : i.k, s = u + w, e = u - w; if (s - w != u || s - u != w || e + w != u || u - e != w) abs = false; }
      stepT<double>(i, r);
    }
  }
  const short id = createNewTape(); setCurrentTape(id); if (abs) currentTape().enableMinMaxUsingAbs();
  { c.phase("record"); trace_on(id, g.in(0, 1)); std::vector<adouble> r((size_t)p.nr); std::vector<double> y((size_t)m);
    for (int i = 0; i < n; ++i) r[i] <<= p.x[i] + (away ? g.uni(-1, 1) : 0.0); for (int i = n; i < p.nr; ++i) r[i] = 0.0;
    for (auto &i : p.c) stepT<adouble>(i, r);
    for (int i = 0; i < m; ++i) r[p.dep[i]] >>= y[i]; trace_off(); }
  setCurrentTape(id);
  if (away) c.count("recorded_elsewhere"); if (abs) c.count("minmax_by_abs");
  auto where = [&] { return cat(" ", abs ? "abs " : "", away ? "away " : "", p.str()); };
  std::vector<double> x = p.x, y((size_t)m);
  int d = 1; bool viol = false;
  auto cmp = [&](const char *who, double got, const Ref &R, int i, int k) {
    c.count("coefficients_compared"); const double w = (double)R.y[i].c[k];
    if (viol || std::fabs(got - w) <= 1e-10 * (1 + std::fabs(w) + (double)R.scale)) { if (got != 0 || w != 0) c.count("nonzero_coefficients"); return; }
    viol = true; c.violation(cat("forward:", who), cat(who, " dependent ", i, " coefficient ", k, " is ", got, ", one-sided expansion ", w, where()));
  };
  auto coef = [&](int j) { (void)j; const int s = g.in(0, 9); return s < 3 ? 0.0 : s < 6 ? (double)g.in(-1, 1) : s < 9 ? g.in(-4, 4) / 2.0 : (double)g.in(-2, 2); };
  for (int rep = 0; rep < 2 && !viol; ++rep) {
    d = hasZ ? 1 : g.in(1, 5); const int np = g.in(1, 4);
    Ten X((size_t)n, (size_t)np, (size_t)d), Y((size_t)m, (size_t)np, (size_t)d);
    Ten dummy(1, 1, 1); std::vector<Ref> R;
    for (int i = 0; i < n; ++i) for (int l = 0; l < np; ++l) for (int k = 0; k < d; ++k) X[i][l][k] = coef(k);
    bool ok = true; long hi = 0;
    for (int l = 0; l < np; ++l) { R.push_back(refAlong(p, d, [&](int i, int k) { return X[i][l][k]; })); ok &= R.back().ok;
      // ties that only the directions decide, or leave open
      for (size_t q = 0; q < R.back().dec.size() && q < R0.dec.size(); ++q) if (R0.dec[q] == 0) { if (R.back().dec[q]) ++hi; else c.count("ties_open_along_the_curve"); } }
    if (!ok) { c.count("skipped_ambiguous_direction"); continue; }
    c.count("ties_decided_by_direction", hi);
    switch (g.in(0, 6)) {
    case 0: case 1: { const int keep = g.in(0, d + 1); Mat A(n, d), B(m, d); for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) A[i][k] = X[i][0][k]; c.phase("hos_forward"); hos_forward(id, m, n, d, keep, x.data(), A.ptr(), y.data(), B.ptr()); c.count(cat("hos_forward_degree_", d)); for (int i = 0; i < m; ++i) for (int k = 0; k < d; ++k) cmp("hos_forward", B[i][k], R[0], i, k + 1); } break;
    case 2: { std::vector<double> A((size_t)n), B((size_t)m); for (int i = 0; i < n; ++i) A[i] = X[i][0][0]; Ref R1 = refAlong(p, 1, [&](int i, int) { return A[i]; }); if (!R1.ok) break; c.phase("fos_forward"); fos_forward(id, m, n, g.in(0, 2), x.data(), A.data(), y.data(), B.data()); c.count("fos_forward"); for (int i = 0; i < m; ++i) cmp("fos_forward", B[i], R1, i, 1); } break;
    case 3: { Mat A(n, np), B(m, np); for (int i = 0; i < n; ++i) for (int l = 0; l < np; ++l) A[i][l] = X[i][l][0]; c.phase("fov_forward"); fov_forward(id, m, n, np, x.data(), A.ptr(), y.data(), B.ptr()); c.count("fov_forward"); for (int l = 0; l < np; ++l) { Ref R1 = refAlong(p, 1, [&](int i, int) { return A[i][l]; }); if (R1.ok) for (int i = 0; i < m; ++i) cmp("fov_forward", B[i][l], R1, i, 1); } } break;
    case 4: c.phase("hov_forward"); hov_forward(id, m, n, d, np, x.data(), X.ptr(), y.data(), Y.ptr()); c.count("hov_forward"); for (int l = 0; l < np; ++l) for (int i = 0; i < m; ++i) for (int k = 0; k < d; ++k) cmp("hov_forward", Y[i][l][k], R[l], i, k + 1); break;
    case 5: c.phase("hov_wk_forward"); hov_wk_forward(id, m, n, d, g.in(0, d + 1), np, x.data(), X.ptr(), y.data(), Y.ptr()); c.count("hov_wk_forward"); for (int l = 0; l < np; ++l) for (int i = 0; i < m; ++i) for (int k = 0; k < d; ++k) cmp("hov_wk_forward", Y[i][l][k], R[l], i, k + 1); break;
    case 6: if (hasZ) break; { // no tape (roots and fractional powers at zero are left to the tape)
      const bool hov = !hasMM && !hovMissing && g.chance(0.7);
      if (!hov) {
        c.phase("adtl"); adtl::setNumDir((size_t)np); c.count("adtl");
        std::vector<adtl::adouble> r((size_t)p.nr); for (int i = 0; i < p.nr; ++i) r[i] = 0.0;
        for (int i = 0; i < n; ++i) { r[i] = x[i]; for (int l = 0; l < np; ++l) r[i].setADValue((size_t)l, X[i][l][0]); }
        for (auto &i : p.c) stepT<adtl::adouble>(i, r);
        for (int l = 0; l < np; ++l) { Ref R1 = refAlong(p, 1, [&](int i, int) { return X[i][l][0]; }); if (R1.ok) for (int i = 0; i < m; ++i) cmp("adtl", r[p.dep[i]].getADValue((size_t)l), R1, i, 1); }
      } else {
        c.phase("adtl_hov"); adtl_hov::setNumDir((size_t)np); adtl_hov::setDegree((size_t)d); c.count("adtl_hov");
        std::vector<adtl_hov::adouble> r((size_t)p.nr); for (int i = 0; i < p.nr; ++i) r[i] = 0.0;
        for (int i = 0; i < n; ++i) { r[i] = x[i]; for (int l = 0; l < np; ++l) { r[i].setADValue((size_t)l, X[i][l][0]); for (int k = 0; k < d; ++k) r[i].getOneADValue((size_t)k)[l] = X[i][l][k]; } }
        for (auto &i : p.c) stepT<adtl_hov::adouble>(i, r);
        for (int l = 0; l < np; ++l) { for (int i = 0; i < m; ++i) for (int k = 0; k < d; ++k) cmp("adtl_hov", r[p.dep[i]].getOneADValue((size_t)k)[l], R[l], i, k + 1); Ref R1 = refAlong(p, 1, [&](int i, int) { return X[i][l][0]; }); if (R1.ok) for (int i = 0; i < m; ++i) cmp("adtl_hov_first", r[p.dep[i]].getADValue((size_t)l), R1, i, 1); }
      }
    } break;
    }
    // the values along the curve themselves
    if (!viol && !hasZ && rep == 0) { const Ref &Q = R[0]; const double t = std::ldexp(1.0, -13); std::vector<double> xt = x; for (int i = 0; i < n; ++i) { double s = 0; for (int k = d; k-- > 0;) s = (s + X[i][0][k]) * t; xt[i] += s; } auto f = fval(p, xt); for (int i = 0; i < m; ++i) { long double s = 0; for (int k = d; k >= 0; --k) s = s * t + Q.y[i].c[k]; const double tol = 1e-10 * (1 + (double)Q.scale) + std::pow(t, d + 1) * 1e5 * (1 + (double)Q.scale); c.count("values_along_the_curve"); if (std::fabs(f[i] - (double)s) > tol) c.count("curve_not_resolved"); } }
  }
  if (viol || hasZ) return;
  // reverse
  D = 1;
  for (int rep = 0; rep < 2 && !viol; ++rep) {
    const int q = g.in(1, 3); Mat U(q, m), Z(q, n); bool pos = convex;
    for (int a = 0; a < q; ++a) for (int i = 0; i < m; ++i) U[a][i] = convex ? g.in(0, 4) / 2.0 : g.in(-4, 4) / 2.0;
    const char *who = ""; int rows = 1; (void)pos;
    switch (g.in(0, 5)) {
    case 0: who = "fos_reverse"; c.phase(who); zos_forward(id, m, n, 1, x.data(), y.data()); fos_reverse(id, m, n, U[0], Z[0]); break;
    case 1: who = "fov_reverse"; c.phase(who); zos_forward(id, m, n, 1, x.data(), y.data()); fov_reverse(id, m, n, q, U.ptr(), Z.ptr()); rows = q; break;
    case 2: { who = "hos_reverse"; c.phase(who); const int dd = g.in(1, 3); Mat A(n, dd), B(m, dd), W(n, dd + 1); for (int i = 0; i < n; ++i) for (int k = 0; k < dd; ++k) A[i][k] = coef(k); if (!refAlong(p, dd, [&](int i, int k) { return A[i][k]; }).ok) continue; hos_forward(id, m, n, dd, dd + 1, x.data(), A.ptr(), y.data(), B.ptr()); hos_reverse(id, m, n, dd, U[0], W.ptr()); for (int i = 0; i < n; ++i) Z[0][i] = W[i][0]; } break;
    case 3: { who = "hov_reverse"; c.phase(who); const int dd = g.in(1, 3); Mat A(n, dd), B(m, dd); Ten W((size_t)q, (size_t)n, (size_t)dd + 1); std::vector<std::vector<short>> nzv((size_t)q, std::vector<short>((size_t)n)); std::vector<short *> nz; for (auto &v : nzv) nz.push_back(v.data()); for (int i = 0; i < n; ++i) for (int k = 0; k < dd; ++k) A[i][k] = coef(k); if (!refAlong(p, dd, [&](int i, int k) { return A[i][k]; }).ok) continue; hos_forward(id, m, n, dd, dd + 1, x.data(), A.ptr(), y.data(), B.ptr()); hov_reverse(id, m, n, dd, q, U.ptr(), W.ptr(), nz.data()); rows = q; for (int a = 0; a < q; ++a) for (int i = 0; i < n; ++i) Z[a][i] = W[a][i][0]; } break;
    case 4: who = "vec_jac"; c.phase(who); vec_jac(id, m, n, 0, x.data(), U[0], Z[0]); break;
    case 5: if (m == 1) { who = "gradient"; c.phase(who); gradient(id, n, x.data(), Z[0]); U[0][0] = 1; } else { who = "fos_reverse"; c.phase(who); zos_forward(id, m, n, 1, x.data(), y.data()); fos_reverse(id, m, n, U[0], Z[0]); } break;
    }
    c.count(who);
    for (int a = 0; a < rows && !viol; ++a) {
      if (tied.size() <= 1) { // the segment between the gradients of the two pieces
        auto grad = [&](int s, bool &ok) { std::vector<double> r((size_t)n); std::vector<int> fo(R0.dec.size(), 0); if (!tied.empty()) fo[(size_t)tied[0]] = s; for (int j = 0; j < n; ++j) { Ref R = refAlong(p, 1, [&](int i, int) { return i == j ? 1.0 : 0.0; }, &fo); for (int i = 0; i < m; ++i) r[j] += U[a][i] * (double)R.y[i].c[1]; ok &= R.scale < 1e4; } return r; };
        bool ok = true; auto gp = grad(1, ok), gm = grad(-1, ok); if (!ok) { c.count("skipped_large"); continue; }
        double nn = 0, dot = 0, sc = 1; for (int i = 0; i < n; ++i) { nn += (gp[i] - gm[i]) * (gp[i] - gm[i]); dot += (Z[a][i] - gm[i]) * (gp[i] - gm[i]); sc = std::max({sc, std::fabs(gp[i]), std::fabs(gm[i])}); }
        double lam = nn > 0 ? std::min(1.0, std::max(0.0, dot / nn)) : 0, res = 0; for (int i = 0; i < n; ++i) res = std::max(res, std::fabs(Z[a][i] - gm[i] - lam * (gp[i] - gm[i])));
        c.count(tied.empty() ? "gradients_smooth" : nn > 0 ? "gradients_in_segment" : "gradients_same_pieces");
        if (!(res <= 1e-9 * sc * (1 + (double)R0.scale))) { viol = true; std::string s; for (int i = 0; i < n; ++i) s += cat(" ", Z[a][i], " [", gm[i], ",", gp[i], "]"); c.violation(cat("reverse:", who), cat(who, " is not between the gradients of the two pieces:", s, where())); }
      } else if (convex) { // subgradient inequality
        auto f0 = fval(p, x); double s0 = 0; for (int i = 0; i < m; ++i) s0 += U[a][i] * f0[i];
        for (int t = 0; t < 40; ++t) {
          std::vector<double> z = x; const double h = std::pow(2.0, g.in(-8, 2)); double lin = s0; if (t < 2 * n) z[(size_t)(t / 2)] += (t & 1 ? h : -h); else for (auto &v : z) v += h * (g.chance(0.4) ? g.in(-1, 1) : g.uni(-1, 1));
          for (int i = 0; i < n; ++i) lin += Z[a][i] * (z[i] - x[i]);
          auto f = fval(p, z); double s = 0; for (int i = 0; i < m; ++i) s += U[a][i] * f[i];
          c.count("subgradient_inequalities");
          if (!(s >= lin - 1e-9 * (1 + std::fabs(s) + std::fabs(lin) + (double)R0.scale))) { viol = true; std::string q2; for (int i = 0; i < n; ++i) q2 += cat(" ", Z[a][i]); c.violation(cat("subgradient:", who), cat(who, " gives", q2, " which is no subgradient of the convex function: f(z)=", s, " < ", lin, where())); break; }
        }
        c.count("gradients_convex");
      } else { // between the gradients of all ways to resolve the ties, in every direction
        const size_t K = std::min<size_t>(tied.size(), 6); bool ok = tied.size() <= 6; std::vector<std::vector<double>> V; double sc = 1;
        for (size_t mask = 0; ok && mask < (size_t(1) << K); ++mask) { std::vector<int> fo(R0.dec.size(), 0); for (size_t q2 = 0; q2 < K; ++q2) fo[(size_t)tied[q2]] = mask >> q2 & 1 ? 1 : -1; std::vector<double> r((size_t)n); for (int j = 0; j < n; ++j) { Ref R = refAlong(p, 1, [&](int i, int) { return i == j ? 1.0 : 0.0; }, &fo); ok &= R.scale < 1e4; for (int i = 0; i < m; ++i) r[j] += U[a][i] * (double)R.y[i].c[1]; sc = std::max(sc, std::fabs(r[j])); } V.push_back(r); }
        if (ok) { c.count("gradients_in_hull"); c.count("hull_vertices", (long)V.size()); bool out = false;
          for (int t = 0; t < 30 + 2 * n && !out; ++t) { std::vector<double> w((size_t)n); if (t < n) w[t] = 1; else for (auto &q2 : w) q2 = g.uni(-1, 1); double lo = INFINITY, hi2 = -INFINITY, z = 0; for (auto &r : V) { double s = 0; for (int i = 0; i < n; ++i) s += w[i] * r[i]; lo = std::min(lo, s); hi2 = std::max(hi2, s); } for (int i = 0; i < n; ++i) z += w[i] * Z[a][i]; out = !(z >= lo - 1e-9 * sc * (1 + (double)R0.scale) && z <= hi2 + 1e-9 * sc * (1 + (double)R0.scale)); }
          if (out) { viol = true; std::string s; for (int i = 0; i < n; ++i) s += cat(" ", Z[a][i]); c.violation(cat("hull:", who), cat(who, " gives", s, " which is not between the gradients of the pieces", where())); } }
        else c.count("gradients_not_decided"); for (int i = 0; i < n; ++i) if (!std::isfinite(Z[a][i])) { viol = true; c.violation(cat("reverse_nan:", who), cat(who, " not finite", where())); break; } }
    }
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
