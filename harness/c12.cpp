// C12: return codes and runtime selections.  Programs over dyadic numbers, so
// that every decision (comparison, abs, min/max, step, conditional assignment,
// active subscript) is exact and ties are common; taped at one point and
// evaluated at others.
#include "adtape.h"
using namespace vh;
using at::Mat; using at::Ten;
namespace {
enum { ADD, SUB, MUL, MULC, ADDC, NEG, COPY, SETC, ADDEQ, SUBEQ, ABS, MIN, MAX, MINC, MAXC, CEILF, FLOORF, COND4, COND3, CEQ4, CEQ3, CMP, LOOP, AVR, AVW, AVC, NOP_ };
const char *nm[] = {"ADD","SUB","MUL","MULC","ADDC","NEG","COPY","SETC","ADDEQ","SUBEQ","ABS","MIN","MAX","MINC","MAXC","CEIL","FLOOR","COND4","COND3","CEQ4","CEQ3","CMP","LOOP","AVR","AVW","AVC"};
struct In { int op, d, a, b, c, v; double k; };
struct Pr { int n, m, nr; std::vector<In> code; std::vector<int> dep;
  uint64_t hash() const { uint64_t h = hmix(n * 100 + m, nr); for (auto &i : code) h = hmix(h, ((uint64_t)i.op << 48) ^ ((uint64_t)i.d << 40) ^ ((uint64_t)i.a << 32) ^ (i.b << 24) ^ (i.c << 16) ^ (i.v << 8) ^ hdbl(i.k)); for (int d : dep) h = hmix(h, d); return h; }
  std::string str() const { std::string s = cat("n=", n, " m=", m, ":"); for (auto &i : code) s += cat(" r", i.d, "=", nm[i.op], "/", i.v, "(r", i.a, ",r", i.b, ",r", i.c, ",", i.k, ")"); s += " deps"; for (int d : dep) s += cat(" r", d); return s; } };
// decision log
enum { KCMP, KABS, KMIN, KSTEP, KCOND, KCEQ };
struct Dec { int kind; int out; bool tie; int side; };
struct Log { std::vector<Dec> v; bool bad = false; double mx = 0; };
thread_local Log *lg = nullptr;
// forward numbers: value, derivatives by the independents and by a
// perturbation of every decision's result
struct D1 {
  double v = 0; std::vector<double> d;
  D1(double x = 0) : v(x) {}
};
thread_local int NV = 0, NE = 0; thread_local bool inexact = false;
double g_(const D1 &a, int i) { return i < (int)a.d.size() ? a.d[i] : 0; }
double chk(long double e) { double r = (double)e; if ((long double)r != e || fabsl(e) > 1e12L) inexact = true; return r; }
D1 lin(double v, const D1 &a, double fa, const D1 &b, double fb) { D1 r(v); size_t n = std::max(a.d.size(), b.d.size()); r.d.resize(n); for (size_t i = 0; i < n; ++i) r.d[i] = chk((long double)fa * g_(a, i) + (long double)fb * g_(b, i)); return r; }
D1 operator+(const D1 &a, const D1 &b) { return lin(chk((long double)a.v + b.v), a, 1, b, 1); }
D1 operator-(const D1 &a, const D1 &b) { return lin(chk((long double)a.v - b.v), a, 1, b, -1); }
D1 operator*(const D1 &a, const D1 &b) { return lin(chk((long double)a.v * b.v), a, b.v, b, a.v); }
D1 operator-(const D1 &a) { return lin(-a.v, a, -1, D1(0), 0); }
void eps(D1 &r) { int i = NV + NE++; if ((int)r.d.size() <= i) r.d.resize(i + 1); r.d[i] += 1; }
void dec(int kind, int out, bool tie, int side) { lg->v.push_back({kind, out, tie, side}); }
int sg(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
void runRef(const Pr &p, std::vector<D1> &r) {
  for (auto &I : p.code) {
    const D1 a = r[I.a], b = r[I.b], c = r[I.c]; D1 &d = r[I.d]; const double k = I.k;
    auto mn = [&](const D1 &x, const D1 &y, int s) { int w = sg(s * (x.v - y.v)); dec(KMIN, w, w == 0, w); d = w > 0 ? y : x; eps(d); };
    switch (I.op) {
    case ADD: d = a + b; break; case SUB: d = a - b; break; case MUL: d = a * b; break; case MULC: d = a * D1(k); break;
    case ADDC: d = a + D1(k); break; case NEG: d = -a; break; case COPY: d = a; break; case SETC: d = D1(k); break;
    case ADDEQ: d = d + a; break; case SUBEQ: d = d - a; break;
    case ABS: { int w = sg(a.v); dec(KABS, w >= 0, w == 0, w); d = w < 0 ? -a : a; eps(d); } break;
    case MIN: mn(a, b, 1); break; case MAX: mn(a, b, -1); break;
    case MINC: mn(a, D1(k), 1); break; case MAXC: mn(a, D1(k), -1); break;
    case CEILF: case FLOORF: { double w = I.op == CEILF ? ceil(a.v) : floor(a.v); dec(KSTEP, (int)w, false, 0); d = D1(w); eps(d); } break;
    case COND4: dec(KCOND, a.v > 0, a.v == 0, sg(a.v)); d = a.v > 0 ? b : c; eps(d); break;
    case COND3: dec(KCOND, a.v > 0, a.v == 0, sg(a.v)); if (a.v > 0) d = b; eps(d); break;
    case CEQ4: dec(KCEQ, a.v >= 0, a.v == 0, sg(a.v)); d = a.v >= 0 ? b : c; eps(d); break;
    case CEQ3: dec(KCEQ, a.v >= 0, a.v == 0, sg(a.v)); if (a.v >= 0) d = b; eps(d); break;
    case CMP: {
      double x = (I.v & 8) ? k : a.v, y = (I.v & 8) ? a.v : (I.v & 16) ? b.v : k; bool t = false;
      switch (I.v & 7) { case 0: t = x < y; break; case 1: t = x <= y; break; case 2: t = x > y; break; case 3: t = x >= y; break; case 4: t = x == y; break; default: t = x != y; }
      dec(KCMP, t, x == y, 0); d = t ? c * D1(2) : c - D1(1); eps(d);
    } break;
    case LOOP: { D1 t = a; for (int i = 0; i < 4; ++i) { bool go = t.v > k; dec(KCMP, go, t.v == k, 0); D1 dummy; eps(dummy); if (!go) break; t = t - D1(0.5); } d = t; } break;
    case AVR: case AVW: case AVC: {
      if (!(fabs(a.v) < 4)) { lg->bad = true; return; }
      std::vector<D1> w{b, c * D1(0.5), D1(k), b + c}; int i = (int)fabs(a.v);
      if (I.op == AVR) d = w[i];
      else {
        if (I.op == AVW) switch (I.v & 7) { case 0: w[i] = b; break; case 1: w[i] = w[i] + b; break; case 2: w[i] = w[i] - D1(k); break; case 3: w[i] = w[i] * c; break; case 4: w[i] = D1(1); break; case 5: w[i] = w[i] * D1(0.5); break; case 6: w[i] = w[i] + D1(1); break; default: w[i] = w[i] - b; }
        else {
          const bool eq = I.v & 1; const bool t = eq ? b.v >= 0 : b.v > 0;
          dec(eq ? KCEQ : KCOND, t, b.v == 0, sg(b.v));
          if (I.v & 2) w[i] = t ? c : a; else if (t) w[i] = c;
          eps(w[i]);
        }
        d = w[0] + w[1] - w[2] + w[3] * D1(2);
      }
    } break;
    }
    lg->mx = std::max(lg->mx, fabs(d.v));
  }
}
void runAd(const Pr &p, std::vector<adouble> &r) {
  for (auto &I : p.code) {
    adouble &a = r[I.a], &b = r[I.b], &c = r[I.c], &d = r[I.d]; const double k = I.k; const bool rv = I.v & 32;
    switch (I.op) {
    case ADD: d = a + b; break; case SUB: d = a - b; break; case MUL: d = a * b; break; case MULC: d = a * k; break;
    case ADDC: d = a + k; break; case NEG: d = -a; break; case COPY: d = a; break; case SETC: d = k; break;
    case ADDEQ: d += a; break; case SUBEQ: d -= a; break;
    case ABS: if (rv) d = fabs(adouble(a)); else d = fabs(a); break;
    case MIN: if (rv) d = fmin(adouble(a), adouble(b)); else d = fmin(a, b); break;
    case MAX: if (rv) d = fmax(adouble(a), adouble(b)); else d = fmax(a, b); break;
    case MINC: if (rv) d = fmin(k, a); else d = fmin(a, k); break;
    case MAXC: if (rv) d = fmax(k, a); else d = fmax(a, k); break;
    case CEILF: if (rv) d = ceil(adouble(a)); else d = ceil(a); break;
    case FLOORF: if (rv) d = floor(adouble(a)); else d = floor(a); break;
    case COND4: condassign(d, a, b, c); break; case COND3: condassign(d, a, b); break;
    case CEQ4: condeqassign(d, a, b, c); break; case CEQ3: condeqassign(d, a, b); break;
    case CMP: {
      bool t = false;
#define R6(x, y) switch (I.v & 7) { case 0: t = (x) < (y); break; case 1: t = (x) <= (y); break; case 2: t = (x) > (y); break; case 3: t = (x) >= (y); break; case 4: t = (x) == (y); break; default: t = (x) != (y); }
      if (I.v & 8) { if (rv) { R6(k, adouble(a)) } else { R6(k, a) } }
      else if (I.v & 16) { if (rv) { R6(a + 0.0, b * 1.0) } else { R6(a, b) } }
      else { if (rv) { R6(adouble(a), k) } else { R6(a, k) } }
      if (t) d = c * 2.0; else d = c - 1.0;
    } break;
    case LOOP: { adouble t = a; for (int i = 0; i < 4; ++i) { if (!(t > k)) break; t = t - 0.5; } d = t; } break;
    case AVR: case AVW: case AVC: {
      adouble idx = a, vb = b, vc = c, va = a;
      advector w(4); w[0ul] = vb; w[1ul] = vc * 0.5; w[2ul] = k; w[3ul] = vb + vc;
      if (I.op == AVR) { if (rv) { adouble t(w[idx]); d = t; } else { const advector &cw = w; d = cw[idx]; } }
      else {
        if (I.op == AVW) switch (I.v & 7) { case 0: w[idx] = vb; break; case 1: w[idx] += vb; break; case 2: w[idx] -= k; break; case 3: w[idx] *= vc; break; case 4: w[idx] = 1.0; break; case 5: w[idx] *= 0.5; break; case 6: ++w[idx]; break; default: w[idx] -= vb; }
        else { auto sel = [&](adubref &&e) { if (I.v & 1) { if (I.v & 2) condeqassign(e, vb, vc, va); else condeqassign(e, vb, vc); } else { if (I.v & 2) condassign(e, vb, vc, va); else condassign(e, vb, vc); } }; sel(w[idx]); }
        d = w[0ul] + w[1ul] - w[2ul] + w[3ul] * 2.0;
      }
    } break;
    }
  }
}
double dy(Rng &g) { return g.chance(0.7) ? g.in(-4, 4) * 0.5 : g.in(-16, 16) * 0.125; }
Pr gen(Rng &g) {
  Pr p; p.n = g.in(1, 4); p.m = g.in(1, 3); p.nr = p.n + g.in(1, 4);
  int len = g.in(2, 16);
  for (int i = 0; i < len; ++i) {
    In I{}; I.op = g.chance(0.6) ? g.in(ABS, NOP_ - 1) : g.in(ADD, SUBEQ); if (I.op == MUL && g.chance(0.5)) I.op = ADD;
    I.d = g.in(0, p.nr - 1); I.a = g.in(0, p.nr - 1); I.b = g.in(0, p.nr - 1); I.c = g.in(0, p.nr - 1); I.v = g.in(0, 63); I.k = I.op == MULC ? (g.chance(0.5) ? 0.5 : -2) : dy(g);
    if ((I.op == MIN || I.op == MAX) && I.a == I.b) I.b = (I.a + 1) % p.nr;
    if (I.op == CMP && (I.v & 16) && !(I.v & 8) && I.a == I.b) I.v &= ~16;
    p.code.push_back(I);
  }
  for (int i = 0; i < p.m; ++i) p.dep.push_back(g.in(0, p.nr - 1));
  return p;
}
struct Ref { std::vector<D1> y; std::vector<Dec> v; bool ok; };
Ref ref(const Pr &p, const std::vector<double> &x) {
  Log L; lg = &L; NV = p.n; NE = 0; inexact = false;
  std::vector<D1> r; for (int i = 0; i < p.nr; ++i) { D1 t(i < p.n ? x[i] : 0.25 * i); if (i < p.n) { t.d.resize(p.n); t.d[i] = 1; } r.push_back(t); }
  runRef(p, r);
  Ref R; R.ok = !L.bad && !inexact && L.mx < 1e6; R.v = L.v; for (int d : p.dep) R.y.push_back(r[d]); return R;
}
} // namespace
static void oneCase(Ctx &c) {
  Rng &g = c.rng; Pr p; std::vector<std::vector<double>> X; std::vector<Ref> R;
  const int NP = 5;
  for (int t = 0;; ++t) {
    if (t > 200) { c.count("skipped_ungenerated"); return; }
    p = gen(g); X.clear(); R.clear(); bool ok = true;
    for (int q = 0; q < NP && ok; ++q) {
      std::vector<double> x(p.n); for (auto &v : x) v = dy(g);
      if (q && g.chance(0.5)) { x = X[0]; x[g.in(0, p.n - 1)] += g.chance(0.5) ? 0.5 : -0.5; }
      X.push_back(x); R.push_back(ref(p, x)); ok = R.back().ok;
    }
    if (ok) break;
  }
  const int n = p.n, m = p.m; c.nontrivial(p.hash());
  for (auto &I : p.code) c.count(std::string("op_") + nm[I.op]);
  if (c.idx < 40) c.sample(p.str());
  const short id = createNewTape(); setCurrentTape(id);
  currentTape().disableBranchSwitchWarnings();
  c.phase("record"); const int keep = g.in(0, 1);
  trace_on(id, keep); {
    std::vector<adouble> r; r.reserve(p.nr); for (int i = 0; i < p.nr; ++i) { r.emplace_back(); if (i < n) r.back() <<= X[0][i]; else r.back() = 0.25 * i; }
    runAd(p, r); double o; int i = 0; for (int d : p.dep) { r[d] >>= o; c.expect(o == R[0].y[i].v, "value:taping", cat(o, " want ", R[0].y[i].v, " ", p.str())); ++i; }
  } trace_off();
  bool bad = false;
  int q = 0; std::string how; std::vector<double> u(m), dir(n);
  int cmpAt = 0, lo = 3, hi = 3, ties = 0; // of the current point
  auto rep = [&](const std::string &key, const std::string &s) { if (!bad) { std::string xs; for (double v : X[0]) xs += cat(v, ","); xs += " at "; for (double v : X[q]) xs += cat(v, ","); c.violation(key + ":" + how, cat(how, " ", s, " taped at ", xs, " ", p.str())); } bad = true; };
  for (int step = 0; step < 10 && !bad; ++step) {
    q = step == 0 ? g.in(0, 1) : g.in(0, NP - 1);
    const Ref &T = R[0], &E = R[q]; const double *x = X[q].data();
    // what the decisions say
    bool changed = false; lo = hi = 3; ties = 0; size_t K = 0; bool okTies = true;
    for (; K < E.v.size(); ++K) {
      const Dec &t = T.v[K], &e = E.v[K]; int l = 3, h = 3;
      if (e.kind == KCMP) { if (t.out != e.out) { changed = true; break; } if (e.tie) l = h = 0; }
      else if (e.kind == KMIN || e.kind == KABS) {
        if (e.tie) { ++ties; l = 1; h = e.kind == KMIN ? 1 : 3; }
        else if (t.side != e.side) { l = 2; h = t.tie ? 3 : 2; }
      } else if (e.kind == KSTEP) { if (t.out != e.out) l = h = 2; }
      else { if (t.out != e.out) { l = h = 2; } if (e.tie) { l = 0; h = e.kind == KCOND ? 0 : h; } }
      lo = std::min(lo, l); hi = std::min(hi, h);
    }
    if (!changed && E.v.size() != T.v.size()) { how = "reference"; rep("harness", "decision counts"); break; }
    if (changed) lo = hi = -1;
    c.count(changed ? "points_changed" : hi < 3 || lo < 3 ? "points_tie_or_switched" : "points_same");
    auto fw = [&](int rc) { c.count("codes_checked"); c.count(cat("rc_", rc)); if (changed ? rc >= 0 : (rc < lo || rc > hi)) rep("rc", cat("rc ", rc, " want ", lo, "..", hi)); return rc >= 0 && !changed; };
    auto val = [&](const std::vector<double> &y) { for (int i = 0; i < m && !bad; ++i) { c.count("values_compared"); if (y[i] != E.y[i].v) rep("value", cat("y[", i, "] ", y[i], " want ", E.y[i].v)); } };
    auto dq = [&](const std::string &k, int i, int j, double got, double want) { c.count("derivatives_compared"); if (got != want) rep("derivative", cat(k, "[", i, "][", j, "] ", got, " want ", want)); };
    // reverse: a decision that cannot matter may stay silent
    auto rv = [&](int rc, const std::vector<double> &w) {
      c.count("reverse_codes_checked"); int need = 3;
      for (size_t k = 0; k < E.v.size(); ++k) {
        const Dec &t = T.v[k], &e = E.v[k]; double infl = 0; for (int i = 0; i < m; ++i) infl += w[i] * g_(E.y[i], n + (int)k);
        if (infl == 0 || e.kind == KCMP) continue;
        if (e.kind == KMIN && e.tie && ties == 1) need = std::min(need, 1);
        if (ties) continue;
        if ((e.kind == KMIN || e.kind == KABS) && !e.tie && !t.tie && t.side != e.side) need = std::min(need, 2);
        if ((e.kind == KCOND || e.kind == KCEQ || e.kind == KSTEP) && t.out != e.out) need = std::min(need, 2);
      }
      if (need < 3) c.count("reverse_codes_required");
      if (rc < lo || rc > need) rep("rc_reverse", cat("rc ", rc, " want ", lo, "..", need));
    };
    for (auto &v : u) v = g.in(-2, 2); for (auto &v : dir) v = g.in(-2, 2);
    auto tang = [&](int i, const double *d) { double s = 0; for (int j = 0; j < n; ++j) s += g_(E.y[i], j) * d[j]; return s; };
    auto adj = [&](int j, const double *w) { double s = 0; for (int i = 0; i < m; ++i) s += w[i] * g_(E.y[i], j); return s; };
    std::vector<double> y(m, 99), z(n, 99), yd(m, 99);
    switch (g.in(0, 13)) {
    case 0: { how = "zos_forward"; int kp = g.in(0, 1); c.phase(how); if (fw(zos_forward(id, m, n, kp, x, y.data()))) val(y);
      if (!changed && kp && !bad) { how = "fos_reverse"; c.phase(how); rv(fos_reverse(id, m, n, u.data(), z.data()), u); if (!ties) for (int j = 0; j < n; ++j) dq("z", 0, j, z[j], adj(j, u.data())); } } break;
    case 1: { how = "fos_forward"; int kp = g.in(0, 2); c.phase(how); if (fw(fos_forward(id, m, n, kp, x, dir.data(), y.data(), yd.data()))) { val(y); if (!ties) for (int i = 0; i < m; ++i) dq("yd", i, 0, yd[i], tang(i, dir.data())); }
      if (!changed && kp == 2 && !bad) { how = "hos_reverse"; c.phase(how); Mat Z(n, 2, 99); rv(hos_reverse(id, m, n, 1, u.data(), Z.ptr()), u); if (!ties) for (int j = 0; j < n; ++j) dq("Z", j, 0, Z[j][0], adj(j, u.data())); } } break;
    case 2: { how = "fov_forward"; c.phase(how); Mat D(n, 2), Y(m, 2, 99); for (int j = 0; j < n; ++j) { D[j][0] = dir[j]; D[j][1] = 1; } if (fw(fov_forward(id, m, n, 2, x, D.ptr(), y.data(), Y.ptr()))) { val(y); if (!ties) for (int i = 0; i < m; ++i) { dq("Y", i, 0, Y[i][0], tang(i, dir.data())); std::vector<double> o(n, 1); dq("Y", i, 1, Y[i][1], tang(i, o.data())); } } } break;
    case 3: { how = "hos_forward"; c.phase(how); Mat D(n, 2), Y(m, 2, 99); for (int j = 0; j < n; ++j) { D[j][0] = dir[j]; D[j][1] = g.in(-1, 1); } int kp = g.in(0, 3); if (fw(hos_forward(id, m, n, 2, kp, x, D.ptr(), y.data(), Y.ptr()))) { val(y); if (!ties) for (int i = 0; i < m; ++i) dq("Y", i, 0, Y[i][0], tang(i, dir.data())); } } break;
    case 4: { how = "hov_forward"; c.phase(how); Ten D(n, 2, 2), Y(m, 2, 2, 99); for (int j = 0; j < n; ++j) for (int l = 0; l < 2; ++l) { D[j][l][0] = dir[j] * (1 - l); D[j][l][1] = g.in(-1, 1); } if (fw(hov_forward(id, m, n, 2, 2, x, D.ptr(), y.data(), Y.ptr()))) { val(y); if (!ties) for (int i = 0; i < m; ++i) dq("Y", i, 0, Y[i][0][0], tang(i, dir.data())); } } break;
    case 5: { how = "zos_forward+fov_reverse"; c.phase(how); Mat U(2, m), Z(2, n, 99); if (fw(zos_forward(id, m, n, 1, x, y.data()))) { for (int i = 0; i < m; ++i) { U[0][i] = u[i]; U[1][i] = 0; } rv(fov_reverse(id, m, n, 2, U.ptr(), Z.ptr()), u); if (!ties) for (int j = 0; j < n; ++j) { dq("Z", 0, j, Z[0][j], adj(j, u.data())); dq("Z", 1, j, Z[1][j], 0); } } } break;
    case 6: { how = "hos_forward+hov_reverse"; c.phase(how); Mat D(n, 1), Y(m, 1, 99), U(1, m); Ten Z(1, n, 2, 99); for (int j = 0; j < n; ++j) D[j][0] = dir[j]; if (fw(hos_forward(id, m, n, 1, 2, x, D.ptr(), y.data(), Y.ptr()))) { for (int i = 0; i < m; ++i) U[0][i] = u[i]; rv(hov_reverse(id, m, n, 1, 1, U.ptr(), Z.ptr(), nullptr), u); if (!ties) for (int j = 0; j < n; ++j) dq("Z", 0, j, Z[0][j][0], adj(j, u.data())); } } break;
    case 12: { how = "int_forward_tight"; c.phase(how); std::vector<bitword_t> in(n, 1), out(m, 0); std::vector<bitword_t *> pi(n), po(m); for (int j = 0; j < n; ++j) pi[j] = &in[j]; for (int i = 0; i < m; ++i) po[i] = &out[i]; if (fw(int_forward_tight(id, m, n, 1, x, pi.data(), y.data(), po.data()))) val(y); } break;
    case 13: { how = "indopro_forward_tight"; c.phase(how); std::vector<unsigned int *> crs(m, nullptr); fw(indopro_forward_tight(id, m, n, x, crs.data())); for (auto r : crs) delete[] r; } break;
    case 7: { how = "function"; c.phase(how); if (fw(function(id, m, n, x, y.data()))) val(y); } break;
    case 8: { if (m != 1) break; how = "gradient"; c.phase(how); int rc = gradient(id, n, x, z.data()); c.count("codes_checked"); if ((rc < 0) != changed || (!changed && (rc < lo || rc > hi))) rep("rc", cat("rc ", rc, " want ", lo, "..", hi)); double o = 1; if (!changed && !ties) for (int j = 0; j < n; ++j) dq("g", 0, j, z[j], adj(j, &o)); } break;
    case 9: { how = "jacobian"; c.phase(how); Mat J(m, n, 99); int rc = jacobian(id, m, n, x, J.ptr()); c.count("codes_checked"); if ((rc < 0) != changed || (!changed && rc < lo)) rep("rc", cat("rc ", rc, " want ", lo, "..", hi)); if (!changed && !ties) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) dq("J", i, j, J[i][j], g_(E.y[i], j)); } break;
    case 10: { how = "jac_vec"; c.phase(how); if (fw(jac_vec(id, m, n, x, dir.data(), y.data())) && !ties) for (int i = 0; i < m; ++i) dq("Jv", i, 0, y[i], tang(i, dir.data())); } break;
    case 11: { how = "vec_jac"; c.phase(how); int rc = vec_jac(id, m, n, 0, x, u.data(), z.data()); c.count("codes_checked"); if ((rc < 0) != changed || (!changed && rc < lo)) rep("rc", cat("rc ", rc, " want ", lo, "..", hi)); if (!changed && !ties) for (int j = 0; j < n; ++j) dq("uJ", 0, j, z[j], adj(j, u.data())); } break;
    }
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); });
}
