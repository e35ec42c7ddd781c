// C17: external functions: every sweep calls every taped external function
// exactly once, in tape order (reverse order in reverse sweeps), with the
// arguments of that call, and the sweep delivers what the inlined function
// delivers.
#include "adtape.h"
#include <adolc/edfclasses.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <deque>
#include <memory>
using namespace vh;
using namespace pg;
using namespace at;
using ra::TPL;
using TPD = ra::TP<double>;

// the functions: smooth everywhere, bounded growth
struct Body { int kind = 0; };
static double coef(int kind, const std::vector<size_t> &ia, int i, int j) {
  const size_t s = ia.empty() ? 0 : ia[(size_t)(i + j) % ia.size()];
  return 0.25 + 0.125 * (double)((size_t)(kind * 5 + i * 7 + j * 3) % 6 + s % 4);
}
template <class T> std::vector<T> body(int kind, const std::vector<size_t> &ia, const std::vector<T> &x, int m) {
  using std::cos; using std::exp; using std::sin; using std::tanh; using std::sqrt;
  const int n = (int)x.size();
  std::vector<T> y;
  for (int j = 0; j < m; ++j) {
    T t = x[(size_t)(j % n)] * coef(kind, ia, j, j);
    switch (kind) {
    case 0: for (int i = 0; i < n; ++i) { T q = x[(size_t)i] * coef(kind, ia, i, j); t += sin(q) * cos(x[(size_t)((i + 1) % n)]); } break;
    case 1: for (int i = 0; i < n; ++i) t += x[(size_t)i] * coef(kind, ia, i, j); { T s = tanh(t); t = s * exp(T(x[(size_t)(j % n)] * x[(size_t)(j % n)] * (-0.5))); } break;
    case 2: { T s = x[(size_t)(j % n)] * x[(size_t)((j + 1) % n)]; T q = sin(t) + 2.0; t = s / q; } break;
    default: for (int i = 0; i < n; ++i) t += x[(size_t)i] * coef(kind, ia, i, j); break;
    }
    y.push_back(t);
  }
  return y;
}
// value and Jacobian of a body
static void jac(int kind, const std::vector<size_t> &ia, const std::vector<double> &x, int m, std::vector<double> &y, std::vector<std::vector<double>> &J) {
  const int n = (int)x.size();
  auto B = ra::Basis::total(n, 1);
  const ra::Basis *save = TPD::B; TPD::B = B.get();
  {
    std::vector<TPD> xi; for (int i = 0; i < n; ++i) xi.push_back(TPD::var(i, x[(size_t)i]));
    auto r = body<TPD>(kind, ia, xi, m);
    y.clear(); J.clear();
    for (auto &q : r) { y.push_back(q.c[0]); std::vector<double> row; for (int i = 0; i < n; ++i) { std::vector<int> e((size_t)n, 0); e[(size_t)i] = 1; row.push_back(q.c[(size_t)B->find(e)]); } J.push_back(row); }
  }
  TPD::B = save;
}
enum Iface { PLAIN, IARR, OBJ, OBJ_IARR, V2, OBJ_V2, NIF };
static const char *ifn[] = {"reg_ext_fct", "reg_ext_fct/iArr", "EDFobject", "EDFobject_iArr", "reg_ext_fct/v2", "EDFobject_v2"};
struct Fn { // a registered function
  int iface = 0, kind = 0, nested = 0; // nested: 0 analytic, 1 inner tape recorded before, 2 recorded by the first call
  bool xch = false;                    // the function doubles its arguments
  bool flagX = true, flagY = true, flagN = true, otherExt = false;
  int fn = 0, fm = 0; std::vector<size_t> fia; std::vector<size_t> fin, fout; // fixed shape if nested
  // run time
  short inner = -1; bool innerReady = false;
};
struct Spec { int f = 0; std::vector<int> in, out; std::vector<size_t> ia, insz, outsz; int place = 0; /* 0 new arrays, 1 persistent */ };
struct Call { int spec; std::vector<double> x, y; };
struct Log { char mode; int spec; };
static thread_local struct World *W = nullptr;
struct World {
  Ctx *c = nullptr;
  std::deque<Fn> F; std::deque<Spec> S;
  bool xchAllowed = true;
  std::string bad, badKey;
  std::vector<Call> calls;        // of the recording, in order
  // sweep monitor
  std::vector<std::vector<double>> expX; // expected arguments of the calls of this sweep (before the call)
  std::vector<std::vector<double>> expY;
  std::vector<double> scale;
  bool active = false, rev = false; size_t next = 0; char want = 0;
  long seen = 0;
  void fail(const std::string &k, const std::string &m) { if (bad.empty()) { badKey = k; bad = m; } }
};
// n/m/x/... of one callback
struct CB { Fn *f; char mode; short tape; int n, m; std::vector<size_t> ia, insz, outsz; const double *x, *y; };
static thread_local short outerId, curOuter;
static void monitor(const CB &b) {
  World &w = *W;
  ++w.seen;
  const std::string who = cat(ifn[b.f->iface], " callback ", b.mode);
  if (!w.active) { w.fail(cat(ifn[b.f->iface], "_outside"), who + " called although no sweep needs it"); return; }
  if (b.mode != w.want) w.fail(cat(ifn[b.f->iface], "_mode"), cat(who, " called in a sweep that needs ", w.want));
  if (w.next >= w.calls.size()) { w.fail(cat(ifn[b.f->iface], "_count"), who + " called more often than taped"); return; }
  const size_t k = w.rev ? w.calls.size() - 1 - w.next : w.next;
  ++w.next;
  const Spec &s = w.S[(size_t)w.calls[k].spec];
  if (&w.F[(size_t)s.f] != b.f) { w.fail(cat(ifn[b.f->iface], "_order"), who + " called out of order"); return; }
  if (b.n != (int)s.in.size() || b.m != (int)s.out.size()) { w.fail(cat(ifn[b.f->iface], "_shape"), cat(who, " n=", b.n, " m=", b.m, " expected ", s.in.size(), " ", s.out.size())); return; }
  if (b.ia != s.ia) w.fail(cat(ifn[b.f->iface], "_iarr"), who + " integers differ from the taped ones");
  if (b.f->iface >= V2 && (b.insz != s.insz || b.outsz != s.outsz)) w.fail(cat(ifn[b.f->iface], "_sizes"), who + " sizes differ");
  if (b.tape != outerId) w.fail(cat(ifn[b.f->iface], "_tape"), cat(who, " got tape ", b.tape, " instead of ", outerId));
  for (int i = 0; i < b.n; ++i) {
    const double e = w.expX[k][(size_t)i] * (w.rev && b.f->xch ? 2 : 1);
    if (!close(b.x[i], e, 1e-9 * (1 + w.scale[k]))) { w.fail(cat(ifn[b.f->iface], "_x"), cat(who, " of call ", k, " x[", i, "]=", b.x[i], " expected ", e)); break; }
  }
  if (w.rev)
    for (int j = 0; j < b.m; ++j)
      if (!close(b.y[j], w.expY[k][(size_t)j], 1e-9 * (1 + w.scale[k]))) { w.fail(cat(ifn[b.f->iface], "_y"), cat(who, " of call ", k, " y[", j, "]=", b.y[j], " expected ", w.expY[k][(size_t)j])); break; }
}
static void recordInner(Fn &f, const std::vector<double> &x, int m, const std::vector<size_t> &ia) {
  short keepCur = currentTapePtr() ? currentTape().tapeId() : (short)-1;
  f.inner = f.inner < 0 ? createNewTape() : f.inner;
  trace_on(f.inner);
  {
    std::vector<adouble> a; for (double v : x) { a.emplace_back(); a.back() <<= v; }
    auto y = body<adouble>(f.kind, ia, a, m);
    double d; for (auto &q : y) q >>= d;
  }
  trace_off();
  if (keepCur >= 0) setCurrentTape(keepCur);
  f.innerReady = true;
}
// ---- generic semantics on flat arrays --------------------------------------
static int doFunction(Fn &f, short tape, const std::vector<size_t> &ia, int n, int m, std::vector<double> &x, std::vector<double> &y) {
  World &w = *W;
  (void)tape;
  if (w.active) w.fail(cat(ifn[f.iface], "_function"), "the taping function is called in a sweep");
  ++w.seen;
  if (f.nested && !f.innerReady) recordInner(f, x, m, ia);
  y = body<double>(f.kind, ia, x, m);
  if (f.xch) for (auto &v : x) v *= 2;
  (void)n;
  return 0;
}
static int doZos(Fn &f, const std::vector<size_t> &ia, int n, int m, std::vector<double> &x, std::vector<double> &y) {
  if (f.nested) { y.assign((size_t)m, 0); return ::zos_forward(f.inner, m, n, 0, x.data(), y.data()); }
  y = body<double>(f.kind, ia, x, m);
  if (f.xch) for (auto &v : x) v *= 2;
  return 3;
}
static int doFov(Fn &f, const std::vector<size_t> &ia, int n, int m, int p, std::vector<double> &x, Mat &X, std::vector<double> &y, Mat &Y) {
  if (f.nested) { y.assign((size_t)m, 0); if (p == 1) { std::vector<double> X1((size_t)n), Y1((size_t)m); for (int i = 0; i < n; ++i) X1[(size_t)i] = X[(size_t)i][0]; int rc = ::fos_forward(f.inner, m, n, 0, x.data(), X1.data(), y.data(), Y1.data()); for (int j = 0; j < m; ++j) Y[(size_t)j][0] = Y1[(size_t)j]; return rc; } return ::fov_forward(f.inner, m, n, p, x.data(), X.ptr(), y.data(), Y.ptr()); }
  std::vector<std::vector<double>> J; jac(f.kind, ia, x, m, y, J);
  for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) { double s = 0; for (int i = 0; i < n; ++i) s += J[(size_t)j][(size_t)i] * X[(size_t)i][l]; Y[(size_t)j][l] = s; }
  if (f.xch) { for (auto &v : x) v *= 2; for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) X[(size_t)i][l] *= 2; }
  return 3;
}
// U: q x m, Z: q x n (accumulated)
static int doRev(Fn &f, const std::vector<size_t> &ia, int n, int m, int q, const Mat &U, Mat &Z, const double *xv) {
  std::vector<double> x(xv, xv + n);
  if (f.xch) for (auto &v : x) v /= 2;
  if (f.nested) {
    std::vector<double> y((size_t)m);
    ::zos_forward(f.inner, m, n, 1, x.data(), y.data());
    findTape(f.inner).nestedReverseEval(true);
    Mat U2 = U; for (int l = 0; l < q; ++l) U2.p[(size_t)l] = U2.d.data() + l * m;
    int rc = q == 1 ? ::fos_reverse(f.inner, m, n, U2[0], Z[0]) : ::fov_reverse(f.inner, m, n, q, U2.ptr(), Z.ptr());
    findTape(f.inner).nestedReverseEval(false);
    return rc;
  }
  std::vector<double> y; std::vector<std::vector<double>> J; jac(f.kind, ia, x, m, y, J);
  for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < m; ++j) s += U[(size_t)l][j] * J[(size_t)j][(size_t)i]; Z[(size_t)l][i] = (f.xch ? 2 : 1) * Z[(size_t)l][i] + s; }
  return 3;
}
// ---- version 1 adapters -----------------------------------------------------
struct A1 {
  static int function(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, double *x, double *y) {
    std::vector<double> xv(x, x + n), yv; int rc = doFunction(f, t, ia, n, m, xv, yv);
    std::copy(xv.begin(), xv.end(), x); std::copy(yv.begin(), yv.end(), y); return rc;
  }
  static int zos(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, double *x, double *y) {
    monitor({&f, 'z', t, n, m, ia, {}, {}, x, y});
    std::vector<double> xv(x, x + n), yv; int rc = doZos(f, ia, n, m, xv, yv);
    std::copy(xv.begin(), xv.end(), x); std::copy(yv.begin(), yv.end(), y); return rc;
  }
  static int fos(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, double *x, double *X, double *y, double *Y) {
    monitor({&f, 'f', t, n, m, ia, {}, {}, x, y});
    std::vector<double> xv(x, x + n), yv; Mat XM((size_t)n, 1), YM((size_t)m, 1); for (int i = 0; i < n; ++i) XM[(size_t)i][0] = X[i];
    int rc = doFov(f, ia, n, m, 1, xv, XM, yv, YM);
    for (int i = 0; i < n; ++i) { x[i] = xv[(size_t)i]; X[i] = XM[(size_t)i][0]; }
    for (int j = 0; j < m; ++j) { y[j] = yv[(size_t)j]; Y[j] = YM[(size_t)j][0]; }
    return rc;
  }
  static int fov(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, int p, double *x, double **X, double *y, double **Y) {
    monitor({&f, 'v', t, n, m, ia, {}, {}, x, y});
    std::vector<double> xv(x, x + n), yv; Mat XM((size_t)n, (size_t)p), YM((size_t)m, (size_t)p);
    for (int i = 0; i < n; ++i) std::copy(X[i], X[i] + p, XM[(size_t)i]);
    int rc = doFov(f, ia, n, m, p, xv, XM, yv, YM);
    for (int i = 0; i < n; ++i) { x[i] = xv[(size_t)i]; std::copy(XM[(size_t)i], XM[(size_t)i] + p, X[i]); }
    for (int j = 0; j < m; ++j) { y[j] = yv[(size_t)j]; std::copy(YM[(size_t)j], YM[(size_t)j] + p, Y[j]); }
    return rc;
  }
  static int fosr(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, double *u, double *z, double *x, double *y) {
    monitor({&f, 'r', t, n, m, ia, {}, {}, x, y});
    Mat U(1, (size_t)m), Z(1, (size_t)n); std::copy(u, u + m, U[0]); std::copy(z, z + n, Z[0]);
    int rc = doRev(f, ia, n, m, 1, U, Z, x);
    std::copy(Z[0], Z[0] + n, z); return rc;
  }
  static int fovr(Fn &f, short t, const std::vector<size_t> &ia, int m, int n, int q, double **u, double **z, double *x, double *y) {
    monitor({&f, 'w', t, n, m, ia, {}, {}, x, y});
    Mat U((size_t)q, (size_t)m), Z((size_t)q, (size_t)n);
    for (int l = 0; l < q; ++l) { std::copy(u[l], u[l] + m, U[(size_t)l]); std::copy(z[l], z[l] + n, Z[(size_t)l]); }
    int rc = doRev(f, ia, n, m, q, U, Z, x);
    for (int l = 0; l < q; ++l) std::copy(Z[(size_t)l], Z[(size_t)l] + n, z[l]);
    return rc;
  }
};
static std::vector<size_t> ivec(size_t l, const size_t *p) { return std::vector<size_t>(p, p + l); }
struct O1 : EDFobject {
  Fn &f;
  O1(Fn &f_, short o, short e) : EDFobject(o, e), f(f_) { edf->dp_x_changes = f.flagX; edf->dp_y_priorRequired = f.flagY; edf->nestedAdolc = f.flagN; }
  int function(short t, int m, int n, double *x, double *y) override { return A1::function(f, t, {}, m, n, x, y); }
  int zos_forward(short t, int m, int n, int, double *x, double *y) override { return A1::zos(f, t, {}, m, n, x, y); }
  int fos_forward(short t, int m, int n, int, double *x, double *X, double *y, double *Y) override { return A1::fos(f, t, {}, m, n, x, X, y, Y); }
  int fov_forward(short t, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return A1::fov(f, t, {}, m, n, p, x, X, y, Y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return -1; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return -1; }
  int fos_reverse(short t, int m, int n, double *u, double *z, double *x, double *y) override { return A1::fosr(f, t, {}, m, n, u, z, x, y); }
  int fov_reverse(short t, int m, int n, int q, double **u, double **z, double *x, double *y) override { return A1::fovr(f, t, {}, m, n, q, u, z, x, y); }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return -1; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return -1; }
};
struct O1i : EDFobject_iArr {
  Fn &f;
  explicit O1i(Fn &f_) : f(f_) { edf->dp_x_changes = f.flagX; edf->dp_y_priorRequired = f.flagY; edf->nestedAdolc = f.flagN; }
  int function(short t, size_t l, size_t *a, int m, int n, double *x, double *y) override { return A1::function(f, t, ivec(l, a), m, n, x, y); }
  int zos_forward(short t, size_t l, size_t *a, int m, int n, int, double *x, double *y) override { return A1::zos(f, t, ivec(l, a), m, n, x, y); }
  int fos_forward(short t, size_t l, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) override { return A1::fos(f, t, ivec(l, a), m, n, x, X, y, Y); }
  int fov_forward(short t, size_t l, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return A1::fov(f, t, ivec(l, a), m, n, p, x, X, y, Y); }
  int hos_forward(short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **) override { return -1; }
  int hov_forward(short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***) override { return -1; }
  int fos_reverse(short t, size_t l, size_t *a, int m, int n, double *u, double *z, double *x, double *y) override { return A1::fosr(f, t, ivec(l, a), m, n, u, z, x, y); }
  int fov_reverse(short t, size_t l, size_t *a, int m, int n, int q, double **u, double **z, double *x, double *y) override { return A1::fovr(f, t, ivec(l, a), m, n, q, u, z, x, y); }
  int hos_reverse(short, size_t, size_t *, int, int, int, double *, double **, double **, double **) override { return -1; }
  int hov_reverse(short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **) override { return -1; }
};
// ---- version 2 adapters -----------------------------------------------------
struct A2 {
  static std::vector<double> flat(const std::vector<size_t> &sz, double **x) { std::vector<double> r; for (size_t i = 0; i < sz.size(); ++i) r.insert(r.end(), x[i], x[i] + sz[i]); return r; }
  static void unflat(const std::vector<size_t> &sz, const std::vector<double> &v, double **x) { size_t k = 0; for (size_t i = 0; i < sz.size(); ++i) for (size_t j = 0; j < sz[i]; ++j) x[i][j] = v[k++]; }
  static int tot(const std::vector<size_t> &s) { size_t t = 0; for (size_t v : s) t += v; return (int)t; }
  static int function(Fn &f, short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv;
    int rc = doFunction(f, t, ivec(l, a), tot(I), tot(O), xv, yv); unflat(I, xv, x); unflat(O, yv, y); return rc;
  }
  static int zos(Fn &f, short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv = flat(O, y);
    monitor({&f, 'z', t, tot(I), tot(O), ivec(l, a), I, O, xv.data(), yv.data()});
    int rc = doZos(f, ivec(l, a), tot(I), tot(O), xv, yv); unflat(I, xv, x); unflat(O, yv, y); return rc;
  }
  static int fos(Fn &f, short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv = flat(O, y), X = flat(I, xp), Y((size_t)tot(O));
    monitor({&f, 'f', t, tot(I), tot(O), ivec(l, a), I, O, xv.data(), yv.data()});
    Mat XM(X.size(), 1), YM(Y.size(), 1); for (size_t i = 0; i < X.size(); ++i) XM[i][0] = X[i];
    int rc = doFov(f, ivec(l, a), tot(I), tot(O), 1, xv, XM, yv, YM);
    for (size_t i = 0; i < X.size(); ++i) X[i] = XM[i][0];
    for (size_t i = 0; i < Y.size(); ++i) Y[i] = YM[i][0];
    unflat(I, xv, x); unflat(O, yv, y); unflat(I, X, xp); unflat(O, Y, yp); return rc;
  }
  static int fov(Fn &f, short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t p, double ***xp, size_t *os, double **y, double ***yp) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv = flat(O, y);
    monitor({&f, 'v', t, tot(I), tot(O), ivec(l, a), I, O, xv.data(), yv.data()});
    Mat XM((size_t)tot(I), p), YM((size_t)tot(O), p);
    size_t k = 0; for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < I[i]; ++j, ++k) std::copy(xp[i][j], xp[i][j] + p, XM[k]);
    int rc = doFov(f, ivec(l, a), tot(I), tot(O), (int)p, xv, XM, yv, YM);
    k = 0; for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < I[i]; ++j, ++k) std::copy(XM[k], XM[k] + p, xp[i][j]);
    k = 0; for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < O[i]; ++j, ++k) std::copy(YM[k], YM[k] + p, yp[i][j]);
    unflat(I, xv, x); unflat(O, yv, y); return rc;
  }
  static int fosr(Fn &f, short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, double **up, size_t *is, double **zp, double **x, double **y) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv = flat(O, y), u = flat(O, up), z = flat(I, zp);
    monitor({&f, 'r', t, tot(I), tot(O), ivec(l, a), I, O, xv.data(), yv.data()});
    Mat U(1, u.size()), Z(1, z.size()); std::copy(u.begin(), u.end(), U[0]); std::copy(z.begin(), z.end(), Z[0]);
    int rc = doRev(f, ivec(l, a), tot(I), tot(O), 1, U, Z, xv.data()); std::copy(Z[0], Z[0] + z.size(), z.begin()); unflat(I, z, zp); return rc;
  }
  static int fovr(Fn &f, short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, size_t q, double ***up, size_t *is, double ***zp, double **x, double **y) {
    auto I = ivec(ni, is), O = ivec(no, os); std::vector<double> xv = flat(I, x), yv = flat(O, y);
    monitor({&f, 'w', t, tot(I), tot(O), ivec(l, a), I, O, xv.data(), yv.data()});
    Mat U(q, (size_t)tot(O)), Z(q, (size_t)tot(I));
    size_t k = 0; for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < O[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) U[r][k] = up[i][j][r];
    k = 0; for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < I[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) Z[r][k] = zp[i][j][r];
    int rc = doRev(f, ivec(l, a), tot(I), tot(O), (int)q, U, Z, xv.data());
    k = 0; for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < I[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) zp[i][j][r] = Z[r][k];
    return rc;
  }
};
struct O2 : EDFobject_v2 {
  Fn &f;
  O2(Fn &f_, short o, short e) : EDFobject_v2(o, e), f(f_) { edf->dp_x_changes = f.flagX; edf->dp_y_priorRequired = f.flagY; edf->nestedAdolc = f.flagN; }
  int function(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *) override { return A2::function(f, t, l, a, ni, no, is, x, os, y); }
  int zos_forward(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *) override { return A2::zos(f, t, l, a, ni, no, is, x, os, y); }
  int fos_forward(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp, void *) override { return A2::fos(f, t, l, a, ni, no, is, x, xp, os, y, yp); }
  int fov_forward(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t p, double ***xp, size_t *os, double **y, double ***yp, void *) override { return A2::fov(f, t, l, a, ni, no, is, x, p, xp, os, y, yp); }
  int fos_reverse(short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, double **up, size_t *is, double **zp, double **x, double **y, void *) override { return A2::fosr(f, t, l, a, no, ni, os, up, is, zp, x, y); }
  int fov_reverse(short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, size_t q, double ***up, size_t *is, double ***zp, double **x, double **y, void *) override { return A2::fovr(f, t, l, a, no, ni, os, q, up, is, zp, x, y); }
};
// plain C functions of version 2 find their Fn in the context
struct C2 {
  static Fn &F(void *c) { return *static_cast<Fn *>(c); }
  static int function(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *c) { return A2::function(F(c), t, l, a, ni, no, is, x, os, y); }
  static int zos(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *c) { return A2::zos(F(c), t, l, a, ni, no, is, x, os, y); }
  static int fos(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp, void *c) { return A2::fos(F(c), t, l, a, ni, no, is, x, xp, os, y, yp); }
  static int fov(short t, size_t l, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t p, double ***xp, size_t *os, double **y, double ***yp, void *c) { return A2::fov(F(c), t, l, a, ni, no, is, x, p, xp, os, y, yp); }
  static int fosr(short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, double **up, size_t *is, double **zp, double **x, double **y, void *c) { return A2::fosr(F(c), t, l, a, no, ni, os, up, is, zp, x, y); }
  static int fovr(short t, size_t l, size_t *a, size_t no, size_t ni, size_t *os, size_t q, double ***up, size_t *is, double ***zp, double **x, double **y, void *c) { return A2::fovr(F(c), t, l, a, no, ni, os, q, up, is, zp, x, y); }
};
// ---- registration and the call while taping ---------------------------------
struct Reg { ext_diff_fct *e1 = nullptr; ext_diff_fct_v2 *e2 = nullptr; std::unique_ptr<O1> o1; std::unique_ptr<O1i> o1i; std::unique_ptr<O2> o2; };
static thread_local std::vector<Reg> regs_;
static thread_local std::vector<std::unique_ptr<std::vector<adouble>>> arrays;
static void registerAll(World &w, short T, short other) {
  regs_.clear();
  for (auto &f : w.F) {
    Reg r; const short ext = f.otherExt ? other : T; Fn *p = &f;
    if (f.iface == PLAIN) {
      r.e1 = reg_ext_fct(T, ext, [p](short t, int m, int n, double *x, double *y) { return A1::function(*p, t, {}, m, n, x, y); });
      r.e1->zos_forward = [p](short t, int m, int n, int, double *x, double *y) { return A1::zos(*p, t, {}, m, n, x, y); };
      r.e1->fos_forward = [p](short t, int m, int n, int, double *x, double *X, double *y, double *Y) { return A1::fos(*p, t, {}, m, n, x, X, y, Y); };
      r.e1->fov_forward = [p](short t, int m, int n, int d, double *x, double **X, double *y, double **Y) { return A1::fov(*p, t, {}, m, n, d, x, X, y, Y); };
      r.e1->fos_reverse = [p](short t, int m, int n, double *u, double *z, double *x, double *y) { return A1::fosr(*p, t, {}, m, n, u, z, x, y); };
      r.e1->fov_reverse = [p](short t, int m, int n, int q, double **u, double **z, double *x, double *y) { return A1::fovr(*p, t, {}, m, n, q, u, z, x, y); };
    } else if (f.iface == IARR) {
      r.e1 = reg_ext_fct(T, ext, ADOLC_ext_fct_iArr([p](short t, size_t l, size_t *a, int m, int n, double *x, double *y) { return A1::function(*p, t, ivec(l, a), m, n, x, y); }));
      r.e1->zos_forward_iArr = [p](short t, size_t l, size_t *a, int m, int n, int, double *x, double *y) { return A1::zos(*p, t, ivec(l, a), m, n, x, y); };
      r.e1->fos_forward_iArr = [p](short t, size_t l, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) { return A1::fos(*p, t, ivec(l, a), m, n, x, X, y, Y); };
      r.e1->fov_forward_iArr = [p](short t, size_t l, size_t *a, int m, int n, int d, double *x, double **X, double *y, double **Y) { return A1::fov(*p, t, ivec(l, a), m, n, d, x, X, y, Y); };
      r.e1->fos_reverse_iArr = [p](short t, size_t l, size_t *a, int m, int n, double *u, double *z, double *x, double *y) { return A1::fosr(*p, t, ivec(l, a), m, n, u, z, x, y); };
      r.e1->fov_reverse_iArr = [p](short t, size_t l, size_t *a, int m, int n, int q, double **u, double **z, double *x, double *y) { return A1::fovr(*p, t, ivec(l, a), m, n, q, u, z, x, y); };
    } else if (f.iface == OBJ) r.o1 = std::make_unique<O1>(f, T, ext);
    else if (f.iface == OBJ_IARR) r.o1i = std::make_unique<O1i>(f);
    else if (f.iface == V2) {
      r.e2 = reg_ext_fct(T, ext, C2::function); r.e2->zos_forward = C2::zos; r.e2->fos_forward = C2::fos; r.e2->fov_forward = C2::fov; r.e2->fos_reverse = C2::fosr; r.e2->fov_reverse = C2::fovr; r.e2->context = p;
    } else r.o2 = std::make_unique<O2>(f, T, ext);
    if (r.e1) { r.e1->dp_x_changes = f.flagX; r.e1->dp_y_priorRequired = f.flagY; r.e1->nestedAdolc = f.flagN; }
    if (r.e2) { r.e2->dp_x_changes = f.flagX; r.e2->dp_y_priorRequired = f.flagY; r.e2->nestedAdolc = f.flagN; }
    regs_.push_back(std::move(r));
  }
}
static void adCall(const Spec &s, Fn &f, Reg &rg, std::vector<adouble> &r) {
  World &w = *W;
  auto fresh_ = [&](size_t k) { currentTape().ensureContiguousLocations(k); auto v = std::make_unique<std::vector<adouble>>(); v->reserve(k); for (size_t i = 0; i < k; ++i) v->emplace_back(); return v; };
  std::vector<std::unique_ptr<std::vector<adouble>>> own; std::vector<adouble *> X, Y; std::vector<size_t> is = s.insz, os = s.outsz, ia = s.ia;
  if (f.iface < V2) { is = {s.in.size()}; os = {s.out.size()}; }
  auto grab = [&](size_t k, size_t slot) -> adouble * {
    if (s.place == 1) { while (arrays.size() <= slot) arrays.push_back(fresh_(8)); if (k <= 8) return arrays[slot]->data(); }
    own.push_back(fresh_(k)); return own.back()->data();
  };
  for (size_t i = 0; i < is.size(); ++i) X.push_back(grab(is[i], i));
  for (size_t i = 0; i < os.size(); ++i) Y.push_back(grab(os[i], 10 + i));
  std::vector<adouble *> fx, fy; for (size_t i = 0; i < is.size(); ++i) for (size_t j = 0; j < is[i]; ++j) fx.push_back(X[i] + j);
  for (size_t i = 0; i < os.size(); ++i) for (size_t j = 0; j < os[i]; ++j) fy.push_back(Y[i] + j);
  Call cl; cl.spec = (int)(&s - &w.S[0]);
  for (size_t k = 0; k < w.S.size(); ++k) if (&w.S[k] == &s) cl.spec = (int)k;
  for (size_t i = 0; i < fx.size(); ++i) { *fx[i] = r[(size_t)s.in[i]]; cl.x.push_back(fx[i]->value()); }
  const long seen = w.seen;
  const int n = (int)fx.size(), m = (int)fy.size();
  switch (f.iface) {
  case PLAIN: call_ext_fct(rg.e1, n, X[0], m, Y[0]); break;
  case IARR: call_ext_fct(rg.e1, ia.size(), ia.data(), n, X[0], m, Y[0]); break;
  case OBJ: rg.o1->call((size_t)n, X[0], (size_t)m, Y[0]); break;
  case OBJ_IARR: rg.o1i->call(ia.size(), ia.data(), (size_t)n, X[0], (size_t)m, Y[0]); break;
  case V2: call_ext_fct(rg.e2, ia.size(), ia.data(), is.size(), os.size(), is.data(), X.data(), os.data(), Y.data()); break;
  default: rg.o2->call(ia.size(), ia.data(), is.size(), os.size(), is.data(), X.data(), os.data(), Y.data()); break;
  }
  if (w.seen != seen + 1) w.fail(cat(ifn[f.iface], "_taping"), "the function was not called exactly once while taping");
  for (auto *q : fy) cl.y.push_back(q->value());
  w.calls.push_back(cl);
  for (size_t j = 0; j < fy.size(); ++j) r[(size_t)s.out[j]] = *fy[j];
  // a changed argument is an output too
  if (f.xch) for (size_t i = 0; i < fx.size(); ++i) { bool isOut = std::find(s.out.begin(), s.out.end(), s.in[i]) != s.out.end(); if (!isOut) r[(size_t)s.in[i]] = *fx[i]; }
}
template <class T> void refCall(World &w, const Spec &s, std::vector<T> &r, bool logIt) {
  const Fn &f = w.F[(size_t)s.f];
  std::vector<T> x; for (int i : s.in) x.push_back(r[(size_t)i]);
  auto y = body<T>(f.kind, s.ia, x, (int)s.out.size());
  if (logIt) { std::vector<double> a, b; double sc = 0; for (auto &q : x) { a.push_back(valOf(q)); sc = std::max(sc, std::fabs(valOf(q))); } for (auto &q : y) { b.push_back(valOf(q)); sc = std::max(sc, std::fabs(valOf(q))); } w.expX.push_back(a); w.expY.push_back(b); w.scale.push_back(sc); }
  for (size_t j = 0; j < y.size(); ++j) r[(size_t)s.out[j]] = y[j];
  if (f.xch) for (size_t i = 0; i < x.size(); ++i) if (std::find(s.out.begin(), s.out.end(), s.in[i]) == s.out.end()) r[(size_t)s.in[i]] = x[i] * T(2.0);
}
static void oneCase(Ctx &c) {
  Rng &g = c.rng;
  World w; w.c = &c; W = &w;
  bool logRef = false;
  extFn<double> = [&](const Ins &I, std::vector<double> &r) { refCall<double>(w, w.S[(size_t)I.n], r, logRef); if (obs) for (int o : w.S[(size_t)I.n].out) obs->val(r[(size_t)o]); if (obs) for (int o : w.S[(size_t)I.n].in) obs->val(r[(size_t)o]); };
  extFn<TPL> = [&](const Ins &I, std::vector<TPL> &r) { refCall<TPL>(w, w.S[(size_t)I.n], r, logRef); };
  extFn<adouble> = [&](const Ins &I, std::vector<adouble> &r) { const Spec &s = w.S[(size_t)I.n]; adCall(s, w.F[(size_t)s.f], regs_[(size_t)s.f], r); };
  const int nf = g.in(1, 3);
  auto parts = [&](int tot) { std::vector<size_t> s; while (tot > 0) { int k = g.in(1, tot); s.push_back((size_t)k); tot -= k; } return s; };
  auto iarr = [&] { std::vector<size_t> a((size_t)g.in(0, 6)); if (g.chance(0.02)) a.resize(500); for (auto &v : a) v = (size_t)g.in(0, 9); return a; };
  for (int i = 0; i < nf; ++i) {
    Fn f; f.iface = g.in(0, NIF - 1); f.kind = g.in(0, 3); f.nested = g.chance(0.4) ? g.in(1, 2) : 0;
    f.xch = !f.nested && g.chance(0.2);
    f.flagX = f.xch || g.chance(0.5); f.flagY = g.chance(0.6); f.flagN = f.nested == 2 || g.chance(0.5); f.otherExt = g.chance(0.4);
    f.fn = g.in(1, 4); f.fm = g.in(1, 4); if (f.iface != PLAIN && f.iface != OBJ) f.fia = iarr();
    if (f.iface >= V2) { f.fin = parts(f.fn); f.fout = parts(f.fm); }
    w.F.push_back(f);
  }
  GenOpt o; o.lenmin = 3; o.lenmax = c.thorough ? 40 : 18; o.nmin = 1; o.nmax = 4; o.mmax = 3; o.extra = 5; o.points = 3; o.bulkmax = 20; o.sameOutcome = true;
  o.allow.assign(NOPS, true); o.allow[CBRT] = false; o.allow[PARAM] = false;
  o.extShare = g.chance(0.3) ? 0.5 : 0.15;
  o.extInit = [&](const Ins &I, std::vector<char> &init) { for (int q : w.S[(size_t)I.n].out) init[(size_t)q] = 1; };
  o.extPropose = [&](Rng &q, Ins &I, const std::vector<char> &init, int nr) {
    Spec s; s.f = q.in(0, nf - 1); const Fn &f = w.F[(size_t)s.f];
    int n = q.in(1, 4), m = q.in(1, 4);
    if (f.iface != PLAIN && f.iface != OBJ) { const size_t l = (size_t)q.in(0, 6); for (size_t i = 0; i < l; ++i) s.ia.push_back((size_t)q.in(0, 9)); }
    if (f.nested) { n = f.fn; m = f.fm; s.ia = f.fia; }
    if (f.iface >= V2) { if (f.nested) { s.insz = f.fin; s.outsz = f.fout; } else { int t = n; while (t > 0) { int k = q.in(1, t); s.insz.push_back((size_t)k); t -= k; } t = m; while (t > 0) { int k = q.in(1, t); s.outsz.push_back((size_t)k); t -= k; } } }
    std::vector<int> av; for (int i = 0; i < nr; ++i) if (init[(size_t)i]) av.push_back(i);
    if (f.xch) { // distinct arguments (each is changed)
      n = std::min<int>(n, (int)av.size()); if (f.iface >= V2) { s.insz.clear(); int t = n; while (t > 0) { int k = q.in(1, t); s.insz.push_back((size_t)k); t -= k; } }
      for (int i = 0; i < n; ++i) { int k = q.in(0, (int)av.size() - 1); s.in.push_back(av[(size_t)k]); av.erase(av.begin() + k); }
    } else for (int i = 0; i < n; ++i) s.in.push_back(av[(size_t)q.in(0, (int)av.size() - 1)]);
    std::vector<int> all; for (int i = 0; i < nr; ++i) all.push_back(i);
    for (int j = 0; j < m; ++j) { int k = q.in(0, (int)all.size() - 1); s.out.push_back(all[(size_t)k]); all.erase(all.begin() + k); }
    // without the prior values of y every call needs result variables of its own
    s.place = f.flagY && q.chance(0.5);
    I.n = (int)w.S.size(); I.a = s.in[0]; I.dst = s.out[0]; I.b = I.c = 0;
    w.S.push_back(s);
    return true;
  };
  Gen G = generate(g, o);
  const Prog &p = G.p;
  long ncall = 0; for (auto &I : p.code) ncall += I.op == EXT;
  if (!ncall) { c.count("no_call"); return; }
  uint64_t h = p.hash(); for (auto &I : p.code) if (I.op == EXT) { const Spec &s = w.S[(size_t)I.n]; const Fn &f = w.F[(size_t)s.f]; h = hmix(h, (uint64_t)(f.iface * 100 + f.kind * 10 + f.nested)); for (int q : s.in) h = hmix(h, (uint64_t)q); }
  c.nontrivial(h);
  auto desc = [&] { std::string d = p.str(); for (auto &I : p.code) if (I.op == EXT) { const Spec &s = w.S[(size_t)I.n]; const Fn &f = w.F[(size_t)s.f]; d += cat(" | EXT", I.n, " f", s.f, " ", ifn[f.iface], " kind", f.kind, " nested", f.nested, " xch", f.xch, " fl", f.flagX, f.flagY, f.flagN, f.otherExt, " place", s.place, " in"); for (int q : s.in) d += cat(",", q); d += " out"; for (int q : s.out) d += cat(",", q); } return d; };
  if (c.verbose) fprintf(stderr, "%s\n", desc().c_str());
  if (c.idx < 40) c.sample(desc().substr(0, 700));
  // references
  auto B = ra::Basis::total(p.n, 1);
  TPL::B = B.get();
  std::vector<RefOut> R; std::vector<std::vector<std::vector<double>>> EX, EY; std::vector<std::vector<double>> SC;
  for (auto &x : G.x) { w.expX.clear(); w.expY.clear(); w.scale.clear(); logRef = true; R.push_back(refTotal(p, *B, x)); logRef = false; EX.push_back(w.expX); EY.push_back(w.expY); SC.push_back(w.scale); }
  auto J = [&](size_t pt, int j, int i) { std::vector<int> e((size_t)p.n, 0); e[(size_t)i] = 1; return (double)R[pt].y[(size_t)j].c[(size_t)B->find(e)]; };
  const short T = createNewTape(), other = createNewTape(); setCurrentTape(T); outerId = T;
  for (auto &f : w.F) if (f.nested == 1) { std::vector<double> x; for (int i = 0; i < f.fn; ++i) x.push_back(g.uni(-1, 1)); recordInner(f, x, f.fm, f.fia); }
  registerAll(w, T, other);
  auto flush = [&](const std::string &where) { if (!w.bad.empty()) { c.violation(w.badKey, where + ": " + w.bad + " " + desc()); w.bad.clear(); } };
  const int recs = g.chance(0.3) ? 2 : 1;
  for (int rec = 0; rec < recs; ++rec) {
    const int keep = g.in(0, 1); const size_t rp = (size_t)g.in(0, 2);
    c.phase("record"); w.calls.clear(); arrays.clear(); w.active = false;
    if (g.chance(0.3)) trace_on(T, keep, (size_t)g.in(4, 40), (size_t)g.in(900, 1400), (size_t)g.in(6, 40), (size_t)g.in(1, 40), g.in(0, 1)); else trace_on(T, keep);
    {
      std::vector<adouble> r; r.reserve((size_t)p.nr); initRegs<adouble>(p, r);
      for (int i = 0; i < p.n; ++i) r[(size_t)i] <<= G.x[rp][(size_t)i];
      run<adouble>(p, r);
      for (int j = 0; j < p.m; ++j) { double y; r[(size_t)p.dep[(size_t)j]] >>= y; if (!close(y, (double)R[rp].y[(size_t)j].c[0], tolOf(R[rp], R[rp].y[(size_t)j].c[0]))) c.violation("taping_value", cat("dependent ", j, " is ", y, " expected ", (double)R[rp].y[(size_t)j].c[0], " ", desc())); }
      arrays.clear();
    }
    trace_off();
    if ((long)w.calls.size() != ncall) w.fail("calls", "taped calls");
    for (auto &cl : w.calls) { const Fn &f = w.F[(size_t)w.S[(size_t)cl.spec].f]; c.count(cat("calls_", ifn[f.iface])); c.count(f.nested ? "calls_nested_tape" : f.xch ? "calls_changing_arguments" : "calls_analytic"); }
    flush("taping");
    // callbacks of a sweep
    auto begin = [&](char m, size_t pt) { w.active = true; w.want = m; w.rev = m == 'r' || m == 'w'; w.next = 0; w.expX = EX[pt]; w.expY = EY[pt]; w.scale = SC[pt]; };
    auto end = [&](const char *nm) { w.active = false; if ((long)w.next != ncall) w.fail("count", cat("the sweep made ", w.next, " calls instead of ", ncall)); c.count(cat("callbacks_", nm), (long)w.next); c.count(cat("sweep_", nm)); flush(nm); };
    auto cmp = [&](const char *nm, double got, double ref, size_t pt, int j) { if (!close(got, ref, tolOf(R[pt], ref))) c.violation(cat(nm, "_value"), cat(nm, " dependent ", j, " got ", got, " expected ", ref, " point ", pt, " recorded at ", rp, " keep ", keep, " ", desc())); };
    auto vals = [&](const char *nm, const std::vector<double> &y, size_t pt) { for (int j = 0; j < p.m; ++j) cmp(nm, y[(size_t)j], (double)R[pt].y[(size_t)j].c[0], pt, j); };
    int state = keep ? 1 : 0; size_t at = rp; // a forward sweep with keep is available
    const int steps = g.in(3, 7);
    std::vector<double> y((size_t)p.m);
    for (int st = 0; st < steps; ++st) {
      const int what = state && g.chance(0.6) ? g.in(4, 5) : g.in(0, 3);
      const size_t pt = (size_t)g.in(0, 2); std::vector<double> x = G.x[pt];
      if (what == 0) { const int k = g.in(0, 1); c.phase("zos_forward"); begin('z', pt); int rc = zos_forward(T, p.m, p.n, k, x.data(), y.data()); end("zos_forward"); vals("zos_forward", y, pt); if (k) { state = 1; at = pt; } if (rc < 0) c.violation("rc", cat("zos_forward returned ", rc, desc())); }
      else if (what == 1) { const int k = g.in(0, 1); std::vector<double> X((size_t)p.n), Y((size_t)p.m); for (auto &v : X) v = g.num(1.5); c.phase("fos_forward"); begin('f', pt); int rc = fos_forward(T, p.m, p.n, k, x.data(), X.data(), y.data(), Y.data()); end("fos_forward"); vals("fos_forward", y, pt); for (int j = 0; j < p.m; ++j) { double s = 0; for (int i = 0; i < p.n; ++i) s += J(pt, j, i) * X[(size_t)i]; cmp("fos_forward", Y[(size_t)j], s, pt, j); } if (k) { state = 1; at = pt; } if (rc < 0) c.violation("rc", cat("fos_forward returned ", rc, desc())); }
      else if (what == 2) { const int q = g.in(1, 4); Mat X((size_t)p.n, (size_t)q), Y((size_t)p.m, (size_t)q); for (int i = 0; i < p.n; ++i) for (int l = 0; l < q; ++l) X[(size_t)i][l] = g.num(1.5); c.phase("fov_forward"); begin('v', pt); fov_forward(T, p.m, p.n, q, x.data(), X.ptr(), y.data(), Y.ptr()); end("fov_forward"); vals("fov_forward", y, pt); for (int j = 0; j < p.m; ++j) for (int l = 0; l < q; ++l) { double s = 0; for (int i = 0; i < p.n; ++i) s += J(pt, j, i) * X[(size_t)i][l]; cmp("fov_forward", Y[(size_t)j][l], s, pt, j); } }
      else if (what == 3) {
        // drivers: forward and reverse parts are not told apart
        Mat Jm((size_t)p.m, (size_t)p.n); c.phase("jacobian"); w.active = true; w.want = 0;
        const std::string save = w.bad; const long s0 = w.seen; World keepW; (void)keepW;
        w.expX = EX[pt]; w.expY = EY[pt]; w.scale = SC[pt]; w.next = 0; w.want = '?';
        jacobian(T, p.m, p.n, x.data(), Jm.ptr());
        w.active = false; w.bad = save; c.count("sweep_jacobian"); if (w.seen == s0) c.violation("jacobian_calls", "no callback"); 
        for (int j = 0; j < p.m; ++j) for (int i = 0; i < p.n; ++i) cmp("jacobian", Jm[(size_t)j][i], J(pt, j, i), pt, j);
        state = 0;
      } else if (what == 4) { std::vector<double> u((size_t)p.m), z((size_t)p.n, 7.5); for (auto &v : u) v = g.num(1.5); if (g.chance(0.2)) u[0] = 0; c.phase("fos_reverse"); begin('r', at); fos_reverse(T, p.m, p.n, u.data(), z.data()); end("fos_reverse"); for (int i = 0; i < p.n; ++i) { double s = 0; for (int j = 0; j < p.m; ++j) s += u[(size_t)j] * J(at, j, i); cmp("fos_reverse", z[(size_t)i], s, at, i); } if (state == 2) c.count("repeated_reverse"); state = 2; }
      else { const int q = g.in(1, 4); Mat U((size_t)q, (size_t)p.m), Z((size_t)q, (size_t)p.n, 7.5); for (int l = 0; l < q; ++l) for (int j = 0; j < p.m; ++j) U[(size_t)l][j] = g.num(1.5); c.phase("fov_reverse"); begin('w', at); fov_reverse(T, p.m, p.n, q, U.ptr(), Z.ptr()); end("fov_reverse"); for (int l = 0; l < q; ++l) for (int i = 0; i < p.n; ++i) { double s = 0; for (int j = 0; j < p.m; ++j) s += U[(size_t)l][j] * J(at, j, i); cmp("fov_reverse", Z[(size_t)l][i], s, at, i); } if (state == 2) c.count("repeated_reverse"); state = 2; }
    }
    w.active = false;
    c.evaluations += steps;
  }
  regs_.clear(); arrays.clear();
}
int main(int argc, char **argv) { return harness_main(argc, argv, [](Ctx &c) { fresh([&] { oneCase(c); }); }); }
