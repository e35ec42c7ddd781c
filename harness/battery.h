// A random history of library calls on one recorded tape, one call per step,
// every number delivered appended to a log.  The calls and their arguments
// depend only on the random stream, the program and the points, so two
// histories from the same seed must produce the same log bit by bit.
#pragma once
#include "adtape.h"
#include <adolc/drivers/drivers.h>
#include <adolc/drivers/taylor.h>
#ifdef ADOLC_SPARSE
#include <adolc/sparse/sparse_fo_rev.h>
#include <adolc/sparse/sparsedrivers.h>
#endif
namespace bt {
using namespace at;
using vh::cat;
using vh::Rng;
struct Features { bool ov = false, ho = true, safe = true, sparse = true, drivers = true, colpack = true; int npar = 0; int dmax = 4; std::vector<double> par; };
inline bool has(const pg::Prog &p, int op) { for (auto &I : p.code) if (I.op == op) return true; return false; }
inline Features featuresOf(const pg::Prog &p) {
  Features f;
  // documented: hos_ov_reverse does not support ties of fmin (fmin(x,x))
  f.ov = !has(p, pg::FMIN) && !has(p, pg::FMAX);
  f.ho = !has(p, pg::CBRT);
  // documented: no active subscripts in safe mode
  f.safe = !has(p, pg::AVREAD) && !has(p, pg::AVWRITE) && !has(p, pg::AVSEL) && !has(p, pg::AVLOOK);
  return f;
}
struct Battery;
// compares an input array with a copy when the scope ends
struct In {
  Battery &b; const void *p; std::vector<char> c; const char *nm;
  template <class T> In(Battery &B, const std::vector<T> &v, const char *n) : b(B), p(v.data()), c((const char *)v.data(), (const char *)(v.data() + v.size())), nm(n) {}
  ~In();
};
#define INP(v) bt::In in_##v(*this, v, #v)
#define IND(v) bt::In in_##v(*this, v.d, #v)
struct Battery {
  // previous contents of output arrays
  double dirt = 7.5;
  bitword_t dirtBits = 0;
  std::vector<std::string> changedInputs;
  long inputsChecked = 0;
  short id;
  int n, m;
  const std::vector<std::vector<double>> &pts;
  Features f;
  Rng g;
  std::vector<double> log;
  std::vector<std::pair<size_t, std::string>> marks; // first log index of every call
  std::map<std::string, long> calls;
  // what the Taylor stack holds: degree+1 (0 nothing), number of directions
  int kept = 0, np = 0;
  bool ovKept = false;
  std::function<void(const std::string &)> phase = [](const std::string &) {};

  Battery(short id_, int n_, int m_, const std::vector<std::vector<double>> &p, Features f_, uint64_t seed, int tracedKeep = 0)
      : id(id_), n(n_), m(m_), pts(p), f(f_), g(seed), kept(tracedKeep ? 1 : 0) {}
  void mark(const std::string &s) { marks.emplace_back(log.size(), s); calls[s.substr(0, s.find(' '))]++; phase(s); }
  void put(double v) { log.push_back(v); }
  void put(const std::vector<double> &v) { for (double d : v) put(d); }
  // documented: the lower triangle is delivered
  void lower(const Mat &H) { for (size_t i = 0; i < (size_t)n; ++i) for (size_t j = 0; j <= i; ++j) put(H[i][j]); }
  std::string at(size_t i) const { std::string s = "?"; for (auto &q : marks) if (q.first <= i) s = q.second; return s; }
  void pats(std::vector<uint *> &C) {
    for (auto &r : C) { if (!r) { put(-1); continue; } for (uint k = 0; k <= r[0]; ++k) put(r[k]); delete[] r; r = nullptr; }
  }
  void step() {
    const bool canRev = kept > 0;
    if (canRev && g.chance(0.45)) { rev(); return; }
    const int w = g.in(0, f.drivers ? 29 : 14);
    const std::vector<double> x0 = g.pick(pts);
    std::vector<double> x = x0, y((size_t)m, dirt);
    if (w <= 14) {
      int d = f.ho ? g.in(1, f.dmax) : 1;
      kept = 0; ovKept = false;
      switch (w) {
      case 0: case 1: { int k = g.in(0, 1); mark(cat("zos_forward keep=", k)); put(zos_forward(id, m, n, k, x.data(), y.data())); put(y); kept = k; } break;
      case 2: case 3: { int k = g.in(0, 2); std::vector<double> X((size_t)n), Y((size_t)m, dirt); for (auto &t : X) t = g.num(); INP(X);
          mark(cat("fos_forward keep=", k)); put(fos_forward(id, m, n, k, x.data(), X.data(), y.data(), Y.data())); put(y); put(Y); kept = f.ho ? k : (k ? 1 : 0); if (!f.ho && k == 2) kept = 0; } break;
      case 4: case 5: { int q = g.in(1, 5); Mat X((size_t)n, (size_t)q), Y((size_t)m, (size_t)q, dirt); for (auto &t : X.d) t = g.num(); IND(X);
          mark(cat("fov_forward p=", q)); put(fov_forward(id, m, n, q, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); put(Y.d); } break;
      case 6: { int k = g.in(0, 1); std::vector<double> X((size_t)n), Y((size_t)m); (void)X; (void)Y; mark("zos_forward keep=1"); (void)k; put(zos_forward(id, m, n, 1, x.data(), y.data())); put(y); kept = 1; } break;
      case 7: case 8: case 9: if (f.ho) { int k = g.in(0, d + 1); Mat X((size_t)n, (size_t)d), Y((size_t)m, (size_t)d, dirt); for (auto &t : X.d) t = g.num(); IND(X);
          mark(cat("hos_forward d=", d, " keep=", k)); put(hos_forward(id, m, n, d, k, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); put(Y.d); kept = k; } break;
      case 10: if (f.ho) { int q = g.in(1, 3); Ten X((size_t)n, (size_t)q, (size_t)d), Y((size_t)m, (size_t)q, (size_t)d, dirt); for (auto &t : X.d) t = g.num(); IND(X);
          mark(cat("hov_forward d=", d, " p=", q)); put(hov_forward(id, m, n, d, q, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); put(Y.d); } break;
      case 11: if (f.ho) { int q = g.in(1, 3); Ten X((size_t)n, (size_t)q, (size_t)d), Y((size_t)m, (size_t)q, (size_t)d, dirt); for (auto &t : X.d) t = g.num(); IND(X);
          mark(cat("hov_wk_forward d=", d, " p=", q)); put(hov_wk_forward(id, m, n, d, d + 1, q, x.data(), X.ptr(), y.data(), Y.ptr())); put(y); put(Y.d); ovKept = true; kept = d + 1; np = q; } break;
      case 12: if (f.sparse) {
          int q = g.in(1, 3); std::vector<bitword_t> bx((size_t)(n * q)), by((size_t)(m * q), dirtBits); std::vector<bitword_t *> px, py;
          for (auto &b : bx) b = g.next() & g.next(); INP(bx);
          for (int i = 0; i < n; ++i) px.push_back(&bx[(size_t)(i * q)]);
          for (int i = 0; i < m; ++i) py.push_back(&by[(size_t)(i * q)]);
          if (g.chance(0.5) && f.safe) { mark("int_forward_safe"); put(int_forward_safe(id, m, n, q, px.data(), py.data())); }
          else { mark("int_forward_tight"); put(int_forward_tight(id, m, n, q, x.data(), px.data(), y.data(), py.data())); put(y); }
          for (auto b : by) { put((double)(b & 0xffffffff)); put((double)((uint64_t)b >> 32)); }
        } break;
      case 13: if (f.sparse) { std::vector<uint *> C((size_t)m, nullptr);
          if (g.chance(0.5) || !f.safe) { mark("indopro_forward_tight"); put(indopro_forward_tight(id, m, n, x.data(), C.data())); }
          else { mark("indopro_forward_safe"); put(indopro_forward_safe(id, m, n, x.data(), C.data())); }
          pats(C); } break;
      case 14: if (f.sparse && m == 1) { std::vector<uint *> C((size_t)n, nullptr);
          if (g.chance(0.5) || !f.safe) { mark("nonl_ind_forward_tight"); put(nonl_ind_forward_tight(id, m, n, x.data(), C.data())); }
          else { mark("nonl_ind_forward_safe"); put(nonl_ind_forward_safe(id, m, n, x.data(), C.data())); }
          pats(C); } break;
      }
    } else {
      kept = 0; ovKept = false;
      std::vector<double> u((size_t)m), v((size_t)n), r((size_t)n, dirt);
      for (auto &t : u) t = g.num(); INP(u);
      for (auto &t : v) t = g.num(); INP(v);
      switch (w) {
      case 15: mark("function"); put(function(id, m, n, x.data(), y.data())); put(y); break;
      case 16: if (m == 1) { mark("gradient"); put(gradient(id, n, x.data(), r.data())); put(r); } break;
      case 17: case 18: { Mat J((size_t)m, (size_t)n, dirt); mark("jacobian"); put(jacobian(id, m, n, x.data(), J.ptr())); put(J.d); } break;
      case 19: mark("vec_jac"); put(vec_jac(id, m, n, 0, x.data(), u.data(), r.data())); put(r); break;
      case 20: mark("jac_vec"); put(jac_vec(id, m, n, x.data(), v.data(), y.data())); put(y); break;
      case 21: if (f.ho) { mark("lagra_hess_vec"); put(lagra_hess_vec(id, m, n, x.data(), v.data(), u.data(), r.data())); put(r); } break;
      case 22: if (f.ho && m == 1) { Mat H((size_t)n, (size_t)n, dirt); mark("hessian"); put(hessian(id, n, x.data(), H.ptr())); lower(H); } break;
      case 23: if (f.ho && m == 1 && f.ov) { Mat H((size_t)n, (size_t)n, dirt); mark("hessian2"); put(hessian2(id, n, x.data(), H.ptr())); lower(H); } break;
      case 24: if (f.ho) {
          int p = g.in(1, 2), d = g.in(1, 3); long dim = binomi((size_t)(p + d), (size_t)d);
          Mat T((size_t)m, (size_t)dim, dirt), S((size_t)n, (size_t)p); for (auto &t : S.d) t = g.num(); IND(S);
          mark("tensor_eval"); put(tensor_eval(id, m, n, d, p, x.data(), T.ptr(), S.ptr())); put(T.d); } break;
#ifdef ADOLC_SPARSE
      case 25: if (f.sparse) {
          using namespace ADOLC::Sparse;
          std::vector<uint *> C((size_t)m, nullptr); std::span<uint *> sp(C);
          int k = g.in(f.safe ? 0 : 1, 3); mark(cat("jac_pat ", k));
          if (k == 0) put(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Safe>(id, m, n, x.data(), sp));
          else if (k == 1) put(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(id, m, n, x.data(), sp));
          else if (k == 2) put(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Reverse>(id, m, n, x.data(), sp));
          else put(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Forward>(id, m, n, x.data(), sp));
          pats(C); } break;
      case 26: if (f.sparse && m == 1) {
          using namespace ADOLC::Sparse;
          std::vector<uint *> C((size_t)n, nullptr); std::span<uint *> sp(C); mark("hess_pat");
          if (g.chance(0.5) && f.safe) put(hess_pat<ControlFlowMode::Safe>(id, n, x.data(), sp)); else put(hess_pat<ControlFlowMode::Tight>(id, n, x.data(), sp));
          pats(C); } break;
      case 27: case 28: if (f.sparse && f.colpack) {
          using namespace ADOLC::Sparse;
          uint *ri = nullptr, *ci = nullptr; double *va = nullptr; int nnz = 0; SparseMatrix sj;
          const bool hs = w == 28 && m == 1 && f.ho && f.ov;
          for (int rep = 0; rep < 2; ++rep) {
            if (rep) x = g.pick(pts);
            if (hs) { mark(cat("sparse_hess repeat=", rep)); if (f.safe) put(sparse_hess<ControlFlowMode::Safe, RecoveryMethod::Indirect>(id, n, rep, x.data(), &nnz, &ri, &ci, &va)); else put(sparse_hess<ControlFlowMode::Tight, RecoveryMethod::Indirect>(id, n, rep, x.data(), &nnz, &ri, &ci, &va)); }
            else { mark(cat("sparse_jac repeat=", rep)); if (f.safe) put(sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Safe>(id, m, n, rep, x.data(), sj)); else put(sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Tight>(id, m, n, rep, x.data(), sj)); for (auto &e : sj.entries()) { put(e.rowIndex()); put(e.colIndex()); put(e.value()); } }
            for (int k = 0; k < nnz; ++k) { put(ri[k]); put(ci[k]); put(va[k]); }
          }
          free(ri); free(ci); free(va);
          return;
        } break;
#endif
      case 29: if (f.npar > 0) {
          for (int k = 0; k < f.npar; ++k) f.par[(size_t)k] = f.par[(size_t)k] * g.uni(0.999, 1.001);
          mark("set_param_vec"); findTape(id).set_param_vec(id, (size_t)f.npar, f.par.data()); } break;
      }
    }
    for (int j = 0; j < n; ++j) put(x[(size_t)j] == x0[(size_t)j] ? 1 : 0);
  }
  void rev() {
    const int d = kept - 1, q = g.in(1, 4);
    const size_t D = (size_t)d + 1;
    if (ovKept) {
      // Z[np][n][d+1]; only with everything kept
      if (!f.ov) { kept = 0; return; }
      Mat U((size_t)m, D); for (auto &t : U.d) t = g.num(); IND(U);
      Ten Z((size_t)np, (size_t)n, D, dirt);
      mark("hos_ov_reverse"); put(hos_ov_reverse(id, m, n, d, np, U.ptr(), Z.ptr())); put(Z.d);
      return;
    }
    std::vector<double> u((size_t)m), z((size_t)n, dirt); for (auto &t : u) t = g.num(); INP(u);
    Mat U((size_t)q, (size_t)m), Z((size_t)q, (size_t)n, dirt); for (auto &t : U.d) t = g.num(); IND(U);
    if (d == 0) {
      switch (g.in(0, f.sparse ? 4 : 3)) {
      case 0: case 1: mark("fos_reverse"); put(fos_reverse(id, m, n, u.data(), z.data())); put(z); return;
      case 2: case 3: mark("fov_reverse"); put(fov_reverse(id, m, n, q, U.ptr(), Z.ptr())); put(Z.d); return;
      case 4: {
        std::vector<bitword_t> bu((size_t)(m * q)), bz((size_t)(n * q), dirtBits); std::vector<bitword_t *> pu, pz;
        for (auto &b : bu) b = g.next() & g.next(); INP(bu);
        for (int i = 0; i < q; ++i) { pu.push_back(&bu[(size_t)(i * m)]); pz.push_back(&bz[(size_t)(i * n)]); }
        mark("int_reverse_tight"); put(int_reverse_tight(id, m, n, q, pu.data(), pz.data()));
        for (auto b : bz) { put((double)(b & 0xffffffff)); put((double)((uint64_t)b >> 32)); } return; }
      }
    }
    Mat Ut((size_t)m, D), Zt((size_t)n, D, dirt); for (auto &t : Ut.d) t = g.num(); IND(Ut);
    Ten UT((size_t)q, (size_t)m, D), ZT((size_t)q, (size_t)n, D, dirt); for (auto &t : UT.d) t = g.num(); IND(UT);
    std::vector<std::vector<short>> nzd((size_t)q, std::vector<short>((size_t)n, (short)dirtBits)); std::vector<short *> nz; for (auto &r : nzd) nz.push_back(r.data());
    const bool wnz = g.chance(0.6);
    const int which = g.in(0, 3);
    switch (which) {
    case 0: mark("hos_reverse"); put(hos_reverse(id, m, n, d, u.data(), Zt.ptr())); put(Zt.d); break;
    case 1: mark("hos_ti_reverse"); put(hos_ti_reverse(id, m, n, d, Ut.ptr(), Zt.ptr())); put(Zt.d); break;
    case 2: mark("hov_reverse"); put(hov_reverse(id, m, n, d, q, U.ptr(), ZT.ptr(), wnz ? nz.data() : nullptr)); put(ZT.d); break;
    case 3: mark("hov_ti_reverse"); put(hov_ti_reverse(id, m, n, d, q, UT.ptr(), ZT.ptr(), wnz ? nz.data() : nullptr)); put(ZT.d); break;
    }
    if (wnz && which >= 2) for (auto &r : nzd) for (short s : r) put(s);
  }
};
inline In::~In() { ++b.inputsChecked; if (c.size() && std::memcmp(p, c.data(), c.size())) b.changedInputs.push_back(cat(b.marks.empty() ? "?" : b.marks.back().second, " ", nm)); }
// tol > 0: differences of rounding are allowed
inline bool sameLog(const Battery &a, const Battery &b, std::string &why, double tol = 0) {
  size_t k = std::min(a.log.size(), b.log.size());
  for (size_t i = 0; i < k; ++i)
    if (!vh::biteq(a.log[i], b.log[i]) && !(tol > 0 && std::fabs(a.log[i] - b.log[i]) <= tol * (1 + std::fabs(a.log[i]) + std::fabs(b.log[i])))) { why = cat(a.at(i), ": ", a.log[i], " vs ", b.log[i], " (entry ", i, ")"); return false; }
  if (a.log.size() != b.log.size()) { why = cat("lengths ", a.log.size(), " ", b.log.size()); return false; }
  return true;
}
} // namespace bt
