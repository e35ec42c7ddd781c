// Reference algebra: truncated polynomials over an arbitrary downward-closed
// set of monomials, elementary functions by composition with the univariate
// Taylor expansion of f at the constant term.  Shares no code or recurrences
// with ADOL-C.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <vector>

namespace ra {

struct Basis {
  int nv = 0;
  std::vector<std::vector<int>> mon;
  std::map<std::vector<int>, int> index;
  struct M {
    int i, j, k;
  };
  std::vector<M> mul;
  int maxdeg = 0;
  int size() const { return (int)mon.size(); }
  int find(const std::vector<int> &e) const {
    auto it = index.find(e);
    return it == index.end() ? -1 : it->second;
  }
  // all monomials e with pred(e), pred downward closed, e_i <= cap
  static std::shared_ptr<Basis>
  make(int nv, int cap, const std::function<bool(const std::vector<int> &)> &pred) {
    auto b = std::make_shared<Basis>();
    b->nv = nv;
    std::vector<std::vector<int>> all;
    std::vector<int> e(nv, 0);
    std::function<void(int)> rec = [&](int p) {
      if (p == nv) {
        if (pred(e))
          all.push_back(e);
        return;
      }
      for (int x = 0; x <= cap; ++x) {
        e[p] = x;
        std::vector<int> t(e.begin(), e.end());
        for (int q = p + 1; q < nv; ++q)
          t[q] = 0;
        if (!pred(t))
          break;
        rec(p + 1);
      }
      e[p] = 0;
    };
    rec(0);
    auto deg = [](const std::vector<int> &v) {
      int s = 0;
      for (int x : v)
        s += x;
      return s;
    };
    std::stable_sort(all.begin(), all.end(),
                     [&](const auto &x, const auto &y) { return deg(x) < deg(y); });
    b->mon = all;
    for (int i = 0; i < (int)all.size(); ++i) {
      b->index[all[i]] = i;
      b->maxdeg = std::max(b->maxdeg, deg(all[i]));
    }
    for (int i = 0; i < (int)all.size(); ++i)
      for (int j = 0; j < (int)all.size(); ++j) {
        std::vector<int> s(nv);
        for (int q = 0; q < nv; ++q)
          s[q] = all[i][q] + all[j][q];
        int k = b->find(s);
        if (k >= 0)
          b->mul.push_back({i, j, k});
      }
    return b;
  }
  // total degree <= D in nv variables
  static std::shared_ptr<Basis> total(int nv, int D) {
    return make(nv, D, [D](const std::vector<int> &e) {
      int s = 0;
      for (int x : e)
        s += x;
      return s <= D;
    });
  }
  // variable 0 = t up to degree d; variables 1..n at most total degree 1
  static std::shared_ptr<Basis> path(int n, int d) {
    return make(n + 1, std::max(d, 1), [d](const std::vector<int> &e) {
      int s = 0;
      for (size_t i = 1; i < e.size(); ++i)
        s += e[i];
      return e[0] <= d && s <= 1;
    });
  }
};

template <class F> struct TP {
  static inline thread_local const Basis *B = nullptr;
  static inline thread_local F maxabs = 0;
  std::vector<F> c;
  TP() : c(B->size(), F(0)) {}
  TP(double v) : c(B->size(), F(0)) { c[0] = v; }
  static TP var(int i, F base) {
    TP r;
    r.c[0] = base;
    std::vector<int> e(B->nv, 0);
    e[i] = 1;
    int k = B->find(e);
    if (k >= 0)
      r.c[k] = 1;
    return r;
  }
  void note() const {
    for (F x : c) {
      F a = std::fabs(x);
      if (!(a <= maxabs))
        maxabs = a;
    }
  }
  F v0() const { return c[0]; }
};

template <class F> TP<F> operator+(const TP<F> &a, const TP<F> &b) {
  TP<F> r(a);
  for (size_t i = 0; i < r.c.size(); ++i)
    r.c[i] += b.c[i];
  r.note();
  return r;
}
template <class F> TP<F> operator-(const TP<F> &a, const TP<F> &b) {
  TP<F> r(a);
  for (size_t i = 0; i < r.c.size(); ++i)
    r.c[i] -= b.c[i];
  r.note();
  return r;
}
template <class F> TP<F> operator*(const TP<F> &a, const TP<F> &b) {
  TP<F> r;
  for (auto &m : TP<F>::B->mul)
    r.c[m.k] += a.c[m.i] * b.c[m.j];
  r.note();
  return r;
}
template <class F> TP<F> compose(const TP<F> &x, const std::vector<F> &f) {
  const int D = TP<F>::B->maxdeg;
  TP<F> h(x);
  h.c[0] = 0;
  TP<F> r;
  r.c[0] = f[D];
  for (int k = D - 1; k >= 0; --k) {
    TP<F> q;
    for (auto &m : TP<F>::B->mul)
      q.c[m.k] += r.c[m.i] * h.c[m.j];
    q.c[0] += f[k];
    r = q;
  }
  r.note();
  return r;
}

// ---- univariate series helpers (length D+1)
template <class F> using Ser = std::vector<F>;
template <class F> Ser<F> smul(const Ser<F> &a, const Ser<F> &b) {
  Ser<F> r(a.size(), F(0));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; i + j < a.size(); ++j)
      r[i + j] += a[i] * b[j];
  return r;
}
template <class F> Ser<F> sdiv(const Ser<F> &a, const Ser<F> &b) {
  Ser<F> r(a.size(), F(0));
  for (size_t k = 0; k < a.size(); ++k) {
    F s = a[k];
    for (size_t j = 1; j <= k; ++j)
      s -= b[j] * r[k - j];
    r[k] = s / b[0];
  }
  return r;
}
// composition with a known outer expansion at a[0]
template <class F> Ser<F> scomp(const Ser<F> &a, const Ser<F> &f) {
  Ser<F> h(a);
  h[0] = 0;
  Ser<F> r(a.size(), F(0));
  r[0] = f.back();
  for (int k = (int)a.size() - 2; k >= 0; --k) {
    r = smul(r, h);
    r[0] += f[k];
  }
  return r;
}
template <class F> Ser<F> fexp(F a, int D) {
  Ser<F> f(D + 1);
  F v = std::exp(a);
  for (int k = 0; k <= D; ++k) {
    f[k] = v;
    v /= (k + 1);
  }
  return f;
}
template <class F> Ser<F> flog(F a, int D) {
  Ser<F> f(D + 1);
  f[0] = std::log(a);
  F p = 1;
  for (int k = 1; k <= D; ++k) {
    p /= a;
    f[k] = ((k & 1) ? 1 : -1) * p / k;
  }
  return f;
}
template <class F> Ser<F> fpow(F a, F r, int D) {
  Ser<F> f(D + 1, F(0));
  F b = 1; // binom(r,k)
  bool isint = r == std::floor(r) && r >= 0;
  for (int k = 0; k <= D; ++k) {
    if (b == 0)
      f[k] = 0;
    else if (isint && k == (int)r)
      f[k] = b;
    else
      f[k] = b * std::pow(a, r - k);
    b = b * (r - k) / (k + 1);
  }
  return f;
}
template <class F> Ser<F> fsin(F a, int D, int shift) {
  Ser<F> f(D + 1);
  F q = 1;
  for (int k = 0; k <= D; ++k) {
    int s = (k + shift) & 3;
    F v = s == 0 ? std::sin(a) : s == 1 ? std::cos(a) : s == 2 ? -std::sin(a) : -std::cos(a);
    f[k] = v / q;
    q *= (k + 1);
  }
  return f;
}
template <class F> Ser<F> poly(F a, int D, F c0, F c1, F c2) {
  // c0 + c1 x + c2 x^2 expanded at a
  Ser<F> f(D + 1, F(0));
  f[0] = c0 + c1 * a + c2 * a * a;
  if (D >= 1)
    f[1] = c1 + 2 * c2 * a;
  if (D >= 2)
    f[2] = c2;
  return f;
}
template <class F> Ser<F> integ(F f0, const Ser<F> &d) {
  Ser<F> f(d.size());
  f[0] = f0;
  for (size_t k = 1; k < d.size(); ++k)
    f[k] = d[k - 1] / F(k);
  return f;
}

template <class F> TP<F> operator/(const TP<F> &a, const TP<F> &b) {
  return a * compose(b, fpow<F>(b.c[0], F(-1), TP<F>::B->maxdeg));
}
#define RA_UN(name, expr)                                                      \
  template <class F> TP<F> name(const TP<F> &x) {                              \
    const int D = TP<F>::B->maxdeg;                                            \
    const F a = x.c[0];                                                        \
    (void)D;                                                                   \
    (void)a;                                                                   \
    return compose<F>(x, (expr));                                              \
  }
RA_UN(exp, fexp<F>(a, D))
RA_UN(log, flog<F>(a, D))
RA_UN(sin, fsin<F>(a, D, 0))
RA_UN(cos, fsin<F>(a, D, 1))
RA_UN(tan, sdiv<F>(fsin<F>(a, D, 0), fsin<F>(a, D, 1)))
RA_UN(sqrt, fpow<F>(a, F(0.5L), D))
RA_UN(asin, integ<F>(std::asin(a), scomp<F>(poly<F>(a, D, 1, 0, -1), fpow<F>(1 - a * a, F(-0.5L), D))))
RA_UN(atan, integ<F>(std::atan(a), scomp<F>(poly<F>(a, D, 1, 0, 1), fpow<F>(1 + a * a, F(-1), D))))
RA_UN(asinh, integ<F>(std::asinh(a), scomp<F>(poly<F>(a, D, 1, 0, 1), fpow<F>(1 + a * a, F(-0.5L), D))))
RA_UN(acosh, integ<F>(std::acosh(a), scomp<F>(poly<F>(a, D, -1, 0, 1), fpow<F>(a * a - 1, F(-0.5L), D))))
RA_UN(atanh, integ<F>(std::atanh(a), scomp<F>(poly<F>(a, D, 1, 0, -1), fpow<F>(1 - a * a, F(-1), D))))
template <class F> Ser<F> ferf(F a, int D) {
  Ser<F> d = scomp<F>(poly<F>(a, D, 0, 0, -1), fexp<F>(-a * a, D));
  for (auto &z : d)
    z *= F(1.12837916709551257389615890312154517L);
  return integ<F>(std::erf(a), d);
}
RA_UN(erf, ferf<F>(a, D))
template <class F> Ser<F> shyp(F a, int D, int odd) {
  Ser<F> p = fexp<F>(a, D), m = fexp<F>(-a, D);
  for (int k = 0; k <= D; ++k) {
    F mm = (k & 1) ? -m[k] : m[k];
    p[k] = (odd ? p[k] - mm : p[k] + mm) / 2;
  }
  return p;
}
RA_UN(sinh, shyp<F>(a, D, 1))
RA_UN(cosh, shyp<F>(a, D, 0))
RA_UN(tanh, sdiv<F>(shyp<F>(a, D, 1), shyp<F>(a, D, 0)))
#undef RA_UN
template <class F> TP<F> scale(const TP<F> &x, F s) {
  TP<F> r(x);
  for (auto &v : r.c)
    v *= s;
  r.note();
  return r;
}
template <class F> TP<F> operator-(const TP<F> &x) { return scale<F>(x, F(-1)); }
template <class F> TP<F> operator+(const TP<F> &x) { return x; }
template <class F> TP<F> acos(const TP<F> &x) {
  TP<F> r = scale<F>(asin(x), F(-1));
  r.c[0] = std::acos(x.c[0]);
  return r;
}
template <class F> TP<F> erfc(const TP<F> &x) {
  TP<F> r = scale<F>(erf(x), F(-1));
  r.c[0] = std::erfc(x.c[0]);
  return r;
}
template <class F> TP<F> log10(const TP<F> &x) {
  return scale<F>(log(x), 1 / std::log(F(10)));
}
template <class F> TP<F> cbrt(const TP<F> &x) {
  if (x.c[0] < 0)
    return scale<F>(cbrt(scale<F>(x, F(-1))), F(-1));
  return compose<F>(x, fpow<F>(x.c[0], F(1) / 3, TP<F>::B->maxdeg));
}
template <class F> TP<F> pow(const TP<F> &x, double r) {
  return compose<F>(x, fpow<F>(x.c[0], F(r), TP<F>::B->maxdeg));
}
template <class F> TP<F> pow(double b, const TP<F> &x) {
  return exp(scale<F>(x, std::log(F(b))));
}
template <class F> TP<F> pow(const TP<F> &x, const TP<F> &y) { return exp(y * log(x)); }
// abs-normal form: every absolute value introduces a new variable
template <class F> struct AbsHook {
  bool vars = false;            // the basis has variables for the switches
  int n = 0;                    // number of independents
  std::vector<TP<F>> z;
};
template <class F> inline thread_local AbsHook<F> *absHook = nullptr;
template <class F> TP<F> fabs(const TP<F> &x) {
  if (AbsHook<F> *h = absHook<F>) {
    TP<F> r = TP<F>(std::fabs(x.c[0]));
    if (h->vars) r = TP<F>::var(h->n + (int)h->z.size(), std::fabs(x.c[0]));
    h->z.push_back(x);
    return r;
  }
  // sign of the first nonzero coefficient (only meaningful off kinks, or for
  // univariate bases at kinks)
  for (F v : x.c)
    if (v != 0)
      return v < 0 ? scale<F>(x, F(-1)) : x;
  return x;
}
template <class F> int lexcmp(const TP<F> &a, const TP<F> &b) {
  for (size_t i = 0; i < a.c.size(); ++i) {
    if (a.c[i] < b.c[i])
      return -1;
    if (a.c[i] > b.c[i])
      return 1;
  }
  return 0;
}
template <class F> TP<F> fmin(const TP<F> &a, const TP<F> &b) {
  if (absHook<F>) return scale<F>(a + b - fabs(a - b), F(0.5));
  return lexcmp(a, b) <= 0 ? a : b;
}
template <class F> TP<F> fmax(const TP<F> &a, const TP<F> &b) {
  if (absHook<F>) return scale<F>(a + b + fabs(a - b), F(0.5));
  return lexcmp(a, b) >= 0 ? a : b;
}
template <class F> TP<F> ceil(const TP<F> &x) { return TP<F>((double)std::ceil(x.c[0])); }
template <class F> TP<F> floor(const TP<F> &x) { return TP<F>((double)std::floor(x.c[0])); }
template <class F> TP<F> ldexp(const TP<F> &x, int e) { return scale<F>(x, std::ldexp(F(1), e)); }
template <class F> TP<F> atan2(const TP<F> &y, const TP<F> &x) {
  TP<F> r = std::fabs(x.c[0]) > std::fabs(y.c[0]) ? atan(y / x) : scale<F>(atan(x / y), F(-1));
  r.c[0] = std::atan2(y.c[0], x.c[0]);
  return r;
}

using TPL = TP<long double>;
} // namespace ra
