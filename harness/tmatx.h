// tvector<T> / tmatrix<T> adapters over an element adapter A (bind.h).
#ifndef VERIF_TMATX_H
#define VERIF_TMATX_H
#include "polyx.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tvector.h"

namespace bind {
// the integers, as far as they fit an int
struct ZZ {
  typedef i128 E;
  i128 lim = 0x7fffffff;
  int gen = 9; // size of generated elements
  E chk(E v) const {
    if (iabs(v) > lim) throw pbt::Discard();
    return v;
  }
  E zero() const { return 0; }
  E one() const { return 1; }
  E of(i64 v) const { return v; }
  E add(E a, E b) const { return chk(a + b); }
  E sub(E a, E b) const { return chk(a - b); }
  E neg(E a) const { return -a; }
  E mul(E a, E b) const { return chk(a * b); }
  bool is_zero(E a) const { return a == 0; }
  bool eq(E a, E b) const { return a == b; }
  bool inv(E a, E &r) const {
    r = a;
    return a == 1 || a == -1;
  }
  std::string show(E a) const { return str(a); }
  E random(pbt::Gen &g) const { return g.skewed_signed(gen); }
  u64 size() const { return 0; }
};
struct IntA {
  typedef ZZ M;
  typedef int T;
  static const int kind = FIELD;
  M m;
  T make(const M::E &e) const { return (int)e; }
  M::E get(const T &x) const { return x; }
  std::string name() const { return "Z"; }
};

template <class A> struct TM {
  typedef typename A::T T;
  typedef typename A::M K;
  typedef typename K::E E;
  typedef std::vector<E> V;
  typedef std::vector<V> W;
  const A &a;
  Mat<K> mm;
  explicit TM(const A &x) : a(x), mm{x.m} {}
  std::string sv(const V &v) const {
    std::string s = "(";
    for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + a.m.show(v[i]);
    return s + ")";
  }
  tvector<T> mkv(const V &v) const {
    tvector<T> x(a.make(a.m.zero()), (int)v.size());
    for (size_t i = 0; i < v.size(); i++) x[(int)i] = a.make(v[i]);
    return x;
  }
  tmatrix<T> mk(const W &w) const {
    tmatrix<T> x(a.make(a.m.zero()), (int)w.size(), (int)w[0].size());
    for (size_t i = 0; i < w.size(); i++)
      for (size_t j = 0; j < w[i].size(); j++) x[(int)i][(int)j] = a.make(w[i][j]);
    return x;
  }
  V getv(const tvector<T> &x, const std::string &what) const {
    V v;
    for (int i = 0; i < x.get_num_elements(); i++) {
      try {
        v.push_back(a.get(x[i]));
      } catch (const pbt::Fail &f) {
        pbt::fail(what + ": element " + std::to_string(i) + ": " + f.msg);
      }
    }
    return v;
  }
  W get(const tmatrix<T> &x, const std::string &what) const {
    W w;
    for (int i = 0; i < x.get_num_rows(); i++) {
      w.push_back(getv(x[i], what + " row " + std::to_string(i)));
      if ((int)w.back().size() != x.get_num_cols())
        pbt::fail(what + ": row " + std::to_string(i) + " has " + std::to_string(w.back().size()) + " elements, not " +
             std::to_string(x.get_num_cols()));
    }
    return w;
  }
  bool eqv(const V &u, const V &v) const {
    if (u.size() != v.size()) return false;
    for (size_t i = 0; i < u.size(); i++)
      if (!a.m.eq(u[i], v[i])) return false;
    return true;
  }
  void checkv(pbt::Ctx &c, const tvector<T> &x, const V &v, const std::string &what) const {
    c.compared++;
    V got = getv(x, what);
    if (!eqv(got, v)) pbt::fail(what + " is " + sv(got) + ", not " + sv(v));
  }
  void check(pbt::Ctx &c, const tmatrix<T> &x, const W &w, const std::string &what) const {
    c.compared++;
    W got = get(x, what);
    if (!mm.eq(got, w)) pbt::fail(what + " is " + mm.show(got) + ", not " + mm.show(w));
  }
  V randv(pbt::Gen &g, size_t n) const {
    V v(n, a.m.zero());
    for (auto &x : v)
      if (!g.chance(1, 4)) x = a.m.random(g);
    return v;
  }
};
} // namespace bind
#endif

namespace bind {
// rationals small enough that elimination on a small matrix stays in range
struct QSmall : QQ {
  QSmall() : QQ((i128)1 << 30, true) {}
  E random(pbt::Gen &g) const { return frac(g.skewed_signed(5), 1 + (i64)g.below(2)); }
};
struct IntratSA {
  typedef QSmall M;
  typedef intrat_t T;
  static const int kind = FIELD;
  M m;
  IntratA b;
  T make(const M::E &e) const { return b.make(e); }
  M::E get(const T &x) const { return b.get(x); }
  std::string name() const { return "Q"; }
};
} // namespace bind
