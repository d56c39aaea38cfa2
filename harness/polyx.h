// Checks of the operations polynomial types have beyond a ring's.
#ifndef VERIF_POLYX_H
#define VERIF_POLYX_H
#include "history.h"

namespace bind {

template <class F> bool refuses(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

inline BitA coef_of(const F2PolyA &) { return BitA(); }
inline IntmodA coef_of(const FpPolyA &a) { return IntmodA(a.m.r.m); }
inline IntratA coef_of(const QPolyA &) { return IntratA(); }
inline F2PolymodA coef_of(const F2nPolyA &a) { return a.c; }
inline FpPolymodA coef_of(const FpnPolyA &a) { return a.c; }

inline u64 char_of(const F2PolyA &) { return 2; }
inline u64 char_of(const FpPolyA &a) { return a.m.r.m; }
inline u64 char_of(const QPolyA &) { return 0; }
inline u64 char_of(const F2nPolyA &) { return 2; }
inline u64 char_of(const FpnPolyA &a) { return a.c.p(); }

template <class A> struct PolyX {
  typedef typename A::T T;
  typedef typename A::M M;
  typedef typename M::E E;
  typedef typename M::C C;
  const A &a;
  pbt::Gen &g;
  pbt::Ctx &c;
  int maxdeg;
  PolyX(const A &aa, pbt::Gen &gg, pbt::Ctx &cc, int md) : a(aa), g(gg), c(cc), maxdeg(md) {}

  void same(const T &x, const E &e, const std::string &what) {
    E got;
    try {
      got = a.get(x);
    } catch (const pbt::Fail &f) {
      pbt::fail(what + " (should be " + a.m.show(e) + "): " + f.msg);
    }
    REQUIRE_(c, a.m.eq(got, e), what << " is " << a.m.show(got) << ", not " << a.m.show(e));
  }
  E any() {
    if (g.flip()) return a.m.random_deg(g, maxdeg);
    return a.m.random_deg(g, (int)g.skewed((u64)maxdeg + 1));
  }
  // Over Q: discard the pair when Euclid's intermediate values leave the domain.
  void bound_euclid(const E &u, const E &v) {
    if constexpr (std::is_same<A, QPolyA>::value) {
      E r0 = u, r1 = v, m0 = a.m.one(), m1, n0, n1 = a.m.one();
      while (!r1.empty()) {
        E q, r, t;
        a.m.divmod(r0, r1, q, r);
        a.m.mul(q, r1);
        r0 = r1;
        r1 = r;
        t = a.m.sub(m0, a.m.mul(q, m1));
        m0 = m1;
        m1 = t;
        t = a.m.sub(n0, a.m.mul(q, n1));
        n0 = n1;
        n1 = t;
      }
    }
  }

  // ---- division with remainder, gcd, extended gcd
  void euclid() {
    E u = any(), v = any();
    int style = (int)g.below(4);
    if (style == 1) { // a planted common factor
      E f = a.m.random_deg(g, (int)g.below((u64)maxdeg / 2 + 1));
      u = a.m.mul(u, f);
      v = a.m.mul(v, f);
    }
    if (style == 2) u = a.m.mul(u, v); // exact
    if (style == 3 && g.chance(1, 3)) v = E();
    bound_euclid(u, v);
    c.log << a.name() << ": u=" << a.m.show(u) << " v=" << a.m.show(v);
    T x = a.make(u), y = a.make(v);
    c.nontrivial = a.m.deg(u) >= 1 && a.m.deg(v) >= 1;
    E want = a.m.gcd(u, v);
    c.label(a.m.deg(want) > 0 ? "common factor" : "no common factor");
    T q(x), r(x);
    if (v.empty()) {
      REQUIRE_(c, refuses([&]() { x.quot_and_rem(y, q, r); }), "division by zero was not refused");
      T z(x);
      REQUIRE_(c, refuses([&]() { z /= y; }) && refuses([&]() { z %= y; }), "/= or %= zero was not refused");
      same(z, u, "the target of a refused division");
    } else {
      E mq, mr;
      a.m.divmod(u, v, mq, mr);
      x.quot_and_rem(y, q, r);
      same(q, mq, "quotient");
      same(r, mr, "remainder");
      if (g.chance(1, 4)) { // results put where an operand was
        T o(x), s(y);
        switch (g.below(4)) {
        case 0: o.quot_and_rem(y, o, r); same(o, mq, "quotient in place of the dividend"); break;
        case 1: o.quot_and_rem(y, q, o); same(o, mr, "remainder in place of the dividend"); break;
        case 2: x.quot_and_rem(s, s, r); same(s, mq, "quotient in place of the divisor"); break;
        default: x.quot_and_rem(s, q, s); same(s, mr, "remainder in place of the divisor"); break;
        }
      }
    }
    T d = x.gcd(y);
    if constexpr (requires { ::gcd(x, y); }) REQUIRE_(c, ::gcd(x, y) == d, "the gcd function and the member function differ");
    E got = a.get(d);
    REQUIRE_(c, a.m.eq(a.m.monic(got), want), "gcd is " << a.m.show(got) << ", not an associate of " << a.m.show(want));
    if (!v.empty() && !u.empty()) {
      T m(x), n(x);
      T e = x.ext_gcd(y, m, n);
      E ge = a.get(e), gm = a.get(m), gn = a.get(n);
      REQUIRE_(c, a.m.eq(a.m.monic(ge), want), "ext_gcd returns " << a.m.show(ge) << ", not an associate of " << a.m.show(want));
      E lin = a.m.add(a.m.mul(gm, u), a.m.mul(gn, v));
      REQUIRE_(c, a.m.eq(lin, ge), "ext_gcd: m*u + n*v is " << a.m.show(lin) << ", not " << a.m.show(ge)
                                                            << " (m=" << a.m.show(gm) << ", n=" << a.m.show(gn) << ")");
    }
    same(x, u, "the first operand afterwards");
    same(y, v, "the second operand afterwards");
  }

  // ---- coefficients
  void coefficients() {
    auto cf = coef_of(a);
    E e = any();
    T x = a.make(e);
    c.log << a.name() << ": " << a.m.show(e);
    int k = 1 + (int)g.below(8);
    for (int i = 0; i < k; i++) {
      int pos = (int)g.skewed((u64)maxdeg + 3);
      if (g.chance(1, 3) && !e.empty()) pos = (int)e.size() - 1;
      C v = g.chance(1, 3) ? a.m.r.zero() : a.m.r.random(g);
      c.log << "; [" << pos << "]=" << a.m.r.show(v);
      if (e.size() <= (size_t)pos) e.resize((size_t)pos + 1, a.m.r.zero());
      e[(size_t)pos] = v;
      a.m.trim(e);
      x.set_coeff(pos, cf.make(v));
      same(x, e, "after setting coefficient " + std::to_string(pos) + ", the value");
      REQUIRE_(c, x.find_degree() == std::max(0, a.m.deg(e)), "degree is " << x.find_degree());
      int at = (int)g.skewed((u64)maxdeg + 10);
      if constexpr (requires(const T &t) { t.get_coeff(0); })
        REQUIRE_(c, a.m.r.eq(cf.get(x.get_coeff(at)), a.m.at(e, (size_t)at)), "coefficient " << at);
      else
        REQUIRE_(c, (u64)x.bit_at(at) == a.m.at(e, (size_t)at), "coefficient " << at);
    }
    if constexpr (requires(const T &t) { t.get_coeff(0); }) {
      int neg = -1 - (int)g.skewed(100);
      REQUIRE_(c, refuses([&]() { x.get_coeff(neg); }), "coefficient " << neg << " was not refused");
      REQUIRE_(c, refuses([&]() { T y(x); y.set_coeff(neg, cf.make(a.m.r.one())); }), "setting coefficient " << neg << " was not refused");
    }
    C v = a.m.r.random(g);
    if constexpr (requires(T &t) { t.promote(); }) {
      if (!e.empty()) {
        T y(x);
        y.promote();
        same(y, a.m.mul(e, a.m.xpow(1)), "x times the value (promote)");
        y.promote_and_add(cf.make(v));
        same(y, a.m.add(a.m.mul(e, a.m.xpow(2)), a.m.constant(v)), "promote_and_add");
      }
    }
    // 1, 2, 3 coefficients, highest first
    C v1 = a.m.r.random(g), v2 = a.m.r.random(g);
    if (g.flip()) v2 = a.m.r.zero();
    if constexpr (std::is_same<A, F2PolyA>::value) {
      same(T((int)v), a.m.constant(v), "constant constructor");
      same(T((int)v1, (int)v), mk({v, v1}), "linear constructor");
      same(T((int)v2, (int)v1, (int)v), mk({v, v1, v2}), "quadratic constructor");
      T y(x);
      y = (int)v;
      same(y, a.m.constant(v), "assigning a bit");
    } else {
      same(T(cf.make(v)), a.m.constant(v), "constant constructor");
      same(T(cf.make(v1), cf.make(v)), mk({v, v1}), "linear constructor");
      same(T(cf.make(v2), cf.make(v1), cf.make(v)), mk({v, v1, v2}), "quadratic constructor");
    }
    if constexpr (std::is_same<A, FpPolyA>::value) {
      int p = (int)a.m.r.m;
      same(T((int)v, p), a.m.constant(v), "constant constructor from int");
      same(T((int)v1, (int)v, p), mk({v, v1}), "linear constructor from ints");
      same(T((int)v2, (int)v1, (int)v, p), mk({v, v1, v2}), "quadratic constructor from ints");
    }
    c.nontrivial = true;
  }
  E mk(std::initializer_list<C> l) {
    E e(l);
    a.m.trim(e);
    return e;
  }

  // ---- a coefficient as operand, integer comparisons, constants
  void scalars() {
    auto cf = coef_of(a);
    E e = any();
    T x = a.make(e);
    C s = a.m.r.random(g), si;
    c.log << a.name() << ": " << a.m.show(e) << " with scalar " << a.m.r.show(s);
    c.nontrivial = a.m.deg(e) >= 1 && !a.m.r.is_zero(s);
    auto cs = cf.make(s);
    if constexpr (requires(T t) { t += cs; t + cs; }) {
      if constexpr (!std::is_same<A, F2PolyA>::value) {
        same(x + cs, a.m.add(e, a.m.constant(s)), "f + c");
        same(x - cs, a.m.sub(e, a.m.constant(s)), "f - c");
        T y(x);
        y += cs;
        same(y, a.m.add(e, a.m.constant(s)), "f += c");
        y -= cs;
        same(y, e, "f += c -= c");
      }
    }
    if constexpr (std::is_same<A, F2PolyA>::value) {
      same(x * (int)s, a.m.scale(e, s), "f * bit");
      T y(x);
      y *= (int)s;
      same(y, a.m.scale(e, s), "f *= bit");
    } else {
      same(x * cs, a.m.scale(e, s), "f * c");
      T y(x);
      y *= cs;
      same(y, a.m.scale(e, s), "f *= c");
      if constexpr (std::is_same<A, FpnPolyA>::value) { // by an element of the prime field
        auto k = (i64)g.below(a.c.p());
        same(x * IntmodA(a.c.p()).make((u64)k), a.m.scale(e, a.m.r.of(k)), "f * element of the prime field");
      }
      if (a.m.r.inv(s, si)) {
        same(x / cs, a.m.scale(e, si), "f / c");
        T z(x);
        z /= cs;
        same(z, a.m.scale(e, si), "f /= c");
      } else {
        REQUIRE_(c, refuses([&]() { T z = x / cs; }), "f / " << a.m.r.show(s) << " was not refused");
        T z(x);
        REQUIRE_(c, refuses([&]() { z /= cs; }), "f /= " << a.m.r.show(s) << " was not refused");
        same(z, e, "the target of a refused f /= c");
      }
    }
    int v = (int)g.below(char_of(a) ? std::min<u64>(char_of(a), 1000) : 20);
    REQUIRE_(c, (x == v) == a.m.eq(e, a.m.of(v)), "f == " << v << " is " << (x == v));
    REQUIRE_(c, (x != v) == !a.m.eq(e, a.m.of(v)), "f != " << v << " is " << (x != v));
    int w = (int)g.skewed_signed(1000);
    if constexpr (requires(T t) { t.prime_subfield_element(w); }) {
      if (!std::is_same<A, QPolyA>::value) same(x.prime_subfield_element(w), a.m.of(w), "constant " + std::to_string(w));
    }
    if constexpr (requires(T t) { t.get_characteristic(); })
      REQUIRE_(c, (u64)x.get_characteristic() == char_of(a), "characteristic " << x.get_characteristic());
  }

  // ---- evaluation, derivative, powers
  void calculus(int evals) {
    auto cf = coef_of(a);
    E e = any();
    T x = a.make(e);
    c.log << a.name() << ": " << a.m.show(e);
    c.nontrivial = a.m.deg(e) >= 1;
    for (int i = 0; i < evals; i++) {
      C pt = a.m.r.random(g);
      c.log << " at " << a.m.r.show(pt);
      C want = a.m.eval(e, pt);
      C got = cf.get(x.eval(cf.make(pt)));
      REQUIRE_(c, a.m.r.eq(got, want), "value at " << a.m.r.show(pt) << " is " << a.m.r.show(got) << ", not " << a.m.r.show(want));
      if constexpr (std::is_same<A, F2PolyA>::value)
        REQUIRE_(c, (u64)x.eval((int)pt) == want, "integer evaluation at " << pt);
    }
    same(x.deriv(), a.m.deriv(e), "derivative");
    int p = (int)g.below(6);
    // exponents far beyond a few, where the value stays small enough
    if (g.chance(1, 3)) {
      if constexpr (std::is_same<A, QPolyA>::value) {
        bool small = e.size() <= 2;
        for (auto &v : e) small = small && v.d == 1 && v.n <= 1 && v.n >= -1;
        if (small) p = (int)g.below(24);
      }
      else if (e.size() <= 1) p = (int)g.skewed(INT32_MAX);
      else if (e.size() <= 4) p = (int)g.below(160 / e.size());
    }
    if (e.empty() && p == 0) {
      REQUIRE_(c, refuses([&]() { x.exp(0); }), "0^0 was not refused");
    } else {
      c.log << " ^" << p;
      E want = a.m.exp(e, (u64)p);
      same(x.exp(p), want, "power " + std::to_string(p));
    }
    if (char_of(a) > 60000) return; // inverses take the library time in proportion to the prime
    int neg = -1 - (int)(std::is_same<A, QPolyA>::value ? g.below(5) : g.skewed(INT32_MAX - 1));
    if (e.size() == 1) {
      E iv;
      a.m.unit_inverse(e, iv);
      same(x.exp(neg), a.m.exp(iv, (u64)-neg), "power " + std::to_string(neg) + " of a unit");
    } else
      REQUIRE_(c, refuses([&]() { x.exp(neg); }), "a negative power of a non-unit was not refused");
  }

  // ---- polynomials over different rings
  void mixed(const A &a2) {
    // no zero coefficients: whether an operation looks at them is its own affair
    E u = a.m.random_exact(g, (int)g.skewed((u64)maxdeg + 1)), v = a2.m.random_exact(g, (int)g.skewed((u64)maxdeg + 1));
    for (auto &k : u)
      if (a.m.r.is_zero(k)) k = a.m.r.one();
    for (auto &k : v)
      if (a2.m.r.is_zero(k)) k = a2.m.r.one();
    c.log << a.name() << " " << a.m.show(u) << " against " << a2.name() << " " << a2.m.show(v);
    c.nontrivial = u.size() > 1 && v.size() > 1;
    T x = a.make(u), y = a2.make(v), z(x);
    int op = (int)g.below(11);
    bool r = refuses([&]() {
      switch (op) {
      case 0: z = x + y; break;
      case 1: z = x - y; break;
      case 2: z = x * y; break;
      case 3: z += y; break;
      case 4: z -= y; break;
      case 5: z *= y; break;
      case 6: z = x / y; break;
      case 7: z = x % y; break;
      case 8: z /= y; break;
      case 9: z %= y; break;
      case 10: z = x.gcd(y); break;
      }
    });
    if (op >= 6 && u.size() < v.size()) c.label("quotient of a shorter polynomial"); // nothing is computed
    else REQUIRE_(c, r, "operation " << op << " on polynomials over different rings was not refused");
    if (r) same(z, u, "the target of a refused operation");
    bool eq = false;
    refuses([&]() { eq = x == y || !(x != y); }); // unequal or refused
    REQUIRE_(c, !eq, "polynomials over different rings are equal");
    same(x, u, "the first operand");
    E ev = a2.get(y);
    REQUIRE_(c, a2.m.eq(ev, v), "the second operand changed");
  }

  // ---- p-th roots
  void roots() {
    u64 p = char_of(a);
    E r = a.m.random_deg(g, maxdeg / (int)p);
    E e = a.m.exp(r, p);
    if (g.chance(1, 2)) { // disturb a coefficient
      size_t pos = (size_t)g.below((u64)maxdeg + 2);
      if (e.size() <= pos) e.resize(pos + 1, a.m.r.zero());
      e[pos] = a.m.r.random(g);
      a.m.trim(e);
    }
    c.log << a.name() << ": root of " << a.m.show(e);
    bool is = true;
    for (size_t i = 0; i < e.size(); i++)
      if (i % p && !a.m.r.is_zero(e[i])) is = false;
    c.nontrivial = a.m.deg(e) >= 1;
    c.label(is ? "a p-th power" : "not a p-th power");
    T x = a.make(e), y(x);
    bool got;
    if constexpr (requires(T t) { t.pth_root(y); }) got = x.pth_root(y);
    else got = x.square_root(y);
    REQUIRE_(c, got == is, "p-th power: says " << got);
    if (is) {
      E ry = a.get(y);
      E back = a.m.exp(ry, p);
      REQUIRE_(c, a.m.eq(back, e), "the root " << a.m.show(ry) << " to the power " << p << " is " << a.m.show(back));
    }
  }

  // ---- order and successor: numbers written in base q
  int rank_cmp(const E &u, const E &v) {
    if (u.size() != v.size()) return u.size() < v.size() ? -1 : 1;
    for (size_t i = u.size(); i-- > 0;) {
      int k = ccmp(u[i], v[i]);
      if (k) return k;
    }
    return 0;
  }
  static int ccmp(u64 s, u64 t) { return s < t ? -1 : s > t; }
  template <class V> static int ccmp(const std::vector<V> &s, const std::vector<V> &t) {
    if (s.size() != t.size()) return s.size() < t.size() ? -1 : 1;
    for (size_t i = s.size(); i-- > 0;) {
      int k = ccmp(s[i], t[i]);
      if (k) return k;
    }
    return 0;
  }
  void order() {
    E u = any(), v = any();
    if (g.flip()) { // differ in few places
      v = u;
      if (!v.empty()) v[(size_t)g.below(v.size())] = a.m.r.random(g);
      a.m.trim(v);
    }
    c.log << a.name() << ": compare " << a.m.show(u) << " and " << a.m.show(v);
    int k = rank_cmp(u, v);
    T x = a.make(u), y = a.make(v);
    REQUIRE_(c, (x < y) == (k < 0) && (x <= y) == (k <= 0) && (x > y) == (k > 0) && (x >= y) == (k >= 0) &&
            (x == y) == (k == 0) && (x != y) == (k != 0),
        "comparisons disagree with order " << k);
    c.nontrivial = u.size() >= 2 && v.size() >= 2;
    // successor
    u64 q = a.m.r.size();
    E s = u;
    if (g.flip())
      for (size_t i = 0, n = (size_t)g.below(s.size() + 1); i < n; i++) s[i] = a.m.r.element(q - 1);
    a.m.trim(s);
    T z = a.make(s);
    for (int n = 1 + (int)g.below(4); n > 0; n--) {
      size_t i = 0;
      for (;; i++) {
        if (i == s.size()) {
          s.push_back(a.m.r.element(1));
          break;
        }
        u64 idx = index_of(s[i]);
        if (idx + 1 < q) {
          s[i] = a.m.r.element(idx + 1);
          break;
        }
        s[i] = a.m.r.zero();
      }
      T old(z);
      z.increment();
      same(z, s, "successor");
      REQUIRE_(c, old < z, "the successor is not greater");
    }
  }
  u64 index_of(u64 v) { return v; }
  template <class V> u64 index_of(const std::vector<V> &v) {
    u64 q = a.m.r.p.r.size(), s = 0;
    for (size_t i = v.size(); i-- > 0;) s = s * q + v[i];
    return s;
  }
};

} // namespace bind
#endif
