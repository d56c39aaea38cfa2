// Checks of the operations residue rings of polynomials have beyond a ring's.
#ifndef VERIF_RESX_H
#define VERIF_RESX_H
#include "polyx.h"

namespace bind {
inline F2PolyA poly_of(const F2PolymodA &) { return F2PolyA(); }
inline FpPolyA poly_of(const FpPolymodA &a) { return FpPolyA(a.p()); }
template <class PA, class LT> PA poly_of(const TowerA<PA, LT> &a) { return a.p; }
inline u64 char_of(const F2PolymodA &) { return 2; }
inline u64 char_of(const FpPolymodA &a) { return a.p(); }
template <class PA, class LT> u64 char_of(const TowerA<PA, LT> &a) { return char_of(a.p); }

template <class A> struct ResX {
  typedef typename A::T T;
  typedef typename A::M M;
  typedef typename M::E E;
  const A &a;
  pbt::Gen &g;
  pbt::Ctx &c;
  ResX(const A &aa, pbt::Gen &gg, pbt::Ctx &cc) : a(aa), g(gg), c(cc) {}
  void same(const T &x, const E &e, const std::string &what) {
    E got;
    try {
      got = a.get(x);
    } catch (const pbt::Fail &f) {
      pbt::fail(what + " (should be " + a.m.show(e) + "): " + f.msg);
    }
    REQUIRE_(c, a.m.eq(got, e), what << " is " << a.m.show(got) << ", not " << a.m.show(e));
  }
  // reduction of representatives of any degree, scalars, comparisons with integers
  void basics() {
    auto pa = poly_of(a);
    int n = a.m.n();
    E u = a.m.p.random_deg(g, 3 * n + 3);
    if (g.chance(1, 4)) { // a multiple of the modulus, plus little
      u = a.m.p.mul(a.m.m, a.m.p.random_deg(g, n));
      if (g.flip()) u = a.m.p.add(u, a.m.p.random_deg(g, 0));
    }
    c.log << a.name() << ": representative " << a.m.p.show(u);
    E e = a.m.red(u);
    c.nontrivial = a.m.p.deg(u) >= n;
    T x(pa.make(u), a.lm);
    same(x, e, "the residue");
    int k = (int)g.skewed_signed(1 << 30);
    c.log << ", integer " << k;
    E ke = a.m.of(k);
    same(x * k, a.m.mul(e, ke), "x * " + std::to_string(k));
    T y(x);
    y *= k;
    same(y, a.m.mul(e, ke), "x *= " + std::to_string(k));
    same(x.prime_subfield_element(k), ke, "constant " + std::to_string(k));
    same(T::prime_subfield_element(k, a.lm), ke, "constant " + std::to_string(k) + " (static)");
    REQUIRE_(c, (u64)x.get_characteristic() == char_of(a), "characteristic " << x.get_characteristic());
    int v = (int)g.below(std::min<u64>(char_of(a), 1000));
    REQUIRE_(c, (x == v) == a.m.eq(e, a.m.of(v)), "x == " << v << " is " << (x == v));
    REQUIRE_(c, (x != v) == !a.m.eq(e, a.m.of(v)), "x != " << v << " is " << (x != v));
    if constexpr (std::is_same<A, FpPolymodA>::value) {
      intmod_t s((int)v, (int)a.p());
      same(x * s, a.m.mul(e, a.m.of(v)), "x * scalar");
      y = x;
      y *= s;
      same(y, a.m.mul(e, a.m.of(v)), "x *= scalar");
    }
    if constexpr (std::is_same<A, F2PolymodA>::value) {
      PZn::E m2 = a.m.p.random_monic(g, 1 + (int)g.below((u64)n + 3));
      y = x;
      y.change_modulus(pa.make(m2));
      REQUIRE_(c, a.m.p.eq(F2PolyA::model(y.get_modulus()), m2), "changed modulus");
      REQUIRE_(c, a.m.p.eq(F2PolyA::model(y.get_residue()), a.m.p.rem(e, m2)), "residue after changing the modulus");
    }
    same(x, e, "the operand afterwards");
  }
  void inverse() {
    E e = a.m.random(g), iv;
    if (g.chance(1, 3)) { // a multiple of some factor of the modulus, if it has one of low degree
      E f = a.m.p.random_monic(g, 1);
      e = a.m.mul(e, f);
    }
    c.log << a.name() << ": 1/" << a.m.show(e);
    bool inv = a.m.inv(e, iv);
    c.label(inv ? "invertible" : e.empty() ? "zero" : "zero divisor");
    c.nontrivial = e.size() >= 2;
    T x = a.make(e), y(x);
    bool got = x.recip(y);
    REQUIRE_(c, got == inv, "recip says " << got);
    E u = a.m.random(g);
    T z = a.make(u);
    if (inv) {
      same(y, iv, "the inverse");
      same(z / x, a.m.mul(u, iv), "quotient");
      same(z % x, a.m.zero(), "remainder");
    } else {
      REQUIRE_(c, refuses([&]() { T w = z / x; }), "division was not refused");
      REQUIRE_(c, refuses([&]() { T w = z % x; }), "remainder was not refused");
      T w(z);
      REQUIRE_(c, refuses([&]() { w /= x; }) && refuses([&]() { w %= x; }), "/= or %= was not refused");
      same(w, u, "the target of a refused division");
    }
  }
  void power() {
    E e = a.m.random(g), b = e, iv;
    i64 k = (i64)g.skewed(2147483647);
    if (g.flip()) k = -k;
    c.log << a.name() << ": " << a.m.show(e) << "^" << k;
    c.nontrivial = e.size() >= 2 && iabs(k) >= 2;
    T x = a.make(e);
    if ((a.m.is_zero(e) && k <= 0) || (k < 0 && !a.m.inv(e, b))) {
      REQUIRE_(c, refuses([&]() { x.exp((int)k); }), "the power was not refused");
      return;
    }
    same(x.exp((int)k), a.m.exp(b, (u64)iabs(k)), "the power");
  }
  // operands of different moduli
  void mixed(const A &a2) {
    T x = a.make(a.m.random(g)), y = a2.make(a2.m.random(g));
    c.log << a.name() << " against " << a2.name();
    c.nontrivial = true;
    int op = (int)g.below(13);
    E ex = a.get(x), ey = a2.get(y);
    T z(x);
    bool r = refuses([&]() {
      switch (op) {
      case 0: z = x + y; break;
      case 1: z = x - y; break;
      case 2: z = x * y; break;
      case 3: z = x / y; break;
      case 4: z += y; break;
      case 5: z -= y; break;
      case 6: z *= y; break;
      case 7: (void)(x < y); break;
      case 8: z /= y; break;
      case 9: (void)(x > y); break;
      case 10: (void)(x <= y); break;
      case 11: (void)(x >= y); break;
      case 12: z = x % y; break;
      }
    });
    REQUIRE_(c, r, "operation " << op << " on residues of different moduli was not refused");
    same(x, ex, "the first operand of a refused operation");
    same(z, ex, "the target of a refused operation");
    REQUIRE_(c, a2.m.eq(a2.get(y), ey), "the second operand of a refused operation changed");
    REQUIRE_(c, x != y && !(x == y), "residues of different moduli are equal");
  }
};
} // namespace bind
#endif
