// Results depend on the arguments alone: calls from a small pool of arguments,
// so that consecutive calls often differ in one of them, repeated in a random
// order; every call must give one text however often and after whatever it is
// made.  The calls are values: the arguments are built once and passed anew.
#include "pure.h"
#include "spffl/intmath/int_gcd.h"
namespace spffl::polynomials { class f2_poly_t; class fp_poly_t; class f2n_poly_t; }
spffl::polynomials::f2_poly_t gcd(const spffl::polynomials::f2_poly_t &a, const spffl::polynomials::f2_poly_t &b);
spffl::polynomials::fp_poly_t gcd(const spffl::polynomials::fp_poly_t &a, const spffl::polynomials::fp_poly_t &b);
spffl::polynomials::f2n_poly_t gcd(const spffl::polynomials::f2n_poly_t &a, const spffl::polynomials::f2n_poly_t &b);
#include "facx.h"
#include "resx.h"
#include "tmatx.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log2.h"
#include "spffl/intmath/log10.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/list/list_elements.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
#include <cmath>
#include <map>

namespace pure {
using namespace bind;
using pbt::Gen;
using pbt::Ctx;
namespace sl = spffl::linalg;
namespace su = spffl::units;
namespace qc = spffl::q_cyclotomic;
namespace im = spffl::intmath;
namespace li = spffl::list;

inline std::string T_(bool b) { return b ? "yes" : "no"; }
inline std::string T_(int i) { return std::to_string(i); }
template <class X> std::string T_(const X &x) { return text_of(x); }

// what a call was given by reference stays as it was
template <class X> std::string kept(const X &now, const X &before, const std::string &result) {
  if (!(now == before)) pbt::fail("the argument " + text_of(before) + " became " + text_of(now));
  return result;
}
struct Call {
  std::string what;
  std::function<std::string()> f;
};
template <class F> Call call(const std::string &what, F f) {
  return Call{what, [f]() -> std::string {
    try {
      return f();
    } catch (const std::exception &) {
      return "refused";
    }
  }};
}

// The arguments of one case
struct World {
  Gen &g;
  PZn P2{Zn{2}};
  std::vector<int> ints, ns, primes, odd;
  std::vector<F2PolymodA> f2;      // fields of characteristic two, mostly of one degree
  std::vector<FpPolymodA> fp;      // fields of odd characteristic
  std::vector<F2nPolymodA> tow;    // fields over the first two of f2
  std::vector<PZn::E> f2el;        // representatives
  std::vector<F2PolymodA> f2ring;  // rings, not fields
  explicit World(Gen &gg) : g(gg) {
    for (int i = 0; i < 4; i++) ints.push_back((int)g.skewed_signed(g.flip() ? 40 : 2147483647));
    for (int i = 0; i < 3; i++) ns.push_back(1 + (int)g.skewed(120));
    int a = 3 + (int)g.below(40), b = 3 + (int)g.below(40);
    while (!is_prime((u64)a)) a++;
    while (!is_prime((u64)b)) b++;
    odd = {a, b};
    primes = {a, b, 2};
    int d = 2 + (int)g.below(4);
    for (int i = 0; i < 3; i++) f2.emplace_back(P2.random_irreducible(g, d));
    f2.emplace_back(P2.random_irreducible(g, 1 + (int)g.below(6)));
    for (int i = 0; i < 2; i++) f2ring.emplace_back(P2.random_monic(g, d));
    for (int i = 0; i < 3; i++) fp.emplace_back((u64)odd[(size_t)(i == 2)], PZn{Zn{(u64)odd[(size_t)(i == 2)]}}.random_irreducible(g, 1 + (int)g.below(2) + (i < 2)));
    for (int i = 0; i < 3; i++) {
      F2nPolyA pa(f2[(size_t)(i == 2)].m.m);
      tow.emplace_back(pa, pa.m.random_irreducible(g, 1 + (int)g.below(2)));
    }
    for (int i = 0; i < 3; i++) f2el.push_back(P2.random_deg(g, d + 1));
  }
  int anint() { return g.pick(ints); }
  int n() { return g.pick(ns); }
  const F2PolymodA &field() { return g.pick(f2); }
  const F2PolymodA &ring2() { return g.chance(1, 3) ? g.pick(f2ring) : g.pick(f2); }
  f2_polymod_t el(const F2PolymodA &a) { return f2_polymod_t(F2PolyA::lib(g.pick(f2el)), a.lm); }
  fp_polymod_t el(const FpPolymodA &a) { return a.make(a.m.element(g.below(3) ? g.below(9) : 1)); }
  F2nPolymodA::T el(const F2nPolymodA &a) {
    auto e = a.m.p.random_deg(g, a.m.n() - 1);
    return a.make(a.m.red(e));
  }
  f2_poly_t poly2() { return F2PolyA::lib(g.flip() ? g.pick(f2el) : g.pick(f2).m.m); }
  std::string sh(const f2_polymod_t &x) { return text_of(x) + " mod " + text_of(x.get_modulus()); }
  std::string sh(const fp_polymod_t &x) { return text_of(x) + " mod " + text_of(x.get_modulus()) + " char " + std::to_string(x.get_characteristic()); }
  std::string sh(const f2n_poly_t &x) { return text_of(x) + " over " + text_of(x.get_coeff(0).get_modulus()); }
  std::string sh(const f2n_polymod_t &x) { return text_of(x) + " mod " + sh(x.get_modulus()); }
};

typedef std::function<Call(World &)> Maker;
struct Op {
  std::string tag; // the property it belongs to
  Maker make;
};

// a generator of the field, any of the conjugates and others
static f2_polymod_t generator(World &w, const F2PolymodA &a) {
  f2_polymod_t g;
  su::f2_polymod_find_generator(a.lm, g);
  int n = (int)a.m.size() - 1;
  int k = n > 1 ? 1 + (int)w.g.below(6) : 1;
  while (im::int_gcd(k, n) != 1) k++;
  return g.exp(k);
}

template <class A> tmatrix<typename A::T> matrix(World &w, const A &a, int n, int m) {
  TM<A> t(a);
  auto e = t.mm.make((size_t)n, (size_t)m);
  for (auto &r : e)
    for (auto &x : r) x = a.m.random(w.g);
  return t.mk(e);
}
template <class L> std::string lists(const L &v) { return text_of(v); }

static const std::vector<Op> &ops() {
  static std::vector<Op> v;
  if (!v.empty()) return v;
  auto add = [&](const char *tag, Maker m) { v.push_back(Op{tag, m}); };
#define CALL1(TAG, NAME, ARG, EXPR) \
  add(TAG, [](World &w) { auto a = ARG; return call(std::string(NAME) + "(" + T_(a) + ")", [a]() { return T_(EXPR); }); })
#define CALL2(TAG, NAME, ARG1, ARG2, EXPR) \
  add(TAG, [](World &w) { auto a = ARG1; auto b = ARG2; return call(std::string(NAME) + "(" + T_(a) + ", " + T_(b) + ")", [a, b]() { return T_(EXPR); }); })
  // ---- integers
  CALL2("C01", "gcd", w.anint(), w.anint(), im::int_gcd(a, b));
  CALL2("C01", "ext_gcd", w.anint(), w.anint(), ([&]() { int m, n, d = im::int_ext_gcd(a, b, m, n); return T_(d) + " " + T_(m) + " " + T_(n); })());
  CALL2("C01", "lcm", w.n(), w.n(), im::int_lcm(a, b));
  CALL2("C01", "power", (int)w.g.below(7), (int)w.g.below(9), im::int_power(a, b));
  CALL1("C01", "sqrt_floor", std::abs(w.anint() / 2), im::int_sqrt_floor(a));
  CALL1("C01", "sqrt_ceil", std::abs(w.anint() / 2), im::int_sqrt_ceil(a));
  CALL1("C01", "totient", w.n(), im::int_totient(a));
  CALL1("C01", "is_prime", w.n(), im::is_prime(a));
  CALL1("C01", "nth_prime", w.n(), im::nth_prime(a));
  CALL1("C01", "factor", w.anint(), sf::int_factor(a));
  CALL1("C01", "log2", w.n(), (int)im::calc_log2_unsigned_floor((unsigned)a));
  CALL1("C01", "log10", w.n(), (int)im::calc_log10_unsigned_floor((unsigned)a));
  // ---- residues
  auto residue = [](World &w) {
    int m = w.g.flip() ? w.g.pick(w.primes) : 1 + w.n();
    return intmod_t((int)w.g.below((u64)std::min(m, 12)), m);
  };
  add("C02", [residue](World &w) {
    auto x = residue(w);
    return call("1/" + T_(x) + " mod " + T_(x.get_modulus()), [x]() { intmod_t r; return x.recip(r) ? T_(r) : std::string("none"); });
  });
  add("C02", [residue](World &w) {
    auto x = residue(w);
    int e = (int)w.g.skewed_signed(50);
    return call(T_(x) + "^" + T_(e) + " mod " + T_(x.get_modulus()), [x, e]() { return T_(x.exp(e)); });
  });
  add("C02", [residue](World &w) {
    auto x = residue(w);
    int k = (int)w.g.below(12);
    return call(T_(x) + " and " + T_(k) + " mod " + T_(x.get_modulus()), [x, k]() {
      intmod_t y(k, x.get_modulus());
      std::string s = T_(x + y) + " " + T_(x * y) + " " + T_(x - y);
      return s + " " + T_(x / y);
    });
  });
  // ---- orders, generators, logarithms
  add("C13", [residue](World &w) {
    auto x = residue(w);
    return call("order of " + T_(x) + " mod " + T_(x.get_modulus()), [x]() { return T_(su::fp_order(x)); });
  });
  add("C13", [](World &w) {
    int p = w.g.flip() ? w.g.pick(w.primes) : 2 + w.n();
    return call("generator mod " + T_(p), [p]() { intmod_t g; return su::fp_find_generator(p, g) ? T_(g) : std::string("none"); });
  });
  add("C13", [](World &w) {
    auto x = w.el(w.ring2());
    return call("order of " + w.sh(x), [x]() { return T_(su::f2_polymod_order(x)); });
  });
  add("C13", [](World &w) {
    auto x = w.el(w.g.pick(w.tow));
    return call("order of " + w.sh(x), [x]() { return T_(su::f2n_polymod_order(x)); });
  });
  add("C13", [](World &w) {
    auto m = w.field().lm;
    return call("generator mod " + T_(m), [m]() { f2_polymod_t g; return su::f2_polymod_find_generator(m, g) ? T_(g) : std::string("none"); });
  });
  add("C13", [](World &w) {
    auto m = w.g.pick(w.tow).lm;
    return call("generator mod " + w.sh(m), [m]() { f2n_polymod_t g; return su::f2n_polymod_find_generator(m, g) ? T_(g) : std::string("none"); });
  });
  CALL1("C13", "period", w.ring2().lm, su::f2_poly_period(a));
  CALL1("C13", "primitive?", w.ring2().lm, su::f2_poly_is_primitive(a));
  CALL2("C13", "find_prim", 1 + (int)w.g.below(7), (int)w.g.below(2), su::f2_poly_find_prim(a, b));
  add("C14", [](World &w) {
    int p = w.g.pick(w.primes);
    intmod_t b(1 + (int)w.g.below((u64)p - 1), p), x((int)w.g.below((u64)p), p);
    return call("log_" + T_(b) + " " + T_(x) + " mod " + T_(p), [b, x]() { return T_(su::fp_log(b, x)); });
  });
  add("C14", [](World &w) {
    auto &a = w.field();
    auto b = w.el(a), x = w.el(a);
    return call("log_" + T_(b) + " " + w.sh(x), [b, x]() { return T_(su::f2_polymod_log(b, x)); });
  });
  add("C14", [](World &w) {
    auto &a = w.g.pick(w.tow);
    auto b = w.el(a), x = w.el(a);
    return call("log_" + T_(b) + " " + w.sh(x), [b, x]() { return T_(su::f2n_polymod_log(b, x)); });
  });
  // ---- polynomials
  CALL2("C04", "f2 gcd", w.poly2(), w.poly2(), a.gcd(b));
  CALL2("C04", "f2 quotient", w.poly2(), w.poly2(), a / b);
  CALL2("C04", "f2 remainder", w.poly2(), w.poly2(), a % b);
  CALL2("C04", "f2 ext_gcd", w.poly2(), w.poly2(), ([&]() { f2_poly_t m, n; auto d = a.ext_gcd(b, m, n); return T_(d) + " " + T_(m) + " " + T_(n); })());
  CALL1("C04", "f2 derivative", w.poly2(), a.deriv());
  CALL2("C04", "f2 power", w.poly2(), (int)w.g.below(6), a.exp(b));
  add("C05", [](World &w) {
    u64 p = (u64)w.g.pick(w.primes);
    PZn P{Zn{p}};
    auto x = FpPolyA::lib(P.element(w.g.below(30)), p), y = FpPolyA::lib(P.element(w.g.below(30)), p);
    int k = (int)w.g.below(7);
    return call("operation " + T_(k) + " on " + T_(x) + ", " + T_(y) + " mod " + T_((int)p), [x, y, k]() {
      fp_poly_t m, n;
      switch (k) {
      case 0: return T_(x / y);
      case 1: return T_(x % y);
      case 2: return T_(x.gcd(y));
      case 3: return T_(x.ext_gcd(y, m, n)) + " " + T_(m) + " " + T_(n);
      case 4: return T_(x.deriv());
      case 5: return T_(x * y);
      default: return T_(x < y);
      }
    });
  });
  add("C06", [](World &w) {
    F2nPolyA pa(w.field().m.m);
    auto x = pa.make(pa.m.element(w.g.below(60))), y = pa.make(pa.m.element(w.g.below(60)));
    int k = (int)w.g.below(6);
    return call("operation " + T_(k) + " on " + T_(x) + ", " + T_(y) + " over " + T_(pa.c.lm), [x, y, k]() {
      switch (k) {
      case 0: return T_(x / y);
      case 1: return T_(x % y);
      case 2: return T_(x.gcd(y));
      case 3: return T_(x.deriv());
      case 4: return T_(x * y);
      default: return T_(x < y);
      }
    });
  });
  add("C06", [](World &w) {
    auto &c = w.g.pick(w.fp);
    FpnPolyA pa(c.p(), c.m.m);
    auto x = pa.make(pa.m.element(w.g.below(60))), y = pa.make(pa.m.element(w.g.below(60)));
    int k = (int)w.g.below(5);
    return call("operation " + T_(k) + " on " + T_(x) + ", " + T_(y) + " over " + T_(pa.c.lm) + " char " + T_((int)c.p()), [x, y, k]() {
      switch (k) {
      case 0: return T_(x / y);
      case 1: return T_(x % y);
      case 2: return T_(x.gcd(y));
      case 3: return T_(x.deriv());
      default: return T_(x * y);
      }
    });
  });
  // ---- polynomial residues
  add("C08", [](World &w) {
    auto &a = w.ring2();
    auto x = w.el(a), y = w.el(a);
    int e = (int)w.g.skewed_signed(20), k = (int)w.g.below(4);
    return call("operation " + T_(k) + " on " + w.sh(x) + ", " + T_(y) + ", " + T_(e), [x, y, e, k]() {
      f2_polymod_t r;
      return k == 0 ? T_(x.exp(e)) : k == 1 ? T_(x / y) : k == 2 ? T_(x * y) : x.recip(r) ? T_(r) : std::string("none");
    });
  });
  add("C08", [](World &w) {
    auto &a = w.g.pick(w.fp);
    auto x = w.el(a), y = w.el(a);
    int e = (int)w.g.skewed_signed(20), k = (int)w.g.below(4);
    return call("operation " + T_(k) + " on " + w.sh(x) + ", " + T_(y) + ", " + T_(e), [x, y, e, k]() {
      fp_polymod_t r;
      return k == 0 ? T_(x.exp(e)) : k == 1 ? T_(x / y) : k == 2 ? T_(x * y) : x.recip(r) ? T_(r) : std::string("none");
    });
  });
  add("C09", [](World &w) {
    auto &a = w.g.pick(w.tow);
    auto x = w.el(a), y = w.el(a);
    int e = (int)w.g.skewed_signed(20), k = (int)w.g.below(4);
    return call("operation " + T_(k) + " on " + w.sh(x) + ", " + T_(y) + ", " + T_(e), [x, y, e, k]() {
      f2n_polymod_t r;
      return k == 0 ? T_(x.exp(e)) : k == 1 ? T_(x / y) : k == 2 ? T_(x * y) : x.recip(r) ? T_(r) : std::string("none");
    });
  });
  // ---- factorization
  CALL1("C11", "f2 factor", w.poly2(), sf::f2_poly_factor(a));
  CALL1("C11", "f2 irreducible?", w.poly2(), sf::f2_poly_is_irreducible(a));
  CALL1("C11", "f2 find_irr", 1 + (int)w.g.below(9), sf::f2_poly_find_irreducible(a));
  CALL2("C11", "fp find_irr", w.g.pick(w.primes), 1 + (int)w.g.below(3), sf::fp_poly_find_irr(a, b));
  CALL2("C11", "f2n find_irr", w.field().lm, 1 + (int)w.g.below(2), sf::f2n_poly_find_irr(a, b));
  add("C11", [](World &w) {
    u64 p = (u64)w.g.pick(w.primes);
    auto x = FpPolyA::lib(PZn{Zn{p}}.element(p + w.g.below(60)), p);
    int k = (int)w.g.below(2);
    return call((k ? "factors of " : "irreducible? ") + T_(x) + " mod " + T_((int)p), [x, k]() { return k ? T_(sf::fp_poly_factor(x)) : T_(sf::fp_poly_is_irreducible(x)); });
  });
  add("C11", [](World &w) {
    F2nPolyA pa(w.field().m.m);
    auto x = pa.make(pa.m.element(pa.m.r.size() + w.g.below(200)));
    int k = (int)w.g.below(3);
    return call("operation " + T_(k) + " on " + T_(x) + " over " + T_(pa.c.lm), [x, k]() {
      tvector<f2_polymod_t> r;
      return k == 0 ? T_(sf::f2n_poly_factor(x)) : k == 1 ? T_(sf::f2n_poly_is_irreducible(x)) : sf::f2n_poly_roots(x, r) ? T_(r) : std::string("none");
    });
  });
  CALL1("C12", "f2 totient", w.poly2(), sf::f2_poly_totient(a));
  CALL1("C12", "divisors", w.n(), sf::int_factor(a).get_all_divisors(1));
  add("C12", [](World &w) {
    u64 p = (u64)w.g.pick(w.primes);
    auto x = FpPolyA::lib(PZn{Zn{p}}.element(p + w.g.below(60)), p);
    return call("totient of " + T_(x) + " mod " + T_((int)p), [x]() { return T_(sf::fp_poly_totient(x)); });
  });
  add("C12", [](World &w) {
    F2nPolyA pa(w.field().m.m);
    auto x = pa.make(pa.m.element(pa.m.r.size() + w.g.below(200)));
    return call("totient of " + T_(x) + " over " + T_(pa.c.lm), [x]() { return T_(sf::f2n_poly_totient(x)); });
  });
  // ---- linear algebra
  add("C17", [](World &w) {
    auto x = matrix(w, IntmodA((u64)w.g.pick(w.primes)), 2, 2);
    int k = (int)w.g.below(4);
    return call("operation " + T_(k) + " on\n" + T_(x) + "mod " + T_(x[0][0].get_modulus()), [x, k]() {
      tmatrix<intmod_t> r;
      auto y = x;
      int p = x[0][0].get_modulus();
      switch (k) {
      case 0: return T_(y.det());
      case 1: return y.inverse(r) ? T_(r) : std::string("none");
      case 2: return T_(y.get_rank());
      default: return y.get_kernel_basis(r, intmod_t(0, p), intmod_t(1, p)) ? T_(r) : std::string("none");
      }
    });
  });
  add("C17", [](World &w) {
    auto &a = w.field();
    auto x = matrix(w, a, 2, 2);
    int k = (int)w.g.below(4);
    return call("operation " + T_(k) + " on\n" + T_(x) + "mod " + T_(a.lm), [x, k]() {
      tmatrix<f2_polymod_t> r;
      auto y = x;
      switch (k) {
      case 0: return T_(y.det());
      case 1: return y.inverse(r) ? T_(r) : std::string("none");
      case 2: return T_(y.get_rank());
      default: return y.exp(3, r) ? T_(r) : std::string("none");
      }
    });
  });
  add("C19", [](World &w) {
    auto x = matrix(w, BitA(), 3, 3);
    return call("characteristic polynomial of\n" + T_(x), [x]() { auto y = x; return kept(y, x, T_(sl::f2_char_poly(y))); });
  });
  add("C19", [](World &w) {
    auto x = matrix(w, IntmodA((u64)w.g.pick(w.odd)), 2, 2);
    return call("characteristic polynomial of\n" + T_(x) + "mod " + T_(x[0][0].get_modulus()), [x]() { auto y = x; return kept(y, x, T_(sl::fp_char_poly(y))); });
  });
  add("C19", [](World &w) {
    auto &a = w.field();
    auto x = matrix(w, a, 2, 2);
    int k = a.m.n() > 3 ? 0 : (int)w.g.below(2);
    return call((k ? "eigenvalues of\n" : "characteristic polynomial of\n") + T_(x) + "mod " + T_(a.lm), [x, k]() {
      auto y = x;
      if (!k) return kept(y, x, T_(sl::f2_polymod_characteristic_polynomial(y)));
      f2_poly_t m;
      tvector<f2_polymod_t> ev;
      return kept(y, x, sl::f2_polymod_matrix_is_diagonalizable(y, m, ev) ? T_(m) + ": " + T_(ev) : std::string("none"));
    });
  });
  add("C19", [](World &w) {
    auto x = w.el(w.field());
    int k = (int)w.g.below(5);
    return call("polynomial " + T_(k) + " of " + w.sh(x), [x, k]() {
      switch (k) {
      case 0: return T_(sl::f2_polymod_minimal_polynomial(x));
      case 1: return T_(sl::f2_polymod_characteristic_polynomial(x));
      case 2: return T_(sl::f2_polymod_min_poly(x));
      case 3: return T_(sl::f2_polymod_char_poly(x));
      default: return T_(sl::f2_polymod_frobenius_length(x));
      }
    });
  });
  add("C19", [](World &w) {
    auto x = w.el(w.g.pick(w.fp));
    int k = (int)w.g.below(3);
    return call("polynomial " + T_(k) + " of " + w.sh(x), [x, k]() {
      switch (k) {
      case 0: return T_(sl::fp_polymod_minimal_polynomial(x));
      case 1: return T_(sl::fp_polymod_characteristic_polynomial(x));
      default: return T_(sl::fp_polymod_frobenius_length(x));
      }
    });
  });
  add("C19", [](World &w) {
    auto x = w.el(w.g.pick(w.tow));
    int k = (int)w.g.below(3);
    return call("polynomial " + T_(k) + " of " + w.sh(x), [x, k]() {
      switch (k) {
      case 0: return T_(sl::f2npm_min_poly(x));
      case 1: return T_(sl::f2npm_char_poly(x));
      default: return T_(sl::f2npm_froblen(x));
      }
    });
  });
  // ---- conversion
  add("C20", [](World &w) {
    auto &a = w.f2[0];
    auto &b = w.f2[1 + (size_t)w.g.below(2)];
    auto g1 = generator(w, a);
    auto m2 = b.lm;
    return call("image of " + w.sh(g1) + " mod " + T_(m2), [g1, m2]() { f2_polymod_t r; return sl::f2_polymod_convert_prep(g1, m2, r) ? T_(r) : std::string("none"); });
  });
  for (int kind = 0; kind < 3; kind++)
    add("C20", [kind](World &w) {
      auto &a = w.f2[(size_t)w.g.below(2)];
      auto &b = w.f2[1 + (size_t)w.g.below(2)];
      auto g1 = generator(w, a), g2 = g1;
      if (!sl::f2_polymod_convert_prep(g1, b.lm, g2)) throw pbt::Discard();
      if (kind == 0) {
        auto x = w.el(a);
        return call("conversion of " + w.sh(x) + " by " + T_(g1) + " -> " + w.sh(g2), [g1, g2, x]() { return T_(sl::f2_polymod_convert_scalar(g1, g2, x)); });
      }
      if (kind == 1) {
        f2n_poly_t x(w.el(a), w.el(a));
        return call("conversion of " + T_(x) + " mod " + T_(a.lm) + " by " + T_(g1) + " -> " + w.sh(g2), [g1, g2, x]() { return T_(sl::f2_polymod_convert_poly(g1, g2, x)); });
      }
      tmatrix<f2_polymod_t> x(w.el(a), 1, 2);
      x[0][1] = w.el(a);
      return call("conversion of " + T_(x) + " mod " + T_(a.lm) + " by " + T_(g1) + " -> " + w.sh(g2), [g1, g2, x]() { return T_(sl::f2_polymod_convert_matrix(g1, g2, x)); });
    });
  // ---- lists
  static const li::sp_list_type_t kinds[] = {li::SP_LIST_ALL, li::SP_LIST_UNITS, li::SP_LIST_NON_UNITS};
  static const li::sp_list_type_t gkinds[] = {li::SP_LIST_MULTIPLES, li::SP_LIST_REL_PRIME};
  CALL1("C21", "f2 polynomials", (int)w.g.below(4), li::f2_poly_list(a));
  CALL2("C21", "fp polynomials", w.g.pick(w.primes) % 8 + 2 == 8 ? 7 : std::min(w.g.pick(w.primes), 5) | 1, (int)w.g.below(3), li::fp_poly_list(a, b));
  CALL2("C21", "f2n polynomials", w.field().lm, (int)w.g.below(2), li::f2n_poly_list(a, b));
  CALL2("C21", "residues", 1 + w.n(), (int)w.g.below(3), li::intmod_list(a, kinds[b]));
  CALL2("C21", "f2 residues", w.ring2().lm, (int)w.g.below(3), li::f2_polymod_list(a, kinds[b]));
  CALL2("C21", "f2 tuples", w.field().lm, 1 + (int)w.g.below(2), li::f2_polymod_An_list(a, b));
  CALL2("C21", "f2 points", w.field().lm, 1 + (int)w.g.below(2), li::f2_polymod_Pn_list(a, b));
  add("C21", [](World &w) {
    auto x = w.el(w.ring2());
    int k = (int)w.g.below(2);
    return call("list " + T_(k) + " of " + w.sh(x), [x, k]() { return T_(li::f2_polymod_glist(x, gkinds[k])); });
  });
  add("C21", [residue](World &w) {
    auto x = residue(w);
    int k = (int)w.g.below(2);
    return call("list " + T_(k) + " of " + T_(x) + " mod " + T_(x.get_modulus()), [x, k]() { return T_(li::intmod_glist(x, gkinds[k])); });
  });
  add("C21", [](World &w) {
    auto m = w.g.pick(w.fp).lm;
    int k = (int)w.g.below(3), p = m.get_characteristic();
    if (std::pow((double)p, m.find_degree()) > 600) throw pbt::Discard();
    return call("list " + T_(k) + " mod " + T_(m) + " char " + T_(p), [m, k]() { return T_(li::fp_polymod_list(m, kinds[k])); });
  });
  // ---- cyclotomic
  CALL1("C23", "cyclotomic over Q", w.n(), qc::get_cyclo_qpoly(a));
  CALL1("C23", "cyclotomic over F2", w.n(), qc::get_cyclo_f2_poly(a));
  CALL2("C23", "cyclotomic over Fp", w.n(), w.g.pick(w.primes), qc::get_cyclo_fp_poly(a, b));
  CALL2("C23", "cyclotomic over F2n", w.n() % 3 + 7, w.field().lm, ([&]() { auto f = qc::get_cyclo_f2n_poly(a, b); return T_(f) + " mod " + T_(f.get_coeff(0).get_modulus()); })());
  add("C23", [](World &w) {
    auto m = w.g.pick(w.fp).lm;
    int n = w.n() % 3 + 7;
    return call("cyclotomic " + T_(n) + " over " + T_(m) + " char " + T_(m.get_characteristic()), [m, n]() {
      auto f = qc::get_cyclo_fpn_poly(n, m);
      return T_(f) + " mod " + T_(f.get_coeff(0).get_modulus()) + " char " + T_(f.get_coeff(0).get_characteristic());
    });
  });
  add("C23", [](World &w) {
    intrat_t r(w.n(), 1 + w.n());
    int p = w.g.pick(w.primes);
    return call(T_(r) + " mod " + T_(p), [r, p]() { return T_(qc::intmod_from_rat(r, p)); });
  });
  add("C23", [](World &w) {
    q_poly_t q(intrat_t(w.n(), w.n()), intrat_t(w.n(), w.n()));
    auto m = w.g.pick(w.fp).lm;
    auto m2 = w.field().lm;
    int k = (int)w.g.below(4), p = m.get_characteristic();
    return call("reduction " + T_(k) + " of " + T_(q) + " to " + T_(m) + " char " + T_(p) + ", " + T_(m2), [q, m, m2, p, k]() {
      if (k == 0) return T_(qc::fp_poly_from_qpoly(q, p));
      if (k == 1) return T_(qc::f2_poly_from_q_poly(q));
      if (k == 2) {
        auto f = qc::f2n_poly_from_qpoly(q, m2);
        return T_(f) + " mod " + T_(f.get_coeff(0).get_modulus());
      }
      auto f = qc::fpn_poly_from_qpoly(q, m);
      return T_(f) + " mod " + T_(f.get_coeff(0).get_modulus());
    });
  });
#undef CALL1
#undef CALL2
  return v;
}

// One case.  Calls are made of one or two operations (of the given tags), so
// that they share arguments, and made over and over in a random order.
void independent(Gen &g, Ctx &c, const std::string &tags) {
  static std::map<std::string, std::vector<size_t>> byTags;
  auto &mine = byTags[tags];
  if (mine.empty())
    for (size_t i = 0; i < ops().size(); i++)
      if (tags.empty() || tags.find(ops()[i].tag) != std::string::npos) mine.push_back(i);
  size_t which[2];
  for (auto &x : which) x = g.pick(mine);
  if (g.flip()) which[1] = which[0];
  World w(g);
  int n = 2 + (int)g.below(4);
  std::vector<Call> calls;
  std::vector<size_t> form;  // two forms may describe themselves alike: 7 is a prime and a polynomial
  for (int i = 0; i < n; i++) {
    form.push_back(which[(size_t)g.below(2)]);
    calls.push_back(ops()[form.back()].make(w));
  }
  std::vector<std::string> seen((size_t)n);
  std::vector<bool> have((size_t)n, false);
  c.log << "calls:";
  for (auto &k : calls) c.log << " [" << k.what << "]";
  c.log << "; order:";
  int distinct = 0, last = -1;
  int steps = 2 * n + (int)g.below((u64)(4 * n));
  for (int s = 0; s < steps; s++) {
    int i = (int)g.below((u64)n);
    c.log << " " << i;
    std::string r = calls[(size_t)i].f();
    if (!have[(size_t)i]) {
      have[(size_t)i] = true;
      seen[(size_t)i] = r;
      for (int j = 0; j < n; j++)
        if (j != i && have[(size_t)j] && form[(size_t)j] == form[(size_t)i] && calls[(size_t)j].what == calls[(size_t)i].what)
          REQUIRE_(c, seen[(size_t)j] == r, calls[(size_t)i].what << " is " << r << " and was " << seen[(size_t)j]);
      distinct++;
    } else
      REQUIRE_(c, seen[(size_t)i] == r, "step " << s << ": " << calls[(size_t)i].what << " is now " << r << " and was " << seen[(size_t)i]
                                               << (last >= 0 ? ", after " + calls[(size_t)last].what : ""));
    last = i;
  }
  c.nontrivial = distinct > 1;
}
} // namespace pure
