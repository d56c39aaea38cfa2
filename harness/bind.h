// Adapters between library values and reference-model values.
//   typedef M   model ring            M m     the model, with its modulus
//   typedef T   library type
//   make(e)     library value for a model element
//   get(x)      model element of a library value; fails when the value is not
//               in the representation the API promises (reduced, right modulus)
#ifndef VERIF_BIND_H
#define VERIF_BIND_H
#include "ref.h"
#include "spffl/bits/bit_t.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
#include "spffl/polynomials/q_poly_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"

namespace bind {
using namespace ref;
using namespace spffl::polynomials;
using namespace spffl::rationals;
using spffl::bits::bit_t;
using spffl::intmath::intmod_t;
using spffl::intmath::intrat_t;

template <class T> std::string text_of(const T &x) {
  std::ostringstream o;
  o << x;
  return o.str();
}

// What operator% and operator/ mean
enum { FIELD = 1, POLY = 2 };

struct IntmodA {
  typedef Zn M;
  typedef intmod_t T;
  static const int kind = FIELD;
  M m;
  explicit IntmodA(u64 p) : m{p} {}
  T make(const M::E &e) const { return intmod_t((int)e, (int)m.m); }
  M::E get(const T &x) const {
    if (x.get_modulus() != (int)m.m)
      pbt::fail("modulus became " + std::to_string(x.get_modulus()) + " instead of " + std::to_string(m.m));
    int r = x.get_residue();
    if (r < 0 || (u64)r >= m.m)
      pbt::fail("residue " + std::to_string(r) + " not in 0.." + std::to_string(m.m - 1));
    return (u64)r;
  }
  std::string name() const { return "Z/" + std::to_string(m.m); }
};

struct BitA {
  typedef Zn M;
  typedef bit_t T;
  static const int kind = FIELD;
  M m{2};
  T make(const M::E &e) const { return bit_t((int)e); }
  M::E get(const T &x) const {
    int r = x.get_residue();
    if (r != 0 && r != 1) pbt::fail("bit residue " + std::to_string(r));
    return (u64)r;
  }
  std::string name() const { return "F2"; }
};

struct IntratA {
  typedef QQ M;
  typedef intrat_t T;
  static const int kind = FIELD;
  M m;
  explicit IntratA(i128 bound = (i128)1 << 30, bool loose = false) : m(bound, loose) {}
  T make(const M::E &e) const { return intrat_t((int)e.n, (int)e.d); }
  M::E get(const T &x) const {
    M::E e;
    e.n = x.get_numerator();
    e.d = x.get_denominator();
    if (e.d <= 0) pbt::fail("denominator " + str(e.d) + " not positive");
    if (igcd(e.n, e.d) != 1)
      pbt::fail("not in lowest terms: " + str(e.n) + "/" + str(e.d));
    return e;
  }
  std::string name() const { return "Q"; }
};

struct F2PolyA {
  typedef PZn M;
  typedef f2_poly_t T;
  static const int kind = POLY;
  M m{Zn{2}};
  static f2_poly_t lib(const PZn::E &e) {
    f2_poly_t x(0);
    for (size_t i = 0; i < e.size(); i++)
      if (e[i]) x.set_bit((int)i);
    return x;
  }
  static PZn::E model(const f2_poly_t &x) {
    int d = x.find_degree();
    PZn::E e;
    for (int i = 0; i <= d; i++) e.push_back((u64)x.bit_at(i));
    if (d > 0 && !e.back()) pbt::fail("leading coefficient is zero");
    if (x.bit_at(d + 1) || x.bit_at(d + 70) || x.bit_at(((d >> 6) + 1) << 6))
      pbt::fail("coefficient beyond the degree");
    PZn{Zn{2}}.trim(e);
    return e;
  }
  T make(const M::E &e) const { return lib(e); }
  M::E get(const T &x) const { return model(x); }
  std::string name() const { return "F2[x]"; }
};

struct FpPolyA {
  typedef PZn M;
  typedef fp_poly_t T;
  static const int kind = POLY;
  M m;
  explicit FpPolyA(u64 p) : m{Zn{p}} {}
  static fp_poly_t lib(const PZn::E &e, u64 p) {
    fp_poly_t x(intmod_t(0, (int)p));
    for (size_t i = e.size(); i-- > 0;) x.set_coeff((int)i, intmod_t((int)e[i], (int)p));
    return x;
  }
  static PZn::E model(const fp_poly_t &x, u64 p) {
    IntmodA c(p);
    PZn::E e;
    int d = x.find_degree();
    for (int i = 0; i <= d; i++) e.push_back(c.get(x.get_coeff(i)));
    if (d > 0 && e.back() == 0) pbt::fail("leading coefficient is zero");
    if (c.get(x.get_coeff(d + 1)) != 0) pbt::fail("coefficient beyond the degree");
    PZn{Zn{p}}.trim(e);
    return e;
  }
  T make(const M::E &e) const { return lib(e, m.r.m); }
  M::E get(const T &x) const { return model(x, m.r.m); }
  std::string name() const { return "F" + std::to_string(m.r.m) + "[x]"; }
};

struct QPolyA {
  typedef PQ M;
  typedef q_poly_t T;
  static const int kind = POLY;
  M m;
  explicit QPolyA(i128 b = (i128)1 << 28) : m{QQ(b)} {}
  static q_poly_t lib(const PQ::E &e) {
    q_poly_t x(intrat_t(0));
    for (size_t i = e.size(); i-- > 0;)
      x.set_coeff((int)i, intrat_t((int)e[i].n, (int)e[i].d));
    return x;
  }
  PQ::E model(const q_poly_t &x) const {
    IntratA c;
    PQ::E e;
    int d = x.find_degree();
    for (int i = 0; i <= d; i++) e.push_back(c.get(x.get_coeff(i)));
    if (d > 0 && e.back().n == 0) pbt::fail("leading coefficient is zero");
    m.trim(e);
    return e;
  }
  T make(const M::E &e) const { return lib(e); }
  M::E get(const T &x) const { return model(x); }
  std::string name() const { return "Q[x]"; }
};

struct F2PolymodA {
  typedef Fq M;
  typedef f2_polymod_t T;
  static const int kind = FIELD;
  M m;
  f2_poly_t lm;
  explicit F2PolymodA(const PZn::E &mod) : m{PZn{Zn{2}}, mod}, lm(F2PolyA::lib(mod)) {}
  T make(const M::E &e) const { return f2_polymod_t(F2PolyA::lib(e), lm); }
  M::E get(const T &x) const {
    if (!m.p.eq(F2PolyA::model(x.get_modulus()), m.m)) pbt::fail("modulus changed");
    M::E e = F2PolyA::model(x.get_residue());
    if ((int)e.size() > m.n()) pbt::fail("residue not reduced: degree " + std::to_string(e.size() - 1));
    return e;
  }
  std::string name() const { return "F2[x]/" + m.p.show(m.m); }
};

struct FpPolymodA {
  typedef Fq M;
  typedef fp_polymod_t T;
  static const int kind = FIELD;
  M m;
  fp_poly_t lm;
  FpPolymodA(u64 p, const PZn::E &mod) : m{PZn{Zn{p}}, mod}, lm(FpPolyA::lib(mod, p)) {}
  FpPolymodA(const FpPolymodA &t) : m(t.m), lm(t.lm) {}
  u64 p() const { return m.p.r.m; }
  T make(const M::E &e) const { return fp_polymod_t(FpPolyA::lib(e, p()), lm); }
  M::E get(const T &x) const {
    if (!m.p.eq(FpPolyA::model(x.get_modulus(), p()), m.m)) pbt::fail("modulus changed");
    M::E e = FpPolyA::model(x.get_residue(), p());
    if ((int)e.size() > m.n()) pbt::fail("residue not reduced: degree " + std::to_string(e.size() - 1));
    return e;
  }
  std::string name() const { return "F" + std::to_string(p()) + "[x]/" + m.p.show(m.m); }
};

struct F2nPolyA {
  typedef PFq M;
  typedef f2n_poly_t T;
  static const int kind = POLY;
  F2PolymodA c; // coefficient field
  M m;
  explicit F2nPolyA(const PZn::E &mod) : c(mod), m{c.m} {}
  T make(const M::E &e) const {
    f2n_poly_t x(f2_polymod_t(f2_poly_t(0), c.lm));
    for (size_t i = e.size(); i-- > 0;) x.set_coeff((int)i, c.make(e[i]));
    return x;
  }
  M::E get(const T &x) const {
    M::E e;
    int d = x.find_degree();
    for (int i = 0; i <= d; i++) e.push_back(c.get(x.get_coeff(i)));
    if (d > 0 && e.back().empty()) pbt::fail("leading coefficient is zero");
    if (!c.get(x.get_coeff(d + 1)).empty()) pbt::fail("coefficient beyond the degree");
    m.trim(e);
    return e;
  }
  std::string name() const { return "(" + c.name() + ")[y]"; }
};

struct FpnPolyA {
  typedef PFq M;
  typedef fpn_poly_t T;
  static const int kind = POLY;
  FpPolymodA c;
  M m;
  FpnPolyA(u64 p, const PZn::E &mod) : c(p, mod), m{c.m} {}
  T make(const M::E &e) const {
    fpn_poly_t x(c.make(c.m.zero()));
    for (size_t i = e.size(); i-- > 0;) x.set_coeff((int)i, c.make(e[i]));
    return x;
  }
  M::E get(const T &x) const {
    M::E e;
    int d = x.find_degree();
    for (int i = 0; i <= d; i++) e.push_back(c.get(x.get_coeff(i)));
    if (d > 0 && e.back().empty()) pbt::fail("leading coefficient is zero");
    if (!c.get(x.get_coeff(d + 1)).empty()) pbt::fail("coefficient beyond the degree");
    m.trim(e);
    return e;
  }
  std::string name() const { return "(" + c.name() + ")[y]"; }
};

template <class PA, class LT> struct TowerA { // (coefficient field)[y]/om
  typedef Fqn M;
  typedef LT T;
  static const int kind = FIELD;
  PA p;
  M m;
  typename PA::T lm;
  TowerA(const PA &pa, const PFq::E &om) : p(pa), m{p.m, om}, lm(p.make(om)) {}
  T make(const M::E &e) const { return T(p.make(e), lm); }
  M::E get(const T &x) const {
    if (!m.p.eq(p.get(x.get_modulus()), m.m)) pbt::fail("modulus changed");
    M::E e = p.get(x.get_residue());
    if ((int)e.size() > m.n()) pbt::fail("residue not reduced");
    return e;
  }
  std::string name() const { return p.name() + "/" + m.p.show(m.m); }
};
typedef TowerA<F2nPolyA, f2n_polymod_t> F2nPolymodA;
typedef TowerA<FpnPolyA, fpn_polymod_t> FpnPolymodA;

template <class PA, class K, class LT> struct RatA {
  typedef Frac<K> M;
  typedef LT T;
  static const int kind = FIELD;
  PA p;
  M m;
  explicit RatA(const PA &pa) : p(pa), m{p.m} {}
  T make(const typename M::E &e) const { return T(p.make(e.n), p.make(e.d)); }
  int weight(const typename M::E &e) const { return (int)(e.n.size() + e.d.size()); }
  typename M::E get(const T &x) const {
    auto n = p.get(x.get_numerator()), d = p.get(x.get_denominator());
    if (d.empty()) pbt::fail("zero denominator");
    if (m.p.deg(m.p.gcd(n, d)) != 0)
      pbt::fail("not in lowest terms: " + m.p.show(n) + "/" + m.p.show(d));
    // There is one way only to hold a value: what is computed equals what is made.
    T y(x.get_numerator(), x.get_denominator()), z = make(m.canon(n, d));
    if (!(x == y) || x != y || !(x == z) || x != z)
      pbt::fail("it differs from the same value made of its parts: " + m.p.show(n) + "/" + m.p.show(d));
    return m.canon(n, d);
  }
  std::string name() const { return "fractions of " + p.name(); }
};
typedef RatA<F2PolyA, Zn, f2_polyrat_t> F2PolyratA;
typedef RatA<FpPolyA, Zn, fp_polyrat_t> FpPolyratA;
typedef RatA<F2nPolyA, Fq, f2n_polyrat_t> F2nPolyratA;

// ----------------------------------------------------------------
// Generators of moduli
inline const std::vector<u64> &small_primes() {
  static const std::vector<u64> v{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47,
      53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127};
  return v;
}
inline u64 gen_prime(pbt::Gen &g, u64 cap) { // skewed small, any prime <= cap
  u64 n = 2 + g.skewed(cap - 1);
  while (!is_prime(n)) n--;
  return n;
}
} // namespace bind
#endif
