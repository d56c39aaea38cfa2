// Expressions of the command line over one element type: the model's own
// evaluator of the grammar, the operations it is built from, and the name and
// leading arguments of the command that evaluates them.
#ifndef VERIF_EXPRX_H
#define VERIF_EXPRX_H
#include "textx.h"

namespace bind {
typedef std::vector<std::string> Words;

inline Words op_command(const IntA &, const char *op = "op") { return {std::string("z_") + op}; }
inline Words op_command(const BitA &, const char *op = "op") { return {std::string("f2_") + op}; }
inline Words op_command(const IntratA &, const char *op = "op") { return {std::string("q_") + op}; }
inline Words op_command(const IntmodA &a, const char *op = "op") { return {std::string("fp_") + op, std::to_string(a.m.m)}; }
inline Words op_command(const F2PolyA &, const char *op = "op") { return {std::string("f2_p_") + op}; }
inline Words op_command(const FpPolyA &a, const char *op = "op") { return {std::string("fp_p_") + op, std::to_string(a.m.r.m)}; }
inline Words op_command(const QPolyA &, const char *op = "op") { return {std::string("q_p_") + op}; }
inline Words op_command(const F2PolymodA &a, const char *op = "op") { return {std::string("f2_pm_") + op, hex_of(a.m.m)}; }
inline Words op_command(const FpPolymodA &a, const char *op = "op") {
  return {std::string("fp_pm_") + op, std::to_string(a.p()), fmt_fp(a.m.m, a.p(), 1)};
}
inline Words op_command(const F2nPolyA &a, const char *op = "op") { return {std::string("f2n_p_") + op, hex_of(a.c.m.m)}; }
inline Words op_command(const FpnPolyA &a, const char *op = "op") {
  return {std::string("fpn_p_") + op, std::to_string(a.c.p()), fmt_fp(a.c.m.m, a.c.p(), 1)};
}
inline Words op_command(const F2nPolymodA &a, const char *op = "op") {
  return {std::string("f2n_pm_") + op, hex_of(a.p.c.m.m), fmt(a.p, a.m.m)};
}
inline Words op_command(const FpnPolymodA &a, const char *op = "op") {
  return {std::string("fpn_pm_") + op, std::to_string(a.p.c.p()), fmt_fp(a.p.c.m.m, a.p.c.p(), 1), fmt(a.p, a.m.m)};
}
inline Words op_command(const F2PolyratA &, const char *op = "op") { return {std::string("f2_pr_") + op}; }
inline Words op_command(const FpPolyratA &a, const char *op = "op") { return {std::string("fp_pr_") + op, std::to_string(a.p.m.r.m)}; }
inline Words op_command(const F2nPolyratA &a, const char *op = "op") { return {std::string("f2n_pr_") + op, hex_of(a.p.c.m.m)}; }

template <class A> struct is_rat : std::false_type {};
template <class P, class K, class L> struct is_rat<RatA<P, K, L>> : std::true_type {};

// The evaluator refuses with this.
struct Refused {
  std::string why;
};

// Operations on elements as the command line defines them.  An exact value
// that is too big for the representation is outside the domain.
template <class A> struct Ops {
  typedef typename A::M::E E;
  const A &a;
  static constexpr bool is_int = std::is_same<A, IntA>::value;
  static constexpr bool is_poly = A::kind == POLY;
  static constexpr bool is_rational = std::is_same<A, IntratA>::value || std::is_same<A, QPolyA>::value;
  E in(const E &e) const {
    if constexpr (is_int) {
      if (e > 0x7fffffff || e < -(i128)0x80000000LL) throw pbt::Discard();
    } else if constexpr (is_poly) {
      if (e.size() > (std::is_same<A, F2PolyA>::value ? 1500 : 90)) throw pbt::Discard();
    } else if constexpr (is_rat<A>::value) {
      if (a.weight(e) > 16) throw pbt::Discard();
    }
    return e;
  }
  bool is_zero(const E &x) const { return a.m.is_zero(x); }
  E add(const E &x, const E &y) const { return in(a.m.add(x, y)); }
  E sub(const E &x, const E &y) const { return in(a.m.sub(x, y)); }
  E neg(const E &x) const { return in(a.m.neg(x)); }
  E mul(const E &x, const E &y) const { return in(a.m.mul(x, y)); }
  E quo(const E &x, const E &y, bool want_rem) const {
    if (is_zero(y)) throw Refused{"division by zero"};
    if constexpr (is_int) {
      if (x == -(i128)0x80000000LL && y == -1) throw pbt::Discard();
      return want_rem ? x % y : x / y;
    } else if constexpr (is_poly) {
      E q, r;
      a.m.divmod(x, y, q, r);
      return want_rem ? r : q;
    } else {
      E i;
      if (!a.m.inv(y, i)) throw Refused{"division by a zero divisor"};
      if (want_rem) return a.m.zero();
      return mul(x, i);
    }
  }
  // x^k, by the squarings that are needed and no others
  E power(const E &x, i64 k) const {
    if (k == -0x80000000LL) throw pbt::Discard();
    if (is_zero(x)) {
      if (k <= 0) throw Refused{"power of zero"};
      return a.m.zero();
    }
    E p = x, r = a.m.one();
    if (k < 0) {
      if constexpr (is_int) {
        if (x != 1 && x != -1) throw pbt::Discard();
      } else if constexpr (is_poly) {
        if (x.size() != 1) throw pbt::Discard();
      }
      p = quo(a.m.one(), x, false);
      k = -k;
    }
    if ((is_poly || is_int || is_rational || is_rat<A>::value) && k > 2000 && !small(p)) throw pbt::Discard();
    for (; k; k >>= 1) {
      if (k & 1) r = mul(r, p);
      if (k > 1) p = mul(p, p);
    }
    return r;
  }
  bool small(const E &p) const {
    if constexpr (is_int) return p == 1 || p == -1;
    else if constexpr (is_rat<A>::value) return p.n.size() == 1 && p.d.size() == 1;
    else if constexpr (is_poly) return p.size() == 1;
    else return false;
  }
  bool eq(const E &x, const E &y) const { return a.m.eq(x, y); }
  // -1, 0, 1; the order of types with no natural one is the library's own
  bool less(const E &x, const E &y) const {
    if constexpr (is_int || std::is_same<A, IntmodA>::value || std::is_same<A, BitA>::value) return x < y;
    else if constexpr (std::is_same<A, IntratA>::value) return a.m.cmp(x, y) < 0;
    else return a.make(x) < a.make(y);
  }
  bool order(const std::string &op, const E &x, const E &y) const {
    if (op == "==") return eq(x, y);
    if (op == "!=" || op == "/=") return !eq(x, y);
    if (op == "<") return less(x, y);
    if (op == ">") return less(y, x);
    if (op == "<=") return eq(x, y) || less(x, y);
    return eq(x, y) || less(y, x);
  }
  E binary(const std::string &op, const E &x, const E &y) const {
    if (op == "+") return add(x, y);
    if (op == "-") return sub(x, y);
    if (op == "*" || op == ".") return mul(x, y);
    if (op == "/") return quo(x, y, false);
    return quo(x, y, true);
  }
  E small_value(pbt::Gen &g) const {
    if (g.chance(1, 12)) return a.m.zero();
    if (g.chance(1, 9)) return a.m.one();
    if constexpr (is_int) return g.skewed_signed(g.flip() ? 30 : 100000);
    else if constexpr (std::is_same<A, QPolyA>::value) {
      E e;
      for (size_t i = 0, n = 1 + (size_t)g.below(3); i < n; i++) e.push_back(a.m.r.of((i64)g.below(4)));
      a.m.trim(e);
      return e;
    } else if constexpr (is_poly) return a.m.random_deg(g, (int)g.skewed(std::is_same<A, F2PolyA>::value ? 70 : 6));
    else if constexpr (is_rat<A>::value) {
      auto n = a.p.m.random_deg(g, (int)g.below(3));
      auto d = a.p.m.random_monic(g, (int)g.below(3));
      return a.m.canon(n, d);
    } else return a.m.random(g);
  }
};
} // namespace bind
#endif
