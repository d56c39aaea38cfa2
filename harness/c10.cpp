// C10: rational-function fields.
#include "polyx.h"
using namespace bind;
using namespace pbt;

template <class A> void same(Ctx &c, const A &a, const typename A::T &x, const typename A::M::E &e, const std::string &what) {
  typename A::M::E got;
  try {
    got = a.get(x);
  } catch (const Fail &f) {
    fail(what + " (should be " + a.m.show(e) + "): " + f.msg);
  }
  REQUIRE_(c, a.m.eq(got, e), what << " is " << a.m.show(got) << ", not " << a.m.show(e));
}

// The same fraction written in two ways is one value.
template <class A> void canonical(Gen &g, Ctx &c, const A &a, int md) {
  auto &P = a.m.p;
  auto n = g.chance(1, 8) ? P.zero() : P.random_deg(g, (int)g.skewed((u64)md + 1));
  auto d = P.random_exact(g, (int)g.skewed((u64)md + 1));
  auto h = P.random_exact(g, (int)g.skewed(6)), k = P.random_exact(g, (int)g.skewed(6));
  c.log << a.name() << ": " << P.show(n) << "/" << P.show(d) << " scaled by " << P.show(h) << " and by " << P.show(k);
  c.nontrivial = h.size() > 1 || k.size() > 1 || P.deg(P.gcd(n, d)) > 0;
  typename A::T x(a.p.make(P.mul(n, h)), a.p.make(P.mul(d, h)));
  typename A::T y(a.p.make(P.mul(n, k)), a.p.make(P.mul(d, k)));
  auto e = a.m.canon(n, d);
  same(c, a, x, e, "the first");
  same(c, a, y, e, "the second");
  REQUIRE_(c, x == y && !(x != y), "equal fractions " << text_of(x) << " and " << text_of(y) << " differ");
  REQUIRE_(c, !(x < y) && !(x > y) && x <= y && x >= y, "equal fractions are ordered");
  REQUIRE_(c, x.get_numerator() == y.get_numerator() && x.get_denominator() == y.get_denominator(),
      "equal fractions have different parts");
  typename A::T z = x - y;
  same(c, a, z, a.m.zero(), "their difference");
  z = -y;
  z += x;
  same(c, a, z, a.m.zero(), "x + -y");
  // ordering of different fractions
  auto n2 = P.random_deg(g, 3), d2 = P.random_exact(g, (int)g.below(4));
  auto e2 = a.m.canon(n2, d2);
  typename A::T w(a.p.make(n2), a.p.make(d2));
  bool eq = a.m.eq(e, e2), lt = x < w, gt = x > w;
  REQUIRE_(c, (x == w) == eq && (int)lt + (int)gt + (int)eq == 1, "not exactly one of <, >, ==");
  REQUIRE_(c, (x <= w) == (lt || eq) && (x >= w) == (gt || eq) && (w < x) == gt && (w > x) == lt, "comparisons disagree");
}
// Conversions from polynomials and integers; refusals.
template <class A> void convert(Gen &g, Ctx &c, const A &a, int md) {
  auto &P = a.m.p;
  auto n = P.random_deg(g, md);
  c.log << a.name() << ": " << P.show(n);
  c.nontrivial = n.size() > 1;
  auto e = a.m.canon(n, P.one());
  auto ln = a.p.make(n);
  typename A::T x(ln);
  same(c, a, x, e, "the polynomial as a fraction");
  REQUIRE_(c, x == ln && !(x != ln), "a fraction differs from the polynomial it was made of");
  auto old = a.m.random(g);
  typename A::T y = a.make(old);
  bool same_poly = P.eq(old.n, n) && P.deg(old.d) == 0;
  c.log << " and " << a.m.show(old);
  REQUIRE_(c, (y == ln) == same_poly && (y != ln) == !same_poly, "comparison with a polynomial: " << (y == ln));
  typename A::T u = y / x.prime_subfield_element(1);
  same(c, a, u, old, "y/1");
  y = ln;
  same(c, a, y, e, "assigned polynomial");
  REQUIRE_(c, y == x, "assigned and constructed differ");
  int k = (int)g.skewed_signed(1 << 30);
  c.log << ", integer " << k;
  same(c, a, x.prime_subfield_element(k), a.m.of(k), "constant");
  REQUIRE_(c, (u64)x.get_characteristic() == char_of(a.p), "characteristic " << x.get_characteristic());
  auto zero = a.p.make(P.zero());
  REQUIRE_(c, refuses([&]() { typename A::T bad(ln, zero); }), "a zero denominator was not refused");
  typename A::T z = a.make(old), zz = x.prime_subfield_element(0);
  REQUIRE_(c, refuses([&]() { typename A::T q = z / zz; }), "division by zero was not refused");
  REQUIRE_(c, refuses([&]() { typename A::T q = z % zz; }), "remainder by zero was not refused");
  REQUIRE_(c, refuses([&]() { z /= zz; }), "/= zero was not refused");
  same(c, a, z, old, "the operand of a refused /=");
}
template <class A> void power(Gen &g, Ctx &c, const A &a) {
  A b(a);
  b.m.maxdeg = 1 + (int)g.below(6);
  int k = (int)g.below(9);
  if (g.chance(1, 8)) { // long powers of short fractions
    b.m.maxdeg = 1;
    k = (int)g.below(50);
  }
  auto e = b.m.random(g);
  bool neg = g.flip();
  c.log << a.name() << ": " << a.m.show(e) << "^" << (neg ? -k : k);
  c.nontrivial = k >= 2 && e.n.size() + e.d.size() > 2;
  typename A::T x = a.make(e);
  if (a.m.is_zero(e) && (neg || k == 0)) {
    REQUIRE_(c, refuses([&]() { x.exp(neg ? -k : k); }), "not refused");
    return;
  }
  auto v = a.m.one(), base = e;
  if (neg) a.m.inv(e, base);
  for (int i = 0; i < k; i++) v = a.m.mul(v, base);
  same(c, a, x.exp(neg ? -k : k), v, "the power");
  same(c, a, x, e, "the operand");
}

// Fractions over different coefficient rings.
template <class A> void mixed(Gen &g, Ctx &c, const A &a, const A &a2) {
  auto e = a.m.random(g), e2 = a2.m.random(g);
  c.log << a.name() << " " << a.m.show(e) << " against " << a2.name() << " " << a2.m.show(e2);
  c.nontrivial = e.n.size() + e.d.size() > 2 && e2.n.size() + e2.d.size() > 2;
  typename A::T x = a.make(e), y = a2.make(e2), z(x);
  int op = (int)g.below(8);
  if (a.m.is_zero(e) || a2.m.is_zero(e2)) throw Discard();
  bool r = refuses([&]() {
    switch (op) {
    case 0: z = x + y; break;
    case 1: z = x - y; break;
    case 2: z += y; break;
    case 3: z -= y; break;
    case 4: z = x * y; break;
    case 5: z *= y; break;
    case 6: z = x / y; break;
    case 7: z /= y; break;
    }
  });
  REQUIRE_(c, r, "operation " << op << " on fractions over different rings was not refused");
  same(c, a, z, e, "the target of a refused operation");
  bool eq = false;
  refuses([&]() { eq = x == y || !(x != y); }); // unequal or refused
  REQUIRE_(c, !eq, "fractions over different rings are equal");
  same(c, a, x, e, "the first operand");
  same(c, a2, y, e2, "the second operand");
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C10";
  p.rule_text =
      "Fractions of polynomials over F2, over a prime field or over an extension of F2 (degree up to 4), degrees up to 12 (sometimes 150), "
      "with planted common factors between numerator and denominator; histories of field operations over a register file "
      "with sizes kept below 60 coefficients. Every value is compared with a model fraction in lowest terms. Non-trivial: "
      "at least two arithmetic steps, a common factor that must cancel, or a non-constant operand.";
  p.assumptions = {"the coefficient ring is a field", "the library's order on fractions is only required to be consistent with equality"};
  static auto f2 = []() { return F2PolyratA(F2PolyA()); };
  static auto fp = [](Gen &g) { return FpPolyratA(FpPolyA(gen_prime(g, g.chance(1, 4) ? 1000 : 20))); };
  static auto f2n = [](Gen &g) { PZn P{Zn{2}}; return F2nPolyratA(F2nPolyA(P.random_irreducible(g, 1 + (int)g.skewed(4)))); };
  static HistOpts o;
  o.max_deg = 60;
  o.steps = 10;
  p.add("f2-history", 24000, 600000, [](Gen &g, Ctx &c) { F2PolyratA a = f2(); ring_history(a, g, c, o); });
  p.add("fp-history", 6000, 300000, [](Gen &g, Ctx &c) { FpPolyratA a = fp(g); ring_history(a, g, c, o); });
  p.add("f2n-history", 1200, 60000, [](Gen &g, Ctx &c) { F2nPolyratA a = f2n(g); ring_history(a, g, c, o); });
  p.add("f2-canonical", 24000, 600000, [](Gen &g, Ctx &c) { canonical(g, c, f2(), 12); });
  p.add("f2-canonical-large", 600, 20000, [](Gen &g, Ctx &c) { canonical(g, c, f2(), 150); });
  p.add("fp-canonical-large", 200, 10000, [](Gen &g, Ctx &c) { canonical(g, c, fp(g), 60); });
  p.add("f2n-canonical-large", 40, 2000, [](Gen &g, Ctx &c) { canonical(g, c, f2n(g), 24); });
  p.add("f2-convert-large", 600, 20000, [](Gen &g, Ctx &c) { convert(g, c, f2(), 300); });
  p.add("fp-convert-large", 200, 10000, [](Gen &g, Ctx &c) { convert(g, c, fp(g), 100); });
  p.add("fp-canonical", 8000, 300000, [](Gen &g, Ctx &c) { canonical(g, c, fp(g), 10); });
  p.add("f2n-canonical", 2400, 60000, [](Gen &g, Ctx &c) { canonical(g, c, f2n(g), 6); });
  p.add("f2-convert", 12000, 300000, [](Gen &g, Ctx &c) { convert(g, c, f2(), 12); });
  p.add("fp-convert", 8000, 200000, [](Gen &g, Ctx &c) { convert(g, c, fp(g), 10); });
  p.add("f2n-convert", 2400, 60000, [](Gen &g, Ctx &c) { convert(g, c, f2n(g), 6); });
  p.add("fp-mixed-refused", 2000, 60000, [](Gen &g, Ctx &c) {
    FpPolyratA a = fp(g), b = fp(g);
    if (a.p.m.r.m == b.p.m.r.m) throw Discard();
    mixed(g, c, a, b);
  });
  p.add("f2n-mixed-refused", 300, 6000, [](Gen &g, Ctx &c) {
    F2nPolyratA a = f2n(g), b = f2n(g);
    if (a.p.c.m.p.eq(a.p.c.m.m, b.p.c.m.m)) throw Discard();
    mixed(g, c, a, b);
  });
  p.add("f2-power", 12000, 300000, [](Gen &g, Ctx &c) { power(g, c, f2()); });
  p.add("fp-power", 4000, 200000, [](Gen &g, Ctx &c) { power(g, c, fp(g)); });
  p.add("f2n-power", 800, 60000, [](Gen &g, Ctx &c) { power(g, c, f2n(g)); });
  return engine_main(argc, argv, p);
}
