// C06: polynomials over extension fields.
#include "pure.h"
#include "polyx.h"
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C06";
  p.rule_text =
      "A random irreducible field modulus (degree up to 8 over F2, occasionally up to 40; up to 4 over primes up to "
      "13, sometimes 2000), polynomials over that field of degree up to 16 (sometimes 120) with planted common factors, exact multiples, p-th powers "
      "and zeroed leading coefficients, and histories of ring operations; every result compared with a "
      "coefficient-vector model. Non-trivial: both operands of degree at least 1, or at least two arithmetic steps.";
  p.assumptions = {"the coefficient ring is a field (irreducible modulus)",
      "the successor and numbering functions the library declares unimplemented for odd characteristic are excluded",
      "the extended gcd with a zero operand is refused by the library and not explored"};
  static auto f2n = [](Gen &g) {
    PZn P{Zn{2}};
    int d = 1 + (int)g.skewed(g.chance(1, 8) ? 40 : 8);
    return F2nPolyA(P.random_irreducible(g, d));
  };
  static auto f2ns = [](Gen &g) { PZn P{Zn{2}}; return F2nPolyA(P.random_irreducible(g, 1 + (int)g.skewed(6))); };
  static auto fpn = [](Gen &g) {
    u64 q = gen_prime(g, g.chance(1, 8) ? 2000 : 13);
    PZn P{Zn{q}};
    return FpnPolyA(q, P.random_irreducible(g, 1 + (int)g.skewed(4)));
  };
  static auto deg = [](Gen &g) { return (int)(g.flip() ? 1 + g.below(16) : 1 + g.skewed(16)); };
  p.add("f2n-history", 4000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); HistOpts o; o.order = true; o.max_deg = 24; ring_history(a, g, c, o); });
  p.add("fpn-history", 4000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); HistOpts o; o.order = true; o.max_deg = 24; ring_history(a, g, c, o); });
  p.add("f2n-euclid", 4000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, deg(g)).euclid(); });
  p.add("fpn-euclid", 4000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, deg(g)).euclid(); });
  p.add("f2n-mixed-refused", 2000, 20000, [](Gen &g, Ctx &c) {
    F2nPolyA a = f2n(g), b = f2n(g);
    if (a.c.m.p.eq(a.c.m.m, b.c.m.m)) throw Discard();
    PolyX<F2nPolyA>(a, g, c, 6).mixed(b);
  });
  p.add("fpn-mixed-refused", 2000, 20000, [](Gen &g, Ctx &c) {
    FpnPolyA a = fpn(g), b = fpn(g);
    if (a.c.p() == b.c.p() && a.c.m.p.eq(a.c.m.m, b.c.m.m)) throw Discard();
    PolyX<FpnPolyA>(a, g, c, 6).mixed(b);
  });
  p.add("f2n-euclid-large", 100, 3000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, 24 + (int)g.below(50)).euclid(); });
  p.add("f2n-history-large", 100, 3000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); HistOpts o; o.max_deg = 150; o.regs = 3; o.steps = 8; History<F2nPolyA> h(a, g, c, o); h.seed_degrees = {20, 31, 32, 33, 50, 64, 70}; h.run(); });
  p.add("f2n-roots-large", 200, 3000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, 40 + (int)g.below(80)).roots(); });
  p.add("f2n-coefficients-large", 200, 3000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, 40 + (int)g.below(80)).coefficients(); });
  p.add("fpn-euclid-large", 100, 3000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, 24 + (int)g.below(50)).euclid(); });
  p.add("fpn-history-large", 100, 3000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); HistOpts o; o.max_deg = 150; o.regs = 3; o.steps = 8; History<FpnPolyA> h(a, g, c, o); h.seed_degrees = {20, 31, 32, 33, 50, 64, 70}; h.run(); });
  p.add("fpn-roots-large", 200, 3000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, 40 + (int)g.below(80)).roots(); });
  p.add("fpn-coefficients-large", 200, 3000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, 40 + (int)g.below(80)).coefficients(); });
  p.add("f2n-coefficients", 5000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, deg(g)).coefficients(); });
  p.add("fpn-coefficients", 5000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, deg(g)).coefficients(); });
  p.add("f2n-scalars", 5000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, deg(g)).scalars(); });
  p.add("fpn-scalars", 5000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, deg(g)).scalars(); });
  p.add("f2n-calculus", 4000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, std::min(8, deg(g))).calculus(2); });
  p.add("fpn-calculus", 4000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, std::min(8, deg(g))).calculus(2); });
  p.add("f2n-roots", 5000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2n(g); PolyX<F2nPolyA>(a, g, c, 14).roots(); });
  p.add("fpn-roots", 5000, 100000, [](Gen &g, Ctx &c) { FpnPolyA a = fpn(g); PolyX<FpnPolyA>(a, g, c, 26).roots(); });
  p.add("f2n-order", 5000, 100000, [](Gen &g, Ctx &c) { F2nPolyA a = f2ns(g); PolyX<F2nPolyA>(a, g, c, deg(g)).order(); });
  p.add("f2n-int-constructors", 5000, 50000, [](Gen &g, Ctx &c) {
    F2nPolyA a = f2n(g);
    PolyX<F2nPolyA> px(a, g, c, 3);
    int v[3] = {(int)g.below(2), (int)g.below(2), (int)g.below(2)};
    c.log << a.name() << " " << v[2] << v[1] << v[0];
    c.nontrivial = v[2] || v[1];
    auto K = [&](int i) { return a.m.r.of(v[i]); };
    px.same(f2n_poly_t(v[0], a.c.lm), px.mk({K(0)}), "constant constructor from ints");
    px.same(f2n_poly_t(v[1], v[0], a.c.lm), px.mk({K(0), K(1)}), "linear constructor from ints");
    px.same(f2n_poly_t(v[2], v[1], v[0], a.c.lm), px.mk({K(0), K(1), K(2)}), "quadratic constructor from ints");
    px.same(f2n_poly_t::prime_subfield_element(v[0], a.c.lm), px.mk({K(0)}), "constant from the prime subfield");
  });
  p.add("independent", 600, 24000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C06"); });
  return engine_main(argc, argv, p);
}
