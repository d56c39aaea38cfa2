// C05: polynomials over prime fields.
#include "pure.h"
#include "polyx.h"
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C05";
  p.rule_text =
      "A prime up to some ten thousand (skewed small; up to 2^31 where nothing is divided), polynomials of degree up to 40 (sometimes a few hundred) with planted common factors, exact "
      "multiples, p-th powers and zeroed leading coefficients, and histories of ring operations over a register file; "
      "every result compared with a coefficient-vector model. Non-trivial: both operands of degree at least 1, or at "
      "least two arithmetic steps.";
  p.assumptions = {"the modulus is prime (division by a zero divisor in a leading coefficient is refused, not explored)",
      "the extended gcd with a zero operand is refused by the library and not explored"};
  static auto fp = [](Gen &g) { return FpPolyA(gen_prime(g, g.chance(1, 4) ? 5000 : 60)); };
  static auto fps = [](Gen &g) { return FpPolyA(gen_prime(g, 12)); };
  // without division a prime may have 31 bits (the library finds inverses by counting up to the prime)
  static auto fpl = [](Gen &g) {
    if (!g.chance(1, 5)) return fp(g);
    u64 q = 2147483647 - (g.flip() ? g.below(3000) : g.below(2147000000));
    while (!is_prime(q)) q--;
    return FpPolyA(q);
  };
  static auto fpm = [](Gen &g) { return g.chance(1, 40) ? FpPolyA(gen_prime(g, 60000)) : fp(g); };
  static auto deg = [](Gen &g) { return (int)(g.flip() ? 1 + g.below(40) : 1 + g.skewed(40)); };
  p.add("history", 75000, 400000, [](Gen &g, Ctx &c) {
    FpPolyA a = fp(g);
    HistOpts o;
    o.order = true;
    o.max_deg = 60;
    ring_history(a, g, c, o);
  });
  p.add("history-large-prime", 25000, 100000, [](Gen &g, Ctx &c) { // coefficient products beyond 32 bits
    u64 q = 2147483647 - g.below(3000);
    while (!is_prime(q)) q--;
    FpPolyA a(q);
    HistOpts o;
    o.order = true;
    o.max_deg = 30;
    o.div = false;
    ring_history(a, g, c, o);
  });
  p.add("euclid", 75000, 400000, [](Gen &g, Ctx &c) { FpPolyA a = fpm(g); PolyX<FpPolyA>(a, g, c, deg(g)).euclid(); });
  p.add("mixed-refused", 20000, 100000, [](Gen &g, Ctx &c) {
    FpPolyA a = fp(g), b = fp(g);
    if (a.m.r.m == b.m.r.m) throw Discard();
    PolyX<FpPolyA>(a, g, c, 8).mixed(b);
  });
  p.add("history-large", 1500, 20000, [](Gen &g, Ctx &c) {
    FpPolyA a = fp(g);
    HistOpts o;
    o.max_deg = 500;
    o.regs = 3;
    o.steps = 10;
    History<FpPolyA> h(a, g, c, o);
    for (int i = 0; i < 4; i++) h.seed_degrees.push_back(40 + (int)g.below(160));
    h.run();
  });
  p.add("euclid-large", 1500, 20000, [](Gen &g, Ctx &c) { FpPolyA a = fp(g); PolyX<FpPolyA>(a, g, c, 60 + (int)g.below(100)).euclid(); });
  p.add("coefficients-large", 3000, 20000, [](Gen &g, Ctx &c) { FpPolyA a = fpl(g); PolyX<FpPolyA>(a, g, c, 60 + (int)g.below(300)).coefficients(); });
  p.add("roots-large", 3000, 20000, [](Gen &g, Ctx &c) { FpPolyA a = fps(g); PolyX<FpPolyA>(a, g, c, 60 + (int)g.below(300)).roots(); });
  p.add("order-large", 3000, 20000, [](Gen &g, Ctx &c) { FpPolyA a = fpl(g); PolyX<FpPolyA>(a, g, c, 60 + (int)g.below(300)).order(); });
  p.add("coefficients", 75000, 300000, [](Gen &g, Ctx &c) { FpPolyA a = fpl(g); PolyX<FpPolyA>(a, g, c, deg(g)).coefficients(); });
  p.add("scalars", 75000, 300000, [](Gen &g, Ctx &c) { FpPolyA a = fpm(g); PolyX<FpPolyA>(a, g, c, deg(g)).scalars(); });
  p.add("calculus", 50000, 300000, [](Gen &g, Ctx &c) { FpPolyA a = fpl(g); PolyX<FpPolyA>(a, g, c, std::min(20, deg(g))).calculus(3); });
  p.add("roots", 75000, 300000, [](Gen &g, Ctx &c) { FpPolyA a = fps(g); PolyX<FpPolyA>(a, g, c, 30).roots(); });
  p.add("order", 75000, 300000, [](Gen &g, Ctx &c) { FpPolyA a = fpl(g); PolyX<FpPolyA>(a, g, c, std::min(20, deg(g))).order(); });
  p.add("numbering", 150000, 400000, [](Gen &g, Ctx &c) {
    FpPolyA a = fpl(g);
    PolyX<FpPolyA> px(a, g, c, 10);
    u64 q = a.m.r.m, b = g.skewed(2147483647), n = b;
    c.log << a.name() << " number " << b;
    PZn::E e;
    for (; n; n /= q) e.push_back(n % q);
    c.nontrivial = e.size() >= 2;
    px.same(fp_poly_t::from_base_rep((int)b, (int)q), e, "the polynomial with this number");
    fp_poly_t x = fp_poly_t::from_base_rep((int)b, (int)q);
    x.increment();
    if (b < 2147483646) REQUIRE_(c, x == fp_poly_t::from_base_rep((int)b + 1, (int)q), "successor");
  });
  p.add("independent", 800, 32000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C05"); });
  return engine_main(argc, argv, p);
}
