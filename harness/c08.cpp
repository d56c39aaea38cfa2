// C08: residue rings of polynomials over prime fields.
#include "pure.h"
#include "resx.h"
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C08";
  p.rule_text =
      "A modulus over F2 (degree up to 130, sometimes 400) or over a prime field (degree up to 8, sometimes 60, any leading coefficient), "
      "irreducible or not; representatives of any degree, histories of ring operations, inverses, powers with exponents "
      "over the whole int range and operands of different moduli; every result compared with a model that reduces "
      "coefficient vectors and inverts by extended Euclid. Non-trivial: at least two arithmetic steps, or an operand "
      "that is not a constant.";
  p.assumptions = {"the modulus has degree at least 1", "the coefficient modulus is prime"};
  static auto f2 = [](Gen &g) {
    PZn P{Zn{2}};
    if (g.flip()) return F2PolymodA(P.random_irreducible(g, 1 + (int)g.skewed(24)));
    return F2PolymodA(P.random_monic(g, 1 + (int)g.skewed(g.chance(1, 8) ? 400 : 130)));
  };
  static auto fp = [](Gen &g) {
    u64 q = gen_prime(g, g.chance(1, 6) ? 3000 : 40);
    PZn P{Zn{q}};
    PZn::E m = g.flip() ? P.random_irreducible(g, 1 + (int)g.skewed(6)) : P.random_monic(g, 1 + (int)g.skewed(g.chance(1, 8) ? 60 : 8));
    if (g.chance(1, 3)) m = P.scale(m, 1 + g.below(q - 1));
    return FpPolymodA(q, m);
  };
  p.add("f2-history", 10000, 200000, [](Gen &g, Ctx &c) { F2PolymodA a = f2(g); HistOpts o; o.order = true; ring_history(a, g, c, o); });
  p.add("fp-history", 8000, 200000, [](Gen &g, Ctx &c) { FpPolymodA a = fp(g); HistOpts o; o.order = true; ring_history(a, g, c, o); });
  p.add("f2-basics", 15000, 300000, [](Gen &g, Ctx &c) { F2PolymodA a = f2(g); ResX<F2PolymodA>(a, g, c).basics(); });
  p.add("fp-basics", 15000, 300000, [](Gen &g, Ctx &c) { FpPolymodA a = fp(g); ResX<FpPolymodA>(a, g, c).basics(); });
  p.add("f2-inverse", 15000, 300000, [](Gen &g, Ctx &c) { F2PolymodA a = f2(g); ResX<F2PolymodA>(a, g, c).inverse(); });
  p.add("fp-inverse", 15000, 300000, [](Gen &g, Ctx &c) { FpPolymodA a = fp(g); ResX<FpPolymodA>(a, g, c).inverse(); });
  p.add("f2-power", 5000, 100000, [](Gen &g, Ctx &c) { F2PolymodA a = f2(g); ResX<F2PolymodA>(a, g, c).power(); });
  p.add("fp-power", 5000, 100000, [](Gen &g, Ctx &c) { FpPolymodA a = fp(g); ResX<FpPolymodA>(a, g, c).power(); });
  p.add("f2-mixed-refused", 5000, 50000, [](Gen &g, Ctx &c) {
    F2PolymodA a = f2(g), b = f2(g);
    if (a.m.p.eq(a.m.m, b.m.m)) throw Discard();
    ResX<F2PolymodA>(a, g, c).mixed(b);
  });
  p.add("fp-mixed-refused", 5000, 50000, [](Gen &g, Ctx &c) {
    FpPolymodA a = fp(g);
    PZn P{Zn{a.p()}};
    FpPolymodA b(a.p(), P.random_monic(g, 1 + (int)g.below(4)));
    if (a.m.p.eq(a.m.m, b.m.m)) throw Discard();
    ResX<FpPolymodA>(a, g, c).mixed(b);
  });
  p.add("independent", 800, 32000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C08"); });
  return engine_main(argc, argv, p);
}
