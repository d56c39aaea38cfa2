// C09: towers: residue rings of polynomials over extension fields.
#include "pure.h"
#include "resx.h"
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C09";
  p.rule_text =
      "An irreducible inner modulus (degree up to 6, sometimes 11, over F2, up to 3 over primes up to 7, sometimes 300) and an outer modulus of degree "
      "up to 5 (sometimes 20), irreducible or not, monic or not; representatives of any degree, histories of ring operations, inverses, "
      "powers over the whole int range and operands of different outer moduli, compared with a two-level model. "
      "Non-trivial: at least two arithmetic steps, or an operand that is not a constant.";
  p.assumptions = {"the inner modulus is irreducible", "the outer modulus has degree at least 1"};
  static auto outer = [](Gen &g, const auto &P) {
    auto m = g.flip() ? P.random_irreducible(g, 1 + (int)g.skewed(4)) : P.random_monic(g, 1 + (int)g.skewed(g.chance(1, 10) ? 20 : 5));
    if (g.chance(1, 3)) m = P.scale(m, P.random_nonzero(g));
    return m;
  };
  static auto f2n = [](Gen &g) {
    PZn P{Zn{2}};
    F2nPolyA b(P.random_irreducible(g, 1 + (int)g.skewed(g.chance(1, 10) ? 11 : 6)));
    return F2nPolymodA(b, outer(g, b.m));
  };
  static auto fpn = [](Gen &g) {
    u64 q = gen_prime(g, g.chance(1, 8) ? 300 : 7);
    PZn P{Zn{q}};
    FpnPolyA b(q, P.random_irreducible(g, 1 + (int)g.skewed(q <= 7 ? 3 : q <= 60 ? 2 : 0)));
    return FpnPolymodA(b, outer(g, b.m));
  };
  p.add("f2n-history", 1750, 60000, [](Gen &g, Ctx &c) { F2nPolymodA a = f2n(g); HistOpts o; o.order = true; ring_history(a, g, c, o); });
  p.add("fpn-history", 1750, 60000, [](Gen &g, Ctx &c) { FpnPolymodA a = fpn(g); HistOpts o; o.order = true; ring_history(a, g, c, o); });
  p.add("f2n-basics", 2100, 60000, [](Gen &g, Ctx &c) { F2nPolymodA a = f2n(g); ResX<F2nPolymodA>(a, g, c).basics(); });
  p.add("fpn-basics", 2100, 60000, [](Gen &g, Ctx &c) { FpnPolymodA a = fpn(g); ResX<FpnPolymodA>(a, g, c).basics(); });
  p.add("f2n-inverse", 2100, 60000, [](Gen &g, Ctx &c) { F2nPolymodA a = f2n(g); ResX<F2nPolymodA>(a, g, c).inverse(); });
  p.add("fpn-inverse", 2100, 60000, [](Gen &g, Ctx &c) { FpnPolymodA a = fpn(g); ResX<FpnPolymodA>(a, g, c).inverse(); });
  p.add("f2n-power", 700, 20000, [](Gen &g, Ctx &c) { F2nPolymodA a = f2n(g); ResX<F2nPolymodA>(a, g, c).power(); });
  p.add("fpn-power", 700, 20000, [](Gen &g, Ctx &c) { FpnPolymodA a = fpn(g); ResX<FpnPolymodA>(a, g, c).power(); });
  p.add("f2n-mixed-refused", 1050, 20000, [](Gen &g, Ctx &c) {
    F2nPolymodA a = f2n(g);
    F2nPolymodA b(a.p, outer(g, a.p.m));
    if (a.m.p.eq(a.m.m, b.m.m)) throw Discard();
    ResX<F2nPolymodA>(a, g, c).mixed(b);
  });
  p.add("fpn-mixed-refused", 1050, 20000, [](Gen &g, Ctx &c) {
    FpnPolymodA a = fpn(g);
    FpnPolymodA b(a.p, outer(g, a.p.m));
    if (a.m.p.eq(a.m.m, b.m.m)) throw Discard();
    ResX<FpnPolymodA>(a, g, c).mixed(b);
  });
  p.add("independent", 500, 20000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C09"); });
  return engine_main(argc, argv, p);
}
