// C14: discrete logarithms.
#include "pure.h"
#include "facx.h"
#include "resx.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace bind;
using namespace pbt;
namespace su = spffl::units;

// b = g^e must give back an exponent of b; a value outside <g> must be refused
template <class A, class L> void logarithm(Gen &g, Ctx &c, const A &a, u64 group, L lib_log) {
  auto pw = [&](typename A::M::E b, u64 e) {
    auto r = a.m.one();
    for (; e; e >>= 1, b = a.m.mul(b, b))
      if (e & 1) r = a.m.mul(r, b);
    return r;
  };
  auto base = a.m.random(g);
  typename A::M::E iv;
  if (g.chance(1, 3)) base = a.m.mul(base, base);
  auto x = a.make(base);
  if (!a.m.inv(base, iv)) {
    c.log << a.name() << ": log base " << a.m.show(base);
    c.label("base is not a unit");
    auto y = a.make(a.m.random(g));
    REQUIRE_(c, refuses([&]() { lib_log(x, y); }), "a base that is not a unit was not refused");
    return;
  }
  u64 e = g.flip() ? g.below(group) : g.skewed(group);
  auto b = pw(base, e);
  if (g.chance(1, 5)) {
    b = a.m.random(g);
    c.log << a.name() << ": log base " << a.m.show(base) << " of " << a.m.show(b);
    // in <base>?  walk the powers
    bool in = false;
    auto cur = a.m.one();
    u64 steps = 0;
    do {
      if (a.m.eq(cur, b)) in = true;
      cur = a.m.mul(cur, base);
      if (++steps > 5000) throw Discard();
    } while (!in && !a.m.eq(cur, a.m.one()));
    if (!in) {
      c.label("no logarithm");
      c.nontrivial = true;
      auto y = a.make(b);
      REQUIRE_(c, refuses([&]() { lib_log(x, y); }), "a value that is no power of the base has logarithm " << lib_log(x, y));
      return;
    }
  } else {
    c.log << a.name() << ": log base " << a.m.show(base) << " of its power " << e << ", " << a.m.show(b);
  }
  c.nontrivial = !a.m.eq(b, a.m.one()) && !a.m.eq(b, base);
  auto y = a.make(b);
  int l = lib_log(x, y);
  REQUIRE_(c, l >= 0 && (u64)l < 2 * group + 2 * (u64)a.m.size() + 4, "logarithm " << l << " is out of range");
  auto z = x.exp(l);
  REQUIRE_(c, z == y, "base^" << l << " is " << text_of(z));
  REQUIRE_(c, a.m.eq(pw(base, (u64)l), b), "base^" << l << " is not the value on the model");
  REQUIRE_(c, a.m.eq(a.get(x), base) && a.m.eq(a.get(y), b), "an operand changed");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C14";
  p.rule_text =
      "Units of Z/m (m up to 60000, prime or not), of F2[x]/m (degree up to 16, irreducible or not) and of towers over F2 (up "
      "to 2^12 elements): a power of a random base must give back an exponent that reproduces it; values outside the "
      "subgroup generated by the base and bases that are not units must be refused. Non-trivial: the value is neither 1 nor "
      "the base, or has no logarithm.";
  p.assumptions = {"moduli up to 60000 (the library's inverse is linear in the modulus)", "any exponent that reproduces the value is right"};
  p.add("fp", 20000, 40000, [](Gen &g, Ctx &c) {
    u64 m = 2 + g.skewed(g.chance(1, 4) ? 60000 : 2000);
    IntmodA a(m);
    logarithm(g, c, a, totient(m), [](const intmod_t &x, const intmod_t &y) { return su::fp_log(x, y); });
  });
  p.add("f2-field", 12000, 20000, [](Gen &g, Ctx &c) {
    PZn P{Zn{2}};
    F2PolymodA a(P.random_irreducible(g, 1 + (int)g.below(g.chance(1, 6) ? 16 : 10)));
    logarithm(g, c, a, a.m.size() - 1 ? a.m.size() - 1 : 1, [](const f2_polymod_t &x, const f2_polymod_t &y) { return su::f2_polymod_log(x, y); });
  });
  p.add("f2-ring", 12000, 20000, [](Gen &g, Ctx &c) {
    PZn P{Zn{2}};
    F2PolymodA a(P.random_monic(g, 1 + (int)g.below(9)));
    logarithm(g, c, a, a.m.size(), [](const f2_polymod_t &x, const f2_polymod_t &y) { return su::f2_polymod_log(x, y); });
  });
  p.add("f2n", 6000, 15000, [](Gen &g, Ctx &c) {
    PZn P{Zn{2}};
    F2nPolyA b(P.random_irreducible(g, 1 + (int)g.below(4)));
    F2nPolymodA a(b, g.flip() ? b.m.random_irreducible(g, 1 + (int)g.below(3)) : b.m.random_monic(g, 1 + (int)g.below(2)));
    logarithm(g, c, a, a.m.size(), [](const f2n_polymod_t &x, const f2n_polymod_t &y) { return su::f2n_polymod_log(x, y); });
  });
  p.add("independent", 500, 20000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C14"); });
  return engine_main(argc, argv, p);
}
