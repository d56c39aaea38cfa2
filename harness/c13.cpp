// C13: orders, generators, periods, primitive polynomials.
#include "pure.h"
#include "facx.h"
#include "resx.h"
#include "unitx.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace bind;
using namespace pbt;
namespace su = spffl::units;

static void f2_order(Gen &g, Ctx &c) {
  F2PolyA pa;
  auto pl = plant(pa, g, g.flip() ? 30 : 12, true);
  u64 phi = planted_totient(pa, pl);
  F2PolymodA a(pl.f);
  auto e = a.m.random(g);
  if (g.chance(1, 4)) e = a.m.exp(e, 3 + g.below(30));
  c.log << show_plant(pa, pl) << "; order of " << a.m.show(e);
  Fq::E iv;
  f2_polymod_t x = a.make(e);
  if (!a.m.inv(e, iv)) {
    c.label("not a unit");
    REQUIRE_(c, refuses([&]() { su::f2_polymod_order(x); }), "a non-unit has order " << su::f2_polymod_order(x));
    return;
  }
  u64 n = model_order(a.m, e, phi);
  c.nontrivial = n > 1 && n < phi;
  c.label(n == phi ? "generators" : "non-generators");
  REQUIRE_(c, (u64)su::f2_polymod_order(x) == n, "order " << su::f2_polymod_order(x) << ", not " << n);
}
static void f2n_order(Gen &g, Ctx &c) {
  PZn P{Zn{2}};
  F2nPolyA pa(P.random_irreducible(g, 1 + (int)g.skewed(4)));
  auto pl = plant(pa, g, 5);
  u64 phi = planted_totient(pa, pl);
  F2nPolymodA a(pa, pl.f);
  auto e = a.m.random(g);
  if (g.chance(1, 4)) e = a.m.exp(e, 3 + g.below(30));
  c.log << show_plant(pa, pl) << "; order of " << a.m.show(e);
  Fqn::E iv;
  f2n_polymod_t x = a.make(e);
  if (!a.m.inv(e, iv)) {
    c.label("not a unit");
    REQUIRE_(c, refuses([&]() { su::f2n_polymod_order(x); }), "a non-unit has an order");
    return;
  }
  u64 n = model_order(a.m, e, phi);
  c.nontrivial = n > 1 && n < phi;
  c.label(n == phi ? "generators" : "non-generators");
  REQUIRE_(c, (u64)su::f2n_polymod_order(x) == n, "order " << su::f2n_polymod_order(x) << ", not " << n);
}
static void fp_order(Gen &g, Ctx &c) {
  int m = 2 + (int)g.skewed(g.chance(1, 3) ? 30000 : 400);
  IntmodA a((u64)m);
  u64 e = g.below((u64)m);
  if (g.chance(1, 3)) { u64 b = e; for (u64 k = g.below(12); k; k--) e = a.m.mul(e, b); }
  c.log << "order of " << e << " mod " << m;
  intmod_t x = a.make(e);
  if (igcd(e, m) != 1) {
    REQUIRE_(c, refuses([&]() { su::fp_order(x); }), "a non-unit has an order");
    return;
  }
  u64 phi = totient((u64)m), n = model_order(a.m, e, phi);
  c.nontrivial = n > 1 && n < phi;
  c.label(n == phi ? "generators" : "non-generators");
  REQUIRE_(c, (u64)su::fp_order(x) == n, "order " << su::fp_order(x) << ", not " << n);
}
static void fp_generator(Gen &g, Ctx &c) {
  int m = 2 + (int)g.skewed(g.chance(1, 8) ? 5000 : 300);
  c.log << "generator mod " << m;
  auto f = factor((u64)m);
  size_t odd = 0;
  int twos = 0;
  for (auto &pe : f) {
    if (pe.first == 2) twos = pe.second;
    else odd++;
  }
  bool cyclic = m == 2 || m == 4 || (odd == 1 && twos <= 1);
  c.label(cyclic ? "cyclic" : "not cyclic");
  c.nontrivial = m > 4;
  IntmodA a((u64)m);
  intmod_t x(0, m);
  bool got = su::fp_find_generator(m, x);
  REQUIRE_(c, got == cyclic, "found: " << got);
  if (!got) return;
  u64 e = a.get(x);
  REQUIRE_(c, model_order(a.m, e, totient((u64)m)) == totient((u64)m), e << " does not generate the units");
}
static void f2_generator(Gen &g, Ctx &c) {
  F2PolyA pa;
  bool irr = g.flip();
  Planted<F2PolyA> pl;
  if (irr) {
    pl.f = pa.m.random_irreducible(g, 1 + (int)g.below(16));
    pl.parts.push_back({pl.f, 1});
    pl.unit = 1;
  } else
    pl = plant(pa, g, 8, true);
  u64 phi = planted_totient(pa, pl);
  F2PolymodA a(pl.f);
  c.log << "generator of " << a.name();
  c.nontrivial = pl.f.size() > 3;
  bool cyclic = irr;
  Fq::E iv;
  if (!irr) // search
    for (u64 i = 1; i < a.m.size() && !cyclic; i++) {
      auto e = a.m.element(i);
      if (a.m.inv(e, iv)) cyclic = model_order(a.m, e, phi) == phi;
    }
  c.label(cyclic ? "cyclic" : "not cyclic");
  f2_polymod_t x;
  bool got = su::f2_polymod_find_generator(a.lm, x);
  REQUIRE_(c, got == cyclic, "found: " << got << ", but the units are " << (cyclic ? "" : "not ") << "cyclic");
  if (got) REQUIRE_(c, model_order(a.m, a.get(x), phi) == phi, "not a generator");
}
static void f2n_generator(Gen &g, Ctx &c) {
  PZn P{Zn{2}};
  F2nPolyA pa(P.random_irreducible(g, 1 + (int)g.skewed(4)));
  Planted<F2nPolyA> pl;
  bool irr = g.flip();
  if (irr) {
    pl.f = pa.m.random_irreducible(g, 1 + (int)g.below(3));
    pl.parts.push_back({pl.f, 1});
  } else
    pl = plant(pa, g, 2);
  u64 phi = planted_totient(pa, pl);
  F2nPolymodA a(pa, pl.f);
  c.log << "generator of " << a.name();
  c.nontrivial = phi > 3;
  bool cyclic = irr;
  Fqn::E iv;
  for (u64 i = 1; i < a.m.size() && !cyclic; i++) {
    auto e = a.m.element(i);
    if (a.m.inv(e, iv)) cyclic = model_order(a.m, e, phi) == phi;
  }
  c.label(cyclic ? "cyclic" : "not cyclic");
  f2n_polymod_t x;
  bool got = su::f2n_polymod_find_generator(a.lm, x);
  REQUIRE_(c, got == cyclic, "found: " << got << ", but the units are " << (cyclic ? "" : "not ") << "cyclic");
  if (got) REQUIRE_(c, model_order(a.m, a.get(x), phi) == phi, "not a generator");
}
static void period(Gen &g, Ctx &c) {
  F2PolyA pa;
  Planted<F2PolyA> pl;
  if (g.chance(1, 3)) {
    pl.f = pa.m.random_irreducible(g, 1 + (int)g.below(26));
    pl.parts.push_back({pl.f, 1});
    pl.unit = 1;
  } else
    pl = plant(pa, g, g.flip() ? 30 : 10, true);
  u64 phi = planted_totient(pa, pl);
  c.log << "period of " << show_plant(pa, pl);
  F2PolymodA a(pl.f);
  f2_poly_t lf = pa.make(pl.f);
  c.nontrivial = pl.f.size() > 3;
  if (pl.f[0] == 0) {
    REQUIRE_(c, su::f2_poly_period(lf) == 0, "period of a multiple of x is " << su::f2_poly_period(lf));
    REQUIRE_(c, !su::f2_poly_is_primitive(lf), "a multiple of x is primitive");
    return;
  }
  u64 n = x_order(a, phi);
  c.label(n == phi ? (pl.parts.size() == 1 && pl.parts[0].second == 1 ? "primitive, irreducible" : "primitive, reducible") : "not primitive");
  REQUIRE_(c, (u64)su::f2_poly_period(lf) == n, "period " << su::f2_poly_period(lf) << ", not " << n);
  REQUIRE_(c, su::f2_poly_is_primitive(lf) == (n == phi), "primitive: " << su::f2_poly_is_primitive(lf));
}
static void find_primitive(Gen &g, Ctx &c) {
  F2PolyA pa;
  int d = 1 + (int)g.below(14), irr = g.flip();
  c.log << "primitive of degree " << d << (irr ? ", irreducible" : "");
  c.nontrivial = d > 2;
  auto f = pa.get(su::f2_poly_find_prim(d, irr));
  REQUIRE_(c, pa.m.deg(f) == d, "degree " << pa.m.deg(f));
  REQUIRE_(c, model_primitive(f) && (!irr || pa.m.irreducible(f)), pa.m.show(f) << " is not primitive" << (irr ? " and irreducible" : ""));
  u64 idx = 0;
  for (int i = d; i >= 0; i--) idx = idx * 2 + f[(size_t)i];
  for (u64 i = (u64)1 << d; i < idx; i++) {
    auto e = pa.m.element(i);
    REQUIRE_(c, !(model_primitive(e) && (!irr || pa.m.irreducible(e))), "the lower " << pa.m.show(e) << " is primitive too");
  }
  auto r = pa.get(su::f2_poly_random_prim(d, irr));
  c.log << ", drawn " << pa.m.show(r);
  REQUIRE_(c, pa.m.deg(r) == d && model_primitive(r) && (!irr || pa.m.irreducible(r)), "the random one is wrong");
  int bad = -(int)g.below(80);
  REQUIRE_(c, refuses([&]() { su::f2_poly_find_prim(bad, irr); }) && refuses([&]() { su::f2_poly_random_prim(bad, irr); }), "degree " << bad << " was not refused");
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C13";
  p.rule_text =
      "Moduli built from known irreducibles (degree up to 30 over F2, towers, integers up to 30000, prime or not) with random "
      "elements and powers; orders and periods are compared with orders computed from the factored size of the unit group on "
      "the model, generators verified, non-cyclic groups detected. Non-trivial: an element whose order is neither 1 nor the "
      "whole group (orders); modulus of degree above 2 or above 4 (others).";
  p.assumptions = {"the size of the unit group fits an int", "integer moduli up to 30000 (the library's totient is linear in its argument)"};
  p.add("f2-order", 4000, 60000, f2_order);
  p.add("f2n-order", 700, 20000, f2n_order);
  p.add("fp-order", 6000, 60000, fp_order);
  p.add("fp-generator", 1500, 12000, fp_generator);
  p.add("f2-generator", 700, 12000, f2_generator);
  p.add("f2n-generator", 120, 6000, f2n_generator);
  p.add("period", 4000, 60000, period);
  p.add("find-primitive", 400, 6000, find_primitive);
  p.add("independent", 400, 16000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C13"); });
  return engine_main(argc, argv, p);
}
