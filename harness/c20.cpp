// C20: conversion between representations of fields of characteristic two.
#include "spffl/intmath/int_gcd.h"
namespace spffl::polynomials { class f2n_poly_t; }
spffl::polynomials::f2n_poly_t gcd(const spffl::polynomials::f2n_poly_t &a, const spffl::polynomials::f2n_poly_t &b);
#include "pure.h"
#include "resx.h"
#include "tmatx.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/units/f2_polymod_units.h"
using namespace bind;
using namespace pbt;
namespace sl = spffl::linalg;

struct Pair {
  F2PolymodA a, b;
  f2_polymod_t g1, g2;
  bool ok;
};
static bool generates(const Fq &K, const PZn::E &e) {
  u64 n = K.size() - 1;
  if (K.is_zero(e)) return false;
  for (auto &pe : factor(n))
    if (K.eq(K.exp(e, n / pe.first), K.one())) return false;
  return true;
}
// two fields, a generator of the first and its image
static Pair prepare(Gen &g, Ctx &c, int maxa, int maxb, bool divides) {
  PZn P{Zn{2}};
  int da = 1 + (int)g.below((u64)maxa), db;
  if (divides) {
    db = da * (1 + (int)g.below((u64)std::max(1, maxb / da)));
  } else db = 1 + (int)g.below((u64)maxb);
  auto ma = P.random_irreducible(g, da), mb = P.random_irreducible(g, db);
  Pair r{F2PolymodA(ma), F2PolymodA(mb), f2_polymod_t(), f2_polymod_t(), false};
  c.log << r.a.name() << " -> " << r.b.name();
  if (g.flip()) {
    bool ok = spffl::units::f2_polymod_find_generator(r.a.lm, r.g1);
    REQUIRE_(c, ok, "no generator of a field found");
    REQUIRE_(c, generates(r.a.m, r.a.get(r.g1)), "not a generator");
  } else { // any other generator
    auto e = r.a.m.random(g);
    for (int i = 0; !generates(r.a.m, e); i++) {
      if (i > 200) throw Discard();
      e = r.a.m.is_zero(e) ? r.a.m.one() : r.a.m.add(r.a.m.mul(e, r.a.m.red(r.a.m.p.xpow(1))), g.flip() ? r.a.m.one() : r.a.m.zero());
    }
    r.g1 = r.a.make(e);
  }
  c.log << ", generator " << r.a.m.show(r.a.get(r.g1));
  r.ok = sl::f2_polymod_convert_prep(r.g1, r.b.lm, r.g2);
  REQUIRE_(c, r.ok == (db % da == 0), "an embedding of degree " << da << " in degree " << db << " was " << (r.ok ? "" : "not ") << "found");
  c.label(!r.ok ? "no embedding" : da == db ? "isomorphism" : "proper embedding");
  return r;
}
// the image of e by the embedding fixed by g1 -> g2, by linear algebra-free search
static PZn::E image(const Pair &r, const PZn::E &e) {
  // write e as a polynomial in g1: walk the powers of g1 and g2 side by side
  const Fq &A = r.a.m, &B = r.b.m;
  if (A.is_zero(e)) return B.zero();
  auto x = A.one(), g1 = r.a.get(r.g1);
  auto y = B.one(), g2 = r.b.get(r.g2);
  for (u64 i = 0; i < A.size(); i++, x = A.mul(x, g1), y = B.mul(y, g2))
    if (A.eq(x, e)) return y;
  fail("model: not a power of the generator");
}
static void scalars(Gen &g, Ctx &c, int maxa, int maxb) {
  Pair r = prepare(g, c, maxa, maxb, !g.chance(1, 4));
  const Fq &A = r.a.m, &B = r.b.m;
  c.nontrivial = r.ok && A.n() > 1;
  if (!r.ok) return;
  auto conv = [&](const PZn::E &e) { return r.b.get(sl::f2_polymod_convert_scalar(r.g1, r.g2, r.a.make(e))); };
  REQUIRE_(c, B.eq(conv(r.a.get(r.g1)), r.b.get(r.g2)), "the generator is not taken to its image");
  REQUIRE_(c, generates(B, r.b.get(r.g2)) == (A.n() == B.n()) || A.n() == 1, "image of the generator");
  for (int k = 0; k < 3; k++) {
    auto u = A.random(g), v = A.random(g);
    c.log << "; " << A.show(u) << ", " << A.show(v);
    auto cu = conv(u), cv = conv(v);
    REQUIRE_(c, B.eq(cu, image(r, u)), "image of " << A.show(u) << " is " << B.show(cu));
    REQUIRE_(c, B.eq(conv(A.add(u, v)), B.add(cu, cv)), "the image of a sum is not the sum of the images");
    REQUIRE_(c, B.eq(conv(A.mul(u, v)), B.mul(cu, cv)), "the image of a product is not the product of the images");
    REQUIRE_(c, A.is_zero(u) == B.is_zero(cu), "zero");
    REQUIRE_(c, A.eq(u, v) == B.eq(cu, cv), "not one to one");
  }
  REQUIRE_(c, B.eq(conv(A.one()), B.one()), "one");
  if (A.n() == B.n()) { // back again
    auto u = A.random(g);
    auto cu = sl::f2_polymod_convert_scalar(r.g1, r.g2, r.a.make(u));
    auto back = sl::f2_polymod_convert_scalar(r.g2, r.g1, cu);
    REQUIRE_(c, A.eq(r.a.get(back), u), "there and back: " << A.show(u) << " became " << A.show(r.a.get(back)));
  }
}
static void polys(Gen &g, Ctx &c) {
  Pair r = prepare(g, c, 4, 6, true);
  F2nPolyA pa(r.a.m.m), pb(r.b.m.m);
  auto f = pa.m.random_deg(g, 5), h = pa.m.random_deg(g, 4);
  c.log << "; " << pa.m.show(f) << ", " << pa.m.show(h);
  c.nontrivial = r.a.m.n() > 1 && pa.m.deg(f) > 0;
  auto conv = [&](const typename F2nPolyA::M::E &e) { return pb.get(sl::f2_polymod_convert_poly(r.g1, r.g2, pa.make(e))); };
  auto img = [&](const typename F2nPolyA::M::E &e) {
    auto o = e;
    for (auto &x : o) x = image(r, x);
    pb.m.trim(o);
    return o;
  };
  auto cf = conv(f), ch = conv(h);
  REQUIRE_(c, pb.m.eq(cf, img(f)), "image of the polynomial is " << pb.m.show(cf) << ", not " << pb.m.show(img(f)));
  REQUIRE_(c, pb.m.eq(conv(pa.m.mul(f, h)), pb.m.mul(cf, ch)), "image of a product of polynomials");
  REQUIRE_(c, pb.m.eq(conv(pa.m.add(f, h)), pb.m.add(cf, ch)), "image of a sum of polynomials");
}
static void matrices(Gen &g, Ctx &c) {
  Pair r = prepare(g, c, 4, 6, true);
  TM<F2PolymodA> ta(r.a), tb(r.b);
  size_t n = 1 + (size_t)g.below(4), m = 1 + (size_t)g.below(4);
  auto w = ta.mm.make(n, m);
  for (auto &row : w)
    for (auto &x : row)
      if (g.below(4)) x = r.a.m.random(g);
  c.log << "; " << ta.mm.show(w);
  c.nontrivial = r.a.m.n() > 1 && n * m > 1;
  auto x = ta.mk(w);
  auto y = sl::f2_polymod_convert_matrix(r.g1, r.g2, x);
  auto want = tb.mm.make(n, m);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++) want[i][j] = image(r, w[i][j]);
  tb.check(c, y, want, "image of the matrix");
  ta.check(c, x, w, "the matrix");
  if (n == m) {
    auto d = ta.mm.det(w);
    REQUIRE_(c, r.b.m.eq(tb.mm.det(tb.get(y, "image")), image(r, d)), "determinant of the image");
  }
  REQUIRE_(c, x.get_rank() == y.get_rank(), "rank of the image");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C20";
  p.rule_text =
      "Pairs of irreducible moduli over F2 (source degree up to 6, sometimes 8, target up to 8, sometimes 9, dividing or not), any generator of the "
      "source: an embedding is found exactly when the degrees divide; converted scalars, polynomials and matrices against "
      "powers of the generators walked side by side; sums, products, determinants and ranks carried over; isomorphisms "
      "inverted. Non-trivial: an embedding of a field of more than two elements.";
  p.assumptions = {"both moduli are irreducible and the first argument generates the source field's units"};
  p.add("scalars", 300, 20000, [](Gen &g, Ctx &c) { scalars(g, c, 6, 8); });
  p.add("scalars-large", 40, 1000, [](Gen &g, Ctx &c) { scalars(g, c, 8, 9); });
  p.add("polynomials", 400, 10000, polys);
  p.add("matrices", 400, 10000, matrices);
  p.add("independent", 250, 10000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C20"); });
  return engine_main(argc, argv, p);
}
