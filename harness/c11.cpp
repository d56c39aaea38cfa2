// C11: factorization and irreducibility of polynomials over finite fields.
#include "pure.h"
#include "facx.h"
using namespace bind;
using namespace pbt;

template <class A> void check_factorization(Ctx &c, const A &a, const typename A::M::E &f, const std::vector<std::pair<typename A::M::E, int>> *want) {
  typedef typename A::T T;
  auto &P = a.m;
  T lf = a.make(f);
  auto info = lib_factor(lf);
  auto prod = P.one();
  T u;
  if (info.get_unit(u)) {
    auto e = a.get(u);
    REQUIRE_(c, P.deg(e) == 0, "the unit is " << P.show(e));
    prod = e;
  }
  int n = info.get_num_distinct(), total = 0;
  std::vector<typename A::M::E> seen;
  for (int i = 0; i < n; i++) {
    T lh = info.get_ith_factor(i);
    auto h = a.get(lh);
    int k = info.get_ith_count(i);
    total += k;
    REQUIRE_(c, k >= 1, "factor " << P.show(h) << " has multiplicity " << k);
    REQUIRE_(c, !h.empty() && P.r.eq(h.back(), P.r.one()), "factor " << P.show(h) << " is not monic");
    REQUIRE_(c, P.irreducible(h), "factor " << P.show(h) << " is not irreducible");
    for (auto &s : seen) REQUIRE_(c, !P.eq(s, h), "factor " << P.show(h) << " is listed twice");
    seen.push_back(h);
    if (i) REQUIRE_(c, info.get_ith_factor(i - 1) < lh, "factors are not in ascending order");
    for (int j = 0; j < k; j++) prod = P.mul(prod, h);
    if (P.deg(prod) > P.deg(f)) break;
  }
  REQUIRE_(c, P.eq(prod, f), "the factors multiply to " << P.show(prod));
  REQUIRE_(c, info.get_num_factors() == total, "number of factors " << info.get_num_factors());
  REQUIRE_(c, P.eq(a.get(info.unfactor(a.make(P.one()))), f), "unfactor does not give the polynomial back");
  if (want) {
    REQUIRE_(c, (size_t)n == want->size(), n << " distinct factors instead of " << want->size());
    for (auto &w : *want)
      for (int i = 0; i < n; i++)
        if (P.eq(seen[(size_t)i], w.first))
          REQUIRE_(c, info.get_ith_count(i) == w.second, "multiplicity of " << P.show(w.first) << " is " << info.get_ith_count(i));
  }
  REQUIRE_(c, P.eq(a.get(lf), f), "the argument changed");
}
template <class A> void planted(Gen &g, Ctx &c, const A &a, int md, int top = 12) {
  auto pl = plant(a, g, md, false, top);
  c.log << show_plant(a, pl);
  int nf = 0;
  for (auto &q : pl.parts) nf += q.second;
  c.nontrivial = nf >= 2;
  c.label(pl.parts.size() == 1 ? (nf > 1 ? "power of an irreducible" : "irreducible")
                               : nf > (int)pl.parts.size() ? "repeated factors" : "squarefree");
  check_factorization(c, a, pl.f, &pl.parts);
  REQUIRE_(c, lib_irr(a.make(pl.f)) == (nf == 1), "irreducible: " << lib_irr(a.make(pl.f)));
}
template <class A> void arbitrary(Gen &g, Ctx &c, const A &a, int md) {
  auto f = a.m.random_exact(g, (int)g.below((u64)md + 1));
  c.log << a.name() << ": " << a.m.show(f);
  c.nontrivial = f.size() > 2;
  check_factorization<A>(c, a, f, nullptr);
  bool irr = a.m.irreducible(f);
  c.label(irr ? "irreducible" : "reducible");
  REQUIRE_(c, lib_irr(a.make(f)) == irr, "irreducible: " << lib_irr(a.make(f)));
}
// products of two irreducibles of the same degree: the hardest reducibles to notice
template <class A> void balanced(Gen &g, Ctx &c, const A &a, int md) {
  int d = 1 + (int)g.below((u64)md / 2);
  auto h = a.m.random_irreducible(g, d), k = a.m.random_irreducible(g, d);
  auto s = a.m.constant(a.m.random_nonzero(g));
  auto f = a.m.mul(s, a.m.mul(h, k));
  c.log << a.name() << ": " << a.m.show(f) << " = " << a.m.show(s) << " * " << a.m.show(h) << " * " << a.m.show(k);
  c.nontrivial = true;
  REQUIRE_(c, !lib_irr(a.make(f)), "a product is called irreducible");
  h = a.m.mul(h, s);
  REQUIRE_(c, lib_irr(a.make(h)), a.m.show(h) << " is not called irreducible");
}
// polynomials with many factors: x^n - 1, x^(q^k) - x, products of (x - a) over a set
// of elements, products of all irreducibles of a degree
template <class A> void structured(Gen &g, Ctx &c, const A &a, int md) {
  auto &P = a.m;
  auto &K = P.r;
  u64 q = K.size();
  typename A::M::E f;
  std::string what;
  std::vector<std::pair<typename A::M::E, int>> want;
  bool know = false;
  switch (g.below(4)) {
  case 0: {
    int n = 1 + (int)g.below((u64)md);
    f.assign((size_t)n + 1, K.zero());
    f[0] = K.neg(K.one());
    f[(size_t)n] = K.one();
    what = "x^n - 1";
    break;
  }
  case 1: {
    u64 n = q;
    while (n * q <= (u64)md && g.flip()) n *= q;
    if (n > (u64)md) throw Discard();
    f.assign((size_t)n + 1, K.zero());
    f[1] = K.neg(K.one());
    f[(size_t)n] = K.one();
    what = "x^(q^k) - x";
    break;
  }
  case 2: {
    f = P.one();
    int e = 1 + (int)g.skewed(2);
    for (u64 i = 0; i < q && P.deg(f) + e <= md; i++)
      if (g.below(4)) {
        typename A::M::E h{K.neg(K.element(i)), K.one()};
        want.push_back({h, e});
        for (int k = 0; k < e; k++) f = P.mul(f, h);
      }
    know = true;
    what = "linear factors";
    break;
  }
  default: {
    int d = 1 + (int)g.below(q == 2 ? 6 : q <= 4 ? 3 : 2);
    f = P.one();
    u64 m = 1;
    for (int i = 0; i < d; i++) m *= q;
    if (m > 3000) throw Discard();
    for (u64 i = 0; i < m && P.deg(f) + d <= md; i++) {
      auto e = P.element(i);
      e.resize((size_t)d + 1, K.zero());
      e[(size_t)d] = K.one();
      if (!P.irreducible(e)) continue;
      want.push_back({e, 1});
      f = P.mul(f, e);
    }
    know = true;
    what = "all irreducibles of a degree";
  }
  }
  if (P.deg(f) < 1) throw Discard();
  c.label(what);
  c.log << a.name() << ": " << what << " " << P.show(f);
  c.nontrivial = P.deg(f) >= 3;
  check_factorization<A>(c, a, f, know ? &want : nullptr);
}
// the lowest irreducible of a degree, in base-q numbering
template <class A> void lowest(Gen &g, Ctx &c, const A &a, int md) {
  int d = 1 + (int)g.below((u64)md);
  c.log << a.name() << " degree " << d;
  c.nontrivial = d >= 2;
  auto f = a.get(lib_find(a, d));
  c.log << " gives " << a.m.show(f);
  REQUIRE_(c, a.m.deg(f) == d && a.m.r.eq(f.back(), a.m.r.one()), "not monic of that degree");
  REQUIRE_(c, a.m.irreducible(f), "not irreducible");
  // every monic polynomial of this degree before it, in numbering order, is reducible
  u64 q = a.m.r.size(), idx = 0;
  std::vector<u64> dig;
  for (int i = d - 1; i >= 0; i--) {
    u64 k = 0;
    while (!a.m.r.eq(a.m.r.element(k), f[(size_t)i])) k++;
    idx = idx * q + k;
    if (idx > 3000) throw Discard();
  }
  for (u64 i = 0; i < idx; i++) {
    auto e = a.m.element(i);
    e.resize((size_t)d + 1, a.m.r.zero());
    if (a.m.r.is_zero(e[0])) continue; // x is never offered
    e[(size_t)d] = a.m.r.one();
    REQUIRE_(c, !a.m.irreducible(e), "the lower " << a.m.show(e) << " is irreducible too");
  }
}
template <class A> void random_one(Gen &g, Ctx &c, const A &a, int md) {
  int d = 1 + (int)g.below((u64)md);
  c.log << a.name() << " degree " << d;
  c.nontrivial = d >= 2;
  // x itself has constant coefficient 0 and is never drawn; over F2 degree 1 leaves x+1
  auto f = a.get(lib_random_irr(a, d));
  c.log << " gives " << a.m.show(f);
  REQUIRE_(c, a.m.deg(f) == d && a.m.irreducible(f), a.m.show(f) << " is not irreducible of degree " << d);
  REQUIRE_(c, a.m.r.eq(f.back(), a.m.r.one()), a.m.show(f) << " is not monic");
  int bad = -(int)g.below(4);
  REQUIRE_(c, refuses([&]() { lib_find(a, bad); }), "degree " << bad << " was not refused");
  REQUIRE_(c, refuses([&]() { lib_random_irr(a, bad); }), "degree " << bad << " was not refused");
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C11";
  p.rule_text =
      "Polynomials over F2 (degree up to 134), prime fields up to 60 (degree up to 40) and extensions of F2 up to 32 elements "
      "(degree up to 22): products of generated irreducibles with multiplicities around the characteristic and its powers, "
      "with and without a unit; x^n - 1, x^(q^k) - x, all linear factors, all irreducibles of a degree; arbitrary polynomials; products of two irreducibles of equal degree. Factors are checked for "
      "irreducibility by Rabin's test on the model and multiplied back. Non-trivial: at least two factors (planted), degree "
      "at least 2 (arbitrary, search).";
  p.assumptions = {"the zero polynomial has no factorization and is not explored",
      "the library's comparison order is checked elsewhere; here factors must be ascending in it"};
  static auto fp = [](Gen &g) { return FpPolyA(gen_prime(g, g.chance(1, 5) ? 60 : 12)); };
  static auto f2n = [](Gen &g) { PZn P{Zn{2}}; return F2nPolyA(P.random_irreducible(g, 1 + (int)g.skewed(5))); };
  static F2PolyA f2;
  p.add("f2-planted", 6000, 60000, [](Gen &g, Ctx &c) { planted(g, c, f2, 48); });
  p.add("fp-planted", 3000, 60000, [](Gen &g, Ctx &c) { planted(g, c, fp(g), 24); });
  p.add("f2n-planted", 300, 12000, [](Gen &g, Ctx &c) { planted(g, c, f2n(g), 12); });
  p.add("f2-large", 160, 4000, [](Gen &g, Ctx &c) { planted(g, c, f2, 60 + (int)g.below(75), 40); });
  p.add("fp-large", 100, 3000, [](Gen &g, Ctx &c) { planted(g, c, fp(g), 25 + (int)g.below(16), 16); });
  p.add("f2n-large", 60, 1000, [](Gen &g, Ctx &c) { planted(g, c, f2n(g), 13 + (int)g.below(10), 8); });
  p.add("f2-structured", 400, 4000, [](Gen &g, Ctx &c) { structured(g, c, f2, 130); });
  p.add("fp-structured", 400, 4000, [](Gen &g, Ctx &c) { structured(g, c, fp(g), 50); });
  p.add("f2n-structured", 160, 2000, [](Gen &g, Ctx &c) { structured(g, c, f2n(g), 24); });
  p.add("f2-arbitrary", 2500, 60000, [](Gen &g, Ctx &c) { arbitrary(g, c, f2, 40); });
  p.add("fp-arbitrary", 3000, 60000, [](Gen &g, Ctx &c) { arbitrary(g, c, fp(g), 12); });
  p.add("f2n-arbitrary", 300, 12000, [](Gen &g, Ctx &c) { arbitrary(g, c, f2n(g), 8); });
  p.add("f2-balanced", 1500, 60000, [](Gen &g, Ctx &c) { balanced(g, c, f2, 40); });
  p.add("fp-balanced", 2000, 60000, [](Gen &g, Ctx &c) { balanced(g, c, fp(g), 12); });
  p.add("f2n-balanced", 300, 12000, [](Gen &g, Ctx &c) { balanced(g, c, f2n(g), 6); });
  p.add("f2-lowest", 300, 2000, [](Gen &g, Ctx &c) { lowest(g, c, f2, 24); });
  p.add("fp-lowest", 600, 6000, [](Gen &g, Ctx &c) { lowest(g, c, fp(g), 6); });
  p.add("f2n-lowest", 200, 3000, [](Gen &g, Ctx &c) { lowest(g, c, f2n(g), 3); });
  p.add("f2-random", 1500, 12000, [](Gen &g, Ctx &c) { random_one(g, c, f2, 24); });
  p.add("fp-random", 1000, 12000, [](Gen &g, Ctx &c) { random_one(g, c, fp(g), 8); });
  p.add("f2n-random", 300, 3000, [](Gen &g, Ctx &c) { random_one(g, c, f2n(g), 4); });
  p.add("f2n-roots", 500, 12000, [](Gen &g, Ctx &c) {
    F2nPolyA a = f2n(g);
    PFq::E f = g.flip() ? plant(a, g, 8).f : a.m.random_exact(g, (int)g.below(9));
    c.log << a.name() << ": " << a.m.show(f);
    std::vector<Fq::E> want;
    for (u64 i = 0; i < a.c.m.size(); i++) {
      auto e = a.c.m.element(i);
      if (a.m.r.is_zero(a.m.eval(f, e))) want.push_back(e);
    }
    c.nontrivial = want.size() >= 2;
    tvector<f2_polymod_t> got;
    bool any = sf::f2n_poly_roots(a.make(f), got);
    REQUIRE_(c, any == !want.empty(), "has roots: " << any << " but it has " << want.size());
    if (!any) return;
    REQUIRE_(c, (size_t)got.get_num_elements() == want.size(), got.get_num_elements() << " roots instead of " << want.size());
    for (auto &w : want) {
      int hits = 0;
      for (int i = 0; i < got.get_num_elements(); i++) hits += a.m.r.eq(a.c.get(got[i]), w);
      REQUIRE_(c, hits == 1, "root " << a.m.r.show(w) << " listed " << hits << " times");
    }
  });
  p.add("independent", 250, 10000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C11"); });
  return engine_main(argc, argv, p);
}
