// C23: cyclotomic polynomials and reduction of rationals to finite fields.
#include "pure.h"
#include "resx.h"
#include "cyclox.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
using namespace bind;
using namespace pbt;
namespace qc = spffl::q_cyclotomic;

static PZn P2{Zn{2}};
static void cyclotomic(Gen &g, Ctx &c) {
  int n = 1 + (int)(g.flip() ? g.below(60) : g.skewed(600));
  if (g.chance(1, 8)) n = 105 * (1 + (int)g.below(4));
  u64 p = gen_prime(g, g.flip() ? 20 : 100000);
  int mode = (int)g.below(6);
  c.log << "n " << n << " target " << mode << " p " << p;
  c.nontrivial = n > 1;
  IP f = cyclo(n);
  c.label(n >= 105 ? "n at least 105" : "n below 105");
  switch (mode) {
  case 0: {
    QPolyA a;
    auto got = a.get(qc::get_cyclo_qpoly(n));
    REQUIRE_(c, a.m.eq(got, reduce(a, f)), "over Q: " << a.m.show(got));
    break;
  }
  case 1: {
    F2PolyA a;
    auto got = a.get(qc::get_cyclo_f2_poly(n));
    REQUIRE_(c, a.m.eq(got, reduce(a, f)), "over F2: " << a.m.show(got));
    break;
  }
  case 2: {
    FpPolyA a(p);
    auto got = a.get(qc::get_cyclo_fp_poly(n, (int)p));
    REQUIRE_(c, a.m.eq(got, reduce(a, f)), "over Fp: " << a.m.show(got));
    break;
  }
  case 3: {
    F2nPolyA a(P2.random_irreducible(g, 1 + (int)g.below(8)));
    auto got = a.get(qc::get_cyclo_f2n_poly(n, a.c.lm));
    REQUIRE_(c, a.m.eq(got, reduce(a, f)), "over F2n: " << a.m.show(got));
    break;
  }
  case 4: {
    if (p > 1000) throw Discard();
    FpnPolyA a(p, PZn{Zn{p}}.random_irreducible(g, 1 + (int)g.below(4)));
    auto got = a.get(qc::get_cyclo_fpn_poly(n, a.c.lm));
    REQUIRE_(c, a.m.eq(got, reduce(a, f)), "over Fpn: " << a.m.show(got));
    break;
  }
  default: {
    int bad = -(int)g.skewed(1000);
    REQUIRE_(c, refuses([&]() { qc::get_cyclo_qpoly(bad); }), "index " << bad << " was not refused");
    REQUIRE_(c, refuses([&]() { qc::get_cyclo_fp_poly(bad, (int)p); }), "index " << bad << " was not refused over Fp");
  }
  }
}
// x^n - 1 is the product over the divisors, in whatever order they are asked for
static void product(Gen &g, Ctx &c) {
  int n = 1 + (int)g.skewed(200);
  c.log << "n " << n;
  std::vector<int> ds;
  for (int d = 1; d <= n; d++)
    if (n % d == 0) ds.push_back(d);
  c.nontrivial = ds.size() > 2;
  for (size_t i = ds.size(); i-- > 1;) std::swap(ds[i], ds[(size_t)g.below(i + 1)]);
  q_poly_t r(1);
  for (int d : ds) r *= qc::get_cyclo_qpoly(d);
  QPolyA a;
  REQUIRE_(c, a.m.eq(a.get(r), a.m.sub(a.m.xpow(n), a.m.one())), "product is " << a.m.show(a.get(r)));
}
template <class A> void check_poly(Ctx &c, const A &a, const typename A::T &x, const typename A::M::E &w, const std::string &what) {
  auto e = a.get(x);
  REQUIRE_(c, a.m.eq(e, w), what << " is " << a.m.show(e) << ", not " << a.m.show(w));
}
static void reduction(Gen &g, Ctx &c) {
  QPolyA qa;
  u64 p = gen_prime(g, g.flip() ? 7 : 100000);
  int mode = (int)g.below(6);
  if (mode == 0 || mode == 2 || mode == 4) p = 2;
  if (mode == 5 && p > 2000) p = 5;
  QPolyA::M::E f;
  int d = (int)g.below(7);
  if (mode < 2) d = 0;
  bool bad = false, want_bad = g.chance(1, 6);
  int lim = g.flip() ? 20 : 0x7fffffff;
  for (int i = 0; i <= d; i++) {
    i64 num = g.skewed_signed((u64)lim), den = 1 + (i64)g.skewed((u64)lim - 1);
    if (!want_bad)
      while (den % (i64)p == 0) den /= (i64)p;
    f.push_back(qa.m.r.frac(num, den));
  }
  qa.m.trim(f);
  for (auto &x : f) bad = bad || x.d % (i128)p == 0;
  c.log << "p " << p << " mode " << mode << ": " << qa.m.show(f);
  c.nontrivial = !f.empty();
  c.label(bad ? "a denominator vanishes" : "all denominators invertible");
  Zn z{p};
  auto one = [&](const QQ::E &x) {
    u64 iv = 1;
    z.inv(pmod(x.d, p), iv);
    return z.mul((u64)pmod(x.n, p), iv);
  };
  auto img = [&](const auto &a) {
    typename std::decay<decltype(a.m)>::type::E w;
    for (auto &x : f) w.push_back(a.m.r.of((i64)one(x)));
    a.m.trim(w);
    return w;
  };
  auto lf = qa.make(f);
  auto guard = [&](auto conv) {
    REQUIRE_(c, refuses([&]() { conv(); }) == bad, "vanishing denominator " << (bad ? "was not" : "was wrongly") << " refused");
  };
  IntratA ra;
  auto scalar = [&]() { return ra.make(f.empty() ? qa.m.r.zero() : f[0]); };
  switch (mode) {
  case 0:
    guard([&]() { qc::bit_from_rat(scalar()); });
    if (!bad) REQUIRE_(c, (u64)qc::bit_from_rat(scalar()).get_residue() == (f.empty() ? 0 : one(f[0])), "bit");
    break;
  case 1:
    guard([&]() { qc::intmod_from_rat(scalar(), (int)p); });
    if (!bad) {
      auto r = qc::intmod_from_rat(scalar(), (int)p);
      REQUIRE_(c, (u64)r.get_residue() == (f.empty() ? 0 : one(f[0])) && (u64)r.get_modulus() == p, "residue " << r.get_residue());
    }
    break;
  case 2:
    guard([&]() { qc::f2_poly_from_q_poly(lf); });
    if (!bad) check_poly(c, F2PolyA(), qc::f2_poly_from_q_poly(lf), img(F2PolyA()), "over F2");
    break;
  case 3:
    guard([&]() { qc::fp_poly_from_qpoly(lf, (int)p); });
    if (!bad) check_poly(c, FpPolyA(p), qc::fp_poly_from_qpoly(lf, (int)p), img(FpPolyA(p)), "over Fp");
    break;
  case 4: {
    F2nPolyA a(P2.random_irreducible(g, 1 + (int)g.below(8)));
    guard([&]() { qc::f2n_poly_from_qpoly(lf, a.c.lm); });
    if (!bad) check_poly(c, a, qc::f2n_poly_from_qpoly(lf, a.c.lm), img(a), "over F2n");
    break;
  }
  case 5: {
    FpnPolyA a(p, PZn{Zn{p}}.random_irreducible(g, 1 + (int)g.below(4)));
    guard([&]() { qc::fpn_poly_from_qpoly(lf, a.c.lm); });
    if (!bad) check_poly(c, a, qc::fpn_poly_from_qpoly(lf, a.c.lm), img(a), "over Fpn");
    break;
  }
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C23";
  p.rule_text =
      "Cyclotomic polynomials with index up to 600 (multiples of 105 among them) over Q, F2, Fp, F2n and Fpn, in any order of "
      "asking, against the product of (x^d-1)^mu(n/d) over the integers; products over all divisors; rationals and rational "
      "polynomials (full int numerators and denominators) reduced to each field against the model, vanishing denominators "
      "refused. Non-trivial: index above one; a non-zero polynomial.";
  p.assumptions = {};
  p.add("cyclotomic", 3600, 20000, cyclotomic);
  p.add("product", 1200, 6000, product);
  p.add("reduction", 120000, 400000, reduction);
  p.add("independent", 800, 32000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C23"); });
  return engine_main(argc, argv, p);
}
