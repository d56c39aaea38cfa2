// C21: enumeration of polynomials, residues, units, tuples, projective points.
#include <algorithm>
#include <cmath>
#include "pure.h"
#include "resx.h"
#include "tmatx.h"
#include "spffl/list/list_elements.h"
#include <climits>
using namespace bind;
using namespace pbt;
namespace ls = spffl::list;

template <class A, class V> void expect(Ctx &c, const A &a, const V &got, const std::vector<typename A::M::E> &want, const std::string &what) {
  REQUIRE_(c, (size_t)got.get_num_elements() == want.size(), what << ": " << got.get_num_elements() << " listed, not " << want.size());
  for (size_t i = 0; i < want.size(); i++) {
    auto e = a.get(got[(int)i]);
    REQUIRE_(c, a.m.eq(e, want[i]), what << ": number " << i << " is " << a.m.show(e) << ", not " << a.m.show(want[i]));
  }
}
static u64 ipow(u64 q, int e, u64 lim) {
  u64 r = 1;
  while (e-- > 0) {
    r *= q;
    if (r > lim) throw Discard();
  }
  return r;
}
// polynomials of an exact degree, in counting order
template <class A, class F> void polys(Gen &g, Ctx &c, const A &a, F lib, int maxdeg, u64 lim) {
  u64 q = a.m.r.size();
  int d = (int)g.below((u64)maxdeg + 1);
  while (d > 0 && std::pow((double)q, d + 1) > (double)lim) d--;
  c.log << a.name() << ": degree " << d;
  u64 lo = ipow(q, d, lim), hi = ipow(q, d + 1, lim * q);
  std::vector<typename A::M::E> want;
  for (u64 i = lo; i < hi; i++) want.push_back(a.m.element(i));
  c.nontrivial = d > 0;
  expect(c, a, lib(d), want, "polynomials of degree " + std::to_string(d));
}
template <class A> bool is_unit(const A &a, const typename A::M::E &e) {
  typename A::M::E iv;
  return a.m.inv(e, iv);
}
// all, units, non-units of a residue ring
template <class A, class F> void residues(Gen &, Ctx &c, const A &a, F lib, u64 lim) {
  u64 n = a.m.size();
  if (n > lim) throw Discard();
  std::vector<typename A::M::E> all, un, non;
  for (u64 i = 0; i < n; i++) {
    auto e = a.m.element(i);
    all.push_back(e);
    (is_unit(a, e) ? un : non).push_back(e);
  }
  c.log << a.name();
  c.nontrivial = n > 2;
  c.label(non.size() > 1 ? "zero divisors" : "field");
  expect(c, a, lib(ls::SP_LIST_ALL), all, "all residues");
  expect(c, a, lib(ls::SP_LIST_UNITS), un, "units");
  expect(c, a, lib(ls::SP_LIST_NON_UNITS), non, "non-units");
  for (auto t : {ls::SP_LIST_MULTIPLES, ls::SP_LIST_REL_PRIME})
    REQUIRE_(c, refuses([&]() { lib(t); }), "a list of unknown type was not refused");
}
// multiples of g and those relatively prime to it; decided by the definition
template <class A, class F> void relative(Gen &g, Ctx &c, const A &a, F lib, u64 lim) {
  u64 n = a.m.size();
  if (n > lim) throw Discard();
  auto e = a.m.random(g);
  c.log << a.name() << ": " << a.m.show(e);
  std::vector<bool> mult(n, false);
  auto idx = [&](const typename A::M::E &x) {
    for (u64 i = 0; i < n; i++)
      if (a.m.eq(a.m.element(i), x)) return i;
    fail("model: not listed");
  };
  std::vector<typename A::M::E> ms, rs;
  for (u64 i = 0; i < n; i++) mult[idx(a.m.mul(e, a.m.element(i)))] = true;
  for (u64 i = 0; i < n; i++)
    if (mult[i]) ms.push_back(a.m.element(i));
  // x is relatively prime to e when x and e generate everything: 1 - k x is a
  // multiple of e for some k
  for (u64 i = 0; i < n; i++) {
    auto x = a.m.element(i);
    bool ok = false;
    for (u64 k = 0; k < n && !ok; k++) ok = mult[idx(a.m.sub(a.m.one(), a.m.mul(a.m.element(k), x)))];
    if (ok) rs.push_back(x);
  }
  c.nontrivial = ms.size() > 1 && ms.size() < n;
  expect(c, a, lib(a.make(e), ls::SP_LIST_MULTIPLES), ms, "multiples");
  expect(c, a, lib(a.make(e), ls::SP_LIST_REL_PRIME), rs, "relatively prime elements");
}
// n-tuples and projective points
template <class A, class FA, class FP> void tuples(Gen &g, Ctx &c, const A &a, FA an, FP pn, u64 lim) {
  TM<A> t(a);
  u64 q = a.m.size();
  int n = 1 + (int)g.below(4);
  while (n > 1 && std::pow((double)q, n) > (double)lim) n--;
  if (q > lim) throw Discard();
  c.log << a.name() << ": dimension " << n;
  c.nontrivial = n > 1;
  u64 qn = ipow(q, n, lim);
  auto x = an(n);
  REQUIRE_(c, (u64)x.get_num_rows() == qn && x.get_num_cols() == n, x.get_num_rows() << " tuples of " << x.get_num_cols());
  for (u64 i = 0; i < qn; i++) {
    u64 r = i;
    for (int j = n; j-- > 0; r /= q)
      REQUIRE_(c, a.m.eq(a.get(x[(int)i][j]), a.m.element(r % q)), "tuple " << i << " component " << j);
  }
  // projective points of dimension n-1: normalised, distinct, all of them
  auto y = pn(n - 1);
  u64 np = (qn - 1) / (q - 1);
  REQUIRE_(c, (u64)y.get_num_rows() == np && y.get_num_cols() == n, y.get_num_rows() << " points of " << y.get_num_cols() << " coordinates, not " << np);
  std::vector<std::string> seen;
  for (u64 i = 0; i < np; i++) {
    auto v = t.getv(y[(int)i], "point");
    int last = n;
    while (last > 0 && a.m.is_zero(v[(size_t)last - 1])) last--;
    REQUIRE_(c, last > 0 && a.m.eq(v[(size_t)last - 1], a.m.one()), "point " << i << " " << t.sv(v) << " is not normalised");
    seen.push_back(t.sv(v));
  }
  std::sort(seen.begin(), seen.end());
  REQUIRE_(c, std::unique(seen.begin(), seen.end()) == seen.end(), "a point is listed twice");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C21";
  p.rule_text =
      "Every polynomial of an exact degree over F2, Fp and F2n; all residues, units and non-units of Z/m and of quotients of "
      "F2[x], Fp[x], F2n[y] by any modulus (up to about 2000 elements); multiples of and elements relatively prime to a residue; "
      "tuples and projective points: compared with the model's own enumeration, order and multiplicity included. Non-trivial: "
      "more than two elements; a proper non-zero ideal; dimension above one.";
  p.assumptions = {"the modulus is not constant"};
  static PZn P2{Zn{2}};
  p.add("f2-polys", 80, 2000, [](Gen &g, Ctx &c) { polys(g, c, F2PolyA(), [](int d) { return ls::f2_poly_list(d); }, 10, 3000); });
  p.add("fp-polys", 200, 6000, [](Gen &g, Ctx &c) {
    FpPolyA a(gen_prime(g, 60));
    polys(g, c, a, [&](int d) { return ls::fp_poly_list((int)a.m.r.m, d); }, 6, 1500);
  });
  p.add("f2n-polys", 120, 4000, [](Gen &g, Ctx &c) {
    F2nPolyA a(P2.random_irreducible(g, 1 + (int)g.below(5)));
    polys(g, c, a, [&](int d) { return ls::f2n_poly_list(a.c.lm, d); }, 5, 1100);
  });
  p.add("negative-degree", 30, 300, [](Gen &g, Ctx &c) {
    int d = g.chance(1, 3) ? -1 : g.chance(1, 5) ? INT_MIN : -(int)(1 + g.skewed(100000));
    int q = (int)gen_prime(g, 60);
    auto im = P2.random_irreducible(g, 1 + (int)g.below(5));
    c.log << "degree " << d << ", p=" << q;
    c.nontrivial = true;
    auto refused = [&](const char *what, auto f) {
      try {
        int n = (int)f().get_num_elements();
        fail(std::string(what) + " lists " + std::to_string(n) + " polynomials of negative degree");
      } catch (spffl::exception_t &) {
      }
    };
    refused("f2_poly_list", [&] { return ls::f2_poly_list(d); });
    refused("fp_poly_list", [&] { return ls::fp_poly_list(q, d); });
    F2nPolyA a(im);
    refused("f2n_poly_list", [&] { return ls::f2n_poly_list(a.c.lm, d); });
  });
  p.add("integers", 800, 20000, [](Gen &g, Ctx &c) {
    u64 m = 2 + g.skewed(1500);
    IntmodA a((i64)m);
    residues(g, c, a, [&](ls::sp_list_type_t t) { return ls::intmod_list((int)m, t); }, 2000);
  });
  p.add("f2-residues", 300, 8000, [](Gen &g, Ctx &c) {
    F2PolymodA a(P2.random_exact(g, 1 + (int)g.below(10)));
    residues(g, c, a, [&](ls::sp_list_type_t t) { return ls::f2_polymod_list(a.lm, t); }, 1100);
  });
  p.add("fp-residues", 300, 8000, [](Gen &g, Ctx &c) {
    u64 q = gen_prime(g, 30);
    int d = 1 + (int)g.below(5);
    while (d > 1 && std::pow((double)q, d) > 700) d--;
    FpPolymodA a(q, PZn{Zn{q}}.random_exact(g, d));
    residues(g, c, a, [&](ls::sp_list_type_t t) { return ls::fp_polymod_list(a.lm, t); }, 1000);
  });
  p.add("f2n-residues", 120, 4000, [](Gen &g, Ctx &c) {
    F2nPolyA pa(P2.random_irreducible(g, 1 + (int)g.below(4)));
    int d = 1 + (int)g.below(4);
    while (d > 1 && pa.c.m.n() * d > 9) d--;
    F2nPolymodA a(pa, pa.m.random_exact(g, d));
    residues(g, c, a, [&](ls::sp_list_type_t t) { return ls::f2n_polymod_list(a.lm, t); }, 600);
  });
  p.add("integers-relative", 800, 20000, [](Gen &g, Ctx &c) {
    u64 m = 2 + g.skewed(120);
    relative(g, c, IntmodA((i64)m), [](const intmod_t &x, ls::sp_list_type_t t) { return ls::intmod_glist(x, t); }, 150);
  });
  p.add("f2-relative", 200, 8000, [](Gen &g, Ctx &c) {
    F2PolymodA a(P2.random_exact(g, 1 + (int)g.below(5)));
    relative(g, c, a, [](const f2_polymod_t &x, ls::sp_list_type_t t) { return ls::f2_polymod_glist(x, t); }, 40);
  });
  p.add("f2-tuples", 300, 8000, [](Gen &g, Ctx &c) {
    F2PolymodA a(P2.random_irreducible(g, 1 + (int)g.below(5)));
    tuples(g, c, a, [&](int n) { return ls::f2_polymod_An_list(a.lm, n); }, [&](int n) { return ls::f2_polymod_Pn_list(a.lm, n); }, 600);
  });
  p.add("fp-tuples", 300, 8000, [](Gen &g, Ctx &c) {
    u64 q = gen_prime(g, 12);
    int d = 1 + (int)g.below(3);
    while (d > 1 && std::pow((double)q, d) > 60) d--;
    FpPolymodA a(q, PZn{Zn{q}}.random_irreducible(g, d));
    tuples(g, c, a, [&](int n) { return ls::fp_polymod_An_list(a.lm, n); }, [&](int n) { return ls::fp_polymod_Pn_list(a.lm, n); }, 600);
  });
  p.add("independent", 400, 16000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C21"); });
  return engine_main(argc, argv, p);
}
