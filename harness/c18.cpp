// C18: matrices over Euclidean domains, and powers of matrices.
// The library's gcd() for its polynomials is at global scope: a template that
// uses it must see the declaration first.
#include "spffl/intmath/int_gcd.h"
namespace spffl::polynomials { class f2_poly_t; class fp_poly_t; class f2n_poly_t; }
spffl::polynomials::f2_poly_t gcd(const spffl::polynomials::f2_poly_t &a, const spffl::polynomials::f2_poly_t &b);
spffl::polynomials::fp_poly_t gcd(const spffl::polynomials::fp_poly_t &a, const spffl::polynomials::fp_poly_t &b);
spffl::polynomials::f2n_poly_t gcd(const spffl::polynomials::f2n_poly_t &a, const spffl::polynomials::f2n_poly_t &b);
static int gcd(int a, int b) { return spffl::intmath::gcd(a, b); }
#include "tmatx.h"
using namespace bind;
using namespace pbt;

// elements with small entries; degree-limited polynomials
template <class A> typename A::M::E small(Gen &g, const A &a, int size) {
  if constexpr (std::is_same<A, IntA>::value) return g.skewed_signed(size);
  else return g.chance(1, 4) ? a.m.zero() : a.m.random_deg(g, size);
}
template <class A> bool unit(const A &a, const typename A::M::E &e) {
  typename A::M::E iv;
  return a.m.inv(e, iv);
}
template <class A> void ed(Gen &g, Ctx &c, const A &a, size_t md, int size, bool det_only = false) {
  typedef typename A::T T;
  TM<A> t(a);
  typedef typename TM<A>::W W;
  typedef typename TM<A>::V V;
  const auto &K = a.m;
  size_t n = 1 + (size_t)g.below(md);
  int style = (int)g.below(det_only ? 3 : 4);
  W w = t.mm.make(n, n);
  if (style == 3) {
    // unimodular: a product of elementary matrices and units
    w = t.mm.ident(n);
    for (size_t i = 0; i < n; i++) {
      auto u = small(g, a, 0);
      if (unit(a, u)) w[i][i] = u;
      else if (g.flip()) w[i][i] = K.neg(K.one());
    }
    for (size_t k = 0; k < n + 1; k++) {
      size_t i = (size_t)g.below(n), j = (size_t)g.below(n);
      if (i == j) continue;
      auto f = small(g, a, std::min(size, 2));
      for (size_t l = 0; l < n; l++) w[i][l] = K.add(w[i][l], K.mul(f, w[j][l]));
      if (g.chance(1, 3)) std::swap(w[i], w[j]);
    }
  } else {
    for (auto &row : w)
      for (auto &x : row)
        if (style != 1 || g.below(3) == 0) x = small(g, a, size);
    if (style == 2 && n > 1) { // dependent rows
      auto f = small(g, a, 1);
      size_t i = (size_t)g.below(n), j = (size_t)g.below(n);
      if (i != j)
        for (size_t l = 0; l < n; l++) w[i][l] = K.mul(f, w[j][l]);
    }
  }
  c.log << a.name() << ": " << t.mm.show(w);
  auto det = t.mm.det_ring(w);
  c.nontrivial = n > 1 && !K.is_zero(det);
  c.label(K.is_zero(det) ? "singular" : unit(a, det) ? "unimodular" : "non-unit determinant");
  auto x = t.mk(w);
  t.checkv(c, tvector<T>(x.ed_det(), 1), V{det}, "determinant");
  t.check(c, x, w, "the matrix after taking its determinant");
  if (det_only) return;
  // inverse exists in the ring exactly when the determinant is a unit
  tmatrix<T> inv;
  bool ok = x.ed_inverse(inv);
  REQUIRE_(c, ok == unit(a, det), "inverse found: " << ok << ", determinant " << K.show(det));
  if (ok) {
    W iv = t.get(inv, "inverse");
    REQUIRE_(c, t.mm.eq(t.mm.mul(w, iv), t.mm.ident(n)) && t.mm.eq(t.mm.mul(iv, w), t.mm.ident(n)),
        "inverse is " << t.mm.show(iv));
  }
  t.check(c, x, w, "the matrix after inverting");
}
template <class A> void reduce(Gen &g, Ctx &c, const A &a, size_t md, int size) {
  // row reduction over the ring keeps the row space over the fractions: same
  // rank, staircase shape, every original row in the span
  typedef typename A::T T;
  TM<A> t(a);
  typedef typename TM<A>::W W;
  const auto &K = a.m;
  size_t m = 1 + (size_t)g.below(md), n = 1 + (size_t)g.below(md);
  W w = t.mm.make(m, n);
  for (auto &row : w)
    for (auto &x : row) x = g.below(4) ? small(g, a, size) : K.zero();
  c.log << a.name() << ": " << t.mm.show(w);
  c.nontrivial = m > 1 && n > 1;
  bool ech = g.flip();
  auto x = t.mk(w);
  if (ech) x.ed_row_echelon_form();
  else x.ed_row_reduce_below();
  W q = t.get(x, "reduced");
  int last = -1;
  bool zeros = false;
  std::vector<size_t> piv;
  for (size_t i = 0; i < m; i++) {
    size_t k = 0;
    while (k < n && K.is_zero(q[i][k])) k++;
    if (k == n) {
      zeros = true;
      continue;
    }
    REQUIRE_(c, !zeros && (int)k > last, "not a staircase: " << t.mm.show(q));
    last = (int)k;
    piv.push_back(k);
    if (ech)
      for (size_t l = 0; l < i; l++)
        REQUIRE_(c, K.is_zero(q[l][k]), "column " << k << " not cleared above its leader: " << t.mm.show(q));
  }
  // eliminate each original row against the staircase, fraction free
  for (auto row : w) {
    for (size_t i = 0; i < piv.size(); i++) {
      auto lead = q[i][piv[i]], f = row[piv[i]];
      if (K.is_zero(f)) continue;
      for (size_t l = 0; l < n; l++) row[l] = K.sub(K.mul(row[l], lead), K.mul(q[i][l], f));
    }
    for (auto &s : row) REQUIRE_(c, K.is_zero(s), "an original row is not in the reduced row space: " << t.mm.show(q));
  }
  // and the rank is that of w: no smaller minor argument needed, compare by
  // eliminating the reduced rows against the model's own staircase
  W b(w);
  size_t r = 0;
  for (size_t col = 0; col < n && r < m; col++) {
    size_t p = r;
    while (p < m && K.is_zero(b[p][col])) p++;
    if (p == m) continue;
    std::swap(b[p], b[r]);
    for (size_t i = r + 1; i < m; i++) {
      auto f = b[i][col], lead = b[r][col];
      if (K.is_zero(f)) continue;
      for (size_t l = 0; l < n; l++) b[i][l] = K.sub(K.mul(b[i][l], lead), K.mul(b[r][l], f));
    }
    r++;
  }
  REQUIRE_(c, piv.size() == r, "rank " << piv.size() << " after reduction, " << r << " before");
}
template <class A> void rowgcd(Gen &g, Ctx &c, const A &a, int size) {
  TM<A> t(a);
  const auto &K = a.m;
  typename TM<A>::V v;
  size_t n = 1 + (size_t)g.below(6);
  auto f = small(g, a, size);
  for (size_t i = 0; i < n; i++) v.push_back(K.mul(f, small(g, a, size)));
  c.log << a.name() << ": " << t.sv(v);
  bool any = false;
  for (auto &x : v) any = any || !K.is_zero(x);
  if (!any) throw Discard();
  c.nontrivial = n > 1 && !unit(a, f);
  auto lv = t.mkv(v);
  auto got = a.get(lv.vgcd());
  if constexpr (std::is_same<A, IntA>::value) {
    i128 want = 0;
    for (auto x : v) want = igcd(want, x);
    REQUIRE_(c, iabs(got) == want, "gcd of the elements " << str(got) << ", not " << str(want));
  } else {
    typename A::M::E want = K.zero();
    for (auto &x : v) want = K.gcd(want, x);
    REQUIRE_(c, !got.empty() && K.eq(K.monic(got), want), "gcd of the elements " << K.show(got) << ", not " << K.show(want));
  }
  t.checkv(c, lv, v, "the vector");
}
template <class A> void power(Gen &g, Ctx &c, const A &a, size_t md, int maxp) {
  typedef typename A::T T;
  TM<A> t(a);
  size_t n = 1 + (size_t)g.below(md);
  typename TM<A>::W w = t.mm.make(n, n), r = t.mm.ident(n);
  bool big = g.chance(1, 3); // large entries, low powers: the result alone must fit
  for (auto &row : w)
    for (auto &x : row) {
      if constexpr (std::is_same<A, IntA>::value) x = big ? g.skewed_signed(1 << 20) : g.skewed_signed(4);
      else if constexpr (std::is_same<A, IntratSA>::value)
        x = big ? a.m.frac(g.skewed_signed(1 << 18), 1 + (i64)g.skewed(1 << 18)) : a.m.random(g);
      else x = small(g, a, 2);
    }
  int p = 1 + (int)g.skewed((u64)maxp);
  c.log << a.name() << ": " << t.mm.show(w) << "^" << p;
  if (t.mm.eq(w, t.mm.make(n, n))) throw Discard();
  // repeated squaring needs these intermediate values; all must be in range
  auto b = w;
  for (int k = p; k; k >>= 1) {
    if (k & 1) r = t.mm.mul(r, b);
    if (k > 1) b = t.mm.mul(b, b);
  }
  c.nontrivial = p > 1 || big;
  auto x = t.mk(w);
  tmatrix<T> out;
  REQUIRE_(c, x.exp(p, out) == 1, "power refused");
  t.check(c, out, r, "power");
  t.check(c, x, w, "the base");
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C18";
  p.rule_text =
      "Square matrices up to 4x4 (some to 8x8) over Z, F2[x], Fp[x] and F2n[x], dense, sparse, with dependent rows and unimodular: the "
      "determinant against cofactor expansion (Berkowitz above 5x5), the inverse exactly when the determinant is a unit; fraction-free reduction "
      "against the row space; powers against repeated multiplication, large entries included. Non-trivial: more than one "
      "row and a non-zero determinant.";
  p.assumptions = {"over Z and Q the values a fraction-free elimination needs fit an int (cases outside are discarded by the model)"};
  static auto fpp = [](Gen &g) { return FpPolyA(gen_prime(g, 30)); };
  static auto f2n = [](Gen &g) { PZn P{Zn{2}}; return F2nPolyA(P.random_irreducible(g, 1 + (int)g.below(4))); };
  p.add("z-det-inverse", 51000, 400000, [](Gen &g, Ctx &c) { ed(g, c, IntA(), 3, 6); });
  p.add("f2-det-inverse", 13600, 200000, [](Gen &g, Ctx &c) { ed(g, c, F2PolyA(), 4, 5); });
  p.add("fp-det-inverse", 5100, 100000, [](Gen &g, Ctx &c) { ed(g, c, fpp(g), 3, 3); });
  p.add("f2n-det-inverse", 2550, 60000, [](Gen &g, Ctx &c) { ed(g, c, f2n(g), 3, 2); });
  // sizes and entries for which no step of a fraction-free elimination leaves an int
  p.add("z-det-larger", 6000, 100000, [](Gen &g, Ctx &c) { g.flip() ? ed(g, c, IntA(), 4, 2, true) : ed(g, c, IntA(), 5, 1, true); });
  p.add("f2-larger", 500, 8000, [](Gen &g, Ctx &c) { ed(g, c, F2PolyA(), 8, 3); });
  p.add("fp-larger", 300, 6000, [](Gen &g, Ctx &c) { ed(g, c, fpp(g), 6, 2); });
  p.add("f2n-larger", 150, 3000, [](Gen &g, Ctx &c) { ed(g, c, f2n(g), 5, 2); });
  p.add("z-reduce", 34000, 300000, [](Gen &g, Ctx &c) { reduce(g, c, IntA(), 3, 6); });
  p.add("f2-reduce", 10200, 150000, [](Gen &g, Ctx &c) { reduce(g, c, F2PolyA(), 4, 5); });
  p.add("fp-reduce", 4250, 80000, [](Gen &g, Ctx &c) { reduce(g, c, fpp(g), 4, 3); });
  p.add("z-row-gcd", 34000, 200000, [](Gen &g, Ctx &c) { rowgcd(g, c, IntA(), 2000); });
  p.add("f2-row-gcd", 13600, 100000, [](Gen &g, Ctx &c) { rowgcd(g, c, F2PolyA(), 8); });
  p.add("fp-row-gcd", 6800, 100000, [](Gen &g, Ctx &c) { rowgcd(g, c, fpp(g), 5); });
  p.add("z-power", 34000, 200000, [](Gen &g, Ctx &c) { power(g, c, IntA(), 3, 30); });
  p.add("q-power", 17000, 200000, [](Gen &g, Ctx &c) { power(g, c, IntratSA(), 2, 12); });
  p.add("f2-poly-power", 10200, 100000, [](Gen &g, Ctx &c) { power(g, c, F2PolyA(), 3, 12); });
  p.add("fp-poly-power", 3400, 60000, [](Gen &g, Ctx &c) { power(g, c, fpp(g), 2, 8); });
  return engine_main(argc, argv, p);
}
