// C19: characteristic and minimal polynomials, companion matrices,
// eigenvalues.
#include "spffl/intmath/int_gcd.h"
namespace spffl::polynomials { class f2_poly_t; class fp_poly_t; class f2n_poly_t; }
spffl::polynomials::f2_poly_t gcd(const spffl::polynomials::f2_poly_t &a, const spffl::polynomials::f2_poly_t &b);
spffl::polynomials::fp_poly_t gcd(const spffl::polynomials::fp_poly_t &a, const spffl::polynomials::fp_poly_t &b);
spffl::polynomials::f2n_poly_t gcd(const spffl::polynomials::f2n_poly_t &a, const spffl::polynomials::f2n_poly_t &b);
#include "pure.h"
#include "resx.h"
#include "tmatx.h"
#include "chpolx.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
using namespace bind;
using namespace pbt;
namespace sl = spffl::linalg;

inline f2_poly_t lib_chpol(tmatrix<bit_t> &x) { return sl::f2_char_poly(x); }
inline fp_poly_t lib_chpol(tmatrix<intmod_t> &x) { return sl::fp_char_poly(x); }
inline f2n_poly_t lib_chpol(tmatrix<f2_polymod_t> &x) { return sl::f2_polymod_characteristic_polynomial(x); }
inline tmatrix<bit_t> lib_comp(const f2_poly_t &f) { return sl::f2_companion_matrix(f); }
inline tmatrix<intmod_t> lib_comp(const fp_poly_t &f) { return sl::fp_companion_matrix(f); }
inline tmatrix<f2_polymod_t> lib_comp(const f2n_poly_t &f) { return sl::f2np_companion_matrix(f); }

// S: scalar adapter, A: polynomial adapter over the same field
template <class S, class A> void matrix_chpol(Gen &g, Ctx &c, const S &s, const A &a, size_t md) {
  TM<S> t(s);
  size_t n = 1 + (size_t)g.below(md);
  auto w = gen_matrix(g, t.mm, n);
  c.log << s.name() << ": " << t.mm.show(w);
  auto want = chpol(t.mm, w);
  c.nontrivial = n > 1 && !t.mm.eq(w, t.mm.make(n, n));
  c.label("size " + std::to_string(n));
  auto x = t.mk(w);
  auto f = lib_chpol(x);
  auto got = a.get(f);
  REQUIRE_(c, a.m.eq(got, want), "characteristic polynomial " << a.m.show(got) << ", not " << a.m.show(want));
  t.check(c, x, w, "the matrix");
  // the companion matrix of that polynomial has it as characteristic polynomial
  auto y = lib_comp(f);
  auto cw = t.mm.make(n, n);
  for (size_t i = 1; i < n; i++) cw[i][i - 1] = s.m.one();
  for (size_t i = 0; i < n; i++) cw[0][n - 1 - i] = s.m.neg(want[i]);
  t.check(c, y, cw, "companion matrix");
  auto back = a.get(lib_chpol(y));
  REQUIRE_(c, a.m.eq(back, want), "characteristic polynomial of the companion matrix " << a.m.show(back));
  // not square: refused
  if (g.chance(1, 8)) {
    tmatrix<typename S::T> z(s.make(s.m.zero()), (int)n, (int)n + 1);
    REQUIRE_(c, refuses([&]() { lib_chpol(z); }), "a matrix that is not square was not refused");
  }
}
// Minimal and characteristic polynomials of a field element over the base field.
// BA: polynomial adapter over the base field; MIN/CHR/LEN: the library's.
template <class A, class BA, class MIN, class CHR, class LEN>
void element_polys(Gen &g, Ctx &c, const A &a, const BA &ba, MIN lmin, CHR lchr, LEN llen) {
  const auto &K = a.m;
  auto e = K.random(g);
  int n = K.n();
  u64 q = K.p.r.size();
  if (g.chance(1, 3)) { // in a proper subfield
    int d = 1 + (int)g.below((u64)n);
    while (n % d) d--;
    auto s = K.zero(), f = e;
    for (int i = 0; i < n; i++, f = frob(K, f, q))
      if (i % d == 0) s = K.add(s, f);
    e = s;
  }
  c.log << a.name() << ": " << K.show(e);
  typename Poly<typename A::M>::E mn, chr;
  int len;
  conjugate_polys(K, e, mn, chr, len);
  c.nontrivial = n > 1 && len > 1;
  c.label(len == n ? "generates the field" : "in a proper subfield");
  auto x = a.make(e);
  auto gm = ba.get(lmin(x));
  auto wm = down_to_base(K, mn), wc = down_to_base(K, chr);
  REQUIRE_(c, ba.m.eq(gm, wm), "minimal polynomial " << ba.m.show(gm) << ", not " << ba.m.show(wm));
  auto gc = ba.get(lchr(x));
  REQUIRE_(c, ba.m.eq(gc, wc), "characteristic polynomial " << ba.m.show(gc) << ", not " << ba.m.show(wc));
  int gl = llen(x);
  REQUIRE_(c, gl == len, "conjugates: " << gl << ", not " << len);
  REQUIRE_(c, K.eq(a.get(x), e), "the element changed");
}
// the same, as polynomials over the extension itself
static void element_upstairs(Gen &g, Ctx &c) {
  PZn P{Zn{2}};
  auto mod = P.random_irreducible(g, 1 + (int)g.below(14));
  F2PolymodA a(mod);
  F2nPolyA ba(mod);
  auto e = a.m.random(g);
  c.log << a.name() << ": " << a.m.show(e);
  int n = a.m.n(), len = 0;
  auto chr = ba.m.one(), mn = chr;
  auto f = e;
  for (int i = 0; i < n; i++) {
    auto lin = ba.m.sub(ba.m.xpow(1), ba.m.constant(f));
    if (!len) mn = ba.m.mul(mn, lin);
    chr = ba.m.mul(chr, lin);
    f = a.m.mul(f, f);
    if (!len && a.m.eq(f, e)) len = i + 1;
  }
  c.nontrivial = len > 1;
  auto x = a.make(e);
  auto gm = ba.get(sl::f2_polymod_min_poly(x)), gc = ba.get(sl::f2_polymod_char_poly(x));
  REQUIRE_(c, ba.m.eq(gm, mn), "minimal polynomial " << ba.m.show(gm) << ", not " << ba.m.show(mn));
  REQUIRE_(c, ba.m.eq(gc, chr), "characteristic polynomial " << ba.m.show(gc) << ", not " << ba.m.show(chr));
}
// Diagonalizable over the splitting field iff the radical of the
// characteristic polynomial annihilates the matrix.
struct Mute {
  std::ostringstream o;
  std::streambuf *old;
  Mute() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(old); }
};
static void diagonalizable(Gen &g, Ctx &c) {
  PZn P2{Zn{2}};
  // now and then two factor degrees neither of which divides the other
  bool mixed = g.below(3) == 0;
  auto mod = P2.random_irreducible(g, mixed ? 1 + (int)(g.below(8) == 0) : 1 + (int)g.below(4));
  F2PolymodA s(mod);
  F2nPolyA a(mod);
  TM<F2PolymodA> t(s);
  const auto &K = s.m;
  auto &P = a.m;
  size_t n = mixed ? 5 : 1 + (size_t)g.below(3);
  auto w = gen_matrix(g, t.mm, n);
  if (mixed) {
    w = t.mm.make(n, n);
    size_t at = 0;
    for (int d : {2, 3}) {
      auto f = P.random_irreducible(g, d);
      for (size_t i = 0; i < (size_t)d; i++) {
        if (i + 1 < (size_t)d) w[at + i + 1][at + i] = K.one();
        w[at + i][at + (size_t)d - 1] = K.neg(f[i]);
      }
      at += (size_t)d;
    }
    // conjugated by elementary steps
    for (int k = (int)g.below(12); k > 0; k--) {
      size_t i = (size_t)g.below(n), j = (size_t)g.below(n);
      if (i == j) continue;
      auto h = g.below(2) ? K.one() : K.random(g);
      for (size_t l = 0; l < n; l++) w[i][l] = K.add(w[i][l], K.mul(h, w[j][l]));
      for (size_t l = 0; l < n; l++) w[l][j] = K.sub(w[l][j], K.mul(h, w[l][i]));
    }
  }
  c.log << s.name() << ": " << t.mm.show(w);
  if (t.mm.eq(w, t.mm.make(n, n)) && g.flip()) throw Discard();
  auto f = chpol(t.mm, w);
  auto facts = diagonal_facts(t.mm, w, f);
  auto &rad = facts.rad;
  int lcm = facts.lcm;
  bool diag = facts.diag;
  u64 q = K.size();
  c.nontrivial = n > 1;
  c.label(std::string(diag ? "diagonalizable" : "not diagonalizable") + (lcm > 1 ? ", in an extension" : ""));
  auto x = t.mk(w);
  f2_poly_t em;
  tvector<f2_polymod_t> ev;
  bool got;
  {
    Mute m;
    got = sl::f2_polymod_matrix_is_diagonalizable(x, em, ev);
  }
  REQUIRE_(c, got == diag, "diagonalizable: " << got << ", radical of the characteristic polynomial " << P.show(rad));
  auto emod = F2PolyA::model(em);
  int en = P2.deg(emod);
  REQUIRE_(c, en == K.n() * lcm && P2.irreducible(emod), "splitting field modulus " << P2.show(emod) << ", factor degrees have lcm " << lcm);
  REQUIRE_(c, ev.get_num_elements() == P.deg(rad), ev.get_num_elements() << " eigenvalues, distinct roots: " << P.deg(rad));
  F2PolymodA ea(emod);
  std::vector<PZn::E> es;
  for (int i = 0; i < ev.get_num_elements(); i++) es.push_back(ea.get(ev[i]));
  for (size_t i = 0; i < es.size(); i++)
    for (size_t j = 0; j < i; j++) REQUIRE_(c, !ea.m.eq(es[i], es[j]), "eigenvalue repeated");
  if (lcm == 1) {
    REQUIRE_(c, P2.eq(emod, mod), "the field was changed without need");
    for (auto &e : es) REQUIRE_(c, K.is_zero(P.eval(f, e)), "eigenvalue " << K.show(e) << " is no root of " << P.show(f));
  } else {
    // Up to the choice of embedding: the power sums of the roots, which lie in
    // the base field, must be conjugate by one automorphism. Compare the
    // minimal polynomials over F2 of each root's product polynomial instead:
    // the product over embeddings of f is in F2[y]; every eigenvalue is a root
    // of it and each F2-conjugate root of f is counted.
    auto nf = P.one();
    auto cf = f;
    for (int i = 0; i < K.n(); i++) {
      nf = P.mul(nf, cf);
      for (auto &x2 : cf) x2 = K.mul(x2, x2);
    }
    PZn::E down;
    for (auto &x2 : nf) down.push_back(K.p.at(x2, 0));
    for (auto &e : es) {
      auto r = ea.m.zero();
      for (size_t i = down.size(); i-- > 0;) {
        r = ea.m.mul(r, e);
        if (down[i]) r = ea.m.add(r, ea.m.one());
      }
      REQUIRE_(c, ea.m.is_zero(r), "eigenvalue " << ea.m.show(e) << " is no conjugate of a root");
    }
    // closed under the base field's Frobenius
    for (auto &e : es) {
      auto fe = frob(ea.m, e, q);
      bool in = false;
      for (auto &h : es) in = in || ea.m.eq(h, fe);
      REQUIRE_(c, in, "a conjugate of eigenvalue " << ea.m.show(e) << " is missing");
    }
  }
}
static void base_rep(Gen &g, Ctx &c) {
  u64 p = gen_prime(g, g.chance(1, 4) ? 60000 : 50);
  int len = 1 + (int)g.below(6);
  int nr = 1 + (int)g.below(4), nc = 1 + (int)g.below(6);
  int v = (int)g.skewed(0x7fffffff);
  c.log << "base rep " << v << " p " << p << " length " << len << " " << nr << "x" << nc;
  c.nontrivial = v > 1 && len > 1;
  auto bv = sl::f2_vector_from_base_rep(v, len);
  auto pv = sl::fp_vector_from_base_rep(v, (int)p, len);
  auto bm = sl::f2_matrix_from_base_rep(v, nr, nc);
  PZn P2{Zn{2}};
  auto mod = P2.random_irreducible(g, 1 + (int)g.below(8));
  F2PolymodA s(mod);
  auto tv = sl::ft_vector_from_base_rep(v, s.lm, len);
  REQUIRE_(c, bv.get_num_elements() == len && pv.get_num_elements() == len && tv.get_num_elements() == len, "length");
  REQUIRE_(c, bm.get_num_rows() == nr && bm.get_num_cols() == nc, "shape");
  u64 a = (u64)v, b = (u64)v, d = (u64)v, e = (u64)v;
  for (int i = len - 1; i >= 0; i--) {
    REQUIRE_(c, (u64)bv[i].get_residue() == a % 2, "bit vector element " << i);
    a /= 2;
    REQUIRE_(c, (u64)pv[i].get_residue() == b % p && (u64)pv[i].get_modulus() == p, "residue vector element " << i);
    b /= p;
    u64 q = (u64)1 << s.m.n(), r = e % q;
    PZn::E x;
    for (int k = 0; k < s.m.n(); k++) x.push_back((r >> k) & 1);
    P2.trim(x);
    REQUIRE_(c, s.m.eq(s.get(tv[i]), x), "field vector element " << i);
    e /= q;
  }
  for (int i = nr - 1; i >= 0; i--)
    for (int j = nc - 1; j >= 0; j--) {
      REQUIRE_(c, (u64)bm[i][j].get_residue() == d % 2, "bit matrix element " << i << "," << j);
      d /= 2;
    }
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C19";
  p.rule_text =
      "Square matrices up to 6x6, some to 14x14 (dense, sparse, triangular, scalar and Jordan blocks, permutations, conjugates of these) over "
      "F2, Fp and F2n: characteristic polynomial against cofactor expansion of tI-A (Berkowitz above 5x5), companion matrices against the definition. "
      "Field elements, those of proper subfields included, in extensions of F2 (degree up to 71), of Fp and of F2n: minimal and "
      "characteristic polynomials against the product over conjugates. Diagonalizability of matrices up to 3x3 over fields up to "
      "16 elements against whether the radical of the characteristic polynomial annihilates the matrix. Non-trivial: size above "
      "one; more than one conjugate.";
  p.assumptions = {"companion matrices are asked for monic polynomials", "minimal polynomials are asked modulo irreducible polynomials"};
  static auto zp = [](Gen &g) { return gen_prime(g, g.chance(1, 20) ? 40000 : g.chance(1, 4) ? 1000 : 13); };
  p.add("f2-matrix", 3000, 100000, [](Gen &g, Ctx &c) { matrix_chpol(g, c, BitA(), F2PolyA(), 6); });
  p.add("fp-matrix", 3000, 50000, [](Gen &g, Ctx &c) { u64 q = zp(g); matrix_chpol(g, c, IntmodA((i64)q), FpPolyA(q), 4); });
  p.add("f2n-matrix", 600, 30000, [](Gen &g, Ctx &c) {
    auto m = PZn{Zn{2}}.random_irreducible(g, 1 + (int)g.below(6));
    matrix_chpol(g, c, F2PolymodA(m), F2nPolyA(m), 4);
  });
  p.add("f2-matrix-large", 300, 6000, [](Gen &g, Ctx &c) { matrix_chpol(g, c, BitA(), F2PolyA(), 14); });
  p.add("fp-matrix-large", 200, 4000, [](Gen &g, Ctx &c) { u64 q = zp(g); matrix_chpol(g, c, IntmodA((i64)q), FpPolyA(q), 9); });
  p.add("f2n-matrix-large", 60, 1500, [](Gen &g, Ctx &c) {
    auto m = PZn{Zn{2}}.random_irreducible(g, 1 + (int)g.below(6));
    matrix_chpol(g, c, F2PolymodA(m), F2nPolyA(m), 7);
  });
  p.add("f2-element-large", 40, 1000, [](Gen &g, Ctx &c) {
    F2PolymodA a(PZn{Zn{2}}.random_irreducible(g, g.flip() ? 60 + (int)g.below(12) : 31 + (int)g.below(30)));
    element_polys(g, c, a, F2PolyA(), [](const f2_polymod_t &x) { return sl::f2_polymod_minimal_polynomial(x); },
        [](const f2_polymod_t &x) { return sl::f2_polymod_characteristic_polynomial(x); },
        [](const f2_polymod_t &x) { return sl::f2_polymod_frobenius_length(x); });
  });
  p.add("f2-element", 1500, 50000, [](Gen &g, Ctx &c) {
    F2PolymodA a(PZn{Zn{2}}.random_irreducible(g, 1 + (int)g.below(g.chance(1, 6) ? 30 : 12)));
    element_polys(g, c, a, F2PolyA(), [](const f2_polymod_t &x) { return sl::f2_polymod_minimal_polynomial(x); },
        [](const f2_polymod_t &x) { return sl::f2_polymod_characteristic_polynomial(x); },
        [](const f2_polymod_t &x) { return sl::f2_polymod_frobenius_length(x); });
  });
  p.add("fp-element", 2000, 40000, [](Gen &g, Ctx &c) {
    u64 q = zp(g);
    FpPolymodA a(q, PZn{Zn{q}}.random_irreducible(g, 1 + (int)g.below(8)));
    element_polys(g, c, a, FpPolyA(q), [](const fp_polymod_t &x) { return sl::fp_polymod_minimal_polynomial(x); },
        [](const fp_polymod_t &x) { return sl::fp_polymod_characteristic_polynomial(x); },
        [](const fp_polymod_t &x) { return sl::fp_polymod_frobenius_length(x); });
  });
  p.add("f2n-element", 400, 20000, [](Gen &g, Ctx &c) {
    F2nPolyA pa(PZn{Zn{2}}.random_irreducible(g, 1 + (int)g.below(4)));
    F2nPolymodA a(pa, pa.m.random_irreducible(g, 1 + (int)g.below(5)));
    element_polys(g, c, a, pa, [](const f2n_polymod_t &x) { return sl::f2npm_min_poly(x); },
        [](const f2n_polymod_t &x) { return sl::f2npm_char_poly(x); }, [](const f2n_polymod_t &x) { return sl::f2npm_froblen(x); });
  });
  p.add("f2-element-upstairs", 1000, 40000, element_upstairs);
  p.add("diagonalizable", 250, 8000, diagonalizable);
  p.add("base-rep", 4000, 60000, base_rep);
  p.add("independent", 500, 20000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C19"); });
  return engine_main(argc, argv, p);
}
