// Matrices of varied structure, characteristic polynomials, conjugates: on the models.
#ifndef VERIF_CHPOLX_H
#define VERIF_CHPOLX_H
#include "polyx.h"

namespace bind {
// a matrix of varied structure
template <class K> typename Mat<K>::E gen_matrix(pbt::Gen &g, const Mat<K> &mm, size_t n) {
  const K &k = mm.k;
  auto w = mm.make(n, n);
  int style = (int)g.below(6);
  auto fill = [&](int den) {
    for (auto &r : w)
      for (auto &x : r)
        if (den == 0 || g.below((u64)den) == 0) x = k.random(g);
  };
  switch (style) {
  case 0: fill(0); break;
  case 1: fill(3); break;
  case 2: // triangular: eigenvalues on the diagonal
    for (size_t i = 0; i < n; i++)
      for (size_t j = i; j < n; j++) w[i][j] = i == j || g.flip() ? k.random(g) : k.zero();
    break;
  case 3: { // diagonal with repeats
    auto a = k.random(g), b = k.random(g);
    for (size_t i = 0; i < n; i++) w[i][i] = g.flip() ? a : b;
    break;
  }
  case 4: { // Jordan-like blocks
    auto a = k.random(g);
    for (size_t i = 0; i < n; i++) {
      w[i][i] = a;
      if (i + 1 < n && g.flip()) w[i][i + 1] = k.one();
    }
    break;
  }
  case 5: { // permutation
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = i;
    for (size_t i = n; i-- > 1;) std::swap(p[i], p[(size_t)g.below(i + 1)]);
    for (size_t i = 0; i < n; i++) w[i][p[i]] = k.one();
    break;
  }
  }
  if (style >= 2 && style <= 4 && g.flip()) { // hide the structure
    auto p = mm.make(n, n), q = p;
    for (auto &r : p)
      for (auto &x : r) x = k.random(g);
    if (mm.inverse(p, q)) w = mm.mul(mm.mul(q, w), p);
  }
  return w;
}
// det(tI - w), by cofactors while that is quick
template <class K> typename Poly<K>::E chpol(const Mat<K> &mm, const typename Mat<K>::E &w) {
  Poly<K> P{mm.k};
  if (w.size() > 5) {
    auto q = mm.char_coeffs(w);
    return {q.rbegin(), q.rend()};
  }
  Mat<Poly<K>> pm{P};
  auto x = pm.make(w.size(), w.size());
  for (size_t i = 0; i < w.size(); i++)
    for (size_t j = 0; j < w.size(); j++) {
      x[i][j] = P.constant(mm.k.neg(w[i][j]));
      if (i == j) x[i][j] = P.add(x[i][j], P.xpow(1));
    }
  return pm.det_cofactor(x);
}
template <class K> typename K::E frob(const K &k, const typename K::E &e, u64 q) {
  auto r = k.one(), b = e;
  for (; q; q >>= 1, b = k.mul(b, b))
    if (q & 1) r = k.mul(r, b);
  return r;
}
// minimal and characteristic polynomial of e over the base field, as
// polynomials over the field itself; number of conjugates
template <class K> void conjugate_polys(const K &k, const typename K::E &e, typename Poly<K>::E &mn, typename Poly<K>::E &chr, int &len) {
  Poly<K> P{k};
  mn = chr = P.one();
  auto f = e;
  u64 q = k.p.r.size();
  len = 0;
  for (int i = 0; i < k.n(); i++) {
    auto lin = P.sub(P.xpow(1), P.constant(f));
    if (len == 0) mn = P.mul(mn, lin);
    chr = P.mul(chr, lin);
    f = frob(k, f, q);
    if (len == 0 && k.eq(f, e)) len = i + 1;
  }
}
// coefficients that lie in the base field, as such
template <class K> typename K::P::E down_to_base(const K &k, const typename Poly<K>::E &u) {
  typename K::P::E v;
  for (auto &x : u) {
    if (k.p.deg(x) > 0) pbt::fail("model: coefficient outside the base field");
    v.push_back(k.p.at(x, 0));
  }
  return v;
}
// Diagonalizable over the splitting field of f, w's characteristic polynomial,
// iff the radical of f annihilates w.
template <class K> struct Diag {
  typename Poly<K>::E rad;
  int lcm = 1; // of the degrees of the factors
  bool diag = false;
};
template <class K> Diag<K> diagonal_facts(const Mat<K> &mm, const typename Mat<K>::E &w, const typename Poly<K>::E &f) {
  const K &k = mm.k;
  Poly<K> P{k};
  Diag<K> r;
  // the distinct irreducible factors, by gcds with y^(q^d) - y
  r.rad = P.one();
  u64 q = k.size();
  for (int d = 1; d <= (int)w.size(); d++) {
    auto y = P.rem(P.xpow(1), f);
    auto cur = y;
    for (int i = 0; i < d; i++) cur = P.powmod(cur, q, f);
    auto h = P.gcd(P.sub(cur, y), f); // squarefree part with factor degrees | d
    if (P.is_zero(P.sub(cur, y))) h = P.monic(f);
    auto fresh = P.quo(h, P.gcd(h, r.rad));
    if (P.deg(fresh) > 0) {
      r.lcm = r.lcm / (int)igcd(r.lcm, d) * d;
      r.rad = P.mul(r.rad, fresh);
    }
  }
  auto v = mm.make(w.size(), w.size()); // rad(w)
  for (size_t i = r.rad.size(); i-- > 0;) {
    v = mm.mul(v, w);
    for (size_t j = 0; j < w.size(); j++) v[j][j] = k.add(v[j][j], r.rad[i]);
  }
  r.diag = mm.eq(v, mm.make(w.size(), w.size()));
  return r;
}
} // namespace bind
#endif
