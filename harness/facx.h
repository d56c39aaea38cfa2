// Generation and checking of factorizations in K[x], K a finite field.
#ifndef VERIF_FACX_H
#define VERIF_FACX_H
#include "polyx.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"

namespace bind {
namespace sf = spffl::factorization;
inline auto lib_factor(const f2_poly_t &f) { return sf::f2_poly_factor(f); }
inline auto lib_factor(const fp_poly_t &f) { return sf::fp_poly_factor(f); }
inline auto lib_factor(const f2n_poly_t &f) { return sf::f2n_poly_factor(f); }
inline bool lib_irr(const f2_poly_t &f) { return sf::f2_poly_is_irreducible(f); }
inline bool lib_irr(const fp_poly_t &f) { return sf::fp_poly_is_irreducible(f); }
inline bool lib_irr(const f2n_poly_t &f) { return sf::f2n_poly_is_irreducible(f); }
inline int lib_totient(const f2_poly_t &f) { return sf::f2_poly_totient(f); }
inline int lib_totient(const fp_poly_t &f) { return sf::fp_poly_totient(f); }
inline int lib_totient(const f2n_poly_t &f) { return sf::f2n_poly_totient(f); }
inline f2_poly_t lib_find(const F2PolyA &, int d) { return sf::f2_poly_find_irreducible(d); }
inline fp_poly_t lib_find(const FpPolyA &a, int d) { return sf::fp_poly_find_irr((int)a.m.r.m, d); }
inline f2n_poly_t lib_find(const F2nPolyA &a, int d) { return sf::f2n_poly_find_irr(a.c.lm, d); }
inline f2_poly_t lib_random_irr(const F2PolyA &, int d) { return sf::f2_poly_random_irreducible(d); }
inline fp_poly_t lib_random_irr(const FpPolyA &a, int d) { return sf::fp_poly_random_irr((int)a.m.r.m, d); }
inline f2n_poly_t lib_random_irr(const F2nPolyA &a, int d) { return sf::f2n_poly_random_irr(a.c.lm, d); }

template <class A> struct Planted {
  typedef typename A::M::E E;
  std::vector<std::pair<E, int>> parts; // distinct monic irreducibles, multiplicities
  typename A::M::C unit;
  E f;
};
// A polynomial of degree <= maxdeg with known factorization: irreducibles of
// skewed degrees with multiplicities, the characteristic among them.
template <class A> Planted<A> plant(const A &a, pbt::Gen &g, int maxdeg, bool monic = false, int top = 12) {
  auto &P = a.m;
  u64 p = char_of(a);
  Planted<A> r;
  r.unit = monic || g.flip() ? P.r.one() : P.random_nonzero(g);
  r.f = P.constant(r.unit);
  int left = maxdeg;
  int parts = 1 + (int)g.below(g.chance(1, 4) ? 12 : 4);
  for (int i = 0; i < parts && left > 0; i++) {
    int d = 1 + (int)g.skewed((u64)std::min(left, top));
    if (d > left) d = left;
    auto h = P.random_irreducible(g, d);
    int e = 1;
    switch (g.below(4)) {
    case 1: e = 1 + (int)g.below(4); break;
    case 2: e = p <= 13 ? (int)p : 2; break;
    case 3: e = p <= 5 ? (int)(p * (1 + g.below(p))) : 3; break;
    }
    while (e > 1 && e * d > left) e--;
    left -= e * d;
    bool found = false;
    for (auto &q : r.parts)
      if (P.eq(q.first, h)) {
        q.second += e;
        found = true;
      }
    if (!found) r.parts.push_back({h, e});
    for (int k = 0; k < e; k++) r.f = P.mul(r.f, h);
  }
  return r;
}
template <class A> std::string show_plant(const A &a, const Planted<A> &p) {
  std::string s = a.name() + ": " + a.m.show(p.f) + " = " + a.m.r.show(p.unit);
  for (auto &q : p.parts) s += " " + a.m.show(q.first) + "^" + std::to_string(q.second);
  return s;
}
} // namespace bind
#endif
