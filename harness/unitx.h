// Orders in unit groups, totients and primitivity on the models.
#ifndef VERIF_UNITX_H
#define VERIF_UNITX_H
#include "facx.h"

namespace bind {
// order of a unit from the factorization of the size of the unit group
template <class M> u64 model_order(const M &m, const typename M::E &a, u64 n) {
  auto power = [&](u64 e) {
    auto r = m.one(), b = a;
    while (e) {
      if (e & 1) r = m.mul(r, b);
      b = m.mul(b, b);
      e >>= 1;
    }
    return r;
  };
  if (!m.eq(power(n), m.one())) pbt::fail("model: not a multiple of the order");
  for (auto &pe : factor(n))
    while (n % pe.first == 0 && m.eq(power(n / pe.first), m.one())) n /= pe.first;
  return n;
}
template <class PA> u64 planted_totient(const PA &a, const Planted<PA> &pl) {
  u64 q = a.m.r.size(), t = 1;
  for (auto &w : pl.parts) {
    int d = a.m.deg(w.first);
    for (int i = 0; i < d * (w.second - 1); i++) if ((t *= q) > 2147483647) throw pbt::Discard();
    u64 s = 1;
    for (int i = 0; i < d; i++) if ((s *= q) > 2147483647) throw pbt::Discard();
    if ((t *= s - 1) > 2147483647) throw pbt::Discard();
  }
  return t;
}
inline u64 x_order(const F2PolymodA &a, u64 phi) { return model_order(a.m, a.m.red(a.m.p.xpow(1)), phi); }
inline bool model_primitive(const PZn::E &f) { // x generates the units
  F2PolyA pa;
  if (f[0] == 0) return false;
  F2PolymodA a(f);
  // the units mod f: count through the distinct powers structure
  PZn::E h = f;
  u64 phi = 1;
  for (int d = 1; pa.m.deg(h) > 0; d++)
    for (u64 i = (u64)1 << d; i < (u64)2 << d && pa.m.deg(h) > 0; i++) {
      auto e = pa.m.element(i);
      int k = 0;
      while (pa.m.deg(h) >= d && pa.m.rem(h, e).empty()) {
        h = pa.m.quo(h, e);
        k++;
      }
      if (k) phi *= (((u64)1 << d) - 1) << (d * (k - 1));
      if (2 * d > pa.m.deg(h) && pa.m.deg(h) > 0) {
        phi *= ((u64)1 << pa.m.deg(h)) - 1;
        h = pa.m.one();
      }
    }
  return x_order(a, phi) == phi;
}
} // namespace bind
#endif
