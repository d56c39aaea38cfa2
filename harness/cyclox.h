// Cyclotomic polynomials on the model.
#ifndef VERIF_CYCLOX_H
#define VERIF_CYCLOX_H
#include "ref.h"

namespace bind {
using namespace ref;
typedef std::vector<i64> IP; // integer polynomials
inline IP imul1(const IP &a, int d) { // times x^d - 1
  IP r(a.size() + (size_t)d, 0);
  for (size_t i = 0; i < a.size(); i++) r[i + (size_t)d] += a[i], r[i] -= a[i];
  return r;
}
inline IP idiv1(IP a, int d) { // exactly by x^d - 1
  IP q(a.size() - (size_t)d, 0);
  for (size_t i = a.size(); i-- > (size_t)d;) {
    q[i - (size_t)d] = a[i];
    a[i - (size_t)d] += a[i];
    a[i] = 0;
  }
  for (auto v : a)
    if (v) pbt::fail("model: division by x^d - 1 leaves a remainder");
  return q;
}
// product of (x^d - 1)^mu(n/d)
inline IP cyclo(int n) {
  IP r{1};
  for (int pass = 0; pass < 2; pass++)
    for (int d = 1; d <= n; d++) {
      if (n % d) continue;
      int m = 1;
      for (auto &pe : factor((u64)(n / d))) m = pe.second > 1 ? 0 : -m;
      if (m == 1 && pass == 0) r = imul1(r, d);
      if (m == -1 && pass == 1) r = idiv1(r, d);
    }
  return r;
}
template <class A> typename A::M::E reduce(const A &a, const IP &f) {
  typename A::M::E r;
  for (auto v : f) r.push_back(a.m.r.of(v));
  a.m.trim(r);
  return r;
}
} // namespace bind
#endif
