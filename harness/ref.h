// Reference models: obviously-correct, slow, independent of the library.
// Rings carry their context (modulus) at run time; elements are plain values.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "engine.h"
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

inline std::string str(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  std::string s;
  while (v != 0) {
    int d = (int)(v % 10);
    s += (char)('0' + (d < 0 ? -d : d));
    v /= 10;
  }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
inline i128 iabs(i128 a) { return a < 0 ? -a : a; }
inline i128 igcd(i128 a, i128 b) {
  a = iabs(a);
  b = iabs(b);
  while (b) {
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}
inline i128 pmod(i128 a, i128 m) {
  i128 r = a % m;
  return r < 0 ? r + m : r;
}
inline bool is_prime(u64 n) {
  if (n < 2) return false;
  for (u64 d = 2; d * d <= n; d += d == 2 ? 1 : 2)
    if (n % d == 0) return false;
  return true;
}
inline std::vector<std::pair<u64, int>> factor(u64 n) {
  std::vector<std::pair<u64, int>> f;
  for (u64 d = 2; d * d <= n; d += d == 2 ? 1 : 2) {
    int e = 0;
    while (n % d == 0) {
      n /= d;
      e++;
    }
    if (e) f.push_back({d, e});
  }
  if (n > 1) f.push_back({n, 1});
  return f;
}
inline u64 totient(u64 n) {
  u64 t = n;
  for (auto &pe : factor(n)) t = t / pe.first * (pe.first - 1);
  return t;
}
inline std::vector<u64> divisors(u64 n) {
  std::vector<u64> d{1};
  for (auto &pe : factor(n)) {
    size_t k = d.size();
    u64 q = 1;
    for (int e = 1; e <= pe.second; e++) {
      q *= pe.first;
      for (size_t i = 0; i < k; i++) d.push_back(d[i] * q);
    }
  }
  std::sort(d.begin(), d.end());
  return d;
}

// ---------------------------------------------------------------- Z/mZ
struct Zn {
  u64 m;
  typedef u64 E;
  E zero() const { return 0; }
  E one() const { return 1 % m; }
  E of(i64 v) const { return (u64)pmod(v, m); }
  E add(E a, E b) const { return (u64)(((i128)a + b) % m); }
  E sub(E a, E b) const { return (u64)pmod((i128)a - b, m); }
  E neg(E a) const { return (u64)pmod(-(i128)a, m); }
  E mul(E a, E b) const { return (u64)((unsigned __int128)a * b % m); }
  bool is_zero(E a) const { return a == 0; }
  bool eq(E a, E b) const { return a == b; }
  bool inv(E a, E &r) const {
    i128 r0 = m, r1 = a, s0 = 0, s1 = 1;
    while (r1) {
      i128 q = r0 / r1, t = r0 - q * r1;
      r0 = r1;
      r1 = t;
      t = s0 - q * s1;
      s0 = s1;
      s1 = t;
    }
    if (r0 != 1) return false;
    r = (u64)pmod(s0, m);
    return true;
  }
  std::string show(E a) const { return std::to_string(a); }
  E random(pbt::Gen &g) const { return g.below(m); }
  // number of elements (0: infinite / too many)
  u64 size() const { return m; }
  E element(u64 i) const { return i; }
};

// ---------------------------------------------------------------- Q
struct QQ {
  struct E {
    i128 n = 0, d = 1;
  };
  i128 bound; // values beyond this are outside the domain ...
  bool loose; // ... when reduced (loose), or already before reducing
  explicit QQ(i128 b = (i128)1 << 30, bool l = false) : bound(b), loose(l) {}
  E chk(i128 n, i128 d) const {
    if (loose) {
      i128 g = igcd(n, d);
      if (g > 1) {
        n /= g;
        d /= g;
      }
    }
    if (iabs(n) > bound || iabs(d) > bound) throw pbt::Discard();
    if (d < 0) {
      n = -n;
      d = -d;
    }
    i128 g = igcd(n, d);
    if (g > 1) {
      n /= g;
      d /= g;
    }
    E e;
    e.n = n;
    e.d = d;
    return e;
  }
  E zero() const { return E(); }
  E one() const { return of(1); }
  E of(i64 v) const {
    E e;
    e.n = v;
    return e;
  }
  E frac(i64 n, i64 d) const { return chk(n, d); }
  E add(const E &a, const E &b) const {
    if (!loose && (iabs(a.n * b.d) > bound || iabs(b.n * a.d) > bound)) throw pbt::Discard();
    return chk(a.n * b.d + b.n * a.d, a.d * b.d);
  }
  E neg(const E &a) const { return chk(-a.n, a.d); }
  E sub(const E &a, const E &b) const { return add(a, neg(b)); }
  E mul(const E &a, const E &b) const { return chk(a.n * b.n, a.d * b.d); }
  bool is_zero(const E &a) const { return a.n == 0; }
  bool eq(const E &a, const E &b) const { return a.n == b.n && a.d == b.d; }
  bool inv(const E &a, E &r) const {
    if (a.n == 0) return false;
    r = chk(a.d, a.n);
    return true;
  }
  int cmp(const E &a, const E &b) const {
    i128 l = a.n * b.d, r = b.n * a.d;
    return l < r ? -1 : l > r ? 1 : 0;
  }
  std::string show(const E &a) const {
    return a.d == 1 ? str(a.n) : str(a.n) + "/" + str(a.d);
  }
  E random(pbt::Gen &g) const {
    if (loose && g.chance(1, 3)) return frac(g.skewed_signed((i64)bound), 1 + (i64)g.skewed((u64)bound));
    return frac(g.skewed_signed(12), 1 + (i64)g.skewed(6));
  }
  u64 size() const { return 0; }
};

// ---------------------------------------------------------------- R[x]
template <class R> struct Poly {
  typedef R Base;
  typedef typename R::E C;
  typedef std::vector<C> E; // low coefficient first, no leading zeros; 0 = {}
  R r;
  void trim(E &a) const {
    while (!a.empty() && r.is_zero(a.back())) a.pop_back();
  }
  int deg(const E &a) const { return (int)a.size() - 1; } // deg 0 = -1
  C at(const E &a, size_t i) const { return i < a.size() ? a[i] : r.zero(); }
  E zero() const { return E(); }
  E constant(const C &c) const {
    E e{c};
    trim(e);
    return e;
  }
  E one() const { return constant(r.one()); }
  E of(i64 v) const { return constant(r.of(v)); }
  E xpow(int k) const {
    E e((size_t)k + 1, r.zero());
    e[(size_t)k] = r.one();
    return e;
  }
  E add(const E &a, const E &b) const {
    E c(std::max(a.size(), b.size()), r.zero());
    for (size_t i = 0; i < c.size(); i++) c[i] = r.add(at(a, i), at(b, i));
    trim(c);
    return c;
  }
  E neg(const E &a) const {
    E c(a);
    for (auto &x : c) x = r.neg(x);
    return c;
  }
  E sub(const E &a, const E &b) const { return add(a, neg(b)); }
  E mul(const E &a, const E &b) const {
    if (a.empty() || b.empty()) return E();
    E c(a.size() + b.size() - 1, r.zero());
    for (size_t i = 0; i < a.size(); i++)
      if (!r.is_zero(a[i]))
        for (size_t j = 0; j < b.size(); j++)
          c[i + j] = r.add(c[i + j], r.mul(a[i], b[j]));
    trim(c);
    return c;
  }
  E scale(const E &a, const C &s) const {
    E c(a);
    for (auto &x : c) x = r.mul(x, s);
    trim(c);
    return c;
  }
  bool is_zero(const E &a) const { return a.empty(); }
  bool eq(const E &a, const E &b) const {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
      if (!r.eq(a[i], b[i])) return false;
    return true;
  }
  // leading coefficient of b must be a unit
  void divmod(const E &a, const E &b, E &q, E &rem) const {
    E x(a);
    C li;
    if (b.empty() || !r.inv(b.back(), li)) pbt::fail("model: division by a non-unit");
    E qq;
    if (a.size() >= b.size()) qq.assign(a.size() - b.size() + 1, r.zero());
    for (int i = (int)a.size() - (int)b.size(); i >= 0; i--) {
      C c = r.mul(x[(size_t)i + b.size() - 1], li);
      qq[(size_t)i] = c;
      if (r.is_zero(c)) continue;
      for (size_t j = 0; j < b.size(); j++)
        x[(size_t)i + j] = r.sub(x[(size_t)i + j], r.mul(c, b[j]));
    }
    trim(x);
    trim(qq);
    q = qq;
    rem = x;
  }
  E quo(const E &a, const E &b) const {
    E q, m;
    divmod(a, b, q, m);
    return q;
  }
  E rem(const E &a, const E &b) const {
    E q, m;
    divmod(a, b, q, m);
    return m;
  }
  E monic(const E &a) const {
    if (a.empty()) return a;
    C li;
    if (!r.inv(a.back(), li)) pbt::fail("model: monic of a non-unit lead");
    return scale(a, li);
  }
  E gcd(E a, E b) const { // monic
    while (!b.empty()) {
      E t = rem(a, b);
      a = b;
      b = t;
    }
    return monic(a);
  }
  bool unit_inverse(const E &a, E &out) const {
    C c;
    if (a.size() != 1 || !r.inv(a[0], c)) return false;
    out = constant(c);
    return true;
  }
  bool inv(const E &a, E &out) const { return unit_inverse(a, out); }
  E exp(const E &a, u64 e) const {
    E p = one();
    if (a.size() <= 1 && e > 64) { // zero, constant
      E s = a;
      for (; e; e >>= 1, s = mul(s, s))
        if (e & 1) p = mul(p, s);
      return p;
    }
    for (u64 i = 0; i < e; i++) p = mul(p, a);
    return p;
  }
  E powmod(E a, u64 e, const E &m) const {
    E p = rem(one(), m);
    a = rem(a, m);
    while (e) {
      if (e & 1) p = rem(mul(p, a), m);
      a = rem(mul(a, a), m);
      e >>= 1;
    }
    return p;
  }
  C eval(const E &a, const C &c) const {
    C s = r.zero(), pw = r.one();
    for (size_t i = 0; i < a.size(); i++) {
      s = r.add(s, r.mul(a[i], pw));
      pw = r.mul(pw, c);
    }
    return s;
  }
  C imul(u64 k, const C &c) const { // k*c by repeated addition
    C s = r.zero();
    for (u64 i = 0; i < k; i++) s = r.add(s, c);
    return s;
  }
  E deriv(const E &a) const {
    E d;
    for (size_t i = 1; i < a.size(); i++) d.push_back(imul(i, a[i]));
    trim(d);
    return d;
  }
  std::string show(const E &a) const {
    if (a.empty()) return "<0>";
    std::string s = "<";
    for (size_t i = a.size(); i-- > 0;) s += r.show(a[i]) + (i ? " " : "");
    return s + ">";
  }
  E random_deg(pbt::Gen &g, int maxdeg) const { // any element of degree <= maxdeg
    int n = (int)g.below((u64)maxdeg + 2);
    E e((size_t)n, r.zero());
    for (auto &c : e) c = r.random(g);
    trim(e);
    return e;
  }
  C random_nonzero(pbt::Gen &g) const {
    C c = r.random(g);
    return r.is_zero(c) ? r.one() : c;
  }
  E random_exact(pbt::Gen &g, int d) const {
    E e((size_t)d + 1, r.zero());
    for (auto &c : e) c = r.random(g);
    if (r.is_zero(e.back())) e.back() = r.one();
    return e;
  }
  E random_monic(pbt::Gen &g, int d) const {
    E e = random_exact(g, d);
    e.back() = r.one();
    return e;
  }
  E random(pbt::Gen &g) const { return random_deg(g, 6); }
  u64 size() const { return 0; }
  // the i-th polynomial in base-|R| digit order (finite R)
  E element(u64 i) const {
    E e;
    u64 q = r.size();
    while (i) {
      e.push_back(r.element(i % q));
      i /= q;
    }
    return e;
  }
  // Irreducibility over a finite field by Rabin's test:
  // x^(q^n) = x mod f and gcd(x^(q^(n/l)) - x, f) = 1 for each prime l | n.
  bool irreducible(const E &f) const {
    int n = deg(f);
    if (n < 1) return false;
    if (n == 1) return true;
    u64 q = r.size();
    E x = xpow(1);
    std::vector<E> fr; // x^(q^i) mod f
    E cur = rem(x, f);
    fr.push_back(cur);
    for (int i = 1; i <= n; i++) {
      cur = powmod(cur, q, f);
      fr.push_back(cur);
    }
    if (!eq(fr[(size_t)n], rem(x, f))) return false;
    for (auto &pe : factor((u64)n)) {
      E d = gcd(sub(fr[(size_t)n / pe.first], x), f);
      if (deg(d) != 0) return false;
    }
    return true;
  }
  E random_irreducible(pbt::Gen &g, int d) const { // monic
    E f = random_monic(g, d);
    u64 q = r.size();
    // step through the polynomials of this degree from f, wrapping around
    for (int guard = 0; guard < 100000; guard++) {
      if (irreducible(f)) return f;
      for (size_t i = 0; i < (size_t)d; i++) {
        bool wrapped = false;
        // next element of the base field
        u64 k = 0;
        for (; k < q; k++)
          if (r.eq(r.element(k), f[i])) break;
        if (k + 1 < q) f[i] = r.element(k + 1);
        else {
          f[i] = r.zero();
          wrapped = true;
        }
        if (!wrapped) break;
      }
    }
    throw pbt::Discard();
  }
};

// ---------------------------------------------------------------- R[x]/m
template <class R> struct Quot {
  typedef Poly<R> P;
  typedef typename P::E E;
  P p;
  E m; // leading coefficient a unit, degree >= 1
  int n() const { return p.deg(m); }
  E red(const E &a) const { return p.rem(a, m); }
  E zero() const { return E(); }
  E one() const { return red(p.one()); }
  E of(i64 v) const { return red(p.of(v)); }
  E add(const E &a, const E &b) const { return p.add(a, b); }
  E sub(const E &a, const E &b) const { return p.sub(a, b); }
  E neg(const E &a) const { return p.neg(a); }
  E mul(const E &a, const E &b) const { return red(p.mul(a, b)); }
  bool is_zero(const E &a) const { return a.empty(); }
  bool eq(const E &a, const E &b) const { return p.eq(a, b); }
  bool inv(const E &a, E &out) const {
    // extended Euclid on (m, a)
    E r0 = m, r1 = a, s0, s1 = p.one();
    while (!r1.empty()) {
      E q, rr;
      p.divmod(r0, r1, q, rr);
      E t = p.sub(s0, p.mul(q, s1));
      r0 = r1;
      r1 = rr;
      s0 = s1;
      s1 = t;
    }
    if (p.deg(r0) != 0) return false;
    typename R::E c;
    if (!p.r.inv(r0[0], c)) return false;
    out = red(p.scale(s0, c));
    return true;
  }
  E exp(E a, u64 e) const {
    E x = one();
    while (e) {
      if (e & 1) x = mul(x, a);
      a = mul(a, a);
      e >>= 1;
    }
    return x;
  }
  std::string show(const E &a) const { return p.show(a); }
  E random(pbt::Gen &g) const { return p.random_deg(g, n() - 1); }
  u64 size() const {
    u64 q = p.r.size(), s = 1;
    if (q == 0) return 0;
    for (int i = 0; i < n(); i++) {
      if (s > ((u64)1 << 40) / q) return (u64)1 << 41; // "many"
      s *= q;
    }
    return s;
  }
  E element(u64 i) const { return p.element(i); }
};

typedef Poly<Zn> PZn;
typedef Quot<Zn> Fq;      // F_p[x]/m
typedef Poly<Fq> PFq;     // F_q[x]
typedef Quot<Fq> Fqn;     // F_q[y]/m
typedef Poly<QQ> PQ;

// ---------------------------------------------------------------- field of fractions of K[x]
template <class K> struct Frac {
  typedef Poly<K> P;
  P p;
  struct E {
    typename P::E n, d;
  };
  // lowest terms, monic denominator
  E canon(const typename P::E &n, const typename P::E &d) const {
    E e;
    if (n.empty()) {
      e.d = p.one();
      return e;
    }
    typename P::E g = p.gcd(n, d), q, r;
    e.n = p.quo(n, g);
    e.d = p.quo(d, g);
    typename K::E li;
    p.r.inv(e.d.back(), li);
    e.n = p.scale(e.n, li);
    e.d = p.scale(e.d, li);
    return e;
  }
  E zero() const { return canon(p.zero(), p.one()); }
  E one() const { return canon(p.one(), p.one()); }
  E of(i64 v) const { return canon(p.of(v), p.one()); }
  E add(const E &a, const E &b) const {
    return canon(p.add(p.mul(a.n, b.d), p.mul(b.n, a.d)), p.mul(a.d, b.d));
  }
  E neg(const E &a) const { return canon(p.neg(a.n), a.d); }
  E sub(const E &a, const E &b) const { return add(a, neg(b)); }
  E mul(const E &a, const E &b) const {
    return canon(p.mul(a.n, b.n), p.mul(a.d, b.d));
  }
  bool is_zero(const E &a) const { return a.n.empty(); }
  bool eq(const E &a, const E &b) const { return p.eq(a.n, b.n) && p.eq(a.d, b.d); }
  bool inv(const E &a, E &o) const {
    if (a.n.empty()) return false;
    o = canon(a.d, a.n);
    return true;
  }
  std::string show(const E &a) const { return p.show(a.n) + "/" + p.show(a.d); }
  int maxdeg = 3;
  E random(pbt::Gen &g) const {
    typename P::E n = p.random_deg(g, maxdeg), d = p.random_deg(g, maxdeg);
    if (d.empty()) d = p.one();
    return canon(n, d);
  }
  u64 size() const { return 0; }
};

// ---------------------------------------------------------------- matrices over a field K
template <class K> struct Mat {
  typedef typename K::E C;
  typedef std::vector<std::vector<C>> E;
  K k;
  E make(size_t m, size_t n) const { return E(m, std::vector<C>(n, k.zero())); }
  E ident(size_t n) const {
    E e = make(n, n);
    for (size_t i = 0; i < n; i++) e[i][i] = k.one();
    return e;
  }
  E add(const E &a, const E &b) const {
    E c(a);
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < a[i].size(); j++) c[i][j] = k.add(a[i][j], b[i][j]);
    return c;
  }
  E neg(const E &a) const {
    E c(a);
    for (auto &row : c)
      for (auto &x : row) x = k.neg(x);
    return c;
  }
  E sub(const E &a, const E &b) const { return add(a, neg(b)); }
  E scale(const E &a, const C &s) const {
    E c(a);
    for (auto &row : c)
      for (auto &x : row) x = k.mul(x, s);
    return c;
  }
  E mul(const E &a, const E &b) const {
    size_t n = b.empty() ? 0 : b[0].size();
    E c = make(a.size(), n);
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < n; j++)
        for (size_t l = 0; l < b.size(); l++)
          c[i][j] = k.add(c[i][j], k.mul(a[i][l], b[l][j]));
    return c;
  }
  std::vector<C> mulv(const E &a, const std::vector<C> &v) const {
    std::vector<C> o(a.size(), k.zero());
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < v.size(); j++) o[i] = k.add(o[i], k.mul(a[i][j], v[j]));
    return o;
  }
  E transpose(const E &a) const {
    E c = make(a.empty() ? 0 : a[0].size(), a.size());
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < a[i].size(); j++) c[j][i] = a[i][j];
    return c;
  }
  bool eq(const E &a, const E &b) const {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
      if (a[i].size() != b[i].size()) return false;
      for (size_t j = 0; j < a[i].size(); j++)
        if (!k.eq(a[i][j], b[i][j])) return false;
    }
    return true;
  }
  // reduced row-echelon form; also the determinant's absolute building block
  E rref(E a, int *rank = nullptr, C *det = nullptr) const {
    size_t m = a.size(), n = m ? a[0].size() : 0, r = 0;
    C d = k.one();
    for (size_t c = 0; c < n && r < m; c++) {
      size_t p = r;
      while (p < m && k.is_zero(a[p][c])) p++;
      if (p == m) {
        d = k.zero();
        continue;
      }
      if (p != r) {
        std::swap(a[p], a[r]);
        d = k.neg(d);
      }
      d = k.mul(d, a[r][c]);
      C iv;
      if (!k.inv(a[r][c], iv)) pbt::fail("model: pivot is not a unit");
      for (auto &x : a[r]) x = k.mul(x, iv);
      for (size_t i = 0; i < m; i++)
        if (i != r && !k.is_zero(a[i][c])) {
          C f = a[i][c];
          for (size_t j = 0; j < n; j++) a[i][j] = k.sub(a[i][j], k.mul(f, a[r][j]));
        }
      r++;
    }
    if (rank) *rank = (int)r;
    if (det) *det = r == n && m == n ? d : k.zero();
    return a;
  }
  int rank(const E &a) const {
    int r;
    rref(a, &r);
    return r;
  }
  C det(const E &a) const {
    C d;
    rref(a, nullptr, &d);
    return d;
  }
  // determinant by cofactor expansion: valid over any commutative ring
  C det_cofactor(const E &a) const {
    size_t n = a.size();
    if (n == 0) return k.one();
    if (n == 1) return a[0][0];
    C s = k.zero();
    for (size_t j = 0; j < n; j++) {
      if (k.is_zero(a[0][j])) continue;
      E b;
      for (size_t i = 1; i < n; i++) {
        std::vector<C> row;
        for (size_t l = 0; l < n; l++)
          if (l != j) row.push_back(a[i][l]);
        b.push_back(row);
      }
      C t = k.mul(a[0][j], det_cofactor(b));
      s = j % 2 ? k.sub(s, t) : k.add(s, t);
    }
    return s;
  }
  // det(tI - A), leading coefficient first, over any commutative ring, without
  // division (Samuelson and Berkowitz): for sizes cofactors are too slow for
  std::vector<C> char_coeffs(const E &a) const {
    size_t n = a.size();
    std::vector<C> q{k.one()};
    for (size_t r = 0; r < n; r++) {
      std::vector<C> col{k.one(), k.neg(a[r][r])}, v;
      for (size_t i = 0; i < r; i++) v.push_back(a[i][r]);
      for (size_t l = 0; l < r; l++) {
        C s = k.zero();
        for (size_t j = 0; j < r; j++) s = k.add(s, k.mul(a[r][j], v[j]));
        col.push_back(k.neg(s));
        std::vector<C> w;
        for (size_t i = 0; i < r; i++) {
          C t = k.zero();
          for (size_t j = 0; j < r; j++) t = k.add(t, k.mul(a[i][j], v[j]));
          w.push_back(t);
        }
        v = w;
      }
      std::vector<C> nq(r + 2, k.zero());
      for (size_t i = 0; i < r + 2; i++)
        for (size_t j = 0; j <= std::min(i, r); j++) nq[i] = k.add(nq[i], k.mul(col[i - j], q[j]));
      q = nq;
    }
    return q;
  }
  C det_ring(const E &a) const {
    if (a.size() < 6) return det_cofactor(a);
    C d = char_coeffs(a).back();
    return a.size() % 2 ? k.neg(d) : d;
  }
  bool inverse(const E &a, E &o) const {
    size_t n = a.size();
    E w = make(n, 2 * n);
    for (size_t i = 0; i < n; i++) {
      for (size_t j = 0; j < n; j++) w[i][j] = a[i][j];
      w[i][n + i] = k.one();
    }
    w = rref(w);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        if (!k.eq(w[i][j], i == j ? k.one() : k.zero())) return false;
    o = make(n, n);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) o[i][j] = w[i][n + j];
    return true;
  }
  std::string show(const E &a) const {
    std::string s = "[";
    for (auto &row : a) {
      s += "[";
      for (size_t j = 0; j < row.size(); j++) s += (j ? " " : "") + k.show(row[j]);
      s += "]";
    }
    return s + "]";
  }
  E random(pbt::Gen &g, size_t m, size_t n) const {
    E a = make(m, n);
    int style = (int)g.below(4); // dense, sparse, low rank, structured zeros
    for (auto &row : a)
      for (auto &x : row)
        if (style != 1 || g.below(3) == 0) x = k.random(g);
    if (style == 2 && m > 1) {
      // some rows become combinations of the others
      size_t cnt = 1 + (size_t)g.below(m - 1);
      for (size_t t = 0; t < cnt; t++) {
        size_t i = (size_t)g.below(m), j = (size_t)g.below(m), l = (size_t)g.below(m);
        if (i == j || i == l) continue;
        C f = k.random(g);
        for (size_t c = 0; c < n; c++) a[i][c] = k.add(a[j][c], k.mul(f, a[l][c]));
      }
    }
    if (style == 3) {
      size_t j = (size_t)g.below(n);
      for (auto &row : a) row[j] = k.zero();
      if (m > 1 && g.flip()) {
        size_t i = (size_t)g.below(m);
        for (auto &x : a[i]) x = k.zero();
      }
    }
    return a;
  }
};

} // namespace ref
#endif
