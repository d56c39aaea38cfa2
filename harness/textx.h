// The text of values, as the model writes it.
//   fmt(a, e)        the text the library promises for e
//   spell(a, g, e)   another text that stands for e
//   unfmt(a, s, e)   reads canonical text only; false when it is not
//   scan(a, s, x)    the library's from_string
#ifndef VERIF_TEXTX_H
#define VERIF_TEXTX_H
#include <cmath>
#include <map>
#include "resx.h"
#include "tmatx.h"

namespace bind {
// ---- words
inline std::string hex_of(const PZn::E &e) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < e.size() || i == 0; i += 4) {
    int v = 0;
    for (size_t j = 0; j < 4; j++)
      if (i + j < e.size() && e[i + j]) v |= 1 << j;
    s.insert(s.begin(), d[v]);
  }
  return s;
}
inline std::string zeros_before(std::string s, size_t n) {
  while (s.size() < n) s.insert(s.begin(), '0');
  return s;
}
inline std::string fmt_fp(const PZn::E &e, u64 p, size_t width) {
  std::string s;
  size_t n = std::max(e.size(), std::max<size_t>(width, 1));
  for (size_t i = n; i-- > 0;) {
    if (p > 9 && i + 1 < n) s += ",";
    s += std::to_string(i < e.size() ? e[i] : 0);
  }
  return s;
}

inline std::string fmt(const IntA &, i128 e) { return str(e); }
inline std::string fmt(const IntmodA &, u64 e) { return std::to_string(e); }
inline std::string fmt(const BitA &, u64 e) { return e ? "1" : "0"; }
inline std::string fmt_q(const QQ::E &e) { return e.d == 1 ? str(e.n) : str(e.n) + "/" + str(e.d); }
inline std::string fmt(const IntratA &, const QQ::E &e) { return fmt_q(e); }
inline std::string fmt(const IntratSA &, const QQ::E &e) { return fmt_q(e); }
inline std::string fmt(const F2PolyA &, const PZn::E &e) { return hex_of(e); }
inline std::string fmt(const FpPolyA &a, const PZn::E &e) { return fmt_fp(e, a.m.r.m, 1); }
inline std::string fmt(const QPolyA &, const PQ::E &e) {
  std::string s;
  for (size_t i = e.size(); i-- > 0;) s += fmt_q(e[i]) + (i ? "," : "");
  return s.empty() ? "0" : s;
}
inline std::string fmt(const F2PolymodA &a, const PZn::E &e) {
  return zeros_before(hex_of(e), (size_t)(a.m.n() + 3) / 4);
}
inline std::string fmt(const FpPolymodA &a, const PZn::E &e) { return fmt_fp(e, a.p(), (size_t)a.m.n()); }
inline std::string fmt_in(const F2PolymodA &, const PZn::E &e) { return hex_of(e); }
inline std::string fmt_in(const FpPolymodA &a, const PZn::E &e) { return fmt_fp(e, a.p(), 1); }
template <class C> std::string fmt_tower(const C &c, const PFq::E &e, size_t width) {
  std::string s;
  size_t n = std::max(e.size(), std::max<size_t>(width, 1));
  for (size_t i = n; i-- > 0;) s += (i < e.size() ? fmt_in(c, e[i]) : "0") + std::string(i ? ":" : "");
  return s;
}
inline std::string fmt(const F2nPolyA &a, const PFq::E &e) { return fmt_tower(a.c, e, 1); }
inline std::string fmt(const FpnPolyA &a, const PFq::E &e) { return fmt_tower(a.c, e, 1); }
inline std::string fmt(const F2nPolymodA &a, const PFq::E &e) { return fmt_tower(a.p.c, e, (size_t)a.m.n()); }
inline std::string fmt(const FpnPolymodA &a, const PFq::E &e) { return fmt_tower(a.p.c, e, (size_t)a.m.n()); }
template <class PA, class K, class LT> std::string fmt_frac(const RatA<PA, K, LT> &a, const typename PA::M::E &n, const typename PA::M::E &d) {
  if (a.p.m.eq(d, a.p.m.one())) return fmt(a.p, n);
  return fmt(a.p, n) + "/" + fmt(a.p, d);
}

// ---- reading canonical text
inline bool un_int(const std::string &s, i128 &v) {
  size_t i = s.size() && s[0] == '-' ? 1 : 0;
  if (i >= s.size() || s.size() > 30) return false;
  i128 r = 0;
  for (size_t j = i; j < s.size(); j++) {
    if (s[j] < '0' || s[j] > '9') return false;
    r = r * 10 + (s[j] - '0');
  }
  v = i ? -r : r;
  return str(v) == s;
}
inline std::vector<std::string> split(const std::string &s, char at) {
  std::vector<std::string> v(1);
  for (char ch : s)
    if (ch == at) v.push_back("");
    else v.back() += ch;
  return v;
}
inline bool un_q(const std::string &s, QQ::E &e) {
  auto v = split(s, '/');
  if (v.size() > 2 || !un_int(v[0], e.n)) return false;
  e.d = 1;
  if (v.size() == 2 && !un_int(v[1], e.d)) return false;
  return (v.size() == 1 || e.d > 1) && igcd(e.n, e.d) == 1;
}
inline bool un_f2(const std::string &s, PZn::E &e) {
  e.clear();
  if (s.empty()) return false;
  for (size_t i = s.size(); i-- > 0;) {
    int v = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : -1;
    if (v < 0) return false;
    for (int j = 0; j < 4; j++) e.push_back((u64)(v >> j & 1));
  }
  PZn{Zn{2}}.trim(e);
  return true;
}
inline bool un_fp(const std::string &s, u64 p, PZn::E &e) {
  e.clear();
  std::vector<std::string> v;
  if (p > 9) v = split(s, ',');
  else
    for (char ch : s) v.push_back(std::string(1, ch));
  if (v.empty()) return false;
  for (size_t i = v.size(); i-- > 0;) {
    i128 r;
    if (!un_int(v[i], r) || r < 0 || r >= (i128)p) return false;
    e.push_back((u64)r);
  }
  PZn{Zn{p}}.trim(e);
  return true;
}
inline bool un_in(const F2PolymodA &, const std::string &s, PZn::E &e) { return un_f2(s, e); }
inline bool un_in(const FpPolymodA &a, const std::string &s, PZn::E &e) { return un_fp(s, a.p(), e); }
template <class C> bool un_tower(const C &c, const std::string &s, PFq::E &e) {
  e.clear();
  auto v = split(s, ':');
  for (size_t i = v.size(); i-- > 0;) {
    PZn::E r;
    if (!un_in(c, v[i], r)) return false;
    e.push_back(r);
  }
  PFq{c.m}.trim(e);
  return true;
}
inline bool unread(const IntA &, const std::string &s, i128 &e) { return un_int(s, e); }
inline bool unread(const IntmodA &a, const std::string &s, u64 &e) {
  i128 v = 0;
  bool ok = un_int(s, v) && v >= 0 && v < (i128)a.m.m;
  e = (u64)v;
  return ok;
}
inline bool unread(const BitA &, const std::string &s, u64 &e) {
  e = s == "1";
  return s == "0" || s == "1";
}
inline bool unread(const IntratA &, const std::string &s, QQ::E &e) { return un_q(s, e); }
inline bool unread(const IntratSA &, const std::string &s, QQ::E &e) { return un_q(s, e); }
inline bool unread(const F2PolyA &, const std::string &s, PZn::E &e) { return un_f2(s, e); }
inline bool unread(const FpPolyA &a, const std::string &s, PZn::E &e) { return un_fp(s, a.m.r.m, e); }
inline bool unread(const QPolyA &a, const std::string &s, PQ::E &e) {
  e.clear();
  auto v = split(s, ',');
  for (size_t i = v.size(); i-- > 0;) {
    QQ::E q;
    if (!un_q(v[i], q)) return false;
    e.push_back(q);
  }
  a.m.trim(e);
  return true;
}
inline bool unread(const F2PolymodA &, const std::string &s, PZn::E &e) { return un_f2(s, e); }
inline bool unread(const FpPolymodA &a, const std::string &s, PZn::E &e) { return un_fp(s, a.p(), e); }
inline bool unread(const F2nPolyA &a, const std::string &s, PFq::E &e) { return un_tower(a.c, s, e); }
inline bool unread(const FpnPolyA &a, const std::string &s, PFq::E &e) { return un_tower(a.c, s, e); }
inline bool unread(const F2nPolymodA &a, const std::string &s, PFq::E &e) { return un_tower(a.p.c, s, e); }
inline bool unread(const FpnPolymodA &a, const std::string &s, PFq::E &e) { return un_tower(a.p.c, s, e); }

// Text is canonical when it is what fmt writes for what it says.
template <class A> bool unfmt(const A &a, const std::string &s, typename A::M::E &e) {
  if (!unread(a, s, e)) return false;
  return fmt(a, e) == s;
}
template <class PA, class K, class LT>
bool unfmt(const RatA<PA, K, LT> &a, const std::string &s, typename RatA<PA, K, LT>::M::E &e) {
  auto v = split(s, '/');
  typename PA::M::E n, d = a.p.m.one();
  if (v.size() > 2 || !unfmt(a.p, v[0], n)) return false;
  if (v.size() == 2 && (!unfmt(a.p, v[1], d) || d.empty() || a.p.m.eq(d, a.p.m.one()))) return false;
  if (a.p.m.deg(a.p.m.gcd(n, d)) != 0) return false; // lowest terms
  e = a.m.canon(n, d);
  return true;
}

// ---- other accepted spellings
inline std::string pad(pbt::Gen &g, const std::string &s) {
  return g.chance(1, 6) ? std::string((size_t)g.below(9) + 1, '0') + s : s;
}
inline std::string spell_int(pbt::Gen &g, i128 v) { // leading zeros
  return (v < 0 ? "-" : "") + pad(g, str(iabs(v)));
}
inline std::string spell(const IntA &, pbt::Gen &g, i128 e) { return spell_int(g, e); }
inline std::string spell(const IntmodA &a, pbt::Gen &g, u64 e) { // any representative
  i128 v = e, m = a.m.m;
  if (g.chance(1, 3)) {
    i64 k = g.skewed_signed((i64)((0x7fffffff - m) / m));
    v += m * k;
  }
  return spell_int(g, v);
}
inline std::string spell(const BitA &, pbt::Gen &g, u64 e) {
  return spell_int(g, (i128)(g.flip() ? e : e + 2 * g.skewed(1u << 30)));
}
inline std::string spell_q(pbt::Gen &g, const QQ::E &e, i128 lim) { // not in lowest terms
  i128 k = 1;
  if (g.chance(1, 3)) {
    i128 big = std::max(iabs(e.n), e.d);
    k = g.skewed_signed((i64)(lim / big));
    if (k == 0) k = -1;
    if (big * iabs(k) > lim) k = 1;
  }
  if (e.d * k == 1 && g.chance(3, 4)) return spell_int(g, e.n);
  return spell_int(g, e.n * k) + "/" + spell_int(g, e.d * k);
}
inline std::string spell(const IntratA &, pbt::Gen &g, const QQ::E &e) { return spell_q(g, e, (i128)1 << 30); }
inline std::string spell(const IntratSA &, pbt::Gen &g, const QQ::E &e) { return spell_q(g, e, (i128)1 << 14); }
inline std::string spell(const F2PolyA &, pbt::Gen &g, const PZn::E &e) { // either case
  std::string s = pad(g, hex_of(e));
  for (auto &ch : s)
    if (ch >= 'a' && g.chance(1, 4)) ch = (char)(ch - 'a' + 'A');
  return s;
}
inline std::string spell(const FpPolyA &a, pbt::Gen &g, const PZn::E &e) {
  u64 p = a.m.r.m;
  std::string s;
  size_t n = std::max<size_t>(e.size(), 1) + (g.chance(1, 6) ? g.below(5) : 0);
  bool commas = p > 9 || (n > 1 && g.chance(1, 3));
  for (size_t i = n; i-- > 0;) {
    u64 v = i < e.size() ? e[i] : 0;
    if (g.chance(1, 5)) v += p * (commas ? g.skewed((0x7fffffff - p) / p) : g.below((9 - v) / p + 1));
    s += commas ? spell_int(g, (i128)v) : std::to_string(v);
    if (commas && i) s += ",";
  }
  return s;
}
inline std::string spell(const QPolyA &, pbt::Gen &g, const PQ::E &e) { // whole non-negative coefficients only
  std::string s;
  bool digits = g.flip();
  for (auto &q : e) {
    if (q.d != 1 || q.n < 0) throw pbt::Discard();
    if (q.n > 9) digits = false;
  }
  if (e.empty()) return "0";
  if (e.size() == 1 && e[0].n > 9) throw pbt::Discard();
  for (size_t i = e.size(); i-- > 0;) s += str(e[i].n) + (i && !digits ? "," : "");
  return s;
}
// residues that are not reduced
template <class M> typename M::E unreduced(const M &m, pbt::Gen &g, const typename M::E &e) {
  if (!g.chance(1, 4)) return e;
  return m.p.add(e, m.p.mul(m.m, m.p.random_deg(g, (int)g.below(5))));
}
inline std::string spell(const F2PolymodA &a, pbt::Gen &g, const PZn::E &e) { return spell(F2PolyA(), g, unreduced(a.m, g, e)); }
inline std::string spell(const FpPolymodA &a, pbt::Gen &g, const PZn::E &e) { return spell(FpPolyA(a.p()), g, unreduced(a.m, g, e)); }
template <class C> std::string spell_tower(const C &c, pbt::Gen &g, const PFq::E &e) {
  std::string s;
  size_t n = std::max<size_t>(e.size(), 1) + (g.chance(1, 6) ? g.below(4) : 0);
  for (size_t i = n; i-- > 0;) s += spell(c, g, i < e.size() ? e[i] : PZn::E()) + (i ? ":" : "");
  return s;
}
inline std::string spell(const F2nPolyA &a, pbt::Gen &g, const PFq::E &e) { return spell_tower(a.c, g, e); }
inline std::string spell(const FpnPolyA &a, pbt::Gen &g, const PFq::E &e) { return spell_tower(a.c, g, e); }
inline std::string spell(const F2nPolymodA &a, pbt::Gen &g, const PFq::E &e) { return spell_tower(a.p.c, g, unreduced(a.m, g, e)); }
inline std::string spell(const FpnPolymodA &a, pbt::Gen &g, const PFq::E &e) { return spell_tower(a.p.c, g, unreduced(a.m, g, e)); }
template <class PA, class K, class LT>
std::string spell(const RatA<PA, K, LT> &a, pbt::Gen &g, const typename Frac<K>::E &e) {
  auto n = e.n, d = e.d;
  if (g.chance(1, 3)) { // not in lowest terms, denominator not monic
    auto f = a.p.m.random_deg(g, 2);
    if (!f.empty()) {
      n = a.p.m.mul(n, f);
      d = a.p.m.mul(d, f);
    }
  }
  if (a.p.m.eq(d, a.p.m.one()) && g.chance(3, 4)) return spell(a.p, g, n);
  return spell(a.p, g, n) + "/" + spell(a.p, g, d);
}

// ---- the library's from_string
inline bool scan(const IntmodA &a, const std::string &s, intmod_t &x) { return x.from_string(s, (int)a.m.m); }
inline bool scan(const BitA &, const std::string &s, bit_t &x) { return x.from_string(s); }
inline bool scan(const IntratA &, const std::string &s, intrat_t &x) { return x.from_string(s); }
inline bool scan(const F2PolyA &, const std::string &s, f2_poly_t &x) { return x.from_string(s); }
inline bool scan(const FpPolyA &a, const std::string &s, fp_poly_t &x) { return x.from_string(s, (int)a.m.r.m); }
inline bool scan(const QPolyA &, const std::string &s, q_poly_t &x) { return x.from_string(s); }
inline bool scan(const F2PolymodA &a, const std::string &s, f2_polymod_t &x) { return x.from_string(s, a.lm); }
inline bool scan(const FpPolymodA &a, const std::string &s, fp_polymod_t &x) {
  fp_poly_t m(a.lm);
  return x.from_string(s, m);
}
inline bool scan(const F2nPolyA &a, const std::string &s, f2n_poly_t &x) { return x.from_string(s, a.c.lm); }
inline bool scan(const FpnPolyA &a, const std::string &s, fpn_poly_t &x) { return x.from_string(s, a.c.lm); }
template <class PA, class LT> bool scan(const TowerA<PA, LT> &a, const std::string &s, LT &x) {
  typename PA::T m(a.lm);
  return x.from_string(s, m);
}
inline bool scan(const F2PolyratA &, const std::string &s, f2_polyrat_t &x) { return x.from_string(s); }
inline bool scan(const FpPolyratA &a, const std::string &s, fp_polyrat_t &x) { return x.from_string(s, (int)a.p.m.r.m); }
inline bool scan(const F2nPolyratA &a, const std::string &s, f2n_polyrat_t &x) { return x.from_string(s, a.p.c.lm); }
} // namespace bind
#endif
#ifndef VERIF_TEXTX_PICK
#define VERIF_TEXTX_PICK
namespace bind {
// Calls f with an adapter of the i-th type, its moduli drawn from g.
enum { T_BIT, T_INTMOD, T_INTRAT, T_F2P, T_FPP, T_QP, T_F2PM, T_FPPM, T_F2NP, T_FPNP, T_F2NPM, T_FPNPM, T_F2PR, T_FPPR, T_F2NPR, T_COUNT };
inline const char *type_name(int t) {
  static const char *n[] = {"bit", "intmod", "intrat", "f2_poly", "fp_poly", "q_poly", "f2_polymod", "fp_polymod", "f2n_poly",
      "fpn_poly", "f2n_polymod", "fpn_polymod", "f2_polyrat", "fp_polyrat", "f2n_polyrat"};
  return n[t];
}
struct PickOpts {
  bool field = true;    // residue rings are fields
  int f2deg = 12, fpdeg = 4, outdeg = 3, qdeg = 4;
  u64 pmax = 32000;
};
// one of a few irreducible polynomials, the same few on every run
template <class PP> typename PP::E one_of(pbt::Gen &g, std::vector<typename PP::E> &made, const PP &P, int d) {
  if (made.empty()) {
    pbt::Gen own(77);
    for (int i = 0; i < 5; i++) made.push_back(P.random_irreducible(own, d));
  }
  return g.pick(made);
}
inline PZn::E gen_mod(pbt::Gen &g, u64 p, int maxdeg, bool field) {
  PZn P{Zn{p}};
  int d = 1 + (int)g.below((u64)maxdeg);
  if (field) {
    while (d > 1 && std::pow((double)p, d) > 1e6) d--;
    static std::map<std::pair<u64, int>, std::vector<PZn::E>> made;
    return one_of(g, made[{p, d}], P, d);
  }
  return P.random_monic(g, d);
}
inline PFq::E gen_outer(pbt::Gen &g, const PFq &P, int maxdeg, bool field) {
  int d = 1 + (int)g.below((u64)maxdeg);
  if (field) {
    while (d > 1 && std::pow((double)P.r.size(), d) > 1e5) d--;
    static std::map<std::tuple<u64, PZn::E, int>, std::vector<PFq::E>> made;
    return one_of(g, made[{P.r.p.r.m, P.r.m, d}], P, d);
  }
  return P.random_monic(g, d);
}
template <class F> void with_type(int t, pbt::Gen &g, const PickOpts &o, F f) {
  u64 p = 2;
  if (t == T_FPP || t == T_FPPM || t == T_FPNP || t == T_FPNPM || t == T_FPPR)
    p = gen_prime(g, g.flip() ? 12 : t == T_FPNP || t == T_FPNPM ? 40 : o.pmax);
  switch (t) {
  case T_BIT: f(BitA()); break;
  case T_INTMOD: f(IntmodA(o.field ? gen_prime(g, g.flip() ? 40 : o.pmax) : 2 + g.skewed(o.pmax))); break;
  case T_INTRAT: f(IntratA()); break;
  case T_F2P: f(F2PolyA()); break;
  case T_FPP: f(FpPolyA(p)); break;
  case T_QP: f(QPolyA()); break;
  case T_F2PM: f(F2PolymodA(gen_mod(g, 2, o.f2deg, o.field))); break;
  case T_FPPM: f(FpPolymodA(p, gen_mod(g, p, o.fpdeg, o.field))); break;
  case T_F2NP: f(F2nPolyA(gen_mod(g, 2, 6, true))); break;
  case T_FPNP: f(FpnPolyA(p, gen_mod(g, p, 3, true))); break;
  case T_F2NPM: {
    F2nPolyA a(gen_mod(g, 2, 6, true));
    f(F2nPolymodA(a, gen_outer(g, a.m, o.outdeg, o.field)));
    break;
  }
  case T_FPNPM: {
    FpnPolyA a(p, gen_mod(g, p, 3, true));
    f(FpnPolymodA(a, gen_outer(g, a.m, o.outdeg, o.field)));
    break;
  }
  case T_F2PR: f(F2PolyratA(F2PolyA())); break;
  case T_FPPR: f(FpPolyratA(FpPolyA(p))); break;
  case T_F2NPR: f(F2nPolyratA(F2nPolyA(gen_mod(g, 2, 6, true)))); break;
  }
}
} // namespace bind
#endif
