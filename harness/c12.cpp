// C12: factorization bookkeeping: totients, divisors, the factor table itself.
#include "pure.h"
#include "facx.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_totient.h"
using namespace bind;
using namespace pbt;

static u64 upow(u64 b, int e) {
  u64 r = 1;
  for (int i = 0; i < e; i++) {
    if (r > ((u64)1 << 40) / b) throw Discard();
    r *= b;
  }
  return r;
}
template <class A> void totient_of(Gen &g, Ctx &c, const A &a, int md) {
  auto pl = plant(a, g, md);
  u64 q = a.m.r.size(), t = 1;
  for (auto &w : pl.parts) {
    int d = a.m.deg(w.first);
    t *= upow(q, d * (w.second - 1)) * (upow(q, d) - 1);
    if (t > 2147483647) throw Discard();
  }
  c.log << show_plant(a, pl);
  c.nontrivial = pl.parts.size() > 1 || pl.parts[0].second > 1;
  REQUIRE_(c, (u64)lib_totient(a.make(pl.f)) == t, "totient " << lib_totient(a.make(pl.f)) << ", not " << t);
}
// the totient counts the residues prime to f: by enumeration
template <class A> void totient_count(Gen &g, Ctx &c, const A &a, u64 cap) {
  u64 q = a.m.r.size();
  int md = 0;
  for (u64 s = q; s <= cap; s *= q) md++;
  if (md < 1) throw Discard();
  auto f = a.m.random_exact(g, 1 + (int)g.below((u64)md));
  c.log << a.name() << ": " << a.m.show(f);
  c.nontrivial = f.size() > 2;
  u64 n = 1, cnt = 0;
  for (size_t i = 1; i < f.size(); i++) n *= q;
  for (u64 i = 0; i < n; i++) cnt += a.m.deg(a.m.gcd(a.m.element(i), f)) == 0;
  REQUIRE_(c, (u64)lib_totient(a.make(f)) == cnt, "totient " << lib_totient(a.make(f)) << ", not " << cnt);
}
template <class A> void divisors_of(Gen &g, Ctx &c, const A &a, int md, bool monic) {
  typedef typename A::T T;
  auto pl = plant(a, g, md, monic);
  size_t nd = 1;
  for (auto &w : pl.parts) nd *= (size_t)w.second + 1;
  if (nd > 200) throw Discard();
  c.log << show_plant(a, pl);
  c.nontrivial = nd > 3;
  T lf = a.make(pl.f), one = a.make(a.m.one());
  auto info = lib_factor(lf);
  REQUIRE_(c, (size_t)info.get_num_divisors() == nd, info.get_num_divisors() << " divisors, not " << nd);
  tvector<T> all = info.get_all_divisors(one);
  REQUIRE_(c, (size_t)all.get_num_elements() == nd, all.get_num_elements() << " divisors listed, not " << nd);
  std::vector<typename A::M::E> es;
  for (size_t i = 0; i < nd; i++) {
    auto e = a.get(all[(int)i]);
    REQUIRE_(c, !e.empty() && a.m.r.eq(e.back(), a.m.r.one()), "divisor " << a.m.show(e) << " is not monic");
    REQUIRE_(c, a.m.rem(pl.f, e).empty(), a.m.show(e) << " does not divide");
    if (i) REQUIRE_(c, all[(int)i - 1] < all[(int)i], "divisors not strictly ascending at " << a.m.show(e));
    for (auto &o : es) REQUIRE_(c, !a.m.eq(o, e), a.m.show(e) << " listed twice");
    es.push_back(e);
  }
  // each of them is also reachable by number
  std::vector<bool> hit(nd, false);
  for (size_t k = 0; k < nd; k++) {
    auto e = a.get(info.get_kth_divisor((int)k, one));
    for (size_t i = 0; i < nd; i++)
      if (a.m.eq(es[i], e)) hit[i] = true;
  }
  REQUIRE_(c, std::count(hit.begin(), hit.end(), true) == (long)nd, "the numbered divisors are not all the divisors");
  tvector<T> mp;
  REQUIRE_(c, info.get_maximal_proper_divisors(mp, one), "no maximal proper divisors");
  REQUIRE_(c, (size_t)mp.get_num_elements() == pl.parts.size(), mp.get_num_elements() << " maximal proper divisors");
  std::vector<bool> used(pl.parts.size(), false);
  for (int i = 0; i < mp.get_num_elements(); i++) {
    auto e = a.get(mp[i]);
    bool ok = false;
    for (size_t j = 0; j < used.size(); j++)
      if (!used[j] && a.m.eq(a.m.mul(e, pl.parts[j].first), pl.f)) {
        used[j] = ok = true;
        break;
      }
    REQUIRE_(c, ok, a.m.show(e) << " is not a maximal proper divisor");
    if (i) REQUIRE_(c, mp[i - 1] <= mp[i], "maximal proper divisors not ascending");
  }
}
// the factor table as a container, against a map
static void table(Gen &g, Ctx &c) {
  struct Model {
    std::map<i64, int> f;
    bool have = false;
    i64 unit = 1;
  };
  std::vector<tfacinfo<int>> x(3);
  std::vector<Model> m(3);
  static const std::vector<int> primes{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97};
  int steps = 1 + (int)g.below(40), done = 0;
  auto check = [&](size_t i) {
    REQUIRE_(c, x[i].get_num_distinct() == (int)m[i].f.size(), "t" << i << " has " << x[i].get_num_distinct() << " distinct factors, not " << m[i].f.size());
    int k = 0, tot = 0;
    i128 prod = m[i].have ? m[i].unit : 1;
    bool fits = true;
    i64 nd = 1;
    std::ostringstream want;
    if (m[i].have) want << m[i].unit;
    for (auto &w : m[i].f) {
      REQUIRE_(c, x[i].get_ith_factor(k) == (int)w.first, "t" << i << " factor " << k << " is " << x[i].get_ith_factor(k) << ", not " << w.first);
      REQUIRE_(c, x[i].get_ith_count(k) == w.second, "t" << i << " multiplicity of " << w.first << " is " << x[i].get_ith_count(k) << ", not " << w.second);
      if (k || m[i].have) want << " ";
      want << w.first;
      if (w.second != 1) want << "^" << w.second;
      k++;
      tot += w.second;
      for (int e = 0; e < w.second && fits; e++) {
        prod *= w.first;
        if (iabs(prod) > 2147483647) fits = false;
      }
      if (nd < 2000000000) nd *= w.second + 1;
    }
    REQUIRE_(c, x[i].get_num_factors() == tot, "t" << i << " number of factors");
    if (fits) REQUIRE_(c, (i128)x[i].unfactor(1) == prod, "t" << i << " multiplies to " << x[i].unfactor(1) << ", not " << str(prod));
    int u = 0;
    bool hu = x[i].get_unit(u);
    REQUIRE_(c, hu == m[i].have && (!hu || u == m[i].unit), "t" << i << " unit " << hu << " " << u);
    REQUIRE_(c, text_of(x[i]) == want.str(), "t" << i << " prints as " << text_of(x[i]) << ", not " << want.str());
    for (int bad : {-1, (int)m[i].f.size()}) {
      REQUIRE_(c, refuses([&]() { x[i].get_ith_factor(bad); }), "factor " << bad << " was not refused");
      REQUIRE_(c, refuses([&]() { x[i].get_ith_count(bad); }), "count " << bad << " was not refused");
    }
    if (m[i].f.empty() && !m[i].have)
      REQUIRE_(c, refuses([&]() { x[i].get_num_divisors(); }) && refuses([&]() { x[i].get_all_divisors(1); }), "divisors of an empty table were not refused");
    else if (nd < 2000000000)
      REQUIRE_(c, x[i].get_num_divisors() == (int)nd, "t" << i << " number of divisors " << x[i].get_num_divisors() << ", not " << nd);
    if (fits && nd <= 60 && !m[i].f.empty()) {
      std::vector<i64> d{1};
      for (auto &w : m[i].f) {
        size_t s = d.size();
        i64 q = 1;
        for (int e = 0; e < w.second; e++) {
          q *= w.first;
          for (size_t z = 0; z < s; z++) d.push_back(d[z] * q);
        }
      }
      std::sort(d.begin(), d.end());
      tvector<int> l = x[i].get_all_divisors(1);
      REQUIRE_(c, (size_t)l.get_num_elements() == d.size(), "number of listed divisors");
      for (size_t z = 0; z < d.size(); z++) REQUIRE_(c, l[(int)z] == d[z], "divisor " << z << " is " << l[(int)z] << ", not " << d[z]);
    }
  };
  for (int s = 0; s < steps; s++) {
    size_t i = (size_t)g.below(3), j = (size_t)g.below(3);
    switch (g.below(10)) {
    case 0:
    case 1:
    case 2:
    case 3: {
      int q = g.pick(primes);
      c.log << "; t" << i << " insert " << q;
      x[i].insert_factor(q);
      m[i].f[q]++;
      break;
    }
    case 4: {
      int q = g.pick(primes), k = 1 + (int)g.below(4);
      c.log << "; t" << i << " insert " << q << "^" << k;
      x[i].insert_factor(q, k);
      m[i].f[q] += k;
      break;
    }
    case 5: {
      int u = g.flip() ? -1 : 1;
      c.log << "; t" << i << " unit " << u;
      x[i].insert_unit(u);
      m[i].unit = m[i].have ? m[i].unit * u : u;
      m[i].have = true;
      break;
    }
    case 6: {
      int e = (int)1 + (int)g.below(3);
      bool big = false;
      for (auto &w : m[i].f) big |= w.second > 50;
      if (big) break;
      c.log << "; t" << i << " to the power " << e;
      x[i].exp_all(e);
      for (auto &w : m[i].f) w.second *= e;
      if (m[i].have && e % 2 == 0) m[i].unit = 1;
      break;
    }
    case 7: {
      if (i == j) break; // merging a table into itself is not asked for
      bool big = false;
      for (auto &w : m[i].f) big |= w.second > 50;
      if (big) break;
      c.log << "; t" << i << " merge t" << j;
      x[i].merge(x[j]);
      for (auto &w : m[j].f) m[i].f[w.first] += w.second;
      if (m[j].have) {
        m[i].unit = m[i].have ? m[i].unit * m[j].unit : m[j].unit;
        m[i].have = true;
      }
      break;
    }
    case 8: {
      c.log << "; t" << i << " = t" << j;
      x[i] = x[j];
      m[i] = Model(m[j]);
      break;
    }
    case 9: {
      c.log << "; t" << i << " = copy of t" << j << " with 2";
      tfacinfo<int> y(x[j]);
      y.insert_factor(2);
      Model mm(m[j]);
      mm.f[2]++;
      x[i] = y;
      m[i] = mm;
      break;
    }
    }
    done++;
    for (size_t k = 0; k < 3; k++) check(k);
  }
  size_t most = 0;
  for (auto &w : m) most = std::max(most, w.f.size());
  c.nontrivial = most >= 2;
  if (most > 20) c.label("more than 20 distinct factors");
}
// many distinct factors in random order
static void table_large(Gen &g, Ctx &c) {
  int n = 15 + (int)g.below(60);
  tfacinfo<int> x;
  std::map<int, int> m;
  for (int i = 0; i < n; i++) {
    int v = 2 + (int)g.below(100);
    c.log << v << " ";
    x.insert_factor(v);
    m[v]++;
  }
  c.nontrivial = m.size() > 20;
  tfacinfo<int> y(x), z;
  z.insert_factor(3);
  z = x;
  for (auto *t : {&x, &y, &z}) {
    REQUIRE_(c, t->get_num_distinct() == (int)m.size() && t->get_num_factors() == n, "counts");
    int k = 0;
    for (auto &w : m) {
      REQUIRE_(c, t->get_ith_factor(k) == w.first && t->get_ith_count(k) == w.second, "entry " << k);
      k++;
    }
    t->insert_factor(1); // below everything
    REQUIRE_(c, t->get_ith_factor(0) == 1 && t->get_num_distinct() == (int)m.size() + 1, "inserting below everything");
  }
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C12";
  p.rule_text =
      "Polynomials over F2, prime fields and extensions of F2 built from known irreducibles with multiplicities: totients by "
      "formula and by counting coprime residues, complete ascending divisor lists, numbered divisors, maximal proper divisors; "
      "integers likewise; and histories of insertions, powers, merges and copies of factor tables against a map. Non-trivial: "
      "a repeated or second factor; more than three divisors; a table of at least two factors.";
  p.assumptions = {"the totient and the number of divisors fit an int", "tables are not merged into themselves",
      "the integer totient of 1 is pinned to 0 by the repository's own test and not explored"};
  static auto fp = [](Gen &g) { return FpPolyA(gen_prime(g, g.chance(1, 5) ? 60 : 12)); };
  static auto f2n = [](Gen &g) { PZn P{Zn{2}}; return F2nPolyA(P.random_irreducible(g, 1 + (int)g.skewed(3))); };
  static F2PolyA f2;
  p.add("f2-totient", 4000, 60000, [](Gen &g, Ctx &c) { totient_of(g, c, f2, 31); });
  p.add("fp-totient", 4000, 60000, [](Gen &g, Ctx &c) { totient_of(g, c, fp(g), 12); });
  p.add("f2n-totient", 500, 12000, [](Gen &g, Ctx &c) { totient_of(g, c, f2n(g), 8); });
  p.add("f2-totient-counted", 600, 6000, [](Gen &g, Ctx &c) { totient_count(g, c, f2, 600); });
  p.add("fp-totient-counted", 600, 6000, [](Gen &g, Ctx &c) { totient_count(g, c, fp(g), 400); });
  p.add("f2n-totient-counted", 300, 3000, [](Gen &g, Ctx &c) { totient_count(g, c, f2n(g), 300); });
  p.add("f2-divisors", 3000, 60000, [](Gen &g, Ctx &c) { divisors_of(g, c, f2, 30, false); });
  p.add("fp-divisors", 2000, 60000, [](Gen &g, Ctx &c) { divisors_of(g, c, fp(g), 16, false); });
  p.add("f2n-divisors", 400, 12000, [](Gen &g, Ctx &c) { divisors_of(g, c, f2n(g), 8, false); });
  p.add("integer-divisors", 6000, 60000, [](Gen &g, Ctx &c) {
    int n = g.flip() ? 2 + (int)g.skewed(2000000) : 0;
    if (!n) {
      n = 1;
      static const std::vector<int> ps{2, 2, 2, 3, 3, 5, 7, 11, 13, 10007};
      for (int i = 0; i < 14; i++) {
        int q = g.pick(ps);
        if ((i64)n * q > 2147483647) break;
        n *= q;
      }
    }
    c.log << n;
    auto fi = spffl::factorization::int_factor(n);
    auto d = divisors((u64)n);
    c.nontrivial = d.size() > 3;
    REQUIRE_(c, fi.get_num_divisors() == (int)d.size(), "number of divisors");
    tvector<int> l = fi.get_all_divisors(1);
    for (size_t i = 0; i < d.size(); i++) REQUIRE_(c, (u64)l[(int)i] == d[i], "divisor " << i << " is " << l[(int)i] << ", not " << d[i]);
    tvector<int> mp;
    REQUIRE_(c, fi.get_maximal_proper_divisors(mp, 1), "no maximal proper divisors");
    std::vector<u64> w;
    for (auto &pe : factor((u64)n)) w.push_back((u64)n / pe.first);
    std::sort(w.begin(), w.end());
    REQUIRE_(c, (size_t)mp.get_num_elements() == w.size(), "number of maximal proper divisors");
    for (size_t i = 0; i < w.size(); i++) REQUIRE_(c, (u64)mp[(int)i] == w[i], "maximal proper divisor " << mp[(int)i] << ", not " << w[i]);
  });
  p.add("table", 9000, 600000, table);
  p.add("table-large", 15000, 200000, table_large);
  p.add("independent", 500, 20000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C12"); });
  return engine_main(argc, argv, p);
}
