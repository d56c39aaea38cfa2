// C28: the command line's integer and polynomial commands.
#include "clix.h"
#include "clicmd.h"
#include "cyclox.h"
#include "facx.h"
#include "unitx.h"
using namespace bind;
using namespace pbt;
using cli::Cmd;
using cli::range_of;
using cli::with_options;
using cli::operator+;

// ---------------------------------------------------------------- integers
static std::string factor_text(i128 n) {
  if (n >= -1 && n <= 1) return str(n);
  std::string s = n < 0 ? "-1" : "";
  for (auto &pe : factor((u64)iabs(n))) {
    s += (s.empty() ? "" : " ") + std::to_string(pe.first);
    if (pe.second > 1) s += "^" + std::to_string(pe.second);
  }
  return s;
}
static i64 any_int(Gen &g, i64 lim) {
  if (g.flip()) { // many small factors
    i64 n = 1;
    static const std::vector<int> ps{2, 2, 2, 3, 3, 5, 7, 11, 13, 46337};
    for (int i = (int)g.below(12); i > 0; i--) {
      i64 q = g.pick(ps);
      if (n * q > lim) break;
      n *= q;
    }
    return n;
  }
  return 1 + (i64)g.skewed((u64)lim);
}
template <class F> static std::vector<i64> ints(Gen &g, Words &w, int most, F draw) {
  std::vector<i64> v;
  for (int i = 1 + (int)g.below((u64)most); i > 0; i--) {
    v.push_back(draw());
    w.push_back(spell_int(g, v.back()));
  }
  return v;
}
static void integers(Gen &g, Ctx &c) {
  const i64 big = 0x7fffffff;
  Words w;
  c.nontrivial = true;
  switch ((int)g.below(10)) {
  case 0: {
    w = {"z_gcd"};
    i64 f = 1 + (i64)g.skewed(1000);
    auto v = ints(g, w, 5, [&]() { return f * g.skewed_signed(big / f); });
    i128 d = 0;
    for (auto x : v) d = igcd(d, x);
    Cmd k(c, w);
    i128 got = k.value(IntA());
    REQUIRE_(c, iabs(got) == d, "gcd " << str(got) << ", not " << str(d));
    k.end();
    break;
  }
  case 1: {
    i64 f = 1 + (i64)g.skewed(100), a = f * g.skewed_signed(46340 / f), b = f * g.skewed_signed(46340 / f);
    if (!a || !b) throw Discard();
    Cmd k(c, {"z_gcd", "-e", std::to_string(a), std::to_string(b)});
    auto l = cli::shown({k.next()});
    std::vector<std::string> t = split(l.substr(1, l.size() - 2), ' '); // g = r * a + s * b
    REQUIRE_(c, t.size() == 9 && t[1] == "=" && t[3] == "*" && t[5] == "+" && t[7] == "*", "'" << l << "' is not g = r * a + s * b");
    i128 d = k.value(IntA(), t[0]), r = k.value(IntA(), t[2]), s = k.value(IntA(), t[6]);
    REQUIRE_(c, t[4] == std::to_string(a) && t[8] == std::to_string(b), "the operands became " << t[4] << " and " << t[8]);
    REQUIRE_(c, iabs(d) == igcd(a, b) && r * a + s * b == d, "'" << l << "' is wrong");
    k.end();
    break;
  }
  case 2: {
    w = {"z_lcm"};
    i64 room = big;
    i128 l = 1;
    auto v = ints(g, w, 4, [&]() {
      i64 x = 1 + (i64)g.skewed((u64)std::min<i64>(room, 60000));
      room /= x;
      return g.chance(1, 6) ? -x : x;
    });
    for (auto x : v) l = iabs(l * x) / igcd(l, x);
    Cmd k(c, w);
    i128 got = k.value(IntA());
    REQUIRE_(c, iabs(got) == l, "least common multiple " << str(got) << ", not " << str(l));
    k.end();
    break;
  }
  case 3: {
    w = {"z_totient"};
    auto v = ints(g, w, 4, [&]() { return 1 + any_int(g, 20000); });
    Cmd k(c, w);
    for (auto x : v) k.line((v.size() > 1 ? std::to_string(x) + ": " : "") + std::to_string(totient((u64)x)));
    k.end();
    break;
  }
  case 4: {
    w = {"z_test_prime"};
    auto v = ints(g, w, 6, [&]() {
      i64 x = g.flip() ? (i64)g.skewed(big) : (i64)gen_prime(g, big);
      return g.chance(1, 8) ? -x : x;
    });
    Cmd k(c, w);
    for (auto x : v) k.line((v.size() > 1 ? std::to_string(x) + ": " : "") + (is_prime((u64)iabs(x)) ? "PRIME" : "not prime"));
    k.end();
    break;
  }
  case 5: {
    w = {"spffl::intmath::nth_prime"};
    static std::vector<u64> pr;
    for (u64 n = 2; pr.size() < 6542; n++)
      if (is_prime(n)) pr.push_back(n);
    std::vector<u64> want;
    for (int i = 1 + (int)g.below(3); i > 0; i--) {
      size_t lo = 1 + (size_t)g.skewed(6542), hi = lo;
      if (g.flip()) hi = std::min<size_t>(6542, lo + g.below(20));
      w.push_back(range_of(g, (int)lo, (int)hi));
      for (size_t j = lo; j <= hi; j++) want.push_back(pr[j - 1]);
    }
    Cmd k(c, w);
    for (auto p : want) k.line(std::to_string(p));
    k.end();
    break;
  }
  case 6: {
    i64 at = g.skewed_signed(1 << 30), n = 1, step = 1;
    w = {"z_list", std::to_string(at)};
    if (g.chance(3, 4)) {
      n = (i64)g.below(30);
      w.push_back(std::to_string(n));
      if (g.flip()) {
        step = g.skewed_signed(1 << 20);
        w.push_back(std::to_string(step));
      }
    }
    Cmd k(c, w);
    for (; n > 0; n--, at += step) k.line(std::to_string(at));
    k.end();
    break;
  }
  case 7: {
    w = {"z_factor"};
    auto v = ints(g, w, 4, [&]() {
      i64 x = any_int(g, big - 1);
      return g.chance(1, 10) ? 0 : g.chance(1, 4) ? -x : x;
    });
    Cmd k(c, w);
    for (auto x : v) k.line((v.size() > 1 ? std::to_string(x) + " = " : "") + factor_text(x));
    k.end();
    break;
  }
  default: {
    bool mp = g.flip();
    w = {"z_divisors"};
    if (mp) w.push_back("-mp");
    auto v = ints(g, w, 3, [&]() {
      i64 x = any_int(g, 2000000000);
      return x < 2 ? 2 : x;
    });
    Cmd k(c, w);
    for (auto x : v) {
      std::string s;
      std::vector<u64> d = divisors((u64)x);
      if (mp) {
        d.clear();
        for (auto &pe : factor((u64)x)) d.push_back((u64)x / pe.first);
        std::sort(d.begin(), d.end());
      }
      for (auto y : d) s += (s.empty() ? "" : " ") + std::to_string(y);
      k.line((v.size() > 1 ? std::to_string(x) + ": " : "") + s);
    }
    k.end();
  }
  }
  c.label(w.empty() ? "z_gcd -e" : w[0]);
}
static void cyclotomic(Gen &g, Ctx &c) {
  Words w{"q_cyclotomic"};
  std::vector<i64> v = ints(g, w, 3, [&]() { return 1 + (i64)(g.chance(1, 8) ? 104 : g.skewed(120)); });
  QPolyA a;
  c.nontrivial = v.size() > 1 || v[0] > 2;
  Cmd k(c, w);
  for (auto n : v) k.line(fmt(a, reduce(a, cyclo((int)n))));
  k.end();
}

// ---------------------------------------------------------------- polynomials
template <class A> struct Polys {
  typedef typename A::M::E E;
  const A &a;
  Gen &g;
  Ctx &c;
  static constexpr bool f2 = std::is_same<A, F2PolyA>::value;
  static constexpr bool fpn = std::is_same<A, FpnPolyA>::value;
  Polys(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc) {}
  Words cmd(const char *s, const Words &opts = {}) { return with_options(op_command(a, s), opts); }
  int most(int n) { return f2 ? n * 4 : n; }
  E nonzero(int d) {
    E e = a.m.random_deg(g, d);
    return e.empty() ? a.m.one() : e;
  }
  std::string tag(bool many, const E &e, const char *sep = ": ") { return many ? fmt(a, e) + sep : ""; }

  void degrees() {
    Words w = cmd("deg");
    std::vector<E> v;
    for (int i = 1 + (int)g.below(4); i > 0; i--) {
      v.push_back(a.m.random_deg(g, most(9)));
      w.push_back(spell(a, g, v.back()));
    }
    Cmd k(c, w);
    for (auto &e : v) k.line(tag(v.size() > 1, e) + std::to_string(std::max(0, a.m.deg(e))));
    k.end();
  }
  void gcds() {
    E f = nonzero(most(3)), x = a.m.mul(f, nonzero(most(5))), y = a.m.mul(f, nonzero(most(5)));
    if (g.chance(1, 8)) y = E();
    E d = a.m.gcd(x, y);
    Words w = cmd("gcd");
    w.push_back(spell(a, g, x));
    if (f2 && g.flip()) { // any number
      d = a.m.monic(x);
      for (int i = (int)g.below(5); i > 0; i--) {
        y = g.chance(1, 8) ? E() : a.m.mul(f, nonzero(most(4)));
        w.push_back(spell(a, g, y));
        d = a.m.gcd(d, y);
      }
    } else w.push_back(spell(a, g, y));
    Cmd k(c, w);
    E got = k.value(a);
    REQUIRE_(c, a.m.eq(a.m.monic(got), d), "gcd " << a.m.show(got) << ", not an associate of " << a.m.show(d));
    k.end();
  }
  void bezout() {
    E f = nonzero(most(3)), x = a.m.mul(f, nonzero(most(5))), y = a.m.mul(f, nonzero(most(5)));
    E d = a.m.gcd(x, y);
    Cmd k(c, cmd("gcd", {"-e"}) + Words{spell(a, g, x), spell(a, g, y)});
    std::string l = k.next();
    auto t = split(l, ' ');
    REQUIRE_(c, t.size() == 9 && t[1] == "=" && t[3] == "*" && t[5] == "+" && t[7] == "*", "'" << l << "' is not g = r * a + s * b");
    E got = k.value(a, t[0]), r = k.value(a, t[2]), s = k.value(a, t[6]);
    REQUIRE_(c, a.m.eq(k.value(a, t[4]), x) && a.m.eq(k.value(a, t[8]), y), "'" << l << "': the operands are others");
    REQUIRE_(c, a.m.eq(a.m.monic(got), d), "gcd " << a.m.show(got) << ", not an associate of " << a.m.show(d));
    REQUIRE_(c, a.m.eq(a.m.add(a.m.mul(r, x), a.m.mul(s, y)), got), "'" << l << "' does not hold");
    k.end();
  }
  void lcms() {
    Words w = cmd("lcm");
    E l = a.m.one(), f = nonzero(most(2));
    for (int i = 1 + (int)g.below(4); i > 0; i--) {
      E x = nonzero(most(3));
      if (g.flip()) x = a.m.mul(x, f);
      w.push_back(spell(a, g, x));
      l = a.m.quo(a.m.mul(l, x), a.m.gcd(l, x));
    }
    Cmd k(c, w);
    E got = k.value(a);
    REQUIRE_(c, a.m.eq(a.m.monic(got), a.m.monic(l)), "least common multiple " << a.m.show(got) << ", not an associate of " << a.m.show(l));
    k.end();
  }
  void cap(u64 q) {
    if (!f2 && a.m.r.size() > q) throw Discard();
  }
  Planted<A> planted(int d) {
    cap(2000);
    auto p = plant(a, g, d, f2);
    std::sort(p.parts.begin(), p.parts.end(), [&](auto &x, auto &y) { return a.make(x.first) < a.make(y.first); });
    return p;
  }
  std::vector<Planted<A>> several(Words &w, int d) {
    std::vector<Planted<A>> v;
    for (int i = 1 + (int)g.below(3); i > 0; i--) {
      v.push_back(planted(d));
      w.push_back(spell(a, g, v.back().f));
    }
    return v;
  }
  int fdeg() { return f2 ? 24 : std::is_same<A, F2nPolyA>::value ? 5 : 8; }
  void totients() {
    Words w = cmd("totient");
    auto v = several(w, fdeg());
    std::vector<u64> t;
    for (auto &p : v) t.push_back(planted_totient(a, p));
    Cmd k(c, w);
    for (size_t i = 0; i < v.size(); i++) k.line(tag(v.size() > 1, v[i].f) + std::to_string(t[i]));
    k.end();
  }
  void factors() {
    Words w = cmd("factor");
    auto v = several(w, fdeg());
    Cmd k(c, w);
    for (auto &p : v) {
      std::string s = k.after(tag(v.size() > 1, p.f, " = "));
      E prod = a.m.one();
      size_t at = 0;
      auto t = split(s, ' ');
      for (size_t i = 0; i < t.size(); i++) {
        auto u = split(t[i], '^');
        i128 n = 1;
        REQUIRE_(c, u.size() <= 2 && (u.size() == 1 || (un_int(u[1], n) && n > 1)), "'" << t[i] << "' in '" << s << "'");
        E e = k.value(a, u[0]);
        for (i128 j = 0; j < n; j++) prod = a.m.mul(prod, e);
        if (i == 0 && a.m.deg(e) == 0) continue; // unit
        REQUIRE_(c, at < p.parts.size() && a.m.eq(a.m.monic(e), p.parts[at].first) && n == p.parts[at].second,
            "'" << s << "': unexpected factor " << t[i] << " of " << show_plant(a, p));
        at++;
      }
      REQUIRE_(c, at == p.parts.size(), "'" << s << "': factors missing of " << show_plant(a, p));
      REQUIRE_(c, a.m.eq(prod, p.f), "'" << s << "' multiplies to " << a.m.show(prod));
    }
    k.end();
  }
  void divisor_lists() {
    bool mp = g.flip();
    Words w = cmd("divisors");
    if (mp) w = with_options(w, {"-mp"});
    auto v = several(w, std::is_same<A, F2nPolyA>::value ? 5 : f2 ? 16 : 8);
    Cmd k(c, w);
    for (auto &p : v) {
      std::string s = k.after(tag(v.size() > 1, p.f));
      std::set<std::string> want;
      if (mp) {
        E f = a.m.monic(p.f);
        for (auto &q : p.parts) want.insert(fmt(a, a.m.quo(f, q.first)));
      } else {
        std::vector<E> d{a.m.one()};
        for (auto &q : p.parts) {
          size_t n = d.size();
          E h = a.m.one();
          for (int i = 0; i < q.second; i++) {
            h = a.m.mul(h, q.first);
            for (size_t j = 0; j < n; j++) d.push_back(a.m.mul(d[j], h));
          }
        }
        for (auto &e : d) want.insert(fmt(a, e));
      }
      auto t = split(s, ' ');
      for (auto &x : t) REQUIRE_(c, want.count(fmt(a, a.m.monic(k.value(a, x)))), x << " is listed for " << show_plant(a, p));
      REQUIRE_(c, std::set<std::string>(t.begin(), t.end()).size() == want.size() && t.size() == want.size(),
          t.size() << " divisors listed, not " << want.size() << " for " << show_plant(a, p));
    }
    k.end();
  }
  void tests() {
    cap(2000);
    int kind = f2 ? (int)g.below(3) : 0; // -i, -p, -ip
    Words w = cmd("test");
    if (f2) w.push_back(kind == 0 ? "-i" : kind == 1 ? "-p" : "-ip");
    std::vector<E> v;
    for (int i = 1 + (int)g.below(4); i > 0; i--) {
      E e = g.flip() ? a.m.random_irreducible(g, 1 + (int)g.below((u64)(f2 ? 14 : 4))) : a.m.random_exact(g, 1 + (int)g.below((u64)(f2 ? 14 : 5)));
      v.push_back(e);
      w.push_back(spell(a, g, e));
    }
    Cmd k(c, w);
    for (auto &e : v) {
      std::string s = tag(f2 || v.size() > 1, e);
      if (kind != 1) s += a.m.irreducible(e) ? "IRREDUCIBLE" : "reducible";
      if (kind == 2) s += " ";
      if constexpr (f2) {
        if (kind) s += model_primitive(e) ? "PRIMITIVE" : "imprimitive";
      }
      k.line(s);
    }
    k.end();
  }
  void finds() {
    cap(40);
    bool rnd = g.flip();
    int kind = f2 ? (int)g.below(3) : 0;
    int lo = 1 + (int)g.below((u64)(f2 ? 9 : 3)), hi = lo + (int)g.below(3);
    Words w = op_command(a, "find");
    Words o{rnd ? "-r" : "-1"};
    if (f2) o.push_back(kind == 0 ? "-i" : kind == 1 ? "-p" : "-ip");
    w = with_options(w, o);
    w.push_back(range_of(g, lo, hi));
    Cmd k(c, w);
    for (int d = lo; d <= hi; d++) {
      E e = k.value(a);
      auto good = [&](const E &x) {
        if (kind != 1 && !a.m.irreducible(x)) return false;
        if (kind != 1 && d == 1 && a.m.eq(x, a.m.xpow(1))) return false;
        if constexpr (f2) {
          if (kind && !model_primitive(x)) return false;
        }
        return true;
      };
      REQUIRE_(c, a.m.deg(e) == d && a.m.eq(e, a.m.monic(e)) && good(e), fmt(a, e) << " found for degree " << d);
      if constexpr (f2) {
        if (!rnd) // the lowest
          for (u64 i = (u64)1 << d; !a.m.eq(a.m.element(i), e); i++) REQUIRE_(c, !good(a.m.element(i)), fmt(a, a.m.element(i)) << " comes before " << fmt(a, e));
      }
    }
    k.end();
  }
  void periods() {
    if constexpr (f2) {
      Words w = cmd("period");
      auto v = several(w, 20);
      Cmd k(c, w);
      for (auto &p : v) {
        u64 n = 0;
        if (p.f[0]) n = x_order(F2PolymodA(p.f), planted_totient(a, p));
        k.line(tag(v.size() > 1, p.f) + std::to_string(n));
      }
      k.end();
    } else
      throw Discard();
  }
  void lists() {
    u64 q = a.m.r.size();
    if (q > 30) throw Discard();
    int lo = (int)g.below(3), hi = lo + (int)g.below(2);
    auto power = [&](int d) {
      u64 s = 1;
      for (int i = 0; i < d; i++) s *= q;
      return s;
    };
    if (f2 && g.flip()) lo += 4, hi += 4;
    while (hi > 0 && power(hi + 1) > 3000) hi--, lo = std::min(lo, hi);
    Words w = cmd("list");
    w.push_back(range_of(g, lo, hi));
    Cmd k(c, w);
    for (int d = lo; d <= hi; d++)
      for (u64 i = power(d); i < power(d + 1); i++) k.line(fmt(a, a.m.element(i)));
    k.end();
  }
  void evals() {
    auto cf = coef_of(a);
    E f = a.m.random_deg(g, most(8));
    Words w = cmd("eval");
    w.push_back(spell(a, g, f));
    std::vector<typename A::M::C> v;
    for (int i = 1 + (int)g.below(4); i > 0; i--) {
      v.push_back(a.m.r.random(g));
      w.push_back(spell(cf, g, v.back()));
    }
    Cmd k(c, w);
    for (auto &x : v) k.line(fmt(cf, a.m.eval(f, x)));
    k.end();
  }
  void randoms() {
    int d = (int)g.below((u64)most(8) + 1), n = 1;
    Words w = cmd("random");
    w.push_back(std::to_string(d));
    if (g.flip()) w.push_back(std::to_string(n = (int)g.below(40)));
    Cmd k(c, w);
    std::set<std::string> seen;
    for (int i = 0; i < n; i++) {
      std::string s = k.next();
      seen.insert(s);
      E e = k.value(a, s);
      REQUIRE_(c, a.m.deg(e) == d, "degree " << a.m.deg(e) << ", not " << d);
    }
    k.end();
    double all = std::pow((double)a.m.r.size(), d);
    if (all > 1e6 && n > 4) REQUIRE_(c, seen.size() > 1, "always the same");
  }
  void companions() {
    auto cf = coef_of(a);
    int n = 1 + (int)g.below(6);
    E f = a.m.random_monic(g, n);
    Words w = cmd("comp_mx");
    w.push_back(spell(a, g, f));
    Mat<typename A::M::Base> mm{a.m.r};
    auto want = mm.make((size_t)n, (size_t)n);
    for (size_t i = 0; i < (size_t)n; i++) {
      want[0][(size_t)n - 1 - i] = a.m.r.neg(a.m.at(f, i));
      if (i) want[i][i - 1] = a.m.r.one();
    }
    Cmd k(c, w);
    k.matrix(cf, want);
    k.end();
  }
  void reductions() {
    Words w = cmd("qp");
    QPolyA qa;
    std::vector<PQ::E> v;
    for (int i = 1 + (int)g.below(3); i > 0; i--) {
      PQ::E f;
      for (int j = (int)g.below(7); j >= 0; j--) f.push_back(qa.m.r.of((i64)g.skewed(g.flip() ? 10 : 100000)));
      qa.m.trim(f);
      v.push_back(f);
      w.push_back(spell(qa, g, f));
    }
    Cmd k(c, w);
    for (auto &f : v) {
      E e;
      for (auto &x : f) e.push_back(a.m.r.of((i64)x.n));
      a.m.trim(e);
      k.line(fmt(a, e));
    }
    k.end();
  }
  void any() {
    c.nontrivial = true;
    static const std::vector<std::pair<const char *, void (Polys::*)()>> all{{"qp", &Polys::reductions}, {"gcd", &Polys::gcds},
        {"gcd -e", &Polys::bezout}, {"lcm", &Polys::lcms}, {"deg", &Polys::degrees}, {"eval", &Polys::evals},
        {"comp_mx", &Polys::companions}, {"list", &Polys::lists}, {"random", &Polys::randoms}, {"totient", &Polys::totients},
        {"factor", &Polys::factors}, {"divisors", &Polys::divisor_lists}, {"test", &Polys::tests}, {"find", &Polys::finds},
        {"period", &Polys::periods}};
    if constexpr (fpn) {
      int i = (int)g.below(3);
      c.label(std::string(op_command(a, "")[0]) + all[(size_t)i].first);
      if (i == 0) reductions();
      else if (i == 1) gcds();
      else bezout();
    } else {
      auto &x = all[(size_t)g.below(all.size() - (f2 ? 0 : 1))];
      c.label(std::string(op_command(a, "")[0]) + x.first);
      (this->*x.second)();
    }
  }
};
static u64 prime(Gen &g) { return gen_prime(g, g.flip() ? 12 : g.flip() ? 300 : 30000); }

int main(int argc, char **argv) {
  Property p;
  p.id = "C28";
  p.rule_text =
      "Every integer, cyclotomic and polynomial command of the program (gcd, extended gcd, lcm, totient, test, find, factor, "
      "divisors, list, evaluate, random, companion matrix, reduction, period; over Z, F2, Fp, F2n and Fpn) with arguments drawn in any accepted "
      "spelling, any number of them where that is allowed: status 0, nothing on stderr and, line by line, the text the model "
      "writes for the exact result (gcd and lcm up to units; found and random polynomials have the properties asked for). "
      "Non-trivial: every command.";
  p.assumptions = {"arguments within the library's documented ranges: moduli prime or irreducible, results that fit an int",
      "over F2n factoring is limited to targets of low degree"};
  p.add("integers", 3000, 20000, integers);
  p.add("cyclotomic", 150, 1000, cyclotomic);
  p.add("f2-polynomials", 2250, 20000, [](Gen &g, Ctx &c) { F2PolyA a; Polys<F2PolyA>(a, g, c).any(); });
  p.add("fp-polynomials", 2250, 20000, [](Gen &g, Ctx &c) { FpPolyA a(prime(g)); Polys<FpPolyA>(a, g, c).any(); });
  p.add("f2n-polynomials", 1500, 10000, [](Gen &g, Ctx &c) { F2nPolyA a(gen_mod(g, 2, 3, true)); Polys<F2nPolyA>(a, g, c).any(); });
  p.add("fpn-polynomials", 450, 3000, [](Gen &g, Ctx &c) {
    u64 q = gen_prime(g, 40);
    FpnPolyA a(q, gen_mod(g, q, 3, true));
    Polys<FpnPolyA>(a, g, c).any();
  });
  return engine_main(argc, argv, p);
}
