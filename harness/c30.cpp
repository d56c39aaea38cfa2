// C30: the command line's residue, field and matrix commands.
#include "clix.h"
#include "chpolx.h"
#include "clicmd.h"
#include "files.h"
#include <algorithm>
#include <set>
using namespace bind;
using namespace pbt;
using cli::Cmd;
using cli::with_options;
using cli::operator+;

enum { FP = 1, F2PM = 2, FPPM = 4, F2NPM = 8 };
// a residue ring of at most lim elements, one of these kinds
template <class F> static void ring(Gen &g, int kinds, u64 lim, bool field, F f) {
  std::vector<int> ks;
  for (int k : {FP, F2PM, FPPM, F2NPM})
    if (kinds & k) ks.push_back(k);
  auto cap = [&](u64 q, int want) { // degree
    int d = 0;
    for (u64 n = q; n <= lim && d < want; n *= q) d++;
    return std::max(d, 1);
  };
  switch (g.pick(ks)) {
  case FP: {
    u64 m;
    if (field) m = gen_prime(g, lim);
    else m = 2 + g.skewed(lim - 2);
    f(IntmodA(m));
    break;
  }
  case F2PM: f(F2PolymodA(gen_mod(g, 2, cap(2, 16), field))); break;
  case FPPM: {
    u64 p = gen_prime(g, std::min<u64>(lim, g.flip() ? 7 : 101));
    f(FpPolymodA(p, gen_mod(g, p, cap(p, 8), field)));
    break;
  }
  default: {
    F2nPolyA a(gen_mod(g, 2, std::min(4, cap(2, 8)), true));
    f(F2nPolymodA(a, gen_outer(g, a.m, cap(a.m.r.size(), 5), field)));
  }
  }
}
template <class A> struct Res {
  typedef typename A::M::E E;
  const A &a;
  Gen &g;
  Ctx &c;
  static constexpr bool fp = std::is_same<A, IntmodA>::value, f2 = std::is_same<A, F2PolymodA>::value, fppm = std::is_same<A, FpPolymodA>::value;
  std::vector<E> all, units, others;
  Res(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc) {}
  Words cmd(const char *s, const Words &opts = {}) { return with_options(op_command(a, s), opts); }
  std::string text(const E &e) { return fmt(a, e); }
  std::string said(const E &e) { return spell(a, g, e); }
  std::string tag(bool many, const E &e) { return many ? text(e) + ": " : ""; }
  bool unit(const E &e) {
    E iv;
    return a.m.inv(e, iv);
  }
  void elements() {
    for (u64 i = 0; i < a.m.size(); i++) {
      all.push_back(a.m.element(i));
      (unit(all.back()) ? units : others).push_back(all.back());
    }
  }
  u64 order(const E &e, u64 most = 1 << 20) {
    u64 n = 1;
    for (E p = e; !a.m.eq(p, a.m.one()); p = a.m.mul(p, e))
      if (++n > most) fail("model: no order");
    return n;
  }
  E some_unit() {
    for (int i = 0; i < 100; i++) {
      E e = a.m.random(g);
      if (unit(e)) return e;
    }
    return a.m.one();
  }
  // fails with a message
  void refused(const Words &w) {
    Cmd k(c, w, "", 1);
    REQUIRE_(c, !k.r.err.empty(), "no message");
    c.label("refused");
  }

  void lists() {
    elements();
    c.nontrivial = a.m.size() > 2;
    if constexpr (fp || f2) {
      if (a.m.size() <= 64 && g.flip()) { // ideals
        E e = a.m.random(g);
        bool mult = g.flip();
        std::set<std::string> ideal;
        for (auto &x : all) ideal.insert(a.m.show(a.m.mul(e, x)));
        Words w = op_command(a, "list");
        w.insert(w.begin() + 1, {mult ? "-m" : "-rp", said(e)});
        Cmd k(c, w);
        for (auto &x : all) {
          bool in = false;
          if (mult) in = ideal.count(a.m.show(x));
          else
            for (auto &y : all) in = in || ideal.count(a.m.show(a.m.sub(a.m.one(), a.m.mul(y, x))));
          if (in) k.line(text(x));
        }
        k.end();
        return;
      }
    }
    int t = (int)g.below(3);
    Cmd k(c, cmd("list", {t == 0 ? "-a" : t == 1 ? "-u" : "-nu"}));
    for (auto &x : t == 0 ? all : t == 1 ? units : others) k.line(text(x));
    k.end();
  }
  void tables() {
    elements();
    c.nontrivial = a.m.size() > 2;
    static const std::vector<std::string> ops{"+", "-", "*", ".", "u*", "u.", "/"};
    std::string op = g.pick(ops);
    Words w = cmd("tbl");
    w.push_back(op);
    Cmd k(c, w);
    auto &v = op == "/" || op[0] == 'u' ? units : all;
    for (auto &x : v) {
      std::string s;
      for (auto &y : v) {
        E e = op == "+" ? a.m.add(x, y) : op == "-" ? a.m.sub(x, y) : a.m.mul(x, y);
        if (op == "/") {
          a.m.inv(y, e);
          e = a.m.mul(x, e);
        }
        s += (s.empty() ? "" : " ") + text(e);
      }
      k.line(s);
    }
    k.end();
  }
  void log_tables() {
    elements();
    c.nontrivial = a.m.size() > 2;
    bool log = g.flip(), given = g.flip();
    E e = given ? a.m.random(g) : a.m.one();
    bool cyclic = false;
    for (auto &x : units) cyclic = cyclic || order(x) == units.size();
    Words w = cmd("tbl");
    w.push_back(std::string(log ? "log" : "alog") + (given ? ":" + said(e) : ""));
    if (given ? !unit(e) || (log && order(e) < units.size()) : !cyclic) return refused(w);
    Cmd k(c, w);
    if (log) {
      k.line("element power");
      k.line("------- -----");
      E base = e, found = e;
      bool have = given;
      std::vector<std::pair<E, u64>> rows;
      for (auto &x : units) {
        auto t = split(k.next(), ' ');
        i128 n = 0;
        REQUIRE_(c, t.size() == 2 && t[0] == text(x) && un_int(t[1], n) && n >= 0 && n < (1 << 24), "the row of " << text(x) << " is wrong");
        rows.push_back({x, (u64)n});
      }
      for (auto &r : rows)
        if (!have && r.second == 1) {
          base = r.first;
          have = true;
        }
      if (!have) { // the trivial group
        REQUIRE_(c, units.size() <= 1, "nothing has logarithm 1");
        base = a.m.one();
      }
      for (auto &r : rows) {
        found = a.m.one();
        for (u64 i = 0; i < r.second % units.size(); i++) found = a.m.mul(found, base);
        REQUIRE_(c, a.m.eq(found, r.first), text(base) << "^" << r.second << " is " << text(found) << ", not " << text(r.first));
      }
    } else {
      k.line("power element");
      k.line("----- -------");
      k.line("0 " + text(a.m.one()));
      E x = a.m.one(), base = e;
      for (size_t i = 1; i < units.size(); i++) {
        auto t = split(k.next(), ' ');
        REQUIRE_(c, t.size() == 2 && t[0] == std::to_string(i), "row " << i << " is wrong");
        E y = k.value(a, t[1]);
        if (i == 1 && !given) {
          base = y;
          REQUIRE_(c, order(base) == units.size(), text(base) << " generates " << order(base) << " of " << units.size() << " units");
        }
        x = a.m.mul(x, base);
        REQUIRE_(c, a.m.eq(x, y) && t[1] == text(x), "power " << i << " of " << text(base) << " is " << t[1] << ", not " << text(x));
      }
    }
    k.end();
  }
  void orders() {
    Words w = cmd("ord");
    std::vector<E> v;
    bool bad = false;
    for (int i = fppm ? 1 : 1 + (int)g.below(4); i > 0 && !bad; i--) {
      v.push_back(a.m.random(g));
      if (!unit(v.back()) && !g.chance(1, 8)) v.back() = some_unit();
      bad = !unit(v.back());
      if (!bad && order(v.back()) > 2) c.nontrivial = true;
      w.push_back(said(v.back()));
    }
    if (bad && !fppm) return refused(w);
    Cmd k(c, w);
    for (auto &e : v) k.line(tag(v.size() > 1, e) + (bad ? "0" : std::to_string(order(e))));
    k.end();
  }
  void max_orders() {
    elements();
    u64 m = 0;
    for (auto &e : units) m = std::max(m, order(e));
    c.nontrivial = m > 1;
    Cmd k(c, cmd("max_ord"));
    k.line(std::to_string(m));
    k.end();
  }
  void logs() {
    E b = some_unit();
    Words w = cmd("log");
    w.push_back(said(b));
    std::vector<E> v;
    u64 n = order(b);
    c.nontrivial = n > 2;
    for (int i = 1 + (int)g.below(4); i > 0; i--) {
      v.push_back(a.m.one());
      for (u64 j = g.below(n); j > 0; j--) v.back() = a.m.mul(v.back(), b);
      w.push_back(said(v.back()));
    }
    if (g.chance(1, 6)) { // no logarithm?
      E e = a.m.random(g), p = a.m.one();
      for (u64 i = 0; i < n; i++, p = a.m.mul(p, b))
        if (a.m.eq(p, e)) throw Discard();
      return refused(w + Words{said(e)});
    }
    Cmd k(c, w);
    for (auto &e : v) {
      std::string s = k.after(tag(v.size() > 1, e));
      i128 l = 0;
      REQUIRE_(c, un_int(s, l) && l >= 0, "'" << s << "' is no exponent");
      E p = a.m.one();
      for (u64 i = 0; i < (u64)l % n; i++) p = a.m.mul(p, b);
      REQUIRE_(c, a.m.eq(p, e), text(b) << "^" << s << " is " << text(p) << ", not " << text(e));
    }
    k.end();
  }
  void random_elements() {
    int n = 1;
    Words w = cmd("random");
    if (g.flip()) w.push_back(std::to_string(n = (int)g.below(40)));
    c.nontrivial = n > 1 && a.m.size() > 2;
    Cmd k(c, w);
    std::set<std::string> seen;
    for (int i = 0; i < n; i++) {
      std::string s = k.next();
      k.value(a, s);
      seen.insert(s);
    }
    k.end();
    if (n >= 30) REQUIRE_(c, seen.size() > 1, "always the same"); // 2^-29
  }
  // over fields
  auto base() {
    if constexpr (f2) return F2PolyA();
    else if constexpr (fppm) return FpPolyA(a.p());
    else return a.p;
  }
  void conjugate_products() {
    if constexpr (!fp) {
      bool minimal = g.flip();
      Words w = cmd(minimal ? "min_pol" : "ch_pol");
      std::vector<E> v;
      for (int i = 1 + (int)g.below(3); i > 0; i--) {
        v.push_back(a.m.random(g));
        int n = a.m.n();
        if (g.chance(1, 3)) // in a subfield
          for (int d = 1; d < n; d++)
            if (n % d == 0 && g.flip()) {
              E e = a.m.one(), f = v.back();
              for (int j = 0; j < n; j += d) {
                e = a.m.mul(e, f);
                for (int l = 0; l < d; l++) f = frob(a.m, f, a.m.p.r.size());
              }
              v.back() = e;
              break;
            }
        w.push_back(said(v.back()));
      }
      c.nontrivial = a.m.n() > 1;
      Cmd k(c, w);
      for (auto &e : v) {
        typename Poly<typename A::M>::E mn, chr;
        int len;
        conjugate_polys(a.m, e, mn, chr, len);
        if (len < a.m.n()) c.label("in a subfield");
        k.line(tag(v.size() > 1, e) + fmt(base(), down_to_base(a.m, minimal ? mn : chr)));
      }
      k.end();
    }
  }
};

// ---------------------------------------------------------------- generators
static void generators(Gen &g, Ctx &c) {
  bool many = g.chance(1, 3);
  bool field = !g.chance(1, 3);
  ring(g, FP | F2PM | F2NPM, field ? 2000 : 120, field, [&](const auto &a) {
    typedef typename std::decay<decltype(a)>::type A;
    Words w = op_command(a, "find_gen");
    if constexpr (std::is_same<A, F2PolymodA>::value) // the modulus in some spelling
      w.back() = spell(F2PolyA(), g, a.m.m);
    if constexpr (std::is_same<A, F2nPolymodA>::value) w.back() = spell(a.p, g, a.m.m);
    std::string name = op_command(a, "find_gen").back();
    if (many) w.push_back(w.back());
    Res<A> r(a, g, c);
    r.elements();
    bool cyclic = false;
    for (size_t i = 0; i < r.units.size() && !cyclic; i++) cyclic = r.order(r.units[i]) == r.units.size();
    c.nontrivial = r.units.size() > 2;
    if (!cyclic) c.label("not cyclic");
    Cmd k(c, w, "", cyclic ? 0 : 1);
    for (int i = 0; i < (many ? 2 : 1); i++) {
      std::string s = k.after(many ? name + ": " : "");
      if (!cyclic) {
        REQUIRE_(c, s == "Generator not found.", "the units are not cyclic, but '" << s << "' generates them");
        continue;
      }
      auto e = k.value(a, s);
      REQUIRE_(c, r.unit(e) && r.order(e) == r.units.size(), "'" << s << "' does not generate the units");
    }
    k.end();
  });
}
static void orbits(Gen &g, Ctx &c) {
  // a of moderate order modulo any m that fits an int
  u64 m = 1, a = 0, n = 0;
  if (g.flip()) {
    m = 1 + g.skewed(600);
    a = g.below(m);
    for (u64 i = 0; igcd((i128)a, (i128)m) != 1; i++) a = (a + 1) % m;
  } else {
    m = gen_prime(g, 0x7fffffff);
    u64 t = m - 1, d = 1;
    for (auto &pe : factor(t))
      for (int i = 0; i < pe.second; i++)
        if (d * pe.first <= 500 && g.flip()) d *= pe.first;
    Zn z{m};
    a = 1;
    u64 b = 1 + g.below(m - 1);
    for (u64 e = t / d; e; e >>= 1, b = z.mul(b, b))
      if (e & 1) a = z.mul(a, b);
  }
  Zn z{m};
  for (u64 x = a;; x = z.mul(x, a)) {
    n++;
    if (x == 1 % m) break;
    if (n > 2000) throw Discard();
  }
  auto any = [&](u64 e) { // a representative, negative perhaps
    i64 lo = ((i64)e - 0x7fffffff) / (i64)m, hi = (0x7fffffff - (i64)e) / (i64)m;
    i64 s = (i64)e + (i64)m * (g.flip() ? 0 : std::min(hi, std::max(lo, (i64)g.below(7) - 3)));
    return std::to_string(s);
  };
  Words w{"fp_orbit", std::to_string(m), any(a)};
  u64 a0 = 1 % m;
  if (g.flip()) w.push_back(any(a0 = g.below(m)));
  c.nontrivial = n > 1;
  Cmd k(c, w);
  for (u64 x = a, i = 0; i < n; i++, x = z.mul(x, a)) k.line(std::to_string(z.mul(x, a0)));
  k.end();
}
static void bad_orbits(Gen &g, Ctx &c) {
  i64 m = 2 + (i64)g.skewed(1000000), f = 2 + (i64)g.skewed(50);
  Words w{"fp_orbit", std::to_string(m * f), std::to_string(f * g.skewed_signed(1000))};
  c.nontrivial = true;
  Cmd k(c, w, "", 1);
  REQUIRE_(c, k.r.out.empty() && !k.r.err.empty(), "it is not refused");
}

// ---------------------------------------------------------------- conversion
static void conversions(Gen &g, Ctx &c) {
  PZn P{Zn{2}};
  int most = g.chance(1, 8) ? 10 : 7; // the library searches the larger field
  int da = 1 + (int)g.below(5), db = g.chance(1, 4) ? 1 + (int)g.below((u64)most) : da * (1 + (int)g.below((u64)(most / da)));
  F2PolymodA a(P.random_irreducible(g, da)), b(P.random_irreducible(g, db));
  Words w{"f2_pm_convert", spell(F2PolyA(), g, a.m.m), spell(F2PolyA(), g, b.m.m)};
  std::vector<PZn::E> v;
  bool whole = a.m.size() <= 32 && g.flip(); // every element
  for (u64 i = 0; i < (whole ? a.m.size() : 2); i++) v.push_back(whole ? a.m.element(i) : a.m.random(g));
  if (!whole) { // enough to see the laws
    v.push_back(a.m.add(v[0], v[1]));
    v.push_back(a.m.mul(v[0], v[1]));
    v.push_back(a.m.one());
    v.push_back(a.m.zero());
  }
  for (auto &e : v) w.push_back(spell(a, g, e));
  if (db % da) {
    Cmd k(c, w, "", 1);
    REQUIRE_(c, k.r.out.empty() && !k.r.err.empty(), "there is no embedding, but it is not refused");
    c.label("no embedding");
    return;
  }
  c.nontrivial = da > 1;
  Cmd k(c, w);
  std::vector<PZn::E> u;
  for (auto &e : v) {
    std::string s = k.after(fmt(a, e) + ": ");
    u.push_back(k.value(b, s));
  }
  k.end();
  auto find = [&](const PZn::E &e) {
    for (size_t i = 0; i < v.size(); i++)
      if (a.m.eq(v[i], e)) return u[i];
    fail("model: not listed");
  };
  REQUIRE_(c, b.m.is_zero(find(a.m.zero())) && b.m.eq(find(a.m.one()), b.m.one()), "0 or 1 becomes something else");
  size_t n = whole ? v.size() : 1;
  for (size_t i = 0; i < n; i++)
    for (size_t j = whole ? i : 1; j < (whole ? n : 2); j++) {
      REQUIRE_(c, b.m.eq(find(a.m.add(v[i], v[j])), b.m.add(u[i], u[j])), "the sum of " << fmt(a, v[i]) << " and " << fmt(a, v[j]) << " is not kept");
      REQUIRE_(c, b.m.eq(find(a.m.mul(v[i], v[j])), b.m.mul(u[i], u[j])), "the product of " << fmt(a, v[i]) << " and " << fmt(a, v[j]) << " is not kept");
    }
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < i; j++) REQUIRE_(c, a.m.eq(v[i], v[j]) == b.m.eq(u[i], u[j]), fmt(a, v[i]) << " and " << fmt(a, v[j]) << " become one");
}

// ---------------------------------------------------------------- matrices
// a matrix given by file or on standard input
struct Source {
  Files files;
  std::string in;
  std::string operator()(Gen &g, const std::string &text) {
    if (in.empty() && g.chance(1, 4)) {
      in = text;
      return g.flip() ? "-" : "@";
    }
    return files.add(text);
  }
};
template <class A> std::string rows_of(const A &a, Gen &g, const std::vector<std::vector<typename A::M::E>> &w) {
  std::string s;
  for (auto &r : w) {
    for (size_t j = 0; j < r.size(); j++) s += (j ? g.chance(1, 6) ? "  " : " " : "") + spell(a, g, r[j]);
    s += "\n";
  }
  return s;
}
template <class F> static void matrix_field(Gen &g, int kinds, u64 lim, F f) {
  // with the bits among them
  if (kinds & FP && g.chance(1, 3)) f(BitA());
  else ring(g, kinds, lim, true, f);
}
static std::string poly_text(const BitA &, const PZn::E &e) { return fmt(F2PolyA(), e); }
static std::string poly_text(const IntmodA &a, const PZn::E &e) { return fmt(FpPolyA(a.m.m), e); }
static std::string poly_text(const F2PolymodA &a, const PFq::E &e) { return fmt(F2nPolyA(a.m.m), e); }
static void matrix_polys(Gen &g, Ctx &c) {
  auto go = [&](const auto &a) {
    typedef typename std::decay<decltype(a)>::type A;
    if constexpr (std::is_same<A, BitA>::value || std::is_same<A, IntmodA>::value || std::is_same<A, F2PolymodA>::value) {
      Mat<typename A::M> mm{a.m};
      size_t n = 1 + (size_t)g.below(5);
      auto w = gen_matrix(g, mm, n);
      c.nontrivial = n > 1;
      Source src;
      Words cmd = op_command(a, "mat_ch_pol");
      cmd.push_back(src(g, rows_of(a, g, w)));
      c.log << mm.show(w) << ": ";
      Cmd k(c, cmd, src.in);
      k.line(poly_text(a, chpol(mm, w)));
      k.end();
    }
  };
  matrix_field(g, FP | F2PM, 5000, go);
}
static void matrix_orders(Gen &g, Ctx &c) {
  auto go = [&](const auto &a) {
    typedef typename std::decay<decltype(a)>::type A;
    if constexpr (!std::is_same<A, F2nPolymodA>::value) {
      Mat<typename A::M> mm{a.m};
      size_t n = 1 + (size_t)g.below(3);
      auto w = gen_matrix(g, mm, n);
      u64 ord = 0;
      if ((size_t)mm.rank(w) == n)
        for (auto p = w;; p = mm.mul(p, w)) {
          if (++ord > 700) throw Discard();
          if (mm.eq(p, mm.ident(n))) break;
        }
      else c.label("singular");
      c.nontrivial = ord > 1;
      c.log << mm.show(w) << ": ";
      Cmd k(c, op_command(a, "mat_ord"), rows_of(a, g, w));
      k.line(std::to_string(ord));
      k.end();
    }
  };
  matrix_field(g, FP | F2PM | FPPM, 30, go);
}
static void systems(Gen &g, Ctx &c) {
  F2PolymodA a(gen_mod(g, 2, 10, true));
  Mat<Fq> mm{a.m};
  size_t m = 1 + (size_t)g.below(4), n = 1 + (size_t)g.below(m + (g.chance(1, 8) ? 1 : 0));
  auto w = mm.make(m, n);
  int style = (int)g.below(4);
  for (auto &r : w)
    for (auto &x : r)
      if (style || g.flip()) x = a.m.random(g);
  if (style == 1 && m > 1) w[0] = w[(size_t)g.below(m)];
  std::vector<PZn::E> x, b;
  for (size_t j = 0; j < n; j++) x.push_back(a.m.random(g));
  for (auto &r : w) {
    auto s = a.m.zero();
    for (size_t j = 0; j < n; j++) s = a.m.add(s, a.m.mul(r[j], x[j]));
    b.push_back(g.chance(1, 10) ? a.m.random(g) : s);
  }
  auto wb = w;
  for (size_t i = 0; i < m; i++) wb[i].push_back(b[i]);
  bool one = (size_t)mm.rank(w) == n && (size_t)mm.rank(wb) == n;
  c.nontrivial = n > 1;
  Source src;
  Words cmd = op_command(a, "mat_solve");
  cmd.push_back(src(g, rows_of(a, g, w)));
  cmd.push_back(src(g, rows_of(a, g, {b})));
  c.log << mm.show(wb) << ": ";
  if (!one) {
    c.label("no unique solution");
    Cmd k(c, cmd, src.in, 1);
    REQUIRE_(c, k.r.out.empty() && !k.r.err.empty(), "there is no unique solution, but it is not refused");
    return;
  }
  Cmd k(c, cmd, src.in);
  auto t = split(k.next(), ' ');
  if (!t.empty() && t.back().empty()) t.pop_back();
  REQUIRE_(c, t.size() == n, t.size() << " unknowns");
  for (auto &s : t) x[(size_t)(&s - &t[0])] = k.value(a, s);
  for (size_t i = 0; i < m; i++) {
    auto s = a.m.zero();
    for (size_t j = 0; j < n; j++) s = a.m.add(s, a.m.mul(w[i][j], x[j]));
    REQUIRE_(c, a.m.eq(s, b[i]), "equation " << i << " does not hold");
  }
  k.end();
}
static void diagonals(Gen &g, Ctx &c) {
  PZn P2{Zn{2}};
  auto mod = P2.random_irreducible(g, 1 + (int)g.below(4));
  F2PolymodA a(mod);
  F2nPolyA pa(mod);
  Mat<Fq> mm{a.m};
  size_t n = 1 + (size_t)g.below(3);
  auto w = gen_matrix(g, mm, n);
  auto f = chpol(mm, w);
  auto facts = diagonal_facts(mm, w, f);
  c.nontrivial = n > 1;
  c.label(facts.diag ? "diagonalizable" : "not diagonalizable");
  Source src;
  Words cmd = op_command(a, "mat_diagonalizable");
  cmd.push_back(src(g, rows_of(a, g, w)));
  c.log << mm.show(w) << ": ";
  Cmd k(c, cmd, src.in);
  size_t end = k.lines.size();
  while (end > 0 && k.lines[end - 1].compare(0, 2, "  ") == 0) end--;
  REQUIRE_(c, end >= 4 && k.lines[end - 1] == "Eigenvalues:", "no eigenvalues are listed");
  k.at = end - 4; // whatever precedes tells of the way
  k.line(facts.diag ? "Diagonalizable." : "Non-diagonalizable.");
  k.line("");
  auto sm = k.value(F2PolyA(), k.after("Splitter modulus: "));
  REQUIRE_(c, P2.deg(sm) == a.m.n() * facts.lcm && P2.irreducible(sm), "splitting modulus " << P2.show(sm) << ", factor degrees have lcm " << facts.lcm);
  k.line("Eigenvalues:");
  F2PolymodA ea(sm);
  std::vector<PZn::E> es;
  while (k.at < k.lines.size()) {
    std::string s = k.after("  ");
    es.push_back(k.value(ea, s));
  }
  REQUIRE_(c, (int)es.size() == pa.m.deg(facts.rad), es.size() << " eigenvalues, distinct roots: " << pa.m.deg(facts.rad));
  for (size_t i = 0; i < es.size(); i++) {
    for (size_t j = 0; j < i; j++) REQUIRE_(c, !ea.m.eq(es[i], es[j]), "an eigenvalue is repeated");
    if (facts.lcm == 1) REQUIRE_(c, P2.eq(sm, mod) && a.m.is_zero(pa.m.eval(f, es[i])), "eigenvalue " << fmt(ea, es[i]) << " is no root of " << pa.m.show(f));
  }
}
static std::string shape(Gen &g, Words &w, size_t &m, size_t &n) {
  m = 1 + (size_t)g.below(6), n = 1 + (size_t)g.below(6);
  w.push_back(std::to_string(m));
  w.push_back(std::to_string(n));
  return w[0];
}
template <class A, class F> void random_rows(Ctx &c, const A &a, const Words &w, size_t m, size_t n, bool varied, F good) {
  c.nontrivial = m * n > 1;
  Cmd k(c, w);
  std::set<std::string> seen;
  for (size_t i = 0; i < m; i++) {
    auto t = split(k.next(), ' ');
    REQUIRE_(c, t.size() == n, "row " << i << " has " << t.size() << " entries, not " << n);
    for (auto &s : t) {
      auto e = k.value(a, s);
      REQUIRE_(c, good(e), "'" << s << "' has the wrong shape");
      seen.insert(s);
    }
  }
  k.end();
  if (varied && m * n >= 30) REQUIRE_(c, seen.size() > 1, "always the same"); // 2^-29
}
static void random_matrices(Gen &g, Ctx &c) {
  size_t m, n;
  if (g.chance(1, 4)) { // fractions
    F2PolyratA a((F2PolyA()));
    int d = (int)g.below(12);
    bool mat = g.flip();
    Words w{mat ? "f2_pr_mat_random" : "f2_pr_random", std::to_string(d)};
    if (mat) shape(g, w, m, n);
    else {
      m = n = 1;
      if (g.flip()) w.push_back(std::to_string(m = (size_t)g.below(36)));
    }
    random_rows(c, a, w, m, n, d > 1, [&](auto &e) { return e.n.size() == e.d.size() && (int)e.n.size() <= d + 1; });
    return;
  }
  if (g.chance(1, 6)) {
    Words w{"f2_random"};
    m = n = 1;
    if (g.flip()) w.push_back(std::to_string(m = (size_t)g.below(60)));
    random_rows(c, BitA(), w, m, n, true, [](u64) { return true; });
    return;
  }
  auto go = [&](const auto &a) {
    Words w = op_command(a, "mat_random");
    shape(g, w, m, n);
    random_rows(c, a, w, m, n, true, [](auto &) { return true; });
  };
  if (g.chance(1, 4)) go(BitA());
  else ring(g, FP | F2PM | FPPM | F2NPM, 5000, g.flip(), go);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C30";
  p.rule_text =
      "Every residue, field and matrix command of the program (lists of residues, units, non-units, multiples and coprime "
      "elements; operation, logarithm and power tables; orders, greatest order, orbits, generators, logarithms; minimal and "
      "characteristic polynomials of elements and matrices, conversion between fields, linear systems, diagonalization, matrix "
      "orders, random elements and matrices) over Z/m, F2[x]/m, Fp[x]/m and towers, composite moduli included where the command "
      "is not about fields: status and text against the models. What has no answer must be refused with a message and status 1. "
      "Non-trivial: more than two elements, dimension above one.";
  p.assumptions = {"moduli of degree at least one; irreducible for the commands about fields",
      "any generator, any exponent that reproduces the value, and any embedding are right"};
#define R(name, kinds, lim, field, method) \
  [](Gen &g, Ctx &c) { \
    ring(g, kinds, lim, field, [&](const auto &a) { Res<typename std::decay<decltype(a)>::type>(a, g, c).method(); }); \
  }
  p.add("lists", 500, 20000, R("list", FP | F2PM | FPPM | F2NPM, 300, g.flip(), lists));
  p.add("tables", 500, 15000, R("tbl", FP | F2PM | FPPM | F2NPM, 33, g.flip(), tables));
  p.add("log-tables", 400, 15000, R("log", FP | F2PM | F2NPM, 100, !g.chance(1, 3), log_tables));
  p.add("orders", 600, 20000, R("ord", FP | F2PM | FPPM | F2NPM, 3000, g.flip(), orders));
  p.add("greatest-order", 100, 3000, R("max_ord", FP, 150, false, max_orders));
  p.add("logarithms", 600, 20000, R("log", FP | F2PM | F2NPM, 2000, g.flip(), logs));
  p.add("conjugates", 500, 20000, R("pols", F2PM | FPPM | F2NPM, 3000, true, conjugate_products));
  p.add("random-elements", 300, 10000, R("random", FP | F2PM | FPPM | F2NPM, 50000, g.flip(), random_elements));
  p.add("generators", 400, 10000, generators);
  p.add("orbits", 400, 15000, orbits);
  p.add("no-orbit", 50, 1000, bad_orbits);
  p.add("conversions", 300, 10000, conversions);
  p.add("matrix-polynomials", 400, 15000, matrix_polys);
  p.add("matrix-orders", 400, 15000, matrix_orders);
  p.add("systems", 500, 15000, systems);
  p.add("diagonalizable", 300, 10000, diagonals);
  p.add("random-matrices", 400, 10000, random_matrices);
  return engine_main(argc, argv, p);
}
