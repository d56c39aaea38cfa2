// C24: the text of values.
#include "textx.h"
using namespace bind;
using namespace pbt;

template <class A> struct Text {
  typedef typename A::T T;
  typedef typename A::M::E E;
  const A &a;
  Gen &g;
  Ctx &c;
  Text(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc) {}
  E any() {
    if constexpr (A::kind == POLY) {
      int d = std::is_same<A, F2PolyA>::value ? 150 : 9;
      if (g.chance(1, 8)) return a.m.zero();
      return a.m.random_deg(g, (int)g.skewed((u64)d + 1));
    } else if constexpr (std::is_same<A, IntratA>::value) {
      if (g.flip()) return a.m.frac(g.skewed_signed(1 << 30), 1 + (i64)g.skewed(1 << 30));
      return a.m.random(g);
    } else {
      if (g.chance(1, 8)) return a.m.zero();
      return a.m.random(g);
    }
  }
  std::string want_text(const T &x, const E &e) {
    if constexpr (requires(const A &b) { b.p.m; x.get_numerator(); })
      return fmt_frac(a, a.p.get(x.get_numerator()), a.p.get(x.get_denominator()));
    else
      return fmt(a, e);
  }
  void same(const T &x, const E &e, const std::string &what) {
    E got;
    try {
      got = a.get(x);
    } catch (const Fail &f) {
      fail(what + " (should be " + a.m.show(e) + "): " + f.msg);
    }
    REQUIRE_(c, a.m.eq(got, e), what << " is " << a.m.show(got) << ", not " << a.m.show(e));
  }
  // some value of the type, to be overwritten
  T old() { return a.make(g.flip() ? a.m.zero() : any()); }

  void round_trip() {
    E e = any();
    c.log << a.name() << ": " << a.m.show(e);
    c.nontrivial = !a.m.is_zero(e);
    T x = a.make(e);
    std::ostringstream o;
    if (g.chance(1, 4)) o.fill('*');
    if (g.chance(1, 4)) o.setf(std::ios::left, std::ios::adjustfield);
    auto fl = o.flags();
    auto fi = o.fill();
    o << x;
    std::string s = o.str(), want = want_text(x, e);
    REQUIRE_(c, s == want, "written as \"" << s << "\", not \"" << want << "\"");
    REQUIRE_(c, o.flags() == fl && o.fill() == fi, "writing changed the stream's format");
    same(x, e, "the value written");
    if constexpr (std::is_same<A, QPolyA>::value) {
      // text with fractions or signs, and a constant of two digits, are not read back
      for (auto &q : e)
        if (q.d != 1 || q.n < 0) return;
      if (e.size() == 1 && e[0].n > 9) return;
    }
    T y = old();
    REQUIRE_(c, scan(a, s, y), "from_string refuses \"" << s << "\"");
    same(y, e, "from_string(\"" + s + "\")");
    REQUIRE_(c, text_of(y) == s, "reading and writing \"" << s << "\" gives \"" << text_of(y) << "\"");
    T z = old();
    std::istringstream is(s);
    is >> z;
    REQUIRE_(c, !is.fail(), "istringstream: refuses \"" << s << "\"");
    same(z, e, "istringstream: \"" + s + "\"");
  }

  void spelling() {
    E e = any();
    std::string s = spell(a, g, e);
    c.log << a.name() << ": " << a.m.show(e) << " spelled \"" << s << "\"";
    c.nontrivial = s != fmt_any(e);
    c.label(c.nontrivial ? "other spelling" : "as written");
    if (g.chance(1, 4)) s = std::string(" \t\n  ").substr(0, 1 + (size_t)g.below(5)) + s;
    T y = old();
    if (s[0] > ' ' || !picky()) {
      REQUIRE_(c, scan(a, s, y), "from_string refuses \"" << s << "\"");
      same(y, e, "from_string(\"" + s + "\")");
    }
    T z = old();
    std::istringstream is(s);
    is >> z;
    REQUIRE_(c, !is.fail(), "istringstream: refuses \"" << s << "\"");
    same(z, e, "istringstream: \"" + s + "\"");
  }
  // from_string of these takes digits only, no blanks
  static bool picky() {
    return std::is_same<A, FpPolyA>::value || std::is_same<A, QPolyA>::value || std::is_same<A, FpPolymodA>::value;
  }
  std::string fmt_any(const E &e) {
    if constexpr (requires(const A &b) { b.p.m; e.n; }) return fmt_frac(a, e.n, e.d);
    else return fmt(a, e);
  }

  template <class S> void sequence_from(S &is, const std::vector<E> &es, const std::string &text) {
    for (size_t i = 0; i < es.size(); i++) {
      T z = old();
      is >> z;
      REQUIRE_(c, !is.fail(), "value " << i << " of \"" << text << "\" is refused");
      same(z, es[i], "value " + std::to_string(i) + " of \"" + text + "\"");
    }
    T z = old();
    bool ended;
    try {
      is >> z;
      ended = is.fail();
    } catch (const std::exception &) {
      ended = true;
    }
    REQUIRE_(c, ended, "a value was read past the end of \"" << text << "\"");
  }
  void sequence() {
    std::vector<E> es;
    std::string s;
    size_t n = 1 + (size_t)g.below(5);
    for (size_t i = 0; i < n; i++) {
      es.push_back(any());
      s += spell(a, g, es.back());
      if (i + 1 < n || g.flip()) {
        size_t k = 1 + (size_t)g.below(3);
        while (k--) s += " \t\n"[g.below(3)];
      }
    }
    c.log << a.name() << ": \"" << s << "\"";
    c.nontrivial = n > 1;
    {
      std::istringstream is(s);
      sequence_from(is, es, s);
    }
    if constexpr (requires(std::istream &i, T &t) { i >> t; }) {
      std::stringbuf sb(s);
      std::istream is(&sb);
      sequence_from(is, es, s);
      c.label("also from an istream");
    }
  }

  void malformed() {
    static const std::vector<std::string> base{"", " ", "\t \n", "x1", "?", "/2", "z", "*3", "(1)", "#"};
    std::string s;
    bool stream = true; // operator>> need not look beyond the first value
    E e = any();
    std::string good = spell_or_fmt(e);
    switch (g.below(3)) {
    case 0: s = g.pick(base); break;
    case 1: // nothing but junk in front
      s = std::string(1, "xz?*#()=@"[g.below(9)]) + good;
      break;
    default:
      if constexpr (std::is_same<A, F2nPolyA>::value || std::is_same<A, FpnPolyA>::value || std::is_same<A, F2nPolymodA>::value ||
                    std::is_same<A, FpnPolymodA>::value)
        s = good + ":" + g.pick(std::vector<std::string>{"x", "?", "x1"}) + (g.flip() ? ":" + good : "");
      else if constexpr (std::is_same<A, FpPolyA>::value || std::is_same<A, FpPolymodA>::value || std::is_same<A, QPolyA>::value) {
        s = good + ",x" + (g.flip() ? "," + good : "");
        stream = false;
      } else if constexpr (requires { e.n; e.d; }) {
        if (good.find('/') != std::string::npos) throw Discard();
        s = good + g.pick(std::vector<std::string>{"/", "/x", "/?1", "/0"});
      } else if constexpr (std::is_same<A, IntmodA>::value || std::is_same<A, BitA>::value)
        s = std::to_string(5000000000ULL + g.below(1u << 30)) + (g.flip() ? "0" : "");
      else
        s = g.pick(base);
    }
    c.log << a.name() << ": \"" << s << "\"";
    c.nontrivial = s.find_first_not_of(" \t\n") != std::string::npos;
    T y = old();
    bool took = false;
    std::string text;
    try {
      took = scan(a, s, y);
    } catch (const std::exception &) {
    }
    REQUIRE_(c, !took, "from_string accepts \"" << s << "\" as " << text_of(y));
    if (stream) {
      T z = old();
      took = false;
      std::istringstream is(s);
      try {
        is >> z;
        took = !is.fail();
      } catch (const std::exception &) {
      }
      REQUIRE_(c, !took, "istringstream accepts \"" << s << "\" as " << text_of(z));
    }
  }
  std::string spell_or_fmt(const E &e) {
    if constexpr (std::is_same<A, QPolyA>::value) {
      (void)e;
      return "3,1";
    } else
      return spell(a, g, e);
  }
};

template <class F> void any_type(Gen &g, Ctx &c, F f) {
  int t = (int)g.below(T_COUNT);
  // the types with the costliest arithmetic less often
  if ((t == T_F2NPM || t == T_FPNPM || t == T_F2NPR) && g.chance(3, 4)) t = (int)g.below(T_F2NPM);
  c.label(type_name(t));
  PickOpts o;
  o.field = g.flip();
  o.f2deg = g.chance(1, 4) && !o.field ? 140 : 12;
  o.fpdeg = o.field ? 4 : 7;
  o.pmax = 60000;
  with_type(t, g, o, f);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C24";
  p.rule_text =
      "Values of all fifteen element types with random moduli, written and compared with the text the model writes, read back "
      "with from_string and from streams, alone and in sequences; other spellings of a value (unreduced, leading zeros, upper "
      "case, fractions not in lowest terms, leading blanks) and malformed texts. Non-trivial: not zero (round trip), spelled "
      "otherwise than it is written (spelling), at least two values (sequence), not blank (malformed).";
  p.assumptions = {"text of rational polynomials with fractions, signs or a constant above nine is not read back (ambiguous by design)",
      "text after a value is left to the stream"};
  p.add("round trip", 90000, 3000000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { Text<std::decay_t<decltype(a)>>(a, g, c).round_trip(); }); });
  p.add("spelling", 90000, 3000000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { Text<std::decay_t<decltype(a)>>(a, g, c).spelling(); }); });
  p.add("sequence", 25000, 1500000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { Text<std::decay_t<decltype(a)>>(a, g, c).sequence(); }); });
  p.add("malformed", 60000, 1500000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { Text<std::decay_t<decltype(a)>>(a, g, c).malformed(); }); });
  return engine_main(argc, argv, p);
}
