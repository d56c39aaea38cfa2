// C26: scalar expressions on the command line.
#include "exprx.h"
#include "clix.h"
#include "spffl/cli_parser/cmd_line_ops.h"
using namespace bind;
using namespace pbt;

template <class A> struct Expr {
  typedef typename A::T T;
  typedef typename A::M::E E;
  struct Tok {
    std::string s;
    bool known = false; // stands for e where a value is expected
    E e{};
  };
  struct Val {
    bool is_int = false;
    E e{};
    i64 i = 0;
  };
  const A &a;
  Gen &g;
  Ctx &c;
  Ops<A> ops;
  std::vector<Tok> toks;
  int nops = 0;
  Expr(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc), ops{x} {}

  // ---- generation
  void put(const std::string &s) {
    Tok t;
    t.s = s;
    toks.push_back(t);
  }
  void value() {
    Tok t;
    for (int i = 0;; i++) {
      t.e = ops.small_value(g);
      t.known = true;
      try {
        t.s = spell(a, g, t.e);
        break;
      } catch (Discard &) {
        if (i > 20) throw;
      }
    }
    toks.push_back(t);
  }
  void exponent() {
    bool big = !(ops.is_poly || ops.is_int || ops.is_rational || is_rat<A>::value);
    bool tower = std::is_same<A, F2nPolymodA>::value || std::is_same<A, FpnPolymodA>::value;
    i64 k = big && (tower ? g.chance(1, 8) : g.flip()) ? g.skewed_signed(0x7fffffff) : (i64)g.below(5);
    if (!big && g.chance(1, 8)) k = g.range(-3, 40);
    std::string s = std::to_string(k);
    if (k >= 0 && g.chance(1, 8)) s = "+" + s;
    int p = g.chance(1, 6) ? 1 + (int)g.below(2) : 0;
    for (int i = 0; i < p; i++) put(g.flip() ? "(" : "[");
    if (p && g.chance(1, 8)) put(g.flip() ? "+" : "-"); // only + is allowed
    put(s);
    for (int i = 0; i < p; i++) put(g.flip() ? ")" : "]");
  }
  void gP(int depth) {
    if (depth <= 0 || g.chance(3, 4)) return value();
    put(g.flip() ? "(" : "[");
    gE(depth - 1);
    put(g.flip() ? ")" : "]");
  }
  void gU(int depth) {
    gP(depth);
    while (g.chance(1, 6)) {
      put("^");
      nops++;
      exponent();
    }
  }
  void gF(int depth) {
    if (g.chance(1, 7)) {
      put(g.flip() ? "-" : "+");
      nops++;
    }
    gU(depth);
  }
  void gT(int depth) {
    gF(depth);
    while (g.chance(1, 3)) {
      put(g.pick(std::vector<std::string>{"*", ".", "/", "%", "*"}));
      nops++;
      gF(depth);
    }
  }
  void gE(int depth) {
    gT(depth);
    while (g.chance(1, 3)) {
      put(g.flip() ? "+" : "-");
      nops++;
      gT(depth);
    }
  }
  void gQ(int depth) {
    gE(depth);
    if (g.chance(1, 4)) {
      put(g.pick(std::vector<std::string>{"==", "!=", "/=", "<", "<=", ">", ">="}));
      nops++;
      gE(depth);
    }
    if (g.chance(1, 60)) { // refused: an answer is not a value
      put(g.pick(std::vector<std::string>{"==", "<", ">="}));
      gE(depth);
    }
  }
  void deep() { // x + ( x + ( x + ...: many pending operands
    int n = 8 + (int)g.below(60);
    for (int i = 0; i < n; i++) {
      value();
      put(g.flip() ? "+" : "-");
      nops++;
      put("(");
    }
    value();
    for (int i = 0; i < n; i++) put(")");
  }
  void mutate() {
    static const std::vector<std::string> extra{"+", "-", "*", ".", "/", "%", "^", "(", ")", "[", "]", "==", "!=", "<", "<=", ">", ">=",
        "**", "=", "zz", "x", "", " ", "1z", "0", "1", "2", "-2", "7", "2147483648", "--", "?"};
    int n = 1 + (int)g.below(2);
    while (n--) {
      if (toks.empty()) return put(g.pick(extra));
      size_t i = (size_t)g.below(toks.size());
      switch (g.below(4)) {
      case 0: toks.erase(toks.begin() + (long)i); break;
      case 1: {
        Tok t;
        t.s = g.pick(extra);
        toks.insert(toks.begin() + (long)(g.flip() ? i : toks.size()), t);
        break;
      }
      case 2: std::swap(toks[i], toks[(size_t)g.below(toks.size())]); break;
      default: toks[i] = toks[(size_t)g.below(toks.size())];
      }
    }
  }

  // ---- the model's evaluation, one token ahead, left to right
  enum { EOL, NUM, OP, LP, RP };
  size_t at = 0;
  int kind = EOL;
  std::string op;
  Val atom;
  int in_exp = 0;
  void next() {
    if (at >= toks.size()) {
      kind = EOL;
      return;
    }
    const Tok &t = toks[at++];
    static const std::set<std::string> opset{"+", "-", "*", ".", "/", "%", "^", "==", "!=", "/=", "<", "<=", ">", ">="};
    if (opset.count(t.s)) {
      kind = OP;
      op = t.s;
      return;
    }
    if (t.s == "(" || t.s == "[") {
      kind = LP;
      return;
    }
    if (t.s == ")" || t.s == "]") {
      kind = RP;
      return;
    }
    kind = NUM;
    atom = Val();
    if (in_exp) {
      atom.is_int = true;
      atom.i = scan_int(t.s);
    } else if (t.known)
      atom.e = t.e;
    else
      atom.e = scan_elt(t.s);
  }
  static i64 scan_int(const std::string &s) {
    size_t i = 0;
    while (i < s.size() && s[i] == ' ') i++;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t start = i;
    i128 v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      v = v * 10 + (s[i++] - '0');
      if (v > 99999999999LL) v = 99999999999LL;
    }
    if (i == start || i != s.size()) throw Refused{"no int: " + s};
    if (neg) v = -v;
    if (v > 0x7fffffff || v < -(i128)0x80000000LL) throw Refused{"int too big: " + s};
    return (i64)v;
  }
  E scan_elt(const std::string &s) { // C24 decides what text a value has
    T x = a.make(a.m.zero());
    try {
      std::istringstream is(s);
      is >> x;
      if (is.fail() || !(is >> std::ws).eof()) throw Refused{"no value: " + s};
    } catch (const std::exception &) {
      throw Refused{"no value: " + s};
    }
    E e = a.get(x);
    if constexpr (is_rat<A>::value || ops.is_poly) ops.in(e);
    return e;
  }
  bool op_in(const char *list) {
    return kind == OP && (" " + std::string(list) + " ").find(" " + op + " ") != std::string::npos;
  }
  Val eP() {
    if (kind == LP) {
      next();
      Val v = eE();
      if (kind != RP) throw Refused{"no closing parenthesis"};
      next();
      return v;
    }
    if (kind != NUM) throw Refused{"no operand"};
    Val v = atom;
    next();
    return v;
  }
  void need(bool ok) {
    if (!ok) throw Refused{"operand of the wrong kind"};
  }
  Val eU() {
    Val v = eP();
    while (op_in("^")) {
      in_exp++;
      next();
      Val w = eP();
      need(!v.is_int && w.is_int);
      v.e = ops.power(v.e, w.i);
      in_exp--;
    }
    return v;
  }
  Val eF() {
    if (op_in("+")) {
      next();
      return eU();
    }
    if (op_in("-")) {
      next();
      Val v = eU();
      need(!v.is_int);
      v.e = ops.neg(v.e);
      return v;
    }
    return eU();
  }
  Val eT() {
    Val v = eF();
    while (op_in("* . / %")) {
      std::string o = op;
      next();
      Val w = eF();
      need(!v.is_int && !w.is_int);
      v.e = ops.binary(o, v.e, w.e);
    }
    return v;
  }
  Val eE() {
    Val v = eT();
    while (op_in("+ -")) {
      std::string o = op;
      next();
      Val w = eT();
      need(!v.is_int && !w.is_int);
      v.e = ops.binary(o, v.e, w.e);
    }
    return v;
  }
  Val eCompare(bool eqlevel) {
    Val v = eqlevel ? eCompare(false) : eE();
    while (eqlevel ? op_in("== != /=") : op_in("< <= > >=")) {
      std::string o = op;
      next();
      Val w = eqlevel ? eCompare(false) : eE();
      need(!v.is_int && !w.is_int);
      v.is_int = true;
      v.i = ops.order(o, v.e, w.e);
    }
    return v;
  }

  void run(bool whole_program) {
    if (g.chance(1, 12)) deep();
    else gQ(3);
    bool mutated = g.chance(1, 6);
    if (mutated) mutate();
    Words words;
    for (auto &t : toks) words.push_back(t.s);
    c.log << a.name() << ": " << cli::shown(words);
    c.nontrivial = nops >= 2;
    bool refused = false, empty = false;
    std::string why;
    Val want;
    try {
      next();
      empty = kind == EOL;
      if (!empty) {
        want = eCompare(true);
        if (kind != EOL) throw Refused{"more text"};
      }
    } catch (Refused &r) {
      refused = true;
      why = r.why;
    }
    c.label(refused ? "refused" : want.is_int ? "comparison" : "value");
    if (mutated) c.label("mutated");
    if (whole_program) {
      if (!words.empty())
        for (auto &w : words)
          if (w == "{" || w == "}") throw Discard();
      Words all = op_command(a);
      all.insert(all.end(), words.begin(), words.end());
      c.log << "  [" << cli::shown(all) << "]";
      cli::Run r = cli::run(all);
      cli::sane(c, r);
      REQUIRE_(c, (r.rc != 0) == refused, (refused ? "not refused (" + why + "), printed " : "refused: ") << r.out << r.err);
      if (refused) {
        REQUIRE_(c, !r.err.empty(), "refused without a message");
        return;
      }
      check(r.out, empty, want);
    } else {
      std::vector<char *> argv;
      for (auto &w : words) argv.push_back((char *)w.c_str());
      argv.push_back(nullptr);
      std::ostringstream out;
      std::streambuf *old = std::cout.rdbuf(out.rdbuf());
      bool threw = false;
      try {
        spffl::cli_parser::cmd_line_parse<T>((int)words.size(), argv.data(), a.make(a.m.zero()), a.make(a.m.one()));
      } catch (const std::exception &) {
        threw = true;
      } catch (...) {
        std::cout.rdbuf(old);
        throw;
      }
      std::cout.rdbuf(old);
      REQUIRE_(c, threw == refused, (refused ? "not refused (" + why + "), printed " + out.str() : "refused"));
      if (!refused) check(out.str(), empty, want);
    }
  }
  void check(const std::string &out, bool empty, const Val &want) {
    if (empty) {
      REQUIRE_(c, out.empty(), "an empty expression printed \"" << out << "\"");
      return;
    }
    REQUIRE_(c, !out.empty() && out.back() == '\n', "output is not a line: \"" << out << "\"");
    std::string s = out.substr(0, out.size() - 1);
    if (want.is_int) {
      REQUIRE_(c, s == std::to_string(want.i), "the comparison gives " << s << ", not " << want.i);
      return;
    }
    E got;
    REQUIRE_(c, unfmt(a, s, got), "printed \"" << s << "\", which is not the text of a value (should be " << a.m.show(want.e) << ")");
    REQUIRE_(c, a.m.eq(got, want.e), "printed " << s << ", which is " << a.m.show(got) << ", not " << a.m.show(want.e));
  }
};

static void any(Gen &g, Ctx &c, bool whole) {
  int t = (int)g.below(T_COUNT + 1);
  if (t == T_COUNT) {
    c.label("int");
    IntA a;
    return Expr<IntA>(a, g, c).run(whole);
  }
  // the types with the costliest arithmetic less often
  if ((t == T_F2NPM || t == T_FPNPM || t == T_F2NPR) && g.chance(3, 4)) t = (int)g.below(T_F2NPM);
  c.label(type_name(t));
  PickOpts o;
  o.field = g.chance(2, 3);
  o.pmax = 20000;
  with_type(t, g, o, [&](const auto &a) { Expr<std::decay_t<decltype(a)>>(a, g, c).run(whole); });
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C26";
  p.rule_text =
      "Token sequences of the expression grammar over all sixteen element types with random moduli: nested parentheses of both "
      "kinds, unary signs, all operators, integer exponents, comparisons, up to 70 pending operands, and the same with tokens "
      "deleted, inserted, swapped and replaced. Decided against an evaluator of the grammar over the reference rings, through "
      "the parser and through the whole program. Non-trivial: at least two operators.";
  p.assumptions = {"values too big for their representation, negative powers of non-units of a ring and the exponent INT_MIN are excluded",
      "the order of elements with no natural order is the library's own"};
  p.add("parser", 30000, 1000000, [](Gen &g, Ctx &c) { any(g, c, false); });
  p.add("program", 2500, 60000, [](Gen &g, Ctx &c) { any(g, c, true); });
  return engine_main(argc, argv, p);
}
