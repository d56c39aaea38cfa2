// C27: matrix and vector expressions on the command line.
#include "exprx.h"
#include "clix.h"
#include "files.h"
#include "spffl/cli_parser/cmd_line_matrix_ops.h"
#include "spffl/cli_parser/cmd_line_vector_ops.h"
#include <fstream>
#include <sys/stat.h>
using namespace bind;
using namespace pbt;

// Fields have the elimination operators; over other rings they are a known
// finding (below) and are not generated.
template <class A> struct has_elim { static const bool value = A::kind == FIELD && !std::is_same<A, IntA>::value; };

template <class A, bool VEC> struct Expr {
  typedef typename A::T T;
  typedef typename A::M::E E;
  typedef std::vector<E> V;
  typedef std::vector<V> W;
  struct Tok {
    std::string s;
    bool known = false;
    W w;
  };
  enum Kind { MAT, ROWS, SCALAR, INT }; // ROWS: known up to row operations
  enum Form { ANY, STAIR };
  struct Val {
    Kind k = MAT;
    W w;
    E e{};
    i64 i = 0;
    Form form = ANY;
  };
  const A &a;
  Gen &g;
  Ctx &c;
  Ops<A> ops;
  Mat<typename A::M> mm;
  std::vector<Tok> toks;
  Files files;
  int nops = 0;
  Expr(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc), ops{x}, mm{x.m} {}

  // ---- generation
  void put(const std::string &s) {
    Tok t;
    t.s = s;
    toks.push_back(t);
  }
  static constexpr bool tower = std::is_same<A, F2nPolymodA>::value || std::is_same<A, FpnPolymodA>::value;
  static constexpr bool heavy = is_rat<A>::value || std::is_same<A, IntratA>::value;
  E elem() {
    if (g.chance(1, 4)) return a.m.zero();
    if constexpr (std::is_same<A, IntA>::value) return g.skewed_signed(12);
    else if constexpr (std::is_same<A, IntratA>::value) return a.m.frac(g.skewed_signed(5), 1 + (i64)g.below(2));
    else if constexpr (is_rat<A>::value) return a.m.canon(a.p.m.random_deg(g, (int)g.below(2)), g.chance(3, 4) ? a.p.m.one() : a.p.m.random_monic(g, 1));
    else if constexpr (ops.is_poly) return a.m.random_deg(g, (int)g.below(4));
    else return a.m.random(g);
  }
  std::string sp(size_t atleast) {
    std::string s(atleast, ' ');
    if (g.chance(1, 5)) s += " ";
    return s;
  }
  W some(size_t m, size_t n) {
    W w = mm.make(m, n);
    int style = (int)g.below(6);
    for (size_t i = 0; i < m; i++)
      for (size_t j = 0; j < n; j++) w[i][j] = style == 0 ? (i == j ? a.m.one() : a.m.zero()) : elem();
    if (style == 1 && m > 1) w[(size_t)g.below(m)] = w[(size_t)g.below(m)]; // dependent rows
    return w;
  }
  void literal(size_t m, size_t n) {
    Tok t;
    t.known = true;
    t.w = some(m, n);
    std::string s;
    bool file = !VEC && g.chance(1, 8);
    if (file) {
      for (auto &r : t.w) {
        for (size_t j = 0; j < n; j++) s += (j ? sp(1) : "") + spell(a, g, r[j]);
        s += "\n";
      }
      t.s = files.add(s);
      c.log << "file {" << s << "} ";
    } else if (VEC || (n == 1 && g.flip())) {
      s = "[" + sp(0);
      for (size_t i = 0; i < m; i++)
        for (size_t j = 0; j < n; j++) s += (i + j ? sp(1) : "") + spell(a, g, t.w[i][j]);
      t.s = s + "]";
    } else {
      s = "[" + sp(0);
      for (auto &r : t.w) {
        s += "[";
        for (size_t j = 0; j < n; j++) s += (j ? sp(1) : "") + spell(a, g, r[j]);
        s += "]" + sp(0);
      }
      t.s = s + "]";
    }
    toks.push_back(t);
  }
  void exponent() {
    bool big = !heavy && !tower && A::kind == FIELD && !std::is_same<A, IntA>::value;
    i64 k = big && g.chance(1, 6) ? g.skewed_signed(100000) : g.chance(1, 4) ? g.range(-3, 7) : (i64)g.below(4);
    if ((std::is_same<A, IntA>::value || ops.is_poly) && k <= 0) k = 1;
    int p = g.chance(1, 8) ? 1 : 0;
    if (p) put("(");
    put(std::to_string(k));
    if (p) put(")");
  }
  void gP(int depth, size_t m, size_t n) {
    if (depth <= 0 || g.chance(1, 2)) return literal(m, n);
    bool round = g.flip();
    put(round ? "(" : "[");
    gE(depth - 1, m, n);
    put(round ? ")" : "]");
  }
  void gU(int depth, size_t m, size_t n) {
    gP(depth, m, n);
    while ((VEC || m == n) && g.chance(1, 7)) {
      put("^");
      nops++;
      exponent();
    }
  }
  void gF(int depth, size_t m, size_t n) {
    if (!VEC && g.chance(1, 5)) {
      nops++;
      u64 k = g.below(has_elim<A>::value ? 4 : 1);
      if (k == 3 && m == n) {
        put("inv");
        return gU(depth, m, n);
      }
      if (k == 1 || k == 2) {
        put(k == 1 ? "rech" : "rechr");
        return gU(depth, m, n);
      }
      put("transpose");
      return gU(depth, n, m);
    }
    if (g.chance(1, 8)) {
      put(g.flip() ? "-" : "+");
      nops++;
    }
    gU(depth, m, n);
  }
  void gT(int depth, size_t m, size_t n) {
    size_t at = n, k = n;
    std::vector<size_t> dims{m};
    while (g.chance(1, 3) && dims.size() < 4) dims.push_back(VEC ? n : 1 + (size_t)g.below(3));
    dims.push_back(n);
    (void)at;
    (void)k;
    for (size_t i = 0; i + 1 < dims.size(); i++) {
      if (i) {
        put(g.flip() ? "*" : ".");
        nops++;
      }
      gF(depth, VEC ? m : dims[i], dims[i + 1]);
    }
  }
  void gE(int depth, size_t m, size_t n) {
    gT(depth, m, n);
    while (g.chance(1, 3)) {
      put(g.flip() ? "+" : "-");
      nops++;
      gT(depth, m, n);
    }
  }
  void gQ() {
    size_t m = VEC ? 1 : 1 + (size_t)g.below(heavy || tower ? 2 : 4), n = VEC ? 1 + (size_t)g.below(tower ? 4 : 12) : 1 + (size_t)g.below(heavy || tower ? 3 : 4);
    if (!VEC && g.flip()) n = m;
    if (!VEC && has_elim<A>::value && g.chance(1, 3)) {
      nops++;
      std::string o = g.pick(std::vector<std::string>{"det", "rank", "kerbas", "rr", "rrnz", "rechnz", "inv", "rech"});
      put(o);
      if (o == "det" && g.chance(9, 10)) n = m;
      if (g.chance(1, 4)) {
        put("(");
        if (g.flip()) put(g.pick(std::vector<std::string>{"kerbas", "rr", "rrnz", "rechnz"}));
        gU(1, m, n);
        put(")");
        return;
      }
      return gU(2, m, n);
    }
    gE(2, m, n);
    if (g.chance(1, 5)) {
      put(g.pick(std::vector<std::string>{"==", "!=", "/="}));
      nops++;
      size_t from = toks.size();
      if (g.flip()) gE(1, m, n);
      else { // compare with itself
        std::vector<Tok> same(toks.begin(), toks.begin() + (long)from - 1);
        toks.insert(toks.end(), same.begin(), same.end());
      }
    }
  }
  void mutate() {
    static const std::vector<std::string> extra{"+", "-", "*", ".", "^", "(", ")", "[", "]", "==", "!=", "%", "det", "rank", "inv",
        "transpose", "rech", "kerbas", "zz", "", "[[1 0][0 1]", "[]", "[[]]", "[x]", "[[1 0][1]]", "no/such/file", "2", "-1", "2x", "3.5", "99999999999"};
    int n = 1 + (int)g.below(2);
    while (n--) {
      if (toks.empty()) return;
      size_t i = (size_t)g.below(toks.size());
      switch (g.below(6)) {
      case 5: { // text after (or before) the number of an exponent
        static const std::vector<std::string> junk{"x", ".5", " 2", "e2", ",", " ]", "^", "/3", " "};
        std::vector<size_t> at;
        for (size_t j = 1; j < toks.size(); j++)
          if (!toks[j].known && !toks[j].s.empty() && isdigit((unsigned char)toks[j].s.back())) at.push_back(j);
        if (at.empty()) break;
        toks[g.pick(at)].s += g.pick(junk);
        break;
      }
      case 0: toks.erase(toks.begin() + (long)i); break;
      case 1: {
        Tok t;
        t.s = g.pick(extra);
        toks.insert(toks.begin() + (long)(g.flip() ? i : toks.size()), t);
        break;
      }
      case 2: std::swap(toks[i], toks[(size_t)g.below(toks.size())]); break;
      case 3: { // another shape
        size_t had = toks.size();
        literal(VEC ? 1 : 1 + (size_t)g.below(3), 1 + (size_t)g.below(3));
        Tok t = toks.back();
        toks.resize(had);
        if (toks[i].known) toks[i] = t;
        break;
      }
      default: toks[i] = toks[(size_t)g.below(toks.size())];
      }
    }
  }

  // ---- the model's evaluation
  enum { EOL, NUM, OP, LP, RP };
  size_t at = 0;
  int kind = EOL;
  std::string op;
  Val atom;
  int in_exp = 0;
  void next() {
    if (at >= toks.size()) {
      kind = EOL;
      return;
    }
    const Tok &t = toks[at++];
    static const std::set<std::string> opset{"+", "-", "*", ".", "^", "==", "!=", "/="};
    static const std::set<std::string> names{"rank", "det", "inv", "kerbas", "rr", "rech", "rechr", "rrnz", "rechnz", "transpose"};
    if (opset.count(t.s) || (!VEC && names.count(t.s))) {
      kind = OP;
      op = t.s;
      return;
    }
    if (t.s == "(" || t.s == "[") {
      kind = LP;
      return;
    }
    if (t.s == ")" || t.s == "]") {
      kind = RP;
      return;
    }
    kind = NUM;
    atom = Val();
    if (in_exp) {
      atom.k = INT;
      atom.i = scan_int(t.s);
    } else if (t.known)
      atom.w = t.w;
    else
      throw Refused{"no matrix: " + t.s};
  }
  static i64 scan_int(const std::string &s) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t start = i;
    i128 v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      v = v * 10 + (s[i++] - '0');
      if (v > 99999999999LL) v = 99999999999LL;
    }
    if (i > start)
      while (i < s.size() && s[i] == ' ') i++; // blanks after it are as good as none
    if (i == start || i != s.size()) throw Refused{"no int: " + s};
    if (neg) v = -v;
    if (v > 0x7fffffff || v < -(i128)0x80000000LL) throw Refused{"int too big: " + s};
    return (i64)v;
  }
  static void need(bool ok, const char *why = "operand of the wrong kind") {
    if (!ok) throw Refused{why};
  }
  W in(const W &w) {
    for (auto &r : w)
      for (auto &x : r) {
        ops.in(x);
        if constexpr (ops.is_poly)
          if (x.size() > 60) throw Discard();
        if constexpr (std::is_same<A, IntratA>::value)
          if (iabs(x.n) > 30000 || x.d > 1000) throw Discard();
      }
    return w;
  }
  // small enough that elimination stays in range
  void for_elim(const W &w) {
    if constexpr (!has_elim<A>::value) throw Discard();
    if (!heavy) return;
    if (w.size() > 3 || w[0].size() > 4) throw Discard();
    for (auto &r : w)
      for (auto &x : r) {
        if constexpr (std::is_same<A, IntratA>::value) {
          if (iabs(x.n) > 60 || x.d > 4) throw Discard();
        } else if constexpr (is_rat<A>::value) {
          if (a.weight(x) > 7) throw Discard();
        }
      }
  }
  const W &mat(const Val &v, bool rows_ok = false) {
    need(v.k == MAT || v.k == ROWS);
    if (v.k == ROWS && !rows_ok) throw Discard();
    return v.w;
  }
  W mul(const W &x, const W &y) {
    if (VEC) {
      need(x[0].size() == y[0].size(), "lengths");
      W r(x);
      for (size_t i = 0; i < r[0].size(); i++) r[0][i] = ops.mul(x[0][i], y[0][i]);
      return in(r);
    }
    need(x[0].size() == y.size(), "shapes");
    return in(mm.mul(x, y));
  }
  W addsub(const W &x, const W &y, bool minus) {
    need(x.size() == y.size() && x[0].size() == y[0].size(), "shapes");
    return in(minus ? mm.sub(x, y) : mm.add(x, y));
  }
  W power(const W &x, i64 k) {
    if (VEC) {
      W r(x);
      for (auto &e : r[0]) {
        if (std::is_same<A, BitA>::value && a.m.is_zero(e) && k <= 0) throw Discard();
        e = ops.power(e, k);
      }
      return in(r);
    }
    need(x.size() == x[0].size(), "not square");
    W p = x, r = mm.ident(x.size());
    if (k <= 0) {
      for_elim(x);
      need(mm.inverse(x, p), "singular");
      k = -k;
    }
    if (heavy && k > 12) throw Discard();
    for (; k; k >>= 1) {
      if (k & 1) r = mul(r, p);
      if (k > 1) p = mul(p, p);
    }
    return r;
  }
  static W flip(W w, bool vert) {
    for (auto &r : w) std::reverse(r.begin(), r.end());
    if (vert) std::reverse(w.begin(), w.end());
    return w;
  }
  W kernel(const W &w, int rank) {
    W rr = mm.rref(w);
    size_t n = w[0].size();
    std::vector<long> leader(n, -1);
    for (size_t i = 0; i < (size_t)rank; i++) {
      size_t j = 0;
      while (a.m.is_zero(rr[i][j])) j++;
      leader[j] = (long)i;
    }
    W b;
    for (size_t f = 0; f < n; f++) {
      if (leader[f] >= 0) continue;
      V v(n, a.m.zero());
      v[f] = a.m.one();
      for (size_t j = 0; j < n; j++)
        if (leader[j] >= 0) v[j] = a.m.neg(rr[(size_t)leader[j]][f]);
      b.push_back(v);
    }
    return b;
  }
  Val prefix(const std::string &o, const Val &v) {
    Val r;
    if (o == "transpose") {
      r.w = mm.transpose(mat(v));
      return r;
    }
    const W &w = mat(v, o == "rank" || o == "kerbas" || o == "rr" || o == "rrnz" || o == "rech" || o == "rechnz");
    for_elim(w);
    if constexpr (has_elim<A>::value) {
      if (o == "inv") {
        need(w.size() == w[0].size(), "not square");
        need(mm.inverse(w, r.w), "singular");
        in(r.w);
        return r;
      }
      if (o == "det") {
        need(w.size() == w[0].size(), "not square");
        r.k = SCALAR;
        r.e = ops.in(mm.det(w));
        return r;
      }
      int rank;
      W rr = mm.rref(o == "rechr" ? flip(w, false) : w, &rank);
      in(rr);
      if (o == "rank") {
        r.k = INT;
        r.i = rank;
      } else if (o == "rech") {
        r.w = rr;
      } else if (o == "rechr") {
        r.w = flip(rr, true);
      } else if (o == "rechnz" || o == "rrnz") {
        need(rank > 0, "no non-zero rows");
        r.w = W(rr.begin(), rr.begin() + rank);
        if (o == "rrnz") r.k = ROWS, r.form = STAIR;
      } else if (o == "rr") {
        r.w = rr;
        r.k = ROWS;
        r.form = STAIR;
      } else { // kerbas
        need(rank < (int)w[0].size(), "no kernel");
        r.w = mm.rref(kernel(w, rank));
        in(r.w);
        r.k = ROWS;
      }
    }
    return r;
  }
  bool op_in(const char *list) {
    return kind == OP && (" " + std::string(list) + " ").find(" " + op + " ") != std::string::npos;
  }
  Val eP() {
    if (kind == LP) {
      next();
      Val v = eE();
      need(kind == RP, "no closing parenthesis");
      next();
      return v;
    }
    need(kind == NUM, "no operand");
    Val v = atom;
    next();
    return v;
  }
  Val eU() {
    Val v = eP();
    while (op_in("^")) {
      in_exp++;
      next();
      Val w = eP();
      need((v.k == MAT || v.k == ROWS) && w.k == INT);
      Val r;
      r.w = power(mat(v), w.i);
      v = r;
      in_exp--;
    }
    return v;
  }
  Val eF() {
    if (op_in("+")) {
      next();
      return eU();
    }
    if (op_in("-")) {
      next();
      Val v = eU(), r;
      r.w = in(mm.neg(mat(v)));
      return r;
    }
    if (!VEC && op_in("rank det inv kerbas rr rech rechr rrnz rechnz transpose")) {
      std::string o = op;
      next();
      Val v = eU();
      need(v.k == MAT || v.k == ROWS);
      return prefix(o, v);
    }
    return eU();
  }
  Val eT() {
    Val v = eF();
    while (op_in("* .")) {
      next();
      Val w = eF(), r;
      need((v.k == MAT || v.k == ROWS) && (w.k == MAT || w.k == ROWS));
      r.w = mul(mat(v), mat(w));
      v = r;
    }
    return v;
  }
  Val eE() {
    Val v = eT();
    while (op_in("+ -")) {
      std::string o = op;
      next();
      Val w = eT(), r;
      need((v.k == MAT || v.k == ROWS) && (w.k == MAT || w.k == ROWS));
      r.w = addsub(mat(v), mat(w), o == "-");
      v = r;
    }
    return v;
  }
  Val eQ() {
    Val v = eE();
    while (op_in("== != /=")) {
      std::string o = op;
      next();
      Val w = eE(), r;
      need((v.k == MAT || v.k == ROWS) && (w.k == MAT || w.k == ROWS));
      const W &x = mat(v), &y = mat(w);
      bool shape = x.size() == y.size() && x[0].size() == y[0].size();
      if (!VEC) need(shape, "shapes");
      r.k = INT;
      r.i = (o == "==") == (shape && mm.eq(x, y));
      v = r;
    }
    return v;
  }

  void run(bool whole_program) {
    gQ();
    bool mutated = g.chance(1, 7);
    if (mutated) mutate();
    Words words;
    for (auto &t : toks) words.push_back(t.s);
    c.log << a.name() << ": " << cli::shown(words);
    c.nontrivial = nops >= 1;
    bool refused = false, empty = false;
    std::string why;
    Val want;
    try {
      next();
      empty = kind == EOL;
      if (!empty) {
        want = eQ();
        if (kind != EOL) throw Refused{"more text"};
      }
    } catch (Refused &r) {
      refused = true;
      why = r.why;
    }
    static const char *kn[] = {"matrix", "row space", "scalar", "int"};
    c.label(refused ? "refused" : kn[want.k]);
    if (mutated) c.label("mutated");
    if (whole_program) {
      Words all = op_command(a, VEC ? std::is_same<A, FpPolymodA>::value ? "vecop" : "vec_op" : "mat_op");
      all.insert(all.end(), words.begin(), words.end());
      c.log << "  [" << cli::shown(all) << "]";
      cli::Run r = cli::run(all);
      cli::sane(c, r);
      REQUIRE_(c, (r.rc != 0) == refused, (refused ? "not refused (" + why + "), printed " : "refused: ") << r.out << r.err);
      if (refused) REQUIRE_(c, !r.err.empty(), "refused without a message");
      else check(r.out, empty, want);
    } else {
      std::vector<char *> argv;
      for (auto &w : words) argv.push_back((char *)w.c_str());
      argv.push_back(nullptr);
      std::ostringstream out;
      std::streambuf *old = std::cout.rdbuf(out.rdbuf());
      bool threw = false;
      std::string msg;
      try {
        if constexpr (VEC)
          spffl::cli_parser::cmd_line_vec_parse<T>((int)words.size(), argv.data(), a.make(a.m.zero()), a.make(a.m.one()));
        else
          spffl::cli_parser::cmd_line_mat_parse<T>((int)words.size(), argv.data(), a.make(a.m.zero()), a.make(a.m.one()));
      } catch (const std::exception &x) {
        threw = true;
        msg = x.what();
      } catch (...) {
        std::cout.rdbuf(old);
        throw;
      }
      std::cout.rdbuf(old);
      REQUIRE_(c, threw == refused, (refused ? "not refused (" + why + "), printed " + out.str() : "refused: " + msg));
      if (!refused) check(out.str(), empty, want);
    }
  }
  E read(const std::string &s) {
    E e;
    REQUIRE_(c, unfmt(a, s, e), "printed \"" << s << "\", which is not the text of a value");
    return e;
  }
  void check(std::string out, bool empty, const Val &want) {
    if (empty) {
      REQUIRE_(c, out.empty(), "an empty expression printed \"" << out << "\"");
      return;
    }
    if (VEC && want.k == MAT && (out.empty() || out.back() != '\n')) out += "\n";
    REQUIRE_(c, !out.empty() && out.back() == '\n', "output is not lines: \"" << out << "\"");
    std::string body = out.substr(0, out.size() - 1);
    if (want.k == INT) {
      REQUIRE_(c, body == std::to_string(want.i), "printed " << body << ", not " << want.i);
      return;
    }
    if (want.k == SCALAR) {
      E e = read(body);
      REQUIRE_(c, a.m.eq(e, want.e), "printed " << body << ", which is not " << a.m.show(want.e));
      return;
    }
    W got;
    for (auto &line : bind::split(body, '\n')) {
      V v;
      for (auto &s : bind::split(line, ' ')) v.push_back(read(s));
      got.push_back(v);
      REQUIRE_(c, v.size() == got[0].size(), "ragged: " << out);
    }
    REQUIRE_(c, got.size() == want.w.size() && got[0].size() == want.w[0].size(),
             "printed " << got.size() << "x" << got[0].size() << ", should be " << want.w.size() << "x" << want.w[0].size());
    if (want.k == MAT) {
      REQUIRE_(c, mm.eq(got, want.w), "printed " << mm.show(got) << ", not " << mm.show(want.w));
      return;
    }
    if constexpr (has_elim<A>::value) {
      int last = -1;
      bool zeros = false;
      if (want.form == STAIR)
        for (auto &r : got) {
          size_t k = 0;
          while (k < r.size() && a.m.is_zero(r[k])) k++;
          if (k == r.size()) zeros = true;
          else {
            REQUIRE_(c, !zeros && (int)k > last, "not a staircase: " << mm.show(got));
            last = (int)k;
          }
        }
      REQUIRE_(c, mm.eq(mm.rref(got), mm.rref(want.w)), "printed " << mm.show(got) << ", whose rows span other than " << mm.show(want.w));
    }
  }
};

static void any_mat(Gen &g, Ctx &c, bool whole) {
  int t = (int)g.below(T_COUNT + 1);
  if ((t == T_F2NPM || t == T_FPNPM || t == T_F2NPR) && g.chance(3, 4)) t = (int)g.below(T_F2NPM);
  if (t == T_COUNT || t == T_QP) { // there is no command for matrices of rational polynomials
    c.label("int");
    IntA a;
    return Expr<IntA, false>(a, g, c).run(whole);
  }
  c.label(type_name(t));
  PickOpts o;
  o.pmax = 20000;
  with_type(t, g, o, [&](const auto &a) {
    typedef std::decay_t<decltype(a)> A;
    if constexpr (!std::is_same<A, QPolyA>::value) Expr<A, false>(a, g, c).run(whole);
  });
}
static void any_vec(Gen &g, Ctx &c, bool whole) {
  static const std::vector<int> ts{T_BIT, T_INTMOD, T_INTRAT, T_F2PM, T_FPPM, T_F2NPM};
  int t = g.pick(ts);
  c.label(type_name(t));
  PickOpts o;
  o.field = g.chance(2, 3);
  o.pmax = 20000;
  with_type(t, g, o, [&](const auto &a) {
    typedef std::decay_t<decltype(a)> A;
    if constexpr (std::is_same<A, BitA>::value || std::is_same<A, IntmodA>::value || std::is_same<A, IntratA>::value ||
                  std::is_same<A, F2PolymodA>::value || std::is_same<A, FpPolymodA>::value || std::is_same<A, F2nPolymodA>::value)
      Expr<A, true>(a, g, c).run(whole);
  });
}

static std::function<void(Ctx &)> ring_det(Words w, const std::string &want) {
  return [w, want](Ctx &c) {
    cli::Run r = cli::run(w);
    cli::sane(c, r);
    REQUIRE_(c, r.rc == 0 && r.out == want + "\n", cli::shown(w) << " gives status " << r.rc << " and \"" << r.out << "\", not " << want);
  };
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C27";
  p.rule_text =
      "Matrix expressions over fifteen element types and vector expressions over six, with literals in brackets and files, all "
      "operators, nesting and powers, operands of matching and of other shapes, dependent rows, and the same with tokens "
      "deleted, inserted, swapped and replaced. Decided against an evaluator of the grammar over the reference matrices, "
      "through the parser and through the whole program. Non-trivial: at least one operator.";
  p.assumptions = {"elimination operators (det, rank, inv, rr..., kerbas, powers below one) over int and polynomial matrices are excluded: see known_findings.txt",
      "exact values too big for their representation are excluded"};
  p.add("matrix parser", 4000, 120000, [](Gen &g, Ctx &c) { any_mat(g, c, false); });
  p.add("vector parser", 4000, 120000, [](Gen &g, Ctx &c) { any_vec(g, c, false); });
  p.add("matrix program", 1500, 20000, [](Gen &g, Ctx &c) { any_mat(g, c, true); });
  p.add("vector program", 1000, 15000, [](Gen &g, Ctx &c) { any_vec(g, c, true); });
  p.pin("z-mat-det", "z_mat_op det [[2 1][1 2]]: elimination divides as in a field", ring_det({"z_mat_op", "det", "[[2 1][1 2]]"}, "3"));
  p.pin("f2p-mat-det", "f2_p_mat_op det [[2 1][1 2]]: elimination divides as in a field", ring_det({"f2_p_mat_op", "det", "[[2 1][1 2]]"}, "5"));
  p.pin("fpp-mat-det", "fp_p_mat_op 5 det [[20 1][1 30]]: elimination divides as in a field", ring_det({"fp_p_mat_op", "5", "det", "[[20 1][1 30]]"}, "104"));
  p.pin("f2np-mat-det", "f2n_p_mat_op 7 det [[1:2 1:3][0:1 1:1]]: elimination divides as in a field",
        ring_det({"f2n_p_mat_op", "7", "det", "[[1:2 1:3][0:1 1:1]]"}, "1:2:1"));
  p.pin("fpnp-mat-det", "fpn_p_mat_op 5 112 det [[1:2 1:3][1 1:1]]: elimination divides as in a field",
        ring_det({"fpn_p_mat_op", "5", "112", "det", "[[1:2 1:3][1 1:1]]"}, "1:2:4"));
  return engine_main(argc, argv, p);
}
