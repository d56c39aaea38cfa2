// C25: the text of vectors and matrices: streams, files, bracketed.
#include "textx.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace bind;
using namespace pbt;
using spffl::bits::bit_matrix_t;
using spffl::bits::bit_vector_t;

// A file of this process's own, gone when the case ends.
struct Scratch {
  std::string path;
  explicit Scratch(const std::string &content, bool create = true) {
    const char *d = getenv("VERIF_DIR");
    std::string dir = std::string(d ? d : ".") + "/build/scratch";
    mkdir(dir.c_str(), 0700);
    path = dir + "/c25-" + std::to_string(getpid());
    unlink(path.c_str());
    if (!create) return;
    std::ofstream o(path, std::ios::binary);
    o << content;
    o.close();
    if (!o) throw std::runtime_error("cannot write " + path);
  }
  ~Scratch() { unlink(path.c_str()); }
  char *name() { return (char *)path.c_str(); }
};
struct Cin { // std::cin reads this text
  std::stringbuf sb;
  std::streambuf *old;
  explicit Cin(const std::string &s) : sb(s), old(std::cin.rdbuf(&sb)) { std::cin.clear(); }
  ~Cin() {
    std::cin.rdbuf(old);
    std::cin.clear();
  }
};
struct Cout { // std::cout writes here
  std::ostringstream o;
  std::streambuf *old;
  Cout() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Cout() { std::cout.rdbuf(old); }
};
static std::string blanks(Gen &g, int most) {
  std::string s;
  for (u64 k = g.below((u64)most + 1); k--;) s += " \t"[g.below(2)];
  return s;
}
static std::string gap(Gen &g) { return g.chance(3, 4) ? " " : " " + blanks(g, 3); }
static std::string junk(Gen &g) { return g.pick(std::vector<std::string>{"x", "?", "!1", "z0", "=", "{", "1 x 1", "0 ? 1"}); }

// ---- how a list of rows is written down
// comments, blanks around rows, blank lines before
static std::string lines(Gen &g, const std::vector<std::string> &rows, bool decorate, bool end_newline) {
  std::string s;
  if (decorate)
    for (u64 k = g.below(3); k--;) s += blanks(g, 2) + (g.chance(1, 3) ? "# heading 1 2" : "") + "\n";
  for (size_t i = 0; i < rows.size(); i++) {
    if (decorate && g.chance(1, 4)) s += blanks(g, 3);
    s += rows[i];
    if (decorate && g.chance(1, 4)) s += blanks(g, 3);
    if (decorate && g.chance(1, 5)) s += std::string(g.flip() ? " " : "") + "# row 7 [x";
    else if (decorate && g.chance(1, 10)) s += "\r";
    if (i + 1 < rows.size() || end_newline) s += "\n";
  }
  return s;
}

template <class A> struct VT {
  typedef typename A::T T;
  typedef typename A::M::E E;
  typedef TM<A> TT;
  typedef typename TT::V V;
  typedef typename TT::W W;
  const A &a;
  Gen &g;
  Ctx &c;
  TT t;
  VT(const A &x, Gen &gg, Ctx &cc) : a(x), g(gg), c(cc), t(x) {}
  T zero() { return a.make(a.m.zero()); }
  E elem() {
    if (g.chance(1, 4)) return a.m.zero();
    if constexpr (std::is_same<A, QPolyA>::value) {
      PQ::E e(1 + (size_t)g.below(4));
      for (auto &q : e) q = a.m.r.of((i64)g.below(e.size() > 1 ? 30 : 10));
      a.m.trim(e);
      if (e.size() == 1 && e[0].n > 9) e[0].n = 3;
      return e;
    } else
      return a.m.random(g);
  }
  V vec(size_t n) {
    V v(n, a.m.zero());
    for (auto &x : v) x = elem();
    return v;
  }
  size_t gen_n(size_t cap) { return 1 + (g.flip() ? (size_t)g.below(4) : (size_t)g.below(cap)); }
  std::string plain(const V &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + text_of(a.make(v[i]));
    return s;
  }
  std::string spelled(const V &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? gap(g) : "") + spell(a, g, v[i]);
    return s;
  }
  // any vector / matrix, at least one element, to be read over
  tvector<T> oldv() { return t.mkv(vec(1 + (size_t)g.below(3))); }
  tmatrix<T> oldm() {
    W w;
    size_t n = 1 + (size_t)g.below(2);
    for (u64 k = 1 + g.below(3); k--;) w.push_back(vec(n));
    return t.mk(w);
  }

  void vectors() {
    V v = vec(g.chance(1, 150) ? 300 + (size_t)g.below(1500) : gen_n(34)); // lines longer than any buffer, now and then
    c.log << a.name() << " vector " << t.sv(v);
    c.nontrivial = v.size() > 1;
    c.label(v.size() >= 300 ? "hundreds of elements" : v.size() > 20 ? "more than 20 elements" : v.size() > 10 ? "11 to 20 elements" : "up to 10 elements");
    tvector<T> x = t.mkv(v);
    std::ostringstream o;
    o << x;
    REQUIRE_(c, o.str() == plain(v), "written as \"" << o.str() << "\", not \"" << plain(v) << "\"");
    {
      std::ostringstream sq, cr;
      x.sqzout(sq);
      x.crout(cr);
      std::string wsq, wcr;
      for (auto &e : v) wsq += text_of(a.make(e)), wcr += text_of(a.make(e)) + "\n";
      REQUIRE_(c, sq.str() == wsq, "sqzout: \"" << sq.str() << "\"");
      REQUIRE_(c, cr.str() == wcr, "crout: \"" << cr.str() << "\"");
    }
    std::string s = (g.chance(1, 4) ? blanks(g, 3) : "") + (g.flip() ? o.str() : spelled(v));
    c.log << " as \"" << s << "\"";
    tvector<T> y = oldv();
    switch (g.below(5)) {
    case 0: {
      std::istringstream is(s);
      is >> y;
      REQUIRE_(c, !is.fail(), "refused");
      break;
    }
    case 1: { // a line each
      V v2 = vec(gen_n(12));
      std::stringbuf sb(s + "\n" + plain(v2) + (g.flip() ? "\n" : ""));
      std::istream is(&sb);
      is >> y;
      REQUIRE_(c, !is.fail(), "refused from a stream");
      tvector<T> y2 = oldv();
      is >> y2;
      REQUIRE_(c, !is.fail(), "the second line is refused");
      t.checkv(c, y2, v2, "the second line");
      break;
    }
    case 2: {
      std::string b = (g.flip() ? "" : blanks(g, 3)) + "[" + s + "]" + (g.flip() ? "" : blanks(g, 3));
      c.log << " in brackets";
      REQUIRE_(c, y.bracket_in((char *)b.c_str()), "bracket_in refuses \"" << b << "\"");
      break;
    }
    case 3: {
      c.log << " from a file";
      Scratch f(s + (g.flip() ? "\n" : "") + (g.chance(1, 4) ? "\nrest\n" : ""));
      bool ok;
      if (g.flip()) ok = y.load_from_file(f.name());
      else {
        if (g.flip()) y = tvector<T>();
        ok = y.load_from_file(f.name(), zero());
      }
      REQUIRE_(c, ok, "load_from_file refuses it");
      break;
    }
    default: {
      c.log << " from standard input";
      Cin in(s + "\n");
      REQUIRE_(c, y.load_from_file((char *)(g.flip() ? "-" : "@"), zero()), "load_from_file(\"-\") refuses it");
    }
    }
    t.checkv(c, y, v, "read back, it");
  }

  void matrices() {
    size_t m = g.chance(1, 12) ? 30 + (size_t)g.below(170) : gen_n(26), n = gen_n(13);
    if (m * n > 60) n = 1 + n % 3;
    W w;
    for (size_t i = 0; i < m; i++) w.push_back(vec(n));
    c.log << a.name() << " matrix " << t.mm.show(w);
    c.nontrivial = m > 1 && n > 1;
    c.label(m > 20 ? "more than 20 rows" : m > 10 ? "11 to 20 rows" : "up to 10 rows");
    tmatrix<T> x = t.mk(w);
    std::string want;
    for (auto &r : w) want += plain(r) + "\n";
    std::ostringstream o;
    o << x;
    REQUIRE_(c, o.str() == want, "written as \"" << o.str() << "\", not \"" << want << "\"");
    bool decorate = g.flip();
    auto text = [&](const W &u) {
      std::vector<std::string> rows;
      for (auto &r : u) rows.push_back(decorate ? spelled(r) : plain(r));
      return lines(g, rows, decorate, true);
    };
    tmatrix<T> y = oldm();
    switch (g.below(5)) {
    case 0: { // several in one stream
      std::vector<W> ws{w};
      for (u64 k = g.below(3); k--;) {
        W u;
        size_t un = 1 + (size_t)g.below(3);
        for (u64 j = 1 + g.below(3); j--;) u.push_back(vec(un));
        ws.push_back(u);
      }
      std::string s;
      for (size_t i = 0; i < ws.size(); i++) {
        s += text(ws[i]);
        if (i + 1 < ws.size()) s += blanks(g, 1) + "\n";
      }
      if (g.flip()) s.pop_back(); // no newline at the end
      c.log << " as \"" << s << "\"";
      std::istringstream is(s);
      for (size_t i = 0; i < ws.size(); i++) {
        tmatrix<T> z = oldm();
        is >> z;
        REQUIRE_(c, !is.fail(), "matrix " << i << " is refused");
        t.check(c, z, ws[i], "matrix " + std::to_string(i));
      }
      REQUIRE_(c, is.eof(), "the stream does not end after the last matrix");
      tmatrix<T> z = oldm();
      is >> z;
      REQUIRE_(c, is.fail(), "a matrix was read past the end");
      return;
    }
    case 1: {
      std::string s = text(w);
      if (g.flip()) s.pop_back();
      c.log << " from a file: \"" << s << "\"";
      Scratch f(s);
      bool ok = g.flip() ? y.load_from_file(f.name()) : y.load_from_file(f.name(), zero());
      REQUIRE_(c, ok, "load_from_file refuses it");
      break;
    }
    case 2: {
      c.log << " stored and loaded";
      Scratch f("old", g.flip());
      if (g.flip()) REQUIRE_(c, x.store_to_file(f.name()), "store_to_file fails");
      else x.store_to_file_or_die(f.name());
      std::ifstream in(f.path);
      std::stringstream got;
      got << in.rdbuf();
      REQUIRE_(c, got.str() == want, "stored as \"" << got.str() << "\"");
      REQUIRE_(c, y.load_from_file(f.name(), zero()), "load_from_file refuses it");
      break;
    }
    case 3: {
      std::string b = blanks(g, 1) + "[" + blanks(g, 1);
      if (n == 1 && g.flip()) {
        for (size_t i = 0; i < m; i++) b += (i ? gap(g) : "") + spell(a, g, w[i][0]);
        b += "]";
        c.label("column in brackets");
      } else {
        for (size_t i = 0; i < m; i++) b += "[" + spelled(w[i]) + "]" + blanks(g, 1);
        b += "]";
      }
      b += blanks(g, 2);
      c.log << " as \"" << b << "\"";
      REQUIRE_(c, y.bracket_in((char *)b.c_str()), "bracket_in refuses it");
      break;
    }
    default: {
      std::string s = text(w);
      c.log << " by standard input and output";
      {
        Cin in(s);
        REQUIRE_(c, y.load_from_file((char *)(g.flip() ? "-" : "@"), zero()), "load_from_file(\"-\") refuses it");
      }
      Cout out;
      REQUIRE_(c, y.store_to_file((char *)(g.flip() ? "-" : "@")), "store_to_file(\"-\") fails");
      REQUIRE_(c, out.o.str() == want, "standard output has \"" << out.o.str() << "\"");
    }
    }
    t.check(c, y, w, "read back, it");
    t.check(c, x, w, "the matrix written");
  }

  void malformed() {
    size_t m = 1 + (size_t)g.below(4), n = 1 + (size_t)g.below(4);
    std::vector<std::string> rows;
    for (size_t i = 0; i < m; i++) rows.push_back(spelled(vec(n)));
    size_t at = (size_t)g.below(m);
    tvector<T> y = oldv();
    tmatrix<T> z = oldm();
    c.nontrivial = true;
    std::string s;
    switch (g.below(6)) {
    case 0: { // a row that is not a row
      if (g.flip()) rows[at] = junk(g);
      else rows[at] += " " + junk(g);
      std::istringstream iv(rows[at]);
      c.log << a.name() << " row \"" << rows[at] << "\"";
      iv >> y;
      REQUIRE_(c, iv.fail(), "the row is read as a vector");
      s = lines(g, rows, false, g.flip());
      break;
    }
    case 1: // ragged
      if (m < 2) throw Discard();
      rows[at] += " " + spell(a, g, elem());
      s = lines(g, rows, g.flip(), true);
      break;
    case 2: // nothing
      s = g.pick(std::vector<std::string>{"", "\n", "  \n\t\n", "# only a comment\n"});
      break;
    case 3: { // no file
      Scratch f("", false);
      c.log << a.name() << " no file";
      REQUIRE_(c, !y.load_from_file(f.name(), zero()), "a vector is read from no file");
      REQUIRE_(c, !z.load_from_file(f.name(), zero()), "a matrix is read from no file");
      return;
    }
    case 4: { // brackets
      std::string in = spelled(vec(n));
      s = g.pick(std::vector<std::string>{in, "[" + in, in + "]", "[]", "[ ]", "]" + in + "[", "[" + in + " " + junk(g) + "]", ""});
      c.log << a.name() << " \"" << s << "\" in brackets";
      REQUIRE_(c, !y.bracket_in((char *)s.c_str()), "a vector");
      REQUIRE_(c, !z.bracket_in((char *)s.c_str()), "a matrix");
      return;
    }
    default: { // rows in brackets
      if (g.flip()) {
        if (m < 2) throw Discard();
        rows[at] += " " + spell(a, g, elem());
      } else
        rows[at] = junk(g);
      s = "[";
      for (auto &r : rows) s += "[" + r + "]" + (g.flip() ? " " : "");
      s += "]";
      c.log << a.name() << " \"" << s << "\" in brackets";
      REQUIRE_(c, !z.bracket_in((char *)s.c_str()), "a matrix");
      return;
    }
    }
    c.log << a.name() << " matrix \"" << s << "\"";
    std::istringstream is(s);
    is >> z;
    REQUIRE_(c, is.fail(), "the matrix is accepted");
    Scratch f(s);
    tmatrix<T> z2 = oldm();
    REQUIRE_(c, !z2.load_from_file(f.name(), zero()), "the matrix is accepted from a file");
  }
};

// ---- packed bits
static std::string bits_text(Gen *g, const std::vector<u64> &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? (g ? gap(*g) : " ") : "") + std::string(v[i] ? "1" : "0");
  return s;
}
static size_t bit_len(Gen &g) {
  switch (g.below(4)) {
  case 0: return 1 + (size_t)g.below(8);
  case 1: return 62 + (size_t)g.below(5);
  case 2: return 64 * (size_t)(1 + g.below(9)) + (size_t)g.below(3) - 1;
  default: return 1 + (size_t)g.skewed(g.chance(1, 6) ? 3000 : 700);
  }
}
static std::vector<u64> bit_vec(Gen &g, size_t n) {
  std::vector<u64> v(n);
  bool one = g.flip();
  for (auto &b : v) b = one ? 1 : g.below(2);
  if (one) v[(size_t)g.below(n)] = 0;
  return v;
}
static void check_bits(Ctx &c, const bit_vector_t &x, const std::vector<u64> &v, const std::string &what) {
  REQUIRE_(c, x.get_num_elements() == (int)v.size(), what << " has " << x.get_num_elements() << " elements");
  for (size_t i = 0; i < v.size(); i++)
    REQUIRE_(c, (u64)x.get((int)i).get_residue() == v[i], what << " differs at " << i);
  bit_vector_t y((int)v.size());
  for (size_t i = 0; i < v.size(); i++) y.set((int)i, bit_t((int)v[i]));
  REQUIRE_(c, x == y, what << " does not equal its bits");
}
static void packed_vectors(Gen &g, Ctx &c) {
  auto v = bit_vec(g, bit_len(g));
  c.log << "bits " << bits_text(nullptr, v);
  c.nontrivial = v.size() > 1;
  c.label(v.size() > 512 ? "more than 512 bits" : v.size() > 64 ? "more than a word" : "a word");
  bit_vector_t x((int)v.size());
  for (size_t i = 0; i < v.size(); i++) x.set((int)i, bit_t((int)v[i]));
  REQUIRE_(c, text_of(x) == bits_text(nullptr, v), "written as \"" << text_of(x) << "\"");
  std::ostringstream sq, cr;
  x.sqzout(sq);
  x.crout(cr);
  std::string wsq, wcr;
  for (auto b : v) wsq += b ? "1" : "0", wcr += b ? "1\n" : "0\n";
  REQUIRE_(c, sq.str() == wsq && cr.str() == wcr, "sqzout or crout");
  bit_vector_t y(1 + (int)g.skewed(200));
  y.set(0, bit_t(1));
  std::string s = (g.chance(1, 4) ? blanks(g, 2) : "") + bits_text(&g, v);
  if (g.flip()) {
    std::istringstream is(s);
    is >> y;
    REQUIRE_(c, !is.fail(), "refused");
  } else {
    auto v2 = bit_vec(g, bit_len(g));
    std::stringbuf sb(s + "\n" + bits_text(&g, v2));
    std::istream is(&sb);
    is >> y;
    REQUIRE_(c, !is.fail(), "refused");
    bit_vector_t y2(1);
    is >> y2;
    REQUIRE_(c, !is.fail(), "the second line is refused");
    check_bits(c, y2, v2, "the second line");
  }
  check_bits(c, y, v, "read back, it");
}
static void packed_matrices(Gen &g, Ctx &c) {
  size_t m = g.chance(1, 6) ? 38 + (size_t)g.below(6) : g.chance(1, 10) ? 79 + (size_t)g.below(4) : g.chance(1, 20) ? 100 + (size_t)g.below(200) : 1 + (size_t)g.below(8), n = bit_len(g);
  if (m * n > 2000) n = 1 + n % 30;
  bool decorate = g.flip();
  std::vector<std::vector<std::vector<u64>>> ms;
  std::string s, want;
  for (u64 k = 1 + g.below(3); k--;) {
    std::vector<std::vector<u64>> w;
    std::vector<std::string> rows;
    for (size_t i = 0; i < m; i++) {
      w.push_back(bit_vec(g, n));
      rows.push_back(bits_text(&g, w.back()));
    }
    if (ms.empty())
      for (auto &r : w) want += bits_text(nullptr, r) + "\n";
    if (!ms.empty()) s += "\n";
    s += lines(g, rows, decorate, true);
    ms.push_back(w);
    m = 1 + (size_t)g.below(4), n = 1 + (size_t)g.below(70);
  }
  if (g.flip()) s.pop_back();
  c.log << ms.size() << " bit matrices \"" << s << "\"";
  c.nontrivial = ms[0].size() > 1 && ms[0][0].size() > 1;
  c.label(ms[0].size() > 40 ? "more than 40 rows" : "up to 40 rows");
  auto check = [&](bit_matrix_t &x, const std::vector<std::vector<u64>> &w, const std::string &what) {
    REQUIRE_(c, x.get_num_rows() == (int)w.size() && x.get_num_cols() == (int)w[0].size(), what << " is " << x.get_num_rows() << " by " << x.get_num_cols());
    for (size_t i = 0; i < w.size(); i++) check_bits(c, x[(int)i], w[i], what + " row " + std::to_string(i));
  };
  std::istringstream is(s);
  for (size_t i = 0; i < ms.size(); i++) {
    bit_matrix_t x(1 + (int)g.below(3), 1 + (int)g.below(3));
    is >> x;
    REQUIRE_(c, !is.fail(), "matrix " << i << " is refused");
    check(x, ms[i], "matrix " + std::to_string(i));
    if (i == 0) REQUIRE_(c, text_of(x) == want, "written as \"" << text_of(x) << "\"");
  }
  bit_matrix_t z;
  is >> z;
  REQUIRE_(c, is.fail(), "a matrix was read past the end");
  bit_matrix_t y;
  if (g.flip()) {
    Scratch f(s);
    REQUIRE_(c, y.load_from_file(f.name()), "load_from_file refuses it");
  } else {
    Cin in(s);
    REQUIRE_(c, y.load_from_file((char *)(g.flip() ? "-" : "@")), "load_from_file(\"-\") refuses it");
  }
  check(y, ms[0], "loaded, it");
}
static void packed_malformed(Gen &g, Ctx &c) {
  size_t m = 1 + (size_t)g.below(4), n = 1 + (size_t)g.below(6);
  std::vector<std::string> rows;
  for (size_t i = 0; i < m; i++) rows.push_back(bits_text(&g, bit_vec(g, n)));
  size_t at = (size_t)g.below(m);
  std::string s;
  c.nontrivial = true;
  switch (g.below(3)) {
  case 0: {
    if (g.flip()) rows[at] = junk(g);
    else rows[at] += " " + junk(g);
    std::istringstream iv(rows[at]);
    bit_vector_t y(3);
    iv >> y;
    REQUIRE_(c, iv.fail(), "\"" << rows[at] << "\" is read as bits");
    s = lines(g, rows, false, g.flip());
    break;
  }
  case 1:
    if (m < 2) throw Discard();
    rows[at] += " 1";
    s = lines(g, rows, g.flip(), true);
    break;
  default: s = g.pick(std::vector<std::string>{"", "\n", " \n\t\n", "# only a comment\n"});
  }
  c.log << "\"" << s << "\"";
  std::istringstream is(s);
  bit_matrix_t x;
  is >> x;
  REQUIRE_(c, is.fail(), "the matrix is accepted");
  Scratch f(s);
  bit_matrix_t y(2, 2);
  REQUIRE_(c, !y.load_from_file(f.name()), "the matrix is accepted from a file");
  unlink(f.name());
  REQUIRE_(c, !y.load_from_file(f.name()), "a matrix is read from no file");
}

template <class F> void any_type(Gen &g, Ctx &c, F f) {
  int t = (int)g.below(T_COUNT + 1);
  if ((t == T_F2NPM || t == T_FPNPM || t == T_F2NPR || t == T_FPPR || t == T_FPNP) && g.chance(5, 6)) t = (int)g.below(T_F2NP);
  if (t == T_COUNT) {
    c.label("int");
    ZZ z;
    z.gen = 100000;
    f(IntA{z});
    return;
  }
  c.label(type_name(t));
  PickOpts o;
  o.field = g.flip();
  with_type(t, g, o, f);
}

// lines of text: their words, their end
static void text_lines(Gen &g, Ctx &c) {
  static const std::vector<std::string> seps = {" \t", " ", ":", " \t\n", ",;", ""};
  std::string sep = g.pick(seps), s;
  const std::string chars = "ab7- \t\n:,;\\" + sep + sep;
  for (int n = (int)g.skewed(200); n > 0; n--) s += chars[g.below(chars.size())];
  c.log << "'" << s << "' at '" << sep << "'";
  std::vector<std::string> want;
  std::string w;
  for (char ch : s + (sep.empty() ? "" : sep.substr(0, 1)))
    if (sep.find(ch) != std::string::npos) {
      if (!w.empty()) want.push_back(w);
      w.clear();
    } else w += ch;
  if (!w.empty()) want.push_back(w);
  c.nontrivial = want.size() > 1;
  auto copy = [&] { // so that the sanitizer sees its end
    std::vector<char> v(s.begin(), s.end());
    v.push_back(0);
    v.shrink_to_fit();
    return v;
  };
  auto b = copy();
  REQUIRE_(c, spffl::base::count_tokens(b.data(), sep.c_str()) == (int)want.size(), "counted " << spffl::base::count_tokens(b.data(), sep.c_str()) << " words, not " << want.size());
  REQUIRE_(c, b == copy(), "counting words changed the line");
  int most = (int)g.below(want.size() + 3);
  std::vector<char *> at((size_t)most);
  int n = spffl::base::tokenize(b.data(), sep.c_str(), at.data(), most);
  REQUIRE_(c, n == std::min(most, (int)want.size()), "found " << n << " words, not " << std::min(most, (int)want.size()));
  for (int i = 0; i < n; i++) REQUIRE_(c, at[(size_t)i] == want[(size_t)i], "word " << i << " is '" << at[(size_t)i] << "', not '" << want[(size_t)i] << "'");
  b = copy();
  spffl::base::chomp(b.data());
  std::string t = s;
  if (!t.empty() && t.back() == '\n') t.pop_back();
  REQUIRE_(c, t == b.data(), "chomp leaves '" << b.data() << "'");
  b = copy();
  REQUIRE_(c, spffl::base::is_whitespace_line(b.data()) == (s.find_first_not_of(" \t\n\v\f\r") == std::string::npos), "is_whitespace_line");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C25";
  p.rule_text =
      "Vectors and matrices of int and of the fifteen element types, and packed bit vectors and matrices, of sizes across the "
      "readers' buffer sizes, written and compared with the text of their elements, and read back from string streams, "
      "streams, files, standard input and bracketed text with comments, blank lines, several matrices a stream, "
      "and other spellings of elements; malformed, ragged, empty and missing input. Non-trivial: more than one row and column "
      "(one element for vectors); every malformed input.";
  p.assumptions = {"blanks after the last element of a vector are refused by design"};
  p.add("vectors", 20000, 600000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { VT<std::decay_t<decltype(a)>>(a, g, c).vectors(); }); });
  p.add("matrices", 12000, 400000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { VT<std::decay_t<decltype(a)>>(a, g, c).matrices(); }); });
  p.add("malformed", 30000, 600000, [](Gen &g, Ctx &c) { any_type(g, c, [&](const auto &a) { VT<std::decay_t<decltype(a)>>(a, g, c).malformed(); }); });
  p.add("lines", 20000, 200000, text_lines);
  p.add("packed vectors", 30000, 500000, packed_vectors);
  p.add("packed matrices", 20000, 300000, packed_matrices);
  p.add("packed malformed", 20000, 300000, packed_malformed);
  return engine_main(argc, argv, p);
}
