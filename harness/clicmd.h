// One command of the program, run and read back line by line.
#ifndef VERIF_CLICMD_H
#define VERIF_CLICMD_H
#include "clix.h"
#include "exprx.h"

namespace cli {
using bind::Words;
inline Words operator+(Words a, const Words &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
// options go between the command and its arguments
inline Words with_options(Words w, const Words &o) {
  w.insert(w.begin() + 1, o.begin(), o.end());
  return w;
}
struct Cmd {
  pbt::Ctx &c;
  Words w;
  Run r;
  std::vector<std::string> lines;
  size_t at = 0;
  Cmd(pbt::Ctx &cc, const Words &ww, const std::string &in = "", int rc = 0) : c(cc), w(ww) {
    c.log << "spiff " << shown(w);
    if (!in.empty()) c.log << " <<< '" << in << "'";
    c.log << "; ";
    r = run(w, in);
    sane(c, r);
    REQUIRE_(c, r.rc == rc, "status " << r.rc << ", not " << rc << "; it printed '" << r.out.substr(0, 300) << "' and '" << r.err.substr(0, 300) << "'");
    if (rc == 0) REQUIRE_(c, r.err.empty(), "it complains: " << r.err.substr(0, 300));
    if (rc == 0) REQUIRE_(c, r.out.empty() || r.out.back() == '\n', "the output does not end with a line: " << r.out.substr(0, 300));
    std::string l;
    for (char ch : r.out)
      if (ch == '\n') {
        lines.push_back(l);
        l.clear();
      } else l += ch;
    while (!lines.empty() && lines.back().empty()) lines.pop_back();
  }
  std::string next() {
    REQUIRE_(c, at < lines.size(), "the output ends after " << lines.size() << " lines");
    return lines[at++];
  }
  void line(const std::string &want) {
    std::string l = next();
    REQUIRE_(c, l == want, "line " << at << " is '" << l << "', not '" << want << "'");
  }
  void end() { REQUIRE_(c, at == lines.size(), "further output: '" << lines[at] << "'"); }
  // the next line, which starts with this
  std::string after(const std::string &want) {
    std::string l = next();
    REQUIRE_(c, l.compare(0, want.size(), want) == 0, "line " << at << " is '" << l << "', which does not start with '" << want << "'");
    return l.substr(want.size());
  }
  template <class A> typename A::M::E value(const A &a, const std::string &s) {
    typename A::M::E e{};
    REQUIRE_(c, bind::unfmt(a, s, e), "'" << s << "' is not the text of an element of " << a.name());
    return e;
  }
  template <class A> typename A::M::E value(const A &a) { return value(a, next()); }
  // rows of a matrix
  template <class A> void matrix(const A &a, const std::vector<std::vector<typename A::M::E>> &want) {
    for (auto &row : want) {
      std::string l = next();
      std::vector<std::string> ws;
      std::string s;
      for (char ch : l + " ")
        if (ch == ' ') {
          if (!s.empty()) ws.push_back(s);
          s.clear();
        } else s += ch;
      REQUIRE_(c, ws.size() == row.size(), "row '" << l << "' has " << ws.size() << " entries, not " << row.size());
      for (size_t j = 0; j < row.size(); j++) {
        auto e = value(a, ws[j]);
        REQUIRE_(c, a.m.eq(e, row[j]), "entry " << j << " of row '" << l << "' is not " << a.m.show(row[j]));
      }
    }
  }
};
// "lo-hi" or one degree
inline std::string range_of(pbt::Gen &g, int lo, int hi) {
  return lo == hi && !g.chance(1, 4) ? std::to_string(lo) : std::to_string(lo) + "-" + std::to_string(hi);
}
} // namespace cli
#endif
