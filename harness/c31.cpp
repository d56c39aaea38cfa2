// C31: the command line itself: nested commands, refusals, the list of commands.
// NEEDS-SPIFF
#include "clix.h"
#include "clicmd.h"
#include "files.h"
#include <set>
using namespace pbt;
using bind::Words;
using cli::operator+;
using cli::Run;
using cli::shown;

// Every command with arguments it takes: how few may be left of them, and
// whether more are too many. F and G stand for files with a matrix and a
// vector, <F for the matrix on standard input.
struct Line {
  int least;
  bool fixed;
  const char *words;
};
static const Line kLines[] = {
    {1, 0, "z_gcd 4 6"},
    {3, 1, "z_gcd -e 4 6"},
    {1, 0, "z_lcm 4 6"},
    {1, 0, "z_totient 5"},
    {0, 0, "z_test_prime 7"},
    {1, 1, "z_list 1 2 3"},
    {0, 0, "z_factor 10"},
    {1, 0, "z_divisors 10"},
    {2, 0, "z_divisors -mp 10"},
    {1, 0, "spffl::intmath::nth_prime 4"},
    {0, 1, "z_op 3 + 4"},
    {0, 1, "z_mat_op [[1_2][3_4]]"},
    {0, 1, "q_op 1/2 + 3"},
    {0, 1, "q_vec_op [1_2]"},
    {0, 1, "q_mat_op [[1_2][3_4]]"},
    {1, 0, "q_cyclotomic 5"},
    {0, 1, "q_p_op 1,2"},
    {0, 1, "f2_op 1 + 1"},
    {0, 1, "f2_random 3"},
    {0, 1, "f2_vec_op [1_0]"},
    {0, 1, "f2_mat_op [[1_0][1_1]]"},
    {1, 1, "f2_mat_ch_pol F"},
    {2, 1, "f2_mat_random 2 2"},
    {1, 1, "f2_p_list 2"},
    {1, 1, "f2_p_list 2-3"},
    {0, 1, "f2_p_op 5"},
    {0, 0, "f2_p_deg 5 6"},
    {1, 0, "f2_p_gcd 5 6"},
    {3, 1, "f2_p_gcd -e 5 6"},
    {1, 0, "f2_p_lcm 5 6"},
    {1, 0, "f2_p_totient 5 6"},
    {2, 0, "f2_p_test -i 7"},
    {3, 1, "f2_p_find -1 -i 3"},
    {3, 1, "f2_p_find -r -p 3"},
    {0, 0, "f2_p_period 7"},
    {0, 0, "f2_p_factor 5"},
    {0, 0, "f2_p_divisors 5"},
    {0, 0, "f2_p_divisors -mp 5"},
    {2, 0, "f2_p_eval 5 1"},
    {1, 1, "f2_p_random 4"},
    {1, 1, "f2_p_random 4 2"},
    {1, 0, "f2_p_qp 1,2"},
    {0, 1, "f2_p_mat_op [[1_2][3_4]]"},
    {1, 1, "f2_p_comp_mx 7"},
    {2, 1, "f2_pm_list -a 7"},
    {3, 1, "f2_pm_list -m 2 7"},
    {1, 1, "f2_pm_op 7 2"},
    {2, 1, "f2_pm_tbl 7 +"},
    {2, 1, "f2_pm_tbl 7 log"},
    {2, 1, "f2_pm_tbl 7 log:2"},
    {2, 1, "f2_pm_tbl 7 alog:2"},
    {2, 0, "f2_pm_ord 7 2 3"},
    {1, 0, "f2_pm_find_gen 7"},
    {3, 0, "f2_pm_log 7 2 3"},
    {2, 0, "f2_pm_ch_pol 7 2"},
    {2, 0, "f2_pm_min_pol 7 2"},
    {3, 0, "f2_pm_convert 7 13 2"},
    {1, 1, "f2_pm_random 7"},
    {1, 1, "f2_pm_random 7 2"},
    {1, 1, "f2_pm_mat_op 7 [[1_2][3_1]]"},
    {1, 1, "f2_pm_vec_op 7 [1_2]"},
    {3, 1, "f2_pm_mat_solve 7 F G"},
    {2, 1, "f2_pm_mat_ch_pol 7 F"},
    {2, 1, "f2_pm_mat_diagonalizable 7 F"},
    {3, 1, "f2_pm_mat_random 7 2 2"},
    {0, 1, "f2_pr_op 5/3"},
    {1, 1, "f2_pr_random 3"},
    {1, 1, "f2_pr_random 3 2"},
    {0, 1, "f2_pr_mat_op [[1_2][3_1]]"},
    {3, 1, "f2_pr_mat_random 3 2 2"},
    {2, 1, "f2n_p_list 7 2"},
    {1, 1, "f2n_p_op 7 1:2"},
    {1, 1, "f2n_p_mat_op 7 [[1_2][3_1]]"},
    {1, 0, "f2n_p_deg 7 1:2"},
    {3, 1, "f2n_p_gcd 7 1:2 1:3"},
    {4, 1, "f2n_p_gcd -e 7 1:2 1:3"},
    {2, 0, "f2n_p_lcm 7 1:2 1:3"},
    {2, 0, "f2n_p_totient 7 1:2:1"},
    {1, 0, "f2n_p_test 7 1:2"},
    {3, 1, "f2n_p_find -1 7 2"},
    {3, 1, "f2n_p_find -r 7 2"},
    {1, 0, "f2n_p_factor 7 1:2:3"},
    {2, 0, "f2n_p_divisors 7 1:2:3"},
    {3, 0, "f2n_p_eval 7 1:2 3"},
    {2, 1, "f2n_p_random 7 3"},
    {2, 1, "f2n_p_random 7 3 2"},
    {2, 1, "f2n_p_comp_mx 7 1:2:3"},
    {2, 0, "f2n_p_qp 7 1,2"},
    {3, 1, "f2n_pm_list -a 7 1:2"},
    {2, 1, "f2n_pm_op 7 1:1:2 1:2"},
    {3, 1, "f2n_pm_tbl 7 1:2 +"},
    {3, 1, "f2n_pm_tbl 7 1:2 log"},
    {3, 1, "f2n_pm_tbl 7 1:2 log:2"},
    {3, 0, "f2n_pm_ord 7 1:1:2 1:2"},
    {2, 0, "f2n_pm_find_gen 7 1:1:2"},
    {4, 0, "f2n_pm_log 7 1:2 2 3"},
    {3, 0, "f2n_pm_ch_pol 7 1:1:2 1:2"},
    {3, 0, "f2n_pm_min_pol 7 1:1:2 1:2"},
    {2, 1, "f2n_pm_random 7 1:1:2"},
    {2, 1, "f2n_pm_random 7 1:1:2 3"},
    {2, 1, "f2n_pm_mat_op 7 1:1:2 [[1_2][3_1]]"},
    {2, 1, "f2n_pm_vec_op 7 1:1:2 [1_2]"},
    {4, 1, "f2n_pm_mat_random 7 1:1:2 2 2"},
    {1, 1, "f2n_pr_op 7 1:2/1:3"},
    {1, 1, "f2n_pr_mat_op 7 [[1_2][3_1]]"},
    {2, 1, "fp_list -a 7"},
    {3, 1, "fp_list -m 2 8"},
    {1, 1, "fp_op 7 2 + 3"},
    {2, 1, "fp_tbl 7 +"},
    {2, 1, "fp_tbl 7 log"},
    {2, 1, "fp_tbl 7 log:3"},
    {2, 1, "fp_tbl 7 alog:3"},
    {2, 0, "fp_ord 7 2 3"},
    {1, 1, "fp_max_ord 7"},
    {2, 1, "fp_orbit 7 2"},
    {2, 1, "fp_orbit 7 2 3"},
    {1, 0, "fp_find_gen 7 11"},
    {3, 0, "fp_log 7 3 2"},
    {1, 1, "fp_random 7"},
    {1, 1, "fp_random 7 3"},
    {1, 1, "fp_mat_op 7 [[1_2][3_1]]"},
    {1, 1, "fp_vec_op 7 [1_2]"},
    {2, 1, "fp_mat_ch_pol 7 F"},
    {3, 1, "fp_mat_random 7 2 2"},
    {2, 1, "fp_p_list 3 2"},
    {1, 1, "fp_p_op 3 12"},
    {1, 1, "fp_p_mat_op 3 [[1_2][2_1]]"},
    {2, 1, "fp_p_comp_mx 3 112"},
    {1, 0, "fp_p_deg 3 112"},
    {3, 1, "fp_p_gcd 3 11 12"},
    {4, 1, "fp_p_gcd -e 3 11 12"},
    {2, 0, "fp_p_lcm 3 11 12"},
    {2, 0, "fp_p_totient 3 112"},
    {1, 0, "fp_p_test 3 112"},
    {3, 1, "fp_p_find -1 3 2"},
    {3, 1, "fp_p_find -r 3 2"},
    {1, 0, "fp_p_factor 3 112"},
    {2, 0, "fp_p_divisors 3 112"},
    {3, 0, "fp_p_eval 3 112 2"},
    {2, 1, "fp_p_random 3 3"},
    {2, 1, "fp_p_random 3 3 3"},
    {2, 0, "fp_p_qp 3 1,2"},
    {3, 1, "fp_pm_list -a 3 112"},
    {2, 1, "fp_pm_op 3 112 12"},
    {3, 1, "fp_pm_tbl 3 112 +"},
    {3, 1, "fp_pm_ord 3 112 12"},
    {3, 0, "fp_pm_ch_pol 3 112 12"},
    {3, 0, "fp_pm_min_pol 3 112 12"},
    {2, 1, "fp_pm_random 3 112"},
    {2, 1, "fp_pm_random 3 112 2"},
    {2, 1, "fp_pm_mat_op 3 112 [[1_2][2_1]]"},
    {2, 1, "fp_pm_vecop 3 112 [1_2]"},
    {4, 1, "fp_pm_mat_random 3 112 2 2"},
    {1, 1, "fp_pr_op 3 12/11"},
    {1, 1, "fp_pr_mat_op 3 [[1_2][2_1]]"},
    {2, 1, "fpn_p_op 3 112 1:2"},
    {2, 1, "fpn_p_mat_op 3 112 [[1_2][2_1]]"},
    {4, 1, "fpn_p_gcd 3 112 1:2 1:1"},
    {5, 1, "fpn_p_gcd -e 3 112 1:2 1:1"},
    {3, 0, "fpn_p_qp 3 112 1,2"},
    {3, 1, "fpn_pm_op 3 112 1:1:12 1:2"},
    {3, 1, "fpn_pm_mat_op 3 112 1:1:12 [[1_2][2_1]]"},
    {0, 1, "f2_mat_ord <F"},
    {1, 1, "fp_mat_ord 7 <F"},
    {1, 1, "f2_pm_mat_ord 7 <F"},
    {2, 1, "fp_pm_mat_ord 3 112 <F"},
};
static const size_t kNumLines = sizeof kLines / sizeof *kLines;
static const char *kMatrix = "1 0\n1 1\n", *kVector = "1 1\n";

struct Ready {
  Words w;
  std::string in;
  std::vector<size_t> files; // words which name files
};
static Ready ready(const Line &l, Files &f) {
  Ready r;
  std::istringstream is(l.words);
  std::string s;
  while (is >> s) {
    if (s == "<F") {
      r.in = kMatrix;
      continue;
    }
    if (s == "F" || s == "G") {
      r.files.push_back(r.w.size());
      s = f.add(s == "F" ? kMatrix : kVector);
    } else if (s[0] == '[')
      for (char &ch : s)
        if (ch == '_') ch = ' ';
    r.w.push_back(s);
  }
  return r;
}
static bool takes_random(const std::string &cmd) { return cmd.find("random") != std::string::npos || cmd == "f2_pm_convert" || cmd.find("_find") != std::string::npos; }
static bool is_op(const std::string &cmd) { return cmd.size() > 3 && (cmd.substr(cmd.size() - 3) == "_op" || cmd == "fp_pm_vecop"); }

static void refused(Ctx &c, const Run &r) {
  cli::sane(c, r);
  REQUIRE_(c, r.rc == 1, "status " << r.rc << ", not 1; it printed '" << r.out.substr(0, 200) << "' and '" << r.err.substr(0, 200) << "'");
  REQUIRE_(c, !r.err.empty(), "it refuses without a word");
}

// ---------------------------------------------------------------- nesting
// What the outermost pair of braces does, from its description: the command
// inside is run and the words of its output take its place.
struct Eval {
  Ctx &c;
  std::string err;
  int runs = 0;
  explicit Eval(Ctx &cc) : c(cc) {}
  Run flat(const Words &w) {
    if (++runs > 40) throw Discard();
    guard(w);
    Run r = cli::run(w);
    cli::sane(c, r);
    return r;
  }
  // keep clear of overflow and of long searches
  static void guard(const Words &w) {
    if (w.empty()) return;
    if (w.size() > 3000) throw Discard();
    if (w[0] == "z_op" || w[0] == "z_lcm") {
      double p = 1;
      for (auto &x : w)
        if (isdigit((unsigned char)x[x.size() > 1 && x[0] == '-' ? 1 : 0])) p *= std::max(1.0, std::fabs(atof(x.c_str())));
      if (p > 2e9) throw Discard();
    } else if (w[0][0] == 'z' || w[0].compare(0, 3, "fp_") == 0) {
      for (auto &x : w)
        if (std::fabs(atof(x.c_str())) > 2147483647.0) throw Discard();
      if (w[0] == "fp_list" && std::fabs(atof(w.back().c_str())) > 3000) throw Discard();
      if (w[0] == "z_list" && w.size() > 2 && atof(w[2].c_str()) > 60) throw Discard();
      if (w[0] == "z_list" && w.size() > 3 && (std::fabs(atof(w[3].c_str())) > 1e6 || std::fabs(atof(w[1].c_str())) > 1e6)) throw Discard();
    } else if (w[0] == "f2_p_list") {
      if (w.size() > 1 && atof(w[1].c_str()) > 8) throw Discard();
      if (w.size() > 1 && w[1].find('-') != std::string::npos) throw Discard();
    } else if (w[0] != "f2_p_deg" && w[0] != "f2_p_gcd" && w[0] != "f2_p_op") {
      for (auto &x : w)
        if (x.size() > 8 && &x != &w[0]) throw Discard();
    }
  }
  Run operator()(Words w) {
    for (;;) {
      size_t l = 0;
      while (l < w.size() && w[l] != "{") l++;
      if (l == w.size()) break;
      size_t r = l + 1;
      for (int depth = 1; r < w.size(); r++) {
        if (w[r] == "{") depth++;
        if (w[r] == "}" && --depth == 0) break;
      }
      Run in = (*this)(Words(w.begin() + (long)l + 1, w.begin() + (long)r));
      Words nw(w.begin(), w.begin() + (long)l);
      std::string s;
      for (char ch : in.out + " ")
        if (ch == ' ' || ch == '\t' || ch == '\n') {
          if (!s.empty()) nw.push_back(s);
          s.clear();
        } else s += ch;
      nw.insert(nw.end(), w.begin() + (long)r + 1, w.end());
      w = nw;
    }
    Run r = flat(w);
    err += r.err;
    r.err = err;
    return r;
  }
};
static bool balanced(const Words &w) {
  int depth = 0;
  for (auto &x : w) {
    if (x == "{") depth++;
    if (x == "}" && --depth < 0) return false;
  }
  return depth == 0;
}
static void same(Ctx &c, const Run &got, const Run &want) {
  REQUIRE_(c, got.rc == want.rc, "status " << got.rc << ", by hand " << want.rc << ": " << got.err.substr(0, 300));
  REQUIRE_(c, got.out == want.out, "it prints '" << got.out.substr(0, 400) << "', by hand '" << want.out.substr(0, 400) << "'");
  REQUIRE_(c, got.err == want.err, "it complains '" << got.err.substr(0, 300) << "', by hand '" << want.err.substr(0, 300) << "'");
}
static Run evaluate(Ctx &c, const Words &w) {
  c.log << "spiff " << shown(w).substr(0, 1500);
  Eval e(c);
  Run want = e(w);
  Run got = cli::run(w, "", 60);
  cli::sane(c, got);
  same(c, got, want);
  return want;
}

// ---------------------------------------------------------------- trees
static Words ints(Gen &g, int depth);
static Words f2s(Gen &g, int depth);
static Words nest(const Words &w) { return Words{"{"} + w + Words{"}"}; }
static Words int_arg(Gen &g, int depth, int most = 40) {
  if (depth > 0 && g.chance(1, 2)) return nest(ints(g, depth - 1));
  return {std::to_string((int)g.skewed((uint64_t)most) + 1)};
}
static Words f2_arg(Gen &g, int depth) {
  if (depth > 0 && g.chance(1, 2)) return nest(f2s(g, depth - 1));
  char b[20];
  snprintf(b, sizeof b, "%x", 1 + (unsigned)g.skewed(2000));
  return {b};
}
static Words many(Gen &g, int depth, int most, Words (*f)(Gen &, int)) {
  Words w;
  for (int n = 1 + (int)g.below((uint64_t)most); n > 0; n--) w = w + f(g, depth);
  return w;
}
static Words some_int(Gen &g, int depth) { return int_arg(g, depth); }
static Words ints(Gen &g, int depth) {
  switch (g.below(8)) {
  case 0: {
    static const std::vector<std::string> ops = {"+", "-", "*", "/", "%"};
    Words w = Words{"z_op"} + int_arg(g, depth) + Words{g.pick(ops)};
    if (g.flip()) return w + Words{"("} + int_arg(g, depth) + Words{g.pick(ops)} + int_arg(g, 0) + Words{")"};
    return w + int_arg(g, depth);
  }
  case 1: {
    Words w = Words{"z_list"} + int_arg(g, depth);
    if (g.flip()) return w;
    w.push_back(std::to_string(g.below(7)));
    if (g.flip()) w.push_back(std::to_string((int)g.below(9) - 4));
    return w;
  }
  case 2: return Words{"z_gcd"} + many(g, depth, 3, some_int);
  case 3: return Words{"z_lcm"} + many(g, depth, 3, some_int);
  case 4: return Words{"z_divisors"} + (g.flip() ? Words{"-mp"} : Words{}) + int_arg(g, depth);
  case 5: return Words{"fp_op", "31"} + int_arg(g, depth) + Words{"*"} + int_arg(g, depth);
  case 6: return Words{"fp_list", "-u"} + int_arg(g, depth, 12);
  default: return Words{"z_op"} + int_arg(g, depth);
  }
}
static Words f2s(Gen &g, int depth) {
  switch (g.below(6)) {
  case 0: return Words{"f2_p_op"} + f2_arg(g, depth) + Words{g.flip() ? "*" : "+"} + f2_arg(g, depth);
  case 1: return Words{"f2_p_gcd"} + many(g, depth, 3, f2_arg);
  case 2: return Words{"f2_p_lcm"} + many(g, depth, 2, f2_arg);
  case 3: return Words{"f2_p_divisors"} + f2_arg(g, depth);
  case 4: return Words{"f2_p_list", std::to_string(g.below(4))};
  default: return Words{"f2_p_op"} + f2_arg(g, depth) + Words{"^"} + int_arg(g, 0, 5);
  }
}
static Words tree(Gen &g) {
  int depth = 1 + (int)g.below(3);
  switch (g.below(8)) {
  case 0: return Words{"z_totient"} + many(g, depth, 3, some_int);
  case 1: return Words{"z_test_prime"} + many(g, depth, 3, some_int);
  case 2: return Words{"z_factor"} + many(g, depth, 2, some_int);
  case 3: return Words{"f2_p_deg"} + many(g, depth, 3, f2_arg);
  case 4: return Words{"f2_p_totient"} + many(g, depth, 2, f2_arg);
  case 5: return Words{"fp_ord", "31"} + many(g, depth, 3, some_int);
  case 6: return f2s(g, depth);
  default: return ints(g, depth);
  }
}
static size_t braces(const Words &w) {
  size_t n = 0;
  for (auto &x : w) n += x == "{";
  return n;
}

static void nested(Gen &g, Ctx &c) {
  Words w = tree(g);
  if (braces(w) == 0 || braces(w) > 9) throw Discard();
  Run r = evaluate(c, w);
  c.nontrivial = r.rc == 0 && braces(w) > 1;
}
// brackets removed, added and moved; other words out of place
static void soup(Gen &g, Ctx &c) {
  Words w = tree(g);
  if (braces(w) > 6) throw Discard();
  static const std::vector<std::string> odd = {"{", "}", "{", "}", "{}", "{x", "}}", "z_list", "3", "nosuch", "-e", "x", "[", "("};
  for (int n = 1 + (int)g.below(3); n > 0; n--) {
    size_t i = (size_t)g.below(w.size() + 1);
    switch (g.below(4)) {
    case 0: w.insert(w.begin() + (long)i, g.pick(odd)); break;
    case 1:
      if (i < w.size()) w.erase(w.begin() + (long)i);
      break;
    case 2:
      if (i < w.size()) std::swap(w[i], w[(size_t)g.below(w.size())]);
      break;
    default: { // a bracket, removed
      std::vector<size_t> at;
      for (size_t k = 0; k < w.size(); k++)
        if (w[k] == "{" || w[k] == "}") at.push_back(k);
      if (!at.empty()) w.erase(w.begin() + (long)g.pick(at));
    }
    }
  }
  if (balanced(w)) {
    if (braces(w) == 0) throw Discard();
    c.label("balanced");
    evaluate(c, w);
    c.nontrivial = true;
    return;
  }
  c.label("unbalanced");
  c.log << "spiff " << shown(w);
  Run r = cli::run(w);
  refused(c, r);
  REQUIRE_(c, r.out.empty(), "it prints '" << r.out << "' for brackets that do not match");
  c.nontrivial = true;
}
// the words of a nested command reach it as they are
static void verbatim(Gen &g, Ctx &c) {
  Files f;
  std::string mark = f.add("");
  unlink(mark.c_str());
  std::vector<std::string> odd = {";", "|", "&", "&&", ">", ">" + mark, "<", "$(touch " + mark + ")", "`touch " + mark + "`", "; touch " + mark + " ;", "touch", mark,
                                  "*", "?", "[a-z]*", "~", "\\", "\\n", "'", "\"", "''", "#", "", " ", "a b", "$HOME", "$$", "!", "%s", "%n", "x'y", "'; touch " + mark + "; '", "(", ")", "=", "\t"};
  static const std::vector<std::string> cmds = {"z_totient", "z_op", "f2_p_deg", "z_gcd", "fp_op", "nosuch", "z_list", "q_op"};
  Words in = {g.pick(cmds)};
  for (int n = 1 + (int)g.below(4); n > 0; n--) in.push_back(g.chance(1, 4) ? "7" : g.pick(odd));
  Words w = Words{"z_totient", "12"} + nest(in) + Words{"10"};
  // a command whose name or argument holds such characters
  if (g.chance(1, 4)) w.insert(w.begin() + (long)g.below(w.size()), g.pick(odd));
  evaluate(c, w);
  REQUIRE_(c, access(mark.c_str(), F_OK) != 0, "a word of a nested command was run by the shell");
  c.nontrivial = true;
}
// lines longer than any buffer
static void long_lines(Gen &g, Ctx &c) {
  Words w;
  if (g.flip()) {
    size_t digits = (g.chance(1, 3) ? 8190 : 4095) + (size_t)g.below(16) - 8;
    int n = (int)(digits - 1) * 4 + (int)g.below(4);
    w = Words{"f2_p_deg", "{", "f2_p_op", "2", "^", std::to_string(n)};
    if (g.flip()) w = w + Words{"+", "b"};
    w = w + Words{"}"};
    if (g.flip()) w = w + Words{"5"};
  } else {
    static const std::vector<std::string> rich = {"735134400", "1102701600", "1396755360", "2095133040", "698377680"};
    w = Words{"f2_p_deg"} + (g.flip() ? Words{"1f"} : Words{}) + Words{"{", "z_divisors"};
    int extra = (int)g.below(4);
    for (int i = 0; i < extra; i++) w.push_back(std::to_string(1 + g.below(5000)));
    w = w + Words{g.pick(rich), "}"};
  }
  Run r = evaluate(c, w);
  REQUIRE_(c, r.rc == 0, "status " << r.rc);
  c.nontrivial = true;
}
// every command takes an argument from a nested one
static void everywhere(Gen &g, Ctx &c) {
  Files f;
  const Line &l = kLines[g.below(kNumLines)];
  Ready r = ready(l, f);
  if (takes_random(r.w[0])) throw Discard();
  std::vector<size_t> at;
  for (size_t i = 1; i < r.w.size(); i++)
    if (r.w[i].find_first_not_of("0123456789") == std::string::npos && r.w[i].size() < 5) at.push_back(i);
  if (at.empty()) throw Discard();
  size_t i = g.pick(at);
  Words in = {"z_op", r.w[i]};
  if (g.flip()) in = Words{"f2_p_op", r.w[i]};
  if (g.chance(1, 4)) in = Words{"z_list", r.w[i]};
  // an inner value of several words
  size_t n = 1;
  if (i + 1 < r.w.size() && i + 1 == at.back() && g.flip()) {
    n = 2;
    int a = atoi(r.w[i].c_str()), b = atoi(r.w[i + 1].c_str());
    in = Words{"z_list", r.w[i], "2", std::to_string(b - a)};
  }
  Words w(r.w.begin(), r.w.begin() + (long)i);
  w = w + nest(in) + Words(r.w.begin() + (long)(i + n), r.w.end());
  c.log << "spiff " << shown(w) << (r.in.empty() ? "" : " < matrix");
  Run want = cli::run(r.w, r.in);
  REQUIRE_(c, want.rc == 0 && want.err.empty(), "spiff " << shown(r.w) << " ends with status " << want.rc << ": " << want.err.substr(0, 300));
  Run got = cli::run(w, r.in);
  cli::sane(c, got);
  // a nested command shares standard input but does not read it
  same(c, got, want);
  c.nontrivial = true;
}

// ---------------------------------------------------------------- refusals
static void malformed(Gen &g, Ctx &c) {
  Files f;
  const Line &l = kLines[g.below(kNumLines)];
  Ready r = ready(l, f);
  Words w = r.w;
  const std::string cmd = w[0];
  bool quiet = false; // nothing may have been printed
  switch (g.below(6)) {
  case 0:
  case 1: { // a word that is no number, polynomial or option
    if (w.size() < 2) throw Discard();
    if (!l.fixed) // after others, well formed
      for (int n = (int)g.below(3); n > 0; n--) w.push_back(w.back());
    size_t i = w.size() > r.w.size() && g.flip() ? w.size() - 1 : 1 + (size_t)g.below(w.size() - 1);
    std::string j;
    if (!g.chance(1, 6)) {
      static const char head[] = "xyz?@", tail[] = "xyz?@!%~;,:0129";
      j += head[g.below(5)];
      for (int n = (int)g.below(5); n > 0; n--) j += tail[g.below(15)];
    }
    w[i] = j;
    c.label("junk");
    break;
  }
  case 2: // too few
    if (l.least == 0) throw Discard();
    w.resize((size_t)g.below((uint64_t)l.least) + 1);
    c.label("too few");
    quiet = true;
    break;
  case 3: // too many
    if (!l.fixed) throw Discard();
    for (int i = 0; i < 6; i++) w.push_back(w.size() > 1 ? w.back() : "1");
    c.label("too many");
    quiet = !is_op(cmd);
    break;
  case 4: { // no such option
    static const std::vector<std::string> opts = {"-x", "-zz", "--", "--help", "-x?", "-Q", "-eeee"};
    w.insert(w.begin() + 1, g.pick(opts));
    c.label("unknown option");
    quiet = true;
    break;
  }
  default: // no such file, or one with nothing to be read
    c.label("file");
    if (!r.files.empty()) {
      size_t i = g.pick(r.files);
      static const std::vector<std::string> bad = {"", "x y\n", "\n", "1 0\n1\n", "1 x\n0 1\n", "[[1 0]"};
      if (g.flip()) w[i] = f.add(g.pick(bad));
      else w[i] += "-nosuch";
    } else if (!r.in.empty()) {
      static const std::vector<std::string> bad = {"x y\n", "\n", "1 0\n1\n", "1 x\n0 1\n", ""};
      r.in = g.pick(bad);
    } else throw Discard();
    quiet = true;
  }
  c.log << "spiff " << shown(w);
  if (!r.in.empty()) c.log << " <<< '" << r.in << "'";
  Run x = cli::run(w, r.in);
  refused(c, x);
  if (quiet) REQUIRE_(c, x.out.empty(), "it prints '" << x.out.substr(0, 200) << "' before it refuses");
  c.nontrivial = true;
}
// other small values anywhere: the program always ends by itself, in time, and
// either works or says why not
static void small_values(Gen &g, Ctx &c) {
  Files f;
  const Line &l = kLines[g.below(kNumLines)];
  Ready r = ready(l, f);
  Words w = r.w;
  if (w.size() < 2) throw Discard();
  static const std::vector<std::string> vals = {"0", "1", "-1", "2", "3", "5", "-7", "7", "1:0", "0:1", "1:1:1", "0/1", "1/0", "[1 2]", "[[1 2][2 1]]", "0,1", "1,0,1"};
  for (int n = 1 + (int)g.below(2); n > 0; n--) w[1 + (size_t)g.below(w.size() - 1)] = g.pick(vals);
  if (w[0].find("list") != std::string::npos || w[0].find("_find") != std::string::npos) // not thousands of polynomials
    for (size_t i = 1; i < w.size(); i++)
      if (atoi(w[i].c_str()) > 5 && w[i] != r.w[i]) throw Discard();
  if (w[0].find("_ch_pol") != std::string::npos || w[0].find("_min_pol") != std::string::npos) // of an element of a field
    for (size_t i = 1; i + 1 < w.size(); i++)
      if (w[i] != r.w[i]) throw Discard();
  c.log << "spiff " << shown(w);
  if (!r.in.empty()) c.log << " < matrix";
  Run x = cli::run(w, r.in);
  cli::sane(c, x);
  REQUIRE_(c, x.rc == 0 || x.rc == 1, "status " << x.rc << ": " << x.err.substr(0, 300));
  // an answer such as "not found" is one, though its status is 1
  if (x.rc == 0) REQUIRE_(c, x.err.empty(), "it works but complains: " << x.err.substr(0, 300));
  else REQUIRE_(c, !x.err.empty() || !x.out.empty(), "it fails without a word");
  c.nontrivial = x.rc == 0;
  c.label(x.rc ? "refused" : "works");
}

// ---------------------------------------------------------------- the list
static Words listed(Ctx &c) {
  Run r = cli::run({"-l"});
  cli::sane(c, r);
  REQUIRE_(c, r.rc == 0 && r.err.empty(), "-l ends with status " << r.rc);
  Words v;
  std::istringstream is(r.out);
  std::string l;
  bool group = false;
  while (std::getline(is, l)) {
    REQUIRE_(c, !l.empty(), "-l prints an empty line");
    if (l.compare(0, 2, "  ") == 0) {
      REQUIRE_(c, group, "a command before the first group");
      v.push_back(l.substr(2));
    } else {
      REQUIRE_(c, l.back() == ':', "-l prints '" << l << "'");
      group = true;
    }
  }
  return v;
}
static void commands(Gen &g, Ctx &c) {
  Words v = listed(c);
  std::set<std::string> s(v.begin(), v.end());
  REQUIRE_(c, s.size() == v.size(), "-l lists a command twice");
  const Line &l = kLines[g.below(kNumLines)];
  Files f;
  Ready r = ready(l, f);
  REQUIRE_(c, s.count(r.w[0]), r.w[0] << " is not listed");
  // what is listed can be called
  std::string name = g.pick(v);
  c.log << r.w[0] << ", " << name;
  Run x = cli::run({name});
  cli::sane(c, x);
  REQUIRE_(c, (x.rc == 0 || x.rc == 1) && x.err.find("not found") == std::string::npos, name << " is listed but: " << x.err.substr(0, 200));
  // with arguments that it takes, it works
  x = cli::run(r.w, r.in);
  cli::sane(c, x);
  REQUIRE_(c, x.rc == 0 && x.err.empty(), "spiff " << shown(r.w) << ": status " << x.rc << ": " << x.err.substr(0, 200));
  c.nontrivial = true;
  // what is not listed cannot
  std::string no = g.pick(v);
  switch (g.below(5)) {
  case 0: no.pop_back(); break;
  case 1: no += (char)('a' + g.below(26)); break;
  case 2: no = " " + no; break;
  case 3: no[g.below(no.size())] = (char)('A' + g.below(26)); break;
  default: no = no.substr(1);
  }
  if (s.count(no) || no == "-l" || no == "{" || no == "}") return;
  Words w = {no};
  if (g.flip()) w = w + Words(r.w.begin() + 1, r.w.end());
  c.log << ", not " << shown(w);
  x = cli::run(w);
  refused(c, x);
  REQUIRE_(c, x.out.empty(), "an unknown command prints '" << x.out.substr(0, 200) << "'");
  REQUIRE_(c, x.err.find(no) != std::string::npos, "the message does not name the command: " << x.err.substr(0, 200));
  x = cli::run({});
  refused(c, x);
  REQUIRE_(c, x.out.empty(), "no command prints '" << x.out.substr(0, 200) << "'");
}

int main(int argc, char **argv) {
  // words read from a nested command live until the program ends
  const char *o = getenv("ASAN_OPTIONS");
  setenv("ASAN_OPTIONS", ((o ? std::string(o) + ":" : std::string()) + "detect_leaks=0").c_str(), 1);
  Property p;
  p.id = "C31";
  p.rule_text =
      "Trees of nested commands up to four deep against the same commands run one by one with their output's words put in place "
      "(status, output and complaints); brackets that do not match; nested words with shell characters; output lines around and "
      "above 4096 and 8192 characters; an argument of every command from a nested one; every command with junk words, too few and "
      "too many arguments, unknown options, unreadable files and standard input, and with other small values; the list of commands. "
      "Non-trivial: more than one nested command, or a refusal that was checked, or a command that works.";
  p.assumptions = {"values near the limits of int and searches that would take long are left out", "elements have characteristic polynomials over an irreducible modulus"};
  p.add("nested", 240, 2500, nested);
  p.add("brackets", 320, 3000, soup);
  p.add("verbatim", 160, 2000, verbatim);
  p.add("long-lines", 32, 300, long_lines);
  p.add("every-command", 600, 6000, everywhere);
  p.add("malformed", 2400, 20000, malformed);
  p.add("small-values", 1800, 20000, small_values);
  p.add("commands", 600, 4000, commands);
  return engine_main(argc, argv, p);
}
