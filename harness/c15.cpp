// C15: packed bit vectors and matrices.
#include "polyx.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/bits/count_bits.h"
using namespace bind;
using namespace pbt;
using spffl::bits::bit_matrix_t;
using spffl::bits::bit_vector_t;
typedef std::vector<u64> BV;
typedef Mat<Zn> MM;
typedef MM::E BM;
static MM mm{Zn{2}};

static std::string sv(const BV &v) {
  std::string s;
  for (auto b : v) s += (char)('0' + b);
  return s;
}
static std::string sm(const BM &m) {
  std::string s = "[";
  for (size_t i = 0; i < m.size(); i++) s += (i ? " " : "") + sv(m[i]);
  return s + "]";
}
static bit_vector_t mk(const BV &v) {
  bit_vector_t x((int)v.size());
  for (size_t i = 0; i < v.size(); i++)
    if (v[i]) x.set((int)i, 1);
  return x;
}
static bit_matrix_t mkm(const BM &m) {
  bit_matrix_t x((int)m.size(), (int)m[0].size());
  for (size_t i = 0; i < m.size(); i++) x[(int)i] = mk(m[i]);
  return x;
}
static int gen_len(Gen &g) {
  switch (g.below(6)) {
  case 0: case 1: return 1 + (int)g.below(8);
  case 2: return 60 + (int)g.below(10);
  case 3: return 64 * (1 + (int)g.below(3));
  case 4: return 124 + (int)g.below(10);
  default: return g.chance(1, 12) ? 193 + (int)g.below(700) : 1 + (int)g.skewed(200);
  }
}
static BV gen_bits(Gen &g, size_t n) {
  BV v(n, 0);
  switch (g.below(4)) {
  case 0: break;
  case 1: for (auto &b : v) b = g.below(2); break;
  case 2: for (auto &b : v) b = 1; break;
  case 3: {
    size_t k = 1 + (size_t)g.below(3);
    while (k--) v[(size_t)g.below(n)] = 1;
    break;
  }
  }
  return v;
}
static void check_v(Ctx &c, bit_vector_t &x, const BV &v, const std::string &what) {
  c.compared++;
  if (x.get_num_elements() != (int)v.size())
    fail(what + ": length " + std::to_string(x.get_num_elements()) + ", not " + std::to_string(v.size()));
  BV got;
  for (size_t i = 0; i < v.size(); i++) {
    got.push_back((u64)x.get_int((int)i));
    if (x.get_bit((int)i) != (int)got.back()) fail(what + ": get_bit differs at " + std::to_string(i));
    if (x.get((int)i).get_residue() != (int)got.back()) fail(what + ": get and get_int differ at " + std::to_string(i));
  }
  if (got != v) fail(what + ": " + sv(got) + ", not " + sv(v));
  // bits past the end must stay clear: equality, zero tests and products rely on it
  bool zero = true;
  for (auto b : v) zero = zero && !b;
  if (x.is_zero() != zero) fail(what + ": is_zero says " + std::to_string(x.is_zero()) + " for " + sv(v));
  bit_vector_t fresh = mk(v);
  if (!(x == fresh) || x != fresh) fail(what + ": differs from a fresh vector with the same elements " + sv(v));
}
static void check_m(Ctx &c, const bit_matrix_t &y, const BM &m, const std::string &what) {
  bit_matrix_t &x = const_cast<bit_matrix_t &>(y);
  c.compared++;
  if (x.get_num_rows() != (int)m.size() || x.get_num_cols() != (int)m[0].size())
    fail(what + ": " + std::to_string(x.get_num_rows()) + "x" + std::to_string(x.get_num_cols()) + ", not " +
         std::to_string(m.size()) + "x" + std::to_string(m[0].size()));
  for (size_t i = 0; i < m.size(); i++) check_v(c, x[(int)i], m[i], what + " row " + std::to_string(i));
}

static void vec_history(Gen &g, Ctx &c) {
  const size_t R = 4;
  std::vector<bit_vector_t> x;
  std::vector<BV> e;
  int len = gen_len(g);
  for (size_t i = 0; i < R; i++) {
    size_t n = (size_t)(g.chance(1, 5) ? gen_len(g) : len);
    BV v;
    switch (g.below(4)) {
    case 0: v = BV(n, 0); x.push_back(bit_vector_t((int)n)); break;
    case 1: v = BV(n, g.below(2)); x.push_back(bit_vector_t(bit_t((int)v[0]), (int)n)); break;
    case 2: v = BV(n, g.below(2)); x.push_back(bit_vector_t((int)v[0], (int)n)); break;
    case 3: v = gen_bits(g, n); x.push_back(mk(v)); break;
    }
    e.push_back(v);
    c.log << " r" << i << "=" << sv(v);
  }
  int steps = 1 + (int)g.below(14), done = 0;
  for (int s = 0; s < steps; s++) {
    size_t d = (size_t)g.below(R), i = (size_t)g.below(R), j = (size_t)g.below(R);
    bool eqlen = e[i].size() == e[j].size(), deqlen = e[d].size() == e[i].size();
    int op = (int)g.below(22);
    std::string r = " r" + std::to_string(d) + ",r" + std::to_string(i) + ",r" + std::to_string(j);
    std::string t;
    auto combine = [&](const BV &a, const BV &b, bool times) {
      BV v(a);
      for (size_t k = 0; k < v.size(); k++) v[k] = times ? v[k] & b[k] : v[k] ^ b[k];
      return v;
    };
    switch (op) {
    case 0: case 1: case 2: {
      t = std::string(op == 0 ? "add" : op == 1 ? "subtract" : "multiply") + r;
      c.log << "; " << t;
      auto f = [&]() { return op == 0 ? x[i] + x[j] : op == 1 ? x[i] - x[j] : x[i] * x[j]; };
      if (!eqlen) {
        c.label("refused lengths");
        REQUIRE_(c, refuses([&]() { f(); }), t << ": lengths " << e[i].size() << " and " << e[j].size() << " not refused");
        break;
      }
      BV v = combine(e[i], e[j], op == 2);
      x[d] = f();
      e[d] = v;
      done++;
      break;
    }
    case 3: case 4: case 5: case 6: {
      t = std::string(op == 3 ? "+=" : op == 4 ? "-=" : op == 5 ? "*=" : "accum_row") + r;
      c.log << "; " << t;
      auto f = [&]() {
        if (op == 3) x[d] += x[i];
        else if (op == 4) x[d] -= x[i];
        else if (op == 5) x[d] *= x[i];
        else x[d].accum_row(x[i]);
      };
      if (!deqlen) {
        c.label("refused lengths");
        REQUIRE_(c, refuses(f), t << " not refused");
        break;
      }
      e[d] = combine(e[d], e[i], op == 5);
      f();
      done++;
      break;
    }
    case 7: {
      int b = (int)g.below(2);
      t = "scale by " + std::to_string(b) + r;
      c.log << "; " << t;
      BV v = b ? e[i] : BV(e[i].size(), 0);
      if (g.flip()) {
        x[d] = x[i] * bit_t(b);
        e[d] = v;
      } else {
        x[i] *= bit_t(b);
        e[i] = v;
      }
      break;
    }
    case 8: {
      t = "dot" + r;
      c.log << "; " << t;
      if (!eqlen) {
        REQUIRE_(c, refuses([&]() { x[i].dot(x[j]); }), t << " not refused");
        break;
      }
      u64 v = 0;
      for (size_t k = 0; k < e[i].size(); k++) v ^= e[i][k] & e[j][k];
      int got = x[i].dot(x[j]).get_residue();
      REQUIRE_(c, got == (int)v, t << " is " << got << " not " << v);
      done++;
      break;
    }
    case 9: {
      t = "assign" + r;
      c.log << "; " << t;
      x[d] = x[i];
      e[d] = BV(e[i]);
      break;
    }
    case 10: {
      t = "swap" + r;
      c.log << "; " << t;
      if (!deqlen) {
        REQUIRE_(c, refuses([&]() { x[d].ptrswap(x[i]); }), t << " not refused");
        break;
      }
      x[d].ptrswap(x[i]);
      std::swap(e[d], e[i]);
      break;
    }
    case 11: case 12: {
      int n = (int)e[d].size();
      int k = g.chance(1, 4) ? (int)g.range(-2, n + 70) : (int)g.below((u64)n);
      int b = (int)g.below(2);
      int how = (int)g.below(3);
      t = "element " + std::to_string(k) + (how == 2 ? " toggled" : " := " + std::to_string(b)) + r;
      c.log << "; " << t;
      auto f = [&]() {
        if (how == 0) x[d].set(k, b);
        else if (how == 1) x[d].set(k, bit_t(b));
        else x[d].toggle_element(k);
      };
      if (k < 0 || k >= n) {
        c.label("refused index");
        REQUIRE_(c, refuses(f), t << ": length " << n << " not refused");
        REQUIRE_(c, refuses([&]() { x[d].get(k); }) && refuses([&]() { x[d].get_int(k); }), t << ": reading not refused");
        break;
      }
      f();
      e[d][(size_t)k] = how == 2 ? !e[d][(size_t)k] : (u64)b;
      done++;
      break;
    }
    case 13: {
      t = "leader" + r;
      c.log << "; " << t;
      int pos = -7;
      bool any = x[d].find_leader_pos(pos);
      size_t k = 0;
      while (k < e[d].size() && !e[d][k]) k++;
      REQUIRE_(c, any == (k < e[d].size()), t << ": found " << any << " in " << sv(e[d]));
      if (any) REQUIRE_(c, pos == (int)k, t << ": " << pos << " in " << sv(e[d]));
      break;
    }
    case 14: {
      t = "compare" + r;
      bool same = e[i] == e[j];
      REQUIRE_(c, (x[i] == x[j]) == same && (x[i] != x[j]) == !same, t << ": == gives " << (x[i] == x[j]));
      for (int b = 0; b < 2; b++) {
        bool all = true;
        for (auto k : e[d]) all = all && (int)k == b;
        REQUIRE_(c, (x[d] == bit_t(b)) == all && (x[d] != bit_t(b)) == !all, t << ": == scalar " << b << " for " << sv(e[d]));
      }
      break;
    }
    case 15: {
      int b = (int)g.below(2);
      t = "fill with " + std::to_string(b) + r;
      c.log << "; " << t;
      x[d] = bit_t(b);
      e[d] = BV(e[d].size(), (u64)b);
      break;
    }
    case 16: {
      t = "copy, change the copy" + r;
      c.log << "; " << t;
      bit_vector_t y(x[i]);
      size_t k = (size_t)g.below(e[i].size());
      y.toggle_element((int)k);
      BV v(e[i]);
      v[k] = !v[k];
      check_v(c, y, v, t);
      break;
    }
    case 17: {
      t = "text" + r;
      c.log << "; " << t;
      std::ostringstream o, sq, cr;
      o << x[i];
      x[i].sqzout(sq);
      x[i].crout(cr);
      std::string wo, wc;
      for (size_t k = 0; k < e[i].size(); k++) {
        wo += (k ? " " : "") + std::to_string(e[i][k]);
        wc += std::to_string(e[i][k]) + "\n";
      }
      REQUIRE_(c, o.str() == wo && sq.str() == sv(e[i]) && cr.str() == wc, t << ": " << o.str() << " / " << sq.str());
      std::istringstream is(o.str());
      is >> x[d];
      REQUIRE_(c, !is.fail(), t << " not read back: " << o.str());
      e[d] = BV(e[i]);
      done++;
      break;
    }
    case 18: {
      t = "fresh" + r;
      e[d] = gen_bits(g, (size_t)(g.flip() ? len : gen_len(g)));
      c.log << "; r" << d << ":=" << sv(e[d]);
      x[d] = mk(e[d]);
      break;
    }
    case 19: {
      t = "default then assign" + r;
      c.log << "; " << t;
      bit_vector_t y;
      REQUIRE_(c, y.get_num_elements() == 0, "an empty vector has elements");
      if (g.flip()) {
        y = x[i];
        check_v(c, y, e[i], t);
      } else {
        int b = (int)g.below(2);
        y = bit_t(b);
        check_v(c, y, BV{(u64)b}, t);
      }
      break;
    }
    case 20: {
      int n = -(int)g.below(3);
      t = "size " + std::to_string(n);
      REQUIRE_(c, refuses([&]() { bit_vector_t y(n); }) && refuses([&]() { bit_vector_t y(1, n); }) &&
          refuses([&]() { bit_vector_t y(bit_t(1), n); }), t << " not refused");
      break;
    }
    case 21: {
      // ring laws among the library's own values
      if (!eqlen || !deqlen) break;
      t = "laws" + r;
      bit_vector_t s = x[j] + x[d];
      bit_vector_t l = x[i] * s, a = x[i] * x[j], b = x[i] * x[d];
      REQUIRE_(c, l == a + b, t << ": u(v+w) != uv+uw");
      REQUIRE_(c, x[i].dot(s) == x[i].dot(x[j]) + x[i].dot(x[d]), t << ": dot not linear");
      break;
    }
    }
    for (size_t k = 0; k < R; k++) check_v(c, x[k], e[k], "after " + t + ", r" + std::to_string(k));
  }
  c.nontrivial = done >= 2 && len > 1;
}

static void gen_shape(Gen &g, size_t &m, size_t &n, bool square) {
  switch (g.below(8)) {
  case 0: m = 1 + (size_t)g.below(12); n = 60 + (size_t)g.below(10); break;
  case 1: m = 1 + (size_t)g.below(4); n = 120 + (size_t)g.below(16); break;
  case 2: m = 30 + (size_t)g.below(6); n = 30 + (size_t)g.below(6); break; // doubles cross a word
  case 3: m = 1 + (size_t)g.below(9); n = 1 + (size_t)g.below(3); break;
  default: m = 1 + (size_t)g.below(7); n = 1 + (size_t)g.below(7); break;
  }
  if (square) n = m = std::min((size_t)34, g.flip() ? m : n);
}
static BM gen_mat(Gen &g, size_t m, size_t n) {
  BM a = mm.random(g, m, n);
  if (m == n && g.chance(1, 3)) {
    // certainly invertible: a product of elementary operations
    a = mm.ident(n);
    for (size_t k = 0; k < 3 * n; k++) {
      size_t i = (size_t)g.below(n), j = (size_t)g.below(n);
      if (i != j)
        for (size_t l = 0; l < n; l++) a[i][l] ^= a[j][l];
    }
  }
  return a;
}
static bool in_span(const BM &basis_rref_src, const BV &v) {
  BM a(basis_rref_src);
  int r0 = mm.rank(a);
  a.push_back(v);
  return mm.rank(a) == r0;
}

// more rows and columns than a word has bits; of any rank
static BM gen_large(Gen &g, size_t &m, size_t &n) {
  auto side = [&]() { return g.chance(1, 3) ? 62 + (size_t)g.below(6) : g.flip() ? 126 + (size_t)g.below(6) : 40 + (size_t)g.below(96); };
  m = side();
  n = g.flip() ? m : side();
  if (g.flip()) return gen_mat(g, m, n);
  size_t r = g.flip() ? 1 + (size_t)g.below(std::min(m, n)) : std::min(m, n);
  BM a = mm.mul(mm.random(g, m, r), mm.random(g, r, n));
  if (g.flip()) // leading zero columns
    for (size_t j = 0; j < n / 2; j++)
      if (g.below(4))
        for (size_t i = 0; i < m; i++) a[i][j] = 0;
  return a;
}
static void mat_algebra(Gen &g, Ctx &c, bool large) {
  size_t m, n;
  if (!large) gen_shape(g, m, n, g.flip());
  BM a = large ? gen_large(g, m, n) : gen_mat(g, m, n);
  c.log << sm(a);
  bit_matrix_t x = mkm(a);
  int rank;
  BM rr = mm.rref(a, &rank);
  c.nontrivial = rank > 0 && m > 1 && n > 1;
  c.label(rank < (int)std::min(m, n) ? "rank-deficient" : "full rank");
  REQUIRE_(c, x.get_rank() == rank, "rank " << x.get_rank() << ", not " << rank);
  bit_matrix_t y(x);
  y.row_echelon_form();
  check_m(c, y, rr, "reduced echelon form");
  REQUIRE_(c, y.get_rank_rr() == rank, "rank of the reduced matrix " << y.get_rank_rr());
  bit_matrix_t z(x);
  z.row_reduce_below();
  {
    // upper staircase with the same row space
    BM q;
    int last = -1;
    bool zeros = false;
    for (size_t i = 0; i < m; i++) {
      BV row;
      for (size_t j = 0; j < n; j++) row.push_back((u64)z[(int)i].get_int((int)j));
      size_t k = 0;
      while (k < n && !row[k]) k++;
      if (k == n) zeros = true;
      else {
        REQUIRE_(c, !zeros && (int)k > last, "not a staircase at row " << i);
        last = (int)k;
      }
      q.push_back(row);
    }
    REQUIRE_(c, mm.eq(mm.rref(q), rr), "row reduction changed the row space: " << sm(q));
    REQUIRE_(c, z.get_rank_rr() == rank, "rank of the row-reduced matrix " << z.get_rank_rr());
  }
  check_m(c, x, a, "the matrix after queries");
  bit_matrix_t kb;
  bool any = x.get_kernel_basis(kb);
  REQUIRE_(c, any == (rank < (int)n), "kernel found: " << any << " with rank " << rank << " of " << n);
  if (any) {
    REQUIRE_(c, kb.get_num_rows() == (int)n - rank && kb.get_num_cols() == (int)n,
        "kernel basis is " << kb.get_num_rows() << "x" << kb.get_num_cols());
    BM k;
    for (int i = 0; i < kb.get_num_rows(); i++) {
      BV v;
      for (size_t j = 0; j < n; j++) v.push_back((u64)kb[i].get_int((int)j));
      for (auto b : mm.mulv(a, v)) REQUIRE_(c, b == 0, "kernel vector " << sv(v) << " is not in the kernel");
      k.push_back(v);
    }
    REQUIRE_(c, mm.rank(k) == (int)n - rank, "kernel basis is dependent: " << sm(k));
    x.check_kernel_basis(kb);
  }
  // a vector outside the kernel must be noticed by the checker
  if (rank > 0) {
    BM w{BV(n, 0)};
    for (size_t j = 0; j < n; j++)
      for (size_t i = 0; i < m; i++)
        if (a[i][j]) w[0] = BV(n, 0), w[0][j] = 1;
    bit_matrix_t bad = mkm(w);
    REQUIRE_(c, refuses([&]() { x.check_kernel_basis(bad); }), "check_kernel_basis accepted " << sm(w));
  }
  bit_matrix_t inv;
  if (m != n) {
    REQUIRE_(c, refuses([&]() { x.det(); }), "determinant of a non-square matrix not refused");
    REQUIRE_(c, refuses([&]() { x.inverse(inv); }), "inverse of a non-square matrix not refused");
    REQUIRE_(c, refuses([&]() { x.make_I(); }) && refuses([&]() { x.exp(2, inv); }) && refuses([&]() { x + bit_t(1); }) &&
        refuses([&]() { x - bit_t(1); }), "identity, power or diagonal sum of a non-square matrix not refused");
    REQUIRE_(c, !x.is_square() && !x.is_I(), "non-square matrix called square");
    return;
  }
  REQUIRE_(c, x.is_square(), "square matrix not called square");
  int det = x.det().get_residue();
  REQUIRE_(c, det == (rank == (int)n), "determinant " << det << " with rank " << rank);
  bit_t sc;
  bit_matrix_t z2(x);
  z2.row_reduce_below_with_scalar(sc);
  REQUIRE_(c, sc == bit_t(1), "row reduction scalar " << sc);
  bool ok = x.inverse(inv);
  REQUIRE_(c, ok == (rank == (int)n), "inverse found: " << ok);
  if (ok) {
    BM iv;
    mm.inverse(a, iv);
    check_m(c, inv, iv, "inverse");
    x.check_inverse(inv);
    if (n > 1) {
      bit_matrix_t bad(inv);
      bad[(int)g.below(n)].toggle_element((int)g.below(n));
      REQUIRE_(c, refuses([&]() { x.check_inverse(bad); }), "check_inverse accepted a wrong inverse");
    }
  }
  // powers
  int p = large ? (int)g.below(8) : g.chance(1, 6) ? (int)g.below(1u << 30) : (int)g.skewed(20);
  bool neg = g.flip();
  c.log << " ^" << (neg ? -p : p);
  bit_matrix_t pw(5, 3);
  int did = x.exp(neg ? -p : p, pw);
  bool want = (p > 0 && !neg) || rank == (int)n;
  REQUIRE_(c, (did != 0) == want, "power " << (neg ? -p : p) << " with rank " << rank << ": returned " << did);
  if (want) {
    BM b = a, r = mm.ident(n);
    if (neg) mm.inverse(a, b);
    for (int k = p; k; k >>= 1) {
      if (k & 1) r = mm.mul(r, b);
      if (k > 1) b = mm.mul(b, b);
    }
    check_m(c, pw, r, "power");
  }
  check_m(c, x, a, "the matrix after the queries");
}

static void mat_history(Gen &g, Ctx &c) {
  const size_t R = 4;
  std::vector<bit_matrix_t> x;
  std::vector<BM> e;
  size_t m0, n0;
  gen_shape(g, m0, n0, g.chance(2, 3));
  for (size_t i = 0; i < R; i++) {
    size_t m = m0, n = n0;
    if (g.chance(1, 6)) gen_shape(g, m, n, false);
    BM a;
    switch (g.below(5)) {
    case 0: a = mm.make(m, n); x.push_back(bit_matrix_t((int)m, (int)n)); break;
    case 1: a = BM(m, BV(n, g.below(2))); x.push_back(bit_matrix_t(bit_t((int)a[0][0]), (int)m, (int)n)); break;
    case 2: a = BM(m, BV(n, g.below(2))); x.push_back(bit_matrix_t((int)a[0][0], (int)m, (int)n)); break;
    default: a = gen_mat(g, m, n); x.push_back(mkm(a)); break;
    }
    e.push_back(a);
    c.log << " A" << i << "=" << sm(a);
  }
  auto dim = [&](size_t i, size_t j) { return e[i].size() == e[j].size() && e[i][0].size() == e[j][0].size(); };
  int steps = 1 + (int)g.below(8), done = 0;
  for (int s = 0; s < steps; s++) {
    size_t d = (size_t)g.below(R), i = (size_t)g.below(R), j = (size_t)g.below(R);
    int op = (int)g.below(18);
    std::string r = " A" + std::to_string(d) + ",A" + std::to_string(i) + ",A" + std::to_string(j), t;
    switch (op) {
    case 0: case 1: {
      t = (op ? "subtract" : "add") + r;
      c.log << "; " << t;
      auto f = [&]() { return op ? x[i] - x[j] : x[i] + x[j]; };
      if (!dim(i, j)) {
        REQUIRE_(c, refuses([&]() { f(); }), t << " not refused");
        break;
      }
      BM v = mm.add(e[i], e[j]);
      x[d] = f();
      e[d] = v;
      done++;
      break;
    }
    case 2: case 3: {
      t = (op == 3 ? "-=" : "+=") + r;
      c.log << "; " << t;
      auto f = [&]() {
        if (op == 3) x[d] -= x[i];
        else x[d] += x[i];
      };
      if (!dim(d, i)) {
        REQUIRE_(c, refuses(f), t << " not refused");
        break;
      }
      e[d] = mm.add(e[d], e[i]);
      f();
      done++;
      break;
    }
    case 4: case 5: {
      size_t l = op == 5 ? d : i;
      t = (op == 5 ? "*=" : "multiply") + r;
      c.log << "; " << t;
      auto f = [&]() {
        if (op == 5) x[d] *= x[j];
        else x[d] = x[i] * x[j];
      };
      if (e[l][0].size() != e[j].size()) {
        REQUIRE_(c, refuses(f), t << " not refused");
        break;
      }
      BM v = mm.mul(e[l], e[j]);
      f();
      e[d] = v;
      done++;
      break;
    }
    case 6: {
      size_t n = g.chance(1, 5) ? (size_t)gen_len(g) : e[i][0].size();
      BV v = gen_bits(g, n);
      t = "apply to " + sv(v) + r;
      c.log << "; " << t;
      bit_vector_t lv = mk(v);
      if (n != e[i][0].size()) {
        REQUIRE_(c, refuses([&]() { x[i] * lv; }), t << " not refused");
        break;
      }
      bit_vector_t w = x[i] * lv;
      check_v(c, w, mm.mulv(e[i], v), t);
      check_v(c, lv, v, "operand of " + t);
      break;
    }
    case 7: {
      t = "transpose" + r;
      c.log << "; " << t;
      BM v = mm.transpose(e[i]);
      x[d] = x[i].transpose();
      e[d] = v;
      done++;
      break;
    }
    case 8: {
      t = "assign" + r;
      c.log << "; " << t;
      x[d] = x[i];
      e[d] = BM(e[i]);
      break;
    }
    case 9: {
      t = "outer";
      BV u = gen_bits(g, 1 + (size_t)g.below(6)), v = gen_bits(g, (size_t)gen_len(g));
      c.log << "; A" << d << "=outer " << sv(u) << " " << sv(v);
      x[d] = bit_matrix_t::outer(mk(u), mk(v));
      e[d] = mm.make(u.size(), v.size());
      for (size_t a = 0; a < u.size(); a++)
        for (size_t b = 0; b < v.size(); b++) e[d][a][b] = u[a] & v[b];
      break;
    }
    case 10: {
      t = "paste and split" + r;
      c.log << "; " << t;
      if (e[i].size() != e[j].size()) {
        REQUIRE_(c, refuses([&]() { x[i].paste(x[j]); }), t << " not refused");
        break;
      }
      bit_matrix_t p = x[i].paste(x[j]);
      BM w(e[i]);
      for (size_t k = 0; k < w.size(); k++) w[k].insert(w[k].end(), e[j][k].begin(), e[j][k].end());
      check_m(c, p, w, t);
      int col = (int)g.below(w[0].size() + 2);
      bit_matrix_t l, rt;
      c.log << " at " << col;
      if (col == 0 || col >= (int)w[0].size()) {
        REQUIRE_(c, refuses([&]() { p.split(l, rt, col); }), "splitting " << w[0].size() << " columns at " << col << " not refused");
        break;
      }
      p.split(l, rt, col);
      BM wl, wr;
      for (auto &row : w) {
        wl.push_back(BV(row.begin(), row.begin() + col));
        wr.push_back(BV(row.begin() + col, row.end()));
      }
      check_m(c, l, wl, t + ", left");
      check_m(c, rt, wr, t + ", right");
      done++;
      break;
    }
    case 11: {
      size_t a = (size_t)g.below(e[d].size()), b = (size_t)g.below(e[d].size());
      t = "swap rows " + std::to_string(a) + "," + std::to_string(b) + r;
      c.log << "; " << t;
      x[d].swap((int)a, (int)b);
      std::swap(e[d][a], e[d][b]);
      break;
    }
    case 12: {
      size_t a = (size_t)g.below(e[d].size()), b = (size_t)g.below(e[d][0].size());
      t = "toggle " + std::to_string(a) + "," + std::to_string(b) + r;
      c.log << "; " << t;
      x[d][(int)a].toggle_element((int)b);
      e[d][a][b] ^= 1;
      int n = (int)e[d].size();
      REQUIRE_(c, refuses([&]() { x[d][n]; }) && refuses([&]() { x[d][-1]; }), "row " << n << " of " << n << " not refused");
      done++;
      break;
    }
    case 13: {
      t = "compare" + r;
      if (dim(i, j)) {
        bool same = mm.eq(e[i], e[j]);
        REQUIRE_(c, (x[i] == x[j]) == same && (x[i] != x[j]) == !same, t << ": == gives " << (x[i] == x[j]));
      } else
        REQUIRE_(c, refuses([&]() { (void)(x[i] == x[j]); }), t << ": comparing different shapes not refused");
      bool any = false, all = true;
      for (auto &row : e[d])
        for (auto b : row) {
          any = any || b;
          all = all && b;
        }
      REQUIRE_(c, x[d].is_zero() == !any, t << ": is_zero " << x[d].is_zero());
      REQUIRE_(c, (x[d] == bit_t(0)) == !any && (x[d] == bit_t(1)) == all && (x[d] != bit_t(1)) == !all, t << ": == scalar");
      bool id = e[d].size() == e[d][0].size() && mm.eq(e[d], mm.ident(e[d].size()));
      REQUIRE_(c, x[d].is_I() == id, t << ": is_I " << x[d].is_I());
      break;
    }
    case 14: {
      t = "diagonal" + r;
      c.log << "; " << t;
      size_t n = e[d].size();
      if (n != e[d][0].size()) {
        REQUIRE_(c, refuses([&]() { x[d] += bit_t(1); }) && refuses([&]() { x[d] -= bit_t(0); }), t << " not refused");
        break;
      }
      int b = (int)g.below(2);
      switch (g.below(5)) {
      case 0: x[d] += bit_t(b); break;
      case 1: x[d] -= bit_t(b); break;
      case 2: x[d] = x[d] + bit_t(b); break;
      case 3: x[d] = x[d] - bit_t(b); break;
      case 4: x[d] = -x[d].make_I(); e[d] = mm.ident(n); b = 0; break;
      }
      if (b)
        for (size_t k = 0; k < n; k++) e[d][k][k] ^= 1;
      done++;
      break;
    }
    case 15: {
      int b = (int)g.below(2);
      t = "fill with " + std::to_string(b) + r;
      c.log << "; " << t;
      x[d] = bit_t(b);
      for (auto &row : e[d]) row.assign(row.size(), (u64)b);
      bit_matrix_t y;
      REQUIRE_(c, y.get_num_rows() == 0, "an empty matrix has rows");
      y = bit_t(b);
      check_m(c, y, BM{BV{(u64)b}}, "scalar assigned to an empty matrix");
      y = x[d];
      check_m(c, y, e[d], "copy assigned");
      break;
    }
    case 16: {
      t = "text" + r;
      std::ostringstream o;
      o << x[i];
      std::string want;
      for (auto &row : e[i]) {
        for (size_t k = 0; k < row.size(); k++) want += (k ? " " : "") + std::to_string(row[k]);
        want += "\n";
      }
      REQUIRE_(c, o.str() == want, t << ": " << o.str());
      std::istringstream is(o.str());
      is >> x[d];
      REQUIRE_(c, !is.fail(), t << " not read back");
      e[d] = BM(e[i]);
      break;
    }
    case 17: {
      t = "fresh" + r;
      size_t m, n;
      gen_shape(g, m, n, g.flip());
      if (g.flip()) m = m0, n = n0;
      e[d] = gen_mat(g, m, n);
      c.log << "; A" << d << ":=" << sm(e[d]);
      x[d] = mkm(e[d]);
      break;
    }
    }
    for (size_t k = 0; k < R; k++) check_m(c, x[k], e[k], "after " + t + ", A" + std::to_string(k));
  }
  c.nontrivial = done >= 2;
}

static void bit_counts(Gen &g, Ctx &c) {
  size_t n = 1 + (size_t)g.skewed(40);
  std::vector<unsigned char> b(n);
  int ones = 0;
  for (auto &x : b) {
    x = (unsigned char)g.below(256);
    for (int k = 0; k < 8; k++) ones += x >> k & 1;
  }
  c.log << n << " bytes";
  for (auto x : b) c.log << " " << (int)x;
  c.nontrivial = ones > 0;
  int got = spffl::bits::count_one_bits(b.data(), (int)n);
  REQUIRE_(c, got == ones, "ones " << got << ", not " << ones);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C15";
  p.rule_text =
      "Histories over four bit vectors (lengths 1..200 and some to 892, concentrated at multiples of 64) or four bit matrices (up to 35x35, "
      "9x70 or 4x135; up to 135x135 in the algebra) through every operation of the class, mismatched shapes and bad indices included, compared after each "
      "step with plain arrays; and reduction, rank, kernel, determinant, inverse and powers of dense, sparse, rank-deficient "
      "and planted invertible matrices against a model. Non-trivial: at least two changing steps, or a non-zero matrix with "
      "more than one row and column.";
  p.assumptions = {"matrices of different shapes are not comparable", "the trivial power of a singular matrix is refused by design"};
  p.add("vector-history", 30000, 600000, vec_history);
  p.add("matrix-history", 10000, 200000, mat_history);
  p.add("matrix-algebra", 16000, 400000, [](Gen &g, Ctx &c) { mat_algebra(g, c, false); });
  p.add("matrix-algebra-large", 240, 6000, [](Gen &g, Ctx &c) { mat_algebra(g, c, true); });
  p.add("bit-counts", 20000, 200000, bit_counts);
  (void)in_span;
  return engine_main(argc, argv, p);
}
