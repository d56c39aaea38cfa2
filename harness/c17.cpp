// C17: linear algebra over fields.
#include "pure.h"
#include "tmatx.h"
using namespace bind;
using namespace pbt;

template <class A> void algebra(Gen &g, Ctx &c, const A &a, size_t md) {
  typedef typename A::T T;
  TM<A> t(a);
  auto &mm = t.mm;
  typedef typename TM<A>::W W;
  typedef typename TM<A>::V V;
  const auto &K = a.m;
  size_t m = 1 + (size_t)g.below(md), n = g.flip() ? m : 1 + (size_t)g.below(md);
  W w = mm.random(g, m, n);
  if (m == n && g.chance(1, 3)) {
    // a permuted triangular matrix: surely invertible, needs row swaps
    w = mm.make(n, n);
    for (size_t i = 0; i < n; i++)
      for (size_t j = i; j < n; j++) {
        w[i][j] = K.random(g);
        if (i == j && K.is_zero(w[i][j])) w[i][j] = K.one();
      }
    for (size_t k = 0; k < n; k++) std::swap(w[(size_t)g.below(n)], w[(size_t)g.below(n)]);
  }
  if (md > 10 && g.flip()) { // of a planned rank
    size_t r = 1 + (size_t)g.below(std::min(m, n));
    w = mm.mul(mm.random(g, m, r), mm.random(g, r, n));
  }
  c.log << a.name() << ": " << mm.show(w);
  auto x = t.mk(w);
  T zero = a.make(K.zero()), one = a.make(K.one());
  int rank;
  W rr = mm.rref(w, &rank);
  c.nontrivial = rank > 0 && m > 1 && n > 1;
  c.label(rank < (int)std::min(m, n) ? "rank-deficient" : "full rank");
  REQUIRE_(c, x.get_rank() == rank, "rank " << x.get_rank() << ", not " << rank);
  auto y = x;
  y.row_echelon_form();
  t.check(c, y, rr, "reduced echelon form");
  REQUIRE_(c, y.get_rank_rr() == rank, "rank of the reduced form " << y.get_rank_rr());
  auto z = x;
  z.row_reduce_below();
  W q = t.get(z, "row-reduced");
  int last = -1;
  bool zeros = false;
  for (size_t i = 0; i < m; i++) {
    size_t k = 0;
    while (k < n && K.is_zero(q[i][k])) k++;
    if (k == n) zeros = true;
    else {
      REQUIRE_(c, !zeros && (int)k > last, "row-reduced matrix is not a staircase: " << mm.show(q));
      REQUIRE_(c, K.eq(q[i][k], K.one()), "row " << i << " is not normalised: " << mm.show(q));
      last = (int)k;
    }
  }
  REQUIRE_(c, mm.eq(mm.rref(q), rr), "row reduction changed the row space: " << mm.show(q));
  tmatrix<T> nz;
  bool any = x.get_rr_non_zero_rows(nz);
  REQUIRE_(c, any == (rank > 0), "non-zero rows found: " << any);
  if (any) {
    REQUIRE_(c, nz.get_num_rows() == rank, "non-zero rows: " << nz.get_num_rows());
    t.check(c, nz, W(q.begin(), q.begin() + rank), "non-zero rows of the row-reduced matrix");
  }
  any = x.get_rech_non_zero_rows(nz);
  REQUIRE_(c, any == (rank > 0), "non-zero echelon rows found: " << any);
  if (any) t.check(c, nz, W(rr.begin(), rr.begin() + rank), "non-zero rows of the echelon form");
  t.check(c, x, w, "the matrix after queries");
  // kernel
  tmatrix<T> kb;
  any = x.get_kernel_basis(kb, zero, one);
  REQUIRE_(c, any == (rank < (int)n), "kernel found: " << any << " with rank " << rank << " of " << n);
  if (any) {
    W k = t.get(kb, "kernel basis");
    REQUIRE_(c, (int)k.size() == (int)n - rank && k[0].size() == n, "kernel basis is " << k.size() << "x" << k[0].size());
    for (auto &v : k)
      for (auto &s : mm.mulv(w, v)) REQUIRE_(c, K.is_zero(s), "kernel vector " << t.sv(v) << " is not in the kernel");
    REQUIRE_(c, mm.rank(k) == (int)n - rank, "kernel basis is dependent: " << mm.show(k));
    x.check_kernel_basis(kb);
  }
  if (rank > 0) { // a vector outside the kernel
    size_t col = 0;
    for (size_t j = 0; j < n; j++)
      for (size_t i = 0; i < m; i++)
        if (!K.is_zero(w[i][j])) col = j;
    W bad{V(n, K.zero())};
    bad[0][col] = K.one();
    auto lb = t.mk(bad);
    REQUIRE_(c, refuses([&]() { x.check_kernel_basis(lb); }), "check_kernel_basis accepted " << mm.show(bad));
  }
  // A x = b, b usually in the column space
  {
    V s = t.randv(g, n), b = g.chance(1, 4) ? t.randv(g, m) : mm.mulv(w, s);
    c.log << " b=" << t.sv(b);
    W aug(w);
    for (size_t i = 0; i < m; i++) aug[i].push_back(b[i]);
    bool unique = rank == (int)n && mm.rank(aug) == rank;
    tvector<T> lx;
    bool found = x.solve_unique(lx, t.mkv(b), zero, one);
    REQUIRE_(c, found == unique, "unique solution found: " << found << ", exists: " << unique);
    if (found) {
      V sol = t.getv(lx, "solution");
      REQUIRE_(c, sol.size() == n && t.eqv(mm.mulv(w, sol), b), "solution " << t.sv(sol) << " does not solve");
      c.label("solved");
    } else
      c.label("no unique solution");
  }
  // sums and products with the matrix itself, in place
  {
    auto ip = x;
    ip += ip;
    W tw(w);
    for (auto &row : tw)
      for (auto &e : row) e = K.add(e, e);
    t.check(c, ip, tw, "the matrix += itself");
    ip = x;
    ip -= ip;
    t.check(c, ip, mm.make(m, n), "the matrix -= itself");
    if (m == n && !std::is_same<A, IntratSA>::value && !std::is_same<A, F2PolyratA>::value) {
      ip = x;
      ip *= ip;
      t.check(c, ip, mm.mul(w, w), "the matrix *= itself");
      auto o = x * x;
      t.check(c, o, mm.mul(w, w), "the matrix times itself");
      auto iq = x;
      iq *= o;
      t.check(c, iq, mm.mul(w, mm.mul(w, w)), "the matrix *= its square");
    }
  }
  if (m != n) {
    tmatrix<T> o;
    REQUIRE_(c, refuses([&]() { x.det(); }) && refuses([&]() { x.inverse(o); }) && refuses([&]() { x.exp(2, o); }),
        "determinant, inverse or power of a non-square matrix not refused");
    return;
  }
  auto det = mm.det(w);
  t.checkv(c, tvector<T>(x.det(), 1), V{det}, "determinant");
  // the scalar of the reduction: det(A) = s det(reduced)
  T sc = zero;
  auto z2 = x;
  z2.row_reduce_below_with_scalar(sc);
  if (rank > 0)
    REQUIRE_(c, K.eq(K.mul(a.get(sc), mm.det(t.get(z2, "reduced"))), det), "reduction scalar " << text_of(sc));
  tmatrix<T> inv;
  bool ok = x.inverse(inv);
  REQUIRE_(c, ok == (rank == (int)n), "inverse found: " << ok << ", rank " << rank);
  W iv;
  if (ok) {
    mm.inverse(w, iv);
    t.check(c, inv, iv, "inverse");
    x.check_inverse(inv);
    W bad(iv);
    bad[(size_t)g.below(n)][(size_t)g.below(n)] = K.random(g);
    if (!mm.eq(bad, iv)) {
      auto lb = t.mk(bad);
      REQUIRE_(c, refuses([&]() { x.check_inverse(lb); }), "check_inverse accepted a wrong inverse");
    }
  }
  // powers
  bool small = std::is_same<A, IntratSA>::value || std::is_same<A, F2PolyratA>::value;
  int p = small ? (int)g.below(3) : g.chance(1, 6) ? (int)g.below(1u << 30) : (int)g.skewed(20);
  if (g.flip()) p = -p;
  c.log << " ^" << p;
  tmatrix<T> pw;
  if (rank == 0 && p <= 0) {
    REQUIRE_(c, refuses([&]() { x.exp(p, pw); }), "power " << p << " of the zero matrix not refused");
    return;
  }
  int did = x.exp(p, pw);
  bool want = p > 0 || rank == (int)n;
  REQUIRE_(c, (did != 0) == want, "power " << p << " with rank " << rank << " returned " << did);
  if (want) {
    W b = p < 0 ? iv : w, r = mm.ident(n);
    for (int k = p < 0 ? -p : p; k; k >>= 1) {
      if (k & 1) r = mm.mul(r, b);
      if (k > 1) b = mm.mul(b, b);
    }
    t.check(c, pw, r, "power " + std::to_string(p));
  }
  t.check(c, x, w, "the matrix after queries");
}

// det(AB) = det(A) det(B), (AB)^-1 = B^-1 A^-1, det(A^T) = det(A), on the
// library's own results, for sizes beyond the model's
template <class A> void laws(Gen &g, Ctx &c, const A &a, size_t md) {
  typedef typename A::T T;
  TM<A> t(a);
  size_t n = 1 + (size_t)g.below(md);
  auto u = t.mm.random(g, n, n), v = t.mm.random(g, n, n);
  c.log << a.name() << ": " << t.mm.show(u) << " " << t.mm.show(v);
  auto x = t.mk(u), y = t.mk(v);
  auto xy = x * y;
  c.nontrivial = n > 2;
  REQUIRE_(c, xy.det() == x.det() * y.det(), "det(AB) = " << text_of(xy.det()) << ", det A det B = " << text_of(x.det() * y.det()));
  REQUIRE_(c, x.det() == x.transpose().det(), "det A differs from det A^T");
  REQUIRE_(c, x.get_rank() == x.transpose().get_rank(), "row rank differs from column rank");
  int r = xy.get_rank();
  REQUIRE_(c, r <= x.get_rank() && r <= y.get_rank(), "rank of a product exceeds that of a factor");
  tmatrix<T> xi, yi, xyi;
  bool fx = x.inverse(xi), fy = y.inverse(yi), fxy = xy.inverse(xyi);
  REQUIRE_(c, fxy == (fx && fy), "inverses found: " << fx << fy << fxy);
  if (fxy) {
    c.label("invertible pair");
    REQUIRE_(c, xyi == yi * xi, "(AB)^-1 differs from B^-1 A^-1");
  }
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C17";
  p.rule_text =
      "Matrices up to 6x6 (3x3 over Q) over Z/p, F2, extensions of F2 and of Fp, towers over F2, and rational functions: "
      "dense, sparse, rank-deficient, with zero rows and columns, and permuted triangular. Echelon form, rank, kernel, "
      "solution, determinant, inverse and powers against a Gauss-Jordan model; product laws on sizes up to 10x10; some up to "
      "26x26 (40x40 over F2). "
      "Non-trivial: a non-zero matrix with more than one row and column.";
  p.assumptions = {"entries over Q are small enough for elimination to stay within int fractions",
                   "the trivial power of a singular matrix is refused by design"};
  static auto zp = [](Gen &g) { return IntmodA(gen_prime(g, g.chance(1, 3) ? 40000 : 30)); };
  static auto f2m = [](Gen &g) { PZn P{Zn{2}}; return F2PolymodA(P.random_irreducible(g, 1 + (int)g.skewed(10))); };
  static auto fpm = [](Gen &g) { u64 q = gen_prime(g, 20); PZn P{Zn{q}}; return FpPolymodA(q, P.random_irreducible(g, 1 + (int)g.below(4))); };
  static auto tow = [](Gen &g) {
    PZn P{Zn{2}};
    F2nPolyA pa(P.random_irreducible(g, 1 + (int)g.below(3)));
    return F2nPolymodA(pa, pa.m.random_irreducible(g, 1 + (int)g.below(3)));
  };
  p.add("residues", 6000, 300000, [](Gen &g, Ctx &c) { algebra(g, c, zp(g), 6); });
  p.add("bits", 3000, 150000, [](Gen &g, Ctx &c) { algebra(g, c, BitA(), 8); });
  p.add("f2-extension", 1500, 100000, [](Gen &g, Ctx &c) { algebra(g, c, f2m(g), 5); });
  p.add("fp-extension", 750, 60000, [](Gen &g, Ctx &c) { algebra(g, c, fpm(g), 4); });
  p.add("tower", 300, 30000, [](Gen &g, Ctx &c) { algebra(g, c, tow(g), 3); });
  p.add("rationals", 4000, 200000, [](Gen &g, Ctx &c) { algebra(g, c, IntratSA(), 3); });
  p.add("rational-functions", 300, 30000, [](Gen &g, Ctx &c) {
    F2PolyratA a((F2PolyA()));
    a.m.maxdeg = 2;
    algebra(g, c, a, 3);
  });
  p.add("residues-large", 240, 6000, [](Gen &g, Ctx &c) { algebra(g, c, zp(g), 26); });
  p.add("bits-large", 160, 4000, [](Gen &g, Ctx &c) { algebra(g, c, BitA(), 40); });
  p.add("f2-extension-large", 60, 2000, [](Gen &g, Ctx &c) { algebra(g, c, f2m(g), 12); });
  p.add("laws-residues", 2000, 100000, [](Gen &g, Ctx &c) { laws(g, c, zp(g), 10); });
  p.add("laws-f2-extension", 500, 40000, [](Gen &g, Ctx &c) { laws(g, c, f2m(g), 7); });
  p.add("independent", 500, 20000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C17"); });
  return engine_main(argc, argv, p);
}
