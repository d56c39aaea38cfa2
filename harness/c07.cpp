// C07: polynomials over the rationals.
#include "polyx.h"
#include <numeric>
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C07";
  p.rule_text =
      "Polynomials of degree up to 8 with small rational coefficients, planted common factors and exact multiples, and "
      "histories of ring operations; sparse polynomials of degree up to 190 with coefficients 0, 1, -1; compared with an exact 128-bit model; cases in which an intermediate coefficient "
      "passes 2^28 are discarded. Non-trivial: both operands of degree at least 1, or at least two arithmetic steps.";
  p.assumptions = {"coefficients whose exact values pass 2^28 at any step are outside the domain (int representation)"};
  static auto deg = [](Gen &g) { return (int)(1 + g.below(6)); };
  p.add("history", 150000, 800000, [](Gen &g, Ctx &c) { QPolyA a; HistOpts o; o.max_deg = 8; o.max_exp = 3; o.steps = 6; ring_history(a, g, c, o); });
  p.add("euclid", 300000, 1500000, [](Gen &g, Ctx &c) { QPolyA a; PolyX<QPolyA>(a, g, c, deg(g)).euclid(); });
  p.add("coefficients", 100000, 400000, [](Gen &g, Ctx &c) { QPolyA a; PolyX<QPolyA>(a, g, c, 8).coefficients(); });
  p.add("scalars", 100000, 400000, [](Gen &g, Ctx &c) { QPolyA a; PolyX<QPolyA>(a, g, c, deg(g)).scalars(); });
  p.add("calculus", 100000, 400000, [](Gen &g, Ctx &c) { QPolyA a; PolyX<QPolyA>(a, g, c, deg(g)).calculus(2); });
  p.add("powers-large", 30000, 300000, [](Gen &g, Ctx &c) { // powers that fit although the next square would not
    QPolyA a;
    PQ::E e;
    int n = 2 + (int)g.below(3);
    for (int i = 0; i < n; i++) {
      i128 top = (i128)g.skewed((1 << 28) - 1), bot = 1;
      if (g.flip()) std::swap(top, bot);
      if (bot == 0) bot = 1;
      if (g.chance(1, 3)) bot = (i128)1 << g.below(28);
      i128 x = top, y = bot;
      while (y) { i128 t = x % y; x = y; y = t; }
      e.push_back({g.flip() ? top / x : -(top / x), bot / x});
      if (n > 2 && g.chance(1, 3)) e.back() = a.m.r.zero();
    }
    a.m.trim(e);
    if (e.empty()) throw Discard();
    int k = 1 + (int)g.below(3);
    c.log << "(" << a.m.show(e) << ")^" << k;
    PQ::E w = e;
    for (int i = 1; i < k; i++) w = a.m.mul(w, e);
    PolyX<QPolyA> px(a, g, c, 4);
    px.same(a.make(e).exp(k), w, "power " + std::to_string(k));
    c.nontrivial = e.size() > 1;
  });
  p.add("order", 100000, 300000, [](Gen &g, Ctx &c) {
    QPolyA a;
    PQ::E e[3];
    for (auto &x : e) x = a.m.random_deg(g, 3);
    if (g.flip() && !e[0].empty()) { e[1] = e[0]; e[1][(size_t)g.below(e[1].size())] = a.m.r.random(g); a.m.trim(e[1]); }
    c.log << a.m.show(e[0]) << " " << a.m.show(e[1]) << " " << a.m.show(e[2]);
    c.nontrivial = e[0].size() > 1;
    q_poly_t x = a.make(e[0]), y = a.make(e[1]), z = a.make(e[2]);
    bool same = a.m.eq(e[0], e[1]);
    REQUIRE_(c, (x == y) == same && (x != y) == !same, "equality");
    REQUIRE_(c, (x < y) + (x > y) + (x == y) == 1 && (x <= y) == !(x > y) && (x >= y) == !(x < y) && (x < y) == (y > x), "order");
    if (x < y && y < z) REQUIRE_(c, x < z, "order is not transitive");
  });
  p.add("sparse-large", 20000, 100000, [](Gen &g, Ctx &c) { // long polynomials whose coefficients stay small
    QPolyA a;
    int n = 10 + (int)g.below(120);
    auto pm = [&]() { return g.flip() ? a.m.r.one() : a.m.r.neg(a.m.r.one()); };
    auto sparse = [&](int deg) {
      PQ::E e((size_t)deg + 1, a.m.r.zero());
      for (int k = (int)g.below(6); k > 0; k--) e[(size_t)g.below((u64)deg + 1)] = pm();
      e[(size_t)deg] = pm();
      if (g.chance(1, 4)) for (auto &v : e) v = a.m.r.of((i64)g.below(3) - 1);
      a.m.trim(e);
      return e.empty() ? a.m.one() : e;
    };
    PQ::E u = sparse(n), v = sparse((int)g.below((u64)n) + 1);
    c.log << a.m.show(u) << " and " << a.m.show(v);
    c.nontrivial = true;
    PolyX<QPolyA> px(a, g, c, n);
    q_poly_t x = a.make(u), y = a.make(v);
    px.same(x + y, a.m.add(u, v), "sum");
    px.same(x - y, a.m.sub(u, v), "difference");
    px.same(-x, a.m.neg(u), "negative");
    PQ::E uv = a.m.mul(u, v);
    px.same(x * y, uv, "product");
    px.same(x.deriv(), a.m.deriv(u), "derivative");
    for (int pt = -1; pt <= 1; pt++) {
      auto w = a.m.r.of(pt);
      REQUIRE_(c, a.m.r.eq(IntratA().get(x.eval(IntratA().make(w))), a.m.eval(u, w)), "value at " << pt);
    }
    // exact division by the sparse factor, and division by x^k +- 1
    q_poly_t q(x), r(x), w = a.make(uv);
    w.quot_and_rem(y, q, r);
    px.same(q, u, "product over its factor");
    px.same(r, a.m.zero(), "remainder of a product by its factor");
    int k = 1 + (int)g.below((u64)n);
    PQ::E d = a.m.add(a.m.xpow(k), a.m.scale(a.m.one(), pm())), mq, mr;
    a.m.divmod(u, d, mq, mr);
    q_poly_t ld = a.make(d);
    x.quot_and_rem(ld, q, r);
    px.same(q, mq, "quotient");
    px.same(r, mr, "remainder");
    int pos = (int)g.below((u64)n + 60);
    auto val = g.chance(1, 3) ? a.m.r.zero() : pm();
    x.set_coeff(pos, IntratA().make(val));
    if (u.size() <= (size_t)pos) u.resize((size_t)pos + 1, a.m.r.zero());
    u[(size_t)pos] = val;
    a.m.trim(u);
    px.same(x, u, "after setting coefficient " + std::to_string(pos));
  });
  p.add("cyclotomic-gcd", 10000, 100000, [](Gen &g, Ctx &c) { // gcd(x^m - 1, x^n - 1) = x^gcd(m, n) - 1
    QPolyA a;
    int h = 1 + (int)g.below(12), m = h * (1 + (int)g.below(10)), n = h * (1 + (int)g.below(10)), k = (int)std::gcd(m, n);
    auto b = [&](int i) { return a.m.sub(a.m.xpow(i), a.m.one()); };
    c.log << "x^" << m << "-1 and x^" << n << "-1";
    c.nontrivial = m != n;
    PolyX<QPolyA> px(a, g, c, 4);
    q_poly_t x = a.make(b(m)), y = a.make(b(n)), s(x), t(x);
    px.same(a.make(a.m.monic(a.get(x.gcd(y)))), b(k), "gcd");
    q_poly_t d = x.ext_gcd(y, s, t);
    PQ::E lin = a.m.add(a.m.mul(a.get(s), b(m)), a.m.mul(a.get(t), b(n)));
    px.same(d, lin, "the combination");
    px.same(a.make(a.m.monic(lin)), b(k), "ext_gcd");
  });
  p.add("binomial", 50000, 200000, [](Gen &g, Ctx &c) {
    QPolyA a;
    PolyX<QPolyA> px(a, g, c, 3);
    int i = (int)g.below(12), j = (int)g.below(12);
    if (i == j) throw Discard();
    QQ::E u = a.m.r.random(g), v = a.m.r.random(g);
    if (u.n == 0) u = a.m.r.one();
    if (v.n == 0) v = a.m.r.one();
    c.log << a.m.r.show(u) << "x^" << i << " + " << a.m.r.show(v) << "x^" << j;
    c.nontrivial = true;
    PQ::E e = a.m.add(a.m.scale(a.m.xpow(i), u), a.m.scale(a.m.xpow(j), v));
    px.same(q_poly_t::binomial(intrat_t((int)u.n, (int)u.d), i, intrat_t((int)v.n, (int)v.d), j), e, "binomial");
  });
  return engine_main(argc, argv, p);
}
