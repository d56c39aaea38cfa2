// C04: polynomials over the field of two elements.
#include "pure.h"
#include "polyx.h"
using namespace bind;
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C04";
  p.rule_text =
      "Polynomials over F2 of degree up to a few hundred (so that several machine words, and the boundaries between "
      "them, are involved), with planted common factors, exact multiples, squares and runs of ones; histories of ring "
      "operations over a register file; every result compared with a coefficient-vector model. Non-trivial: both "
      "operands of degree at least 1, or at least two arithmetic steps.";
  p.assumptions = {"negative coefficient positions are outside the domain"};
  p.add("history", 45000, 400000, [](Gen &g, Ctx &c) {
    F2PolyA a;
    HistOpts o;
    o.order = true;
    o.max_deg = 400;
    ring_history(a, g, c, o);
  });
  p.add("history-long", 9000, 80000, [](Gen &g, Ctx &c) {
    // registers of word-boundary degrees
    F2PolyA a;
    HistOpts o;
    o.max_deg = 800;
    o.steps = 16;
    o.regs = 3;
    History<F2PolyA> h(a, g, c, o);
    h.seed_degrees = {62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193};
    h.run();
  });
  static auto deg = [](Gen &g) {
    static const std::vector<int> d{3, 8, 20, 62, 63, 64, 65, 70, 127, 128, 129, 200, 260};
    return g.pick(d);
  };
  p.add("euclid", 60000, 500000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, deg(g)).euclid(); });
  p.add("coefficients", 45000, 400000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, deg(g)).coefficients(); });
  p.add("scalars", 30000, 200000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, deg(g)).scalars(); });
  p.add("calculus", 45000, 400000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, std::min(deg(g), 129)).calculus(2); });
  p.add("roots", 45000, 400000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, deg(g)).roots(); });
  p.add("order", 45000, 400000, [](Gen &g, Ctx &c) { PolyX<F2PolyA>(F2PolyA(), g, c, deg(g)).order(); });
  p.add("word-shifts", 60000, 500000, [](Gen &g, Ctx &c) {
    F2PolyA a;
    PZn::E e = a.m.random_exact(g, deg(g));
    if (g.flip()) for (auto &b : e) b = 1;
    f2_poly_t x = a.make(e);
    int k = (int)g.below(200);
    c.log << a.m.show(e) << " shifted by " << k;
    c.nontrivial = true;
    PolyX<F2PolyA> px(a, g, c, 10);
    f2_poly_t y(x);
    y._promote_n((uint64_t)k);
    px.same(y, a.m.mul(e, a.m.xpow(k)), "times x^k by word shift");
    y = x;
    y._promote_1();
    px.same(y, a.m.mul(e, a.m.xpow(1)), "times x by word shift");
    y._promote_4();
    px.same(y, a.m.mul(e, a.m.xpow(5)), "times x^5 by word shifts");
    y._demote_1();
    px.same(y, a.m.mul(e, a.m.xpow(4)), "divided by x by word shift");
    y = x;
    y._demote_1();
    PZn::E h(e.begin() + 1, e.end());
    a.m.trim(h);
    px.same(y, h, "value without its constant term, over x");
  });
  p.add("numbering", 60000, 300000, [](Gen &g, Ctx &c) {
    F2PolyA a;
    PolyX<F2PolyA> px(a, g, c, 10);
    u64 b = g.skewed(UINT64_MAX);
    c.log << "number " << b;
    c.nontrivial = b > 1;
    PZn::E e;
    for (int i = 0; i < 64; i++) e.push_back(b >> i & 1);
    a.m.trim(e);
    px.same(f2_poly_t::from_base_rep(b), e, "the polynomial with this number");
    std::ostringstream h;
    h << std::hex << b;
    px.same(f2_poly_t(h.str()), e, "the polynomial of hexadecimal text");
    f2_poly_t x = f2_poly_t::from_base_rep(b);
    for (int i = 0; i < 3; i++) {
      x.increment();
      b++;
    }
    if (b > 2) REQUIRE_(c, x == f2_poly_t::from_base_rep(b), "three successors");
    int n1 = 0;
    for (auto v : e) n1 ^= (int)v;
    REQUIRE_(c, f2_poly_t::from_base_rep(b - 3).zcount_one_bits() == n1, "parity of the number of terms");
  });
  p.add("independent", 800, 32000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C04"); });
  return engine_main(argc, argv, p);
}
