// C02: integers modulo m, and bits.
#include "pure.h"
#include "history.h"
#include <climits>
using namespace bind;
using namespace pbt;

static u64 gen_modulus(Gen &g, u64 cap) {
  return g.flip() ? gen_prime(g, cap) : 2 + g.skewed(cap - 1);
}
template <class F> static bool refuses(F f) {
  try {
    f();
  } catch (const std::exception &) { return true; }
  return false;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C02";
  p.rule_text =
      "Histories of mixed arithmetic, powers, divisions, assignments, copies and comparisons over a register file "
      "of residues, the modulus prime or composite up to INT_MAX (up to 60000 where division is involved), plus "
      "single operations with plain integers of either sign; non-trivial: at least two arithmetic steps, or a "
      "modulus above 2 with a residue that is neither 0 nor 1.";
  p.assumptions = {"modulus 1 and INT_MIN exponents are outside the domain",
      "division is explored for moduli up to 60000 because the library's inverse is linear in the modulus"};

  p.add("history-small-modulus", 90000, 800000, [](Gen &g, Ctx &c) {
    IntmodA a(gen_modulus(g, 300));
    HistOpts o;
    o.order = true;
    o.max_exp = 40;
    ring_history(a, g, c, o);
  });
  p.add("history-medium-modulus", 18000, 100000, [](Gen &g, Ctx &c) {
    IntmodA a(gen_modulus(g, 60000));
    HistOpts o;
    o.order = true;
    ring_history(a, g, c, o);
  });
  p.add("history-large-modulus", 180000, 1500000, [](Gen &g, Ctx &c) { // no division
    IntmodA a(g.chance(1, 3) ? INT_MAX - g.below(1000) : gen_modulus(g, INT_MAX));
    HistOpts o;
    o.order = true;
    o.div = false;
    o.max_exp = 12;
    // negative powers divide: keep them to small moduli
    History<IntmodA> h(a, g, c, o);
    if (a.m.m > 60000) h.no_negative_powers = true;
    h.run();
  });
  p.add("history-bit", 60000, 400000, [](Gen &g, Ctx &c) {
    BitA a;
    HistOpts o;
    o.order = true;
    o.zero_to_zero = false;
    ring_history(a, g, c, o);
  });

  p.add("with-plain-integers", 600000, 4000000, [](Gen &g, Ctx &c) {
    u64 m = g.chance(1, 3) ? INT_MAX - g.below(1000) : gen_modulus(g, INT_MAX);
    Zn z{m};
    IntmodA a(m);
    u64 r = z.random(g);
    i64 k = g.chance(1, 4) ? g.skewed_signed(3) + (i64)m * g.range(-1, 1) : g.skewed_signed(INT_MAX);
    if (iabs(k) > INT_MAX) k = (i64)m;
    c.log << "residue " << r << " mod " << m << ", integer " << k;
    c.nontrivial = m > 2 && r > 1;
    intmod_t x = a.make(r);
    u64 kk = z.of(k);
    REQUIRE_(c, a.get(intmod_t((int)k, (int)m)) == kk, "constructing from " << k);
    REQUIRE_(c, a.get(x + (int)k) == z.add(r, kk), "x + " << k << " is " << a.get(x + (int)k));
    REQUIRE_(c, a.get(x - (int)k) == z.sub(r, kk), "x - " << k << " is " << a.get(x - (int)k));
    REQUIRE_(c, a.get(x * (int)k) == z.mul(r, kk), "x * " << k << " is " << a.get(x * (int)k));
    REQUIRE_(c, a.get(x.prime_subfield_element((int)k)) == kk, "prime_subfield_element");
    REQUIRE_(c, (x == (int)r) && !(x != (int)r), "a residue differs from its own value");
    if (k >= 0 && (u64)k < m) REQUIRE_(c, (x == (int)k) == (r == (u64)k), "comparison with " << k);
    intmod_t y;
    REQUIRE_(c, y.from_string(std::to_string(k), (int)m) && a.get(y) == kk, "from_string of " << k);
    intmod_t w(0, (int)m);
    std::istringstream is(std::string(g.below(3), ' ') + std::to_string(k));
    is >> w;
    REQUIRE_(c, !is.fail() && a.get(w) == kk, "reading " << k << " gives " << a.get(w));
    REQUIRE_(c, text_of(x) == std::to_string(r), "prints as " << text_of(x));
    int b = (int)(k & 1);
    REQUIRE_(c, bit_t((int)k).get_residue() == b, "bit from " << k);
    bit_t bb(1 - b);
    bb = (int)k;
    REQUIRE_(c, bb.get_residue() == b, "bit assigned from " << k);
    if (k >= 0) {
      bit_t bs(1 - b);
      REQUIRE_(c, bs.from_string(std::to_string(k)) && bs.get_residue() == b, "bit from text " << k);
    }
  });

  p.add("powers", 180000, 1500000, [](Gen &g, Ctx &c) {
    u64 m = gen_modulus(g, g.chance(1, 3) ? 60000 : INT_MAX);
    Zn z{m};
    IntmodA a(m);
    u64 r = z.random(g);
    i64 e = (i64)g.skewed(INT_MAX);
    if (m <= 60000 && g.flip()) e = -e;
    c.log << r << "^" << e << " mod " << m;
    c.nontrivial = r > 1 && iabs(e) > 1;
    u64 b = r;
    if (r == 0 && e <= 0) {
      REQUIRE_(c, refuses([&]() { a.make(r).exp((int)e); }), "0^" << e << " was not refused");
      return;
    }
    if (e < 0 && !z.inv(r, b)) {
      c.label("not invertible");
      REQUIRE_(c, refuses([&]() { a.make(r).exp((int)e); }), "a negative power of a zero divisor was not refused");
      return;
    }
    u64 v = z.one(), s = b, n = (u64)iabs(e);
    for (; n; n >>= 1) {
      if (n & 1) v = z.mul(v, s);
      s = z.mul(s, s);
    }
    u64 got = a.get(a.make(r).exp((int)e));
    REQUIRE_(c, got == v, "power is " << got << ", not " << v);
  });

  p.add("inverse", 60000, 300000, [](Gen &g, Ctx &c) {
    // several moduli in turn: the inverse remembers the last modulus
    int k = 1 + (int)g.below(4);
    for (int i = 0; i < k; i++) {
      u64 m = gen_modulus(g, 3000);
      Zn z{m};
      IntmodA a(m);
      u64 r = z.random(g), want = 0;
      c.log << "1/" << r << " mod " << m << "; ";
      bool inv = z.inv(r, want);
      if (m > 2 && r > 1) c.nontrivial = true;
      c.label(inv ? "invertible" : "not invertible");
      intmod_t y;
      bool got = a.make(r).recip(y);
      REQUIRE_(c, got == inv, "recip says " << got);
      if (inv) REQUIRE_(c, a.get(y) == want, "inverse is " << a.get(y) << ", not " << want);
      else {
        REQUIRE_(c, refuses([&]() { a.make(1) / a.make(r); }), "division by a non-unit was not refused");
        REQUIRE_(c, refuses([&]() { a.make(1) % a.make(r); }), "remainder by a non-unit was not refused");
        intmod_t u = a.make(z.one());
        REQUIRE_(c, refuses([&]() { u /= a.make(r); }) && a.get(u) == z.one(), "a refused /= changed its target");
        REQUIRE_(c, refuses([&]() { u %= a.make(r); }) && a.get(u) == z.one(), "a refused %= changed its target");
      }
    }
  });

  p.add("mixed-moduli-refused", 60000, 200000, [](Gen &g, Ctx &c) {
    u64 m = gen_modulus(g, INT_MAX), n = gen_modulus(g, INT_MAX);
    if (m == n) n = m == 2 ? 3 : m - 1;
    intmod_t x = IntmodA(m).make(g.below(m)), y = IntmodA(n).make(g.below(n));
    c.log << "mod " << m << " against mod " << n;
    c.nontrivial = true;
    int op = (int)g.below(10);
    u64 vx = IntmodA(m).get(x), vy = IntmodA(n).get(y);
    intmod_t z(x);
    bool r = refuses([&]() {
      switch (op) {
      case 0: z = x + y; break;
      case 1: z = x - y; break;
      case 2: z = x * y; break;
      case 3: z = x / y; break;
      case 4: z += y; break;
      case 5: z -= y; break;
      case 6: z *= y; break;
      case 7: (void)(x < y); break;
      case 8: z %= y; break;
      case 9: z /= y; break;
      }
    });
    REQUIRE_(c, r, "operation " << op << " on residues of different moduli was not refused");
    REQUIRE_(c, IntmodA(m).get(z) == vx && IntmodA(m).get(x) == vx && IntmodA(n).get(y) == vy, "a refused operation " << op << " changed an operand");
    int bad = -(int)g.skewed(INT_MAX);
    REQUIRE_(c, refuses([&]() { intmod_t(1, bad); }), "modulus " << bad << " was not refused");
    REQUIRE_(c, refuses([&]() { intmod_t u; intmod_t v = u + u; }), "arithmetic without a modulus was not refused");
    REQUIRE_(c, x != y, "residues of different moduli are equal");
  });
  p.add("independent", 1500, 60000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C02"); });
  return engine_main(argc, argv, p);
}
