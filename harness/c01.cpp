// C01: integer number theory on machine integers.
#include "pure.h"
#include "ref.h"
#include "spffl/bits/count_bits.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
#include <climits>
using namespace ref;
using namespace pbt;
namespace im = spffl::intmath;

// Pairs with a planted common factor, zeros, signs and full-range magnitudes.
static void gen_pair(Gen &g, i64 &a, i64 &b, i64 cap) {
  i64 k = 1 + (i64)g.skewed(40000);
  a = g.skewed_signed(cap);
  b = g.skewed_signed(cap);
  switch (g.below(4)) {
  case 1: // common factor
    a = a % (cap / k + 1) * k;
    b = b % (cap / k + 1) * k;
    break;
  case 2: // one divides the other
    if (b) a = b * (g.skewed_signed(cap) / (iabs(b) + 1));
    break;
  case 3: // consecutive Fibonacci numbers: the longest Euclidean runs
  {
    i64 x = 1, y = 1;
    for (u64 n = g.below(43); n > 0; n--) {
      i64 t = x + y;
      x = y;
      y = t;
    }
    a = g.flip() ? -x : x;
    b = g.flip() ? -y : y;
    if (g.flip()) std::swap(a, b);
    break;
  }
  }
  if (iabs(a) > cap) a %= cap;
  if (iabs(b) > cap) b %= cap;
}

static u64 gen_prime_(Gen &g, u64 cap) { // magnitude-skewed prime <= cap
  u64 n = 2 + g.skewed(cap - 1);
  while (!is_prime(n)) n--;
  return n;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C01";
  p.rule_text =
      "Integers are magnitude-skewed over the whole int range with planted common factors, "
      "exact multiples, Fibonacci pairs, perfect squares +-1, primes and products of primes; "
      "a case is non-trivial when both operands exceed 1 in magnitude (for factoring: at least two "
      "prime factors; for roots and powers: operand above 3).";
  p.assumptions = {"INT_MIN is outside the domain (its negation is not representable)",
      "results that do not fit an int are outside the domain",
      "the totient of 1 is excluded: the suite fixes it at 0"};

  p.add("gcd-lcm", 2100000, 6000000, [](Gen &g, Ctx &c) {
    i64 a, b;
    gen_pair(g, a, b, INT_MAX);
    c.log << "a=" << a << " b=" << b;
    i128 d = igcd(a, b);
    int got = im::int_gcd((int)a, (int)b);
    REQUIRE_(c, got == (i64)d, "gcd is " << got << ", not " << str(d));
    REQUIRE_(c, im::int_gcd((int)b, (int)a) == got, "gcd not symmetric");
    REQUIRE_(c, im::gcd((int)a, (int)b) == got, "gcd() disagrees with int_gcd()");
    int m = 7, n = 7;
    int e = im::int_ext_gcd((int)a, (int)b, m, n);
    REQUIRE_(c, iabs(e) == d, "ext_gcd returns " << e << ", gcd is " << str(d));
    REQUIRE_(c, (i128)m * a + (i128)n * b == e,
        "ext_gcd: " << m << "*" << a << " + " << n << "*" << b << " != " << e);
    i128 l = d ? iabs((i128)a / d * b) : 0;
    if (l <= INT_MAX) {
      int gl = im::int_lcm((int)a, (int)b);
      REQUIRE_(c, iabs(gl) == l, "lcm is " << gl << ", not " << str(l));
      c.label("lcm in range");
    }
    c.nontrivial = iabs(a) > 1 && iabs(b) > 1;
    c.label(d > 1 ? "common factor" : "coprime");
  });

  p.add("power-root-log", 1400000, 4000000, [](Gen &g, Ctx &c) {
    {
      i64 b = g.skewed_signed(60000);
      int e = (int)g.skewed(33);
      i128 v = 1;
      bool fits = true;
      for (int i = 0; i < e && fits; i++) {
        v *= b;
        if (v > INT_MAX || v < INT_MIN) fits = false;
      }
      if (fits) {
        c.log << b << "^" << e << " ";
        int got = im::int_power((int)b, e);
        REQUIRE_(c, got == (i64)v, "power is " << got << ", not " << str(v));
      }
    }
    i64 n;
    if (g.flip()) n = (i64)g.skewed((u64)INT_MAX + 1);
    else {
      i64 r = (i64)g.skewed(46341);
      n = r * r + g.range(-2, 2);
      if (n < 0) n = 0;
    }
    c.log << "n=" << n;
    i64 f = 0;
    while ((f + 256) * (f + 256) <= n) f += 256;
    while ((f + 1) * (f + 1) <= n) f++;
    int gf = im::int_sqrt_floor((int)n), gc = im::int_sqrt_ceil((int)n);
    REQUIRE_(c, gf == f, "floor sqrt is " << gf << ", not " << f);
    REQUIRE_(c, gc == (f * f == n ? f : f + 1), "ceil sqrt is " << gc << " of " << n);
    u64 w = g.skewed(UINT64_MAX);
    if (g.chance(1, 3)) w = ((u64)1 << g.below(64)) + (u64)g.range(-1, 1);
    if (w == 0) w = 1;
    unsigned u = (unsigned)w ? (unsigned)w : 1;
    c.log << " w=" << w;
    auto fl = [](u64 x) { int k = 0; while (k < 63 && x >> (k + 1)) k++; return k; };
    auto lo = [](u64 x) { int k = 0; while (!(x >> k & 1)) k++; return k; };
    auto pc = [](u64 x) { int k = 0; for (int i = 0; i < 64; i++) k += (int)(x >> i & 1); return k; };
    REQUIRE_(c, (int)im::find_msb_64(w) == fl(w), "msb_64 " << im::find_msb_64(w));
    REQUIRE_(c, (int)im::find_msb_32(u) == fl(u), "msb_32 of " << u << " is " << im::find_msb_32(u));
    if ((unsigned short)w)
      REQUIRE_(c, (int)im::find_msb_16((unsigned short)w) == fl(w & 0xffff), "msb_16");
    REQUIRE_(c, (int)im::find_lsb_64(w) == lo(w), "lsb_64 " << im::find_lsb_64(w));
    REQUIRE_(c, (int)im::find_lsb_32(u) == lo(u), "lsb_32 of " << u << " is " << im::find_lsb_32(u));
    REQUIRE_(c, (int)im::calc_log2_unsigned_floor(u) == fl(u), "log2 floor of " << u);
    REQUIRE_(c, (int)im::calc_log2_unsigned_ceil(u) == fl(u) + (pc(u) > 1), "log2 ceil of " << u);
    REQUIRE_(c, (int)im::calc_log2_unsigned_ll_floor(w) == fl(w), "log2_ll floor");
    REQUIRE_(c, (int)im::calc_log2_unsigned_ll_ceil(w) == fl(w) + (pc(w) > 1), "log2_ll ceil");
    REQUIRE_(c, (int)im::calc_log10_unsigned_floor(u) == (int)std::to_string(u).size() - 1, "log10 of " << u);
    int nb = (int)g.below(9);
    u64 masked = nb == 8 ? w : w & (((u64)1 << (8 * nb)) - 1);
    REQUIRE_(c, spffl::bits::count_one_bits((unsigned char *)&w, nb) == pc(masked), "bit count of " << nb << " bytes");
    c.nontrivial = n > 3;
  });
  p.add("root-of-negative", 14000, 20000, [](Gen &g, Ctx &c) {
    int n = -1 - (int)g.skewed(INT_MAX - 1);
    c.log << "n=" << n;
    c.nontrivial = true;
    for (int k = 0; k < 2; k++) {
      bool threw = false;
      try {
        k ? im::int_sqrt_ceil(n) : im::int_sqrt_floor(n);
      } catch (const std::exception &) { threw = true; }
      REQUIRE_(c, threw, "the square root of a negative number was not refused");
    }
  });

  p.add("totient", 28000, 60000, [](Gen &g, Ctx &c) {
    int n = 2 + (int)g.skewed(20000);
    c.log << "n=" << n;
    c.nontrivial = !is_prime((u64)n);
    c.label(c.nontrivial ? "composite" : "prime");
    int got = im::int_totient(n);
    REQUIRE_(c, got == (int)totient((u64)n), "totient is " << got << ", not " << totient((u64)n));
  });

  p.add("primality", 140000, 800000, [](Gen &g, Ctx &c) {
    i64 n = 0;
    switch (g.below(4)) {
    case 0: n = (i64)g.skewed(INT_MAX); break;
    case 1: { // semiprimes, including squares of primes up to the table's end
      u64 a = gen_prime_(g, 46337), b = g.flip() ? a : gen_prime_(g, 46337);
      n = (i64)(a * b);
      if (n > INT_MAX) n = (i64)a;
      break;
    }
    case 2: n = (i64)gen_prime_(g, INT_MAX); break;
    case 3: n = (i64)(2 + g.below(3000)); break;
    }
    if (g.chance(1, 8)) n = -n;
    bool want = is_prime((u64)iabs(n));
    c.log << "n=" << n << (want ? " prime" : " not prime");
    c.label(want ? "prime" : "not prime");
    c.nontrivial = iabs(n) > 3;
    REQUIRE_(c, im::is_prime((int)n) == want, "is_prime(" << n << ") is " << !want);
  });

  p.add("nth-prime", 21000, 60000, [](Gen &g, Ctx &c) {
    static std::vector<u64> pr;
    if (pr.empty())
      for (u64 n = 2; n < 65536; n++)
        if (is_prime(n)) pr.push_back(n);
    i64 k = g.range(-5, (i64)pr.size() + 10);
    if (g.chance(1, 10)) k = g.skewed_signed(INT_MAX);
    c.log << "k=" << k;
    c.nontrivial = k > 1;
    if (k >= 1 && k <= (i64)pr.size()) {
      int got = im::nth_prime((int)k);
      REQUIRE_(c, got == (int)pr[(size_t)k - 1], "prime number " << k << " is " << got << ", not " << pr[(size_t)k - 1]);
    } else {
      bool threw = false;
      try { im::nth_prime((int)k); } catch (const std::exception &) { threw = true; }
      REQUIRE_(c, threw, "prime number " << k << " was not refused");
    }
  });

  p.add("factorization", 140000, 500000, [](Gen &g, Ctx &c) {
    i64 n = 1;
    switch (g.below(4)) {
    case 0: n = (i64)g.skewed(INT_MAX); break;
    case 1:
      for (int i = 0; i < 30; i++) {
        i64 q = (i64)gen_prime_(g, g.flip() ? 20 : 2000);
        if (n * q > INT_MAX) break;
        n *= q;
        if (g.chance(1, 8)) break;
      }
      break;
    case 2: { i64 a = (i64)gen_prime_(g, 46337); n = a; while (n * a <= INT_MAX && g.flip()) n *= a; break; }
    case 3: n = (i64)gen_prime_(g, INT_MAX); break;
    }
    if (g.chance(1, 4)) n = -n;
    c.log << "n=" << n;
    auto want = factor((u64)iabs(n));
    auto fi = spffl::factorization::int_factor((int)n);
    if (iabs(n) >= 2) {
      REQUIRE_(c, fi.get_num_distinct() == (int)want.size(), fi.get_num_distinct() << " distinct primes, not " << want.size());
      int tot = 0;
      for (size_t i = 0; i < want.size(); i++) {
        REQUIRE_(c, fi.get_ith_factor((int)i) == (int)want[i].first && fi.get_ith_count((int)i) == want[i].second,
            "factor " << i << " is " << fi.get_ith_factor((int)i) << "^" << fi.get_ith_count((int)i) << ", not "
                      << want[i].first << "^" << want[i].second);
        tot += want[i].second;
      }
      REQUIRE_(c, fi.get_num_factors() == tot, "number of factors " << fi.get_num_factors());
    } else
      REQUIRE_(c, fi.get_num_distinct() == 0, "a unit or zero has prime factors");
    REQUIRE_(c, fi.unfactor(1) == (int)n, "the factors multiply to " << fi.unfactor(1));
    int unit = 1;
    bool have = fi.get_unit(unit);
    if (iabs(n) >= 1)
      REQUIRE_(c, unit == (n < 0 ? -1 : 1) && (have || n > 0), "unit is " << unit);
    c.nontrivial = want.size() >= 2 || (want.size() == 1 && want[0].second >= 2);
  });
  p.add("independent", 1500, 60000, [](Gen &g, Ctx &c) { pure::independent(g, c, "C01"); });
  return engine_main(argc, argv, p);
}
