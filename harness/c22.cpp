// C22: random elements.
#include "resx.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/int_random.h"
#include "spffl/random/intmod_random.h"
#include <map>
using namespace bind;
using namespace pbt;
namespace rn = spffl::random;

// every case runs from its own seed, so that it can be repeated
static void seed(Gen &g, Ctx &c) {
  unsigned a = (unsigned)g.below((u64)1 << 32), b = (unsigned)g.below((u64)1 << 32);
  spffl::bitrand::sran32b(a, b);
  c.log << "seed " << a << " " << b << ": ";
}
// Frequencies of draws over n equally likely values. With 300 expected of each
// a fair source strays outside [100, 600] with probability below 1e-30.
template <class F> void fair(Ctx &c, u64 n, F draw, const std::string &what) {
  std::map<std::string, int> cnt;
  for (u64 i = 0; i < 300 * n; i++) cnt[draw()]++;
  REQUIRE_(c, cnt.size() == n, what << ": " << cnt.size() << " different values of " << n);
  for (auto &x : cnt) REQUIRE_(c, x.second > 100 && x.second < 600, what << ": " << x.first << " drawn " << x.second << " times of " << 300 * n);
}
// Whatever is drawn is made of residues of integers: each takes every value if
// there are few, and values in each sixteenth of the range otherwise.
template <class F> void digits(const Zn &r, const Zn::E &e, F see) { see(e, r.m); }
template <class R, class F> void digits(const Quot<R> &q, const typename Quot<R>::E &e, F see) {
  for (int k = 0; k < q.n(); k++) digits(q.p.r, q.p.at(e, (size_t)k), see);
}
struct Cover {
  std::vector<u64> sizes;
  std::vector<std::map<u64, int>> seen;
  size_t k = 0;
  void start() { k = 0; }
  void operator()(u64 v, u64 m) {
    if (k >= seen.size()) seen.resize(k + 1), sizes.push_back(m);
    seen[k++][m <= 16 ? v : (u64)((unsigned __int128)v * 16 / m)]++;
  }
  // fixed: digits that keep out of zero
  void check(Ctx &c, const std::string &what, size_t skip = 0) {
    for (size_t i = 0; i + skip < seen.size(); i++)
      REQUIRE_(c, seen[i].size() == std::min<u64>(sizes[i], 16), what << ": digit " << i << " falls in " << seen[i].size() << " of " << std::min<u64>(sizes[i], 16) << " ranges only");
  }
};
// polynomials of an exact degree
template <class A, class F> void polys(Gen &g, Ctx &c, const A &a, F lib, int maxdeg) {
  seed(g, c);
  int d = (int)g.below((u64)maxdeg + 1);
  c.log << a.name() << ", degree " << d;
  c.nontrivial = d > 0;
  u64 q = a.m.r.size();
  std::vector<std::map<std::string, int>> seen((size_t)d + 1);
  int draws = q <= 16 ? (int)q * 40 : 20; // a value missed: q (1-1/q)^(40q) < 1e-16
  for (int i = 0; i < draws; i++) {
    auto e = a.get(lib(d));
    REQUIRE_(c, a.m.deg(e) == d, "degree " << a.m.deg(e) << " drawn, not " << d << ": " << a.m.show(e));
    for (int k = 0; k <= d; k++) seen[(size_t)k][a.m.r.show(e[(size_t)k])]++;
  }
  if (q <= 16)
    for (int k = 0; k <= d; k++)
      REQUIRE_(c, seen[(size_t)k].size() == q - (k == d), "coefficient " << k << " takes " << seen[(size_t)k].size() << " values only");
  else if (g.below(8) == 0) {
    Cover cv; // 640 draws miss a sixteenth with probability 1e-18
    for (int i = 0; i < 640; i++) {
      auto e = a.get(lib(d));
      cv.start();
      for (int k = 0; k <= d; k++) digits(a.m.r, e[(size_t)k], [&](u64 v, u64 m) { cv(v, m); });
    }
    c.label("coefficients from a large field covered");
    cv.check(c, "coefficients");
  }
  REQUIRE_(c, refuses([&]() { lib(-1 - (int)g.below(5)); }), "a negative degree was not refused");
}
template <class A, class F> void residues(Gen &g, Ctx &c, const A &a, F lib, u64 most = 64) {
  seed(g, c);
  u64 n = a.m.size();
  c.log << a.name();
  c.nontrivial = n > 2;
  if (n > 0 && n <= most) {
    c.label("every value counted");
    fair(c, n, [&]() { return a.m.show(a.get(lib())); }, "residues");
  } else {
    std::map<std::string, int> seen;
    Cover cv;
    for (int i = 0; i < 640; i++) {
      auto e = a.get(lib());
      if (i < 40) seen[a.m.show(e)]++;
      cv.start();
      digits(a.m, e, [&](u64 v, u64 m) { cv(v, m); });
    }
    // repeats among 40 draws of at least 65 values: never nearly all
    REQUIRE_(c, seen.size() > 4, "40 draws gave " << seen.size() << " values");
    c.label("large range covered");
    cv.check(c, "residues");
  }
}
static void bits(Gen &g, Ctx &c) {
  seed(g, c);
  int on[64] = {}, on32[32] = {}, oni[32] = {};
  for (int i = 0; i < 600; i++) {
    u64 v = rn::get_random_uint64();
    u64 w = rn::get_random_uint32();
    unsigned x = (unsigned)rn::get_random_int();
    for (int k = 0; k < 64; k++) on[k] += (v >> k) & 1;
    for (int k = 0; k < 32; k++) on32[k] += (w >> k) & 1, oni[k] += (x >> k) & 1;
  }
  c.nontrivial = true;
  for (int k = 0; k < 64; k++) REQUIRE_(c, on[k] > 150 && on[k] < 450, "bit " << k << " of the 64-bit values set " << on[k] << " times of 600");
  for (int k = 0; k < 32; k++) {
    REQUIRE_(c, on32[k] > 150 && on32[k] < 450, "bit " << k << " of the 32-bit values set " << on32[k] << " times of 600");
    REQUIRE_(c, oni[k] > 150 && oni[k] < 450, "bit " << k << " of the ints set " << oni[k] << " times of 600");
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C22";
  p.rule_text =
      "Random elements drawn from generated seeds: polynomials over F2, Fp and F2n of an asked degree (each coefficient takes "
      "every value, the leading one never zero), residues modulo integers and polynomials (reduced; with up to 64 elements all "
      "are drawn about equally often, bounds a fair source breaks with probability below 1e-30; with more, every part of every coordinate is drawn), bits of random words. "
      "Non-trivial: degree above zero; more than two residues.";
  p.assumptions = {"the generator is seeded; its own quality is taken from C29's fixed reference values"};
  static PZn P2{Zn{2}};
  p.add("f2-polys", 2000, 20000, [](Gen &g, Ctx &c) { polys(g, c, F2PolyA(), [](int d) { return rn::f2_poly_random(d); }, g.flip() ? 10 : g.chance(1, 8) ? 700 : 140); });
  p.add("fp-polys", 2000, 10000, [](Gen &g, Ctx &c) {
    FpPolyA a(gen_prime(g, g.flip() ? 17 : 1000000));
    polys(g, c, a, [&](int d) { return rn::fp_poly_random((int)a.m.r.m, d); }, g.chance(1, 8) ? 120 : 12);
  });
  p.add("f2n-polys", 400, 6000, [](Gen &g, Ctx &c) {
    F2nPolyA a(P2.random_irreducible(g, 1 + (int)g.below(g.flip() ? 4 : 12)));
    polys(g, c, a, [&](int d) { return rn::f2n_poly_random(a.c.lm, d); }, g.chance(1, 16) ? 60 : 6);
  });
  p.add("integers", 1000, 10000, [](Gen &g, Ctx &c) {
    u64 m = 2 + (g.flip() ? g.below(62) : g.skewed(0x7ffffffc));
    IntmodA a((i64)m);
    residues(g, c, a, [&]() { return rn::intmod_random((int)m); });
    int bad = 1 - (int)g.skewed(1000);
    REQUIRE_(c, refuses([&]() { rn::intmod_random(bad); }), "modulus " << bad << " was not refused");
  });
  p.add("f2-residues", 200, 4000, [](Gen &g, Ctx &c) {
    F2PolymodA a(P2.random_exact(g, 1 + (int)g.below(g.flip() ? 6 : g.chance(1, 4) ? 300 : 60)));
    residues(g, c, a, [&]() { return rn::f2_polymod_random(a.lm); });
  });
  p.add("fp-residues", 200, 4000, [](Gen &g, Ctx &c) {
    u64 q = gen_prime(g, g.flip() ? 8 : 1000);
    FpPolymodA a(q, PZn{Zn{q}}.random_exact(g, 1 + (int)g.below(g.flip() ? 3 : g.chance(1, 4) ? 40 : 8)));
    residues(g, c, a, [&]() { return rn::fp_polymod_random(a.lm); });
  });
  p.add("f2n-residues", 100, 2000, [](Gen &g, Ctx &c) {
    F2nPolyA pa(P2.random_irreducible(g, 1 + (int)g.below(3)));
    F2nPolymodA a(pa, pa.m.random_exact(g, 1 + (int)g.below(3)));
    residues(g, c, a, [&]() { return rn::f2n_polymod_random(a.p.c.lm, a.lm); }, 16);
  });
  p.add("bits", 600, 4000, bits);
  p.add("bad-moduli", 200, 2000, [](Gen &g, Ctx &c) {
    c.log << "constant moduli";
    c.nontrivial = true;
    REQUIRE_(c, refuses([&]() { rn::f2_polymod_random(f2_poly_t((int)g.below(2))); }), "constant modulus over F2");
    u64 q = gen_prime(g, 1000);
    REQUIRE_(c, refuses([&]() { rn::fp_polymod_random(fp_poly_t(intmod_t((int)g.below(q), (int)q))); }), "constant modulus over F" << q);
  });
  return engine_main(argc, argv, p);
}
