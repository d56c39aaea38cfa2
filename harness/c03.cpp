// C03: rational numbers.
#include "history.h"
#include <climits>
using namespace bind;
using namespace pbt;
template <class F> static bool refuses(F f) {
  try {
    f();
  } catch (const std::exception &) { return true; }
  return false;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C03";
  p.rule_text =
      "Histories over a register file of fractions, small and full-range, whose exact results fit the "
      "representation; single operations against exact 128-bit fractions; non-trivial: at least two arithmetic "
      "steps, or both operands non-integral.";
  p.assumptions = {"results whose reduced numerator or denominator exceeds an int are outside the domain (discarded)",
      "INT_MIN components are outside the domain"};
  p.add("history-small", 240000, 1500000, [](Gen &g, Ctx &c) {
    IntratA a(INT_MAX, true);
    HistOpts o;
    o.order = true;
    o.max_exp = 4;
    o.steps = 6;
    ring_history(a, g, c, o);
  });
  p.add("single-operations", 1200000, 6000000, [](Gen &g, Ctx &c) {
    IntratA a(INT_MAX, true);
    auto fr = [&](i64 cap) {
      i64 k = 1 + (i64)g.skewed(2000);
      i64 n = g.skewed_signed(cap), d = 1 + (i64)g.skewed((u64)cap);
      if (g.flip()) { n = n / k * k; d = d / k * k; if (d == 0) d = k; }
      return std::make_pair(n, g.flip() ? -d : d);
    };
    i64 cap = g.flip() ? INT_MAX - 1 : 50000;
    auto s = fr(cap), t = fr(cap);
    if (g.chance(1, 4) && s.first != 0) { // a neighbour: the cross products differ by one
      i64 r0 = s.second < 0 ? -s.second : s.second, r1 = s.first < 0 ? -s.first : s.first, x0 = 0, x1 = 1;
      i64 d = r0, n = r1;
      while (r1) { // x0 n = r0 mod d
        i64 q = r0 / r1, z = r0 - q * r1;
        r0 = r1, r1 = z;
        z = x0 - q * x1;
        x0 = x1, x1 = z;
      }
      if (r0 == 1 && d > 1) {
        i64 y = ((x0 % d) + d) % d, k = (i64)(((i128)y * n - 1) / d); // y n - k d = 1
        if (y > 0 && k >= 0) t = {s.first < 0 ? -k : k, s.second < 0 ? -y : y};
        if (g.flip() && k + n < INT_MAX && y + d < INT_MAX && y > 0) t = {s.first < 0 ? -k - n : k + n, s.second < 0 ? -y - d : y + d};
        if (s.second < 0) t.second = -t.second, t.first = -t.first;
        if (g.flip()) std::swap(s, t);
      }
    }
    c.log << s.first << "/" << s.second << " and " << t.first << "/" << t.second;
    QQ::E u = a.m.frac(s.first, s.second), v = a.m.frac(t.first, t.second);
    intrat_t x((int)s.first, (int)s.second), y((int)t.first, (int)t.second);
    c.nontrivial = u.d > 1 && v.d > 1;
    auto same = [&](const intrat_t &l, const QQ::E &e, const char *what) {
      QQ::E q = a.get(l);
      REQUIRE_(c, a.m.eq(q, e), what << " is " << a.m.show(q) << ", not " << a.m.show(e));
    };
    same(x, u, "the first operand");
    same(y, v, "the second operand");
    int cm = a.m.cmp(u, v);
    REQUIRE_(c, (x < y) == (cm < 0) && (x <= y) == (cm <= 0) && (x > y) == (cm > 0) && (x >= y) == (cm >= 0) &&
            (x == y) == (cm == 0) && (x != y) == (cm != 0), "comparison disagrees with order " << cm);
    REQUIRE_(c, (x == (int)u.n) == (u.d == 1) && (x != (int)u.n) == (u.d != 1), "comparison with an integer");
    { // near its value, with low words of products in common, and any
      u64 iv = 1, od = (u64)u.d;
      while (od % 2 == 0) od /= 2;
      for (int i = 0; i < 6; i++) iv *= 2 - od * iv;
      int ks[] = {(int)(u.n / u.d), (int)(u.n / u.d) + (u.n < 0 ? -1 : 1), (int)u.d, (int)(uint32_t)(iv * (u64)(i64)u.n), (int)g.skewed_signed(INT_MAX)};
      for (int k : ks) {
        bool eq = u.d == 1 && u.n == k;
        REQUIRE_(c, (x == k) == eq && (x != k) == !eq, "comparison with the integer " << k);
      }
    }
    REQUIRE_(c, text_of(x) == a.m.show(u), "prints as " << text_of(x));
    same(-x, a.m.neg(u), "negation");
    bool any = false;
    auto tryop = [&](auto model, auto lib, const char *what) {
      QQ::E e;
      try { e = model(); } catch (const Discard &) { return; }
      same(lib(), e, what);
      any = true;
    };
    tryop([&]() { return a.m.add(u, v); }, [&]() { return x + y; }, "sum");
    tryop([&]() { return a.m.sub(u, v); }, [&]() { return x - y; }, "difference");
    tryop([&]() { return a.m.mul(u, v); }, [&]() { return x * y; }, "product");
    QQ::E iv;
    if (v.n != 0) {
      a.m.inv(v, iv);
      tryop([&]() { return a.m.mul(u, iv); }, [&]() { return x / y; }, "quotient");
      same(x % y, a.m.zero(), "remainder");
    } else {
      REQUIRE_(c, refuses([&]() { intrat_t z = x / y; }), "division by zero was not refused");
      REQUIRE_(c, refuses([&]() { intrat_t z = x % y; }), "remainder by zero was not refused");
      intrat_t keep(x);
      REQUIRE_(c, refuses([&]() { keep /= y; }) && keep == x, "a refused /= changed its target");
      REQUIRE_(c, refuses([&]() { keep %= y; }) && keep == x, "a refused %= changed its target");
    }
    c.label(any ? "some result in range" : "all results out of range");
    // overwriting a value leaves nothing of it
    int w = (int)g.skewed_signed(INT_MAX);
    intrat_t *r = &(x = w);
    REQUIRE_(c, r == &x, "assignment returns something else");
    same(x, a.m.frac(w, 1), "the value after assigning an integer");
    x = y;
    same(x, v, "the value after assigning a fraction");
  });
  p.add("powers", 240000, 1200000, [](Gen &g, Ctx &c) {
    IntratA a(INT_MAX, true);
    i64 n = g.skewed_signed(1000), d = 1 + (i64)g.skewed(1000);
    int e = (int)g.skewed(32);
    bool neg = g.flip();
    QQ::E u = a.m.frac(n, d), v = a.m.one(), b = u;
    c.log << n << "/" << d << "^" << (neg ? -e : e);
    int pw = neg ? -e : e;
    intrat_t x((int)n, (int)d);
    if (n == 0 && pw <= 0) {
      REQUIRE_(c, refuses([&]() { x.exp(pw); }), "0^" << pw << " was not refused");
      return;
    }
    if (pw < 0) a.m.inv(u, b);
    for (int i = 0; i < e; i++) v = a.m.mul(v, b);
    c.nontrivial = e > 1 && u.d > 1;
    QQ::E got = a.get(x.exp(pw));
    REQUIRE_(c, a.m.eq(got, v), "power is " << a.m.show(got) << ", not " << a.m.show(v));
  });
  p.add("zero-denominator-refused", 12000, 30000, [](Gen &g, Ctx &c) {
    int n = (int)g.skewed_signed(INT_MAX);
    c.log << n << "/0";
    c.nontrivial = true;
    REQUIRE_(c, refuses([&]() { intrat_t x(n, 0); }), "a zero denominator was not refused");
    intrat_t y(n);
    IntratA a(INT_MAX, true);
    REQUIRE_(c, a.get(y).n == n && a.get(y).d == 1, "integer " << n);
    y = (int)(n / 2);
    REQUIRE_(c, a.get(y).n == n / 2 && a.get(y).d == 1, "assigning integer " << n / 2);
  });
  return engine_main(argc, argv, p);
}
