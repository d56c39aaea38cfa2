// Stateful check of a library ring type against its model: a register file of
// library values and model values is driven through a generated sequence of
// operations; after every step every register must still agree with its model.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H
#include "bind.h"

namespace bind {

struct HistOpts {
  int regs = 4;
  int steps = 12;
  int max_deg = 0;    // POLY: largest degree a product may reach (0: no limit)
  int max_exp = 6;
  bool order = false; // check < <= > >= for being a total order consistent with ==
  bool div = true;
  bool zero_to_zero = true; // 0^0 must be refused
  bool allow_nonfield = false; // modulus may be reducible: division may be refused
};

template <class A> struct History {
  typedef typename A::T T;
  typedef typename A::M M;
  typedef typename M::E E;
  const A &a;
  pbt::Gen &g;
  pbt::Ctx &c;
  HistOpts o;
  std::vector<T> x;
  std::vector<E> e;
  bool no_negative_powers = false;
  std::vector<int> seed_degrees; // POLY: exact degrees of the initial registers

  History(const A &aa, pbt::Gen &gg, pbt::Ctx &cc, HistOpts oo) : a(aa), g(gg), c(cc), o(oo) {}

  void check_all(const std::string &op) {
    for (size_t i = 0; i < x.size(); i++) {
      E got;
      try {
        got = a.get(x[i]);
      } catch (const pbt::Fail &f) {
        pbt::fail("after " + op + ", r" + std::to_string(i) + " (should be " + a.m.show(e[i]) + "): " + f.msg);
      }
      c.compared++;
      if (!a.m.eq(got, e[i]))
        pbt::fail("after " + op + ", r" + std::to_string(i) + " is " + a.m.show(got) +
                  " but should be " + a.m.show(e[i]));
    }
  }
  static std::string R(size_t i) { return "r" + std::to_string(i); }

  // run f; it must throw a std::exception; nothing may change
  template <class F> void must_refuse(const std::string &op, F f) {
    bool threw = false;
    try {
      f();
    } catch (const std::exception &) {
      threw = true;
    }
    c.label("refused");
    REQUIRE_(c, threw, op << " was not refused");
  }

  bool too_big(const E &u, const E &v) const {
    if constexpr (A::kind == POLY) {
      if (o.max_deg && (int)(u.size() + v.size()) - 2 > o.max_deg) return true;
    }
    return grows(u, v);
  }
  // elements whose size grows under every operation (fractions)
  bool grows(const E &u, const E &v) const {
    if constexpr (requires { a.weight(u); }) return o.max_deg && a.weight(u) + a.weight(v) > o.max_deg;
    return false;
  }

  // exact model division; false when it must be refused
  bool mdiv(const E &u, const E &v, E &q, E &r) const {
    if constexpr (A::kind == POLY) {
      if (v.empty()) return false;
      a.m.divmod(u, v, q, r);
      return true;
    } else {
      E iv;
      if (!a.m.inv(v, iv)) return false;
      q = a.m.mul(u, iv);
      r = a.m.zero();
      return true;
    }
  }

  void run() {
    c.log << a.name() << ":";
    for (int i = 0; i < o.regs; i++) {
      if constexpr (A::kind == POLY) {
        if (!seed_degrees.empty()) e.push_back(a.m.random_exact(g, g.pick(seed_degrees)));
        else e.push_back(a.m.random(g));
      } else
        e.push_back(a.m.random(g));
      x.push_back(a.make(e.back()));
      c.log << " " << R((size_t)i) << "=" << a.m.show(e.back());
    }
    check_all("construction");
    int steps = 1 + (int)g.below((u64)o.steps);
    int arith = 0;
    for (int s = 0; s < steps; s++) {
      size_t d = (size_t)g.below(x.size()), i = (size_t)g.below(x.size()),
             j = (size_t)g.below(x.size());
      int op = (int)g.below(17);
      std::string t;
      switch (op) {
      case 0: {
        if (grows(e[i], e[j])) break;
        t = R(d) + "=" + R(i) + "+" + R(j);
        c.log << "; " << t;
        E v = a.m.add(e[i], e[j]);
        x[d] = x[i] + x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 1: {
        if (grows(e[i], e[j])) break;
        t = R(d) + "=" + R(i) + "-" + R(j);
        c.log << "; " << t;
        E v = a.m.sub(e[i], e[j]);
        x[d] = x[i] - x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 2: {
        if (too_big(e[i], e[j])) break;
        t = R(d) + "=" + R(i) + "*" + R(j);
        c.log << "; " << t;
        E v = a.m.mul(e[i], e[j]);
        x[d] = x[i] * x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 3: {
        t = R(d) + "=-" + R(i);
        c.log << "; " << t;
        E v = a.m.neg(e[i]);
        x[d] = -x[i];
        e[d] = v;
        arith++;
        break;
      }
      case 4: {
        if (grows(e[d], e[j])) break;
        t = R(d) + "+=" + R(j);
        c.log << "; " << t;
        E v = a.m.add(e[d], e[j]);
        x[d] += x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 5: {
        if (grows(e[d], e[j])) break;
        t = R(d) + "-=" + R(j);
        c.log << "; " << t;
        E v = a.m.sub(e[d], e[j]);
        x[d] -= x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 6: {
        if (too_big(e[d], e[j])) break;
        t = R(d) + "*=" + R(j);
        c.log << "; " << t;
        E v = a.m.mul(e[d], e[j]);
        x[d] *= x[j];
        e[d] = v;
        arith++;
        break;
      }
      case 7:
      case 8:
      case 9:
      case 10: {
        if (!o.div) break;
        bool rem = op == 8 || op == 10, assign = op >= 9;
        size_t l = assign ? d : i;
        t = assign ? R(d) + (rem ? "%=" : "/=") + R(j)
                   : R(d) + "=" + R(i) + (rem ? "%" : "/") + R(j);
        c.log << "; " << t;
        if (grows(e[l], e[j])) break;
        E q, r;
        if (!mdiv(e[l], e[j], q, r)) {
          must_refuse(t, [&]() { // on the register itself: check_all() sees whether it changed
            if (assign) {
              if (rem) x[d] %= x[j];
              else x[d] /= x[j];
            } else if (rem) x[d] = x[i] % x[j];
            else x[d] = x[i] / x[j];
          });
          break;
        }
        if (assign) {
          if (rem) x[d] %= x[j];
          else x[d] /= x[j];
        } else {
          if (rem) x[d] = x[i] % x[j];
          else x[d] = x[i] / x[j];
        }
        e[d] = rem ? r : q;
        arith++;
        break;
      }
      case 11: {
        t = R(d) + "=" + R(i);
        c.log << "; " << t;
        x[d] = x[i];
        e[d] = E(e[i]);
        if (d == i) c.label("self-assignment");
        break;
      }
      case 12: {
        if (grows(e[i], e[j])) break;
        t = "copy " + R(i) + ", change the copy, swap through it into " + R(d);
        c.log << "; " << t;
        T y(x[i]);
        y += x[j];
        E v = a.m.add(e[i], e[j]);
        std::swap(x[d], y);
        e[d] = v;
        break;
      }
      case 13: {
        int p = (int)g.below((u64)o.max_exp + 1);
        bool negp = A::kind == FIELD && g.chance(1, 3) && !no_negative_powers;
        if (too_big(e[i], e[i])) break;
        if constexpr (A::kind == POLY) {
          if (o.max_deg && (int)e[i].size() * p > o.max_deg) break;
        }
        if constexpr (requires { a.weight(e[i]); }) {
          if (o.max_deg && a.weight(e[i]) * std::max(1, 2 * p) > o.max_deg) break;
        }
        int pw = negp ? -p : p;
        t = R(d) + "=" + R(i) + "^" + std::to_string(pw);
        c.log << "; " << t;
        bool unit = true;
        E b = e[i], iv;
        if (negp && p) {
          unit = a.m.inv(b, iv);
          b = iv;
        }
        if (a.m.is_zero(e[i]) && pw <= 0) {
          if (pw == 0 && !o.zero_to_zero) break;
          // 0^0 is documented as undefined; 0^-k is a division by zero
          must_refuse(t, [&]() { x[d] = x[i].exp(pw); });
          break;
        }
        if (!unit) {
          must_refuse(t, [&]() { x[d] = x[i].exp(pw); });
          break;
        }
        E v = a.m.one();
        for (int k = 0; k < p; k++) v = a.m.mul(v, b);
        x[d] = x[i].exp(pw);
        e[d] = v;
        arith++;
        break;
      }
      case 14: {
        t = "compare " + R(i) + "," + R(j);
        bool same = a.m.eq(e[i], e[j]);
        REQUIRE_(c, (x[i] == x[j]) == same, t << ": == gives " << (x[i] == x[j]));
        REQUIRE_(c, (x[i] != x[j]) == !same, t << ": != gives " << (x[i] != x[j]));
        T y(x[i]);
        REQUIRE_(c, y == x[i] && !(y != x[i]), t << ": a copy differs from its original");
        if (o.order) {
          bool lt = x[i] < x[j], le = x[i] <= x[j], gt = x[i] > x[j], ge = x[i] >= x[j];
          REQUIRE_(c, le == (lt || same) && ge == (gt || same) && (int)lt + (int)gt + (int)same == 1,
              t << ": < " << lt << " <= " << le << " > " << gt << " >= " << ge << " == " << same);
          REQUIRE_(c, (x[j] < x[i]) == gt && (x[j] > x[i]) == lt, t << ": order not antisymmetric");
          size_t k = d;
          if (x[i] < x[j] && x[j] < x[k])
            REQUIRE_(c, x[i] < x[k], "order not transitive on " << R(i) << R(j) << R(k));
        }
        break;
      }
      case 15: {
        e[d] = a.m.random(g);
        c.log << "; " << R(d) << ":=" << a.m.show(e[d]);
        t = "fresh";
        x[d] = a.make(e[d]);
        break;
      }
      case 16: {
        // distributivity on the library's own values, through temporaries
        if (too_big(e[i], e[j]) || too_big(e[i], e[d]) || grows(e[j], e[d])) break;
        if (grows(a.m.mul(e[i], e[j]), a.m.mul(e[i], e[d]))) break;
        t = "distribute " + R(i) + "," + R(j) + "," + R(d);
        c.log << "; " << t;
        if constexpr (std::is_same<typename A::M, QQ>::value || std::is_same<typename A::M, PQ>::value) {
          a.m.mul(e[i], a.m.add(e[j], e[d])); // discards when out of range
          a.m.add(a.m.mul(e[i], e[j]), a.m.mul(e[i], e[d]));
        }
        T s = x[j] + x[d];
        T l = x[i] * s;
        T r1 = x[i] * x[j], r2 = x[i] * x[d];
        T r = r1 + r2;
        REQUIRE_(c, l == r, "a(b+c) != ab+ac");
        break;
      }
      }
      if (!t.empty()) check_all(t);
    }
    c.nontrivial = arith >= 2;
    c.label(arith >= 2 ? "histories with >= 2 arithmetic steps" : "short histories");
  }
};

template <class A> void ring_history(const A &a, pbt::Gen &g, pbt::Ctx &c, HistOpts o) {
  History<A> h(a, g, c, o);
  h.run();
}

} // namespace bind
#endif
