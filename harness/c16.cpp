// C16: generic vectors, matrices and stacks as values.
#include "spffl/containers/tstack.h"
#include "tmatx.h"
using namespace bind;
using namespace pbt;

template <class A> void vec_history(Gen &g, Ctx &c, const A &a, size_t top = 12) {
  typedef typename A::T T;
  TM<A> t(a);
  typedef typename TM<A>::V V;
  const auto &K = a.m;
  const size_t R = 4;
  std::vector<tvector<T>> x;
  std::vector<V> e;
  size_t len = top > 12 ? top / 4 + (size_t)g.below(top) : 1 + (size_t)g.skewed(12);
  c.log << a.name() << ":";
  for (size_t i = 0; i < R; i++) {
    size_t n = g.chance(1, 5) ? 1 + (size_t)g.skewed(2 * top) : len;
    if (g.chance(1, 4)) {
      auto s = K.random(g);
      x.push_back(tvector<T>(a.make(s), (int)n));
      e.push_back(V(n, s));
    } else {
      e.push_back(t.randv(g, n));
      x.push_back(t.mkv(e.back()));
    }
    c.log << " r" << i << "=" << t.sv(e.back());
  }
  auto map2 = [&](const V &u, const V &v, int op) {
    V w;
    for (size_t k = 0; k < u.size(); k++)
      w.push_back(op == 0 ? K.add(u[k], v[k]) : op == 1 ? K.sub(u[k], v[k]) : K.mul(u[k], v[k]));
    return w;
  };
  int steps = 1 + (int)g.below(10), done = 0;
  for (int s = 0; s < steps; s++) {
    size_t d = (size_t)g.below(R), i = (size_t)g.below(R), j = (size_t)g.below(R);
    bool eqlen = e[i].size() == e[j].size(), deq = e[d].size() == e[i].size();
    std::string r = " r" + std::to_string(d) + ",r" + std::to_string(i) + ",r" + std::to_string(j), w;
    int op = (int)g.below(20);
    switch (op) {
    case 0: case 1: case 2: {
      w = std::string(op == 0 ? "add" : op == 1 ? "subtract" : "multiply") + r;
      c.log << "; " << w;
      auto f = [&]() { return op == 0 ? x[i] + x[j] : op == 1 ? x[i] - x[j] : x[i] * x[j]; };
      if (!eqlen) {
        c.label("refused lengths");
        REQUIRE_(c, refuses([&]() { f(); }), w << " not refused");
        break;
      }
      V v = map2(e[i], e[j], op);
      x[d] = f();
      e[d] = v;
      done++;
      break;
    }
    case 3: case 4: case 5: {
      w = std::string(op == 3 ? "+=" : op == 4 ? "-=" : "*=") + r;
      c.log << "; " << w;
      auto f = [&]() {
        if (op == 3) x[d] += x[i];
        else if (op == 4) x[d] -= x[i];
        else x[d] *= x[i];
      };
      if (!deq) {
        c.label("refused lengths");
        REQUIRE_(c, refuses(f), w << " not refused");
        break;
      }
      V v = map2(e[d], e[i], op - 3);
      f();
      e[d] = v;
      done++;
      break;
    }
    case 6: {
      w = "negate" + r;
      c.log << "; " << w;
      V v;
      for (auto &k : e[i]) v.push_back(K.neg(k));
      x[d] = -x[i];
      e[d] = v;
      done++;
      break;
    }
    case 7: case 8: {
      // scaling, the scalar possibly one of the vector's own elements
      size_t k = (size_t)g.below(e[d].size());
      int how = (int)g.below(4);
      bool own = g.flip();
      auto sc = own ? e[d][k] : K.random(g);
      w = "scale by " + K.show(sc) + (own ? " (its own element)" : "") + " how " + std::to_string(how) + r;
      c.log << "; " << w;
      typename A::M::E iv = sc;
      if (how == 2 && !K.inv(sc, iv)) break;
      V v;
      for (auto &q : e[d]) v.push_back(K.mul(q, how == 2 ? iv : sc));
      T ls = a.make(sc);
      if (how == 0) {
        if (own) x[d] *= x[d][(int)k];
        else x[d] *= ls;
      } else if (how == 1) {
        if (own) x[d].mult_by(x[d][(int)k]);
        else x[d].mult_by(ls);
      } else if (how == 2) {
        if (own) x[d] /= x[d][(int)k];
        else x[d] /= ls;
      } else {
        if (own) x[d] = x[d] * x[d][(int)k];
        else x[d] = x[d] * ls;
      }
      e[d] = v;
      done++;
      break;
    }
    case 9: {
      w = "dot" + r;
      c.log << "; " << w;
      if (!eqlen) {
        REQUIRE_(c, refuses([&]() { x[i].dot(x[j]); }), w << " not refused");
        break;
      }
      auto s2 = K.zero();
      for (size_t k = 0; k < e[i].size(); k++) s2 = K.add(s2, K.mul(e[i][k], e[j][k]));
      t.checkv(c, tvector<T>(x[i].dot(x[j]), 1), V{s2}, w);
      done++;
      break;
    }
    case 10: {
      w = "assign" + r;
      c.log << "; " << w;
      x[d] = x[i];
      e[d] = V(e[i]);
      if (d == i) c.label("self-assignment");
      break;
    }
    case 11: {
      w = "swap" + r;
      c.log << "; " << w;
      if (!deq) {
        REQUIRE_(c, refuses([&]() { x[d].ptrswap(x[i]); }), w << " not refused");
        break;
      }
      x[d].ptrswap(x[i]);
      std::swap(e[d], e[i]);
      break;
    }
    case 12: {
      int n = (int)e[d].size(), k = g.chance(1, 4) ? (int)g.range(-2, n + 2) : (int)g.below((u64)n);
      auto v = K.random(g);
      w = "element " + std::to_string(k) + ":=" + K.show(v) + r;
      c.log << "; " << w;
      T lv = a.make(v);
      if (k < 0 || k >= n) {
        c.label("refused index");
        REQUIRE_(c, refuses([&]() { x[d][k] = lv; }), w << ": length " << n << " not refused");
        break;
      }
      x[d][k] = lv;
      e[d][(size_t)k] = v;
      break;
    }
    case 13: {
      w = "leader" + r;
      int pos = -7;
      bool any = x[d].find_leader_pos(a.make(K.zero()), pos);
      size_t k = 0;
      while (k < e[d].size() && K.is_zero(e[d][k])) k++;
      REQUIRE_(c, any == (k < e[d].size()) && (!any || pos == (int)k), w << ": " << any << " " << pos << " in " << t.sv(e[d]));
      break;
    }
    case 14: {
      w = "compare" + r;
      bool same = t.eqv(e[i], e[j]);
      REQUIRE_(c, (x[i] == x[j]) == same && (x[i] != x[j]) == !same, w << ": == gives " << (x[i] == x[j]));
      auto s2 = g.flip() ? e[d][0] : K.zero();
      bool all = true;
      for (auto &k : e[d]) all = all && K.eq(k, s2);
      T ls = a.make(s2);
      REQUIRE_(c, (x[d] == ls) == all && (x[d] != ls) == !all, w << ": == scalar " << K.show(s2) << " for " << t.sv(e[d]));
      break;
    }
    case 15: {
      auto s2 = K.random(g);
      w = "fill with " + K.show(s2) + r;
      c.log << "; " << w;
      T ls = a.make(s2);
      x[d] = ls;
      e[d] = V(e[d].size(), s2);
      tvector<T> y;
      REQUIRE_(c, y.get_num_elements() == 0, "an empty vector has elements");
      y = ls;
      t.checkv(c, y, V{s2}, "scalar assigned to an empty vector");
      y = x[i];
      t.checkv(c, y, e[i], "vector assigned over a shorter one");
      break;
    }
    case 16: {
      w = "copy, change the copy" + r;
      c.log << "; " << w;
      tvector<T> y(x[i]);
      size_t k = (size_t)g.below(e[i].size());
      auto v = K.random(g);
      y[(int)k] = a.make(v);
      V ev(e[i]);
      ev[k] = v;
      t.checkv(c, y, ev, w);
      break;
    }
    case 17: {
      size_t k = 1 + (size_t)g.below(e[d].size());
      w = "trim to " + std::to_string(k) + r;
      c.log << "; " << w;
      int n = (int)e[d].size();
      REQUIRE_(c, refuses([&]() { x[d].trim_num_elements(0); }) && refuses([&]() { x[d].trim_num_elements(n + 1); }),
          "trimming to a bad length not refused");
      x[d].trim_num_elements((int)k);
      e[d].resize(k);
      break;
    }
    case 18: {
      // u = u a - v b
      w = "accumulate" + r;
      c.log << "; " << w;
      auto p = K.random(g), q = K.random(g);
      T lp = a.make(p), lq = a.make(q);
      if (!deq) {
        REQUIRE_(c, refuses([&]() { x[d].accum_row_mul(lp, lq, x[i]); }), w << " not refused");
        break;
      }
      V v;
      for (size_t k = 0; k < e[d].size(); k++) v.push_back(K.sub(K.mul(e[d][k], p), K.mul(e[i][k], q)));
      x[d].accum_row_mul(lp, lq, x[i]);
      e[d] = v;
      done++;
      break;
    }
    case 19: {
      w = "fresh" + r;
      e[d] = t.randv(g, g.flip() ? len : 1 + (size_t)g.skewed(30));
      c.log << "; r" << d << ":=" << t.sv(e[d]);
      x[d] = t.mkv(e[d]);
      int n = -(int)g.below(3);
      REQUIRE_(c, refuses([&]() { tvector<T> y(a.make(K.zero()), n); }), "length " << n << " not refused");
      break;
    }
    }
    for (size_t k = 0; k < R; k++) t.checkv(c, x[k], e[k], "after " + w + ", r" + std::to_string(k));
  }
  c.nontrivial = done >= 2 && len > 1;
}

template <class A> void mat_history(Gen &g, Ctx &c, const A &a, size_t md) {
  typedef typename A::T T;
  TM<A> t(a);
  auto &mm = t.mm;
  typedef typename TM<A>::W W;
  typedef typename TM<A>::V V;
  const auto &K = a.m;
  const size_t R = 3;
  std::vector<tmatrix<T>> x;
  std::vector<W> e;
  size_t m0 = 1 + (size_t)g.below(md), n0 = g.chance(2, 3) ? m0 : 1 + (size_t)g.below(md);
  c.log << a.name() << ":";
  for (size_t i = 0; i < R; i++) {
    size_t m = m0, n = n0;
    if (g.chance(1, 6)) m = 1 + (size_t)g.below(md), n = 1 + (size_t)g.below(md);
    if (g.chance(1, 5)) {
      auto s = K.random(g);
      e.push_back(W(m, V(n, s)));
      x.push_back(tmatrix<T>(a.make(s), (int)m, (int)n));
    } else {
      e.push_back(mm.random(g, m, n));
      x.push_back(t.mk(e.back()));
    }
    c.log << " A" << i << "=" << mm.show(e.back());
  }
  auto dim = [&](size_t i, size_t j) { return e[i].size() == e[j].size() && e[i][0].size() == e[j][0].size(); };
  int steps = 1 + (int)g.below(7), done = 0;
  for (int s = 0; s < steps; s++) {
    size_t d = (size_t)g.below(R), i = (size_t)g.below(R), j = (size_t)g.below(R);
    size_t nr = e[d].size(), nc = e[d][0].size();
    std::string r = " A" + std::to_string(d) + ",A" + std::to_string(i) + ",A" + std::to_string(j), w;
    int op = (int)g.below(20);
    switch (op) {
    case 0: case 1: {
      w = (op ? "subtract" : "add") + r;
      c.log << "; " << w;
      auto f = [&]() { return op ? x[i] - x[j] : x[i] + x[j]; };
      if (!dim(i, j)) {
        c.label("refused shapes");
        REQUIRE_(c, refuses([&]() { f(); }), w << " not refused");
        break;
      }
      W v = op ? mm.sub(e[i], e[j]) : mm.add(e[i], e[j]);
      x[d] = f();
      e[d] = v;
      done++;
      break;
    }
    case 2: case 3: {
      w = (op == 3 ? "-=" : "+=") + r;
      c.log << "; " << w;
      auto f = [&]() {
        if (op == 3) x[d] -= x[i];
        else x[d] += x[i];
      };
      if (!dim(d, i)) {
        REQUIRE_(c, refuses(f), w << " not refused");
        break;
      }
      W v = op == 3 ? mm.sub(e[d], e[i]) : mm.add(e[d], e[i]);
      f();
      e[d] = v;
      done++;
      break;
    }
    case 4: case 5: {
      size_t l = op == 5 ? d : i;
      w = (op == 5 ? "*=" : "multiply") + r;
      c.log << "; " << w;
      auto f = [&]() {
        if (op == 5) x[d] *= x[j];
        else x[d] = x[i] * x[j];
      };
      if (e[l][0].size() != e[j].size()) {
        c.label("refused shapes");
        REQUIRE_(c, refuses(f), w << " not refused");
        break;
      }
      W v = mm.mul(e[l], e[j]);
      f();
      e[d] = v;
      done++;
      break;
    }
    case 6: {
      bool left = g.flip();
      size_t want = left ? e[i].size() : e[i][0].size();
      size_t n = g.chance(1, 5) ? 1 + (size_t)g.below(md + 1) : want;
      V v = t.randv(g, n);
      w = std::string(left ? "row vector times matrix " : "matrix times vector ") + t.sv(v) + r;
      c.log << "; " << w;
      tvector<T> lv = t.mkv(v);
      if (n != want) {
        REQUIRE_(c, refuses([&]() { if (left) lv * x[i]; else x[i] * lv; }), w << " not refused");
        break;
      }
      if (left) t.checkv(c, lv * x[i], mm.mulv(mm.transpose(e[i]), v), w);
      else t.checkv(c, x[i] * lv, mm.mulv(e[i], v), w);
      t.checkv(c, lv, v, "operand of " + w);
      done++;
      break;
    }
    case 7: {
      w = "transpose" + r;
      c.log << "; " << w;
      W v = mm.transpose(e[i]);
      x[d] = x[i].transpose();
      e[d] = v;
      done++;
      break;
    }
    case 8: {
      int how = (int)g.below(3);
      w = "flip " + std::to_string(how) + r;
      c.log << "; " << w;
      W v(e[i]);
      if (how != 1)
        for (auto &row : v) std::reverse(row.begin(), row.end());
      if (how != 0) std::reverse(v.begin(), v.end());
      x[d] = how == 0 ? x[i].flip_horiz() : how == 1 ? x[i].flip_vert() : x[i].flip_horiz_vert();
      e[d] = v;
      done++;
      break;
    }
    case 9: {
      w = "assign" + r;
      c.log << "; " << w;
      x[d] = x[i];
      e[d] = W(e[i]);
      break;
    }
    case 10: {
      V u = t.randv(g, 1 + (size_t)g.below(md)), v = t.randv(g, 1 + (size_t)g.below(md));
      w = "outer " + t.sv(u) + t.sv(v) + r;
      c.log << "; " << w;
      e[d].clear();
      for (auto &p : u) {
        V row;
        for (auto &q : v) row.push_back(K.mul(p, q));
        e[d].push_back(row);
      }
      x[d] = tmatrix<T>::outer(t.mkv(u), t.mkv(v));
      done++;
      break;
    }
    case 11: {
      w = "paste and split" + r;
      c.log << "; " << w;
      V cv = t.randv(g, e[i].size());
      W pv(e[i]);
      for (size_t k = 0; k < pv.size(); k++) pv[k].push_back(cv[k]);
      t.check(c, x[i].paste_vector(t.mkv(cv)), pv, "pasted vector");
      tvector<T> wrong = t.mkv(t.randv(g, e[i].size() + 1));
      REQUIRE_(c, refuses([&]() { x[i].paste_vector(wrong); }), "pasting a longer vector not refused");
      if (e[i].size() != e[j].size()) {
        REQUIRE_(c, refuses([&]() { x[i].paste(x[j]); }), w << " not refused");
        break;
      }
      tmatrix<T> p = x[i].paste(x[j]);
      W pw(e[i]);
      for (size_t k = 0; k < pw.size(); k++) pw[k].insert(pw[k].end(), e[j][k].begin(), e[j][k].end());
      t.check(c, p, pw, w);
      int col = (int)g.below(pw[0].size() + 2);
      c.log << " at " << col;
      tmatrix<T> l, rt;
      if (col == 0 || col >= (int)pw[0].size()) {
        REQUIRE_(c, refuses([&]() { p.split(l, rt, col); }), "splitting at " << col << " not refused");
        break;
      }
      p.split(l, rt, col);
      W wl, wr;
      for (auto &row : pw) {
        wl.push_back(V(row.begin(), row.begin() + col));
        wr.push_back(V(row.begin() + col, row.end()));
      }
      t.check(c, l, wl, w + ", left");
      t.check(c, rt, wr, w + ", right");
      done++;
      break;
    }
    case 12: {
      size_t p = (size_t)g.below(nr), q = (size_t)g.below(nr);
      w = "swap rows " + std::to_string(p) + "," + std::to_string(q) + r;
      c.log << "; " << w;
      x[d].swap((int)p, (int)q);
      std::swap(e[d][p], e[d][q]);
      break;
    }
    case 13: {
      size_t p = (size_t)g.below(nr), q = (size_t)g.below(nc);
      auto v = K.random(g);
      w = "element " + std::to_string(p) + "," + std::to_string(q) + ":=" + K.show(v) + r;
      c.log << "; " << w;
      x[d][(int)p][(int)q] = a.make(v);
      e[d][p][q] = v;
      REQUIRE_(c, refuses([&]() { x[d][(int)nr]; }) && refuses([&]() { x[d][-1]; }), "row out of bounds not refused");
      break;
    }
    case 14: {
      w = "compare" + r;
      if (dim(i, j)) {
        bool same = mm.eq(e[i], e[j]);
        REQUIRE_(c, (x[i] == x[j]) == same && (x[i] != x[j]) == !same, w << ": == gives " << (x[i] == x[j]));
      } else
        REQUIRE_(c, refuses([&]() { (void)(x[i] == x[j]); }), w << ": different shapes not refused");
      bool any = false, all = true;
      auto s2 = e[d][0][0];
      for (auto &row : e[d])
        for (auto &k : row) {
          any = any || !K.is_zero(k);
          all = all && K.eq(k, s2);
        }
      T ls = a.make(s2);
      REQUIRE_(c, (x[d] == ls) == all && (x[d] != ls) == !all, w << ": == scalar");
      REQUIRE_(c, x[d].is_zero() == !any, w << ": is_zero " << x[d].is_zero());
      bool id = nr == nc && mm.eq(e[d], mm.ident(nr));
      REQUIRE_(c, x[d].is_I() == id && x[d].is_square() == (nr == nc), w << ": is_I " << x[d].is_I());
      break;
    }
    case 15: {
      w = "diagonal" + r;
      auto s2 = K.random(g);
      c.log << "; " << w << " " << K.show(s2);
      T ls = a.make(s2);
      if (nr != nc) {
        REQUIRE_(c, refuses([&]() { x[d] += ls; }) && refuses([&]() { x[d] - ls; }), w << " not refused");
        REQUIRE_(c, refuses([&]() { x[d].make_I(ls, ls); }), "identity of a non-square shape not refused");
        break;
      }
      bool minus = g.flip();
      W v(e[d]);
      for (size_t k = 0; k < nr; k++) v[k][k] = minus ? K.sub(v[k][k], s2) : K.add(v[k][k], s2);
      if (g.flip()) {
        if (minus) x[d] -= ls;
        else x[d] += ls;
      } else
        x[d] = minus ? x[d] - ls : x[d] + ls;
      e[d] = v;
      t.check(c, x[d].make_I(a.make(K.zero()), a.make(K.one())), mm.ident(nr), "identity");
      done++;
      break;
    }
    case 16: {
      bool own = g.flip();
      size_t p = (size_t)g.below(nr), q = (size_t)g.below(nc);
      auto s2 = own ? e[d][p][q] : K.random(g);
      int how = (int)g.below(3);
      w = "scale or fill by " + K.show(s2) + (own ? " (its own element)" : "") + r;
      c.log << "; " << w;
      T ls = a.make(s2);
      W v(e[d]);
      for (auto &row : v)
        for (auto &k : row) k = how == 2 ? s2 : K.mul(k, s2);
      if (how == 0) {
        if (own) x[d] *= x[d][(int)p][(int)q];
        else x[d] *= ls;
      } else if (how == 1) {
        if (own) x[d] = x[d] * x[d][(int)p][(int)q];
        else x[d] = x[d] * ls;
      } else {
        if (own) x[d] = x[d][(int)p][(int)q];
        else x[d] = ls;
      }
      e[d] = v;
      done++;
      break;
    }
    case 17: {
      size_t q = (size_t)g.below(nc);
      V v = t.randv(g, nr);
      w = "column " + std::to_string(q) + r;
      c.log << "; " << w;
      V col;
      for (auto &row : e[d]) col.push_back(row[q]);
      tvector<T> lc = x[d].get_column((int)q), lv = t.mkv(v), longer = t.mkv(t.randv(g, nr + 1));
      t.checkv(c, lc, col, w);
      lc[0] = a.make(K.random(g)); // a copy
      t.check(c, x[d], e[d], "matrix after changing a copied column");
      REQUIRE_(c, refuses([&]() { x[d].get_column((int)nc); }) && refuses([&]() { x[d].get_column(-1); }) &&
          refuses([&]() { x[d].put_column((int)nc, lv); }) && refuses([&]() { x[d].put_column(0, longer); }),
          "bad column index or height not refused");
      x[d].put_column((int)q, lv);
      for (size_t k = 0; k < nr; k++) e[d][k][q] = v[k];
      done++;
      break;
    }
    case 18: {
      size_t k = (size_t)g.below(e[i].size());
      w = "find row" + r;
      tvector<T> row = t.mkv(e[i][k]);
      int at = -5;
      bool f = x[i].find_row(row, at);
      size_t first = 0;
      while (!t.eqv(e[i][first], e[i][k])) first++;
      REQUIRE_(c, f && at == (int)first, w << ": row " << k << " found " << f << " at " << at << ", not " << first);
      V other = t.randv(g, e[i][0].size());
      bool in = false;
      for (auto &q : e[i]) in = in || t.eqv(q, other);
      tvector<T> lo = t.mkv(other);
      REQUIRE_(c, x[i].find_row(lo, at) == in, w << ": " << t.sv(other) << " found " << !in);
      break;
    }
    case 19: {
      w = "negate or trim" + r;
      c.log << "; " << w;
      if (g.flip()) {
        W v = mm.neg(e[i]);
        x[d] = -x[i];
        e[d] = v;
      } else {
        size_t k = 1 + (size_t)g.below(nr);
        REQUIRE_(c, refuses([&]() { x[d].trim_num_rows(0); }) && refuses([&]() { x[d].trim_num_rows((int)nr + 1); }),
            "trimming to a bad row count not refused");
        x[d].trim_num_rows((int)k);
        e[d].resize(k);
      }
      break;
    }
    }
    for (size_t k = 0; k < R; k++) t.check(c, x[k], e[k], "after " + w + ", A" + std::to_string(k));
  }
  c.nontrivial = done >= 2;
}

template <class A> void stack_history(Gen &g, Ctx &c, const A &a) {
  typedef typename A::T T;
  typedef std::vector<typename A::M::E> V;
  const auto &K = a.m;
  const size_t R = 3;
  std::vector<tstack<T>> x(R);
  std::vector<V> e(R);
  c.log << a.name() << ":";
  int steps = 1 + (int)g.skewed(60), pushes = 0;
  auto pop = [&](tstack<T> &s, V &v) {
    T y = a.make(K.zero());
    bool ok = s.pop(y);
    REQUIRE_(c, ok == !v.empty(), "pop gave " << ok << " with " << v.size() << " on the stack");
    if (!ok) return;
    REQUIRE_(c, K.eq(a.get(y), v.back()), "popped " << K.show(a.get(y)) << ", not " << K.show(v.back()));
    v.pop_back();
  };
  for (int s = 0; s < steps; s++) {
    size_t d = (size_t)g.below(R), i = (size_t)g.below(R);
    switch (g.below(8)) {
    case 0: case 1: case 2: case 3: {
      int k = 1 + (int)(g.chance(1, 30) ? g.below(500) : g.skewed(12));
      while (k--) {
        auto v = K.random(g);
        x[d].push(a.make(v));
        e[d].push_back(v);
        pushes++;
        c.log << " " << d << "<-" << K.show(v);
      }
      break;
    }
    case 4: case 5:
      c.log << " pop" << d;
      pop(x[d], e[d]);
      break;
    case 6:
      c.log << " " << d << "=" << i;
      x[d] = x[i];
      e[d] = V(e[i]);
      break;
    case 7: {
      c.log << " copy" << i;
      tstack<T> y(x[i]);
      V v(e[i]);
      y.push(a.make(K.one()));
      v.push_back(K.one());
      while (!v.empty()) pop(y, v);
      break;
    }
    }
  }
  for (size_t k = 0; k < R; k++) {
    while (!e[k].empty()) pop(x[k], e[k]);
    pop(x[k], e[k]);
  }
  c.nontrivial = pushes > 10;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C16";
  p.rule_text =
      "Histories over four vectors, three matrices (up to 5x5, some to 36x36; vectors to 375 elements) or three stacks of residues, rationals, polynomials (heap-"
      "owning elements among them) through every structural operation: arithmetic, scaling by an own element, assignment to "
      "self and across sizes, transposing, flipping, pasting, splitting, columns, trimming, bad indices and shapes. After "
      "each step every value is compared with plain arrays. Non-trivial: at least two changing steps (more than ten pushes).";
  p.assumptions = {"matrices of different shapes are not comparable", "element arithmetic itself is checked by C02-C10"};
  static auto zm = [](Gen &g) { return IntmodA(gen_prime(g, g.chance(1, 8) ? 40000 : 1000)); };
  static auto fpp = [](Gen &g) { return FpPolyA(gen_prime(g, 30)); };
  static auto f2m = [](Gen &g) { PZn P{Zn{2}}; return F2PolymodA(P.random_irreducible(g, 1 + (int)g.skewed(8))); };
  p.add("vector-residues", 48000, 300000, [](Gen &g, Ctx &c) { IntmodA a = zm(g); vec_history(g, c, a); });
  p.add("vector-fp-polys", 20000, 150000, [](Gen &g, Ctx &c) { FpPolyA a = fpp(g); vec_history(g, c, a); });
  p.add("vector-f2-polys", 20000, 150000, [](Gen &g, Ctx &c) { F2PolyA a; vec_history(g, c, a); });
  p.add("vector-f2-extension", 20000, 150000, [](Gen &g, Ctx &c) { F2PolymodA a = f2m(g); vec_history(g, c, a); });
  p.add("matrix-residues", 24000, 200000, [](Gen &g, Ctx &c) { IntmodA a = zm(g); mat_history(g, c, a, 5); });
  p.add("matrix-f2-extension", 12000, 100000, [](Gen &g, Ctx &c) { F2PolymodA a = f2m(g); mat_history(g, c, a, 4); });
  p.add("matrix-fp-polys", 8000, 60000, [](Gen &g, Ctx &c) { FpPolyA a = fpp(g); mat_history(g, c, a, 3); });
  p.add("vector-large", 700, 12000, [](Gen &g, Ctx &c) { IntmodA a = zm(g); vec_history(g, c, a, 300); });
  p.add("vector-polys-large", 300, 6000, [](Gen &g, Ctx &c) { F2PolyA a; vec_history(g, c, a, 120); });
  p.add("matrix-large", 400, 6000, [](Gen &g, Ctx &c) { IntmodA a = zm(g); mat_history(g, c, a, 36); });
  p.add("stack-fp-polys", 16000, 100000, [](Gen &g, Ctx &c) { FpPolyA a = fpp(g); stack_history(g, c, a); }, true);
  p.add("stack-residues", 16000, 100000, [](Gen &g, Ctx &c) { IntmodA a = zm(g); stack_history(g, c, a); }, true);
  return engine_main(argc, argv, p);
}
