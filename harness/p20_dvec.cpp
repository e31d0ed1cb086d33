// P20: dVec owners and views against a model of shared arrays.
#include "nla.h"
#include "live.h"
using namespace nla3d;
using namespace nla3d::math;

typedef std::shared_ptr<std::vector<double>> Arr;
struct Slot {
  std::unique_ptr<dVec> v;
  Arr a;                 // memory it reads (null: not initialised)
  int off = 0, len = 0;
  bool owner = false;
  bool usable = true;    // false: a view whose owner has released the memory
};

static double val(Gen& g) { return g.boolean() ? (double) g.integer(-9, 9) : g.sreal(1e3); }

static void histories(Gen& g) {
  const int N = 6;
  std::vector<Slot> s(N);
  for (auto& x : s) x.v.reset(new dVec());
  auto release = [&](int k) {   // slot k gives up its memory: views on it become unusable
    if (s[k].owner && s[k].a) for (int j = 0; j < N; j++) if (j != k && s[j].a == s[k].a) { s[j].usable = false; }
    s[k].a.reset(); s[k].off = s[k].len = 0; s[k].owner = false; s[k].usable = true;
  };
  auto at = [&](int k, int i) -> double& { return (*s[k].a)[s[k].off + i]; };
  auto init = [&](int k) { return s[k].a != nullptr && s[k].usable; };
  auto own = [&](int k, const std::vector<double>& x) { s[k].a = Arr(new std::vector<double>(x)); s[k].off = 0; s[k].len = (int) x.size(); s[k].owner = true; s[k].usable = true; };
  auto content = [&](int k) { std::vector<double> r; for (int i = 0; i < s[k].len; i++) r.push_back(at(k, i)); return r; };
  auto same = [&](const dVec& d, const std::vector<double>& x, const char* what) {
    EXPECT(d.size() == x.size(), what << ": size " << d.size() << " expected " << x.size());
    for (size_t i = 0; i < x.size(); i++) EXPECT_CLOSE(d[i], x[i], 1e-14, std::max(1.0, std::fabs(x[i])), what << " element " << i);
  };
  // start from two owners and nested views, so that most operations have something to act on
  for (int k = 0; k < 2; k++) {
    int n = (int) g.integer(4, 12);
    s[k].v.reset(new dVec(n)); own(k, std::vector<double>(n, 0.0));
    for (int i = 0; i < n; i++) { double v = val(g); (*s[k].v)[i] = v; at(k, i) = v; }
  }
  int ops = (int) g.integer(4, 60); bool nested = false, writeThrough = false, resized = false;
  for (int k = 0; k < ops; k++) {
    int a = (int) g.integer(0, N - 1), b = (int) g.integer(0, N - 1);
    if (g.chance(9, 10)) { std::vector<int> ok; for (int q = 0; q < N; q++) if (init(q)) ok.push_back(q); if (ok.size()) b = g.pick(ok); }
    if (g.chance(2, 3)) { std::vector<int> ok; for (int q = 0; q < N; q++) if (init(q) && q != b) ok.push_back(q); if (ok.size()) a = g.pick(ok); }
    int op = (int) g.weighted({2, 8, 5, 5, 3, 3, 3, 3, 1, 1, 1, 1, 1, 1, 2});
    if (op != 0 && op != 1 && op != 8 && !s[a].usable) op = g.boolean() ? 1 : 8;   // an unusable view can only be re-initialised or cleared
    switch (op) {
      case 0: { // own memory of its own
        int n = g.boolean() ? (int) g.integer(3, 4) : (int) g.integer(0, g.chance(1, 10) ? 60 : 8); double v = val(g);
        g.note << " v" << a << "=own(" << n << ")";
        bool dflt = g.boolean();
        release(a);
        if (g.boolean()) { s[a].v.reset(dflt ? new dVec(n) : new dVec(n, v)); }
        else { if (dflt) s[a].v->reinit(n); else s[a].v->reinit(n, v); }
        own(a, std::vector<double>(n, dflt ? 0.0 : v));
        break; }
      case 1: { // view on b
        if (!init(b) || a == b) break;
        // a view on (a view on) a itself: a's memory is released first, so it is not a meaningful request
        if (s[a].owner && s[b].a == s[a].a) { for (a = 0; a < N && (a == b || init(a)); a++) {} if (a == N) break; }
        int st = (int) g.integer(0, s[b].len), n = (int) g.integer(0, s[b].len - st);
        if (g.chance(2, 3) && s[b].len >= 4) { n = (int) g.integer(3, 4); st = (int) g.integer(0, s[b].len - n); }
        g.note << " v" << a << "=view(v" << b << "," << st << "," << n << ")";
        release(a);
        if (g.boolean()) s[a].v.reset(new dVec(*s[b].v, st, n)); else s[a].v->reinit(*s[b].v, st, n);
        s[a].a = s[b].a; s[a].off = s[b].off + st; s[a].len = n; s[a].owner = false;
        if (!s[b].owner) nested = true;
        break; }
      case 2: { // write an element
        if (!init(a) || s[a].len == 0) break;
        int i = (int) g.integer(0, s[a].len - 1); double v = val(g);
        g.note << " v" << a << "[" << i << "]=" << v;
        (*s[a].v)[i] = v; at(a, i) = v; if (!s[a].owner) writeThrough = true;
        break; }
      case 3: { // assignment
        if (!s[b].usable) break;
        g.note << " v" << a << "=v" << b;
        bool self = a == b;
        std::vector<double> x; bool ib = init(b); if (ib) x = content(b);
        dVec& r = (*s[a].v = *s[b].v);
        EXPECT(&r == s[a].v.get(), "assignment returns its target");
        if (self) break;
        if (!ib) { release(a); break; }
        if (s[a].len != (int) x.size() || !s[a].a) {
          if (s[a].a && s[a].len == 0 && x.empty()) break;
          if (!s[a].a && x.empty()) { // size 0 to an uninitialised one: stays empty either way
            if (s[a].v->isInit()) own(a, x); break;
          }
          release(a); own(a, x); resized = true;
        } else { for (size_t i = 0; i < x.size(); i++) at(a, (int) i) = x[i]; if (!s[a].owner) writeThrough = true; }
        break; }
      case 4: case 5: { // += / -=
        if (!init(a) || !init(b) || s[a].len != s[b].len) break;
        // element by element on overlapping, shifted memory has no defined order
        if (s[a].a == s[b].a && s[a].off != s[b].off) break;
        g.note << " v" << a << (op == 4 ? "+=" : "-=") << "v" << b;
        std::vector<double> x = content(b);
        if (op == 4) *s[a].v += *s[b].v; else *s[a].v -= *s[b].v;
        for (int i = 0; i < s[a].len; i++) at(a, i) += op == 4 ? x[i] : -x[i];
        if (!s[a].owner) writeThrough = true;
        break; }
      case 6: { // expressions
        if (!init(a) || !init(b) || s[a].len != s[b].len) break;
        std::vector<double> x = content(a), y = content(b), p, q, m, t, d, ng; double c = g.oneOf<double>({2.0, -0.5, 3.25, 0.0});
        for (size_t i = 0; i < x.size(); i++) { p.push_back(x[i] + y[i]); q.push_back(x[i] - y[i]); m.push_back(x[i] * c); t.push_back(c * y[i]); d.push_back(x[i] / 4.0); ng.push_back(-x[i]); }
        same(*s[a].v + *s[b].v, p, "sum"); same(*s[a].v - *s[b].v, q, "difference"); same(*s[a].v * c, m, "v*c"); same(c * *s[b].v, t, "c*v");
        same(*s[a].v / 4.0, d, "v/c"); same(-*s[a].v, ng, "-v");
        break; }
      case 7: { // assign an expression (through a view: writes to the owner)
        if (!init(a) || !init(b) || s[a].len != s[b].len) break;
        double c = g.oneOf<double>({2.0, -1.0, 0.5});
        g.note << " v" << a << "=v" << a << "+" << c << "*v" << b;
        std::vector<double> x = content(a), y = content(b);
        *s[a].v = *s[a].v + c * *s[b].v;
        for (size_t i = 0; i < x.size(); i++) at(a, (int) i) = x[i] + c * y[i];
        if (!s[a].owner && s[a].len) writeThrough = true;
        break; }
      case 8: { g.note << " clear(v" << a << ")"; if (g.boolean()) s[a].v->clear(); else s[a].v.reset(new dVec()); release(a); break; }
      case 9: { if (!init(a)) break; double v = val(g); g.note << " fill(v" << a << ")"; if (g.boolean()) { s[a].v->zero(); v = 0; } else s[a].v->fill(v); for (int i = 0; i < s[a].len; i++) at(a, i) = v; break; }
      case 10: { // copy construction makes an owner
        if (a == b || !s[b].usable) break;
        if (s[a].owner && s[a].a == s[b].a) break;
        g.note << " v" << a << "=dVec(v" << b << ")";
        bool ib = init(b); std::vector<double> x; if (ib) x = content(b);
        dVec* n = new dVec(*s[b].v);
        release(a); s[a].v.reset(n);
        EXPECT(n->isInit() == ib, "copy of an initialised vector is initialised");
        if (ib) own(a, x);
        break; }
      case 11: { // move construction hands over the memory (or the view)
        if (a == b || !s[b].usable) break;
        if (s[a].owner && s[a].a == s[b].a) break;
        g.note << " v" << a << "=dVec(move(v" << b << "))";
        dVec* n = new dVec(std::move(*s[b].v));
        release(a); s[a].v.reset(n);
        s[a].a = s[b].a; s[a].off = s[b].off; s[a].len = s[b].len; s[a].owner = s[b].owner; s[a].usable = true;
        s[b].a.reset(); s[b].len = s[b].off = 0; s[b].owner = false;
        break; }
      case 12: { // text round trip into another vector
        if (!init(a) || a == b) break;
        if (s[b].owner && s[b].a == s[a].a) break;
        std::stringstream st; s[a].v->writeTextFormat(st);
        std::vector<double> x = content(a);
        release(b); s[b].v->readTextFormat(st); own(b, x);
        break; }
      case 13: { if (!init(a) || !init(b)) break; bool eq = s[a].len == s[b].len; if (eq) for (int i = 0; i < s[a].len; i++) eq = eq && std::fabs(at(a, i) - at(b, i)) <= 1e-10; EXPECT(s[a].v->compare(*s[b].v) == eq, "compare"); break; }
      case 14: { if (!init(a) || s[a].len == 0) break; double* p = s[a].v->ptr(); int i = (int) g.integer(0, s[a].len - 1); EXPECT_CLOSE(p[i], at(a, i), 1e-14, std::max(1.0, std::fabs(at(a, i))), "ptr()"); double v = val(g); p[i] = v; at(a, i) = v; break; }
    }
    // every usable vector shows exactly the model's values
    for (int q = 0; q < N; q++) {
      if (!s[q].usable) continue;
      if (!s[q].a) { EXPECT(s[q].v->size() == 0, "size of an uninitialised vector"); EXPECT(!s[q].v->isInit(), "isInit of an uninitialised vector v" << q); continue; }
      EXPECT(s[q].v->isInit(), "isInit of v" << q);
      EXPECT((int) s[q].v->size() == s[q].len, "size of v" << q << ": " << s[q].v->size() << " expected " << s[q].len);
      const dVec& cv = *s[q].v;
      for (int i = 0; i < s[q].len; i++) {
        EXPECT_CLOSE((*s[q].v)[i], at(q, i), 1e-12, std::max(1.0, std::fabs(at(q, i))), "v" << q << "[" << i << "]");
        EXPECT(cv[i] == (*s[q].v)[i], "const access");
        at(q, i) = cv[i];   // keep rounding in step
      }
    }
  }
  if (nested) g.label("nested_view"); if (writeThrough) g.label("write_through"); if (resized) g.label("resized");
  g.nontrivial(nested && writeThrough && resized);
}
FACET(histories, "a history with nested views, writes through views and assignments of different size", 30000, 500000) {
  long before = live::arrays;
  histories(g);
  EXPECT(live::arrays == before, "the history leaves " << live::arrays - before << " arrays behind");
}
