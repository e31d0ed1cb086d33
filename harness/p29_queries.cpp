// P29: scalar, vector and tensor queries: accumulate and scale, refuse without touching, mean over the element.
#include "hyper.h"
#include <cstring>
using namespace hyper;
static const uint16 MEAN = 100;
typedef std::vector<double> vd;

// a variable of the caller with guards on both sides
template <class T> struct Cell {
  double lo[4]; T v; double hi[4];
  explicit Cell(Gen& g) { for (int i = 0; i < 4; i++) { lo[i] = g.sreal(9); hi[i] = g.sreal(9); } }
};
static double* ptr(double& v) { return &v; }
static double* ptr(math::Vec<3>& v) { return v.ptr(); }
static double* ptr(math::MatSym<3>& v) { return v.ptr(); }
static int cnt(double&) { return 1; }
static int cnt(math::Vec<3>&) { return 3; }
static int cnt(math::MatSym<3>&) { return 6; }

static bool ask(Element& e, double* p, scalarQuery q, uint16 gp, double s) { return e.getScalar(p, q, gp, s); }
static bool ask(Element& e, math::Vec<3>* p, vectorQuery q, uint16 gp, double s) { return e.getVector(p, q, gp, s); }
static bool ask(Element& e, math::MatSym<3>* p, tensorQuery q, uint16 gp, double s) { return e.getTensor(p, q, gp, s); }
static bool ask(Element& e, double* p, scalarQuery q) { return e.getScalar(p, q); }
static bool ask(Element& e, math::Vec<3>* p, vectorQuery q) { return e.getVector(p, q); }
static bool ask(Element& e, math::MatSym<3>* p, tensorQuery q) { return e.getTensor(p, q); }

struct Seen { bool ok; vd v; };
// one query with everything the contract says about it; returns its plain value
template <class T, class Q> Seen query(Gen& g, Element& e, Q q, uint16 gp, const std::string& who) {
  std::string what = who + ", query " + std::to_string((int) q) + " of " + (sizeof(T) == 8 ? "scalars" : sizeof(T) == sizeof(math::Vec<3>) ? "vectors" : "tensors") + ", point " + std::to_string(gp);
  Cell<T> z(g); int n = cnt(z.v);
  for (int i = 0; i < n; i++) ptr(z.v)[i] = 0;
  Cell<T> a(z);
  bool ok = ask(e, &z.v, q, gp, 1.0);
  EXPECT(!memcmp(z.lo, a.lo, sizeof z.lo) && !memcmp(z.hi, a.hi, sizeof z.hi), what << " wrote next to the variable");
  Seen r; r.ok = ok; r.v.assign(ptr(z.v), ptr(z.v) + n);
  double m = 0; for (double x : r.v) { EXPECT(std::isfinite(x), what << " gives " << x); m = std::max(m, std::fabs(x)); }
  if (!ok) for (double x : r.v) EXPECT(x == 0 && !std::signbit(x), what << " returns false and writes " << x);
  // arbitrary starting value and scale
  Cell<T> c(g);
  double s = g.weighted({4, 1, 1, 1}) == 0 ? g.sreal(3) : g.oneOf({0.0, 1.0, -1.0, 1e-3, 250.0});
  double size = g.chance(1, 3) ? (m > 0 ? m : 1) : 1;
  for (int i = 0; i < n; i++) ptr(c.v)[i] = g.chance(1, 5) ? 0.0 : g.sreal(5) * size;
  Cell<T> b(c);
  bool again = ask(e, &c.v, q, gp, s);
  EXPECT(again == ok, what << " answers " << ok << " then " << again);
  EXPECT(!memcmp(c.lo, b.lo, sizeof c.lo) && !memcmp(c.hi, b.hi, sizeof c.hi), what << " wrote next to the variable");
  if (!ok) EXPECT(!memcmp(ptr(c.v), ptr(b.v), sizeof(double) * n), what << " returns false and changes the variable");
  else for (int i = 0; i < n; i++) {
    double v0 = ptr(b.v)[i], want = v0 + s * r.v[i];
    EXPECT(std::fabs(ptr(c.v)[i] - want) <= 1e-13 * (std::fabs(v0) * 10 + std::fabs(s) * m * 10), what << " component " << i << ": " << v0 << " + " << s << " * " << r.v[i] << " gave " << ptr(c.v)[i]);
  }
  // asked once more: the same number
  Cell<T> d(a);
  ask(e, &d.v, q, gp, 1.0);
  EXPECT(!memcmp(ptr(d.v), r.v.data(), sizeof(double) * n), what << " gives another number when repeated");
  if (gp == MEAN) {   // defaults: the mean, once
    Cell<T> f(a); bool k = ask(e, &f.v, q);
    EXPECT(k == ok && !memcmp(ptr(f.v), r.v.data(), sizeof(double) * n), what << " differs when point and scale are left out");
  }
  return r;
}
struct Support { std::set<int> s, v, t; };
static Support supportOf(ElementType k) {
  typedef scalarQuery S; typedef vectorQuery V; typedef tensorQuery T;
  switch (k) {
    case ElementType::TETRA0: return {{(int) S::VOL}, {}, {(int) T::C, (int) T::E, (int) T::TSTRAIN}};
    case ElementType::TETRA1: return {{(int) S::VOL}, {(int) V::FLUX, (int) V::GRADT}, {}};
    case ElementType::INTER0: return {{}, {}, {(int) T::C}};
    case ElementType::INTER3: return {{}, {}, {(int) T::C, (int) T::E}};
    case ElementType::PLANE41: return {{(int) S::SP}, {(int) V::IC}, {(int) T::COUCHY, (int) T::PK2, (int) T::C, (int) T::E}};
    case ElementType::SOLID81: return {{(int) S::SP, (int) S::WU, (int) S::WP, (int) S::VOL}, {(int) V::IC}, {(int) T::COUCHY, (int) T::PK2, (int) T::C, (int) T::E}};
    default: return {};
  }
}
// all queries of one element at a point, in any order; [kind][query]
struct All { std::map<int, Seen> s, v, t; };
static All everything(Gen& g, Element& e, uint16 gp, const Support& sup, const std::string& who) {
  All r; std::vector<std::pair<int, int>> q;
  for (int i = 0; i < (int) scalarQuery::LAST; i++) q.push_back({0, i});
  for (int i = 0; i < (int) vectorQuery::LAST; i++) q.push_back({1, i});
  for (int i = 0; i < (int) tensorQuery::LAST; i++) q.push_back({2, i});
  auto o = g.boolean() ? g.perm((int) q.size()) : std::vector<int>();
  for (size_t i = 0; i < q.size(); i++) {
    auto c = o.empty() ? q[i] : q[o[i]];
    Seen x; bool want;
    if (c.first == 0) { x = r.s[c.second] = query<double>(g, e, (scalarQuery) c.second, gp, who); want = sup.s.count(c.second); }
    else if (c.first == 1) { x = r.v[c.second] = query<math::Vec<3>>(g, e, (vectorQuery) c.second, gp, who); want = sup.v.count(c.second); }
    else { x = r.t[c.second] = query<math::MatSym<3>>(g, e, (tensorQuery) c.second, gp, who); want = sup.t.count(c.second); }
    EXPECT(!want || x.ok, who << " refuses query " << c.second << " of kind " << c.first);
    // nothing but what the element is documented to report is made up
    EXPECT(want || !x.ok, who << " claims to know query " << c.second << " of kind " << c.first);
  }
  return r;
}
static void same(const All& a, const All& b, const std::string& who) {
  auto eq = [&](const std::map<int, Seen>& x, const std::map<int, Seen>& y, const char* k) { for (auto& p : x) { auto& q = y.at(p.first); EXPECT(p.second.ok == q.ok && !memcmp(p.second.v.data(), q.v.data(), 8 * p.second.v.size()), who << ": " << k << " query " << p.first << " changed"); } };
  eq(a.s, b.s, "scalar"); eq(a.v, b.v, "vector"); eq(a.t, b.t, "tensor");
}

FACET(linear, "an element that reports something that is not zero", 4000, 80000) {
  fe::Model m = fe::genMesh(g, g.oneOf({(int) fe::MECH, (int) fe::THERM, (int) (fe::MECH | fe::THERM)}));
  fe::Ref f = fe::genBC(g, m);
  fe::describe(g, m);
  fe::Run run(m);
  bool seen = false;
  std::vector<int> pickEl; for (size_t i = 0; i < m.el.size(); i++) pickEl.push_back((int) i);
  if (pickEl.size() > 8) { pickEl = g.sample((int) m.el.size(), 8); }
  for (int i : pickEl) {
    Element& e = run.st.getElement((uint32) i + 1);
    std::string who = std::string(fe::kindName(m.el[i].kind)) + " " + std::to_string(i + 1);
    Support s = supportOf(fe::libType(m.el[i].kind));
    if (m.el[i].kind == fe::ANY) s = Support();
    All a = everything(g, e, MEAN, s, who);
    if (g.boolean()) same(a, everything(g, e, MEAN, s, who), who);
    if (g.chance(1, 3)) same(a, everything(g, e, 0, s, who + " at its point"), who);   // results are constant over these elements
    for (auto& p : a.s) if (p.second.ok && p.second.v[0] != 0) seen = true;
    for (auto& p : a.v) for (double x : p.second.v) if (x != 0) seen = true;
    for (auto& p : a.t) for (double x : p.second.v) if (x != 0) seen = true;
    // what a query tells is what the element holds
    if (m.el[i].kind == fe::TET || m.el[i].kind == fe::TETH) {
      V3 X[4]; for (int k = 0; k < 4; k++) X[k] = m.x[m.el[i].n[k]];
      double v; auto G = fe::tetGrad(X[0], X[1], X[2], X[3], v);
      double far = 0, h = 1e300; for (int k = 0; k < 4; k++) { far = std::max(far, X[k].norm()); for (int l = 0; l < k; l++) h = std::min(h, (X[k] - X[l]).norm()); }
      EXPECT(std::fabs(a.s[(int) scalarQuery::VOL].v[0] - v) <= 1e-13 * (std::pow((X[1] - X[0]).norm() + h, 3) * 100 * (1 + far / h)), who << ": volume " << a.s[(int) scalarQuery::VOL].v[0] << ", expected " << v);
      if (m.el[i].kind == fe::TET) {
        auto T = a.t[(int) tensorQuery::TSTRAIN].v; double aT = m.el[i].alpha * m.el[i].T;
        double want[6] = {aT, 0, 0, aT, 0, aT};
        for (int k = 0; k < 6; k++) EXPECT(T[k] == want[k], who << ": thermal strain component " << k << " is " << T[k] << ", expected " << want[k]);
      } else {
        auto fl = a.v[(int) vectorQuery::FLUX].v, gr = a.v[(int) vectorQuery::GRADT].v;
        for (int k = 0; k < 3; k++) EXPECT(std::fabs(fl[k] + m.el[i].k * gr[k]) <= 1e-13 * (std::fabs(fl[k]) + 1e-300) * 10, who << ": flux " << fl[k] << " with gradient " << gr[k] << " and conductivity " << m.el[i].k);
      }
    }
  }
  g.nontrivial(seen);
}

static void nonlinear(Gen& g, bool plane) {
  Body b = genBody(g, plane, 3, g.boolean(), true);
  describe(g, b);
  Lib L(b);
  Support sup = supportOf(plane ? ElementType::PLANE41 : ElementType::SOLID81);
  int rounds = (int) g.integer(1, 3);
  for (int rd = 0; rd < rounds; rd++) {
    VX u = rd == 0 && g.chance(1, 6) ? VX::Zero(b.N()).eval() : genState(g, b);
    L.set(u);
    g.label(u.norm() == 0 ? "at rest" : "deformed");
    VX F0; L.assemble(F0, nullptr);
    for (size_t i = 0; i < b.el.size(); i++) {
      Element& e = L.st.getElement((uint32) i + 1);
      std::string who = std::string(plane ? "PLANE41 " : "SOLID81 ") + std::to_string(i + 1);
      int n = plane ? L.st.getElement<ElementIsoParamQUAD>((uint32) i + 1).nOfIntPoints() : L.st.getElement<ElementIsoParamHEXAHEDRON>((uint32) i + 1).nOfIntPoints(), want = 1; for (int k = 0; k < b.nd(); k++) want *= b.order;
      EXPECT(n == want, who << " has " << n << " integration points at order " << b.order);
      auto ps = points(b, b.el[i], b.order);
      double V = 0; for (auto& q : ps) V += q.w;
      // reference values at the points, averaged with their volumes; order of points doesn't matter
      std::vector<double> mean(3 + 24, 0.0), top(3 + 24, 0.0);
      double cond = 1;
      for (auto& q : ps) {
        M3 Fg = defGrad(b, b.el[i], q, u), C = Fg.transpose() * Fg, S = pk2(b.mat, C, u[b.nu() + i]);
        M3 E = 0.5 * (C - M3::Identity()), T = Fg * S * Fg.transpose() / Fg.determinant();
        double c6[6]; sym6(C, c6); double I1, I2, I3; invariants(c6, I1, I2, I3);
        cond = std::max(cond, C.norm() * C.inverse().norm());
        std::vector<double> v = {I1, I2, std::sqrt(I3)};
        D2<6> w = energyC(b.mat, C, u[b.nu() + i]);
        double ss = S.cwiseAbs().maxCoeff(), hh = w.h.cwiseAbs().maxCoeff() * C.norm() + w.g.cwiseAbs().maxCoeff();
        const M3* ms[4] = {&T, &S, &C, &E};
        double sc[4] = {(hh + ss) * Fg.norm() * Fg.norm() / Fg.determinant(), hh + ss, C.norm() + 1, C.norm() + 1};
        for (int k = 0; k < 4; k++) { double t[6]; sym6(*ms[k], t); for (int c = 0; c < 6; c++) { v.push_back(t[c]); top[3 + 6 * k + c] = std::max(top[3 + 6 * k + c], sc[k]); } }
        for (int k = 0; k < 3; k++) top[k] = std::max(top[k], std::pow(C.norm() + 1, 2));
        for (size_t k = 0; k < v.size(); k++) mean[k] += v[k] * q.w / V;
      }
      double um = 0; for (int k = 0; k < b.nu(); k++) um = std::max(um, std::fabs(u[k]));
      double h = 1e300, far = 0; for (size_t k = 0; k < b.el[i].size(); k++) { far = std::max(far, b.x[b.el[i][k]].norm()); for (size_t l = 0; l < k; l++) h = std::min(h, (b.x[b.el[i][k]] - b.x[b.el[i][l]]).norm()); }
      double tol = 1e-12 * (20 + cond) * (1 + um / h + 0.1 * far / h);
      All a = everything(g, e, MEAN, sup, who + " mean");
      auto check = [&](const vd& got, size_t at, const char* what) { for (size_t c = 0; c < got.size(); c++) EXPECT(std::fabs(got[c] - mean[at + c]) <= tol * top[at + c], who << ": mean " << what << " component " << c << " is " << got[c] << ", the points give " << mean[at + c]); };
      check(a.v[(int) vectorQuery::IC].v, 0, "invariants");
      check(a.t[(int) tensorQuery::COUCHY].v, 3, "Cauchy stress");
      check(a.t[(int) tensorQuery::PK2].v, 9, "second Piola stress");
      check(a.t[(int) tensorQuery::C].v, 15, "C");
      check(a.t[(int) tensorQuery::E].v, 21, "E");
      EXPECT(std::fabs(a.s[(int) scalarQuery::SP].v[0] - u[b.nu() + i]) <= 1e-13 * std::fabs(u[b.nu() + i]) * 10, who << ": pressure " << a.s[(int) scalarQuery::SP].v[0] << ", expected " << u[b.nu() + i]);
      if (!plane) EXPECT(std::fabs(a.s[(int) scalarQuery::VOL].v[0] - V) <= tol * V, who << ": volume " << a.s[(int) scalarQuery::VOL].v[0] << ", expected " << V);
      // the mean of what the element itself tells at its points
      std::vector<All> at;
      for (int p = 0; p < n; p++) if (n <= 8 || p % 5 == 0) at.push_back(everything(g, e, (uint16) p, sup, who));
      if (n <= 8) {
        auto mw = [&](int kind, int q, const Seen& m) {
          for (size_t c = 0; c < m.v.size(); c++) {
            double s = 0, t = 0, w = 0;
            for (int p = 0; p < n; p++) {
              double wp = plane ? L.st.getElement<ElementIsoParamQUAD>((uint32) i + 1).intWeight((uint16) p) : L.st.getElement<ElementIsoParamHEXAHEDRON>((uint32) i + 1).intWeight((uint16) p);
              double x = (kind == 0 ? at[p].s[q] : kind == 1 ? at[p].v[q] : at[p].t[q]).v[c];
              s += wp * x; t += wp * std::fabs(x); w += wp;
            }
            EXPECT(std::fabs(m.v[c] - s / w) <= 1e-12 * (t / w), who << ": query " << q << " of kind " << kind << " component " << c << ": mean " << m.v[c] << ", weighted mean of its points " << s / w);
          }
        };
        for (int q : sup.s) mw(0, q, a.s[q]);
        for (int q : sup.v) mw(1, q, a.v[q]);
        for (int q : sup.t) mw(2, q, a.t[q]);
      }
      same(a, everything(g, e, MEAN, sup, who + " mean"), who);
    }
    VX F1; L.assemble(F1, nullptr);
    for (int i = 0; i < b.N(); i++) EXPECT(F0[i] == F1[i], "asking for results changes the residual of equation " << i);
    g.nontrivial(u.norm() > 0 && (int) points(b, b.el[0], b.order).size() > 1);
  }
}
FACET(plane, "a deformed state and more than one integration point", 960, 20000) { nonlinear(g, true); }
FACET(solid, "a deformed state and more than one integration point", 320, 6400) { nonlinear(g, false); }

// a new element, not solved yet: answers don't depend on what the memory held before
template <class E> static void fresh(Gen& g, ElementType t, const char* name) {
  alignas(16) static unsigned char mem[2][sizeof(E)];
  unsigned char fill[2] = {0x3f, 0xc0};
  E* e[2];
  for (int i = 0; i < 2; i++) { memset(mem[i], fill[i], sizeof(E)); e[i] = new (mem[i]) E; }
  Support s = supportOf(t);
  std::string who = std::string("new ") + name;
  std::vector<All> r;
  for (int i = 0; i < 2; i++) r.push_back(everything(g, *e[i], MEAN, s, who));
  same(r[0], r[1], who + " with other memory contents");
  for (auto& p : r[0].s) if (p.second.ok) EXPECT(p.second.v[0] == 0, who << " reports " << p.second.v[0] << " before it is solved");
  for (auto& p : r[0].v) if (p.second.ok && p.first == (int) vectorQuery::FLUX) for (double x : p.second.v) EXPECT(x == 0, who << " reports " << x << " before it is solved");
  for (auto& p : r[0].t) if (p.second.ok) for (double x : p.second.v) EXPECT(x == 0, who << " reports " << x << " before it is solved");
  for (int i = 0; i < 2; i++) e[i]->~E();
}
struct Tet0 : ElementTETRA0 {};
struct Tet1 : ElementTETRA1 { Tet1() { k = 2.5; } };
FACET(unsolved, "the element type has results", 400, 4000) {
  int k = (int) g.integer(0, 6);
  g.nontrivial(k >= 3);
  switch (k) {
    case 0: fresh<ElementTRUSS3>(g, ElementType::TRUSS3, "TRUSS3"); break;
    case 1: fresh<ElementTRIANGLE4>(g, ElementType::TRIANGLE4, "TRIANGLE4"); break;
    case 2: fresh<ElementQUADTH>(g, ElementType::QUADTH, "QUADTH"); break;
    case 3: fresh<Tet0>(g, ElementType::TETRA0, "TETRA0"); break;
    case 4: fresh<Tet1>(g, ElementType::TETRA1, "TETRA1"); break;
    case 5: fresh<ElementINTER0>(g, ElementType::INTER0, "INTER0"); break;
    default: fresh<ElementINTER3>(g, ElementType::INTER3, "INTER3");
  }
}
