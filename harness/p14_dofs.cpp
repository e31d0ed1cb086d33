// P14: degree-of-freedom table and equation numbering against a map of sets.
#include "nla.h"
using namespace nla3d;

static std::string lab(Dof::dofType t) { return Dof::dofType2label(t); }
static Dof::dofType anyType(Gen& g) { return (Dof::dofType) g.integer(0, Dof::UNDEFINED - 1); }
// initializer lists of run-time length
template <class F> static void withList(const std::vector<Dof::dofType>& t, F f) {
  switch (t.size()) {
    case 0: f({}); break;
    case 1: f({t[0]}); break;
    case 2: f({t[0], t[1]}); break;
    case 3: f({t[0], t[1], t[2]}); break;
    case 4: f({t[0], t[1], t[2], t[3]}); break;
    case 5: f({t[0], t[1], t[2], t[3], t[4]}); break;
    default: f({t[0], t[1], t[2], t[3], t[4], t[5]});
  }
}
static std::vector<Dof::dofType> genList(Gen& g) {
  std::vector<Dof::dofType> l;
  int n = (int) g.weighted({1, 6, 5, 4, 1, 1, 2});
  for (int i = 0; i < n; i++) l.push_back(anyType(g));      // repeats included
  return l;
}

struct Entry { uint32 eq; bool con; };
typedef std::map<Dof::dofType, Entry> Row;
typedef std::vector<Row> Table;       // place i: entity i + 1

static void checkTable(DofCollection& c, Table& t, const char* what) {
  EXPECT(c.getNumberOfEntities() == t.size(), what << ": entities " << c.getNumberOfEntities() << " expected " << t.size());
  std::set<Dof::dofType> u; size_t n = 0;
  for (size_t i = 0; i < t.size(); i++) {
    for (int k = 0; k < Dof::UNDEFINED; k++) {
      Dof::dofType d = (Dof::dofType) k;
      bool in = t[i].count(d);
      EXPECT(c.isDofUsed(i + 1, d) == in, what << ": entity " << i + 1 << " " << lab(d) << " reported " << (in ? "unused" : "used"));
      Dof* p = c.getDof(i + 1, d);
      EXPECT((p != nullptr) == in, what << ": lookup of entity " << i + 1 << " " << lab(d));
      if (!in) continue;
      n++; u.insert(d);
      EXPECT(p->type == d, what << ": lookup of entity " << i + 1 << " " << lab(d) << " gives " << lab(p->type));
      EXPECT(p->eqNumber == t[i][d].eq && p->isConstrained == t[i][d].con, what << ": entity " << i + 1 << " " << lab(d) << " lost its number or state");
    }
    auto r = c.getEntityDofs(i + 1);
    EXPECT(r.second - r.first == (long) t[i].size(), what << ": entity " << i + 1 << " has " << (r.second - r.first) << " entries, expected " << t[i].size());
    std::set<Dof::dofType> s;
    for (auto it = r.first; it != r.second; ++it) {
      EXPECT(t[i].count(it->type) && s.insert(it->type).second, what << ": entity " << i + 1 << " lists " << lab(it->type) << " wrongly");
      EXPECT(&*it == c.getDof(i + 1, it->type), what << ": range and lookup of entity " << i + 1 << " are different objects");
    }
  }
  EXPECT(c.getNumberOfUsedDofs() == n, what << ": used " << c.getNumberOfUsedDofs() << " expected " << n);
  EXPECT(c.getUniqueDofTypes() == u, what << ": set of used types");
}

FACET(table, "registrations on the same entity several times, states set in between", 20000, 400000) {
  DofCollection c; Table t;
  int again = 0, states = 0, inits = (int) g.integer(1, 3);
  for (int q = 0; q < inits; q++) {
    int n = g.chance(1, 12) ? (int) g.integer(0, 60) : (int) g.integer(1, 8);
    g.note << " init(" << n << ")";
    c.initDofTable(n); t.assign(n, Row());
    checkTable(c, t, "fresh table");
    if (!n) continue;
    int ops = (int) g.integer(1, 24);
    uint32 next = 1;
    for (int k = 0; k < ops; k++) {
      int e = (int) g.integer(0, n - 1);
      if (g.chance(3, 4)) {
        std::vector<Dof::dofType> l = genList(g);
        g.note << " " << e + 1 << ":{"; for (auto d : l) g.note << lab(d) << " "; g.note << "}";
        if (!t[e].empty()) again++;
        withList(l, [&](std::initializer_list<Dof::dofType> i) { c.addDof(e + 1, i); });
        for (auto d : l) if (!t[e].count(d)) t[e][d] = {0, false};
      } else if (!t[e].empty()) {
        auto it = t[e].begin(); std::advance(it, g.draw(t[e].size() - 1));
        Dof* p = c.getDof(e + 1, it->first);
        EXPECT(p, "registered entry not found");
        p->eqNumber = it->second.eq = next++; p->isConstrained = it->second.con = g.boolean(); states++;
      }
      if (g.chance(1, 4)) checkTable(c, t, "history");
    }
    checkTable(c, t, "end of history");
    if (g.chance(1, 5)) { c.clearDofTable(); EXPECT(c.getNumberOfUsedDofs() == 0 && c.getNumberOfEntities() == 0 && c.getUniqueDofTypes().empty(), "cleared table is not empty"); }
  }
  if (inits > 1) g.label("re-initialised");
  g.nontrivial(again >= 2 && states >= 1);
}

// ---------------------------------------------------------------- numbering in the storage
struct Plan { std::vector<std::vector<std::pair<int, std::vector<Dof::dofType>>>> own; };   // registrations of each element
class RegEl : public Element {
 public:
  std::vector<std::pair<int, std::vector<Dof::dofType>>> reg;   // local node, or -1 for the element itself
  explicit RegEl(ElementShape s) { shape = s; nodes = new uint32[getNNodes()]; type = ElementType::UNDEFINED; }
  void pre() {
    for (auto& r : reg) withList(r.second, [&](std::initializer_list<Dof::dofType> l) {
      if (r.first < 0) storage->addElementDof(getElNum(), l); else storage->addNodeDof(getNodeNumber(r.first), l);
    });
  }
  void buildK() {}
  void buildC() {}
  void buildM() {}
  void update() {}
};

FACET(numbering, "two kinds of nodal degrees of freedom, element ones, prescribed ones, constraint equations and a node without any", 12000, 250000) {
  FEStorage st;
  int nn = (int) g.integer(2, 9), ne = (int) g.integer(1, 6);
  if (g.boolean()) st.createNodes(nn); else for (int i = 0; i < nn; i++) st.addNode(new Node);
  Table node(nn), elem(ne);
  std::vector<RegEl*> els;
  for (int e = 0; e < ne; e++) {
    RegEl* el = new RegEl(g.oneOf({ElementShape::LINE, ElementShape::TRIANGLE, ElementShape::QUAD, ElementShape::TETRA, ElementShape::VERTEX}));
    for (uint16 i = 0; i < el->getNNodes(); i++) el->getNodeNumber(i) = (uint32) g.integer(1, nn);
    int nr = (int) g.integer(1, 4);
    for (int r = 0; r < nr; r++) el->reg.push_back({g.chance(1, 4) ? -1 : (int) g.integer(0, el->getNNodes() - 1), genList(g)});
    st.addElement(el); els.push_back(el);
    EXPECT(el->getElNum() == (uint32) e + 1 && &el->getStorage() == &st, "element number");
  }
  int rounds = g.chance(1, 3) ? 2 : 1;
  bool hasMpc = false, twoKinds = false, elDofs = false, con = false, empty = false;
  for (int round = 0; round < rounds; round++) {
    bool transient = g.chance(1, 3);
    st.setTransient(transient);
    node.assign(nn, Row()); elem.assign(ne, Row());
    for (auto el : els) for (auto& r : el->reg) for (auto d : r.second) {
      if (r.first < 0) elem[el->getElNum() - 1].insert({d, {0, false}}); else node[el->getNodeNumber(r.first) - 1].insert({d, {0, false}});
    }
    std::vector<std::pair<int, Dof::dofType>> nd, all;   // entity index, elements as -1-i
    for (int i = 0; i < ne; i++) for (auto& p : elem[i]) all.push_back({-1 - i, p.first});
    for (int i = 0; i < nn; i++) for (auto& p : node[i]) { all.push_back({i, p.first}); nd.push_back({i, p.first}); }
    if (all.size() < 2 || nd.empty()) {   // (the query functions insist on some nodal entry)
      els[0]->reg.push_back({0, {Dof::UX, Dof::TEMP}}); round--; continue;
    }
    st.initDofs();
    EXPECT(st.nDofs() == all.size(), "nDofs " << st.nDofs() << " expected " << all.size());
    std::set<Dof::dofType> un, ue;
    for (auto& r : node) { for (auto& p : r) un.insert(p.first); if (r.empty()) empty = true; }
    for (auto& r : elem) for (auto& p : r) ue.insert(p.first);
    EXPECT(st.getUniqueNodeDofTypes() == un && st.getUniqueElementDofTypes() == ue, "unique types");
    if (un.size() > 1) twoKinds = true;
    if (ue.size()) elDofs = true;
    // prescribe some of them, some of those more than once
    std::set<std::pair<int, Dof::dofType>> fix;
    int want = (int) g.integer(0, (long) all.size() + 2);
    for (int k = 0; k < want; k++) {
      auto d = g.pick(all);
      if (!fix.count(d) && fix.size() + 1 >= all.size()) continue;
      fix.insert(d);
      if (d.first < 0) st.setConstrainedElementDof(-d.first, d.second); else st.setConstrainedNodeDof(d.first + 1, d.second);
      EXPECT(st.nConstrainedDofs() == fix.size(), "nConstrainedDofs " << st.nConstrainedDofs() << " expected " << fix.size());
    }
    if (fix.size()) con = true;
    int nm = (int) g.integer(0, 3);
    std::vector<Mpc*> mp;
    for (int k = 0; k < nm; k++) {
      Mpc* m = new Mpc; m->b = g.sreal(3);
      int nt = (int) g.integer(1, 4);
      for (int q = 0; q < nt; q++) { auto d = g.pick(nd); m->eq.push_back(MpcTerm(d.first + 1, d.second, g.sreal(2))); }
      st.addMpc(m); mp.push_back(m);
    }
    if (nm) hasMpc = true;
    EXPECT(st.nMpc() == mp.size(), "nMpc");
    st.assignEquationNumbers();
    EXPECT(st.nDofs() == all.size() && st.nConstrainedDofs() == fix.size() && st.nUnknownDofs() == all.size() - fix.size(), "counts after numbering: " << st.nDofs() << " " << st.nConstrainedDofs() << " " << st.nUnknownDofs());
    std::set<uint32> seen;
    g.note << " round " << round << ":";
    for (auto& d : all) {
      Dof* p = d.first < 0 ? st.getElementDof(-d.first, d.second) : st.getNodeDof(d.first + 1, d.second);
      EXPECT(p && p->type == d.second, "lookup of " << d.first << " " << lab(d.second));
      uint32 eq = d.first < 0 ? st.getElementDofEqNumber(-d.first, d.second) : st.getNodeDofEqNumber(d.first + 1, d.second);
      EXPECT(eq == p->eqNumber, "number of " << d.first << " " << lab(d.second));
      EXPECT(p->isConstrained == (fix.count(d) > 0), d.first << " " << lab(d.second) << " is reported " << (p->isConstrained ? "" : "not ") << "prescribed");
      EXPECT(eq >= 1 && eq <= all.size() && seen.insert(eq).second, "equation number " << eq << " of " << d.first << " " << lab(d.second) << " is out of 1.." << all.size() << " or taken");
      EXPECT((eq <= fix.size()) == (fix.count(d) > 0), "equation " << eq << " of a " << (fix.count(d) ? "prescribed" : "free") << " one, " << fix.size() << " are prescribed");
      g.note << " " << d.first << lab(d.second) << (fix.count(d) ? "*" : "") << "=" << eq;
    }
    std::set<uint32> ms;
    for (auto m : mp) EXPECT(m->eqNum > all.size() && m->eqNum <= all.size() + mp.size() && ms.insert(m->eqNum).second, "multiplier number " << m->eqNum << " with " << all.size() << " dofs");
    for (int i = 0; i < nn; i++) for (int k = 0; k < Dof::UNDEFINED; k++) EXPECT(st.isNodeDofUsed(i + 1, (Dof::dofType) k) == (node[i].count((Dof::dofType) k) > 0), "isNodeDofUsed");
    for (int i = 0; i < ne; i++) for (int k = 0; k < Dof::UNDEFINED; k++) EXPECT(st.isElementDofUsed(i + 1, (Dof::dofType) k) == (elem[i].count((Dof::dofType) k) > 0), "isElementDofUsed");
    // the printed list carries the same numbers
    std::stringstream ss; st.printDofInfo(ss);
    size_t lines = 0;
    for (std::string l; std::getline(ss, l); lines++) {
      char k, type[40]; int e, eq, c;
      EXPECT(sscanf(l.c_str(), "%c%d:%39s eq = %d constrained = %d", &k, &e, type, &eq, &c) == 5, "printed line " << l);
      Dof::dofType t = Dof::label2dofType(type);
      EXPECT(t != Dof::UNDEFINED, "printed type " << type);
      Dof* p = k == 'E' ? st.getElementDof(e, t) : st.getNodeDof(e, t);
      EXPECT(p && p->eqNumber == (uint32) eq && p->isConstrained == (c != 0), "printed line " << l);
    }
    EXPECT(lines == all.size(), "printed " << lines << " lines for " << all.size() << " entries");
    // matrices and vectors are addressed by these numbers
    st.initSolutionData();
    uint32 tot = (uint32) (all.size() + mp.size());
    EXPECT(st.getU()->size() == tot && st.getR()->size() == tot && st.getF()->size() == tot, "vector sizes");
    if (transient) EXPECT(st.getDU()->size() == tot && st.getDDU()->size() == tot, "rate vector sizes");
    st.assembleGlobalEqMatrices();
    // entries between everything one element touches, multipliers with their terms: a unique value each
    std::map<std::pair<uint32, uint32>, double> val;
    auto eqOf = [&](const std::pair<int, Dof::dofType>& d) { return d.first < 0 ? st.getElementDofEqNumber(-d.first, d.second) : st.getNodeDofEqNumber(d.first + 1, d.second); };
    for (auto el : els) {
      std::set<uint32> touch;
      for (auto& p : elem[el->getElNum() - 1]) touch.insert(eqOf({-(int) el->getElNum(), p.first}));
      for (uint16 i = 0; i < el->getNNodes(); i++) for (auto& p : node[el->getNodeNumber(i) - 1]) touch.insert(eqOf({(int) el->getNodeNumber(i) - 1, p.first}));
      for (uint32 a : touch) for (uint32 b : touch) {
        if (a > b) continue;
        double v = 1 + a * 100.0 + b;
        bool flip = g.chance(1, 4);
        st.addValueK(flip ? b : a, flip ? a : b, v); val[{a, b}] += v;
        if (transient) { st.addValueC(a, b, 2 * v); st.addValueM(a, b, 3 * v); }
      }
    }
    auto read = [&](math::BlockSparseSymMatrix<2>* K, uint32 a, uint32 b) { uint32 nc = st.nConstrainedDofs(); return b <= nc ? K->block(1)->value(a, b) : a <= nc ? K->block(1, 2)->value(a, b - nc) : K->block(2)->value(a - nc, b - nc); };
    for (size_t k = 0; k < mp.size(); k++) { std::map<uint32, double> row; for (auto& t : mp[k]->eq) row[st.getNodeDofEqNumber(t.node, t.node_dof)] += t.coef; for (auto& p : row) val[{p.first, mp[k]->eqNum}] += p.second; EXPECT((*st.getF())[mp[k]->eqNum - 1] == mp[k]->b, "right hand side of constraint"); }
    for (uint32 a = 1; a <= tot; a++) for (uint32 b = a; b <= tot; b++) {
      double w = val.count({a, b}) ? val[{a, b}] : 0;
      EXPECT_CLOSE(read(st.getK(), a, b), w, 1e-12, 1 + std::fabs(w), "K(" << a << "," << b << ")");
      if (transient && b <= all.size()) { EXPECT_CLOSE(read(st.getC(), a, b), 2 * w, 1e-12, 1 + std::fabs(w), "C(" << a << "," << b << ")"); EXPECT_CLOSE(read(st.getM(), a, b), 3 * w, 1e-12, 1 + std::fabs(w), "M(" << a << "," << b << ")"); }
    }
    // values go where the lookup says
    for (uint32 i = 0; i < tot; i++) { (*st.getU())[i] = 1000 + i; (*st.getR())[i] = 0; (*st.getF())[i] = 0; }
    for (auto& d : all) if (d.first >= 0) { st.addValueR(d.first + 1, d.second, 7.0 + eqOf(d)); st.addValueF(d.first + 1, d.second, 3.0 * eqOf(d)); }
    for (auto& d : all) {
      double u = d.first < 0 ? st.getElementDofSolution(-d.first, d.second) : st.getNodeDofSolution(d.first + 1, d.second);
      EXPECT(u == 999.0 + eqOf(d), "solution of " << d.first << " " << lab(d.second));
      if (d.first >= 0) EXPECT(st.getReaction(d.first + 1, d.second) == 7.0 + eqOf(d) && (*st.getF())[eqOf(d) - 1] == 3.0 * eqOf(d), "force of " << d.first << " " << lab(d.second));
    }
    for (int i = 0; i < nn; i++) for (int k = 0; k < Dof::UNDEFINED; k++) if (!node[i].count((Dof::dofType) k)) EXPECT(st.getReaction(i + 1, (Dof::dofType) k) == 0, "reaction of an unused degree of freedom");
    if (round + 1 < rounds) {
      st.deleteSolutionData(); st.deleteMpcs();
      if (g.boolean()) els[g.draw(ne - 1)]->reg.push_back({g.chance(1, 3) ? -1 : 0, genList(g)});
      if (g.boolean()) els[g.draw(ne - 1)]->getNodeNumber(0) = (uint32) g.integer(1, nn);
    }
  }
  if (rounds > 1) g.label("numbered again");
  if (elDofs) g.label("element dofs");
  g.nontrivial(hasMpc && twoKinds && elDofs && con && empty);
}

FACET(labels, "every case", 50, 50) {
  Dof::dofType t = anyType(g);
  g.note << Dof::dofType2label(t);
  EXPECT(Dof::label2dofType(Dof::dofType2label(t)) == t, "label of " << (int) t);
  std::string s = lab(t); s[g.draw(s.size() - 1)] = '?';
  EXPECT(Dof::label2dofType(s) == Dof::UNDEFINED, "unknown label " << s);
  EXPECT(Dof::label2dofType(lab(t) + "1") == Dof::UNDEFINED && Dof::label2dofType("") == Dof::UNDEFINED, "unknown label");
  g.nontrivial();
}

FACET(big, "more than 65536 entities, registrations near the end", 12, 120) {
  DofCollection c;
  int n = 65530 + (int) g.integer(0, 3000); Table t(n);
  c.initDofTable(n);
  int ops = (int) g.integer(3, 12);
  g.note << n << " entities:";
  for (int k = 0; k < ops; k++) {
    int e = g.chance(1, 4) ? (int) g.integer(0, 20) : n - 1 - (int) g.integer(0, n - 65520);
    std::vector<Dof::dofType> l = genList(g);
    withList(l, [&](std::initializer_list<Dof::dofType> i) { c.addDof(e + 1, i); });
    for (auto d : l) if (t[e].insert({d, {0, false}}).second) { Dof* p = c.getDof(e + 1, d); EXPECT(p, "entry just registered"); p->eqNumber = t[e][d].eq = 1000 * k + d; }
    g.note << " " << e + 1;
  }
  checkTable(c, t, "big table");
  g.nontrivial(n > 65536);
}
