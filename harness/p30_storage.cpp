// P30: any history of building, solving, deleting and reusing a storage.
#include "hyper.h"
#include "live.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace hyper;

// ------------------------------------------------------------------ objects that are counted
struct CountedEl : ElementLINE {
  static int live, pres;
  double tag = 0;
  CountedEl() { live++; } CountedEl(const CountedEl& o) : ElementLINE(o), tag(o.tag) { live++; } ~CountedEl() { live--; }
  void pre() { pres++; for (uint16 i = 0; i < 2; i++) storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::TEMP}); storage->addElementDof(getElNum(), {Dof::HYDRO_PRESSURE}); }
  void buildK() {} void buildC() {} void buildM() {} void update() {}
};
int CountedEl::live = 0; int CountedEl::pres = 0;
struct CountedMat : Material { static int live; CountedMat() { live++; } ~CountedMat() { live--; } };
int CountedMat::live = 0;
struct CountedMpcs : MpcCollection {
  static int live; int n = 1; uint32 node = 1; int pres = 0;
  CountedMpcs() { live++; } ~CountedMpcs() { live--; }
  void pre() { pres++; collection.clear(); for (int i = 0; i < n; i++) { Mpc* m = new Mpc; m->b = 0; m->eqNum = 0; m->eq.push_back(MpcTerm(node, Dof::UX, 1.0 + i)); collection.push_back(m); } }
  void update() {}
};
int CountedMpcs::live = 0;

// ------------------------------------------------------------------ registry: what is stored, without solving
enum Op { NODES, ADDNODE, ELEMS, ADDEL, COPIES, COMP, MPC, COLL, MOVE, DELN, DELE, DELM, DELCOLL, DELCOMP, DELMESH, DELSOL, CYCLE, NOPS };
struct Step { int op; uint32 a, b, c; double v; };
static const ElementType anyType[] = {ElementType::PLANE41, ElementType::SOLID81, ElementType::TRUSS3, ElementType::TETRA0, ElementType::TETRA1, ElementType::TRIANGLE4, ElementType::QUADTH, ElementType::SurfaceLINETH, ElementType::INTER0, ElementType::INTER3};
static const char* compNames[] = {"A", "B", "TOP", "", "top"};

struct Shadow {   // what a storage should hold
  struct E { ElementType t; double tag; uint32 n0, n1; bool counted; };
  struct C { std::string name; std::vector<uint32> list; FEComponent::typeOfComponent type; };
  std::vector<V3> x; std::vector<E> el; std::vector<C> comp; int mpcs = 0, colls = 0; bool init = false;
};
static void compare(FEStorage& st, const Shadow& s, const std::string& at) {
  EXPECT(st.nNodes() == s.x.size(), at << ": " << st.nNodes() << " nodes, " << s.x.size() << " expected");
  EXPECT(st.nElements() == s.el.size(), at << ": " << st.nElements() << " elements, " << s.el.size() << " expected");
  EXPECT(st.nMpc() == (uint32) s.mpcs, at << ": " << st.nMpc() << " constraint equations, " << s.mpcs << " expected");
  int counted = 0; for (auto& e : s.el) counted += e.counted;
  EXPECT(CountedEl::live == counted, at << ": " << CountedEl::live << " user elements alive, " << counted << " expected");
  EXPECT(CountedMpcs::live == s.colls, at << ": " << CountedMpcs::live << " collections alive, " << s.colls << " expected");
  for (size_t i = 0; i < s.x.size(); i++) {
    double p[3]; st.getNodePosition((uint32) i + 1, p, false);
    for (int j = 0; j < 3; j++) EXPECT(p[j] == s.x[i][j] && st.getNode((uint32) i + 1).pos[j] == s.x[i][j], at << ": coordinate " << j << " of node " << i + 1 << " is " << p[j] << ", expected " << s.x[i][j]);
  }
  for (size_t i = 0; i < s.el.size(); i++) {
    Element& e = st.getElement((uint32) i + 1);
    EXPECT(e.getElNum() == i + 1, at << ": element " << i + 1 << " says its number is " << e.getElNum());
    EXPECT(e.getType() == s.el[i].t, at << ": element " << i + 1 << " has type " << (int) e.getType() << ", expected " << (int) s.el[i].t);
    if (s.el[i].counted) {
      EXPECT(st.getElement<CountedEl>((uint32) i + 1).tag == s.el[i].tag, at << ": element " << i + 1 << " is not the one that was added");
      EXPECT(e.getNodeNumber(0) == s.el[i].n0 && e.getNodeNumber(1) == s.el[i].n1, at << ": element " << i + 1 << " joins " << e.getNodeNumber(0) << " and " << e.getNodeNumber(1) << ", expected " << s.el[i].n0 << " and " << s.el[i].n1);
      if (s.el[i].n0 && s.el[i].n0 <= s.x.size() && s.el[i].n1 && s.el[i].n1 <= s.x.size()) {
        Node* q[2]; st.getElementNodes((uint32) i + 1, q);
        EXPECT(q[0] == &st.getNode(s.el[i].n0) && q[1] == &st.getNode(s.el[i].n1), at << ": element " << i + 1 << " gives other nodes than its numbers");
      }
    }
  }
  for (size_t i = 0; i < s.comp.size(); i++) {
    FEComponent* c = st.getFEComponent(i);
    EXPECT(c->name == s.comp[i].name && c->list == s.comp[i].list && c->type == s.comp[i].type, at << ": component " << i << " changed");
  }
  for (auto n : compNames) {
    FEComponent* c = st.getFEComponent(std::string(n)); int first = -1;
    for (size_t i = 0; i < s.comp.size() && first < 0; i++) if (s.comp[i].name == n) first = (int) i;
    if (first < 0) EXPECT(c == nullptr, at << ": a component named '" << n << "' is found, none was added");
    else EXPECT(c == st.getFEComponent((size_t) first), at << ": component '" << n << "' is not the one that was added");
  }
}
static int execute(const std::vector<Step>& plan, bool mat, Gen* g) {
  int cycles = 0;
  {
    FEStorage st; Shadow s;
    if (mat) st.material = new CountedMat;
    int k = 0;
    for (auto& p : plan) {
      std::ostringstream o; o << "operation " << ++k; std::string at = o.str();
      uint32 nn = (uint32) s.x.size();
      if (g) g->label("op " + std::to_string(p.op));
      switch (p.op) {
        case NODES: {
          uint32 c = p.a % 6; auto r = st.createNodes(c);
          EXPECT(r.size() == c, at << ": " << r.size() << " numbers for " << c << " new nodes");
          for (uint32 i = 0; i < c; i++) { EXPECT(r[i] == nn + 1 + i, at << ": new node " << i << " has number " << r[i] << ", expected " << nn + 1 + i); s.x.push_back(V3(0, 0, 0)); }
          break;
        }
        case ADDNODE: { Node* q = new Node; q->pos[0] = p.v; st.addNode(q); s.x.push_back(V3(p.v, 0, 0)); break; }
        case ELEMS: {
          uint32 c = p.a % 5, ne = (uint32) s.el.size(); ElementType t = anyType[p.b % 10];
          auto r = st.createElements(c, t);
          EXPECT(r.size() == c, at << ": " << r.size() << " numbers for " << c << " new elements");
          for (uint32 i = 0; i < c; i++) {
            EXPECT(r[i] == ne + 1 + i, at << ": new element " << i << " has number " << r[i]); s.el.push_back({t, 0, 0, 0, false});
            Element& e = st.getElement(r[i]);
            // several nodes in a storage of few: any number, an element that isn't initialised doesn't mind
            for (uint16 q = 0; q < e.getNNodes(); q++) e.getNodeNumber(q) = nn ? 1 + (p.c + q) % nn : 0;
          }
          break;
        }
        case ADDEL: {
          CountedEl* e = new CountedEl; e->tag = p.v; uint32 a = nn ? 1 + p.a % nn : 0, b = nn > 1 ? 1 + (a + p.b % (nn - 1)) % nn : a;
          e->getNodeNumber(0) = a; e->getNodeNumber(1) = b;
          st.addElement(e); s.el.push_back({ElementType::UNDEFINED, p.v, a, b, true}); break;
        }
        case COPIES: {
          uint32 c = p.a % 4, ne = (uint32) s.el.size();
          std::vector<uint32> r;
          { CountedEl e; e.tag = p.v; r = st.createElements(c, e); }
          EXPECT(r.size() == c, at << ": " << r.size() << " numbers for " << c << " new elements");
          for (uint32 i = 0; i < c; i++) {
            EXPECT(r[i] == ne + 1 + i, at << ": new element " << i << " has number " << r[i]);
            uint32 a = nn ? 1 + (p.b + i) % nn : 0, b = nn > 1 ? 1 + (a + p.c % (nn - 1)) % nn : a;
            Element& e = st.getElement(r[i]); e.getNodeNumber(0) = a; e.getNodeNumber(1) = b;
            s.el.push_back({ElementType::UNDEFINED, 0, a, b, true});   // the example gives the class only
          }
          break;
        }
        case COMP: {
          FEComponent* c = new FEComponent; c->name = compNames[p.a % 5]; c->type = p.b & 1 ? FEComponent::NODES : FEComponent::ELEMENTS;
          for (uint32 i = 0; i < p.c % 7; i++) c->list.push_back(i * 3 + 1);
          s.comp.push_back({c->name, c->list, c->type}); st.addFEComponent(c); break;
        }
        case MPC: {
          Mpc* m = new Mpc; m->b = p.v; m->eqNum = 0; m->eq.push_back(MpcTerm(nn ? 1 + p.a % nn : 1, Dof::UX, 1.0)); st.addMpc(m); s.mpcs++; break;
        }
        case COLL: { CountedMpcs* m = new CountedMpcs; m->storage = &st; m->n = p.a % 3; m->node = 1; st.addMpcCollection(m); s.colls++; break; }
        case MOVE: if (nn) { uint32 i = p.a % nn; st.getNode(i + 1).pos[p.b % 3] = p.v; s.x[i][p.b % 3] = p.v; } break;
        case DELN: st.deleteNodes(); s.x.clear(); break;
        case DELE: st.deleteElements(); s.el.clear(); break;
        case DELM: st.deleteMpcs(); s.mpcs = 0; break;
        case DELCOLL: if (s.colls == 0) { st.deleteMpcCollections(); } else { st.deleteMpcs(); s.mpcs = 0; st.deleteMpcCollections(); s.colls = 0; } break;
        case DELCOMP: st.deleteFeComponents(); s.comp.clear(); break;
        case DELMESH: st.deleteMesh(); s = Shadow(); break;
        case DELSOL: st.deleteSolutionData(); break;
        case CYCLE: {
          // initialise as a solver does; everything is user elements on existing nodes
          bool ok = s.el.size() > 0 && s.x.size() > 0 && s.mpcs == 0 && s.colls == 0;
          std::set<uint32> used;
          for (auto& e : s.el) { ok = ok && e.counted && e.n0 >= 1 && e.n0 <= s.x.size() && e.n1 >= 1 && e.n1 <= s.x.size() && e.n0 != e.n1; used.insert(e.n0); used.insert(e.n1); }
          if (!ok) break;
          cycles++;
          st.setTransient(p.a & 1);
          CountedEl::pres = 0;
          st.initDofs();
          EXPECT(CountedEl::pres == (int) s.el.size(), at << ": " << CountedEl::pres << " elements were initialised of " << s.el.size());
          uint32 nd = (uint32) (2 * used.size() + s.el.size());
          EXPECT(st.nDofs() == nd, at << ": " << st.nDofs() << " degrees of freedom, " << nd << " expected");
          uint32 nc = 0; for (uint32 n : used) if ((n + p.b) % 3 == 0) { st.setConstrainedNodeDof(n, Dof::UX); nc++; }
          if (p.c & 1) { st.setConstrainedElementDof(1, Dof::HYDRO_PRESSURE); nc++; }
          st.assignEquationNumbers();
          EXPECT(st.nConstrainedDofs() == nc && st.nUnknownDofs() == nd - nc, at << ": " << st.nConstrainedDofs() << " prescribed and " << st.nUnknownDofs() << " unknown of " << nd << ", " << nc << " are prescribed");
          st.initSolutionData();
          for (auto v : {st.getU(), st.getF(), st.getR()}) { EXPECT(v->size() == nd, at << ": a solution vector has " << v->size() << " values for " << nd << " equations"); for (uint32 i = 0; i < nd; i++) EXPECT((*v)[i] == 0, at << ": a new solution vector holds " << (*v)[i]); }
          EXPECT(st.getK()->block(1)->nRows() == nc && st.getK()->block(2)->nRows() == nd - nc, at << ": blocks of the matrix have " << st.getK()->block(1)->nRows() << " and " << st.getK()->block(2)->nRows() << " rows");
          if (p.a & 2) st.assembleGlobalEqMatrices();
          for (uint32 i = 0; i < nd; i++) { (*st.getU())[i] = 1 + i; (*st.getF())[i] = 2; (*st.getR())[i] = 3; }
          if (p.b & 1) break;   // solution data stay, deleted by a later operation, another cycle or the end
          st.deleteSolutionData();
          break;
        }
      }
      // a cycle must not begin on top of solution data
      if (p.op == CYCLE || p.op == DELSOL) {
        if (p.op == CYCLE && (p.b & 1)) { s.init = true; st.deleteSolutionData(); }
        EXPECT(st.nDofs() == 0 && st.nConstrainedDofs() == 0, at << ": " << st.nDofs() << " degrees of freedom after their deletion");
        EXPECT(st.getUniqueNodeDofTypes().empty(), at << ": degrees of freedom are listed after their deletion");
      }
      compare(st, s, at);
    }
    if (mat) EXPECT(CountedMat::live == 1, "the material is gone before the storage");
  }
  EXPECT(CountedEl::live == 0 && CountedMpcs::live == 0 && CountedMat::live == 0, "left behind: " << CountedEl::live << " elements, " << CountedMpcs::live << " collections, " << CountedMat::live << " materials");
  return cycles;
}
FACET(registry, "something is created after a deletion and a complete initialisation happens", 40000, 600000) {
  std::vector<Step> plan; int n = (int) g.integer(2, 40); bool mat = g.boolean(), reuse = false, del = false;
  bool clean = g.boolean();   // only user elements: complete initialisations are possible
  int w[NOPS] = {3, 2, clean ? 0 : 3, 4, 2, 2, clean ? 0 : 2, clean ? 0 : 1, 2, 1, 1, 1, 1, 1, 1, 1, 4};
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < n; i++) {
    int r = (int) g.draw(tot - 1), op = 0; while (r >= w[op]) r -= w[op++];
    if (op == CYCLE && clean && g.chance(2, 3)) {   // what an initialisation needs
      plan.push_back({DELCOLL, 0, 0, 0, 0}); plan.push_back({DELM, 0, 0, 0, 0});
      plan.push_back({NODES, (uint32) g.integer(2, 5), 0, 0, 0}); plan.push_back({g.boolean() ? ADDEL : COPIES, (uint32) g.draw(1000) * 4 + 1, (uint32) g.draw(1000), (uint32) g.draw(1000), 1});
      if (del) reuse = true;
    }
    plan.push_back({op, (uint32) g.draw(1000), (uint32) g.draw(1000), (uint32) g.draw(1000), g.sreal(10)});
    if (op == DELE || op == DELN || op == DELMESH) del = true; else if (del && op <= COPIES) reuse = true;
  }
  g.note << n << " operations:"; for (auto& p : plan) g.note << " " << p.op;
  CountedEl::live = CountedMpcs::live = CountedMat::live = 0;
  int cycles = execute(plan, mat, &g);
  size_t before = __sanitizer_get_current_allocated_bytes();
  execute(plan, mat, nullptr);
  size_t after = __sanitizer_get_current_allocated_bytes();
  EXPECT(before == after, "the history leaves " << (long) (after - before) << " bytes behind");
  g.nontrivial(reuse && cycles > 0);
  if (cycles > 1) g.label("initialised again");
}

// ------------------------------------------------------------------ linear models, solved again and again
static void props(FEStorage& st, const fe::Model& m) {   // what the user prescribes in the elements, TETRA0 keeps its input and results in one place
  for (size_t i = 0; i < m.el.size(); i++) {
    if (m.el[i].kind == fe::TET) { auto& t = st.getElement<ElementTETRA0>((uint32) i + 1); t.strains.zero(); t.stress.zero(); }
    fe::setEl(st, (uint32) i + 1, m.el[i]);
  }
}
static void addMpcs(FEStorage& st, const fe::Model& m) {
  for (auto& q : m.mpc) { Mpc* p = new Mpc; for (auto& t : q.terms) p->eq.push_back(MpcTerm(fe::nodeNo(t.d.first), t.d.second, t.coef)); p->b = q.b; st.addMpc(p); }
}
struct Got { std::vector<double> u, r, e; uint32 nd, nc, nm; double force = 0; };
static double forceScale(FEStorage& st) {
  double k = 0, u = 0; for (uint32 i = 0; i < st.getU()->size(); i++) u = std::max(u, std::fabs((*st.getU())[i]));
  auto* m = st.getK(); for (uint32 i = 0; i < m->block(1)->nValues(); i++) k = std::max(k, std::fabs(m->block(1)->getValuesArray()[i])); for (uint32 i = 0; i < m->block(2)->nValues(); i++) k = std::max(k, std::fabs(m->block(2)->getValuesArray()[i]));
  return k * u;
}
static Got collect(FEStorage& st, const fe::Model& m, const fe::Ref& f) {
  Got o; o.nd = st.nDofs(); o.nc = st.nConstrainedDofs(); o.nm = st.nMpc(); o.force = forceScale(st);
  for (auto& d : f.dofs) { o.u.push_back(st.getNodeDofSolution(fe::nodeNo(d.first), d.second)); o.r.push_back(st.getReaction(fe::nodeNo(d.first), d.second)); }
  for (size_t i = 0; i < m.el.size(); i++) { auto r = fe::results(st, (uint32) i + 1, m.el[i].kind); for (auto& v : r.v) o.e.insert(o.e.end(), v.begin(), v.end()); }
  return o;
}
static void same(const std::vector<double>& a, const std::vector<double>& b, const char* what, const std::string& at, double floor = 0) {
  EXPECT(a.size() == b.size(), at << ": " << a.size() << " " << what << ", a new storage has " << b.size());
  double s = floor; for (double x : b) s = std::max(s, std::fabs(x));
  for (size_t i = 0; i < a.size(); i++) EXPECT(std::isfinite(a[i]) && std::fabs(a[i] - b[i]) <= 1e-11 * s, at << ": " << what << " " << i << " is " << a[i] << ", a new storage gives " << b[i]);
}
static void sameAll(const Got& a, const Got& b, const std::string& at) {
  EXPECT(a.nd == b.nd && a.nc == b.nc && a.nm == b.nm, at << ": " << a.nd << " degrees of freedom, " << a.nc << " prescribed, " << a.nm << " constraint equations, a new storage has " << b.nd << ", " << b.nc << ", " << b.nm);
  same(a.u, b.u, "degree of freedom", at); same(a.r, b.r, "reaction", at, b.force); same(a.e, b.e, "element result", at);
}
static Got solveOn(FEStorage& st, FESolver& so, const fe::Model& m, const fe::Ref& f) { so.solve(); return collect(st, m, f); }
static std::unique_ptr<FESolver> makeSolver(FEStorage& st, const fe::Model& m, int steps, double init) {
  std::unique_ptr<FESolver> s;
  if (steps == 0) s.reset(new LinearFESolver);
  else { LinearTransientFESolver* t = new LinearTransientFESolver; t->numberOfTimesteps = (uint16) steps; t->time0 = 0; t->time1 = 0.3 * steps; t->initValue = init; s.reset(t); }
  s->attachFEStorage(&st); fe::buildBC(m, *s);
  return s;
}
static void moveNodes(Gen& g, fe::Model& m) { double k = g.real(0.5, 2); V3 t(g.sreal(3), g.sreal(3), 0); for (auto& x : m.x) x = k * x + t; }
static void changeProps(Gen& g, fe::Model& m) { for (auto& e : m.el) { if (g.boolean()) { double k = g.real(0.5, 2); e.E *= k; e.k *= k; e.kn *= k; e.ks *= k; e.K *= k; e.htc *= k; e.vol *= k; e.flux *= k; e.T *= k; for (auto& q : e.eps0) q *= k; } } }
static fe::Ref bc(Gen& g, fe::Model& m, bool mpc) { m.fix.clear(); m.load.clear(); m.mpc.clear(); fe::Ref f = fe::genBC(g, m, 1e5); if (mpc && f.freeD.size() >= 4) fe::genMpc(g, m, f, 2); return f; }

static void linear_(Gen& g) {
  int physics = g.oneOf({(int) fe::MECH, (int) fe::THERM, (int) (fe::MECH | fe::THERM)});
  fe::Model m = fe::genMesh(g, physics);
  bool mpc = g.chance(1, 3);
  fe::Ref f = bc(g, m, mpc);
  std::unique_ptr<FEStorage> st(new FEStorage);
  std::unique_ptr<FESolver> so;
  fe::buildMesh(m, *st, (int) g.integer(0, 1));
  fe::describe(g, m);
  int rounds = (int) g.integer(2, 4), how = 0, changes = 0;
  int lastSteps = 0; double lastInit = 0;
  for (int rd = 0; rd < rounds; rd++) {
    std::ostringstream o; o << "solution " << rd + 1; 
    bool reuseSolver = false;
    if (rd) {
      if (g.chance(3, 4)) st->deleteSolutionData(); else { st->deleteDofArrays(); st->deleteSolutionData(); }
      if (g.chance(1, 8)) st->deleteSolutionData();
      how = (int) g.integer(0, 8);
      static const char* n[] = {"nothing changed", "other conditions", "nodes moved", "other properties", "other integration order", "elements added", "elements made again", "another mesh", "nodes and elements made again"};
      o << " (" << n[how] << ")"; g.label(n[how]); g.note << "; " << n[how];
      if (how) changes++;
      switch (how) {
        case 0: reuseSolver = g.boolean(); props(*st, m); break;
        case 1: st->deleteMpcs(); f = bc(g, m, mpc); addMpcs(*st, m); props(*st, m); break;
        case 2: moveNodes(g, m); for (size_t i = 0; i < m.x.size(); i++) for (int j = 0; j < 3; j++) st->getNode(fe::nodeNo((int) i)).pos[j] = m.x[i][j]; st->deleteMpcs(); f = bc(g, m, mpc); addMpcs(*st, m); props(*st, m); break;
        case 3: changeProps(g, m); st->deleteMpcs(); f = bc(g, m, mpc); addMpcs(*st, m); props(*st, m); break;
        case 4: for (auto& e : m.el) if (e.kind == fe::KQUAD || e.kind == fe::KLINE) e.order = (int) g.integer(1, 3); st->deleteMpcs(); f = bc(g, m, mpc); addMpcs(*st, m); props(*st, m); break;
        case 5: {
          int k = (int) g.integer(1, 3);
          for (int i = 0; i < k; i++) { fe::El e = m.el[g.draw(m.el.size() - 1)]; e.E *= 0.7; e.k *= 1.3; m.el.push_back(e); if (e.kind == fe::ANY || g.boolean()) st->addElement(fe::newEl(e.kind)); else st->createElements(1, fe::libType(e.kind)); }
          if (g.boolean()) { m.x.push_back(V3(g.sreal(5), g.sreal(5), g.sreal(5))); st->createNodes(1); for (int j = 0; j < 3; j++) st->getNode((uint32) m.x.size()).pos[j] = m.x.back()[j]; }
          st->deleteMpcs(); f = bc(g, m, mpc); addMpcs(*st, m); props(*st, m); break;
        }
        case 6: case 8: {
          st->deleteMpcs(); st->deleteElements(); if (how == 8) st->deleteNodes();
          fe::Model q = m; q.mpc.clear();
          auto order = g.perm((int) m.el.size()); for (size_t i = 0; i < m.el.size(); i++) q.el[i] = m.el[order[i]];
          m = q;
          if (how == 8) fe::buildMesh(q, *st, 1);
          else for (size_t i = 0; i < m.el.size(); i++) { st->addElement(fe::newEl(m.el[i].kind)); fe::setEl(*st, (uint32) i + 1, m.el[i]); }
          f = bc(g, m, mpc); addMpcs(*st, m);
          break;
        }
        case 7: st->deleteMesh(); m = fe::genMesh(g, physics); f = bc(g, m, mpc); fe::buildMesh(m, *st, (int) g.integer(0, 1)); break;
      }
    }
    bool plane = true; for (auto& e : m.el) plane = plane && (e.kind == fe::KQUAD || e.kind == fe::KLINE);
    int steps = plane && g.boolean() ? (int) g.integer(1, 4) : 0;
    double init = g.sreal(50);
    if (!reuseSolver || !so) {
      lastSteps = steps; lastInit = init;
      if (steps) g.label("transient");
      if (!steps && st->isTransient() && (!plane || g.boolean())) st->setTransient(false);
      so = makeSolver(*st, m, lastSteps, lastInit);
    } else g.label("same solver");
    Got a = solveOn(*st, *so, m, f);
    FEStorage ns; fe::buildMesh(m, ns, 0);
    if (st->isTransient()) ns.setTransient(true);
    auto nso = makeSolver(ns, m, lastSteps, lastInit);
    Got b = solveOn(ns, *nso, m, f);
    sameAll(a, b, o.str());
    if (g.chance(1, 4)) { std::ostringstream s; st->printDofInfo(s); std::ostringstream t; ns.printDofInfo(t); EXPECT(s.str() == t.str(), o.str() << ": degrees of freedom are listed otherwise than by a new storage"); }
    // assembling once more gives the same matrices and forces
    if (g.chance(1, 3)) {
      props(*st, m);
      std::vector<double> F0, F1, K0, K1;
      auto grab = [&](std::vector<double>& F, std::vector<double>& K) {
        st->assembleGlobalEqMatrices(); for (uint32 i = 0; i < st->getF()->size(); i++) F.push_back((*st->getF())[i]);
        auto* k = st->getK()->block(2); K.assign(k->getValuesArray(), k->getValuesArray() + k->nValues());
      };
      grab(F0, K0); grab(F1, K1);
      auto equal = [&](const std::vector<double>& p, const std::vector<double>& q, const char* what) {
        double s = 0; for (double x : p) s = std::max(s, std::fabs(x));
        for (size_t i = 0; i < p.size(); i++) EXPECT(std::fabs(p[i] - q[i]) <= 1e-12 * s, o.str() << ": " << what << " " << i + 1 << " is " << p[i] << ", after assembling again " << q[i]);
      };
      equal(F0, F1, "force of equation"); equal(K0, K1, "stiffness coefficient");
      g.label("assembled again");
    }
    if (g.chance(1, 6) && rd + 1 < rounds) { so.reset(); g.label("solver deleted first"); }
  }
  if (g.boolean()) { so.reset(); st.reset(); } else { st.reset(); so.reset(); }
  g.nontrivial(changes > 0);
}
FACET(linear, "the storage is solved again after a change that matters", 5000, 60000) {
  long before = live::arrays;
  linear_(g);
  EXPECT(live::arrays == before, "the solutions leave " << live::arrays - before << " arrays behind");
}

// recorded finding: TETRA0 keeps initial strains and results in the same members
FACET(tetra0_again, "always", 40, 400) {
  fe::Model m;
  do { m = fe::genMesh(g, fe::MECH); m.el.erase(std::remove_if(m.el.begin(), m.el.end(), [](const fe::El& e) { return e.kind != fe::TET; }), m.el.end()); } while (m.el.empty() && g.draw(3));
  if (m.el.empty()) throw pbt::Discard{"no tetrahedra"};
  fe::Ref f = bc(g, m, false); fe::describe(g, m);
  FEStorage st; fe::buildMesh(m, st, 0);
  auto so = makeSolver(st, m, 0, 0);
  Got a = solveOn(st, *so, m, f);
  std::vector<math::Vec<6>> e, s;
  for (size_t i = 0; i < m.el.size(); i++) { auto& t = st.getElement<ElementTETRA0>((uint32) i + 1); e.push_back(t.strains); s.push_back(t.stress); }
  st.deleteSolutionData();
  Got b = solveOn(st, *so, m, f);
  g.nontrivial(true);
  bool equal = true;
  try { sameAll(b, a, "second solution"); } catch (pbt::Fail&) { equal = false; }
  if (equal) return;
  FEStorage ns; fe::buildMesh(m, ns, 0);
  for (size_t i = 0; i < m.el.size(); i++) { auto& t = ns.getElement<ElementTETRA0>((uint32) i + 1); t.strains = e[i]; t.stress = s[i]; }
  auto nso = makeSolver(ns, m, 0, 0);
  sameAll(b, solveOn(ns, *nso, m, f), "second solution, neither the first one nor the one that begins from its results");
  throw pbt::Known{"tetra0_resolve", "TETRA0 takes strains and stresses of the first solution as initial ones of the second"};
}

// ------------------------------------------------------------------ nonlinear models with rigid bodies
static void addRigid(FEStorage& st, const Problem& p) {
  for (size_t r = 0; r < p.rigid.size(); r++) {
    auto& R = p.rigid[r];
    while (st.nNodes() < p.masterNo((int) r)) st.addNode(new Node);
    for (int j = 0; j < 3; j++) st.getNode(p.masterNo((int) r)).pos[j] = R.pos[j];
    RigidBodyMpc* m = new RigidBodyMpc; m->storage = &st; m->masterNode = p.masterNo((int) r);
    for (int s : R.slaves) m->slaveNodes.push_back(fe::nodeNo(s));
    for (int k : R.comps) m->dofs.push_back(k == 0 ? Dof::UX : k == 1 ? Dof::UY : Dof::UZ);
    st.addMpcCollection(m);
  }
}
static void conditions(NonlinearFESolver& so, const Problem& p) {
  for (auto& f : p.b.fix) so.addFix(fe::nodeNo(f.first.first), f.first.second, f.second);
  for (auto& f : p.mfix) { auto d = p.id(p.mi(f.first / 6, f.first % 6)); so.addFix(d.first, d.second, f.second); }
  for (auto& l : p.b.load) so.addLoad(fe::nodeNo(l.d.first), l.d.second, l.v);
  so.numberOfLoadsteps = (uint16) p.steps; so.convergenceCriteria = p.crit; so.numberOfIterations = 40;
}
static Got collectNl(FEStorage& st, const Problem& p) {
  Got o; o.nd = st.nDofs(); o.nc = st.nConstrainedDofs(); o.nm = st.nMpc(); o.force = forceScale(st);
  for (int i = 0; i < p.Z(); i++) if (p.used(i)) {
    if (i >= p.b.nu() && i < p.b.N()) { o.u.push_back(st.getElementDofSolution((uint32) (i - p.b.nu()) + 1, Dof::HYDRO_PRESSURE)); continue; }
    auto d = p.id(i); o.u.push_back(st.getNodeDofSolution(d.first, d.second)); o.r.push_back(st.getReaction(d.first, d.second));
  }
  for (size_t i = 0; i < p.b.el.size(); i++) {
    math::MatSym<3> c, s; c.zero(); s.zero(); Element& e = st.getElement((uint32) i + 1);
    EXPECT(e.getTensor(&c, tensorQuery::C) && e.getTensor(&s, tensorQuery::COUCHY), "no results");
    for (int k = 0; k < 6; k++) { o.e.push_back(c.ptr()[k]); o.e.push_back(s.ptr()[k]); }
  }
  return o;
}
struct CountSteps : PostProcessor { int* n; CountSteps(FEStorage* s, int* k) : PostProcessor(s), n(k) {} void pre() {} void process(uint16) { ++*n; } void post(uint16) {} };
static void nonlinear_(Gen& g) {
  bool plane = g.chance(2, 3), rigid = g.boolean();
  Problem p = genHeld(g, plane); condition(g, p, rigid);
  describe(g, p.b); g.label(rigid ? "rigid body" : "no rigid body");
  Path f = solve(p, false); if (!f.ok) throw pbt::Discard{f.why};
  FEStorage st; build(p.b, st); addRigid(st, p);
  std::unique_ptr<NonlinearFESolver> so;
  int rounds = (int) g.integer(2, 3), made = 0;
  for (int rd = 0; rd < rounds; rd++) {
    std::ostringstream o; o << "solution " << rd + 1;
    bool reuse = false;
    if (rd) {
      st.deleteSolutionData();
      int how = (int) g.integer(0, 5);
      static const char* n[] = {"nothing changed", "other conditions", "nodes moved", "other material", "other integration order", "elements made again"};
      o << " (" << n[how] << ")"; g.label(n[how]); g.note << "; " << n[how];
      Problem q = p;
      switch (how) {
        case 0: reuse = g.boolean(); break;
        case 1: break;
        case 2: { double k = g.real(0.6, 1.6); for (auto& x : q.b.x) x *= k; break; }
        case 3: q.b.mat = genMat(g, true); break;
        case 4: q.b.order = q.b.order == 2 ? 3 : 2; break;
        case 5: break;
      }
      if (how) condition(g, q, rigid);
      Path fq = solve(q, false); if (!fq.ok) throw pbt::Discard{fq.why};
      p = q;
      if (how == 2) for (size_t i = 0; i < p.b.x.size(); i++) for (int j = 0; j < 3; j++) st.getNode(fe::nodeNo((int) i)).pos[j] = p.b.x[i][j];
      if (how == 3) { delete st.material; st.material = libMat(p.b.mat); }
      if (how == 4) for (size_t e = 0; e < p.b.el.size(); e++) st.getElement((uint32) e + 1).setIntegrationOrder((uint16) p.b.order);
      if (how == 5) {
        st.deleteElements(); st.createElements((uint32) p.b.el.size(), plane ? ElementType::PLANE41 : ElementType::SOLID81);
        for (size_t e = 0; e < p.b.el.size(); e++) { Element& x = st.getElement((uint32) e + 1); for (size_t i = 0; i < p.b.el[e].size(); i++) x.getNodeNumber((uint16) i) = fe::nodeNo(p.b.el[e][i]); x.setIntegrationOrder((uint16) p.b.order); }
      }
      if (how && rigid) {
        int del = (int) g.integer(0, 1);
        if (del == 0) { st.deleteMpcs(); st.deleteMpcCollections(); } else { st.deleteMpcCollections(); st.deleteMpcs(); }
        g.label("collections deleted " + std::to_string(del));
        addRigid(st, p);
      } else if (rigid && g.chance(1, 3)) { st.deleteMpcs(); g.label("equations deleted"); }
    }
    made = 0;
    if (!reuse || !so) { so.reset(new NonlinearFESolver); so->attachFEStorage(&st); conditions(*so, p); so->addPostProcessor(new CountSteps(&st, &made)); }
    else g.label("same solver");
    so->solve();
    EXPECT(made == p.steps, o.str() << ": " << made << " load steps were made, " << p.steps << " are asked for");
    Got a = collectNl(st, p);
    FEStorage ns; build(p.b, ns); addRigid(ns, p);
    NonlinearFESolver n; n.attachFEStorage(&ns); conditions(n, p); n.solve();
    sameAll(a, collectNl(ns, p), o.str());
  }
  g.nontrivial(true);
}
FACET(nonlinear, "the storage is solved again", 800, 10000) {
  long before = live::arrays;
  nonlinear_(g);
  EXPECT(live::arrays == before, "the solutions leave " << live::arrays - before << " arrays behind");
}
