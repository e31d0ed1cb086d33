// P26: written VTK files are well formed and carry the model's results.
#include "hyper.h"
#include <dirent.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace fe;

struct Scratch {
  std::string dir; Scratch() { char t[] = "/tmp/p26_XXXXXX"; dir = mkdtemp(t); }
  std::set<std::string> list() const { std::set<std::string> r; DIR* d = opendir(dir.c_str()); if (d) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); } return r; }
  ~Scratch() { for (auto& f : list()) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); }
};
struct Field { int comps; std::vector<double> v; };
// what a file has to contain
struct Grid {
  std::vector<V3> x; std::vector<std::vector<int>> cells; std::vector<int> types;
  std::map<std::string, Field> point, cell; bool cellData = false;
};
// strict reader of the legacy format (independent of the library)
struct Vtk : Grid {
  std::vector<std::string> tok; size_t at = 0; std::string name;
  std::string next(const char* what) { EXPECT(at < tok.size(), name << ": ends where " << what << " is expected"); return tok[at++]; }
  void word(const char* w) { std::string t = next(w); EXPECT(t == w, name << ": '" << t << "' where '" << w << "' is expected"); }
  long count(const char* what) { std::string t = next(what); char* e; long v = strtol(t.c_str(), &e, 10); EXPECT(*e == 0 && v >= 0, name << ": '" << t << "' where " << what << " is expected"); return v; }
  double number(const char* what) { std::string t = next(what); char* e; double v = strtod(t.c_str(), &e); EXPECT(*e == 0 && !t.empty(), name << ": '" << t << "' where " << what << " is expected"); return v; }
  void attributes(std::map<std::string, Field>& out, size_t n) {
    while (at < tok.size() && (tok[at] == "SCALARS" || tok[at] == "VECTORS")) {
      bool vec = next("") == "VECTORS"; std::string nm = next("a field name"); word("float");
      Field f; f.comps = vec ? 3 : 1;
      if (!vec) { if (at < tok.size() && tok[at] != "LOOKUP_TABLE") { long c = count("components"); EXPECT(c == 1, name << ": " << c << " components of " << nm); } word("LOOKUP_TABLE"); word("default"); }
      for (size_t i = 0; i < n * f.comps; i++) f.v.push_back(number(nm.c_str()));
      EXPECT(!out.count(nm), name << ": field " << nm << " appears twice");
      out[nm] = f;
    }
  }
  explicit Vtk(const std::string& file, const std::string& shown) : name(shown) {
    std::ifstream in(file); EXPECT(bool(in), name << " was not written");
    std::string l; std::getline(in, l); EXPECT(l.compare(0, 23, "# vtk DataFile Version ") == 0 && l.size() > 23, name << ": first line '" << l << "'");
    std::getline(in, l); EXPECT(l.size() <= 256, name << ": title longer than 256 characters");
    std::getline(in, l); EXPECT(l == "ASCII", name << ": third line '" << l << "'");
    std::string t; while (in >> t) tok.push_back(t);
    word("DATASET"); word("UNSTRUCTURED_GRID"); word("POINTS");
    size_t n = count("number of points"); word("float");
    for (size_t i = 0; i < n; i++) { V3 p; for (int j = 0; j < 3; j++) p[j] = number("a coordinate"); x.push_back(p); }
    word("CELLS"); size_t m = count("number of cells"), size = count("size of the cell list"), used = 0;
    for (size_t i = 0; i < m; i++) { size_t k = count("number of cell points"); std::vector<int> c; for (size_t j = 0; j < k; j++) { long p = count("a point of a cell"); EXPECT(p < (long) n, name << ": cell " << i << " has point " << p << " of " << n); c.push_back((int) p); } cells.push_back(c); used += k + 1; }
    EXPECT(used == size, name << ": the cell list has " << used << " numbers, declared " << size);
    word("CELL_TYPES"); size_t mt = count("number of cell types"); EXPECT(mt == m, name << ": " << mt << " cell types of " << m << " cells");
    for (size_t i = 0; i < m; i++) types.push_back((int) count("a cell type"));
    word("POINT_DATA"); size_t pn = count("number of points"); EXPECT(pn == n, name << ": data of " << pn << " points, there are " << n);
    attributes(point, n);
    if (at < tok.size() && tok[at] == "CELL_DATA") { at++; size_t cm = count("number of cells"); EXPECT(cm == m, name << ": data of " << cm << " cells, there are " << m); attributes(cell, m); cellData = true; }
    EXPECT(at == tok.size(), name << ": '" << tok[at] << "' is not expected here");
  }
};
static const int NS = 5, NV = 3, NT = 5;
static const char* sName[NS] = {"S_P", "W", "WU", "WP", "VOL"};
static const scalarQuery sq[NS] = {scalarQuery::SP, scalarQuery::W, scalarQuery::WU, scalarQuery::WP, scalarQuery::VOL};
static const char* vName[NV] = {"IC", "FLUX", "GRADT"};
static const vectorQuery vq[NV] = {vectorQuery::IC, vectorQuery::FLUX, vectorQuery::GRADT};
static const char* tName[NT] = {"COUCHY", "PK2", "E", "C", "TSTRAIN"};
static const tensorQuery tq[NT] = {tensorQuery::COUCHY, tensorQuery::PK2, tensorQuery::E, tensorQuery::C, tensorQuery::TSTRAIN};
static const char* comp[6] = {"XX", "XY", "XZ", "YY", "YZ", "ZZ"};

struct Want { unsigned s = 0, v = 0, t = 0; bool all = false; int file = 0; };

static int vtkType(int kindNodes, ElementShape s) {
  switch (s) {
    case ElementShape::VERTEX: return 1; case ElementShape::TWIN_VERTEX: return 2; case ElementShape::LINE: return 3; case ElementShape::TRIANGLE: return 5;
    case ElementShape::QUAD: return 9; case ElementShape::TETRA: return 10; case ElementShape::HEXAHEDRON: return 12; case ElementShape::WEDGE: return 13; default: return -kindNodes;
  }
}
// content by the storage's own answers
static Grid expected(FEStorage& st, const std::vector<V3>& x, const std::vector<std::vector<int>>& conn, Want w) {
  Grid g; g.x = x; g.cells = conn;
  int n = (int) x.size(), m = (int) conn.size();
  for (int e = 0; e < m; e++) g.types.push_back(vtkType((int) conn[e].size(), st.getElement(e + 1).getShape()));
  std::set<Dof::dofType> nd, ed;
  for (int i = 1; i <= n; i++) for (int t = 0; t < (int) Dof::numberOfDofTypes; t++) if (st.isNodeDofUsed(i, (Dof::dofType) t)) nd.insert((Dof::dofType) t);
  for (int i = 1; i <= m; i++) for (int t = 0; t < (int) Dof::numberOfDofTypes; t++) if (st.isElementDofUsed(i, (Dof::dofType) t)) ed.insert((Dof::dofType) t);
  bool disp = nd.count(Dof::UX) || nd.count(Dof::UY) || nd.count(Dof::UZ);
  if (disp) {
    Field d{3, {}}, r{3, {}}; static const Dof::dofType u[3] = {Dof::UX, Dof::UY, Dof::UZ};
    for (int i = 1; i <= n; i++) for (auto t : u) { bool on = st.isNodeDofUsed(i, t); d.v.push_back(on ? st.getNodeDofSolution(i, t) : 0); r.v.push_back(on ? st.getReaction(i, t) : 0); }
    g.point["disp"] = d; g.point["reaction"] = r;
  }
  for (auto t : nd) if (t != Dof::UX && t != Dof::UY && t != Dof::UZ) { Field f{1, {}}; for (int i = 1; i <= n; i++) f.v.push_back(st.isNodeDofUsed(i, t) ? st.getNodeDofSolution(i, t) : 0); g.point[Dof::dofType2label(t)] = f; }
  for (auto t : ed) { Field f{1, {}}; for (int i = 1; i <= m; i++) f.v.push_back(st.isElementDofUsed(i, t) ? st.getElementDofSolution(i, t) : 0); g.cell[Dof::dofType2label(t)] = f; }
  for (int q = 0; q < NS; q++) {
    Field f{1, {}}; bool any = w.s >> q & 1;
    for (int e = 1; e <= m; e++) { double v = 0; if (st.getElement(e).getScalar(&v, sq[q])) any = any || w.all; f.v.push_back(v); }
    if (any) g.cell[sName[q]] = f;
  }
  for (int q = 0; q < NV; q++) {
    Field f{3, {}}; bool any = w.v >> q & 1;
    for (int e = 1; e <= m; e++) { math::Vec<3> v; v.zero(); if (st.getElement(e).getVector(&v, vq[q])) any = any || w.all; for (int i = 0; i < 3; i++) f.v.push_back(v[i]); }
    if (any) g.cell[vName[q]] = f;
  }
  for (int q = 0; q < NT; q++) {
    Field f[6]; bool any = w.t >> q & 1;
    for (int e = 1; e <= m; e++) { math::MatSym<3> v; v.zero(); if (st.getElement(e).getTensor(&v, tq[q])) any = any || w.all; int k = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) f[k++].v.push_back(v.comp(i, j)); }
    if (any) for (int k = 0; k < 6; k++) { f[k].comps = 1; g.cell[std::string(tName[q]) + "_" + comp[k]] = f[k]; }
  }
  g.cellData = !g.cell.empty();
  return g;
}
static bool near6(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::fabs(b) + 1e-300; }
static void compareFields(const std::string& n, const char* what, const std::map<std::string, Field>& got, const std::map<std::string, Field>& want) {
  for (auto& f : want) EXPECT(got.count(f.first), n << ": " << what << " field " << f.first << " is missing");
  for (auto& f : got) EXPECT(want.count(f.first), n << ": " << what << " field " << f.first << " was not asked for");
  for (auto& f : want) {
    auto& q = got.at(f.first); EXPECT(q.comps == f.second.comps, n << ": " << what << " field " << f.first << " has " << q.comps << " components");
    for (size_t i = 0; i < q.v.size(); i++) EXPECT(near6(q.v[i], f.second.v[i]), n << ": " << what << " field " << f.first << ", value " << i << " is " << q.v[i] << ", the model has " << f.second.v[i]);
  }
}
static void compareGrid(const Vtk& a, const Grid& b) {
  EXPECT(a.x.size() == b.x.size(), a.name << ": " << a.x.size() << " points, the model has " << b.x.size() << " nodes");
  for (size_t i = 0; i < b.x.size(); i++) for (int j = 0; j < 3; j++) EXPECT(near6(a.x[i][j], b.x[i][j]), a.name << ": point " << i << " has coordinate " << a.x[i][j] << ", the node has " << b.x[i][j]);
  EXPECT(a.cells == b.cells, a.name << ": cells differ from the connectivity of the elements");
  for (size_t i = 0; i < b.types.size(); i++) EXPECT(a.types[i] == b.types[i], a.name << ": cell " << i << " has type " << a.types[i] << ", not " << b.types[i]);
  compareFields(a.name, "point", a.point, b.point); compareFields(a.name, "cell", a.cell, b.cell);
}
// writers and the storage's answers at each step
struct Watch {
  Scratch sc; std::vector<Want> w; std::vector<std::string> names; std::vector<V3> x; std::vector<std::vector<int>> conn;
  std::map<int, std::vector<Grid>> want; std::vector<int> steps;
  void genWants(Gen& g) {
    int n = g.chance(1, 4) ? 2 : 1;
    for (int i = 0; i < n; i++) {
      Want q; int k = g.weighted({2, 3, 3, 1});
      if (k == 1 || k == 3) { q.all = true; }
      if (k >= 2) { q.s = (unsigned) g.draw(31); q.v = (unsigned) g.draw(7); q.t = (unsigned) g.draw(31); }
      w.push_back(q); names.push_back(std::string(i ? "other" : "out") + g.oneOf({"", "_", "-step", "7"}));
      g.label(k == 0 ? "no results" : k == 1 ? "all results" : k == 2 ? "selected results" : "all and selected");
      g.note << "; writer " << names.back() << (q.all ? " all" : "") << " s" << q.s << " v" << q.v << " t" << q.t;
    }
  }
  void attach(FEStorage& st, FESolver& so, bool early) {
    hyper::Recorder* r = new hyper::Recorder(&st);
    r->onPre = [this, &st](int) { for (auto& q : w) want[0].push_back(expected(st, x, conn, q)); };
    r->onStep = [this, &st](int s) { steps.push_back(s); for (auto& q : w) want[s].push_back(expected(st, x, conn, q)); };
    if (early) so.addPostProcessor(r);
    for (size_t i = 0; i < w.size(); i++) {
      VtkProcessor* v = new VtkProcessor(&st, sc.dir + "/" + names[i]);
      if (w[i].all) v->writeAllResults();
      for (int q = 0; q < NS; q++) if (w[i].s >> q & 1) v->registerResults({sq[q]});
      if ((w[i].v & 3) == 3) v->registerResults({vq[0], vq[1]});
      for (int q = 0; q < NV; q++) if (w[i].v >> q & 1) v->registerResults({vq[q]});
      for (int q = NT - 1; q >= 0; q--) if (w[i].t >> q & 1) v->registerResults({tq[q]});
      so.addPostProcessor(v);
    }
    if (!early) so.addPostProcessor(r);
  }
  void check() {
    std::set<std::string> files = sc.list(), should;
    for (size_t i = 0; i < w.size(); i++) for (auto& s : want) should.insert(names[i] + std::to_string(s.first) + ".vtk");
    for (auto& f : should) EXPECT(files.count(f), f << " was not written");
    for (auto& f : files) EXPECT(should.count(f), f << " was written, there is no such step");
    for (size_t i = 0; i < w.size(); i++) for (auto& s : want) { std::string n = names[i] + std::to_string(s.first) + ".vtk"; compareGrid(Vtk(sc.dir + "/" + n, n), s.second[i]); }
  }
};
// a grounded node of a user's own, with results
struct Ground : ElementVERTEX {
  double k = 1; unsigned mask = 7;
  void pre() { storage->addNodeDof(getNodeNumber(0), {Dof::UX, Dof::UY, Dof::UZ}); }
  void buildK() { math::MatSym<3> K; K.zero(); for (int i = 0; i < 3; i++) K.comp(i, i) = k; math::Vec<3> F; F.zero(); assembleK(K, F, {Dof::UX, Dof::UY, Dof::UZ}); }
  void update() {}
  bool getScalar(double* s, scalarQuery q, uint16, const double sc) { if (q == scalarQuery::W && mask & 1) { *s += k * sc; return true; } return false; }
  bool getVector(math::Vec<3>* v, vectorQuery q, uint16, const double sc) { if (q == vectorQuery::FLUX && mask & 2) { for (int i = 0; i < 3; i++) (*v)[i] += (i + 1) * k * sc; return true; } return false; }
  bool getTensor(math::MatSym<3>* t, tensorQuery q, uint16, const double sc) { if (q == tensorQuery::PK2 && mask & 4) { for (int i = 0; i < 6; i++) t->data[i] += (i + 1) * k * sc; return true; } return false; }
};
static void meshOf(Watch& w, const Model& m) { w.x = m.x; for (auto& e : m.el) w.conn.push_back(e.n); }

FACET(linear, "element results are asked for and some are not zero", 1200, 25000) {
  Model m = genMesh(g); Ref f = genBC(g, m, 1e6); if (g.chance(1, 4)) genMpc(g, m, f, 2);
  describe(g, m);
  Watch w; w.genWants(g); meshOf(w, m);
  std::vector<int> mech; for (auto& q : f.id) if (q.first.second == Dof::UX && f.id.count({q.first.first, Dof::UY}) && f.id.count({q.first.first, Dof::UZ})) mech.push_back(q.first.first);
  int ng = mech.size() && g.chance(1, 3) ? (int) g.integer(1, 3) : 0; unsigned mask = (unsigned) g.draw(7);
  FEStorage st; LinearFESolver so; buildMesh(m, st); so.attachFEStorage(&st); buildBC(m, so);
  for (int i = 0; i < ng; i++) { Ground* q = new Ground; q->k = g.real(1, 5); q->mask = mask; int n = mech[g.draw(mech.size() - 1)]; q->getNodeNumber(0) = nodeNo(n); st.addElement(q); w.conn.push_back({n}); }
  if (ng) g.label("user's element");
  w.attach(st, so, g.boolean()); so.solve();
  EXPECT(w.steps == std::vector<int>{1}, "process() of a linear solution");
  w.check();
  bool nz = false; for (auto& q : w.want[1]) for (auto& c : q.cell) for (double v : c.second.v) nz = nz || v != 0;
  g.nontrivial(nz);
}
FACET(transient, "several steps", 300, 6000) {
  Model m; addPlane(g, m, KQUAD, 4); if (g.boolean()) addLines(g, m); for (auto& e : m.el) if (g.chance(1, 3)) e.vol = g.sreal(20);
  Ref f = genBC(g, m, 1e6); describe(g, m);
  Watch w; w.genWants(g); meshOf(w, m);
  int N = g.chance(1, 10) ? (int) g.integer(95, 120) : (int) g.integer(1, 12); g.note << "; " << N << " steps"; g.nontrivial(N > 1);
  FEStorage st; LinearTransientFESolver so; buildMesh(m, st); so.attachFEStorage(&st); st.setTransient(true); buildBC(m, so);
  so.numberOfTimesteps = (uint16) N; so.time1 = g.real(0.5, 10); so.initValue = g.sreal(10);
  w.attach(st, so, g.boolean()); so.solve();
  EXPECT((int) w.steps.size() == N, N << " steps asked for, " << w.steps.size() << " made");
  w.check();
}
FACET(nonlinear, "several steps and element results", 300, 6000) {
  hyper::Problem p = hyper::genProblem(g, g.chance(2, 3), 3, 0.08);
  hyper::describe(g, p.b); p.crit = 1e-3;
  if (g.chance(1, 3)) {   // nodes with more degrees of freedom
    hyper::Rigid r; r.pos = V3(g.sreal(1), g.sreal(1), 0); r.slaves = {0}; r.comps = {0};
    std::set<std::pair<int, Dof::dofType>> fx; for (auto& q : p.b.fix) fx.insert(q.first);
    for (auto& q : p.b.mpc) for (auto& t : q.terms) fx.insert(t.d);
    if (!fx.count(p.b.dof(0))) { p.rigid.push_back(r); for (int c = 0; c < 6; c++) p.mfix.push_back({c, c < 2 ? g.sreal(0.02) : c == 5 ? g.sreal(0.1) : 0.0}); g.label("rigid body"); }
  }
  hyper::Path f = hyper::solve(p, false); if (!f.ok || f.its > 12) throw pbt::Discard{"does not converge"};
  Watch w; w.genWants(g); w.x = p.b.x; for (auto& r : p.rigid) w.x.push_back(r.pos); w.conn = p.b.el;
  hyper::NlRun run(p, 0, [&](FEStorage& st, FESolver& so) { w.attach(st, so, true); });
  EXPECT((int) w.steps.size() == p.steps, p.steps << " steps asked for, " << w.steps.size() << " made");
  w.check();
  bool any = false; for (auto& q : w.w) any = any || q.all || q.s || q.v || q.t;
  g.nontrivial(p.steps > 1 && any);
}
