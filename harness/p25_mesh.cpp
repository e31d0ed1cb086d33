// P25: compressing numbers gives an isomorphic mesh; degenerate cells; selection by attribute.
#include "cdb.h"
using namespace cdb;

struct Snap {
  std::vector<uint32> nn, cn; std::vector<Vec<3>> pos; std::vector<std::vector<uint32>> nodes; std::map<std::string, std::vector<uint32>> ints;
  std::map<std::string, std::vector<double>> dbl; std::map<std::string, std::vector<std::string>> str;
  std::vector<fixBC> fix; std::vector<loadBC> load; std::vector<std::pair<double, std::vector<MpcTerm>>> ce; std::map<std::string, FEComponent> comp;
  Snap(MeshData& m) : nn(m.nodesNumbers), cn(m.cellNumbers), pos(m.nodesPos), nodes(m.cellNodes), ints(m.cellIntData), dbl(m.cellDoubleData), str(m.cellStringData), fix(m.fixBcs), load(m.loadBcs), comp(m.feComps) {
    for (auto c : m.mpcs) ce.push_back({c->b, std::vector<MpcTerm>(c->eq.begin(), c->eq.end())});
  }
};
// a mesh without a file
static void fill(Gen& g, MeshData& md) {
  Opt o = genOpt(g); o.nodeW = o.elW = 9;
  Mesh m = genMesh(g, o, g.chance(1, 12));
  uint32 top = 0; for (auto& n : m.nodes) top = std::max(top, n.no);
  uint32 off = g.chance(1, 8) ? 2147483600u - top : 0;           // the biggest numbers a node may have in a boundary condition
  for (auto& n : m.nodes) { Vec<3> p; for (int c = 0; c < 3; c++) p[c] = n.x[c]; md.nodesNumbers.push_back(n.no + off); md.nodesPos.push_back(p); }
  for (auto& e : m.els) {
    md.cellNumbers.push_back(e.no); std::vector<uint32> v; for (uint32 n : e.n) v.push_back(n + off); md.cellNodes.push_back(v);
    md.cellIntData["TYPE"].push_back(e.type); md.cellIntData["MAT"].push_back(e.mat); md.cellIntData["REAL"].push_back(e.real);
    md.cellDoubleData["w"].push_back(e.cs * 0.5); md.cellStringData["s"].push_back(fmt("%u", e.sect));
  }
  for (auto& b : m.fix) { fixBC x; x.node = b.node + off; x.node_dof = b.d; x.value = b.v; md.fixBcs.push_back(x); }
  for (auto& b : m.load) { loadBC x; x.node = b.node + off; x.node_dof = b.d; x.value = b.v; md.loadBcs.push_back(x); }
  for (auto& c : m.ce) { Mpc* p = new Mpc(); p->b = c.b; for (auto& t : c.terms) p->eq.push_back(MpcTerm(t.node + off, t.d, t.v)); md.mpcs.push_back(p); }
  for (auto& c : m.comp) {
    FEComponent f; f.name = c.name; f.type = c.nodes ? FEComponent::NODES : FEComponent::ELEMENTS;
    if (c.nodes) {
      // range as a file gives it: with numbers no node has
      for (auto& r : c.ranges) for (uint32 i = r.first; i <= r.second; i++) f.list.push_back(i + off);
      if (g.boolean()) { int k = (int) g.integer(1, 4); for (int i = 0; i < k; i++) f.list.insert(f.list.begin() + g.draw(f.list.size()), (uint32) g.integer(1, (long) top + 5) + off); }
    } else f.list = c.list();
    md.feComps[f.name] = f;
  }
}

FACET(compress, "numbers are not 1..n in order and elements, boundary conditions and a node component refer to them", 60000, 1000000) {
  MeshData md;
  if (g.chance(1, 4)) {
    Opt o = genOpt(g); Mesh m = genMesh(g, o); std::string f = fileName("cdb"); put(f, write(g, m, o, Style()));
    EXPECT(readCdbFile(f, md), "file is not read"); unlink(f.c_str()); g.label("read from a file");
  } else fill(g, md);
  Snap b(md);
  std::map<uint32, size_t> at; for (size_t i = 0; i < b.nn.size(); i++) at[b.nn[i]] = i;
  bool id = true; for (size_t i = 0; i < b.nn.size(); i++) if (b.nn[i] != i + 1) id = false;
  std::vector<uint32> s = b.nn; std::sort(s.begin(), s.end());
  if (!id && s.front() == 1 && s.back() == s.size()) g.label("permuted");
  if (s.back() > s.size()) g.label("gaps");
  g.note << b.nn.size() << " nodes:"; for (uint32 n : b.nn) g.note << " " << n;
  int times = 1 + (int) g.chance(1, 4);
  for (int i = 0; i < times; i++) md.compressNumbers();
  Snap a(md);
  auto to = [&](uint32 old) { return (uint32) at.at(old) + 1; };
  EXPECT(a.nn.size() == b.nn.size() && a.pos.size() == b.pos.size(), "number of nodes changed");
  for (size_t i = 0; i < a.nn.size(); i++) {
    EXPECT(a.nn[i] == i + 1, "node " << i << " got number " << a.nn[i]);
    for (int c = 0; c < 3; c++) EXPECT(a.pos[i][c] == b.pos[i][c], "position of node " << i << " changed");
  }
  EXPECT(a.nodes.size() == b.nodes.size(), "number of elements changed");
  for (size_t e = 0; e < a.nodes.size(); e++) {
    EXPECT(a.nodes[e].size() == b.nodes[e].size(), "number of nodes of element " << e << " changed");
    for (size_t k = 0; k < a.nodes[e].size(); k++) EXPECT(a.nodes[e][k] == to(b.nodes[e][k]), "node " << k << " of element " << e << ": " << a.nodes[e][k] << " expected " << to(b.nodes[e][k]) << " (was " << b.nodes[e][k] << ")");
  }
  EXPECT(a.cn == b.cn && a.ints == b.ints && a.dbl == b.dbl && a.str == b.str, "numbers or attributes of elements changed");
  EXPECT(a.fix.size() == b.fix.size() && a.load.size() == b.load.size() && a.ce.size() == b.ce.size() && a.comp.size() == b.comp.size(), "number of boundary conditions, equations or components changed");
  for (size_t i = 0; i < a.fix.size(); i++) EXPECT((uint32) a.fix[i].node == to(b.fix[i].node) && a.fix[i].node_dof == b.fix[i].node_dof && a.fix[i].value == b.fix[i].value, "prescribed value " << i << ": node " << a.fix[i].node << " was " << b.fix[i].node);
  for (size_t i = 0; i < a.load.size(); i++) EXPECT((uint32) a.load[i].node == to(b.load[i].node) && a.load[i].node_dof == b.load[i].node_dof && a.load[i].value == b.load[i].value, "load " << i << ": node " << a.load[i].node << " was " << b.load[i].node);
  for (size_t i = 0; i < a.ce.size(); i++) {
    EXPECT(a.ce[i].first == b.ce[i].first && a.ce[i].second.size() == b.ce[i].second.size(), "equation " << i << " changed");
    for (size_t k = 0; k < a.ce[i].second.size(); k++) { auto& x = a.ce[i].second[k]; auto& y = b.ce[i].second[k]; EXPECT((uint32) x.node == to(y.node) && x.node_dof == y.node_dof && x.coef == y.coef, "equation " << i << " term " << k << ": node " << x.node << " was " << y.node); }
  }
  bool nodeComp = false;
  for (auto& p : b.comp) {
    auto it = a.comp.find(p.first);
    EXPECT(it != a.comp.end() && it->second.name == p.second.name && it->second.type == p.second.type, "component " << p.first << " lost");
    std::vector<uint32> want;
    if (p.second.type == FEComponent::NODES) { nodeComp = true; for (uint32 n : p.second.list) if (at.count(n)) want.push_back(to(n)); if (want.size() < p.second.list.size()) g.label("component with absent nodes"); }
    else want = p.second.list;
    EXPECT(it->second.list == want, "component " << p.first << " has " << it->second.list.size() << " numbers of " << want.size() << ", or other ones");
  }
  freeMpcs(md);
  g.nontrivial(!id && b.nodes.size() && (b.fix.size() || b.load.size()) && nodeComp);
}

FACET(degenerate, "some cells are degenerate and some are not", 60000, 1000000) {
  MeshData md; fill(g, md);
  // long cells with the repeated numbers apart
  int k = (int) g.integer(0, 3);
  for (int i = 0; i < k; i++) {
    std::vector<uint32> c; int n = (int) g.integer(2, 9);
    for (int j = 0; j < n; j++) c.push_back((uint32) (10 + j));
    std::vector<int> p = g.perm(n); std::vector<uint32> d; for (int q : p) d.push_back(c[q]);
    if (g.boolean()) d[g.draw(n - 1)] = d[g.draw(n - 1)];
    md.cellNodes.push_back(d); md.cellNumbers.push_back((uint32) g.integer(1, 99));
    md.cellIntData["TYPE"].push_back(1); md.cellIntData["MAT"].push_back(1); md.cellIntData["REAL"].push_back(1); md.cellDoubleData["w"].push_back(0); md.cellStringData["s"].push_back("");
  }
  std::vector<uint32> want;
  for (size_t i = 0; i < md.cellNodes.size(); i++) { auto& c = md.cellNodes[i]; bool rep = false; for (size_t a = 0; a < c.size(); a++) for (size_t b = a + 1; b < c.size(); b++) if (c[a] == c[b]) rep = true; if (rep) want.push_back((uint32) i); }
  Snap b(md);
  g.note << md.cellNodes.size() << " cells, " << want.size() << " degenerate";
  EXPECT(md.getDegeneratedCells() == want, "degenerate cells: " << md.getDegeneratedCells().size() << " expected " << want.size());
  EXPECT(md.cellNodes == b.nodes && md.cellNumbers == b.cn, "cells changed");
  freeMpcs(md);
  g.nontrivial(want.size() && want.size() < md.cellNodes.size());
}
FACET(attribute, "some cells match and some don't", 60000, 1000000) {
  MeshData md; fill(g, md);
  std::string a = g.oneOf({"TYPE", "MAT", "REAL", "NONE", "w", "type"}); uint32 v = (uint32) g.integer(0, 4);
  std::vector<uint32> want;
  if (md.cellIntData.count(a)) for (size_t i = 0; i < md.cellNodes.size(); i++) if (md.cellIntData[a][i] == v) want.push_back((uint32) i);
  Snap b(md);
  g.note << md.cellNodes.size() << " cells, " << a << "=" << v;
  EXPECT(md.getCellsByAttribute(a, v) == want, "cells by attribute: " << md.getCellsByAttribute(a, v).size() << " expected " << want.size());
  Snap c(md);
  EXPECT(c.ints == b.ints && c.nodes == b.nodes, "the selection changed the mesh");
  freeMpcs(md);
  g.nontrivial(want.size() && want.size() < md.cellNodes.size());
}
