// P24: NEU reader loads exactly the mesh in the file; damage is survived.
#include "cdb.h"
#include "damage.h"
using namespace cdb;

struct Neu {
  std::vector<std::array<std::string, 3>> x;
  std::vector<std::array<uint32, 5>> vol;                    // material, nodes
  std::vector<std::pair<std::string, std::array<uint32, 3>>> surf;
};
static std::string number(Gen& g) {
  double v = coord(g);
  switch (g.weighted({4, 2, 2, 1})) {
    case 0: return fmt("%.10f", v);
    case 1: return fmt("%.16g", v);
    case 2: return fmt("%.9E", v);
    default: return fmt("%ld", g.integer(-20, 20));
  }
}
static Neu genNeu(Gen& g, bool big) {
  Neu m;
  int nn = big ? 70000 : (int) g.integer(g.chance(1, 20) ? 0 : 1, 15), nv = nn ? (big ? 66000 : (int) g.integer(0, 12)) : 0, ns = nn ? (int) g.integer(0, 14) : 0;
  if (big) for (int i = 0; i < nn; i++) m.x.push_back({fmt("%d.5", i % 91), fmt("%d", i), "0"});
  else for (int i = 0; i < nn; i++) m.x.push_back({number(g), number(g), number(g)});
  for (int i = 0; i < nv; i++) {
    if (big) m.vol.push_back({(uint32) (i % 3 + 1), (uint32) (i + 1), (uint32) (i + 2), (uint32) (nn - i), (uint32) (i % 100 + 1)});
    else { std::array<uint32, 5> v; v[0] = (uint32) g.integer(1, 5); for (int k = 1; k < 5; k++) v[k] = (uint32) g.integer(1, nn); m.vol.push_back(v); }
  }
  static const std::vector<std::string> names = {"1", "2", "3", "10", "12", "0"};
  for (int i = 0; i < ns; i++) m.surf.push_back({g.pick(names), {(uint32) g.integer(1, nn), (uint32) g.integer(1, nn), (uint32) g.integer(1, nn)}});
  return m;
}
static std::string text(Gen& g, const Neu& m) {
  std::string eol = g.oneOf({"\n", "\n", "\r\n"}), sep = g.oneOf({" ", " ", "  ", "\t"}), lead = g.oneOf({"", "  "});
  std::string t = lead + fmt("%d", (int) m.x.size()) + eol;
  for (auto& p : m.x) t += lead + p[0] + sep + p[1] + sep + p[2] + eol;
  t += fmt("%d", (int) m.vol.size()) + eol;
  for (auto& v : m.vol) { t += lead + fmt("%u", v[0]); for (int k = 1; k < 5; k++) t += sep + fmt("%u", v[k]); t += eol; }
  t += fmt("%d", (int) m.surf.size()) + eol;
  for (auto& s : m.surf) { t += lead + s.first; for (uint32 n : s.second) t += sep + fmt("%u", n); t += eol; }
  if (g.chance(1, 4)) while (t.size() && isspace(t.back())) t.pop_back();     // no final line end
  return t;
}
static void check(MeshData& md, const Neu& m) {
  EXPECT(md.nodesNumbers.size() == m.x.size() && md.nodesPos.size() == m.x.size(), "nodes: read " << md.nodesNumbers.size() << " of " << m.x.size());
  for (size_t i = 0; i < m.x.size(); i++) {
    EXPECT(md.nodesNumbers[i] == i + 1, "number of node " << i << ": " << md.nodesNumbers[i]);
    for (int c = 0; c < 3; c++) { double v = strtod(m.x[i][c].c_str(), nullptr); EXPECT(md.nodesPos[i][c] == v, "coordinate " << c << " of node " << i + 1 << ": " << md.nodesPos[i][c] << " expected " << v); }
  }
  EXPECT(md.cellNumbers.size() == m.vol.size() && md.cellNodes.size() == m.vol.size(), "elements: read " << md.cellNumbers.size() << " of " << m.vol.size());
  auto mat = md.cellIntData.find("MAT");
  if (m.vol.size()) EXPECT(mat != md.cellIntData.end() && mat->second.size() == m.vol.size(), "materials of the elements are missing");
  for (size_t i = 0; i < m.vol.size(); i++) {
    EXPECT(md.cellNumbers[i] == i + 1, "number of element " << i << ": " << md.cellNumbers[i]);
    EXPECT(mat->second[i] == m.vol[i][0], "material of element " << i + 1 << ": " << mat->second[i]);
    EXPECT(md.cellNodes[i] == std::vector<uint32>(m.vol[i].begin() + 1, m.vol[i].end()), "nodes of element " << i + 1);
  }
  std::map<std::string, std::vector<uint32>> want;
  for (auto& s : m.surf) for (uint32 n : s.second) want[s.first].push_back(n);
  EXPECT(md.feComps.size() == want.size(), "surfaces: read " << md.feComps.size() << " of " << want.size());
  for (auto& w : want) {
    auto it = md.feComps.find(w.first);
    EXPECT(it != md.feComps.end() && it->second.name == w.first, "surface " << w.first << " is missing");
    EXPECT(it->second.list == w.second, "triangles of surface " << w.first << ": " << it->second.list.size() << " numbers of " << w.second.size());
    EXPECT(it->second.type == FEComponent::ELEMENTS, "type of the component of surface " << w.first);
  }
  for (auto& p : md.cellIntData) EXPECT(p.second.size() == m.vol.size(), "attribute " << p.first << " has " << p.second.size() << " values");
  EXPECT(md.fixBcs.empty() && md.loadBcs.empty() && md.mpcs.empty() && md.cellDoubleData.empty() && md.cellStringData.empty(), "data the file doesn't hold");
}

FACET(read_back, "volume elements and a surface index with at least 2 triangles", 30000, 600000) {
  Neu m = genNeu(g, false);
  std::string f = fileName("neu"); MeshData md;
  if (g.chance(1, 4)) {     // whatever the mesh held before is replaced
    if (g.boolean()) { put(f, text(g, genNeu(g, false))); EXPECT(readNeuFile(f, md), "another file is not read"); g.label("after another NEU file"); }
    else { Opt o = genOpt(g); Mesh c = genMesh(g, o); put(f, write(g, c, o, Style())); EXPECT(readCdbFile(f, md), "a CDB file is not read"); freeMpcs(md); g.label("after a CDB file"); }
  }
  put(f, text(g, m));
  g.note << m.x.size() << " nodes, " << m.vol.size() << " volumes, " << m.surf.size() << " triangles";
  EXPECT(readNeuFile(f, md), "file is reported unreadable");
  unlink(f.c_str());
  check(md, m);
  bool two = false; std::map<std::string, int> cnt; for (auto& s : m.surf) if (++cnt[s.first] > 1) two = true;
  if (cnt.size() > 1) g.label("several surfaces");
  g.nontrivial(m.vol.size() && two);
}
FACET(large, "more than 65536 nodes and elements", 2, 10) {
  Neu m = genNeu(g, true);
  std::string f = fileName("neu"); put(f, text(g, m));
  MeshData md;
  EXPECT(readNeuFile(f, md), "file is reported unreadable");
  unlink(f.c_str());
  check(md, m);
  g.nontrivial();
}
// a file cut inside its data is never taken for a whole one
FACET(cut, "cut before the last number", 3000, 60000) {
  Neu m = genNeu(g, false);
  std::string t = text(g, m);
  size_t last = t.find_last_not_of(" \r\n\t");
  // cut at a border between numbers, so that the last number read is whole
  std::vector<size_t> ends;
  for (size_t i = 1; i < last; i++) if (isspace(t[i]) && !isspace(t[i - 1])) ends.push_back(i);
  if (ends.empty()) { g.label("one number"); return; }
  size_t c = g.pick(ends);
  g.note << m.x.size() << " nodes, " << m.vol.size() << " volumes, " << m.surf.size() << " triangles, cut at " << c << " of " << t.size();
  std::string f = fileName("neu"); put(f, t.substr(0, c));
  bool taken = false;
  auto r = pbt::inChild([&] { MeshData md; if (readNeuFile(f, md)) _exit(42); });
  taken = r.code == 42;
  unlink(f.c_str());
  EXPECT(r.ended != pbt::CRASHED, "reading a cut file ended with signal " << r.sig << " exit code " << r.code);
  EXPECT(!taken, "a cut file was read without complaint");
  g.nontrivial();
}
static void use(const std::string& f) {
  MeshData md;
  if (readNeuFile(f, md)) {
    EXPECT(md.nodesNumbers.size() == md.nodesPos.size() && md.cellNumbers.size() == md.cellNodes.size(), "arrays of different length");
    for (auto& p : md.cellIntData) EXPECT(p.second.size() == md.cellNumbers.size(), "attribute " << p.first << " has another length");
    md.getDegeneratedCells(); md.getCellsByAttribute("MAT", 1);
    md.compressNumbers();
  }
}
FACET(damaged, "the text differs from the well-formed one", 6000, 150000) {
  Neu m = genNeu(g, false);
  std::string t = text(g, m), what, d = damage::some(g, t, what);
  g.note << m.x.size() << " nodes, " << m.vol.size() << " volumes, " << m.surf.size() << " triangles:" << what;
  std::string f = fileName("neu"); put(f, d);
  auto r = pbt::inChild([&] { use(f); });
  unlink(f.c_str());
  EXPECT(r.ended != pbt::CRASHED, "reading a damaged file ended with signal " << r.sig << " exit code " << r.code);
  g.nontrivial(d != t);
}
FACET(garbage, "more than 10 bytes", 1500, 40000) {
  static const std::vector<std::string> w = {"1", "2", "3", "4", "-1", "99999999", "0", "0.5", "1e5", "x", "nan", "\n", "\n", " ", "\t", "1 2 3\n", "1 1 2 3 4\n", std::string(1, '\0')};
  std::string t; int n = (int) g.integer(0, 60);
  for (int i = 0; i < n; i++) t += g.chance(1, 12) ? std::string(1, (char) g.integer(0, 255)) : g.pick(w);
  g.note << t;
  std::string f = fileName("neu"); put(f, t);
  auto r = pbt::inChild([&] { use(f); });
  unlink(f.c_str());
  EXPECT(r.ended != pbt::CRASHED, "reading an arbitrary file ended with signal " << r.sig << " exit code " << r.code);
  g.nontrivial(t.size() > 10);
}
