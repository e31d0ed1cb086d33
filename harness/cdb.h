// Meshes as plain data and their CDB text.
#pragma once
#include "nla.h"
#include <cstdarg>

namespace cdb {
using namespace nla3d;

inline std::string fmt(const char* f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string fileName(const char* ext) { return fmt("case_%d.%s", (int) getpid(), ext); }
inline void put(const std::string& name, const std::string& text) { std::ofstream f(name, std::ios::binary); f.write(text.data(), text.size()); }

struct NodeRec { uint32 no; double x[3]; std::string t[3]; };
struct ElRec { uint32 no, type, mat, real, sect, cs, shape; std::vector<uint32> n; };
struct BcRec { uint32 node; Dof::dofType d; std::string label; double v; std::string t; };
struct CeRec { double b; std::string bt; std::vector<BcRec> terms; };
struct CompRec { std::string name; bool nodes; std::vector<std::pair<uint32, uint32>> ranges; std::vector<uint32> list() const { std::vector<uint32> l; for (auto& r : ranges) for (uint32 i = r.first; i <= r.second; i++) l.push_back(i); return l; } };

struct Mesh {
  std::vector<NodeRec> nodes;
  std::vector<ElRec> els;
  std::vector<BcRec> fix, load;
  std::vector<CeRec> ce;
  std::vector<CompRec> comp;
  bool hasSolid = true;
};

// number as text with `d` digits after the point; the value is what the text says
inline std::string sci(double v, int d, int expDigits) {
  std::string s = fmt("%.*E", d, v);
  size_t e = s.find('E');
  std::string m = s.substr(0, e); int x = atoi(s.c_str() + e + 1);
  if (expDigits == 2 && std::abs(x) > 99) { m = fmt("%.*f", d, 0.0); x = 0; }
  return m + fmt("E%c%0*d", x < 0 ? '-' : '+', expDigits, std::abs(x));
}
inline double coord(Gen& g) {
  switch (g.weighted({2, 4, 3, 1})) {
    case 0: return 0;
    case 1: return (double) g.integer(-50, 50) / 4;
    case 2: return g.sreal(100, 1000003);
    default: return g.sreal(1, 1000003) * std::pow(10.0, (double) g.integer(-20, 9));
  }
}
inline std::string bcValue(Gen& g) {
  switch (g.weighted({3, 3, 2, 2})) {
    case 0: return "0.00000000    ";
    case 1: return fmt("%.8f", g.sreal(9, 1000003));
    case 2: return fmt("%.9E", g.sreal(9, 1000003) * std::pow(10.0, (double) g.integer(-9, 9)));
    default: return fmt("%ld.", g.integer(-800000, 800000));
  }
}
inline std::vector<uint32> numbers(Gen& g, int n, uint32 limit) {
  // consecutive, gapped, large or in any order
  std::vector<uint32> v;
  uint32 cur = 0;
  int mode = (int) g.weighted({3, 4, 1});
  for (int i = 0; i < n; i++) {
    cur += mode == 0 ? 1 : (uint32) g.integer(1, g.chance(1, 6) ? 400 : 3);
    v.push_back(cur);
  }
  if (mode == 2) { uint32 off = limit - cur - 1; for (auto& x : v) x += off; }
  if (g.chance(1, 4)) { std::vector<int> p = g.perm(n); std::vector<uint32> w; for (int i : p) w.push_back(v[i]); v = w; }
  return v;
}
struct Opt { bool lower = false; int nodeInts = 3, nodeW = 9, nodeD = 13, nodeE = 2, elW = 9, compW = 10, compCols = 8; bool solid = true; bool split = false; };
inline uint32 lim(int w) { uint32 l = 1; for (int i = 0; i < std::min(w, 8) - 1; i++) l *= 10; return l; }

inline Opt genOpt(Gen& g) {
  Opt o;
  o.nodeInts = g.chance(1, 3) ? 1 : 3; o.nodeW = (int) g.integer(7, 10); o.nodeD = (int) g.integer(9, 16); o.nodeE = g.chance(1, 3) ? 3 : 2;
  o.elW = (int) g.integer(7, 10); o.compW = (int) g.integer(8, 11); o.compCols = g.chance(1, 3) ? (int) g.integer(1, 12) : 8;
  o.solid = g.chance(3, 4); o.split = g.chance(1, 6);
  return o;
}
// any well-formed mesh; with `forModel` the numbers of boundary conditions refer to nodes of the mesh (always so)
inline Mesh genMesh(Gen& g, const Opt& o, bool big = false) {
  Mesh m;
  int nn = big ? (int) g.integer(30, 60) : (int) g.integer(1, 12), ne = big ? (int) g.integer(20, 40) : (int) g.integer(0, 8);
  uint32 limit = std::min(lim(o.nodeW), lim(o.elW));
  std::vector<uint32> nums = numbers(g, nn, limit);
  for (int i = 0; i < nn; i++) {
    NodeRec r; r.no = nums[i];
    for (int c = 0; c < 3; c++) { r.t[c] = sci(coord(g), o.nodeD, o.nodeE); r.x[c] = strtod(r.t[c].c_str(), nullptr); }
    m.nodes.push_back(r);
  }
  std::vector<uint32> en = numbers(g, ne, limit);
  for (int i = 0; i < ne; i++) {
    ElRec e; e.no = en[i];
    e.type = (uint32) g.integer(1, 4); e.mat = (uint32) g.integer(1, 3); e.real = (uint32) g.integer(0, 3); e.sect = (uint32) g.integer(0, 3); e.cs = (uint32) g.integer(0, 12); e.shape = (uint32) g.integer(0, 2);
    int k = (int) g.integer(1, o.solid ? 8 : 10);
    for (int j = 0; j < k; j++) e.n.push_back(j && g.chance(1, 8) ? e.n.back() : nums[g.draw(nn - 1)]);
    m.els.push_back(e);
  }
  static const char* dl[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "TEMP", "HYDRO_PRESSURE"};
  static const Dof::dofType dt[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::TEMP, Dof::HYDRO_PRESSURE};
  static const char* fl[] = {"FX", "FY", "FZ", "HEAT", "UX", "TEMP"};
  static const Dof::dofType ft[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::TEMP, Dof::UX, Dof::TEMP};
  auto bc = [&](bool force) {
    BcRec b; b.node = nums[g.draw(nn - 1)]; b.t = bcValue(g); b.v = strtod(b.t.c_str(), nullptr);
    int k = (int) (force ? g.integer(0, 5) : g.chance(1, 8) ? 7 : g.integer(0, 6));
    b.label = force ? fl[k] : dl[k]; b.d = force ? ft[k] : dt[k];
    return b;
  };
  int nf = (int) g.integer(0, 8), nl = (int) g.integer(0, 5), nc = (int) g.integer(0, 3), nk = (int) g.integer(0, 3);
  for (int i = 0; i < nf; i++) m.fix.push_back(bc(false));
  for (int i = 0; i < nl; i++) m.load.push_back(bc(true));
  for (int i = 0; i < nc; i++) {
    CeRec c; c.bt = bcValue(g); c.b = strtod(c.bt.c_str(), nullptr);
    int k = (int) g.integer(1, 7);
    for (int j = 0; j < k; j++) c.terms.push_back(bc(false));
    m.ce.push_back(c);
  }
  for (int i = 0; i < nk; i++) {
    CompRec c; c.nodes = g.chance(2, 3) || en.empty();
    c.name = fmt("%s%d", g.oneOf({"BOTTOM_SIDE", "CM_", "A", "Probe", "X1_"}), i);
    std::vector<uint32> s = c.nodes ? nums : en;
    std::sort(s.begin(), s.end());
    std::vector<uint32> keep; for (uint32 x : s) if (g.chance(2, 3)) keep.push_back(x);
    if (keep.empty()) keep.push_back(s[0]);
    for (uint32 x : keep) { if (c.ranges.size() && c.ranges.back().second + 1 == x) c.ranges.back().second = x; else c.ranges.push_back({x, x}); }
    if (g.chance(1, 6)) { std::vector<int> p = g.perm((int) c.ranges.size()); auto r = c.ranges; for (size_t q = 0; q < p.size(); q++) c.ranges[q] = r[p[q]]; }
    m.comp.push_back(c);
  }
  return m;
}

struct Style {                       // what does not change the meaning
  std::string eol = "\n";
  int keyCase = 0;                   // 0 upper, 1 lower, 2 mixed
  bool blanks = false, noise = false, noFinalEol = false, tight = false;
  bool finalBlank = false;
};
inline std::string cased(Gen& g, const std::string& s, int mode) {
  std::string r = s;
  for (auto& c : r) c = mode == 0 ? toupper(c) : mode == 1 ? tolower(c) : g.boolean() ? tolower(c) : toupper(c);
  return r;
}
// one line (or block) the reader has nothing to do with
inline std::string noiseLine(Gen& g) {
  static const std::vector<std::string> v = {
    "! a comment, D,1,UX,5", "/COM,ANSYS RELEASE 15.0    UP20131014       14:13:30    02/19/2015", "/TITLE,   d,1,ux,1", "/NOPR", "ANTYPE, 0",
    "*SET,_RETURN ,  0.000000000000    ", "*SET,NAME,'a string, with comma'", "*IF,_CDRDOFF,EQ,1,THEN     !if solid model was read in", "_CDRDOFF=             !reset flag",
    "*ELSE", "*ENDIF", "NUMOFF,NODE,    16379", "NUMOFF,TYPE,        2", "DOF,DELETE", "ET,       1,185", "et,matid,185", "ETYPE,2", "TYPE,        2", "type,matid", "KEYOP,       1, 6,        1",
    "MPTEMP,R5.0, 1, 1,  0.00000000    ,", "MPDATA,R5.0, 1,DENS,       1, 1, 1.100000000E-03,", "EXTOPT,ATTR,      0,      0,      0", "TREF,  0.00000000", "BFUNIF,TEMP,_TINY",
    "ACEL,  0.00000000    ,  0.00000000    ,  0.00000000", "CRPLIM, 0.100000000    ,   0", "DMPRAT,  0.00000000", "DOMEGA,  0.0,0.0,0.0", "FITEM,2,1,UX,4.0", "FCUM,ADD", "CEQN,1", "CECYC,1,2,3,4",
    "D,ALL,UX,0.5", "d,_fixnodes,uy,1.", "F,10,FX,%load_table%", "D,5,UX,%table%", "F,ALL,HEAT,800000.", "SFE,      301,   1,CONV,1,R5.0", "  3.4000000E-03  3.4000000E-03", "-1", "  12  13", ",,,", "   ,1", " ", "N,R5.3,LOC,       -1,", "ERESX,DEFA",
  };
  if (g.chance(1, 10)) return "RLBLOCK,       1,       1,       6,       7\n(2i8,6g16.9)\n(7g16.9)\n       1       6  1.00000000      0.00000000      0.00000000      1.00000000      0.00000000      0.00000000    ";
  if (g.chance(1, 10)) return "CMBLOCK,_CM_UNIQUE,NODE,      3  ! users node component definition\n(8i10)\n      5037     -5341      6330";
  if (g.chance(1, 10)) return "*PREAD,DISP_VEC,        10\n  0.000000000      12.00000000      24.00000000\nEND PREAD";
  return g.pick(v);
}
// rows of the text; every row is terminated by the style's line end
inline std::string write(Gen& g, const Mesh& m, const Opt& o, const Style& s) {
  std::vector<std::string> rows;
  auto K = [&](const std::string& k) { return cased(g, k, s.keyCase); };
  auto between = [&] {
    if (s.noise) { int k = (int) g.integer(0, 2); for (int i = 0; i < k; i++) { std::string n = noiseLine(g); size_t a = 0; for (;;) { size_t b = n.find('\n', a); rows.push_back(n.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; } } }
    if (s.blanks && g.chance(1, 2)) rows.push_back(g.boolean() ? "" : "   ");
  };
  auto padc = [&](const std::string& a) { return s.tight ? a : g.chance(1, 2) ? " " + a : a + "  "; };
  auto cmd = [&](std::vector<std::string> f) { std::string r = f[0]; for (size_t i = 1; i < f.size(); i++) r += "," + padc(f[i]); return r; };
  between();
  // nodes in one or two blocks
  size_t cut = o.split ? m.nodes.size() / 2 : m.nodes.size();
  int fw = o.nodeD + 5 + o.nodeE;      // sign, digit, point, digits, E, sign, exponent
  for (int blk = 0; blk < (o.split ? 2 : 1); blk++) {
    rows.push_back(K(fmt("NBLOCK,%d%s,%9d,%9d", 3 + o.nodeInts, o.nodeInts == 3 ? ",SOLID" : "", (int) m.nodes.size(), (int) m.nodes.size())));
    rows.push_back(K(fmt("(%di%d,%de%d.%d%s)", o.nodeInts, o.nodeW, o.nodeInts == 3 ? 6 : 3, fw, o.nodeD, o.nodeE == 3 ? "e3" : "")));
    for (size_t i = blk ? cut : 0; i < (blk ? m.nodes.size() : cut); i++) {
      auto& n = m.nodes[i];
      std::string r = fmt("%*u", o.nodeW, n.no);
      for (int k = 1; k < o.nodeInts; k++) r += fmt("%*d", o.nodeW, 0);
      int last = 3; while (last > 0 && n.x[last - 1] == 0 && !std::signbit(n.x[last - 1])) last--;
      if (g.chance(1, 3)) last = 3;   // trailing zeros may be written as well
      for (int c = 0; c < last; c++) r += fmt("%*s", fw, n.t[c].c_str());
      if (last == 3 && o.nodeInts == 3 && g.chance(1, 6)) r += fmt("%*s", fw, sci(g.real(0, 90), o.nodeD, o.nodeE).c_str());   // rotation angles
      rows.push_back(r);
    }
    rows.push_back(g.boolean() ? K("N,R5.3,LOC,       -1,") : "-1");
    between();
  }
  for (int blk = 0; blk < 1; blk++) {
    if (m.els.empty() && g.boolean()) break;
    if (o.solid) { rows.push_back(K(fmt("EBLOCK,19,SOLID,%10d,%10d", (int) m.els.size(), (int) m.els.size()))); rows.push_back(K(fmt("(19i%d)", o.elW))); }
    else { rows.push_back(K(g.boolean() ? "EBLOCK,15" : fmt("EBLOCK,15,,,%d", (int) m.els.size()))); rows.push_back(K(fmt("(15i%d)", o.elW))); }
    for (auto& e : m.els) {
      std::string r;
      auto f = [&](uint32 v) { r += fmt("%*u", o.elW, v); };
      if (o.solid) { f(e.mat); f(e.type); f(e.real); f(e.sect); f(e.cs); f(0); f(0); f(e.shape); f((uint32) e.n.size()); f(0); f(e.no); }
      else { f(e.no); f(e.type); f(e.real); f(e.mat); f(e.cs); }
      for (uint32 n : e.n) f(n);
      rows.push_back(r);
    }
    rows.push_back(fmt("%*d", g.boolean() ? o.elW : 2, -1));
    between();
  }
  // the rest in any order of kinds, file order within each kind
  size_t a = 0, b = 0, c = 0, d = 0;
  for (;;) {
    std::vector<int> left;
    if (a < m.fix.size()) left.push_back(0);
    if (b < m.load.size()) left.push_back(1);
    if (c < m.ce.size()) left.push_back(2);
    if (d < m.comp.size()) left.push_back(3);
    if (left.empty()) break;
    switch (g.pick(left)) {
      case 0: { auto& x = m.fix[a++]; auto f = std::vector<std::string>{K("D"), fmt("%u", x.node), K(x.label), x.t}; if (g.boolean()) f.push_back("  0.00000000    "); rows.push_back(cmd(f)); break; }
      case 1: { auto& x = m.load[b++]; auto f = std::vector<std::string>{K("F"), fmt("%u", x.node), K(x.label), x.t}; if (g.boolean()) f.push_back("  0.00000000    "); rows.push_back(cmd(f)); break; }
      case 2: {
        auto& x = m.ce[c++];
        rows.push_back(cmd({K("CE"), "R5.0", K("DEFI"), fmt("%d", (int) x.terms.size()), fmt("%d", (int) c), x.bt}));
        for (size_t i = 0; i < x.terms.size(); i += 2) {
          std::vector<std::string> f = {K("CE"), "R5.0", K("NODE")};
          for (size_t j = i; j < std::min(i + 2, x.terms.size()); j++) { f.push_back(fmt("%u", x.terms[j].node)); f.push_back(K(x.terms[j].label)); f.push_back(x.terms[j].t); }
          rows.push_back(cmd(f));
        }
        break; }
      default: {
        auto& x = m.comp[d++];
        std::vector<long> v;
        for (auto& r : x.ranges) { v.push_back(r.first); if (r.second == r.first + 1 && g.boolean()) v.push_back(r.second); else if (r.second > r.first) v.push_back(-(long) r.second); }
        rows.push_back(K("CMBLOCK") + "," + x.name + (s.tight ? "," : "  ,") + K(x.nodes ? "NODE" : "ELEM") + fmt(",%8d", (int) v.size()) + (g.boolean() ? "  ! users component definition" : ""));
        rows.push_back(K(fmt("(%di%d)", o.compCols, o.compW)));
        std::string r;
        for (size_t i = 0; i < v.size(); i++) { r += fmt("%*ld", o.compW, v[i]); if ((i + 1) % o.compCols == 0) { rows.push_back(r); r.clear(); } }
        if (r.size()) rows.push_back(r);
      }
    }
    between();
  }
  if (g.chance(1, 3)) rows.push_back(K("FINISH"));
  std::string t;
  for (size_t i = 0; i < rows.size(); i++) { t += rows[i]; if (i + 1 < rows.size() || !s.noFinalEol) t += s.eol; }
  return t;
}
inline std::string show(const Mesh& m) {
  return fmt("%d nodes, %d elements, %d D, %d F, %d CE, %d components", (int) m.nodes.size(), (int) m.els.size(), (int) m.fix.size(), (int) m.load.size(), (int) m.ce.size(), (int) m.comp.size());
}
inline void freeMpcs(MeshData& md) { for (auto m : md.mpcs) delete m; md.mpcs.clear(); }

inline void compare(MeshData& md, const Mesh& m, bool solid) {
  EXPECT(md.nodesNumbers.size() == m.nodes.size() && md.nodesPos.size() == m.nodes.size(), "nodes: read " << md.nodesNumbers.size() << " of " << m.nodes.size());
  for (size_t i = 0; i < m.nodes.size(); i++) {
    EXPECT(md.nodesNumbers[i] == m.nodes[i].no, "number of node " << i << ": " << md.nodesNumbers[i] << " expected " << m.nodes[i].no);
    for (int c = 0; c < 3; c++) EXPECT(md.nodesPos[i][c] == m.nodes[i].x[c], "coordinate " << c << " of node " << m.nodes[i].no << ": " << md.nodesPos[i][c] << " expected " << m.nodes[i].x[c]);
  }
  EXPECT(md.cellNumbers.size() == m.els.size() && md.cellNodes.size() == m.els.size(), "elements: read " << md.cellNumbers.size() << " of " << m.els.size());
  auto att = [&](const char* name, size_t i) -> uint32 { auto it = md.cellIntData.find(name); EXPECT(it != md.cellIntData.end(), "no attribute " << name); EXPECT(it->second.size() == m.els.size(), "attribute " << name << " has " << it->second.size() << " values"); return it->second[i]; };
  for (size_t i = 0; i < m.els.size(); i++) {
    auto& e = m.els[i];
    EXPECT(md.cellNumbers[i] == e.no, "number of element " << i << ": " << md.cellNumbers[i] << " expected " << e.no);
    EXPECT(md.cellNodes[i] == e.n, "nodes of element " << e.no);
    EXPECT(att("TYPE", i) == e.type && att("MAT", i) == e.mat && att("REAL", i) == e.real && att("CS", i) == e.cs, "attributes of element " << e.no);
    EXPECT(att("SECT", i) == (solid ? e.sect : 0) && att("SHAPE", i) == (solid ? e.shape : 0), "section or shape of element " << e.no);
  }
  EXPECT(md.fixBcs.size() == m.fix.size(), "prescribed values: read " << md.fixBcs.size() << " of " << m.fix.size());
  for (size_t i = 0; i < m.fix.size(); i++) EXPECT(md.fixBcs[i].node == (int32) m.fix[i].node && md.fixBcs[i].node_dof == m.fix[i].d && md.fixBcs[i].value == m.fix[i].v, "prescribed value " << i << ": node " << md.fixBcs[i].node << " type " << md.fixBcs[i].node_dof << " value " << md.fixBcs[i].value);
  EXPECT(md.loadBcs.size() == m.load.size(), "loads: read " << md.loadBcs.size() << " of " << m.load.size());
  for (size_t i = 0; i < m.load.size(); i++) EXPECT(md.loadBcs[i].node == (int32) m.load[i].node && md.loadBcs[i].node_dof == m.load[i].d && md.loadBcs[i].value == m.load[i].v, "load " << i << ": node " << md.loadBcs[i].node << " type " << md.loadBcs[i].node_dof << " value " << md.loadBcs[i].value);
  EXPECT(md.mpcs.size() == m.ce.size(), "constraint equations: read " << md.mpcs.size() << " of " << m.ce.size());
  for (size_t i = 0; i < m.ce.size(); i++) {
    EXPECT(md.mpcs[i]->b == m.ce[i].b, "right hand side of equation " << i);
    EXPECT(md.mpcs[i]->eq.size() == m.ce[i].terms.size(), "equation " << i << ": read " << md.mpcs[i]->eq.size() << " terms of " << m.ce[i].terms.size());
    size_t k = 0;
    for (auto& t : md.mpcs[i]->eq) { auto& w = m.ce[i].terms[k++]; EXPECT(t.node == (int32) w.node && t.node_dof == w.d && t.coef == w.v, "equation " << i << " term " << k << ": node " << t.node << " type " << t.node_dof << " coefficient " << t.coef); }
  }
  EXPECT(md.feComps.size() == m.comp.size(), "components: read " << md.feComps.size() << " of " << m.comp.size());
  for (auto& c : m.comp) {
    auto it = md.feComps.find(c.name);
    EXPECT(it != md.feComps.end(), "component " << c.name << " is missing");
    EXPECT(it->second.name == c.name && it->second.type == (c.nodes ? FEComponent::NODES : FEComponent::ELEMENTS), "name or type of component " << c.name);
    EXPECT(it->second.list == c.list(), "list of component " << c.name << " has " << it->second.list.size() << " numbers of " << c.list().size());
  }
  EXPECT(md.cellDoubleData.empty() && md.cellStringData.empty(), "data the file doesn't hold");
}
}  // namespace cdb
