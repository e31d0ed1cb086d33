// P22: a random mesh written as CDB is read back exactly.
#include "cdb.h"
using namespace cdb;

FACET(read_back, "elements, prescribed values, loads, an equation with other than 2 terms, a component with a range", 12000, 250000) {
  Opt o = genOpt(g); Mesh m = genMesh(g, o, g.chance(1, 20));
  Style s; s.tight = g.boolean(); s.noise = g.boolean(); s.noFinalEol = g.chance(1, 4);
  std::string t = write(g, m, o, s);
  g.note << show(m) << "; " << (o.solid ? "solid" : "plain") << " elements, widths " << o.nodeW << "/" << o.elW << "/" << o.compW;
  std::string f = fileName("cdb"); put(f, t);
  MeshData md;
  if (g.chance(1, 4)) {   // whatever it held before is replaced
    Opt o2 = genOpt(g); Mesh m2 = genMesh(g, o2); put(f + "2", write(g, m2, o2, Style()));
    EXPECT(readCdbFile(f + "2", md), "another file is not read"); freeMpcs(md); unlink((f + "2").c_str()); g.label("second file into the same mesh");
  }
  EXPECT(readCdbFile(f, md), "file is reported unreadable");
  unlink(f.c_str());
  compare(md, m, o.solid);
  bool odd = false, range = false;
  for (auto& c : m.ce) if (c.terms.size() != 2) odd = true;
  for (auto& c : m.comp) for (auto& r : c.ranges) if (r.second > r.first) range = true;
  freeMpcs(md);
  g.nontrivial(m.els.size() && m.fix.size() && m.load.size() && odd && range);
}

// shipped layout, sizes beyond 16 bits
FACET(large, "more than 65536 nodes, elements and component records", 3, 12) {
  Mesh m; Opt o; Style s;
  int nn = 65530 + (int) g.integer(20, 3000);
  for (int i = 0; i < nn; i++) { NodeRec r; r.no = (uint32) (2 * i + 1); for (int c = 0; c < 3; c++) { r.x[c] = (double) ((i * (c + 3)) % 1000) / 8; r.t[c] = sci(r.x[c], o.nodeD, o.nodeE); } m.nodes.push_back(r); }
  for (int i = 0; i < nn; i++) { ElRec e = {(uint32) (i + 1), 1, 1, 1, 1, 0, 0, {(uint32) (2 * i + 1), (uint32) (2 * ((i + 1) % nn) + 1)}}; m.els.push_back(e); }
  CompRec c; c.name = "ALL"; c.nodes = true; for (int i = 0; i < nn; i++) c.ranges.push_back({(uint32) (2 * i + 1), (uint32) (2 * i + 1)});
  CompRec e; e.name = "ELS"; e.nodes = false; e.ranges.push_back({1, (uint32) nn});
  m.comp = {c, e};
  for (int i = 0; i < nn; i += 7) { BcRec b = {(uint32) (2 * i + 1), Dof::UX, "UX", 0.5, "0.5"}; m.fix.push_back(b); m.load.push_back(b); m.load.back().label = "FX"; }
  g.note << show(m);
  std::string f = fileName("cdb"); put(f, write(g, m, o, s));
  MeshData md;
  EXPECT(readCdbFile(f, md), "file is reported unreadable");
  unlink(f.c_str());
  compare(md, m, true);
  g.nontrivial();
}

FACET(missing, "every case", 20, 40) {
  MeshData md;
  EXPECT(!readCdbFile(fmt("no_such_file_%d.cdb", (int) g.integer(0, 99)), md), "a file that doesn't exist was read");
  EXPECT(!readNeuFile(fmt("no_such_file_%d.neu", (int) g.integer(0, 99)), md), "a file that doesn't exist was read");
  g.nontrivial();
}
