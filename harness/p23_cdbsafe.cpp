// P23: CDB formatting doesn't matter, damage is survived.
#include "cdb.h"
#include "damage.h"
using namespace cdb;

FACET(formatting, "at least three of: other line ends, other letter case, blank lines, foreign commands, no final line end", 10000, 200000) {
  Opt o = genOpt(g); Mesh m = genMesh(g, o);
  Style s; s.tight = g.boolean();
  int n = 0;
  s.eol = g.oneOf({"\n", "\r\n", "\r\n", "\r"}); if (s.eol != "\n") { n++; g.label(s.eol == "\r" ? "CR" : "CR LF"); }
  s.keyCase = (int) g.integer(0, 2); if (s.keyCase) { n++; g.label("letter case"); }
  s.blanks = g.boolean(); if (s.blanks) { n++; g.label("blank lines"); }
  s.noise = g.boolean(); if (s.noise) { n++; g.label("foreign commands"); }
  s.noFinalEol = g.boolean(); if (s.noFinalEol) { n++; g.label("no final line end"); }
  std::string f = fileName("cdb"); put(f, write(g, m, o, s));
  g.note << show(m) << "; " << n << " kinds of formatting";
  MeshData md;
  EXPECT(readCdbFile(f, md), "file is reported unreadable");
  unlink(f.c_str());
  compare(md, m, o.solid);
  freeMpcs(md);
  g.nontrivial(n >= 3 && m.els.size() && (m.fix.size() || m.load.size() || m.ce.size()));
}

static void use(const std::string& f) {
  MeshData md;
  if (readCdbFile(f, md)) {
    EXPECT(md.nodesNumbers.size() == md.nodesPos.size() && md.cellNumbers.size() == md.cellNodes.size(), "arrays of different length");
    for (auto& p : md.cellIntData) EXPECT(p.second.size() == md.cellNumbers.size(), "attribute " << p.first << " has another length");
    md.getDegeneratedCells(); md.getCellsByAttribute("TYPE", 1); md.getCellsByAttribute("NONE", 1);
    md.compressNumbers();
  }
  freeMpcs(md);
}
FACET(damaged, "the text differs from the well-formed one", 6000, 150000) {
  Opt o = genOpt(g); Mesh m = genMesh(g, o);
  Style s; s.tight = g.boolean(); s.noise = g.chance(1, 3); if (g.chance(1, 4)) s.eol = "\r\n";
  std::string t = write(g, m, o, s), what, d = damage::some(g, t, what);
  g.note << show(m) << ":" << what;
  std::string f = fileName("cdb"); put(f, d);
  auto r = pbt::inChild([&] { use(f); });
  unlink(f.c_str());
  g.label(r.ended == pbt::RETURNED ? "read or reported" : "clean fatal error");
  EXPECT(r.ended != pbt::CRASHED, "reading a damaged file ended with signal " << r.sig << " exit code " << r.code);
  g.nontrivial(d != t);
}
FACET(garbage, "more than 10 bytes", 1500, 40000) {
  static const std::vector<std::string> w = {"NBLOCK", "EBLOCK", "CMBLOCK", "D", "F", "CE", "ET", "TYPE", "*SET", "SOLID", "NODE", "ELEM", "DEFI", "R5.0", ",", ",", ",", "\n", "\n", "(3i9,6e20.13)", "(19i9)", "(8i10)", "(0i0)", "(1i1,1e1.1)",
    "1", "2", "8", "-1", "        1", "UX", "ALL", " ", "\r", "0.5", "1e5", "_X", "N,R5.3", "!", "/", std::string(1, '\0')};
  std::string t; int n = (int) g.integer(0, 60);
  for (int i = 0; i < n; i++) t += g.chance(1, 12) ? std::string(1, (char) g.integer(0, 255)) : g.pick(w);
  g.note << t;
  std::string f = fileName("cdb"); put(f, t);
  auto r = pbt::inChild([&] { use(f); });
  unlink(f.c_str());
  g.label(r.ended == pbt::RETURNED ? "read or reported" : "clean fatal error");
  EXPECT(r.ended != pbt::CRASHED, "reading an arbitrary file ended with signal " << r.sig << " exit code " << r.code);
  g.nontrivial(t.size() > 10);
}
