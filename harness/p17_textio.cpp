// P17: text form of matrices and vectors, comparison, solver dumps.
#include "nla.h"
#include "mats.h"
#include "fe.h"
#include <array>
#include <sys/stat.h>
using namespace nla3d;
using namespace nla3d::math;
using namespace pbt;

static double value(Gen& g) {
  switch (g.weighted({4, 3, 3, 1})) {
    case 0: return (double) g.integer(-99, 99);
    case 1: return g.sreal(10, 1000003);
    case 2: return (g.boolean() ? -1 : 1) * (1 + g.real(0, 9, 999999937)) * std::pow(10.0, (double) g.integer(-200, 200));
    default: return 0;
  }
}

// |a-b| within the precision of 15 significant digits
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)); }

template <class M> static std::unique_ptr<M> randomMat(Gen& g, bool sym) {
  int r = (int) g.integer(0, 12), c = sym ? r : (int) g.integer(0, 12);
  if (g.chance(1, 12) && r && c) { r += 20; c = sym ? r : c + 30; }
  auto m = mats::fresh<M>(r, c, 64);
  int k = r && c ? (int) g.integer(0, 2 * (r + c)) : 0;
  for (int e = 0; e < k; e++) m->addEntry((uint32) g.integer(1, r), (uint32) g.integer(1, c));
  m->compress();
  for (uint32 i = 0; i < m->nValues(); i++) m->getValuesArray()[i] = value(g);
  return m;
}

template <class M> static void sameMat(M& a, M& b, bool sym, const std::string& what) {
  EXPECT(a.nRows() == b.nRows() && a.nColumns() == b.nColumns(), what << ": shape " << b.nRows() << "x" << b.nColumns());
  EXPECT(a.nValues() == b.nValues(), what << ": number of values");
  double mx = 0;
  for (uint32 i = 1; i <= a.nRows(); i++) for (uint32 j = 1; j <= a.nColumns(); j++) {
    EXPECT(same(a.value(i, j), b.value(i, j)), what << ": entry (" << i << "," << j << ") wrote " << a.value(i, j) << " read " << b.value(i, j));
    mx = std::max(mx, std::fabs(a.value(i, j)));
  }
  EXPECT(a.compare(b, mx * 1e-14), what << ": compare() of the original with what was read");
  EXPECT(b.compare(a, mx * 1e-14), what << ": compare() of what was read with the original");
}

FACET(roundtrip, "the stream holds at least two objects or values of widely different magnitude", 6000, 120000) {
  int n = (int) g.integer(1, 5);
  struct Obj { int kind; std::unique_ptr<SparseMatrix> m; std::unique_ptr<SparseSymMatrix> s; std::unique_ptr<dVec> v; };
  std::vector<Obj> o(n);
  std::stringstream st;
  int prec = (int) g.integer(2, 9);
  st.precision(prec);
  bool fixedf = g.boolean();
  if (fixedf) st.setf(std::ios_base::fixed, std::ios_base::floatfield);
  for (int i = 0; i < n; i++) {
    o[i].kind = (int) g.integer(0, 2);
    if (o[i].kind == 0) { o[i].m = randomMat<SparseMatrix>(g, false); o[i].m->writeCoordinateTextFormat(st); g.note << "matrix " << o[i].m->nRows() << "x" << o[i].m->nColumns() << " nnz " << o[i].m->nValues() << "; "; }
    if (o[i].kind == 1) { o[i].s = randomMat<SparseSymMatrix>(g, true); o[i].s->writeCoordinateTextFormat(st); g.note << "sym " << o[i].s->nRows() << " nnz " << o[i].s->nValues() << "; "; }
    if (o[i].kind == 2) {
      o[i].v.reset(new dVec((uint32) g.integer(0, 20)));
      for (uint32 k = 0; k < o[i].v->size(); k++) (*o[i].v)[k] = value(g);
      o[i].v->writeTextFormat(st); g.note << "vector " << o[i].v->size() << "; ";
    }
    g.label(std::string("kind") + char('0' + o[i].kind));
    EXPECT(st.precision() == prec && (st.flags() & std::ios_base::floatfield) == (fixedf ? std::ios_base::fixed : std::ios_base::fmtflags()), "writing changed the caller's number format");
  }
  g.nontrivial(n > 1);
  SparseMatrix rm; SparseSymMatrix rs; dVec rv;      // reused readers
  bool reuse = g.boolean();
  for (int i = 0; i < n; i++) {
    SparseMatrix fm; SparseSymMatrix fs; dVec fv;
    std::string w = "object " + std::to_string(i);
    if (o[i].kind == 0) { SparseMatrix& t = reuse ? rm : fm; t.readCoordinateTextFormat(st); sameMat(*o[i].m, t, false, w); }
    if (o[i].kind == 1) { SparseSymMatrix& t = reuse ? rs : fs; t.readCoordinateTextFormat(st); sameMat(*o[i].s, t, true, w); }
    if (o[i].kind == 2) {
      dVec& t = reuse ? rv : fv; t.readTextFormat(st);
      EXPECT(t.size() == o[i].v->size(), w << ": length " << t.size());
      double mx = 0;
      for (uint32 k = 0; k < t.size(); k++) { EXPECT(same(t[k], (*o[i].v)[k]), w << ": component " << k << " wrote " << (*o[i].v)[k] << " read " << t[k]); mx = std::max(mx, std::fabs(t[k])); }
      if (t.size()) EXPECT(t.compare(*o[i].v, mx * 1e-14) && o[i].v->compare(t, mx * 1e-14), w << ": compare()");
    }
    EXPECT(!st.fail(), w << ": stream failed");
  }
  std::string rest; st >> rest;
  EXPECT(rest.empty(), "left over in the stream: " << rest);
}

template <class M> static void cmp(Gen& g, bool sym) {
  auto a = randomMat<M>(g, sym);
  if (a->nRows() == 0 || a->nColumns() == 0) throw pbt::Discard{"empty"};
  double th = g.logreal(-12, 3);
  // a copy with the same pattern
  auto b = mats::fresh<M>(a->nRows(), a->nColumns(), 64);
  std::set<std::pair<int, int>> pat;
  for (uint32 i = 1; i <= a->nRows(); i++)
    for (uint32 k = a->getIofeirArray()[i - 1] - 1; k < a->getIofeirArray()[i] - 1; k++) pat.insert({(int) i, (int) a->getColumnsArray()[k]});
  int how = (int) g.integer(0, 4);
  // 0 equal within th, 1 one entry off by more, 2 one entry moved, 3 other shape, 4 an entry more
  if (pat.empty() && how < 3 && how > 0) how = 0;
  auto q = pat;
  uint32 R = a->nRows(), C = a->nColumns();
  if (how == 2 || how == 4) {
    // a free position
    std::vector<std::pair<int, int>> freeP;
    for (uint32 i = 1; i <= R; i++) for (uint32 j = sym ? i : 1; j <= C; j++) if (!pat.count({(int) i, (int) j})) freeP.push_back({(int) i, (int) j});
    if (freeP.empty()) how = 0;
    else {
      auto add = g.pick(freeP);
      if (how == 2) { auto it = pat.begin(); std::advance(it, g.draw(pat.size() - 1)); q.erase(*it); }
      q.insert(add);
    }
  }
  if (how == 3) { bool rows = sym || g.boolean(); if (sym) { R++; C++; } else if (rows) R++; else C++; }
  b = mats::fresh<M>(R, C, 80);
  for (auto& e : q) b->addEntry(e.first, e.second);
  b->compress();
  // values of b come from a, within the threshold
  for (auto& e : q) {
    double v = a->value(std::min((uint32) e.first, a->nRows()), std::min((uint32) e.second, a->nColumns()));
    if (!pat.count(e)) v = 0;
    if (std::fabs(v) > 1e3 * th) v = std::fmod(v, 1e3 * th);   // so that th is resolvable
    if (pat.count(e)) (*a)(e.first, e.second) = v;
    (*b)(e.first, e.second) = v + g.sreal(0.99) * th;
  }
  bool expect = how == 0;
  if (how == 1) {
    auto it = pat.begin(); std::advance(it, g.draw(pat.size() - 1));
    double d = th * (1.01 + g.logreal(-2, 4)); if (g.boolean()) d = -d;
    (*b)(it->first, it->second) = (*a)(it->first, it->second) + d;
  }
  static const char* names[] = {"equal within the threshold", "one entry off", "one entry moved", "other shape", "one entry more"};
  g.label(names[how]);
  g.note << (sym ? "sym " : "gen ") << a->nRows() << "x" << a->nColumns() << " nnz " << pat.size() << " th " << th << " " << names[how];
  g.nontrivial(!pat.empty());
  EXPECT(a->compare(*b, th) == expect, "compare() of matrices: " << names[how]);
  EXPECT(b->compare(*a, th) == expect, "compare() of matrices (reversed): " << names[how]);
}
FACET(compare_general, "the matrices have entries", 4000, 60000) { cmp<SparseMatrix>(g, false); }
FACET(compare_symmetric, "the matrices have entries", 4000, 60000) { cmp<SparseSymMatrix>(g, true); }

FACET(compare_vectors, "the vectors are not empty", 4000, 60000) {
  uint32 n = (uint32) g.integer(1, 20);
  double th = g.logreal(-12, 3);
  int how = (int) g.integer(0, 2);
  dVec a(n), b(how == 2 ? n + (uint32) g.integer(1, 3) : n);
  for (uint32 i = 0; i < n; i++) { a[i] = g.sreal(100) * th; b[i] = a[i] + g.sreal(0.99) * th; }
  if (how == 1) { uint32 k = (uint32) g.draw(n - 1); double d = th * (1.01 + g.logreal(-2, 4)); b[k] = a[k] + (g.boolean() ? d : -d); }
  g.note << n << " components, th " << th << " how " << how;
  g.label(how == 0 ? "equal" : how == 1 ? "component off" : "other length");
  g.nontrivial();
  EXPECT(a.compare(b, th) == (how == 0), "compare() of vectors, case " << how);
  EXPECT(b.compare(a, th) == (how == 0), "compare() of vectors reversed, case " << how);
}

// ------------------------------------------------------------------ dumps of the system of a solver
struct DSolver : LinearFESolver {};
static std::string tmpFile() { char b[] = "/tmp/p17_XXXXXX"; int fd = mkstemp(b); if (fd >= 0) close(fd); return b; }

// objects of a dump, read without the library: header and numbers of every object
struct Obj { bool vec; uint32 r, c; std::vector<std::array<double, 3>> e; std::vector<double> v; };
static std::vector<Obj> parseDump(const std::string& text, int mats) {
  std::istringstream in(text); std::vector<Obj> o;
  for (int i = 0; i < mats + 2; i++) {
    Obj b; b.vec = i >= mats; uint32 n = 0;
    if (b.vec) { EXPECT(in >> n, "dump: vector " << i - mats << " is missing"); b.v.resize(n); for (auto& x : b.v) EXPECT(in >> x, "dump: vector is short"); }
    else {
      EXPECT(in >> b.r >> b.c >> n, "dump: matrix " << i << " is missing");
      for (uint32 k = 0; k < n; k++) { std::array<double, 3> t; EXPECT(in >> t[0] >> t[1] >> t[2], "dump: matrix is short"); b.e.push_back(t); }
    }
    o.push_back(b);
  }
  std::string rest; EXPECT(!(in >> rest), "dump: more than the system is written: " << rest);
  return o;
}
template <class M> static void sameObj(const Obj& o, M* m, const std::string& what) {
  EXPECT(o.r == m->nRows() && o.c == m->nColumns(), what << ": shape in the dump " << o.r << "x" << o.c << ", in the solver " << m->nRows() << "x" << m->nColumns());
  EXPECT(o.e.size() == m->nValues(), what << ": " << o.e.size() << " values in the dump, " << m->nValues() << " in the solver");
  for (auto& t : o.e) EXPECT(same(t[2], m->value((uint32) t[0], (uint32) t[1])), what << ": entry (" << t[0] << "," << t[1] << ") dumped as " << t[2] << ", it is " << m->value((uint32) t[0], (uint32) t[1]));
}

template <class S> static void dumps(Gen& g, bool trans) {
  using namespace fe;
  Model m;
  if (trans) { addPlane(g, m, KQUAD, 4); if (g.boolean()) addLines(g, m); } else m = genMesh(g);
  Ref f = genBC(g, m, 1e6);
  if (g.chance(1, 4) && f.freeD.size() >= 4) genMpc(g, m, f, 2);
  describe(g, m);
  auto setup = [&](const Model& q, FEStorage& st, S& so) {
    buildMesh(q, st, 0); so.attachFEStorage(&st); buildBC(q, so); so.solve(); };
  FEStorage st; S so; setup(m, st, so);
  std::string file = tmpFile();
  struct Un { std::string f; ~Un() { unlink(f.c_str()); } } un{file};
  so.dumpMatricesAndVectors(file);
  std::string text; { std::ifstream in(file); std::stringstream ss; ss << in.rdbuf(); text = ss.str(); }
  // the dump holds the system
  int mats = trans ? 9 : 3;
  auto o = parseDump(text, mats);
  std::vector<math::BlockSparseSymMatrix<2>*> B = {st.getK()}; if (trans) { B.push_back(st.getC()); B.push_back(st.getM()); }
  static const char* nm[] = {"K", "C", "M"};
  for (size_t b = 0; b < B.size(); b++) {
    sameObj(o[3 * b], B[b]->block(1), std::string(nm[b]) + " block 1");
    sameObj(o[3 * b + 1], B[b]->block(1, 2), std::string(nm[b]) + " block 12");
    sameObj(o[3 * b + 2], B[b]->block(2), std::string(nm[b]) + " block 2");
  }
  dVec* W[2] = {st.getF(), st.getR()};
  double big = 0;
  for (int i = 0; i < 2; i++) {
    EXPECT(o[mats + i].v.size() == W[i]->size(), "length of vector " << i << " in the dump");
    for (uint32 k = 0; k < W[i]->size(); k++) { EXPECT(same(o[mats + i].v[k], (*W[i])[k]), "vector " << i << " component " << k << " in the dump"); big = std::max(big, std::fabs((*W[i])[k])); }
  }
  for (int i = 0; i < mats; i++) for (auto& t : o[i].e) big = std::max(big, std::fabs(t[2]));
  double th = std::max(big, 1e-3) * g.oneOf({1e-9, 1e-6, 1e-4});
  // which one to spoil
  int what = (int) g.integer(0, 3);
  static const char* lab[] = {"same model again", "number off in the dump", "dump is cut", "other solver state"};
  if (trans) g.label("transient"); g.label(lab[what]);
  if (m.mpc.size()) g.label("MPC");
  if (f.fixD.empty()) g.label("nothing prescribed");
  g.note << "; " << lab[what] << ", th " << th;
  g.nontrivial(true);
  EXPECT(inChild([&] { so.compareMatricesAndVectors(file, th); }).ended == RETURNED, "the dump doesn't verify against the solver that wrote it");
  if (what == 0) {
    FEStorage st2; S so2; setup(m, st2, so2);
    EXPECT(inChild([&] { so2.compareMatricesAndVectors(file, th); }).ended == RETURNED, "the dump doesn't verify against the same model");
    return;
  }
  if (what == 3) {   // a number of the solver's system differs
    int b = (int) g.integer(0, (int) B.size() + 1);
    if (b >= (int) B.size()) { dVec& w = *W[b - B.size()]; w[(uint32) g.draw(w.size() - 1)] += (g.boolean() ? 1 : -1) * th * (1.01 + g.logreal(-1, 4)); }
    else {
      int k = (int) g.integer(0, 2); double* v; uint32 n;
      if (k == 1) { v = B[b]->block(1, 2)->getValuesArray(); n = B[b]->block(1, 2)->nValues(); }
      else { v = B[b]->block(k ? 2 : 1)->getValuesArray(); n = B[b]->block(k ? 2 : 1)->nValues(); }
      if (!n) throw pbt::Discard{"empty block"};
      v[g.draw(n - 1)] += (g.boolean() ? 1 : -1) * th * (1.01 + g.logreal(-1, 4));
    }
    auto r = inChild([&] { so.compareMatricesAndVectors(file, th); });
    EXPECT(r.ended != CRASHED, "memory fault while comparing");
    EXPECT(r.ended == REJECTED, "a dump verifies against a system which differs");
    return;
  }
  if (what == 1) {
    std::vector<int> full; for (size_t i = 0; i < o.size(); i++) if (o[i].e.size() + o[i].v.size()) full.push_back((int) i);
    Obj& b = o[g.pick(full)]; double& x = b.vec ? b.v[g.draw(b.v.size() - 1)] : b.e[g.draw(b.e.size() - 1)][2];
    x += (g.boolean() ? 1 : -1) * th * (1.01 + g.logreal(-1, 4));
    std::ostringstream ss; ss.precision(17);
    for (auto& q : o) { if (q.vec) { ss << q.v.size() << "\n"; for (double v : q.v) ss << v << "\n"; } else { ss << q.r << " " << q.c << " " << q.e.size() << "\n"; for (auto& t : q.e) ss << (uint32) t[0] << " " << (uint32) t[1] << " " << t[2] << "\n"; } }
    std::ofstream(file) << ss.str();
  } else {   // lines at the end are lost, a number over the threshold among them
    std::vector<size_t> ends; size_t p = 0; while ((p = text.find('\n', p)) != std::string::npos) ends.push_back(++p);
    dVec& R = *W[1]; int last = -1; for (uint32 k = 0; k < R.size(); k++) if (std::fabs(R[k]) > 1.01 * th) last = (int) k;
    if (last < 0) throw pbt::Discard{"no loads or reactions"};
    size_t keep = g.draw(ends.size() - (R.size() - last) - 1);   // lines kept, R[last] not among them
    std::ofstream(file) << text.substr(0, keep ? ends[keep - 1] : 0);
  }
  auto r = inChild([&] { so.compareMatricesAndVectors(file, th); });
  EXPECT(r.ended != CRASHED, "memory fault while comparing");
  EXPECT(r.ended == REJECTED, "a spoiled dump verifies (" << lab[what] << ")");
}
FACET(dump_static, "always", 1500, 20000) { dumps<LinearFESolver>(g, false); }
FACET(dump_transient, "always", 1000, 15000) { dumps<LinearTransientFESolver>(g, true); }
