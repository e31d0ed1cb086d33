// P15: sparse matrices against a dense model.
#include "nla.h"
using namespace nla3d;
using namespace nla3d::math;
typedef Eigen::MatrixXd MX;

static double val(Gen& g) {
  switch (g.weighted({5, 3, 1, 1})) {
    case 0: return (double) g.integer(-9, 9);
    case 1: return g.sreal(1000);
    case 2: return g.sreal(1) * g.logreal(-8, 8);
    default: return 0.0;
  }
}

template <class MAT> struct Tr;
template <> struct Tr<SparseMatrix> {
  static const bool sym = false;
  static SparseMatrix* make(int r, int c, int m, bool dflt) { return dflt ? new SparseMatrix(r, c) : new SparseMatrix(r, c, m); }
  static void reinit(SparseMatrix& a, int r, int c, int m) { a.reinit(r, c, m); }
};
template <> struct Tr<SparseSymMatrix> {
  static const bool sym = true;
  static SparseSymMatrix* make(int r, int c, int m, bool dflt) { return dflt ? new SparseSymMatrix(r) : new SparseSymMatrix(r, m); }
  static void reinit(SparseSymMatrix& a, int r, int c, int m) { a.reinit(r, m); }
};

// pattern: which positions are registered (upper triangle for symmetric ones)
struct Pat { int r, c; std::set<std::pair<int, int>> e; };

template <class MAT> void checkAll(MAT& A, const Pat& p, const MX& D, Gen& g, const char* when) {
  EXPECT((int) A.nRows() == p.r && (int) A.nColumns() == p.c, when << ": shape");
  EXPECT(A.isCompressed(), when << ": compressed");
  EXPECT(A.nValues() == p.e.size(), when << ": number of values " << A.nValues() << " expected " << p.e.size());
  for (int i = 1; i <= p.r; i++)
    for (int j = 1; j <= p.c; j++) {
      double v = A.value(i, j);
      EXPECT_CLOSE(v, D(i - 1, j - 1), 1e-13, std::max(1.0, std::fabs(D(i - 1, j - 1))) * 64, when << ": value(" << i << "," << j << ")");
    }
  // raw arrays describe the same matrix
  MX R = MX::Zero(p.r, p.c);
  uint32* io = A.getIofeirArray(); uint32* col = A.getColumnsArray(); double* v = p.e.size() ? A.getValuesArray() : nullptr;
  EXPECT(io[0] == 1 && io[p.r] == p.e.size() + 1, when << ": row pointers");
  std::set<std::pair<int, int>> seen;
  for (int i = 1; i <= p.r; i++) {
    EXPECT(io[i] >= io[i - 1], when << ": row pointers decrease");
    EXPECT(A.getSparsityInfo()->nElementsInRow(i) == io[i] - io[i - 1], when << ": nElementsInRow");
    for (uint32 k = io[i - 1] - 1; k < io[i] - 1; k++) {
      EXPECT(k + 1 == io[i] - 1 || col[k] < col[k + 1], when << ": columns not ascending in row " << i);
      EXPECT(p.e.count({i, (int) col[k]}), when << ": position (" << i << "," << col[k] << ") was never registered");
      EXPECT(A.getSparsityInfo()->getIndex(i, col[k]) == k, when << ": getIndex");
      seen.insert({i, (int) col[k]});
      R(i - 1, col[k] - 1) += v[k];
      if (Tr<MAT>::sym && (int) col[k] != i) R(col[k] - 1, i - 1) += v[k];
    }
  }
  EXPECT(seen == p.e, when << ": registered positions");
  for (int i = 0; i < p.r; i++) for (int j = 0; j < p.c; j++)
    EXPECT_CLOSE(R(i, j), D(i, j), 1e-13, std::max(1.0, std::fabs(D(i, j))) * 64, when << ": arrays at (" << i + 1 << "," << j + 1 << ")");
}

inline void tprod(SparseMatrix& A, const dVec& V, double c, dVec& R) { matBTVprod(A, V, c, R); }
inline void tprod(SparseSymMatrix& A, const dVec& V, double c, dVec& R) { matBVprod(A, V, c, R); }

template <class MAT> void products(MAT& A, const Pat& p, const MX& D, Gen& g, const char* when) {
  for (int tr = 0; tr < 2; tr++) {
    int nin = tr ? p.r : p.c, nout = tr ? p.c : p.r;
    int extra = g.chance(1, 4) ? (int) g.integer(1, 3) : 0;
    dVec V(nin), R(nout + extra);
    Eigen::VectorXd v(nin), r(nout + extra);
    int zeros = 0;
    for (int i = 0; i < nin; i++) { v(i) = g.chance(1, 5) ? 0.0 : val(g); zeros += v(i) == 0; V[i] = v(i); }
    for (int i = 0; i < nout + extra; i++) { r(i) = g.boolean() ? 0.0 : val(g); R[i] = r(i); }
    double c = g.oneOf<double>({1.0, -1.0, 2.5, 0.0, -0.125});
    Eigen::VectorXd e = r; Eigen::VectorXd mag = r.cwiseAbs();
    MX op = tr ? MX(D.transpose()) : D;
    e.head(nout) += c * (op * v);
    mag.head(nout) += std::fabs(c) * (op.cwiseAbs() * v.cwiseAbs());
    if (tr) tprod(A, V, c, R); else matBVprod(A, V, c, R);
    for (int i = 0; i < nout + extra; i++) EXPECT_CLOSE(R[i], e(i), 1e-12, mag(i) + 1e-12, when << (tr ? ": transposed product" : ": product") << " component " << i);
    for (int i = 0; i < nin; i++) EXPECT(V[i] == v(i), when << ": product changed its operand");
  }
}

template <class MAT> void history(Gen& g) {
  bool sym = Tr<MAT>::sym;
  int big = (int) g.weighted({8, 3, 1});
  int r = (int) g.integer(1, big == 0 ? 8 : big == 1 ? 25 : 60);
  int c = sym ? r : (int) g.integer(1, big == 0 ? 8 : big == 1 ? 25 : 140);
  if (!sym && g.chance(1, 20)) c = 0;
  Pat p{r, c, {}};
  int fill = (int) g.integer(0, 3);
  long ne = c == 0 ? 0 : fill == 0 ? g.integer(0, 4) : fill == 1 ? g.integer(0, r + c) : fill == 2 ? g.integer(0, 3 * (r + c)) : (long) r * c;
  if (ne > 3000) ne = 3000;
  std::vector<std::pair<int, int>> order;
  if (fill == 3 && (long) r * c <= 3000) { for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) order.push_back({i, j}); }
  else for (long k = 0; k < ne; k++) { int i = (int) g.integer(1, r), j = (int) g.integer(1, c); order.push_back({i, j}); if (g.chance(1, 6)) order.push_back({i, j}); }
  if (fill == 3) { // shuffled a little
    int sh = (int) g.integer(0, 20);
    for (int k = 0; k < sh && order.size() > 1; k++) std::swap(order[g.draw(order.size() - 1)], order[g.draw(order.size() - 1)]);
  }
  auto norm = [&](std::pair<int, int> q) { if (sym && q.first > q.second) std::swap(q.first, q.second); return q; };
  for (auto& q : order) p.e.insert(norm(q));
  bool ctor = g.boolean();
  if (sym && ctor) for (int i = 1; i <= r; i++) p.e.insert({i, i});   // the constructor registers the diagonal
  std::map<int, int> inRow; int maxRow = 1;
  for (auto& q : p.e) maxRow = std::max(maxRow, ++inRow[q.first]);
  int room = maxRow + (g.boolean() ? 0 : (int) g.integer(0, 5));
  bool dflt = maxRow <= 100 && g.chance(1, 3);
  g.note << (sym ? "sym " : "gen ") << r << "x" << c << " entries " << p.e.size() << " room " << (dflt ? 100 : room);
  std::unique_ptr<MAT> A(ctor ? Tr<MAT>::make(r, c, room, dflt) : new MAT());
  if (!ctor) Tr<MAT>::reinit(*A, r, c, dflt ? 100 : room);
  for (auto& q : order) A->addEntry(q.first, q.second);
  // a second and third matrix on the same pattern, attached before or after compression
  std::unique_ptr<MAT> B, C;
  bool early = g.boolean();
  if (early) B.reset(new MAT(A->getSparsityInfo()));
  A->compress();
  if (g.boolean()) A->compress();
  if (early) B->compress(); else B.reset(new MAT(A->getSparsityInfo()));
  MX DA = MX::Zero(r, c), DB = MX::Zero(r, c);
  checkAll(*A, p, DA, g, "fresh");
  std::vector<std::pair<int, int>> pos(p.e.begin(), p.e.end());
  int ops = (int) g.integer(0, big == 0 ? 20 : 60), kinds = 0;
  bool touchedBoth = false, tA = false, tB = false;
  for (int k = 0; k < ops && pos.size(); k++) {
    bool useB = g.chance(1, 3);
    MAT& X = useB ? *B : *A; MX& D = useB ? DB : DA;
    auto q = pos[g.draw(pos.size() - 1)];
    int i = q.first, j = q.second;
    if (sym && g.boolean()) std::swap(i, j);
    double v = val(g);
    (useB ? tB : tA) = true;
    auto set = [&](double x) { D(i - 1, j - 1) = x; if (sym) D(j - 1, i - 1) = x; };
    switch (g.weighted({8, 2, 2, 1})) {
      case 0: X.addValue(i, j, v); set(D(i - 1, j - 1) + v); break;
      case 1: X(i, j) = v; set(v); break;
      case 2: X(i, j) += v; set(D(i - 1, j - 1) + v); break;
      case 3: if (g.chance(1, 4)) { X.zero(); D.setZero(); } else X.compress(); break;
    }
  }
  touchedBoth = tA && tB;
  checkAll(*A, p, DA, g, "A"); checkAll(*B, p, DB, g, "B");
  products(*A, p, DA, g, "A"); products(*B, p, DB, g, "B");
  // an absent position is refused for writing
  if (g.chance(1, 40) && c > 0 && (long) p.e.size() < (sym ? (long) r * (r + 1) / 2 : (long) r * c)) {
    for (int t = 0; t < 50; t++) {
      int i = (int) g.integer(1, r), j = (int) g.integer(1, c);
      if (p.e.count(norm({i, j}))) continue;
      auto res = pbt::inChild([&] { A->addValue(i, j, 1.0); });
      EXPECT(res.ended == pbt::REJECTED, "adding to the unregistered position (" << i << "," << j << ") was not refused");
      g.label("absent_refused");
      break;
    }
  }
  // re-use of a matrix object for another pattern
  if (g.chance(1, 4)) {
    int how = (int) g.integer(0, 2);
    int r2 = (int) g.integer(1, 12), c2 = sym ? r2 : (int) g.integer(1, 12);
    Pat p2{r2, c2, {}};
    std::vector<std::pair<int, int>> o2;
    long n2 = g.integer(0, 30);
    for (long k = 0; k < n2; k++) { auto q = norm({(int) g.integer(1, r2), (int) g.integer(1, c2)}); if (p2.e.insert(q).second) o2.push_back(q); }
    MX D2 = MX::Zero(r2, c2);
    if (how == 0) {
      Tr<MAT>::reinit(*A, r2, c2, 12);
      for (auto& q : o2) A->addEntry(q.first, q.second);
      A->compress();
    } else if (how == 1) {
      std::vector<SparseEntry> es;
      for (auto& q : o2) { double v = val(g); es.push_back({(uint32) q.first, (uint32) q.second, v}); D2(q.first - 1, q.second - 1) = v; if (sym) D2(q.second - 1, q.first - 1) = v; }
      static_cast<BaseSparseMatrix&>(*A).reinit(r2, c2, es);
    } else {
      MAT src; Tr<MAT>::reinit(src, r2, c2, 12);
      for (auto& q : o2) src.addEntry(q.first, q.second);
      if (g.boolean()) { src.compress(); A->setSparsityInfo(src.getSparsityInfo()); }
      else { A->setSparsityInfo(src.getSparsityInfo()); A->compress(); }
    }
    for (auto& q : o2) if (g.boolean()) { double v = val(g); A->addValue(q.first, q.second, v); D2(q.first - 1, q.second - 1) += v; if (sym && q.first != q.second) D2(q.second - 1, q.first - 1) += v; }
    checkAll(*A, p2, D2, g, "reused A");
    products(*A, p2, D2, g, "reused A");
    checkAll(*B, p, DB, g, "B after A was reused");
    g.label("reuse" + std::to_string(how));
  }
  g.label(sym ? "sym" : "gen"); g.label(big == 2 ? "big" : big == 1 ? "mid" : "small");
  g.nontrivial(pos.size() >= 3 && touchedBoth);
}

FACET(general, "at least 3 registered positions and values added to two matrices sharing the pattern", 14000, 200000) { history<SparseMatrix>(g); }
FACET(symmetric, "at least 3 registered positions and values added to two matrices sharing the pattern", 14000, 200000) { history<SparseSymMatrix>(g); }

// long rows and wide matrices: row capacity, and refusal beyond it
FACET(capacity, "a row filled to its capacity", 400, 6000) {
  int cols = (int) g.integer(2, 260), cap = (int) g.integer(1, cols);
  if (g.chance(1, 3)) { cols = (int) g.integer(90, 260); cap = 100; }
  int rows = (int) g.integer(1, 3), row = (int) g.integer(1, rows);
  bool dflt = cap == 100;
  SparseMatrix A; 
  if (dflt) A.reinit(rows, cols); else A.reinit(rows, cols, cap);
  int n = std::min(cap, cols);
  std::vector<int> p = g.sample(cols, n);
  for (int j : p) A.addEntry(row, j + 1);
  for (int j : p) A.addEntry(row, j + 1);   // registering again never needs room
  g.note << rows << "x" << cols << " capacity " << cap;
  if (n < cols && g.chance(1, 4)) {
    std::set<int> have(p.begin(), p.end()); int free = 0; while (have.count(free)) free++;
    auto res = pbt::inChild([&] { A.addEntry(row, free + 1); });
    EXPECT(res.ended == pbt::REJECTED, "entry beyond the capacity of the row was not refused");
  }
  A.compress();
  for (int j : p) A.addValue(row, j + 1, j + 0.5);
  std::set<int> have(p.begin(), p.end());
  for (int i = 1; i <= rows; i++) for (int j = 0; j < cols; j++)
    EXPECT(A.value(i, j + 1) == (i == row && have.count(j) ? j + 0.5 : 0.0), "value at (" << i << "," << j + 1 << ")");
  g.nontrivial(n >= 2);
}
