// P16: block symmetric matrix against one dense symmetric matrix.
#include "nla.h"
using namespace nla3d;
using namespace nla3d::math;
typedef Eigen::MatrixXd MX;

template <uint16 nb> struct Mk;
template <> struct Mk<1> { static BlockSparseSymMatrix<1>* make(const std::vector<uint32>& s, bool d, uint32 m) { return d ? new BlockSparseSymMatrix<1>({s[0]}) : new BlockSparseSymMatrix<1>({s[0]}, m); } };
template <> struct Mk<2> { static BlockSparseSymMatrix<2>* make(const std::vector<uint32>& s, bool d, uint32 m) { return d ? new BlockSparseSymMatrix<2>({s[0], s[1]}) : new BlockSparseSymMatrix<2>({s[0], s[1]}, m); } };
template <> struct Mk<3> { static BlockSparseSymMatrix<3>* make(const std::vector<uint32>& s, bool d, uint32 m) { return d ? new BlockSparseSymMatrix<3>({s[0], s[1], s[2]}) : new BlockSparseSymMatrix<3>({s[0], s[1], s[2]}, m); } };
template <> struct Mk<4> { static BlockSparseSymMatrix<4>* make(const std::vector<uint32>& s, bool d, uint32 m) { return d ? new BlockSparseSymMatrix<4>({s[0], s[1], s[2], s[3]}) : new BlockSparseSymMatrix<4>({s[0], s[1], s[2], s[3]}, m); } };
template <> struct Mk<5> { static BlockSparseSymMatrix<5>* make(const std::vector<uint32>& s, bool d, uint32 m) { return d ? new BlockSparseSymMatrix<5>({s[0], s[1], s[2], s[3], s[4]}) : new BlockSparseSymMatrix<5>({s[0], s[1], s[2], s[3], s[4]}, m); } };

typedef std::set<std::pair<int, int>> Pat;

template <uint16 nb> void compareAll(BlockSparseSymMatrix<nb>& A, const std::vector<uint32>& sz, const std::vector<int>& off, const Pat& pat, const MX& D, const char* when) {
  EXPECT(A.nRows() == (uint32) D.rows(), when << ": rows " << A.nRows() << " expected " << D.rows());
  EXPECT(A.isCompressed(), when << ": compressed");
  size_t vals = 0;
  auto cl = [&](double a, double b, int i, int j) { EXPECT_CLOSE(a, b, 1e-13, 64 * std::max(1.0, std::fabs(b)), when << ": entry (" << i << "," << j << ")"); };
  for (int bi = 1; bi <= nb; bi++)
    for (int bj = bi; bj <= nb; bj++) {
      int r = sz[bi - 1], c = sz[bj - 1], oi = off[bi - 1], oj = off[bj - 1];
      if (bi == bj) {
        SparseSymMatrix* b = A.block(bi);
        EXPECT((int) b->nRows() == r && (int) b->nColumns() == r, when << ": shape of block " << bi);
        EXPECT(b->isCompressed(), when << ": block compressed");
        vals += b->nValues();
        for (int i = 1; i <= r; i++) for (int j = 1; j <= r; j++) cl(b->value(i, j), D(oi + i - 1, oj + j - 1), oi + i, oj + j);
      } else {
        SparseMatrix* b = A.block(bi, bj);
        EXPECT(b == A.block(bj, bi), when << ": block(" << bi << "," << bj << ") differs from block(" << bj << "," << bi << ")");
        EXPECT((int) b->nRows() == r && (int) b->nColumns() == c, when << ": shape of block " << bi << "," << bj);
        vals += b->nValues();
        for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) cl(b->value(i, j), D(oi + i - 1, oj + j - 1), oi + i, oj + j);
        for (int b2 = bi; b2 <= nb; b2++) for (int b3 = b2 + 1; b3 <= nb; b3++) if (b2 != bi || b3 != bj) EXPECT(A.block(b2, b3) != b, when << ": two blocks are the same object");
      }
    }
  EXPECT(vals == pat.size(), when << ": number of stored values " << vals << " expected " << pat.size());
}

template <uint16 nb> void run(Gen& g) {
  std::vector<uint32> sz; std::vector<int> off; int n = 0;
  int scale = g.chance(1, 10) ? 40 : 7;
  for (int b = 0; b < nb; b++) { uint32 s = g.chance(1, 6) ? 0 : (uint32) g.integer(1, scale); sz.push_back(s); off.push_back(n); n += s; }
  if (n == 0) { sz[nb - 1] = 2; n = 2; }
  g.note << "blocks";
  for (auto s : sz) g.note << " " << s;
  long ne = g.integer(0, std::min(400, 3 * n));
  Pat pat; std::vector<std::pair<int, int>> order;
  for (long k = 0; k < ne; k++) {
    int i = (int) g.integer(1, n), j = (int) g.integer(1, n);
    if (g.chance(1, 4)) j = i;
    if (g.chance(1, 6)) { // next to a block border
      int b = (int) g.integer(0, nb - 1); i = std::min(n, std::max(1, off[b] + (int) g.integer(0, 1)));
    }
    order.push_back({i, j});
    pat.insert({std::min(i, j), std::max(i, j)});
  }
  // the most entries that share a row of a block
  bool dflt = g.boolean(); uint32 m = 0;
  { std::map<std::pair<int, int>, int> cnt; auto blk = [&](int i) { int b = nb - 1; while (off[b] >= i) b--; return b; };
    for (auto& p : pat) m = std::max(m, (uint32) ++cnt[{p.first, blk(p.second)}]); m = std::max(m, 1u); if (m > 100) dflt = false; }
  std::unique_ptr<BlockSparseSymMatrix<nb>> A(Mk<nb>::make(sz, dflt, m)), B, C;
  for (auto& p : order) A->addEntry(p.first, p.second);
  bool early = g.boolean();
  if (early) B.reset(new BlockSparseSymMatrix<nb>(A.get()));
  EXPECT(!A->isCompressed(), "compressed before compress()");
  A->compress();
  if (!early) B.reset(new BlockSparseSymMatrix<nb>(A.get()));
  if (early || g.boolean()) B->compress();
  C.reset(new BlockSparseSymMatrix<nb>(B.get()));
  MX D[3] = {MX::Zero(n, n), MX::Zero(n, n), MX::Zero(n, n)};
  BlockSparseSymMatrix<nb>* X[3] = {A.get(), B.get(), C.get()};
  for (int k = 0; k < 3; k++) compareAll<nb>(*X[k], sz, off, pat, D[k], "fresh");
  std::vector<std::pair<int, int>> pos(pat.begin(), pat.end());
  int ops = (int) g.integer(0, 60); std::set<int> touched;
  bool cross = false, lower = false;
  for (int k = 0; k < ops && pos.size(); k++) {
    int w = (int) g.weighted({3, 2, 1});
    auto p = pos[g.draw(pos.size() - 1)];
    if (g.boolean()) std::swap(p.first, p.second);
    double v = g.boolean() ? (double) g.integer(-9, 9) : g.sreal(1e4);
    if (g.chance(1, 25)) { X[w]->zero(); D[w].setZero(); continue; }
    if (g.chance(1, 25)) { X[w]->compress(); continue; }
    X[w]->addValue(p.first, p.second, v);
    D[w](p.first - 1, p.second - 1) += v; if (p.first != p.second) D[w](p.second - 1, p.first - 1) += v;
    touched.insert(w);
    lower = lower || p.first > p.second;
    for (int b = 1; b < nb; b++) if ((p.first <= off[b]) != (p.second <= off[b])) cross = true;
  }
  // products of blocks equal products with the sub-matrices
  for (int k = 0; k < 3; k++) compareAll<nb>(*X[k], sz, off, pat, D[k], k == 0 ? "A" : k == 1 ? "B sharing A's pattern" : "C sharing B's pattern");
  A.reset(); // patterns are shared, values are not
  compareAll<nb>(*B, sz, off, pat, D[1], "B after A is gone"); compareAll<nb>(*C, sz, off, pat, D[2], "C after A is gone");
  if (g.chance(1, 60)) {
    for (int t = 0; t < 30; t++) {
      int i = (int) g.integer(1, n), j = (int) g.integer(1, n);
      if (pat.count({std::min(i, j), std::max(i, j)})) continue;
      EXPECT(pbt::inChild([&] { B->addValue(i, j, 1.0); }).ended == pbt::REJECTED, "unregistered position (" << i << "," << j << ") was not refused");
      break;
    }
  }
  g.label("nb" + std::to_string((int) nb)); if (cross) g.label("cross_block"); if (lower) g.label("lower_triangle");
  g.nontrivial(touched.size() >= 2 && (cross || nb == 1) && lower);
}
FACET(blocks2, "values in two matrices sharing the pattern, in an off-diagonal block and through the lower triangle", 12000, 150000) { run<2>(g); }
FACET(blocks3, "values in two matrices sharing the pattern, in an off-diagonal block and through the lower triangle", 12000, 150000) { run<3>(g); }
FACET(blocks4, "values in two matrices sharing the pattern, in an off-diagonal block and through the lower triangle", 8000, 100000) { run<4>(g); }
FACET(blocks5, "values in two matrices sharing the pattern, in an off-diagonal block and through the lower triangle", 4000, 60000) { run<5>(g); }
