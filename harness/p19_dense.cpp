// P19: small dense algebra against Eigen.
#include "nla.h"
using namespace nla3d;
using namespace nla3d::math;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

static double val(Gen& g) {
  switch (g.weighted({4, 4, 1})) {
    case 0: return (double) g.integer(-9, 9);
    case 1: return g.sreal(100);
    default: return g.sreal(1) * g.logreal(-6, 6);
  }
}
template <uint16 M, uint16 N> static MX fill(Gen& g, Mat<M, N>& a) { MX D(M, N); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) a[i][j] = D(i, j) = val(g); return D; }
template <uint16 N> static VX fill(Gen& g, Vec<N>& a) { VX D(N); for (int i = 0; i < N; i++) a[i] = D(i) = val(g); return D; }
template <uint16 N> static MX fill(Gen& g, MatSym<N>& a) {
  MX D(N, N);
  int order = (int) g.integer(0, 1);
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { double v = val(g); D(i, j) = D(j, i) = v; if (order) a.comp(i, j) = v; else a.comp(j, i) = v; }
  return D;
}
template <uint16 M, uint16 N> static void same(Mat<M, N>& a, const MX& D, const MX& mag, const char* what) {
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
    EXPECT_CLOSE(a[i][j], D(i, j), 1e-13, mag(i, j) * (M + N) + 1e-280, what << " (" << i << "," << j << ") of " << M << "x" << N);
    EXPECT(a.ptr()[i * N + j] == a[i][j] || (a[i][j] != a[i][j]), what << ": ptr() disagrees with []");
  }
}
template <uint16 N> static void same(Vec<N>& a, const VX& D, const VX& mag, const char* what) {
  for (int i = 0; i < N; i++) EXPECT_CLOSE(a[i], D(i), 1e-13, mag(i) * (N + 30) + 1e-280, what << " component " << i << " of " << N);
}
template <uint16 N> static void same(MatSym<N>& a, const MX& D, const MX& mag, const char* what) {
  Mat<N, N> f = a.toMat();
  int k = 0;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    EXPECT_CLOSE(a.comp(i, j), D(i, j), 1e-13, mag(i, j) * (N + 30) + 1e-280, what << " comp(" << i << "," << j << ") of sym " << N);
    EXPECT(f[i][j] == a.comp(i, j) && a.comp(j, i) == a.comp(i, j), what << ": access paths of a symmetric matrix disagree at (" << i << "," << j << ")");
    if (j >= i) { EXPECT(a.ptr()[k] == a.comp(i, j), what << ": storage order"); k++; }
  }
  EXPECT(a.getLength() == N * (N + 1) / 2, what << ": length");
}
static MX ab(const MX& a) { return a.cwiseAbs(); }

template <uint16 M, uint16 N> static void elementwise(Gen& g) {
  Mat<M, N> A, B; MX a = fill(g, A), b = fill(g, B);
  double k = val(g);
  g.note << M << "x" << N;
  { Mat<M, N> R = A + B; same(R, a + b, ab(a) + ab(b), "+"); }
  { Mat<M, N> R = A - B; same(R, a - b, ab(a) + ab(b), "-"); }
  { Mat<M, N> R = -A; same(R, -a, ab(a), "unary -"); }
  { Mat<M, N> R = A * k; same(R, a * k, ab(a * k), "* scalar"); }
  { Mat<N, M> R = A.transpose(); same(R, a.transpose(), ab(a).transpose(), "transpose"); }
  { Mat<M, N> R = A; R += B; same(R, a + b, ab(a) + ab(b), "+="); R = R; same(R, a + b, ab(a) + ab(b), "self assignment"); }
  { Mat<M, N> R = A; R.zero(); same(R, MX::Zero(M, N), MX::Zero(M, N), "zero"); R = A; same(R, a, ab(a), "="); }
  { Mat<M, N> R = A; double d = 0; int i = (int) g.draw(M - 1), j = (int) g.draw(N - 1); double eps = g.logreal(-6, 0); d = eps * (g.boolean() ? 0.5 : 2.0); double base = std::fmod(a(i, j), 100 * eps); R[i][j] = base + (g.boolean() ? d : -d); Mat<M, N> Q = A; Q[i][j] = base;
    EXPECT(Q.compare(R, eps) == (d < eps), "compare with threshold"); }
  { std::stringstream s; s.precision(17); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) s << a(i, j) << (g.boolean() ? " " : "\n"); Mat<M, N> R; R.simple_read(s); same(R, a, ab(a), "simple_read"); }
  { dMat d(M, N); d.cpMat(A); Mat<M, N> R = d.toMat<M, N>(); same(R, a, ab(a), "dMat round trip");
    Mat<M + 1, N + 2> W = d.toMat<M + 1, N + 2>(); MX w = MX::Zero(M + 1, N + 2); w.block(0, 0, M, N) = a; same(W, w, ab(w), "dMat to a bigger Mat");
    dMat e(1, 1); e = d; e = e; dMat f(e); EXPECT(f.dM() == M && f.dN() == N, "dMat copy size"); Mat<M, N> S = f.toMat<M, N>(); same(S, a, ab(a), "dMat copies");
    int c = (int) g.draw(N - 1); Vec<M> v = d.toVec<M>(c); same(v, a.col(c), ab(a).col(c), "dMat column"); Vec<M> u; VX uu = fill(g, u); d.cpVec(u, c); Mat<M, N> T = d.toMat<M, N>(); MX t = a; t.col(c) = uu; same(T, t, ab(t), "dMat set column"); same(S = f.toMat<M, N>(), a, ab(a), "copy is independent"); }
  same(A, a, ab(a), "operand A"); same(B, b, ab(b), "operand B");
}

template <uint16 M, uint16 N, uint16 K> static void products(Gen& g) {
  Mat<M, N> A; Mat<N, K> B; Vec<N> V; Vec<M> W;
  MX a = fill(g, A), b = fill(g, B); VX v = fill(g, V), w = fill(g, W);
  double c = g.oneOf<double>({1.0, -1.0, 0.5, 3.25, 0.0});
  g.note << M << "x" << N << "x" << K << " coef " << c;
  { Mat<M, K> R = A * B; same(R, a * b, ab(a) * ab(b), "Mat*Mat"); }
  { Vec<M> R = A * V; same(R, a * v, ab(a) * ab(v), "Mat*Vec"); }
  { Mat<M, K> R; MX r = fill(g, R); matABprod(A, B, c, R); same(R, r + c * a * b, ab(r) + std::fabs(c) * ab(a) * ab(b), "matABprod"); }
  { Mat<M, K> B2; MX b2 = fill(g, B2); Mat<N, K> R; MX r = fill(g, R); matATBprod(A, B2, c, R); same(R, r + c * a.transpose() * b2, ab(r) + std::fabs(c) * ab(a).transpose() * ab(b2), "matATBprod"); }
  { Vec<M> R; VX r = fill(g, R); matBVprod(A, V, c, R); same(R, r + c * a * v, ab(r) + std::fabs(c) * ab(a) * ab(v), "matBVprod"); }
  { Vec<N> R; VX r = fill(g, R); matBTVprod(A, W, c, R); same(R, r + c * a.transpose() * w, ab(r) + std::fabs(c) * ab(a).transpose() * ab(w), "matBTVprod"); }
  { MatSym<M> D; MX d = fill(g, D); MatSym<N> R; MX r = fill(g, R); matBTDBprod(A, D, c, R);
    same(R, r + c * a.transpose() * d * a, ab(r) + std::fabs(c) * ab(a).transpose() * ab(d) * ab(a), "matBTDBprod"); same(D, d, ab(d), "operand D"); }
  { MatSym<N> D; MX d = fill(g, D); Vec<N> R; VX r = fill(g, R); matBVprod(D, V, c, R); same(R, r + c * d * v, ab(r) + std::fabs(c) * ab(d) * ab(v), "matBVprod sym"); same(D, d, ab(d), "operand D"); }
  { MatSym<N> D, E; MX d = fill(g, D), e = fill(g, E); D += E; same(D, d + e, ab(d) + ab(e), "MatSym +="); same(E, e, ab(e), "operand E"); D.zero(); same(D, MX::Zero(N, N), MX::Zero(N, N), "MatSym zero");
    std::stringstream s; s.precision(17); for (int i = 0; i < N; i++) for (int j = i; j < N; j++) s << e(i, j) << " "; D.simple_read(s); same(D, e, ab(e), "MatSym simple_read");
    double eps = g.logreal(-6, 0); int i = (int) g.draw(N - 1), j = (int) g.draw(N - 1); bool over = g.boolean(); double base = std::fmod(e(i, j), 100 * eps); D.comp(i, j) = base; E.comp(i, j) = base + eps * (over ? -2.0 : 0.5);
    EXPECT(D.compare(E, eps) == !over, "MatSym compare"); }
  same(A, a, ab(a), "operand A"); same(B, b, ab(b), "operand B"); same(V, v, ab(v), "operand V"); same(W, w, ab(w), "operand W");
}

template <uint16 N> static void vectors(Gen& g) {
  Vec<N> A, B; VX a = fill(g, A), b = fill(g, B); double k = val(g);
  g.note << "vec " << N;
  { Vec<N> R = A + B; same(R, a + b, ab(a) + ab(b), "+"); }
  { Vec<N> R = A - B; same(R, a - b, ab(a) + ab(b), "-"); }
  { Vec<N> R = -A; same(R, -a, ab(a), "unary -"); }
  { Vec<N> R = A * k; same(R, a * k, ab(a * k), "* scalar"); }
  { Vec<N> R = A; R += B; same(R, a + b, ab(a) + ab(b), "+="); R += R; same(R, 2 * (a + b), 2 * (ab(a) + ab(b)), "+= itself"); }
  EXPECT_CLOSE(A * B, a.dot(b), 1e-13, a.cwiseAbs().dot(b.cwiseAbs()) * N, "dot product");
  EXPECT_CLOSE(A.qlength(), a.squaredNorm(), 1e-13, a.squaredNorm() * N, "qlength");
  EXPECT_CLOSE(A.length(), a.norm(), 1e-13, a.norm() * N, "length");
  { Vec<N> Z; for (int i = 0; i < N; i++) EXPECT(Z[i] == 0, "a new vector is zero"); }
  { double eps = g.logreal(-6, 0); int i = (int) g.draw(N - 1); bool over = g.boolean(); Vec<N> Q = A, R = A; double base = std::fmod(a(i), 100 * eps); Q[i] = base; R[i] = base + eps * (over ? -2.0 : 0.5); EXPECT(Q.compare(R, eps) == !over, "Vec compare"); }
  { std::stringstream s; s.precision(17); s << A; Vec<N> R; R.simple_read(s); same(R, a, ab(a), "print and read"); }
  same(A, a, ab(a), "operand A"); same(B, b, ab(b), "operand B");
}

template <uint16 N> static void detinv(Gen& g) {
  Mat<N, N> A; MX a = fill(g, A);
  bool singular = N > 1 && g.chance(1, 6);
  if (singular) for (int j = 0; j < N; j++) { a(N - 1, j) = a(0, j); A[N - 1][j] = a(0, j); }
  else { // away from singular
    for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += std::fabs(a(i, j)); int p = (i * 2 + 1) % N; if (N % 2 == 0) p = (i + 1) % N; a(i, p) += (g.boolean() ? 1 : -1) * (2 * s + 0.5); A[i][p] = a(i, p); }
  }
  g.note << "det " << N << (singular ? " singular" : "");
  g.label(singular ? "singular" : "regular");
  double d = A.det();
  double scale = 1; for (int i = 0; i < N; i++) scale *= a.row(i).cwiseAbs().sum();
  EXPECT_CLOSE(d, singular ? 0 : a.determinant(), 1e-13, scale * 50, "det " << N);
  if (!singular) {
    Mat<N, N> I = A.inv(d); Mat<N, N> P = A * I; MX inv = a.inverse();
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      EXPECT_CLOSE(I[i][j], inv(i, j), 1e-10, inv.cwiseAbs().maxCoeff() * inv.cwiseAbs().maxCoeff() * a.cwiseAbs().maxCoeff() * N + 1e-280, "inverse (" << i << "," << j << ")");
    }
  }
  same(A, a, ab(a), "operand");
  Mat<N, N> I; I.Identity(); same(I, MX::Identity(N, N), MX::Identity(N, N), "Identity");
}

FACET(mat_elementwise, "more than one row and column", 6000, 60000) {
  int k = (int) g.integer(0, 6);
  g.nontrivial(k > 0);
  switch (k) { case 0: elementwise<1, 1>(g); break; case 1: elementwise<2, 2>(g); break; case 2: elementwise<3, 3>(g); break; case 3: elementwise<2, 5>(g); break; case 4: elementwise<6, 3>(g); break; case 5: elementwise<3, 12>(g); break; default: elementwise<6, 6>(g); }
}
FACET(mat_products, "more than one row and column", 6000, 60000) {
  int k = (int) g.integer(0, 8);
  g.nontrivial(k > 0);
  switch (k) { case 0: products<1, 1, 1>(g); break; case 1: products<2, 2, 2>(g); break; case 2: products<3, 3, 3>(g); break; case 3: products<6, 12, 2>(g); break; case 4: products<3, 6, 4>(g); break; case 5: products<1, 6, 3>(g); break; case 6: products<9, 24, 1>(g); break; case 7: products<3, 8, 6>(g); break; default: products<6, 24, 6>(g); }
}
FACET(vec_ops, "more than one component", 6000, 60000) {
  int k = (int) g.integer(0, 4); g.nontrivial(k > 0);
  switch (k) { case 0: vectors<1>(g); break; case 1: vectors<2>(g); break; case 2: vectors<3>(g); break; case 3: vectors<6>(g); break; default: vectors<24>(g); }
}
FACET(det_inv, "at least 2x2", 6000, 60000) {
  int k = (int) g.integer(0, 5); g.nontrivial(k > 0);
  switch (k) { case 0: detinv<1>(g); break; case 1: detinv<2>(g); break; case 2: detinv<3>(g); break; case 3: detinv<4>(g); break; case 4: detinv<5>(g); break; default: detinv<6>(g); }
}
FACET(eigenvalues, "not a diagonal matrix", 6000, 100000) {
  Mat<3, 3> A; MX a(3, 3);
  int kind = (int) g.integer(0, 4);
  static const char* names[] = {"random", "two equal", "three equal", "diagonal", "rank one"};
  if (kind == 0) { for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) a(i, j) = a(j, i) = val(g); }
  else {
    MX R(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = g.sreal(1) + (i == j);
    Eigen::HouseholderQR<MX> qr(R); MX Q = qr.householderQ();
    double s = g.logreal(-3, 3);
    VX d(3); for (int i = 0; i < 3; i++) d(i) = g.sreal(5) * s;
    if (kind == 1) d(1) = d(0); if (kind == 2) d(1) = d(2) = d(0);
    if (kind == 3) Q = MX::Identity(3, 3);
    if (kind == 4) d(1) = d(2) = 0;
    a = Q * d.asDiagonal() * Q.transpose(); a = 0.5 * (a + a.transpose().eval());
  }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = a(i, j);
  g.label(names[kind]); g.note << names[kind] << " " << A; g.nontrivial(kind != 3);
  Vec<3> e = A.eigenvalues();
  Eigen::SelfAdjointEigenSolver<MX> es(a, Eigen::EigenvaluesOnly);
  double sc = a.cwiseAbs().maxCoeff();
  for (int i = 0; i < 3; i++) EXPECT_CLOSE(e[i], es.eigenvalues()(2 - i), 3e-6, sc * 3 + 1e-300, "eigenvalue " << i << " (largest first)");
  same(A, a, ab(a), "operand");
}
