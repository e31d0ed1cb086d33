// P08: hyperelastic stress and tangent are derivatives of the strain energy.
#include "hyper.h"
using namespace hyper;
using solidmech::tensorComponents;

static M3 genF(Gen& g) {
  M3 F = M3::Identity();
  switch (g.weighted({4, 2, 1, 1, 1})) {
    case 0: for (int i = 0; i < 9; i++) F(i / 3, i % 3) += g.sreal(0.6); break;
    case 1: for (int i = 0; i < 9; i++) F(i / 3, i % 3) += g.sreal(1) * 1e-1; F *= g.logreal(-0.3, 0.3); break;
    case 2: for (int i = 0; i < 3; i++) F(i, i) = g.logreal(-0.5, 0.5); break;          // principal stretches, may be equal
    case 3: { double s = g.sreal(3); F((int) g.integer(0, 1), 2) = s; break; }             // simple shear
    default: { double e = g.logreal(-9, -2); for (int i = 0; i < 9; i++) F(i / 3, i % 3) += g.sreal(1) * e; }
  }
  if (F.determinant() < 0) F.row(0) *= -1;
  for (int it = 0; it < 20 && F.determinant() < 0.05; it++) F = 0.6 * F + 0.4 * M3::Identity();
  if (F.determinant() < 0.05) throw pbt::Discard{"singular"};
  return fe::randRot(g) * F;
}
static double genP(Gen& g, const Law& m) { switch (g.integer(0, 3)) { case 0: return 0; case 1: return g.sreal(2) * m.c[0]; case 2: return g.sreal(0.2) * m.K(); default: return g.sreal(1) * g.logreal(-3, 3); } }
struct Sizes { double s, d; };   // natural sizes of stress and tangent: sums of absolute terms
static Sizes sizes(const Law& m, const M3& C, double p) {
  M3 Ci = C.inverse(); double J = std::sqrt(C.determinant());
  double I1 = C.trace(), I2 = (I1 * I1 - (C * C).trace()) / 2, a = std::pow(J, -2.0 / 3), b1 = I1 * a, b2 = I2 * a * a;
  Law q = m; for (auto& c : q.c) c = std::fabs(c);
  // derivatives of the energy with absolute constants at absolute arguments
  D2<2> x = D2<2>::var(3 + std::fabs(b1 + 3), 0), y = D2<2>::var(3 + std::fabs(b2 + 3), 1);
  D2<2> w = wbar(q, x, y);
  double ci = Ci.cwiseAbs().maxCoeff(), c = C.cwiseAbs().maxCoeff();
  double A = a * (1 + I1 * ci), B = a * a * (I1 + c + I2 * ci);
  Sizes z;
  z.s = 2 * (w.g[0] * A + w.g[1] * B) + std::fabs(p) * J * ci;
  z.d = 4 * (w.h(0, 0) * A * A + 2 * w.h(0, 1) * A * B + w.h(1, 1) * B * B + w.g[0] * A * ci * 3 + w.g[1] * (B * ci * 3 + 2 * a * a * (1 + I2 * ci * ci))) + 3 * std::fabs(p) * J * ci * ci;
  return z;
}
static void put(const M3& C, double* c) { sym6(C, c); }

FACET(stress_and_tangent, "deformation beyond 1e-3", 120000, 3200000) {
  Law m = genMat(g, g.chance(1, 4), true);
  M3 F = genF(g), C = F.transpose() * F; double p = genP(g, m);
  g.note << str(m) << ", p " << p << ", F " << Eigen::Map<Eigen::Matrix<double, 1, 9>>(F.data());
  g.label(matName(m.kind)); g.nontrivial((C - M3::Identity()).norm() > 1e-3);
  std::unique_ptr<Mat_Hyper_Isotrop_General> L(libMat(m));
  double c[6], c0[6]; put(C, c); std::copy(c, c + 6, c0);
  std::vector<double> S(6 + 2, 7.5), Dd(21 + 2, 7.5), Dp(6 + 2, 7.5);
  L->getS_UP(6, solidmech::defaultTensorComponents, c, p, &S[1]);
  L->getDdDp_UP(6, solidmech::defaultTensorComponents, c, p, &Dd[1], &Dp[1]);
  EXPECT(std::equal(c, c + 6, c0), "the deformation was modified");
  EXPECT(S[0] == 7.5 && S[7] == 7.5 && Dd[0] == 7.5 && Dd[22] == 7.5 && Dp[0] == 7.5 && Dp[7] == 7.5, "written outside the result");
  D2<6> W = energyC(m, C, p), J = volumeC(C);
  Sizes z = sizes(m, C, p);
  double cond = C.norm() * C.inverse().norm(), tol = 1e-14 * (20 + cond);
  auto f = [](int k) { return TI[k] == TJ[k] ? 1.0 : 0.5; };
  static const char* nm[6] = {"XX", "XY", "XZ", "YY", "YZ", "ZZ"};
  for (int k = 0; k < 6; k++) {
    EXPECT_CLOSE(S[1 + k], 2 * f(k) * W.g[k], tol, z.s, "stress " << nm[k]);
    EXPECT_CLOSE(Dp[1 + k], 2 * f(k) * J.g[k], tol, C.inverse().cwiseAbs().maxCoeff() * J.v, "derivative of stress " << nm[k] << " with respect to pressure");
  }
  for (int i = 0, q = 1; i < 6; i++) for (int j = i; j < 6; j++, q++)
    EXPECT_CLOSE(Dd[q], 2 * f(i) * f(j) * W.h(i, j), tol * 3, z.d, "derivative of stress " << nm[i] << " with respect to C_" << nm[j]);
  EXPECT(L->getK() == m.K(), "getK() is " << L->getK());
  // the energy itself
  double I1 = C.trace(), I2 = (I1 * I1 - (C * C).trace()) / 2, Jv = std::sqrt(C.determinant()), a = std::pow(Jv, -2.0 / 3);
  double e0 = wbar(m, I1 * a, I2 * a * a);
  EXPECT_CLOSE(L->W(I1 * a, I2 * a * a, 1.0), e0, 1e-14, z.s * 10 + 1e-300, "energy");
}
// the same by central differences of the library's own functions
FACET(differences, "deformation beyond 1e-3", 30000, 480000) {
  Law m = genMat(g, true, true);
  M3 F = genF(g); double p = genP(g, m);
  M3 C = F.transpose() * F;
  if (C.norm() * C.inverse().norm() > 1e3) { F = 0.5 * (F + F.determinant() * M3::Identity()); if (F.determinant() < 0.1) throw pbt::Discard{"singular"}; C = F.transpose() * F; }
  g.note << str(m) << ", p " << p; g.nontrivial((C - M3::Identity()).norm() > 1e-3);
  std::unique_ptr<Mat_Hyper_Isotrop_General> L(libMat(m));
  double c[6]; put(C, c);
  auto energy = [&](const double* q) { double I1, I2, I3; invariants(q, I1, I2, I3); double J = std::sqrt(I3), a = std::pow(J, -2.0 / 3); return L->W(I1 * a, I2 * a * a, 1) + p * (J - 1); };
  double S[6], Dd[21], Dp[6];
  L->getS_UP(6, solidmech::defaultTensorComponents, c, p, S);
  L->getDdDp_UP(6, solidmech::defaultTensorComponents, c, p, Dd, Dp);
  Sizes z = sizes(m, C, p);
  double lmin = 1 / C.inverse().norm(), h = 1e-3 * lmin;
  for (int l = 0; l < 6; l++) {
    double q[6], a[4], s[4][6]; static const double k[4] = {-2, -1, 1, 2};
    for (int i = 0; i < 4; i++) { std::copy(c, c + 6, q); q[l] += k[i] * h; a[i] = energy(q); L->getS_UP(6, solidmech::defaultTensorComponents, q, p, s[i]); }
    double fl = TI[l] == TJ[l] ? 1.0 : 0.5;
    double d = (a[0] - 8 * a[1] + 8 * a[2] - a[3]) / (12 * h);
    EXPECT(std::fabs(S[l] - 2 * fl * d) <= 1e-7 * z.s, "stress " << l << " is " << S[l] << ", the energy changes by " << 2 * fl * d);
    for (int i = 0; i < 6; i++) {
      int lo = std::min(i, l), hi = std::max(i, l), at = lo * 6 - lo * (lo - 1) / 2 + hi - lo;
      double t = (s[0][i] - 8 * s[1][i] + 8 * s[2][i] - s[3][i]) / (12 * h);
      EXPECT(std::fabs(Dd[at] - fl * t) <= 1e-7 * z.d, "tangent " << i << "," << l << " is " << Dd[at] << ", the stress changes by " << fl * t);
    }
  }
}
FACET(undeformed, "always", 15000, 160000) {
  Law m = genMat(g, false, true);
  g.nontrivial(true); g.label(matName(m.kind));
  std::unique_ptr<Mat_Hyper_Isotrop_General> L(libMat(m));
  double c[6] = {1, 0, 0, 1, 0, 1}, S[6], Dp[6], Dd[21], sc = 0; for (size_t i = 0; i + 1 < m.c.size(); i++) sc += std::fabs(m.c[i]);
  L->getS_UP(6, solidmech::defaultTensorComponents, c, 0, S);
  for (int i = 0; i < 6; i++) EXPECT(std::fabs(S[i]) <= 1e-14 * sc * 10, "stress " << S[i] << " without deformation");
  double p = g.sreal(5); g.note << str(m) << ", p " << p;
  L->getS_UP(6, solidmech::defaultTensorComponents, c, p, S);
  for (int i = 0; i < 6; i++) EXPECT_CLOSE(S[i], (TI[i] == TJ[i]) * p, 1e-13, sc + std::fabs(p), "stress under pressure alone");
  L->getDdDp_UP(6, solidmech::defaultTensorComponents, c, 0, Dd, Dp);
  // small strains: shear modulus 2 (W1 + W2), no volumetric part
  double G = m.kind == NEO ? m.c[0] : m.kind == BID ? 2 * (m.c[0] + m.c[3]) : 2 * (m.c[0] + m.c[1]);
  for (int i = 0, q = 0; i < 6; i++) for (int j = i; j < 6; j++, q++) {
    bool di = TI[i] == TJ[i], dj = TI[j] == TJ[j];
    double want = di && dj ? G * (i == j ? 2.0 / 3 : -1.0 / 3) : i == j ? G / 2 : 0;
    EXPECT_CLOSE(Dd[q], want, 1e-12, sc, "small strain tangent " << i << "," << j);
  }
  EXPECT(L->W(3, 3, 1) == 0, "energy without deformation is " << L->W(3, 3, 1));
}
FACET(components, "fewer than six components or another order", 60000, 800000) {
  Law m = genMat(g, g.boolean(), true);
  M3 F = genF(g), C = F.transpose() * F; double p = genP(g, m), c[6]; put(C, c);
  std::unique_ptr<Mat_Hyper_Isotrop_General> L(libMat(m));
  double S[6], Dd[21], Dp[6];
  L->getS_UP(6, solidmech::defaultTensorComponents, c, p, S);
  L->getDdDp_UP(6, solidmech::defaultTensorComponents, c, p, Dd, Dp);
  int n = (int) g.integer(1, 6);
  std::vector<int> s = g.sample(6, n);
  bool sorted = std::is_sorted(s.begin(), s.end());
  g.nontrivial(n < 6 || !sorted);
  std::vector<tensorComponents> k; g.note << str(m) << ", components"; for (int i : s) { k.push_back((tensorComponents) i); g.note << " " << i; }
  std::vector<double> s2(n + 1, 3.25), d2(n * (n + 1) / 2 + 1, 3.25), p2(n + 1, 3.25);
  L->getS_UP((uint16) n, k.data(), c, p, s2.data());
  L->getDdDp_UP((uint16) n, k.data(), c, p, d2.data(), p2.data());
  EXPECT(s2[n] == 3.25 && p2[n] == 3.25 && d2.back() == 3.25, "written behind the result");
  Sizes z = sizes(m, C, p);
  for (int i = 0, q = 0; i < n; i++) {
    EXPECT_CLOSE(s2[i], S[s[i]], 1e-14, z.s, "stress component " << s[i]);
    EXPECT_CLOSE(p2[i], Dp[s[i]], 1e-14, std::fabs(Dp[s[i]]), "pressure derivative " << s[i]);
    for (int j = i; j < n; j++, q++) {
      int lo = std::min(s[i], s[j]), hi = std::max(s[i], s[j]);
      EXPECT_CLOSE(d2[q], Dd[lo * 6 - lo * (lo - 1) / 2 + hi - lo], 1e-13, z.d, "tangent " << s[i] << "," << s[j]);
    }
  }
}
// helpers on deformation tensors
FACET(tensors, "always", 60000, 800000) {
  M3 F = genF(g), C = F.transpose() * F; double c[6]; put(C, c);
  g.nontrivial(true); g.note << "F " << Eigen::Map<Eigen::Matrix<double, 1, 9>>(F.data());
  double cond = C.norm() * C.inverse().norm(), tol = 1e-14 * (10 + cond), cc = C.norm();
  double J = std::fabs(F.determinant());
  EXPECT_CLOSE(solidmech::J_C(c), J, tol, J, "J");
  double inv[6]; solidmech::invC_C(c, J, inv);
  M3 Ci = C.inverse();
  for (int k = 0; k < 6; k++) EXPECT_CLOSE(inv[k], Ci(TI[k], TJ[k]), tol, Ci.norm(), "inverse " << k);
  double ic[3] = {9, 9, 9}; solidmech::IC_C(c, ic);
  double I1 = C.trace(), I2 = (I1 * I1 - (C * C).trace()) / 2;
  EXPECT_CLOSE(ic[0], I1, 1e-14, cc, "first invariant"); EXPECT_CLOSE(ic[1], I2, 1e-14, cc * cc, "second invariant"); EXPECT_CLOSE(ic[2], J, tol, J, "third invariant");
  double e[6], b[6]; for (int k = 0; k < 6; k++) b[k] = e[k] = g.sreal(3);
  solidmech::E_C(c, e);
  for (int k = 0; k < 6; k++) EXPECT_CLOSE(e[k], b[k] + (C(TI[k], TJ[k]) - (TI[k] == TJ[k])) / 2, 1e-15 * 8, 3 + cc, "strain " << k << " added to what was there");
}
FACET(constants, "always", 3000, 16000) {
  Law m = genMat(g, false); g.note << str(m); g.nontrivial(true);
  Material* p = MaterialFactory::createMaterial(matName(m.kind));
  std::unique_ptr<Material> own(p);
  static const std::vector<const char*> nm[3] = {{"G", "K"}, {"C10", "C20", "C30", "C01", "K"}, {"C10", "C01", "K"}};
  EXPECT(p->getNumC() == nm[m.kind].size(), "number of constants");
  for (int i : g.perm((int) m.c.size())) p->Ci(std::string(nm[m.kind][i])) = m.c[i];
  for (size_t i = 0; i < m.c.size(); i++) EXPECT(p->Ci((uint16) i) == m.c[i], "constant " << nm[m.kind][i] << " is " << p->Ci((uint16) i));
  EXPECT(dynamic_cast<Mat_Hyper_Isotrop_General*>(p)->getK() == m.K(), "bulk modulus");
  std::string bad = g.oneOf<const char*>({"Neo-hookean", "", "Neo", "Neo-Hookean ", "UNDEFINED"});
  EXPECT(MaterialFactory::createMaterial(bad) == nullptr, "a material was made for the name '" << bad << "'");
}
