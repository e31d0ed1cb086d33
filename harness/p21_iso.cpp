// P21: shape functions, quadrature and geometry of the line, quadrilateral and hexahedron.
#include "fe.h"
using fe::V3; using fe::MX; using fe::VX;

template <class B> struct Open : B {   // an element of a user's own on top of the formulation
  void pre() {} void buildK() {} void update() {}
};
// reference nodes
static const int Q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
static const int H[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
static const double g5x[5] = {-0.906179845938663992797626878299, -0.538469310105683091036314420700, 0, 0.538469310105683091036314420700, 0.906179845938663992797626878299};
static const double g5w[5] = {0.236926885056189087514264040720, 0.478628670499366468041291514836, 0.568888888888888888888888888889, 0.478628670499366468041291514836, 0.236926885056189087514264040720};

template <int D> struct Kind;
template <> struct Kind<1> { typedef Open<ElementIsoParamLINE> E; enum { N = 2 }; static double c(int n, int) { return n ? 1 : -1; } };
template <> struct Kind<2> { typedef Open<ElementIsoParamQUAD> E; enum { N = 4 }; static double c(int n, int i) { return Q[n][i]; } };
template <> struct Kind<3> { typedef Open<ElementIsoParamHEXAHEDRON> E; enum { N = 8 }; static double c(int n, int i) { return H[n][i]; } };

static std::vector<double> lib(Open<ElementIsoParamLINE>& e, const double* r) { auto v = e.formFunc(r[0]); std::vector<double> o; for (int i = 0; i < 2; i++) o.push_back(v[i]); return o; }
static std::vector<double> lib(Open<ElementIsoParamQUAD>& e, const double* r) { auto v = e.formFunc(r[0], r[1]); std::vector<double> o; for (int i = 0; i < 4; i++) o.push_back(v[i]); return o; }
static std::vector<double> lib(Open<ElementIsoParamHEXAHEDRON>& e, const double* r) { auto v = e.formFunc(r[0], r[1], r[2]); std::vector<double> o; for (int i = 0; i < 8; i++) o.push_back(v[i]); return o; }
static MX libD(Open<ElementIsoParamLINE>& e, const double* r) { auto v = e.formFuncDeriv(r[0]); MX o(2, 1); for (int i = 0; i < 2; i++) o(i, 0) = v[i][0]; return o; }
static MX libD(Open<ElementIsoParamQUAD>& e, const double* r) { auto v = e.formFuncDeriv(r[0], r[1]); MX o(4, 2); for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) o(i, j) = v[i][j]; return o; }
static MX libD(Open<ElementIsoParamHEXAHEDRON>& e, const double* r) { auto v = e.formFuncDeriv(r[0], r[1], r[2]); MX o(8, 3); for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) o(i, j) = v[i][j]; return o; }

template <int D> void ref(const double* r, VX& N, MX& dN) {
  const int n = Kind<D>::N; N = VX(n); dN = MX(n, D);
  for (int a = 0; a < n; a++) {
    double f = 1; for (int i = 0; i < D; i++) f *= (1 + Kind<D>::c(a, i) * r[i]) / 2; N[a] = f;
    for (int j = 0; j < D; j++) { double q = Kind<D>::c(a, j) / 2; for (int i = 0; i < D; i++) if (i != j) q *= (1 + Kind<D>::c(a, i) * r[i]) / 2; dN(a, j) = q; }
  }
}
template <int D> MX jac(const std::vector<V3>& x, const double* r) {   // d x_j / d r_i
  VX N; MX dN; ref<D>(r, N, dN); MX X(Kind<D>::N, D); for (int a = 0; a < Kind<D>::N; a++) for (int j = 0; j < D; j++) X(a, j) = x[a][j];
  return dN.transpose() * X;
}
template <int D> double minDet(const std::vector<V3>& x) {   // over corners and integration points of all orders
  double m = 1e300; const int k[7] = {0, 0, 0, 0, 0, 0, 0}; (void) k;
  double v[6] = {-1, -0.774596669241483, -0.577350269189626, 0.577350269189626, 0.774596669241483, 1};
  int n[3] = {6, D > 1 ? 6 : 1, D > 2 ? 6 : 1};
  for (int a = 0; a < n[0]; a++) for (int b = 0; b < n[1]; b++) for (int c = 0; c < n[2]; c++) { double r[3] = {v[a], v[b], v[c]}; m = std::min(m, jac<D>(x, r).determinant()); }
  double o[3] = {0, 0, 0}; return std::min(m, jac<D>(x, o).determinant());
}
// integral of x^a y^b z^c over the element by a five point rule (exact up to degree nine in each local coordinate)
template <int D> double moment(const std::vector<V3>& x, const V3& c, double L, const int* p, double* absI = nullptr) {
  double s = 0, sa = 0; int n[3] = {5, D > 1 ? 5 : 1, D > 2 ? 5 : 1};
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) {
    double r[3] = {g5x[i], D > 1 ? g5x[j] : 0, D > 2 ? g5x[k] : 0}, w = g5w[i] * (D > 1 ? g5w[j] : 1) * (D > 2 ? g5w[k] : 1);
    VX N; MX dN; ref<D>(r, N, dN); V3 q(0, 0, 0); for (int a = 0; a < Kind<D>::N; a++) q += N[a] * x[a];
    double f = w * jac<D>(x, r).determinant(); for (int d = 0; d < D; d++) f *= std::pow((q[d] - c[d]) / L, p[d]);
    s += f; sa += std::fabs(f);
  }
  if (absI) *absI = sa;
  return s;
}
template <int D> struct Setup {
  FEStorage st; typename Kind<D>::E* e; std::vector<V3> x;
  Setup(Gen& g, const std::vector<V3>& pos) : x(pos) {
    int n = Kind<D>::N, extra = (int) g.integer(0, 3);
    st.createNodes(n + extra);
    auto p = g.perm(n + extra);
    e = new typename Kind<D>::E;
    for (int i = 0; i < n; i++) { e->getNodeNumber(i) = p[i] + 1; }
    st.addElement(e); move(pos);
  }
  void move(const std::vector<V3>& pos) { x = pos; for (int i = 0; i < Kind<D>::N; i++) for (int j = 0; j < 3; j++) st.getNode(e->getNodeNumber(i)).pos[j] = pos[i][j]; }
};
static void place(Gen& g, std::vector<V3>& x, bool plane, double scale) {   // rigid motion and size
  Eigen::Matrix3d R = plane ? Eigen::Matrix3d(Eigen::AngleAxisd(g.boolean() ? g.real(0, 6.28) : g.integer(0, 3) * M_PI / 2, V3(0, 0, 1)).toRotationMatrix()) : g.chance(1, 4) ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : fe::randRot(g);
  V3 t(g.sreal(1), g.sreal(1), g.sreal(1)); t *= g.oneOf({0.0, 1.0, 10.0}) * scale;
  for (auto& p : x) p = scale * (R * p) + t;
}
template <int D> void check(Gen& g, Setup<D>& s, int order, const std::string& when);
static int clampOrder(int o) { return o < 1 ? 1 : o > 3 ? 3 : o; }
static int anyOrder(Gen& g) { return g.weighted({6, 1}) ? g.oneOf({0, 4, 7, 65535}) : (int) g.integer(1, 3); }
static double sizeOf(const std::vector<V3>& x) { double L = 0; for (auto& a : x) for (auto& b : x) L = std::max(L, (a - b).norm()); return L; }
static double offset(const std::vector<V3>& x) { double m = 0; for (auto& p : x) m = std::max(m, p.norm()); return m; }

template <int D> void functions(Gen& g, typename Kind<D>::E& e) {
  for (int k = 0; k < 4; k++) {
    double r[3]; for (double& v : r) v = g.weighted({4, 1, 1}) == 0 ? g.sreal(1) : g.oneOf({-1.0, 0.0, 1.0, 1.7});
    VX N; MX dN; ref<D>(r, N, dN); auto v = lib(e, r); MX d = libD(e, r);
    double sum = 0; for (double q : v) sum += q; EXPECT(std::fabs(sum - 1) <= 1e-14 * 30, "shape functions sum to " << sum << " at " << r[0] << " " << r[1] << " " << r[2]);
    for (int a = 0; a < Kind<D>::N; a++) { EXPECT(std::fabs(v[a] - N[a]) <= 1e-13, "shape function " << a << " is " << v[a] << ", not " << N[a] << " at " << r[0] << " " << r[1] << " " << r[2]); for (int j = 0; j < D; j++) EXPECT(std::fabs(d(a, j) - dN(a, j)) <= 1e-13, "derivative " << j << " of shape function " << a << " is " << d(a, j) << ", not " << dN(a, j)); }
  }
  for (int b = 0; b < Kind<D>::N; b++) { double r[3] = {0, 0, 0}; for (int i = 0; i < D; i++) r[i] = Kind<D>::c(b, i); auto v = lib(e, r); for (int a = 0; a < Kind<D>::N; a++) EXPECT(v[a] == (a == b ? 1 : 0), "shape function " << a << " is " << v[a] << " in node " << b); }
}
static std::vector<double> at(Open<ElementIsoParamLINE>& e, uint16 np) { auto v = e.formFunc(np); return {v[0], v[1]}; }
static std::vector<double> at(Open<ElementIsoParamQUAD>& e, uint16 np) { auto v = e.formFunc(np); return {v[0], v[1], v[2], v[3]}; }
static std::vector<double> at(Open<ElementIsoParamHEXAHEDRON>& e, uint16 np) { auto v = e.formFunc(np); std::vector<double> o; for (int i = 0; i < 8; i++) o.push_back(v[i]); return o; }
static double pointDet(Open<ElementIsoParamLINE>& e, int) { return e.det; }
static double pointDet(Open<ElementIsoParamQUAD>& e, int np) { EXPECT(e.det.size() == e.nOfIntPoints(), e.det.size() << " Jacobians of " << e.nOfIntPoints() << " points"); return e.det[np]; }
static double pointDet(Open<ElementIsoParamHEXAHEDRON>& e, int np) { EXPECT(e.det.size() == e.nOfIntPoints(), e.det.size() << " Jacobians of " << e.nOfIntPoints() << " points"); return e.det[np]; }
static void gradients(Open<ElementIsoParamLINE>&, const std::vector<V3>&, int, MX&) {}
static void gradients(Open<ElementIsoParamQUAD>& e, const std::vector<V3>&, int np, MX& G) { G = MX(4, 2); for (int a = 0; a < 4; a++) for (int j = 0; j < 2; j++) G(a, j) = e.NiXj[np][a][j]; }
static void gradients(Open<ElementIsoParamHEXAHEDRON>& e, const std::vector<V3>&, int np, MX& G) { G = MX(8, 3); for (int a = 0; a < 8; a++) for (int j = 0; j < 3; j++) G(a, j) = e.NiXj[np][a][j]; }

// everything about the geometry after makeJacob.  affine: the shape maps linearly
template <int D> void geometry(Gen& g, Setup<D>& s, int order, bool affine, double exact, const std::string& when) {
  auto& e = *s.e; int o = clampOrder(order), n = 1; for (int i = 0; i < D; i++) n *= o;
  EXPECT(e.nOfIntPoints() == n, when << ": " << e.nOfIntPoints() << " points for order " << order);
  double L = sizeOf(s.x), mag = offset(s.x) / L + 1, tol = 1e-13 * mag;
  std::set<std::vector<long>> seen; double sum = 0;
  V3 c(0, 0, 0); for (auto& p : s.x) c += p / (double) s.x.size();
  std::vector<VX> N(n); std::vector<double> w(n);
  for (int np = 0; np < n; np++) {
    double r[3] = {0, 0, 0}; e.np2rst(np, r);
    std::vector<long> key; for (int i = 0; i < D; i++) { EXPECT(std::fabs(r[i]) < 1, when << ": point " << np << " lies at " << r[i]); key.push_back(std::lround(r[i] * 1e9)); }
    EXPECT(seen.insert(key).second, when << ": point " << np << " repeats another one");
    MX dN; ref<D>(r, N[np], dN); auto v = at(e, np);
    for (int a = 0; a < Kind<D>::N; a++) EXPECT(std::fabs(v[a] - N[np][a]) <= 1e-14, when << ": shape function " << a << " in point " << np << " is " << v[a] << ", not " << N[np][a]);
    w[np] = e.intWeight(np); sum += w[np];
    if (D > 1) {
      MX J = jac<D>(s.x, r); double det = J.determinant();
      EXPECT(std::fabs(pointDet(e, np) - det) <= tol * std::pow(L, D), when << ": Jacobian in point " << np << " is " << pointDet(e, np) << ", not " << det);
      MX G; gradients(e, s.x, np, G);
      double gs = G.cwiseAbs().maxCoeff() * L;
      for (int j = 0; j < D; j++) {
        double z = 0; for (int a = 0; a < Kind<D>::N; a++) z += G(a, j);
        EXPECT(std::fabs(z) * L <= 1e-12 * gs * mag, when << ": derivatives " << j << " in point " << np << " sum to " << z);
        for (int i = 0; i < D; i++) { double v = 0; for (int a = 0; a < Kind<D>::N; a++) v += G(a, j) * (s.x[a][i] - c[i]); EXPECT(std::fabs(v - (i == j)) <= 1e-12 * gs * mag, when << ": the derivative of coordinate " << i << " along " << j << " in point " << np << " is " << v); }
      }
      MX R = dN * J.inverse().transpose();
      for (int a = 0; a < Kind<D>::N; a++) for (int j = 0; j < D; j++) EXPECT(std::fabs(G(a, j) - R(a, j)) * L <= 1e-12 * gs * mag * gs, when << ": derivative " << j << " of shape function " << a << " in point " << np << " is " << G(a, j) << ", not " << R(a, j));
    }
  }
  if (D < 3 || o > 1 || affine) {
    EXPECT(std::fabs(sum - exact) <= tol * std::pow(L, D), when << ": weights sum to " << sum << ", the size is " << exact);
    EXPECT(std::fabs(e.volume() - exact) <= tol * std::pow(L, D), when << ": size " << e.volume() << ", not " << exact);
  }
  if (!affine) return;
  // polynomials of degree 2 o - 1 over parallelogram shapes
  for (int k = 0; k < 4; k++) {
    int p[3] = {0, 0, 0}, left = 2 * o - 1; for (int i = 0; i < D; i++) { p[i] = (int) g.integer(0, left); left -= p[i]; }
    if (k == 0) { p[0] = 2 * o - 1; p[1] = p[2] = 0; }
    double q = 0, qa = 0;
    for (int np = 0; np < n; np++) { V3 y(0, 0, 0); for (int a = 0; a < Kind<D>::N; a++) y += N[np][a] * s.x[a]; double f = w[np]; 
      if (D == 1) { V3 d = s.x[1] - s.x[0]; f *= std::pow((y - c).dot(d) / (L * L) + 0.3, p[0]); } else for (int d = 0; d < D; d++) f *= std::pow((y[d] - c[d]) / L + 0.3, p[d]);
      q += f; qa += std::fabs(f); }
    double want;
    if (D == 1) { double P = p[0] + 1; want = L * (std::pow(0.8, P) - std::pow(-0.2, P)) / P; }
    else { V3 c3 = c - V3(0.3, 0.3, 0.3) * L; want = moment<D>(s.x, c3, L, p); }
    EXPECT(std::fabs(q - want) <= 1e-12 * mag * (qa + std::pow(L, D)), when << ": the integral of x^" << p[0] << " y^" << p[1] << " z^" << p[2] << " is " << q << ", not " << want);
  }
}

FACET(line, "length other than two", 12000, 240000) {
  std::vector<V3> x = {V3(g.sreal(1), g.sreal(1), g.sreal(1)), V3(g.sreal(1), g.sreal(1), g.sreal(1))};
  if (g.chance(1, 4)) { int k = (int) g.integer(0, 2); x[1] = x[0]; x[1][k] += g.boolean() ? 1 : -1; }
  if ((x[1] - x[0]).norm() < 0.05) x[1][0] = x[0][0] + 1;
  double sc = g.chance(1, 3) ? g.logreal(-4, 4) : 1; for (auto& p : x) p *= sc;
  int order = anyOrder(g); double len = (x[1] - x[0]).norm();
  g.note << "line of length " << len << ", order " << order; g.label("order " + std::to_string(clampOrder(order))); g.nontrivial(std::fabs(len - 2) > 1e-3);
  Setup<1> s(g, x); s.e->setIntegrationOrder((uint16) order); s.e->makeJacob();
  functions<1>(g, *s.e); geometry(g, s, order, true, len, "line");
  if (g.chance(1, 3)) { auto y = x; y[1] = y[0] + (y[1] - y[0]) * 1.7; s.move(y); int o2 = anyOrder(g); s.e->setIntegrationOrder((uint16) o2); s.e->makeJacob(); geometry(g, s, o2, true, 1.7 * len, "moved line"); }
}
static std::vector<V3> genQuad(Gen& g, bool& affine) {
  std::vector<V3> x; affine = g.chance(2, 5);
  for (;;) {
    x.clear();
    V3 a(1, 0, 0), b(g.sreal(0.8), g.real(0.3, 2), 0);
    for (int i = 0; i < 4; i++) x.push_back(a * (Q[i][0] + 1) / 2 + b * (Q[i][1] + 1) / 2);
    if (!affine) for (auto& p : x) p += V3(g.sreal(0.35), g.sreal(0.35), 0);
    for (int k = 0; k < 8 && !(minDet<2>(x) > 0.01); k++) { V3 m = V3::Zero(); for (int i = 0; i < 4; i++) { V3 q = a * (Q[i][0] + 1) / 2 + b * (Q[i][1] + 1) / 2; x[i] = q + (x[i] - q) * 0.6; } (void) m; }
    return x;
  }
}
FACET(quad, "not a rectangle", 12000, 240000) {
  bool affine; auto x = genQuad(g, affine);
  double sc = g.chance(1, 3) ? g.logreal(-3, 4) : 1; place(g, x, true, sc);
  double z = g.chance(1, 2) ? 0 : g.sreal(1); for (auto& p : x) p[2] = z;
  double area = 0; for (int i = 0; i < 4; i++) { auto &p = x[i], &q = x[(i + 1) % 4]; area += ((p[0] - x[0][0]) * (q[1] - x[0][1]) - (q[0] - x[0][0]) * (p[1] - x[0][1])) / 2; }
  int order = anyOrder(g); g.note << "quad"; for (auto& p : x) g.note << " (" << p[0] << ", " << p[1] << ")"; g.note << " order " << order;
  g.label(affine ? "parallelogram" : "general"); g.label("order " + std::to_string(clampOrder(order)));
  g.nontrivial(std::fabs((x[1] - x[0]).dot(x[3] - x[0])) > 1e-3 * area || !affine);
  Setup<2> s(g, x); s.e->setIntegrationOrder((uint16) order);
  { ErrorLog log; s.e->makeJacob(); EXPECT(log.count() == 0, "a valid element was reported as an error"); }
  functions<2>(g, *s.e); geometry(g, s, order, affine, area, "quad");
  if (g.chance(1, 3)) { for (auto& p : x) { p[0] *= 1.5; p[1] *= 1.2; } s.move(x); int o2 = anyOrder(g); s.e->setIntegrationOrder((uint16) o2); s.e->makeJacob(); geometry(g, s, o2, affine, area * 1.8, "moved quad"); }
}
static std::vector<V3> genHex(Gen& g, bool& affine) {
  affine = g.chance(2, 5);
  V3 a(1, 0, 0), b(g.sreal(0.5), g.real(0.4, 2), 0), c(g.sreal(0.5), g.sreal(0.5), g.real(0.4, 2));
  std::vector<V3> x0, x; for (int i = 0; i < 8; i++) x0.push_back(a * (H[i][0] + 1) / 2 + b * (H[i][1] + 1) / 2 + c * (H[i][2] + 1) / 2);
  x = x0; if (!affine) for (auto& p : x) p += V3(g.sreal(0.3), g.sreal(0.3), g.sreal(0.3));
  for (int k = 0; k < 8 && !(minDet<3>(x) > 0.005); k++) for (int i = 0; i < 8; i++) x[i] = x0[i] + (x[i] - x0[i]) * 0.6;
  return x;
}
FACET(hex, "not a box", 6000, 120000) {
  bool affine; auto x = genHex(g, affine);
  double sc = g.chance(1, 3) ? g.logreal(-2, 4) : 1; place(g, x, false, sc);
  int zero[3] = {0, 0, 0}; V3 c = x[0]; double vol = moment<3>(x, c, 1, zero);
  int order = anyOrder(g); g.note << "hex"; for (auto& p : x) g.note << " (" << p[0] << ", " << p[1] << ", " << p[2] << ")"; g.note << " order " << order;
  g.label(affine ? "parallelepiped" : "general"); g.label("order " + std::to_string(clampOrder(order))); g.nontrivial(true);
  Setup<3> s(g, x); s.e->setIntegrationOrder((uint16) order);
  { ErrorLog log; s.e->makeJacob(); EXPECT(log.count() == 0, "a valid element was reported as an error"); }
  functions<3>(g, *s.e); geometry(g, s, order, affine, vol, "hex");
  if (g.chance(1, 3)) { for (auto& p : x) { p[0] *= 1.5; p[1] *= 1.2; p[2] *= 0.5; } s.move(x); int o2 = anyOrder(g); s.e->setIntegrationOrder((uint16) o2); s.e->makeJacob(); geometry(g, s, o2, affine, vol * 0.9, "moved hex"); }
}
// elements turned inside out, fully or at one integration point, and flat ones
FACET(inverted, "negative in some point only", 6000, 120000) {
  bool hex = g.boolean(), affine; int order = (int) g.integer(1, 3), kind = (int) g.integer(0, 2);
  std::vector<V3> x = hex ? genHex(g, affine) : genQuad(g, affine); int n = (int) x.size();
  if (kind == 0) {   // mirrored
    if (hex) for (int i = 0; i < 4; i++) std::swap(x[i], x[i + 4]); else std::swap(x[1], x[3]);
  } else if (kind == 1) {   // one node pushed through the others
    int a = (int) g.integer(0, n - 1), opp = hex ? (a < 4 ? (a + 2) % 4 + 4 : (a - 2) % 4) : (a + 2) % 4;
    double f = g.real(0.8, 1.6); x[a] = x[a] + (x[opp] - x[a]) * f;
  } else {   // flat
    for (auto& p : x) p[hex ? 2 : 1] = 0;
  }
  std::vector<double> dets; double worst = 1e300;
  for (int o : {order}) { static const std::vector<double> t[3] = {{0}, {-0.5773502691896258, 0.5773502691896258}, {-0.7745966692414834, 0, 0.7745966692414834}}; for (double r : t[o - 1]) for (double q : t[o - 1]) for (double w : hex ? t[o - 1] : std::vector<double>{0}) { double p[3] = {r, q, w}; double d = hex ? jac<3>(x, p).determinant() : jac<2>(x, p).determinant(); dets.push_back(d); worst = std::min(worst, d); } }
  if (kind != 2 && worst > -1e-6) { if (worst < 1e-6) throw pbt::Discard{"nearly flat"}; }

  bool bad = worst < 1e-6, mixed = false; for (double d : dets) mixed = mixed || (bad && d > 1e-6);
  g.note << (hex ? "hex" : "quad"); for (auto& p : x) g.note << " (" << p[0] << ", " << p[1] << ", " << p[2] << ")"; g.note << " order " << order << ", smallest Jacobian " << worst;
  g.label(kind == 0 ? "mirrored" : kind == 1 ? "one node pushed in" : "flat"); if (mixed) g.label("partly inverted"); g.nontrivial(mixed);
  auto make = [&]() { if (hex) { Setup<3> s(g, x); s.e->setIntegrationOrder((uint16) order); s.e->makeJacob(); } else { Setup<2> s(g, x); s.e->setIntegrationOrder((uint16) order); s.e->makeJacob(); } };
  if (kind == 2) {   // may stop at once
    auto c = pbt::inChild([&]() { ErrorLog l; make(); if (l.count() == 0) raise(SIGKILL); });
    EXPECT(c.ended != pbt::CRASHED, "a flat element was not reported");
    return;
  }
  ErrorLog log; make();
  EXPECT((log.count() > 0) == bad, (bad ? "an inverted element was not reported" : "a valid element was reported") << ", smallest Jacobian " << worst);
}
