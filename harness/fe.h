// Independent finite element reference (dense, Eigen only) and generators of linear models.
//
// A Model is plain data.  build() drives the library with it; Ref assembles and solves the same model from
// the textbook formulas without touching the library.
#pragma once
#include "nla.h"

namespace fe {
using namespace nla3d;
typedef Eigen::Vector3d V3;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

enum Kind { TRUSS, TET, TETH, TRI, KQUAD, KLINE, SPRING, INTER, ANY /* two nodes, given matrices */ };
inline const char* kindName(Kind k) {
  static const char* n[] = {"TRUSS3", "TETRA0", "TETRA1", "TRIANGLE4", "QUADTH", "SurfaceLINETH", "INTER0", "INTER3", "user element"};
  return n[k];
}

struct El {
  Kind kind;
  std::vector<int> n;            // 0-based nodes
  double E = 1, nu = 0.3, A = 1; // mechanics
  double alpha = 0, T = 0;       // thermal expansion (TETRA0)
  std::vector<double> eps0;      // initial strain (TETRA0): xx yy zz xy yz xz
  double k = 1, rho = 1, c = 1, vol = 0;
  int order = 2;                 // integration order of the isoparametric elements
  double flux = 0, htc = 0, et[2] = {0, 0};
  double kn = 1, ks = 1;
  V3 axis = V3(0, 0, 1);
  bool planeStrain = false;
  MX K, C, M; VX F;              // ANY
};

typedef std::pair<int, Dof::dofType> DofId;   // node (0-based), type
struct Term { DofId d; double coef; };
struct MpcEq { std::vector<Term> terms; double b = 0; };
struct Load { DofId d; double v; };

struct Model {
  std::vector<V3> x;
  std::vector<El> el;
  std::vector<std::pair<DofId, double>> fix;
  std::vector<Load> load;
  std::vector<MpcEq> mpc;
};

inline std::vector<Dof::dofType> dofsOf(Kind k) {
  switch (k) {
    case TRI: return {Dof::UX, Dof::UY};
    case TETH: case KQUAD: case KLINE: return {Dof::TEMP};
    default: return {Dof::UX, Dof::UY, Dof::UZ};
  }
}

// ------------------------------------------------------------------ element matrices of the reference
inline Eigen::Matrix<double, 4, 3> tetGrad(const V3& a, const V3& b, const V3& c, const V3& d, double& vol) {
  Eigen::Matrix3d J; J.col(0) = b - a; J.col(1) = c - a; J.col(2) = d - a;
  vol = J.determinant() / 6.0;
  Eigen::Matrix3d Ji = J.inverse();             // rows: gradients of the barycentric coordinates 1..3
  Eigen::Matrix<double, 4, 3> G;
  for (int i = 0; i < 3; i++) G.row(i + 1) = Ji.row(i);
  G.row(0) = -(G.row(1) + G.row(2) + G.row(3));
  return G;
}
inline Eigen::Matrix<double, 6, 6> hooke3(double E, double nu) {
  double la = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu));
  Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C(i, j) = la + (i == j ? 2 * mu : 0);
  for (int i = 3; i < 6; i++) C(i, i) = mu;
  return C;
}
inline Eigen::Matrix3d hooke2(double E, double nu, bool planeStrain) {
  // from the three dimensional law: plane strain restricts it, plane stress condenses the zz stress
  Eigen::Matrix<double, 6, 6> C = hooke3(E, nu);
  Eigen::Matrix3d D = Eigen::Matrix3d::Zero();
  int m[2] = {0, 1};
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
    D(i, j) = C(m[i], m[j]) - (planeStrain ? 0.0 : C(m[i], 2) * C(2, m[j]) / C(2, 2));
  D(2, 2) = C(3, 3);
  return D;
}
// strain order of TETRA0: xx yy zz xy yz xz (engineering shear)
inline MX tetB(const Eigen::Matrix<double, 4, 3>& G) {
  MX B = MX::Zero(6, 12);
  for (int i = 0; i < 4; i++) {
    double gx = G(i, 0), gy = G(i, 1), gz = G(i, 2);
    B(0, 3 * i) = gx; B(1, 3 * i + 1) = gy; B(2, 3 * i + 2) = gz;
    B(3, 3 * i) = gy; B(3, 3 * i + 1) = gx;
    B(4, 3 * i + 1) = gz; B(4, 3 * i + 2) = gy;
    B(5, 3 * i) = gz; B(5, 3 * i + 2) = gx;
  }
  return B;
}
inline MX triB(const V3& a, const V3& b, const V3& c, double& area) {
  Eigen::Matrix2d J; J << b[0] - a[0], c[0] - a[0], b[1] - a[1], c[1] - a[1];
  area = J.determinant() / 2;
  Eigen::Matrix2d Ji = J.inverse();
  Eigen::Matrix<double, 3, 2> G; G.row(1) = Ji.row(0); G.row(2) = Ji.row(1); G.row(0) = -(G.row(1) + G.row(2));
  MX B = MX::Zero(3, 6);
  for (int i = 0; i < 3; i++) {
    B(0, 2 * i) = G(i, 0); B(1, 2 * i + 1) = G(i, 1);
    B(2, 2 * i) = G(i, 1); B(2, 2 * i + 1) = G(i, 0);
  }
  return B;
}
inline void gauss(int order, std::vector<double>& r, std::vector<double>& w) {
  if (order == 1) { r = {0}; w = {2}; }
  else if (order == 2) { double a = 1 / std::sqrt(3.0); r = {-a, a}; w = {1, 1}; }
  else { double a = std::sqrt(0.6); r = {-a, 0, a}; w = {5.0 / 9, 8.0 / 9, 5.0 / 9}; }
}
inline Eigen::Matrix3d springD(const V3& axis, double kn, double ks) {
  V3 n = axis.normalized();
  Eigen::Matrix3d P = n * n.transpose();
  return ks * (Eigen::Matrix3d::Identity() - P) + kn * P;
}

// element stiffness, capacity and load in its own dof order (node major)
inline void elMat(const Model& m, const El& e, MX& K, MX& C, MX& M, VX& F) {
  int nd = (int) dofsOf(e.kind).size(), N = nd * (int) e.n.size();
  K = MX::Zero(N, N); C = MX::Zero(N, N); M = MX::Zero(N, N); F = VX::Zero(N);
  auto X = [&](int i) { return m.x[e.n[i]]; };
  switch (e.kind) {
    case TRUSS: {
      V3 d = X(1) - X(0); double L = d.norm(); V3 t = d / L;
      VX b(6); b << -t, t;
      K = e.E * e.A / L * b * b.transpose();
      break;
    }
    case TET: {
      double v; auto G = tetGrad(X(0), X(1), X(2), X(3), v);
      MX B = tetB(G); auto D = hooke3(e.E, e.nu);
      K = v * B.transpose() * D * B;
      VX e0 = VX::Zero(6);
      for (size_t i = 0; i < e.eps0.size(); i++) e0[i] = e.eps0[i];
      for (int i = 0; i < 3; i++) e0[i] += e.alpha * e.T;
      F = v * B.transpose() * D * e0;
      break;
    }
    case TETH: {
      double v; auto G = tetGrad(X(0), X(1), X(2), X(3), v);
      K = v * e.k * G * G.transpose();
      break;
    }
    case TRI: {
      double a; MX B = triB(X(0), X(1), X(2), a);
      K = a * B.transpose() * hooke2(e.E, e.nu, e.planeStrain) * B;
      break;
    }
    case KQUAD: {
      std::vector<double> r, w; gauss(e.order, r, w);
      double rr[4] = {-1, 1, 1, -1}, ss[4] = {-1, -1, 1, 1};
      for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) {
        VX N(4); MX dN(4, 2);
        for (int a = 0; a < 4; a++) {
          N[a] = (1 + rr[a] * r[i]) * (1 + ss[a] * r[j]) / 4;
          dN(a, 0) = rr[a] * (1 + ss[a] * r[j]) / 4; dN(a, 1) = ss[a] * (1 + rr[a] * r[i]) / 4;
        }
        Eigen::Matrix2d J = Eigen::Matrix2d::Zero();
        for (int a = 0; a < 4; a++) for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) J(p, q) += dN(a, p) * X(a)[q];
        double wt = w[i] * w[j] * J.determinant();
        MX G = dN * J.inverse().transpose();
        K += wt * e.k * G * G.transpose();
        C += wt * e.rho * e.c * N * N.transpose();
        F += wt * e.vol * N;
      }
      break;
    }
    case KLINE: {
      std::vector<double> r, w; gauss(e.order, r, w);
      double L = (X(1) - X(0)).norm();
      double e0 = e.et[0], e1 = e.et[1] == 0 ? e.et[0] : e.et[1];
      for (size_t i = 0; i < r.size(); i++) {
        VX N(2); N << (1 - r[i]) / 2, (1 + r[i]) / 2;
        double wt = w[i] * L / 2;
        K += wt * e.htc * N * N.transpose();
        F += wt * (e.flux + e.htc * (N[0] * e0 + N[1] * e1)) * N;
      }
      break;
    }
    case SPRING: {
      Eigen::Matrix3d D = springD(e.axis, e.kn, e.ks);
      K << D, -D, -D, D;
      break;
    }
    case ANY: K = e.K; C = e.C; M = e.M; F = e.F; break;
    case INTER: {
      V3 nrm = (X(1) - X(0)).cross(X(2) - X(0));
      double area = nrm.norm() / 2;
      Eigen::Matrix3d D = springD(nrm, e.kn, e.ks);
      for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
        double mij = area / 12 * (i % 3 == j % 3 ? 2 : 1) * ((i < 3) == (j < 3) ? 1 : -1);
        K.block(3 * i, 3 * j, 3, 3) = mij * D;
      }
      break;
    }
  }
}

// ------------------------------------------------------------------ reference system
struct Ref {
  std::vector<DofId> dofs;           // used degrees of freedom
  std::map<DofId, int> id;
  MX K, C, M;                        // complete matrices
  VX F;                              // element loads
  VX P;                              // nodal loads
  std::vector<int> freeD, fixD;
  VX Ufix;
  VX U, R, lambda;                   // R: external force (loads on free, reaction on prescribed dofs)
  MX A; VX b;                        // constraints over all dofs
  double cond = 0;

  explicit Ref(const Model& m) {
    for (auto& e : m.el) for (int n : e.n) for (auto t : dofsOf(e.kind)) id[DofId(n, t)] = 0;
    for (auto& p : id) { p.second = (int) dofs.size(); dofs.push_back(p.first); }
    int N = (int) dofs.size();
    K = MX::Zero(N, N); C = MX::Zero(N, N); M = MX::Zero(N, N); F = VX::Zero(N); P = VX::Zero(N);
    for (auto& e : m.el) {
      MX k, c, ms; VX f; elMat(m, e, k, c, ms, f);
      auto t = dofsOf(e.kind); int nd = (int) t.size();
      std::vector<int> g;
      for (int n : e.n) for (auto d : t) g.push_back(id[DofId(n, d)]);
      for (size_t i = 0; i < g.size(); i++) {
        F[g[i]] += f[i];
        for (size_t j = 0; j < g.size(); j++) { K(g[i], g[j]) += k(i, j); C(g[i], g[j]) += c(i, j); M(g[i], g[j]) += ms(i, j); }
      }
    }
    setBC(m);
  }
  void setBC(const Model& m) {
    int N = (int) dofs.size();
    std::vector<char> isFix(N, 0);
    U = VX::Zero(N);
    for (auto& f : m.fix) { int i = id.at(f.first); isFix[i] = 1; U[i] = f.second; }
    freeD.clear(); fixD.clear();
    for (int i = 0; i < N; i++) (isFix[i] ? fixD : freeD).push_back(i);
    P.setZero();
    for (auto& l : m.load) P[id.at(l.d)] += l.v;
    A = MX::Zero(m.mpc.size(), N); b = VX::Zero(m.mpc.size());
    for (size_t i = 0; i < m.mpc.size(); i++) {
      b[i] = m.mpc[i].b;
      for (auto& t : m.mpc[i].terms) A(i, id.at(t.d)) += t.coef;
    }
  }
  // matrix of the eliminated saddle system
  MX saddle() const {
    int n = (int) freeD.size(), q = (int) A.rows();
    MX S = MX::Zero(n + q, n + q);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) = K(freeD[i], freeD[j]);
    for (int i = 0; i < q; i++) for (int j = 0; j < n; j++) S(n + i, j) = S(j, n + i) = A(i, freeD[j]);
    return S;
  }
  // condition number of the symmetric system after diagonal equilibration
  static double condOf(MX S) {
    if (S.rows() == 0) return 1;
    for (int it = 0; it < 3; it++) {
      VX d(S.rows());
      for (int i = 0; i < S.rows(); i++) { double mx = S.row(i).cwiseAbs().maxCoeff(); d[i] = mx > 0 ? 1 / std::sqrt(mx) : 0; }
      S = d.asDiagonal() * S * d.asDiagonal();
    }
    Eigen::SelfAdjointEigenSolver<MX> es(S, Eigen::EigenvaluesOnly);
    VX a = es.eigenvalues().cwiseAbs();
    return a.minCoeff() > 0 ? a.maxCoeff() / a.minCoeff() : 1e300;
  }
  void solve() {
    int n = (int) freeD.size(), q = (int) A.rows();
    MX S = saddle();
    cond = condOf(S);
    VX rhs(n + q);
    for (int i = 0; i < n; i++) {
      double v = F[freeD[i]] + P[freeD[i]];
      for (int j : fixD) v -= K(freeD[i], j) * U[j];
      rhs[i] = v;
    }
    for (int i = 0; i < q; i++) {
      double v = b[i];
      for (int j : fixD) v -= A(i, j) * U[j];
      rhs[n + i] = v;
    }
    // equilibrated LU with one step of iterative refinement
    VX d(n + q);
    for (int i = 0; i < n + q; i++) { double mx = S.row(i).cwiseAbs().maxCoeff(); d[i] = mx > 0 ? 1 / std::sqrt(mx) : 1; }
    MX Se = d.asDiagonal() * S * d.asDiagonal();
    Eigen::PartialPivLU<MX> lu(Se);
    VX x = d.asDiagonal() * lu.solve((d.asDiagonal() * rhs).eval());
    VX res = rhs - S * x;
    x += d.asDiagonal() * lu.solve((d.asDiagonal() * res).eval());
    for (int i = 0; i < n; i++) U[freeD[i]] = x[i];
    lambda = x.tail(q);
    VX full = K * U + A.transpose() * lambda - F;
    R = P;
    for (int j : fixD) R[j] = full[j];
  }
};

// ------------------------------------------------------------------ driving the library
// an element written by a user of the library
struct AnyElement : ElementLINE {
  math::MatSym<6> K, C, M; math::Vec<6> F;
  void pre() { for (uint16 i = 0; i < 2; i++) storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY, Dof::UZ}); }
  void buildK() { assembleK(K, F, {Dof::UX, Dof::UY, Dof::UZ}); }
  void buildC() { assembleC(C, {Dof::UX, Dof::UY, Dof::UZ}); }
  void buildM() { assembleM(M, {Dof::UX, Dof::UY, Dof::UZ}); }
  void update() {}
};
inline uint32 nodeNo(int n) { return (uint32) n + 1; }

inline void setEl(FEStorage& st, uint32 no, const El& e) {
  Element& b = st.getElement(no);
  for (size_t i = 0; i < e.n.size(); i++) b.getNodeNumber(i) = nodeNo(e.n[i]);
  switch (e.kind) {
    case TRUSS: { auto& t = st.getElement<ElementTRUSS3>(no); t.E = e.E; t.A = e.A; break; }
    case TET: {
      auto& t = st.getElement<ElementTETRA0>(no); t.E = e.E; t.my = e.nu; t.alpha = e.alpha; t.T = e.T;
      for (size_t i = 0; i < e.eps0.size(); i++) t.strains[i] = e.eps0[i];
      break;
    }
    case TETH: { auto& t = st.getElement<ElementTETRA1>(no); t.k = e.k; break; }
    case TRI: {
      auto& t = st.getElement<ElementTRIANGLE4>(no); t.E = e.E; t.my = e.nu;
      t.state = e.planeStrain ? PlaneState::Strain : PlaneState::Stress;
      break;
    }
    case KQUAD: {
      auto& t = st.getElement<ElementQUADTH>(no); t.k = e.k; t.rho = e.rho; t.c = e.c; t.volFlux = e.vol;
      t.setIntegrationOrder(e.order);
      break;
    }
    case KLINE: {
      auto& t = st.getElement<SurfaceLINETH>(no); t.flux = e.flux; t.htc = e.htc;
      t.etemp[0] = e.et[0]; t.etemp[1] = e.et[1]; t.setIntegrationOrder(e.order);
      break;
    }
    case SPRING: {
      auto& t = st.getElement<ElementINTER0>(no); t.kn = e.kn; t.ks = e.ks;
      for (int i = 0; i < 3; i++) t.n[i] = e.axis[i];
      break;
    }
    case INTER: { auto& t = st.getElement<ElementINTER3>(no); t.kn = e.kn; t.ks = e.ks; break; }
    case ANY: {
      auto& t = st.getElement<AnyElement>(no);
      for (int i = 0; i < 6; i++) { t.F[i] = e.F[i]; for (int j = i; j < 6; j++) { t.K.comp(i, j) = e.K(i, j); t.C.comp(i, j) = e.C(i, j); t.M.comp(i, j) = e.M(i, j); } }
      break;
    }
  }
}
inline ElementType libType(Kind k) {
  switch (k) {
    case TRUSS: return ElementType::TRUSS3;
    case TET: return ElementType::TETRA0;
    case TETH: return ElementType::TETRA1;
    case TRI: return ElementType::TRIANGLE4;
    case KQUAD: return ElementType::QUADTH;
    case KLINE: return ElementType::SurfaceLINETH;
    case SPRING: return ElementType::INTER0;
    default: return ElementType::INTER3;
  }
}
inline Element* newEl(Kind k) {
  switch (k) {
    case TRUSS: return new ElementTRUSS3;
    case TET: return new ElementTETRA0;
    case TETH: return new ElementTETRA1;
    case TRI: return new ElementTRIANGLE4;
    case KQUAD: return new ElementQUADTH;
    case KLINE: return new SurfaceLINETH;
    case SPRING: return new ElementINTER0;
    case ANY: return new AnyElement;
    default: return new ElementINTER3;
  }
}
// mesh into the storage; element i of the model is element i+1 of the storage
inline void buildMesh(const Model& m, FEStorage& st, int how = 0) {
  if (how == 0 || m.x.size() < 2) {
    st.createNodes(m.x.size());
  } else {   // in portions and one by one
    st.createNodes(m.x.size() / 2);
    while (st.nNodes() < m.x.size()) st.addNode(new Node);
  }
  for (size_t i = 0; i < m.x.size(); i++) for (int j = 0; j < 3; j++) st.getNode(nodeNo(i)).pos[j] = m.x[i][j];
  for (size_t i = 0; i < m.el.size();) {
    size_t j = i;
    while (j < m.el.size() && m.el[j].kind == m.el[i].kind) j++;
    if (how == 1 || m.el[i].kind == ANY) for (size_t k = i; k < j; k++) st.addElement(newEl(m.el[k].kind));
    else st.createElements((uint32)(j - i), libType(m.el[i].kind));
    for (; i < j; i++) setEl(st, (uint32) i + 1, m.el[i]);
  }
  for (auto& q : m.mpc) {
    Mpc* p = new Mpc;
    for (auto& t : q.terms) p->eq.push_back(MpcTerm(nodeNo(t.d.first), t.d.second, t.coef));
    p->b = q.b;
    st.addMpc(p);
  }
}
inline void buildBC(const Model& m, FESolver& s) {
  for (auto& f : m.fix) s.addFix(nodeNo(f.first.first), f.first.second, f.second);
  for (auto& l : m.load) s.addLoad(nodeNo(l.d.first), l.d.second, l.v);
}

struct Run {   // one solved library model
  FEStorage st;
  LinearFESolver solver;
  std::unique_ptr<math::EquationSolver> eq;
  explicit Run(const Model& m, int eqKind = 0, int how = 0) {
    buildMesh(m, st, how);
    solver.attachFEStorage(&st);
    buildBC(m, solver);
    if (eqKind == 1) eq.reset(new math::GaussDenseEquationSolver);
#ifdef NLA3D_USE_MKL
    if (eqKind == 2) eq.reset(new math::PARDISO_equationSolver);
#endif
    if (eq) solver.attachEquationSolver(eq.get());
    solver.solve();
  }
  double u(const DofId& d) { return st.getNodeDofSolution(nodeNo(d.first), d.second); }
  double r(const DofId& d) { return st.getReaction(nodeNo(d.first), d.second); }
  VX U(const Ref& f) { VX v(f.dofs.size()); for (size_t i = 0; i < f.dofs.size(); i++) v[i] = u(f.dofs[i]); return v; }
  VX R(const Ref& f) { VX v(f.dofs.size()); for (size_t i = 0; i < f.dofs.size(); i++) v[i] = r(f.dofs[i]); return v; }
};
inline int eqKinds(Gen& g) {
#ifdef NLA3D_USE_MKL
  return (int) g.integer(0, 2);
#else
  return (int) g.integer(0, 1);
#endif
}

inline std::string dofStr(const DofId& d) {
  return std::string(Dof::dofType2label(d.second)) + " of node " + std::to_string(d.first + 1);
}

// natural size of the terms of every equation: sum |K_ij||U_j| + |F_i| + |P_i|
inline VX rowScale(const Ref& f, const VX& U) {
  return f.K.cwiseAbs() * U.cwiseAbs() + f.F.cwiseAbs() + f.P.cwiseAbs();
}

inline bool has(const Model& m, Kind k) { for (auto& e : m.el) if (e.kind == k) return true; return false; }

// tolerance of the quadrature constants of INTER3 (10 digits)
inline double quadTol(const Model& m) { return has(m, INTER) ? 2e-9 : 0.0; }

// ------------------------------------------------------------------ generators
inline Eigen::Matrix3d randRot(Gen& g) {
  V3 a(g.sreal(1), g.sreal(1), g.sreal(1) + 1.2);
  double w = g.real(0, 6.2);
  return Eigen::AngleAxisd(w, a.normalized()).toRotationMatrix();
}
inline double modulus(Gen& g) { return g.weighted({3, 1}) == 0 ? g.real(0.5, 50) : g.logreal(0, 3); }
inline double poisson(Gen& g) { return g.weighted({4, 1, 1}) == 0 ? g.real(0.0, 0.45) : g.oneOf({0.0, 0.3, 0.49}); }

// jittered grid of tetrahedra; nodes appended to m, returns their indices per element kind
inline void addTets(Gen& g, Model& m, Kind kind, int maxCells = 3, const V3& origin = V3(0, 0, 0)) {
  int nx = 1, ny = 1, nz = 1;
  int cells = (int) g.integer(1, maxCells);
  for (int c = 1; c < cells; c++) { int a = (int) g.integer(0, 2); if (a == 0) nx++; else if (a == 1) ny++; else nz++; }
  if (nx * ny * nz > maxCells) { nx = std::min(nx, 2); ny = std::min(ny, 2); nz = 1; }
  int base = (int) m.x.size();
  Eigen::Matrix3d Rm = g.boolean() ? randRot(g) : Eigen::Matrix3d(Eigen::Matrix3d::Identity());
  V3 h(g.real(0.5, 1.5), g.real(0.5, 1.5), g.real(0.5, 1.5));
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    V3 p(i + g.sreal(0.12), j + g.sreal(0.12), k + g.sreal(0.12));
    m.x.push_back(origin + Rm * p.cwiseProduct(h));
  }
  auto id = [&](int i, int j, int k) { return base + i + (nx + 1) * (j + (ny + 1) * k); };
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  El proto; proto.kind = kind;
  proto.E = modulus(g); proto.nu = poisson(g); proto.k = modulus(g);
  bool vary = g.boolean();
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++)
    for (int p = 0; p < 6; p++) {
      El e = proto;
      int c[3] = {i, j, k};
      e.n.push_back(id(c[0], c[1], c[2]));
      for (int s = 0; s < 3; s++) { c[P[p][s]]++; e.n.push_back(id(c[0], c[1], c[2])); }
      double v; tetGrad(m.x[e.n[0]], m.x[e.n[1]], m.x[e.n[2]], m.x[e.n[3]], v);
      if (v < 0) std::swap(e.n[2], e.n[3]);
      // an even permutation of the corners is the same tetrahedron
      static const int ev[12][4] = {{0,1,2,3},{0,2,3,1},{0,3,1,2},{1,0,3,2},{1,2,0,3},{1,3,2,0},{2,0,1,3},{2,1,3,0},{2,3,0,1},{3,0,2,1},{3,1,0,2},{3,2,1,0}};
      const int* q = ev[g.integer(0, 11)];
      std::vector<int> nn; for (int s = 0; s < 4; s++) nn.push_back(e.n[q[s]]);
      e.n = nn;
      if (vary) { e.E = modulus(g); e.nu = poisson(g); e.k = modulus(g); }
      m.el.push_back(e);
    }
}
// jittered grid of quads (convex) in the plane, optionally cut into triangles
inline void addPlane(Gen& g, Model& m, Kind kind, int maxCells = 4, const V3& origin = V3(0, 0, 0)) {
  int nx = (int) g.integer(1, std::max(1, maxCells / 2)), ny = (int) g.integer(1, std::max(1, maxCells / nx));
  int base = (int) m.x.size();
  double hx = g.real(0.5, 1.5), hy = g.real(0.5, 1.5), w = g.boolean() ? g.real(0, 6.2) : 0;
  double z = g.chance(1, 4) ? g.sreal(2) : 0;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    double px = (i + g.sreal(0.2)) * hx, py = (j + g.sreal(0.2)) * hy;
    m.x.push_back(origin + V3(std::cos(w) * px - std::sin(w) * py, std::sin(w) * px + std::cos(w) * py, z));
  }
  auto id = [&](int i, int j) { return base + i + (nx + 1) * j; };
  El proto; proto.kind = kind;
  proto.E = modulus(g); proto.nu = poisson(g); proto.k = modulus(g); proto.rho = g.real(0.5, 3); proto.c = g.real(0.5, 3);
  proto.planeStrain = g.boolean();
  proto.order = g.chance(1, 4) ? 3 : 2;
  bool vary = g.boolean();
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int q[4] = {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
    int s = (int) g.integer(0, 3);
    int c[4]; for (int a = 0; a < 4; a++) c[a] = q[(a + s) % 4];
    auto put = [&](std::vector<int> n) {
      El e = proto; e.n = n;
      if (vary) { e.E = modulus(g); e.nu = poisson(g); e.k = modulus(g); e.rho = g.real(0.5, 3); e.c = g.real(0.5, 3);
                  if (kind == TRI) e.planeStrain = g.boolean(); }
      m.el.push_back(e);
    };
    if (kind == KQUAD) put({c[0], c[1], c[2], c[3]});
    else {
      int r = (int) g.integer(0, 2);
      std::vector<int> t1 = {c[0], c[1], c[2]}, t2 = {c[0], c[2], c[3]};
      std::rotate(t1.begin(), t1.begin() + r, t1.end());
      put(t1); put(t2);
    }
  }
}
// space truss on new nodes: every node after the first three hangs on at least three others
inline void addTruss(Gen& g, Model& m, int maxNodes = 7) {
  int base = (int) m.x.size();
  int n = (int) g.integer(2, maxNodes);
  for (int i = 0; i < n; i++) m.x.push_back(V3(g.sreal(3), g.sreal(3), g.sreal(3)) + V3(0.7 * i, 0.4 * (i % 3), 0.5 * (i % 4)));
  auto bar = [&](int a, int b) {
    if ((m.x[a] - m.x[b]).norm() < 0.2) return;
    El e; e.kind = TRUSS; e.n = {a, b}; e.E = modulus(g); e.A = g.real(0.1, 3);
    m.el.push_back(e);
  };
  size_t before = m.el.size();
  for (int i = 1; i < n; i++) {
    std::vector<int> to = g.sample(i, (int) g.integer(1, std::min(i, 4)));
    for (int t : to) { if (g.boolean()) bar(base + i, base + t); else bar(base + t, base + i); }
  }
  if (m.el.size() == before) { m.x[base + 1] = m.x[base] + V3(1, 0.5, 0.25); bar(base, base + 1); }
}
inline std::vector<int> mechNodes(const Model& m) {   // nodes with UX UY UZ in use
  std::set<int> s;
  for (auto& e : m.el) if (e.kind == TRUSS || e.kind == TET || e.kind == SPRING || e.kind == INTER || e.kind == ANY) s.insert(e.n.begin(), e.n.end());
  return std::vector<int>(s.begin(), s.end());
}
inline void addSprings(Gen& g, Model& m) {
  std::vector<int> nd = mechNodes(m);
  if (nd.size() < 2) return;
  int k = (int) g.integer(1, 3);
  for (int i = 0; i < k; i++) {
    El e; e.kind = SPRING;
    std::vector<int> s = g.sample((int) nd.size(), 2);
    e.n = {nd[s[0]], nd[s[1]]};
    if (g.chance(1, 2)) { m.x.push_back(m.x[e.n[0]]); e.n[1] = (int) m.x.size() - 1; }  // coincident new node
    e.kn = modulus(g); e.ks = modulus(g);
    switch (g.integer(0, 3)) {
      case 0: e.axis = V3(g.oneOf({0.0, 0.0, 1.0}), g.oneOf({0.0, 1.0, -1.0}), g.oneOf({0.0, 1.0})); break;
      case 1: e.axis = V3(0, 1, 1) * g.oneOf({1.0, -1.0, 0.5, 2.0}); break;
      default: e.axis = V3(g.sreal(2), g.sreal(2), g.sreal(2));
    }
    if (e.axis.norm() < 0.1) e.axis = V3(0, 0, 1);
    m.el.push_back(e);
  }
}
inline void addInter(Gen& g, Model& m) {
  std::vector<int> nd = mechNodes(m);
  if (nd.size() < 3) return;
  int k = (int) g.integer(1, 2);
  for (int i = 0; i < k; i++) {
    El e; e.kind = INTER;
    std::vector<int> s = g.sample((int) nd.size(), 3);
    V3 a = m.x[nd[s[0]]], b = m.x[nd[s[1]]], c = m.x[nd[s[2]]];
    V3 u = b - a, v = c - a;
    if (u.cross(v).norm() < 0.1 * u.norm() * v.norm() || u.norm() < 0.1 || v.norm() < 0.1) continue;
    V3 off = g.boolean() ? V3(0, 0, 0) : V3(g.sreal(0.3), g.sreal(0.3), g.sreal(0.3));
    e.n = {nd[s[0]], nd[s[1]], nd[s[2]]};
    for (int j = 0; j < 3; j++) { m.x.push_back(m.x[e.n[j]] + off); e.n.push_back((int) m.x.size() - 1); }
    e.kn = modulus(g); e.ks = modulus(g);
    m.el.push_back(e);
  }
}
// edges on the boundary of the quads, in any direction
inline void addLines(Gen& g, Model& m) {
  std::map<std::pair<int, int>, int> cnt;
  for (auto& e : m.el) if (e.kind == KQUAD) for (int i = 0; i < 4; i++) {
    int a = e.n[i], b = e.n[(i + 1) % 4]; cnt[{std::min(a, b), std::max(a, b)}]++;
  }
  std::vector<std::pair<int, int>> ed;
  for (auto& p : cnt) if (p.second == 1) ed.push_back(p.first);
  if (ed.empty()) return;
  int k = (int) g.integer(1, std::min<int>(5, (int) ed.size()));
  for (int s : g.sample((int) ed.size(), k)) {
    El e; e.kind = KLINE;
    e.n = {ed[s].first, ed[s].second};
    if (g.boolean()) std::swap(e.n[0], e.n[1]);
    if (g.chance(2, 3)) e.flux = g.sreal(5);
    if (g.chance(2, 3)) e.htc = g.real(0, 5);
    switch (g.integer(0, 3)) {
      case 0: e.et[0] = g.sreal(30); break;                         // only one ambient temperature given
      case 1: e.et[1] = g.sreal(30); break;
      default: e.et[0] = g.sreal(30); e.et[1] = g.sreal(30);
    }
    e.order = g.weighted({1, 3, 1}) + 1;
    m.el.push_back(e);
  }
}
// random numbering of nodes and order of elements
inline Model renumber(const Model& m, const std::vector<int>& np /* new place of node i */, const std::vector<int>& eo /* element order */) {
  Model r = m;
  for (size_t i = 0; i < m.x.size(); i++) r.x[np[i]] = m.x[i];
  for (size_t i = 0; i < m.el.size(); i++) r.el[i] = m.el[eo[i]];
  for (auto& e : r.el) for (auto& n : e.n) n = np[n];
  for (auto& f : r.fix) f.first.first = np[f.first.first];
  for (auto& l : r.load) l.d.first = np[l.d.first];
  for (auto& q : r.mpc) for (auto& t : q.terms) t.d.first = np[t.d.first];
  return r;
}

enum { MECH = 1, THERM = 2 };
// any mix of the linear elements, nodes and elements shuffled
inline Model genMesh(Gen& g, int physics = MECH | THERM) {
  Model m;
  int what;
  if (physics == MECH) what = (int) g.integer(0, 3);
  else if (physics == THERM) what = (int) g.integer(4, 6);
  else what = (int) g.integer(0, 8);
  V3 far(10, 10, 0);
  switch (what) {
    case 0: addTruss(g, m); break;
    case 1: addTets(g, m, TET); break;
    case 2: addPlane(g, m, TRI); break;
    case 3: addTets(g, m, TET, 2); addTruss(g, m, 4); if (g.boolean()) addPlane(g, m, TRI, 2, far); break;
    case 4: addTets(g, m, TETH); break;
    case 5: addPlane(g, m, KQUAD); break;
    case 6: addPlane(g, m, KQUAD, 2); addTets(g, m, TETH, 2, far); break;
    case 7: {   // mechanics and heat on the same nodes
      addTets(g, m, TET, 2);
      size_t n = m.el.size();
      for (size_t i = 0; i < n; i++) { El e = m.el[i]; e.kind = TETH; m.el.push_back(e); }
      break;
    }
    default: {
      addPlane(g, m, TRI, 2);
      addPlane(g, m, KQUAD, 2, far);
      El e; e.kind = TRUSS; e.n = {0, (int) m.x.size() - 1}; e.E = modulus(g); m.el.push_back(e);
    }
  }
  if (physics & MECH) {
    if (g.chance(1, 3)) addSprings(g, m);
    if (g.chance(1, 3)) addInter(g, m);
  }
  if (physics & THERM) if (has(m, KQUAD) && g.chance(1, 2)) addLines(g, m);
  for (auto& e : m.el) {
    if (e.kind == TET && g.chance(1, 6)) { e.alpha = g.real(0, 0.01); e.T = g.sreal(50); }
    if (e.kind == TET && g.chance(1, 8)) for (int i = 0; i < 6; i++) e.eps0.push_back(g.sreal(0.02));
    if (e.kind == KQUAD && g.chance(1, 3)) e.vol = g.sreal(10);
  }
  if (g.chance(1, 6)) m.x.push_back(V3(g.sreal(5), g.sreal(5), g.sreal(5)));   // a node no element uses
  m = renumber(m, g.boolean() ? g.perm((int) m.x.size()) : [&] { std::vector<int> p(m.x.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int) i; return p; }(),
               g.boolean() ? g.perm((int) m.el.size()) : [&] { std::vector<int> p(m.el.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int) i; return p; }());
  return m;
}

inline double value(Gen& g, Dof::dofType t) {
  if (g.chance(1, 4)) return 0.0;
  return t == Dof::TEMP ? g.sreal(100) : g.sreal(0.5);
}

// prescribes values until the model is well posed (plus some more), adds loads.  The reference is returned.
inline Ref genBC(Gen& g, Model& m, double maxCond = 1e6) {
  Ref f(m);
  int N = (int) f.dofs.size();
  std::set<int> fixed;
  int extra = (int) g.integer(0, 6);
  for (int i = 0; i < extra; i++) fixed.insert((int) g.draw(N - 1));
  // drop until something stays free
  for (;;) {
    std::vector<int> fr;
    for (int i = 0; i < N; i++) if (!fixed.count(i)) fr.push_back(i);
    if (fr.empty()) { fixed.erase(fixed.begin()); break; }
    MX S(fr.size(), fr.size());
    for (size_t i = 0; i < fr.size(); i++) for (size_t j = 0; j < fr.size(); j++) S(i, j) = f.K(fr[i], fr[j]);
    VX d(fr.size()); for (size_t i = 0; i < fr.size(); i++) d[i] = S(i, i) > 0 ? 1 / std::sqrt(S(i, i)) : 0;
    MX Se = d.asDiagonal() * S * d.asDiagonal();
    Eigen::SelfAdjointEigenSolver<MX> es(Se);
    // prescribe one degree of freedom per nearly singular mode
    int added = 0;
    std::set<int> now;
    for (int k = 0; k < (int) fr.size(); k++) {
      if (es.eigenvalues()[k] > es.eigenvalues().maxCoeff() / maxCond) break;
      VX v = es.eigenvectors().col(k).cwiseAbs();
      for (size_t i = 0; i < fr.size(); i++) if (now.count(fr[i])) v[i] = 0;
      int q; v.maxCoeff(&q);
      now.insert(fr[q]); added++;
    }
    if (!added) break;
    if (now.size() >= fr.size()) { throw pbt::Discard{"nothing left to solve for"}; }
    fixed.insert(now.begin(), now.end());
    if (fixed.size() >= (size_t) N) throw pbt::Discard{"nothing left to solve for"};
  }
  std::vector<int> fx(fixed.begin(), fixed.end());
  if (g.boolean()) { std::vector<int> p = g.perm((int) fx.size()), q; for (int i : p) q.push_back(fx[i]); fx = q; }
  bool zero = g.chance(1, 3);
  for (int i : fx) m.fix.push_back({f.dofs[i], zero ? 0.0 : value(g, f.dofs[i].second)});
  int nl = (int) g.integer(0, 6);
  for (int i = 0; i < nl; i++) {
    int d = (int) g.draw(N - 1);
    m.load.push_back({f.dofs[d], g.sreal(f.dofs[d].second == Dof::TEMP ? 50 : 5)});
    if (g.chance(1, 3)) m.load.push_back({f.dofs[d], g.sreal(5)});   // once more on the same degree of freedom
  }
  f.setBC(m);
  return f;
}

// linear multi-point equations, linearly independent on the free degrees of freedom
inline void genMpc(Gen& g, Model& m, Ref& f, int maxEq = 4, bool allowRepeat = true) {
  int want = (int) g.integer(1, maxEq);
  for (int q = 0; q < want; q++) {
    MpcEq e;
    int nt = (int) g.integer(1, 4);
    // physics of one kind per equation keeps the system well scaled, mixed now and then
    std::vector<int> cand;
    bool th = f.dofs[f.freeD[g.draw(f.freeD.size() - 1)]].second == Dof::TEMP;
    for (int i : f.freeD) if ((f.dofs[i].second == Dof::TEMP) == th) cand.push_back(i);
    for (int s : g.sample((int) cand.size(), nt)) e.terms.push_back({f.dofs[cand[s]], g.boolean() ? g.oneOf({1.0, -1.0}) : g.real(0.3, 2) * g.oneOf({1.0, -1.0})});
    if (f.fixD.size() && g.chance(1, 3)) e.terms.push_back({f.dofs[f.fixD[g.draw(f.fixD.size() - 1)]], g.sreal(2)});
    if (allowRepeat && g.chance(1, 4)) e.terms.push_back({e.terms[0].d, g.real(0.3, 2) * (e.terms[0].coef > 0 ? 1 : -1)});
    if (g.chance(1, 3)) { std::vector<int> p = g.perm((int) e.terms.size()); std::vector<Term> t; for (int i : p) t.push_back(e.terms[i]); e.terms = t; }
    if (g.chance(1, 2)) e.b = g.sreal(th ? 20 : 0.3);
    m.mpc.push_back(e);
    f.setBC(m);
    MX Af(f.A.rows(), f.freeD.size());
    for (size_t j = 0; j < f.freeD.size(); j++) Af.col(j) = f.A.col(f.freeD[j]);
    for (int i = 0; i < Af.rows(); i++) { double nn = Af.row(i).norm(); if (nn > 0) Af.row(i) /= nn; }
    Eigen::JacobiSVD<MX> sv(Af);
    if (Af.rows() >= Af.cols() || sv.singularValues().minCoeff() < 0.05) { m.mpc.pop_back(); f.setBC(m); }
  }
}

inline void describe(Gen& g, const Model& m) {
  std::map<std::string, int> c;
  for (auto& e : m.el) c[kindName(e.kind)]++;
  g.note << m.x.size() << " nodes;";
  for (auto& p : c) { g.note << " " << p.second << " " << p.first; g.label(p.first); }
  g.note << "; " << m.fix.size() << " prescribed, " << m.load.size() << " loads, " << m.mpc.size() << " MPC";
}
// results of one element, grouped by unit: [0] stresses or fluxes, [1] strains or gradients, [2] geometry
struct Res { std::vector<double> v[3]; };
inline Res results(FEStorage& st, uint32 no, Kind k) {
  Res r;
  auto add = [](std::vector<double>& d, const double* p, int n) { d.insert(d.end(), p, p + n); };
  switch (k) {
    case TRUSS: r.v[0].push_back(st.getElement<ElementTRUSS3>(no).S); break;
    case TRI: { auto& t = st.getElement<ElementTRIANGLE4>(no); add(r.v[0], t.stress.ptr(), 3); add(r.v[1], t.strains.ptr(), 3); break; }
    case TET: {
      math::MatSym<3> s, e; s.zero(); e.zero(); double v = 0;
      Element& b = st.getElement(no);
      EXPECT(b.getTensor(&s, tensorQuery::E) && b.getTensor(&e, tensorQuery::C) && b.getScalar(&v, scalarQuery::VOL), "TETRA0 refuses its own results");
      for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { r.v[0].push_back(s.comp(i, j)); r.v[1].push_back(e.comp(i, j)); }
      r.v[2].push_back(v);
      break;
    }
    case TETH: {
      math::Vec<3> f, q; f.zero(); q.zero();
      Element& b = st.getElement(no);
      EXPECT(b.getVector(&f, vectorQuery::FLUX) && b.getVector(&q, vectorQuery::GRADT), "TETRA1 refuses its own results");
      add(r.v[0], f.ptr(), 3); add(r.v[1], q.ptr(), 3);
      break;
    }
    case INTER: case SPRING: {
      math::MatSym<3> e; e.zero();
      EXPECT(st.getElement(no).getTensor(&e, tensorQuery::C), "interface element refuses its own results");
      for (int i = 0; i < 3; i++) r.v[1].push_back(e.comp(i, i));
      if (k == INTER) { math::MatSym<3> s; s.zero(); EXPECT(st.getElement(no).getTensor(&s, tensorQuery::E), "INTER3 refuses its stress"); for (int i = 0; i < 3; i++) r.v[0].push_back(s.comp(i, i)); }
      break;
    }
    default: break;
  }
  return r;
}
// biggest coefficient that turns nodal values into results [0] and [1] of the element
inline void resultScale(const Model& m, const El& e, double& s0, double& s1) {
  double h = 1e300;
  for (size_t i = 0; i < e.n.size(); i++) for (size_t j = i + 1; j < e.n.size(); j++) { double d = (m.x[e.n[i]] - m.x[e.n[j]]).norm(); if (d > 1e-9) h = std::min(h, d); }
  s1 = 1 / h;
  if (e.kind == TET || e.kind == TETH) { double v; tetGrad(m.x[e.n[0]], m.x[e.n[1]], m.x[e.n[2]], m.x[e.n[3]], v); double a = 0; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) a = std::max(a, (m.x[e.n[i]] - m.x[e.n[j]]).squaredNorm()); s1 = a / (6 * v); }
  if (e.kind == TRI) { double a; triB(m.x[e.n[0]], m.x[e.n[1]], m.x[e.n[2]], a); double l = 0; for (int i = 0; i < 3; i++) l = std::max(l, (m.x[e.n[i]] - m.x[e.n[(i + 1) % 3]]).norm()); s1 = l / (2 * a); }
  if (e.kind == INTER) { V3 nn = (m.x[e.n[1]] - m.x[e.n[0]]).cross(m.x[e.n[2]] - m.x[e.n[0]]); s1 = 1 + nn.norm(); s0 = s1 * (e.kn + e.ks); return; }
  if (e.kind == SPRING) { s1 = 1; s0 = e.kn + e.ks; return; }
  s0 = s1 * (e.kind == TETH || e.kind == KQUAD ? e.k : e.kind == TET ? hooke3(e.E, e.nu).cwiseAbs().maxCoeff() : e.kind == TRI ? hooke2(e.E, e.nu, e.planeStrain).cwiseAbs().maxCoeff() : e.E);
}
// forces are compared in the scale of the terms they are sums of, per physics
inline void fieldMax(const Ref& f, const VX& v, double s[2]) {
  s[0] = s[1] = 0;
  for (size_t i = 0; i < f.dofs.size(); i++) { double& q = s[f.dofs[i].second == Dof::TEMP]; q = std::max(q, std::fabs(v[i])); }
}
// complete matrix of the global system in the order of Ref::dofs (constraint rows are left out)
inline MX denseOf(math::BlockSparseSymMatrix<2>* B, FEStorage& st, const std::vector<DofId>& dofs) {
  uint32 nc = st.nConstrainedDofs();
  int N = (int) dofs.size();
  MX K(N, N);
  std::vector<uint32> eq; for (auto& d : dofs) eq.push_back(st.getNodeDofEqNumber(nodeNo(d.first), d.second));
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    uint32 a = std::min(eq[i], eq[j]), b = std::max(eq[i], eq[j]);
    K(i, j) = b <= nc ? B->block(1)->value(a, b) : a <= nc ? B->block(1, 2)->value(a, b - nc) : B->block(2)->value(a - nc, b - nc);
  }
  return K;
}
struct Assembled {   // matrices of a model without solving it
  FEStorage st;
  MX K, C, M; VX F;
  Assembled(const Model& m, const Ref& f, bool transient, int how = 0) {
    buildMesh(m, st, how);
    st.setTransient(transient);
    st.initDofs();
    for (auto& b : m.fix) st.setConstrainedNodeDof(nodeNo(b.first.first), b.first.second);
    st.assignEquationNumbers();
    st.initSolutionData();
    st.assembleGlobalEqMatrices();
    K = denseOf(st.getK(), st, f.dofs);
    if (transient) { C = denseOf(st.getC(), st, f.dofs); M = denseOf(st.getM(), st, f.dofs); }
    F = VX(f.dofs.size());
    for (size_t i = 0; i < f.dofs.size(); i++) F[i] = (*st.getF())[st.getNodeDofEqNumber(nodeNo(f.dofs[i].first), f.dofs[i].second) - 1];
  }
};
}  // namespace fe
