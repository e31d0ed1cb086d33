// Independent reference of the hyperelastic mixed (displacement - pressure) formulation.
//
// Energy of a body:  Pi = sum_e int [ Wbar(I1 J^-2/3, I2 J^-4/3) + p (J - 1) - p^2 / (2k) ] dV
// Every derivative comes from forward-mode second-order automatic differentiation of that one formula.
#pragma once
#include "fe.h"

namespace hyper {
using namespace nla3d;
using fe::V3; using fe::MX; using fe::VX; using fe::DofId;
typedef Eigen::Matrix3d M3;

// value, gradient and Hessian with respect to N variables
template <int N> struct D2 {
  double v; Eigen::Matrix<double, N, 1> g; Eigen::Matrix<double, N, N> h;
  D2(double x = 0) : v(x) { g.setZero(); h.setZero(); }
  static D2 var(double x, int i) { D2 d(x); d.g[i] = 1; return d; }
};
template <int N> D2<N> operator+(D2<N> a, const D2<N>& b) { a.v += b.v; a.g += b.g; a.h += b.h; return a; }
template <int N> D2<N> operator-(D2<N> a, const D2<N>& b) { a.v -= b.v; a.g -= b.g; a.h -= b.h; return a; }
template <int N> D2<N> operator*(const D2<N>& a, const D2<N>& b) {
  D2<N> r; r.v = a.v * b.v; r.g = a.v * b.g + b.v * a.g;
  r.h = a.v * b.h + b.v * a.h + a.g * b.g.transpose() + b.g * a.g.transpose();
  return r;
}
template <int N> D2<N> operator*(D2<N> a, double s) { a.v *= s; a.g *= s; a.h *= s; return a; }
template <int N> D2<N> operator+(D2<N> a, double s) { a.v += s; return a; }
template <int N> D2<N> chain(const D2<N>& a, double f, double f1, double f2) {
  D2<N> r; r.v = f; r.g = f1 * a.g; r.h = f1 * a.h + f2 * a.g * a.g.transpose(); return r;
}
template <int N> D2<N> pw(const D2<N>& a, double e) { double p = std::pow(a.v, e); return chain(a, p, e * p / a.v, e * (e - 1) * p / a.v / a.v); }
inline double pw(double a, double e) { return std::pow(a, e); }

// ------------------------------------------------------------------ materials
enum MatKind { NEO, BID, MOONEY, USER };
inline const char* matName(int k) { static const char* n[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin", "user"}; return n[k]; }
struct Law { int kind = NEO; std::vector<double> c; double K() const { return c.back(); } };
template <class T> T wbar(const Law& m, const T& I1, const T& I2) {
  T a = I1 + (-3.0), b = I2 + (-3.0);
  switch (m.kind) {
    case NEO: return a * (0.5 * m.c[0]);
    case BID: return a * m.c[0] + a * a * m.c[1] + a * a * a * m.c[2] + b * m.c[3];
    case MOONEY: return a * m.c[0] + b * m.c[1];
    default: return a * m.c[0] + b * m.c[1] + a * a * m.c[2] + a * b * m.c[3] + b * b * m.c[4];
  }
}
// a material written by a user of the library, with all second derivatives present
struct UserMat : Mat_Hyper_Isotrop_General {
  UserMat() { register_mat_const(6, "a", "b", "aa", "ab", "bb", "K"); name = "User"; }
  void W_first_derivatives(double I1, double I2, double, double* al) {
    double a = I1 - 3, b = I2 - 3;
    al[AL_1] = MC[0] + 2 * MC[2] * a + MC[3] * b; al[AL_2] = MC[1] + MC[3] * a + 2 * MC[4] * b;
  }
  void W_second_derivatives(double I1, double I2, double I3, double* al) {
    W_first_derivatives(I1, I2, I3, al);
    al[AL_11] = 2 * MC[2]; al[AL_12] = MC[3]; al[AL_22] = 2 * MC[4];
  }
  double W(double I1, double I2, double) { double a = I1 - 3, b = I2 - 3; return MC[0] * a + MC[1] * b + MC[2] * a * a + MC[3] * a * b + MC[4] * b * b; }
  double getK() { return MC[5]; }
};
inline Mat_Hyper_Isotrop_General* libMat(const Law& m) {
  Material* p = m.kind == USER ? new UserMat : MaterialFactory::createMaterial(matName(m.kind));
  EXPECT(p != nullptr, "no material " << matName(m.kind));
  EXPECT(p->getNumC() == m.c.size(), matName(m.kind) << " has " << p->getNumC() << " constants");
  for (size_t i = 0; i < m.c.size(); i++) p->Ci((uint16) i) = m.c[i];
  Mat_Hyper_Isotrop_General* h = dynamic_cast<Mat_Hyper_Isotrop_General*>(p);
  EXPECT(h != nullptr, matName(m.kind) << " is not hyperelastic");
  return h;
}
// stable: energies that grow with deformation (for solving); otherwise any constants
inline Law genMat(Gen& g, bool stable, bool user = false, double maxRatio = 1e4) {
  Law m; m.kind = (int) g.integer(0, user ? 3 : 2);
  double G = stable ? g.real(0.5, 5) : g.logreal(-2, 3);
  double K = G * (g.weighted({3, 1}) == 0 ? g.real(1, 60) : std::pow(10.0, g.real(1, std::log10(maxRatio))));
  auto co = [&](double s) { return stable ? g.real(0, s) * G : (g.chance(1, 4) ? 0.0 : g.sreal(s) * G); };
  switch (m.kind) {
    case NEO: m.c = {G}; break;
    case BID: m.c = {G / 2, co(0.2), co(0.1), co(0.3)}; break;
    case MOONEY: m.c = {G / 2, co(0.4)}; break;
    default: m.c = {G / 2, co(0.4), co(0.2), co(0.2), co(0.2)};
  }
  m.c.push_back(K);
  return m;
}
inline std::string str(const Law& m) { std::ostringstream o; o.precision(6); o << matName(m.kind) << "("; for (size_t i = 0; i < m.c.size(); i++) o << (i ? ", " : "") << m.c[i]; o << ")"; return o.str(); }

// symmetric tensors are stored XX XY XZ YY YZ ZZ
static const int TI[6] = {0, 0, 0, 1, 1, 2}, TJ[6] = {0, 1, 2, 1, 2, 2};
inline void sym6(const M3& a, double* v) { for (int k = 0; k < 6; k++) v[k] = a(TI[k], TJ[k]); }
inline M3 symM(const double* v) { M3 a; for (int k = 0; k < 6; k++) a(TI[k], TJ[k]) = a(TJ[k], TI[k]) = v[k]; return a; }

// invariants of C given by its six stored components
template <class T> void invariants(const T* c, T& I1, T& I2, T& I3) {
  const T &xx = c[0], &xy = c[1], &xz = c[2], &yy = c[3], &yz = c[4], &zz = c[5];
  I1 = xx + yy + zz;
  I2 = xx * yy + yy * zz + xx * zz - xy * xy - yz * yz - xz * xz;
  I3 = xx * (yy * zz - yz * yz) - xy * (xy * zz - yz * xz) + xz * (xy * yz - yy * xz);
}
// isochoric energy plus p (J - 1) as a function of the six components of C
inline D2<6> energyC(const Law& m, const M3& C, double p) {
  D2<6> c[6], I1, I2, I3;
  for (int k = 0; k < 6; k++) c[k] = D2<6>::var(C(TI[k], TJ[k]), k);
  invariants(c, I1, I2, I3);
  D2<6> J = pw(I3, 0.5);
  return wbar(m, I1 * pw(J, -2.0 / 3), I2 * pw(J, -4.0 / 3)) + (J + (-1.0)) * p;
}
inline D2<6> volumeC(const M3& C) {
  D2<6> c[6], I1, I2, I3;
  for (int k = 0; k < 6; k++) c[k] = D2<6>::var(C(TI[k], TJ[k]), k);
  invariants(c, I1, I2, I3);
  return pw(I3, 0.5);
}
inline M3 pk2(const Law& m, const M3& C, double p) {
  D2<6> w = energyC(m, C, p);
  double s[6];
  for (int k = 0; k < 6; k++) s[k] = w.g[k] * (TI[k] == TJ[k] ? 2 : 1);   // the stored off-diagonal stands for two entries
  return symM(s);
}
// as a function of F; J and its derivatives on the side
inline D2<9> energyF(const Law& m, const M3& F, double p, D2<9>& J) {
  D2<9> f[9];
  for (int i = 0; i < 9; i++) f[i] = D2<9>::var(F(i / 3, i % 3), i);
  D2<9> c[6], I1, I2, I3;
  for (int k = 0; k < 6; k++) for (int i = 0; i < 3; i++) c[k] = c[k] + f[3 * i + TI[k]] * f[3 * i + TJ[k]];
  I1 = c[0] + c[3] + c[5];
  I2 = c[0] * c[3] + c[3] * c[5] + c[0] * c[5] - c[1] * c[1] - c[4] * c[4] - c[2] * c[2];
  J = f[0] * (f[4] * f[8] - f[5] * f[7]) - f[1] * (f[3] * f[8] - f[5] * f[6]) + f[2] * (f[3] * f[7] - f[4] * f[6]);
  return wbar(m, I1 * pw(J, -2.0 / 3), I2 * pw(J, -4.0 / 3)) + (J + (-1.0)) * p;
}

// ------------------------------------------------------------------ model
struct Body {
  bool plane = false;
  int order = 2;
  Law mat;
  std::vector<V3> x;
  std::vector<std::vector<int>> el;
  std::vector<std::pair<DofId, double>> fix;
  std::vector<fe::Load> load;
  std::vector<fe::MpcEq> mpc;
  int nd() const { return plane ? 2 : 3; }
  int nu() const { return nd() * (int) x.size(); }
  int N() const { return nu() + (int) el.size(); }
  int at(const DofId& d) const { return nd() * d.first + (int) (d.second == Dof::UX ? 0 : d.second == Dof::UY ? 1 : 2); }
  DofId dof(int i) const { static const Dof::dofType t[3] = {Dof::UX, Dof::UY, Dof::UZ}; return DofId(i / nd(), t[i % nd()]); }
};
struct Gp { double w; MX dN; VX N; };   // weight * detJ, gradients with respect to X
inline std::vector<Gp> points(const Body& b, const std::vector<int>& n, int order) {
  static const double r8[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
  std::vector<double> r, w; fe::gauss(order, r, w);
  std::vector<Gp> out;
  int nn = (int) n.size(), d = b.plane ? 2 : 3, q = (int) r.size();
  for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) for (int k = 0; k < (d == 3 ? q : 1); k++) {
    double s[3] = {r[i], r[j], d == 3 ? r[k] : 0};
    Gp g; MX D(nn, d); g.N = VX(nn);
    for (int a = 0; a < nn; a++) {
      double f[3]; for (int c = 0; c < d; c++) f[c] = (1 + r8[a][c] * s[c]) / 2;
      g.N[a] = 1; for (int c = 0; c < d; c++) g.N[a] *= f[c];
      for (int c = 0; c < d; c++) { D(a, c) = r8[a][c] / 2; for (int e = 0; e < d; e++) if (e != c) D(a, c) *= f[e]; }
    }
    MX J = MX::Zero(d, d);   // dX_q / ds_p
    for (int a = 0; a < nn; a++) for (int p = 0; p < d; p++) for (int c = 0; c < d; c++) J(p, c) += D(a, p) * b.x[n[a]][c];
    g.w = w[i] * w[j] * (d == 3 ? w[k] : 1) * J.determinant();
    g.dN = D * J.inverse().transpose();
    out.push_back(g);
  }
  return out;
}
struct State { VX u; };   // displacements node-major, then one pressure per element
inline M3 defGrad(const Body& b, const std::vector<int>& n, const Gp& g, const VX& u) {
  M3 F = M3::Identity(); int d = b.nd();
  for (size_t a = 0; a < n.size(); a++) for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) F(i, j) += u[d * n[a] + i] * g.dN(a, j);
  return F;
}
inline double minJ(const Body& b, const VX& u) {
  double m = 1e300;
  for (auto& n : b.el) for (auto& g : points(b, n, 3)) m = std::min(m, defGrad(b, n, g, u).determinant());
  for (auto& n : b.el) for (auto& g : points(b, n, b.order)) m = std::min(m, defGrad(b, n, g, u).determinant());
  return m;
}
// energy, its gradient (internal force) and Hessian (tangent) over all displacements and pressures; gAbs, hAbs sum absolute contributions
struct Eval { double Pi = 0; VX g, gAbs; MX h, hAbs; };
inline Eval evaluate(const Body& b, const VX& u, bool hess = true, bool abs = false) {
  Eval r; int N = b.N(), d = b.nd(), nu = b.nu();
  r.g = VX::Zero(N); if (hess) r.h = MX::Zero(N, N);
  if (abs) { r.gAbs = VX::Zero(N); r.hAbs = MX::Zero(N, N); }
  double k = b.mat.K();
  for (size_t e = 0; e < b.el.size(); e++) {
    auto& n = b.el[e]; int nn = (int) n.size(), P = nu + (int) e;
    double p = u[P];
    for (auto& g : points(b, n, b.order)) {
      M3 F = defGrad(b, n, g, u);
      D2<9> J, W = energyF(b.mat, F, p, J);
      r.Pi += g.w * (W.v - p * p / (2 * k));
      r.g[P] += g.w * (J.v - 1 - p / k);
      if (abs) r.gAbs[P] += std::fabs(g.w) * (std::fabs(J.v) + 1 + std::fabs(p / k));
      if (hess) r.h(P, P) -= g.w / k;
      // force and stiffness of node pairs
      for (int a = 0; a < nn; a++) for (int i = 0; i < d; i++) {
        int I = d * n[a] + i; double f = 0, c = 0, fa = 0;
        for (int j = 0; j < d; j++) { f += W.g[3 * i + j] * g.dN(a, j); c += J.g[3 * i + j] * g.dN(a, j); fa += std::fabs(W.g[3 * i + j] * g.dN(a, j)); }
        r.g[I] += g.w * f;
        if (abs) r.gAbs[I] += g.w * fa;
        if (!hess) continue;
        r.h(I, P) += g.w * c; r.h(P, I) += g.w * c;
        for (int bb = 0; bb < nn; bb++) for (int l = 0; l < d; l++) {
          double s = 0, sa = 0;
          for (int j = 0; j < d; j++) for (int m = 0; m < d; m++) { double t = W.h(3 * i + j, 3 * l + m) * g.dN(a, j) * g.dN(bb, m); s += t; sa += std::fabs(t); }
          r.h(I, d * n[bb] + l) += g.w * s;
          if (abs) r.hAbs(I, d * n[bb] + l) += g.w * sa;
        }
      }
    }
  }
  if (abs) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.hAbs(i, j) = std::max(r.hAbs(i, j), std::fabs(r.h(i, j)));
  return r;
}

// ------------------------------------------------------------------ driving the library
inline void build(const Body& b, FEStorage& st) {
  st.createNodes(b.x.size());
  for (size_t i = 0; i < b.x.size(); i++) for (int j = 0; j < 3; j++) st.getNode(fe::nodeNo(i)).pos[j] = b.x[i][j];
  st.createElements((uint32) b.el.size(), b.plane ? ElementType::PLANE41 : ElementType::SOLID81);
  for (size_t e = 0; e < b.el.size(); e++) {
    Element& x = st.getElement((uint32) e + 1);
    for (size_t i = 0; i < b.el[e].size(); i++) x.getNodeNumber((uint16) i) = fe::nodeNo(b.el[e][i]);
    x.setIntegrationOrder((uint16) b.order);
  }
  st.material = libMat(b.mat);
  for (auto& q : b.mpc) {
    Mpc* p = new Mpc;
    for (auto& t : q.terms) p->eq.push_back(MpcTerm(fe::nodeNo(t.d.first), t.d.second, t.coef));
    p->b = q.b;
    st.addMpc(p);
  }
}
// an unsolved model in a given state
struct Lib {
  const Body& b; FEStorage st;
  explicit Lib(const Body& body) : b(body) {
    build(b, st);
    st.initDofs();
    for (auto& f : b.fix) st.setConstrainedNodeDof(fe::nodeNo(f.first.first), f.first.second);
    st.assignEquationNumbers();
    st.initSolutionData();
  }
  uint32 eq(int i) { return i < b.nu() ? st.getNodeDofEqNumber(fe::nodeNo(b.dof(i).first), b.dof(i).second) : st.getElementDofEqNumber((uint32) (i - b.nu()) + 1, Dof::HYDRO_PRESSURE); }
  void set(const VX& u) {
    for (int i = 0; i < b.N(); i++) (*st.getU())[eq(i) - 1] = u[i];
    st.updateResults();
  }
  void assemble(VX& F, MX* K) {
    st.assembleGlobalEqMatrices();
    int N = b.N();
    F = VX(N); for (int i = 0; i < N; i++) F[i] = (*st.getF())[eq(i) - 1];
    if (!K) return;
    uint32 nc = st.nConstrainedDofs();
    *K = MX(N, N);
    math::BlockSparseSymMatrix<2>* B = st.getK();
    std::vector<uint32> q; for (int i = 0; i < N; i++) q.push_back(eq(i));
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      uint32 a = std::min(q[i], q[j]), c = std::max(q[i], q[j]);
      (*K)(i, j) = c <= nc ? B->block(1)->value(a, c) : a <= nc ? B->block(1, 2)->value(a, c - nc) : B->block(2)->value(a - nc, c - nc);
    }
  }
};

// ------------------------------------------------------------------ generators
inline Body genBody(Gen& g, bool plane, int maxEl, bool stable, bool user = false, double jit = 0.15) {
  Body b; b.plane = plane;
  b.mat = genMat(g, stable, user);
  b.order = g.weighted({1, 4, 1}) + 1;
  int c[3] = {1, 1, 1};
  int want = (int) g.integer(1, maxEl);
  for (int i = 1; i < want; i++) { int a = (int) g.integer(0, plane ? 1 : 2); if ((c[a] + 1) * c[(a + 1) % 3] * c[(a + 2) % 3] <= maxEl) c[a]++; }
  M3 R = M3::Identity(); V3 off(0, 0, 0);
  if (g.boolean()) { if (plane) R = Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix(); else R = fe::randRot(g); }
  if (g.boolean()) off = V3(g.sreal(5), g.sreal(5), plane ? g.oneOf({0.0, 2.0}) : g.sreal(5));
  V3 h(g.real(0.5, 1.5), g.real(0.5, 1.5), g.real(0.5, 1.5));
  if (!stable && g.chance(1, 6)) h *= g.logreal(-2, 2);
  if (plane) c[2] = 0;
  for (int k = 0; k <= c[2]; k++) for (int j = 0; j <= c[1]; j++) for (int i = 0; i <= c[0]; i++)
    b.x.push_back(off + R * V3((i + g.sreal(jit)) * h[0], (j + g.sreal(jit)) * h[1], plane ? 0 : (k + g.sreal(jit)) * h[2]));
  auto id = [&](int i, int j, int k) { return i + (c[0] + 1) * (j + (c[1] + 1) * k); };
  static const int R8[6][8] = {{0,1,2,3,4,5,6,7},{3,2,6,7,0,1,5,4},{1,5,6,2,0,4,7,3},{4,0,3,7,5,1,2,6},{4,5,1,0,7,6,2,3},{7,6,5,4,3,2,1,0}};
  for (int k = 0; k < std::max(1, c[2]); k++) for (int j = 0; j < c[1]; j++) for (int i = 0; i < c[0]; i++) {
    std::vector<int> n = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k)};
    if (!plane) { for (int q = 0; q < 4; q++) n.push_back(n[q] + (c[0] + 1) * (c[1] + 1)); }
    int s = (int) g.integer(0, 3);   // another corner first
    std::vector<int> m(n.size());
    for (size_t q = 0; q < n.size(); q++) m[q] = n[(q / 4) * 4 + (q + s) % 4];
    if (!plane) { std::vector<int> z(8); const int* p = R8[g.integer(0, 4)]; for (int q = 0; q < 8; q++) z[q] = m[p[q]]; m = z; }
    b.el.push_back(m);
  }
  if (g.boolean()) {   // any numbering
    std::vector<int> p = g.perm((int) b.x.size()); std::vector<V3> x = b.x;
    for (size_t i = 0; i < x.size(); i++) b.x[p[i]] = x[i];
    for (auto& n : b.el) for (auto& q : n) q = p[q];
    std::vector<int> o = g.perm((int) b.el.size()); auto el = b.el;
    for (size_t i = 0; i < el.size(); i++) b.el[i] = el[o[i]];
  }
  for (auto& n : b.el) for (int o = 1; o <= 3; o++) for (auto& q : points(b, n, o)) if (!(q.w > 0)) throw pbt::Discard{"inverted element"};
  return b;
}
// admissible displacements: a linear map plus noise
inline VX genState(Gen& g, const Body& b, double big = 0.6) {
  int d = b.nd();
  V3 lo = b.x[0], hi = b.x[0]; for (auto& p : b.x) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
  double size = (hi - lo).norm() / std::sqrt((double) d), h = 1e300;
  for (auto& n : b.el) for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[n[i]] - b.x[n[j]]).norm());
  M3 H = M3::Zero(); V3 t(0, 0, 0);
  int kind = g.weighted({4, 1, 1, 1});
  double am = kind == 3 ? g.logreal(-6, -1) : big;
  for (int i = 0; i < d; i++) { for (int j = 0; j < d; j++) H(i, j) = g.sreal(am); t[i] = g.chance(1, 3) ? 0 : g.sreal(1) * size; }
  if (kind == 1) { M3 Q = d == 2 ? M3(Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix()) : fe::randRot(g); H = Q * (M3::Identity() + H) - M3::Identity(); }
  if (kind == 2) H.setZero();
  double nz = g.chance(1, 4) ? 0 : g.real(0, 0.25) * h * (kind == 3 ? am : 1);
  VX u = VX::Zero(b.N());
  for (size_t a = 0; a < b.x.size(); a++) { V3 v = H * (b.x[a] - lo) + t; for (int i = 0; i < d; i++) u[d * a + i] = v[i] + g.sreal(1) * nz; }
  for (int it = 0; it < 12 && !(minJ(b, u) > 0.15); it++) {
    // shrink the deformation, keep the form
    V3 c = V3::Zero(); for (size_t a = 0; a < b.x.size(); a++) for (int i = 0; i < d; i++) c[i] += u[d * a + i] / b.x.size();
    for (size_t a = 0; a < b.x.size(); a++) for (int i = 0; i < d; i++) u[d * a + i] = c[i] + (u[d * a + i] - c[i]) * 0.6;
  }
  if (!(minJ(b, u) > 0.15)) throw pbt::Discard{"folded"};
  double G = std::fabs(b.mat.c[0]) + 0.01 * b.mat.K();
  for (size_t e = 0; e < b.el.size(); e++) u[b.nu() + e] = g.chance(1, 5) ? 0 : g.sreal(2) * (g.boolean() ? G : b.mat.c[0]);
  return u;
}
inline void describe(Gen& g, const Body& b) {
  g.note << b.el.size() << (b.plane ? " PLANE41, " : " SOLID81, ") << b.x.size() << " nodes, order " << b.order << ", " << str(b.mat);
  g.label(b.plane ? "PLANE41" : "SOLID81"); g.label(matName(b.mat.kind)); g.label("order " + std::to_string(b.order));
}

// ------------------------------------------------------------------ nonlinear problems
// finite rotation exp([th]x) r and its derivatives with respect to th
inline void rotate(const V3& th, const V3& r, V3& out, M3& d) {
  D2<3> t[3]; for (int i = 0; i < 3; i++) t[i] = D2<3>::var(th[i], i);
  D2<3> s = t[0] * t[0] + t[1] * t[1] + t[2] * t[2];
  double x = s.v, f[2], f1[2];
  if (x < 1e-2) {   // sin(a)/a and (1 - cos a)/a^2 as power series in a^2
    f[0] = f[1] = f1[0] = f1[1] = 0; double c0 = 1, c1 = 0.5, p = 1, pm = 0;
    for (int n = 0; n < 12; n++) {
      f[0] += c0 * p; f[1] += c1 * p; f1[0] += n * c0 * pm; f1[1] += n * c1 * pm;
      c0 *= -1.0 / ((2 * n + 2) * (2 * n + 3)); c1 *= -1.0 / ((2 * n + 3) * (2 * n + 4));
      pm = p; p *= x;
    }
  } else {
    double a = std::sqrt(x), sn = std::sin(a), cs = std::cos(a);
    f[0] = sn / a; f[1] = (1 - cs) / x;
    f1[0] = (cs / a - sn / x) / (2 * a); f1[1] = (sn / x - 2 * (1 - cs) / (x * a)) / (2 * a);
  }
  D2<3> A = chain(s, f[0], f1[0], 0.0), B = chain(s, f[1], f1[1], 0.0);   // only first derivatives are used
  D2<3> R[3];
  for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; R[i] = D2<3>(r[i]) + A * (t[j] * r[k] - t[k] * r[j]); }
  // th x (th x r) = th (th.r) - r |th|^2
  D2<3> q = t[0] * r[0] + t[1] * r[1] + t[2] * r[2];
  for (int i = 0; i < 3; i++) { R[i] = R[i] + B * (t[i] * q - s * r[i]); out[i] = R[i].v; d.row(i) = R[i].g.transpose(); }
}
struct Rigid { int master = -1; V3 pos; std::vector<int> slaves, comps; };   // master: node of the body or -1 for a separate node
struct Problem {
  Body b;                    // its fix, load, mpc lists are used
  std::vector<Rigid> rigid;
  std::vector<std::pair<int, double>> mfix, mload;   // degrees of freedom of masters: 6 * rigid + (UX..ROTZ)
  int steps = 1;
  double crit = 1e-4, t0 = 0, t1 = 1;
  int Z() const { return b.N() + 6 * (int) rigid.size(); }
  // place of a master's degree of freedom in the vector of all unknowns
  int mi(int r, int c) const { const Rigid& q = rigid[r]; return q.master >= 0 && c < b.nd() ? b.nd() * q.master + c : b.N() + 6 * r + c; }
  bool used(int i) const { if (i < b.N()) return true; int r = (i - b.N()) / 6, c = (i - b.N()) % 6; return mi(r, c) == i; }
  uint32 masterNo(int r) const { if (rigid[r].master >= 0) return fe::nodeNo(rigid[r].master); int k = (int) b.x.size(); for (int q = 0; q < r; q++) if (rigid[q].master < 0) k++; return fe::nodeNo(k); }
  // node and type of a nodal unknown
  std::pair<uint32, Dof::dofType> id(int i) const {
    static const Dof::dofType t[6] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ};
    if (i < b.nu()) return {fe::nodeNo(b.dof(i).first), b.dof(i).second};
    return {masterNo((i - b.N()) / 6), t[(i - b.N()) % 6]};
  }
  std::string who(int i) const { if (i >= b.nu() && i < b.N()) return "pressure of element " + std::to_string(i - b.nu() + 1); return std::string(Dof::dofType2label(id(i).second)) + " of node " + std::to_string(id(i).first); }
};
struct Path {
  bool ok = false; std::string why;
  std::vector<VX> z, R;         // per step: all unknowns; external force in every unknown (load or reaction)
  std::vector<double> gap;      // smallest relative eigenvalue of the reduced condensed tangent (stability)
  int its = 0; double cond = 0; // most iterations in a step; condition of the first system
  VX fs;                        // force size
};
// residual and Jacobian of all constraints
inline void constraints(const Problem& p, const VX& z, VX& c, MX& G) {
  int q = (int) p.b.mpc.size(); for (auto& r : p.rigid) q += (int) (r.slaves.size() * r.comps.size());
  c = VX::Zero(q); G = MX::Zero(q, p.Z());
  int row = 0;
  for (auto& m : p.b.mpc) { for (auto& t : m.terms) { int i = p.b.at(t.d); G(row, i) += t.coef; c[row] += t.coef * z[i]; } c[row] -= m.b; row++; }
  for (size_t r = 0; r < p.rigid.size(); r++) {
    auto& R = p.rigid[r];
    V3 th, w; for (int i = 0; i < 3; i++) { w[i] = z[p.mi((int) r, i)]; th[i] = z[p.mi((int) r, 3 + i)]; }
    V3 P = R.master >= 0 ? p.b.x[R.master] : R.pos;
    for (int s : R.slaves) {
      V3 off = p.b.x[s] - P, q3; M3 d; rotate(th, off, q3, d);
      for (int k : R.comps) {
        int i = p.b.nd() * s + k;
        c[row] = z[i] - (w[k] + q3[k] - off[k]);
        G(row, i) += 1; G(row, p.mi((int) r, k)) -= 1;
        for (int l = 0; l < 3; l++) G(row, p.mi((int) r, 3 + l)) -= d(k, l);
        row++;
      }
    }
  }
}
// the incremental Newton iteration of the library's documentation (predictor with the increment of prescribed values,
// constraints linearised at every iterate), carried on to rounding
inline Path solve(const Problem& p, bool stability = true) {
  Path o; const Body& b = p.b; int Z = p.Z();
  std::vector<char> kind(Z, 0); VX target = VX::Zero(Z), P = VX::Zero(Z);
  for (int i = 0; i < Z; i++) if (!p.used(i)) kind[i] = 2;
  for (auto& f : b.fix) { kind[b.at(f.first)] = 1; target[b.at(f.first)] = f.second; }
  for (auto& f : p.mfix) { int i = p.mi(f.first / 6, f.first % 6); kind[i] = 1; target[i] = f.second; }
  for (auto& l : b.load) P[b.at(l.d)] += l.v;
  for (auto& l : p.mload) P[p.mi(l.first / 6, l.first % 6)] += l.second;
  std::vector<int> fr, fx; for (int i = 0; i < Z; i++) { if (kind[i] == 0) fr.push_back(i); else if (kind[i] == 1) fx.push_back(i); }
  int n = (int) fr.size();
  if (!n) { o.why = "nothing free"; return o; }
  VX z = VX::Zero(Z); o.fs = VX::Zero(Z);
  for (int s = 1; s <= p.steps; s++) {
    double t = (double) s / p.steps; bool conv = false; int it = 0; VX lam;
    for (; it < 60; it++) {
      Eval e = evaluate(b, z, true, true);
      MX H = MX::Zero(Z, Z); H.topLeftCorner(b.N(), b.N()) = e.h; VX g = VX::Zero(Z); g.head(b.N()) = e.g;
      VX c; MX G; constraints(p, z, c, G); int q = (int) c.size();
      VX dc = VX::Zero(Z); for (int i : fx) dc[i] = target[i] * t - z[i];
      MX S = MX::Zero(n + q, n + q); VX rhs(n + q);
      for (int i = 0; i < n; i++) { rhs[i] = P[fr[i]] * t - g[fr[i]]; for (int j : fx) rhs[i] -= H(fr[i], j) * dc[j]; for (int j = 0; j < n; j++) S(i, j) = H(fr[i], fr[j]); }
      for (int i = 0; i < q; i++) { rhs[n + i] = -c[i]; for (int j : fx) rhs[n + i] -= G(i, j) * dc[j]; for (int j = 0; j < n; j++) S(n + i, j) = S(j, n + i) = G(i, fr[j]); }
      VX d(n + q);
      for (int i = 0; i < n + q; i++) { double mx = S.row(i).cwiseAbs().maxCoeff(); if (mx <= 0) { o.why = "singular"; return o; } d[i] = 1 / std::sqrt(mx); }
      MX Se = d.asDiagonal() * S * d.asDiagonal();
      if (s == 1 && it == 0) { o.cond = fe::Ref::condOf(S); if (o.cond > 1e8) { o.why = "ill posed"; return o; } }
      Eigen::PartialPivLU<MX> lu(Se);
      VX x = d.asDiagonal() * lu.solve((d.asDiagonal() * rhs).eval());
      x += d.asDiagonal() * lu.solve((d.asDiagonal() * (rhs - S * x)).eval());
      for (int i = 0; i < n; i++) z[fr[i]] += x[i];
      for (int i : fx) z[i] = target[i] * t;
      lam = x.tail(q);
      double m = 0, big = 0; for (int i = 0; i < n; i++) { m += std::fabs(x[i]); big = std::max(big, std::fabs(x[i])); }
      m /= n;
      if (m > 1e5 * p.crit) { o.why = "a step is too large for the criterion"; return o; }   // the library gives up at 1e6
      if (!(big < 1e3) || !(minJ(b, z) > 0.05)) { o.why = "diverges"; return o; }
      if (!conv && it > 0 && m < p.crit * p.crit) { conv = true; o.its = std::max(o.its, it + 1); }
      if (conv && big < 1e-11) break;
    }
    if (!conv || it == 60) { o.why = "does not converge"; return o; }
    Eval e = evaluate(b, z, true, true); VX c; MX G; constraints(p, z, c, G);
    VX R = P * t, full = VX::Zero(Z); full.head(b.N()) = e.g; full += G.transpose() * lam;
    for (int i : fx) R[i] = full[i];
    o.z.push_back(z); o.R.push_back(R);
    for (int i = 0; i < b.N(); i++) o.fs[i] = std::max(o.fs[i], e.gAbs[i]);
    if (stability) {
      // condensed over pressures, on the null space of the constraints
      std::vector<int> fu; for (int i : fr) if (i < b.nu() || i >= b.N()) fu.push_back(i);
      int m = (int) fu.size(), q = (int) c.size(); MX K = MX::Zero(m, m), A(q, m);
      for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
        if (fu[i] >= b.nu() || fu[j] >= b.nu()) continue;
        K(i, j) = e.h(fu[i], fu[j]);
        for (size_t k = 0; k < b.el.size(); k++) { int pp = b.nu() + (int) k; K(i, j) -= e.h(fu[i], pp) * e.h(pp, fu[j]) / e.h(pp, pp); }
      }
      for (int i = 0; i < q; i++) for (int j = 0; j < m; j++) A(i, j) = G(i, fu[j]);
      MX Zn = MX::Identity(m, m);
      if (q) { Eigen::FullPivLU<MX> lu(A); Zn = lu.kernel(); }
      double gap = 1;
      if (m && Zn.norm() > 0) { Eigen::HouseholderQR<MX> qr(Zn); MX Q = qr.householderQ() * MX::Identity(m, Zn.cols()); Eigen::SelfAdjointEigenSolver<MX> es(Q.transpose() * K * Q, Eigen::EigenvaluesOnly); gap = es.eigenvalues().minCoeff() / es.eigenvalues().cwiseAbs().maxCoeff(); }
      o.gap.push_back(gap);
    }
  }
  o.ok = true;
  return o;
}
// library run of a problem, everything recorded at each step
struct Recorder : PostProcessor {
  std::function<void(int)> onPre, onStep, onPost;
  Recorder(FEStorage* s) : PostProcessor(s) {}
  void pre() { if (onPre) onPre(0); }
  void process(uint16 s) { if (onStep) onStep(s); }
  void post(uint16 s) { if (onPost) onPost(s); }
};
struct NlRun {
  FEStorage st; NonlinearFESolver so;
  std::unique_ptr<math::EquationSolver> eq;
  std::vector<VX> z, R; std::vector<int> steps, posts; int pres = 0;
  NlRun(const Problem& p, int eqKind = 0, std::function<void(FEStorage&, FESolver&)> more = nullptr) {
    const Body& b = p.b;
    build(b, st);
    for (size_t r = 0; r < p.rigid.size(); r++) {
      auto& R = p.rigid[r];
      if (R.master < 0) { Node* n = new Node; for (int j = 0; j < 3; j++) n->pos[j] = R.pos[j]; st.addNode(n); }
      RigidBodyMpc* m = new RigidBodyMpc;
      m->storage = &st; m->masterNode = p.masterNo((int) r);
      for (int s : R.slaves) m->slaveNodes.push_back(fe::nodeNo(s));
      for (int k : R.comps) m->dofs.push_back(k == 0 ? Dof::UX : k == 1 ? Dof::UY : Dof::UZ);
      st.addMpcCollection(m);
    }
    so.attachFEStorage(&st);
    for (auto& f : b.fix) so.addFix(fe::nodeNo(f.first.first), f.first.second, f.second);
    for (auto& f : p.mfix) { auto d = p.id(p.mi(f.first / 6, f.first % 6)); so.addFix(d.first, d.second, f.second); }
    for (auto& l : b.load) so.addLoad(fe::nodeNo(l.d.first), l.d.second, l.v);
    for (auto& l : p.mload) { auto d = p.id(p.mi(l.first / 6, l.first % 6)); so.addLoad(d.first, d.second, l.second); }
    if (eqKind == 1) eq.reset(new math::GaussDenseEquationSolver);
#ifdef NLA3D_USE_MKL
    if (eqKind == 2) eq.reset(new math::PARDISO_equationSolver);
#endif
    if (eq) so.attachEquationSolver(eq.get());
    so.numberOfLoadsteps = (uint16) p.steps; so.convergenceCriteria = p.crit;
    if (p.t0 != 0 || p.t1 != 1) { so.timeControl.setStartTime(p.t0); so.timeControl.setEndTime(p.t1); }
    Recorder* r = new Recorder(&st);
    r->onPre = [this](int) { pres++; };
    r->onPost = [this](int s) { posts.push_back(s); };
    r->onStep = [this, &p](int s) {
      steps.push_back(s);
      VX u = VX::Zero(p.Z()), f = VX::Zero(p.Z());
      for (int i = 0; i < p.Z(); i++) if (p.used(i)) {
        if (i >= p.b.nu() && i < p.b.N()) { u[i] = st.getElementDofSolution((uint32) (i - p.b.nu()) + 1, Dof::HYDRO_PRESSURE); continue; }
        auto d = p.id(i); u[i] = st.getNodeDofSolution(d.first, d.second); f[i] = st.getReaction(d.first, d.second);
      }
      z.push_back(u); R.push_back(f);
    };
    so.addPostProcessor(r);
    if (more) more(st, so);
    so.solve();
  }
};
// a body with supports and moderate prescribed values and loads
inline Problem genProblem(Gen& g, bool plane, int maxEl, double amp = 0.12) {
  Problem p; Body& b = p.b;
  b = genBody(g, plane, maxEl, true, false, 0.1);
  if (b.order == 1) b.order = 2;      // one point leaves hourglass modes free
  int d = b.nd();
  double h = 1e300; for (auto& n : b.el) for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[n[i]] - b.x[n[j]]).norm());
  V3 lo = b.x[0]; for (auto& q : b.x) lo = lo.cwiseMin(q);
  // supports: a support node with everything, then random ones until no mode is free
  M3 Hm = M3::Zero(); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) Hm(i, j) = g.sreal(amp);
  bool zero = g.chance(1, 4);
  std::set<int> fixed;
  int extra = (int) g.integer(1, 6); for (int i = 0; i < extra; i++) { int a = (int) g.draw(b.x.size() - 1); if (g.chance(2, 3)) for (int c = 0; c < d; c++) fixed.insert(d * a + c); else fixed.insert(d * a + (int) g.integer(0, d - 1)); }
  VX z0 = VX::Zero(b.N()); Eval e = evaluate(b, z0, true);
  MX K = e.h.topLeftCorner(b.nu(), b.nu());
  for (size_t k = 0; k < b.el.size(); k++) { int q = b.nu() + (int) k; K -= e.h.col(q).head(b.nu()) * e.h.row(q).head(b.nu()) / e.h(q, q); }
  double kd = 0; for (int i = 0; i < b.nu(); i++) kd = std::max(kd, evaluate(b, z0, true).h(0, 0));
  for (;;) {
    std::vector<int> fr; for (int i = 0; i < b.nu(); i++) if (!fixed.count(i)) fr.push_back(i);
    if (fr.empty()) break;
    MX S(fr.size(), fr.size()); for (size_t i = 0; i < fr.size(); i++) for (size_t j = 0; j < fr.size(); j++) S(i, j) = K(fr[i], fr[j]);
    Eigen::SelfAdjointEigenSolver<MX> es(S);
    if (es.eigenvalues()[0] > 0.02 * b.mat.c[0] * (plane ? 1 : h)) break;
    VX v = es.eigenvectors().col(0).cwiseAbs(); int q; v.maxCoeff(&q); fixed.insert(fr[q]);
  }
  if ((int) fixed.size() >= b.nu()) throw pbt::Discard{"all prescribed"};
  for (int i : fixed) { double v = 0; if (!zero) { V3 q = Hm * (b.x[i / d] - lo); v = q[i % d]; if (g.chance(1, 5)) v = 0; } b.fix.push_back({b.dof(i), v}); }
  if (g.boolean()) { auto o = g.perm((int) b.fix.size()); auto f = b.fix; for (size_t i = 0; i < f.size(); i++) b.fix[i] = f[o[i]]; }
  // loads sized by the linear response
  int nl = (int) g.integer(zero ? 1 : 0, 4);
  if (nl) {
    std::vector<int> fr; for (int i = 0; i < b.nu(); i++) if (!fixed.count(i)) fr.push_back(i);
    MX S(fr.size(), fr.size()); for (size_t i = 0; i < fr.size(); i++) for (size_t j = 0; j < fr.size(); j++) S(i, j) = K(fr[i], fr[j]);
    VX f = VX::Zero(fr.size()); std::vector<std::pair<int, double>> ls;
    for (int i = 0; i < nl; i++) { int k = (int) g.draw(fr.size() - 1); double v = g.real(0.2, 1) * (g.boolean() ? 1 : -1); f[k] += v; ls.push_back({fr[k], v}); }
    VX u = S.ldlt().solve(f);
    double um = u.cwiseAbs().maxCoeff(), want = g.real(0.02, 1) * amp * h;
    for (auto& l : ls) b.load.push_back({b.dof(l.first), um > 0 ? l.second * want / um : l.second});
    if (fixed.size() && g.chance(1, 4)) b.load.push_back({b.dof(*fixed.begin()), g.sreal(1) * b.mat.c[0] * 0.1});   // no effect on the solution
  }
  // homogeneous multi-point constraints between free degrees of freedom
  if (g.chance(1, 4)) {
    std::vector<int> fr; for (int i = 0; i < b.nu(); i++) if (!fixed.count(i)) fr.push_back(i);
    int nq = (int) g.integer(1, 2);
    std::set<int> usedUp;
    for (int q = 0; q < nq && fr.size() >= 4; q++) {
      fe::MpcEq m; for (int s : g.sample((int) fr.size(), 2)) if (!usedUp.count(fr[s])) { m.terms.push_back({b.dof(fr[s]), g.chance(2, 3) ? g.oneOf({1.0, -1.0}) : g.real(0.4, 1.6)}); usedUp.insert(fr[s]); }
      if (m.terms.size() < 2) continue;
      if (b.fix.size() && g.chance(1, 4)) m.terms.push_back({b.fix[g.draw(b.fix.size() - 1)].first, g.sreal(0.5)});
      b.mpc.push_back(m);
    }
  }
  p.steps = (int) g.integer(1, 6);
  if (g.chance(1, 4)) p.crit = 1e-3;
  if (g.chance(1, 4)) { p.t0 = g.sreal(5); p.t1 = p.t0 + g.logreal(-1, 1); }
  return p;
}
// a body held at one end and moved at the other
inline Problem genHeld(Gen& g, bool plane) {
  Problem p; Body& b = p.b;
  b = genBody(g, plane, plane ? 3 : 2, true, false, 0.1); if (b.order == 1) b.order = 2;
  return p;
}
// supports at one end, prescribed values, loads or a rigid body at the other
inline void condition(Gen& g, Problem& p, bool rigid) {
  Body& b = p.b; int d = b.nd(); b.fix.clear(); b.load.clear(); p.mfix.clear(); p.mload.clear(); p.rigid.clear(); b.mpc.clear();
  V3 dir(1, 0.3, 0.2); if (b.plane) dir[2] = 0; dir.normalize();
  double lo = 1e300, hi = -1e300; for (auto& x : b.x) { lo = std::min(lo, x.dot(dir)); hi = std::max(hi, x.dot(dir)); }
  std::vector<std::pair<double, int>> o; for (size_t i = 0; i < b.x.size(); i++) o.push_back({b.x[i].dot(dir), (int) i});
  std::sort(o.begin(), o.end());
  int k = b.plane ? 2 : 3, n = (int) o.size();
  double h = 1e300; for (auto& q : b.el) for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[q[i]] - b.x[q[j]]).norm());
  for (int i = 0; i < k; i++) for (int c = 0; c < d; c++) b.fix.push_back({b.dof(d * o[i].second + c), 0.0});
  double a = g.real(0.02, 0.1) * h;
  if (rigid) {
    Rigid r; for (int i = 0; i < k - 1; i++) r.slaves.push_back(o[n - 1 - i].second); for (int c = 0; c < d; c++) r.comps.push_back(c);
    r.pos = b.x[r.slaves[0]] + V3(g.sreal(0.5), g.sreal(0.5), b.plane ? 0 : g.sreal(0.5)) * h;
    p.rigid.push_back(r);
    for (int c = 0; c < 6; c++) { bool out = b.plane && c >= 2 && c <= 4; p.mfix.push_back({c, out ? 0.0 : c < 3 ? g.sreal(1) * a : g.sreal(0.1)}); }
  } else {
    for (int i = 0; i < k - 1; i++) for (int c = 0; c < d; c++) if (g.chance(2, 3)) b.fix.push_back({b.dof(d * o[n - 1 - i].second + c), g.sreal(1) * a});
    if (g.boolean()) b.load.push_back({b.dof(d * o[n - 1].second), g.sreal(0.05) * b.mat.c[0] * (b.plane ? h : h * h)});
  }
  p.steps = (int) g.integer(1, 3); p.crit = 1e-4;
}
}  // namespace hyper
