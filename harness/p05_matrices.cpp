// P05: assembled matrices of linear elements are symmetric, passive and blind to rigid motion.
#include "fe.h"
using namespace fe;

static double psd(const MX& A, const char* what) {
  if (A.rows() == 0) return 0;
  // equilibrate: the sign of the quadratic form doesn't change
  VX d(A.rows());
  for (int i = 0; i < A.rows(); i++) {
    EXPECT(A(i, i) >= 0, what << ": diagonal entry " << A(i, i));
    d[i] = A(i, i) > 0 ? 1 / std::sqrt(A(i, i)) : 1;
    if (A(i, i) == 0) EXPECT(A.row(i).cwiseAbs().maxCoeff() == 0, what << ": zero diagonal in a non-zero row");
  }
  MX S = d.asDiagonal() * A * d.asDiagonal();
  Eigen::SelfAdjointEigenSolver<MX> es(S, Eigen::EigenvaluesOnly);
  double mx = std::max(1.0, es.eigenvalues().cwiseAbs().maxCoeff());
  EXPECT(es.eigenvalues().minCoeff() > -1e-8 * mx, what << " is not positive semi-definite: smallest eigenvalue " << es.eigenvalues().minCoeff() << " of the equilibrated matrix");
  return es.eigenvalues().minCoeff();
}
// springs and interface elements that join coincident points only: others resist a rotation by construction
static void coincident(Model& m) {
  for (auto& e : m.el) {
    if (e.kind == SPRING) m.x[e.n[1]] = m.x[e.n[0]];
    if (e.kind == INTER) for (int i = 0; i < 3; i++) m.x[e.n[i + 3]] = m.x[e.n[i]];
  }
}
static Model genFree(Gen& g, int physics) {
  for (int tries = 0; ; tries++) {
    Model m = genMesh(g, physics);
    // a spring between two nodes of the body would collapse the body when its ends are joined
    std::vector<El> keep;
    std::map<int, int> uses; for (auto& e : m.el) for (int n : e.n) uses[n]++;
    for (auto& e : m.el) {
      bool ok = true;
      if (e.kind == SPRING) ok = uses[e.n[1]] == 1;
      if (e.kind == INTER) for (int i = 3; i < 6; i++) ok = ok && uses[e.n[i]] == 1;
      if (ok) keep.push_back(e);
    }
    m.el = keep;
    coincident(m);
    return m;
  }
}
static void someFixed(Gen& g, Model& m, const Ref& f) {
  if (g.boolean()) return;
  int k = (int) g.integer(1, std::min<int>(6, (int) f.dofs.size() - 1));
  for (int i : g.sample((int) f.dofs.size(), k)) m.fix.push_back({f.dofs[i], 0.0});
}
static bool touched(const Model& m) { std::set<int> kinds; for (auto& e : m.el) kinds.insert(e.kind); return kinds.size() > 1; }

FACET(mechanics, "at least two elements", 4000, 80000) {
  Model m = genFree(g, MECH);
  Ref f(m);
  someFixed(g, m, f);
  describe(g, m);
  g.nontrivial(m.el.size() >= 2);
  if (touched(m)) g.label("mixed");
  Assembled a(m, f, false, (int) g.integer(0, 1));
  MX& K = a.K;
  psd(K, "stiffness matrix");
  // rigid translation and rotation
  V3 t(g.sreal(1), g.sreal(1), g.sreal(1)), w(g.sreal(1), g.sreal(1), g.sreal(1));
  int mode = (int) g.integer(0, 2);
  if (mode == 0) w.setZero();
  if (mode == 1) t.setZero();
  if (has(m, TRI)) { w[0] = w[1] = 0; }     // out of plane rotation doesn't exist for the plane elements
  VX u(f.dofs.size());
  for (size_t i = 0; i < f.dofs.size(); i++) {
    V3 d = t + w.cross(m.x[f.dofs[i].first]);
    u[i] = d[f.dofs[i].second == Dof::UX ? 0 : f.dofs[i].second == Dof::UY ? 1 : 2];
  }
  VX r = K * u, sc = K.cwiseAbs() * u.cwiseAbs();
  double tol = 1e-10 + quadTol(m);
  double S = sc.size() ? sc.maxCoeff() : 0;
  for (size_t i = 0; i < f.dofs.size(); i++)
    EXPECT(std::fabs(r[i]) <= tol * (sc[i] + 1e-3 * S) , "rigid motion gives force " << r[i] << " at " << dofStr(f.dofs[i]) << " (terms of size " << sc[i] << ")");
  // the same body turned: same energy in the turned displacement
  Eigen::Matrix3d R = has(m, TRI) ? Eigen::Matrix3d(Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix()) : randRot(g);
  V3 o(g.sreal(2), g.sreal(2), g.sreal(2));
  Model q = m; q.fix.clear();
  for (auto& x : q.x) x = R * x + o;
  for (auto& e : q.el) if (e.kind == SPRING) e.axis = R * e.axis;
  Assembled b(q, f, false);
  std::map<int, V3> un; for (size_t i = 0; i < m.x.size(); i++) un[(int) i] = V3(g.sreal(1), g.sreal(1), g.sreal(1));
  // nodes with plane elements only carry no UZ: the rotation is about z, so the components don't mix
  VX ua(f.dofs.size()), ub(f.dofs.size());
  for (size_t i = 0; i < f.dofs.size(); i++) {
    int c = f.dofs[i].second == Dof::UX ? 0 : f.dofs[i].second == Dof::UY ? 1 : 2;
    ua[i] = un[f.dofs[i].first][c]; ub[i] = (R * un[f.dofs[i].first])[c];
  }
  double ea = ua.dot(K * ua), eb = ub.dot(b.K * ub), es = ua.cwiseAbs().dot(K.cwiseAbs() * ua.cwiseAbs());
  EXPECT(std::fabs(ea - eb) <= (1e-9 + quadTol(m)) * es, "energy " << ea << " becomes " << eb << " in the turned model");
}

FACET(heat, "at least two elements", 4000, 80000) {
  Model m = genMesh(g, THERM);
  Ref f(m);
  someFixed(g, m, f);
  describe(g, m);
  g.nontrivial(m.el.size() >= 2);
  // only the plane elements have a heat capacity
  bool tr = !has(m, TETH);
  if (tr) g.label("transient");
  Assembled a(m, f, tr, (int) g.integer(0, 1));
  psd(a.K, "conductivity matrix");
  if (tr) psd(a.C, "capacity matrix");
  EXPECT(a.M.size() == 0 || a.M.cwiseAbs().maxCoeff() == 0, "a thermal model has a mass matrix");
  // uniform temperature: only the film coefficients draw heat
  VX one = VX::Ones(f.dofs.size());
  VX r = a.K * one, sc = a.K.cwiseAbs() * one, want = VX::Zero(f.dofs.size());
  double cap = 0;
  for (auto& e : m.el) {
    if (e.kind == KLINE) { double L = (m.x[e.n[1]] - m.x[e.n[0]]).norm(); for (int n : e.n) want[f.id.at(DofId(n, Dof::TEMP))] += e.htc * L / 2; }
    if (e.kind == KQUAD) {
      double A = 0;
      for (int c = 0; c < 4; c++) { const V3 &x = m.x[e.n[c]], &y = m.x[e.n[(c + 1) % 4]]; A += x[0] * y[1] - x[1] * y[0]; }
      cap += e.rho * e.c * A / 2;
    }
  }
  for (size_t i = 0; i < f.dofs.size(); i++)
    EXPECT(std::fabs(r[i] - want[i]) <= 1e-10 * sc[i], "uniform temperature gives heat flow " << r[i] << " at " << dofStr(f.dofs[i]) << ", expected " << want[i]);
  if (!tr) return;
  EXPECT(std::fabs(one.dot(a.C * one) - cap) <= 1e-10 * (cap + 1e-300), "total heat capacity " << one.dot(a.C * one) << ", expected " << cap);
  for (int i = 0; i < a.C.rows(); i++) for (int j = 0; j < a.C.cols(); j++) EXPECT(a.C(i, j) >= -1e-12 * a.C.cwiseAbs().maxCoeff(), "negative entry of the capacity matrix");
}

// elements written by a user of the library: what they assemble is what the global matrices hold
template <class Base, int ND> struct AnyEl : Base {
  enum { N = (std::is_base_of<ElementTETRA, Base>::value ? 4 : std::is_base_of<ElementTRIANGLE, Base>::value ? 3 : 2) * ND };
  math::MatSym<N> K, C, M; math::Vec<N> F;
  bool eigen = false, withF = true;
  static std::initializer_list<Dof::dofType> dofs() {
    static const std::initializer_list<Dof::dofType> d1 = {Dof::TEMP}, d2 = {Dof::UX, Dof::UY}, d3 = {Dof::UZ, Dof::UX, Dof::UY};
    return ND == 1 ? d1 : ND == 2 ? d2 : d3;
  }
  void pre() { for (uint16 i = 0; i < this->getNNodes(); i++) this->storage->addNodeDof(this->getNodeNumber(i), dofs()); }
  void buildK() {
    if (eigen) {
      Eigen::MatrixXd k(N, N);
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) k(i, j) = K.comp(std::min(i, j), std::max(i, j));
      this->assembleK(k, dofs());
    } else if (withF) this->assembleK(K, F, dofs());
    else this->assembleK(K, dofs());
  }
  void buildC() { this->assembleC(C, dofs()); }
  void buildM() { this->assembleM(M, dofs()); }
  void update() {}
};

template <class E> static void custom(Gen& g, int nd) {
  FEStorage st;
  int nn = (int) g.integer(E::N / nd, E::N / nd + 4), ne = (int) g.integer(1, 4);
  st.createNodes(nn);
  std::vector<DofId> dofs; std::map<DofId, int> id;
  auto types = std::vector<Dof::dofType>(E::dofs());
  std::vector<std::vector<int>> con;
  MX K, C, M; VX F;
  for (int e = 0; e < ne; e++) { con.push_back(g.sample(nn, E::N / nd)); }
  for (auto& c : con) for (int n : c) for (auto t : types) if (!id.count(DofId(n, t))) { id[DofId(n, t)] = (int) dofs.size(); dofs.push_back(DofId(n, t)); }
  int N = (int) dofs.size();
  K = C = M = MX::Zero(N, N); F = VX::Zero(N);
  bool tr = g.chance(3, 4);
  for (int e = 0; e < ne; e++) {
    E* el = new E;
    for (int i = 0; i < E::N; i++) { el->F[i] = g.sreal(1); for (int j = i; j < E::N; j++) { el->K.comp(i, j) = g.sreal(1); el->C.comp(i, j) = g.sreal(1); el->M.comp(i, j) = g.sreal(1); } }
    int w = (int) g.integer(0, 2); el->eigen = w == 1; el->withF = w == 0;
    for (size_t i = 0; i < con[e].size(); i++) el->getNodeNumber((uint16) i) = nodeNo(con[e][i]);
    std::vector<int> gl; for (int n : con[e]) for (auto t : types) gl.push_back(id[DofId(n, t)]);
    for (int i = 0; i < E::N; i++) {
      if (w == 0) F[gl[i]] += el->F[i];
      for (int j = 0; j < E::N; j++) {
        int a = std::min(i, j), b = std::max(i, j);
        K(gl[i], gl[j]) += el->K.comp(a, b); C(gl[i], gl[j]) += el->C.comp(a, b); M(gl[i], gl[j]) += el->M.comp(a, b);
      }
    }
    st.addElement(el);
  }
  int nfix = (int) g.integer(0, std::min(4, N - 1));
  g.note << nn << " nodes, " << ne << " elements with " << E::N / nd << " nodes and " << nd << " DoFs each, " << nfix << " prescribed" << (tr ? ", transient" : "");
  st.setTransient(tr);
  st.initDofs();
  for (int i : g.sample(N, nfix)) st.setConstrainedNodeDof(nodeNo(dofs[i].first), dofs[i].second);
  st.assignEquationNumbers(); st.initSolutionData();
  int times = (int) g.integer(1, 3);   // assembling again starts from zero
  for (int t = 0; t < times; t++) st.assembleGlobalEqMatrices();
  auto cmp = [&](const MX& got, const MX& want, const char* what) {
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
      EXPECT(std::fabs(got(i, j) - want(i, j)) <= 1e-12, what << " (" << dofStr(dofs[i]) << ", " << dofStr(dofs[j]) << ") is " << got(i, j) << ", the elements give " << want(i, j));
  };
  cmp(denseOf(st.getK(), st, dofs), K, "stiffness");
  if (tr) { cmp(denseOf(st.getC(), st, dofs), C, "damping"); cmp(denseOf(st.getM(), st, dofs), M, "mass"); }
  for (int i = 0; i < N; i++) { double v = (*st.getF())[st.getNodeDofEqNumber(nodeNo(dofs[i].first), dofs[i].second) - 1]; EXPECT(std::fabs(v - F[i]) <= 1e-12, "element load of " << dofStr(dofs[i]) << " is " << v << ", the elements give " << F[i]); }
  g.nontrivial(ne >= 2 && nfix >= 1);
}

FACET(user_elements, "at least two elements and one prescribed degree of freedom", 4000, 80000) {
  switch (g.integer(0, 5)) {
    case 0: custom<AnyEl<ElementLINE, 1>>(g, 1); break;
    case 1: custom<AnyEl<ElementLINE, 3>>(g, 3); break;
    case 2: custom<AnyEl<ElementTRIANGLE, 2>>(g, 2); break;
    case 3: custom<AnyEl<ElementTRIANGLE, 1>>(g, 1); break;
    case 4: custom<AnyEl<ElementTETRA, 3>>(g, 3); break;
    default: custom<AnyEl<ElementTETRA, 1>>(g, 1);
  }
}
