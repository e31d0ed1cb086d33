// P07: transient linear solution equals the Newmark scheme for the model.
#include "fe.h"
using namespace fe;

struct Rec : PostProcessor {
  std::vector<DofId> dofs;
  std::vector<VX>* U; std::vector<VX>* R; std::vector<int>* steps; int* pres; std::vector<int>* posts;
  Rec(FEStorage* s) : PostProcessor(s) {}
  void pre() { ++*pres; }
  void process(uint16 step) {
    steps->push_back(step);
    VX u(dofs.size()), r(dofs.size());
    for (size_t i = 0; i < dofs.size(); i++) {
      u[i] = storage->getNodeDofSolution(nodeNo(dofs[i].first), dofs[i].second);
      r[i] = storage->getReaction(nodeNo(dofs[i].first), dofs[i].second);
    }
    U->push_back(u); R->push_back(r);
  }
  void post(uint16 step) { posts->push_back(step); }
};

static MX spd(Gen& g, int n, double lo, double hi, bool deficient) {
  MX R(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(i, j) = g.sreal(1);
  Eigen::HouseholderQR<MX> qr(R); MX Q = qr.householderQ();
  VX d(n); for (int i = 0; i < n; i++) d[i] = deficient && g.chance(1, 3) ? 0 : lo * std::pow(hi / lo, g.real(0, 1));
  return Q * d.asDiagonal() * Q.transpose();
}
// structure of user elements with stiffness, damping and inertia
static Model dynamics(Gen& g) {
  Model m;
  int n = (int) g.integer(2, 5);
  for (int i = 0; i < n; i++) m.x.push_back(V3(i, g.sreal(1), g.sreal(1)));
  int ne = (int) g.integer(1, 5);
  bool damp = g.chance(3, 4), massless = g.chance(1, 4), load = g.boolean();
  for (int e = 0; e < ne; e++) {
    El el; el.kind = ANY;
    el.n = g.sample(n, 2);
    el.K = spd(g, 6, 0.5, 20, g.boolean()); el.C = damp ? spd(g, 6, 0.1, 2, g.boolean()) : MX(MX::Zero(6, 6)); el.M = massless ? MX(MX::Zero(6, 6)) : spd(g, 6, 0.1, 3, false);
    el.F = VX::Zero(6); if (load) for (int i = 0; i < 6; i++) el.F[i] = g.sreal(3);
    m.el.push_back(el);
  }
  return m;
}
static Model heat(Gen& g) {
  Model m;
  addPlane(g, m, KQUAD, g.chance(1, 4) ? 9 : 4);
  for (auto& e : m.el) if (g.chance(1, 3)) e.vol = g.sreal(20);
  if (g.chance(2, 3)) addLines(g, m);
  if (g.boolean()) m = renumber(m, g.perm((int) m.x.size()), g.perm((int) m.el.size()));
  return m;
}

static void run(Gen& g, Model& m, bool anyFix) {
  Ref f(m);
  if (anyFix) {   // inertia or capacity makes every mode solvable: any or no support
    int k = (int) g.integer(0, std::min<int>(6, (int) f.dofs.size() - 1));
    for (int i : g.sample((int) f.dofs.size(), k)) m.fix.push_back({f.dofs[i], value(g, f.dofs[i].second)});
    int nl = (int) g.integer(0, 5);
    for (int i = 0; i < nl; i++) m.load.push_back({f.dofs[g.draw(f.dofs.size() - 1)], g.sreal(10)});
    f.setBC(m);
  } else f = genBC(g, m, 1e5);
  if (g.chance(1, 5) && f.freeD.size() >= 4) genMpc(g, m, f, 2);
  describe(g, m);
  int N = g.chance(1, 30) ? (int) g.integer(50, 400) : (int) g.integer(1, 24);
  double t0 = g.chance(1, 2) ? 0.0 : g.sreal(20), span = g.logreal(-1, 1) * N / 5;
  double delta = 0.5, alpha = 0.25;
  bool dflt = g.chance(1, 4);
  if (!dflt) {
    delta = g.chance(1, 3) ? 0.5 : g.real(0.5, 1.2);
    double amin = (0.5 + delta) * (0.5 + delta) / 4;
    alpha = amin * (g.boolean() ? 1.0 : g.real(1, 2));   // unconditionally stable
    if (g.chance(1, 4)) alpha = 0.5 * delta * g.oneOf({1.0, 1.0, 2.0}) ;
    if (alpha < amin) alpha = amin;
  }
  double init = g.chance(1, 3) ? 0 : g.sreal(f.dofs[0].second == Dof::TEMP ? 100 : 0.5);
  double dt = span / N;
  g.note << "; " << N << " steps, t " << t0 << " + " << span << ", alpha " << alpha << " delta " << delta << " init " << init;
  g.label(f.fixD.empty() ? "nothing prescribed" : "prescribed");
  if (m.mpc.size()) g.label("MPC");
  bool nz = init != 0 || f.F.cwiseAbs().maxCoeff() + f.P.cwiseAbs().maxCoeff() > 0;
  for (auto& b : m.fix) nz = nz || b.second != 0;
  g.nontrivial(N >= 2 && nz);

  // reference
  double a0 = 1 / (alpha * dt * dt), a1 = delta / (alpha * dt);
  int n = (int) f.freeD.size(), q = (int) f.A.rows(), D = (int) f.dofs.size();
  MX Keff = f.K + a1 * f.C + a0 * f.M, S = MX::Zero(n + q, n + q);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) = Keff(f.freeD[i], f.freeD[j]);
  for (int i = 0; i < q; i++) for (int j = 0; j < n; j++) S(n + i, j) = S(j, n + i) = f.A(i, f.freeD[j]);
  double cond = Ref::condOf(S);
  if (cond > 1e7) throw pbt::Discard{"ill conditioned"};
  Eigen::FullPivLU<MX> lu(S);
  std::vector<VX> U(N), R(N);
  VX u(D), v = VX::Zero(D), w = VX::Zero(D);
  for (int i = 0; i < D; i++) u[i] = init;
  for (int i : f.fixD) u[i] = f.U[i];
  double us = u.cwiseAbs().maxCoeff(), rs = 0;
  for (int s = 0; s < N; s++) {
    // Newmark: u+ = u + dt v + dt^2 ((1/2 - alpha) w + alpha w+),  v+ = v + dt ((1 - delta) w + delta w+)
    VX pw = -(u + dt * v) / (alpha * dt * dt) - (0.5 - alpha) / alpha * w;      // w+ = u+ / (alpha dt^2) + pw
    VX pv = v + dt * ((1 - delta) * w + delta * pw);                            // v+ = a1 u+ + pv
    VX load = f.F + f.P - f.C * pv - f.M * pw;
    VX rhs(n + q);
    for (int i = 0; i < n; i++) {
      rhs[i] = load[f.freeD[i]];
      for (int j : f.fixD) rhs[i] -= Keff(f.freeD[i], j) * f.U[j];
    }
    for (int i = 0; i < q; i++) { rhs[n + i] = f.b[i]; for (int j : f.fixD) rhs[n + i] -= f.A(i, j) * f.U[j]; }
    VX x = lu.solve(rhs);
    x += lu.solve(rhs - S * x);
    VX un = u;
    for (int i = 0; i < n; i++) un[f.freeD[i]] = x[i];
    VX wn = un / (alpha * dt * dt) + pw, vn = a1 * un + pv;
    for (int i : f.fixD) { wn[i] = 0; vn[i] = 0; }
    VX full = f.K * un + f.C * vn + f.M * wn - f.F + f.A.transpose() * VX(x.tail(q));
    rs = std::max(rs, (f.K.cwiseAbs() * un.cwiseAbs() + f.C.cwiseAbs() * (vn.cwiseAbs() + a1 * un.cwiseAbs()) + f.M.cwiseAbs() * (wn.cwiseAbs() + a0 * un.cwiseAbs()) + f.F.cwiseAbs()).maxCoeff());
    us = std::max(us, un.cwiseAbs().maxCoeff());
    u = un; v = vn; w = wn;
    U[s] = u; R[s] = f.P;
    for (int i : f.fixD) R[s][i] = full[i];
  }

  std::vector<VX> LU, LR; std::vector<int> steps, posts; int pres = 0;
  {
    FEStorage st;
    LinearTransientFESolver so;
    buildMesh(m, st, (int) g.integer(0, 1));
    so.attachFEStorage(&st);
    buildBC(m, so);
    std::unique_ptr<math::EquationSolver> eq;
    int ek = eqKinds(g);
    if (ek == 1) eq.reset(new math::GaussDenseEquationSolver);
#ifdef NLA3D_USE_MKL
    if (ek == 2) eq.reset(new math::PARDISO_equationSolver);
#endif
    if (eq) so.attachEquationSolver(eq.get());
    so.numberOfTimesteps = (uint16) N; so.time0 = t0; so.time1 = t0 + span; so.initValue = init;
    if (!dflt) { so.alpha = alpha; so.delta = delta; }
    Rec* r = new Rec(&st);
    r->dofs = f.dofs; r->U = &LU; r->R = &LR; r->steps = &steps; r->pres = &pres; r->posts = &posts;
    so.addPostProcessor(r);
    so.solve();
  }
  EXPECT((int) steps.size() == N, "asked for " << N << " steps, " << steps.size() << " were processed");
  for (int s = 0; s < N; s++) EXPECT(steps[s] == s + 1, "step " << s + 1 << " is reported as " << steps[s]);
  EXPECT(pres == 1 && posts.size() == 1, "pre() called " << pres << " times, post() " << posts.size());
  double grow = 1 + N * 0.2;
  double tol = (1e-13 * cond * 10 + 1e-10) * grow + 1e-9;
  if (m.mpc.size()) tol *= 10;
  us = std::max(us, 1e-3); rs = std::max(rs, 1e-3);
  for (int s = 0; s < N; s++) {
    for (int i : f.fixD) EXPECT(LU[s][i] == f.U[i], "step " << s + 1 << ": prescribed " << dofStr(f.dofs[i]) << " is " << LU[s][i] << ", not " << f.U[i]);
    for (int i = 0; i < D; i++) {
      EXPECT(std::fabs(LU[s][i] - U[s][i]) <= tol * us, "step " << s + 1 << ": " << dofStr(f.dofs[i]) << " is " << LU[s][i] << ", Newmark gives " << U[s][i] << " (size " << us << ")");
      EXPECT(std::fabs(LR[s][i] - R[s][i]) <= tol * rs, "step " << s + 1 << ": reaction or load at " << dofStr(f.dofs[i]) << " is " << LR[s][i] << ", Newmark gives " << R[s][i] << " (size " << rs << ")");
    }
  }
}

FACET(heat_transfer, "at least two steps and something that drives the temperatures", 3000, 40000) {
  Model m = heat(g);
  run(g, m, true);
}
FACET(structural_dynamics, "at least two steps and something that drives the motion", 3000, 40000) {
  Model m = dynamics(g);
  run(g, m, false);
}
// the biggest step count the interface can take
FACET(most_steps, "always", 2, 4) {
  int N = 65535 - (int) g.integer(0, 1);
  g.note << N << " steps"; g.nontrivial(true);
  FEStorage st; LinearTransientFESolver so;
  Model m; m.x = {V3(0, 0, 0), V3(1, 0, 0)};
  El e; e.kind = ANY; e.n = {0, 1}; e.K = MX::Identity(6, 6); e.C = MX::Identity(6, 6) * 0.1; e.M = MX::Identity(6, 6); e.F = VX::Zero(6);
  m.el.push_back(e);
  for (int c = 0; c < 5; c++) m.fix.push_back({DofId(c / 3, c % 3 == 0 ? Dof::UX : c % 3 == 1 ? Dof::UY : Dof::UZ), 0.0});
  m.load.push_back({DofId(1, Dof::UZ), 1.0});
  buildMesh(m, st); so.attachFEStorage(&st); buildBC(m, so);
  so.numberOfTimesteps = (uint16) N; so.time1 = 300;
  struct Count : PostProcessor { long* n; Count(FEStorage* s) : PostProcessor(s) {} void pre() {} void process(uint16) { ++*n; } void post(uint16) {} };
  long n = 0; Count* c = new Count(&st); c->n = &n; so.addPostProcessor(c);
  so.solve();
  EXPECT(n == N, n << " steps made");
  EXPECT_CLOSE(st.getNodeDofSolution(2, Dof::UZ), 1.0, 1e-4, 1, "value after the oscillation died out");
}
