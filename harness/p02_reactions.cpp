// P02: reactions.
#include "fe.h"
using namespace fe;

static void checkReactions(Gen& g, const Model& m, Ref& f, Run& r) {
  VX U = r.U(f);
  VX sc = rowScale(f, U) + f.A.transpose().cwiseAbs() * f.lambda.cwiseAbs();
  double tol = 1e-9 + 10 * quadTol(m);
  std::set<int> fx(f.fixD.begin(), f.fixD.end());
  for (size_t i = 0; i < f.dofs.size(); i++) {
    double got = r.r(f.dofs[i]);
    if (fx.count((int) i)) continue;
    EXPECT(std::fabs(got - f.P[i]) <= 1e-13 * std::max(1.0, std::fabs(f.P[i])) , "load reported at " << dofStr(f.dofs[i]) << " is " << got << ", put on it " << f.P[i]);
  }
  if (f.A.rows() == 0) {
    // equilibrium with the library's own displacements
    VX full = f.K * U - f.F;
    for (int i : f.fixD) EXPECT(std::fabs(r.r(f.dofs[i]) - full[i]) <= tol * (sc[i] + 1e-10 * sc.maxCoeff()), "reaction at " << dofStr(f.dofs[i]) << " is " << r.r(f.dofs[i]) << ", equilibrium needs " << full[i]);
  } else {
    double ft = (1e-11 + quadTol(m)) * f.cond + 1e-8;
    for (int th = 0; th < 2; th++) {
      double s = 0;
      for (size_t i = 0; i < f.dofs.size(); i++) if ((f.dofs[i].second == Dof::TEMP) == (th == 1)) s = std::max(s, sc[i]);
      for (int i : f.fixD) if ((f.dofs[i].second == Dof::TEMP) == (th == 1))
        EXPECT(std::fabs(r.r(f.dofs[i]) - f.R[i]) <= ft * s, "reaction at " << dofStr(f.dofs[i]) << " is " << r.r(f.dofs[i]) << ", reference " << f.R[i] << " (scale " << s << ", cond " << f.cond << ")");
    }
  }
  // the same through equation numbers; unused degrees of freedom
  static const Dof::dofType all[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};
  for (size_t n = 0; n < m.x.size(); n++) for (auto t : all) {
    DofId d((int) n, t);
    if (f.id.count(d)) EXPECT(r.st.getReaction(r.st.getNodeDofEqNumber(nodeNo(n), t)) == r.r(d), "reaction by equation number differs from the one by node for " << dofStr(d));
    else EXPECT(r.r(d) == 0.0, "unused " << dofStr(d) << " reports " << r.r(d));
  }
}

FACET(reactions, "a prescribed dof with a non-zero reaction", 6000, 100000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m);
  describe(g, m);
  Run r(m, eqKinds(g));
  f.solve();
  if (f.cond > 1e8) throw pbt::Discard{"ill conditioned"};
  checkReactions(g, m, f, r);
  double mx = 0; for (int i : f.fixD) mx = std::max(mx, std::fabs(f.R[i]));
  g.nontrivial(mx > 1e-9);
}

FACET(reactions_with_mpc, "multi-point equations in force and a non-zero reaction", 4000, 60000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  genMpc(g, m, f);
  describe(g, m);
  Run r(m, eqKinds(g));
  f.solve();
  if (f.cond > 1e8) throw pbt::Discard{"ill conditioned"};
  checkReactions(g, m, f, r);
  double mx = 0; for (int i : f.fixD) mx = std::max(mx, std::fabs(f.R[i]));
  g.nontrivial(m.mpc.size() > 0 && mx > 1e-9);
}

// no reference system at all: sums over the body
FACET(global_balance, "three or more prescribed dofs and a non-zero reaction", 4000, 60000) {
  Model m = genMesh(g);
  for (auto& e : m.el) { if (e.kind == KLINE) { e.htc = 0; } if (e.kind == INTER) for (int j = 0; j < 3; j++) m.x[e.n[3 + j]] = m.x[e.n[j]]; }
  for (size_t i = 0; i < m.el.size();) { if (m.el[i].kind == SPRING && (m.x[m.el[i].n[0]] - m.x[m.el[i].n[1]]).norm() > 1e-12) m.el.erase(m.el.begin() + i); else i++; }
  Ref f = genBC(g, m);
  describe(g, m);
  Run r(m, eqKinds(g));
  f.solve();
  if (f.cond > 1e8) throw pbt::Discard{"ill conditioned"};
  V3 S(0, 0, 0), M(0, 0, 0); double Q = 0, fs = 0, ms = 0, qs = 0;
  for (size_t n = 0; n < m.x.size(); n++) {
    V3 F(r.r(DofId(n, Dof::UX)), r.r(DofId(n, Dof::UY)), r.r(DofId(n, Dof::UZ)));
    S += F; M += m.x[n].cross(F); fs += F.cwiseAbs().sum(); ms += F.norm() * m.x[n].norm();
    double q = r.r(DofId(n, Dof::TEMP)); Q += q; qs += std::fabs(q);
  }
  // heat sources and fluxes inside the body
  for (auto& e : m.el) if (e.kind == KQUAD || e.kind == KLINE) {
    MX K, C, M; VX F; elMat(m, e, K, C, M, F); Q += F.sum(); qs += F.cwiseAbs().sum();
  }
  // terms the sums cancel from
  VX U = r.U(f); double ks = 0, kt = 0;
  VX sc = rowScale(f, U);
  for (size_t i = 0; i < f.dofs.size(); i++) (f.dofs[i].second == Dof::TEMP ? kt : ks) += sc[i];
  double tol = 1e-9 + quadTol(m), len = 0; for (auto& x : m.x) len = std::max(len, x.norm());
  EXPECT(S.norm() <= tol * (fs + ks), "forces on the body sum to " << S.transpose() << " (scale " << fs << ")");
  EXPECT(M.norm() <= tol * (ms + ks * len) * 10, "moments on the body sum to " << M.transpose() << " (scale " << ms << ")");
  EXPECT(std::fabs(Q) <= tol * (qs + kt), "heat flows sum to " << Q << " (scale " << qs << ")");
  g.nontrivial(f.fixD.size() >= 3 && fs + qs > 1e-9);
}
