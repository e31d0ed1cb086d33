// P01: the linear static solution equals the independently assembled and solved finite element system.
#include "fe.h"
using namespace fe;

// compares the library's solution with the reference: backward error of every equation in its own scale, and
// the distance to the reference solution as far as the conditioning allows
static void compareSolution(Gen& g, const Model& m, Ref& f, Run& r, int ek) {
  f.solve();
  if (f.cond > 1e8) throw pbt::Discard{"ill conditioned"};
  VX U = r.U(f);
  for (auto& p : m.fix) EXPECT(r.u(p.first) == p.second, "prescribed value of " << dofStr(p.first) << " is " << r.u(p.first) << ", given " << p.second);
  VX Uabs = U.cwiseAbs().cwiseMax(f.U.cwiseAbs());
  VX sc = rowScale(f, Uabs) + f.A.transpose().cwiseAbs() * f.lambda.cwiseAbs();
  double tol = 1e-9 + quadTol(m) * 10;
  // forward: per kind of unknown
  for (int th = 0; th < 2; th++) {
    double s = 0, err = 0; int at = -1;
    for (size_t i = 0; i < f.dofs.size(); i++) if ((f.dofs[i].second == Dof::TEMP) == (th == 1)) {
      s = std::max(s, std::fabs(f.U[i]));
      double e = std::fabs(U[i] - f.U[i]);
      if (!(e <= err)) { err = e; at = (int) i; }
    }
    double ft = (1e-12 + quadTol(m)) * f.cond + (ek == 2 && m.mpc.size() ? 1e-8 : 1e-9);   // PARDISO perturbs small pivots of saddle systems
    // values prescribed elsewhere set the scale of a field that is almost zero
    if (at >= 0) EXPECT(err <= std::max(ft, 1e-9) * std::max(s, 1e-3), dofStr(f.dofs[at]) << " = " << U[at] << ", reference " << f.U[at] << " (cond " << f.cond << ")");
  }
  if (f.A.rows() == 0) {
    VX res = f.K * U - f.F - f.P;
    for (int i : f.freeD) EXPECT(std::fabs(res[i]) <= tol * (sc[i] + 1e-6 * sc.maxCoeff() + 1e-6), "equation of " << dofStr(f.dofs[i]) << " is off by " << res[i] << " at scale " << sc[i]);
  }
}

FACET(mixed_models, "at least 6 free unknowns and a non-zero solution", 5000, 100000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m);
  describe(g, m);
  int ek = eqKinds(g);
  Run r(m, ek, (int) g.integer(0, 1));
  compareSolution(g, m, f, r, ek);
  g.nontrivial(f.freeD.size() >= 6 && f.U.cwiseAbs().maxCoeff() > 1e-9);
}

FACET(with_mpc, "at least one multi-point equation in force and a non-zero solution", 3000, 60000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  genMpc(g, m, f);
  describe(g, m);
  int ek = eqKinds(g);
  Run r(m, ek, (int) g.integer(0, 1));
  compareSolution(g, m, f, r, ek);
  g.nontrivial(m.mpc.size() > 0 && f.U.cwiseAbs().maxCoeff() > 1e-9);
}

// stiffness from physical constants: one big common factor and mixed element sizes
FACET(physical_scales, "at least 6 free unknowns and a non-zero solution", 1500, 30000) {
  Model m = genMesh(g, g.boolean() ? MECH : THERM);
  double s = g.logreal(-3, 11), l = g.logreal(-3, 3);
  for (auto& x : m.x) x *= l;
  for (auto& e : m.el) {
    e.E *= s; e.k *= s; e.kn *= s * l; e.ks *= s * l; e.A *= l * l; e.htc *= s / l; e.vol *= s / (l * l); e.flux *= s / l;
    if (e.kind == INTER) { e.kn /= l * l; e.ks /= l * l; }
    if (e.kind == SPRING) { }
  }
  // plane elements have unit thickness: bring them to the stiffness of the others
  for (auto& e : m.el) if (e.kind == TRI) { e.E *= l; }
  Ref f = genBC(g, m);
  for (auto& p : m.fix) if (p.first.second != Dof::TEMP) p.second *= l;
  for (auto& q : m.load) q.v *= s * l * (q.d.second == Dof::TEMP ? 1 : l);
  f.setBC(m);
  describe(g, m);
  g.note << " stiffness x" << s << " size x" << l;
  Run r(m, eqKinds(g), 0);
  f.solve();
  if (f.cond > 1e8) throw pbt::Discard{"ill conditioned"};
  double mx = f.U.cwiseAbs().maxCoeff(), err = (r.U(f) - f.U).cwiseAbs().maxCoeff();
  EXPECT(err <= ((1e-12 + quadTol(m)) * f.cond + 1e-9) * mx, "solution differs by " << err << " from the reference of size " << mx << " (cond " << f.cond << ")");
  g.nontrivial(f.freeD.size() >= 6 && mx > 0);
}
