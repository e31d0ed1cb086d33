// P09: the tangent of the nonlinear elements is the derivative of their internal force.
#include "hyper.h"
using namespace hyper;

static std::string who(const Body& b, int i) { return i < b.nu() ? fe::dofStr(b.dof(i)) : "pressure of element " + std::to_string(i - b.nu() + 1); }
// prescribed degrees of freedom only change where the entries are stored
static void someFix(Gen& g, Body& b) {
  int k = g.chance(1, 3) ? 0 : (int) g.integer(1, std::min(6, b.nu() - 1));
  for (int i : g.sample(b.nu(), k)) b.fix.push_back({b.dof(i), 0.0});
}
static void compare(const Body& b, const VX& u, const VX& F, const MX& K, double f = 1) {
  Eval r = evaluate(b, u, true, true);
  double cond = 1;
  for (auto& n : b.el) for (auto& q : points(b, n, b.order)) { M3 A = defGrad(b, n, q, u), C = A.transpose() * A; cond = std::max(cond, C.norm() * C.inverse().norm()); }
  double tol = 1e-13 * (20 + cond) * f;
  // absolute sizes: cancellation inside the stress is bounded by the pressure and shear parts of the tangent
  double hs = r.hAbs.topLeftCorner(b.nu(), b.nu()).maxCoeff(), fs = r.gAbs.head(b.nu()).maxCoeff();
  double size = 0; for (size_t i = 0; i < b.x.size(); i++) for (size_t j = 0; j < i; j++) size = std::max(size, (b.x[i] - b.x[j]).norm());
  fs += hs * size * 0.1;
  double cs = 0; for (int i = 0; i < b.nu(); i++) for (int j = b.nu(); j < b.N(); j++) cs = std::max(cs, r.hAbs(i, j));
  for (int i = 0; i < b.N(); i++) {
    bool pi = i >= b.nu();
    EXPECT(std::fabs(F[i] + r.g[i]) <= tol * (pi ? r.gAbs[i] : fs), "force in " << who(b, i) << " is " << F[i] << ", minus the derivative of the energy is " << -r.g[i]);
    for (int j = 0; j < b.N(); j++) {
      bool pj = j >= b.nu();
      double s = pi && pj ? std::fabs(r.h(i, i)) : pi || pj ? cs : hs;
      EXPECT(std::fabs(K(i, j) - r.h(i, j)) <= tol * s, "tangent " << who(b, i) << " / " << who(b, j) << " is " << K(i, j) << ", the force changes by " << r.h(i, j));
    }
  }
}
static void run(Gen& g, bool plane, int maxEl) {
  Body b = genBody(g, plane, maxEl, g.boolean(), true);
  someFix(g, b);
  describe(g, b);
  Lib L(b);
  int states = g.chance(1, 3) ? 2 : 1;      // no memory of an earlier state
  for (int s = 0; s < states; s++) {
    VX u = genState(g, b);
    double um = u.head(b.nu()).cwiseAbs().maxCoeff();
    if (s == 0) g.nontrivial(um > 1e-3);
    g.note << "; |u| " << um;
    L.set(u);
    VX F; MX K; L.assemble(F, &K);
    compare(b, u, F, K, 1 + um);
    if (g.chance(1, 4)) { VX F2; MX K2; L.assemble(F2, &K2); EXPECT(F2 == F && K2 == K, "assembling once more gives other numbers"); }
  }
}
FACET(plane, "displacements beyond 1e-3", 30000, 800000) { run(g, true, 4); }
FACET(solid, "displacements beyond 1e-3", 9000, 240000) { run(g, false, 3); }
// the internal force is the derivative of the energy the library itself reports
FACET(reported_energy, "displacements beyond 1e-3", 4200, 120000) {
  Body b = genBody(g, false, 2, true, false);
  describe(g, b);
  VX u = genState(g, b, 0.4);
  for (int i = b.nu(); i < b.N(); i++) u[i] = 0;
  g.nontrivial(u.cwiseAbs().maxCoeff() > 1e-3);
  Lib L(b);
  auto energy = [&](const VX& v) {
    L.set(v); double s = 0;
    for (size_t e = 0; e < b.el.size(); e++) { double w = 0, vol = 0; Element& x = L.st.getElement((uint32) e + 1); EXPECT(x.getScalar(&w, scalarQuery::WU) && x.getScalar(&vol, scalarQuery::VOL), "SOLID81 refuses WU or VOL"); s += w * vol; }
    return s;
  };
  L.set(u); VX F; L.assemble(F, nullptr);
  Eval r = evaluate(b, u, true, true);
  VX d = VX::Zero(b.N()); for (int i = 0; i < b.nu(); i++) d[i] = g.sreal(1);
  double h0 = 1e300; for (auto& n : b.el) for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < i; j++) h0 = std::min(h0, (b.x[n[i]] - b.x[n[j]]).norm());
  double h = 1e-3 * h0 * std::min(1.0, minJ(b, u));
  double e[4]; static const double k[4] = {-2, -1, 1, 2};
  for (int i = 0; i < 4; i++) e[i] = energy(u + k[i] * h * d);
  double got = -F.dot(d), want = (e[0] - 8 * e[1] + 8 * e[2] - e[3]) / (12 * h);
  double sc = r.gAbs.head(b.nu()).sum() + r.hAbs.topLeftCorner(b.nu(), b.nu()).maxCoeff() * h0;
  EXPECT(std::fabs(got - want) <= 1e-7 * sc, "the force does the work " << got << ", the reported energy changes by " << want);
}
