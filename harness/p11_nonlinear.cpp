// P11: the nonlinear solution is an equilibrium path scaled by load-step time.
#include "hyper.h"
using namespace hyper;

static double sizeOf(const Body& b) { double s = 0; for (size_t i = 0; i < b.x.size(); i++) for (size_t j = 0; j < i; j++) s = std::max(s, (b.x[i] - b.x[j]).norm()); return s; }
static void compare(const Problem& p, const Path& f, const NlRun& r, double uTol, double fTol) {
  const Body& b = p.b;
  EXPECT((int) r.steps.size() == p.steps, "asked for " << p.steps << " load steps, " << r.steps.size() << " were made");
  for (int s = 0; s < p.steps; s++) EXPECT(r.steps[s] == s + 1, "load step " << s + 1 << " is reported as " << r.steps[s]);
  EXPECT(r.pres == 1 && r.posts.size() == 1, "pre() or post() called wrongly");
  double L = sizeOf(b), G = b.mat.c[0], fs = f.fs.head(b.nu()).maxCoeff() + 1e-3 * G * std::pow(L, b.nd() - 1);
  std::set<int> fixed; for (auto& x : b.fix) fixed.insert(b.at(x.first));
  for (int s = 0; s < p.steps; s++) {
    double t = (s + 1.0) / p.steps;
    for (auto& x : b.fix) EXPECT(std::fabs(r.z[s][b.at(x.first)] - x.second * t) <= 1e-12 * std::fabs(x.second), "step " << s + 1 << ": prescribed " << fe::dofStr(x.first) << " is " << r.z[s][b.at(x.first)] << ", not " << x.second << " * " << t);
    // equilibrium at the library's own state (multipliers: best fit)
    Eval e = evaluate(b, r.z[s], true);
    VX c; MX A; constraints(p, r.z[s], c, A);
    VX res = e.g - r.R[s].head(b.N()); 
    if (c.size()) {
      EXPECT(c.cwiseAbs().maxCoeff() <= 1e-11 * (1 + L), "step " << s + 1 << ": a constraint is violated by " << c.cwiseAbs().maxCoeff());
      MX At = A.transpose().topRows(b.N()); VX lam = At.colPivHouseholderQr().solve(-res); res += At * lam;
    }
    for (int i = 0; i < b.nu(); i++) EXPECT(std::fabs(res[i]) <= fTol * fs, "step " << s + 1 << ": no equilibrium in " << p.who(i) << ", internal minus external force " << res[i] << " (size " << fs << ")");
    for (int i = b.nu(); i < b.N(); i++) EXPECT(std::fabs(e.g[i]) <= uTol * std::pow(L, b.nd()), "step " << s + 1 << ": " << p.who(i) << " leaves " << e.g[i]);
    for (int i = 0; i < b.N(); i++) {
      double sc = i < b.nu() ? L : b.mat.K();
      EXPECT(std::fabs(r.z[s][i] - f.z[s][i]) <= uTol * sc, "step " << s + 1 << ": " << p.who(i) << " is " << r.z[s][i] << ", equilibrium is at " << f.z[s][i]);
    }
    for (int i = 0; i < b.nu(); i++) {
      if (fixed.count(i)) EXPECT(std::fabs(r.R[s][i] - f.R[s][i]) <= fTol * fs, "step " << s + 1 << ": reaction in " << p.who(i) << " is " << r.R[s][i] << ", equilibrium needs " << f.R[s][i]);
      else EXPECT(std::fabs(r.R[s][i] - f.R[s][i]) <= 1e-12 * std::fabs(f.R[s][i]), "step " << s + 1 << ": load in " << p.who(i) << " is " << r.R[s][i] << ", not " << f.R[s][i]);
    }
  }
}
static void run(Gen& g, bool plane, int maxEl) {
  Problem p = genProblem(g, plane, maxEl);
  describe(g, p.b);
  g.note << "; " << p.b.fix.size() << " prescribed, " << p.b.load.size() << " loads, " << p.b.mpc.size() << " MPC, " << p.steps << " steps, criterion " << p.crit << ", time " << p.t0 << ".." << p.t1;
  Path f = solve(p);
  if (!f.ok) throw pbt::Discard{f.why.c_str()};
  if (f.its > 14) throw pbt::Discard{"slow convergence"};
  for (double q : f.gap) if (q < 1e-5) throw pbt::Discard{"not stable"};
  g.label(p.b.mpc.size() ? "MPC" : "no MPC"); if (p.b.load.size()) g.label("loads");
  double um = f.z.back().head(p.b.nu()).cwiseAbs().maxCoeff();
  g.nontrivial(um > 0.01 * sizeOf(p.b));
  NlRun r(p, fe::eqKinds(g));
  double uTol = 1e-8, fTol = 1e-7;
  compare(p, f, r, uTol, fTol);
  if (g.chance(1, 3)) {   // the end does not depend on the number of steps
    Problem q = p; q.steps = p.steps + (int) g.integer(1, 4); q.t0 = 0; q.t1 = 1;
    // (large steps may lead to another equilibrium)
    Path f2 = solve(q);
    if (!f2.ok || f2.its > 14 || (f2.z.back() - f.z.back()).cwiseAbs().maxCoeff() > 1e-6 * sizeOf(p.b) * (1 + p.b.mat.K())) return;
    g.label("other step count");
    NlRun r2(q);
    double L = sizeOf(p.b);
    for (int i = 0; i < p.b.N(); i++) { double sc = i < p.b.nu() ? L : p.b.mat.K(); EXPECT(std::fabs(r2.z.back()[i] - r.z.back()[i]) <= 2 * uTol * sc, p.who(i) << " is " << r.z.back()[i] << " after " << p.steps << " steps, " << r2.z.back()[i] << " after " << q.steps); }
  }
}
FACET(plane, "displacements beyond 1% of the size", 1000, 20000) { run(g, true, 4); }
FACET(solid, "displacements beyond 1% of the size", 400, 8000) { run(g, false, 3); }

// a straight block pulled or compressed along one axis, other faces free, against the closed-form state
FACET(uniaxial, "stretch other than one", 300, 6000) {
  Problem p; Body& b = p.b; b.plane = g.boolean(); b.mat = genMat(g, true); b.order = (int) g.integer(2, 3);
  int d = b.nd(), n[3] = {(int) g.integer(1, 2), (int) g.integer(1, 2), b.plane ? 0 : 1};
  V3 h(g.real(0.4, 2), g.real(0.4, 2), g.real(0.4, 2));
  int ax = (int) g.integer(0, d - 1);
  for (int k = 0; k <= n[2]; k++) for (int j = 0; j <= n[1]; j++) for (int i = 0; i <= n[0]; i++) b.x.push_back(V3(i * h[0], j * h[1], b.plane ? 0 : k * h[2]));
  auto id = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
  for (int k = 0; k < std::max(1, n[2]); k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
    std::vector<int> e = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k)};
    if (!b.plane) for (int q = 0; q < 4; q++) e.push_back(e[q] + (n[0] + 1) * (n[1] + 1));
    b.el.push_back(e);
  }
  V3 L(n[0] * h[0], n[1] * h[1], b.plane ? 1 : h[2]);
  double st = g.real(0.8, 1.5);
  std::vector<int> top;
  for (size_t i = 0; i < b.x.size(); i++) for (int c = 0; c < d; c++) {
    if (b.x[i][c] == 0) b.fix.push_back({b.dof((int) i * d + c), 0.0});
    else if (c == ax && b.x[i][c] > L[c] - 1e-9) { b.fix.push_back({b.dof((int) i * d + c), (st - 1) * L[c]}); top.push_back((int) i); }
  }
  p.steps = (int) g.integer(2, 6);
  describe(g, b); g.note << "; stretch " << st << " along " << "xyz"[ax] << " in " << p.steps << " steps"; g.nontrivial(std::fabs(st - 1) > 0.02);
  Path f = solve(p); if (!f.ok || f.its > 14) throw pbt::Discard{"no convergence"};
  NlRun r(p, fe::eqKinds(g));
  // lateral stretch a: P_lateral = 0, p = k (J - 1)
  auto stress = [&](double s, double a, double& pl, double& pa) {
    M3 F = M3::Identity(); for (int c = 0; c < d; c++) F(c, c) = c == ax ? s : a;
    D2<9> J, W0 = energyF(b.mat, F, 0, J); double pr = b.mat.K() * (J.v - 1);
    D2<9> W = energyF(b.mat, F, pr, J); int la = ax == 0 ? 1 : 0;
    pl = W.g[4 * la]; pa = W.g[4 * ax];
    return pr;
  };
  for (int s = 0; s < p.steps; s++) {
    double sv = 1 + (st - 1) * (s + 1) / p.steps, lo = 0.4, hi = 2.0, pl, pa, pr = 0;
    for (int it = 0; it < 200; it++) { double a = (lo + hi) / 2; pr = stress(sv, a, pl, pa); (pl > 0 ? hi : lo) = a; }
    double area = 1; for (int c = 0; c < d; c++) if (c != ax) area *= L[c];
    double R = 0; for (int i : top) R += r.R[s][d * i + ax];
    double K = b.mat.K(), G = b.mat.c[0];
    EXPECT_CLOSE(R, pa * area, 1e-7, (std::fabs(pa) + G) * area, "step " << s + 1 << ": pulling force");
    for (size_t e = 0; e < b.el.size(); e++) EXPECT_CLOSE(r.z[s][b.nu() + e], pr, 1e-7, std::fabs(pr) + K * 1e-3, "step " << s + 1 << ": pressure");
    for (size_t i = 0; i < b.x.size(); i++) for (int c = 0; c < d; c++) EXPECT_CLOSE(r.z[s][d * i + c], ((c == ax ? sv : (lo + hi) / 2) - 1) * b.x[i][c], 1e-8, L.maxCoeff(), "step " << s + 1 << ": " << p.who((int) i * d + c));
  }
}
