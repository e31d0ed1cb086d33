// P06: thermal loads balance and act where they are applied.
#include "fe.h"
using namespace fe;

static Model genHeat(Gen& g, bool lowOrder) {
  Model m;
  double h = g.weighted({3, 1}) == 0 ? 1.0 : g.logreal(-3, 3);
  addPlane(g, m, KQUAD, g.chance(1, 4) ? 12 : 4);
  for (auto& e : m.el) if (g.chance(1, 2)) e.vol = g.sreal(20);
  if (g.chance(1, 5)) for (auto& e : m.el) e.order = lowOrder && g.chance(1, 3) ? 1 : (int) g.integer(2, 3);
  if (g.chance(4, 5)) addLines(g, m);
  if (g.chance(1, 5)) addLines(g, m);    // several conditions on one edge
  if (g.chance(1, 5)) {                   // surface conditions on edges that lead through the body or stand alone
    std::vector<int> p = g.sample((int) m.x.size(), 2);
    El e; e.kind = KLINE; e.n = {p[0], p[1]}; e.flux = g.sreal(5); e.htc = g.boolean() ? g.real(0, 4) : 0; e.et[0] = g.sreal(30); e.order = (int) g.integer(1, 3);
    m.el.push_back(e);
  }
  if (g.chance(1, 4)) addTets(g, m, TETH, 2, V3(10, 10, 0));
  if (g.chance(1, 3)) { Eigen::Matrix3d R = Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix(); for (auto& x : m.x) x = R * x; }
  for (auto& x : m.x) x *= h;
  if (h != 1) { g.label("scaled"); g.note << "size " << h << "; "; }
  if (g.boolean()) m = renumber(m, g.perm((int) m.x.size()), g.perm((int) m.el.size()));
  return m;
}

FACET(balance, "heat enters in at least two ways (source, flux, convection, nodal flow)", 5000, 100000) {
  Model m = genHeat(g, true);
  Ref f = genBC(g, m, 1e6);
  if (f.fixD.empty() && g.chance(1, 2)) throw pbt::Discard{"nothing prescribed"};
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  Run r(m, eqKinds(g), (int) g.integer(0, 1));
  // heat put into the body, term by term, from the temperatures the library reports
  auto T = [&](int n) { return r.u(DofId(n, Dof::TEMP)); };
  double in = 0, sc = 0; int ways = 0;
  bool w1 = false, w2 = false, w3 = false;
  for (auto& e : m.el) {
    if (e.kind == KQUAD && e.vol != 0) {
      double A = 0;
      for (int c = 0; c < 4; c++) { const V3 &x = m.x[e.n[c]], &y = m.x[e.n[(c + 1) % 4]]; A += (x[0] * y[1] - x[1] * y[0]) / 2; }
      in += e.vol * A; sc += std::fabs(e.vol * A); w1 = true;
    }
    if (e.kind == KLINE) {
      double L = (m.x[e.n[1]] - m.x[e.n[0]]).norm(), e0 = e.et[0], e1 = e.et[1] == 0 ? e.et[0] : e.et[1];
      // the mean of a linear function is the mean of its ends, for any number of points
      double q = e.htc * L * ((e0 + e1) / 2 - (T(e.n[0]) + T(e.n[1])) / 2);
      in += e.flux * L + q;
      sc += std::fabs(e.flux * L) + e.htc * L * (std::fabs(e0) + std::fabs(e1) + std::fabs(T(e.n[0])) + std::fabs(T(e.n[1]))) / 2;
      w2 = w2 || e.flux != 0; w3 = w3 || e.htc != 0;
    }
  }
  std::set<DofId> fx; for (auto& b : m.fix) fx.insert(b.first);
  bool w4 = false;
  for (auto& l : m.load) if (!fx.count(l.d)) { in += l.v; sc += std::fabs(l.v); w4 = true; }
  VX rs = rowScale(f, f.U);
  for (auto& b : m.fix) { double R = r.r(b.first); in += R; sc += std::fabs(R) + rs[f.id.at(b.first)]; }
  ways = w1 + w2 + w3 + w4;
  g.nontrivial(ways >= 2);
  if (w3) g.label("convection");
  double tol = 1e-12 * f.cond + 1e-9;
  EXPECT(std::fabs(in) <= tol * (sc + rs.maxCoeff() + 1e-300), "heat put in doesn't leave: excess " << in << ", terms of size " << sc);
  // and the temperatures are those of the reference
  double us[2]; fieldMax(f, f.U, us);
  VX U = r.U(f), R = r.R(f);
  for (size_t i = 0; i < f.dofs.size(); i++) {
    EXPECT(std::fabs(U[i] - f.U[i]) <= tol * std::max(us[1], 1e-3), dofStr(f.dofs[i]) << " is " << U[i] << ", reference " << f.U[i]);
    EXPECT(std::fabs(R[i] - f.R[i]) <= tol * std::max(rs.maxCoeff(), 1e-12), "heat flow at " << dofStr(f.dofs[i]) << " is " << R[i] << ", reference " << f.R[i]);
  }
}

// one surface element: closed form of its terms
FACET(surface, "flux or convection is not zero", 6000, 100000) {
  Model m;
  double s = g.logreal(-3, 3);
  V3 a(g.sreal(3), g.sreal(3), g.chance(1, 4) ? g.sreal(2) : 0), d(g.sreal(1), g.sreal(1), 0);
  if (g.chance(1, 4)) d = V3(g.oneOf({1.0, -1.0, 0.0}), g.oneOf({1.0, -1.0}), 0);
  if (d.norm() < 0.05) d = V3(1, 0, 0);
  m.x = {a, a + s * d};
  El e; e.kind = KLINE; e.n = {0, 1};
  if (g.boolean()) e.flux = g.sreal(5);
  if (g.boolean()) e.htc = g.real(0, 5);
  int amb = (int) g.integer(0, 3);
  e.et[0] = amb == 3 ? 0 : g.sreal(30); e.et[1] = amb == 0 ? 0 : g.sreal(30);
  e.order = (int) g.integer(1, 3);
  m.el.push_back(e);
  double L = s * d.norm();
  double e0 = e.et[0], e1 = e.et[1] == 0 ? e0 : e.et[1];
  g.note << "length " << L << " flux " << e.flux << " htc " << e.htc << " ambient " << e.et[0] << " " << e.et[1] << " order " << e.order;
  g.nontrivial(e.flux != 0 || e.htc != 0);
  g.label("order " + std::to_string(e.order));
  if (amb == 0) g.label("one ambient temperature");
  Ref f(m);
  Assembled A(m, f, g.boolean());
  double dg = e.order == 1 ? 0.25 : 1.0 / 3, od = e.order == 1 ? 0.25 : 1.0 / 6;
  double ks = e.htc * L;
  EXPECT_CLOSE(A.K(0, 0), ks * dg, 1e-11, ks, "film matrix (1,1)");
  EXPECT_CLOSE(A.K(1, 1), ks * dg, 1e-11, ks, "film matrix (2,2)");
  EXPECT_CLOSE(A.K(0, 1), ks * od, 1e-11, ks, "film matrix (1,2)");
  double fs = std::fabs(e.flux) * L + ks * (std::fabs(e0) + std::fabs(e1));
  EXPECT_CLOSE(A.F[0], e.flux * L / 2 + ks * (dg * e0 + od * e1), 1e-11, fs, "heat at the first node");
  EXPECT_CLOSE(A.F[1], e.flux * L / 2 + ks * (od * e0 + dg * e1), 1e-11, fs, "heat at the second node");
  if (A.C.size()) EXPECT(A.C.cwiseAbs().maxCoeff() == 0 && A.M.cwiseAbs().maxCoeff() == 0, "a surface condition has a heat capacity");
}

// heat source of one distorted quad: the integrals of the bilinear shape functions in closed form (exact from order 2 on)
FACET(source, "the quad is not a parallelogram", 4000, 80000) {
  Model m;
  double s = g.logreal(-2, 2), w = g.real(0, 6.2);
  double q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  bool jit = g.chance(4, 5);
  V3 p[4];
  for (int i = 0; i < 4; i++) {
    double x = q[i][0] + (jit ? g.sreal(0.25) : 0), y = q[i][1] + (jit ? g.sreal(0.25) : 0);
    p[i] = s * V3(std::cos(w) * x - std::sin(w) * y + 2, std::sin(w) * x + std::cos(w) * y - 1, 0);
  }
  int st = (int) g.integer(0, 3);
  for (int i = 0; i < 4; i++) m.x.push_back(p[(i + st) % 4]);
  El e; e.kind = KQUAD; e.n = {0, 1, 2, 3}; e.vol = g.sreal(10); e.k = modulus(g); e.rho = g.real(0.5, 3); e.c = g.real(0.5, 3); e.order = (int) g.integer(2, 3);
  m.el.push_back(e);
  g.note << "size " << s << " source " << e.vol << " order " << e.order;
  g.nontrivial(jit && e.vol != 0);
  Ref f(m);
  Assembled A(m, f, true);
  // int N_i dA = (2 A_i + A_opposite-free part): split at node i, det J is linear in xi, eta
  auto det = [&](int i) { V3 a = m.x[(i + 1) % 4] - m.x[i], b = m.x[(i + 3) % 4] - m.x[i]; return (a[0] * b[1] - a[1] * b[0]) / 4; };   // det J at corner i
  double D[4]; for (int i = 0; i < 4; i++) D[i] = det(i);
  double area = D[0] + D[1] + D[2] + D[3];
  // det J = sum N_j D_j exactly (it has no xi*eta term), so int N_i det = sum_j D_j int N_i N_j over the square
  for (int i = 0; i < 4; i++) {
    double v = 0;
    for (int j = 0; j < 4; j++) v += D[j] * (i == j ? 4.0 / 9 : (i + j) % 2 ? 2.0 / 9 : 1.0 / 9);
    EXPECT_CLOSE(A.F[i], e.vol * v, 1e-11, std::fabs(e.vol) * area, "heat of the source at node " << i + 1);
    double row = A.C.row(i).sum();
    EXPECT_CLOSE(row, e.rho * e.c * v, 1e-11, e.rho * e.c * area, "heat capacity at node " << i + 1);
  }
}
