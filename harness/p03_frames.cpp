// P03: numbering, ordering and frame of the model do not change the answer.
#include "fe.h"
using namespace fe;

static bool thermal(const DofId& d) { return d.second == Dof::TEMP; }

static void flat(const Ref& f, const VX& Ua, const VX& Ub, const VX& Ra, const VX& Rb, const VX& sc, double tol, const char* what) {
  double us[2], rs[2];
  fieldMax(f, Ua.cwiseAbs().cwiseMax(Ub.cwiseAbs()), us); fieldMax(f, sc, rs);
  for (size_t i = 0; i < f.dofs.size(); i++) {
    int th = thermal(f.dofs[i]);
    EXPECT(std::fabs(Ua[i] - Ub[i]) <= tol * std::max(us[th], 1e-3), dofStr(f.dofs[i]) << " is " << Ua[i] << ", and " << Ub[i] << " " << what);
    EXPECT(std::fabs(Ra[i] - Rb[i]) <= tol * std::max(rs[th], 1e-3), "reaction or load at " << dofStr(f.dofs[i]) << " is " << Ra[i] << ", and " << Rb[i] << " " << what);
  }
}

static double tolOf(const Model& m, double cond) { return (1e-12 + quadTol(m)) * cond + 1e-9; }

static VX scaleOf(const Ref& f, const VX& U) { return rowScale(f, U) + f.A.transpose().cwiseAbs() * f.lambda.cwiseAbs(); }

// the same cell described from another corner
static void turn(Gen& g, El& e) {
  auto cyc = [&](std::vector<int> n, int r) { std::rotate(n.begin(), n.begin() + r, n.end()); return n; };
  switch (e.kind) {
    case TRUSS: if (g.boolean()) std::swap(e.n[0], e.n[1]); break;
    case SPRING: if (g.boolean()) { std::swap(e.n[0], e.n[1]); } if (g.boolean()) e.axis = -e.axis; break;
    case TET: case TETH: {
      for (int s = (int) g.integer(0, 3); s > 0; s--) {   // three-cycles are even
        std::vector<int> p = g.sample(4, 3); int t = e.n[p[0]]; e.n[p[0]] = e.n[p[1]]; e.n[p[1]] = e.n[p[2]]; e.n[p[2]] = t;
      }
      break;
    }
    case TRI: e.n = cyc(e.n, (int) g.integer(0, 2)); break;
    case KQUAD: e.n = cyc(e.n, (int) g.integer(0, 3)); break;
    case KLINE: if (e.et[0] != 0 && e.et[1] != 0 && g.boolean()) { std::swap(e.n[0], e.n[1]); std::swap(e.et[0], e.et[1]); } break;
    case INTER: {
      int r = (int) g.integer(0, 2);
      std::vector<int> a(e.n.begin(), e.n.begin() + 3), b(e.n.begin() + 3, e.n.end());
      a = cyc(a, r); b = cyc(b, r); e.n = a; e.n.insert(e.n.end(), b.begin(), b.end());
      break;
    }
  }
}

FACET(numbering, "nodes or elements in another order and a non-zero solution", 5000, 100000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  if (g.chance(1, 3)) genMpc(g, m, f);
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  std::vector<int> np = g.perm((int) m.x.size()), eo = g.perm((int) m.el.size());
  Model t = renumber(m, np, eo);
  for (auto& e : t.el) turn(g, e);
  auto shuffle = [&](auto& v) { auto p = g.perm((int) v.size()); auto c = v; for (size_t i = 0; i < v.size(); i++) v[i] = c[p[i]]; };
  shuffle(t.fix); shuffle(t.load); shuffle(t.mpc);
  int ek = eqKinds(g);
  Run a(m, ek), b(t, ek, (int) g.integer(0, 1));
  VX Ua = a.U(f), Ra = a.R(f), Ub(Ua.size()), Rb(Ua.size());
  for (size_t i = 0; i < f.dofs.size(); i++) {
    DofId d(np[f.dofs[i].first], f.dofs[i].second);
    Ub[i] = b.u(d); Rb[i] = b.r(d);
  }
  double tol = tolOf(m, f.cond);
  flat(f, Ua, Ub, Ra, Rb, scaleOf(f, Ua), tol, "in the renumbered model");
  double us[2]; fieldMax(f, Ua, us);
  for (size_t i = 0; i < m.el.size(); i++) {
    const El& e = m.el[eo[i]];
    Res x = results(a.st, eo[i] + 1, e.kind), y = results(b.st, (uint32) i + 1, e.kind);
    double s[3]; resultScale(m, e, s[0], s[1]);
    double u = std::max(us[e.kind == TETH], 1e-3) + std::fabs(e.alpha * e.T);
    s[0] *= u; s[1] *= u; s[2] = x.v[2].empty() ? 0 : std::fabs(x.v[2][0]);
    bool flip = e.kind == SPRING && !(t.el[i].n[0] == np[e.n[0]]);
    for (int k = 0; k < 3; k++) for (size_t c = 0; c < x.v[k].size(); c++)
      EXPECT(std::fabs(x.v[k][c] - (flip ? -1 : 1) * y.v[k][c]) <= (tol + 1e-9) * s[k], "result " << k << ":" << c << " of a " << kindName(e.kind) << " is " << x.v[k][c] << ", and " << y.v[k][c] << " in the renumbered model");
  }
  bool moved = false; for (size_t i = 0; i < np.size(); i++) moved = moved || np[i] != (int) i;
  for (size_t i = 0; i < eo.size(); i++) moved = moved || eo[i] != (int) i;
  g.nontrivial(moved && Ua.cwiseAbs().maxCoeff() > 1e-9);
}

// conditions on whole nodes, so that they can be turned with the body
static void wholeNodes(Gen& g, Model& m) {
  m.fix.clear(); m.load.clear();
  std::set<int> used; for (auto& e : m.el) used.insert(e.n.begin(), e.n.end());
  std::vector<int> nd(used.begin(), used.end());
  int nf = (int) g.integer(std::min<int>(3, (int) nd.size() - 1), std::max<int>(1, (int) nd.size() - 1));
  std::vector<int> p = g.sample((int) nd.size(), nf);
  static const Dof::dofType T[3] = {Dof::UX, Dof::UY, Dof::UZ};
  for (int i : p) for (int c = 0; c < 3; c++) m.fix.push_back({DofId(nd[i], T[c]), g.sreal(0.5)});
  int nl = (int) g.integer(0, 4);
  for (int i = 0; i < nl; i++) { int n = nd[g.draw(nd.size() - 1)]; for (int c = 0; c < 3; c++) m.load.push_back({DofId(n, T[c]), g.sreal(5)}); }
}

FACET(rigid_frame, "turned about an axis that is no coordinate axis, non-zero solution", 3000, 60000) {
  Model m;
  switch (g.integer(0, 2)) { case 0: addTets(g, m, TET); break; case 1: addTets(g, m, TET, 2); addTruss(g, m, 4); break; default: addTets(g, m, TET, 2); }
  if (g.boolean()) addSprings(g, m);
  if (g.boolean()) addInter(g, m);
  for (auto& e : m.el) if (e.kind == TET) { if (g.chance(1, 6)) { e.alpha = g.real(0, 0.01); e.T = g.sreal(50); } if (g.chance(1, 6)) for (int i = 0; i < 6; i++) e.eps0.push_back(g.sreal(0.02)); }
  wholeNodes(g, m);
  Ref f(m);
  if (f.freeD.empty()) throw pbt::Discard{"nothing to solve for"};
  describe(g, m);
  f.solve();
  if (f.cond > 1e6) throw pbt::Discard{"ill conditioned"};
  Eigen::Matrix3d Q = randRot(g);
  if (g.chance(1, 4)) { Q.setZero(); Q(0, 1) = 1; Q(1, 2) = 1; Q(2, 0) = 1; }   // exchange of the axes
  V3 sh(g.sreal(20), g.sreal(20), g.sreal(20));
  Model t = m;
  for (auto& x : t.x) x = Q * x + sh;
  for (size_t i = 0; i + 2 < t.fix.size(); i += 3) { V3 v = Q * V3(m.fix[i].second, m.fix[i + 1].second, m.fix[i + 2].second); for (int c = 0; c < 3; c++) t.fix[i + c].second = v[c]; }
  for (size_t i = 0; i + 2 < t.load.size(); i += 3) { V3 v = Q * V3(m.load[i].v, m.load[i + 1].v, m.load[i + 2].v); for (int c = 0; c < 3; c++) t.load[i + c].v = v[c]; }
  auto turnEps = [&](const std::vector<double>& v, double eng) {
    Eigen::Matrix3d E; E << v[0], v[3] * eng, v[5] * eng, v[3] * eng, v[1], v[4] * eng, v[5] * eng, v[4] * eng, v[2];
    E = Q * E * Q.transpose();
    return std::vector<double>{E(0, 0), E(1, 1), E(2, 2), E(0, 1) / eng, E(1, 2) / eng, E(0, 2) / eng};
  };
  for (auto& e : t.el) { if (e.eps0.size()) e.eps0 = turnEps(e.eps0, 0.5); e.axis = Q * e.axis; }
  int ek = eqKinds(g);
  Run a(m, ek), b(t, ek);
  VX Ua = a.U(f), Ra = a.R(f), Ub = b.U(f), Rb = b.R(f);
  // turn the second answer back
  for (size_t i = 0; i + 2 < f.dofs.size() + 0; i += 3) { V3 u = Q.transpose() * V3(Ub[i], Ub[i + 1], Ub[i + 2]), r = Q.transpose() * V3(Rb[i], Rb[i + 1], Rb[i + 2]); for (int c = 0; c < 3; c++) { Ub[i + c] = u[c]; Rb[i + c] = r[c]; } }
  double tol = tolOf(m, f.cond) * 5;
  flat(f, Ua, Ub, Ra, Rb, scaleOf(f, Ua), tol, "in the turned frame");
  double us[2]; fieldMax(f, Ua, us);
  for (size_t i = 0; i < m.el.size(); i++) {
    const El& e = m.el[i];
    Res x = results(a.st, (uint32) i + 1, e.kind), y = results(b.st, (uint32) i + 1, e.kind);
    double s[2]; resultScale(m, e, s[0], s[1]);
    double u = std::max(us[0], 1e-3) + std::fabs(e.alpha * e.T);
    if (e.kind == TRUSS) EXPECT(std::fabs(x.v[0][0] - y.v[0][0]) <= tol * s[0] * u, "truss stress " << x.v[0][0] << " and " << y.v[0][0] << " in the turned frame");
    if (e.kind == TET) for (int k = 0; k < 2; k++) {
      // order of results(): xx xy xz yy yz zz
      std::vector<double> q = {x.v[k][0], x.v[k][3], x.v[k][5], x.v[k][1], x.v[k][4], x.v[k][2]}, w = turnEps(q, k == 1 ? 0.5 : 1.0), z = {y.v[k][0], y.v[k][3], y.v[k][5], y.v[k][1], y.v[k][4], y.v[k][2]};
      for (int c = 0; c < 6; c++) EXPECT(std::fabs(w[c] - z[c]) <= tol * s[k] * u * 3, (k ? "strain " : "stress ") << c << " of element " << i + 1 << " is " << z[c] << " in the turned frame, expected " << w[c]);
    }
    if (e.kind == SPRING || e.kind == INTER) for (int k = 0; k < 2; k++) if (x.v[k].size() == 3) {
      V3 w = Q * V3(x.v[k][0], x.v[k][1], x.v[k][2]);
      for (int c = 0; c < 3; c++) EXPECT(std::fabs(w[c] - y.v[k][c]) <= (tol + 1e-8) * s[k] * u * 3, "jump " << c << " of element " << i + 1 << " is " << y.v[k][c] << " in the turned frame, expected " << w[c]);
    }
  }
  g.nontrivial(Ua.cwiseAbs().maxCoeff() > 1e-9);
}

// heat: scalar field, the frame does not matter at all
FACET(rigid_frame_heat, "non-zero solution", 1500, 30000) {
  Model m = genMesh(g, THERM);
  Ref f = genBC(g, m, 1e5);
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  bool plane = has(m, KQUAD) || has(m, KLINE);
  Eigen::Matrix3d Q = randRot(g);
  if (plane) Q = Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix();
  V3 sh(g.sreal(20), g.sreal(20), g.sreal(20));
  Model t = m; for (auto& x : t.x) x = Q * x + sh;
  Run a(m, 0), b(t, 0);
  VX Ua = a.U(f);
  double tol = tolOf(m, f.cond) * 5;
  flat(f, Ua, b.U(f), a.R(f), b.R(f), scaleOf(f, Ua), tol, "in the turned frame");
  double us[2]; fieldMax(f, Ua, us);
  for (size_t i = 0; i < m.el.size(); i++) if (m.el[i].kind == TETH) {
    Res x = results(a.st, (uint32) i + 1, TETH), y = results(b.st, (uint32) i + 1, TETH);
    double s[2]; resultScale(m, m.el[i], s[0], s[1]);
    for (int k = 0; k < 2; k++) { V3 w = Q * V3(x.v[k][0], x.v[k][1], x.v[k][2]); for (int c = 0; c < 3; c++) EXPECT(std::fabs(w[c] - y.v[k][c]) <= tol * s[k] * std::max(us[1], 1e-3) * 3, (k ? "gradient " : "flux ") << c << " of element " << i + 1 << " is " << y.v[k][c] << " in the turned frame, expected " << w[c]); }
  }
  g.nontrivial(Ua.cwiseAbs().maxCoeff() > 1e-9);
}

FACET(superposition, "both load cases have a non-zero solution", 4000, 80000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  if (g.chance(1, 3)) genMpc(g, m, f);
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  // second case: other values on the same degrees of freedom, without the loads of the elements
  Model n = m;
  for (auto& e : n.el) { e.eps0.clear(); e.alpha = 0; e.T = 0; e.vol = 0; e.flux = 0; e.et[0] = e.et[1] = 0; }
  for (auto& x : n.fix) x.second = value(g, x.first.second);
  n.load.clear();
  int nl = (int) g.integer(0, 4);
  for (int i = 0; i < nl; i++) { DofId d = f.dofs[g.draw(f.dofs.size() - 1)]; n.load.push_back({d, g.sreal(thermal(d) ? 50 : 5)}); }
  for (auto& q : n.mpc) q.b = g.boolean() ? 0 : g.sreal(0.3);
  double s = g.oneOf({1.0, -1.0, 2.5, -0.4});
  Model t = m;
  for (size_t i = 0; i < t.fix.size(); i++) t.fix[i].second += s * n.fix[i].second;
  for (auto& l : n.load) t.load.push_back({l.d, s * l.v});
  for (size_t i = 0; i < t.mpc.size(); i++) t.mpc[i].b += s * n.mpc[i].b;
  int ek = eqKinds(g);
  Run a(m, ek), b(n, ek), c(t, ek);
  VX U = a.U(f) + s * b.U(f), R = a.R(f) + s * b.R(f), V = a.U(f).cwiseAbs() + std::fabs(s) * b.U(f).cwiseAbs();
  Ref fn(n); fn.solve();
  VX sc = scaleOf(f, V) + std::fabs(s) * (fn.P.cwiseAbs() + fn.A.transpose().cwiseAbs() * fn.lambda.cwiseAbs());
  // the sum may cancel: errors are those of the parts
  double us[2], rs[2]; fieldMax(f, V, us); fieldMax(f, sc, rs);
  double tol = tolOf(m, f.cond);
  for (size_t i = 0; i < f.dofs.size(); i++) {
    int th = thermal(f.dofs[i]);
    EXPECT(std::fabs(U[i] - c.u(f.dofs[i])) <= tol * std::max(us[th], 1e-3), dofStr(f.dofs[i]) << " of the sum of two load cases is " << c.u(f.dofs[i]) << ", sum of the parts " << U[i]);
    EXPECT(std::fabs(R[i] - c.r(f.dofs[i])) <= tol * std::max(rs[th], 1e-3), "reaction or load at " << dofStr(f.dofs[i]) << " of the sum of two load cases is " << c.r(f.dofs[i]) << ", sum of the parts " << R[i]);
  }
  g.nontrivial(a.U(f).cwiseAbs().maxCoeff() > 1e-9 && b.U(f).cwiseAbs().maxCoeff() > 1e-9);
}

FACET(again, "non-zero solution", 2000, 30000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  if (g.chance(1, 3)) genMpc(g, m, f);
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  int ek = eqKinds(g);
  Run a(m, ek), b(m, ek, (int) g.integer(0, 1));
  VX Ua = a.U(f);
  flat(f, Ua, b.U(f), a.R(f), b.R(f), scaleOf(f, Ua), 1e-12 * f.cond + 1e-12, "the second time");
  g.nontrivial(Ua.cwiseAbs().maxCoeff() > 1e-9);
}
