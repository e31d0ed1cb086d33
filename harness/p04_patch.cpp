// P04: linear elements reproduce constant strain / constant gradient states exactly.
#include "fe.h"
using namespace fe;

struct Patch { Model m; std::vector<int> inner; double h = 1; };

// jittered, stretched, rotated and shifted grid of hexahedra cut into tetrahedra; inner nodes are those not on the surface
static Patch grid3(Gen& g, Kind kind, bool vary) {
  Patch p;
  int n[3];
  bool inner = g.chance(1, 3);   // at least one node inside
  for (int c = 0; c < 3; c++) n[c] = inner ? 2 : (int) g.integer(1, g.chance(1, 6) ? 3 : 2);
  p.h = g.weighted({3, 1}) == 0 ? 1.0 : g.logreal(-3, 3);
  Eigen::Matrix3d R = g.boolean() ? randRot(g) : Eigen::Matrix3d(Eigen::Matrix3d::Identity());
  V3 st(g.real(0.4, 2), g.real(0.4, 2), g.real(0.4, 2)), o(g.sreal(3), g.sreal(3), g.sreal(3));
  double jit = g.boolean() ? 0.15 : 0.0;
  std::vector<int> place;
  for (int k = 0; k <= n[2]; k++) for (int j = 0; j <= n[1]; j++) for (int i = 0; i <= n[0]; i++) {
    V3 x = V3(i + g.sreal(jit), j + g.sreal(jit), k + g.sreal(jit)).cwiseProduct(st);
    if (i > 0 && i < n[0] && j > 0 && j < n[1] && k > 0 && k < n[2]) p.inner.push_back((int) p.m.x.size());
    p.m.x.push_back(p.h * (R * x + o));
  }
  auto id = [&](const int* c) { return c[0] + (n[0] + 1) * (c[1] + (n[1] + 1) * c[2]); };
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  El proto; proto.kind = kind; proto.E = modulus(g); proto.nu = poisson(g); proto.k = modulus(g);
  if (g.chance(1, 3)) { proto.alpha = g.real(0, 0.01); proto.T = g.sreal(80); }
  for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) for (int q = 0; q < 6; q++) {
    El e = proto;
    int c[3] = {i, j, k};
    e.n.push_back(id(c));
    for (int s = 0; s < 3; s++) { c[P[q][s]]++; e.n.push_back(id(c)); }
    double v; tetGrad(p.m.x[e.n[0]], p.m.x[e.n[1]], p.m.x[e.n[2]], p.m.x[e.n[3]], v);
    if (v < 0) std::swap(e.n[2], e.n[3]);
    for (int s = (int) g.integer(0, 2); s > 0; s--) { std::vector<int> t = g.sample(4, 3); int z = e.n[t[0]]; e.n[t[0]] = e.n[t[1]]; e.n[t[1]] = e.n[t[2]]; e.n[t[2]] = z; }
    if (vary) { e.E = modulus(g); e.nu = poisson(g); e.k = modulus(g); if (g.boolean()) { e.alpha = g.real(0, 0.01); e.T = g.sreal(80); } }
    p.m.el.push_back(e);
  }
  if (vary) p.inner.clear();
  return p;
}
static Patch grid2(Gen& g, Kind kind, bool vary) {
  Patch p;
  int nx = (int) g.integer(1, 4), ny = (int) g.integer(1, 4);
  p.h = g.weighted({3, 1}) == 0 ? 1.0 : g.logreal(-3, 3);
  double w = g.boolean() ? g.real(0, 6.2) : 0, sx = g.real(0.4, 2), sy = g.real(0.4, 2), sh = g.boolean() ? g.sreal(0.8) : 0;
  double jit = g.boolean() ? 0.2 : 0.0, ox = g.sreal(3), oy = g.sreal(3), z = g.chance(1, 4) ? g.sreal(2) : 0;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    double a = (i + g.sreal(jit)) * sx, b = (j + g.sreal(jit)) * sy; a += sh * b;
    if (i > 0 && i < nx && j > 0 && j < ny) p.inner.push_back((int) p.m.x.size());
    p.m.x.push_back(p.h * V3(std::cos(w) * a - std::sin(w) * b + ox, std::sin(w) * a + std::cos(w) * b + oy, z));
  }
  El proto; proto.kind = kind; proto.E = modulus(g); proto.nu = poisson(g); proto.k = modulus(g); proto.planeStrain = g.boolean();
  proto.order = g.chance(1, 4) ? 3 : 2;
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int q[4] = {i + (nx + 1) * j, i + 1 + (nx + 1) * j, i + 1 + (nx + 1) * (j + 1), i + (nx + 1) * (j + 1)};
    int s = (int) g.integer(0, 3);
    std::vector<int> c; for (int a = 0; a < 4; a++) c.push_back(q[(a + s) % 4]);
    auto put = [&](std::vector<int> n) {
      El e = proto; e.n = n;
      if (vary) { e.E = modulus(g); e.nu = poisson(g); e.k = modulus(g); e.planeStrain = g.boolean(); }
      p.m.el.push_back(e);
    };
    if (kind == KQUAD) put(c); else { put({c[0], c[1], c[2]}); put({c[3], c[0], c[2]}); }
  }
  if (vary) p.inner.clear();
  return p;
}
// prescribe the field everywhere except at the inner nodes (some of which are prescribed as well)
static void prescribe(Gen& g, Patch& p, const std::vector<Dof::dofType>& t, const Eigen::Matrix3d& G, const V3& a) {
  std::set<int> in(p.inner.begin(), p.inner.end()), used;
  for (auto& e : p.m.el) used.insert(e.n.begin(), e.n.end());
  for (size_t i = 0; i < p.m.x.size(); i++) {
    if (!used.count((int) i)) continue;
    V3 u = G * p.m.x[i] + a * p.h;
    for (size_t c = 0; c < t.size(); c++) {
      if (in.count((int) i) && !g.chance(1, 8)) continue;
      p.m.fix.push_back({DofId((int) i, t[c]), u[c]});
    }
  }
  // a far bar keeps the model solvable when everything else is prescribed
  int b = (int) p.m.x.size();
  p.m.x.push_back(V3(100, 0, 0)); p.m.x.push_back(V3(101, 0, 0));
  El e; e.kind = TRUSS; e.n = {b, b + 1}; e.E = p.m.el[0].kind == TETH || p.m.el[0].kind == KQUAD ? p.m.el[0].k : p.m.el[0].E;
  p.m.el.push_back(e);
  static const Dof::dofType X[3] = {Dof::UX, Dof::UY, Dof::UZ};
  for (int i = 0; i < 2; i++) for (int c = 0; c < 3; c++) if (i == 0 || c) p.m.fix.push_back({DofId(b + i, X[c]), 0.0});
}
static void interior(Patch& p, Run& r, const std::vector<Dof::dofType>& t, const Eigen::Matrix3d& G, const V3& a) {
  double sc = 0;
  for (auto& x : p.m.x) for (size_t c = 0; c < t.size(); c++) if (x[0] != 100 && x[0] != 101) sc = std::max(sc, std::fabs((G * x + a * p.h)[c]));
  for (int i : p.inner) {
    V3 u = G * p.m.x[i] + a * p.h;
    for (size_t c = 0; c < t.size(); c++)
      EXPECT_CLOSE(r.u(DofId(i, t[c])), u[c], 1e-9, sc + 1e-300, "inner node " << i + 1 << ", " << Dof::dofType2label(t[c]) << " of the linear field");
  }
}
static Eigen::Matrix3d gradient(Gen& g, double s) {
  Eigen::Matrix3d G = Eigen::Matrix3d::Zero();
  if (g.chance(1, 5)) G(g.integer(0, 2), g.integer(0, 2)) = s;   // one component only
  else for (int i = 0; i < 9; i++) G(i / 3, i % 3) = g.sreal(s);
  return G;
}

FACET(tetrahedra, "the mesh is distorted or has inner nodes, and the strain is not zero", 3000, 60000) {
  bool vary = g.chance(1, 3);
  Patch p = grid3(g, TET, vary);
  double s = g.weighted({3, 1}) == 0 ? 0.1 : g.logreal(-6, 1);
  Eigen::Matrix3d G = gradient(g, s); V3 a(g.sreal(s), g.sreal(s), g.sreal(s));
  std::vector<Dof::dofType> t = {Dof::UX, Dof::UY, Dof::UZ};
  prescribe(g, p, t, G, a);
  describe(g, p.m);
  g.note << "; size " << p.h << ", strain " << s << (vary ? ", different materials" : "");
  if (p.inner.size()) g.label("inner nodes");
  g.nontrivial(G.norm() > 0);
  Run r(p.m, eqKinds(g), (int) g.integer(0, 1));
  interior(p, r, t, G, a);
  Eigen::Matrix3d eps = 0.5 * (G + G.transpose());
  for (size_t i = 0; i + 1 < p.m.el.size(); i++) {
    const El& e = p.m.el[i];
    Element& b = r.st.getElement((uint32) i + 1);
    double lam = e.E * e.nu / ((1 + e.nu) * (1 - 2 * e.nu)), mu = e.E / (2 * (1 + e.nu));
    double aT = e.alpha * e.T;
    Eigen::Matrix3d el = eps - aT * Eigen::Matrix3d::Identity();
    Eigen::Matrix3d sig = 2 * mu * el + lam * el.trace() * Eigen::Matrix3d::Identity();
    math::MatSym<3> S, C, T; S.zero(); C.zero(); T.zero(); double v = 0;
    EXPECT(b.getTensor(&S, tensorQuery::E) && b.getTensor(&C, tensorQuery::C) && b.getTensor(&T, tensorQuery::TSTRAIN) && b.getScalar(&v, scalarQuery::VOL), "TETRA0 refuses its own results");
    // positions are known to 1e-16 of their distance to the origin, about 10 element sizes
    double es = G.norm() + a.norm() + std::fabs(aT), ss = (2 * mu + 3 * lam) * es;
    for (int q = 0; q < 3; q++) for (int w = q; w < 3; w++) {
      EXPECT_CLOSE(C.comp(q, w), (q == w ? 1 : 2) * eps(q, w), 1e-9, es, "strain " << q << w << " of element " << i + 1);
      EXPECT_CLOSE(S.comp(q, w), sig(q, w), 1e-9, ss, "stress " << q << w << " of element " << i + 1);
      EXPECT_CLOSE(T.comp(q, w), (q == w ? aT : 0.0), 1e-12, std::fabs(aT), "thermal strain " << q << w << " of element " << i + 1);
    }
    double vol; tetGrad(p.m.x[e.n[0]], p.m.x[e.n[1]], p.m.x[e.n[2]], p.m.x[e.n[3]], vol);
    EXPECT_CLOSE(v, vol, 1e-9, vol, "volume of element " << i + 1);
  }
}

FACET(tetrahedra_heat, "the mesh is distorted or has inner nodes, and the gradient is not zero", 3000, 60000) {
  bool vary = g.chance(1, 3);
  Patch p = grid3(g, TETH, vary);
  double s = g.weighted({3, 1}) == 0 ? 10 : g.logreal(-4, 3);
  Eigen::Matrix3d G = gradient(g, s); V3 a(g.sreal(s), 0, 0);
  if (G.row(0).norm() == 0) G(0, 1) = s;
  prescribe(g, p, {Dof::TEMP}, G, a);
  describe(g, p.m);
  g.note << "; size " << p.h << ", gradient " << G.row(0);
  if (p.inner.size()) g.label("inner nodes");
  g.nontrivial(true);
  Run r(p.m, eqKinds(g), (int) g.integer(0, 1));
  interior(p, r, {Dof::TEMP}, G, a);
  for (size_t i = 0; i + 1 < p.m.el.size(); i++) {
    const El& e = p.m.el[i];
    Element& b = r.st.getElement((uint32) i + 1);
    math::Vec<3> fl, gr; fl.zero(); gr.zero();
    EXPECT(b.getVector(&fl, vectorQuery::FLUX) && b.getVector(&gr, vectorQuery::GRADT), "TETRA1 refuses its own results");
    double gs = G.norm() + a.norm();
    for (int c = 0; c < 3; c++) {
      EXPECT_CLOSE(gr[c], G(0, c), 1e-9, gs, "temperature gradient " << c << " of element " << i + 1);
      EXPECT_CLOSE(fl[c], -e.k * G(0, c), 1e-9, e.k * gs, "heat flux " << c << " of element " << i + 1);
    }
  }
}

FACET(triangles, "the mesh is distorted or has inner nodes, and the strain is not zero", 4000, 80000) {
  bool vary = g.chance(1, 3);
  Patch p = grid2(g, TRI, vary);
  double s = g.weighted({3, 1}) == 0 ? 0.1 : g.logreal(-6, 1);
  Eigen::Matrix3d G = gradient(g, s); V3 a(g.sreal(s), g.sreal(s), 0);
  G.col(2).setZero(); G.row(2).setZero();
  std::vector<Dof::dofType> t = {Dof::UX, Dof::UY};
  prescribe(g, p, t, G, a);
  describe(g, p.m);
  g.note << "; size " << p.h << ", strain " << s << (vary ? ", different materials" : "");
  if (p.inner.size()) g.label("inner nodes");
  g.nontrivial(G.norm() > 0);
  Run r(p.m, eqKinds(g), (int) g.integer(0, 1));
  interior(p, r, t, G, a);
  for (size_t i = 0; i + 1 < p.m.el.size(); i++) {
    const El& e = p.m.el[i];
    auto& b = r.st.getElement<ElementTRIANGLE4>((uint32) i + 1);
    double ex = G(0, 0), ey = G(1, 1), gxy = G(0, 1) + G(1, 0), sx, sy, E = e.E, nu = e.nu;
    if (e.planeStrain) {
      double f = E / ((1 + nu) * (1 - 2 * nu));
      sx = f * ((1 - nu) * ex + nu * ey); sy = f * ((1 - nu) * ey + nu * ex);
    } else {
      double f = E / (1 - nu * nu);
      sx = f * (ex + nu * ey); sy = f * (ey + nu * ex);
    }
    double es = G.norm() + a.norm(), ss = 3 * E / ((1 + nu) * (1 - 2 * nu)) * es;
    EXPECT_CLOSE(b.strains[0], ex, 1e-9, es, "strain xx of element " << i + 1);
    EXPECT_CLOSE(b.strains[1], ey, 1e-9, es, "strain yy of element " << i + 1);
    EXPECT_CLOSE(b.strains[2], gxy, 1e-9, es, "strain xy of element " << i + 1);
    EXPECT_CLOSE(b.stress[0], sx, 1e-9, ss, (e.planeStrain ? "plane strain" : "plane stress") << " stress xx of element " << i + 1);
    EXPECT_CLOSE(b.stress[1], sy, 1e-9, ss, (e.planeStrain ? "plane strain" : "plane stress") << " stress yy of element " << i + 1);
    EXPECT_CLOSE(b.stress[2], E / (2 * (1 + nu)) * gxy, 1e-9, ss, "stress xy of element " << i + 1);
  }
}

FACET(quads_heat, "the mesh has inner nodes and the gradient is not zero", 3000, 60000) {
  Patch p = grid2(g, KQUAD, false);
  double s = g.weighted({3, 1}) == 0 ? 10 : g.logreal(-4, 3);
  Eigen::Matrix3d G = Eigen::Matrix3d::Zero(); G(0, 0) = g.sreal(s); G(0, 1) = g.sreal(s);
  V3 a(g.sreal(s), 0, 0);
  prescribe(g, p, {Dof::TEMP}, G, a);
  describe(g, p.m);
  g.note << "; size " << p.h << ", gradient " << G.row(0);
  g.nontrivial(p.inner.size() && G.norm() > 0);
  Run r(p.m, eqKinds(g), (int) g.integer(0, 1));
  interior(p, r, {Dof::TEMP}, G, a);
  // the nodal heat flows of a constant gradient: minus the flux through the boundary, N-weighted = consistent with linear field x
  double W = 0;   // virtual work of the reactions on the field equals k |grad|^2 area
  double area = 0, fl = 0;
  for (size_t i = 0; i + 1 < p.m.el.size(); i++) {
    const El& e = p.m.el[i];
    double A2 = 0;
    for (int c = 0; c < 4; c++) { const V3 &x = p.m.x[e.n[c]], &y = p.m.x[e.n[(c + 1) % 4]]; A2 += x[0] * y[1] - x[1] * y[0]; }
    area += A2 / 2;
  }
  std::set<int> in(p.inner.begin(), p.inner.end());
  for (auto& f : p.m.fix) if (f.first.second == Dof::TEMP) {
    double R = r.r(f.first);
    W += R * (f.second - a[0] * p.h); fl += std::fabs(R * (f.second - a[0] * p.h)) ;
  }
  double k = p.m.el[0].k;
  EXPECT_CLOSE(W, k * G.row(0).squaredNorm() * area, 1e-9, fl + k * (G.row(0).squaredNorm() + G.row(0).norm() * a.norm()) * area, "heat work of the boundary flow");
}

FACET(trusses, "at least two bars and a non-zero axial strain", 4000, 80000) {
  Model m;
  double h = g.weighted({3, 1}) == 0 ? 1.0 : g.logreal(-3, 3);
  double s = g.weighted({3, 1}) == 0 ? 0.1 : g.logreal(-6, 0);
  Eigen::Matrix3d G = gradient(g, s); V3 a(g.sreal(s), g.sreal(s), g.sreal(s));
  Patch p; p.h = h;
  std::vector<Dof::dofType> t = {Dof::UX, Dof::UY, Dof::UZ};
  if (g.boolean()) {
    addTruss(g, p.m, 8);
    for (auto& x : p.m.x) x *= h;
    g.label("space truss");
  } else {   // a straight chain of bars with one E A: the inner nodes move freely along it
    int n = (int) g.integer(2, 7), ax = (int) g.integer(0, 2);
    V3 x(g.sreal(2), g.sreal(2), g.sreal(2));
    double EA = modulus(g);
    for (int i = 0; i <= n; i++) { p.m.x.push_back(h * x); x[ax] += g.real(0.3, 2); }
    for (int i = 0; i < n; i++) { El e; e.kind = TRUSS; e.n = {i, i + 1}; if (g.boolean()) std::swap(e.n[0], e.n[1]); e.A = g.real(0.2, 3); e.E = EA / e.A; p.m.el.push_back(e); }
    for (int i = 0; i <= n; i++) { V3 u = G * p.m.x[i] + a * h; for (int c = 0; c < 3; c++) if (!(c == ax && i > 0 && i < n)) p.m.fix.push_back({DofId(i, t[c]), u[c]}); }
    g.label("chain");
    for (int i = 1; i < n; i++) p.inner.push_back(i);
  }
  if (p.m.fix.empty()) prescribe(g, p, t, G, a);
  describe(g, p.m);
  g.note << "; size " << h << ", strain " << s;
  Run r(p.m, eqKinds(g), (int) g.integer(0, 1));
  interior(p, r, t, G, a);
  int bars = 0;
  for (size_t i = 0; i < p.m.el.size(); i++) {
    const El& e = p.m.el[i];
    V3 d = p.m.x[e.n[1]] - p.m.x[e.n[0]];
    if (p.m.x[e.n[0]][0] == 100 || p.m.x[e.n[0]][0] == 101) continue;
    bars++;
    double far = std::max(p.m.x[e.n[0]].norm(), p.m.x[e.n[1]].norm()) / d.norm() + 1;
    V3 tt = d.normalized();
    EXPECT_CLOSE(r.st.getElement<ElementTRUSS3>((uint32) i + 1).S, e.E * tt.dot(G * tt), 1e-11, e.E * (G.norm() + a.norm()) * far, "stress of bar " << i + 1);
  }
  g.nontrivial(bars >= 2 && G.norm() > 0);
}
