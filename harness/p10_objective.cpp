// P10: objectivity of the hyperelastic elements, their reported results, plane against extruded solid.
#include "hyper.h"
using namespace hyper;
typedef std::vector<double> vd;

struct Out { VX F; std::vector<vd> ic, sc; std::vector<M3> pk2, c, e, cauchy; };
static const uint16 MEAN = 100;
static Out observe(Lib& L, const VX& u, int gp) {
  const Body& b = L.b;
  Out o; L.set(u); L.assemble(o.F, nullptr);
  for (size_t i = 0; i < b.el.size(); i++) {
    Element& x = L.st.getElement((uint32) i + 1);
    uint16 q = gp < 0 ? MEAN : (uint16) gp;
    math::Vec<3> v; v.zero(); EXPECT(x.getVector(&v, vectorQuery::IC, q), "no invariants"); o.ic.push_back({v[0], v[1], v[2]});
    vd s;
    std::vector<scalarQuery> sq = {scalarQuery::SP};
    if (!b.plane) { sq.push_back(scalarQuery::WU); sq.push_back(scalarQuery::WP); sq.push_back(scalarQuery::VOL); }
    for (auto k : sq) { double w = 0; EXPECT(x.getScalar(&w, k, q), "no scalar " << query2label(k)); s.push_back(w); }
    o.sc.push_back(s);
    auto ten = [&](tensorQuery k) { math::MatSym<3> m; m.zero(); EXPECT(x.getTensor(&m, k, q), "no tensor " << query2label(k)); return symM(m.ptr()); };
    o.pk2.push_back(ten(tensorQuery::PK2)); o.c.push_back(ten(tensorQuery::C)); o.e.push_back(ten(tensorQuery::E)); o.cauchy.push_back(ten(tensorQuery::COUCHY));
  }
  return o;
}
struct Scale { double f, s, c, w, pr, vol, tol; };
static Scale scaleOf(const Body& b, const VX& u) {
  Eval r = evaluate(b, u, true, true);
  double size = 0; for (size_t i = 0; i < b.x.size(); i++) for (size_t j = 0; j < i; j++) size = std::max(size, (b.x[i] - b.x[j]).norm());
  double um = 0; for (int i = 0; i < b.nu(); i++) um = std::max(um, std::fabs(u[i]));
  Scale s; s.f = r.gAbs.head(b.nu()).maxCoeff() + r.hAbs.topLeftCorner(b.nu(), b.nu()).maxCoeff() * size;
  s.pr = r.gAbs.tail(b.el.size()).maxCoeff();
  s.s = s.c = s.w = s.vol = 0; double cond = 1, h = 1e300;
  for (size_t e = 0; e < b.el.size(); e++) {
    double vol = 0;
    for (auto& q : points(b, b.el[e], b.order)) {
      vol += q.w;
      M3 F = defGrad(b, b.el[e], q, u), C = F.transpose() * F; D2<9> J, W = energyF(b.mat, F, u[b.nu() + e], J);
      double fm = 1 + F.cwiseAbs().maxCoeff();
      s.s = std::max(s.s, (W.h.cwiseAbs().maxCoeff() * fm + W.g.cwiseAbs().maxCoeff()) * F.inverse().norm() + W.h.cwiseAbs().maxCoeff() * fm * F.norm() / F.determinant());
      s.c = std::max(s.c, 1 + C.cwiseAbs().maxCoeff());
      s.w = std::max(s.w, std::fabs(W.v) + W.g.cwiseAbs().maxCoeff() * fm + W.h.cwiseAbs().maxCoeff() * fm * fm + b.mat.K() * std::fabs(J.v - 1) * (1 + std::fabs(J.v)));
      s.w = std::max(s.w, b.mat.K() * 1e-10);
      cond = std::max(cond, C.norm() * C.inverse().norm());
    }
    s.vol = std::max(s.vol, vol);
    for (size_t i = 0; i < b.el[e].size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[b.el[e][i]] - b.x[b.el[e][j]]).norm());
  }
  double far = 0; for (auto& p : b.x) far = std::max(far, p.norm());
  s.tol = 1e-13 * (20 + cond) * (1 + um / h + 0.1 * far / h);
  return s;
}
static void nearM(const M3& a, const M3& b, double t, const char* what, size_t e) { EXPECT((a - b).cwiseAbs().maxCoeff() <= t, what << " of element " << e + 1 << " is " << a.format(Eigen::IOFormat(17, 0, " ", "; ")) << ", expected " << b.format(Eigen::IOFormat(17, 0, " ", "; "))); }

static VX moved(const Body& b, const VX& u, const M3& Q, const V3& t) {
  VX v = u; int d = b.nd();
  for (size_t a = 0; a < b.x.size(); a++) {
    V3 p = b.x[a]; for (int i = 0; i < d; i++) p[i] += u[d * a + i];
    V3 q = Q * p + t;
    for (int i = 0; i < d; i++) v[d * a + i] = q[i] - b.x[a][i];
  }
  return v;
}
static M3 rotation(Gen& g, bool plane) { return plane ? M3(Eigen::AngleAxisd(g.real(0, 6.2), V3(0, 0, 1)).toRotationMatrix()) : fe::randRot(g); }

static void rotated(Gen& g, bool plane) {
  Body b = genBody(g, plane, 3, g.boolean(), true);
  describe(g, b);
  VX u = genState(g, b);
  M3 Q = rotation(g, plane);
  V3 t(g.sreal(3), g.sreal(3), plane ? 0 : g.sreal(3));
  VX v = moved(b, u, Q, t);
  int gp = g.boolean() ? -1 : (int) g.draw((pbt::u64) std::llround(std::pow(b.order, b.nd())) - 1);
  g.nontrivial((Q - M3::Identity()).norm() > 0.01 && u.head(b.nu()).cwiseAbs().maxCoeff() > 1e-3);
  Lib L(b);
  Out o = observe(L, u, gp), r = observe(L, v, gp);
  Scale s = scaleOf(b, u), s2 = scaleOf(b, v);
  double tol = std::max(s.tol, s2.tol) * 3;
  int d = b.nd();
  for (size_t a = 0; a < b.x.size(); a++) {
    V3 f(0, 0, 0), f2(0, 0, 0);
    for (int i = 0; i < d; i++) { f[i] = o.F[d * a + i]; f2[i] = r.F[d * a + i]; }
    EXPECT((Q * f - f2).cwiseAbs().maxCoeff() <= tol * s.f, "force at node " << a + 1 << " is " << f2.transpose() << " in the rotated body, the rotated force is " << (Q * f).transpose());
  }
  for (size_t e = 0; e < b.el.size(); e++) {
    EXPECT(std::fabs(o.F[b.nu() + e] - r.F[b.nu() + e]) <= tol * s.pr, "pressure equation of element " << e + 1 << ": " << r.F[b.nu() + e] << " rotated, " << o.F[b.nu() + e] << " before");
    for (int i = 0; i < 3; i++) EXPECT(std::fabs(o.ic[e][i] - r.ic[e][i]) <= tol * std::pow(s.c, 2), "invariant " << i << " of element " << e + 1 << ": " << r.ic[e][i] << " rotated, " << o.ic[e][i] << " before");
    for (size_t i = 0; i < o.sc[e].size(); i++) EXPECT(std::fabs(o.sc[e][i] - r.sc[e][i]) <= tol * (i == 0 ? std::fabs(o.sc[e][i]) : i == 3 ? s.vol : s.w), "scalar " << i << " of element " << e + 1 << ": " << r.sc[e][i] << " rotated, " << o.sc[e][i] << " before");
    nearM(r.pk2[e], o.pk2[e], tol * s.s, "second Piola-Kirchhoff stress", e);
    nearM(r.c[e], o.c[e], tol * s.c, "C", e);
    nearM(r.e[e], o.e[e], tol * s.c, "E", e);
    nearM(r.cauchy[e], Q * o.cauchy[e] * Q.transpose(), tol * s.s, "Cauchy stress", e);
  }
}
FACET(rotated_plane, "a real rotation of a deformed body", 15000, 400000) { rotated(g, true); }
FACET(rotated_solid, "a real rotation of a deformed body", 4800, 160000) { rotated(g, false); }

static void rigid(Gen& g, bool plane) {
  Body b = genBody(g, plane, 3, g.boolean(), true);
  describe(g, b); g.nontrivial(true);
  VX z = VX::Zero(b.N());
  M3 Q = g.chance(1, 6) ? M3(M3::Identity()) : rotation(g, plane);
  VX v = moved(b, z, Q, V3(g.sreal(3), g.sreal(3), plane ? 0 : g.sreal(3)));
  if (g.chance(1, 8)) v = z;
  Lib L(b);
  Out r = observe(L, v, -1);
  Scale s = scaleOf(b, v);
  double tol = s.tol * 3;
  for (int i = 0; i < b.nu(); i++) EXPECT(std::fabs(r.F[i]) <= tol * s.f, "force " << r.F[i] << " in " << fe::dofStr(b.dof(i)) << " of a rigidly moved body");
  for (int i = b.nu(); i < b.N(); i++) EXPECT(std::fabs(r.F[i]) <= tol * s.pr, "pressure equation has " << r.F[i] << " in a rigidly moved body");
  for (size_t e = 0; e < b.el.size(); e++) {
    nearM(r.pk2[e], M3::Zero(), tol * s.s, "second Piola-Kirchhoff stress", e);
    nearM(r.cauchy[e], M3::Zero(), tol * s.s, "Cauchy stress", e);
    nearM(r.e[e], M3::Zero(), tol * s.c, "E", e);
    EXPECT(std::fabs(r.ic[e][0] - 3) <= tol * s.c && std::fabs(r.ic[e][1] - 3) <= tol * s.c && std::fabs(r.ic[e][2] - 1) <= tol * s.c, "invariants " << r.ic[e][0] << " " << r.ic[e][1] << " " << r.ic[e][2]);
    if (!plane) EXPECT(std::fabs(r.sc[e][1]) <= tol * s.w && std::fabs(r.sc[e][2]) <= tol * s.w, "stored energy " << r.sc[e][1] << ", " << r.sc[e][2]);
  }
}
FACET(rigid_plane, "always", 9000, 240000) { rigid(g, true); }
FACET(rigid_solid, "always", 3000, 80000) { rigid(g, false); }

// what is reported is what the deformation gradient and the pressure give
static void reported(Gen& g, bool plane) {
  Body b = genBody(g, plane, 2, g.boolean(), true);
  describe(g, b);
  VX u = genState(g, b);
  int np = (int) std::llround(std::pow(b.order, b.nd())), gp = g.boolean() ? -1 : (int) g.draw(np - 1);
  g.nontrivial(u.head(b.nu()).cwiseAbs().maxCoeff() > 1e-3);
  Lib L(b);
  Out o = observe(L, u, gp);
  Scale s = scaleOf(b, u);
  double tol = s.tol * 3;
  for (size_t e = 0; e < b.el.size(); e++) {
    auto q = points(b, b.el[e], b.order);
    // the library numbers integration points in its own order: a point must match one of ours, the mean is the weighted mean
    auto at = [&](size_t k, vd& ic, vd& sc, M3& S, M3& C, M3& sig) {
      M3 F = defGrad(b, b.el[e], q[k], u); C = F.transpose() * F; double p = u[b.nu() + e], J = F.determinant();
      S = pk2(b.mat, C, p); sig = F * S * F.transpose() / J;
      double I1 = C.trace(), I2 = (I1 * I1 - (C * C).trace()) / 2, a = std::pow(J, -2.0 / 3);
      ic = {I1, I2, J}; sc = {p, wbar(b.mat, I1 * a, I2 * a * a), 0.5 * b.mat.K() * (J - 1) * (J - 1), 0};
    };
    double V = 0; for (auto& x : q) V += x.w;
    auto diff = [&](const vd& ic, const vd& sc, const M3& S, const M3& C, const M3& sig, std::string& what) {
      double worst = 0;
      auto up = [&](double d, double scale, const char* n) { double r = std::fabs(d) / (tol * scale + 1e-300); if (r > worst) { worst = r; std::ostringstream t; t << n << " is off by " << d; what = t.str(); } };
      for (int i = 0; i < 3; i++) up(o.ic[e][i] - ic[i], s.c * s.c, "an invariant");
      for (size_t i = 0; i < o.sc[e].size(); i++) { static const char* nm[4] = {"pressure", "WU", "WP", "VOL"}; up(o.sc[e][i] - (i == 3 ? V : sc[i]), i == 0 ? std::fabs(sc[0]) + 1e-9 : i == 3 ? V : s.w, nm[i]); }
      up((o.pk2[e] - S).cwiseAbs().maxCoeff(), s.s, "second Piola-Kirchhoff stress"); up((o.c[e] - C).cwiseAbs().maxCoeff(), s.c, "C");
      up((o.e[e] - (C - M3::Identity()) / 2).cwiseAbs().maxCoeff(), s.c, "E"); up((o.cauchy[e] - sig).cwiseAbs().maxCoeff(), s.s, "Cauchy stress");
      return worst;
    };
    vd ic, sc; M3 S, C, sig; std::string what;
    if (gp < 0) {
      vd mic(3, 0), msc(4, 0); M3 mS = M3::Zero(), mC = mS, msig = mS;
      for (size_t k = 0; k < q.size(); k++) { at(k, ic, sc, S, C, sig); double w = q[k].w / V; for (int i = 0; i < 3; i++) mic[i] += w * ic[i]; for (int i = 0; i < 4; i++) msc[i] += w * sc[i]; mS += w * S; mC += w * C; msig += w * sig; }
      EXPECT(diff(mic, msc, mS, mC, msig, what) <= 1, "mean over element " << e + 1 << ": " << what);
    } else {
      double best = 1e300; std::string bw;
      for (size_t k = 0; k < q.size(); k++) { at(k, ic, sc, S, C, sig); double w = diff(ic, sc, S, C, sig, what); if (w < best) { best = w; bw = what; } }
      EXPECT(best <= 1, "integration point " << gp << " of element " << e + 1 << " has results of no point: " << bw);
    }
  }
}
FACET(reported_plane, "displacements beyond 1e-3", 12000, 320000) { reported(g, true); }
FACET(reported_solid, "displacements beyond 1e-3", 4800, 160000) { reported(g, false); }

FACET(plane_strain, "displacements beyond 1e-3", 7200, 200000) {
  Body b = genBody(g, true, 3, g.boolean(), true);
  describe(g, b);
  VX u = genState(g, b);
  double h = g.real(0.3, 2), z0 = g.sreal(2);
  Body s = b; s.plane = false; s.fix.clear();
  int n = (int) b.x.size();
  for (auto& p : s.x) p[2] = z0;
  for (int i = 0; i < n; i++) { V3 p = s.x[i]; p[2] += h; s.x.push_back(p); }
  for (auto& e : s.el) { std::vector<int> t = e; for (int k : e) t.push_back(k + n); e = t; }
  VX v = VX::Zero(s.N());
  for (int i = 0; i < n; i++) for (int l = 0; l < 2; l++) for (int c = 0; c < 2; c++) v[3 * (i + l * n) + c] = u[2 * i + c];
  for (size_t e = 0; e < b.el.size(); e++) v[s.nu() + e] = u[b.nu() + e];
  g.note << ", thickness " << h; g.nontrivial(u.head(b.nu()).cwiseAbs().maxCoeff() > 1e-3);
  Lib P(b), S(s);
  Out o = observe(P, u, -1), r = observe(S, v, -1);
  Scale q = scaleOf(b, u), qs = scaleOf(s, v);
  double tol = std::max(q.tol, qs.tol) * 3;
  for (int i = 0; i < n; i++) {
    for (int c = 0; c < 2; c++) EXPECT(std::fabs(o.F[2 * i + c] * h - r.F[3 * i + c] - r.F[3 * (i + n) + c]) <= tol * (q.f * h + qs.f), "force at node " << i + 1 << ": plane " << o.F[2 * i + c] << " times " << h << ", solid " << r.F[3 * i + c] + r.F[3 * (i + n) + c]);
    EXPECT(std::fabs(r.F[3 * i + 2] + r.F[3 * (i + n) + 2]) <= tol * qs.f, "out-of-plane forces don't balance");
  }
  for (size_t e = 0; e < b.el.size(); e++) {
    EXPECT(std::fabs(o.F[b.nu() + e] * h - r.F[s.nu() + e]) <= tol * (q.pr * h + qs.pr), "pressure equation of element " << e + 1);
    for (int i = 0; i < 3; i++) EXPECT(std::fabs(o.ic[e][i] - r.ic[e][i]) <= tol * q.c * q.c, "invariant " << i << ": plane " << o.ic[e][i] << ", solid " << r.ic[e][i]);
    nearM(o.pk2[e], r.pk2[e], tol * (q.s + qs.s), "plane second Piola-Kirchhoff stress", e);
    nearM(o.c[e], r.c[e], tol * q.c, "plane C", e); nearM(o.e[e], r.e[e], tol * q.c, "plane E", e);
    nearM(o.cauchy[e], r.cauchy[e], tol * (q.s + qs.s), "plane Cauchy stress", e);
    EXPECT(std::fabs(o.sc[e][0] - u[b.nu() + e]) <= 1e-13 * std::fabs(u[b.nu() + e]), "pressure of element " << e + 1 << " is reported as " << o.sc[e][0]);
  }
}
