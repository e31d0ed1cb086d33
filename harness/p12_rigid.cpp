// P12: rigid-body constraints follow an exact finite rigid motion and carry forces to the master.
#include "hyper.h"
using namespace hyper;

static double sizeOf(const Problem& p) {
  double s = 0; const Body& b = p.b;
  for (size_t i = 0; i < b.x.size(); i++) { for (size_t j = 0; j < i; j++) s = std::max(s, (b.x[i] - b.x[j]).norm()); for (auto& r : p.rigid) if (r.master < 0) s = std::max(s, (b.x[i] - r.pos).norm()); }
  return s;
}
// top or bottom k nodes along a random direction that are not taken yet
static std::vector<int> face(Gen& g, const Body& b, const std::set<int>& taken, int k, const V3& dir) {
  std::vector<std::pair<double, int>> o;
  for (size_t i = 0; i < b.x.size(); i++) if (!taken.count((int) i)) o.push_back({b.x[i].dot(dir), (int) i});
  std::sort(o.begin(), o.end());
  std::vector<int> r; for (int i = 0; i < k && i < (int) o.size(); i++) r.push_back(o[i].second);
  if (g.boolean()) { auto p = g.perm((int) r.size()); auto q = r; for (size_t i = 0; i < r.size(); i++) r[i] = q[p[i]]; }
  return r;
}
static Rigid genRigid(Gen& g, const Body& b, std::set<int>& taken, const V3& dir, int k, bool all, bool wild) {
  Rigid r; int d = b.nd();
  double L = 0; for (size_t i = 0; i < b.x.size(); i++) for (size_t j = 0; j < i; j++) L = std::max(L, (b.x[i] - b.x[j]).norm());
  r.slaves = face(g, b, taken, k, dir);
  for (int s : r.slaves) taken.insert(s);
  for (int i = 0; i < d; i++) r.comps.push_back(i);
  if (!all && g.chance(1, 2)) { auto o = g.sample(d, (int) g.integer(1, d)); r.comps = o; }
  else if (g.chance(1, 3)) { auto o = g.perm(d); r.comps = o; }
  V3 c(0, 0, 0); for (int s : r.slaves) c += b.x[s] / r.slaves.size();
  if (wild && g.chance(1, 4)) { std::vector<int> fr; for (size_t i = 0; i < b.x.size(); i++) if (!taken.count((int) i)) fr.push_back((int) i); if (fr.size()) { r.master = fr[g.draw(fr.size() - 1)]; taken.insert(r.master); } }
  if (r.master < 0) {
    int kind = g.weighted({2, 3, 1});
    r.pos = kind == 0 ? c : c + V3(g.sreal(1), g.sreal(1), b.plane && g.boolean() ? 0 : g.sreal(1)) * L * (kind == 2 ? 3 : 0.7);
    if (g.chance(1, 6) && r.slaves.size()) r.pos = b.x[r.slaves[0]];   // on top of a tied node: no offset
  }
  return r;
}
static V3 posOf(const Problem& p, int r) { return p.rigid[r].master >= 0 ? p.b.x[p.rigid[r].master] : p.rigid[r].pos; }
// supports until every mode is held, by the tangent at rest
static void hold(Gen& g, Problem& p, std::set<int>& fixed, const std::set<int>& taken) {
  Body& b = p.b; int Z = p.Z();
  VX z = VX::Zero(Z); Eval e = evaluate(b, z.head(b.N()), true);
  MX K = MX::Zero(Z, Z), k = e.h.topLeftCorner(b.nu(), b.nu());
  for (size_t q = 0; q < b.el.size(); q++) { int i = b.nu() + (int) q; k -= e.h.col(i).head(b.nu()) * e.h.row(i).head(b.nu()) / e.h(i, i); }
  K.topLeftCorner(b.nu(), b.nu()) = k;
  VX c; MX A; constraints(p, z, c, A);
  double kd = k.diagonal().mean();
  // rotations have another unit
  double L = sizeOf(p); VX sc = VX::Ones(Z); for (int i = b.N(); i < Z; i++) if ((i - b.N()) % 6 > 2) sc[i] = 1 / L;
  for (;;) {
    std::vector<int> fr; for (int i = 0; i < Z; i++) if (p.used(i) && !fixed.count(i) && !(i >= b.nu() && i < b.N())) fr.push_back(i);
    int n = (int) fr.size(); if (!n) break;
    MX S(n, n), Af(A.rows(), n);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) S(i, j) = K(fr[i], fr[j]) * sc[fr[i]] * sc[fr[j]]; Af.col(i) = A.col(fr[i]) * sc[fr[i]]; }
    MX Q;
    { Eigen::FullPivLU<MX> lu(Af); lu.setThreshold(1e-8); if (lu.rank() < Af.rows()) throw pbt::Discard{"dependent constraints"}; Q = lu.kernel(); if (lu.dimensionOfKernel() == 0) break; }
    Eigen::HouseholderQR<MX> qr(Q); MX O = qr.householderQ() * MX::Identity(n, Q.cols());
    Eigen::SelfAdjointEigenSolver<MX> es(O.transpose() * S * O);
    if (es.eigenvalues()[0] > 0.01 * kd) break;
    VX v = (O * es.eigenvectors().col(0)).cwiseAbs();
    for (int i = 0; i < n; i++) if (fr[i] < b.nu() && taken.count(fr[i] / b.nd())) v[i] = 0;   // nodes of rigid bodies are not prescribed
    int q; double mx = v.maxCoeff(&q);
    if (!(mx > 1e-6)) throw pbt::Discard{"not held"};
    fixed.insert(fr[q]);
  }
}
static int finish(Gen& g, Problem& p) {   // numbering of prescribed values and loads
  if (g.boolean()) { auto o = g.perm((int) p.mfix.size()); auto f = p.mfix; for (size_t i = 0; i < f.size(); i++) p.mfix[i] = f[o[i]]; }
  return 0;
}
static void describeRigid(Gen& g, const Problem& p) {
  for (size_t r = 0; r < p.rigid.size(); r++) {
    auto& q = p.rigid[r]; V3 P = posOf(p, (int) r);
    g.note << "; rigid body " << r << ": master " << (q.master >= 0 ? "node of the body" : "separate") << " " << p.masterNo((int) r) << " (" << P[0] << ", " << P[1] << ", " << P[2] << "), tied nodes";
    for (int s : q.slaves) g.note << " " << fe::nodeNo(s); g.note << ", components"; for (int c : q.comps) g.note << " " << "XYZ"[c];
    g.label(q.master >= 0 ? "master in body" : "separate master");
    g.label("components " + std::to_string(q.comps.size()) + "/" + std::to_string(p.b.nd()));
  }
  g.note << "; prescribed"; for (auto& f : p.mfix) g.note << " " << fe::dofStr({(int) p.masterNo(f.first / 6) - 1, p.id(p.mi(f.first / 6, f.first % 6)).second}) << "=" << f.second;
  g.note << "; " << p.b.fix.size() << " supports, " << p.b.load.size() << "+" << p.mload.size() << " loads, " << p.steps << " steps";
}
// how far the iteration's last step may still be from the limit
static void verify(Gen& g, const Problem& p, const Path& f, const NlRun& r, bool path) {
  const Body& b = p.b; int Z = p.Z();
  double L = sizeOf(p), G = b.mat.c[0], fs = f.fs.head(b.nu()).maxCoeff() + 1e-3 * G * std::pow(L, b.nd() - 1);
  EXPECT((int) r.steps.size() == p.steps, "asked for " << p.steps << " load steps, " << r.steps.size() << " were made");
  std::set<int> presc; for (auto& x : b.fix) presc.insert(b.at(x.first)); for (auto& x : p.mfix) presc.insert(p.mi(x.first / 6, x.first % 6));
  for (int s = 0; s < p.steps; s++) {
    double t = (s + 1.0) / p.steps;
    for (auto& x : b.fix) EXPECT(std::fabs(r.z[s][b.at(x.first)] - x.second * t) <= 1e-12 * std::fabs(x.second), "step " << s + 1 << ": prescribed " << fe::dofStr(x.first) << " is " << r.z[s][b.at(x.first)]);
    for (auto& x : p.mfix) { int i = p.mi(x.first / 6, x.first % 6); EXPECT(std::fabs(r.z[s][i] - x.second * t) <= 1e-12 * std::fabs(x.second), "step " << s + 1 << ": prescribed " << p.who(i) << " is " << r.z[s][i] << ", not " << x.second * t); }
    // kinematics
    VX c; MX A; constraints(p, r.z[s], c, A);
    int row = 0;
    for (size_t k = 0; k < p.rigid.size(); k++) for (int sl : p.rigid[k].slaves) for (int q : p.rigid[k].comps) {
      double off = (b.x[sl] - posOf(p, (int) k)).norm();
      // the iteration ends when the mean change falls below the square of the criterion
      EXPECT(std::fabs(c[row]) <= 1e-9 * off + (10 + Z) * p.crit * p.crit + 1e-12 * (L + r.z[s].head(b.nu()).cwiseAbs().maxCoeff()) , "step " << s + 1 << ": U" << "XYZ"[q] << " of tied node " << fe::nodeNo(sl) << " is " << r.z[s][b.nd() * sl + q] << ", the rigid motion of the master gives " << r.z[s][b.nd() * sl + q] - c[row]);
      row++;
    }
    // forces: internal - external forces of all degrees of freedom are a combination of the constraints
    Eval e = evaluate(b, r.z[s].head(b.N()), true, true);
    VX res = -r.R[s]; res.head(b.N()) += e.g;
    VX sc = VX::Ones(Z); for (int i = b.N(); i < Z; i++) if ((i - b.N()) % 6 > 2) sc[i] = 1 / L;
    VX rs = res.cwiseProduct(sc); MX At = sc.asDiagonal() * A.transpose();
    for (int i = b.nu(); i < b.N(); i++) { rs[i] = 0; At.row(i).setZero(); }
    VX lam = At.colPivHouseholderQr().solve(-rs); rs += At * lam;
    for (int i = 0; i < Z; i++) if (p.used(i) && !(i >= b.nu() && i < b.N())) EXPECT(std::fabs(rs[i]) <= 1e-5 * fs, "step " << s + 1 << ": forces of " << p.who(i) << (presc.count(i) ? " (prescribed)" : "") << " are out of balance by " << rs[i] / sc[i] << " (size " << fs << ", size of the model " << L << ")");
    // virtual work: what the tied nodes transmit is the reaction of the master
    for (size_t k = 0; k < p.rigid.size(); k++) {
      bool chained = p.rigid[k].master >= 0; if (chained) continue;
      V3 F(0, 0, 0), M(0, 0, 0), th; for (int i = 0; i < 3; i++) th[i] = r.z[s][p.mi((int) k, 3 + i)];
      double fsum = 0;
      for (int sl : p.rigid[k].slaves) {
        V3 off = b.x[sl] - posOf(p, (int) k), o; M3 D; rotate(th, off, o, D);
        for (int q : p.rigid[k].comps) { int i = b.nd() * sl + q; double fi = e.g[i] - r.R[s][i]; F[q] += fi; fsum += std::fabs(fi) + std::fabs(e.gAbs[i]); for (int l = 0; l < 3; l++) M[l] += fi * D(q, l); }
      }
      // other constraints on the tied nodes (masters that are tied) would add to these
      bool other = false; for (size_t j = 0; j < p.rigid.size(); j++) for (int sl : p.rigid[k].slaves) other = other || p.rigid[j].master == sl;
      if (other) continue;
      for (int i = 0; i < 3; i++) {
        double rf = r.R[s][p.mi((int) k, i)], rm = r.R[s][p.mi((int) k, 3 + i)];
        EXPECT(std::fabs(rf - F[i]) <= 1e-5 * (fs + fsum), "step " << s + 1 << ": force " << "XYZ"[i] << " on master " << p.masterNo((int) k) << " is " << rf << ", the tied nodes take " << F[i]);
        EXPECT(std::fabs(rm - M[i]) <= 1e-5 * (fs + fsum) * L, "step " << s + 1 << ": moment " << "XYZ"[i] << " on master " << p.masterNo((int) k) << " is " << rm << ", the tied nodes take " << M[i]);
      }
    }
    if (path) for (int i = 0; i < Z; i++) if (p.used(i)) {
      double scl = i < b.nu() ? L : i < b.N() ? b.mat.K() : (i - b.N()) % 6 > 2 ? 1 : L;
      EXPECT(std::fabs(r.z[s][i] - f.z[s][i]) <= 1e-6 * scl, "step " << s + 1 << ": " << p.who(i) << " is " << r.z[s][i] << ", equilibrium is at " << f.z[s][i]);
    }
  }
}
static void solveAndVerify(Gen& g, Problem& p) {
  Path f = solve(p);
  if (!f.ok) throw pbt::Discard{f.why.c_str()};
  if (f.its > 14) throw pbt::Discard{"slow convergence"};
  for (double q : f.gap) if (q < 1e-5) throw pbt::Discard{"not stable"};
  NlRun r(p, fe::eqKinds(g));
  verify(g, p, f, r, true);
}

// one rigid end carries the whole body through rotations of any size
static void carried(Gen& g, bool plane) {
  Problem p; Body& b = p.b; b = genBody(g, plane, plane ? 3 : 2, true, false, 0.1); if (b.order == 1) b.order = 2;
  std::set<int> taken; V3 dir = fe::randRot(g).col(0); if (plane) { dir[2] = 0; if (dir.norm() < 0.1) dir = V3(1, 0, 0); }
  int k = (int) g.integer(plane ? 2 : 3, (int) b.x.size() - 1);
  p.rigid.push_back(genRigid(g, b, taken, dir, k, true, false));
  double L = sizeOf(p), ang;
  int kind = g.weighted({4, 2, 1, 1});
  ang = kind == 0 ? g.real(0.3, 3.1) : kind == 1 ? g.real(0.02, 0.4) : kind == 2 ? g.logreal(-9, -2) : g.real(3.1, 6.5);
  V3 axis = fe::randRot(g).col(0); if (plane) axis = V3(0, 0, g.boolean() ? 1 : -1);
  else if (g.chance(1, 3)) { axis = V3::Zero(); axis[g.integer(0, 2)] = g.boolean() ? 1 : -1; }
  p.steps = std::max(1, (int) std::ceil(ang / 0.22)) + (int) g.integer(0, 1);
  V3 w(g.sreal(1), g.sreal(1), plane ? 0 : g.sreal(1)); w *= L * g.oneOf({0.0, 0.2, 1.0});
  for (int i = 0; i < 6; i++) p.mfix.push_back({i, i < 3 ? w[i] : ang * axis[i - 3]});
  if (plane) { p.mfix[2].second = g.chance(1, 3) ? g.sreal(1) : 0; }
  // weak dead loads
  double h = 1e300; for (auto& n : b.el) for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[n[i]] - b.x[n[j]]).norm());
  int nl = (int) g.integer(0, 3); double P = b.mat.c[0] * (plane ? h : h * h) * 0.01;
  for (int i = 0; i < nl; i++) b.load.push_back({b.dof((int) g.draw(b.nu() - 1)), g.sreal(1) * P});
  if (g.chance(1, 3)) p.mload.push_back({(int) g.integer(0, 5), g.sreal(1) * P * L});
  p.crit = 1e-5;
  finish(g, p); describe(g, b); describeRigid(g, p);
  g.label(ang < 1e-2 ? "tiny angle" : ang < 0.4 ? "small angle" : ang < 3.14159 ? "large angle" : "beyond half a turn");
  if (!p.mload.empty()) g.label("load on master");
  solveAndVerify(g, p);
  g.nontrivial(ang > 0.02);
}
FACET(carried_plane, "rotation of the master beyond 0.02", 400, 8000) { carried(g, true); }
FACET(carried_solid, "rotation of the master beyond 0.02", 250, 5000) { carried(g, false); }

// bodies with supports and one or two masters, prescribed or loaded, any set of tied components
static void bent(Gen& g, bool plane) {
  Problem p; Body& b = p.b; b = genBody(g, plane, plane ? 4 : 3, true, false, 0.1); if (b.order == 1) b.order = 2;
  int d = b.nd();
  std::set<int> taken, fixed; V3 dir = fe::randRot(g).col(0); if (plane) { dir[2] = 0; if (dir.norm() < 0.1) dir = V3(1, 0, 0); }
  int nr = (int) g.integer(1, 2), nn = (int) b.x.size();
  for (int r = 0; r < nr; r++) { int left = nn - (int) taken.size(); if (left < 2) break; p.rigid.push_back(genRigid(g, b, taken, r ? V3(-dir) : dir, (int) g.integer(1, std::max(1, std::min(left - 1, nn / (nr + 1) + 1))), false, true)); }
  if (p.rigid.size() == 2 && (int) p.rigid[0].comps.size() == d && g.chance(1, 4)) p.rigid[1].master = p.rigid[0].slaves[g.draw(p.rigid[0].slaves.size() - 1)];   // one body hangs on the other
  double L = sizeOf(p);
  double h = 1e300; for (auto& n : b.el) for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, (b.x[n[i]] - b.x[n[j]]).norm());
  double amp = g.chance(1, 4) ? g.logreal(-8, -3) : g.real(0.02, 0.3);
  // prescribed degrees of freedom of masters
  std::map<int, double> val;
  for (size_t r = 0; r < p.rigid.size(); r++) {
    double reach = 1e-9; for (int s : p.rigid[r].slaves) reach = std::max(reach, (b.x[s] - posOf(p, (int) r)).norm());
    int how = (int) g.integer(0, 2);   // all, random, none
    for (int c = 0; c < 6; c++) {
      bool out = plane && (c == 2 || c == 3 || c == 4);
      if (c < d && p.rigid[r].master >= 0 && r == 1) { bool tied = false; for (int s : p.rigid[0].slaves) tied = tied || s == p.rigid[1].master; if (tied) continue; }
      if (how == 0 || out || (how == 1 && g.boolean())) {
        fixed.insert(p.mi((int) r, c));
        double v = c < 3 ? g.sreal(0.4) * amp * h : g.sreal(1) * amp * std::min(1.0, h / reach);
        if (out && g.chance(3, 4)) v = 0;
        if (g.chance(1, 6)) v = 0;
        val[p.mi((int) r, c)] = v;
      }
    }
  }
  int extra = (int) g.integer(0, 3); for (int i = 0; i < extra; i++) { int a = (int) g.draw(nn - 1); if (taken.count(a)) continue; for (int c = 0; c < d; c++) if (g.chance(2, 3)) fixed.insert(d * a + c); }
  hold(g, p, fixed, taken);
  bool still = g.boolean();
  for (int i : fixed) {
    if (i < b.nu()) { bool isM = false; for (size_t r = 0; r < p.rigid.size(); r++) if (p.rigid[r].master == i / d) isM = true; double v = val.count(i) ? val[i] : still ? 0 : g.sreal(0.1) * amp * h; (void) isM; b.fix.push_back({b.dof(i), v}); }
    else p.mfix.push_back({i - b.N(), val.count(i) ? val[i] : 0.0});
  }
  int freeUse = 0; for (int i = 0; i < p.Z(); i++) if (p.used(i) && !fixed.count(i) && !(i >= b.nu() && i < b.N())) freeUse++;
  if (!freeUse) throw pbt::Discard{"nothing free"};
  double P = b.mat.c[0] * (plane ? h : h * h) * amp * 0.2;
  for (size_t r = 0; r < p.rigid.size(); r++) {
    double reach = 1e-9; for (int s : p.rigid[r].slaves) reach = std::max(reach, (b.x[s] - posOf(p, (int) r)).norm());
    if (g.chance(2, 3)) for (int c = 0; c < 6; c++) if (g.chance(1, 3)) { if (p.rigid[r].master >= 0 && c < d) b.load.push_back({b.dof(p.mi((int) r, c)), g.sreal(1) * P}); else p.mload.push_back({6 * (int) r + c, g.sreal(1) * P * (c < 3 ? 1 : std::min(h, reach))}); }
  }
  int nl = (int) g.integer(0, 3); for (int i = 0; i < nl; i++) b.load.push_back({b.dof((int) g.draw(b.nu() - 1)), g.sreal(1) * P});
  p.steps = (int) g.integer(1, 5); p.crit = 1e-5;
  finish(g, p); describe(g, b); describeRigid(g, p);
  g.label(std::to_string(p.rigid.size()) + " rigid"); if (p.mload.size()) g.label("load on master");
  for (size_t r = 0; r < p.rigid.size(); r++) for (size_t q = 0; q < p.rigid.size(); q++) for (int s : p.rigid[q].slaves) if (p.rigid[r].master == s) g.label("master is tied");
  solveAndVerify(g, p);
  g.nontrivial(amp > 1e-3);
}
FACET(bent_plane, "motion beyond 1e-3 of the size", 500, 10000) { bent(g, true); }
FACET(bent_solid, "motion beyond 1e-3 of the size", 250, 5000) { bent(g, false); }

// in a linear solution the relation is the one of small rotations
FACET(linear, "rotation of a master with an offset", 600, 12000) {
  fe::Model m = fe::genMesh(g, fe::MECH);
  fe::Ref f(m); int N = (int) f.dofs.size();
  std::vector<int> mech; for (auto& q : f.id) if (q.first.second == Dof::UX && f.id.count({q.first.first, Dof::UY})) mech.push_back(q.first.first);
  if (mech.size() < 3) throw pbt::Discard{"small"};
  std::vector<int> sl; for (int i : g.sample((int) mech.size(), (int) g.integer(1, (int) mech.size() - 1))) sl.push_back(mech[i]);
  V3 c(g.sreal(2), g.sreal(2), g.sreal(2));
  std::vector<Dof::dofType> ty;
  static const Dof::dofType all[6] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ};
  std::vector<int> comps; for (int k : g.perm(3)) if (g.chance(3, 4)) comps.push_back(k);
  if (comps.empty()) comps.push_back((int) g.integer(0, 2));
  for (int s : sl) for (int k : comps) if (!f.id.count({s, all[k]})) throw pbt::Discard{"no such component"};
  // unknowns: N and six of the master
  int Z = N + 6; MX K = MX::Zero(Z, Z); K.topLeftCorner(N, N) = f.K; VX F = VX::Zero(Z); F.head(N) = f.F;
  int q = (int) (sl.size() * comps.size()); MX A = MX::Zero(q, Z); int row = 0;
  for (int s : sl) for (int k : comps) {
    V3 o = m.x[s] - c; A(row, f.id.at({s, all[k]})) = 1; A(row, N + k) = -1;
    int a = (k + 1) % 3, b = (k + 2) % 3;   // u_k = w_k + th_a o_b - th_b o_a
    A(row, N + 3 + a) -= o[b]; A(row, N + 3 + b) += o[a]; row++;
  }
  double kd = 0; for (int i = 0; i < N; i++) kd = std::max(kd, K(i, i));
  std::set<int> fixed, tied; for (int s : sl) for (int t = 0; t < 3; t++) if (f.id.count({s, all[t]})) tied.insert(f.id[{s, all[t]}]);
  for (int i = 0; i < 6; i++) if (g.boolean()) fixed.insert(N + i);
  for (int i = 0; i < (int) g.integer(0, 4); i++) { int d = (int) g.draw(N - 1); if (!tied.count(d)) fixed.insert(d); }
  for (;;) {
    std::vector<int> fr; for (int i = 0; i < Z; i++) if (!fixed.count(i)) fr.push_back(i);
    int n = (int) fr.size(); if (!n) break;
    MX S(n, n), Af(q, n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) S(i, j) = K(fr[i], fr[j]); Af.col(i) = A.col(fr[i]); }
    Eigen::FullPivLU<MX> lu(Af); lu.setThreshold(1e-8); if (lu.rank() < q) throw pbt::Discard{"dependent constraints"};
    if (lu.dimensionOfKernel() == 0) break;
    Eigen::HouseholderQR<MX> qr(lu.kernel()); MX O = qr.householderQ() * MX::Identity(n, n - q);
    MX R = O.transpose() * S * O; VX sc = VX::Ones(R.rows());
    Eigen::SelfAdjointEigenSolver<MX> es(R);
    if (es.eigenvalues()[0] > 1e-5 * kd) break;
    VX v = (O * es.eigenvectors().col(0)).cwiseAbs(); for (int i = 0; i < n; i++) if (tied.count(fr[i])) v[i] = 0;
    int k; if (!(v.maxCoeff(&k) > 1e-6)) throw pbt::Discard{"not held"};
    fixed.insert(fr[k]);
  }
  VX U = VX::Zero(Z), P = VX::Zero(Z);
  for (int i : fixed) U[i] = g.chance(1, 3) ? 0 : g.sreal(0.5);
  for (int i = 0; i < 4; i++) if (g.boolean()) P[g.draw(Z - 1)] += g.sreal(3);
  std::vector<int> fr; for (int i = 0; i < Z; i++) if (!fixed.count(i)) fr.push_back(i);
  int n = (int) fr.size(); if (!n) throw pbt::Discard{"nothing free"};
  MX S = MX::Zero(n + q, n + q); VX rhs(n + q);
  for (int i = 0; i < n; i++) { rhs[i] = F[fr[i]] + P[fr[i]]; for (int j : fixed) rhs[i] -= K(fr[i], j) * U[j]; for (int j = 0; j < n; j++) S(i, j) = K(fr[i], fr[j]); }
  for (int i = 0; i < q; i++) { rhs[n + i] = 0; for (int j : fixed) rhs[n + i] -= A(i, j) * U[j]; for (int j = 0; j < n; j++) S(n + i, j) = S(j, n + i) = A(i, fr[j]); }
  double cond = fe::Ref::condOf(S); if (cond > 1e8) throw pbt::Discard{"ill posed"};
  VX d(n + q); for (int i = 0; i < n + q; i++) d[i] = 1 / std::sqrt(S.row(i).cwiseAbs().maxCoeff());
  MX Se = d.asDiagonal() * S * d.asDiagonal(); Eigen::PartialPivLU<MX> lu(Se);
  VX x = d.asDiagonal() * lu.solve((d.asDiagonal() * rhs).eval()); x += d.asDiagonal() * lu.solve((d.asDiagonal() * (rhs - S * x)).eval());
  for (int i = 0; i < n; i++) U[fr[i]] = x[i];
  VX R = K * U - F + A.transpose() * x.tail(q);
  // the library
  fe::describe(g, m);
  g.note << "; master at (" << c[0] << ", " << c[1] << ", " << c[2] << "), tied nodes"; for (int s : sl) g.note << " " << s + 1; g.note << " components"; for (int k : comps) g.note << " " << "XYZ"[k];
  FEStorage st; fe::buildMesh(m, st); Node* nd = new Node; for (int j = 0; j < 3; j++) nd->pos[j] = c[j]; st.addNode(nd);
  uint32 M = fe::nodeNo(m.x.size());
  RigidBodyMpc* rb = new RigidBodyMpc; rb->storage = &st; rb->masterNode = M; for (int s : sl) rb->slaveNodes.push_back(fe::nodeNo(s)); for (int k : comps) rb->dofs.push_back(all[k]); st.addMpcCollection(rb);
  LinearFESolver so; so.attachFEStorage(&st);
  auto idOf = [&](int i) { return i < N ? std::make_pair(fe::nodeNo(f.dofs[i].first), f.dofs[i].second) : std::make_pair(M, all[i - N]); };
  for (int i : fixed) so.addFix(idOf(i).first, idOf(i).second, U[i]);
  for (int i = 0; i < Z; i++) if (P[i] != 0) so.addLoad(idOf(i).first, idOf(i).second, P[i]);
  so.solve();
  double us = U.cwiseAbs().maxCoeff() + 1e-6, rs = 0; for (int i = 0; i < Z; i++) rs = std::max(rs, std::fabs(R[i]) + K.row(i).cwiseAbs().dot(U.cwiseAbs()) + std::fabs(P[i]));
  double tol = 1e-8 + 1e-14 * cond + (fe::has(m, fe::INTER) ? 1e-7 : 0);
  for (int i = 0; i < Z; i++) {
    auto e = idOf(i); double u = st.getNodeDofSolution(e.first, e.second), r = st.getReaction(e.first, e.second), rr = fixed.count(i) ? R[i] : P[i];
    EXPECT(std::fabs(u - U[i]) <= tol * us, Dof::dofType2label(e.second) << " of node " << e.first << " is " << u << ", not " << U[i]);
    EXPECT(std::fabs(r - rr) <= tol * rs, "force in " << Dof::dofType2label(e.second) << " of node " << e.first << " is " << r << ", not " << rr);
  }
  double th = 0; for (int i = 3; i < 6; i++) th = std::max(th, std::fabs(U[N + i]));
  g.nontrivial(th > 1e-3);
}
