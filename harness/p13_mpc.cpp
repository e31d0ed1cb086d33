// P13: linear multi-point constraints.
#include "fe.h"
using namespace fe;

static double eqScale(const MpcEq& q, Run& r) {
  double s = std::fabs(q.b);
  for (auto& t : q.terms) s += std::fabs(t.coef * r.u(t.d));
  return s;
}

FACET(equations_hold, "an equation with two or more terms in force", 3000, 80000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  genMpc(g, m, f, 6);
  describe(g, m);
  int ek = eqKinds(g);
  Run r(m, ek, (int) g.integer(0, 1));
  MX S = f.saddle();
  double cond = Ref::condOf(S);
  if (cond > 1e8) throw pbt::Discard{"ill conditioned"};
  double umax[2] = {0, 0};
  for (auto& d : f.dofs) { double& x = umax[d.second == Dof::TEMP]; x = std::max(x, std::fabs(r.u(d))); }
  for (size_t i = 0; i < m.mpc.size(); i++) {
    auto& q = m.mpc[i];
    double v = -q.b; for (auto& t : q.terms) v += t.coef * r.u(t.d);
    double s = eqScale(q, r) + umax[q.terms[0].d.second == Dof::TEMP] + 1e-3;
    EXPECT(std::fabs(v) <= (ek == 2 ? 1e-8 : 1e-9) * s + 1e-14 * cond * s, "equation " << i + 1 << " of " << m.mpc.size() << " is off by " << v << " (size of its terms " << s << ")");
  }
  bool two = false; for (auto& q : m.mpc) two = two || q.terms.size() > 1;
  g.nontrivial(two);
}

// potential energy: no admissible direction may lower it, i.e. the out-of-balance force is a combination of equations
FACET(minimum_of_energy, "equations in force and at least two admissible directions", 2000, 50000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  genMpc(g, m, f, 4);
  describe(g, m);
  int ek = eqKinds(g);
  Run r(m, ek);
  double cond = Ref::condOf(f.saddle());
  if (cond > 1e7) throw pbt::Discard{"ill conditioned"};
  VX U = r.U(f);
  VX grad = f.K * U - f.F - f.P;
  VX sc = rowScale(f, U);
  int n = (int) f.freeD.size(), q = (int) f.A.rows();
  MX Af(q, n); VX gf(n), sf(n);
  for (int j = 0; j < n; j++) { Af.col(j) = f.A.col(f.freeD[j]); gf[j] = grad[f.freeD[j]]; sf[j] = sc[f.freeD[j]]; }
  // basis of admissible directions
  MX Z;
  if (q) { Eigen::FullPivLU<MX> lu(Af); Z = lu.kernel(); } else Z = MX::Identity(n, n);
  for (int k = 0; k < Z.cols(); k++) {
    double d = Z.col(k).dot(gf), s = Z.col(k).cwiseAbs().dot(sf);
    double big = Z.col(k).cwiseAbs().maxCoeff();
    // forces of other fields have other units: scale from the rows this direction touches
    double sm = 0; for (int j = 0; j < n; j++) if (Z(j, k) != 0) sm = std::max(sm, sf[j]);
    EXPECT(std::fabs(d) <= ((ek == 2 ? 1e-8 : 1e-8) + 20 * quadTol(m)) * (s + sm * big) + (1e-12 * sf.maxCoeff() + 1e-12) * big, "a direction allowed by the equations changes the energy at rate " << d << " (scale " << s << ")");
  }
  g.nontrivial(q > 0 && n - q >= 2);
}

FACET(form_of_the_equations, "equations restated", 1500, 40000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  genMpc(g, m, f, 4);
  if (m.mpc.empty()) throw pbt::Discard{"no equation fits"};
  describe(g, m);
  f.solve();
  if (f.cond > 1e7) throw pbt::Discard{"ill conditioned"};
  int ek = eqKinds(g);
  Run a(m, ek);
  Model m2 = m;
  for (auto& q : m2.mpc) {
    double s = g.oneOf({-1.0, 2.0, 0.5, -3.0, 1.0});
    for (auto& t : q.terms) t.coef *= s;
    q.b *= s;
    std::vector<int> p = g.perm((int) q.terms.size()); std::vector<Term> t; for (int i : p) t.push_back(q.terms[i]); q.terms = t;
    if (g.chance(1, 3)) { Term x = q.terms[0]; q.terms[0].coef *= 0.25; x.coef *= 0.75; q.terms.push_back(x); }   // a term in two parts
  }
  std::vector<int> p = g.perm((int) m2.mpc.size()); std::vector<MpcEq> t; for (int i : p) t.push_back(m2.mpc[i]); m2.mpc = t;
  Run b(m2, ek);
  VX Ua = a.U(f), Ub = b.U(f);
  for (int th = 0; th < 2; th++) {
    double s = 0; for (size_t i = 0; i < f.dofs.size(); i++) if ((f.dofs[i].second == Dof::TEMP) == (th == 1)) s = std::max(s, std::fabs(Ua[i]));
    for (size_t i = 0; i < f.dofs.size(); i++) if ((f.dofs[i].second == Dof::TEMP) == (th == 1))
      EXPECT(std::fabs(Ua[i] - Ub[i]) <= ((ek == 2 ? 1e-8 : 1e-9) + 1e-12 * f.cond) * std::max(s, 1e-3), dofStr(f.dofs[i]) << ": " << Ua[i] << " and " << Ub[i] << " for the restated equations");
  }
  g.nontrivial();
}

// tying copies of nodes together is the same as sharing them
FACET(tied_copies, "at least one tied node pair", 1500, 40000) {
  Model m = genMesh(g);
  Ref f = genBC(g, m, 1e5);
  describe(g, m);
  f.solve();
  if (f.cond > 1e6) throw pbt::Discard{"ill conditioned"};
  Model t = m;
  // one element gets its own copies of some of its nodes
  int cut = (int) g.draw(t.el.size() - 1), ntied = 0;
  El& e = t.el[cut];
  for (auto& n : e.n) if (g.boolean()) {
    int c = (int) t.x.size();
    t.x.push_back(t.x[n]);
    for (auto d : dofsOf(e.kind)) {
      bool used = false;    // somebody else has to use the original, otherwise nothing would be left there
      for (size_t i = 0; i < m.el.size(); i++) if ((int) i != cut)
        for (int q : m.el[i].n) if (q == n) for (auto dd : dofsOf(m.el[i].kind)) used = used || dd == d;
      if (!used) throw pbt::Discard{"node of a single element"};
      MpcEq q; q.terms = {{DofId(n, d), 1.0}, {DofId(c, d), -1.0}};
      if (g.boolean()) std::swap(q.terms[0], q.terms[1]);
      t.mpc.push_back(q);
    }
    n = c; ntied++;
  }
  double tc = Ref::condOf(Ref(t).saddle());
  if (tc > 1e8) throw pbt::Discard{"ill conditioned"};
  int ek = eqKinds(g);
  Run a(m, 0), b(t, ek);
  double s[2] = {1e-6, 1e-6};
  for (auto& d : f.dofs) s[d.second == Dof::TEMP] = std::max(s[d.second == Dof::TEMP], std::fabs(a.u(d)));
  for (auto& d : f.dofs) {
    double tol = ((ek == 2 ? 1e-8 : 1e-9) + 1e-11 * std::max(f.cond, tc)) * s[d.second == Dof::TEMP];
    EXPECT(std::fabs(a.u(d) - b.u(d)) <= tol, dofStr(d) << " is " << a.u(d) << " with shared nodes and " << b.u(d) << " with tied copies");
  }
  g.nontrivial(ntied > 0);
}
