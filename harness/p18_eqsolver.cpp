// P18: equation solvers.  One source for both back ends: Gauss in the plain build, PARDISO in the MKL build.
#include "nla.h"
#include "mats.h"
using namespace nla3d;
using namespace nla3d::math;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

#ifdef NLA3D_USE_MKL
typedef PARDISO_equationSolver Solver;
static const bool pardiso = true;
#else
typedef GaussDenseEquationSolver Solver;
static const bool pardiso = false;
#endif

// PARDISO perturbs small pivots and refines the solution twice: this is the accuracy it reaches
static const double TOL = pardiso ? 1e-7 : 1e-9;

struct Sys { std::unique_ptr<SparseSymMatrix> A; MX D; std::string what; bool definite; bool saddle = false; int m = 0; };

// pattern + values of a well conditioned symmetric system
static void fill(Gen& g, Sys& s, bool saddle, int m) {
  int n = (int) s.A->nRows();
  s.A->zero();
  s.D = MX::Zero(n, n);
  bool indef = !saddle && g.boolean();
  bool tiny = saddle && g.boolean();
  double sc = g.chance(1, 3) ? g.logreal(tiny || pardiso ? -6 : -14, tiny || pardiso ? 6 : 14) : 1.0;   // the units are up to the user (PARDISO itself has absolute thresholds)
  s.definite = !indef && !saddle;
  std::vector<double> row(n, 0);
  uint32* io = s.A->getIofeirArray(); uint32* co = s.A->getColumnsArray();
  for (int i = 1; i <= n; i++)
    for (uint32 k = io[i - 1] - 1; k < io[i] - 1; k++) {
      int j = (int) co[k];
      if (j == i) continue;
      double v = g.sreal(1);
      if (saddle && i > n - m && j > n - m) v = 0;       // zero block of the constraints
      if (saddle && i <= n - m && j == n - m + i) v = 2 + g.real(0, 1);   // constraint row i acts mostly on unknown i
      else if (saddle && j > n - m) v *= 0.05;
      s.D(i - 1, j - 1) = s.D(j - 1, i - 1) = v * sc;
      row[i - 1] += std::fabs(v); row[j - 1] += std::fabs(v);
    }
  for (int i = 1; i <= n; i++) {
    double d = row[i - 1] * g.real(1.05, 2) + 0.1;
    if (indef && g.boolean()) d = -d;
    if (saddle && i > n - m) d = 0;
    // nearly zero diagonals where the constraints dominate: usable only as pivots of an unstable elimination
    if (saddle && tiny && (i > n - m || (i <= m && g.boolean()))) d = g.chance(1, 4) ? 0.0 : (g.boolean() ? 1 : -1) * g.logreal(-19, -7);
    s.D(i - 1, i - 1) = d * sc;
  }
  // some indefinite systems have zeros on the diagonal: 2x2 pivots needed
  for (int i = 1; i <= n; i++) for (int j = i; j <= n; j++) if (s.D(i - 1, j - 1) != 0) s.A->addValue(i, j, s.D(i - 1, j - 1));
  s.what = std::string(tiny ? "tiny-diagonal saddle" : saddle ? "saddle" : indef ? "indefinite" : "definite") + " n=" + std::to_string(n);
}

static Sys make(Gen& g, int nmax) {
  Sys s;
  int n = (int) g.integer(1, nmax);
  bool saddle = n >= 3 && g.chance(1, 3);
  int m = saddle ? (int) g.integer(1, n / 2) : 0;
  s.A = mats::fresh<SparseSymMatrix>(n, n, n + 2);
  int k = (int) g.integer(0, 3 * n);
  for (int e = 0; e < k; e++) s.A->addEntry((uint32) g.integer(1, n), (uint32) g.integer(1, n));
  if (saddle) for (int i = 1; i <= m; i++) s.A->addEntry(i, n - m + i);
  s.A->compress();
  s.saddle = saddle; s.m = m;
  fill(g, s, saddle, m);
  return s;
}

static VX rhs(Gen& g, int n) {
  VX b(n);
  int kind = (int) g.integer(0, 2);
  for (int i = 0; i < n; i++) b(i) = kind == 0 ? g.sreal(10) : kind == 1 ? (g.chance(1, 5) ? g.sreal(100) : 0.0) : g.sreal(1) * g.logreal(-3, 3);
  return b;
}

static void check(const Sys& s, const VX& b, const VX& x, const std::string& when) {
  int n = (int) b.size();
  for (int i = 0; i < n; i++) EXPECT(std::isfinite(x(i)), when << ": component " << i << " is " << x(i));
  VX r = s.D * x - b;
  double back = r.lpNorm<Eigen::Infinity>() / (s.D.lpNorm<Eigen::Infinity>() * x.lpNorm<Eigen::Infinity>() + b.lpNorm<Eigen::Infinity>() + 1e-300);
  EXPECT(back < TOL, when << " (" << s.what << "): A x != b, backward error " << back);
  VX e = s.D.partialPivLu().solve(b);
  double cond = 1 / std::max(1e-16, s.D.partialPivLu().rcond());
  EXPECT((x - e).lpNorm<Eigen::Infinity>() <= 1e-11 * cond * (e.lpNorm<Eigen::Infinity>() + 1e-300) + TOL * e.lpNorm<Eigen::Infinity>(),
         when << " (" << s.what << "): solution differs from the reference, |dx| " << (x - e).lpNorm<Eigen::Infinity>() << " |x| " << e.lpNorm<Eigen::Infinity>() << " cond " << cond);
  // the matrix is intact
  for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++)
    EXPECT(s.A->value(i, j) == s.D(i - 1, j - 1), when << ": entry (" << i << "," << j << ") of the matrix was changed to " << s.A->value(i, j));
}

static void solveOnce(Solver& sv, Gen& g, Sys& s, const std::string& when) {
  int n = (int) s.A->nRows();
  VX b = rhs(g, n), c = b;
  // guards around the arrays
  std::vector<double> bb(n + 2, 7.5), xx(n + 2, g.boolean() ? 0.0 : 1e30);
  double g0 = xx[0];
  for (int i = 0; i < n; i++) bb[i + 1] = c(i);
  sv.setSymmetric(true); sv.setPositive(false);
  sv.solveEquations(s.A.get(), &bb[1], &xx[1]);
  EXPECT(xx[0] == g0 && xx[n + 1] == g0 && bb[0] == 7.5 && bb[n + 1] == 7.5, when << ": wrote outside of the vectors");
  VX x(n); for (int i = 0; i < n; i++) x(i) = xx[i + 1];
  check(s, b, x, when);
}

FACET(single, "the system is indefinite or a saddle point system, or has more than 10 equations", 20000, 120000) {
  Sys s = make(g, g.chance(1, 8) ? 60 : 14);
  g.note << s.what;
  g.label(s.what.substr(0, 4));
  g.nontrivial(!s.definite || s.A->nRows() > 10);
  Solver sv;
  solveOnce(sv, g, s, "solve");
}

// symmetric dense random systems (no dominance), conditioning bounded by construction: A = Q diag Q^T
FACET(dense, "at least 3 equations and eigenvalues of both signs", 15000, 80000) {
  int n = (int) g.integer(1, 16);
  MX R(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(i, j) = g.sreal(1);
  Eigen::HouseholderQR<MX> qr(R); MX Q = qr.householderQ();
  double sc = g.chance(1, 3) ? g.logreal(pardiso ? -5 : -13, pardiso ? 5 : 13) : 1.0;
  VX d(n); int neg = 0; for (int i = 0; i < n; i++) { d(i) = g.logreal(-2, 2) * sc; if (g.boolean()) { d(i) = -d(i); neg++; } }
  MX D = Q * d.asDiagonal() * Q.transpose();
  Sys s; s.A = mats::fresh<SparseSymMatrix>(n, n, n + 2);
  for (int i = 1; i <= n; i++) for (int j = i; j <= n; j++) s.A->addEntry(i, j);
  s.A->compress();
  s.D = MX::Zero(n, n);
  for (int i = 1; i <= n; i++) for (int j = i; j <= n; j++) { double v = g.chance(1, 12) && i == j && n > 2 ? D(i - 1, j - 1) : D(i - 1, j - 1); s.D(i - 1, j - 1) = s.D(j - 1, i - 1) = v; s.A->addValue(i, j, v); }
  s.what = "dense n=" + std::to_string(n); g.note << s.what << " negative " << neg;
  g.nontrivial(n >= 3 && neg > 0 && neg < n);
  Solver sv; solveOnce(sv, g, s, "solve");
}

// one solver object through a history
FACET(history, "at least three solves with one solver object, sizes or values changing between them", 12500, 80000) {
  Solver sv;
  int steps = (int) g.integer(1, 6);
  std::vector<Sys> all;
  all.push_back(make(g, 14));
  g.note << all.back().what;
  bool changed = false;
  for (int k = 0; k < steps; k++) {
    int op = (int) g.integer(0, 4);
    std::string when = "step " + std::to_string(k);
    if (op == 1) { all.push_back(make(g, 14)); g.note << "; new " << all.back().what; changed = true; }
    if (op == 2) {   // other values, same pattern
      Sys& s = all.back();
      int n = (int) s.A->nRows();
      double f = g.real(0.5, 3); if (g.boolean()) f = -f;
      for (uint32 q = 0; q < s.A->nValues(); q++) s.A->getValuesArray()[q] *= f;
      for (int i = 1; i <= n; i++) { s.D(i - 1, i - 1) = s.A->value(i, i); for (int j = i + 1; j <= n; j++) s.D(i - 1, j - 1) = s.D(j - 1, i - 1) = s.A->value(i, j); }
      g.note << "; scaled " << f; changed = true;
    }
    if (op == 4) { fill(g, all.back(), all.back().saddle, all.back().m); g.note << "; other values"; changed = true; }
    if (op == 3) {   // one factorisation, many substitutions
      Sys& s = all.back();
      int n = (int) s.A->nRows();
      int many = (int) g.integer(1, 4);
      g.note << "; factorise + " << many << " substitutions";
      sv.setSymmetric(true); sv.setPositive(false);
      sv.factorizeEquations(s.A.get());
      for (int q = 0; q < many; q++) {
        VX b = rhs(g, n), c = b, x = VX::Zero(n);
        sv.substituteEquations(s.A.get(), c.data(), x.data());
        check(s, b, x, when + " substitution " + std::to_string(q));
      }
    } else {
      // an earlier or the current system
      Sys& s = g.chance(1, 4) ? all[g.draw(all.size() - 1)] : all.back();
      solveOnce(sv, g, s, when);
    }
  }
  g.nontrivial(steps >= 3 && changed);
}

FACET(large, "more than 100 equations", 120, 600) {
  int n = (int) g.integer(100, pardiso ? 3000 : 420);
  if (!pardiso && g.chance(1, 12)) n = 999;
  Sys s; s.A = mats::fresh<SparseSymMatrix>(n, n, 60);
  int band = (int) g.integer(1, 6);
  for (int i = 1; i <= n; i++) for (int k = 1; k <= band; k++) if (i + k <= n && g.chance(2, 3)) s.A->addEntry(i, i + k);
  for (int k = 0; k < n / 3; k++) s.A->addEntry((uint32) g.integer(1, n), (uint32) g.integer(1, n));
  s.A->compress();
  int nn = n;
  // fill by values: diagonally dominant with mixed signs
  std::vector<double> row(nn, 0);
  for (int i = 1; i <= n; i++) for (uint32 k = s.A->getIofeirArray()[i - 1] - 1; k < s.A->getIofeirArray()[i] - 1; k++) {
    int j = (int) s.A->getColumnsArray()[k]; if (j == i) continue;
    double v = g.sreal(1); s.A->getValuesArray()[k] = v; row[i - 1] += std::fabs(v); row[j - 1] += std::fabs(v);
  }
  bool indef = g.boolean();
  for (int i = 1; i <= n; i++) { double d = row[i - 1] * 1.3 + 0.2; if (indef && g.boolean()) d = -d; s.A->addValue(i, i, d); }
  std::vector<double> before(s.A->getValuesArray(), s.A->getValuesArray() + s.A->nValues());
  VX b(n); for (int i = 0; i < n; i++) b(i) = g.sreal(10);
  VX c = b, x = VX::Zero(n);
  Solver sv; sv.setSymmetric(true); sv.setPositive(false);
  sv.solveEquations(s.A.get(), c.data(), x.data());
  EXPECT(std::equal(before.begin(), before.end(), s.A->getValuesArray()), "the matrix was changed");
  VX r = -b;
  for (int i = 1; i <= n; i++) for (uint32 k = s.A->getIofeirArray()[i - 1] - 1; k < s.A->getIofeirArray()[i] - 1; k++) {
    int j = (int) s.A->getColumnsArray()[k]; double v = before[k];
    r(i - 1) += v * x(j - 1); if (j != i) r(j - 1) += v * x(i - 1);
  }
  g.note << "n=" << n << " band " << band << (indef ? " indefinite" : " definite");
  g.nontrivial(n > 100);
  for (int i = 0; i < n; i++) EXPECT(std::isfinite(r(i)) && std::fabs(r(i)) < 1e-9 * 20, "equation " << i << " of " << n << " is not satisfied: residual " << r(i));
}

#ifndef NLA3D_USE_MKL
// systems that cannot be solved are refused
FACET(refused, "every case: a singular or an oversized system", 2000, 8000) {
  if (g.chance(1, 10)) {
    int n = (int) g.integer(1000, 1400);
    SparseSymMatrix A(n, 3); A.compress(); for (int i = 1; i <= n; i++) A.addValue(i, i, 1.0);
    g.note << "n=" << n; g.label("oversized"); g.nontrivial();
    auto r = pbt::inChild([&] { std::vector<double> b(n, 1.0), x(n); GaussDenseEquationSolver s; s.solveEquations(&A, b.data(), x.data()); });
    EXPECT(r.ended == pbt::REJECTED, "a system of " << n << " equations was " << (r.ended == pbt::CRASHED ? "crashing the program" : "accepted"));
    return;
  }
  Sys s = make(g, 12);
  int n = (int) s.A->nRows();
  // an equation that nothing contributes to, or one connected to itself only by exact zeros
  int z = (int) g.integer(1, n);
  for (int j = 1; j <= n; j++) if (s.D(z - 1, j - 1) != 0) { (*s.A)(std::min(z, j), std::max(z, j)) = 0; }
  g.note << s.what << " equation " << z << " empty"; g.label("singular"); g.nontrivial();
  auto r = pbt::inChild([&] { std::vector<double> b(n, 1.0), x(n); GaussDenseEquationSolver sv; sv.solveEquations(s.A.get(), b.data(), x.data()); });
  EXPECT(r.ended == pbt::REJECTED, "a singular system was " << (r.ended == pbt::CRASHED ? "crashing the program" : "answered"));
}
#endif
