// P32: the Python module against the library itself.  Cases are written as Python code and run by a resident interpreter
// (p32_driver.py); what it answers is compared with the same done in C++ or with the meaning of the operations.
#include "fe.h"
#include "cdb.h"
#include "VtkProcessor.h"
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
using namespace fe;

struct Answer { bool ok = false; std::string head; std::vector<std::string> t; size_t i = 0;
  std::string word(const std::string& w) { EXPECT(i < t.size(), "Python gives no " << w); return t[i++]; }
  double num(const std::string& w) { std::string s = word(w); return strtod(s.c_str(), nullptr); } };
struct Py {
  pid_t pid = -1, owner = -1; FILE* in = nullptr; FILE* out = nullptr;
  void start() {
    const char *exe = getenv("NLA3D_PYEXE"), *drv = getenv("NLA3D_PYDRIVER"), *mod = getenv("NLA3D_PY");
    EXPECT(exe && drv && mod, "no Python module");
    int a[2], b[2]; EXPECT(!pipe(a) && !pipe(b), "no pipes");
    fflush(stdout); fflush(stderr);
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0); dup2(b[1], 1); for (int f : {a[0], a[1], b[0], b[1]}) close(f);
      struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
      signal(SIGPIPE, SIG_DFL); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
      execl(exe, exe, drv, mod, (char*) nullptr); _exit(98);
    }
    close(a[0]); close(b[1]); in = fdopen(a[1], "w"); out = fdopen(b[0], "r"); owner = getpid(); signal(SIGPIPE, SIG_IGN);
  }
  void stop() { if (in) fclose(in); if (out) fclose(out); in = out = nullptr; if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } pid = -1; }
  Answer run(const std::string& code) {
    if (owner != getpid()) { pid = -1; in = out = nullptr; }   // the interpreter of another worker
    if (pid < 0) start();
    fputs(code.c_str(), in); if (code.empty() || code.back() != '\n') fputs("\n", in); fputs("#END\n", in); fflush(in);
    std::string line; int c;
    while ((c = fgetc(out)) != EOF && c != '\n') line += (char) c;
    if (c == EOF) { fclose(in); fclose(out); in = out = nullptr; int st = 0; waitpid(pid, &st, 0); pid = -1; FAIL("Python itself is ended (" << (WIFSIGNALED(st) ? "signal " : "code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ") by\n" << code); }
    Answer r; size_t p = line.find(" | "); r.head = line.substr(0, p); r.ok = r.head == "ok";
    std::istringstream ss(p == std::string::npos ? "" : line.substr(p + 3)); std::string w; while (ss >> w) r.t.push_back(w);
    return r;
  }
};
static Py py;
static Answer ask(const std::string& code) { Answer a = py.run(code); EXPECT(a.ok, "Python ends with " << a.head << " in\n" << code); return a; }
static std::string num(double v) { return cdb::fmt("%.17g", v); }
static bool same(double a, double b, double s = 0) { return std::isfinite(a) && std::fabs(a - b) <= 1e-12 * std::max({std::fabs(a), std::fabs(b), s}); }

// ------------------------------------------------------------------ models
static const char* cls(Kind k) { return k == TRUSS ? "TRUSS3" : k == TET ? "TETRA0" : k == KQUAD ? "QUADTH" : "SurfaceLINETH"; }
static std::string params(const std::string& v, const El& e) {
  std::ostringstream o; o.precision(17);
  switch (e.kind) {
    case TRUSS: o << v << ".E = " << e.E << "\n" << v << ".A = " << e.A << "\n"; break;
    case TET: o << v << ".E = " << e.E << "\n" << v << ".my = " << e.nu << "\n" << v << ".alpha = " << e.alpha << "\n" << v << ".T = " << e.T << "\n"; for (size_t i = 0; i < e.eps0.size(); i++) o << v << ".strains[" << i << "] = " << e.eps0[i] << "\n"; break;
    case KQUAD: o << v << ".k = " << e.k << "\n" << v << ".rho = " << e.rho << "\n" << v << ".c = " << e.c << "\n" << v << ".volFlux = " << e.vol << "\n" << v << ".setIntegrationOrder(" << e.order << ")\n"; break;
    default: o << v << ".flux = " << e.flux << "\n" << v << ".htc = " << e.htc << "\n" << v << ".etemp[0] = " << e.et[0] << "\n" << v << ".etemp[1] = " << e.et[1] << "\n" << v << ".setIntegrationOrder(" << e.order << ")\n";
  }
  for (size_t i = 0; i < e.n.size(); i++) o << v << ".setNodeNumber(" << i << ", " << nodeNo(e.n[i]) << ")\n";
  return o.str();
}
static std::string dofName(Dof::dofType d) { return std::string("nla.Dof.") + Dof::dofType2label(d); }
FACET(model, "the solution isn't zero", 1500, 25000) {
  Model m; int what = (int) g.integer(0, 3);
  if (what == 0) addTruss(g, m); else if (what == 1) addTets(g, m, TET, 2); else if (what == 2) { addPlane(g, m, KQUAD, 4); if (g.boolean()) addLines(g, m); } else { addTets(g, m, TET, 1); addTruss(g, m, 3); addPlane(g, m, KQUAD, 2, V3(10, 10, 0)); }
  for (auto& e : m.el) { if (e.kind == TET && g.chance(1, 3)) { e.alpha = g.real(0, 0.01); e.T = g.sreal(50); } if (e.kind == TET && g.chance(1, 3)) for (int i = 0; i < 6; i++) e.eps0.push_back(g.sreal(0.02)); if (e.kind == KQUAD && g.chance(1, 3)) e.vol = g.sreal(10); }
  if (g.boolean()) m = renumber(m, g.perm((int) m.x.size()), g.perm((int) m.el.size()));
  Ref f = genBC(g, m, 1e6);
  describe(g, m);
  int steps = what == 2 && g.boolean() ? (int) g.integer(1, 5) : 0; double t0 = g.boolean() ? 0 : g.sreal(3), t1 = t0 + g.real(0.1, 3), init = g.sreal(30);
  bool setAD = g.boolean(), vtk = g.chance(1, 6), again = g.chance(1, 6); int route = (int) g.integer(0, 2);
  double delta = 0.6, alpha = 0.35;
  // in Python
  std::ostringstream o; o.precision(17);
  o << "st = nla.FEStorage()\n";
  if (route == 0) o << "r = list(st.createNodes(" << m.x.size() << "))\nout(*r)\n";
  for (size_t i = 0; i < m.x.size(); i++) {
    if (route == 0) o << "n = st.getNode(" << i + 1 << ")\n"; else o << "n = nla.Node()\n";
    const V3& x = m.x[i];
    if (route == 1) o << "n.pos[0], n.pos[1], n.pos[2] = " << x[0] << ", " << x[1] << ", " << x[2] << "\n";
    else for (int c = 0; c < 3; c++) o << "n.pos[" << c << "] = " << x[c] << "\n";
    if (route) o << "st.addNode(n)\n";
    if (route == 1 && g.boolean()) o << "n = None\n";
  }
  for (size_t i = 0; i < m.el.size();) {
    size_t j = i; while (j < m.el.size() && m.el[j].kind == m.el[i].kind) j++;
    if (route == 0) { o << "st.createElements(" << j - i << ", nla.ElementType_" << cls(m.el[i].kind) << ")\n"; for (; i < j; i++) o << "e = st.getElement" << cls(m.el[i].kind) << "(" << i + 1 << ")\n" << params("e", m.el[i]); }
    else for (; i < j; i++) o << "e = nla." << (m.el[i].kind == KLINE ? "" : "Element") << cls(m.el[i].kind) << "()\n" << params("e", m.el[i]) << "st.addElement(e)\n";
  }
  o << "so = nla." << (steps ? "LinearTransientFESolver" : "LinearFESolver") << "()\n";
  if (steps) { o << "so.numberOfTimesteps = " << steps << "\nso.time0 = " << t0 << "\nso.time1 = " << t1 << "\nso.initValue = " << init << "\n"; if (setAD) o << "so.alpha = " << alpha << "\nso.delta = " << delta << "\n"; }
  bool before = g.boolean();
  if (before) o << "so.attachFEStorage(st)\n";
  for (auto& b : m.fix) o << "so.addFix(" << nodeNo(b.first.first) << ", " << dofName(b.first.second) << (b.second == 0 && g.boolean() ? "" : ", " + num(b.second)) << ")\n";
  for (auto& b : m.load) o << "so.addLoad(" << nodeNo(b.d.first) << ", " << dofName(b.d.second) << ", " << b.v << ")\n";
  std::string job = cdb::fmt("p32_%d", (int) getpid()), dir; { char c[] = "/tmp/p32_XXXXXX"; dir = mkdtemp(c); }
  struct Rm { std::string d; ~Rm() { for (int i = 0; i < 20; i++) unlink((d + "/j" + std::to_string(i) + ".vtk").c_str()); rmdir(d.c_str()); } } rm{dir};
  if (vtk) o << "v = nla.VtkProcessor(st, '" << dir << "/j')\nv.writeAllResults()\nso.addPostProcessor(v)\nv = None\n";
  if (!before) o << "so.attachFEStorage(st)\n";
  o << "so.solve()\n";
  if (again && !has(m, TET)) o << "st.deleteSolutionData()\nso.solve()\n";
  o << "out(st.nNodes(), st.nElements(), st.nDofs(), st.nConstrainedDofs(), st.nUnknownDofs(), st.nMpc(), st.isTransient())\n";
  for (auto& d : f.dofs) o << "out(st.getNodeDofSolution(" << nodeNo(d.first) << ", " << dofName(d.second) << "), st.getReaction(" << nodeNo(d.first) << ", " << dofName(d.second) << "), st.isNodeDofUsed(" << nodeNo(d.first) << ", " << dofName(d.second) << "))\n";
  o << "U = st.getU()\nout(U.size())\nout(*[U[i] for i in range(U.size())])\n";
  for (size_t i = 0; i < m.el.size(); i++) {
    auto& e = m.el[i]; o << "e = st.getElement" << cls(e.kind) << "(" << i + 1 << ")\nout(e.getElNum(), e.getNNodes())\nout(*[e.getNodeNumber(i) for i in range(e.getNNodes())])\n";
    if (e.kind == TRUSS) o << "out(e.E, e.A, e.S)\n"; else if (e.kind == TET) o << "out(e.E, e.my, e.vol)\nout(*[e.strains[i] for i in range(6)])\nout(*[e.stress[i] for i in range(6)])\n"; else if (e.kind == KQUAD) o << "out(e.k, e.rho, e.c, e.volFlux, e.volume())\n"; else o << "out(e.flux, e.htc, e.etemp[0], e.etemp[1])\n";
  }
  for (size_t i = 0; i < m.x.size(); i++) o << "p = st.getNode(" << i + 1 << ").pos\nout(p[0], p[1], p[2])\n";
  // ends in any order
  o << g.oneOf({"so = None\nst = None\n", "st = None\nso = None\n", "del so, st\n", ""});
  // in C++
  FEStorage st; std::unique_ptr<FESolver> so; buildMesh(m, st, 0);
  if (steps) { auto* t = new LinearTransientFESolver; so.reset(t); t->numberOfTimesteps = (uint16) steps; t->time0 = t0; t->time1 = t1; t->initValue = init; if (setAD) { t->alpha = alpha; t->delta = delta; } } else so.reset(new LinearFESolver);
  so->attachFEStorage(&st); buildBC(m, *so); so->solve();
  g.label(steps ? "transient" : "static"); g.label(route == 0 ? "created by the storage" : "created in Python"); if (vtk) g.label("vtk"); if (again) g.label("solved again");
  g.note << "; " << (steps ? "transient" : "static") << (vtk ? "; vtk" : "") << "; route " << route;
  double us = 0, rs = 0; for (uint32 i = 0; i < st.getU()->size(); i++) us = std::max(us, std::fabs((*st.getU())[i])); for (auto& d : f.dofs) rs = std::max(rs, std::fabs(st.getReaction(nodeNo(d.first), d.second)));
  g.nontrivial(us > 0);
  Answer a = ask(o.str());
  if (route == 0) for (size_t i = 0; i < m.x.size(); i++) EXPECT(a.num("node number") == i + 1, "numbers of created nodes");
  double cnt[] = {(double) st.nNodes(), (double) st.nElements(), (double) st.nDofs(), (double) st.nConstrainedDofs(), (double) st.nUnknownDofs(), (double) st.nMpc(), (double) st.isTransient()};
  static const char* cn[] = {"nNodes", "nElements", "nDofs", "nConstrainedDofs", "nUnknownDofs", "nMpc", "isTransient"};
  for (int i = 0; i < 7; i++) { double v = a.num(cn[i]); EXPECT(v == cnt[i], cn[i] << " is " << v << ", in C++ " << cnt[i]); }
  for (auto& d : f.dofs) {
    double u = a.num("solution"), r = a.num("reaction"), used = a.num("use");
    EXPECT(same(u, st.getNodeDofSolution(nodeNo(d.first), d.second), us), dofStr(d) << " is " << u << ", in C++ " << st.getNodeDofSolution(nodeNo(d.first), d.second));
    EXPECT(same(r, st.getReaction(nodeNo(d.first), d.second), rs), "reaction of " << dofStr(d) << " is " << r << ", in C++ " << st.getReaction(nodeNo(d.first), d.second));
    EXPECT(used == 1, dofStr(d) << " isn't used");
  }
  EXPECT(a.num("size") == st.getU()->size(), "size of the solution vector");
  for (uint32 i = 0; i < st.getU()->size(); i++) EXPECT(same(a.num("component"), (*st.getU())[i], us), "component " << i << " of the solution vector");
  for (size_t i = 0; i < m.el.size(); i++) {
    auto& e = m.el[i]; std::string w = "element " + std::to_string(i + 1);
    EXPECT(a.num("number") == i + 1, "number of " << w); EXPECT(a.num("nodes") == e.n.size(), "nodes of " << w);
    for (int n : e.n) EXPECT(a.num("node") == nodeNo(n), "node numbers of " << w);
    std::vector<double> v;
    if (e.kind == TRUSS) { auto& q = st.getElement<ElementTRUSS3>((uint32) i + 1); v = {q.E, q.A, q.S}; }
    else if (e.kind == TET) { auto& q = st.getElement<ElementTETRA0>((uint32) i + 1); v = {q.E, q.my, q.vol}; for (int k = 0; k < 6; k++) v.push_back(q.strains[k]); for (int k = 0; k < 6; k++) v.push_back(q.stress[k]); }
    else if (e.kind == KQUAD) { auto& q = st.getElement<ElementQUADTH>((uint32) i + 1); v = {q.k, q.rho, q.c, q.volFlux, q.volume()}; }
    else { auto& q = st.getElement<SurfaceLINETH>((uint32) i + 1); v = {q.flux, q.htc, q.etemp[0], q.etemp[1]}; }
    double mx = 0; for (size_t k = e.kind == TET ? 9 : 0; k < v.size(); k++) mx = std::max(mx, std::fabs(v[k]));
    for (size_t k = 0; k < v.size(); k++) { double z = a.num("result"); EXPECT(same(z, v[k], k < 3 ? 0 : mx * 1e-3) || same(z, v[k], us * 10) , "value " << k << " of " << w << " is " << z << ", in C++ " << v[k]); }
  }
  for (auto& x : m.x) for (int c = 0; c < 3; c++) EXPECT(a.num("coordinate") == x[c], "coordinate of a node");
  EXPECT(a.i == a.t.size(), "Python gives more than asked");
  if (vtk) for (int i = 0; i <= std::max(1, steps); i++) { struct stat sb; EXPECT(!stat((dir + "/j" + std::to_string(i) + ".vtk").c_str(), &sb), "vtk file " << i << " isn't written"); }
}

// ------------------------------------------------------------------ vectors and matrices
static std::string list(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
static double val(Gen& g) { return g.boolean() ? (double) g.integer(-9, 9) : g.sreal(1e3); }
FACET(vectors, "at least three operations", 3000, 50000) {
  int N = (int) g.integer(2, 8); bool dyn = N == 8; if (dyn) N = (int) g.integer(1, 12);
  std::string C = dyn ? "nla.dVec" : "nla.Vec" + std::to_string(N), mk = dyn ? C + "(" + std::to_string(N) + ")" : C + "()";
  std::ostringstream o; o.precision(17);
  const int K = 3; std::vector<std::vector<double>> v(K, std::vector<double>(N, 0.0));
  for (int k = 0; k < K; k++) { o << "v" << k << " = " << mk << "\n"; for (int i = 0; i < N; i++) { v[k][i] = val(g); o << "v" << k << "[" << i << "] = " << v[k][i] << "\n"; } }
  std::vector<std::vector<double>> exp; int ops = (int) g.integer(1, 12);
  auto show = [&](const std::string& e, const std::vector<double>& x) { o << "w = " << e << "\nout(*[w[i] for i in range(w.size())])\n"; exp.push_back(x); };
  for (int k = 0; k < ops; k++) {
    int a = (int) g.integer(0, K - 1), b = (int) g.integer(0, K - 1); double s = val(g); std::vector<double> x = v[a];
    std::string A = "v" + std::to_string(a), B = "v" + std::to_string(b);
    double big = 0; for (double q : v[a]) big = std::max(big, std::fabs(q));
    if (big > 1e12) s = 0.5;
    switch (g.integer(0, 8)) {
      case 0: { int i = (int) g.integer(0, N - 1); v[a][i] = s; o << A << "[" << i << "] = " << s << "\n"; break; }
      case 1: for (int i = 0; i < N; i++) x[i] += v[b][i]; show(A + " + " + B, x); break;
      case 2: for (int i = 0; i < N; i++) x[i] -= v[b][i]; show(A + " - " + B, x); break;
      case 3: for (auto& q : x) q *= s; show(A + " * " + num(s), x); break;
      case 4: if (a != b) { for (int i = 0; i < N; i++) v[a][i] += v[b][i]; o << A << " += " << B << "\n"; } break;
      case 5: if (dyn && a != b) { for (int i = 0; i < N; i++) v[a][i] -= v[b][i]; o << A << " -= " << B << "\n"; }
              else if (!dyn && big < 1e12) { for (auto& q : v[a]) q *= s; o << A << " *= " << s << "\n"; } break;
      case 6: for (auto& q : v[a]) q = 0; o << A << ".zero()\n"; break;
      case 7: o << "out(" << A << ".size())\n"; exp.push_back({(double) N}); break;
      default:
        if (dyn) { int st = (int) g.integer(0, N - 1), n = (int) g.integer(1, N - st); for (int i = 0; i < n; i++) v[a][st + i] = s + i; o << "w = nla.dVec(" << A << ", " << st << ", " << n << ")\nfor i in range(" << n << "): w[i] = " << s << " + i\n"; }
        else { double q = 0; for (double z : v[a]) q += z * z; o << "out(" << A << ".length())\n"; exp.push_back({std::sqrt(q)}); }
    }
  }
  for (int k = 0; k < K; k++) show("v" + std::to_string(k), v[k]);
  o << "import ast\nout(*ast.literal_eval(str(v0)))\n"; exp.push_back(v[0]);
  g.note << C << " " << N << ", " << ops << " operations"; g.label(dyn ? "dVec" : "Vec"); g.nontrivial(ops >= 3);
  Answer r = ask(o.str());
  for (size_t k = 0; k < exp.size(); k++) { double mx = 0; for (double q : exp[k]) mx = std::max(mx, std::fabs(q)); for (size_t i = 0; i < exp[k].size(); i++) { double z = r.num("value"); EXPECT(same(z, exp[k][i], std::max(mx, 1e3)), "output " << k << " component " << i << " is " << z << ", expected " << exp[k][i] << " in\n" << o.str()); } }
  EXPECT(r.i == r.t.size(), "Python gives more than asked");
}
FACET(matrices, "every case", 2500, 40000) {
  int kind = (int) g.integer(0, 2);   // Mat33, MatSym3, dMat
  int M = 3, N = 3; if (kind == 2) { M = (int) g.integer(1, 6); N = (int) g.integer(1, 6); }
  MX a(M, N); std::ostringstream o; o.precision(17);
  bool wellc = g.boolean();
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) a(i, j) = wellc ? g.sreal(1) + (i == j ? 4 : 0) : val(g);
  std::vector<double> exp; 
  auto rows = [&](const MX& x) { std::string s = "["; for (int i = 0; i < x.rows(); i++) { std::vector<double> r; for (int j = 0; j < x.cols(); j++) r.push_back(x(i, j)); s += (i ? ", " : "") + list(r); } return s + "]"; };
  auto show = [&](const std::string& e, const MX& x) { o << "w = " << e << "\nfor i in range(" << x.rows() << "): out(*[w[i, j] for j in range(" << x.cols() << ")])\n"; for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) exp.push_back(x(i, j)); };
  bool viaList = g.boolean() && kind != 1;
  if (kind == 0) o << "m = nla.Mat33()\n"; else if (kind == 1) o << "m = nla.MatSym3()\n"; else if (!viaList) o << "m = nla.dMat(" << M << ", " << N << ")\n";
  if (viaList && kind == 0) o << "m.from_list(" << rows(a) << ")\n"; else if (viaList) o << "m = nla.dMat.from_list(" << rows(a) << ")\n";
  else {
    std::vector<std::pair<int, int>> ij; for (int i = 0; i < M; i++) for (int j = kind == 1 ? i : 0; j < N; j++) ij.push_back({i, j});
    auto q = g.perm((int) ij.size());
    for (int k : q) { int i = ij[k].first, j = ij[k].second; double x = a(i, j); if (kind == 1) { a(j, i) = x; if (g.boolean()) std::swap(i, j); } o << "m[" << i << ", " << j << "] = " << x << "\n"; }
  }
  show("m", a);
  o << "out(m.dM(), m.dN())\n"; exp.push_back(M); exp.push_back(N);
  if (kind != 1) { o << "for r in m.to_list(): out(*r)\n"; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) exp.push_back(a(i, j)); }
  o << "import ast\nfor r in ast.literal_eval(str(m)): out(*r)\n"; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) exp.push_back(a(i, j));
  if (kind == 0) {
    MX b(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b(i, j) = val(g);
    double s = val(g);
    o << "k = nla.Mat33()\nk.from_list(" << rows(b) << ")\n";
    show("m + k", a + b); show("m - k", a - b); show("m * " + num(s), s * a); show("-m", -a); show("m.transpose()", a.transpose());
    o << "c = m.copy()\nc[0, 0] = c[0, 0] + 1\n"; show("m", a); MX c = a; c(0, 0) += 1; show("c", c);
    if (wellc) { o << "out(m.det())\n"; exp.push_back(a.determinant()); show("m.inv(m.det())", a.inverse()); }
    o << "k += m\n"; show("k", b + a);
    o << "m.zero()\n"; show("m", MX::Zero(3, 3));
  }
  if (kind == 1) show("m.toMat()", a);
  g.note << (kind == 0 ? "Mat33" : kind == 1 ? "MatSym3" : "dMat") << " " << rows(a); g.label(kind == 0 ? "Mat33" : kind == 1 ? "MatSym3" : "dMat"); g.nontrivial();
  Answer r = ask(o.str());
  double mx = 1; for (double q : exp) mx = std::max(mx, std::fabs(q));
  for (size_t i = 0; i < exp.size(); i++) { double z = r.num("value"); EXPECT(std::isfinite(z) && std::fabs(z - exp[i]) <= 1e-12 * mx, "value " << i << " is " << z << ", expected " << exp[i] << " in\n" << o.str()); }
  EXPECT(r.i == r.t.size(), "Python gives more than asked");
}

// ------------------------------------------------------------------ indexes outside
FACET(indexes, "every case", 2500, 40000) {
  std::ostringstream o; std::string mk, get, set, len, state; int n = 0, M = 0, N = 0;
  int kind = (int) g.integer(0, 6);
  if (kind == 0) { n = (int) g.integer(2, 7); mk = "x = nla.Vec" + std::to_string(n) + "()"; }
  if (kind == 1) { n = (int) g.integer(1, 9); mk = "x = nla.dVec(" + std::to_string(n) + ")"; }
  if (kind == 2) { M = N = 3; mk = "x = nla.Mat33()"; }
  if (kind == 3) { M = N = 3; mk = "x = nla.MatSym3()\nx.zero()"; }
  if (kind == 4) { M = (int) g.integer(1, 5); N = (int) g.integer(1, 5); mk = "x = nla.dMat(" + std::to_string(M) + ", " + std::to_string(N) + ")\nx.zero()"; }
  if (kind == 5) {
    static const std::pair<const char*, int> el[] = {{"ElementTRUSS3", 2}, {"ElementTETRA0", 4}, {"ElementQUADTH", 4}, {"SurfaceLINETH", 2}};
    auto e = g.pick(std::vector<std::pair<const char*, int>>(el, el + 4)); n = e.second; mk = std::string("x = nla.") + e.first + "()\nfor i in range(" + std::to_string(n) + "): x.setNodeNumber(i, i + 1)";
  }
  if (kind == 6) {   // an element of another class
    static const char* T[] = {"TRUSS3", "TETRA0", "QUADTH", "SurfaceLINETH"};
    static const char* all[] = {"TRUSS3", "TETRA0", "QUADTH", "SurfaceLINETH", "PLANE41", "SOLID81", "TETRA1", "TRIANGLE4", "INTER0", "INTER3"};
    int a = (int) g.integer(0, 3), b = (int) g.integer(0, 9);
    std::ostringstream s; s << "st = nla.FEStorage()\nst.createElements(2, nla.ElementType_" << all[b] << ")\nout(raises(IndexError, lambda: st.getElement" << T[a] << "(" << g.integer(1, 2) << ")))\n";
    g.note << s.str(); g.label("class of an element"); g.nontrivial();
    Answer r = ask(s.str()); EXPECT(r.num("answer") == (std::string(T[a]) == all[b] ? 0 : 1), "asked for " << T[a] << " in place of " << all[b] << (std::string(T[a]) == all[b] ? ": refused" : ": not refused"));
    return;
  }
  o << mk << "\n";
  bool two = kind >= 2 && kind <= 4; static const char* names[] = {"Vec", "dVec", "Mat33", "MatSym3", "dMat", "node number of an element"};
  // every place inside is reachable
  auto idx = [&](long i, long j) { return two ? "(" + std::to_string(i) + ", " + std::to_string(j) + ")" : std::to_string(i); };
  auto read = [&](const std::string& i) { return kind == 5 ? "x.getNodeNumber(" + i + ")" : "x[" + i + "]"; };
  auto write = [&](const std::string& i) { return kind == 5 ? "lambda: x.setNodeNumber(" + i + ", 7)" : "lambda: assign(x, " + i + ", 7.0)"; };
  std::vector<std::string> in; if (two) { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) in.push_back(idx(i, j)); } else for (int i = 0; i < n; i++) in.push_back(idx(i, 0));
  for (auto& i : in) if (kind != 5) o << "x[" << i << "] = 1.5\n";
  long far = g.oneOf({0L, 0L, 1L, 2L, 100L, 60000L}); bool w = g.boolean();
  std::string bad;
  if (!two) bad = idx(n + std::min(far, 60000L), 0);
  else { int d = (int) g.integer(0, 2); bad = idx(d == 1 ? (long) g.integer(0, M - 1) : M + far, d == 0 ? (long) g.integer(0, N - 1) : N + far); }
  o << "out(raises(IndexError, " << (w ? write(bad) : "lambda: " + read(bad)) << "))\n";
  for (auto& i : in) o << "out(" << read(i) << ")\n";
  g.note << names[kind] << " " << (two ? M : n) << "x" << N << (w ? " written" : " read") << " at " << bad; g.label(names[kind]); g.nontrivial();
  Answer r = ask(o.str());
  EXPECT(r.num("answer") == 1, names[kind] << ": place " << bad << " isn't refused with IndexError");
  for (size_t i = 0; i < in.size(); i++) { double z = r.num("value"); EXPECT(z == (kind == 5 ? (double) i + 1 : 1.5), names[kind] << ": place " << in[i] << " holds " << z << " after place " << bad << " was refused"); }
}

// ------------------------------------------------------------------ model files
FACET(files, "the file holds elements and conditions", 1500, 25000) {
  using namespace cdb;
  cdb::Opt op = genOpt(g); cdb::Mesh m = cdb::genMesh(g, op); Style s;
  std::string f = "/tmp/" + fmt("p32_%d.cdb", (int) getpid()); put(f, cdb::write(g, m, op, s));
  struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f};
  bool compress = g.boolean();
  MeshData md; EXPECT(readCdbFile(f, md), "file is reported unreadable");
  if (compress) md.compressNumbers();
  std::ostringstream o;
  o << "md = nla.MeshData()\nout(nla.readCdbFile('" << f << ".none', md))\nout(nla.readCdbFile('" << f << "', md))\n";
  if (compress) o << "md.compressNumbers()\n";
  uint32 type = m.els.size() && g.boolean() ? m.els[g.draw(m.els.size() - 1)].type : (uint32) g.integer(1, 5);
  o << "out(len(md.nodesNumbers), len(md.nodesPos), len(md.cellNumbers), len(md.cellNodes), len(md.fixBcs), len(md.loadBcs), len(md.mpcs), len(md.feComps))\n"
       "out(*list(md.nodesNumbers))\nfor p in md.nodesPos: out(p[0], p[1], p[2])\nout(*list(md.cellNumbers))\nfor c in md.cellNodes: out(*list(c))\n"
       "out(*list(md.cellIntData['TYPE']))\nout(*list(md.cellIntData['MAT']))\n"
       "for b in md.fixBcs: out(b.node, b.node_dof, b.value)\nfor b in md.loadBcs: out(b.node, b.node_dof, b.value)\n"
       "for b in md.mpcs: out(b.b)\n"
    << "out(*list(md.getCellsByAttribute('TYPE', " << type << ")))\nout(*list(md.getDegeneratedCells()))\nmd.clear()\nout(len(md.nodesNumbers), len(md.cellNodes))\n";
  bool attrs = md.cellIntData.count("TYPE") && md.cellIntData.count("MAT");
  if (!attrs) throw pbt::Discard{"no elements"};
  g.note << show(m) << (compress ? "; compressed" : ""); g.nontrivial(m.els.size() && m.fix.size() && m.load.size());
  Answer r = ask(o.str());
  EXPECT(r.num("answer") == 0, "a file that doesn't exist is read"); EXPECT(r.num("answer") == 1, "the file isn't read");
  double n[] = {(double) md.nodesNumbers.size(), (double) md.nodesPos.size(), (double) md.cellNumbers.size(), (double) md.cellNodes.size(), (double) md.fixBcs.size(), (double) md.loadBcs.size(), (double) md.mpcs.size(), (double) md.feComps.size()};
  for (double x : n) { double z = r.num("size"); EXPECT(z == x, "a list has " << z << " entries, in C++ " << x); }
  auto eq = [&](double x, const char* w) { double z = r.num(w); EXPECT(z == x, w << " is " << z << ", in C++ " << x); };
  for (auto x : md.nodesNumbers) eq(x, "node number"); for (auto& p : md.nodesPos) for (int c = 0; c < 3; c++) eq(p[c], "coordinate");
  for (auto x : md.cellNumbers) eq(x, "element number"); for (auto& c : md.cellNodes) for (auto x : c) eq(x, "node of an element");
  for (auto x : md.cellIntData["TYPE"]) eq(x, "type"); for (auto x : md.cellIntData["MAT"]) eq(x, "material");
  for (auto& b : md.fixBcs) { eq(b.node, "node of a prescribed value"); eq(b.node_dof, "degree of freedom of a prescribed value"); eq(b.value, "prescribed value"); }
  for (auto& b : md.loadBcs) { eq(b.node, "node of a load"); eq(b.node_dof, "degree of freedom of a load"); eq(b.value, "load"); }
  for (auto b : md.mpcs) eq(b->b, "right hand side");
  for (auto x : md.getCellsByAttribute("TYPE", type)) eq(x, "element of the type"); for (auto x : md.getDegeneratedCells()) eq(x, "degenerated element");
  eq(0, "size after clear"); eq(0, "size after clear");
  EXPECT(r.i == r.t.size(), "Python gives more than asked");
  freeMpcs(md);
}

// A model file read, solved and evaluated by a Python program, equations of the file included.
FACET(programs, "the solution isn't zero", 800, 12000) {
  Model m; if (g.boolean()) addTruss(g, m); else addTets(g, m, TET, 3);
  if (g.chance(1, 3)) addTruss(g, m, 3);
  double par[2][2] = {{g.real(1, 50), g.real(0.1, 2)}, {g.real(1, 50), g.real(0, 0.4)}};   // E, A; E, nu
  for (auto& e : m.el) { int t = e.kind == TET; e.E = par[t][0]; (t ? e.nu : e.A) = par[t][1]; }
  Ref f = genBC(g, m, 1e6);
  if (g.chance(2, 3)) genMpc(g, m, f);
  cdb::Opt op = cdb::genOpt(g); op.nodeD = 16; op.solid = true; cdb::Style s; s.noise = g.boolean(); s.tight = g.boolean();
  auto no = cdb::numbers(g, (int) m.x.size(), cdb::lim(op.nodeW)), en = cdb::numbers(g, (int) m.el.size() + 2, cdb::lim(op.elW));
  std::sort(no.begin(), no.end());   // the same places after compression in the order of the file
  cdb::Mesh w;
  for (size_t i = 0; i < m.x.size(); i++) { cdb::NodeRec n; n.no = no[i]; for (int c = 0; c < 3; c++) { n.t[c] = cdb::sci(m.x[i][c], op.nodeD, op.nodeE); n.x[c] = strtod(n.t[c].c_str(), nullptr); } w.nodes.push_back(n); }
  auto rec = [&](DofId d, double v, bool force) { cdb::BcRec b; b.node = no[d.first]; b.d = d.second; b.t = cdb::fmt("%.9E", v); b.v = strtod(b.t.c_str(), nullptr); static const char* fl[] = {"FX", "FY", "FZ"}; b.label = force ? fl[(int) d.second - (int) Dof::UX] : Dof::dofType2label(d.second); return b; };
  int order = (int) g.integer(0, 1);
  for (int t = 0; t < 2; t++) for (size_t i = 0; i < m.el.size(); i++) if ((m.el[i].kind == TET) == (t == order)) { cdb::ElRec e; e.no = en[i]; e.type = m.el[i].kind == TET ? 2 : 1; e.mat = e.real = e.sect = 1; e.cs = 0; e.shape = 0; for (int n : m.el[i].n) e.n.push_back(no[n]); w.els.push_back(e); }
  for (auto& b : m.fix) w.fix.push_back(rec(b.first, b.second, false));
  for (auto& b : m.load) w.load.push_back(rec(b.d, b.v, true));
  for (auto& q : m.mpc) { cdb::CeRec c; c.bt = cdb::fmt("%.9E", q.b); c.b = strtod(c.bt.c_str(), nullptr); for (auto& t : q.terms) c.terms.push_back(rec(t.d, t.coef, false)); w.ce.push_back(c); }
  std::string file = "/tmp/" + cdb::fmt("p32p_%d.cdb", (int) getpid()); cdb::put(file, cdb::write(g, w, op, s));
  struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{file};
  describe(g, m); g.label(m.mpc.size() ? "equations" : "no equations");
  // in C++
  double us = 0, rs = 0; std::vector<double> U, R, E; std::vector<DofId> ds = f.dofs;
  {
    FEStorage st; LinearFESolver so; so.attachFEStorage(&st); MeshData md; EXPECT(readCdbFile(file, md), "file isn't read"); md.compressNumbers();
    EXPECT(md.nodesPos.size() == m.x.size() && md.mpcs.size() == m.mpc.size(), "the file holds " << md.nodesPos.size() << " nodes and " << md.mpcs.size() << " equations");
    st.createNodes(m.x.size()); for (size_t i = 0; i < md.nodesPos.size(); i++) st.getNode((uint32) i + 1).pos = md.nodesPos[i];
    for (uint32 t : {1u, 2u}) for (auto c : md.getCellsByAttribute("TYPE", t)) { auto ix = st.createElements(1, t == 1 ? ElementType::TRUSS3 : ElementType::TETRA0); auto& e = st.getElement(ix[0]); for (uint16 k = 0; k < e.getNNodes(); k++) e.getNodeNumber(k) = md.cellNodes[c][k]; if (t == 1) { auto& q = st.getElement<ElementTRUSS3>(ix[0]); q.E = par[0][0]; q.A = par[0][1]; } else { auto& q = st.getElement<ElementTETRA0>(ix[0]); q.E = par[1][0]; q.my = par[1][1]; } }
    for (auto& b : md.fixBcs) so.addFix(b.node, b.node_dof, b.value); for (auto& b : md.loadBcs) so.addLoad(b.node, b.node_dof, b.value); for (auto q : md.mpcs) st.addMpc(q);
    so.solve();
    for (auto& d : ds) { U.push_back(st.getNodeDofSolution(nodeNo(d.first), d.second)); R.push_back(st.getReaction(nodeNo(d.first), d.second)); us = std::max(us, std::fabs(U.back())); rs = std::max(rs, std::fabs(R.back())); }
    for (auto& l : m.load) rs = std::max(rs, std::fabs(l.v));
  }
  g.nontrivial(us > 0);
  std::ostringstream o; o.precision(17);
  o << "md = nla.MeshData()\nif not nla.readCdbFile('" << file << "', md): raise RuntimeError('not read')\nmd.compressNumbers()\nst = nla.FEStorage()\nso = nla.LinearFESolver()\nso.attachFEStorage(st)\n"
       "for i, j in enumerate(st.createNodes(md.nodesNumbers.size())): st.getNode(j).pos = md.nodesPos[i]\n"
       "for t, c in ((1, 'TRUSS3'), (2, 'TETRA0')):\n  ind = md.getCellsByAttribute('TYPE', t)\n  for i, j in zip(st.createElements(ind.size(), getattr(nla, 'ElementType_' + c)), ind):\n    e = getattr(st, 'getElement' + c)(i)\n    for k in range(e.getNNodes()): e.setNodeNumber(k, md.cellNodes[j][k])\n"
       "    if t == 1: e.E, e.A = " << par[0][0] << ", " << par[0][1] << "\n    else: e.E, e.my = " << par[1][0] << ", " << par[1][1] << "\n"
       "for v in md.fixBcs: so.addFix(v.node, v.node_dof, v.value)\nfor v in md.loadBcs: so.addLoad(v.node, v.node_dof, v.value)\nfor q in md.mpcs: st.addMpc(q)\n";
  if (g.boolean()) o << "md = None\n";
  o << "so.solve()\n";
  for (auto& d : ds) o << "out(st.getNodeDofSolution(" << nodeNo(d.first) << ", " << dofName(d.second) << "), st.getReaction(" << nodeNo(d.first) << ", " << dofName(d.second) << "))\n";
  o << g.oneOf({"so = None\nst = None\n", "st = None\nso = None\n", "del so, st\n"});
  Answer a = ask(o.str());
  for (size_t i = 0; i < ds.size(); i++) { double u = a.num("solution"), r = a.num("reaction"); EXPECT(same(u, U[i], us * 1e2), dofStr(ds[i]) << " is " << u << ", in C++ " << U[i]); EXPECT(same(r, R[i], rs * 1e2), "reaction of " << dofStr(ds[i]) << " is " << r << ", in C++ " << R[i]); }
}
