// P31: the command line program runs the model it is told to, checked from outside: exit status, files, log.
#include "hyper.h"
#include "cdb.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
using namespace hyper;

// ------------------------------------------------------------------ running the program
struct Scratch {
  std::string dir; Scratch() { char t[] = "/tmp/p31_XXXXXX"; dir = mkdtemp(t); }
  static std::set<std::string> list(const std::string& d) { std::set<std::string> r; DIR* p = opendir(d.c_str()); if (p) { while (dirent* e = readdir(p)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") r.insert(e->d_name); closedir(p); } return r; }
  static void drop(const std::string& d) { for (auto& f : list(d)) { std::string q = d + "/" + f; struct stat s; if (!lstat(q.c_str(), &s) && S_ISDIR(s.st_mode)) drop(q); else unlink(q.c_str()); } rmdir(d.c_str()); }
  ~Scratch() { drop(dir); }
};
struct Ran { bool exited = false; int code = 0, sig = 0; std::string out; bool success() const { return exited && code == 0; }
  std::string tail() const { return out.size() > 300 ? out.substr(out.size() - 300) : out; } };
static Ran runProgram(const std::vector<std::string>& args, const std::string& cwd) {
  const char* bin = getenv("NLA3D_BIN_main"); EXPECT(bin, "no program");
  std::string log = cwd + "/.out";
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
    if (chdir(cwd.c_str())) _exit(99);
    struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
    struct rlimit rl = {10, 11}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit fs = {50 << 20, 50 << 20}; setrlimit(RLIMIT_FSIZE, &fs);
    std::vector<char*> a; a.push_back((char*) "nla3d"); for (auto& s : args) a.push_back((char*) s.c_str()); a.push_back(nullptr);
    execv(bin, a.data()); _exit(98);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Ran r; r.exited = WIFEXITED(st); r.code = r.exited ? WEXITSTATUS(st) : 0; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  std::ifstream in(log); std::stringstream ss; ss << in.rdbuf(); r.out = ss.str(); unlink(log.c_str());
  EXPECT(!(r.exited && (r.code == 98 || r.code == 99)), "the program could not be started");
  // memory faults and runs without an end are never right
  EXPECT(r.sig == 0 || r.sig == SIGABRT, "the program was ended by signal " << r.sig << (r.sig == SIGXCPU || r.sig == SIGKILL ? " (it doesn't end)" : ""));
  EXPECT(!(r.exited && r.code == 77), "memory fault in the program: " << r.out.substr(r.out.find("==") == std::string::npos ? 0 : r.out.find("=="), 400));
  return r;
}
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }

// ------------------------------------------------------------------ a model, its file and the options
struct Case {
  Problem p; cdb::Mesh m; std::string text, model;
  std::vector<int> place;            // body node (masters behind) -> position in the file
  int orphans = 0, total = 0;
  std::vector<std::vector<std::string>> opts;
  // what the options mean
  bool vtk = true; int iterations = 15, steps = 10;
  std::vector<int> rNodes; std::vector<Dof::dofType> rDofs; bool reaction = false;   // rNodes: positions
  std::vector<std::string> consts;
  uint32 no(int pos) const { return m.nodes[pos].no; }
  std::vector<std::string> args() const { std::vector<std::string> a = {model}; for (auto& o : opts) a.insert(a.end(), o.begin(), o.end()); return a; }
};
static const Dof::dofType mdof[6] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ};
static std::string num(double v, int d = 9) { std::string s = cdb::fmt("%.*g", d, v); return s; }

static void component(Case& c, const std::string& name, bool nodes, std::vector<uint32> l) {
  cdb::CompRec r; r.name = name; r.nodes = nodes; std::sort(l.begin(), l.end());
  // a range covers all numbers between its ends: the ones that aren't in the model don't matter to it
  for (uint32 x : l) { if (r.ranges.size() && r.ranges.back().second + 1 == x) r.ranges.back().second = x; else r.ranges.push_back({x, x}); }
  c.m.comp.push_back(r);
}
// everything but the options
static void genCase(Gen& g, Case& c) {
  bool plane = g.chance(2, 3), rigid = g.chance(1, 3);
  c.p = genHeld(g, plane); c.p.b.order = 2; condition(g, c.p, rigid);
  Body& b = c.p.b;
  c.orphans = g.chance(1, 3) ? (int) g.integer(1, 3) : 0;
  int nb = (int) b.x.size(), nr = (int) c.p.rigid.size(); c.total = nb + nr + c.orphans;
  std::vector<int> order = g.chance(1, 2) ? g.perm(c.total) : std::vector<int>();
  for (int i = 0; i < c.total; i++) c.place.push_back(order.empty() ? i : order[i]);
  cdb::Opt o = cdb::genOpt(g); o.solid = true; o.nodeD = std::max(o.nodeD, 12);
  auto nums = cdb::numbers(g, c.total, std::min(cdb::lim(o.nodeW), cdb::lim(o.elW)));
  c.m.nodes.resize(c.total);
  for (int i = 0; i < c.total; i++) {
    auto& n = c.m.nodes[c.place[i]]; n.no = nums[c.place[i]];
    V3 x = i < nb ? b.x[i] : i < nb + nr ? c.p.rigid[i - nb].pos : V3(g.sreal(3), g.sreal(3), g.sreal(3));
    for (int k = 0; k < 3; k++) { n.t[k] = cdb::sci(x[k], o.nodeD, o.nodeE); n.x[k] = strtod(n.t[k].c_str(), nullptr); }
    if (i < nb) b.x[i] = V3(n.x[0], n.x[1], n.x[2]); else if (i < nb + nr) c.p.rigid[i - nb].pos = V3(n.x[0], n.x[1], n.x[2]);
  }
  // elements of type 1 make the model, others (points, springs to ground ..) are not for it
  auto en = cdb::numbers(g, (int) b.el.size() + 4, cdb::lim(o.elW)); size_t q = 0;
  auto other = [&] { while (g.chance(1, 4) && q + b.el.size() < en.size() + 0 && c.m.els.size() < b.el.size() + 3) { cdb::ElRec e; e.no = en[q++]; e.type = (uint32) g.integer(2, 4); e.mat = 1; e.real = 1; e.sect = 1; e.cs = 0; e.shape = 0; int k = (int) g.integer(1, 8); for (int i = 0; i < k; i++) e.n.push_back(c.no((int) g.draw(c.total - 1))); c.m.els.push_back(e); } };
  for (auto& l : b.el) {
    other();
    cdb::ElRec e; e.no = en[q++]; e.type = 1; e.mat = (uint32) g.integer(1, 2); e.real = (uint32) g.integer(0, 2); e.sect = 1; e.cs = 0; e.shape = 0;
    for (int i : l) e.n.push_back(c.no(c.place[i]));
    c.m.els.push_back(e);
  }
  other();
  // conditions: values are what the text says
  auto rec = [&](int node, Dof::dofType d, double& v, bool force) {
    cdb::BcRec r; r.node = c.no(c.place[node]); r.d = d; r.t = v == 0 && g.boolean() ? "0.00000000    " : cdb::fmt("%.8E", v); r.v = v = strtod(r.t.c_str(), nullptr);
    static const char* fl[] = {"FX", "FY", "FZ"};
    r.label = force ? fl[(int) d - (int) Dof::UX] : Dof::dofType2label(d); return r;
  };
  std::vector<std::pair<int, int>> all;   // prescribed: kind, index, given in any order
  for (size_t i = 0; i < b.fix.size(); i++) all.push_back({0, (int) i});
  for (size_t i = 0; i < c.p.mfix.size(); i++) all.push_back({1, (int) i});
  auto ord = g.perm((int) all.size());
  for (int k : ord) {
    if (all[k].first == 0) { auto& f = b.fix[all[k].second]; c.m.fix.push_back(rec(f.first.first, f.first.second, f.second, false)); }
    else { auto& f = c.p.mfix[all[k].second]; c.m.fix.push_back(rec(nb + f.first / 6, mdof[f.first % 6], f.second, false)); }
  }
  for (auto& l : b.load) c.m.load.push_back(rec(l.d.first, l.d.second, l.v, true));
  // an equation between two free degrees of freedom of the body
  if (!rigid && g.chance(1, 4)) {
    std::set<DofId> held; for (auto& f : b.fix) held.insert(f.first);
    std::vector<DofId> fr; for (int i = 0; i < b.nu(); i++) if (!held.count(b.dof(i))) fr.push_back(b.dof(i));
    if (fr.size() >= 4) {
      auto s = g.sample((int) fr.size(), 2); double k1 = 1, k2 = g.oneOf({-1.0, 1.0, -0.5}); fe::MpcEq e; cdb::CeRec ce; ce.b = 0; ce.bt = "0.00000000    ";
      ce.terms.push_back(rec(fr[s[0]].first, fr[s[0]].second, k1, false)); ce.terms.push_back(rec(fr[s[1]].first, fr[s[1]].second, k2, false));
      e.terms.push_back({fr[s[0]], k1}); e.terms.push_back({fr[s[1]], k2}); b.mpc.push_back(e); c.m.ce.push_back(ce); g.label("constraint equation");
    }
  }
  // components: slaves, measured nodes, elements
  for (auto& r : c.p.rigid) { std::vector<uint32> l; for (int s : r.slaves) l.push_back(c.no(c.place[s])); component(c, "SLAVES", true, l); }
  { std::vector<uint32> l; for (auto& e : c.m.els) if (g.boolean() || l.empty()) l.push_back(e.no); component(c, "PARTS", false, l); }
  // material constants
  for (auto& k : b.mat.c) { c.consts.push_back(num(k)); k = atof(c.consts.back().c_str()); }
  cdb::Style s; s.noise = g.boolean(); s.blanks = g.chance(1, 4); s.keyCase = g.chance(1, 4) ? 1 : 0; s.tight = g.boolean();
  if (g.chance(1, 4)) s.eol = "\r\n";
  if (g.chance(1, 2)) {   // measured: nodes where something is prescribed, or any
    std::map<int, std::set<Dof::dofType>> held; for (auto& f : b.fix) held[f.first.first].insert(f.first.second); for (auto& f : c.p.mfix) held[nb + f.first / 6].insert(mdof[f.first % 6]);
    std::vector<int> nodes; bool autoDofs = g.boolean();
    if (autoDofs) {
      auto it = held.begin(); std::advance(it, g.draw(held.size() - 1));
      for (auto& h : held) if (h.second == it->second && (h.first == it->first || g.chance(3, 4))) nodes.push_back(h.first);
    } else {
      if (nr && g.boolean()) nodes.push_back(nb); else for (int i = 0; i < nb; i++) if (g.chance(1, 2)) nodes.push_back(i);
      if (nodes.empty()) nodes.push_back(0);
      int dims = nodes[0] >= nb ? 6 : b.nd();
      std::vector<Dof::dofType> d; for (int i : g.perm(dims)) d.push_back(mdof[i]);
      d.resize((size_t) g.integer(1, dims)); c.rDofs = d;
    }
    if (autoDofs) { int n0 = nodes[0]; for (auto& n : nodes) if (c.no(c.place[n]) < c.no(c.place[n0])) n0 = n; for (int k = 0; k < 6; k++) if (held[n0].count(mdof[k])) c.rDofs.push_back(mdof[k]); }
    std::vector<uint32> l; for (int n : nodes) { l.push_back(c.no(c.place[n])); c.rNodes.push_back(c.place[n]); }
    component(c, "PROBE", true, l);
    c.reaction = true; g.label(autoDofs ? "reaction dofs found" : "reaction dofs given");
    std::vector<std::string> a = {"-reaction", "PROBE"}; if (!autoDofs) for (auto d : c.rDofs) a.push_back(Dof::dofType2label(d));
    c.opts.push_back(a);
  }
  if (g.boolean()) std::reverse(c.m.comp.begin(), c.m.comp.end());
  c.text = cdb::write(g, c.m, o, s);
  static const char* mn[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"};
  { std::vector<std::string> a = {"-material", mn[b.mat.kind]}; a.insert(a.end(), c.consts.begin(), c.consts.end()); c.opts.push_back(a); }
  if (plane || g.boolean()) c.opts.push_back({"-element", plane ? "PLANE41" : "SOLID81"});
  if (g.chance(7, 8)) { c.steps = (int) g.integer(1, 5); c.opts.push_back({"-loadsteps", std::to_string(c.steps)}); }
  if (g.chance(1, 3)) { c.iterations = (int) g.integer(1, 30); c.opts.push_back({"-iterations", std::to_string(c.iterations)}); }
  if (g.boolean()) { c.vtk = false; c.opts.push_back({"-novtk"}); }
  for (size_t r = 0; r < c.p.rigid.size(); r++) {
    std::vector<std::string> a = {"-rigidbody", std::to_string(c.no(c.place[nb + (int) r])), "SLAVES"};
    if (plane || g.boolean()) { auto q = g.perm(b.nd()); for (int k : q) a.push_back(Dof::dofType2label(mdof[k])); c.p.rigid[r].comps = q; }
    c.opts.push_back(a); g.label("rigid body");
  }
  c.model = g.oneOf({"model.cdb", "m", "damper.v2.cdb", "sub/model.cdb", "sub.d/model.cdb", "sub.d/model", "./model.cdb", "./model"});
  g.note << nb << " nodes, " << b.el.size() << " elements " << (plane ? "PLANE41" : "SOLID81") << ", " << c.orphans << " more nodes, " << (rigid ? "rigid body, " : "") << c.steps << " steps";
}
static void describeArgs(Gen& g, const Case& c) { g.note << "; nla3d"; for (auto& a : c.args()) g.note << " " << a; }
// name of written files without step number: the model's name without its extension
static std::string job(const std::string& model) { size_t s = model.rfind('/'), d = model.rfind('.'); return d == std::string::npos || (s != std::string::npos && d < s) ? model : model.substr(0, d); }

// ------------------------------------------------------------------ the same model, library driven directly
struct Answer { bool ok = false; int its = 0; std::vector<std::vector<double>> r; double scale = 0; };
static Answer direct(const Case& c, const std::string& vtkJob) {
  std::string tmp = vtkJob + ".answer";
  // maximum number of iterations is not limited here: 40 is more than a converging case needs
  auto res = pbt::inChild([&] {
    const Problem& p = c.p; const Body& b = p.b; int nb = (int) b.x.size();
    FEStorage st; st.createNodes(c.total);
    for (int i = 0; i < c.total; i++) for (int k = 0; k < 3; k++) st.getNode((uint32) i + 1).pos[k] = c.m.nodes[i].x[k];
    auto at = [&](int node) { return (uint32) c.place[node] + 1; };
    st.createElements((uint32) b.el.size(), b.plane ? ElementType::PLANE41 : ElementType::SOLID81);
    for (size_t e = 0; e < b.el.size(); e++) for (size_t i = 0; i < b.el[e].size(); i++) st.getElement((uint32) e + 1).getNodeNumber((uint16) i) = at(b.el[e][i]);
    st.material = libMat(b.mat);
    for (auto& q : b.mpc) { Mpc* m = new Mpc; m->b = 0; for (auto& t : q.terms) m->eq.push_back(MpcTerm(at(t.d.first), t.d.second, t.coef)); st.addMpc(m); }
    for (size_t r = 0; r < p.rigid.size(); r++) {
      RigidBodyMpc* m = new RigidBodyMpc; m->storage = &st; m->masterNode = at(nb + (int) r);
      for (int s : p.rigid[r].slaves) m->slaveNodes.push_back(at(s));
      for (int k : p.rigid[r].comps) m->dofs.push_back(mdof[k]);
      st.addMpcCollection(m);
    }
    NonlinearFESolver so; so.attachFEStorage(&st);
    for (auto& f : b.fix) so.addFix(at(f.first.first), f.first.second, f.second);
    for (auto& f : p.mfix) so.addFix(at(nb + f.first / 6), mdof[f.first % 6], f.second);
    for (auto& l : b.load) so.addLoad(at(l.d.first), l.d.second, l.v);
    so.numberOfLoadsteps = (uint16) c.steps; so.numberOfIterations = 40;
    Answer a; a.r.push_back(std::vector<double>(c.rDofs.size(), 0.0));
    Recorder* rec = new Recorder(&st);
    rec->onStep = [&](int) {
      a.its = std::max(a.its, (int) so.timeControl.getCurrentEquilibriumStep());
      std::vector<double> v; for (auto d : c.rDofs) { double s = 0; for (int n : c.rNodes) { double x = st.getReaction((uint32) n + 1, d); s += x; a.scale = std::max(a.scale, std::fabs(x)); } v.push_back(s); }
      a.r.push_back(v);
    };
    so.addPostProcessor(rec);
    if (c.vtk) { VtkProcessor* v = new VtkProcessor(&st, vtkJob); v->writeAllResults(); so.addPostProcessor(v); }
    so.solve();
    std::ofstream o(tmp); o.precision(17); o << a.its << " " << a.scale << " " << a.r.size() << " " << c.rDofs.size() << "\n";
    for (auto& v : a.r) for (double x : v) o << x << " ";
    o << "\nend\n";
  });
  Answer a; std::ifstream in(tmp); size_t n = 0, d = 0; std::string end;
  if (res.ended == pbt::RETURNED && in >> a.its >> a.scale >> n >> d) { a.r.assign(n, std::vector<double>(d)); for (auto& v : a.r) for (auto& x : v) in >> x; in >> end; a.ok = end == "end"; }
  unlink(tmp.c_str());
  return a;
}
// numbers may differ by rounding
static void sameText(const std::string& a, const std::string& b, const std::string& what) {
  std::istringstream x(a), y(b); std::string p, q; size_t k = 0;
  std::vector<std::pair<std::string, std::string>> t; double big = 0;
  for (;;) { bool u = (bool) (x >> p), v = (bool) (y >> q); EXPECT(u == v, what << ": has " << (u ? "more" : "fewer") << " values than the library writes"); if (!u) break; t.push_back({p, q}); }
  for (auto& e : t) { k++; if (e.first == e.second) continue; char *c, *d; double f = strtod(e.first.c_str(), &c), h = strtod(e.second.c_str(), &d); EXPECT(!*c && !*d, what << ": '" << e.first << "' where the library writes '" << e.second << "'"); big = std::max(std::fabs(h), 1e-3); EXPECT(std::fabs(f - h) <= 1e-4 * big, what << ": value " << k << " is " << e.first << ", the library writes " << e.second); }
}
// the table of reactions in the log
static bool table(const std::string& out, std::vector<std::string>& head, std::vector<std::vector<double>>& rows) {
  size_t p = out.find("Reactions:\n"); if (p == std::string::npos) return false;
  std::istringstream in(out.substr(p + 11)); std::string l; std::getline(in, l);
  { std::istringstream s(l); std::string w; s >> w; if (w != "Loadstep") return false; while (s >> w) head.push_back(w); }
  while (std::getline(in, l)) { std::istringstream s(l); std::vector<double> v; double x; if (!(s >> x) || x != (double) rows.size()) break; while (s >> x) v.push_back(x); rows.push_back(v); }
  return true;
}
static std::string refRow(Gen& g, double t, double v) { return cdb::fmt(g.boolean() ? "%8.4f  %8.4f  %.12g" : "%g\t%g\t%.12E", t, -t, v); }

FACET(run, "the program has to solve a model with conditions other than zero and write files or reactions", 900, 15000) {
  Case c; genCase(g, c);
  Scratch s; mkdir((s.dir + "/ref").c_str(), 0755); mkdir((s.dir + "/run").c_str(), 0755);
  std::string cwd = s.dir + "/run"; size_t sl = c.model.rfind('/');
  if (sl != std::string::npos && c.model.compare(0, 2, "./")) mkdir((cwd + "/" + c.model.substr(0, sl)).c_str(), 0755);
  cdb::put(cwd + "/" + c.model, c.text);
  Answer a = direct(c, s.dir + "/ref/f");
  if (!a.ok) throw pbt::Discard{"the model has no solution here"};
  bool expectOk = a.its <= c.iterations;
  g.label(expectOk ? "converges" : "too few iterations");
  // a curve to compare with
  int curve = 0;
  if (c.reaction && expectOk && g.chance(3, 4)) {
    curve = (int) g.integer(1, 6);
    double sc = std::max(a.scale, 1e-6), th = g.logreal(-4, 0) * sc, dev = 0;   // threshold and mean deviation
    std::vector<double> v; for (auto& r : a.r) v.push_back(r[0]);
    static const char* nm[] = {"", "below threshold", "above threshold", "no threshold", "row missing", "row too many", "threshold zero"};
    g.label(nm[curve]); g.note << "; curve " << nm[curve];
    bool one = g.boolean(); int sign = g.oneOf({1, -1});
    dev = curve == 1 ? th * g.real(0, 0.9) : curve == 2 ? th * g.real(1.1, 5) : curve == 4 || curve == 5 ? th * g.real(0, 0.5) : th * g.real(0, 10);
    if (one) v[g.draw(v.size() - 1)] += sign * dev * v.size();                 // all of the deviation in one row
    else for (size_t i = 0; i < v.size(); i++) v[i] += (i % 2 ? 1 : -1) * dev;   // or in all of them, of both signs
    if (curve == 4) v.erase(v.begin() + g.draw(v.size() - 1));
    if (curve == 5) { size_t k = g.draw(v.size() - 1); v.insert(v.begin() + k, g.boolean() ? v[k] : v[k] + th); }
    std::string eol = g.chance(1, 3) ? "\r\n" : "\n", t = g.boolean() ? "time  disp  force" : "t\tU\tforce  "; t += eol;
    for (size_t i = 0; i < v.size(); i++) { t += refRow(g, (double) i, v[i]); if (g.chance(1, 4)) t += "  "; if (i + 1 < v.size() || g.chance(2, 3)) t += eol; }
    if (g.chance(1, 6)) t += eol + eol;
    cdb::put(cwd + "/curve.txt", t);
    c.opts.push_back({"-refcurve", "curve.txt"});
    if (curve != 3) c.opts.push_back({"-threshold", curve == 6 ? "0" : num(th, 12)});
    if (curve == 2 || curve == 4 || curve == 5) expectOk = false;
    bool equalRows = false; for (size_t i = 1; i < v.size(); i++) equalRows = equalRows || v[i] == v[i - 1];
    if (equalRows) g.label("equal rows in the curve");
  }
  { auto q = g.perm((int) c.opts.size()); auto o = c.opts; for (size_t i = 0; i < q.size(); i++) c.opts[i] = o[q[i]]; }
  describeArgs(g, c);
  g.nontrivial(c.vtk || c.reaction);
  Ran r = runProgram(c.args(), cwd);
  EXPECT(r.success() == expectOk, "the program " << (r.success() ? "succeeds" : "fails") << ", " << (expectOk ? "success" : a.its > c.iterations ? "failure (too few iterations)" : "failure (the curve differs)") << " expected (status " << r.code << ", signal " << r.sig << "): " << r.tail());
  bool solved = a.its <= c.iterations;
  // files
  std::set<std::string> want, have; std::string jn = job(c.model);
  if (c.vtk && solved) for (int i = 0; i <= c.steps; i++) want.insert(jn + std::to_string(i) + ".vtk");
  std::function<void(const std::string&)> walk = [&](const std::string& d) { for (auto& f : Scratch::list(cwd + (d.empty() ? "" : "/" + d))) { std::string q = d.empty() ? f : d + "/" + f; struct stat st; if (!lstat((cwd + "/" + q).c_str(), &st) && S_ISDIR(st.st_mode)) walk(q); else if (q.size() > 4 && q.substr(q.size() - 4) == ".vtk") have.insert(q); } };
  walk("");
  if (solved || !c.vtk) {
    std::set<std::string> norm; for (auto& w : want) norm.insert(w.compare(0, 2, "./") ? w : w.substr(2));
    for (auto& w : norm) EXPECT(have.count(w), "file " << w << " is not written");
    for (auto& h : have) EXPECT(norm.count(h), "file " << h << " is written" << (c.vtk ? "" : " with -novtk"));
    if (c.vtk) for (int i = 0; i <= c.steps; i++) sameText(slurp(cwd + "/" + jn + std::to_string(i) + ".vtk"), slurp(s.dir + "/ref/f" + std::to_string(i) + ".vtk"), jn + std::to_string(i) + ".vtk");
  }
  // the log
  if (solved) {
    std::vector<std::string> head; std::vector<std::vector<double>> rows; bool has = table(r.out, head, rows);
    EXPECT(has == c.reaction, (has ? "reactions are reported, none are asked for" : "no table of reactions in the log"));
    if (has) {
      EXPECT(head.size() == c.rDofs.size(), head.size() << " reactions in the table, " << c.rDofs.size() << " are asked for");
      for (size_t i = 0; i < head.size(); i++) EXPECT(head[i] == Dof::dofType2label(c.rDofs[i]), "column " << i + 1 << " is " << head[i] << ", expected " << Dof::dofType2label(c.rDofs[i]));
      EXPECT(rows.size() == (size_t) c.steps + 1, rows.size() << " rows of reactions for " << c.steps << " steps");
      for (size_t i = 0; i < rows.size(); i++) { EXPECT(rows[i].size() == head.size(), "row " << i << " has " << rows[i].size() << " values"); for (size_t k = 0; k < head.size(); k++) EXPECT(std::fabs(rows[i][k] - a.r[i][k]) <= 1e-5 * std::fabs(a.r[i][k]) + 1e-6 * a.scale + 1e-12, "reaction " << head[k] << " in step " << i << " is " << rows[i][k] << ", library driven directly: " << a.r[i][k]); }
    }
  }
}

FACET(invalid, "always", 1500, 20000) {
  Case c;
  do { c = Case(); genCase(g, c); } while (!c.reaction && g.draw(2));
  c.vtk = false; 
  Scratch s; std::string cwd = s.dir; mkdir((cwd + "/sub").c_str(), 0755); mkdir((cwd + "/sub.d").c_str(), 0755);
  auto find = [&](const char* o) -> std::vector<std::string>* { for (auto& x : c.opts) if (x[0] == o) return &x; return nullptr; };
  auto drop = [&](const char* o) { for (size_t i = 0; i < c.opts.size(); i++) if (c.opts[i][0] == o) { c.opts.erase(c.opts.begin() + i); break; } };
  bool none = false, noFile = false; std::string curve;
  std::vector<int> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
  if (c.reaction) for (int k : {13, 14, 15, 16, 17}) kinds.push_back(k);
  if (c.p.rigid.size()) for (int k : {18, 19, 20, 21}) kinds.push_back(k);
  int kind = g.pick(kinds);
  std::string why;
  switch (kind) {
    case 0: none = true; why = "no arguments"; break;
    case 1: drop("-material"); why = "no material"; break;
    case 2: (*find("-material"))[1] = g.oneOf({"neo-hookean", "Hooke", "Neo-Hookean2", "NEO", "UNDEFINED"}); why = "unknown material"; break;
    case 3: { auto* m = find("-material"); int k = (int) g.integer(1, (long) m->size() - 2); m->resize(m->size() - k); why = "constants missing"; break; }
    case 4: { auto* m = find("-material"); int k = (int) g.integer(1, 3); for (int i = 0; i < k; i++) m->push_back(num(g.real(0.1, 5), 3)); why = "too many constants"; break; }
    case 5: noFile = true; why = "no such model file"; break;
    case 6: drop("-element"); c.opts.push_back({"-element", g.oneOf({"plane41", "SOLID", "HEX8", "UNDEFINED", "PLANE41x"})}); why = "unknown element"; break;
    case 7: drop("-reaction"); c.opts.push_back({"-reaction", "NOBODY"}); why = "no such component for reactions"; break;
    case 8: drop("-reaction"); c.opts.push_back({"-reaction", "PARTS"}); why = "component of elements for reactions"; break;
    case 9: drop("-rigidbody"); c.opts.push_back({"-rigidbody", std::to_string(c.no(0)), "NOBODY"}); why = "no such component of slaves"; break;
    case 10: drop("-rigidbody"); c.opts.push_back({"-rigidbody", std::to_string(c.no(0)), "PARTS"}); why = "component of elements as slaves"; break;
    case 11: drop("-rigidbody"); c.opts.push_back({"-rigidbody", std::to_string(c.no(0))}); why = "no component of slaves"; break;
    case 12: drop("-reaction"); curve = "t u force\n0 0 0\n1 1 1\n"; why = "curve without reactions"; break;
    case 13: c.opts.push_back({"-refcurve", "nosuch.txt"}); why = "no such curve file"; break;
    case 14: curve = g.oneOf({"t u f\n0 0 0\n1 1 1\n", "", "force\n", "t force u\n0 0 0\n"}); why = "curve without a force column"; break;
    case 15: { curve = "t u force\n"; int bad = (int) g.integer(0, c.steps + 1); for (int i = 0; i <= c.steps + 1; i++) curve += i == bad ? g.oneOf({"1 2 abc\n", "1 2 nan\n", "1 2 --5\n"}) : "0 0 0\n"; if (bad <= c.steps) curve.resize(curve.size() - 6); why = "curve with a value that isn't a number"; break; }
    case 16: curve = "t u force\n"; why = "curve without rows"; break;
    case 17: { auto* r = find("-reaction"); r->resize(2); r->push_back(g.oneOf({"FX", "ux", "U", "UX2"})); why = "unknown degree of freedom for reactions"; break; }
    case 18: { auto* r = find("-rigidbody"); r->resize(3); r->push_back(g.oneOf({"FX", "ux", "U", "UX2"})); why = "unknown degree of freedom of slaves"; break; }
    case 19: { std::set<uint32> used; for (auto& n : c.m.nodes) used.insert(n.no); uint32 k = (uint32) g.integer(1, 400); while (used.count(k)) k++; (*find("-rigidbody"))[1] = std::to_string(k); why = "no such master node"; break; }
    case 20: (*find("-rigidbody"))[1] = g.oneOf({"0", "abc"}); why = "master node is not a number"; break;
    default: { auto* r = find("-rigidbody"); r->resize(3); r->push_back(g.oneOf({"ROTX", "TEMP"})); why = "degree of freedom the slaves don't have"; break; }
  }
  if (curve.size() || kind == 14) { cdb::put(cwd + "/curve.txt", curve); c.opts.push_back({"-refcurve", "curve.txt"}); if (g.boolean()) c.opts.push_back({"-threshold", "1e9"}); }
  { auto q = g.perm((int) c.opts.size()); auto o = c.opts; for (size_t i = 0; i < q.size(); i++) c.opts[i] = o[q[i]]; }
  if (!noFile) cdb::put(cwd + "/" + c.model, c.text);
  g.label(why); g.note << "; " << why; describeArgs(g, c); g.nontrivial(true);
  Ran r = runProgram(none ? std::vector<std::string>() : c.args(), cwd);
  EXPECT(!r.success(), "the program succeeds with " << why);
}

