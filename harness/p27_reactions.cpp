// P27: the reaction recorder holds the sums of its nodes' reactions for each step.
#include "hyper.h"
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace fe;

struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/p27_XXXXXX"; dir = mkdtemp(t); } ~Scratch() { for (int i = 0; i < 8; i++) unlink(file(i).c_str()); rmdir(dir.c_str()); } std::string file(int i) const { return dir + "/reactions" + std::to_string(i) + ".txt"; } };

struct Spec { std::vector<uint32> nodes; std::vector<Dof::dofType> dofs; bool autoD = false; int file = 0; /* 0 no, 1 yes, 2 not writable */ };

// records what the storage reports at each step
struct Truth : PostProcessor {
  std::vector<std::pair<uint32, Dof::dofType>> want; std::vector<std::map<std::pair<uint32, Dof::dofType>, double>>* r; std::vector<int>* steps;
  Truth(FEStorage* s) : PostProcessor(s) {}
  void pre() {} void post(uint16) {}
  void process(uint16 s) { std::map<std::pair<uint32, Dof::dofType>, double> m; for (auto& w : want) m[w] = storage->getReaction(w.first, w.second); r->push_back(m); steps->push_back(s); }
};
struct Recorders {
  std::vector<Spec> specs; std::vector<ReactionProcessor*> rp; Scratch sc;
  std::vector<std::map<std::pair<uint32, Dof::dofType>, double>> truth; std::vector<int> steps;
  bool early = true;
  void attach(FEStorage& st, FESolver& so) {
    auto addTruth = [&]() {
      Truth* t = new Truth(&st); t->r = &truth; t->steps = &steps;
      for (auto& s : specs) for (uint32 n : s.nodes) for (auto d : s.dofs) t->want.push_back({n, d});
      so.addPostProcessor(t);
    };
    if (early) addTruth();
    for (size_t i = 0; i < specs.size(); i++) {
      auto& s = specs[i];
      ReactionProcessor* p = s.file == 0 ? new ReactionProcessor(&st) : new ReactionProcessor(&st, s.file == 1 ? sc.file((int) i) : sc.dir + "/no/such/dir/f" + std::to_string(i));
      if (s.file == 1) { std::ofstream o(sc.file((int) i)); o << "old\ncontents\n1\t2\t3\n"; }
      p->nodes = s.nodes; if (!s.autoD) p->dofs = s.dofs;
      so.addPostProcessor(p); rp.push_back(p);
    }
    if (!early) addTruth();
  }
  void check() {
    for (size_t i = 0; i < specs.size(); i++) {
      auto& s = specs[i];
      std::string w = "recorder " + std::to_string(i + 1) + (s.autoD ? " (automatic)" : "");
      std::vector<std::vector<double>> got;
      if (s.autoD) EXPECT(rp[i]->dofs == s.dofs, w << " chose " << rp[i]->dofs.size() << " degrees of freedom, " << s.dofs.size() << " are prescribed on the first node");
      for (auto d : s.dofs) {
        std::vector<double> v = rp[i]->getReactions(d); got.push_back(v);
        EXPECT(v.size() == steps.size() + 1, w << " holds " << v.size() << " values of " << Dof::dofType2label(d) << " after " << steps.size() << " steps");
        EXPECT(v[0] == 0.0, w << " starts from " << v[0]);
        for (size_t k = 0; k < steps.size(); k++) {
          double sum = 0, a = 0; for (uint32 n : s.nodes) { double x = truth[k].at({n, d}); sum += x; a += std::fabs(x); }
          EXPECT(std::fabs(v[k + 1] - sum) <= 1e-13 * a, w << ": " << Dof::dofType2label(d) << " at step " << steps[k] << " is " << v[k + 1] << ", the sum over the nodes is " << sum);
        }
      }
      if (s.file != 1) continue;
      std::ifstream f(sc.file((int) i)); std::string line;
      if (s.nodes.empty() && s.dofs.empty()) continue;
      EXPECT(bool(std::getline(f, line)), w << ": the file is empty");
      { std::string head; for (auto d : s.dofs) head += std::string("\t") + Dof::dofType2label(d); EXPECT(line == head, w << ": heading '" << line << "', not '" << head << "'"); }
      for (size_t k = 0; k <= steps.size(); k++) {
        EXPECT(bool(std::getline(f, line)), w << ": the file ends after " << k << " rows, " << steps.size() + 1 << " expected");
        std::istringstream in(line); int st; EXPECT(bool(in >> st) && st == (k ? steps[k - 1] : 0), w << ": row " << k << " is '" << line << "'");
        for (size_t d = 0; d < s.dofs.size(); d++) { double x; EXPECT(bool(in >> x), w << ": row " << k << " is '" << line << "', " << s.dofs.size() << " values expected"); EXPECT(std::fabs(x - got[d][k]) <= 6e-6 * std::fabs(got[d][k]) + 1e-300, w << ": row " << k << " has " << x << " for the recorded " << got[d][k]); }
        std::string rest; EXPECT(!(in >> rest), w << ": row " << k << " has more than " << s.dofs.size() << " values");
      }
      EXPECT(!std::getline(f, line), w << ": unexpected row '" << line << "'");
    }
  }
};
// node/dof tables of a model
struct Table { int nodes; std::vector<std::pair<int, Dof::dofType>> used, fixed; };
static Spec genSpec(Gen& g, const Table& t, bool& rejected) {
  Spec s; rejected = false;
  s.file = g.weighted({3, 4, 1});
  std::set<std::pair<int, Dof::dofType>> fx(t.fixed.begin(), t.fixed.end());
  auto fixedOf = [&](int n) { std::vector<Dof::dofType> v; for (int d = 0; d < (int) Dof::numberOfDofTypes; d++) if (fx.count({n, (Dof::dofType) d})) v.push_back((Dof::dofType) d); return v; };
  int kind = g.weighted({4, 4, 1, 1});
  if (kind == 3) {   // no nodes
    s.autoD = g.boolean(); if (!s.autoD) s.dofs = {t.used[g.draw(t.used.size() - 1)].second};
    g.label("no nodes"); return s;
  }
  if (kind == 0 || kind == 2) {
    s.autoD = true;
    int first = t.fixed.empty() || g.chance(1, 8) ? (int) g.draw(t.nodes - 1) : t.fixed[g.draw(t.fixed.size() - 1)].first;
    s.dofs = fixedOf(first);
    std::vector<int> same, other;
    for (int n = 0; n < t.nodes; n++) if (n != first) { bool ok = true; for (auto d : s.dofs) ok = ok && fx.count({n, d}); (ok ? same : other).push_back(n); }
    s.nodes.push_back(nodeNo(first));
    if (same.size()) for (int i : g.sample((int) same.size(), (int) g.draw(same.size()))) s.nodes.push_back(nodeNo(same[i]));
    if (kind == 2 && other.size()) { s.nodes.insert(s.nodes.begin() + 1 + g.draw(s.nodes.size() - 1), nodeNo(other[g.draw(other.size() - 1)])); rejected = true; g.label("mixed set"); }
    else g.label("automatic");
    return s;
  }
  g.label("explicit");
  std::vector<int> all = g.sample(t.nodes, (int) g.integer(1, t.nodes)); for (int i : all) s.nodes.push_back(nodeNo(i));
  std::set<Dof::dofType> have; for (auto& u : t.used) have.insert(u.second); if (g.chance(1, 10)) have.insert(Dof::ROTX);
  std::vector<Dof::dofType> hv(have.begin(), have.end());
  for (int i : g.sample((int) hv.size(), (int) g.integer(1, (int) hv.size()))) s.dofs.push_back(hv[i]);
  return s;
}
static bool fill(Gen& g, Recorders& r, const Table& t, std::vector<Spec>& refused) {
  int n = (int) g.integer(1, 3);
  for (int i = 0; i < n; i++) { bool rej; Spec s = genSpec(g, t, rej); if (rej) refused.push_back(s); else r.specs.push_back(s); }
  r.early = g.boolean();
  bool big = false;
  for (auto& s : r.specs) {
    g.note << "; recorder of nodes"; for (auto q : s.nodes) g.note << " " << q; g.note << (s.autoD ? " (automatic)" : ""); for (auto d : s.dofs) g.note << " " << Dof::dofType2label(d);
    if (s.file) g.note << (s.file == 1 ? " to a file" : " to a file that can not be written");
    big = big || (s.nodes.size() >= 2 && s.dofs.size());
  }
  return big;
}
static Table tableOf(const Model& m, const Ref& f) {
  Table t; t.nodes = (int) m.x.size(); t.used = f.dofs; for (auto& q : m.fix) t.fixed.push_back(q.first); return t;
}
static void refuse(Gen& g, const std::vector<Spec>& refused, const std::function<void(Recorders&)>& run) {
  for (auto& s : refused) {
    g.note << "; refused set"; for (auto q : s.nodes) g.note << " " << q;
    Recorders r; r.specs.push_back(s);
    auto c = pbt::inChild([&]() { run(r); });
    EXPECT(c.ended == pbt::REJECTED, "nodes with different prescribed degrees of freedom were " << (c.ended == pbt::CRASHED ? "crashed on" : "accepted") << " by the automatic choice");
    for (int i = 0; i < 8; i++) unlink(r.sc.file(i).c_str());
  }
}

static void linear(Recorders& r, const Model& m, FEStorage& st, LinearFESolver& so) { buildMesh(m, st); so.attachFEStorage(&st); buildBC(m, so); r.attach(st, so); so.solve(); }
FACET(linear, "a recorder with two or more nodes and some degrees of freedom", 1500, 30000) {
  Model m = genMesh(g); Ref f = genBC(g, m, 1e6); if (g.chance(1, 4)) genMpc(g, m, f, 2);
  describe(g, m);
  Recorders r; std::vector<Spec> no; Table t = tableOf(m, f);
  g.nontrivial(fill(g, r, t, no));
  FEStorage st; LinearFESolver so; linear(r, m, st, so);
  EXPECT(r.steps == std::vector<int>{1}, "process() of a linear solution");
  r.check();
  refuse(g, no, [&](Recorders& q) { FEStorage s; LinearFESolver l; linear(q, m, s, l); });
}
FACET(transient, "a recorder with two or more nodes and several steps", 600, 12000) {
  Model m; addPlane(g, m, KQUAD, 4); if (g.boolean()) addLines(g, m); for (auto& e : m.el) if (g.chance(1, 3)) e.vol = g.sreal(20);
  Ref f = genBC(g, m, 1e6); describe(g, m);
  Recorders r; std::vector<Spec> no; Table t = tableOf(m, f);
  int N = (int) g.integer(1, 15); bool two = fill(g, r, t, no); g.nontrivial(two && N > 1);
  g.note << "; " << N << " steps";
  double init = g.sreal(10), end = g.real(0.5, 10);
  auto run = [&](Recorders& q, FEStorage& st, LinearTransientFESolver& so) {
    buildMesh(m, st); so.attachFEStorage(&st); st.setTransient(true); buildBC(m, so);
    so.numberOfTimesteps = (uint16) N; so.time0 = 0; so.time1 = end; so.initValue = init;
    q.attach(st, so); so.solve();
  };
  FEStorage st; LinearTransientFESolver so; run(r, st, so);
  EXPECT((int) r.steps.size() == N, N << " steps asked for, " << r.steps.size() << " made");
  r.check();
  refuse(g, no, [&](Recorders& q) { FEStorage s; LinearTransientFESolver l; run(q, s, l); });
}
FACET(nonlinear, "a recorder with two or more nodes and several steps", 300, 6000) {
  hyper::Problem p = hyper::genProblem(g, g.chance(2, 3), 3, 0.08);
  hyper::describe(g, p.b); p.crit = 1e-3;
  hyper::Path f = hyper::solve(p, false); if (!f.ok || f.its > 12) throw pbt::Discard{"does not converge"};
  Recorders r; std::vector<Spec> no; Table t; t.nodes = (int) p.b.x.size();
  for (int i = 0; i < p.b.nu(); i++) t.used.push_back(p.b.dof(i)); for (auto& q : p.b.fix) t.fixed.push_back(q.first);
  bool two = fill(g, r, t, no); g.nontrivial(two && p.steps > 1);
  hyper::NlRun run(p, 0, [&](FEStorage& st, FESolver& so) { r.attach(st, so); });
  EXPECT((int) r.steps.size() == p.steps, p.steps << " steps asked for, " << r.steps.size() << " made");
  r.check();
  refuse(g, no, [&](Recorders& q) { hyper::NlRun x(p, 0, [&](FEStorage& st, FESolver& so) { q.attach(st, so); }); });
}
