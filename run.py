#!/usr/bin/env python3
"""Driver of the checks.

  run.py check <ID> [quick|thorough]   build from /repo's working tree, search, write evidence, exit 0/1
  run.py replay <file>                 re-run one replay file (exit 1: still fails)
  run.py setup                         build everything once (sanity of the toolchain)
  run.py build <ID>                    build only

Exit codes of check: 0 held on everything explored, 1 VIOLATION, 2 the check itself could not run.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NLA3D_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PYTHON = "/usr/bin/python3"   # the module is built for the system's Python, as in the repository's own build
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from props import PROPS, LEVEL_ASSUMPTIONS  # noqa: E402

COMMON = "-std=gnu++14 -fPIC -w -DELPP_FEATURE_PERFORMANCE_TRACKING -I%s/src -I%s/src/lib -I/usr/include/eigen3" % (REPO, REPO)
CFG = {
    # asserts stay on in every configuration, as in the repository's own build
    "plain": dict(cxx="g++", flags="-O1", link=""),
    "asan": dict(cxx="g++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined "
                 "-fno-sanitize=vptr,alignment,nonnull-attribute,pointer-overflow", link="-fsanitize=address,undefined"),
    "mkl": dict(cxx="g++", flags="-O1 -DNLA3D_USE_MKL -I/usr/include/mkl",
                link="-lmkl_intel_lp64 -lmkl_sequential -lmkl_core -lmkl_rt -lmkl_def -lpthread -lm -ldl"),
}


def sources():
    out = []
    for d in ("src/lib", "src/lib/materials", "src/lib/elements", "src/lib/math"):
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return out


def ninja_for(cfg, harnesses, mains=(), py=False):
    """writes build/<cfg>/build.ninja and returns targets"""
    c = CFG[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    n = ["cxx = %s" % c["cxx"], "flags = %s %s" % (COMMON, c["flags"]),
         "rule cc\n command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule ar\n command = rm -f $out && ar rcs $out $in",
         "rule link\n command = $cxx -o $out $in %s $libs" % c["link"]]
    objs = []
    for s in sources() + ["/usr/include/easylogging++.cc"]:
        o = "obj/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
        n.append("build %s: cc %s" % (o, s))
        objs.append(o)
    # --whole-archive is not needed: linked as objects, so that static initialisers stay
    targets = []
    for h in harnesses:
        src = os.path.join(VERIF, "harness", h + ".cpp")
        n.append("build obj/h_%s.o: cc %s\n extra = -DPBT_MAIN -I%s/harness" % (h, src, VERIF))
        n.append("build %s: link obj/h_%s.o %s" % (h, h, " ".join(objs)))
        targets.append(h)
    for m in mains:   # programs of the repository itself
        src = os.path.join(REPO, "src", m + ".cpp")
        n.append("build obj/m_%s.o: cc %s" % (m, src))
        n.append("build bin_%s: link obj/m_%s.o %s" % (m, m, " ".join(objs)))
        targets.append("bin_" + m)
    if py:   # the Python module, made as the repository makes it
        inc = subprocess.check_output([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], text=True).strip()
        os.makedirs(os.path.join(d, "py"), exist_ok=True)
        heads = [h for g in ("src/lib/*.h", "src/lib/*/*.h") for h in sorted(glob.glob(os.path.join(REPO, g)))]
        n += ["rule swig\n command = swig -python -c++ -I%s/src -I%s/src/lib -outdir py -o $out $in" % (REPO, REPO),
              "build py/nla3d_wrapper.cxx: swig %s/python/nla3d.swg | %s" % (REPO, " ".join(heads)),
              "build obj/py_wrapper.o: cc py/nla3d_wrapper.cxx\n extra = -O0 -I%s" % inc,
              "rule shared\n command = $cxx -shared -o $out $in",
              "build py/_nla3d.so: shared obj/py_wrapper.o " + " ".join(objs)]
        targets.append("py/_nla3d.so")
    with open(os.path.join(d, "build.ninja"), "w") as f:
        f.write("\n".join(n) + "\n")
    return d, targets


def build(cfg, harnesses, mains=(), py=False):
    d, targets = ninja_for(cfg, harnesses, mains, py)
    p = subprocess.run(["ninja", "-C", d, "-j", "8"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        keep = [l for l in p.stdout.split("\n") if not l.startswith("[") and "-MMD" not in l]
        sys.stdout.write("\n".join(keep)[:6000])
        print("ERROR: build failed (%s)" % cfg)
        sys.exit(2)
    return d


def prepare(run):
    """builds what a run needs and tells it where it is"""
    d = build(run["cfg"], [run["harness"]], run.get("mains", ()), run.get("py", False))
    for m in run.get("mains", ()):
        os.environ["NLA3D_BIN_" + m] = os.path.join(d, "bin_" + m)
    if run.get("py"):
        os.environ["NLA3D_PY"] = os.path.join(d, "py")
        os.environ["NLA3D_PYEXE"] = PYTHON
        os.environ["NLA3D_PYDRIVER"] = os.path.join(VERIF, "harness", "p32_driver.py")
    return d


def env_for(cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77:halt_on_error=1"
    e["MKL_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def known_findings(pid):
    """findings of this property that are recorded and not repaired: (id, facet, message substring, description)"""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == pid]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    evaluations = distinct = discarded = 0
    rules, samples, facets, found = [], [], [], []
    try:
        for run in spec["runs"]:
            cfg, h = run["cfg"], run["harness"]
            d = prepare(run)
            work = os.path.join(tmp, cfg + "_" + h)
            os.makedirs(work)
            out = os.path.join(work, "result.json")
            cmd = [os.path.join(d, h), "--tier", tier, "--seed", str(seed), "--prop", pid, "--out", out,
                   "--replays", REPLAYS, "--work", work]
            for k in known_findings(pid):
                cmd += ["--known", k["id"]]
            if os.environ.get("VERIF_SCALE"):
                cmd += ["--scale", os.environ["VERIF_SCALE"]]
            if os.environ.get("VERIF_FACET"):
                cmd += ["--facet", os.environ["VERIF_FACET"]]
            p = subprocess.run(cmd, env=env_for(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.stdout.strip():
                print(p.stdout.strip()[-3000:])
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("ERROR: harness %s ended with %s" % (h, p.returncode))
                return 2
            r = json.load(open(out))
            for f in r["facets"]:
                evaluations += f["evaluations"]
                distinct += f["distinct_nontrivial"]
                discarded += f["discarded"]
                rules.append("%s: %s" % (f["name"], f["rule"]))
                samples += f["samples"][:2]
                facets.append({k: f[k] for k in ("name", "evaluations", "discarded", "distinct_nontrivial", "failing", "labels")})
                print("  %-34s cases %6d  non-trivial distinct %6d  discarded %5d  failing %d" % (
                    f["name"], f["evaluations"], f["distinct_nontrivial"], f["discarded"], f["failing"]))
                if os.environ.get("VERIF_LABELS"):
                    print("      " + ", ".join("%s=%d" % kv for kv in sorted(f["labels"].items())))
            for v in r["found"]:
                v["cfg"] = cfg
                v["harness"] = h
                # the replay file says which binary replays it
                with open(v["replay"], "a") as fo:
                    fo.write("--- replay with: python3 %s/run.py replay %s\n" % (VERIF, v["replay"]))
                txt = open(v["replay"]).read()
                with open(v["replay"], "w") as fo:
                    fo.write("config %s\nharness %s\n" % (cfg, h) + txt)
                found.append(v)
            if found and tier == "quick":
                break
        # findings that are recorded: the harness labels the cases that show them
        new = found
        for k in known_findings(pid):
            if any("known finding " + k["id"] in f["labels"] for f in facets):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for v in new:
            print("  %s: %s" % (v["facet"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": " | ".join(rules),
                         "samples": samples[:12] or ["(none)"], "discarded": discarded, "facets": facets},
            "assumptions": LEVEL_ASSUMPTIONS + spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s: %s" % (
            pid, tier, seed, evaluations, distinct, time.time() - t0, "VIOLATED" if new else "held"))
        if distinct == 0 and not new:
            print("ERROR: no non-trivial case was generated")
            return 2
        return 1 if new else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    head = {}
    for line in open(path, errors="replace"):
        if line.startswith("---"):
            break
        k = line.rstrip("\n").split(" ", 1)
        head[k[0]] = k[1] if len(k) > 1 else ""
    spec = PROPS[head["property"]]
    run = [r for r in spec["runs"] if r["cfg"] == head["config"] and r["harness"] == head["harness"]][0]
    d = prepare(run)
    tmp = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        return subprocess.run([os.path.join(d, head["harness"]), "--replay", os.path.abspath(path), "--work", tmp],
                              env=env_for(head["config"])).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["build"]:
        for r in PROPS[a[1]]["runs"]:
            prepare(r)
        return
    if a[:1] == ["setup"]:
        # sanity: the toolchain builds the library and one harness
        build("plain", ["p28_timecontrol"])
        print("setup ok")
        return
    print(__doc__)
    sys.exit(2)


main()
