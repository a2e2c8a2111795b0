#!/usr/bin/env python3
"""verify.py <property> [--tier quick|thorough]   run one check
   verify.py --replay <file>                       re-execute one stored violation
   verify.py --all [--tier ..]                     run every check in MANIFEST.json

Builds the library from /repo's current working tree in a scratch directory,
builds the explorer of the property against it, explores, and writes
evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: broken.
"""
import json, os, sys, time, shutil, subprocess, tempfile, glob, hashlib, importlib.util
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
NCPU = min(8, os.cpu_count() or 1)

def clean_env():
    return {"HOME": "/root", "LANG": "C.UTF-8", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "TMPDIR": os.environ.get("TMPDIR", "/tmp")}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout

class BuildError(Exception): pass

class Build:
    """The library and tools, built by the repository's own CMake files, outside /repo."""
    def __init__(self, scratch, flags="-O1", compile_only=""):
        cache = os.environ.get("VERIF_BUILD_CACHE")      # development only
        tag = hashlib.md5((flags + compile_only).encode()).hexdigest()[:6]
        self.dir = os.path.join(cache, "b" + tag) if cache else os.path.join(scratch, "b" + tag)
        self.scratch, self.flags = scratch, flags
        os.makedirs(self.dir, exist_ok=True)
        if not os.path.exists(self.dir + "/build.ninja"):
            env = clean_env(); env.update(CC="gcc", CXX="g++")
            rc, out = run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-Wno-dev",
                "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + flags, "-DPYTHON_EXECUTABLE=/usr/bin/python3.12",
                "-DCMAKE_CXX_STANDARD_INCLUDE_DIRECTORIES=/opt/vp/include",
                "-DCMAKE_CXX_STANDARD_LIBRARIES=-lz -llz4"] +
                (["-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> %s -o <OBJECT> -c <SOURCE>" % compile_only] if compile_only else []), env=env)
            if rc: raise BuildError("cmake failed\n" + out[-3000:])
    def targets(self, ts):
        if not ts: return
        rc, out = run(["ninja", "-C", self.dir, "-j", str(NCPU)] + list(ts), env=clean_env())
        if rc: raise BuildError("ninja failed\n" + out[-3000:])
    def plugins(self): return self.dir + "/plugins"
    def soft(self, n): return self.dir + "/softs/" + n
    def harness(self, src, extra=(), libs=(), core=True):
        """compile one explorer against the library's headers and static library"""
        name = os.path.splitext(os.path.basename(src))[0]
        exe = os.path.join(self.scratch, name)
        inc = ["-I" + REPO + "/sources", "-I" + REPO + "/external/build", "-I" + REPO + "/external", "-I" + REPO + "/external/quadprog++",
               "-I/usr/include/eigen3", "-I/opt/vp/include", "-I" + VERIF + "/lib", "-I" + VERIF + "/checks"]
        obj = exe + ".o"
        comp = subprocess.Popen(["g++", "-std=c++14", "-O1", "-fopenmp", "-w", "-ftrivial-auto-var-init=pattern", '-DALTA_PLUGIN_DIRECTORY="/usr/lib/alta_plugins"'] + inc + list(extra) +
                                ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env())
        return comp, obj, exe, libs, core, extra
    def link(self, h):
        comp, obj, exe, libs, core, extra = h
        out = comp.communicate()[0]
        if comp.returncode: raise BuildError("explorer does not compile\n" + out[-4000:])
        rc, out = run(["g++", "-fopenmp", "-rdynamic", obj, "-o", exe] + [e for e in extra if e.startswith("-fsan") and e != "-fsanitize=thread"] +
                      (["-Wl,--whole-archive", self.dir + "/lib/libcore.a", "-Wl,--no-whole-archive"] if core else []) +
                      [l.replace("@B@", self.dir) for l in libs] + ["-ldl", "-lz", "-llz4"], env=clean_env())
        if rc: raise BuildError("explorer does not link\n" + out[-4000:])
        return exe

def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l[7:].split(None, 2)
                prop = f[0].split("=", 1)[1]; sig = f[1].split("=", 1)[1]
                known[(prop, sig)] = f[2] if len(f) > 2 else ""
    return known

def get_check(pid):
    from registry import CHECKS
    return CHECKS[pid]

def cpp_env(b):
    env = clean_env()
    env.update(ALTA_PLUGIN_PATH=b.plugins(), OMP_NUM_THREADS="1", MALLOC_PERTURB_="128", MALLOC_ARENA_MAX="1")
    return env

def prepare(pid, spec, scratch):
    b = Build(scratch, spec.get("flags", "-O1 -ftrivial-auto-var-init=pattern"), spec.get("compile_only", ""))
    objs = [b.harness(os.path.join(VERIF, "checks", s), f) for s, f in spec.get("objs", [])]
    hs = [b.harness(os.path.join(VERIF, "checks", s), spec.get("cxx", ()), spec.get("libs", ())) for s in spec.get("src", [])]
    b.targets(spec.get("targets", ["core"]))
    for o in objs:
        out = o[0].communicate()[0]
        if o[0].returncode: raise BuildError("explorer does not compile\n" + out[-4000:])
        hs = [h[:3] + (tuple(h[3]) + (o[1],),) + h[4:] for h in hs]
    return b, [b.link(h) for h in hs]

def run_check(pid, tier):
    spec = get_check(pid)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="alta-verif-%s-" % pid.lower())
    keep = False
    try:
        b, exes = prepare(pid, spec, scratch)
        tb = time.time() - t0
        scen = []
        for exe in exes:
            env = cpp_env(b); env.update({k: v.replace("@B@", b.dir).replace("@S@", scratch) for k, v in spec.get("env", {}).items()})
            env["VERIF_SCRATCH"] = scratch; env["VERIF_DIR"] = VERIF; env["VERIF_REPO"] = REPO; env["VERIF_B"] = b.dir
            outp = exe + ".json"
            cmd = [exe, "--out", outp, "--scratch", scratch, "--workers", str(NCPU)]
            cmd += ["--limit", str(spec.get("limit", 600) if tier == "quick" else spec.get("tlimit", 7200))]
            if tier == "thorough": cmd.append("--thorough")
            if os.environ.get("VERIF_ONLY"): cmd += ["--scenario", os.environ["VERIF_ONLY"]]
            p = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0: raise BuildError("explorer failed (%d)\n%s" % (p.returncode, p.stdout[-2000:]))
            for s in json.load(open(outp))["scenarios"]:
                s["exe"] = os.path.basename(exe); scen.append(s)
        for mod in spec.get("py", []):
            m = importlib.import_module(mod)
            for s in m.explore(b, scratch, tier):
                s["exe"] = mod; scen.append(s)
        return report(pid, spec, tier, scen, t0, tb)
    except BuildError as e:
        print("check %s could not run: %s" % (pid, e)); return 2
    finally:
        if not keep: shutil.rmtree(scratch, ignore_errors=True)

def report(pid, spec, tier, scen, t0, tb):
    known = load_known()
    rc = 0; nviol = 0; nknown = 0; flaky = []
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    for s in scen:
        for v in s["violations"]:
            key = (pid, v["sig"])
            if key in known:
                nknown += 1
                print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[key], v["sig"])); continue
            if not v["reproduced"] and (v["sig"].startswith("hang:") or v["sig"].startswith("crash:")):
                flaky.append(v["sig"]); continue
            nviol += 1; rc = 1
            name = "%s-%s.json" % (pid, hashlib.md5((s["name"] + v["sig"]).encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            json.dump({"property": pid, "tier": tier, "scenario": s["name"], "explorer": s["exe"], "signature": v["sig"],
                       "message": v["msg"], "choices": v["choices"], "reproduced_alone": v["reproduced"], "occurrences": v["count"]},
                      open(path, "w"), indent=1)
            if nviol <= 40:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("   %s: %s (x%d, choices %s)" % (v["sig"], v["msg"][:600], v["count"], str(v["choices"])[:200]))
    tot = lambda k: sum(s.get(k, 0) for s in scen)
    cov = {}
    lvl = spec["level"]
    samples = [x for s in scen for x in s["samples"]][:12]
    if lvl == "model_checking":
        cov = {"states": tot("states"), "transitions": tot("edges"), "traces_validated_against_impl": tot("executions"), "samples": samples}
    else:
        cov = {"evaluations": tot("executions"), "distinct_nontrivial": tot("distinct"), "rule": spec["rule"], "samples": samples}
    cov["exhaustive"] = all(s["complete"] for s in scen)
    cov["scenarios"] = [{k: s[k] for k in ("name", "executions", "distinct", "transitions", "edges", "states", "crashes", "complete") if k in s} for s in scen]
    if "crosscheck" in spec: cov["bounds"] = spec["crosscheck"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for f in flaky: print("note: %s did not reproduce and is not counted" % f)
    print("%s %s: %d executions, %d distinct outcomes, %d model states, %d violations, %d known, exhaustive=%s, build %.1fs, wall %.1fs"
          % (pid, tier, tot("executions"), tot("distinct"), tot("states"), nviol, nknown, cov["exhaustive"], tb, time.time() - t0))
    return rc

def replay(path):
    r = json.load(open(path)); pid = r["property"]; spec = get_check(pid)
    scratch = tempfile.mkdtemp(prefix="alta-verif-replay-")
    try:
        b, exes = prepare(pid, spec, scratch)
        for exe in exes:
            if os.path.basename(exe) != r["explorer"]: continue
            env = cpp_env(b); env.update({k: v.replace("@B@", b.dir).replace("@S@", scratch) for k, v in spec.get("env", {}).items()})
            env["VERIF_SCRATCH"] = scratch; env["VERIF_DIR"] = VERIF; env["VERIF_REPO"] = REPO; env["VERIF_B"] = b.dir
            return subprocess.run([exe, "--scratch", scratch, "--replay", "%s|%d|%s" % (r["scenario"], r["tier"] == "thorough", r["choices"])], env=env, cwd=scratch).returncode
        m = importlib.import_module(r["explorer"])
        return m.replay(b, scratch, r)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    if a and a[0] == "--all":
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json"))); worst = 0
        for c in m["checks"]:
            rc = run_check(c["property"], tier); worst = max(worst, rc); sys.stdout.flush()
        sys.exit(worst)
    sys.exit(run_check(a[0], tier))
