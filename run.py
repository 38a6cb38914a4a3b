#!/usr/bin/env python3
"""run.py ID: builds the harness of property ID from /repo's working tree, explores, writes evidence/ID.json.

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Anything else is an error of the check."""
import sys, os, json, subprocess, hashlib, glob, shutil, time, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("USTL_REPO", "/repo")
WORK = os.environ.get("USTL_WORK", VERIF)	# set for the runs of a check of several configurations
BUILD = os.path.join(WORK, ".build")
EVID = os.path.join(WORK, "evidence")
sys.path.insert(0, VERIF)
from checks import CHECKS

CXX = "g++-12"; CC = "gcc-12"
# The flags of the project's own release build (see /opt/vp/common.sh and Config.mk.in).
CXXFLAGS = ("-std=c++14 -Os -g0 -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs "
            "-w").split()
if os.environ.get("USTL_FLAGS"):
    CXXFLAGS = os.environ["USTL_FLAGS"].split()
WRAP_HEAP = ["malloc", "free", "realloc", "calloc", "strdup"]

def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def repo_sources():
    hs = [h for h in glob.glob(REPO + "/*.h")]
    ccs = sorted(glob.glob(REPO + "/*.cc"))
    if not ccs:
        die("no sources in " + REPO)
    return hs, ccs

def include_dir():
    """A directory where <ustl/ustl.h> is found; generates config.h where the tree has none."""
    hs, ccs = repo_sources()
    inc = os.path.join(BUILD, "inc-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "ustl")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        if os.path.islink(link): os.unlink(link)
        os.symlink(REPO, link)
    extra = []
    if not os.path.exists(REPO + "/config.h"):
        gen = os.path.join(BUILD, "gen")
        os.makedirs(BUILD, exist_ok=True)
        if os.path.isdir(gen): shutil.rmtree(gen)
        os.makedirs(gen)
        for f in glob.glob(REPO + "/*"):
            if os.path.isfile(f): shutil.copy2(f, gen)
        r = sh(["./configure", "--builddir=_build"], cwd=gen)
        if not os.path.exists(gen + "/config.h"):
            die("configure failed:\n" + r.stdout)
        os.makedirs(inc + "/gen", exist_ok=True)
        shutil.copy2(gen + "/config.h", inc + "/gen/config.h")
        shutil.rmtree(gen)
        extra = ["-I" + inc + "/gen"]
    return inc, extra

def build(cid, chk):
    os.makedirs(BUILD, exist_ok=True)
    inc, extra = include_dir()
    hs, ccs = repo_sources()
    flags = CXXFLAGS + chk.get("flags", [])
    inputs = hs + ccs + glob.glob(VERIF + "/mc/*") + glob.glob(VERIF + "/h/*.h")
    lflags = flags + chk.get("libflags", []) + os.environ.get("USTL_LIBFLAGS", "").split()
    rename = chk.get("rename", [])	# functions of the C library that mc/ stands in for
    libkey = digest(hs + ccs, " ".join(lflags + rename) + "lib")
    incs = extra + ["-I" + inc, "-I" + VERIF + "/mc", "-I" + VERIF + "/h"]
    # library
    libdir = os.path.join(BUILD, "lib-" + libkey)
    jobs = []
    objs = []
    if not os.path.exists(libdir + "/done"):
        os.makedirs(libdir, exist_ok=True)
        for c in ccs:
            o = os.path.join(libdir, os.path.basename(c) + ".o")
            jobs.append(([CXX] + lflags + incs + ["-c", c, "-o", o], o))
    libobjs = [os.path.join(libdir, os.path.basename(c) + ".o") for c in ccs]
    hkey = digest(inputs + [os.path.join(VERIF, s) for s in chk["src"]], " ".join(flags) + cid)
    hdir = os.path.join(BUILD, "h-" + cid)
    exe = os.path.join(hdir, "t-" + hkey)
    if not os.path.exists(exe):
        if os.path.isdir(hdir): shutil.rmtree(hdir)
        os.makedirs(hdir)
        for s in chk["src"] + ["mc/mc.c", "mc/heap.c"]:
            o = os.path.join(hdir, s.replace("/", "_") + ".o")
            p = os.path.join(VERIF, s)
            if s.endswith(".c"):
                jobs.append(([CC, "-O2", "-w", "-I" + VERIF + "/mc", "-c", p, "-o", o], o))
            else:
                jobs.append(([CXX] + flags + chk.get("hflags", []) + incs + ["-c", p, "-o", o], o))
            objs.append(o)
    def one(j):
        r = sh(j[0])
        if rename and j[0][0] == CXX and not r.returncode:
            r = sh(["objcopy"] + ["--redefine-sym=%s=thr_%s" % (n, n) for n in rename] + [j[1]])
        return j, r
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                die("compilation failed: " + " ".join(j[0]) + "\n" + r.stdout[-6000:])
    open(libdir + "/done", "w").close()
    if objs:
        wraps = WRAP_HEAP + chk.get("wrap", [])
        cmd = [CC] + objs + libobjs + ["-Wl,--wrap=" + w for w in wraps] + ["-o", exe, "-lsupc++", "-lpthread", "-lm"] + chk.get("ldflags", [])
        r = sh(cmd)
        if r.returncode:
            die("link failed:\n" + r.stdout[-6000:])
    # drop stale library builds
    libs = sorted(glob.glob(BUILD + "/lib-*"), key=os.path.getmtime)
    for l in libs[:-12]:
        shutil.rmtree(l, ignore_errors=True)
    return exe

def known_for(cid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3).strip()))
    return out

def config_tree(name, opts):
    """A copy of the library's sources configured with opts."""
    tree = os.path.join(BUILD, "cfg-" + name, "ustl")
    if os.path.isdir(tree): shutil.rmtree(tree)
    os.makedirs(tree)
    for f in glob.glob(REPO + "/*"):
        if os.path.isfile(f) and os.path.basename(f) not in ("config.h", "Config.mk", "config.status"):
            shutil.copy2(f, tree)
    r = sh(["./configure", "--builddir=_build"] + opts, cwd=tree)
    if not os.path.exists(tree + "/config.h"):
        die("configure %s failed:\n" % " ".join(opts) + r.stdout)
    return tree

def run_configs(cid, chk, tier, seed):
    """Builds the library in other configurations and explores the scenarios of other checks with each."""
    t0 = time.time()
    jobs = []
    for name, opts, flags, parts in chk["configs"](tier):
        tree = config_tree(name, opts)
        flags, libflags = (flags.split("|") + [""])[:2]
        env = dict(os.environ); env.update(USTL_REPO=tree, USTL_FLAGS=flags, USTL_LIBFLAGS=libflags, USTL_WORK=os.path.join(BUILD, "cfg-" + name), VERIF_TIER="quick")
        for sub, only in parts: jobs.append((name, env, sub, only))
    def prebuild(j):
        r = sh([sys.executable, os.path.join(VERIF, "run.py"), j[2], "--build-only"], env=j[1])
        if r.returncode: die("configuration %s of %s: " % (j[0], j[2]) + r.stdout[-6000:])
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay")+1]
        name, sub = re.match(r"configuration (\S+) of (\S+)", open(f).readline()).groups()
        j = [j for j in jobs if j[0] == name and j[2] == sub][0]
        g = os.path.join(BUILD, "replay.txt")
        with open(g, "w") as o: o.write("".join(open(f).readlines()[1:]))
        prebuild(j)
        sys.exit(subprocess.call([sys.executable, os.path.join(VERIF, "run.py"), sub, "--replay", g], env=j[1]))
    first, rest, seen = [], [], {}
    for j in jobs:
        if (j[0], j[2]) in seen: continue
        (rest if j[0] in [k[0] for k in seen] else first).append(j); seen[(j[0], j[2])] = 1
    with ThreadPoolExecutor(3) as ex: list(ex.map(prebuild, first))
    with ThreadPoolExecutor(8) as ex: list(ex.map(prebuild, rest))
    tot = {}; samples = []; per = []; bad = None
    for name, env, sub, only in jobs:
        r = sh([sys.executable, os.path.join(VERIF, "run.py"), sub] + (["--only", only] if only else []), env=env)
        ev = os.path.join(env["USTL_WORK"], "evidence", sub + ".json")
        if r.returncode not in (0, 1) or not os.path.exists(ev):
            die("configuration %s of %s:\n" % (name, sub) + r.stdout[-6000:])
        c = json.load(open(ev))["coverage"]; os.unlink(ev)
        n = {"states": c.get("states", c.get("model_states", 0)), "transitions": c.get("transitions", c.get("transitions_compared", 0)),
             "executions": c.get("traces_validated_against_impl", c.get("executions_on_real_code", c.get("evaluations", 0))), "tasks": c["tasks"], "tasks_completed": c["tasks_completed"]}
        for k in n: tot[k] = tot.get(k, 0) + n[k]
        per.append("%s: %s%s: %d executions" % (name, sub, " " + only if only else "", n["executions"]))
        samples += [name + ": " + x for x in c["samples"][:1]]
        if r.returncode == 1:
            print("configuration %s of the checks of %s\n" % (name, sub) + r.stdout[-3000:].replace("VIOLATION ", "violation "), flush=True)
            bad = os.path.join(EVID, cid + ".replay.txt")
            os.makedirs(EVID, exist_ok=True)
            with open(bad, "w") as f:
                f.write("configuration %s of %s\n" % (name, sub))
                rep = os.path.join(env["USTL_WORK"], "evidence", sub + ".replay.txt")
                if os.path.exists(rep): f.write(open(rep, errors="replace").read())
            break
    ev = {"property": cid, "tier": tier, "seed": seed, "level": chk["level"],
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["executions"],
                       "tasks": tot["tasks"], "tasks_completed": tot["tasks_completed"], "exhaustive": not bad, "bounds": chk["bounds"],
                       "explorations": per, "samples": samples[:40]},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time()-t0, 3), "violations": 1 if bad else 0}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s explorations=%d executions=%d transitions=%d states=%d wall=%.1fs" % (cid, tier, len(per), tot["executions"], tot["transitions"], tot["states"], time.time()-t0))
    if bad:
        print("VIOLATION property=%s replay=%s" % (cid, bad), flush=True)
        sys.exit(1)

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: run.py ID [--replay FILE] [--only SCENARIO]; IDs: " + " ".join(sorted(CHECKS)))
    cid = sys.argv[1]
    chk = CHECKS[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "run" in chk:        # a check with a driver of its own
        return chk["run"](cid, chk, tier, seed)
    if "configs" in chk:
        return run_configs(cid, chk, tier, seed)
    exe = build(cid, chk)
    if "--build-only" in sys.argv:
        return
    if "--replay" in sys.argv:
        sys.exit(subprocess.call([exe, "--replay", sys.argv[sys.argv.index("--replay")+1]]))
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, cid + ".replay.txt")
    res = os.path.join(BUILD, "h-" + cid, "result.json")
    for f in (rep, res):
        if os.path.exists(f): os.unlink(f)
    known = known_for(cid)
    cmd = [exe, "--out", res, "--replay-out", rep, "--workers", "8"]
    if tier == "thorough": cmd.append("--thorough")
    if "--only" in sys.argv: cmd += ["--only", sys.argv[sys.argv.index("--only")+1]]
    for k, _ in known: cmd += ["--known", k]
    limit = 840 if tier == "quick" else 7200
    scratch = os.path.join(BUILD, "scratch-" + cid)
    if os.path.isdir(scratch): shutil.rmtree(scratch)
    os.makedirs(scratch)
    env = dict(os.environ); env["MC_SCRATCH"] = scratch; env["LC_ALL"] = "C"; env["TZ"] = "UTC"
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=scratch, env=env)
    except subprocess.TimeoutExpired:
        die("exploration did not finish in %d s" % limit)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    sys.stdout.write(out[-8000:])
    if not os.path.exists(res) and p.returncode in (-4, -6, -7, -8, -11) and time.time()-t0 < 300:
        # The executions run in children, whose crashes are recorded. When the harness
        # itself dies, the library's own start-up code (constructors of its static
        # objects) killed it: say so if it does the same with nothing to explore.
        os.makedirs(scratch, exist_ok=True)
        q = subprocess.run([exe, "--out", "/dev/null", "--only", "(none)"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60, cwd=scratch, env=env)
        shutil.rmtree(scratch, ignore_errors=True)
        if q.returncode == p.returncode:
            with open(rep, "w") as f:
                f.write("every program linked with the library dies by signal %d before main() has done anything\n" % -q.returncode)
            ev = {"property": cid, "tier": tier, "seed": seed, "level": chk["level"],
                  "coverage": {"states": 0, "transitions": 0, "evaluations": 1, "distinct_nontrivial": 1,
                               "traces_validated_against_impl": 0, "rule": "program start-up",
                               "exhaustive": False, "bounds": chk["bounds"],
                               "samples": ["start-up died by signal %d" % -q.returncode]},
                  "assumptions": [], "wall_s": round(time.time()-t0, 3), "violations": 1}
            with open(os.path.join(EVID, cid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (cid, rep), flush=True)
            sys.exit(1)
    if not os.path.exists(res):
        die("no result from the harness (status %d)" % p.returncode)
    r = json.load(open(res))
    lvl = chk["level"]
    cov = {"executions_on_real_code": r["executions"], "scenarios": r["scenarios"], "tasks": r["tasks"],
           "tasks_completed": r["tasks_done"], "exhaustive": r["result"] == 0 and r["tasks_done"] == r["tasks"],
           "bounds": chk["bounds"], "samples": (r["samples"] or ["(no samples)"])[:12]}
    if lvl == "model_checking":
        cov.pop("executions_on_real_code")
        cov["states"] = r["states"]; cov["transitions"] = r["transitions"]
        cov["traces_validated_against_impl"] = r["executions"]
        cov["inputs_evaluated_inside_executions"] = r["evals"]
        cov["distinct_outcomes"] = r["outcomes"]
    else:
        cov["evaluations"] = r["evals"] + (0 if r["evals"] else r["executions"])
        if r["evals"] == 0: cov.pop("executions_on_real_code")
        cov["distinct_nontrivial"] = r["outcomes"]
        cov["rule"] = chk["rule"]
        if r["states"]: cov["model_states"] = r["states"]
        if r["transitions"]: cov["transitions_compared"] = r["transitions"]
    if r["hash_overflow"]: cov["state_hash_insertions_dropped"] = r["hash_overflow"]
    if known: cov["known_finding_hits"] = r["known"]
    ev = {"property": cid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time()-t0, 3),
          "violations": 1 if r["result"] == 1 else 0}
    with open(os.path.join(EVID, cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (cid, d))
    print("%s tier=%s executions=%d transitions=%d evals=%d states=%d outcomes=%d wall=%.1fs" % (cid, tier,
          r["executions"], r["transitions"], r["evals"], r["states"], r["outcomes"], time.time()-t0))
    if r["result"] == 1:
        print("VIOLATION property=%s replay=%s" % (cid, rep), flush=True)
        sys.exit(1)
    if r["result"] == 0 and p.returncode == 0:
        sys.exit(0)
    die("a failure was seen that does not reproduce; see " + rep, 3)

if __name__ == "__main__":
    main()
