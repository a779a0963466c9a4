#!/usr/bin/env python3
"""run.py setup | check <property> | explore <lib> [regex] | replay <file> | costs <out> | manifest
Checks build the harness libraries from /repo's working tree and explore every selected client program
exhaustively with the model checker (engine/mc.cpp).  See DESIGN.md."""
import sys, os, re, json, subprocess, time, hashlib, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks as C
BUILD = os.path.join(V, "build")
REPO = os.environ.get("YAMC_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
MAXMB = max(1000, os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") // (1 << 20) * 85 // 100 // JOBS)
WIDE = 12                             # threads of the wide engine and monitors
def mc_of(lib): return os.path.join(BUILD, "mcw" if C.LIBS.get(lib, {}).get("wide") else "mc")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

class BuildError(Exception): pass

def run_cc(cmd):
    r = sh(cmd)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(V, "engine", f) for f in ("mc.cpp", "mc.h")]
    for name, defs in (("mc", []), ("mcw", ["-DMC_MAXT=%d" % (WIDE + 1)])):
        mc = os.path.join(BUILD, name); tag = mc + ".tag"; d = digest(src, str(defs))
        if os.path.exists(mc) and os.path.exists(tag) and open(tag).read() == d: continue
        run_cc(["g++", "-std=c++17", "-O2", "-g", "-fno-stack-protector", "-Wall", "-Wno-unused-function", "-Wno-misleading-indentation",
                "-rdynamic", "-fno-omit-frame-pointer"] + defs + [src[0], "-o", mc + ".tmp", "-ldl"])
        os.replace(mc + ".tmp", mc); open(tag, "w").write(d)

SUPPORT = ["spec", "obj", "own"]      # monitors: compiled without instrumentation
def build_spec():
    for n in SUPPORT:
        for wide in (0, WIDE):
            src = [os.path.join(V, "harness", f) for f in (n + ".cpp", n + ".h")] + [os.path.join(V, "engine", "mc.h")]
            defs = ["-DWIDE=%d" % wide] if wide else []
            o = os.path.join(BUILD, n + ("_w.o" if wide else ".o")); tag = o + ".tag"; d = digest(src, str(defs))
            if os.path.exists(o) and os.path.exists(tag) and open(tag).read() == d: continue
            run_cc(["g++", "-std=c++17", "-O2", "-g", "-fPIC", "-Wall"] + defs + ["-I" + V + "/engine", "-c", src[0], "-o", o])
            open(tag, "w").write(d)
def support(wide=False): return [os.path.join(BUILD, n + ("_w.o" if wide else ".o")) for n in SUPPORT]

def build_lib(name):
    """always rebuilt from the working tree"""
    lib = C.LIBS[name]
    o = os.path.join(BUILD, name + ".o"); so = os.path.join(BUILD, name + ".so")
    cmd = ["g++", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-Wall", "-Wno-tsan", "-Wno-unused-variable"]
    if not lib.get("asserts"): cmd.append("-DNDEBUG")
    cmd += ["-D" + d for d in lib.get("defs", [])]
    cmd += ["-I" + V + "/engine", "-I" + V + "/harness"] + ["-I" + V + "/" + i for i in lib.get("inc", [])] + ["-I" + REPO + "/include"]
    if os.path.exists(so): os.remove(so)
    for std in ([lib["std"]] if "std" in lib else ["c++11", "c++14", "c++17"]):      # the headers promise C++11; the repository's own build uses C++14
        try: run_cc(cmd + ["-std=" + std, os.path.join(V, "harness", lib["src"]), "-c", "-o", o]); err = None; break
        except BuildError as e: err = err if std != "c++11" and "std" not in lib else e
    if err: raise err
    run_cc(["g++", "-shared", o] + support(lib.get("wide")) + ["-o", so, "-Wl,-z,now"])
    return so

def programs(name, tier):
    r = sh([mc_of(name), os.path.join(BUILD, name + ".so"), "--list", "--tier", tier])
    if r.returncode: raise BuildError("cannot list programs of %s: %s" % (name, r.stdout[-2000:]))
    return r.stdout.split()

def load_costs():
    p = os.path.join(V, "costs.json")
    return json.load(open(p)) if os.path.exists(p) else {}

def explore(job, deadline, tier, kinds):
    lib, prog = job
    left = deadline - time.time()
    if left < 3: return dict(program=prog, lib=lib, skipped=True)
    maxs = min(left - 1, C.MAXS[tier])
    cmd = [mc_of(lib), os.path.join(BUILD, lib + ".so"), "--prog", prog, "--tier", tier, "--max-s", "%.0f" % maxs, "--max-states", str(C.MAXSTATES[tier]), "--max-mb", str(MAXMB)]
    if kinds: kinds = kinds - set(C.LIBS[lib].get("drop", ()))
    if kinds: cmd += ["--kinds", ",".join(sorted(kinds))]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=maxs + 120)
    except subprocess.TimeoutExpired:
        return dict(program=prog, lib=lib, error="engine does not stop")
    try: d = json.loads(r.stdout.strip().split("\n")[-1])
    except Exception: return dict(program=prog, lib=lib, error="exit %d: %s %s" % (r.returncode, r.stdout[-400:], r.stderr[-1200:]))
    d["lib"] = lib; d["rc"] = r.returncode
    if d.get("violation", {}).get("kind") == "monitor-overflow": del d["violation"]; d["rc"] = 2; d["capped"] = True; d["error"] = "monitor table overflow"
    if r.returncode not in (0, 1): d["error"] = r.stderr[-1200:]
    return d

def engine_replay(lib, prog, tier, path, kind):
    with tempfile.NamedTemporaryFile("w", dir=BUILD, suffix=".path") as f:
        f.write(",".join(map(str, path)) or "-"); f.write("\n"); f.flush()
        r = sh([mc_of(lib), os.path.join(BUILD, lib + ".so"), "--prog", prog, "--tier", tier, "--replay", "@" + f.name, "--expect", kind], timeout=600)
    l = r.stdout.split("\n")
    if len(l) > 3000: r.stdout = "\n".join(l[:1000] + ["... %d steps ..." % (len(l) - 3000)] + l[-2000:])
    return r

def confirm(d, tier):
    v = d["violation"]
    r = engine_replay(d["lib"], d["program"], tier, v["path"], v["kind"])
    return r.returncode == 1 and "CONFIRMED" in r.stdout, r.stdout

def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) program=(\S+) kind=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append(m.groups())
    return out

def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); deadline = t0 + C.DEADLINE[tier]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    spec = C.PROPS[prop]; sel = spec["select"](tier)
    libs = sorted(set(l for l, _ in sel))
    build_engine(); build_spec()
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(build_lib, libs))
    jobs, seen = [], set()
    for lib in libs:
        progs = programs(lib, tier)
        for l, rx in sel:
            if l != lib: continue
            hit = [p for p in progs if re.search(rx, p)]
            if not hit: raise BuildError("selector %s %s matches no program" % (l, rx))
            for p in hit:
                if (lib, p) not in seen: seen.add((lib, p)); jobs.append((lib, p))
    costs = load_costs(); jobs.sort(key=lambda j: -costs.get(j[0] + ":" + j[1], 1e6 if tier == "thorough" else 5))
    kinds = set(spec["kinds"]) | C.GENERIC
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(lambda j: explore(j, deadline, tier, kinds), jobs))
    if os.environ.get("VERIF_COSTS"):
        json.dump({d["lib"] + ":" + d["program"]: d.get("wall_s", 0) for d in res}, open(os.environ["VERIF_COSTS"], "w"))
    errors = [d for d in res if d.get("error")]
    viols = [d for d in res if d.get("violation")]
    ok = [d for d in res if "states" in d]
    kf = known(prop); reported, matched = [], []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    viols.sort(key=lambda d: len(d["violation"]["path"]))
    nconf = 0
    for d in viols:
        v = d["violation"]
        k = next((k for k in kf if re.fullmatch(k[1], d["program"]) and k[2] == v["kind"]), None)
        if k: matched.append(k); continue
        if nconf >= 3 and reported: reported.append(d); continue      # enough replays
        good, text = confirm(d, tier); nconf += 1
        d["trace"] = text
        if good: d["confirmed"] = True; reported.append(d)
        else: errors.append(dict(program=d["program"], error="violation %s not confirmed by replay:\n%s" % (v["kind"], text[-1500:])))
    for k in kf:
        if k in matched: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    samples = []
    for d in sorted(ok, key=lambda d: -d["states"])[:3]:
        samples.append(dict(program=d["program"], states=d["states"], schedule=d.get("sample", [])[:60]))
    full = [d for d in errors if re.search(r"(table|cell|canon) overflow", d["error"])]      # the code needs more bookkeeping than the engine has: these programs decide nothing
    if len(full) * 5 <= len(res): errors = [d for d in errors if d not in full]
    capped = [d["program"] for d in full] + [d["program"] for d in ok if d.get("capped")] + [d["program"] for d in res if d.get("skipped")]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=sum(d["states"] for d in ok), transitions=sum(d["transitions"] for d in ok),
            traces_validated_against_impl=sum(d.get("validated", 0) for d in ok), samples=samples,
            programs=len(ok), exhaustive=not capped and not errors and not viols, incomplete_programs=capped,
            distinct_final_states=sum(d.get("terminals", 0) for d in ok), quiescent_points=sum(d.get("quiescent_points", 0) for d in ok),
            distinct_outcomes=sum(d.get("outcomes", 0) for d in ok), aborting_executions=sum(d.get("aborts", 0) for d in ok),
            pruned_by_other_properties={k: n for d in ok for k, n in d.get("foreign_kinds", {}).items()},
            per_program=[dict(lib=d["lib"], program=d["program"], states=d["states"], transitions=d["transitions"], depth=d.get("max_depth"), wall_s=d.get("wall_s")) for d in ok],
            operations=_sum(d.get("ops", {}) for d in ok), covered=_sum(d.get("coverage", {}) for d in ok),
            explanation="explicit-state exploration of all interleavings of the compiled headers under the client programs; a trace is validated by re-executing it from program start"),
        assumptions=C.ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for e in errors: print("ERROR program=%s %s" % (e["program"], e["error"]))
    if reported:
        for d in reported[:3]:
            v = d["violation"]
            f = os.path.join("replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9.]+", "_", d["lib"] + "-" + d["program"])))
            json.dump(dict(property=prop, lib=d["lib"], program=d["program"], tier=tier, kind=v["kind"], message=v["msg"], path=v["path"], schedule=d.get("trace", "").split("\n")), open(os.path.join(V, f), "w"), indent=1)
            print("%s in %s: %s: %s" % (prop, d["program"], v["kind"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    print("%s %s: %d programs, %d states, %d transitions, %.1f s%s" % (prop, "ERROR" if errors else "ok", len(ok), ev["coverage"]["states"], ev["coverage"]["transitions"], time.time() - t0, (" incomplete: " + " ".join(capped)) if capped else ""))
    return 2 if errors else 0

def _sum(ds):
    r = {}
    for d in ds:
        for k, n in d.items(): r[k] = r.get(k, 0) + n
    return r

def replay(f):
    d = json.load(open(f)); build_engine(); build_spec(); build_lib(d["lib"])
    r = engine_replay(d["lib"], d["program"], d["tier"], d["path"], d["kind"])
    print(r.stdout); return r.returncode

def selftest():
    build_spec()
    src = os.path.join(V, "engine", "selftest.cpp"); o = os.path.join(BUILD, "selftest.o"); so = os.path.join(BUILD, "selftest.so")
    run_cc(["g++", "-std=c++11", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-Wno-tsan", "-I" + V + "/engine", src, "-c", "-o", o])
    run_cc(["g++", "-shared", o] + support() + ["-o", so, "-Wl,-z,now"])
    bad = 0
    for p in sh([mc_of("selftest"), so, "--list"]).stdout.split():
        exp = C.SELFTEST.get(p, "ok")
        r = subprocess.run([mc_of("selftest"), so, "--prog", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: got = json.loads(r.stdout.strip().split("\n")[-1]).get("violation", {}).get("kind", "ok")
        except Exception: got = "error " + r.stderr[-300:]
        if got != exp: bad = 1; print("selftest %s: expected %s, got %s" % (p, exp, got))
    print("engine selftest", "FAILED" if bad else "passed")
    return bad

def manifest():
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=C.NOT_APPLICABLE, notes=C.NOTES)
    for p in sorted(C.PROPS):
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py check " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + p,
            evidence_file="evidence/%s.json" % p, technique=C.PROPS[p].get("technique", C.TECHNIQUE), level="model_checking", level_note=C.PROPS[p]["note"] + " " + C.LEVEL_NOTE))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); return 0

def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            build_engine(); build_spec(); return selftest()
        if a[0] == "selftest": build_engine(); return selftest()
        if a[0] == "check": return check(a[1])
        if a[0] == "explore":
            build_engine(); build_spec(); build_lib(a[1]); tier = os.environ.get("VERIF_TIER", "quick"); rx = a[2] if len(a) > 2 else "."
            js = [(a[1], p) for p in programs(a[1], tier) if re.search(rx, p)]; dl = time.time() + float(os.environ.get("MAXS", "120"))
            with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(lambda j: explore(j, dl, tier, None), js))
            hw = [0] * 4
            for d in sorted(res, key=lambda d: d.get("wall_s", 0)):
                v = d.get("violation"); hw = [max(a, b) for a, b in zip(hw, d.get("high_water", hw))]; print("%-50s %9d states %7.2f s term %d out %d %s" % (d["program"], d.get("states", -1), d.get("wall_s", 0), d.get("terminals", 0), d.get("outcomes", 0), "CAPPED" if d.get("capped") else ""), (v["kind"] + ": " + v["msg"]) if v else "", d.get("error", ""))
                if v and os.environ.get("TRACE"): print(confirm(d, tier)[1])
            print("total %.1f s cpu, %d states, table high-water marks %s" % (sum(d.get("wall_s", 0) for d in res), sum(d.get("states", 0) for d in res), hw))
            return 0
        if a[0] == "replay": return replay(a[1])
        if a[0] == "manifest": return manifest()
    except BuildError as e:
        print("BUILD-ERROR: %s" % e); return 2
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
