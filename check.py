#!/usr/bin/env python3
"""Model checking driver.

check.py C09 [quick|thorough]     decide one property
check.py all [quick|thorough]     decide all of them
check.py --setup                  build everything for the current tree (warms the build cache)
check.py --replay FILE            re-execute a recorded violation

Builds the scenario programs (h/*.cpp) against /repo's current headers and sources, instrumented, together with the
model checker runtime (mc/rt.cpp), runs every scenario that belongs to the property, and writes evidence/<id>.json.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
EV = os.path.join(HERE, "evidence")

# build variants: how a user can configure the library on this platform
VARIANTS = {
    "def":    [],
    "pt":     ["-DBOOST_SYNC_USE_PTHREAD"],
    "em":     ["-DBOOST_SYNC_USE_PTHREAD", "-DMC_NO_POSIX_EXT"],
    "noinit": ["-DBOOST_SYNC_USE_PTHREAD", "-DMC_NO_INITIALIZER"],
    "noinitem": ["-DBOOST_SYNC_USE_PTHREAD", "-DMC_NO_INITIALIZER", "-DMC_NO_POSIX_EXT"],
    "eintr":  ["-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"],
    "tls":    ["-DBOOST_SYNC_USE_COMPILER_TLS"],
    "ttas":   ["-DATOMIC_BOOL_LOCKFREE=2"],
    "ptns":   ["-DBOOST_DATE_TIME_POSIX_TIME_STD_CONFIG"],
    "cxx03":  ["-DMC_CXX03"],
    "win":    ["-DMC_WIN", "-I" + os.path.join(HERE, "mc", "win")],
    "win6":   ["-DMC_WIN", "-DBOOST_USE_WINAPI_VERSION=0x0600", "-I" + os.path.join(HERE, "mc", "win")],
    "gcd":    ["-DBOOST_SYNC_USE_PTHREAD", "-DBOOST_SYNC_DETAIL_USE_DISPATCH_SEMAPHORES", "-I" + os.path.join(HERE, "mc", "mac")],
    "stderr": ["-DBOOST_SYNC_USE_STD_SYSTEM_ERROR"],
}
# configurations a user can select on this platform: there, the public interface has to compile
USER_CONFIG = ("def", "pt", "tls", "stderr")
# which variants each scenario program is built in (the scenarios themselves can be conditional on MC_V_<variant>)
PROGRAMS = json.load(open(os.path.join(HERE, "h", "programs.json")))
LEVEL = "model_checking"
KNOWN = os.path.join(HERE, "known_findings.txt")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def files_of(*roots):
    r = []
    for root in roots:
        if os.path.isfile(root):
            r.append(root)
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                r.append(os.path.join(d, f))
    return sorted(r)


def tree_hash():
    h = hashlib.sha256()
    for f in files_of(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(HERE, "mc"), os.path.join(HERE, "h")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(os.path.join(HERE, "check.py"), "rb").read())
    return h.hexdigest()[:20]


def rt_hash():
    h = hashlib.sha256()
    for f in files_of(os.path.join(HERE, "mc")):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


class CompileError(BuildError):
    pass


CXX = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-ftrivial-auto-var-init=zero", "-Wno-tsan", "--param", "tsan-instrument-func-entry-exit=0",
       "-DBOOST_ALL_NO_LIB", "-DBOOST_CHRONO_HEADER_ONLY", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "h"),
       "-include", os.path.join(HERE, "mc", "prefix.h")]
RENAME = ["objcopy", "--redefine-sym", "memcpy=mc_memcpy", "--redefine-sym", "memmove=mc_memmove", "--redefine-sym", "memset=mc_memset"]


def run_or_raise(cmd, kind=BuildError):
    r = sh(cmd)
    if r.returncode != 0:
        raise (kind if r.returncode == 1 else BuildError)(" ".join(cmd) + "\n" + r.stdout[-6000:])


def build_rt(big):
    """The runtime; big: for scenarios with very many threads."""
    out = os.path.join(BUILD, "rt%s-%s.o" % ("big" if big else "", rt_hash()))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run_or_raise(["g++", "-std=c++17", "-O2", "-g1", "-fno-builtin", "-fno-strict-aliasing"] + (["-DMC_BIG"] if big else []) + ["-c", os.path.join(HERE, "mc", "rt.cpp"), "-I" + os.path.join(HERE, "mc"), "-o", tmp])
        os.rename(tmp, out)
    return out


def compile_obj(src, variant, out, extra=()):
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d.o" % os.getpid()
    run_or_raise(CXX + VARIANTS[variant] + ["-DMC_V_" + variant, '-DMC_VARIANT="%s"' % variant] + list(extra) + ["-c", src, "-o", tmp], CompileError)
    run_or_raise(RENAME + [tmp])
    os.rename(tmp, out)
    return out


def build(todo):
    """todo: list of (program, variant). Returns {(program, variant): binary or error string}."""
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    # keep the cache small
    old = sorted((e for e in os.scandir(BUILD) if e.is_dir() and e.path != d), key=lambda e: e.stat().st_mtime)
    for e in old[:-3]:
        shutil.rmtree(e.path, ignore_errors=True)
    res, errs = {}, {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        rt = {big: pool.submit(build_rt, big) for big in {bool(PROGRAMS[p].get("big")) for p, _ in todo}}
        objs = {}
        for p, v in todo:
            objs[p, v] = pool.submit(compile_obj, os.path.join(HERE, "h", p + ".cpp"), v, os.path.join(d, "%s.%s.o" % (p, v)))
        # the library's own sources for this platform
        srcs = {v: [f for f in sorted(os.listdir(os.path.join(REPO, "src"))) if f.endswith(".cpp") and (("windows" not in f and "win32" not in f) or (v in ("win", "win6") and f == "tss_windows.cpp"))]
                for v in {v for _, v in todo}}
        libs = {v: [pool.submit(compile_obj, os.path.join(REPO, "src", f), v, os.path.join(d, "%s.%s.o" % (f[:-4], v)), ["-DBOOST_SYNC_BUILDING=1"]) for f in srcs[v]] for v in sorted({v for _, v in todo})}
        rto = {big: f.result() for big, f in rt.items()}

        def link(p, v):
            exe = os.path.join(d, "%s.%s" % (p, v))
            try:
                o, l = objs[p, v].result(), [x.result() for x in libs[v]]
                if not os.path.exists(exe):
                    tmp = exe + ".tmp%d" % os.getpid()
                    run_or_raise(["g++", "-no-pie", o] + l + [rto[bool(PROGRAMS[p].get("big"))], "-o", tmp])
                    os.rename(tmp, exe)
                return exe
            except BuildError as e:
                return e
        fs = {}
        for k in todo:
            objs[k].exception(); [x.exception() for x in libs[k[1]]]
        for k in todo:
            fs[k] = pool.submit(link, *k)
        for k, f in fs.items():
            res[k] = f.result()
    return res


SCEN = re.compile(r'^\s*(?:SCENARIO(?:_T)?)\s*\(\s*([\w#]+)\s*,\s*"([^"]*)"', re.M)


def props_of_program(p):
    t = open(os.path.join(HERE, "h", p + ".cpp")).read()
    return {x for _, ps in SCEN.findall(t) for x in ps.split(",")}


def load_known():
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding:\s*property=(\S+)\s+scenario=(\S+)\s+variant=(\S+)\s+match=/(.*?)/\s+(.*)$", l)
                if not m:
                    raise SystemExit("bad line in known_findings.txt: " + l)
                r.append(dict(property=m[1], scenario=m[2], variant=m[3], match=re.compile(m[4]), text=m[5]))
    return r


def run_scenario(exe, prop, scen, part, parts, tier, secs):
    cmd = [exe, "--prop", prop, "--shard", "%d/%d" % (part, parts), "--scenario", scen, "--secs", str(secs)] + (["--thorough"] if tier == "thorough" else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 60, errors="replace")
    except subprocess.TimeoutExpired:
        return dict(scenario=scen, error="timeout of the scenario process")
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if not lines or r.returncode not in (0, 1):
        return dict(scenario=scen, error="scenario process ended with %s: %s" % (r.returncode, (r.stderr or r.stdout)[-1500:]))
    return json.loads(lines[-1])


def main():
    if sys.argv[1:2] == ["--setup"]:
        todo = [(p, v) for p, i in PROGRAMS.items() for v in i["variants"]]
        os.makedirs(BUILD, exist_ok=True)
        for k, v in build(todo).items():
            if isinstance(v, Exception):
                print("setup: %s.%s does not build: %s" % (k[0], k[1], str(v)[-800:]))
        return 0
    if sys.argv[1:2] == ["--replay"]:
        j = json.load(open(sys.argv[2]))
        b = build([(j["program"], j["variant"])])[j["program"], j["variant"]]
        if isinstance(b, Exception):
            print(b); return 2
        cmd = [b, "--prop", j["property"], "--shard", j["shard"], "--scenario", j["scenario"], "--replay", j["choices"]] + (["--thorough"] if j["tier"] == "thorough" else [])
        print(" ".join(cmd)); return subprocess.call(cmd)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop == "all":
        rc = 0
        ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
        for i in ids:
            rc = max(rc, check(i, tier))
        return rc
    return check(prop, tier)


def check(prop, tier):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    todo = [(p, v) for p, i in PROGRAMS.items() if prop in props_of_program(p) for v in i["variants"] if v in i.get("quick", i["variants"]) or tier == "thorough"]
    bins = build(todo)
    tb = time.time() - t0
    notes, errors, jobs, broken = [], [], [], []
    for (p, v), b in bins.items():
        if isinstance(b, Exception):
            if v in USER_CONFIG and isinstance(b, CompileError):
                # the scenario programs use the public interface only: if they do not compile, the operations they call are not there any more
                broken.append((p, v, str(b)))
            elif v == "def":
                errors.append("%s.%s does not build: %s" % (p, v, str(b)[-3000:]))
            else:
                notes.append("variant %s of %s does not build on this tree and was skipped" % (v, p))
            continue
        for l in sh([b, "--list"]).stdout.split("\n"):
            f = l.split()
            if len(f) >= 3 and prop in f[1].split(",") and (tier == "thorough" or f[2] == "1"):
                m = int(f[3 if tier == "quick" else 4])
                jobs += [(p, v, b, f[0], i, m) for i in range(m)]
    results = []
    # quick: every scenario may take 60 s, as long as all together end in time (on the unchanged tree they need far less)
    left = [len(jobs)]
    def job(j):
        t = time.time() - t0 - tb
        secs = 1500 if tier != "quick" else 60 if t < 200 else max(2, min(60, int((560 - t) * JOBS / max(1, left[0]))))
        left[0] -= 1
        return run_scenario(j[2], prop, j[3], j[4], j[5], tier, secs)
    with cf.ThreadPoolExecutor(JOBS) as pool:
        fs = [(j, pool.submit(job, j)) for j in jobs]
        for j, f in fs:
            r = f.result(); r["program"], r["variant"], r["shard"] = j[0], j[1], "%d/%d" % (j[4], j[5]); results.append(r)
    known = load_known()
    viol, kf = [], []
    for r in results:
        if "error" in r:
            errors.append("%s/%s/%s: %s" % (r["program"], r["variant"], r["scenario"], r["error"]))
        elif "violation" in r:
            k = [x for x in known if x["property"] == prop and x["scenario"] == r["scenario"] and x["variant"] in (r["variant"], "*") and x["match"].search(r["violation"])]
            if k:
                kf.append((k[0], r))
            elif not r["confirmed"]:
                errors.append("%s/%s/%s: violation not reproducible: %s" % (r["program"], r["variant"], r["scenario"], r["violation"]))
            else:
                viol.append(r)
    if not jobs and not errors and not broken:
        errors.append("no scenario for " + prop)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for k in {id(k): k for k, _ in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for n in notes:
        print("note:", n)
    for p, v, text in broken:
        path = os.path.join(rdir, "%s.%s.%s.compile.txt" % (prop, p, v))
        open(path, "w").write(text + "\n")
        print("%s [build variant %s]: operations of the public interface do not compile: %s" % (p, v, next((l for l in text.split("\n") if "error:" in l), "")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for r in viol:
        path = os.path.join(rdir, "%s.%s.%s.%s.json" % (prop, r["scenario"], r["variant"], r["shard"].split("/")[0]))
        json.dump(dict(property=prop, program=r["program"], variant=r["variant"], scenario=r["scenario"], shard=r["shard"], tier=tier, choices=r["choices"], violation=r["violation"], log=r["log"].split("\n")), open(path, "w"), indent=1)
        print("%s [%s, build variant %s]: %s" % (r["scenario"], r["program"], r["variant"], r["violation"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    good = [r for r in results if "states" in r]
    samples = []
    for r in good[:60]:
        samples.append({"scenario": r["scenario"], "variant": r["variant"], "first_execution": r.get("sample", "")[:600].split("\n"), "states": r["states"], "executions": r["executions"]})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=LEVEL,
              coverage=dict(states=sum(r["states"] for r in good), transitions=sum(r["transitions"] for r in good),
                            traces_validated_against_impl=sum(r["executions"] for r in good),
                            scenarios=len(good), complete=sum(1 for r in good if r["complete"]),
                            cut_by_time=[r["scenario"] + "/" + r["variant"] for r in good if not r["complete"] and "violation" not in r],
                            variants=sorted({r["variant"] for r in good}),
                            per_scenario=[{k: r[k] for k in ("scenario", "program", "variant", "shard", "states", "transitions", "executions", "maxdepth", "complete", "secs", "cfg")} for r in good],
                            samples=samples[:12] or [{"note": "no scenario ran"}],
                            note="every execution runs the real code of /repo under the controlled scheduler; no separate model exists, so each explored trace is a trace of the implementation"),
              assumptions=["bounds of each scenario as listed in per_scenario.cfg: stale = non-latest atomic loads, faults = environment faults, early = clock advances while threads can run, preempt = preemption bound (-1: none)",
                           "operating system services (pthread, semaphores, futex, clocks, keys) behave as POSIX/Linux specify; they are modelled by mc/rt.cpp",
                           "C++11 memory model without load buffering (no out-of-thin-air or load-store reordering)"],
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(viol) + len(broken), violated=[dict(scenario=r["scenario"], variant=r["variant"], violation=r["violation"]) for r in viol],
              known_findings=[k["text"] for k, _ in kf], notes=notes, errors=errors)
    json.dump(ev, open(evf, "w"), indent=1)
    print("%s %s: %d scenarios (%d complete), %d states, %d transitions, %d executions, %.1f s (build %.1f s)" % (prop, tier, len(good), ev["coverage"]["complete"], ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"], time.time() - t0, tb))
    if viol or broken:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
