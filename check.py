#!/usr/bin/env python3
"""Decide one property of Boost.Sync by running the real code (from /repo's working tree) under monitors.

usage: check.py PROPERTY [--tier quick|thorough] [--keep]
Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: error of the check (inconclusive).
"""
import sys, os, json, time, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from jobs import PROPS, CONFIGS, GENERIC_KINDS   # noqa: E402

NCPU = os.cpu_count() or 8
CXX = "clang++"
VRT_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-DVCFG_VRT"]
# undefined behaviour traps (reported as a crash)
UB_FLAGS = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=function,vptr,alignment", "-fsanitize-trap=undefined,float-cast-overflow"]
COMMON = ["-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_ALL_NO_LIB", "-I" + REPO + "/include", "-I" + VERIF + "/h", "-include", VERIF + "/h/prelude.hpp"]
NATIVE = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=function,vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
    "memcheck": [],   # run under valgrind
    # as a user's compiler builds it: g++, an older standard, Boost.Atomic's own assembly (no prelude)
    "gcc": ["-O2", "-std=c++11"],
    "gasan": ["-std=c++11", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
GCC = ("gcc", "gasan")
MEMCHECK = ["valgrind", "-q", "--fair-sched=yes", "--exit-on-first-error=yes", "--error-exitcode=10", "--suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools/memcheck.supp")]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=10:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=10",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=10:second_deadlock_stack=1:report_signal_unsafe=0",
}


class CheckError(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build_all(jobs, out):
    """Compile every (harness, config, flavour) needed. Returns {(h, cfg, flavour): exe} and notes about those that don't build.

    Only the default configuration has to build: the others are there to run more of the code, if it is there to be run."""
    want = sorted({(j["h"], j["cfg"], j.get("flavour", "vrt")) for j in jobs})
    comp = {}   # object -> command
    link = {}
    for h, cfg, fl in want:
        d = [a.replace("@VERIF@", VERIF) for a in CONFIGS[cfg]]
        win = "-DVCFG_WIN" in d
        objs = []
        if fl in ("vrt", "vrtub"):
            o = out + "/vrt.o"
            comp[o] = [CXX, "-std=c++17", "-O2", "-g", "-c", VERIF + "/vrt/vrt.cpp", "-o", o]
            objs.append(o)
            o = "%s/harness.%s.o" % (out, cfg)
            comp[o] = [CXX, "-std=c++17", "-O2", "-g"] + d + ["-c", VERIF + "/h/harness.cpp", "-o", o]
            objs.append(o)
            flags = VRT_FLAGS + (UB_FLAGS if fl == "vrtub" else [])
            lf = ["-no-pie", "-lpthread"]
        else:
            flags = ["-std=c++17", "-O1", "-g"] + NATIVE[fl]
            lf = NATIVE[fl] + ["-lpthread"]
        srcs = [(VERIF + "/h/" + h + ".cpp", h)]
        if h in ("h_tss", "h_fault", "n_stress"):
            srcs.append((REPO + "/src/tss_%s.cpp" % ("windows" if win else "pthread"), "tss"))
        for src, nm in srcs:
            o = "%s/%s.%s.%s.o" % (out, nm, cfg, fl)
            comp[o] = (["g++"] + flags + COMMON[:-2] if fl in GCC else [CXX] + flags + COMMON) + d + ["-c", src, "-o", o]
            objs.append(o)
        exe = "%s/%s.%s.%s" % (out, h, cfg, fl)
        link[(h, cfg, fl)] = (exe, ["g++" if fl in GCC else CXX] + objs + ["-o", exe] + lf, objs)
    comp["distinct"] = [CXX, "-std=c++17", "-O2", VERIF + "/tools/distinct.cpp", "-o", out + "/distinct"]
    # long compilations first
    order = sorted(comp, key=lambda o: -os.path.getsize(next(a for a in comp[o] if a.endswith(".cpp"))))
    failed = {}

    def build(name, cmd):
        try:
            sh(cmd)
        except CheckError as e:
            failed[name] = str(e)

    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda o: build(o, comp[o]), order))
        list(ex.map(lambda k: build(k, link[k][1]), [k for k in link if not any(o in failed for o in link[k][2])]))
    notes, exes = {}, {}
    for k, (exe, _, objs) in link.items():
        err = [failed[x] for x in [k] + objs if x in failed]
        if not err:
            exes[k] = exe
        elif k[1] == "A" and k[2] not in GCC:
            raise CheckError(err[0])
        else:
            nm = k[1] + ("" if k[2] not in GCC else " with g++")
            notes[nm] = "configuration %s was not run, it doesn't build: %s" % (nm, " ".join(re.findall(r"error: .*", err[0])[:1]) or err[0][:300])
    if "distinct" in failed:
        raise CheckError(failed["distinct"])
    return exes, notes


def run_chunk(exe, job, seed, a, b, hashfile):
    """Run cases a..b-1 of a job. Returns dict(viol=..., stats=[...], foreign=[...], error=...)."""
    res = {"stats": [], "samples": [], "foreign": [], "viol": None, "error": None, "hashes": []}
    pos, retried, n = a, False, 0
    kinds = job["kinds"]
    env = dict(os.environ, VRT_KINDS=",".join(sorted(kinds)), **SAN_ENV)
    while pos < b:
        hf = "%s.%d" % (hashfile, n)
        n += 1
        cmd = [exe, job["mode"], str(seed), str(pos), str(b), hf]
        if job.get("flavour") == "memcheck":
            cmd = MEMCHECK + cmd
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job.get("timeout", 400), env=env)
        except subprocess.TimeoutExpired:
            if retried:
                res["error"] = "worker did not finish: " + " ".join(cmd)
                return res
            retried = True
            continue
        out = p.stdout.decode("utf-8", "replace")
        for line in out.splitlines():
            if line.startswith("STAT\t"):
                res["stats"].append(json.loads(line[5:]))
            elif line.startswith("SAMPLE\t"):
                res["samples"].append(line[7:])
        if p.returncode == 0:
            if os.path.exists(hf):
                res["hashes"].append(hf)
            return res
        kind = msg = None
        m = re.search(r"^VIOL\t(\S+)\t(.*)$", out, re.M)
        if m:
            kind, msg = m.group(1), m.group(2)
        else:
            m = re.search(r"(ERROR: AddressSanitizer.*|ERROR: LeakSanitizer.*|WARNING: ThreadSanitizer.*|.*runtime error:.*|==\d+== (?:Invalid |Conditional jump|Use of uninit|Syscall param|Mismatched free|Source and dest).*)", out)
            if m:
                kind, msg = "sanitizer", m.group(1).strip()
            elif p.returncode < 0 and p.returncode != -9:
                kind, msg = "crash", "terminated by signal %d" % -p.returncode
        if p.returncode in (12, 13) or kind is None:
            res["error"] = "worker failed (%s): %s\n%s" % (p.returncode, " ".join(cmd), out[-3000:])
            return res
        try:
            at = int(open(hf + ".pos").read().split()[0])
        except Exception:
            at = pos
        v = {"kind": kind, "msg": msg, "output": out, "cmd": [exe, job["mode"], str(seed), str(at), str(at + 1), "-"], "job": job}
        if kind in kinds:
            res["viol"] = v
            return res
        res["foreign"].append("%s: %s" % (kind, msg))
        if len(res["foreign"]) > 25:
            return res
        pos = at + 1
    return res


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    out = os.path.join(VERIF, ".build", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = []
    for j in P["jobs"]:
        j = dict(j)
        j["runs"] = j["quick"] if tier == "quick" else j.get("thorough", j["quick"] * 20)
        j["kinds"] = set(P["kinds"]) | GENERIC_KINDS
        if j["runs"] > 0:
            jobs.append(j)
    exes, notes = build_all(jobs, out)
    jobs = [j for j in jobs if (j["h"], j["cfg"], j.get("flavour", "vrt")) in exes]
    t_build = time.time() - t0
    tasks = []
    for ji, j in enumerate(jobs):
        exe = exes[(j["h"], j["cfg"], j.get("flavour", "vrt"))]
        if j.get("serial"):
            chunk = j["runs"]
        else:
            chunk = max(j.get("min_chunk", 50), (j["runs"] + NCPU * 2 - 1) // (NCPU * 2))
        for k, a in enumerate(range(0, j["runs"], chunk)):
            tasks.append((j, exe, a, min(j["runs"], a + chunk), "%s/hash.%d.%d" % (out, ji, k)))
    tasks.sort(key=lambda t: -t[0].get("weight", 1.0) * (t[3] - t[2]))
    results = []
    stop = []

    def go(t):
        if stop:
            return None
        r = run_chunk(t[1], t[0], seed, t[2], t[3], t[4])
        r["job"] = t[0]
        if r["viol"]:
            stop.append(1)
        return r

    with ThreadPoolExecutor(NCPU) as ex:
        results = [r for r in ex.map(go, tasks) if r]

    known = load_known()
    viols, knowns = [], {}
    for r in results:
        if r["viol"]:
            v = r["viol"]
            for kp, rx, txt in known:
                if kp == prop and rx.search(v["kind"] + " " + v["msg"]):
                    knowns[txt] = 1
                    break
            else:
                viols.append(v)
    errors = []
    for r in results:
        if r["error"] and "-DVCFG_WIN" in CONFIGS[r["job"]["cfg"]] and "UNSUPPORTED" in r["error"]:
            # the model of the Windows API doesn't know something that the code uses
            notes[r["job"]["cfg"]] = "configuration %s was not run to the end: %s" % (r["job"]["cfg"], re.search("UNSUPPORTED.*", r["error"]).group(0)[:300])
        elif r["error"]:
            errors.append(r["error"])

    tot, counts, samples, hashfiles, perjob, foreign = {}, {}, [], {}, {}, []
    for r in results:
        key = "%s/%s/%s/%s" % (r["job"]["h"], r["job"]["cfg"], r["job"]["mode"], r["job"].get("flavour", "vrt"))
        foreign += r["foreign"]
        for s in r["stats"]:
            for k, v in s.items():
                if k == "counts":
                    for a, b in v.items():
                        counts[a] = counts.get(a, 0) + b
                elif k == "max_threads":
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            perjob[key] = perjob.get(key, 0) + s["runs"]
        for s in r["samples"][:1]:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
        hashfiles.setdefault(key, []).extend(r["hashes"])
    distinct = sum(int(subprocess.run([out + "/distinct"] + v, stdout=subprocess.PIPE, text=True, check=True).stdout) for v in hashfiles.values() if v)
    evaluations = tot.pop("runs", 0)
    cov = {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": P["rule"], "samples": samples or ["(none)"],
           "observed": counts, "runtime": {k: v for k, v in tot.items()}, "runs_per_workload": perjob,
           "violations_of_other_properties_seen": sorted(set(foreign))[:10], "notes": sorted(notes.values())}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for txt in sorted(notes.values()):
        print("NOTE: " + txt)
    for txt in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    print("%s: %d executions, %d distinct non-trivial, build %.1fs, total %.1fs" % (prop, evaluations, distinct, t_build, time.time() - t0))
    code = 0
    if viols:
        v = viols[0]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s.txt" % (VERIF, prop)
        again = ""
        if v["job"].get("flavour", "vrt").startswith("vrt"):
            try:
                p = subprocess.run(v["cmd"], env=dict(os.environ, VRT_KINDS=",".join(sorted(v["job"]["kinds"]))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                again = "replayed: %s\n" % ("the same violation again" if p.returncode == 10 else "not reproduced, exit %d" % p.returncode)
            except subprocess.TimeoutExpired:
                again = "replayed: timeout\n"
        with open(path, "w") as f:
            f.write("property: %s\nkind: %s\nmessage: %s\nconfiguration: %s %s\nreplay: VRT_KINDS=%s python3 %s/tools/replay.py %s %s %s %s %s %s\n%s\n%s\n" % (
                prop, v["kind"], v["msg"], v["job"]["cfg"], " ".join(CONFIGS[v["job"]["cfg"]]), ",".join(sorted(v["job"]["kinds"])), VERIF, v["job"]["h"], v["job"]["cfg"],
                v["job"].get("flavour", "vrt"), v["cmd"][1], v["cmd"][2], v["cmd"][3], again, v["output"][-60000:]))
        print("%s: %s" % (v["kind"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors:
        print("ERROR (inconclusive): " + errors[0][:4000])
        code = 2
    elif evaluations == 0 or distinct < P.get("min_distinct", 2):
        print("ERROR (inconclusive): only %d executions, %d distinct, other violations: %s" % (evaluations, distinct, sorted(set(foreign))[:5]))
        code = 2
    if "--keep" not in sys.argv:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR (inconclusive): %s" % e)
        sys.exit(2)
