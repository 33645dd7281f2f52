#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property.

  check.py setup                      build everything
  check.py C01 [--tier quick|thorough]
  check.py replay FILE [--trace]      reproduce a reported violation
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BANT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WORKERS = 8
SIM_SRC = ["core", "fs", "intercept", "tsan_rt", "main", "tidy", "shell", "scenarios", "re2", "bantworld", "bant", "bant2"]
SIM_FLAGS = ["-std=c++20", "-O2", "-g1", "-fno-threadsafe-statics", "-U_FORTIFY_SOURCE"]
CUT_FLAGS = ["-O1", "-g1", "-fPIC", "-fsanitize=thread", "-fno-gnu-unique", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
PROPS = json.load(open(os.path.join(VERIF, "checks.json")))


class Failure(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Failure("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree(*dirs, exts):
    out = []
    for d in dirs:
        for base, _, names in os.walk(d):
            out += [os.path.join(base, n) for n in names if n.endswith(exts)]
    return out


class Build:
    """One artefact, named after the hash of everything it is made from."""

    def __init__(self, pool):
        self.pool = pool

    def objects(self, jobs):
        for f in [self.pool.submit(sh, cmd) for cmd in jobs]:
            f.result()

    def make(self, name, files, extra, fn):
        key = digest(files, extra)
        dst = os.path.join(BUILD, "%s-%s" % (name, key))
        if os.path.exists(dst):
            os.utime(dst)
            return dst
        tmp = tempfile.mkdtemp(prefix="mk-", dir=BUILD)
        try:
            fn(tmp, os.path.join(tmp, "out"))
            os.rename(os.path.join(tmp, "out"), dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        old = sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)
        for f in old[:-6]:
            if f != dst:
                os.unlink(f)
        return dst

    def sim(self):
        src = [os.path.join(VERIF, "sim", s + ".cc") for s in SIM_SRC]
        files = tree(os.path.join(VERIF, "sim"), os.path.join(VERIF, "shim"), exts=(".cc", ".h"))

        def go(tmp, out):
            jobs, objs = [], []
            for s in src:
                n = os.path.basename(s)[:-3]
                o = os.path.join(tmp, n + ".o")
                extra = {"intercept": ["-fno-delete-null-pointer-checks"], "tsan_rt": ["-fno-builtin-malloc"]}.get(n, [])
                jobs.append(["g++", *SIM_FLAGS, "-I", os.path.join(VERIF, "shim"), *extra, "-c", s, "-o", o])
                objs.append(o)
            self.objects(jobs)
            sh(["g++", "-rdynamic", "-o", out, *objs, "-ldl", "-lpthread"])
        return self.make("sim", files, " ".join(SIM_FLAGS), go)

    def tidy(self):
        src = os.path.join(REPO, "scripts/run-clang-tidy-cached.cc")

        def go(tmp, out):
            o = os.path.join(tmp, "tidy.o")
            sh(["g++", "-std=c++17", *CUT_FLAGS, "-c", src, "-o", o])
            sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", out, o])
        return self.make("tidy.so", [src], " ".join(CUT_FLAGS), go)

    def bant(self):
        root = os.path.join(REPO, "bant")
        files = tree(root, os.path.join(VERIF, "shim"), exts=(".cc", ".h", ".inc", ".hpp"))
        src = [f for f in tree(root, exts=(".cc",)) if not f.endswith("_test.cc") and "testutil" not in f]

        def go(tmp, out):
            os.makedirs(os.path.join(tmp, "gen/bant"))
            with open(os.path.join(tmp, "gen/bant/generated-build-version.h"), "w") as f:
                f.write('#define BANT_BUILD_VERSION "sim"\n')
            jobs, objs = [], []
            for s in sorted(src, key=os.path.getsize, reverse=True):
                o = os.path.join(tmp, os.path.relpath(s, root).replace("/", "__")[:-3] + ".o")
                jobs.append(["g++", "-std=c++23", "-fno-exceptions", "-fno-rtti", *CUT_FLAGS, "-I", os.path.join(VERIF, "shim"),
                             "-I", REPO, "-I", os.path.join(tmp, "gen"), "-c", s, "-o", o])
                objs.append(o)
            self.objects(jobs)
            sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", out, *sorted(objs)])
        return self.make("bant.so", files, " ".join(CUT_FLAGS), go)


def build(want):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(WORKERS) as pool, cf.ThreadPoolExecutor(3) as top:
            b = Build(pool)
            futs = {"sim": top.submit(b.sim)}
            for w in want:
                futs[w] = top.submit(getattr(b, w))
            return {k: f.result() for k, f in futs.items()}


def unesc(s):
    return s.replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")


def load_known():
    """Lines "finding: {json with property, class, match, text}"; "fixed:" lines suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return []
    return [json.loads(l[len("finding:"):]) for l in open(p) if l.startswith("finding:")]


def replay_args(arte, scratch):
    a = ["--scratch", scratch]
    for k in ("tidy", "bant"):
        if k in arte:
            a += ["--" + k, arte[k]]
    return a


def run_property(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    arte = build([spec["code"]])
    budget = float(os.environ.get("VERIF_BUDGET_S") or spec.get(tier) or {"quick": 60, "thorough": 600}[tier])
    scratch = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return explore(prop, tier, seed, spec, arte, budget, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, seed, spec, arte, budget, scratch, t0):
    sim = arte["sim"]
    procs = []
    t_search = time.time()
    for k in range(WORKERS):
        d = os.path.join(scratch, "w%d" % k)
        os.makedirs(d)
        out = open(os.path.join(d, "log"), "w")
        cmd = [sim, "batch", "--prop", prop, "--seed", str(seed), "--first", str(k), "--stride", str(WORKERS), "--cpu", str(k),
               "--time", str(int(budget)), "--determinism", "40" if tier == "quick" else "100",
               "--thorough", "1" if tier == "thorough" else "0", "--out", d, *replay_args(arte, d)]
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, text=True, errors="replace"), os.path.join(d, "log")))
    # Once something is found there is no need to search to the end.
    first_hit = None
    hard = time.time() + budget + 200
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.2)
        if first_hit is None:
            for _, log in procs:
                with open(log, errors="replace") as f:
                    if "VIOL\t" in f.read(1 << 16):
                        first_hit = time.time()
                        break
        now = time.time()
        if (first_hit and now > first_hit + 8) or now > hard:
            for p, _ in procs:
                if p.poll() is None:
                    p.terminate()
            break
    t_search = time.time() - t_search
    tot, faults, probes, samples, states, scheds = {}, {}, {}, [], set(), set()
    viol, errors, nondet = {}, [], []
    for p, log in procs:
        err = p.communicate()[1]
        done = False
        for line in open(log, errors="replace"):
            if not line.endswith("\n"):
                continue
            f = line.rstrip("\n").split("\t")
            if f[0] == "STAT":
                tot[f[1]] = tot.get(f[1], 0) + int(f[2])
            elif f[0] == "FAULT":
                faults[f[1]] = faults.get(f[1], 0) + int(f[2])
            elif f[0] == "PROBE":
                probes[f[1]] = probes.get(f[1], 0) + int(f[2])
            elif f[0] == "SAMPLE":
                samples.append(f[1])
            elif f[0] == "ST":
                states.add(f[1])
            elif f[0] == "SC":
                scheds.add(f[1])
            elif f[0] == "VIOL" and len(f) >= 5:
                viol.setdefault(f[2], []).append((f[3], unesc(f[4])))
            elif f[0] == "ERROR":
                errors.append(f[1])
            elif f[0] == "NONDET":
                nondet.append(f[1])
            elif f[0] == "DONE":
                done = True
        if not done and first_hit is None and not errors:
            errors.append("worker ended early (%s): %s" % (p.returncode, err[-500:]))
    # A trace that differs when repeated is a defect of the simulator (or code
    # which depends on what it never initialised): reported in the evidence, and
    # more than a stray one means the search cannot be trusted.
    if len(nondet) > 2 + tot.get("determinism_reruns", 0) // 100 and not viol:
        raise Failure("nondeterminism: " + "; ".join(nondet[:3]))
    if errors and not viol:
        raise Failure("; ".join(errors[:3]))
    if not viol and tot.get("runs", 0) < 10:
        raise Failure("hardly anything was explored: %s runs" % tot.get("runs"))

    reported = []
    rdir = os.path.join(VERIF, "replays")
    known = [k for k in load_known() if k["property"] == prop]
    if viol:
        os.makedirs(rdir, exist_ok=True)

        def reduce(item):
            i, (cls, hits) = item
            raws = sorted(hits, key=lambda x: os.path.getsize(x[0]))
            for raw, detail in raws[:3]:
                dst = os.path.join(scratch, "min-%s.txt" % re.sub(r"\W+", "_", cls))
                d = os.path.join(scratch, "m%d" % i)
                os.makedirs(d, exist_ok=True)
                subprocess.run([sim, "minimise", raw, dst, "--time", "60", "--cpu", str(i), *replay_args(arte, d)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for cand in (dst, raw):  # gate: reproduces exactly in a fresh process
                    if not os.path.exists(cand):
                        continue
                    r = subprocess.run([sim, "replay", cand, "--cpu", str(i), *replay_args(arte, d)], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, text=True, errors="replace")
                    if r.returncode == 1 and "REPRODUCED" in r.stdout:
                        body = open(cand, "rb").read()
                        fin = os.path.join(rdir, "%s-%s-%s.txt" % (prop, re.sub(r"\W+", "_", cls), hashlib.sha256(body).hexdigest()[:10]))
                        with open(fin, "wb") as f:
                            f.write(body)
                        m = re.search(r"^detail\t(.*)$", body.decode(errors="replace"), re.M)
                        return cls, fin, unesc(m.group(1)) if m else detail, "exactly" in r.stdout
            return cls, None, raws[0][1], False
        items = sorted(viol.items(), key=lambda kv: -len(kv[1]))[:6]
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            for cls, path, detail, exact in ex.map(reduce, enumerate(items)):
                if path is None:
                    errors.append("violation %s did not reproduce from its replay file: %s" % (cls, detail))
                    continue
                k = next((k for k in known if k["class"] == cls and re.search(k["match"], detail, re.S)), None)
                if k is None:
                    reported.append((cls, path, detail, exact))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for cls, path, detail, exact in reported:
        print("%s: %s%s" % (cls, detail[:1500], "" if exact else " (replay reproduces the violation, the trace differs)"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if errors and not reported:
        raise Failure("; ".join(errors[:3]))

    wall = time.time() - t0
    runs = tot.get("runs", 0)
    hour = 3600.0 / max(t_search, 0.001)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(states),
            "rule": spec["rule"],
            "samples": samples[:6] or ["none"],
            "simulated_runs_per_hour": int(runs * hour), "seeds_per_hour": int(runs * hour),
            "simulated_seconds": round(tot.get("simtime_ns", 0) / 1e9, 1),
            "nontrivial_runs": tot.get("nontrivial", 0),
            "distinct_schedules": len(scheds),
            "schedule_measure": "hash over every context switch (thread, local step, next thread)",
            "distinct_state_measure": "hash of the generated case combined with the schedule hash, non-trivial runs only",
            "scheduler_steps": tot.get("steps", 0), "context_switches": tot.get("switches", 0),
            "instrumented_memory_accesses": tot.get("mem", 0), "system_call_events": tot.get("events", 0),
            "determinism_reruns": tot.get("determinism_reruns", 0),
            "determinism_reruns_identical": tot.get("determinism_reruns", 0) - len(nondet),
            "faults_injected": faults, "reached": probes,
            "real_code": spec["real"], "stubs": spec["stubs"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs, %d distinct non-trivial, %d schedules, %.0f s simulated, %d fault injections, %d violations, %.1f s" % (
        prop, runs, len(states), len(scheds), tot.get("simtime_ns", 0) / 1e9, sum(faults.values()), len(reported), wall))
    return 1 if reported else 0


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["setup"]:
            print(build(["tidy", "bant"]))
            return 0
        if args[:1] == ["replay"]:
            prop = re.search(r"^prop\t(\S+)", open(args[1], errors="replace").read(), re.M).group(1)
            arte = build([PROPS[prop]["code"]])
            d = tempfile.mkdtemp(prefix="run-", dir=BUILD)
            try:
                r = subprocess.run([arte["sim"], "replay", args[1], "--trace", "1" if "--trace" in args else "0", *replay_args(arte, d)])
                return r.returncode
            finally:
                shutil.rmtree(d, ignore_errors=True)
        prop = args[0]
        tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return run_property(prop, tier, seed)
    except Failure as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
