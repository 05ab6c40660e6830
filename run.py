#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's current
working tree, explores it, writes evidence/<id>.json and reports.

usage: run.py ID [--tier quick|thorough]   check a property
       run.py --replay FILE                re-run a recorded violation
       run.py --all [--tier T] [IDs...]    check all properties (development)
exit: 0 held on everything explored, 1 violation, other: error of the check
"""
import importlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NYTL_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

WARN = ["-w"]
# g++ 13.3 drops live stores in front of a rethrow in tree-dse (see DESIGN.md).
COMMON = ["-std=c++17", "-g1", "-fno-tree-dse", "-D_GLIBCXX_ASSERTIONS",
          "-ftrivial-auto-var-init=pattern", "-I" + REPO, "-I" + os.path.join(ROOT, "harness")]
MODES = {
    # sanitizers on: every memory error or UB in an explored execution is a violation
    "san": ["-DMC_SAN", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,vptr",
            "-fno-sanitize-recover=all"],
    "fast": ["-O2"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=67",
}


def workdir():
    base = os.path.join(ROOT, "build")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=base)


def compile_cmd(src, exe, mode, extra=()):
    return ["g++"] + COMMON + MODES[mode] + WARN + list(extra) + [src, "-o", exe]


def build(check, mode, wd, log, part=0):
    src = os.path.join(ROOT, "harness", check["src"])
    exe = os.path.join(wd, "h-%s-%d" % (mode, part))
    flags = check.get("flags", []) + (["-DMC_PART=%d" % part] if part else [])
    r = subprocess.run(compile_cmd(src, exe, mode, flags),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.write(r.stdout)
    if r.returncode == 0:
        return exe, None
    # Only the headers: if these are fine, the documented use of the interface
    # (which is all that the harness contains) does not compile any more.
    probe = os.path.join(wd, "probe-%s-%d.cpp" % (mode, part))
    with open(probe, "w") as f:
        for h in check["headers"]:
            f.write("#include <nytl/%s>\n" % h)
        f.write("int main() {}\n")
    p = subprocess.run(compile_cmd(probe, os.path.join(wd, "probe-%s-%d" % (mode, part)), mode),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0 and "error:" in r.stdout and "/nytl/" in r.stdout:
        return None, r.stdout
    sys.stderr.write(r.stdout[:6000])
    return None, None


def save_replay(pid, data):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: "):])
    return out


def run_check(pid, tier):
    check = CHECKS[pid]
    t0 = time.time()
    wd = workdir()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    results, violation, replay = [], None, None
    try:
        if "module" in check:
            results, violation = importlib.import_module(check["module"]).run(tier, REPO, wd)
            if violation:
                replay = {"property": pid, "kind": "module", **violation}
        else:
            with open(os.path.join(wd, "build.log"), "w") as log:
                # harnesses that take long to compile are built in parts with some of the scenarios each
                parts = range(1, check["parts"] + 1) if "parts" in check else [0]
                modes = [(m, p) for m in check.get("modes", ["san"]) for p in parts]
                with ThreadPoolExecutor(8) as pool:
                    builds = list(pool.map(lambda m: build(check, m[0], wd, log, m[1]), modes))
                for (mode, part), (exe, err) in zip(modes, builds):
                    if exe is None and err is None:
                        sys.exit(2)
                    if err is not None:
                        violation = {"message": "the documented interface does not compile", "log": err[:8000]}
                        replay = {"property": pid, "kind": "compile", "source": check["src"],
                                  "mode": mode, "part": part, **violation}
                        break
                    out = os.path.join(wd, "result.json")
                    env = dict(os.environ, **ENV)
                    limit = check.get("time", 700 if tier == "quick" else 6 * 3600)
                    r = subprocess.run([exe, "--tier", tier, "--out", out, "--dir", wd, "--seed", str(seed),
                                        "--workers", str(check.get("workers", 8)), "--time", str(limit)],
                                       env=env, cwd=wd)
                    if r.returncode not in (0, 1):
                        sys.stderr.write("check %s: explorer failed with %d\n" % (pid, r.returncode))
                        sys.exit(3)
                    res = json.load(open(out))
                    for s in res["scenarios"]:
                        s["build"] = mode
                    results += res["scenarios"]
                    if "violation" in res:
                        violation = res["violation"]
                        replay = {"property": pid, "kind": "choices", "source": check["src"], "mode": mode, "part": part,
                                  **violation}
                        break
    finally:
        shutil.rmtree(wd, ignore_errors=True)

    path = save_replay(pid, replay) if violation else None
    write_evidence(pid, tier, seed, check, results, violation, time.time() - t0)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    for s in results:
        print("  %s: %d executions, %d steps, %d states, %d outcomes, %s, %.1fs" % (
            s["name"], s["executions"], s["steps"] + s["evaluations"], s["states"], s["outcomes"],
            "complete" if s["exhaustive"] else "INCOMPLETE", s["wall_s"]))
    if violation:
        print("  " + violation["message"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held (%s, %.1fs)" % (pid, tier, time.time() - t0))
    return 0


def write_evidence(pid, tier, seed, check, results, violation, wall):
    execs = sum(s["executions"] for s in results)
    evals = sum(s["evaluations"] for s in results)
    steps = sum(s["steps"] for s in results)
    states = sum(s["states"] for s in results)
    outcomes = sum(s["outcomes"] for s in results)
    samples = []
    for s in results:
        for x in s["samples"][:2]:
            samples.append({"scenario": s["name"], **x})
    if violation:
        samples.append({"violation": violation.get("message", "")})
    if not samples:
        samples = ["none"]
    if check["level"] == "model_checking":
        cov = {"states": states, "transitions": steps, "traces_validated_against_impl": execs,
               "distinct_outcomes": outcomes}
    else:
        cov = {"evaluations": execs + evals, "distinct_nontrivial": outcomes}
    cov.update({
        "rule": "one execution of the real code per sequence of choices, all sequences within the "
                "bounds of each scenario are enumerated. states: distinct (hashed) states of the "
                "reference model; transitions: operations of the real code whose observable effects "
                "were compared with the reference model; traces_validated_against_impl: complete "
                "executions; evaluations: executions plus the inputs enumerated inside of them; "
                "distinct_outcomes / distinct_nontrivial: distinct (hashed) observed outcomes",
        "exhaustive": bool(results) and all(s["exhaustive"] for s in results) and not violation,
        "samples": samples[:12],
        "scenarios": [{k: s[k] for k in ("name", "bounds", "build", "executions", "steps", "evaluations",
                                         "states", "states_dropped", "outcomes", "max_choices",
                                         "exhaustive", "wall_s")} for s in results],
    })
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check["level"], "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(wall, 3),
          "violations": 1 if violation else 0}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    check = CHECKS[d["property"]]
    wd = workdir()
    try:
        if d["kind"] == "module":
            code, out, values = importlib.import_module(check["module"]).Run(REPO, wd).compile(d["texts"], d["link"])
            print(out, values)
            return 1 if (code == 0) != d.get("accept", True) else 0
        with open(os.path.join(wd, "build.log"), "w") as log:
            exe, err = build(check, d["mode"], wd, log, d.get("part", 0))
        if exe is None:
            print(err)
            return 1 if err is not None else 2
        if d["kind"] == "compile":
            print("compiles")
            return 0
        f = os.path.join(wd, "choices")
        with open(f, "w") as o:
            o.write("%s %d %d\n" % (d["scenario"], d.get("thorough", 0), len(d["choices"])))
            for c, a in zip(d["choices"], d["arities"]):
                o.write("%d %d\n" % (c, a))
        return subprocess.run([exe, "--replay", f, "--dir", wd], env=dict(os.environ, **ENV), cwd=wd).returncode
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    i = 0
    every = False
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--replay":
            return replay(argv[i + 1])
        elif argv[i] == "--all":
            every = True
        else:
            ids.append(argv[i])
        i += 1
    if every:
        bad = [p for p in (ids or sorted(CHECKS)) if run_check(p, tier) != 0]
        print("violated:", bad)
        return 1 if bad else 0
    if len(ids) != 1 or ids[0] not in CHECKS:
        sys.stderr.write(__doc__)
        return 2
    sys.stdout.flush()
    return run_check(ids[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
