#!/usr/bin/env python3
"""Runs the check of one property.

usage: check.py ID                     run the check (VERIF_TIER, VERIF_SEED from the environment)
       check.py ID --replay FILE       replay one recorded violation, verbosely
       check.py --build [ID ...]       only build (setup)
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "bin"))
from specs import SPECS  # noqa: E402

NPROC = os.cpu_count() or 4


def am_sources(lib):
    """The sources of a library, as its Makefile.am lists them."""
    txt = open(os.path.join(SRC, "Makefile.am")).read()
    txt = re.sub(r"\\\n", " ", txt)
    m = re.search(r"^lib%s_la_SOURCES\s*=\s*(.*)$" % lib, txt, re.M)
    if not m:
        raise SystemExit("no sources for lib%s in Makefile.am" % lib)
    return [w for w in m.group(1).split() if w.endswith(".c")]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout


def build(pid, prog):
    """Compile /repo's current sources and one harness; returns the program."""
    out = os.path.join(BUILD, pid + "-" + prog["name"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    san = prog.get("san", "")
    cf = ["-g", "-O2", "-w", "-std=gnu11", "-ffp-contract=off"] + prog.get("cflags", [])
    sanf = []
    if "a" in san:
        sanf.append("-fsanitize=address")
    if "u" in san:
        sanf += ["-fsanitize=undefined", "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=float-divide-by-zero,float-cast-overflow"]
    if sanf:
        sanf.append("-fno-omit-frame-pointer")
    jobs = []
    for lib in prog["libs"]:
        for s in am_sources(lib):
            jobs.append((os.path.join(SRC, s), os.path.join(out, lib + "-" + s[:-2] + ".o"), sanf))
    h = os.path.join(ROOT, "harness", prog["src"])
    jobs.append((h, os.path.join(out, "harness.o"), sanf))
    jobs.append((os.path.join(ROOT, "mc", "mc.c"), os.path.join(out, "mc.o"), []))
    for s in prog.get("extra", []):
        jobs.append((os.path.join(ROOT, s), os.path.join(out, "x-" + os.path.basename(s)[:-2] + ".o"), sanf))

    def cc(j):
        sh(["gcc"] + cf + j[2] + ["-I", SRC, "-I", os.path.join(ROOT, "mc"), "-I", os.path.join(ROOT, "harness"),
            "-I", os.path.join(ROOT, "ref"), "-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(cc, jobs))
    exe = os.path.join(out, "prog")
    sh(["gcc", "-g"] + sanf + [j[1] for j in jobs] + prog.get("ldflags", []) + ["-o", exe, "-lm"])
    for j in jobs:
        os.unlink(j[1])
    return exe


def run_env(prog):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:detect_stack_use_after_return=0:" + prog.get("asan", "")
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("exitcode=1", "exitcode=99")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env["LC_ALL"] = "C"
    env.setdefault("VERIF_TIER", "quick")
    return env


def load_known(pid):
    try:
        k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [e for e in k.get("findings", []) if e.get("property") == pid and e.get("status") == "known"]


def match_known(v, known):
    for e in known:
        m = e["match"]
        if all(str(v.get(k)) == str(m[k]) for k in m):
            return e
    return None


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        ids = args[1:] or sorted(SPECS)
        for pid in ids:
            for prog in SPECS[pid]["programs"]:
                build(pid, prog)
                print("built", pid, prog["name"])
        return 0
    pid = args[0]
    spec = SPECS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    if len(args) > 2 and args[1] == "--replay":
        r = json.load(open(args[2]))
        prog = [p for p in spec["programs"] if p["name"] == r["program"]][0]
        exe = build(pid, prog)
        env = run_env(prog)
        env["VERIF_TIER"] = r.get("tier", "quick")
        cmd = [exe, "--suite", r["suite"], "--cfg", str(r["cfg"]), "--cfg0", str(r["cfg0"]),
               "--path", r["path"], "--level", str(r.get("level", 0))]
        print("+", " ".join(cmd))
        print("recorded:", r["msg"])
        return subprocess.call(cmd, env=env)

    t0 = time.time()
    known = load_known(pid)
    reps, viols, knowns = [], [], []
    rdir = os.path.join(ROOT, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    broken = None
    progs = spec["programs"]
    with ThreadPoolExecutor(len(progs)) as ex:
        exes = list(ex.map(lambda p: build(pid, p), progs))
    for prog, exe in zip(progs, exes):
        out = os.path.join(os.path.dirname(exe), "report.json")
        err = os.path.join(os.path.dirname(exe), "stderr.txt")
        cmd = [exe, "--out", out, "--err", err, "--workers", str(min(NPROC, 16))]
        if tier == "quick":
            cmd += ["--maxwall", str(max(60, int(700 - (time.time() - t0))))]
        elif "VERIF_MAXWALL" in os.environ:
            cmd += ["--maxwall", os.environ["VERIF_MAXWALL"]]
        env = run_env(prog)
        env["MC_KNOWN"] = "".join("%s\t%s\n" % (e["match"].get("suite"), e["match"].get("key")) for e in known)
        r = subprocess.run(cmd, env=env)
        if r.returncode != 0 or not os.path.exists(out):
            broken = "harness %s ended with status %d" % (prog["name"], r.returncode)
            break
        rep = json.load(open(out))
        rep["program"] = prog["name"]
        reps.append(rep)
        if rep["bug"]:
            broken = rep["bug"]
        for i, v in enumerate(rep["violations"]):
            v["program"] = prog["name"]
            v["tier"] = tier
            v["property"] = pid
            e = match_known(v, known)
            if e:
                knowns.append((e, v))
                continue
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d.json" % (prog["name"], i))
            v["replay_with"] = "python3 bin/check.py %s --replay %s" % (pid, os.path.relpath(p, ROOT))
            json.dump(v, open(p, "w"), indent=1)
            viols.append((p, v))
        if viols:
            break

    cov = {k: sum(r[k] for r in reps) for k in ("executions", "transitions", "evaluations", "traces", "states")} if reps else {}
    suites = [dict(s, program=r["program"]) for r in reps for s in r["suites"]]
    outcomes = {}
    for r in reps:
        for k, n in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + n
    samples = [s for r in reps for s in r["samples"]]
    exhaustive = bool(reps) and not any(r["capped"] for r in reps) and not viols and not broken \
        and all(s["completed"] == s["configurations"] for s in suites)
    coverage = {"executions": cov.get("executions", 0), "distinct_outcomes": len(outcomes),
                "outcomes": dict(sorted(outcomes.items(), key=lambda t: -t[1])[:60]),
                "suites": suites, "exhaustive": exhaustive, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                "samples": samples[:12]}
    if spec["level"] == "model_checking":
        coverage.update(states=cov.get("states", 0), transitions=cov.get("transitions", 0),
                        traces_validated_against_impl=cov.get("traces", 0))
    else:
        coverage.update(evaluations=cov.get("evaluations", 0) or cov.get("executions", 0),
                        distinct_nontrivial=cov.get("states", 0), rule=spec["rule"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 3),
          "violations": len(viols), "known_findings": sorted({e["id"] for e, _ in knowns})}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))

    for e in sorted({e["id"]: e for e, _ in knowns}.values(), key=lambda e: e["id"]):
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    if viols:
        for p, v in viols:
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("   %s cfg=%d path=[%s] %s: %s" % (v["suite"], v["cfg"], v["path"], v["key"], v["msg"]))
        return 1
    if broken:
        print("error of the check: %s" % broken)
        return 2
    print("%s %s: held on %d executions, %d states, %d transitions, %d outcomes (%s, %.1f s)" % (
        pid, tier, coverage["executions"], cov.get("states", 0), cov.get("transitions", 0), len(outcomes),
        "exhaustive within bounds" if exhaustive else "CAPPED", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
