#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property on /repo's current working tree
   check.py --replay <file>                re-run a replay file

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
"""
import hashlib, json, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402
import special  # noqa: E402
from common import *  # noqa: E402,F403


def run_workers(prop, jobs, seed, tier, deadline):
    """Runs harness workers, at most NPROC at a time; returns their reports."""
    outdir = os.path.join(WORK, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    reports = [None] * len(jobs)
    sem = threading.Semaphore(NPROC)
    stop = threading.Event()

    def one(i, job):
        suite, profile, shard, cases = job
        out = os.path.join(outdir, f"{suite}-{profile}-{shard}.json")
        with sem:
            if stop.is_set():
                return
            left = max(5, int(deadline - time.time()))
            cmd = [binary(profile), "worker", "--suite", suite, "--seed", str(seed),
                   "--shard", str(shard), "--cases", str(cases), "--tier", tier,
                   "--deadline", str(left), "--out", out]
            r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            try:
                with open(out) as f:
                    reports[i] = json.load(f)
            except Exception:
                reports[i] = {"inconclusive": f"worker {cmd} ended with {r.returncode}: {r.stdout[-800:]}",
                              "failure": None, "evaluations": 0, "nontrivial_hashes": [], "labels": {},
                              "cases_with": {}, "samples": [], "suite": suite, "profile": profile, "rule": ""}
            if reports[i].get("failure"):
                stop.set()

    ts = [threading.Thread(target=one, args=(i, j)) for i, j in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [r for r in reports if r]


def run_regress(prop, suites, profiles, ev):
    """Committed minimal cases that once failed, and hand-picked ones: all must pass."""
    jobs = []
    for s in suites:
        d = os.path.join(HERE, "regress", s)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".json"):
                    jobs += [(os.path.join(d, f), p) for p in profiles]
    res = parallel(lambda j: (j, replay_file(j[0], j[1])), jobs)
    for (path, profile), (rc, text) in res:
        ev.evaluations += 1
        ev.extra["regression_cases_rerun"] = ev.extra.get("regression_cases_rerun", 0) + 1
        if rc == 1:
            ev.violation(path, f"{text} [{profile}]")
        elif rc != 0:
            ev.inconclusive.append(f"regression case {path}: {text}")


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay_main(sys.argv[2]))
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = Evidence(prop, tier, seed, t0)
    p = plan.PLAN[prop]
    legs = p.get("legs", {}).get(tier, p.get("legs", {}).get("quick", []))
    profiles = sorted({l[1] for l in legs} | set(p.get("profiles", [])))
    try:
        if profiles:
            build(profiles)
    except BuildError as e:
        print(f"ERROR: the harness does not build against the current tree:\n{e}")
        sys.exit(2)
    ev.extra["build_s"] = round(time.time() - t0, 1)
    deadline = time.time() + (p.get("quick_s", 120) if tier == "quick" else p.get("thorough_s", 3600))
    suites = sorted({l[0] for l in legs})
    run_regress(prop, suites, profiles, ev)
    if not ev.violations and legs:
        jobs = []
        for suite, profile, workers, cases in legs:
            jobs += [(suite, profile, w, cases) for w in range(workers)]
        for r in run_workers(prop, jobs, seed, tier, deadline):
            ev.add_report(r)
    if not ev.violations and "special" in p:
        getattr(special, p["special"])(prop, tier, seed, ev, deadline)
    sys.exit(ev.finish())


def replay_main(path):
    with open(path) as f:
        r = json.load(f)
    if r.get("kind"):
        return special.replay(r)
    build([r["profile"]])
    rc, text = replay_file(path, r["profile"])
    print(text)
    return rc


if __name__ == "__main__":
    main()
