"""Runs drawn cases under an instrumented build (Miri, AddressSanitizer): a report of undefined behaviour
is the verdict, besides the comparison with the model that the suites make anyway."""
import json, os, re, subprocess, time
from common import WORK, HARNESS, NPROC, cargo_env, binary, build, fresh, parallel, BuildError

MIRI_DIR = os.path.join(WORK, "b-miri")
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"


def miri_env(flags=""):
    return cargo_env({"MIRIFLAGS": f"{MIRI_FLAGS} {flags}".strip()})


def build_miri():
    """Checks the harness for Miri once, so that later runs only interpret."""
    env = miri_env()
    # cargo keeps Miri's build below <target-dir>/miri; removing the library's part makes it look again
    stamp, want = fresh(MIRI_DIR, ["sh", "-c", "rm -rf " + os.path.join(MIRI_DIR, "miri", "x86_64-unknown-linux-gnu", "debug", ".fingerprint") + "/shard-ecs-*"], env)
    r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", MIRI_DIR, "--", "list"],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "C23" not in r.stdout:
        raise BuildError("under Miri: " + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(want)


def draw(suite, n, seed, shard=0, tier="quick"):
    r = subprocess.run([binary("release"), "draw", "--suite", suite, "--cases", str(n), "--seed", str(seed),
                        "--shard", str(shard), "--tier", tier], stdout=subprocess.PIPE, text=True)
    return json.loads(r.stdout)


def execute(tool, suite, cases, seconds, tag, flags=""):
    """-> (report or None, index of the failing case or None, error text or None, cases begun)"""
    d = os.path.join(WORK, "out", "interp")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{tag}.json")
    with open(path, "w") as f:
        json.dump(cases, f)
    args = ["direct", "--suite", suite, "--file", path, "--deadline", str(int(seconds))]
    if tool == "miri":
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", MIRI_DIR, "--"] + args
        env = miri_env(flags)
    else:
        cmd = [binary("asan")] + args
        env = cargo_env({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0"})
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=seconds + (25 if tool == "miri" else 150))
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err = [(x or b"").decode(errors="replace") if not isinstance(x, str) else x for x in (e.stdout, e.stderr)]
        rc = "timeout"
    marks = re.findall(r"^@case (\d+)$", err, re.M)
    begun = len(marks)
    last = int(marks[-1]) if marks else 0
    rep = None
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                rep = json.loads(line)
            except ValueError:
                pass
    if rep is not None and rep.get("failure"):
        return rep, last, f"[{tool}] " + rep["failure"]["error"], begun
    m = re.search(r"^error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*|deadlock.*|.*overflowed.*|resource exhaustion.*|unsupported operation.*)$", err, re.M)
    if m:
        text = m.group(1)
        if text.startswith("unsupported operation") or text.startswith("resource exhaustion"):
            return rep, None, "?" + text, begun
        where = re.findall(r"^\s+--> (/repo/\S+)", err, re.M) or re.findall(r"at (/repo/\S+?): ", err)
        return rep, last, f"[{tool}] {text}" + (f" at {where[0]}" if where else ""), begun
    if tool == "asan" and "AddressSanitizer" in err:
        m = re.search(r"AddressSanitizer: (.*)", err)
        where = re.findall(r"(/repo/src/\S+)", err)
        return rep, last, f"[asan] {m.group(1)[:300]}" + (f" at {where[0]}" if where else ""), begun
    if rc == "timeout" and tool == "miri":
        # interpretation is slow; whether calls end at all is decided natively
        return rep, None, None, begun
    if rc == 0 and rep is not None:
        return rep, None, None, begun
    if tool == "asan" and isinstance(rc, int) and rc < 0:
        return rep, last, f"[asan] ended by signal {-rc}", begun
    return rep, None, f"?{tool} run of {suite} ended with {rc}: {err[-400:]}", begun


def shrink(tool, suite, case, seconds, flags=""):
    """Removes parts of the case while the tool still reports an error; several candidates at a time."""
    t_end = time.time() + seconds
    best, text = case, None

    def lists(c, path=()):
        found = []
        if isinstance(c, dict):
            for k, v in c.items():
                found += lists(v, path + (k,))
        elif isinstance(c, list):
            if len(c) > 0 and path and path[-1] in ("ops", "readers", "hops"):
                found.append(path)
            if path and path[-1] == "readers":
                for i, v in enumerate(c):
                    if isinstance(v, list) and len(v) > 1:
                        found.append(path + (i,))
        return found

    def without(c, path, a, b):
        c = json.loads(json.dumps(c))
        x = c
        for p in path[:-1]:
            x = x[p]
        l = x[path[-1]]
        x[path[-1]] = l[:a] + l[b:]
        return c

    def length(c, path):
        for p in path:
            c = c[p]
        return len(c)

    def fails(ix_c):
        ix, c = ix_c
        if time.time() > t_end:
            return None
        _, i, err, _ = execute(tool, suite, [c], 60, f"shrink-{suite}-{ix}", flags)
        return err if err and i is not None else None

    progress = True
    while progress and time.time() < t_end:
        progress = False
        for path in lists(best):
            n = length(best, path)
            size = max(1, n // 2)
            while size >= 1 and time.time() < t_end:
                cand = [without(best, path, a, min(n, a + size)) for a in range(0, n, size)]
                res = parallel(fails, list(enumerate(cand)))
                hit = [(c, e) for c, e in zip(cand, res) if e]
                if hit:
                    best, text = min(hit, key=lambda h: len(json.dumps(h[0])))
                    progress = True
                    n = length(best, path)
                    size = min(size, max(1, n))
                    if n == 0:
                        break
                elif size == 1:
                    break
                else:
                    size //= 2
    return best, text


def leg(tool, suite, n, seed, seconds, ev, flags=lambda shard: "", shrink_s=150, keep=None, tier="quick"):
    """Draws n cases, runs them over all cores, adds to the evidence; stops at the first report."""
    cases = draw(suite, n if keep is None else n * 4, seed, 7, tier)
    if keep is not None:
        cases = sorted(cases, key=lambda c: len(json.dumps(c)))
        a = int(len(cases) * keep[0])
        b = int(len(cases) * keep[1])
        step = max(1, (b - a) // n)
        cases = cases[a:b:step][:n]
    parts = [cases[i::NPROC] for i in range(NPROC)]
    t0 = time.time()

    def one(i):
        return execute(tool, suite, parts[i], seconds, f"{tool}-{suite}-{i}", flags(i)) if parts[i] else (None, None, None, 0)

    res = parallel(one, range(NPROC))
    wall = round(time.time() - t0, 1)
    info = ev.extra.setdefault(f"{tool} legs", {}).setdefault(suite, {"cases": 0, "wall_s": 0})
    for i, (rep, bad, err, begun) in enumerate(res):
        if rep:
            rep = dict(rep)
            rep["failure"] = None
            rep["samples"] = []
            rep.setdefault("inconclusive", None)
            ev.add_report(rep, f"{suite}/{tool}")
            info["cases"] += rep["evaluations"]
        elif begun:
            ev.evaluations += begun
            info["cases"] += begun
    info["wall_s"] = round(info["wall_s"] + wall, 1)
    if len(ev.samples) < 5 and cases:
        ev.samples.append({"tool": tool, "suite": suite, "case": cases[len(cases) // 2]})
    for i, (rep, bad, err, begun) in enumerate(res):
        if err and bad is not None:
            case = parts[i][bad]
            small, text = shrink(tool, suite, case, shrink_s, flags(i))
            obj = {"kind": "interp", "property": ev.prop, "tool": tool, "suite": suite, "flags": flags(i),
                   "case": small, "error": text or err}
            ev.violation(ev.save_replay(obj), text or err)
            return False
    for rep, bad, err, begun in res:
        if err and bad is None:
            ev.inconclusive.append(err[1:])
            return False
    return True


def replay(r):
    if r["tool"] == "miri":
        build_miri()
    else:
        build(["asan"])
    _, i, err, _ = execute(r["tool"], r["suite"], [r["case"]], 600, "replay", r.get("flags", ""))
    if err and i is not None:
        print(f"FAIL {r['suite']}: {err}")
        return 1
    if err:
        print(f"INCONCLUSIVE {err[1:]}")
        return 2
    print(f"PASS {r['suite']}")
    return 0
