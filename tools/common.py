"""Building, evidence and small helpers shared by check.py and its special checks."""
import hashlib, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(HERE, "target")
NPROC = min(8, os.cpu_count() or 1)
HARNESS = os.path.join(HERE, "harness")


class BuildError(Exception):
    pass


def cargo_env(extra=None):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    env["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/usr/local/cargo/bin:" + env.get("PATH", "")
    env.update(extra or {})
    return env


def repo_hash():
    """Hash of the sources of the crates under test (cargo itself only looks at modification times)."""
    h = hashlib.sha256()
    for root in ("src", "shard_ecs_derive/src"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    for f in ("Cargo.toml", "shard_ecs_derive/Cargo.toml"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def target_dir(profile):
    return os.path.join(WORK, "b-" + profile)


def binary(profile):
    if profile == "asan":
        return os.path.join(target_dir(profile), "x86_64-unknown-linux-gnu", "san", "harness")
    return os.path.join(target_dir(profile), profile, "harness")


def fresh(tdir, clean_cmd, env):
    """Makes cargo rebuild the crate under test if its content is not what was last built here."""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "repo.stamp")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have is not None and have != want:
        subprocess.run(clean_cmd, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return stamp, want


def build_one(profile):
    tdir = target_dir(profile)
    if profile == "asan":
        env = cargo_env({"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"})
        cmd = ["cargo", "+nightly", "build", "--offline", "--profile", "san", "--features", "asan",
               "--target", "x86_64-unknown-linux-gnu", "--target-dir", tdir]
        clean = ["cargo", "+nightly", "clean", "--offline", "-p", "shard-ecs", "--profile", "san",
                 "--target", "x86_64-unknown-linux-gnu", "--target-dir", tdir]
    else:
        env = cargo_env()
        prof = ["--release"] if profile == "release" else ["--profile", profile]
        cmd = ["cargo", "build", "--offline", *prof, "--target-dir", tdir]
        clean = ["cargo", "clean", "--offline", "-p", "shard-ecs", *prof, "--target-dir", tdir]
    stamp, want = fresh(tdir, clean, env)
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)


def build(profiles):
    errs = []

    def one(p):
        try:
            build_one(p)
        except BuildError as e:
            errs.append(e)

    ts = [threading.Thread(target=one, args=(p,)) for p in profiles]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


def parallel(f, items, n=NPROC):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(f, items))


def replay_file(path, profile, timeout=600):
    try:
        r = subprocess.run([binary(profile), "replay", "--file", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 2, "timed out"
    return r.returncode, r.stdout.strip()[-2000:]


class Evidence:
    def __init__(self, prop, tier, seed, t0):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, t0
        self.evaluations = 0
        self.hashes = set()
        self.labels, self.cases_with = {}, {}
        self.samples, self.rules = [], []
        self.per = {}
        self.violations, self.inconclusive = [], []
        self.extra = {}

    def violation(self, replay, text):
        self.violations.append((replay, text))

    def save_replay(self, obj):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps(obj, indent=1)
        name = f"{self.prop}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json"
        p = os.path.join(d, name)
        with open(p, "w") as f:
            f.write(body + "\n")
        return p

    def add_report(self, r, leg=None):
        self.evaluations += r["evaluations"]
        for h in r["nontrivial_hashes"]:
            self.hashes.add((r["suite"], h))
        for k, v in r["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in r["cases_with"].items():
            self.cases_with[k] = self.cases_with.get(k, 0) + v
        if r["rule"] and r["rule"] not in self.rules:
            self.rules.append(r["rule"])
        for s in r["samples"]:
            if len(self.samples) < 4:
                self.samples.append(s)
        key = leg or f"{r['suite']}/{r['profile']}"
        d = self.per.setdefault(key, {"evaluations": 0, "workers": 0})
        d["evaluations"] += r["evaluations"]
        d["workers"] += 1
        if r.get("failure"):
            f = r["failure"]
            self.violation(self.save_replay(f), f["error"])
        if r.get("inconclusive"):
            self.inconclusive.append(r["inconclusive"])

    def finish(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.hashes),
            "rule": " | ".join(self.rules),
            "samples": self.samples,
            "legs": self.per,
            "events": dict(sorted(self.labels.items())),
            "cases_with_event": dict(sorted(self.cases_with.items())),
        }
        cov.update(self.extra)
        obj = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:5]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(obj, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} evaluations, "
              f"{len(self.hashes)} distinct non-trivial, {obj['wall_s']} s")
        if self.violations:
            for replay, text in self.violations[:5]:
                print(f"  {text}")
                print(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        if self.inconclusive:
            for t in self.inconclusive[:5]:
                print(f"INCONCLUSIVE: {t}")
            return 2
        return 0


ASSUMPTIONS = [
    "rustc, the standard library and proptest are trusted; 64-bit little-endian Linux",
    "documented preconditions hold: component size and alignment at most 65,535, distinct names/ids for distinct types, allocation succeeds, at most one destructor panics at a time",
]
