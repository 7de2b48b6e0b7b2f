#!/usr/bin/env python3
"""Authoring tool for /verif/seeded (not used by any check).

mkseed.py [ID...]        write the seeds described in tools/seeds/*.py
mkseed.py --verify ID... confirm in a scratch copy: builds, stable tests pass, demo 0 without and nonzero with
mkseed.py --run ID CHECK... apply to /repo, run the checks, undo
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shard-ecs = {{ path = "$repo" }}
{deps}
[profile.release]
debug-assertions = {dbg}
overflow-checks = {dbg}
TOML
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$d" || exit 99
{cmd}
'''
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(s):
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    sh(f"git clone -q {REPO} {t}/r", "/tmp")
    for f, old, new in s["edits"]:
        p = os.path.join(t, "r", f)
        src = open(p).read()
        assert src.count(old) == 1, (s["id"], f, src.count(old), old)
        open(p, "w").write(src.replace(old, new))
    r = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, text=True)
    open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    shutil.rmtree(t)
    if "files" in s:
        for n, c in s["files"].items():
            open(os.path.join(d, n), "w").write(c)
    if "demo" in s:
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip())
    cmd = s.get("cmd", "cargo run --offline --quiet --release")
    dsh = s.get("demo_sh") or DEMO_SH.format(deps=s.get("deps", ""), dbg=("true" if s.get("dbg") else "false"), cmd=cmd)
    open(os.path.join(d, "demo.sh"), "w").write(dsh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(i):
    d = os.path.join(SEEDED, i)
    t = tempfile.mkdtemp(prefix="seed-")
    ok = True
    try:
        r = os.path.join(t, "repo")
        sh(["cp", "-a", REPO, r], "/tmp")
        sh("git checkout -q -- .", r)
        a = sh(["bash", os.path.join(d, "demo.sh")], r, timeout=300)
        if a.returncode != 0:
            ok = False; print(i, "demo fails on the unchanged tree:", a.stdout[-1500:])
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], r)
        if p.returncode != 0:
            print(i, "does not apply", p.stdout); return False
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        b = sh("cargo test --workspace --no-fail-fast --offline 2>&1 && cargo check --workspace --all-targets --features derive --offline && cargo test --workspace --all-targets --no-run --offline && cargo test --offline --manifest-path shard_ecs_derive/Cargo.toml --target-dir target/derive", r, env=env)
        if b.returncode != 0:
            ok = False; print(i, "build or tests fail:", b.stdout[-2500:])
        a = sh(["bash", os.path.join(d, "demo.sh")], r, timeout=300)
        if a.returncode == 0:
            ok = False; print(i, "demo passes with the change:", a.stdout[-500:])
        print(i, "OK" if ok else "BAD", "| demo rc", a.returncode, a.stdout.strip()[-220:].replace("\n", " / "))
    finally:
        shutil.rmtree(t)
    return ok
def run(i, checks, tier="quick"):
    d = os.path.join(SEEDED, i)
    assert sh("git status --porcelain", REPO).stdout.strip() == "", "repo not clean"
    assert sh(["git", "apply", os.path.join(d, "patch.diff")], REPO).returncode == 0
    try:
        for c in checks:
            r = sh([sys.executable, os.path.join(VERIF, "check.py"), c, tier], VERIF, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            last = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", "OK", "KNOWN", "INCON")) or "error" in l.lower()]
            print(f"{i} {c}: rc={r.returncode} {' / '.join(last)[:400]}", flush=True)
    finally:
        sh("git checkout -q -- .", REPO)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--verify"]:
        sys.exit(0 if all([verify(i) for i in a[1:]]) else 1)
    if a[:1] == ["--run"]:
        m = json.load(open(os.path.join(SEEDED, a[1], "meta.json")))
        run(a[1], a[2:] or [m["property"]])
        sys.exit(0)
    S = load()
    for i in (a or S):
        write(S[i]); print("wrote", i)
