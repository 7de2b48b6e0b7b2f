"""C19: random type definitions, derived and hand-written, compiled against the current tree and compared."""
import hashlib, json, os, random, re, shutil, subprocess, time
from common import *  # noqa
import derive_gen as gen

SRC = os.path.join(WORK, "derive-src")
TGT = os.path.join(WORK, "b-derive")
RULE = ("random Rust type definitions (unit, tuple and named structs, enums; attributes, visibilities, representations, odd identifiers, "
        "type, const and lifetime parameters with bounds in either place, items inside functions, modules and macros), each compiled once with "
        "the derive and once with a hand-written implementation; name, id, layout and, for a quarter of them, a whole registry history compared; "
        "non-trivial: the definition has at least one field, variant, attribute or parameter, or an identifier that is not plain ASCII")

MANIFEST = '''[package]
name = "derive-check"
version = "0.1.0"
edition = "2021"
publish = false
autobins = true

[workspace]

[dependencies]
shard-ecs = { path = "/repo", features = ["derive"] }
shard_ecs_derive = { path = "/repo/shard_ecs_derive" }

[patch.crates-io]
shard_ecs_derive = { path = "/repo/shard_ecs_derive" }

[profile.dev]
debug = false
opt-level = 0
incremental = false
'''


def fnv16(name):
    h = 0x811C9DC5
    for b in name.encode():
        h = ((h ^ b) * 0x01000193) & 0xFFFFFFFF
    return (h >> 16) ^ (h & 0xFFFF)


def write(groups):
    """groups: list of lists of items. One program each."""
    for d in ("src/bin", "src/items"):
        p = os.path.join(SRC, d)
        os.makedirs(p, exist_ok=True)
        for f in os.listdir(p):
            os.unlink(os.path.join(p, f))
    with open(os.path.join(SRC, "Cargo.toml"), "w") as f:
        f.write(MANIFEST)
    shutil.copy(os.path.join(HERE, "tools", "derive_support.rs"), os.path.join(SRC, "src", "support.rs"))
    for g, items in enumerate(groups):
        mods, runs = [], []
        for k, it in items:
            for w in "hd":
                with open(os.path.join(SRC, "src", "items", f"{w}_{k}.rs"), "w") as f:
                    f.write(gen.module(it, w == "d") + "\n")
                mods.append(f'#[path = "../items/{w}_{k}.rs"] mod {w}_{k};')
        for w in "hd":
            for k, it in items:
                runs.append(f'out.clear(); {w}_{k}::run(&mut out); println!("@{w} {k}\\n{{out}}");')
        with open(os.path.join(SRC, "src", "bin", f"b{g}.rs"), "w") as f:
            f.write("#![allow(warnings)]\n#[path = \"../support.rs\"] mod support;\npub use support::*;\n" + "\n".join(mods)
                    + "\nfn main() {\nlet mut out = String::new();\n" + "\n".join(runs) + "\nprintln!(\"@end\");\n}\n")


class Broken(Exception):
    """The crates under test themselves do not build."""


def compile_all(n):
    """Returns (set of built programs, {file: first error}, other errors)."""
    env = cargo_env()
    clean = ["cargo", "clean", "--offline", "-p", "shard-ecs", "-p", "shard_ecs_derive", "--manifest-path",
             os.path.join(SRC, "Cargo.toml"), "--target-dir", TGT]
    stamp, want = fresh(TGT, clean, env)
    r = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--bins", "--message-format=json", "--target-dir", TGT],
                       cwd=SRC, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, other, built = {}, [], set()
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["kind"] == ["bin"]:
            built.add(m["target"]["name"])
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        text = m["message"].get("rendered") or m["message"]["message"]
        files = set()

        def walk(sp):
            files.add(os.path.basename(sp["file_name"]))
            if sp.get("expansion"):
                walk(sp["expansion"]["span"])

        for sp in m["message"]["spans"]:
            walk(sp)
        items = [f for f in files if re.match(r"[hd]_\d+\.rs$", f)]
        if items:
            for f in items:
                errs.setdefault(f, text)
        elif m["message"]["spans"] or "aborting" not in text:
            other.append(text)
    if r.returncode == 0:
        with open(stamp, "w") as f:
            f.write(want)
    elif not errs and not other:
        other.append(r.stderr[-3000:])
    return built, errs, other


def execute(g):
    try:
        r = subprocess.run([os.path.join(TGT, "debug", f"b{g}")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return {}, "timed out"
    res = {}
    for part in re.split(r"(?m)^@", r.stdout)[1:]:
        head, _, rest = part.partition("\n")
        res[head.strip()] = rest.strip()
    tail = None if r.returncode == 0 and "end" in res else f"ended with {r.returncode}: {r.stderr[-400:]}"
    return res, tail


def judge(it, res, k, tail):
    """None, ('skip', why) or ('bad', why)"""
    h, d = res.get(f"h {k}"), res.get(f"d {k}")
    if h is None:
        return ("skip", f"the hand-written program {tail}")
    if d is None:
        return ("bad", f"type `{it['name']}`: the derived component crashes where the hand-written one does not ({tail})")
    hf, df = h.splitlines()[0].split(" "), d.splitlines()[0].split(" ")
    name = it["name"].encode().hex()
    labels = ["NAME", "ID", "DESCRIPTOR id", "DESCRIPTOR size", "DESCRIPTOR alignment", "size", "alignment", "group length"]
    if df[1] != name:
        return ("bad", f"type `{it['name']}`: NAME is {bytes.fromhex(df[1]).decode(errors='replace')!r}")
    if int(df[2]) != fnv16(it["name"]):
        return ("bad", f"type `{it['name']}`: ID is {df[2]}, that of its name is {fnv16(it['name'])}")
    for l, a, b in zip(labels, df[1:], hf[1:]):
        if a != b:
            return ("bad", f"type `{it['name']}`: {l} is {a}, of a hand-written implementation {b}")
    if h != d:
        for a, b in zip(h.splitlines(), d.splitlines()):
            if a != b:
                return ("bad", f"type `{it['name']}` behaves differently in a registry: {b!r} instead of {a!r}")
        return ("bad", f"type `{it['name']}` behaves differently in a registry")
    return None


def verdicts(items):
    """Each item on its own: list of None / ('skip', why) / ('bad', why)."""
    out = [None] * len(items)
    write([[(i, it)] for i, it in enumerate(items)])
    built, errs, other = compile_all(len(items))
    if other and not built:
        raise Broken(other[0])
    for i, it in enumerate(items):
        if f"h_{i}.rs" in errs:
            out[i] = ("skip", errs[f"h_{i}.rs"])
        elif f"d_{i}.rs" in errs:
            # the hand-written twin must be accepted by itself
            out[i] = ("compile", errs[f"d_{i}.rs"])
        elif f"b{i}" not in built:
            out[i] = ("skip", "not built")
        else:
            res, tail = execute(i)
            out[i] = judge(it, res, i, tail)
    # a compile error stops rustc early: make sure that the twins alone compile
    sus = [i for i, v in enumerate(out) if v and v[0] == "compile"]
    if sus:
        write([[(i, items[i])] for i in sus])
        for g, i in enumerate(sus):
            with open(os.path.join(SRC, "src", "items", f"d_{i}.rs"), "w") as f:
                f.write("pub fn run(out: &mut String) {}\n")
        b2, e2, _ = compile_all(len(sus))
        for g, i in enumerate(sus):
            if f"b{g}" in b2:
                first = next((l for l in out[i][1].splitlines() if l.startswith("error")), out[i][1][:200])
                out[i] = ("bad", f"deriving on `{items[i]['name']}` does not compile although a hand-written implementation does: {first}")
            else:
                out[i] = ("skip", "the hand-written twin does not compile: " + e2.get(f"h_{i}.rs", "")[:300])
    return out


def shrink(it, why, budget=90):
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        cands = list(gen.simpler(it))[:24]
        if not cands:
            break
        n += len(cands)
        vs = verdicts(cands)
        hit = next((i for i, v in enumerate(vs) if v and v[0] == "bad"), None)
        if hit is None:
            break
        it, why = cands[hit], vs[hit][1]
    return it, why, n


def nontrivial(it):
    return bool(it["fields"] or it["variants"] or it["attrs"] or it["generics"] or it["where"] or not it["name"].isascii())


def run(prop, tier, seed, ev, deadline):
    ev.rules.append(RULE)
    batches, per = (1, 1200) if tier == "quick" else (40, 400)
    discarded = 0
    for b in range(batches):
        if time.time() > deadline:
            break
        r = random.Random(f"C19 {seed} {b}")
        items = [gen.item(r) for _ in range(per)]
        live = list(enumerate(items))
        suspects = []
        for _ in range(8):
            groups = [live[i::NPROC] for i in range(NPROC)]
            write(groups)
            built, errs, other = compile_all(NPROC)
            if other and not errs and not built:
                ev.inconclusive.append("the generated crate does not build: " + other[0][:1500])
                return
            if not errs:
                break
            bad = {int(f[2:-3]) for f in errs}
            for k in bad:
                if f"h_{k}.rs" in errs:
                    discarded += 1
                else:
                    suspects.append(k)
            live = [x for x in live if x[0] not in bad]
            if len(suspects) > 12:
                break
        if len(built) < NPROC and not suspects:
            ev.inconclusive.append("programs were not built: " + (other or ["?"])[0][:500])
            return
        failing = None
        if suspects:
            vs = verdicts([items[k] for k in suspects[:12]])
            for k, v in zip(suspects, vs):
                if v and v[0] == "bad":
                    failing = failing or (items[k], v[1])
                else:
                    discarded += 1
        else:
            for g, l in enumerate(groups):
                res, tail = execute(g)
                crashed = False
                for k, it in l:
                    v = judge(it, res, k, tail)
                    if v and v[0] == "bad":
                        failing = failing or (it, v[1])
                        break
                    if v:
                        ev.inconclusive.append(v[1])
                        break
                    ev.evaluations += 1
                    for key in ("kind", "place", "derive"):
                        ev.labels[f"{key}: {it[key]}"] = ev.labels.get(f"{key}: {it[key]}", 0) + 1
                    for key in ("generics", "attrs", "drive"):
                        if it[key]:
                            ev.labels[f"with {key}"] = ev.labels.get(f"with {key}", 0) + 1
                    if nontrivial(it):
                        ev.hashes.add(hashlib.sha256(gen.module(it, True).encode()).hexdigest())
                        if len(ev.samples) < 3:
                            ev.samples.append({"source": gen.definition(it, True)})
        if failing:
            it, why, n = shrink(*failing)
            ev.extra["shrink_evaluations"] = n
            rep = {"kind": "derive", "property": prop, "error": why, "item": it, "source": gen.module(it, True)}
            ev.violation(ev.save_replay(rep), why)
            return
    ev.extra["definitions_discarded"] = discarded
    ev.cases_with = dict(ev.labels)
    if discarded > per * batches // 5:
        ev.inconclusive.append(f"{discarded} generated definitions were not valid Rust")


def replay(r):
    try:
        v = verdicts([r["item"]])[0]
    except Broken as e:
        print(f"INCONCLUSIVE {e}")
        return 2
    if v is None:
        print("PASS derive")
        return 0
    print(("FAIL " if v[0] == "bad" else "INCONCLUSIVE ") + v[1])
    return 1 if v[0] == "bad" else 2
