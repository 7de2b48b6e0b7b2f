"""C26: generated programs built with and without the standard library, against a model."""
import hashlib, json, os, random, shutil, subprocess, time
from common import *  # noqa

SRC = os.path.join(WORK, "nostd-src")
TGT = os.path.join(WORK, "b-nostd")
RULE = ("random programs (2-6 component types, derived or hand-written, of various layouts and owning heap memory or not; 8-40 calls: creation, "
        "bulk creation, addition, removal, queries, writes, all kinds of iteration, destruction) compiled once as ordinary programs and once without the "
        "standard library (#![no_std], with an allocator of their own), in debug and release builds, with and without the crate's derive feature; every value printed by either is compared with a model "
        "in Python; non-trivial: at least three calls change the registry and at least three show its contents")

MANIFEST = '''[package]
name = "nostd-check"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
shard-ecs = { path = "/repo" }

[features]
derive = ["shard-ecs/derive"]

[patch.crates-io]
shard_ecs_derive = { path = "/repo/shard_ecs_derive" }

[profile.dev]
debug = false
opt-level = 0
incremental = false
panic = "abort"

[profile.release]
opt-level = 2
panic = "abort"
'''

BARE = '''#![no_std]
#![no_main]
#![allow(warnings)]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
#[link(name = "c")]
extern "C" {
    fn aligned_alloc(align: usize, size: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
#[link(name = "gcc_s")]
extern "C" {}
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = l.align().max(16);
        aligned_alloc(a, (l.size() + a - 1) / a * a)
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { free(p) }
}
#[global_allocator]
static HEAP: Heap = Heap;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { say("panic\\n"); unsafe { _exit(101) } }
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
pub fn say(s: &str) { unsafe { write(1, s.as_ptr(), s.len()); } }
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 { all(); 0 }
'''
HOSTED = '''#![allow(warnings)]
extern crate alloc;
pub fn say(s: &str) { use std::io::Write; std::io::stdout().write_all(s.as_bytes()).unwrap(); }
fn main() { all() }
'''
MODES = ("debug derive", "release derive", "debug", "release")
NONE = 0xFFFF_FFFF_FFFF
KINDS = ("u8", "u16", "u32", "u64", "pair", "array", "unit", "boxed", "vec", "aligned", "counted", "generic")
MASK = {"u8": 0xFF, "u16": 0xFFFF, "unit": 0, "array": 0xFFFF}


def digest(kind, s):
    return (s & MASK.get(kind, 0xFFFFFFFF)) + 7


def type_def(i, kind, derive):
    n = f"T{i}"
    d = '#[cfg_attr(feature = "derive", derive(Component))]\n' if derive else ""
    lines = {
        "u8": (f"pub struct {n}(u8);", f"{n}(s as u8)", "self.0 as u64"),
        "u16": (f"pub struct {n} {{ a: u16 }}", f"{n} {{ a: s as u16 }}", "self.a as u64"),
        "u32": (f"pub struct {n}(pub u32);", f"{n}(s as u32)", "self.0 as u64"),
        "u64": (f"pub struct {n} {{ pub v: u64 }}", f"{n} {{ v: s }}", "self.v"),
        "pair": (f"pub struct {n}(u8, u64);", f"{n}(1, s)", "self.1 * self.0 as u64"),
        "array": (f"pub struct {n}([u16; 37]);", f"{n}([s as u16; 37])", "self.0[36] as u64"),
        "unit": (f"pub struct {n};", n, "0"),
        "boxed": (f"pub struct {n}(alloc::boxed::Box<u64>);", f"{n}(alloc::boxed::Box::new(s))", "*self.0"),
        "vec": (f"pub struct {n} {{ v: alloc::vec::Vec<u32> }}", f"{n} {{ v: alloc::vec![s as u32; 3] }}", "self.v[2] as u64"),
        "aligned": (f"#[repr(align(64))] pub struct {n}(u32);", f"{n}(s as u32)", "self.0 as u64 + (self as *const _ as usize % 64) as u64"),
        "counted": (f"pub struct {n}(u64);", f"{n}(s)", "self.0"),
        "generic": (f"pub struct {n}(Option<u64>);", f"{n}(Some(s))", "self.0.unwrap()"),
    }[kind]
    out = d + lines[0] + "\n"
    out += '#[cfg(not(feature = "derive"))]\n' if derive else ""
    out += f"impl Component for {n} {{ const NAME: &'static str = \"{n}\"; }}\n"
    if kind == "counted":
        out += f"impl Drop for {n} {{ fn drop(&mut self) {{ DROPS.fetch_add(1, core::sync::atomic::Ordering::SeqCst); }} }}\n"
    out += f"impl {n} {{ fn mk(s: u64) -> Self {{ {lines[1]} }} fn dig(&self) -> u64 {{ {lines[2]} + 7 }} }}\n"
    return out


def program(rng):
    """A program as data: types and operations."""
    n = rng.randint(2, 6)
    types = [(rng.choice(KINDS), rng.random() < 0.6) for _ in range(n)]
    groups = [rng.sample(range(n), rng.randint(1, n)) for _ in range(rng.randint(2, 5))]
    ops = []
    for _ in range(rng.randint(8, 40)):
        g, t, h = rng.randrange(len(groups)), rng.randrange(n), rng.random()
        ops.append((rng.choice(["create", "create", "create", "bulk", "add", "add", "del", "del", "get", "set", "tuple", "iter", "iter_mut",
                                "filter", "exact", "destroy", "take", "count"]), g, t, h, rng.randint(1, 400)))
    return {"types": types, "groups": groups, "ops": ops}


def emit(p):
    """(Rust source of the module, expected values, non-trivial)."""
    kinds = [k for k, _ in p["types"]]
    o = ["use shard_ecs::*;", "use alloc::vec::Vec;", "static DROPS: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);"]
    for i, (k, d) in enumerate(p["types"]):
        o.append(type_def(i, k, d))
    o += ["pub fn run(out: &mut dyn FnMut(u64)) {", "let mut r = Registry::default();", "let mut h: Vec<Entity> = Vec::new();"]
    want, live, nh, serial, changes, shows, drops = [], {}, 0, 1000, 0, 0, 0
    def ty(g):
        return f"T{g[0]}" if len(g) == 1 else "(" + ", ".join(f"T{t}" for t in g) + ")"
    def lost(t):
        return kinds[t] == "counted"
    def total(row, g):
        return sum(digest(kinds[t], row[t]) for t in g)
    def refs(v, g):
        return f"{v}.dig()" if len(g) == 1 else " + ".join(f"{v}.{i}.dig()" for i in range(len(g)))
    def cols(g):
        a = ", ".join(f"c{t}" for t in g)
        return a if len(g) == 1 else f"({a})"
    for op, g, t, x, n in p["ops"]:
        g = p["groups"][g]
        e = int(x * nh) if nh else None
        row = live.get(e)
        if op == "create":
            serial += 1
            v = ", ".join(f"T{t}::mk({serial + 10 * t})" for t in g)
            v = v if len(g) == 1 else f"({v})"
            o.append(f"match r.create_entity({v}) {{ Ok(e) => {{ h.push(e); out(1) }} Err(_) => out(0) }}")
            live[nh] = {t: serial + 10 * t for t in g}
            nh += 1
            want.append(1)
            changes += 1
        elif op == "bulk":
            v = ", ".join(f"T{t}::mk({serial} + i)" for t in g)
            v = v if len(g) == 1 else f"({v})"
            o.append(f"for i in 0..{n}u64 {{ h.push(r.create_entity({v}).ok().unwrap()); }}")
            for i in range(n):
                live[nh] = {t: serial + i for t in g}
                nh += 1
            serial += n
            changes += 1
        elif op in ("count",):
            o.append("out(r.iter_entities().count() as u64);")
            want.append(len(live))
            shows += 1
        elif op == "iter":
            a = " + ".join(f"c{t}.iter().map(|v| v.dig()).sum::<u64>()" for t in g)
            o.append(f"out(r.iter_components_matching::<{ty(g)}>().map(|{cols(g)}| {a}).sum::<u64>());")
            want.append(sum(total(w, g) for w in live.values() if all(t in w for t in g)))
            shows += 1
        elif op == "filter":
            m = n % 4 + 1
            o.append(f"out(r.iter_filtered_entity_components_matching::<{ty(g)}, _>(|d: &archetype_descriptor::ArchetypeDescriptor| d.len() as usize > {m}).map(|(e, {cols(g)})| e.len() as u64 + c{g[0]}.len() as u64).sum::<u64>());")
            want.append(2 * sum(1 for w in live.values() if len(w) > m and all(t in w for t in g)))
            shows += 1
        elif op == "exact":
            o.append(f"{{ let (e, {cols(g)}) = r.iter_entity_components_exact::<{ty(g)}>(); out(e.len() as u64 * 1000 + c{g[-1]}.len() as u64); }}")
            k = sum(1 for w in live.values() if set(w) == set(g))
            want.append(1001 * k)
            shows += 1
        elif op == "iter_mut":
            serial += 1
            c = f"c{g[0]}"
            o.append(f"for {cols(g)} in r.iter_components_matching_mut::<{ty(g)}>() {{ for v in {c}.iter_mut() {{ *v = T{g[0]}::mk({serial}); }} }}")
            for w in live.values():
                if all(t in w for t in g):
                    drops += lost(g[0])
                    w[g[0]] = serial
            changes += 1
        elif e is None:
            continue
        elif op == "add":
            serial += 1
            o.append(f"out(match r.add_component(h[{e}], T{t}::mk({serial})) {{ Ok(()) => 1, Err(v) => v.dig() }});")
            if row is None or t in row:
                want.append(digest(kinds[t], serial))
                drops += lost(t)
            else:
                row[t] = serial
                want.append(1)
                changes += 1
        elif op == "del":
            o.append(f"out(match r.remove_component::<T{t}>(h[{e}]) {{ Ok(v) => v.dig(), Err(_) => {NONE} }});")
            if row is None or t not in row or len(row) == 1:
                want.append(NONE)
            else:
                want.append(digest(kinds[t], row.pop(t)))
                drops += lost(t)
                changes += 1
        elif op == "get":
            o.append(f"out(match r.get_component::<T{t}>(h[{e}]) {{ Some(v) => v.dig(), None => {NONE} }} + r.has_component::<T{t}>(h[{e}]) as u64);")
            want.append(NONE if row is None or t not in row else digest(kinds[t], row[t]) + 1)
            shows += 1
        elif op == "set":
            serial += 1
            o.append(f"out(match r.get_component_mut::<T{t}>(h[{e}]) {{ Some(v) => {{ *v = T{t}::mk({serial}); v.dig() }} None => {NONE} }});")
            if row is None or t not in row:
                want.append(NONE)
            else:
                drops += lost(t)
                row[t] = serial
                want.append(digest(kinds[t], serial))
                changes += 1
        elif op == "tuple":
            o.append(f"out(match r.get_components::<{ty(g)}>(h[{e}]) {{ Some(v) => {{ {refs('v', g)} }} None => {NONE} }});")
            want.append(NONE if row is None or any(t not in row for t in g) else total(row, g))
            shows += 1
        elif op == "destroy":
            o.append(f"out(r.destroy_entity(h[{e}]) as u64);")
            want.append(int(row is not None))
            if row is not None:
                drops += sum(lost(t) for t in row)
                del live[e]
                changes += 1
        elif op == "take":
            o.append(f"out(match r.remove_entity::<{ty(g)}>(h[{e}]) {{ Some(v) => {{ {refs('v', g)} }} None => {NONE} }});")
            if row is None or set(row) != set(g):
                want.append(NONE)
            else:
                want.append(total(row, g))
                drops += sum(lost(t) for t in row)
                del live[e]
                changes += 1
    o.append("out(DROPS.load(core::sync::atomic::Ordering::SeqCst)); drop(r); out(DROPS.load(core::sync::atomic::Ordering::SeqCst));\n}")
    want += [drops, drops + sum(lost(t) for w in live.values() for t in w)]
    return "\n".join(o) + "\n", want, changes >= 3 and shows >= 3


def write(groups, src=SRC):
    """groups: lists of (key, module source). Two binaries each: with and without std."""
    shutil.rmtree(os.path.join(src, "src"), ignore_errors=True)
    os.makedirs(os.path.join(src, "src", "bin"))
    os.makedirs(os.path.join(src, "src", "items"))
    with open(os.path.join(src, "Cargo.toml"), "w") as f:
        f.write(MANIFEST)
    for g, items in enumerate(groups):
        mods, runs = [], []
        for k, body in items:
            with open(os.path.join(src, "src", "items", f"m{k}.rs"), "w") as f:
                f.write(body)
            mods.append(f'#[path = "../items/m{k}.rs"] mod m{k};')
            runs.append(f'say("\\n@{k}"); m{k}::run(&mut |v| say(&alloc::format!(" {{}}", v)));')
        tail = "\n".join(mods) + "\nfn all() {\n" + "\n".join(runs) + "\nsay(\"\\n@end\");\n}\n"
        for w, head in (("h", HOSTED), ("n", BARE)):
            with open(os.path.join(src, "src", "bin", f"{w}{g}.rs"), "w") as f:
                f.write(head + tail)


def build_all(mode, src=SRC):
    """{binary: path}, text of the errors of the others."""
    env = cargo_env()
    # (the packages are found through the manifest of the generated crate)
    stamp, want = fresh(TGT, ["cargo", "clean", "--offline", "-p", "shard-ecs", "-p", "shard_ecs_derive", "--manifest-path",
                              os.path.join(src, "Cargo.toml"), "--target-dir", TGT], env)
    if not os.path.exists(stamp) or open(stamp).read() != want:
        with open(stamp, "w") as f:
            f.write(want)
    r = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--bins", "--message-format=json", "--target-dir", TGT,
                        *(["--release"] if "release" in mode else []), *(["--features", "derive"] if "derive" in mode else [])], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    built, errs, other = {}, {}, []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["kind"] == ["bin"]:
            built[m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            text = m["message"].get("rendered") or m["message"]["message"]
            if m["target"]["kind"] == ["bin"]:
                errs.setdefault(m["target"]["name"], text)
            else:
                other.append(text)
    if r.returncode != 0 and not errs and not other:
        other.append(r.stderr[-2000:])
    return built, errs, other


def prepare():
    """Builds what all programs have in common."""
    write([[(0, emit(program(random.Random(0)))[0])]])
    for mode in MODES:
        build_all(mode)


def execute(path):
    try:
        r = subprocess.run([path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return {}, "no end within 120 s"
    res = {}
    for part in r.stdout.split("\n@")[1:]:
        w = part.split()
        res[w[0]] = w[1:]
    return res, None if r.returncode == 0 and "end" in res else f"ended with {r.returncode}: {r.stderr[-300:]}"


def verdict(built, errs, g, k, want):
    """None or what is wrong with program k of group g."""
    for w, name in (("h", "with the standard library"), ("n", "without the standard library")):
        b = f"{w}{g}"
        if b not in built:
            if w == "n":
                return f"does not build {name}: {errs.get(b, '?')[:600]}"
            raise BuildError(f"the program does not build: {errs.get(b, '?')[:1500]}")
        res, tail = execute(built[b])
        got = res.get(str(k))
        if got is None:
            return f"{name}: the program {tail}" if tail else None
        if got != [str(v) for v in want]:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != str(b)), min(len(got), len(want)))
            return f"{name}: value {i} is {got[i] if i < len(got) else (tail or 'missing')}, expected {want[i] if i < len(want) else 'none'}"
    return None


def one(p, mode, src=SRC + "-one"):
    """What is wrong with this program, compiled alone."""
    body, want, _ = emit(p)
    write([[(0, body)]], src)
    built, errs, other = build_all(mode, src)
    if other:
        raise BuildError(other[0][-1500:])
    return verdict(built, errs, 0, 0, want)


def shrink(p, mode, why, budget=120):
    end = time.time() + budget
    step = max(1, len(p["ops"]) // 2)
    while step and time.time() < end:
        i = 0
        while i < len(p["ops"]) and time.time() < end:
            q = dict(p, ops=p["ops"][:i] + p["ops"][i + step:])
            w = one(q, mode)
            if w:
                p, why = q, w
            else:
                i += step
        step //= 2
    return p, why


def run(prop, tier, seed, ev, deadline):
    ev.rules.append(RULE)
    rounds, per, ngroups = (25, 16, 6) if tier == "thorough" else (1, 16, 6)
    for k in range(rounds):
        rng = random.Random(f"nostd{seed}/{k}")
        progs = [program(rng) for _ in range(per * ngroups)]
        emitted = [emit(p) for p in progs]
        write([[(i, emitted[i][0]) for i in range(g * per, (g + 1) * per)] for g in range(ngroups)])
        for mode in MODES:
            built, errs, other = build_all(mode)
            if other:
                # nothing can be said about a crate that does not build at all
                ev.inconclusive.append(other[0][-1500:])
                return
            results = {b: execute(x) for b, x in built.items()}
            for g in range(ngroups):
                if f"h{g}" not in built:
                    ev.inconclusive.append("a generated program does not build: " + errs.get(f"h{g}", "?")[:1500])
                    return
            for i, (body, want, nontrivial) in enumerate(emitted):
                ev.evaluations += 1
                g = i // per
                bad = f"n{g}" not in built
                for w in "hn":
                    res, tail = results.get(f"{w}{g}", ({}, None))
                    got = res.get(str(i))
                    if f"{w}{g}" in built and (got != [str(v) for v in want]) and (got is not None or tail):
                        bad = True
                if bad:
                    why = one(progs[i], mode)
                    if why is None:
                        if f"n{g}" not in built or any(results[f"{w}{g}"][1] for w in "hn"):
                            continue  # another program of the same binary
                        ev.inconclusive.append(f"program {i} only fails beside others")
                        return
                    p, why = shrink(progs[i], mode, why)
                    obj = {"kind": "nostd", "property": prop, "program": p, "mode": mode, "error": why, "source": emit(p)[0]}
                    ev.violation(ev.save_replay(obj), why)
                    return
                if nontrivial:
                    ev.hashes.add(hashlib.sha256(body.encode()).hexdigest())
                    if len(ev.samples) < 3:
                        ev.samples.append(body)
                for op in progs[i]["ops"]:
                    ev.labels[f"{mode}: {op[0]}"] = ev.labels.get(f"{mode}: {op[0]}", 0) + 1
            if any(t for _, t in results.values()):
                ev.inconclusive.append("a program of several ended early, none of them alone")
                return
        if time.time() > deadline:
            break


def replay(r):
    why = one(r["program"], r["mode"])
    print("FAIL " + why if why else "PASS")
    return 1 if why else 0
