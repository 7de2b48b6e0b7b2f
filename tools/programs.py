"""Generated programs that the compiler has to accept or to reject.

Safe Rust's part of memory safety is decided at compile time: a reference or an iterator obtained from
the library must keep the borrow of what it points into. Each case is a pair of functions that differ
only in the order of the statements: in one, a conflicting call comes between taking a borrow and using
it (must be rejected by the borrow checker), in the other it comes after the last use (must compile).
Likewise component types that must not cross threads or outlive what they borrow.
"""
import json, os, random, re, shutil, subprocess
from common import WORK, HARNESS, HERE, cargo_env, fresh, target_dir, BuildError

PRELUDE = """#![allow(warnings)]
extern crate shard_ecs;
use shard_ecs::*;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component::Component;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::entity_registry::{Entity, EntityRegistry};
fn eat<T>(t: T) { std::hint::black_box(t); }
"""


def comps(rng):
    kinds = ["pub u32", "pub u8", "pub String", "pub [u64; 3]", "pub Vec<u16>", "pub Box<i32>", "", "pub f32, pub u8"]
    out = []
    for n in "ABCD":
        k = rng.choice(kinds)
        out.append(f"pub struct {n}({k}); impl Component for {n} {{ const NAME: &'static str = \"prog_{n}\"; }}\n")
    return "".join(out)


# (name, kind, expression over $r and $e with groups $G / component $C); kind: s shared, m mutable
REG_BORROWS = [
    ("get_component", "s", "$r.get_component::<$C>($e)"),
    ("get_components", "s", "$r.get_components::<$G>($e)"),
    ("iter_entities", "s", "$r.iter_entities()"),
    ("iter_components_matching", "s", "$r.iter_components_matching::<$G>()"),
    ("iter_components_matching item", "s", "$r.iter_components_matching::<$G>().next()"),
    ("iter_entity_components_matching", "s", "$r.iter_entity_components_matching::<$G>()"),
    ("iter_entity_components_matching item", "s", "$r.iter_entity_components_matching::<$G>().next()"),
    ("iter_filtered_components_matching", "s", "$r.iter_filtered_components_matching::<$G, _>(|d| d.len() > 0)"),
    ("iter_filtered_components_matching item", "s", "$r.iter_filtered_components_matching::<$G, _>(|d| d.len() > 0).next()"),
    ("iter_filtered_entity_components_matching", "s", "$r.iter_filtered_entity_components_matching::<$G, _>(|d| d.len() > 0)"),
    ("iter_filtered_entity_components_matching item", "s", "$r.iter_filtered_entity_components_matching::<$G, _>(|d| d.len() > 0).next()"),
    ("iter_components_exact", "s", "$r.iter_components_exact::<$G>()"),
    ("iter_entity_components_exact", "s", "$r.iter_entity_components_exact::<$G>()"),
    ("iter_entity_components_exact entities", "s", "$r.iter_entity_components_exact::<$G>().0"),
    ("get_component_mut", "m", "$r.get_component_mut::<$C>($e)"),
    ("get_components_mut", "m", "$r.get_components_mut::<$G>($e)"),
    ("iter_components_matching_mut", "m", "$r.iter_components_matching_mut::<$G>()"),
    ("iter_components_matching_mut item", "m", "$r.iter_components_matching_mut::<$G>().next()"),
    ("iter_entity_components_matching_mut", "m", "$r.iter_entity_components_matching_mut::<$G>()"),
    ("iter_entity_components_matching_mut item", "m", "$r.iter_entity_components_matching_mut::<$G>().next()"),
    ("iter_entity_components_matching_mut entities", "m", "$r.iter_entity_components_matching_mut::<$G>().next().map(|x| x.0)"),
    ("iter_filtered_components_matching_mut", "m", "$r.iter_filtered_components_matching_mut::<$G, _>(|d| d.len() > 0)"),
    ("iter_filtered_components_matching_mut item", "m", "$r.iter_filtered_components_matching_mut::<$G, _>(|d| d.len() > 0).next()"),
    ("iter_filtered_entity_components_matching_mut", "m", "$r.iter_filtered_entity_components_matching_mut::<$G, _>(|d| d.len() > 0)"),
    ("iter_filtered_entity_components_matching_mut item", "m", "$r.iter_filtered_entity_components_matching_mut::<$G, _>(|d| d.len() > 0).next()"),
    ("iter_components_exact_mut", "m", "$r.iter_components_exact_mut::<$G>()"),
    ("iter_entity_components_exact_mut", "m", "$r.iter_entity_components_exact_mut::<$G>()"),
    ("iter_entity_components_exact_mut entities", "m", "$r.iter_entity_components_exact_mut::<$G>().0"),
]
REG_SHARED = [
    "$r.has_component::<$C>($e)", "$r.has_components::<$G>($e)", "$r.get_component::<$C>($e).is_some()",
    "$r.get_components::<$G>($e).is_some()", "$r.iter_entities().count()",
    "$r.iter_components_matching::<$G>().count()", "$r.iter_entity_components_matching::<$G>().count()",
    "$r.iter_entity_components_exact::<$G>().0.len()",
]
REG_MUT = [
    "$r.create_entity::<$C>($c).is_ok()", "$r.destroy_entity($e)", "$r.remove_entity::<$G>($e).is_some()",
    "$r.add_component::<$C>($e, $c).is_ok()", "$r.remove_component::<$C>($e).is_ok()",
    "$r.get_component_mut::<$C>($e).is_some()", "$r.get_components_mut::<$G>($e).is_some()",
    "$r.iter_components_matching_mut::<$G>().count()", "$r.iter_entity_components_exact_mut::<$G>().0.len()",
    "drop($r)", "$r = Registry::default()", "std::mem::swap(&mut $r, &mut Registry::default())",
]

ARCH_BORROWS = [
    ("get_component_unchecked", "s", "unsafe { $r.get_component_unchecked::<$C>(0) }"),
    ("get_fuzzy_components_unchecked", "s", "unsafe { $r.get_fuzzy_components_unchecked::<$G>(0) }"),
    ("get_slices_unchecked_exact", "s", "unsafe { $r.get_slices_unchecked_exact::<$G>() }"),
    ("get_fuzzy_slices_unchecked", "s", "unsafe { $r.get_fuzzy_slices_unchecked::<$G>() }"),
    ("get_entity_fuzzy_slices_unchecked", "s", "unsafe { $r.get_entity_fuzzy_slices_unchecked::<$G>() }"),
    ("entities", "s", "$r.entities()"),
    ("descriptor", "s", "$r.descriptor()"),
    ("get_component_unchecked_mut", "m", "unsafe { $r.get_component_unchecked_mut::<$C>(0) }"),
    ("get_fuzzy_components_unchecked_mut", "m", "unsafe { $r.get_fuzzy_components_unchecked_mut::<$G>(0) }"),
    ("get_slices_unchecked_exact_mut", "m", "unsafe { $r.get_slices_unchecked_exact_mut::<$G>() }"),
    ("get_fuzzy_slices_unchecked_mut", "m", "unsafe { $r.get_fuzzy_slices_unchecked_mut::<$G>() }"),
    ("get_entity_fuzzy_slices_unchecked_mut", "m", "unsafe { $r.get_entity_fuzzy_slices_unchecked_mut::<$G>() }"),
    ("entities_mut", "m", "$r.entities_mut()"),
]
ARCH_SHARED = ["$r.len()", "$r.entities().len()", "unsafe { $r.get_component_unchecked::<$C>(0); }",
               "unsafe { $r.get_fuzzy_slices_unchecked::<$G>(); }"]
ARCH_MUT = ["$r.entities_mut().len()", "unsafe { $r.push_uninitialized_entity() }",
            "unsafe { $r.push_entity_unchecked::<$C>($e, $c) }",
            "unsafe { $r.swap_drop_unchecked(0) }", "unsafe { $r.decrement_len_unchecked() }",
            "unsafe { $r.swap_entities(0, 1) }", "drop($r)",
            "unsafe { $r.get_fuzzy_slices_unchecked_mut::<$G>(); }"]

AREG_BORROWS = [
    ("ArchetypeRegistry::find_archetype", "s", "$r.find_archetype(<$G as ComponentGroup>::DESCRIPTOR.archetype())"),
    ("ArchetypeRegistry::get_unchecked", "s", "unsafe { $r.get_unchecked(0) }"),
    ("ArchetypeRegistry::index", "s", "&$r[0u16]"),
    ("ArchetypeRegistry::iter_components_matching", "s", "$r.iter_components_matching::<$G>().next()"),
    ("ArchetypeRegistry::iter_entity_components_matching", "s", "$r.iter_entity_components_matching::<$G>()"),
    ("ArchetypeRegistry::find_archetype_mut", "m", "$r.find_archetype_mut(<$G as ComponentGroup>::DESCRIPTOR.archetype())"),
    ("ArchetypeRegistry::get_unchecked_mut", "m", "unsafe { $r.get_unchecked_mut(0) }"),
    ("ArchetypeRegistry::index_mut", "m", "&mut $r[0u16]"),
    ("ArchetypeRegistry::iter_components_matching_mut", "m", "$r.iter_components_matching_mut::<$G>().next()"),
    ("ArchetypeRegistry::iter_entity_components_matching_mut", "m", "$r.iter_entity_components_matching_mut::<$G>()"),
    ("ArchetypeRegistry::iter_filtered_components_matching_mut", "m", "$r.iter_filtered_components_matching_mut::<$G, _>(|d| true).next()"),
    ("ArchetypeRegistry::iter_filtered_entity_components_matching_mut", "m", "$r.iter_filtered_entity_components_matching_mut::<$G, _>(|d| true)"),
]
AREG_SHARED = ["$r.find_archetype(<$G as ComponentGroup>::DESCRIPTOR.archetype()).is_some()", "$r.iter_components_matching::<$G>().count()"]
AREG_MUT = ["$r.find_archetype_mut(<$G as ComponentGroup>::DESCRIPTOR.archetype()).is_some()",
            "eat($r.find_or_create_archetype(<$G as ComponentGroup>::DESCRIPTOR.archetype()))",
            "$r.iter_components_matching_mut::<$G>().count()", "drop($r)", "$r = ArchetypeRegistry::default()"]

EREG_BORROWS = [
    ("EntityRegistry::entity_entry", "s", "$r.entity_entry($e)"),
    ("EntityRegistry::iter", "s", "$r.iter()"),
    ("EntityRegistry::entity_entry_mut", "m", "$r.entity_entry_mut($e)"),
]
EREG_SHARED = ["$r.entity_entry($e).is_some()", "$r.iter().count()", "$r.can_register_new_entity()"]
EREG_MUT = ["$r.destroy_entity($e)", "$r.entity_entry_mut($e).is_some()", "drop($r)", "$r = EntityRegistry::default()"]

WORLDS = [
    ("Registry", "Registry::default()", REG_BORROWS, REG_SHARED, REG_MUT, 6),
    ("Archetype", "Archetype::new(<$F as ComponentGroup>::DESCRIPTOR.archetype())", ARCH_BORROWS, ARCH_SHARED, ARCH_MUT, 3),
    ("ArchetypeRegistry", "ArchetypeRegistry::default()", AREG_BORROWS, AREG_SHARED, AREG_MUT, 3),
    ("EntityRegistry", "EntityRegistry::default()", EREG_BORROWS, EREG_SHARED, EREG_MUT, 2),
]


def group(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    l = rng.sample("ABCD", n)
    return l[0] if n == 1 else "(" + ", ".join(l) + ")"


def fill(t, rng, g=None):
    c = rng.choice("ABCD")
    return (t.replace("$G", g or group(rng)).replace("$F", "(A, B, C, D)").replace("$C", c).replace("$c", f"arg::<{c}>()")
            .replace("$e", "e").replace("$r", "r"))


def borrow_cases(rng, count):
    """Each case: (what, rejected function, accepted function)."""
    out = []
    pool = []
    for w in WORLDS:
        for b in w[2]:
            pool += [(w, b)] * w[5]
    base = [(w, b) for w in WORLDS for b in w[2]]
    todo = list(base)
    rng.shuffle(todo)
    while len(todo) < count:
        todo.append(rng.choice(pool))
    for i, (w, b) in enumerate(todo[:max(count, len(base))]):
        wname, mk, _, shared, muts, _ = w
        name, kind, expr = b
        mk = fill(mk, rng)
        mut = "let mut r = " + mk + ";"
        shape = rng.choice(["conflict"] * 6 + ["escape", "scope", "wrapped"])
        x = fill(expr, rng)
        noise = ""
        for _ in range(rng.randrange(3)):
            noise += f" let _ = {fill(rng.choice(shared if wname != 'Archetype' else ['r.len()']), rng)};"
        if shape == "escape":
            bad = f"{mut}{noise} let x = {x}; move || eat(x)"
            ok = f"{mut}{noise} let x = {x}; eat(x); move || ()"
            sig = "(e: Entity) -> impl FnOnce() "
            what = f"{wname}: result of {name} escapes"
            pre = f"{sig}{{ "
        elif shape == "scope":
            pre = "(e: Entity) { "
            bad = f"let x; {{ {mut}{noise} x = {x}; }} eat(x);"
            ok = f"{mut}{noise} let x; {{ x = {x}; }} eat(x);"
            what = f"{wname}: result of {name} outlives it"
            bad = bad
        else:
            l = list(muts) + (list(shared) if kind == "m" else [])
            conf = fill(rng.choice(l), rng)
            pre = "(e: Entity) { "
            what = f"{wname}: {name} and then {conf}"
            if shape == "wrapped":
                bad = f"{mut}{noise} let x = (0, Some({x})); {{ let _ = {conf}; }} eat(x);"
                ok = f"{mut}{noise} let x = (0, Some({x})); eat(x); {{ let _ = {conf}; }}"
            else:
                bad = f"{mut}{noise} let x = {x}; {{ let _ = {conf}; }} eat(x);"
                ok = f"{mut}{noise} let x = {x}; eat(x); {{ let _ = {conf}; }}"
        out.append((what, f"fn bad{i}{pre}{bad} }}", f"fn ok{i}{pre}{ok} }}"))
    n = len(out)
    # two uses of one mutable iterator's items at a time are fine; writing through a shared one is not
    for j, (what, bad, ok) in enumerate([
        ("two items of one mutable iterator", None,
         "{ let mut r = Registry::default(); let mut it = r.iter_components_matching_mut::<(A, B)>(); let x = it.next(); let y = it.next(); eat(x); eat(y); }"),
        ("item of a mutable iterator kept after the iterator", None,
         "{ let mut r = Registry::default(); let v: Vec<_> = r.iter_entity_components_matching_mut::<(A, B)>().collect(); eat(v); }"),
        ("item of a shared iterator kept after the iterator", None,
         "{ let mut r = Registry::default(); let v: Vec<_> = r.iter_filtered_components_matching::<A, _>(|_| true).collect(); eat(v); }"),
    ]):
        out.append((what, None, f"fn ok{n + j}() {ok}"))
    for j, (field, value) in enumerate([("&'a u32", "&x"), ("Option<&'a mut u32>", "Some(&mut x)"),
                                        ("Box<dyn Fn() -> u32 + Send + Sync + 'a>", "Box::new(|| x)"),
                                        ("std::slice::Iter<'a, u32>", "std::slice::from_ref(&x).iter()")]):
        head = f"use super::*; pub struct L<'a>({field}); "
        use = "let mut r = Registry::default(); let mut x = 5u32; "
        out.append((f"a component holding {field} outlives what it borrows",
                    f"mod bl{j} {{ {head} impl<'a> Component for L<'a> {{ const NAME: &'static str = \"L\"; }} pub fn go() {{ {use} let _ = r.create_entity(L({value})); }} }}",
                    f"mod ol{j} {{ {head} impl Component for L<'static> {{ const NAME: &'static str = \"L\"; }} pub fn go() {{ {use} eat(L({value})); }} }}"))
    return out


def component_cases(rng, count):
    """Component types: (what, field type, value, send, sync)."""
    atoms = [
        ("u32", "1u32", 1, 1), ("String", "String::new()", 1, 1), ("std::sync::atomic::AtomicU32", "std::sync::atomic::AtomicU32::new(0)", 1, 1),
        ("std::sync::Arc<u8>", "std::sync::Arc::new(1u8)", 1, 1),
        ("std::rc::Rc<u8>", "std::rc::Rc::new(1u8)", 0, 0), ("std::cell::Cell<u8>", "std::cell::Cell::new(1u8)", 1, 0),
        ("std::cell::RefCell<u8>", "std::cell::RefCell::new(1u8)", 1, 0), ("*const u8", "std::ptr::null::<u8>()", 0, 0),
        ("*mut u8", "std::ptr::null_mut::<u8>()", 0, 0), ("std::cell::UnsafeCell<u8>", "std::cell::UnsafeCell::new(1u8)", 1, 0),
        ("std::sync::MutexGuard<'static, u8>", "GUARD.lock().unwrap()", 0, 1),
        ("std::ptr::NonNull<u8>", "std::ptr::NonNull::<u8>::dangling()", 0, 0),
        ("std::sync::mpsc::Receiver<u8>", "std::sync::mpsc::channel::<u8>().1", 1, 0),
        ("Box<dyn Fn()>", "Box::new(|| ()) as Box<dyn Fn()>", 0, 0),
        ("Box<dyn Fn() + Send>", "Box::new(|| ()) as Box<dyn Fn() + Send>", 1, 0),
        ("Box<dyn Fn() + Sync>", "Box::new(|| ()) as Box<dyn Fn() + Sync>", 0, 1),
        ("Box<dyn Fn() + Send + Sync>", "Box::new(|| ()) as Box<dyn Fn() + Send + Sync>", 1, 1),
    ]

    def wrap(a, depth):
        t, v, s, y = a
        if depth == 0:
            return a
        k = rng.randrange(7)
        if k == 0:
            a = (f"Option<{t}>", f"Some({v})", s, y)
        elif k == 1:
            a = (f"Vec<{t}>", f"vec![{v}]", s, y)
        elif k == 2:
            a = (f"Box<{t}>", f"Box::new({v})", s, y)
        elif k == 3:
            u = rng.choice(atoms)
            a = (f"({t}, {u[0]})", f"({v}, {u[1]})", s & u[2], y & u[3])
        elif k == 4:
            a = (f"std::sync::Mutex<{t}>", f"std::sync::Mutex::new({v})", s, s)
        elif k == 5:
            a = (f"std::sync::Arc<{t}>", f"std::sync::Arc::new({v})", s & y, s & y)
        else:
            a = (f"std::cell::Cell<{t}>", f"std::cell::Cell::new({v})", s, 0)
        return wrap(a, depth - 1)

    cases = [a for a in atoms]
    while len(cases) < count:
        cases.append(wrap(rng.choice(atoms), rng.randrange(1, 4)))
    return cases


def component_functions(cases):
    out = []
    for i, (t, v, s, y) in enumerate(cases):
        for how, need in (("send", s), ("share", y)):
            if how == "send":
                body = "std::thread::spawn(move || { eat(r); });"
            else:
                body = "let q = &r; std::thread::scope(|s| { s.spawn(move || { eat(q.get_component::<K>(e).is_some()); }); eat(q.get_component::<K>(e).is_some()); });"
            mod = (f"mod m{i}{how} {{ use super::*; pub struct K(pub {t}); impl Component for K {{ const NAME: &'static str = \"K\"; }} "
                   f"pub fn go(e: Entity) {{ let mut r = Registry::default(); let _ = r.create_entity(K({v})); {body} }} }}")
            out.append((f"a registry with components holding {t} is "
                        + ("moved to another thread" if how == "send" else "shared by two threads"), bool(need), mod))
    return out


def rlib():
    """The library as the checks build it."""
    tdir = target_dir("release")
    env = cargo_env()
    clean = ["cargo", "clean", "--offline", "-p", "shard-ecs", "--release", "--target-dir", tdir]
    fresh(tdir, clean, env)
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-p", "shard-ecs", "--target-dir", tdir,
                        "--message-format=json"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "shard_ecs":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    return f, os.path.join(tdir, "release", "deps")
    raise BuildError("the library's rlib was not found")


def compile_items(tag, prelude, items, lib, deps):
    """Compiles one file with one item per line; returns per item the error codes whose primary span is in it,
    and the errors elsewhere."""
    d = os.path.join(WORK, "programs")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, f"{tag}.rs")
    first = prelude.count("\n") + 1
    with open(src, "w") as f:
        f.write(prelude)
        f.write("\n".join(items) + "\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata",
                        "-o", os.path.join(d, f"{tag}.rmeta"), "--error-format=json", "--cap-lints", "allow",
                        "--extern", f"shard_ecs={lib}", "-L", f"dependency={deps}", src],
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    got = [[] for _ in items]
    other = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            other.append(line)
            continue
        if m.get("level") != "error":
            continue
        code = (m.get("code") or {}).get("code")
        sp = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
        if code is None and not sp:
            continue  # "aborting due to ..."
        hit = False
        for s in sp:
            k = s["line_start"] - first
            if s["file_name"] == src and 0 <= k < len(items):
                got[k].append((code, m["message"]))
                hit = True
                break
        if not hit:
            other.append(m["message"])
    if r.returncode != 0 and not any(got) and not other:
        other.append(r.stderr[-500:])
    return got, other


ARG = "fn arg<T>() -> T { loop {} }\nstatic GUARD: std::sync::Mutex<u8> = std::sync::Mutex::new(0);\n"


def run_borrows(seed, count, ev, tag="borrow"):
    """Returns a failing (what, source) or None."""
    rng = random.Random(f"{tag}{seed}")
    prelude = PRELUDE + comps(rng) + ARG
    cases = borrow_cases(rng, count)
    lib, deps = rlib()
    oks = [c[2] for c in cases]
    got, other = compile_items("ok", prelude, oks, lib, deps)
    if other:
        return None, "the accepted programs do not compile: " + "; ".join(other[:3])
    usable = [i for i in range(len(cases)) if not got[i]]
    skipped = len(cases) - len(usable)
    # only one failing type check keeps the compiler from checking any borrow, so the others are left out
    usable = [i for i in usable if cases[i][1]]
    got, other = compile_items("bad", prelude, [cases[i][1] for i in usable], lib, deps)
    ev.labels["programs accepted as they should"] = ev.labels.get("programs accepted as they should", 0) + len(oks) - skipped
    if other:
        return None, "the programs to reject fail elsewhere: " + "; ".join(other[:3])
    fail = None
    for k, i in enumerate(usable):
        what, bad, _ = cases[i]
        ev.evaluations += 1
        if got[k]:
            ev.hashes.add((tag, hash_of(bad)))
            for c, _m in got[k][:1]:
                key = f"programs rejected with {c}"
                ev.labels[key] = ev.labels.get(key, 0) + 1
            if len(ev.samples) < 4 and k < 2:
                ev.samples.append({"program": bad, "rejected with": got[k][0][1]})
        elif fail is None:
            fail = (what, prelude + "\n" + bad + "\n", bad)
    if skipped > len(cases) // 2:
        return fail, f"{skipped} of {len(cases)} control programs do not compile: {first_error(lib, deps, prelude, oks)}"
    ev.extra["control programs left out because they do not compile"] = skipped
    return fail, None


def first_error(lib, deps, prelude, oks):
    got, _ = compile_items("ok", prelude, oks, lib, deps)
    for g in got:
        if g:
            return g[0]
    return ""


def hash_of(s):
    import hashlib
    return int(hashlib.sha256(s.encode()).hexdigest()[:15], 16)


def run_components(seed, count, ev):
    rng = random.Random(f"components{seed}")
    prelude = PRELUDE + ARG
    lib, deps = rlib()
    fs = component_functions(component_cases(rng, count))
    good = [f for f in fs if f[1]]
    bad = [f for f in fs if not f[1]]
    # always wanted of the registry itself
    base = ["fn base_send<T: Send>() {} fn base_sync<T: Sync>() {} fn base() { base_send::<Registry>(); base_sync::<Registry>(); base_send::<&'static mut Registry>(); base_send::<Archetype>(); base_sync::<Archetype>(); }"]
    got, other = compile_items("share_base", prelude, base, lib, deps)
    ev.evaluations += 1
    if any(c == "E0277" for c, _ in got[0]):
        return ("Registry is no longer Send and Sync: " + got[0][0][1], prelude + base[0], "accept"), None
    if got[0] or other:
        return None, f"probe does not compile: {got[0]} {other[:2]}"
    got, other = compile_items("share_ok", prelude, [f[2] for f in good], lib, deps)
    # a type that is only Send or only Sync may rightly be refused as a component altogether
    skip = 0
    for g, f in zip(got, good):
        ev.evaluations += 1
        if g:
            skip += 1
        else:
            ev.hashes.add(("components", hash_of(f[2])))
    ev.labels["thread programs accepted"] = ev.labels.get("thread programs accepted", 0) + len(good) - skip
    if skip == len(good):
        return None, f"no control program compiles: {got[0][:1]} {other[:2]}"
    got, other = compile_items("share_bad", prelude, [f[2] for f in bad], lib, deps)
    fail = None
    for g, f in zip(got, bad):
        ev.evaluations += 1
        if g:
            ev.hashes.add(("components", hash_of(f[2])))
            key = f"thread programs rejected with {g[0][0]}"
            ev.labels[key] = ev.labels.get(key, 0) + 1
        elif fail is None:
            fail = (f[0] + ", and compiles", prelude + f[2] + "\n", "reject")
    return fail, None


LAYOUT_PROGRAM = """#![allow(warnings)]
extern crate shard_ecs;
use shard_ecs::*;
use shard_ecs::component::Component;
$TYPE
impl Component for Big { const NAME: &'static str = "layout_big"; }
#[derive(PartialEq)] pub struct Small(u64);
impl Component for Small { const NAME: &'static str = "layout_small"; }
#[derive(PartialEq)] pub struct Text(String);
impl Component for Text { const NAME: &'static str = "layout_text"; }
const N: usize = $N;
fn bytes(s: u8) -> [u8; N] { let mut d = [0u8; N]; for i in 0..N { d[i] = (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ s; } d }
fn mk(s: u8) -> Box<Big> { Box::new($MAKE) }
fn same(b: &Big, s: u8) -> bool { let d = $GET; (0..N).all(|i| d[i] == (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ s) }
fn wrong(what: &str) -> ! { println!("WRONG {what}"); std::process::exit(9) }
fn main() {
    let mut r = Registry::default();
    let mut es: Vec<(Entity, u8)> = Vec::new();
    let near = r.create_entity((Text("near".into()), Small(77))).ok().unwrap();
    for s in 0..$COUNT as u8 {
        let e = $CREATE;
        es.push((e, s));
        for (e, s) in &es {
            match r.get_component::<Big>(*e) { Some(b) => if !same(b, *s) { wrong("value read back") }, None => wrong("component missing") }
            if (r.get_component::<Big>(*e).unwrap() as *const Big as usize) % std::mem::align_of::<Big>() != 0 { wrong("misaligned") }
        }
    }
    for (_, s) in &es { if r.iter_components_matching::<Big>().flat_map(|x| x.iter()).filter(|b| same(b, *s)).count() != 1 { wrong("iteration") } }
    let (e, s) = es.swap_remove($COUNT / 2);
    $REMOVE
    for (e, s) in &es {
        match r.get_component::<Big>(*e) { Some(b) => if !same(b, *s) { wrong("value after a removal") }, None => wrong("component missing after a removal") }
    }
    if r.get_components::<(Text, Small)>(near) != Some((&Text("near".into()), &Small(77))) { wrong("another entity's components") }
    drop(r);
}
"""


def layout_program(rng, over):
    """A program that stores components of one (large) layout, and checks them."""
    if over:
        by_align = rng.random() < 0.3
        size = rng.choice([65536, 65537, 65544, 66000, 70000, 131071, 131072, 131073, 131080, 196608, 200001, rng.randrange(65536, 300000)])
        align = rng.choice([65536, 131072]) if by_align else rng.choice([1, 2, 8, 64, 4096, 32768])
        if by_align:
            size = rng.choice([1, 100, 4096, 65536, 70000])
    else:
        align = rng.choice([1, 2, 8, 64, 4096, 32768])
        size = rng.choice([65535, 65535, 65534, 65528, 65000, 40000, 32769, 32768, rng.randrange(1, 65536)])
        size = min(size, 65535 // align * align)
    shape = rng.randrange(4)
    rep = f"#[repr(align({align}))] "
    if shape == 0:
        t, mk, get = rep + f"pub struct Big {{ d: [u8; {size}] }}", "Big { d: bytes(s) }", "&b.d"
    elif shape == 1:
        t, mk, get = rep + f"pub struct Big([u8; {size}]);", "Big(bytes(s))", "&b.0"
    elif shape == 2:
        t = f"{rep}pub struct Gen<T, const K: usize>(T, [u8; K]); pub type Big = Gen<(), {size}>;"
        mk, get = "Gen((), bytes(s))", "&b.1"
    elif over or size < 65535 - 2 * align:
        t, mk = rep + f"pub enum Big {{ V([u8; {size}]), W(u8) }}", "Big::V(bytes(s))"
        get = "match b { Big::V(d) => d, _ => wrong(\"variant\") }"
    else:
        t, mk, get = rep + f"pub struct Big {{ d: [u8; {size}] }}", "Big { d: bytes(s) }", "&b.d"
    route, back = rng.randrange(5), rng.randrange(3)
    refused = "Err(_) => return"
    create = [
        f"match r.create_entity(*mk(s)) {{ Ok(e) => e, {refused} }}",
        f"match r.create_entity((Small(5), *mk(s))) {{ Ok(e) => e, {refused} }}",
        f"match r.create_entity((*mk(s), Small(5), Text(\"x\".into()))) {{ Ok(e) => e, {refused} }}",
        f"{{ let e = r.create_entity(Small(5)).ok().unwrap(); match r.add_component(e, *mk(s)) {{ Ok(()) => e, {refused} }} }}",
        f"{{ let e = r.create_entity((Text(\"y\".into()), Small(5))).ok().unwrap(); match r.add_component(e, *mk(s)) {{ Ok(()) => e, {refused} }} }}",
    ][route]
    multi = route != 0
    if back == 0:
        remove = "if !r.destroy_entity(e) { wrong(\"destroy\") }"
    elif back == 1 and multi:
        remove = "match r.remove_component::<Big>(e) { Ok(b) => if !same(&b, s) { wrong(\"value removed\") }, Err(()) => wrong(\"removal refused\") }"
    else:
        g, pick = [("Big", "b"), ("(Big, Small)", "b.0"), ("(Text, Big, Small)", "b.1"), ("(Small, Big)", "b.1"),
                   ("(Big, Text, Small)", "b.0")][route]
        remove = f"match r.remove_entity::<{g}>(e) {{ Some(b) => if !same(&{pick}, s) {{ wrong(\"value removed with its entity\") }}, None => wrong(\"removal refused\") }}"
    src = LAYOUT_PROGRAM
    for k, v in (("$TYPE", t), ("$N", str(size)), ("$MAKE", mk), ("$GET", get), ("$COUNT", str(rng.choice([1, 2, 3, 5]))),
                 ("$CREATE", create), ("$REMOVE", remove)):
        src = src.replace(k, v)
    return f"size {size}, alignment {align}", src


def run_layout(tag, src, lib, deps):
    """("rejected", text), ("right", ""), ("panic", text) or ("wrong", text)."""
    d = os.path.join(WORK, "programs")
    os.makedirs(d, exist_ok=True)
    f, x = os.path.join(d, f"layout_{tag}.rs"), os.path.join(d, f"layout_{tag}")
    with open(f, "w") as h:
        h.write(src)
    c = subprocess.run(["rustc", "--edition", "2021", "-Copt-level=1", "-o", x, "--cap-lints", "allow", "--error-format=short",
                        "--extern", f"shard_ecs={lib}", "-L", f"dependency={deps}", f],
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if c.returncode != 0:
        return "rejected", c.stderr[-300:]
    try:
        r = subprocess.run([x], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "wrong", "no end within 60 s"
    finally:
        os.unlink(x)
    if r.returncode == 0:
        return "right", ""
    if r.returncode == 101:
        return "panic", r.stderr[-300:]
    return "wrong", (r.stdout + r.stderr)[-300:] or f"ended with status {r.returncode}"


def run_layouts(seed, count, ev):
    """Component types at and beyond the documented limits of size and alignment: within them they work, beyond them
    they are rejected (by the compiler, by an error or by a panic) or work."""
    rng = random.Random(f"layouts{seed}")
    lib, deps = rlib()
    cases = [(i % 3 != 0,) + layout_program(rng, i % 3 != 0) for i in range(count)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as p:
        res = list(p.map(lambda k: run_layout(k, cases[k][2], lib, deps), range(len(cases))))
    fail = err = None
    for (over, what, src), (verdict, text) in zip(cases, res):
        ev.evaluations += 1
        key = ("beyond" if over else "within") + " the layout limits: " + {"right": "works", "panic": "panics"}.get(verdict, verdict)
        ev.labels[key] = ev.labels.get(key, 0) + 1
        if verdict == "wrong":
            if fail is None:
                fail = (f"components of {what}: {text.strip()}", src, "layout")
        elif over:
            ev.hashes.add(("layout", hash_of(src)))
        elif verdict != "right":
            err = f"a component of {what} was not usable: {text}"
    return fail, None if fail else err


def replay_source(src, want):
    """0: as it should be; 1: not."""
    lib, deps = rlib()
    if want == "layout":
        verdict, text = run_layout("replay", src, lib, deps)
        return 1 if verdict == "wrong" else 0, f"{verdict} {text}"
    pre, item = src.rstrip("\n").rsplit("\n", 1)
    got, other = compile_items("replay", pre + "\n", [item], lib, deps)
    ok = (not got[0]) if want == "accept" else bool(got[0])
    return 0 if ok else 1, (got[0][0][1] if got[0] else "compiles")
