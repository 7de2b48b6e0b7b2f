"""Random Rust type definitions for the derive check: as JSON-like dicts, rendered to modules."""
import random

# type, whether it may be in a module whose prelude names are shadowed
PLAIN = ["u8", "u16", "u32", "u64", "i32", "u128", "f32", "bool", "char", "()", "[u8; 5]", "[u64; 40]",
         "[[u16; 3]; 2]", "(u8, u32)", "&'static str", "[u8; 0]"]
RICH = PLAIN + ["String", "Vec<u16>", "Box<u32>", "Option<u32>", "Box<dyn crate::Sh>", "fn(u32) -> u32",
                "std::marker::PhantomData<u8>", "crate::Tr", "crate::Al32", "Option<Box<crate::Tr>>", "std::sync::Arc<u8>",
                "[crate::Tr; 3]", "Vec<String>", "(crate::Tr, u8)"]
WORDS = ["Foo", "Position", "Vel", "Hp", "Mesh", "Tag", "Item", "Quest", "Camera", "X", "A", "Light", "Body", "Kind"]
UNI = ["Größe", "Структура", "构件", "Éclair", "Ñandú", "Ωmega", "ß", "データ", "Żółć", "µ"]
CONTEXTUAL = ["union", "auto", "default", "raw", "safe", "macro_rules", "NAME", "ID", "DESCRIPTOR", "stringify", "input", "expanded"]
SHADOW = ["Option", "Vec", "String", "Box", "Some", "Result", "Send", "Sync", "Sized", "Drop", "Clone", "Copy", "Registry", "Entity",
          "Archetype", "ComponentGroup", "core", "alloc", "ComponentTypeId"]

# bounds, an argument satisfying them, a field type using the parameter
TPARAMS = [
    ("Send + Sync + 'static", "u8", "{}"),
    ("Send + Sync + 'static", "String", "{}"),
    ("Send + Sync + 'static", "crate::Tr", "Vec<{}>"),
    ("Copy + Send + Sync + 'static", "u32", "[{}; 3]"),
    ("Component", "crate::P1", "{}"),
    ("Component + Clone", "crate::P2", "Option<{}>"),
    ("?Sized + Send + Sync + 'static", "str", "std::marker::PhantomData<{}>"),
    ("?Sized + Sync + Send + 'static", "u64", "Box<{}>"),
    ("Into<u64> + Send + Sync + 'static", "u32", "({}, u8)"),
    ("'static + Send + Sync + Fn(u32) -> u32", "fn(u32) -> u32", "{}"),
    ("Iterator<Item = u8> + Send + Sync + 'static", "std::iter::Empty<u8>", "std::marker::PhantomData<{}>"),
    ("crate::Sh + Send + Sync + 'static", "u16", "{}"),
]
CPARAMS = [("usize", "4", "[u8; {}]"), ("usize", "0", "[u16; {}]"), ("bool", "true", None), ("char", "'x'", None),
           ("u8", "7", None), ("usize", "{ 1 + 2 }", "[crate::Tr; {}]"), ("i64", "-3", None)]


def name(r):
    k = r.random()
    if k < 0.45:
        n = "".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))
        return n + (str(r.randint(0, 99)) if r.random() < 0.4 else "")
    if k < 0.55:
        return "_".join(r.choice(WORDS).lower() for _ in range(r.randint(1, 3)))
    if k < 0.62:
        return "_" * r.randint(1, 3) + r.choice(WORDS) + "_" * r.randint(0, 2)
    if k < 0.68:
        return r.choice("ABCDEFGHIJKLMNOQRSTUVWXYZ") + r.choice(["", "9", "x", "_"])
    if k < 0.80:
        return r.choice(UNI) + r.choice(["", "2", "_a", r.choice(UNI)])
    if k < 0.86:
        return "L" + "".join(r.choice("abcdefgh_0123") for _ in range(r.randint(60, 220)))
    if k < 0.94:
        return r.choice(CONTEXTUAL)
    return r.choice(SHADOW)


def fields(r, pool, lo, hi):
    out = []
    for i in range(r.randint(lo, hi)):
        out.append({
            "ty": r.choice(pool),
            "vis": r.choice(["", "", "pub ", "pub(crate) "]),
            "attr": r.choice([""] * 6 + ["#[allow(dead_code)] ", "/// field \"quoted\" { } \n", "#[cfg(all())] ", "#[doc = \"x\"] "]),
            "name": r.choice(["f", "x", "NAME", "name", "r#type", "value", "self_", "größe"]) + str(i) if r.random() < 0.9 else "r#fn" if i == 0 else f"g{i}",
        })
    return out


def item(r):
    n = name(r)
    shadow = n in SHADOW
    it = {"name": n, "kind": r.choice(["unit", "tuple", "tuple", "named", "named", "enum", "enum"]), "salt": r.getrandbits(32)}
    it["vis"] = r.choice(["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "])
    it["place"] = "mod" if shadow else r.choice(["mod", "mod", "mod", "fn", "nested", "macro_tt", "macro_frag"])
    it["route"] = r.choice(["glob", "named", "both"])
    it["derive"] = r.choice(["alone", "alone", "others_before", "others_after", "split", "cfg_attr", "path"])
    if shadow:
        it["derive"] = r.choice(["alone", "path"])
    attrs = []
    pool = PLAIN if shadow else RICH
    if r.random() < 0.3:
        attrs.append(r.choice(["/// A doc comment with #[derive(Component)] and \"quotes\" and `stringify!`.", "/** block */",
                               "#[doc(hidden)]", "#[doc = concat!(\"a\", \"b\")]"]))
    if r.random() < 0.3:
        attrs.append(r.choice(["#[allow(dead_code)]", "#[must_use]", "#[non_exhaustive]", "#[cfg(all())]",
                               "#[allow(clippy::all, nonstandard_style)]", "#[cfg_attr(all(), allow(unused))]", "#[deprecated]", "#[expect(unused, unfulfilled_lint_expectations)]"]))
    it["packed"] = False
    it["generics"] = []
    it["where"] = []
    it["variants"] = []
    it["fields"] = []
    if it["kind"] == "enum":
        fieldless = r.random() < 0.35
        nv = r.choice([0, 1, 2, 2, 3, 5]) if r.random() < 0.9 else 40
        for i in range(nv):
            sh = "unit" if fieldless else r.choice(["unit", "tuple", "named"])
            it["variants"].append({
                "name": f"V{i}" if r.random() < 0.8 else n + str(i),
                "shape": sh,
                "disc": f" = {i * 3 + 1}" if fieldless and r.random() < 0.5 else "",
                "fields": [dict(f, vis="") for f in fields(r, pool, 0 if sh != "named" else 1, 3)] if sh != "unit" else [],
                "attr": r.choice([""] * 5 + ["/// variant\n", "#[allow(dead_code)] ", "#[non_exhaustive] "]),
            })
        if fieldless and nv and r.random() < 0.4:
            attrs.append(r.choice(["#[repr(u8)]", "#[repr(i64)]", "#[repr(C)]"]))
        # explicit and implicit discriminants may clash
        if fieldless and any(v["disc"] for v in it["variants"]):
            for i, v in enumerate(it["variants"]):
                v["disc"] = f" = {i * 3 + 1}"
    elif it["kind"] != "unit":
        lo = 0
        it["fields"] = fields(r, pool, lo, 4 if r.random() < 0.9 else 20)
        q = r.random()
        if q < 0.12:
            attrs.append("#[repr(C)]")
        elif q < 0.24:
            attrs.append(f"#[repr(align({r.choice([1, 2, 16, 64, 256])}))]")
        elif q < 0.29 and not shadow:
            it["packed"] = True
            attrs.append("#[repr(packed)]")
            it["fields"] = fields(r, ["u8", "u16", "u32", "u64", "f32", "()"], 1, 4)
            it["derive"] = r.choice(["alone", "cfg_attr"])
    it["attrs"] = attrs
    # generics
    if not shadow and not it["packed"] and r.random() < 0.4 and not (it["kind"] == "enum" and not it["variants"]):
        gens = []
        used = []
        if r.random() < 0.25:
            for l in ["'a", "'life"][: r.randint(1, 2)]:
                gens.append({"k": "life", "n": l, "b": "'static", "arg": "'static"})
                used.append(f"&{l} str")
        for i in range(r.randint(0, 3)):
            if r.random() < 0.7:
                b, a, f = r.choice(TPARAMS)
                pn = r.choice(["T", "U", "G", "Name", "C"]) + str(i)
                gens.append({"k": "type", "n": pn, "b": b, "arg": a, "wh": r.random() < 0.5, "default": None})
                used.append(f.format(pn))
            else:
                t, a, f = r.choice(CPARAMS)
                pn = r.choice(["N", "M", "LEN"]) + str(i)
                gens.append({"k": "const", "n": pn, "b": t, "arg": a, "default": None})
                if f:
                    used.append(f.format(pn))
        if gens and r.random() < 0.35 and gens[-1]["k"] != "life":
            g = gens[-1]
            g["default"] = g["arg"]
        it["generics"] = gens
        for ty in used:
            f = {"ty": ty, "vis": "", "attr": "", "name": f"p{len(it['fields'])}"}
            if it["kind"] == "enum":
                shaped = [v for v in it["variants"] if v["shape"] != "unit"]
                if not shaped:
                    v = {"name": "Vg", "shape": "tuple", "disc": "", "fields": [], "attr": ""}
                    for w in it["variants"]:
                        w["disc"] = ""
                    it["attrs"] = [a for a in it["attrs"] if "repr" not in a]
                    it["variants"].append(v)
                    shaped = [v]
                r.choice(shaped)["fields"].append(f)
            else:
                if it["kind"] == "unit":
                    it["kind"] = "tuple"
                it["fields"].append(f)
        for v in it["variants"]:
            for i, f in enumerate(v["fields"]):
                if f["name"].startswith("p"):
                    f["name"] = f"p{i}"
    if r.random() < 0.15 and not shadow:
        it["where"] = [r.choice(["u8: Copy", "String: Clone", "for<'q> &'q u8: Copy", "Vec<u8>: Send"])]
    it["drive"] = r.random() < 0.25
    # unique field names
    for fs in [it["fields"]] + [v["fields"] for v in it["variants"]]:
        seen = set()
        for i, f in enumerate(fs):
            if f["name"] in seen:
                f["name"] = f"u{i}_{len(seen)}"
            seen.add(f["name"])
    return it


def uninhabited(it):
    return it["kind"] == "enum" and not it["variants"]


def generics(it):
    """<declaration>, <instantiation>, where clause"""
    decl, args, wh = [], [], list(it["where"])
    for g in it["generics"]:
        if g["k"] == "life":
            decl.append(f"{g['n']}: {g['b']}")
        elif g["k"] == "type":
            b = g["b"]
            d = f" = {g['default']}" if g["default"] else ""
            if g["wh"]:
                # ?Sized stays where it must be
                if b.startswith("?Sized + "):
                    decl.append(f"{g['n']}: ?Sized{d}")
                    b = b[len("?Sized + "):]
                else:
                    decl.append(g["n"] + d)
                wh.append(f"{g['n']}: {b}")
            else:
                decl.append(f"{g['n']}: {b}{d}")
        else:
            d = f" = {g['default']}" if g["default"] else ""
            decl.append(f"const {g['n']}: {g['b']}{d}")
        args.append(g["arg"])
    d = "<" + ", ".join(decl) + ">" if decl else ""
    a = "<" + ", ".join(args) + ">" if args else ""
    w = " where " + ", ".join(wh) if wh else ""
    return d, a, w


def impl_generics(it):
    d = []
    for g in it["generics"]:
        if g["k"] == "const":
            d.append(f"const {g['n']}: {g['b']}")
        elif g["k"] == "life":
            d.append(f"{g['n']}: {g['b']}")
        elif g["wh"]:
            d.append(f"{g['n']}: ?Sized" if g["b"].startswith("?Sized") else g["n"])
        else:
            d.append(f"{g['n']}: {g['b']}")
    return ("<" + ", ".join(d) + ">" if d else ""), ("<" + ", ".join(g["n"] for g in it["generics"]) + ">" if d else "")


def body(fs, shape, vis=True):
    if shape == "tuple":
        return "(" + ", ".join(f"{f['attr']}{f['vis'] if vis else ''}{f['ty']}" for f in fs) + ")"
    return " { " + ", ".join(f"{f['attr']}{f['vis'] if vis else ''}{f['name']}: {f['ty']}" for f in fs) + " }"


def definition(it, derive, n=None):
    d, _, w = generics(it)
    n = n or it["name"]
    out = []
    others = "Clone, Debug"
    if derive:
        out += {
            "alone": ["#[derive(Component)]"],
            "path": ["#[derive(::shard_ecs::Component)]"],
            "others_before": [f"#[derive({others}, Component)]"],
            "others_after": [f"#[derive(Component, {others})]"],
            "split": ["#[derive(Clone)]", "#[derive(Component)]", "#[derive(Debug)]"],
            "cfg_attr": ["#[cfg_attr(all(), derive(Component))]"],
        }[it["derive"]]
    elif it["derive"] in ("others_before", "others_after", "split"):
        out.append(f"#[derive({others})]")
    out = out + it["attrs"] if it["salt"] & 1 else it["attrs"] + out
    if it["kind"] == "unit":
        s = f"{it['vis']}struct {n}{d}{w};"
    elif it["kind"] == "tuple":
        s = f"{it['vis']}struct {n}{d}{body(it['fields'], 'tuple')}{w};"
    elif it["kind"] == "named":
        s = f"{it['vis']}struct {n}{d}{w}{body(it['fields'], 'named')}"
    else:
        vs = []
        for v in it["variants"]:
            b = "" if v["shape"] == "unit" else body(v["fields"], v["shape"], False)
            vs.append(f"{v['attr']}{v['name']}{b}{v['disc']}")
        s = f"{it['vis']}enum {n}{d}{w} {{ {', '.join(vs)} }}"
    return "\n".join(out + [s])


def make_expr(it):
    n = it["name"]

    def ctor(path, shape, fs, off):
        if shape == "unit":
            return path
        es = [f"crate::Fld::mk(s.wrapping_add({off + i}))" for i in range(len(fs))]
        if shape == "tuple":
            return f"{path}({', '.join(es)})"
        return f"{path} {{ {', '.join(f['name'] + ': ' + e for f, e in zip(fs, es))} }}"

    if it["kind"] != "enum":
        return ctor(n, it["kind"], it["fields"], 1)
    arms = []
    k = len(it["variants"])
    for i, v in enumerate(it["variants"]):
        pat = "_" if i == k - 1 else str(i)
        arms.append(f"{pat} => {ctor(n + '::' + v['name'], v['shape'], v['fields'], 7 * i)}")
    return f"match s % {k} {{ {', '.join(arms)} }}"


def digest_expr(it):
    n = it["name"]

    def pat(path, shape, fs):
        if shape == "unit":
            return path, "1u64"
        vs = [f"z{i}" for i in range(len(fs))]
        dg = " ^ ".join([f"crate::Fld::dg({v}).rotate_left({i % 60})" for i, v in enumerate(vs)] + ["0u64"])
        if shape == "tuple":
            return f"{path}({', '.join(vs)})", dg
        return f"{path} {{ {', '.join(f['name'] + ': ' + v for f, v in zip(fs, vs))} }}", dg

    if it["kind"] != "enum":
        p, d = pat(n, it["kind"], it["fields"])
        return f"match x {{ {p} => {d} }}"
    arms = []
    for i, v in enumerate(it["variants"]):
        p, d = pat(n + "::" + v["name"], v["shape"], v["fields"])
        arms.append(f"{p} => ({d}).wrapping_add({i})")
    return f"match x {{ {', '.join(arms)} }}"


def module(it, derive):
    """The text of one module; `run` returns the facts of the type as text."""
    _, args, w = generics(it)
    ig, tg = impl_generics(it)
    uses = {"glob": "use shard_ecs::*;", "named": "use shard_ecs::Component;",
            "both": "use shard_ecs::component::Component; use shard_ecs_derive::Component;"}[it["route"]]
    if not derive:
        # the trait only
        uses = "use shard_ecs::component::Component;"
    hand = "" if derive else f"impl{ig} Component for {it['name']}{tg}{w} {{ const NAME: &'static str = \"{it['name']}\"; }}"
    d = definition(it, derive)
    n = it["name"]
    pre = ""
    if it["place"] == "macro_tt":
        d = "macro_rules! def { ($($t:tt)*) => { $($t)* } }\ndef! { " + d + " }"
    elif it["place"] == "macro_frag":
        if it["kind"] == "tuple" and not it["generics"] and not it["where"]:
            tys = ", ".join(f["ty"] for f in it["fields"])
            dv = definition(it, derive).splitlines()
            attrs = "\n".join(dv[:-1]) if not any("\n" in f["attr"] for f in it["fields"]) else "#[derive(Component)]" if derive else ""
            if any("\n" in f["attr"] for f in it["fields"]) and not derive and it["derive"] in ("others_before", "others_after", "split"):
                attrs = ""
            d = f"macro_rules! def {{ ($n:ident, $v:vis, $($f:ty),*) => {{ {attrs}\n $v struct $n($($f),*); }} }}\ndef! {{ {n}, {it['vis']}, {tys} }}"
        else:
            d = f"macro_rules! def {{ ($n:ident) => {{ {definition(it, derive, '$n')} }} }}\ndef! {{ {n} }}"
    drive = it["drive"] and not it["packed"] and not uninhabited(it)
    facts = f"crate::facts::<{n}{args}>(out);"
    if drive:
        facts += (f"\nfn make(s: u32) -> {n}{args} {{ {make_expr(it)} }}\nfn digest(x: &{n}{args}) -> u64 {{ {digest_expr(it)} }}\n"
                  f"crate::drive::<{n}{args}>(out, {it['salt']}, make, digest);")
    run = f"pub fn run(out: &mut std::string::String) {{\n@@{facts}\n}}"
    head = "#![allow(warnings)]\n" + uses + "\n"
    defs = d + "\n" + hand + "\n"
    if it["place"] == "fn":
        return head + run.replace("@@", defs)
    if it["place"] == "nested":
        return head + "pub use inner::run;\nmod inner {\nuse super::*;\n" + defs + run.replace("@@", "") + "\n}"
    return head + defs + run.replace("@@", "")


def simpler(it):
    """Smaller variants of an item, most drastic first."""
    import copy

    def alt(**kw):
        c = copy.deepcopy(it)
        c.update(kw)
        return c

    if it["generics"]:
        for i in range(len(it["generics"])):
            g = it["generics"][i]["n"]
            import re
            uses = lambda f: re.search(r"(?<![\w'])" + re.escape(g) + r"(?!\w)", f["ty"])
            c = copy.deepcopy(it)
            del c["generics"][i]
            c["fields"] = [f for f in c["fields"] if not uses(f)]
            for v in c["variants"]:
                v["fields"] = [f for f in v["fields"] if not uses(f)]
            yield c
    for k, v in (("attrs", []), ("where", []), ("place", "mod"), ("derive", "alone"), ("route", "named"), ("vis", ""), ("drive", False)):
        if it[k] != v:
            yield alt(**{k: v})
    used = lambda f: any(g["n"] in f["ty"] for g in it["generics"])
    for i, f in enumerate(it["fields"]):
        if not used(f):
            c = copy.deepcopy(it)
            del c["fields"][i]
            yield c
        for k in ("attr", "vis"):
            if f[k]:
                c = copy.deepcopy(it)
                c["fields"][i][k] = ""
                yield c
    for i, v in enumerate(it["variants"]):
        if not any(used(f) for f in v["fields"]):
            c = copy.deepcopy(it)
            del c["variants"][i]
            yield c
    for i, g in enumerate(it["generics"]):
        if g.get("default"):
            c = copy.deepcopy(it)
            c["generics"][i]["default"] = None
            yield c
        if g.get("wh"):
            c = copy.deepcopy(it)
            c["generics"][i]["wh"] = False
            yield c
    if it["name"] != "Foo":
        yield alt(name="Foo")
        yield alt(name=it["name"][: max(1, len(it["name"]) // 2)])
