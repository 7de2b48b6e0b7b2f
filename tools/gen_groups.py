#!/usr/bin/env python3
"""Writes harness/src/groups_gen.rs: the table of component groups (tuples) used by the harness."""
import itertools, os, random
rnd = random.Random(20240607)
groups = []          # lists of type indices
def add(g):
    g = list(g)
    if g not in groups: groups.append(g)
for i in range(26): add([i])
# every ordered subset of four structurally different types (zero-sized, 1 byte, 8 bytes, heap)
core = [0, 1, 5, 8]
for k in (2, 4):
    for p in itertools.permutations(core, k): add(p)
for p in list(itertools.permutations(core, 3))[::3]: add(p)
# chains: each longer set contains the shorter one, several orders each; for lengths 2..14
small = list(range(20))
for chain in range(2):
    base = small[:]; rnd.shuffle(base)
    for k in range(2, 15):
        s = base[:k]
        o1 = s[:]; rnd.shuffle(o1); add(o1)
        if chain < 1:
            o2 = s[:]; rnd.shuffle(o2); add(o2)
        if k >= 13:
            add(reversed(s))
# other sets of every length
for k in range(2, 15):
    for _ in range(1 if k < 12 else 2):
        s = rnd.sample(small, k); add(s)
NSMALLSETS = len(groups)
# extreme layouts
add([20, 21]); add([22, 1]); add([21, 8, 20]); add([25, 23]); add([24, 22, 0]); add([9, 24]); add([25, 20, 21, 22, 23, 24])
add([5, 22, 16, 25]); add([23, 10, 21])
# different sets whose identifiers collide, and a set whose hash is u32::MAX (see comps.rs)
for i in range(26, 32): add([i])
for g in ([1,3,4,6,10,11,12,17], [1,3,6,9,11,17,18,19], [0,1,2,3,5,6,8,9,13,17,18], [0,1,2,4,5,6,10,11,13,15,18],
          [26,27,28,29], [30,31], [5,8]):
    for _ in range(2):
        o = g[:]; rnd.shuffle(o); add(o)
    add(g)
add([26,27]); add([28,29,26]); add([5,30]); add([8,31,5]); add([29,28,27,26,5])
valid = len(groups)
# groups repeating a type
bad = [[0,0],[1,1],[8,8],[5,8,5],[1,5,5],[9,9,9],[0,1,5,8,0],[13,4,7,4]]
for k in (6,8,9,11,13,14):
    s = rnd.sample(small, k-1); s.insert(rnd.randrange(k), rnd.choice(s)); bad.append(s)
for k in range(3, 15):
    s = rnd.sample(small, k-1); bad.append(s + [s[0]])
for k in (4, 7, 12, 14):
    s = rnd.sample(small, k-1); bad.append([s[0]] + s); s = rnd.sample(small, k-1); bad.append(s + [s[-1]])
for b in bad: groups.append(b)
assert all(len(set(g)) == len(g) for g in groups[:valid]) and all(len(set(g)) < len(g) for g in groups[valid:])
def ty(g): return "C%d" % g[0] if len(g) == 1 else "(" + ", ".join("C%d" % i for i in g) + ")"
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/groups_gen.rs")
with open(out, "w") as f:
    f.write("// Generated by tools/gen_groups.py\n")
    f.write(f"pub const NG_VALID: usize = {valid};\npub const NG: usize = {len(groups)};\n")
    f.write("pub static GROUPS: [GroupVt; NG] = [\n")
    for i, g in enumerate(groups): f.write(f"    {"gvv" if i % 9 == 0 else "gvt"}::<{ty(g)}>(),\n")
    f.write("];\n")
    # The same tuples as types, for properties about the group traits themselves.
    f.write("#[macro_export]\nmacro_rules! for_all_groups {\n    ($m:ident) => {\n")
    for i, g in enumerate(groups): f.write(f"        $m!({i}, {ty(g)});\n")
    f.write("    };\n}\n")
print(len(groups), valid)
