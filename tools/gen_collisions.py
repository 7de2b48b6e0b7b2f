#!/usr/bin/env python3
"""Writes harness/src/collide_data.rs: component-id sets whose FNV-1a hashes are chosen (0, u32::MAX,
5 = the id of a single component, and one arbitrary value), found by meeting in the middle."""
import os, random
P = 16777619; INV = pow(P, -1, 2**32); M = 2**32 - 1
rnd = random.Random(5)
def fwd(h, ids):
    for i in ids:
        for b in (i & 255, i >> 8): h = ((h ^ b) * P) & M
    return h
def bwd(h, ids):
    for i in reversed(ids):
        for b in (i >> 8, i & 255): h = ((h * INV) & M) ^ b
    return h
def find(target, k, n):
    h = target
    for _ in range(28 - 2 * k): h = (h * INV) & M
    tab, out = {}, []
    for _ in range(400000):
        ids = tuple(sorted(rnd.sample(range(1, 32000), k // 2)))
        tab[fwd(2166136261, ids)] = ids
    while len(out) < n:
        ids = tuple(sorted(rnd.sample(range(32001, 65534), k - k // 2)))
        s = bwd(h, ids)
        if s in tab and tab[s] + ids not in out: out.append(tab[s] + ids)
    return out
fams = []
for k in (3, 4, 5, 7, 10, 13, 14):
    if k == 3:
        fams.append(find(0, k, 4) + find(M, k, 4) + find(5, k, 1))
    else:
        fams.append(find(0, k, 6) + find(M, k, 6))
        fams.append(find(0x12345678, k, 10) + find(5, k, 1))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/collide_data.rs")
with open(p, "w") as f:
    f.write("// Generated by tools/gen_collisions.py\n/// Families of sets of component ids; the sets of a family share (nearly all) one identifier.\npub static FAMILIES: &[&[&[u16]]] = &[\n")
    for fam in fams:
        f.write("    &[\n")
        for s in fam: f.write("        &[%s],\n" % ", ".join(map(str, s)))
        f.write("    ],\n")
    f.write("];\n")
