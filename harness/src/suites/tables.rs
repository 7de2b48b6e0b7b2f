//! Suites over the parts of a registry used on their own: one archetype, the archetype registry and
//! the entity table.

use super::pure::{distinct, dyn_id, group_new, Dyn};
use crate::collide_data::FAMILIES;
use crate::comps::*;
use crate::ensure;
use crate::groups::*;
use crate::runner::*;
use crate::world::*;
use crate::{guard, ledger};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_descriptor::ComponentDescriptor;
use shard_ecs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn ent(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

// ---------------------------------------------------------------------------------------------
// C12

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum T {
    Push { k: u8 },
    PushMany { k: u8, n: u16 },
    /// push without data, then write every component on its own, in this rotation
    PushParts { rot: u8 },
    /// take the old components out, then write a whole row
    Rewrite { row: u16, k: u8 },
    Swap { a: u16, b: u16 },
    /// move to the end, then take the components out and forget the row
    TakeLast { row: u16 },
    /// move to the end, drop it there and forget the row
    DropLast { row: u16 },
    ToLast { row: u16 },
    SwapRemove { row: u16, k: u8 },
    SwapRemoveMany { row: u16, n: u16, k: u8 },
    SwapDrop { row: u16 },
    SwapDropMany { row: u16, n: u16 },
    SetOne { row: u16, t: u8 },
    SetColumn { k: u8, t: u8 },
    SetEntity { row: u16 },
    /// move a row to the other archetype, the way a component is added or removed
    Migrate { row: u16 },
    Other,
    Observe,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TableCase {
    pub g: u16,
    pub caps: (u32, u32),
    /// the type by which the second archetype differs
    pub t: u8,
    /// instead: the set of the second archetype
    #[serde(default)]
    pub g2: Option<u16>,
    pub ops: Vec<T>,
}

struct Tab {
    a: Archetype,
    mask: u32,
    groups: Vec<usize>,
    subs: Vec<usize>,
    rows: Vec<(u32, [u32; NT])>,
    cap0: u32,
}

fn table_case(tiny: bool) -> BoxedStrategy<TableCase> {
        let b = any::<u8>;
        let r = any::<u16>;
        let n = move || {
            if tiny {
                (1u16..6).boxed()
            } else {
                prop_oneof![3 => 1u16..10, 2 => 100u16..300, 1 => 250u16..1100].boxed()
            }
        };
        let op = prop_oneof![
            10 => b().prop_map(|k| T::Push { k }),
            4 => (b(), n()).prop_map(|(k, n)| T::PushMany { k, n }),
            5 => b().prop_map(|rot| T::PushParts { rot }),
            3 => (r(), b()).prop_map(|(row, k)| T::Rewrite { row, k }),
            4 => (r(), r()).prop_map(|(a, b)| T::Swap { a, b }),
            3 => r().prop_map(|row| T::TakeLast { row }),
            3 => r().prop_map(|row| T::DropLast { row }),
            2 => r().prop_map(|row| T::ToLast { row }),
            6 => (r(), b()).prop_map(|(row, k)| T::SwapRemove { row, k }),
            1 => (r(), n(), b()).prop_map(|(row, n, k)| T::SwapRemoveMany { row, n, k }),
            6 => r().prop_map(|row| T::SwapDrop { row }),
            1 => (r(), n()).prop_map(|(row, n)| T::SwapDropMany { row, n }),
            3 => (r(), b()).prop_map(|(row, t)| T::SetOne { row, t }),
            1 => (b(), b()).prop_map(|(k, t)| T::SetColumn { k, t }),
            2 => r().prop_map(|row| T::SetEntity { row }),
            6 => r().prop_map(|row| T::Migrate { row }),
            3 => Just(T::Other),
            2 => Just(T::Observe),
        ];
        let cap = move || {
            if tiny {
                return prop_oneof![1 => Just(u32::MAX), 4 => 0u32..6].boxed();
            }
            prop_oneof![
                3 => Just(u32::MAX), 4 => Just(0u32), 3 => 1u32..4, 2 => 120u32..135, 1 => 1u32..600,
                1 => Just(MAX_ENTITIES_PER_ARCHETYPE + 1), 1 => Just(u32::MAX - 1)
            ]
            .boxed()
        };
        let g = prop_oneof![6 => 0u16..NG_VALID as u16, 1 => proptest::sample::select(tables().wide.clone()),
            1 => proptest::sample::select(tables().perm.clone())];
        let wide = tables().wide.clone();
        let g2 = prop_oneof![3 => 0u16..NG_VALID as u16, 2 => proptest::sample::select(wide)];
        let g2 = if tiny { Just(None).boxed() } else { proptest::option::weighted(0.5, g2).boxed() };
        let g = if tiny {
            let small: Vec<u16> = (0..NG_VALID)
                .filter(|g| tables().groups[*g].row_bytes < 120 && tables().groups[*g].ixs.len() <= 5)
                .map(|g| g as u16)
                .collect();
            proptest::sample::select(small).boxed()
        } else {
            g.boxed()
        };
        (g, (cap(), cap()), any::<u8>(), g2, proptest::collection::vec(op, if tiny { 2..10 } else { 1..50 }))
            .prop_map(|(g, caps, t, g2, ops)| TableCase { g, caps, t, g2, ops })
            .boxed()
    }

pub struct C12;
impl Suite for C12 {
    const NAME: &'static str = "C12";
    const RULE: &'static str = "random sequences of push, row write, swap, removal, drop, single-component write and migration between two archetypes (capacities 0 to several times the default and beyond the maximum) for all static component sets, compared with a list of rows through every reading path, with a ledger of values and an allocator that checks layouts and redzones; non-trivial: rows were swapped, removed or migrated while at least two rows existed, or the table grew";
    type Case = TableCase;
    fn strategy(_t: Tier) -> BoxedStrategy<TableCase> {
        table_case(false)
    }
    fn run(c: &TableCase, ctx: &mut Ctx) -> R {
        let r = run_table(c, ctx);
        r?;
        if let Some(p) = ledger::problems() {
            return Err(format!("at teardown: {p}"));
        }
        if let Some(((t, k), n)) = ledger::alive().into_iter().next() {
            return Err(format!("{n} values #{k} of C{t} were not dropped with their archetype"));
        }
        if !cfg!(any(miri, feature = "asan")) {
            guard::sweep();
            if let Some(p) = guard::problems() {
                return Err(format!("at teardown: {p}"));
            }
        }
        ctx.nontrivial = ctx.get("growths") > 0
            || ctx.get("rows swapped") + ctx.get("rows removed") + ctx.get("rows migrated") > 0;
        Ok(())
    }
}

/// The same, small, for an interpreter that reports undefined behaviour.
pub struct C12m;
impl Suite for C12m {
    const NAME: &'static str = "C12m";
    const RULE: &'static str = "short random sequences of calls on two archetypes with small components, run under Miri, results compared with a list of rows as well; non-trivial: rows were swapped, removed or migrated, or the table grew";
    type Case = TableCase;
    fn strategy(_t: Tier) -> BoxedStrategy<TableCase> {
        table_case(true)
    }
    fn run(c: &TableCase, ctx: &mut Ctx) -> R {
        C12::run(c, ctx)
    }
}

fn make(d: &ArchetypeDescriptor, cap: u32) -> Archetype {
    if cap == u32::MAX {
        Archetype::new(d)
    } else {
        Archetype::with_capacity(d, cap)
    }
}

fn tab(d: &ArchetypeDescriptor, mask: u32, cap: u32) -> Tab {
    let t = tables();
    Tab {
        a: make(d, cap),
        mask,
        groups: t.by_mask.get(&mask).cloned().unwrap_or_default(),
        subs: (0..NG_VALID).filter(|g| t.groups[*g].mask & !mask == 0).collect(),
        rows: vec![],
        cap0: cap,
    }
}

impl Tab {
    fn width(&self) -> usize {
        bits(self.mask).map(|t| TYPES[t].size).sum::<usize>() + 4
    }
    fn row(&self, r: u16) -> Option<usize> {
        if self.rows.is_empty() {
            None
        } else {
            Some(r as usize % self.rows.len())
        }
    }
    fn check(&mut self, salt: usize, full: bool) -> R {
        let n = self.rows.len();
        ensure!(self.a.len() as usize == n, "the table has {n} rows, len() answers {}", self.a.len());
        let cap = self.a.capacity();
        ensure!(cap as usize >= n, "len {n} exceeds the capacity {cap}");
        ensure!(
            self.a.is_full() == (cap as usize == n),
            "is_full() answers {} with {n} rows and capacity {cap}",
            self.a.is_full()
        );
        let e: Vec<u32> = self.a.entities().iter().map(|e| e.raw()).collect();
        let want: Vec<u32> = self.rows.iter().map(|r| r.0).collect();
        ensure!(e == want, "the entity list differs from the table: {}", diff(&e, &want));
        let e: Vec<u32> = self.a.entities_mut().iter().map(|e| e.raw()).collect();
        ensure!(e == want, "the mutable entity list differs from the table");
        let rows: Vec<usize> = if full || n <= 6 {
            (0..n).collect()
        } else {
            vec![0, n - 1, salt % n, (salt * 7 + 3) % n, n / 2]
        };
        for t in bits(self.mask) {
            for r in &rows {
                let o = unsafe { (TYPES[t].arch_get)(&self.a, *r as u32) };
                same(&o.key, t, *r, self.rows[*r].1[t], "get_component")?;
            }
        }
        if let Some(r) = rows.get(salt % rows.len().max(1)) {
            for t in bits(self.mask) {
                let o = unsafe { (TYPES[t].arch_get_mut)(&mut self.a, *r as u32, None) };
                same(&o.key, t, *r, self.rows[*r].1[t], "get_component_mut")?;
            }
        }
        for j in 0..3.min(self.groups.len()) {
            let g = self.groups[(salt + j) % self.groups.len()];
            let gi = &tables().groups[g];
            let c = unsafe { (GROUPS[g].arch.slices_exact)(&self.a) };
            self.cols(&c, &gi.ixs, &rows, "exact slices")?;
            let c = unsafe { (GROUPS[g].arch.slices_exact_mut)(&mut self.a) };
            self.cols(&c, &gi.ixs, &rows, "exact mutable slices")?;
            for r in rows.iter().take(3) {
                let k = unsafe { (GROUPS[g].arch.read_exact)(&self.a, *r as u32) };
                for (i, t) in gi.ixs.iter().enumerate() {
                    same(&k[i], *t, *r, self.rows[*r].1[*t], "read_components_exact")?;
                }
            }
        }
        for j in 0..4.min(self.subs.len()) {
            let g = self.subs[(salt * 3 + j * 17) % self.subs.len()];
            let gi = &tables().groups[g];
            let v = &GROUPS[g].arch;
            unsafe {
                let c = (v.slices)(&self.a);
                self.cols(&c, &gi.ixs, &rows, "subset slices")?;
                let c = (v.slices_mut)(&mut self.a);
                self.cols(&c, &gi.ixs, &rows, "mutable subset slices")?;
                for muta in [false, true] {
                    let ch = if muta { (v.ent_slices_mut)(&mut self.a) } else { (v.ent_slices)(&self.a) };
                    self.cols(&ch.cols, &gi.ixs, &rows, "subset slices with entities")?;
                    let e: Vec<u32> = ch.ents.unwrap().iter().map(|e| e.raw()).collect();
                    ensure!(e == want, "the entities beside subset slices differ from the table");
                }
                for r in rows.iter().take(3) {
                    let o = (v.get)(&self.a, *r as u32);
                    for (i, t) in gi.ixs.iter().enumerate() {
                        same(&o[i].key, *t, *r, self.rows[*r].1[*t], "subset references")?;
                    }
                    let mut res = Ok(());
                    let rows = &self.rows;
                    (v.get_mut)(&mut self.a, *r as u32, &mut |cols| {
                        for (i, t) in gi.ixs.iter().enumerate() {
                            if res.is_ok() {
                                res = same(&cols[i].obs(0).key, *t, *r, rows[*r].1[*t], "mutable subset references");
                            }
                        }
                    });
                    res?;
                }
            }
        }
        Ok(())
    }
    fn cols(&self, cols: &[RawCol], ixs: &[usize], rows: &[usize], what: &str) -> R {
        ensure!(cols.len() == ixs.len(), "{what}: {} slices", cols.len());
        for (c, ix) in cols.iter().zip(ixs) {
            ensure!(
                c.ix == *ix && c.len == self.rows.len(),
                "{what}: the slice of C{ix} has {} elements, the table has {} rows",
                c.len,
                self.rows.len()
            );
            ensure!(c.ptr as usize % TYPES[*ix].align == 0 && !c.ptr.is_null(), "{what}: the slice of C{ix} is misaligned");
            for r in rows {
                same(&unsafe { c.obs(*r) }.key, *ix, *r, self.rows[*r].1[*ix], what)?;
            }
        }
        Ok(())
    }
}

fn diff(a: &[u32], b: &[u32]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("at {i} {:x?} instead of {:x?}", a.get(i), b.get(i));
        }
    }
    String::new()
}

fn same(got: &Key, t: usize, row: usize, want: u32, what: &str) -> R {
    ensure!(
        *got == Ok(key_of(t, want)),
        "{what}: component C{t} of row {row} is {got:?}, expected {}",
        key_of(t, want)
    );
    Ok(())
}

fn run_table(c: &TableCase, ctx: &mut Ctx) -> R {
    let tb = tables();
    let g0 = c.g as usize % NG_VALID;
    let mask = tb.groups[g0].mask;
    let d = (GROUPS[g0].descriptor)().archetype().clone();
    let mut other = None;
    for j in 0..NT {
        let t = (c.t as usize + j) % NT;
        if TYPES[t].size > 5000 {
            continue;
        }
        let has = mask & (1 << t) != 0;
        let nd = if has {
            d.remove_component(ComponentTypeId::from_u16(id_of(t)))
        } else {
            (TYPES[t].desc_add)(&d)
        };
        if let Some(nd) = nd {
            other = Some((nd, mask ^ (1 << t)));
            break;
        }
    }
    if let Some(g2) = c.g2 {
        let g2 = g2 as usize % NG_VALID;
        let m2 = tb.groups[g2].mask;
        other = Some(((GROUPS[g2].descriptor)().archetype().clone(), m2));
        if m2 & mask != 0 && (m2 ^ mask).count_ones() > 1 {
            ctx.label("sets that share types and differ in several");
        }
    }
    let Some((d2, mask2)) = other else { return Ok(()) };
    let mut tabs = [tab(&d, mask, c.caps.0), tab(&d2, mask2, c.caps.1)];
    for t in &tabs {
        if t.cap0 != u32::MAX {
            let want = if t.cap0 <= MAX_ENTITIES_PER_ARCHETYPE { t.cap0 } else { 0 };
            ensure!(
                t.a.capacity() == want && t.a.len() == 0,
                "an archetype made with capacity {} has capacity {} and {} rows",
                t.cap0,
                t.a.capacity(),
                t.a.len()
            );
        }
        ensure!(t.a.len() == 0 && t.a.entities().is_empty(), "a new archetype is not empty");
    }
    let mut cur = 0;
    let mut serial = 1u32;
    let mut next = || {
        serial = serial.wrapping_add(1);
        serial
    };
    let mut h = 0u32;
    for (i, op) in c.ops.iter().enumerate() {
        let wrap = |e: String| format!("op {i} {op:?}: {e}");
        let cap_before = tabs[cur].a.capacity();
        let limit = (24 << 20) / tabs[cur].width();
        match op {
            T::Push { k } | T::PushMany { k, .. } => {
                let n = if let T::PushMany { n, .. } = op { *n as usize } else { 1 };
                let t = &mut tabs[cur];
                for j in 0..n {
                    if t.groups.is_empty() || t.rows.len() >= limit {
                        break;
                    }
                    let g = t.groups[(*k as usize + j) % t.groups.len()];
                    let gi = &tb.groups[g];
                    let s: Vec<u32> = gi.ixs.iter().map(|_| next()).collect();
                    h = h.wrapping_add(0x0101);
                    let row = unsafe { (GROUPS[g].arch.push)(&mut t.a, ent(h), &s) };
                    ensure!(
                        row as usize == t.rows.len(),
                        "op {i} {op:?}: push answers row {row}, the table has {} rows",
                        t.rows.len()
                    );
                    let mut k = [0; NT];
                    for (s, t) in s.iter().zip(&gi.ixs) {
                        k[*t] = *s;
                    }
                    t.rows.push((h, k));
                    ctx.count("rows pushed", 1);
                    if j % 97 == 0 {
                        t.check(j, false).map_err(wrap)?;
                    }
                }
            }
            T::PushParts { rot } => {
                let t = &mut tabs[cur];
                if t.rows.len() < limit {
                    let row = unsafe { t.a.push_uninitialized_entity() };
                    ensure!(
                        row as usize == t.rows.len() && t.a.len() == row + 1,
                        "op {i} {op:?}: answers row {row}, the table has {} rows",
                        t.rows.len()
                    );
                    h = h.wrapping_add(0x0101);
                    t.a.entities_mut()[row as usize] = ent(h);
                    let mut ts: Vec<usize> = bits(t.mask).collect();
                    let n = ts.len();
                    ts.rotate_left(*rot as usize % n);
                    let mut k = [0; NT];
                    for x in ts {
                        k[x] = next();
                        unsafe { (TYPES[x].arch_write)(&mut t.a, row, k[x]) };
                    }
                    t.rows.push((h, k));
                    ctx.count("rows pushed", 1);
                }
            }
            T::Rewrite { row, k } => {
                let t = &mut tabs[cur];
                if let (Some(r), false) = (t.row(*row), t.groups.is_empty()) {
                    for x in bits(t.mask) {
                        let v = unsafe { (TYPES[x].arch_read)(&mut t.a, r as u32) };
                        same(&v, x, r, t.rows[r].1[x], "read_component").map_err(wrap)?;
                    }
                    let g = t.groups[*k as usize % t.groups.len()];
                    let gi = &tb.groups[g];
                    let s: Vec<u32> = gi.ixs.iter().map(|_| next()).collect();
                    h = h.wrapping_add(0x0101);
                    unsafe { (GROUPS[g].arch.write)(&mut t.a, r as u32, ent(h), &s) };
                    t.rows[r].0 = h;
                    for (s, x) in s.iter().zip(&gi.ixs) {
                        t.rows[r].1[*x] = *s;
                    }
                    ctx.label("rows rewritten");
                }
            }
            T::Swap { a, b } => {
                let t = &mut tabs[cur];
                if t.rows.len() >= 2 {
                    let a = t.row(*a).unwrap();
                    let mut b = t.row(*b).unwrap();
                    if a == b {
                        b = (b + 1) % t.rows.len();
                    }
                    unsafe { t.a.swap_entities(a as u32, b as u32) };
                    t.rows.swap(a, b);
                    ctx.label("rows swapped");
                }
            }
            T::TakeLast { row } | T::DropLast { row } | T::ToLast { row } => {
                let t = &mut tabs[cur];
                if let Some(r) = t.row(*row) {
                    let last = t.rows.len() - 1;
                    let swapped = unsafe { t.a.swap_to_last_unchecked(r as u32) };
                    ensure!(
                        swapped == (r != last),
                        "op {i} {op:?}: moving row {r} of {} to the end answers {swapped}",
                        last + 1
                    );
                    t.rows.swap(r, last);
                    ensure!(t.a.len() as usize == last + 1, "op {i} {op:?}: moving a row to the end changed the length");
                    t.check(r, false).map_err(wrap)?;
                    match op {
                        T::ToLast { .. } => ctx.label("rows swapped"),
                        T::TakeLast { .. } => {
                            for x in bits(t.mask) {
                                let v = unsafe { (TYPES[x].arch_read)(&mut t.a, last as u32) };
                                same(&v, x, last, t.rows[last].1[x], "read_component").map_err(wrap)?;
                            }
                            unsafe { t.a.decrement_len_unchecked() };
                            t.rows.pop();
                            ctx.label("rows removed");
                        }
                        _ => {
                            unsafe {
                                t.a.drop_entity(last as u32);
                                t.a.decrement_len_unchecked();
                            }
                            t.rows.pop();
                            ctx.label("rows removed");
                        }
                    }
                }
            }
            T::SwapRemove { row, k } | T::SwapRemoveMany { row, k, .. } => {
                let n = if let T::SwapRemoveMany { n, .. } = op { *n as usize } else { 1 };
                let t = &mut tabs[cur];
                for j in 0..n {
                    let (Some(r), false) = (t.row(row.wrapping_add(j as u16 * 37)), t.groups.is_empty()) else { break };
                    let g = t.groups[(*k as usize + j) % t.groups.len()];
                    let last = t.rows.len() - 1;
                    let (keys, swapped) = unsafe { (GROUPS[g].arch.swap_remove)(&mut t.a, r as u32) };
                    ensure!(
                        swapped == (r != last),
                        "op {i} {op:?}: swap-removing row {r} of {} answers {swapped}",
                        last + 1
                    );
                    for (x, got) in tb.groups[g].ixs.iter().zip(&keys) {
                        same(got, *x, r, t.rows[r].1[*x], "swap-removal returned a tuple whose").map_err(wrap)?;
                    }
                    t.rows.swap_remove(r);
                    ctx.label("rows removed");
                }
            }
            T::SwapDrop { row } | T::SwapDropMany { row, .. } => {
                let n = if let T::SwapDropMany { n, .. } = op { *n as usize } else { 1 };
                let t = &mut tabs[cur];
                for j in 0..n {
                    let Some(r) = t.row(row.wrapping_add(j as u16 * 41)) else { break };
                    let last = t.rows.len() - 1;
                    let swapped = unsafe { t.a.swap_drop_unchecked(r as u32) };
                    ensure!(
                        swapped == (r != last),
                        "op {i} {op:?}: swap-dropping row {r} of {} answers {swapped}",
                        last + 1
                    );
                    t.rows.swap_remove(r);
                    ctx.label("rows removed");
                }
            }
            T::SetOne { row, t: x } => {
                let t = &mut tabs[cur];
                if let Some(r) = t.row(*row) {
                    let x = bits(t.mask).nth(*x as usize % t.mask.count_ones() as usize).unwrap();
                    let s = next();
                    let o = unsafe { (TYPES[x].arch_get_mut)(&mut t.a, r as u32, Some(s)) };
                    same(&o.key, x, r, t.rows[r].1[x], "get_component_mut").map_err(wrap)?;
                    t.rows[r].1[x] = s;
                    ctx.label("single writes");
                }
            }
            T::SetColumn { k, t: x } => {
                let t = &mut tabs[cur];
                if !t.subs.is_empty() && t.rows.len() <= 300 {
                    let g = t.subs[(*k as usize * 31 + *x as usize) % t.subs.len()];
                    let cols = unsafe { (GROUPS[g].arch.slices_mut)(&mut t.a) };
                    for c in &cols {
                        ensure!(c.len == t.rows.len(), "op {i} {op:?}: slice of {} elements", c.len);
                        for r in 0..t.rows.len() {
                            let s = next();
                            unsafe { c.replace(r, s) };
                            t.rows[r].1[c.ix] = s;
                        }
                    }
                    ctx.label("columns rewritten");
                }
            }
            T::SetEntity { row } => {
                let t = &mut tabs[cur];
                if let Some(r) = t.row(*row) {
                    h = h.wrapping_add(0x0101);
                    t.a.entities_mut()[r] = ent(h);
                    t.rows[r].0 = h;
                }
            }
            T::Migrate { row } => {
                let room = (24 << 20) / tabs[1 - cur].width();
                if let (Some(r), true) = (tabs[cur].row(*row), tabs[1 - cur].rows.len() < room) {
                    let (a, b) = tabs.split_at_mut(1);
                    let (s, d) = if cur == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                    let last = s.rows.len() - 1;
                    unsafe {
                        let sw = s.a.swap_to_last_unchecked(r as u32);
                        ensure!(sw == (r != last), "op {i} {op:?}: moving row {r} to the end answers {sw}");
                        s.rows.swap(r, last);
                        let to = d.a.push_uninitialized_entity();
                        ensure!(to as usize == d.rows.len(), "op {i} {op:?}: row {to} of a table with {} rows", d.rows.len());
                        let mut k = s.rows[last].1;
                        for x in bits(s.mask & !d.mask) {
                            let v = (TYPES[x].arch_read)(&mut s.a, last as u32);
                            same(&v, x, last, k[x], "read_component").map_err(wrap)?;
                        }
                        Archetype::copy_common_components_between_archetypes_unchecked(&s.a, last as u32, &mut d.a, to);
                        for x in bits(d.mask & !s.mask) {
                            k[x] = next();
                            (TYPES[x].arch_write)(&mut d.a, to, k[x]);
                        }
                        d.a.entities_mut()[to as usize] = s.a.entities()[last];
                        s.a.decrement_len_unchecked();
                        let e = s.rows.pop().unwrap().0;
                        d.rows.push((e, k));
                    }
                    ctx.label("rows migrated");
                    tabs[1 - cur].check(i, false).map_err(wrap)?;
                }
            }
            T::Other => cur = 1 - cur,
            T::Observe => {
                for t in &mut tabs {
                    let full = t.rows.len() <= 700;
                    t.check(i, full).map_err(wrap)?;
                }
            }
        }
        if tabs[cur].a.capacity() != cap_before {
            ctx.label("growths");
        }
        tabs[cur].check(i, false).map_err(wrap)?;
        if let Some(p) = ledger::problems() {
            return Err(wrap(p));
        }
    }
    for t in &mut tabs {
        t.check(0, true).map_err(|e| format!("at the end: {e}"))?;
    }
    // every live value is in one of the tables
    let mut want: BTreeMap<(usize, u32), i32> = BTreeMap::new();
    for t in &tabs {
        for x in bits(t.mask).filter(|x| TYPES[*x].tracked) {
            for r in &t.rows {
                *want.entry((x, key_of(x, r.1[x]))).or_default() += 1;
            }
        }
    }
    let got = ledger::alive();
    ensure!(
        got == want,
        "the values that are alive are not the ones in the tables ({} and {})",
        got.len(),
        want.len()
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum G {
    Create { set: u8, order: u8 },
    Find { set: u8 },
    /// from a known archetype, add or remove this pool member
    Add { from: u16, m: u8 },
    Remove { from: u16, m: u8 },
    /// remove a component that is present
    RemovePresent { from: u16, m: u8 },
    AddOutside { off: u16, m: u8 },
    RemoveOutside { off: u16, m: u8 },
    /// a walk of n additions and removals
    Walk { from: u16, n: u16, salt: u32 },
    CheckAll,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct RegCase {
    pub pool: Vec<Dyn>,
    /// sets as indices into the pool
    pub sets: Vec<Vec<u8>>,
    /// colliding sets: family, member, layout
    pub colliding: Vec<(u8, u8)>,
    pub ops: Vec<G>,
}

/// Layouts of the components with chosen ids are derived from the id.
fn small_dyn(id: u16) -> Dyn {
    Dyn { id, size: id % 24, align: (id % 4) as u8, h: (id % 5) as u8 }
}

struct Arch13 {
    reg: ArchetypeRegistry,
    /// index -> set (id -> layout) and marker
    known: BTreeMap<u16, (BTreeMap<u16, Dyn>, u32)>,
    by_set: HashMap<Vec<u16>, u16>,
    marker: u32,
    limit: usize,
}

impl Arch13 {
    fn desc(set: &BTreeMap<u16, Dyn>, order: usize) -> ArchetypeDescriptor {
        let mut v: Vec<ComponentDescriptor> = set.values().map(|d| d.desc()).collect();
        let n = v.len();
        v.rotate_left(order % n);
        if order / n % 2 == 1 {
            v.reverse();
        }
        if order % 3 == 2 {
            // by adding one at a time
            let mut a: ArchetypeDescriptor = (&v[0]).into();
            for c in &v[1..] {
                a = a.add_component(c).unwrap();
            }
            a
        } else {
            group_new(&v).archetype().clone()
        }
    }
    /// What is at this index must be the archetype of this set with its marker row.
    fn is(a: &Archetype, set: &BTreeMap<u16, Dyn>, marker: u32, what: &str) -> R {
        let ids: Vec<u16> = a.descriptor().components().iter().map(|c| c.component_type_id().into_u16()).collect();
        ensure!(
            ids.iter().eq(set.keys()),
            "{what}: the archetype describes components {ids:?}, expected {:?}",
            set.keys().collect::<Vec<_>>()
        );
        for (c, d) in a.descriptor().components().iter().zip(set.values()) {
            ensure!(c.size() == d.size && c.align() == d.align(), "{what}: wrong layout of component {}", d.id);
        }
        if marker != 0 {
            ensure!(
                a.len() == 1 && a.entities()[0].raw() == marker,
                "{what}: holds {} rows instead of the one of the archetype created for this set",
                a.len()
            );
        } else {
            ensure!(a.len() == 0, "{what}: a new archetype has {} rows", a.len());
        }
        Ok(())
    }
    /// Registers an index that was returned for a set, and marks new archetypes.
    fn returned(&mut self, ix: u16, set: &BTreeMap<u16, Dyn>, what: &str, ctx: &mut Ctx) -> R {
        let key: Vec<u16> = set.keys().copied().collect();
        match self.by_set.get(&key) {
            Some(o) => {
                ensure!(*o == ix, "{what}: index {ix} for a set that has index {o}");
                let m = self.known[&ix].1;
                Self::is(&self.reg[ix], set, m, what)?;
                ctx.label("sets found again");
            }
            None => {
                if let Some((s, _)) = self.known.get(&ix) {
                    return Err(format!("{what}: index {ix} for a new set belongs to {:?}", s.keys().collect::<Vec<_>>()));
                }
                Self::is(&self.reg[ix], set, 0, what)?;
                self.marker += 0x11;
                let a = &mut self.reg[ix];
                unsafe { a.push_uninitialized_entity() };
                a.entities_mut()[0] = ent(self.marker);
                self.known.insert(ix, (set.clone(), self.marker));
                self.by_set.insert(key, ix);
                ctx.label("sets created");
            }
        }
        Ok(())
    }
    fn create(&mut self, set: &BTreeMap<u16, Dyn>, order: usize, ctx: &mut Ctx) -> R {
        let d = Self::desc(set, order);
        let new = !self.by_set.contains_key(&set.keys().copied().collect::<Vec<_>>());
        let full = self.known.len() >= self.limit;
        let got = self.reg.find_or_create_archetype(&d).map(|(ix, a)| (ix, a as *const Archetype));
        match got {
            None => ensure!(new && full, "find_or_create answers nothing with {} archetypes", self.known.len()),
            Some((ix, p)) => {
                ensure!(!(new && full), "an archetype was created beyond the limit");
                ensure!(std::ptr::eq(p, &self.reg[ix]), "the returned reference is not the archetype at index {ix}");
                self.returned(ix, set, "find_or_create", ctx)?;
            }
        }
        self.find(set, order + 1)
    }
    fn find(&mut self, set: &BTreeMap<u16, Dyn>, order: usize) -> R {
        let d = Self::desc(set, order);
        let want = self.by_set.get(&set.keys().copied().collect::<Vec<_>>()).copied();
        let got = self.reg.find_archetype(&d).map(|a| a as *const Archetype);
        let got_mut = self.reg.find_archetype_mut(&d).map(|a| a as *const Archetype);
        match want {
            None => ensure!(got.is_none() && got_mut.is_none(), "a lookup finds an archetype for a set that was never created"),
            Some(ix) => {
                ensure!(got.is_some() && got_mut.is_some(), "a lookup does not find the archetype at index {ix}");
                let p: *const Archetype = &self.reg[ix];
                ensure!(
                    got == Some(p) && got_mut == Some(p),
                    "a lookup finds another archetype than the one at index {ix}"
                );
                let (s, m) = &self.known[&ix];
                Self::is(&self.reg[ix], s, *m, "lookup")?;
                Self::is(unsafe { self.reg.get_unchecked(ix) }, s, *m, "get_unchecked")?;
                Self::is(unsafe { self.reg.get_unchecked_mut(ix) }, s, *m, "get_unchecked_mut")?;
            }
        }
        Ok(())
    }
    fn derive(&mut self, from: u16, m: &Dyn, add: bool, ctx: &mut Ctx) -> R<Option<u16>> {
        let what = format!("{} component {} {} index {from}", if add { "adding" } else { "removing" }, m.id, if add { "to" } else { "from" });
        let (s, marker) = self.known[&from].clone();
        let mut t = s.clone();
        let may = if add {
            let ok = s.len() < 14 && !s.contains_key(&m.id);
            t.insert(m.id, *m);
            ok
        } else {
            t.remove(&m.id).is_some() && !t.is_empty()
        };
        let exists = self.by_set.get(&t.keys().copied().collect::<Vec<_>>()).copied();
        let may = may && (exists.is_some() || self.known.len() < self.limit);
        let c = m.desc();
        let got = if add {
            self.reg.find_or_create_archetype_adding_component(from, &c)
        } else {
            self.reg.find_or_create_archetype_removing_component(from, &c)
        };
        match got {
            None => {
                ensure!(!may, "{what} answers nothing");
                ctx.label("derivations refused");
                Ok(None)
            }
            Some((src, ix, dst)) => {
                ensure!(may, "{what}, which is impossible, answers index {ix}");
                Self::is(src, &s, marker, &format!("{what}: source"))?;
                let (sp, dp): (*const Archetype, *const Archetype) = (src, dst);
                ensure!(
                    std::ptr::eq(sp, &self.reg[from]) && std::ptr::eq(dp, &self.reg[ix]),
                    "{what}: the references are not the archetypes at {from} and {ix}"
                );
                self.returned(ix, &t, &what, ctx)?;
                ctx.label("derivations");
                Ok(Some(ix))
            }
        }
    }
    fn check_all(&mut self) -> R {
        let l: Vec<u16> = self.known.keys().copied().collect();
        for ix in l {
            let s = self.known[&ix].0.clone();
            self.find(&s, ix as usize)?;
        }
        Ok(())
    }
}

fn run_registry(c: &RegCase, ctx: &mut Ctx) -> R {
    let mut pool: Vec<Dyn> = distinct(&c.pool)
        .into_iter()
        .map(|d| small_dyn(d.id))
        .collect();
    let mut sets: Vec<BTreeMap<u16, Dyn>> = Vec::new();
    for (f, m) in &c.colliding {
        let fam = FAMILIES[*f as usize % FAMILIES.len()];
        let s = fam[*m as usize % fam.len()];
        sets.push(s.iter().map(|id| (*id, small_dyn(*id))).collect());
        for id in s {
            if !pool.iter().any(|d| d.id == *id) && pool.len() < 120 {
                pool.push(small_dyn(*id));
            }
        }
    }
    if pool.is_empty() {
        return Ok(());
    }
    for s in &c.sets {
        let s: BTreeMap<u16, Dyn> = s
            .iter()
            .take(14)
            .map(|i| {
                let d = pool[*i as usize % pool.len()];
                (d.id, d)
            })
            .collect();
        if !s.is_empty() {
            sets.push(s);
        }
    }
    if sets.is_empty() {
        return Ok(());
    }
    let mut w = Arch13 {
        reg: ArchetypeRegistry::default(),
        known: BTreeMap::new(),
        by_set: HashMap::new(),
        marker: 0,
        limit: usize::MAX,
    };
    let at = |m: u8| pool[m as usize % pool.len()];
    for (i, op) in c.ops.iter().enumerate() {
        let from = |r: u16, w: &Arch13| -> Option<u16> {
            if w.known.is_empty() {
                None
            } else {
                w.known.keys().nth(r as usize % w.known.len()).copied()
            }
        };
        let mut step = || -> R {
            match op {
                G::Create { set, order } => {
                    let s = sets[*set as usize % sets.len()].clone();
                    w.create(&s, *order as usize, ctx)
                }
                G::Find { set } => {
                    let s = sets[*set as usize % sets.len()].clone();
                    w.find(&s, *set as usize)
                }
                G::Add { from: f, m } => match from(*f, &w) {
                    Some(f) => w.derive(f, &at(*m), true, ctx).map(|_| ()),
                    None => Ok(()),
                },
                G::Remove { from: f, m } => match from(*f, &w) {
                    Some(f) => w.derive(f, &at(*m), false, ctx).map(|_| ()),
                    None => Ok(()),
                },
                G::RemovePresent { from: f, m } => match from(*f, &w) {
                    Some(f) => {
                        let s = &w.known[&f].0;
                        let d = *s.values().nth(*m as usize % s.len()).unwrap();
                        w.derive(f, &d, false, ctx).map(|_| ())
                    }
                    None => Ok(()),
                },
                G::AddOutside { off, m } | G::RemoveOutside { off, m } => {
                    let beyond = w.known.keys().last().map_or(0, |k| k + 1);
                    let ix = beyond.saturating_add(*off);
                    let c = at(*m).desc();
                    let got = if let G::AddOutside { .. } = op {
                        w.reg.find_or_create_archetype_adding_component(ix, &c).is_some()
                    } else {
                        w.reg.find_or_create_archetype_removing_component(ix, &c).is_some()
                    };
                    ensure!(!got, "deriving from index {ix}, with {beyond} archetypes, answers an archetype");
                    ctx.label("derivations refused");
                    Ok(())
                }
                G::Walk { from: f, n, salt } => {
                    let Some(mut f) = from(*f, &w) else { return Ok(()) };
                    let mut x = *salt | 1;
                    for _ in 0..*n {
                        x ^= x << 13;
                        x ^= x >> 17;
                        x ^= x << 5;
                        let s = &w.known[&f].0;
                        let r = if x & 1 == 0 && s.len() > 1 {
                            let d = *s.values().nth((x >> 8) as usize % s.len()).unwrap();
                            w.derive(f, &d, false, ctx)?
                        } else {
                            w.derive(f, &pool[(x >> 8) as usize % pool.len()], true, ctx)?
                        };
                        if let Some(ix) = r {
                            f = ix;
                        }
                    }
                    Ok(())
                }
                G::CheckAll => w.check_all(),
            }
        };
        step().map_err(|e| format!("op {i} {op:?}: {e}"))?;
    }
    w.check_all().map_err(|e| format!("at the end: {e}"))?;
    for s in &sets {
        w.find(s, 3).map_err(|e| format!("at the end: {e}"))?;
    }
    let mut ids: HashMap<(usize, u32), u32> = HashMap::new();
    for (s, _) in w.known.values() {
        *ids.entry((s.len(), Arch13::desc(s, 0).archetype_id().into_u32())).or_default() += 1;
    }
    let shared = ids.values().filter(|n| **n > 1).count();
    ctx.count("identifiers shared by several sets", shared as u64);
    ctx.count("archetypes", w.known.len() as u64);
    if w.known.len() > 128 {
        ctx.label("more than 128 archetypes");
    }
    ctx.nontrivial = w.known.len() >= 3 && ctx.get("sets found again") > 0;
    Ok(())
}

pub struct C13;
impl Suite for C13 {
    const NAME: &'static str = "C13";
    const RULE: &'static str = "random sequences of find, find-or-create and derive calls over sets of random component ids (0-65534, extreme values favoured) and over families of sets constructed to share one identifier or to hash to the reserved value, compared with a map from sets to indices, each archetype marked by a row of its own; non-trivial: at least three archetypes and one found again";
    type Case = RegCase;
    const BATCH: usize = 32;
    fn strategy(_t: Tier) -> BoxedStrategy<RegCase> {
        let b = any::<u8>;
        let r = any::<u16>;
        let op = prop_oneof![
            10 => (b(), b()).prop_map(|(set, order)| G::Create { set, order }),
            5 => b().prop_map(|set| G::Find { set }),
            6 => (r(), b()).prop_map(|(from, m)| G::Add { from, m }),
            2 => (r(), b()).prop_map(|(from, m)| G::Remove { from, m }),
            5 => (r(), b()).prop_map(|(from, m)| G::RemovePresent { from, m }),
            2 => (prop_oneof![0u16..3, any::<u16>(), Just(u16::MAX)], b()).prop_map(|(off, m)| G::AddOutside { off, m }),
            2 => (prop_oneof![0u16..3, any::<u16>(), Just(u16::MAX)], b()).prop_map(|(off, m)| G::RemoveOutside { off, m }),
            3 => (r(), prop_oneof![5 => 1u16..20, 1 => 100u16..400], any::<u32>()).prop_map(|(from, n, salt)| G::Walk { from, n, salt }),
            1 => Just(G::CheckAll),
        ];
        let pool = proptest::collection::vec(dyn_id().prop_map(small_dyn), 1..24);
        let sets = proptest::collection::vec(proptest::collection::vec(any::<u8>(), 1..15), 0..10);
        let colliding = prop_oneof![
            1 => Just(vec![]),
            2 => (any::<u8>(), proptest::collection::vec(any::<u8>(), 1..12))
                .prop_map(|(f, v)| v.into_iter().map(|m| (f, m)).collect()),
            1 => proptest::collection::vec(any::<(u8, u8)>(), 1..8),
        ];
        (pool, sets, colliding, proptest::collection::vec(op, 1..50))
            .prop_map(|(pool, sets, colliding, ops)| RegCase { pool, sets, colliding, ops })
            .boxed()
    }
    fn run(c: &RegCase, ctx: &mut Ctx) -> R {
        run_registry(c, ctx)
    }
}

/// Up to the limit of 65,534 archetypes.
pub struct C13l;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LimitCase {
    /// ids are base + k * stride
    pub base: u16,
    pub stride: u16,
    pub width: u8,
    pub salt: u32,
}
impl Suite for C13l {
    const NAME: &'static str = "C13l";
    const RULE: &'static str = "an archetype registry is filled with 65,534 different component sets (of 1 to 14 components, in random order, by creation and by derivation), then creation and derivation of new sets must be refused while every set is still found at its index; non-trivial: the limit was reached";
    type Case = LimitCase;
    const BATCH: usize = 1;
    const PATIENCE: u64 = 300;
    const FILL: bool = false;
    fn strategy(_t: Tier) -> BoxedStrategy<LimitCase> {
        (any::<u16>(), 0u16..64, 1u8..=14, any::<u32>())
            .prop_map(|(base, stride, width, salt)| LimitCase { base: base % 30000, stride, width, salt })
            .boxed()
    }
    fn run(c: &LimitCase, ctx: &mut Ctx) -> R {
        let n_types = 40usize;
        let pool: Vec<Dyn> = (0..n_types)
            .map(|k| Dyn {
                id: (c.base as usize + k * (2 * c.stride as usize + 1)) as u16 % 65_535,
                size: 0,
                align: 0,
                h: k as u8,
            })
            .collect();
        let pool = distinct(&pool);
        let mut w = Arch13 {
            reg: ArchetypeRegistry::default(),
            known: BTreeMap::new(),
            by_set: HashMap::new(),
            marker: 0,
            limit: MAX_ARCHETYPE_COUNT,
        };
        let mut x = c.salt | 1;
        let mut rnd = |n: usize| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 3) as usize % n
        };
        let rand_set = |rnd: &mut dyn FnMut(usize) -> usize, w: usize| {
            let mut s = BTreeMap::new();
            for _ in 0..w {
                let d = pool[rnd(pool.len())];
                s.insert(d.id, d);
            }
            s
        };
        let want = 65_534usize;
        let mut steps = 0u32;
        let mut order: Vec<u16> = Vec::new();
        while w.known.len() < want {
            steps += 1;
            ensure!(steps < 1_000_000, "harness: cannot reach the limit");
            let wd = if w.known.len() < 2000 { 1 + rnd(14) } else { 4 + rnd((c.width as usize).max(6)).min(10) };
            let before = w.known.len();
            if rnd(4) == 0 && !order.is_empty() {
                let f = order[rnd(order.len())];
                let m = pool[rnd(pool.len())];
                let add = !w.known[&f].0.contains_key(&m.id);
                w.derive(f, &m, add, ctx)?;
            } else {
                let s = rand_set(&mut rnd, wd);
                let k = rnd(9);
                w.create(&s, k, ctx)?;
            }
            if w.known.len() > before {
                // a new one: its index is the last one we learned
                let key = w.marker;
                let _ = key;
                order.push(w.by_set.len() as u16 - 1);
                if !w.known.contains_key(order.last().unwrap()) {
                    order.pop();
                }
            }
        }
        let full = w.known.len();
        // now everything new is refused, and everything known is found
        let mut refused = 0;
        for i in 0..3000 {
            let wd = 1 + rnd(14);
            let s = rand_set(&mut rnd, wd);
            let new = !w.by_set.contains_key(&s.keys().copied().collect::<Vec<_>>());
            refused += new as u64;
            w.create(&s, i, ctx).map_err(|e| format!("at the limit: {e}"))?;
            let f = *w.known.keys().nth(rnd(64) * 997 % full).unwrap();
            let m = pool[rnd(pool.len())];
            let add = !w.known[&f].0.contains_key(&m.id);
            w.derive(f, &m, add, ctx).map_err(|e| format!("at the limit: {e}"))?;
        }
        ensure!(w.known.len() == full, "an archetype appeared at the limit");
        w.check_all().map_err(|e| format!("at the limit: {e}"))?;
        ctx.count("new sets refused at the limit", refused);
        ctx.nontrivial = refused > 0;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum E {
    Create { row: u32, arch: u16 },
    CreateMany { n: u16, seed: u32 },
    Destroy { s: Sel },
    DestroyMany { start: u16, n: u16, stride: u8 },
    /// create and destroy n times
    Churn { n: u16 },
    Relocate { s: Sel, row: u32, arch: u16 },
    Query { s: Sel },
    Observe,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct EntCase {
    pub ops: Vec<E>,
}

#[derive(Default)]
struct Ents {
    reg: EntityRegistry,
    /// per slot: version of the next or current entity, and its location if live
    slots: Vec<(u8, Option<(u32, u16)>)>,
    live: Vec<u32>,
    free: BTreeSet<u32>,
    dead: Vec<u32>,
}

fn loc(row: u32, arch: u16) -> (IndexInArchetype, ArchetypeIndex) {
    (
        IndexInArchetype::new(row % 16_777_215).unwrap(),
        ArchetypeIndex::new(arch % u16::MAX).unwrap(),
    )
}

impl Ents {
    fn sel(&self, s: Sel) -> u32 {
        match s {
            Sel::Live(i) if !self.live.is_empty() => self.live[i as usize % self.live.len()],
            Sel::Recent(i) if !self.live.is_empty() => self.live[self.live.len() - 1 - i as usize % self.live.len()],
            Sel::Dead(i) if !self.dead.is_empty() => self.dead[self.dead.len() - 1 - i as usize % self.dead.len()],
            Sel::Bump(i, d) if !self.live.is_empty() => {
                let h = self.live[i as usize % self.live.len()];
                (h & !0xFF) | (h as u8).wrapping_add(d) as u32
            }
            Sel::Slot(i, v) => (i as u32) << 8 | v as u32,
            Sel::Raw(r) => r,
            _ => u32::MAX,
        }
    }
    fn want(&self, raw: u32) -> Option<(u32, u16)> {
        let s = self.slots.get((raw >> 8) as usize)?;
        if s.0 == raw as u8 {
            s.1
        } else {
            None
        }
    }
    fn query(&mut self, raw: u32) -> R {
        let want = self.want(raw);
        let get = |e: Option<&EntityEntry>| e.map(|e| (e.index_in_archetype().value(), e.archetype_index(), e.version(), e.is_valid()));
        let a = get(self.reg.entity_entry(ent(raw)));
        let b = get(self.reg.entity_entry_mut(ent(raw)).map(|e| &*e));
        let w = want.map(|(r, a)| (r, a, raw as u8, true));
        ensure!(a == w, "the entry of handle {raw:#x} is {a:?}, expected {w:?}");
        ensure!(b == w, "the mutable entry of handle {raw:#x} is {b:?}, expected {w:?}");
        Ok(())
    }
    fn create(&mut self, row: u32, arch: u16, ctx: &mut Ctx) -> R<u32> {
        let (r, a) = loc(row, arch);
        ensure!(self.reg.can_register_new_entity(), "with {} live entities it says no entity can be registered", self.live.len());
        let Some(e) = self.reg.create_entity(r, a) else {
            return Err(format!("creation fails with {} live entities", self.live.len()));
        };
        let raw = e.raw();
        ensure!(e.is_valid(), "creation returns the invalid handle");
        let slot = raw >> 8;
        if self.free.is_empty() {
            ensure!(
                slot as usize == self.slots.len(),
                "without free slots creation uses slot {slot}, the table has {}",
                self.slots.len()
            );
            self.slots.push((raw as u8, None));
        } else {
            ensure!(
                self.free.remove(&slot),
                "creation uses slot {slot}, which is {}, although {} slots are free",
                if (slot as usize) < self.slots.len() { "in use" } else { "new" },
                self.free.len()
            );
            ctx.label("slots reused");
        }
        let s = &mut self.slots[slot as usize];
        ensure!(s.0 == raw as u8, "slot {slot} is reused with version {}, expected {}", raw as u8, s.0);
        s.1 = Some((r.value(), a.value()));
        self.live.push(raw);
        self.query(raw)?;
        Ok(raw)
    }
    fn destroy(&mut self, raw: u32, ctx: &mut Ctx) -> R {
        let want = self.want(raw).is_some();
        let got = self.reg.destroy_entity(ent(raw));
        ensure!(got == want, "destroying handle {raw:#x} answers {got}, it is {}", if want { "live" } else { "not live" });
        if want {
            let s = &mut self.slots[(raw >> 8) as usize];
            s.1 = None;
            s.0 = s.0.wrapping_add(1);
            self.free.insert(raw >> 8);
            let p = self.live.iter().rposition(|l| *l == raw).unwrap();
            self.live.swap_remove(p);
            self.dead.push(raw);
            ctx.label("destroyed");
            self.query(raw)?;
        } else {
            ctx.label("refused");
        }
        Ok(())
    }
    fn observe(&mut self) -> R {
        for raw in self.live.clone() {
            self.query(raw)?;
        }
        for raw in self.dead.iter().rev().take(60).copied().collect::<Vec<_>>() {
            self.query(raw)?;
        }
        let it: Vec<u32> = self.reg.iter().take(self.slots.len() + 5).map(|e| e.raw()).collect();
        let mut got = it.clone();
        got.sort_unstable();
        let mut want = self.live.clone();
        want.sort_unstable();
        ensure!(got == want, "iteration differs from the live handles: {}", diff(&got, &want));
        let mut i = self.reg.iter();
        let n = i.by_ref().take(self.slots.len() + 5).count();
        ensure!(n == want.len() && i.next().is_none() && i.next().is_none(), "iteration goes on after its end");
        Ok(())
    }
}

pub struct C16;
impl Suite for C16 {
    const NAME: &'static str = "C16";
    const RULE: &'static str = "random sequences of creation, destruction (single, strided, repeated on one slot past 256 versions), relocation and queries with live, dead, forged and invalid handles on an entity table, compared with a list of slots; non-trivial: a slot was reused and a handle that is not live was refused";
    type Case = EntCase;
    const BATCH: usize = 64;
    fn strategy(_t: Tier) -> BoxedStrategy<EntCase> {
        let row = || prop_oneof![3 => 0u32..300, 1 => 0u32..16_777_215, 1 => 16_777_200u32..16_777_215, 1 => (0u32..24).prop_map(|b| (1u32 << b) - 1)];
        let arch = || prop_oneof![3 => 0u16..5, 1 => any::<u16>(), 1 => 65_500u16..65_535];
        let op = prop_oneof![
            10 => (row(), arch()).prop_map(|(row, arch)| E::Create { row, arch }),
            2 => (prop_oneof![3 => 1u16..20, 1 => 20u16..700], any::<u32>()).prop_map(|(n, seed)| E::CreateMany { n, seed }),
            10 => sel(25).prop_map(|s| E::Destroy { s }),
            2 => (any::<u16>(), prop_oneof![3 => 1u16..20, 1 => 20u16..700], 1u8..6)
                .prop_map(|(start, n, stride)| E::DestroyMany { start, n, stride }),
            1 => prop_oneof![2 => 1u16..20, 2 => 250u16..262, 1 => 500u16..530].prop_map(|n| E::Churn { n }),
            4 => (sel(10), row(), arch()).prop_map(|(s, row, arch)| E::Relocate { s, row, arch }),
            4 => sel(50).prop_map(|s| E::Query { s }),
            1 => Just(E::Observe),
        ];
        proptest::collection::vec(op, 1..60).prop_map(|ops| EntCase { ops }).boxed()
    }
    fn run(c: &EntCase, ctx: &mut Ctx) -> R {
        let mut w = Ents::default();
        for (i, op) in c.ops.iter().enumerate() {
            let mut step = || -> R {
                match op {
                    E::Create { row, arch } => w.create(*row, *arch, ctx).map(|_| ()),
                    E::CreateMany { n, seed } => {
                        for k in 0..*n {
                            w.create(seed.wrapping_add(k as u32 * 7919), k, ctx)?;
                        }
                        Ok(())
                    }
                    E::Destroy { s } => {
                        let raw = w.sel(*s);
                        w.destroy(raw, ctx)
                    }
                    E::DestroyMany { start, n, stride } => {
                        let mut l = Vec::new();
                        for k in 0..*n as usize {
                            if w.live.is_empty() {
                                break;
                            }
                            l.push(w.live[(*start as usize + k * *stride as usize) % w.live.len()]);
                        }
                        for raw in l {
                            w.destroy(raw, ctx)?;
                        }
                        Ok(())
                    }
                    E::Churn { n } => {
                        for k in 0..*n {
                            let raw = w.create(k as u32, k % 7, ctx)?;
                            if k % 64 == 3 {
                                w.query(raw.wrapping_sub(1))?;
                            }
                            w.destroy(raw, ctx)?;
                        }
                        Ok(())
                    }
                    E::Relocate { s, row, arch } => {
                        let raw = w.sel(*s);
                        let (r, a) = loc(*row, *arch);
                        let want = w.want(raw).is_some();
                        match w.reg.entity_entry_mut(ent(raw)) {
                            None => ensure!(!want, "no mutable entry for live handle {raw:#x}"),
                            Some(e) => {
                                ensure!(want, "a mutable entry for handle {raw:#x}, which is not live");
                                e.set_index_in_archetype(r);
                                e.set_archetype_index(a.value());
                                w.slots[(raw >> 8) as usize].1 = Some((r.value(), a.value()));
                            }
                        }
                        w.query(raw)
                    }
                    E::Query { s } => {
                        let raw = w.sel(*s);
                        w.query(raw)
                    }
                    E::Observe => w.observe(),
                }
            };
            step().map_err(|e| format!("op {i} {op:?}: {e}"))?;
        }
        w.observe().map_err(|e| format!("at the end: {e}"))?;
        ctx.nontrivial = ctx.get("slots reused") > 0 && ctx.get("refused") > 0;
        Ok(())
    }
}

/// The entity table filled to its limit.
pub struct C16l;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FullCase {
    pub salt: u32,
    /// destroyed at the limit before refilling
    pub holes: Vec<u32>,
    pub rounds: u8,
    /// destroy this many before the limit is first reached
    pub early: u16,
}
impl Suite for C16l {
    const NAME: &'static str = "C16l";
    const RULE: &'static str = "an entity table is filled to 16,777,215 live entities, then entities at random and extreme slots are destroyed and as many created again, several times; creation beyond the limit must be refused and agree with the query; non-trivial: the limit was reached and slots were reused there";
    type Case = FullCase;
    const BATCH: usize = 1;
    const PATIENCE: u64 = 300;
    const FILL: bool = false;
    fn strategy(_t: Tier) -> BoxedStrategy<FullCase> {
        (
            any::<u32>(),
            proptest::collection::vec(prop_oneof![3 => 0u32..16_777_215, 1 => 16_777_205u32..16_777_215, 1 => 0u32..4], 1..40),
            1u8..4,
            prop_oneof![Just(0u16), 1u16..2000],
        )
            .prop_map(|(salt, holes, rounds, early)| FullCase { salt, holes, rounds, early })
            .boxed()
    }
    fn run(c: &FullCase, ctx: &mut Ctx) -> R {
        const MAX: u32 = 16_777_215;
        let mut reg = EntityRegistry::default();
        let where_ = |i: u32, salt: u32| loc(i.wrapping_mul(2654435761).wrapping_add(salt) >> 8, (i ^ salt) as u16);
        // versions of all slots
        let mut version = vec![0u8; MAX as usize];
        let mut salt_of: HashMap<u32, u32> = HashMap::new();
        let create = |reg: &mut EntityRegistry, slot_salt: u32| -> R<Option<Entity>> {
            let can = reg.can_register_new_entity();
            // the location depends on the slot, which is only known afterwards: relocate then
            let e = reg.create_entity(IndexInArchetype::new(slot_salt % 100).unwrap(), ArchetypeIndex::new(1).unwrap());
            ensure!(can == e.is_some(), "can_register_new_entity answers {can}, creation {}", if e.is_some() { "succeeds" } else { "fails" });
            Ok(e)
        };
        let place = |reg: &mut EntityRegistry, e: Entity, salt: u32| -> R {
            let (r, a) = where_(e.index(), salt);
            let Some(en) = reg.entity_entry_mut(e) else { return Err(format!("no entry for {:#x}", e.raw())) };
            en.set_index_in_archetype(r);
            en.set_archetype_index(a.value());
            Ok(())
        };
        let mut n = 0u32;
        while n < MAX {
            let Some(e) = create(&mut reg, n)? else { return Err(format!("creation fails with {n} live entities")) };
            ensure!(e.index() == n && e.version() == 0, "the entity created with {n} live ones and no free slot is {:#x}", e.raw());
            place(&mut reg, e, c.salt)?;
            n += 1;
            if n == MAX - 5000 && c.early > 0 {
                // some churn just before the limit
                let l: Vec<u32> = (0..c.early as u32).map(|k| (k.wrapping_mul(7919) + c.salt) % (MAX - 5000)).collect::<BTreeSet<_>>().into_iter().collect();
                for s in &l {
                    let e = unsafe { Entity::new_unchecked(*s, version[*s as usize]) };
                    ensure!(reg.destroy_entity(e), "destroying live {:#x} is refused", e.raw());
                    version[*s as usize] = version[*s as usize].wrapping_add(1);
                }
                let mut free: BTreeSet<u32> = l.iter().copied().collect();
                for _ in &l {
                    let Some(e) = create(&mut reg, 1)? else { return Err("creation fails below the limit".into()) };
                    ensure!(
                        free.remove(&e.index()) && e.version() == version[e.index() as usize],
                        "creation with free slots gives {:#x}",
                        e.raw()
                    );
                    place(&mut reg, e, c.salt)?;
                }
            }
        }
        for _ in 0..3 {
            ensure!(create(&mut reg, 9)?.is_none(), "an entity was created beyond the limit");
        }
        ctx.label("limit reached");
        let mut reused = 0u64;
        for round in 0..c.rounds {
            let holes: BTreeSet<u32> = c.holes.iter().map(|h| (h + round as u32 * 3) % MAX).collect();
            let mut l: Vec<u32> = c.holes.iter().map(|h| (h + round as u32 * 3) % MAX).collect();
            if round % 2 == 1 {
                l.sort_unstable();
            }
            let mut done = BTreeSet::new();
            for s in l {
                let e = unsafe { Entity::new_unchecked(s, version[s as usize]) };
                let first = done.insert(s);
                ensure!(reg.destroy_entity(e) == first, "destroying {:#x} at the limit answers {}", e.raw(), !first);
                if first {
                    ensure!(reg.entity_entry(e).is_none(), "destroyed handle {:#x} still has an entry", e.raw());
                    version[s as usize] = version[s as usize].wrapping_add(1);
                }
                if !first {
                    continue;
                }
            }
            let mut free = holes.clone();
            while !free.is_empty() {
                let Some(e) = create(&mut reg, 5)? else {
                    return Err(format!("creation fails at the limit although {} entities were destroyed", free.len()));
                };
                ensure!(free.remove(&e.index()), "creation at the limit uses slot {}, which is not free", e.index());
                ensure!(e.version() == version[e.index() as usize], "slot {} is reused with version {}", e.index(), e.version());
                let salt = c.salt ^ (round as u32 + 1);
                place(&mut reg, e, salt)?;
                salt_of.insert(e.index(), salt);
                reused += 1;
            }
            ensure!(create(&mut reg, 9)?.is_none(), "an entity was created beyond the limit");
        }
        // everything, exactly once
        let mut k = 0u32;
        for e in reg.iter() {
            ensure!(e.index() < MAX && e.version() == version[e.index() as usize], "iteration yields {:#x}", e.raw());
            ensure!(k < MAX, "iteration yields more entities than are live");
            k += 1;
        }
        ensure!(k == MAX, "iteration yields {k} of {MAX} entities");
        for s in 0..MAX {
            let e = unsafe { Entity::new_unchecked(s, version[s as usize]) };
            let (r, a) = where_(s, salt_of.get(&s).copied().unwrap_or(c.salt));
            match reg.entity_entry(e) {
                None => return Err(format!("live handle {:#x} has no entry", e.raw())),
                Some(x) => ensure!(
                    x.index_in_archetype() == r && x.archetype_index() == a.value(),
                    "the entry of {:#x} is not what was stored",
                    e.raw()
                ),
            }
        }
        ctx.count("slots reused at the limit", reused);
        ctx.nontrivial = reused > 0;
        Ok(())
    }
}
