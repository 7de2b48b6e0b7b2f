//! Suites over the value-level parts: descriptors, groups, packed handles, hashes.

use crate::comps::*;
use crate::ensure;
use crate::groups::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_descriptor::ComponentDescriptor;
use shard_ecs::component_group_descriptor::ComponentGroupDescriptor;
use shard_ecs::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------------------------------------
// Dynamic component descriptors

thread_local!(static DROPPED: Cell<u64> = const { Cell::new(0) });

/// Drop handlers that are told apart by what they do.
unsafe fn handler<const K: u64>(p: *mut u8, len: usize) {
    DROPPED.with(|d| d.set(d.get().wrapping_add(K.wrapping_mul(0x1_0001) ^ (p as u64) << 20 ^ (len as u64) << 40)));
}
const HANDLERS: [unsafe fn(*mut u8, usize); 5] =
    [handler::<3>, handler::<7>, handler::<11>, handler::<19>, handler::<23>];

/// What calling a drop handler does, without calling it on a real value.
fn behaviour(f: unsafe fn(*mut u8, usize), salt: u64) -> u64 {
    DROPPED.with(|d| d.set(0));
    unsafe { f((0x1000 + salt * 16) as *mut u8, (salt % 5) as usize) };
    DROPPED.with(|d| d.get())
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub struct Dyn {
    pub id: u16,
    pub size: u16,
    pub align: u8,
    pub h: u8,
}
impl Dyn {
    pub fn align(&self) -> u16 {
        1 << (self.align % 13)
    }
    pub fn desc(&self) -> ComponentDescriptor {
        ComponentDescriptor::new(
            ComponentTypeId::from_u16(self.id),
            self.size,
            self.align(),
            HANDLERS[self.h as usize % HANDLERS.len()],
        )
    }
}

pub fn dyn_id() -> BoxedStrategy<u16> {
    prop_oneof![
        3 => any::<u16>().prop_map(|x| x % u16::MAX),
        2 => 0u16..40,
        1 => (0u16..40).prop_map(|x| x << 8),
        1 => (0u16..255).prop_map(|x| x * 0x101),
        1 => (1u16..40).prop_map(|x| u16::MAX - x),
        1 => (0x7FE0u16..0x8020),
    ]
    .boxed()
}

fn dyns(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Dyn>> {
    proptest::collection::vec(
        (dyn_id(), any::<u16>(), any::<u8>(), any::<u8>())
            .prop_map(|(id, size, align, h)| Dyn { id, size, align, h }),
        n,
    )
    .boxed()
}

/// Keeps the first of each id.
pub fn distinct(v: &[Dyn]) -> Vec<Dyn> {
    let mut out: Vec<Dyn> = Vec::new();
    for d in v {
        if d.id != u16::MAX && !out.iter().any(|o| o.id == d.id) {
            out.push(*d);
        }
    }
    out
}

macro_rules! group_of {
    ($v:expr; $($n:literal),*) => {
        match $v.len() {
            $($n => { let a: [ComponentDescriptor; $n] = std::array::from_fn(|i| $v[i].clone()); ComponentGroupDescriptor::new(&a) })*
            n => panic!("harness: group of {n}"),
        }
    };
}
pub fn group_new(v: &[ComponentDescriptor]) -> ComponentGroupDescriptor {
    group_of!(v; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20)
}

fn check_listed(what: &str, got: &[ComponentDescriptor], want: &BTreeMap<u16, Dyn>) -> R {
    ensure!(got.len() == want.len(), "{what}: lists {} components, expected {}", got.len(), want.len());
    for (c, (id, d)) in got.iter().zip(want) {
        ensure!(
            c.component_type_id().into_u16() == *id,
            "{what}: lists component {} where {id} was expected (the order must be by id)",
            c.component_type_id().into_u16()
        );
        ensure!(
            c.size() == d.size && c.align() == d.align(),
            "{what}: component {id} has size {} align {}, expected {} {}",
            c.size(),
            c.align(),
            d.size,
            d.align()
        );
        let want = behaviour(HANDLERS[d.h as usize % HANDLERS.len()], *id as u64);
        ensure!(
            behaviour(c.fns.drop_handler, *id as u64) == want,
            "{what}: component {id} has another component's drop handler"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

pub struct C14;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Alg {
    /// start over from these pool members (a group in this order, or a single component)
    Group(Vec<u8>),
    Single(u8),
    Add(u8),
    Remove(u8),
    /// a component that is present (by position)
    AddPresent(u8),
    RemovePresent(u8),
    /// start over from a static group's set
    Static(u8),
    /// add through the typed interface
    AddStatic(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct AlgCase {
    pub pool: Vec<Dyn>,
    pub ops: Vec<Alg>,
}
#[derive(Clone)]
enum Item {
    D(Dyn),
    S(usize),
}
impl Suite for C14 {
    const NAME: &'static str = "C14";
    const RULE: &'static str = "random routes of adding and removing components (random ids, layouts and drop handlers, and the harness's types) between descriptors made from single components, groups in any order and static tuples, compared with an ordered map; every pair of descriptors seen is compared by subset, exclusion and identifier; non-trivial: at least four changes of a set and two different sets";
    type Case = AlgCase;
    const BATCH: usize = 128;
    fn strategy(_t: Tier) -> BoxedStrategy<AlgCase> {
        let b = any::<u8>;
        let op = prop_oneof![
            2 => proptest::collection::vec(b(), 1..15).prop_map(Alg::Group),
            1 => b().prop_map(Alg::Single),
            8 => b().prop_map(Alg::Add),
            2 => b().prop_map(Alg::Remove),
            1 => b().prop_map(Alg::AddPresent),
            4 => b().prop_map(Alg::RemovePresent),
            1 => b().prop_map(Alg::Static),
            2 => b().prop_map(Alg::AddStatic),
        ];
        (dyns(1..=20), proptest::collection::vec(op, 1..40))
            .prop_map(|(pool, ops)| AlgCase { pool, ops })
            .boxed()
    }
    fn run(c: &AlgCase, ctx: &mut Ctx) -> R {
        let pool: Vec<Dyn> =
            distinct(&c.pool).into_iter().filter(|d| ix_of_id(d.id).is_none()).collect();
        if pool.is_empty() {
            return Ok(());
        }
        let at = |i: u8| pool[i as usize % pool.len()];
        type Set = BTreeMap<u16, Item>;
        let mut ids: HashMap<Vec<u16>, u32> = HashMap::new();
        let mut seen: Vec<(ArchetypeDescriptor, Set)> = Vec::new();
        let mut cur: Option<(ArchetypeDescriptor, Set)> = None;
        let mut changes = 0;
        for (i, op) in c.ops.iter().enumerate() {
            let before = cur.clone();
            let step = |op: &Alg| -> R<Option<(ArchetypeDescriptor, Set)>> {
                match op {
                    Alg::Group(l) => {
                        let v = distinct(&l.iter().map(|i| at(*i)).collect::<Vec<_>>());
                        let d: Vec<_> = v.iter().map(|d| d.desc()).collect();
                        let g = group_new(&d);
                        ensure!(g.is_valid(), "a group of {} distinct components is invalid", v.len());
                        ensure!(g.len() as usize == v.len(), "a group of {} components has length {}", v.len(), g.len());
                        Ok(Some((g.archetype().clone(), v.iter().map(|d| (d.id, Item::D(*d))).collect())))
                    }
                    Alg::Single(i) => {
                        let d = at(*i);
                        let c = d.desc();
                        let a: ArchetypeDescriptor =
                            if i % 2 == 0 { (&c).into() } else { c.into() };
                        Ok(Some((a, BTreeMap::from([(d.id, Item::D(d))]))))
                    }
                    Alg::Static(g) => {
                        let g = *g as usize % NG_VALID;
                        let s = tables().groups[g].ixs.iter().map(|t| (id_of(*t), Item::S(*t))).collect();
                        Ok(Some(((GROUPS[g].descriptor)().archetype().clone(), s)))
                    }
                    Alg::Add(_) | Alg::AddPresent(_) | Alg::AddStatic(_) => {
                        let Some((a, s)) = before.clone() else { return Ok(None) };
                        let (item, typed) = match op {
                            Alg::Add(i) => (Item::D(at(*i)), false),
                            Alg::AddPresent(i) => {
                                (s.values().nth(*i as usize % s.len()).unwrap().clone(), *i & 64 != 0)
                            }
                            Alg::AddStatic(t) => (Item::S(*t as usize % NT), *t & 128 != 0),
                            _ => unreachable!(),
                        };
                        let (id, d) = match &item {
                            Item::D(d) => (d.id, d.desc()),
                            Item::S(t) => (id_of(*t), (TYPES[*t].descriptor)()),
                        };
                        let got = match (&item, typed) {
                            (Item::S(t), true) => (TYPES[*t].desc_add)(&a),
                            _ => a.add_component(&d),
                        };
                        let may = !s.contains_key(&id) && s.len() < 14;
                        ensure!(
                            got.is_some() == may,
                            "adding component {id} to a set of {} that {} it gives {}",
                            s.len(),
                            if s.contains_key(&id) { "has" } else { "lacks" },
                            if got.is_some() { "a set" } else { "nothing" }
                        );
                        Ok(got.map(|g| {
                            let mut s = s;
                            s.insert(id, item);
                            (g, s)
                        }))
                    }
                    Alg::Remove(_) | Alg::RemovePresent(_) => {
                        let Some((a, s)) = before.clone() else { return Ok(None) };
                        let id = match op {
                            Alg::Remove(i) => at(*i).id,
                            Alg::RemovePresent(i) => *s.keys().nth(*i as usize % s.len()).unwrap(),
                            _ => unreachable!(),
                        };
                        let got = a.remove_component(ComponentTypeId::from_u16(id));
                        let may = s.contains_key(&id) && s.len() > 1;
                        ensure!(
                            got.is_some() == may,
                            "removing component {id} from a set of {} that {} it gives {}",
                            s.len(),
                            if s.contains_key(&id) { "has" } else { "lacks" },
                            if got.is_some() { "a set" } else { "nothing" }
                        );
                        Ok(got.map(|g| {
                            let mut s = s;
                            s.remove(&id);
                            (g, s)
                        }))
                    }
                }
            };
            let Some((a, s)) = step(op).map_err(|e| format!("op {i} {op:?}: {e}"))? else {
                ctx.label("refused or skipped");
                continue;
            };
            let check = || -> R {
                let what = "the resulting descriptor";
                ensure!(a.is_valid(), "{what} is not valid");
                ensure!(a.len() as usize == s.len(), "{what} has length {}, expected {}", a.len(), s.len());
                let got = a.components();
                ensure!(got.len() == s.len(), "{what} lists {} components, expected {}", got.len(), s.len());
                for (c, (id, item)) in got.iter().zip(&s) {
                    match item {
                        Item::D(d) => check_listed(what, std::slice::from_ref(c), &BTreeMap::from([(*id, *d)]))?,
                        Item::S(t) => {
                            let t = &TYPES[*t];
                            ensure!(
                                c.component_type_id().into_u16() == *id
                                    && c.size() as usize == t.size
                                    && c.align() as usize == t.align,
                                "{what}: component {} size {} align {} where {id} {} {} was expected",
                                c.component_type_id().into_u16(),
                                c.size(),
                                c.align(),
                                t.size,
                                t.align
                            );
                        }
                    }
                }
                for t in &TYPES {
                    ensure!(
                        (t.desc_has)(&a) == s.contains_key(&t.id),
                        "has_component of type {} answers {}",
                        t.ix,
                        (t.desc_has)(&a)
                    );
                }
                let key: Vec<u16> = s.keys().copied().collect();
                let id = a.archetype_id().into_u32();
                if let Some(o) = ids.get(&key) {
                    ensure!(*o == id, "the same set has identifiers {o:#x} and {id:#x}");
                }
                // another route to the same set: a group, in another order
                let mut d: Vec<ComponentDescriptor> = a.components().to_vec();
                let n = d.len();
                d.rotate_left(i % n);
                if i % 2 == 0 {
                    d.reverse();
                }
                let g = group_new(&d);
                ensure!(g.is_valid(), "a group of {n} distinct components is invalid");
                ensure!(
                    g.archetype().archetype_id().into_u32() == id,
                    "a set reached by adding and removing has identifier {id:#x}, the group of the same components {:#x}",
                    g.archetype().archetype_id().into_u32()
                );
                for (b, sb) in seen.iter().rev().take(24).chain(std::iter::once(&(a.clone(), s.clone()))) {
                    let sub = sb.keys().all(|k| s.contains_key(k));
                    let sup = s.keys().all(|k| sb.contains_key(k));
                    let exc = !sb.keys().any(|k| s.contains_key(k));
                    ensure!(a.contains_subset(b) == sub, "contains_subset answers {}", !sub);
                    ensure!(b.contains_subset(&a) == sup, "contains_subset answers {}", !sup);
                    ensure!(a.excludes_subset(b) == exc, "excludes_subset answers {}", !exc);
                    ensure!(b.excludes_subset(&a) == exc, "excludes_subset answers {}", !exc);
                    if sub && sup {
                        ensure!(
                            a.archetype_id() == b.archetype_id(),
                            "equal sets have identifiers {:?} and {:?}",
                            a.archetype_id(),
                            b.archetype_id()
                        );
                    }
                }
                Ok(())
            };
            check().map_err(|e| format!("op {i} {op:?}: {e}"))?;
            ids.insert(s.keys().copied().collect(), a.archetype_id().into_u32());
            seen.push((a.clone(), s.clone()));
            if s.len() == 14 {
                ctx.label("sets of 14");
            }
            cur = Some((a, s));
            changes += 1;
        }
        ctx.count("changes", changes);
        ctx.count("sets", ids.len() as u64);
        ctx.nontrivial = changes >= 4 && ids.len() >= 2;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C15

pub struct C15;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum GroupCase {
    Dynamic { members: Vec<Dyn>, dup: Option<(u8, u8)> },
    Static { g: u16, k: u16, serial: u32, rows: u8 },
}
impl Suite for C15 {
    const NAME: &'static str = "C15";
    const RULE: &'static str = "random arrays of component descriptors (0 to 20 members, with and without repetitions) whose group descriptor is compared with sorting by id, and every static tuple split into type-erased parts and read back as values, references and slices in the order of any tuple of the same set; non-trivial: at least two components";
    type Case = GroupCase;
    const BATCH: usize = 128;
    fn strategy(_t: Tier) -> BoxedStrategy<GroupCase> {
        let n = prop_oneof![
            14 => (1usize..=14).boxed(),
            1 => proptest::sample::select(vec![0usize, 15, 16, 17, 20]).boxed()
        ];
        let members = n.prop_flat_map(|n| dyns(n..=n));
        prop_oneof![
            2 => (members, proptest::option::weighted(0.35, any::<(u8, u8)>()))
                .prop_map(|(members, dup)| GroupCase::Dynamic { members, dup }),
            1 => (0u16..NG_VALID as u16, any::<u16>(), any::<u32>(), 0u8..6)
                .prop_map(|(g, k, serial, rows)| GroupCase::Static { g, k, serial, rows }),
        ]
        .boxed()
    }
    fn run(c: &GroupCase, ctx: &mut Ctx) -> R {
        match c {
            GroupCase::Dynamic { members, dup } => {
                let mut m = members.clone();
                if let (Some((a, b)), true) = (dup, m.len() >= 2) {
                    let (a, b) = (*a as usize % m.len(), *b as usize % m.len());
                    m[a].id = m[b].id;
                }
                run_dynamic_group(&m, ctx)
            }
            GroupCase::Static { g, k, serial, rows } => {
                run_static_group(*g as usize % NG_VALID, *k as usize, *serial, *rows as usize, ctx)
            }
        }
    }
}

fn run_dynamic_group(m: &[Dyn], ctx: &mut Ctx) -> R {
    let n = m.len();
    let descs: Vec<ComponentDescriptor> = m.iter().map(|d| d.desc()).collect();
    let g = group_new(&descs);
    let uniq = distinct(m).len() == n;
    let what = format!("a group of {n} components with ids {:?}", m.iter().map(|d| d.id).collect::<Vec<_>>());
    if n == 0 || n > 14 || !uniq {
        ensure!(!g.is_valid(), "{what} is valid");
        ctx.label(if uniq { "groups of a wrong size" } else { "groups with a repetition" });
        ctx.nontrivial = n >= 2;
        return Ok(());
    }
    ensure!(g.is_valid(), "{what} is not valid");
    ensure!(g.len() as usize == n, "{what} has length {}", g.len());
    let want: BTreeMap<u16, Dyn> = m.iter().map(|d| (d.id, *d)).collect();
    check_listed(&what, g.archetype().components(), &want)?;
    let order: Vec<u16> = want.keys().copied().collect();
    for (i, d) in m.iter().enumerate() {
        let rank = order.iter().position(|x| *x == d.id).unwrap();
        ensure!(
            g.unsorted_to_sorted(i as u8) as usize == rank,
            "{what}: position {i} maps to sorted position {}, expected {rank}",
            g.unsorted_to_sorted(i as u8)
        );
        ensure!(
            g.sorted_to_unsorted(rank as u8) as usize == i,
            "{what}: sorted position {rank} maps to position {}, expected {i}",
            g.sorted_to_unsorted(rank as u8)
        );
    }
    ctx.label("valid groups");
    ctx.nontrivial = n >= 2;
    Ok(())
}

fn run_static_group(g: usize, k: usize, serial: u32, rows: usize, ctx: &mut Ctx) -> R {
    let t = tables();
    let gi = &t.groups[g];
    let n = gi.ixs.len();
    let l = &t.by_mask[&gi.mask];
    let g2 = l[k % l.len()];
    let gj = &t.groups[g2];
    let mut order: Vec<usize> = gi.ixs.clone();
    order.sort_by_key(|x| id_of(*x));
    // the descriptor of the tuple type itself
    let d = (GROUPS[g].descriptor)();
    let what = format!("the tuple of types {:?}", gi.ixs);
    ensure!(d.is_valid() && d.len() as usize == n, "{what}: descriptor invalid or of length {}", d.len());
    for (r, c) in d.archetype().components().iter().enumerate() {
        let t = &TYPES[order[r]];
        ensure!(
            c.component_type_id().into_u16() == t.id && c.size() as usize == t.size && c.align() as usize == t.align,
            "{what}: sorted position {r} lists component {}",
            c.component_type_id().into_u16()
        );
    }
    for (i, ix) in gi.ixs.iter().enumerate() {
        let r = order.iter().position(|x| x == ix).unwrap();
        ensure!(
            d.unsorted_to_sorted(i as u8) as usize == r && d.sorted_to_unsorted(r as u8) as usize == i,
            "{what}: position mappings of position {i} are {} and back {}",
            d.unsorted_to_sorted(i as u8),
            d.sorted_to_unsorted(r as u8)
        );
    }
    // split, and read back through another tuple order
    let key: Vec<u32> = (0..n).map(|i| serial.wrapping_add(i as u32 * 7 + 1)).collect();
    let want = |ix: usize| key_of(ix, key[gi.ixs.iter().position(|x| *x == ix).unwrap()]);
    let mut res: R = Ok(());
    (GROUPS[g].raw.split)(&key, &mut |ptrs| {
        res = (|| -> R {
            let mut at = HashMap::new();
            for (r, ix) in order.iter().enumerate() {
                let o = unsafe { (TYPES[*ix].obs_at)(ptrs[r]) };
                ensure!(
                    o.key == Ok(want(*ix)),
                    "{what}: splitting gave {:?} at sorted position {r}, expected {}",
                    o.key,
                    want(*ix)
                );
                at.insert(*ix, ptrs[r] as usize);
            }
            let other = format!("{what} read back as {:?}", gj.ixs);
            let refs = unsafe { (GROUPS[g2].raw.refs)(ptrs) };
            let muts: Vec<(usize, usize)> =
                unsafe { (GROUPS[g2].raw.refs_mut)(ptrs) }.iter().map(|c| (c.ix, c.ptr as usize)).collect();
            ensure!(refs.len() == n && muts.len() == n, "{other}: wrong number of references");
            for (i, ix) in gj.ixs.iter().enumerate() {
                ensure!(
                    refs[i].key == Ok(want(*ix)) && (TYPES[*ix].size == 0 || refs[i].addr == at[ix]),
                    "{other}: the shared reference at position {i} shows {:?}, expected {}",
                    refs[i].key,
                    want(*ix)
                );
                ensure!(
                    muts[i].0 == *ix && muts[i].1 == at[ix],
                    "{other}: the mutable reference at position {i} does not point at its part"
                );
            }
            let vals = unsafe { (GROUPS[g2].raw.read)(ptrs) };
            for (i, ix) in gj.ixs.iter().enumerate() {
                ensure!(
                    vals[i] == Ok(want(*ix)),
                    "{other}: the value at position {i} is {:?}, expected {}",
                    vals[i],
                    want(*ix)
                );
            }
            Ok(())
        })();
    });
    res?;
    // slices over columns of several rows
    let other = format!("{what}: slices read as {:?}", gj.ixs);
    let mut cols: Vec<(usize, Vec<u128>, *mut u8)> = Vec::new();
    for ix in &order {
        let t = &TYPES[*ix];
        let words = (t.size * rows + t.align + 16) / 16 + 1;
        let mut v = vec![0u128; words];
        let p = v.as_mut_ptr() as usize;
        let p = (p + t.align - 1) / t.align * t.align;
        cols.push((*ix, v, p as *mut u8));
    }
    let mut ptrs = [std::ptr::null_mut(); 14];
    for (r, c) in cols.iter().enumerate() {
        ptrs[r] = c.2;
    }
    for muta in [false, true] {
        let got = unsafe {
            if muta {
                (GROUPS[g2].raw.slices_mut)(&ptrs, rows)
            } else {
                (GROUPS[g2].raw.slices)(&ptrs, rows)
            }
        };
        ensure!(got.len() == n, "{other}: {} slices", got.len());
        for (i, ix) in gj.ixs.iter().enumerate() {
            let c = cols.iter().find(|c| c.0 == *ix).unwrap();
            ensure!(
                got[i].ix == *ix && got[i].len == rows && got[i].ptr == c.2,
                "{other}: the slice at position {i} has {} elements at {:?}, expected {rows} at {:?}",
                got[i].len,
                got[i].ptr,
                c.2
            );
        }
        let e = (GROUPS[g2].raw.empty)(muta);
        ensure!(
            e.len() == n && e.iter().zip(&gj.ixs).all(|(c, ix)| c.ix == *ix && c.len == 0),
            "{other}: the empty slices are not one empty slice per position"
        );
    }
    ctx.label("static tuples");
    if g != g2 {
        ctx.label("read back in another order");
    }
    ctx.nontrivial = n >= 2;
    Ok(())
}

/// Groups with a repetition are never valid (used for C21).
pub struct C21d;
impl Suite for C21d {
    const NAME: &'static str = "C21d";
    const RULE: &'static str = "random arrays of 2 to 14 component descriptors in which one type is repeated at two random positions: the group's descriptor must be invalid; non-trivial: always";
    type Case = (Vec<Dyn>, u8, u8);
    const BATCH: usize = 256;
    fn strategy(_t: Tier) -> BoxedStrategy<Self::Case> {
        (dyns(2..=14), any::<u8>(), any::<u8>()).boxed()
    }
    fn run((m, a, b): &Self::Case, ctx: &mut Ctx) -> R {
        let mut m = m.clone();
        let a = *a as usize % m.len();
        let b = (a + 1 + *b as usize % (m.len() - 1)) % m.len();
        m[a] = Dyn { id: m[b].id, ..if b % 2 == 0 { m[b] } else { m[a] } };
        let d: Vec<ComponentDescriptor> = m.iter().map(|d| d.desc()).collect();
        let g = group_new(&d);
        ensure!(
            !g.is_valid() && !g.archetype().is_valid(),
            "a group of {} components that repeats one at positions {a} and {b} is valid",
            m.len()
        );
        ctx.nontrivial = true;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C17

pub struct C17;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Pack {
    /// a run of raw handles
    Raws { base: u32, stride: u32, n: u32 },
    /// one handle, then updates
    Handle { index: u32, version: u8, ops: Vec<(bool, u32)> },
    /// row indices around a value
    Rows { base: u32, n: u32 },
    /// an entity entry and updates: field, value
    Entry { ops: Vec<(u8, u32)> },
}
fn u24() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..0x100_0000,
        2 => (0u32..24).prop_map(|b| 1 << b),
        2 => (0u32..24, any::<u8>()).prop_map(|(b, x)| ((x as u32) << b) & 0xFF_FFFF),
        1 => (0u32..24).prop_map(|b| 0xFF_FFFF ^ (1 << b)),
        1 => 0xFF_FFF0u32..=0xFF_FFFF,
        1 => 0u32..4,
    ]
    .boxed()
}
impl Suite for C17 {
    const NAME: &'static str = "C17";
    const RULE: &'static str = "runs of raw handles, random sequences of index/version updates, runs of row indices and random sequences of updates of entity entries, compared with plain fields; non-trivial: always (each case checks at least two values)";
    type Case = Pack;
    const BATCH: usize = 64;
    fn strategy(_t: Tier) -> BoxedStrategy<Pack> {
        prop_oneof![
            2 => (any::<u32>(), prop_oneof![Just(1u32), Just(255), Just(256), Just(257), Just(65537), any::<u32>()])
                .prop_map(|(base, stride)| Pack::Raws { base, stride, n: 4096 }),
            1 => Just(Pack::Raws { base: u32::MAX - 2048, stride: 1, n: 4096 }),
            6 => (u24(), any::<u8>(), proptest::collection::vec((any::<bool>(), u24()), 0..20))
                .prop_map(|(index, version, ops)| Pack::Handle { index, version, ops }),
            2 => (u24(), 2u32..2000).prop_map(|(base, n)| Pack::Rows { base, n }),
            1 => (0xFF_0000u32..0x200_0000, 2u32..2000).prop_map(|(base, n)| Pack::Rows { base, n }),
            1 => any::<u32>().prop_map(|base| Pack::Rows { base, n: 100 }),
            6 => proptest::collection::vec((0u8..5, prop_oneof![u24(), any::<u32>(), Just(0xFFFF), Just(0xFFFE), Just(0xFF)]), 1..40)
                .prop_map(|ops| Pack::Entry { ops }),
        ]
        .boxed()
    }
    fn run(c: &Pack, ctx: &mut Ctx) -> R {
        ctx.nontrivial = true;
        match c {
            Pack::Raws { base, stride, n } => {
                ctx.label("runs of raw handles");
                for i in 0..*n {
                    let raw = base.wrapping_add(i.wrapping_mul(*stride));
                    let e = unsafe { Entity::from_raw(raw) };
                    ensure!(e.raw() == raw, "raw handle {raw:#x} becomes {:#x}", e.raw());
                    ensure!(
                        e.index() == raw >> 8 && e.version() == raw as u8,
                        "raw handle {raw:#x} has index {:#x} and version {}",
                        e.index(),
                        e.version()
                    );
                    ensure!(e.is_valid() == (raw != u32::MAX), "validity of raw handle {raw:#x} is {}", e.is_valid());
                    let b = unsafe { Entity::new_unchecked(e.index(), e.version()) };
                    ensure!(b == e && b.raw() == raw, "handle {raw:#x} rebuilt from its fields is {:#x}", b.raw());
                    ensure!((e == Entity::INVALID) == (raw == u32::MAX), "handle {raw:#x} compares wrongly with the invalid one");
                }
                ensure!(
                    !Entity::INVALID.is_valid() && !Entity::default().is_valid() && Entity::invalid().raw() == u32::MAX,
                    "the invalid handle is not all ones"
                );
            }
            Pack::Handle { index, version, ops } => {
                ctx.label("handle updates");
                let (mut i, mut v) = (*index & 0xFF_FFFF, *version);
                let mut e = unsafe { Entity::new_unchecked(i, v) };
                let chk = |e: &Entity, i: u32, v: u8, how: &str| -> R {
                    ensure!(
                        e.index() == i && e.version() == v && e.raw() == i << 8 | v as u32,
                        "{how}: index {:#x} version {} raw {:#x}, expected index {i:#x} version {v}",
                        e.index(),
                        e.version(),
                        e.raw()
                    );
                    ensure!(
                        e.is_valid() == !(i == 0xFF_FFFF && v == 0xFF),
                        "{how}: validity of index {i:#x} version {v} is {}",
                        e.is_valid()
                    );
                    Ok(())
                };
                chk(&e, i, v, "built")?;
                for (f, x) in ops {
                    if *f {
                        i = x & 0xFF_FFFF;
                        unsafe { e.set_index(i) };
                        chk(&e, i, v, "after set_index")?;
                    } else {
                        v = *x as u8;
                        e.set_version(v);
                        chk(&e, i, v, "after set_version")?;
                    }
                }
            }
            Pack::Rows { base, n } => {
                ctx.label("row index runs");
                for k in 0..*n {
                    let x = base.wrapping_add(k);
                    let r = IndexInArchetype::new(x);
                    ensure!(
                        r.is_some() == (x < 16_777_215),
                        "a row index of {x} is {}",
                        if r.is_some() { "accepted" } else { "refused" }
                    );
                    if let Some(r) = r {
                        ensure!(r.value() == x, "row index {x} becomes {}", r.value());
                        let b = r.to_bytes();
                        let back = IndexInArchetype::from_bytes(b);
                        ensure!(back == r && back.value() == x, "row index {x} round-trips to {}", back.value());
                    }
                }
            }
            Pack::Entry { ops } => {
                ctx.label("entry updates");
                let mut e = EntityEntry::default();
                let (mut v, mut r, mut a) = (e.version(), e.index_in_archetype().value(), e.archetype_index());
                for (f, x) in ops {
                    match f {
                        0 => {
                            v = *x as u8;
                            e.set_version(v);
                        }
                        1 | 2 => {
                            r = *x & 0xFF_FFFF;
                            e.set_index_in_archetype(unsafe { IndexInArchetype::new_unchecked(r) });
                        }
                        3 => {
                            a = *x as u16;
                            e.set_archetype_index(a);
                        }
                        _ => {
                            r = *x & 0xFF_FFFF;
                            a = u16::MAX;
                            unsafe { e.invalidate(r) };
                        }
                    }
                    let c = e.clone();
                    for (e, w) in [(&e, "the entry"), (&c, "its clone")] {
                        ensure!(
                            e.version() == v && e.index_in_archetype().value() == r && e.archetype_index() == a,
                            "after updating field {f} to {x:#x} {w} has version {} row {:#x} archetype {:#x}, expected {v} {r:#x} {a:#x}",
                            e.version(),
                            e.index_in_archetype().value(),
                            e.archetype_index()
                        );
                        ensure!(e.is_valid() == (a != u16::MAX), "{w} with archetype index {a:#x} has validity {}", e.is_valid());
                    }
                }
            }
        }
        Ok(())
    }
}

/// Every value there is of the packed forms.
pub struct C17x;
impl Suite for C17x {
    const NAME: &'static str = "C17x";
    const RULE: &'static str = "all 2^32 raw handles read, rebuilt from their fields and updated to pseudo-random other fields; all row indices written into entries beside pseudo-random other fields; all pairs of version and archetype index; non-trivial: always";
    type Case = u64;
    const BATCH: usize = 1;
    const PATIENCE: u64 = 400;
    fn strategy(_t: Tier) -> BoxedStrategy<u64> {
        any::<u64>().prop_map(|x| x | 1).boxed()
    }
    fn run(salt: &u64, ctx: &mut Ctx) -> R {
        let mut x = *salt;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        let mut r = rnd();
        for raw in 0..=u32::MAX {
            if raw & 0xFF == 0 {
                r = rnd();
            }
            let (i, v) = (raw >> 8, raw as u8);
            let e = unsafe { Entity::from_raw(raw) };
            let b = unsafe { Entity::new_unchecked(i, v) };
            ensure!(
                e.raw() == raw && e.index() == i && e.version() == v && b.raw() == raw && b == e && e.is_valid() == (raw != u32::MAX),
                "raw handle {raw:#x}: index {:#x} version {} valid {}, rebuilt {:#x}",
                e.index(),
                e.version(),
                e.is_valid(),
                b.raw()
            );
            let (i2, v2) = ((r as u32).wrapping_add(raw.wrapping_mul(0x9E37_79B1)) >> 8, (r >> 40) as u8 ^ v);
            let (mut p, mut q) = (e, e);
            unsafe { p.set_index(i2) };
            q.set_version(v2);
            ensure!(p.raw() == i2 << 8 | v as u32, "handle {raw:#x} with its index set to {i2:#x} is {:#x}", p.raw());
            ensure!(q.raw() == i << 8 | v2 as u32, "handle {raw:#x} with its version set to {v2} is {:#x}", q.raw());
        }
        let mut e = EntityEntry::default();
        for row in 0..0x100_0000u32 {
            let z = rnd();
            let (v, a) = (z as u8, (z >> 16) as u16);
            e.set_version(v);
            e.set_archetype_index(a);
            let k = IndexInArchetype::new(row);
            ensure!(k.is_some() == (row < 0xFF_FFFF), "a row index of {row} is {}", if k.is_some() { "accepted" } else { "refused" });
            let k = k.unwrap_or(unsafe { IndexInArchetype::new_unchecked(row) });
            ensure!(IndexInArchetype::from_bytes(k.to_bytes()).value() == row, "row index {row} does not round-trip");
            e.set_index_in_archetype(k);
            ensure!(
                e.version() == v && e.archetype_index() == a && e.index_in_archetype().value() == row && e.is_valid() == (a != u16::MAX),
                "entry of version {v}, archetype {a:#x} and row {row:#x} reads {} {:#x} {:#x} {}",
                e.version(),
                e.archetype_index(),
                e.index_in_archetype().value(),
                e.is_valid()
            );
        }
        for va in 0..0x100_0000u32 {
            let (v, a) = (va as u8, (va >> 8) as u16);
            if v == 0 {
                e.set_index_in_archetype(unsafe { IndexInArchetype::new_unchecked(rnd() as u32 & 0xFF_FFFF) });
            }
            let row = e.index_in_archetype().value();
            if va & 0x100 == 0 {
                e.set_version(v);
                e.set_archetype_index(a);
            } else {
                e.set_archetype_index(a);
                e.set_version(v);
            }
            ensure!(
                e.version() == v && e.archetype_index() == a && e.index_in_archetype().value() == row && e.is_valid() == (a != u16::MAX),
                "entry of version {v}, archetype {a:#x} and row {row:#x} reads {} {:#x} {:#x} {}",
                e.version(),
                e.archetype_index(),
                e.index_in_archetype().value(),
                e.is_valid()
            );
        }
        for big in (0..2000).map(|_| rnd() as u32).chain((24..32).map(|b| 1 << b)).chain(0xFF_FFFF..0x101_0000) {
            ensure!(
                IndexInArchetype::new(big).is_some() == (big < 0xFF_FFFF),
                "a row index of {big} is {}",
                if big < 0xFF_FFFF { "refused" } else { "accepted" }
            );
        }
        ctx.count("raw handles", 1 << 32);
        ctx.count("entries", 2 << 24);
        ctx.nontrivial = true;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C18

fn ref_64(b: &[u8]) -> u64 {
    let mut h: u128 = 14695981039346656037;
    for x in b {
        h = ((h ^ *x as u128) * 1099511628211) % (1 << 64);
    }
    h as u64
}
fn ref_32(b: &[u8]) -> u32 {
    let mut h: u64 = 2166136261;
    for x in b {
        h = ((h ^ *x as u64) * 16777619) % (1 << 32);
    }
    h as u32
}
fn ref_16(b: &[u8]) -> u16 {
    let h = ref_32(b);
    (h >> 16) as u16 ^ (h & 0xFFFF) as u16
}

macro_rules! named {
    ($($t:ident $n:expr;)*) => {
        $( struct $t; impl Component for $t { const NAME: &'static str = $n; } )*
        /// name, id, and the string hashes of the name evaluated at compile time
        const NAMED: &[(&str, u16, u64, u32, u16)] = &[$(
            ($n, <$t as Component>::ID.into_u16(),
             fnv1a::fnv1a_hash_str_64($n), fnv1a::fnv1a_hash_str_32($n), fnv1a::fnv1a_hash_str_16_xor($n)),
        )*];
    };
}
/// A long name (of valid UTF-8).
const fn long<const N: usize>() -> [u8; N] {
    let mut a = [b'a'; N];
    let mut i = 0;
    while i < N {
        a[i] = b' ' + ((i * i + i / 7) % 90) as u8;
        i += 1;
    }
    a
}
macro_rules! long {
    ($n:expr) => {{
        const A: [u8; $n] = long::<$n>();
        match std::str::from_utf8(&A) {
            Ok(s) => s,
            Err(_) => unreachable!(),
        }
    }};
}
named! {
    L0 long!(127); L1 long!(128); L2 long!(255); L3 long!(256); L4 long!(257); L5 long!(1025); L6 long!(4099); L7 long!(65_540);
    N0 ""; N1 "a"; N2 "foobar"; N3 "Position"; N4 "é"; N5 "日本語のコンポーネント"; N6 "🦀"; N7 "\0"; N8 "a\0b";
    N9 "A component name that is a good deal longer than the usual identifiers one finds, to be sure that nothing is cut off at sixty-four bytes or so";
    N10 "ÿþ"; N11 "module::path::Type<T>"; N12 "ß"; N13 "Velocity"; N14 " "; N15 "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}";
}

pub struct C18;
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct HashCase {
    pub bytes: Vec<u8>,
    /// bytes that follow, made from a seed, so that inputs can be long
    #[serde(default)]
    pub more: Option<(u64, u32)>,
    pub text: String,
    pub limits: Vec<u64>,
}
impl Suite for C18 {
    const NAME: &'static str = "C18";
    const RULE: &'static str = "random byte strings of 0 to 200,000 bytes with limits inside, at and beyond their length, random unicode strings, and a table of components with unusual names whose ids were computed at compile time, against an independent FNV-1a in wide arithmetic; non-trivial: input longer than one byte";
    type Case = HashCase;
    const BATCH: usize = 256;
    fn strategy(_t: Tier) -> BoxedStrategy<HashCase> {
        let bytes = prop_oneof![
            3 => proptest::collection::vec(any::<u8>(), 0..40),
            1 => proptest::collection::vec(any::<u8>(), 0..2000),
            1 => (any::<u8>(), 0usize..300).prop_map(|(b, n)| vec![b; n]),
            1 => proptest::collection::vec(128u8..=255, 0..40),
        ];
        let text = prop_oneof![
            2 => proptest::collection::vec(any::<char>(), 0..30).prop_map(|v| v.into_iter().collect::<String>()),
            1 => proptest::collection::vec(proptest::char::range(' ', '~'), 0..60).prop_map(|v| v.into_iter().collect::<String>()),
        ];
        let limit = prop_oneof![
            3 => 0u64..50,
            1 => 0u64..2100,
            1 => any::<u64>(),
            1 => Just(u64::MAX),
            1 => (0u32..33, 0u64..9).prop_map(|(b, d)| ((1u64 << b) + d).saturating_sub(4)),
        ];
        let more = proptest::option::weighted(
            0.02,
            (any::<u64>(), prop_oneof![2 => 200u32..5_000, 2 => 65_500u32..65_600, 1 => 1_000u32..200_000]),
        );
        (bytes, more, text, proptest::collection::vec(limit, 0..6))
            .prop_map(|(bytes, more, text, limits)| HashCase { bytes, more, text, limits })
            .boxed()
    }
    fn run(c: &HashCase, ctx: &mut Ctx) -> R {
        use shard_ecs::fnv1a::*;
        let mut bytes = c.bytes.clone();
        let mut text = c.text.clone();
        if let Some((seed, n)) = c.more {
            let mut x = seed | 1;
            for _ in 0..n {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                bytes.push((x >> 40) as u8);
                text.push(char::from_u32((x >> 50) as u32 & 0x7FF).unwrap_or('?'));
            }
            ctx.label("long inputs");
        }
        let b = &bytes[..];
        let n = b.len() as u64;
        let mut ls: Vec<Option<usize>> = vec![None];
        for l in c.limits.iter().copied().chain([0, 1, n.saturating_sub(1), n, n + 1, u64::MAX]) {
            ls.push(Some(l as usize));
        }
        for l in ls {
            let used = match l {
                Some(l) if l > 0 && l <= b.len() => &b[..l],
                _ => b,
            };
            let got = (fnv1a_hash_64(b, l), fnv1a_hash_32(b, l), fnv1a_hash_16_xor(b, l));
            let want = (ref_64(used), ref_32(used), ref_16(used));
            ensure!(got == want, "hashes of {} bytes with limit {l:?} are {got:x?}, FNV-1a gives {want:x?}", b.len());
            ctx.label("hashes compared");
        }
        let s = &text[..];
        let got = (fnv1a_hash_str_64(s), fnv1a_hash_str_32(s), fnv1a_hash_str_16_xor(s));
        let want = (ref_64(s.as_bytes()), ref_32(s.as_bytes()), ref_16(s.as_bytes()));
        ensure!(got == want, "hashes of the string {s:?} are {got:x?}, FNV-1a gives {want:x?}", s = &c.text);
        for (name, id, a, b, c) in NAMED {
            let n = name.as_bytes();
            ensure!(*id == ref_16(n), "a component named {:?} has id {id:#x}, expected {:#x}", name.chars().take(80).collect::<String>(), ref_16(n));
            ensure!(
                (*a, *b, *c) == (ref_64(n), ref_32(n), ref_16(n)),
                "hashes of a name of {} bytes computed at compile time differ from FNV-1a",
                n.len()
            );
        }
        for t in &TYPES {
            if let Some(name) = t.named {
                ensure!(t.id == ref_16(name.as_bytes()), "component {name:?} has id {:#x}, expected {:#x}", t.id, ref_16(name.as_bytes()));
                let d = (t.descriptor)();
                ensure!(d.component_type_id().into_u16() == t.id, "component {name:?}: its descriptor carries another id");
            }
        }
        ctx.nontrivial = b.len() > 1 || s.len() > 1;
        Ok(())
    }
}
