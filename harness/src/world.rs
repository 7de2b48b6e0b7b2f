//! The registry engine: generated histories against a reference model.
//!
//! The model is a map from raw handle to a component set with one value per component. Each
//! operation's outcome is predicted by the model, and the registry's observable state is compared
//! with it through every query path. Which oracles are consulted is a matter of the property
//! (`Oracles`); the operations and their predicted outcomes are common to all.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;

use crate::comps::*;
use crate::groups::*;
use crate::runner::Ctx;
use crate::{guard, ledger};

pub type R<T = (), E = String> = Result<T, E>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct GInfo {
    pub ixs: Vec<usize>,
    pub mask: u32,
    pub valid: bool,
    pub row_bytes: usize,
}

pub struct Tables {
    pub groups: Vec<GInfo>,
    pub by_mask: HashMap<u32, Vec<usize>>,
    pub perm: Vec<u16>,
    pub small: Vec<u16>,
    pub wide: Vec<u16>,
    pub single: Vec<u16>,
    pub big: Vec<u16>,
    /// groups with types whose identifiers were chosen for their hashes
    pub coll: Vec<u16>,
    pub invalid: Vec<u16>,
}

/// The group of just this type.
pub fn single_of(t: usize) -> usize {
    tables().by_mask[&(1 << t)][0]
}

pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables {
            groups: vec![],
            by_mask: HashMap::new(),
            perm: vec![],
            small: vec![],
            wide: vec![],
            single: vec![],
            big: vec![],
            coll: vec![],
            invalid: vec![],
        };
        for (i, g) in GROUPS.iter().enumerate() {
            let ixs = (g.ixs)();
            let mut mask = 0u32;
            for ix in &ixs {
                mask |= 1 << ix;
            }
            let valid = mask.count_ones() as usize == ixs.len();
            assert_eq!(valid, i < NG_VALID);
            if valid {
                t.by_mask.entry(mask).or_default().push(i);
                if ixs.iter().any(|x| *x >= 26) {
                    t.coll.push(i as u16);
                } else if ixs.iter().any(|x| *x >= NSMALL) {
                    t.big.push(i as u16);
                } else {
                    if mask & !0b1_0010_0011 == 0 {
                        t.perm.push(i as u16);
                    }
                    if ixs.len() == 1 {
                        t.single.push(i as u16);
                    }
                    if ixs.len() <= 6 {
                        t.small.push(i as u16);
                    }
                    if ixs.len() >= 8 {
                        t.wide.push(i as u16);
                    }
                }
            } else {
                t.invalid.push(i as u16);
            }
            t.groups.push(GInfo {
                row_bytes: ixs.iter().map(|x| TYPES[*x].size).sum::<usize>() + 4,
                ixs,
                mask,
                valid,
            });
        }
        t
    })
}

pub fn id_of(ix: usize) -> u16 {
    TYPES[ix].id
}

/// Index of the type with this id.
pub fn ix_of_id(id: u16) -> Option<usize> {
    static M: OnceLock<HashMap<u16, usize>> = OnceLock::new();
    M.get_or_init(|| {
        let m: HashMap<u16, usize> = TYPES.iter().map(|t| (t.id, t.ix)).collect();
        assert_eq!(m.len(), NT);
        m
    })
    .get(&id)
    .copied()
}

pub fn bits(mask: u32) -> impl Iterator<Item = usize> {
    (0..NT).filter(move |i| mask & (1 << i) != 0)
}

pub fn show(mask: u32) -> String {
    let v: Vec<String> = bits(mask).map(|i| format!("C{i}")).collect();
    format!("{{{}}}", v.join(","))
}

// ---------------------------------------------------------------------------------------------
// Cases

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Sel {
    Live(u16),
    Recent(u8),
    Dead(u16),
    /// a live handle's slot with another version
    Bump(u16, u8),
    /// an arbitrary small slot and version
    Slot(u16, u8),
    Raw(u32),
    Invalid,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Pred {
    True,
    False,
    Has(u8),
    Lacks(u8),
    LenEq(u8),
    LenOdd,
    Contains(u8),
    Excludes(u8),
    FirstIdOdd,
    Not(Box<Pred>),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Create { g: u8 },
    CreateMany { g: u8, n: u32 },
    Destroy { e: Sel },
    DestroyRange { start: u16, n: u16, stride: u8 },
    RemoveEntity { e: Sel, g: u8 },
    RemoveExact { e: Sel, k: u8 },
    Add { e: Sel, t: u8 },
    Del { e: Sel, t: u8 },
    AddRange { start: u16, n: u16, t: u8 },
    DelRange { start: u16, n: u16, t: u8 },
    Set { e: Sel, t: u8 },
    SetGroup { e: Sel, g: u8 },
    IterWrite { g: u8, ents: bool, pred: Option<Pred>, first: Option<u8> },
    ExactWrite { g: u8, ents: bool },
    /// create and destroy n times, so that one slot is reused again and again
    Churn { g: u8, n: u16 },
    Clear,
    /// n calls chosen by the seed, around this many live entities
    March { seed: u32, n: u32, keep: u16 },
    /// n calls that bring a few entities through as many different sets of small components as possible
    Walk { seed: u32, n: u16, keep: u8 },
    /// more than 65,536 entities in one set, reached by creation or by adding or removing a
    /// component, and then calls on entities in rows around and beyond that
    Tall { g: u8, t: u8, over: u16, how: u8, seed: u32, calls: u16 },
    /// n entities of one group, each then given its own subset of the palette's types
    Spread { g: u8, n: u8, salt: u32 },
    /// an entity brought to this set by a route chosen by the salt
    Build { mask: u32, salt: u32 },
    /// a battery of refused calls on one handle
    Probe { e: Sel },
    /// destroy with a destructor that panics
    DestroyPanic { e: Sel, t: u8 },
    /// a call during which a request for memory is refused: 0 creation, 1 adding, 2 removing a
    /// component, 3 creations until it happens. `fill`: what the call needs is full before
    Starve { how: u8, e: Sel, g: u8, t: u8, nth: u8, all: bool, fill: bool },
    /// compare everything now
    Observe,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WorldCase {
    pub groups: Vec<u16>,
    pub extra: Vec<u8>,
    pub ops: Vec<Op>,
}

// ---------------------------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub create: u32,
    pub many: u32,
    pub destroy: u32,
    pub remove: u32,
    pub add: u32,
    pub del: u32,
    pub set: u32,
    pub iterw: u32,
    pub exactw: u32,
    pub churn: u32,
    pub clear: u32,
    /// long runs of calls (a tenth of the weight of the others)
    pub march: u32,
    pub spread: u32,
    pub probe: u32,
    pub panic: u32,
    pub starve: u32,
    pub build: u32,
    /// share of selectors that do not name a live entity, in percent
    pub bad: u32,
    /// weights of the palette kinds: permutations of one set, small groups, wide groups, single
    /// components, extreme layouts, sets whose identifiers collide
    pub kinds: [u32; 6],
    /// chance (in percent) that groups repeating a type are in the palette
    pub invalid: u32,
    pub ops: (usize, usize),
    /// allow populations beyond 65,536
    pub huge: bool,
    pub pred: bool,
    /// small numbers only (for slow interpreters)
    pub tiny: bool,
}

impl Mix {
    pub const BASE: Mix = Mix {
        create: 14,
        many: 5,
        destroy: 8,
        remove: 7,
        add: 14,
        del: 11,
        set: 4,
        iterw: 2,
        exactw: 1,
        churn: 1,
        clear: 1,
        march: 3,
        spread: 2,
        probe: 2,
        panic: 0,
        starve: 0,
        build: 0,
        bad: 12,
        kinds: [30, 30, 20, 15, 4, 3],
        invalid: 10,
        ops: (1, 60),
        huge: true,
        pred: true,
        tiny: false,
    };
}

pub fn sel(bad: u32) -> BoxedStrategy<Sel> {
    let good = 100 - bad;
    prop_oneof![
        good * 6 => any::<u16>().prop_map(Sel::Live),
        good * 4 => (0u8..12).prop_map(Sel::Recent),
        bad * 5 => any::<u16>().prop_map(Sel::Dead),
        bad * 2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Sel::Bump(a, b)),
        bad => (0u16..40, any::<u8>()).prop_map(|(a, b)| Sel::Slot(a, b)),
        bad => any::<u32>().prop_map(Sel::Raw),
        bad => Just(Sel::Invalid),
    ]
    .boxed()
}

pub fn pred() -> BoxedStrategy<Pred> {
    let leaf = prop_oneof![
        1 => Just(Pred::True),
        1 => Just(Pred::False),
        4 => any::<u8>().prop_map(Pred::Has),
        4 => any::<u8>().prop_map(Pred::Lacks),
        2 => (1u8..15).prop_map(Pred::LenEq),
        1 => Just(Pred::LenOdd),
        2 => any::<u8>().prop_map(Pred::Contains),
        2 => any::<u8>().prop_map(Pred::Excludes),
        1 => Just(Pred::FirstIdOdd),
    ];
    leaf.prop_recursive(2, 6, 2, |inner| {
        prop_oneof![
            inner.clone().prop_map(|p| Pred::Not(Box::new(p))),
            (inner.clone(), inner.clone()).prop_map(|(a, b)| Pred::And(Box::new(a), Box::new(b))),
            (inner.clone(), inner).prop_map(|(a, b)| Pred::Or(Box::new(a), Box::new(b))),
        ]
    })
    .boxed()
}

/// A set for which a static group exists, so that it can be iterated exactly.
pub fn build_mask() -> BoxedStrategy<u32> {
    let t = tables();
    let l: Vec<u32> = t
        .groups
        .iter()
        .filter(|g| g.valid && g.row_bytes < 2500)
        .map(|g| g.mask)
        .collect();
    proptest::sample::select(l).boxed()
}

pub fn many(huge: bool, tiny: bool) -> BoxedStrategy<u32> {
    if tiny {
        prop_oneof![ 30 => 1u32..4, 1 => 127u32..131 ].boxed()
    } else if huge {
        prop_oneof![
            600 => 1u32..9,
            350 => 100u32..300,
            40 => 300u32..4000,
            2 => 65_400u32..66_500,
        ]
        .boxed()
    } else {
        prop_oneof![ 60 => 1u32..9, 36 => 100u32..300, 4 => 300u32..2000 ].boxed()
    }
}

fn few(tiny: bool) -> BoxedStrategy<u16> {
    if tiny {
        (1u16..5).boxed()
    } else {
        prop_oneof![3 => 1u16..20, 1 => 100u16..300].boxed()
    }
}

pub fn op(m: Mix) -> BoxedStrategy<Op> {
    let s = move || sel(m.bad);
    let g = any::<u8>;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = Vec::new();
    let mut push = |w: u32, s: BoxedStrategy<Op>| {
        if w > 0 {
            v.push((w, s))
        }
    };
    push(m.create * 10, g().prop_map(|g| Op::Create { g }).boxed());
    push(
        m.many * 10,
        (g(), many(m.huge, m.tiny)).prop_map(|(g, n)| Op::CreateMany { g, n }).boxed(),
    );
    push(m.destroy * 8, s().prop_map(|e| Op::Destroy { e }).boxed());
    push(
        m.destroy * 2,
        (any::<u16>(), few(m.tiny), 1u8..5)
            .prop_map(|(start, n, stride)| Op::DestroyRange { start, n, stride })
            .boxed(),
    );
    push(
        m.remove * 3,
        (s(), g()).prop_map(|(e, g)| Op::RemoveEntity { e, g }).boxed(),
    );
    push(
        m.remove * 7,
        (s(), g()).prop_map(|(e, k)| Op::RemoveExact { e, k }).boxed(),
    );
    push(m.add * 9, (s(), g()).prop_map(|(e, t)| Op::Add { e, t }).boxed());
    push(
        m.add,
        (any::<u16>(), few(m.tiny), g())
            .prop_map(|(start, n, t)| Op::AddRange { start, n, t })
            .boxed(),
    );
    push(m.del * 9, (s(), g()).prop_map(|(e, t)| Op::Del { e, t }).boxed());
    push(
        m.del,
        (any::<u16>(), few(m.tiny), g())
            .prop_map(|(start, n, t)| Op::DelRange { start, n, t })
            .boxed(),
    );
    push(m.set * 5, (s(), g()).prop_map(|(e, t)| Op::Set { e, t }).boxed());
    push(m.set * 5, (s(), g()).prop_map(|(e, g)| Op::SetGroup { e, g }).boxed());
    let p = if m.pred {
        proptest::option::of(pred()).boxed()
    } else {
        Just(None).boxed()
    };
    push(
        m.iterw * 10,
        (g(), any::<bool>(), p, proptest::option::weighted(0.2, 0u8..4))
            .prop_map(|(g, ents, pred, first)| Op::IterWrite { g, ents, pred, first })
            .boxed(),
    );
    push(
        m.exactw * 10,
        (g(), any::<bool>()).prop_map(|(g, ents)| Op::ExactWrite { g, ents }).boxed(),
    );
    push(
        m.churn * 10,
        (g(), if m.tiny { (1u16..4).boxed() } else { prop_oneof![2 => 1u16..20, 3 => 250u16..265, 1 => 500u16..600].boxed() })
            .prop_map(|(g, n)| Op::Churn { g, n })
            .boxed(),
    );
    push(m.clear * 10, Just(Op::Clear).boxed());
    push(
        if m.tiny { 0 } else { m.march },
        (
            any::<u32>(),
            prop_oneof![8 => 50u32..500, 5 => 500u32..5000, 3 => 10_000u32..40_000, 1 => 60_000u32..140_000],
            prop_oneof![2 => 1u16..4, 2 => 4u16..80, 2 => 100u16..400, 1 => 400u16..3000],
        )
            .prop_map(|(seed, n, keep)| Op::March { seed, n, keep })
            .boxed(),
    );
    push(
        m.spread * 10,
        (g(), if m.tiny { (1u8..5).boxed() } else { prop_oneof![4 => 1u8..16, 1 => 60u8..200].boxed() }, any::<u32>())
            .prop_map(|(g, n, salt)| Op::Spread { g, n, salt })
            .boxed(),
    );
    push(m.probe * 10, s().prop_map(|e| Op::Probe { e }).boxed());
    push(
        m.build * 10,
        (build_mask(), any::<u32>()).prop_map(|(mask, salt)| Op::Build { mask, salt }).boxed(),
    );
    push(
        m.panic * 10,
        (s(), g()).prop_map(|(e, t)| Op::DestroyPanic { e, t }).boxed(),
    );
    push(
        m.starve * 10,
        (0u8..4, s(), g(), g(), prop_oneof![4 => 0u8..4, 1 => 4u8..16], any::<bool>(), any::<bool>())
            .prop_map(|(how, e, g, t, nth, all, fill)| Op::Starve { how, e, g, t, nth, all, fill })
            .boxed(),
    );
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn palette(m: Mix) -> BoxedStrategy<(Vec<u16>, Vec<u8>)> {
    let t = tables();
    let tiny = m.tiny;
    let pick = |l: &'static Vec<u16>, a: usize, b: usize| {
        let mut l = l.clone();
        if tiny {
            // the smallest ones
            l.sort_by_key(|g| t.groups[*g as usize].row_bytes);
            let n = l.iter().filter(|g| t.groups[**g as usize].row_bytes < 70).count();
            l.truncate(n.max(6));
        }
        proptest::collection::vec(proptest::sample::select(l), a..=if tiny { b.min(3) } else { b }).boxed()
    };
    let mut kinds: Vec<(u32, BoxedStrategy<Vec<u16>>)> = Vec::new();
    for (i, w) in m.kinds.iter().enumerate() {
        if *w == 0 {
            continue;
        }
        let s: BoxedStrategy<Vec<u16>> = match i {
            0 => pick(&t.perm, 2, 6),
            1 => pick(&t.small, 1, 5),
            2 => (pick(&t.wide, 1, 3), pick(&t.small, 0, 2))
                .prop_map(|(mut a, b)| {
                    a.extend(b);
                    a
                })
                .boxed(),
            3 => pick(&t.single, 1, 8),
            4 => (pick(&t.big, 1, 2), pick(&t.small, 0, 1))
                .prop_map(|(mut a, b)| {
                    a.extend(b);
                    a
                })
                .boxed(),
            _ => (pick(&t.coll, 1, 5), pick(&t.small, 0, 1))
                .prop_map(|(mut a, b)| {
                    a.extend(b);
                    a
                })
                .boxed(),
        };
        kinds.push((*w, s));
    }
    let base = proptest::strategy::Union::new_weighted(kinds);
    let inv = prop_oneof![
        100 - m.invalid => Just(Vec::new()),
        m.invalid => pick(&t.invalid, 1, 2),
    ];
    (
        base,
        inv,
        proptest::collection::vec(0u8..if tiny { 10 } else { NSMALL as u8 }, 0..4),
    )
        .prop_map(|(mut a, b, e)| {
            a.extend(b);
            (a, e)
        })
        .boxed()
}

pub fn world_case(m: Mix) -> BoxedStrategy<WorldCase> {
    // a few registries with thousands of component sets
    let crowd = prop_oneof![
        40 => Just(None),
        if m.tiny || m.march == 0 { 0 } else { 1 } =>
            (12usize..=NSMALL, any::<u32>(), 1000u16..9_000, 3u8..120).prop_map(Some),
    ];
    // and a few with more rows in a set than sixteen bits count
    let tall = prop_oneof![
        80 => Just(None),
        if m.tiny || m.march == 0 { 0 } else { 1 } =>
            (any::<u8>(), any::<u8>(), 1u16..6000, any::<u8>(), any::<u32>(), 50u16..2500)
                .prop_map(|(g, t, over, how, seed, calls)| Some(Op::Tall { g, t, over, how, seed, calls })),
    ];
    (palette(m), proptest::collection::vec(op(m), m.ops.0..=m.ops.1), crowd, tall)
        .prop_map(|((groups, mut extra), mut ops, crowd, tall)| {
            if let Some(t) = tall {
                ops.truncate(20);
                ops.insert(ops.len() / 2, t);
            }
            if let Some((k, seed, n, keep)) = crowd {
                extra = (0..k).map(|i| ((i * 7 + seed as usize) % NSMALL) as u8).collect();
                let at = seed as usize % (ops.len() + 1);
                ops.insert(at, Op::Walk { seed, n, keep });
            }
            WorldCase { groups, extra, ops }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// The engine

#[derive(Clone, Copy, Default, Debug)]
pub struct Oracles {
    /// component sets and values through per-entity queries
    pub values: bool,
    /// handle laws: iteration of entities, refusal of every handle that is not live
    pub handles: bool,
    /// each value dropped exactly once or handed back
    pub ledger: bool,
    /// matching iteration
    pub iter: bool,
    /// exact iteration
    pub exact: bool,
    /// filtered iteration
    pub filter: bool,
    /// stored values do not overlap, mutable references handed out together do not overlap
    pub addr: bool,
    /// allocator contract
    pub alloc: bool,
    /// groups repeating a type: consulted on every observation
    pub invalid: bool,
    /// refused operations leave a snapshot of the registry unchanged
    pub refuse: bool,
    /// compare everything only at the end (for slow interpreters)
    pub sparse: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Row {
    pub mask: u32,
    pub k: [u32; NT],
}

pub struct World {
    pub reg: Registry,
    pub o: Oracles,
    pub groups: Vec<usize>,
    pub types: Vec<usize>,
    pub m: BTreeMap<u32, Row>,
    pub live: Vec<u32>,
    pos: HashMap<u32, usize>,
    pub dead: Vec<u32>,
    dead_set: BTreeSet<u32>,
    uses: HashMap<u32, u32>,
    used_at: HashMap<u32, u32>,
    serial: u32,
    /// sets an entity has had at some time
    pub sets: BTreeSet<u32>,
    steps: usize,
    /// values that a panicking destructor may have leaked
    pub leaks: BTreeMap<(usize, u32), i32>,
    pub trace: Option<Vec<u64>>,
    moved_since: bool,
}

fn ent(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

fn same_key(what: std::fmt::Arguments, ix: usize, got: &Key, want: u32) -> R {
    match got {
        Ok(k) if *k == want => Ok(()),
        Ok(k) => Err(format!("{what}: component C{ix} has value {k}, expected {want}")),
        Err(e) => Err(format!("{what}: component C{ix} is damaged ({e}), expected {want}")),
    }
}

/// Rows that filtered iteration must yield, by the model.
pub fn eval_pred(p: &Pred, mask: u32, types: &[usize], groups: &[usize]) -> bool {
    let gmask = |g: u8| tables().groups[groups[g as usize % groups.len()]].mask;
    match p {
        Pred::True => true,
        Pred::False => false,
        Pred::Has(t) => mask & (1 << types[*t as usize % types.len()]) != 0,
        Pred::Lacks(t) => mask & (1 << types[*t as usize % types.len()]) == 0,
        Pred::LenEq(n) => mask.count_ones() == *n as u32,
        Pred::LenOdd => mask.count_ones() % 2 == 1,
        Pred::Contains(g) => mask & gmask(*g) == gmask(*g),
        Pred::Excludes(g) => mask & gmask(*g) == 0,
        Pred::FirstIdOdd => bits(mask).map(id_of).min().unwrap() % 2 == 1,
        Pred::Not(a) => !eval_pred(a, mask, types, groups),
        Pred::And(a, b) => eval_pred(a, mask, types, groups) && eval_pred(b, mask, types, groups),
        Pred::Or(a, b) => eval_pred(a, mask, types, groups) || eval_pred(b, mask, types, groups),
    }
}

/// The component set a descriptor describes; an error if it is not well formed.
pub fn set_of(d: &ArchetypeDescriptor) -> R<u32> {
    let mut mask = 0u32;
    ensure!(
        d.components().len() == d.len() as usize && d.len() as usize <= MAX_COMPONENTS_PER_ENTITY,
        "descriptor lists {} components but claims {}",
        d.components().len(),
        d.len()
    );
    ensure!(d.len() > 0 && d.is_valid(), "descriptor is not valid");
    let mut last: Option<u16> = None;
    for c in d.components() {
        let id = c.component_type_id().into_u16();
        let Some(ix) = ix_of_id(id) else {
            return Err(format!("descriptor lists unknown component id {id:#06x}"));
        };
        ensure!(
            last.map_or(true, |l| l < id),
            "descriptor components are not sorted by id"
        );
        last = Some(id);
        ensure!(
            c.size() as usize == TYPES[ix].size && c.align() as usize == TYPES[ix].align,
            "descriptor gives C{ix} size {} align {}",
            c.size(),
            c.align()
        );
        mask |= 1 << ix;
    }
    Ok(mask)
}

/// The predicate as the library sees it: evaluated on the descriptor through its public interface.
pub fn eval_pred_desc(p: &Pred, d: &ArchetypeDescriptor, types: &[usize], groups: &[usize]) -> bool {
    let gd = |g: u8| (GROUPS[groups[g as usize % groups.len()]].descriptor)().archetype();
    let inv = |g: u8| !tables().groups[groups[g as usize % groups.len()]].valid;
    match p {
        Pred::True => true,
        Pred::False => false,
        Pred::Has(t) => (TYPES[types[*t as usize % types.len()]].desc_has)(d),
        Pred::Lacks(t) => !(TYPES[types[*t as usize % types.len()]].desc_has)(d),
        Pred::LenEq(n) => d.len() == *n,
        Pred::LenOdd => d.len() % 2 == 1,
        // (descriptors must not be asked about invalid ones)
        Pred::Contains(g) if inv(*g) => {
            set_of(d).map_or(false, |m| eval_pred(p, m, types, groups))
        }
        Pred::Excludes(g) if inv(*g) => {
            set_of(d).map_or(false, |m| eval_pred(p, m, types, groups))
        }
        Pred::Contains(g) => d.contains_subset(gd(*g)),
        Pred::Excludes(g) => d.excludes_subset(gd(*g)),
        Pred::FirstIdOdd => d.components()[0].component_type_id().into_u16() % 2 == 1,
        Pred::Not(a) => !eval_pred_desc(a, d, types, groups),
        Pred::And(a, b) => {
            eval_pred_desc(a, d, types, groups) && eval_pred_desc(b, d, types, groups)
        }
        Pred::Or(a, b) => {
            eval_pred_desc(a, d, types, groups) || eval_pred_desc(b, d, types, groups)
        }
    }
}

fn overlap(mut v: Vec<(usize, usize)>) -> Option<(usize, usize)> {
    v.retain(|x| x.1 > 0);
    v.sort_unstable();
    for w in v.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Some((w[0].0, w[1].0));
        }
    }
    None
}

pub fn mix64(h: u64, x: u64) -> u64 {
    (h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15))
        .rotate_left(27)
        .wrapping_mul(0xD6E8_FEB8_6659_FD93)
}

/// Everything one can observe of a registry (by shared access), independent of row order.
pub type Snapshot = (
    BTreeMap<u32, Vec<(usize, u32)>>,
    Vec<Vec<(u32, Vec<u32>)>>,
);

impl World {
    pub fn new(groups: &[u16], extra: &[u8], o: Oracles) -> World {
        let t = tables();
        let mut gs: Vec<usize> = groups.iter().map(|g| *g as usize % NG).collect();
        if gs.is_empty() {
            gs.push(5);
        }
        let mut mask = 0u32;
        for g in &gs {
            mask |= t.groups[*g].mask;
        }
        for e in extra {
            mask |= 1 << (*e as usize % NT);
        }
        World {
            reg: Registry::default(),
            o,
            groups: gs,
            types: bits(mask).collect(),
            m: BTreeMap::new(),
            live: vec![],
            pos: HashMap::new(),
            dead: vec![],
            dead_set: BTreeSet::new(),
            uses: HashMap::new(),
            used_at: HashMap::new(),
            serial: 1,
            sets: BTreeSet::new(),
            steps: 0,
            leaks: BTreeMap::new(),
            trace: None,
            moved_since: false,
        }
    }

    pub fn g(&self, g: u8) -> usize {
        self.groups[g as usize % self.groups.len()]
    }
    pub fn t(&self, t: u8) -> usize {
        self.types[t as usize % self.types.len()]
    }
    fn next(&mut self) -> u32 {
        self.serial = self.serial.wrapping_add(1);
        self.serial
    }
    fn tr(&mut self, x: u64) {
        if let Some(t) = &mut self.trace {
            t.push(x)
        }
    }

    pub fn sel(&self, s: Sel) -> Entity {
        let raw = match s {
            Sel::Live(i) => {
                if self.live.is_empty() {
                    u32::MAX
                } else {
                    let n = self.live.len();
                    if n > 65_536 {
                        self.live[i as usize * n >> 16]
                    } else {
                        self.live[i as usize % n]
                    }
                }
            }
            Sel::Recent(i) => {
                if self.live.is_empty() {
                    u32::MAX
                } else {
                    let i = i as usize % self.live.len();
                    self.live[self.live.len() - 1 - i]
                }
            }
            Sel::Dead(i) => {
                if self.dead.is_empty() {
                    0
                } else {
                    self.dead[self.dead.len() - 1 - i as usize % self.dead.len()]
                }
            }
            Sel::Bump(i, d) => {
                if self.live.is_empty() {
                    1
                } else {
                    let h = self.live[i as usize % self.live.len()];
                    (h & !0xFF) | ((h as u8).wrapping_add(d) as u32)
                }
            }
            Sel::Slot(i, v) => ((i as u32) << 8) | v as u32,
            Sel::Raw(r) => r,
            Sel::Invalid => u32::MAX,
        };
        ent(raw)
    }

    fn model_insert(&mut self, raw: u32, row: Row) -> R {
        ensure!(raw != u32::MAX, "creation returned the invalid handle");
        ensure!(
            !self.m.contains_key(&raw),
            "creation returned handle {raw:#x}, which is already in use by a live entity"
        );
        let idx = raw >> 8;
        let n = self.uses.entry(idx).or_insert(0);
        *n += 1;
        let now = *n;
        if let Some(prev) = self.used_at.insert(raw, now) {
            if self.o.handles {
                ensure!(
                    now - prev >= 256,
                    "handle {raw:#x} became live again after only {} reuses of its slot",
                    now - prev
                );
            }
        }
        self.dead_set.remove(&raw);
        self.pos.insert(raw, self.live.len());
        self.live.push(raw);
        self.sets.insert(row.mask);
        self.m.insert(raw, row);
        Ok(())
    }

    fn model_remove(&mut self, raw: u32) -> Row {
        let row = self.m.remove(&raw).unwrap();
        let p = self.pos.remove(&raw).unwrap();
        self.live.swap_remove(p);
        if p < self.live.len() {
            self.pos.insert(self.live[p], p);
        }
        self.dead_set.insert(raw);
        self.dead.push(raw);
        if self.dead.len() > 8192 {
            self.dead.drain(0..4096);
        }
        row
    }

    fn serials(&mut self, g: usize) -> Vec<u32> {
        let n = tables().groups[g].ixs.len();
        (0..n).map(|_| self.next()).collect()
    }

    // ---- operations -------------------------------------------------------------------------

    pub fn create(&mut self, g: usize) -> R<Option<u32>> {
        let gi = &tables().groups[g];
        let s = self.serials(g);
        let snap = self.before(!gi.valid);
        match (GROUPS[g].create)(&mut self.reg, &s) {
            Ok(e) => {
                ensure!(
                    gi.valid,
                    "creation with group {:?}, which repeats a type, was accepted",
                    gi.ixs
                );
                let mut row = Row {
                    mask: gi.mask,
                    k: [0; NT],
                };
                for (p, ix) in gi.ixs.iter().enumerate() {
                    row.k[*ix] = key_of(*ix, s[p]);
                }
                self.tr(e.raw() as u64 + 1);
                self.model_insert(e.raw(), row)?;
                Ok(Some(e.raw()))
            }
            Err(keys) => {
                ensure!(
                    !gi.valid,
                    "creation with group {} was refused with {} live entities",
                    show(gi.mask),
                    self.m.len()
                );
                for (p, ix) in gi.ixs.iter().enumerate() {
                    same_key(format_args!("value returned by refused creation, position {p}"),
                        *ix,
                        &keys[p],
                        key_of(*ix, s[p]),
                    )?;
                }
                self.after("creation with an invalid group", snap)?;
                Ok(None)
            }
        }
    }

    pub fn destroy(&mut self, e: Entity) -> R<bool> {
        let want = self.m.contains_key(&e.raw());
        let snap = self.before(!want);
        let got = self.reg.destroy_entity(e);
        ensure!(
            got == want,
            "destroy_entity({:#x}) returned {got}, but the handle is {}",
            e.raw(),
            if want { "live" } else { "not live" }
        );
        self.tr(got as u64);
        if want {
            self.model_remove(e.raw());
        } else {
            self.after("destroying a handle that is not live", snap)?;
        }
        Ok(want)
    }

    pub fn remove_entity(&mut self, e: Entity, g: usize) -> R<bool> {
        let gi = &tables().groups[g];
        let want = self
            .m
            .get(&e.raw())
            .filter(|r| gi.valid && r.mask == gi.mask)
            .copied();
        let snap = self.before(want.is_none());
        let got = (GROUPS[g].remove_entity)(&mut self.reg, e);
        self.tr(got.is_some() as u64);
        match (got, want) {
            (None, None) => {
                self.after("removing an entity by a group that is not its set", snap)?;
                Ok(false)
            }
            (Some(keys), Some(row)) => {
                for (p, ix) in gi.ixs.iter().enumerate() {
                    same_key(format_args!("remove_entity({:#x}) tuple position {p}", e.raw()),
                        *ix,
                        &keys[p],
                        row.k[*ix],
                    )?;
                }
                self.model_remove(e.raw());
                Ok(true)
            }
            (Some(_), None) => Err(format!(
                "remove_entity::<{:?}>({:#x}) succeeded although {}",
                gi.ixs,
                e.raw(),
                match self.m.get(&e.raw()) {
                    None => "the handle is not live".to_string(),
                    Some(r) => format!("the entity's set is {}", show(r.mask)),
                }
            )),
            (None, Some(row)) => Err(format!(
                "remove_entity::<{:?}>({:#x}) failed although the entity's set is {}",
                gi.ixs,
                e.raw(),
                show(row.mask)
            )),
        }
    }

    pub fn add(&mut self, e: Entity, t: usize) -> R<bool> {
        let s = self.next();
        let want = self.m.get(&e.raw()).map_or(false, |r| {
            r.mask & (1 << t) == 0 && r.mask.count_ones() < MAX_COMPONENTS_PER_ENTITY as u32
        });
        let snap = self.before(!want);
        let got = (TYPES[t].add)(&mut self.reg, e, s);
        self.tr(got.is_ok() as u64 + 10);
        match (got, want) {
            (Ok(()), true) => {
                let r = self.m.get_mut(&e.raw()).unwrap();
                r.mask |= 1 << t;
                r.k[t] = key_of(t, s);
                let mask = r.mask;
                self.sets.insert(mask);
                self.moved_since = true;
                Ok(true)
            }
            (Err(k), false) => {
                same_key(format_args!("value returned by refused add_component"), t, &k, key_of(t, s))?;
                self.after("add_component", snap)?;
                Ok(false)
            }
            (got, _) => Err(format!(
                "add_component::<C{t}>({:#x}) {} although {}",
                e.raw(),
                if got.is_ok() { "succeeded" } else { "was refused" },
                self.describe(e)
            )),
        }
    }

    pub fn del(&mut self, e: Entity, t: usize) -> R<bool> {
        let want = self
            .m
            .get(&e.raw())
            .filter(|r| r.mask & (1 << t) != 0 && r.mask.count_ones() > 1)
            .map(|r| r.k[t]);
        let snap = self.before(want.is_none());
        let got = (TYPES[t].remove)(&mut self.reg, e);
        self.tr(got.is_ok() as u64 + 20);
        match (got, want) {
            (Ok(k), Some(w)) => {
                same_key(format_args!("value returned by remove_component"), t, &k, w)?;
                let r = self.m.get_mut(&e.raw()).unwrap();
                r.mask &= !(1 << t);
                let mask = r.mask;
                self.sets.insert(mask);
                self.moved_since = true;
                Ok(true)
            }
            (Err(()), None) => {
                self.after("remove_component", snap)?;
                Ok(false)
            }
            (got, _) => Err(format!(
                "remove_component::<C{t}>({:#x}) {} although {}",
                e.raw(),
                if got.is_ok() { "succeeded" } else { "was refused" },
                self.describe(e)
            )),
        }
    }

    fn describe(&self, e: Entity) -> String {
        match self.m.get(&e.raw()) {
            None => "the handle is not live".into(),
            Some(r) => format!("the entity's set is {}", show(r.mask)),
        }
    }

    pub fn set(&mut self, e: Entity, t: usize) -> R {
        let s = self.next();
        let want = self.m.get(&e.raw()).filter(|r| r.mask & (1 << t) != 0).copied();
        let got = (TYPES[t].get_mut)(&mut self.reg, e, want.map(|_| s));
        match (got, want) {
            (None, None) => Ok(()),
            (Some(o), Some(row)) => {
                same_key(format_args!("get_component_mut"), t, &o.key, row.k[t])?;
                self.m.get_mut(&e.raw()).unwrap().k[t] = key_of(t, s);
                Ok(())
            }
            (got, _) => Err(format!(
                "get_component_mut::<C{t}>({:#x}) returned {} although {}",
                e.raw(),
                if got.is_some() { "a reference" } else { "none" },
                self.describe(e)
            )),
        }
    }

    pub fn set_group(&mut self, e: Entity, g: usize, write: bool) -> R {
        let gi = &tables().groups[g];
        let want = self
            .m
            .get(&e.raw())
            .filter(|r| gi.valid && r.mask & gi.mask == gi.mask)
            .copied();
        let s: Vec<u32> = self.serials(g);
        let mut err: R = Ok(());
        let addr = self.o.addr;
        let got = (GROUPS[g].get_mut)(&mut self.reg, e, &mut |cols| {
            let Some(row) = want else { return };
            err = (|| {
                ensure!(cols.len() == gi.ixs.len(), "tuple length");
                if addr {
                    if let Some((a, b)) =
                        overlap(cols.iter().map(|c| (c.ptr as usize, TYPES[c.ix].size)).collect())
                    {
                        return Err(format!(
                            "get_components_mut::<{:?}> handed out overlapping references ({a:#x}, {b:#x})",
                            gi.ixs
                        ));
                    }
                }
                for (p, c) in cols.iter().enumerate() {
                    ensure!(c.ix == gi.ixs[p], "tuple position {p} has another type");
                    let o = unsafe { c.obs(0) };
                    same_key(format_args!("get_components_mut::<{:?}> position {p}", gi.ixs),
                        c.ix,
                        &o.key,
                        row.k[c.ix],
                    )?;
                }
                if write {
                    for (p, c) in cols.iter().enumerate() {
                        unsafe { c.replace(0, s[p]) };
                    }
                }
                Ok(())
            })();
        });
        err?;
        ensure!(
            got == want.is_some(),
            "get_components_mut::<{:?}>({:#x}) returned {} although {}",
            gi.ixs,
            e.raw(),
            if got { "references" } else { "none" },
            self.describe(e)
        );
        if got && write {
            let r = self.m.get_mut(&e.raw()).unwrap();
            for (p, ix) in gi.ixs.iter().enumerate() {
                r.k[*ix] = key_of(*ix, s[p]);
            }
        }
        Ok(())
    }

    /// Writes through mutable (filtered) matching iteration, or exact iteration.
    pub fn iter_write(
        &mut self,
        g: usize,
        ents: bool,
        p: Option<&Pred>,
        first: Option<u8>,
        exact: bool,
        ctx: &mut Ctx,
    ) -> R {
        let gi = &tables().groups[g];
        // Where each entity's components are, by shared iteration with entities.
        let mut whose: HashMap<(usize, usize), u32> = HashMap::new();
        let chunks = if exact {
            vec![(GROUPS[g].exact)(&self.reg, true)]
        } else {
            match (GROUPS[g].iter)(&self.reg, true, None, Take::All) {
                IterOut::Ok(c) => c,
                IterOut::Bad(e) => return Err(e),
            }
        };
        for c in &chunks {
            let es = c.ents.as_ref().unwrap();
            for col in &c.cols {
                if TYPES[col.ix].size == 0 {
                    continue;
                }
                ensure!(col.len == es.len(), "column length {} beside {} entities", col.len, es.len());
                for (r, e) in es.iter().enumerate() {
                    whose.insert((col.ix, col.ptr as usize + r * TYPES[col.ix].size), e.raw());
                }
            }
        }
        let types = self.types.clone();
        let groups = self.groups.clone();
        let pf = p.cloned();
        let f = move |d: &ArchetypeDescriptor| eval_pred_desc(pf.as_ref().unwrap(), d, &types, &groups);
        let filter: Option<&dyn Fn(&ArchetypeDescriptor) -> bool> =
            if p.is_some() { Some(&f) } else { None };
        let take = first.map_or(Take::All, |n| Take::First(n as usize));
        let mut serial = self.serial;
        let m = &mut self.m;
        let addr = self.o.addr;
        let mut err: R = Ok(());
        let mut written = 0u64;
        let types2 = self.types.clone();
        let groups2 = self.groups.clone();
        let mut visit = |chunks: &[Chunk]| {
            err = (|| {
                if addr {
                    let v = chunks
                        .iter()
                        .flat_map(|c| c.cols.iter())
                        .map(|c| (c.ptr as usize, c.len * TYPES[c.ix].size))
                        .collect();
                    if let Some((a, b)) = overlap(v) {
                        return Err(format!(
                            "mutable slices handed out together overlap ({a:#x}, {b:#x})"
                        ));
                    }
                }
                for c in chunks {
                    ensure!(c.cols.len() == gi.ixs.len(), "tuple length");
                    for (pos, col) in c.cols.iter().enumerate() {
                        ensure!(col.ix == gi.ixs[pos], "slice type at position {pos}");
                        if let Some(es) = &c.ents {
                            ensure!(
                                es.len() == col.len,
                                "entity slice has {} rows, component slice {}",
                                es.len(),
                                col.len
                            );
                        }
                        for r in 0..col.len {
                            let size = TYPES[col.ix].size;
                            serial = serial.wrapping_add(1);
                            let o = unsafe { col.obs(r) };
                            let owner = if size == 0 {
                                c.ents.as_ref().map(|e| e[r].raw())
                            } else {
                                match whose.get(&(col.ix, o.addr)) {
                                    Some(e) => Some(*e),
                                    None => {
                                        return Err(format!(
                                            "mutable iteration yields a C{} at an address shared iteration does not",
                                            col.ix
                                        ))
                                    }
                                }
                            };
                            if let (Some(es), Some(w)) = (&c.ents, owner) {
                                ensure!(
                                    es[r].raw() == w,
                                    "mutable iteration pairs a component of {w:#x} with entity {:#x}",
                                    es[r].raw()
                                );
                            }
                            if let Some(w) = owner {
                                let Some(row) = m.get_mut(&w) else {
                                    return Err(format!("iteration yields {w:#x}, which is not live"));
                                };
                                ensure!(
                                    row.mask & gi.mask == gi.mask && (!exact || row.mask == gi.mask),
                                    "mutable iteration of {:?} yields {w:#x} with set {}",
                                    gi.ixs,
                                    show(row.mask)
                                );
                                if let Some(p) = p {
                                    ensure!(
                                        eval_pred(p, row.mask, &types2, &groups2),
                                        "filtered mutable iteration yields {w:#x}, whose set {} the predicate rejects",
                                        show(row.mask)
                                    );
                                }
                                same_key(format_args!("mutable iteration"), col.ix, &o.key, row.k[col.ix])?;
                                row.k[col.ix] = key_of(col.ix, serial);
                            } else if let Err(e) = &o.key {
                                return Err(e.clone());
                            }
                            unsafe { col.replace(r, serial) };
                            written += 1;
                        }
                    }
                }
                Ok(())
            })();
        };
        if exact {
            (GROUPS[g].exact_mut)(&mut self.reg, ents, &mut |c| visit(std::slice::from_ref(c)));
        } else {
            (GROUPS[g].iter_mut)(&mut self.reg, ents, filter, take, &mut visit)?;
        }
        err?;
        self.serial = serial;
        ctx.count("values written by iteration", written);
        Ok(())
    }

    /// Every registry operation on a handle that is not live, with no effect.
    pub fn probe_dead(&mut self, e: Entity) -> R {
        if self.m.contains_key(&e.raw()) {
            return Ok(());
        }
        let t0 = self.types[self.steps % self.types.len()];
        let g0 = self.groups[self.steps % self.groups.len()];
        ensure!(!self.destroy(e)?, "destroyed");
        self.add(e, t0)?;
        self.del(e, t0)?;
        self.remove_entity(e, g0)?;
        self.refused_queries(e, t0, g0)
    }

    fn refused_queries(&mut self, e: Entity, t: usize, g: usize) -> R {
        let h = e.raw();
        ensure!(!(TYPES[t].has)(&self.reg, e), "has_component on {h:#x}, which is not live, answers true");
        ensure!((TYPES[t].get)(&self.reg, e).is_none(), "get_component on {h:#x}, which is not live, answers");
        ensure!((TYPES[t].get_mut)(&mut self.reg, e, None).is_none(), "get_component_mut on {h:#x}, which is not live, answers");
        ensure!(!(GROUPS[g].has)(&self.reg, e), "has_components on {h:#x}, which is not live, answers true");
        ensure!((GROUPS[g].get)(&self.reg, e).is_none(), "get_components on {h:#x}, which is not live, answers");
        ensure!(!(GROUPS[g].get_mut)(&mut self.reg, e, &mut |_| {}), "get_components_mut on {h:#x}, which is not live, answers");
        Ok(())
    }

    // ---- snapshots --------------------------------------------------------------------------

    pub fn snapshot(&self) -> R<Snapshot> {
        let mut rows = BTreeMap::new();
        for e in self.reg.iter_entities() {
            let mut v = Vec::new();
            for t in &self.types {
                if (TYPES[*t].has)(&self.reg, e) {
                    match (TYPES[*t].get)(&self.reg, e) {
                        Some(o) => v.push((*t, o.key?)),
                        None => return Err("has_component and get_component disagree".into()),
                    }
                }
            }
            rows.insert(e.raw(), v);
        }
        let mut its = Vec::new();
        for g in &self.groups {
            let mut all = Vec::new();
            match (GROUPS[*g].iter)(&self.reg, true, None, Take::All) {
                IterOut::Bad(e) => return Err(e),
                IterOut::Ok(cs) => {
                    for c in cs.iter().chain(std::iter::once(&(GROUPS[*g].exact)(&self.reg, true))) {
                        let es = c.ents.as_ref().unwrap();
                        for (r, e) in es.iter().enumerate() {
                            let mut ks = Vec::new();
                            for col in &c.cols {
                                ensure!(col.len == es.len(), "slice lengths differ");
                                ks.push(unsafe { col.obs(r) }.key?);
                            }
                            all.push((e.raw(), ks));
                        }
                    }
                }
            }
            all.sort();
            its.push(all);
        }
        Ok((rows, its))
    }

    fn before(&self, refused: bool) -> Option<R<Snapshot>> {
        if self.o.refuse && refused && (self.m.len() <= 40 || (self.m.len() <= 400 && self.steps % 7 == 0)) {
            Some(self.snapshot())
        } else {
            None
        }
    }
    fn after(&self, what: &str, snap: Option<R<Snapshot>>) -> R {
        if let Some(s) = snap {
            let a = s?;
            let b = self.snapshot()?;
            ensure!(a == b, "{what} was refused, yet the registry's observable state changed");
        }
        Ok(())
    }

    // ---- observation ------------------------------------------------------------------------

    pub fn check_entity(&mut self, raw: u32, all_types: bool) -> R {
        let e = ent(raw);
        let row = self.m[&raw];
        let extra = self.steps % NSMALL;
        let mut seen: Vec<(usize, usize)> = Vec::new();
        for t in 0..NT {
            let want = row.mask & (1 << t) != 0;
            if !all_types && !self.types.contains(&t) && t != extra {
                continue;
            }
            if self.o.sparse && !want && t != extra {
                continue;
            }
            let has = (TYPES[t].has)(&self.reg, e);
            ensure!(has == want, "has_component::<C{t}>({raw:#x}) is {has}, the entity's set is {}", show(row.mask));
            match (TYPES[t].get)(&self.reg, e) {
                None => ensure!(!want, "get_component::<C{t}>({raw:#x}) is none, the entity's set is {}", show(row.mask)),
                Some(o) => {
                    ensure!(want, "get_component::<C{t}>({raw:#x}) answers, the entity's set is {}", show(row.mask));
                    same_key(format_args!("get_component({raw:#x})"), t, &o.key, row.k[t])?;
                    seen.push((t, o.addr));
                }
            }
            match (TYPES[t].get_mut)(&mut self.reg, e, None) {
                None => ensure!(!want, "get_component_mut::<C{t}>({raw:#x}) is none, the entity's set is {}", show(row.mask)),
                Some(o) => {
                    ensure!(want, "get_component_mut::<C{t}>({raw:#x}) answers, the entity's set is {}", show(row.mask));
                    same_key(format_args!("get_component_mut({raw:#x})"), t, &o.key, row.k[t])?;
                }
            }
        }
        let gs = self.some_groups(2);
        for g in gs {
            self.check_entity_group(raw, g)?;
        }
        // and the groups naming exactly this set
        if let Some(l) = tables().by_mask.get(&row.mask) {
            let g = l[self.steps % l.len()];
            self.check_entity_group(raw, g)?;
        }
        Ok(())
    }

    /// All groups of the case, or a few of them in turn where every step is costly.
    fn some_groups(&self, few: usize) -> Vec<usize> {
        let n = self.groups.len();
        if !self.o.sparse || n <= few {
            return self.groups.clone();
        }
        (0..few).map(|i| self.groups[(self.steps + i) % n]).collect()
    }

    pub fn check_entity_group(&mut self, raw: u32, g: usize) -> R {
        let e = ent(raw);
        let row = self.m[&raw];
        let gi = &tables().groups[g];
        let want = gi.valid && row.mask & gi.mask == gi.mask;
        let has = (GROUPS[g].has)(&self.reg, e);
        ensure!(has == want, "has_components::<{:?}>({raw:#x}) is {has}, the entity's set is {}", gi.ixs, show(row.mask));
        match (GROUPS[g].get)(&self.reg, e) {
            None => ensure!(!want, "get_components::<{:?}>({raw:#x}) is none, the entity's set is {}", gi.ixs, show(row.mask)),
            Some(obs) => {
                ensure!(want, "get_components::<{:?}>({raw:#x}) answers, the entity's set is {}", gi.ixs, show(row.mask));
                for (p, o) in obs.iter().enumerate() {
                    let ix = gi.ixs[p];
                    same_key(format_args!("get_components::<{:?}>({raw:#x}) position {p}", gi.ixs), ix, &o.key, row.k[ix])?;
                }
            }
        }
        self.set_group(e, g, false)
    }

    // Shared reads, also from several threads.

    pub fn read_one(&self, e: Entity, t: usize) -> R {
        let want = self.m.get(&e.raw()).filter(|r| r.mask >> t & 1 == 1);
        let has = (TYPES[t].has)(&self.reg, e);
        ensure!(has == want.is_some(), "has_component::<C{t}>({:#x}) is {has}", e.raw());
        match ((TYPES[t].get)(&self.reg, e), want) {
            (None, None) => Ok(()),
            (Some(o), Some(r)) => same_key(format_args!("get_component::<C{t}>({:#x})", e.raw()), t, &o.key, r.k[t]),
            (got, _) => Err(format!("get_component::<C{t}>({:#x}) answers {}", e.raw(), got.is_some())),
        }
    }
    pub fn read_group(&self, e: Entity, g: usize) -> R {
        let gi = &tables().groups[g];
        let want = self.m.get(&e.raw()).filter(|r| gi.valid && r.mask & gi.mask == gi.mask);
        let has = (GROUPS[g].has)(&self.reg, e);
        ensure!(has == want.is_some(), "has_components::<{:?}>({:#x}) is {has}", gi.ixs, e.raw());
        match ((GROUPS[g].get)(&self.reg, e), want) {
            (None, None) => Ok(()),
            (Some(o), Some(r)) => {
                for (p, o) in o.iter().enumerate() {
                    same_key(format_args!("get_components::<{:?}>({:#x}) position {p}", gi.ixs, e.raw()), gi.ixs[p], &o.key, r.k[gi.ixs[p]])?;
                }
                Ok(())
            }
            (got, _) => Err(format!("get_components::<{:?}>({:#x}) answers {}", gi.ixs, e.raw(), got.is_some())),
        }
    }
    pub fn read_entities(&self) -> R {
        let mut l: Vec<u32> = self.reg.iter_entities().map(|e| e.raw()).collect();
        l.sort_unstable();
        let want: Vec<u32> = self.m.keys().copied().collect();
        ensure!(l == want, "entity iteration yields {} handles, {} are live, or other ones", l.len(), want.len());
        Ok(())
    }

    pub fn check_handles(&mut self) -> R {
        let mut n = 0usize;
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut h = 0u64;
        for e in self.reg.iter_entities() {
            ensure!(self.m.contains_key(&e.raw()), "iter_entities yields {:#x}, which is not live", e.raw());
            ensure!(seen.insert(e.raw()), "iter_entities yields {:#x} twice", e.raw());
            n += 1;
            h = mix64(h, e.raw() as u64);
            ensure!(n <= self.m.len(), "iter_entities yields too many");
        }
        ensure!(n == self.m.len(), "iter_entities yields {n} of {} live entities", self.m.len());
        let (lo, hi) = self.reg.iter_entities().size_hint();
        ensure!(
            lo <= n && hi.is_none_or(|h| h >= n),
            "size_hint() of iter_entities is ({lo}, {hi:?}) with {n} entities"
        );
        self.tr(h);
        let k = self.steps % 7;
        let mut it = self.reg.iter_entities();
        match self.steps % 5 {
            0 => ensure!(it.count() == n, "count() of iter_entities"),
            1 => ensure!(it.last().map(|e| e.raw()).is_some_and(|e| seen.contains(&e)) == (n > 0), "last() of iter_entities"),
            2 => {
                let mut rest: BTreeSet<u32> = seen.clone();
                let mut c = 0;
                while let Some(e) = it.nth(k) {
                    ensure!(rest.remove(&e.raw()), "nth({k}) of iter_entities yields {:#x}", e.raw());
                    c += 1;
                }
                ensure!(c == n / (k + 1), "nth({k}) of iter_entities: {c} items of {n}");
            }
            3 => {
                let c = it.by_ref().take(k).count();
                ensure!(c == n.min(k), "take({k}) of iter_entities");
                let c2 = it.fold(0, |c, e| c + seen.contains(&e.raw()) as usize);
                ensure!(c + c2 == n, "fold() of iter_entities after {k} items: {c2} of {n}");
            }
            _ => (),
        }
        Ok(())
    }

    /// Chunks of a matching iteration against the model.
    pub fn check_chunks(&self, what: &str, g: usize, chunks: &[Chunk], want: &dyn Fn(u32) -> bool, complete: bool) -> R<(usize, u64)> {
        let gi = &tables().groups[g];
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut total = 0usize;
        let mut h = 0u64;
        for c in chunks {
            ensure!(c.cols.len() == gi.ixs.len(), "{what}: tuple length");
            let n = c.cols[0].len;
            for (p, col) in c.cols.iter().enumerate() {
                ensure!(col.ix == gi.ixs[p], "{what}: slice type at position {p}");
                ensure!(col.len == n, "{what}: slices of lengths {n} and {}", col.len);
            }
            if let Some(es) = &c.ents {
                ensure!(es.len() == n, "{what}: {} entities beside slices of length {n}", es.len());
                for (r, e) in es.iter().enumerate() {
                    let raw = e.raw();
                    let Some(row) = self.m.get(&raw) else {
                        return Err(format!("{what}: yields {raw:#x}, which is not live"));
                    };
                    ensure!(seen.insert(raw), "{what}: yields {raw:#x} twice");
                    ensure!(want(row.mask), "{what}: yields {raw:#x}, whose set is {}", show(row.mask));
                    h = mix64(h, raw as u64);
                    for (p, col) in c.cols.iter().enumerate() {
                        let o = unsafe { col.obs(r) };
                        same_key(format_args!("{what}: entity {raw:#x} position {p}"), col.ix, &o.key, row.k[col.ix])?;
                    }
                }
            } else {
                for col in &c.cols {
                    for r in 0..col.len {
                        if let Err(e) = unsafe { col.obs(r) }.key {
                            return Err(format!("{what}: {e}"));
                        }
                    }
                }
            }
            total += n;
            h = mix64(h, n as u64 + 0x1_0000_0000);
        }
        if complete {
            let expect = self.m.values().filter(|r| want(r.mask)).count();
            ensure!(total == expect, "{what}: yields {total} rows, expected {expect}");
        }
        Ok((total, h))
    }

    /// All four variants of matching (or filtered) iteration for a group.
    pub fn check_iter(&mut self, g: usize, p: Option<&Pred>, ctx: &mut Ctx) -> R {
        let gi = &tables().groups[g];
        let types = self.types.clone();
        let groups = self.groups.clone();
        let wanted = |mask: u32| {
            gi.valid
                && mask & gi.mask == gi.mask
                && p.map_or(true, |p| eval_pred(p, mask, &types, &groups))
        };
        let bad: std::cell::RefCell<Option<String>> = Default::default();
        let sets = self.sets.clone();
        let shown: std::cell::RefCell<BTreeMap<u32, u32>> = Default::default();
        let f = |d: &ArchetypeDescriptor| match set_of(d) {
            Err(e) => {
                bad.borrow_mut().get_or_insert(format!("set shown to the predicate: {e}"));
                false
            }
            Ok(m) => {
                if !sets.contains(&m) {
                    bad.borrow_mut().get_or_insert(format!(
                        "the predicate is shown {}, a set no entity has had",
                        show(m)
                    ));
                }
                *shown.borrow_mut().entry(m).or_insert(0) += 1;
                eval_pred_desc(p.unwrap(), d, &types, &groups)
            }
        };
        let filter: Option<&dyn Fn(&ArchetypeDescriptor) -> bool> = if p.is_some() { Some(&f) } else { None };
        let name = if p.is_some() { "filtered" } else { "matching" };
        let ok = |o: IterOut| match o {
            IterOut::Ok(c) => Ok(c),
            IterOut::Bad(e) => Err(e),
        };
        let shape = |cs: &[Chunk]| {
            let mut v: Vec<Vec<(usize, usize, usize)>> = cs
                .iter()
                .filter(|c| c.cols.iter().any(|x| x.len > 0))
                .map(|c| {
                    c.cols
                        .iter()
                        .map(|x| (x.ix, if TYPES[x.ix].size == 0 { 0 } else { x.ptr as usize }, x.len))
                        .collect()
                })
                .collect();
            v.sort();
            v
        };
        let a = ok((GROUPS[g].iter)(&self.reg, true, filter, Take::All))?;
        let what = format!("{name} iteration of {:?}", gi.ixs);
        let (rows, h) = self.check_chunks(&format!("{what} (shared, with entities)"), g, &a, &wanted, true)?;
        ctx.count("rows iterated", rows as u64);
        self.tr(h);
        let b = ok((GROUPS[g].iter)(&self.reg, false, filter, Take::All))?;
        self.check_chunks(&format!("{what} (shared)"), g, &b, &wanted, true)?;
        ensure!(shape(&a) == shape(&b), "{what}: variants with and without entities yield different slices");
        for ents in [true, false] {
            let mut got: Vec<Chunk> = Vec::new();
            let mut ov = None;
            let addr = self.o.addr;
            (GROUPS[g].iter_mut)(&mut self.reg, ents, filter, Take::All, &mut |c| {
                got = c.to_vec();
                if addr {
                    ov = overlap(
                        c.iter()
                            .flat_map(|c| c.cols.iter())
                            .map(|c| (c.ptr as usize, c.len * TYPES[c.ix].size))
                            .collect(),
                    );
                }
            })?;
            if let Some((a, b)) = ov {
                return Err(format!("{what}: mutable slices handed out together overlap ({a:#x}, {b:#x})"));
            }
            let n = if ents { "mutable, with entities" } else { "mutable" };
            self.check_chunks(&format!("{what} ({n})"), g, &got, &wanted, true)?;
            ensure!(shape(&a) == shape(&got), "{what}: shared and {n} variants yield different slices");
        }
        // stopping early
        let k = self.steps % 3;
        let c = ok((GROUPS[g].iter)(&self.reg, true, filter, Take::First(k)))?;
        ensure!(c.len() <= k, "more items than polled");
        self.check_chunks(&format!("{what} (stopped early)"), g, &c, &wanted, false)?;
        // driven by other methods than `next`
        let x = mix64(self.steps as u64, g as u64);
        if let Some(via) = GROUPS[g].via {
            // (each twice; only one where there is much to compare)
            for i in (0..2 * VIA_KINDS).filter(|i| rows < 2000 || *i == (x >> 40) as u8 % (2 * VIA_KINDS)) {
                let (kind, k) = (i / 2, (x >> 16) as usize % 4);
                let variant = ((x >> 24) as u8).wrapping_add(i) & 3;
                let d = via(&mut self.reg, variant, filter, kind, k, a.len()).map_err(|e| format!("{what}, variant {variant}: {e}"))?;
                let how = format!("{what}, variant {variant} driven by method {kind} ({k})");
                ensure!(d.len() == via_items(kind, k, a.len()), "{how}: {} items of {}", d.len(), a.len());
                let (sa, sd) = (shape(&a), shape(&d));
                let mut at = sa.iter();
                // (both are sorted)
                ensure!(sd.iter().all(|c| at.any(|o| o == c)), "{how}: other slices");
                if d.len() == a.len() {
                    ensure!(sa == sd, "{how}: other slices");
                }
                self.check_chunks(&how, g, &d, &wanted, false)?;
            }
            ctx.label("iterators driven by methods other than next");
        }
        if p.is_some() && x >> 32 & 3 == 0 {
            // a predicate that panics: the registry is as it was (which later observations show)
            let left = std::cell::Cell::new(x >> 34 & 3);
            let faulty = |d: &ArchetypeDescriptor| {
                if left.get() == 0 {
                    std::panic::panic_any("predicate");
                }
                left.set(left.get() - 1);
                f(d)
            };
            let reg = &mut self.reg;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if x >> 36 & 1 == 0 {
                    let _ = (GROUPS[g].iter)(reg, x >> 37 & 1 == 0, Some(&faulty), Take::All);
                } else {
                    let _ = (GROUPS[g].iter_mut)(reg, x >> 37 & 1 == 0, Some(&faulty), Take::All, &mut |_| ());
                }
            }));
            if r.is_err() {
                ctx.label("predicate panicked");
            }
        }
        if let Some(e) = bad.into_inner() {
            return Err(e);
        }
        if p.is_some() {
            let s = shown.into_inner();
            ctx.count("sets shown to predicates", s.len() as u64);
        }
        Ok(())
    }

    pub fn check_exact(&mut self, g: usize, ctx: &mut Ctx) -> R {
        let gi = &tables().groups[g];
        let wanted = |mask: u32| gi.valid && mask == gi.mask;
        let what = format!("exact iteration of {:?}", gi.ixs);
        let a = (GROUPS[g].exact)(&self.reg, true);
        let (rows, h) = self.check_chunks(&format!("{what} (shared, with entities)"), g, std::slice::from_ref(&a), &wanted, true)?;
        self.tr(h);
        ctx.count("rows iterated exactly", rows as u64);
        let b = (GROUPS[g].exact)(&self.reg, false);
        self.check_chunks(&format!("{what} (shared)"), g, std::slice::from_ref(&b), &wanted, true)?;
        let same = |x: &Chunk, y: &Chunk| {
            x.cols.iter().zip(&y.cols).all(|(p, q)| {
                p.len == q.len && (p.len == 0 || TYPES[p.ix].size == 0 || p.ptr == q.ptr)
            })
        };
        ensure!(same(&a, &b), "{what}: variants with and without entities differ");
        for ents in [true, false] {
            let mut got = None;
            (GROUPS[g].exact_mut)(&mut self.reg, ents, &mut |c| got = Some(c.clone()));
            let got = got.unwrap();
            let n = if ents { "mutable, with entities" } else { "mutable" };
            self.check_chunks(&format!("{what} ({n})"), g, std::slice::from_ref(&got), &wanted, true)?;
            ensure!(same(&a, &got), "{what}: shared and {n} variants differ");
            if self.o.addr {
                if let Some((a, b)) = overlap(
                    got.cols.iter().map(|c| (c.ptr as usize, c.len * TYPES[c.ix].size)).collect(),
                ) {
                    return Err(format!("{what}: mutable slices overlap ({a:#x}, {b:#x})"));
                }
            }
        }
        Ok(())
    }

    pub fn check_ledger(&self) -> R {
        if let Some(p) = ledger::problems() {
            return Err(p);
        }
        let mut want: BTreeMap<(usize, u32), i32> = BTreeMap::new();
        for r in self.m.values() {
            for t in bits(r.mask) {
                if TYPES[t].tracked {
                    *want.entry((t, r.k[t])).or_insert(0) += 1;
                }
            }
        }
        let have = ledger::alive();
        for (k, n) in &want {
            let h = have.get(k).copied().unwrap_or(0);
            let l = self.leaks.get(k).copied().unwrap_or(0);
            ensure!(
                h >= *n && h <= *n + l,
                "value {} of C{}: {h} alive, {n} stored (a stored value was dropped, or one was forgotten)",
                k.1,
                k.0
            );
        }
        for (k, h) in &have {
            let w = want.get(k).copied().unwrap_or(0);
            let l = self.leaks.get(k).copied().unwrap_or(0);
            ensure!(*h <= w + l, "value {} of C{}: {h} alive but only {w} stored (forgotten without being dropped)", k.1, k.0);
        }
        Ok(())
    }

    /// All values at distinct, non-overlapping addresses.
    pub fn check_addresses(&self) -> R {
        let mut v: Vec<(usize, usize)> = Vec::new();
        for (raw, row) in &self.m {
            for t in bits(row.mask) {
                if let Some(o) = (TYPES[t].get)(&self.reg, ent(*raw)) {
                    if let Err(e) = &o.key {
                        return Err(format!("entity {raw:#x}: {e}"));
                    }
                    ensure!(o.addr != 0, "null reference");
                    ensure!(o.addr % TYPES[t].align == 0, "C{t} at misaligned address {:#x}", o.addr);
                    v.push((o.addr, TYPES[t].size));
                }
            }
        }
        if let Some((a, b)) = overlap(v) {
            return Err(format!("two stored values overlap ({a:#x}, {b:#x})"));
        }
        Ok(())
    }

    pub fn check_alloc(&self) -> R {
        if cfg!(any(miri, feature = "asan")) {
            return Ok(());
        }
        match guard::problems() {
            Some(p) => Err(p),
            None => Ok(()),
        }
    }

    pub fn observe(&mut self, ctx: &mut Ctx, p: Option<&Pred>) -> R {
        ctx.label("full observations");
        if self.moved_since {
            ctx.label("observations after a move between sets");
            self.moved_since = false;
        }
        if self.o.values {
            let all = self.m.len() <= 6 && !self.o.sparse;
            let most = if self.o.sparse { 5 } else { usize::MAX };
            let hs: Vec<u32> = self.live.iter().rev().take(most).copied().collect();
            for raw in hs {
                self.check_entity(raw, all)?;
            }
        }
        if self.o.handles {
            self.check_handles()?;
            let dead: Vec<u32> = self
                .dead
                .iter()
                .rev()
                .take(if self.o.sparse { 3 } else { 24 })
                .chain(self.dead.iter().take(if self.o.sparse { 2 } else { 8 }))
                .copied()
                .filter(|d| !self.m.contains_key(d))
                .collect();
            for (i, d) in dead.iter().enumerate() {
                let t = self.types[(self.steps + i) % self.types.len()];
                let g = self.groups[(self.steps + i) % self.groups.len()];
                self.refused_queries(ent(*d), t, g)?;
            }
            ctx.count("dead handles queried", dead.len() as u64);
        }
        if self.o.iter {
            let mut gs = self.some_groups(3);
            // plus single components
            gs.push(single_of(self.types[self.steps % self.types.len()]));
            for g in gs {
                self.check_iter(g, None, ctx)?;
            }
        }
        if self.o.exact {
            let mut gs: Vec<usize> = self.some_groups(1);
            let masks: BTreeSet<u32> = self.m.values().map(|r| r.mask).collect();
            for m in masks.into_iter().take(if self.o.sparse { 2 } else { 40 }) {
                if let Some(l) = tables().by_mask.get(&m) {
                    gs.push(l[self.steps % l.len()]);
                    gs.push(l[(self.steps + 1) % l.len()]);
                }
            }
            gs.sort_unstable();
            gs.dedup();
            for g in gs {
                self.check_exact(g, ctx)?;
            }
        }
        if self.o.filter {
            let d = [
                Pred::Has(self.steps as u8),
                Pred::Lacks(self.steps as u8),
                Pred::Excludes(self.steps as u8),
                Pred::LenOdd,
                Pred::Not(Box::new(Pred::Contains(self.steps as u8))),
            ];
            let dp = d[self.steps % 5].clone();
            let p = p.cloned().unwrap_or(dp);
            let gs = self.some_groups(1);
            for g in gs {
                self.check_iter(g, Some(&p), ctx)?;
            }
        }
        if self.o.invalid {
            self.check_invalid()?;
        }
        if self.o.ledger {
            self.check_ledger()?;
        }
        if self.o.addr {
            self.check_addresses()?;
        }
        if self.o.alloc {
            self.check_alloc()?;
        }
        Ok(())
    }

    /// Creates an entity and brings it to the set `mask` by a random route: starting from any group
    /// within the set or containing it, adding and removing in any order, with detours.
    pub fn build(&mut self, mask: u32, salt: u32, ctx: &mut Ctx) -> R<Option<u32>> {
        let mut want: Vec<usize> = bits(mask).collect();
        while want.len() > 14 {
            want.remove(salt as usize % want.len());
        }
        if want.is_empty() {
            return Ok(None);
        }
        let mask = want.iter().fold(0u32, |a, t| a | (1 << t));
        let mut x = (salt as u64) << 1 | 1;
        let mut rnd = |n: usize| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x % n as u64) as usize
        };
        let tb = tables();
        let start = match rnd(4) {
            0 => single_of(want[rnd(want.len())]),
            1 | 2 => {
                let l: Vec<usize> =
                    (0..NG_VALID).filter(|g| tb.groups[*g].mask & !mask == 0).collect();
                l[rnd(l.len())]
            }
            _ => {
                // any group that shares a type with the set and has only modest layouts
                let l: Vec<usize> = (0..NG_VALID)
                    .filter(|g| tb.groups[*g].mask & mask != 0 && tb.groups[*g].row_bytes < 2000)
                    .collect();
                if l.is_empty() {
                    single_of(want[0])
                } else {
                    l[rnd(l.len())]
                }
            }
        };
        let Some(h) = self.create(start)? else { return Ok(None) };
        let e = ent(h);
        let mut steps = 0;
        loop {
            let have = self.m[&h].mask;
            if have == mask && steps > 0 {
                break;
            }
            steps += 1;
            let missing: Vec<usize> = bits(mask & !have).collect();
            let foreign: Vec<usize> = bits(have & !mask).collect();
            if steps < 40 && rnd(5) == 0 {
                // detour
                if rnd(2) == 0 && have.count_ones() < 14 {
                    let t = self.types[rnd(self.types.len())];
                    if have & (1 << t) == 0 {
                        self.add(e, t)?;
                    }
                } else if have.count_ones() > 1 {
                    let l: Vec<usize> = bits(have).collect();
                    self.del(e, l[rnd(l.len())])?;
                }
                continue;
            }
            if !missing.is_empty() && have.count_ones() < 14 && (foreign.is_empty() || rnd(2) == 0) {
                self.add(e, missing[rnd(missing.len())])?;
            } else if !foreign.is_empty() && have.count_ones() > 1 {
                self.del(e, foreign[rnd(foreign.len())])?;
            } else if !missing.is_empty() && have.count_ones() < 14 {
                self.add(e, missing[rnd(missing.len())])?;
            } else {
                break;
            }
            if steps > 200 {
                break;
            }
        }
        ctx.label("sets reached by a route");
        self.touch(h)?;
        Ok(Some(h))
    }

    /// Groups repeating a type match nothing, whatever entity they are tried on.
    pub fn check_invalid(&mut self) -> R {
        let hs: Vec<u32> = self.live.iter().rev().take(6).copied().collect();
        let gs: Vec<usize> = self
            .groups
            .iter()
            .copied()
            .filter(|g| !tables().groups[*g].valid)
            .collect();
        let mut dummy = Ctx::default();
        let p = Pred::True;
        for g in gs {
            let d = (GROUPS[g].descriptor)();
            ensure!(!d.is_valid(), "group {:?} repeats a type but is valid", tables().groups[g].ixs);
            for h in &hs {
                self.check_entity_group(*h, g)?;
                self.remove_entity(ent(*h), g)?;
            }
            self.check_iter(g, None, &mut dummy)?;
            self.check_iter(g, Some(&p), &mut dummy)?;
            self.check_exact(g, &mut dummy)?;
        }
        Ok(())
    }

    // ---- steps ------------------------------------------------------------------------------

    /// Sanity of one entity after an operation touched it.
    fn touch(&mut self, raw: u32) -> R {
        if self.o.values && self.m.contains_key(&raw) {
            self.check_entity(raw, false)?;
        }
        Ok(())
    }

    fn cap_rows(&self, g: usize, n: u32) -> u32 {
        let b = tables().groups[g].row_bytes;
        let room = 120_000usize.saturating_sub(self.m.len());
        (n as usize).min((48 << 20) / b).min(room.max(1)) as u32
    }

    fn range(&self, start: u16, n: u16, stride: usize) -> Vec<u32> {
        let len = self.live.len();
        if len == 0 {
            return vec![];
        }
        let mut v = Vec::new();
        let mut i = start as usize % len;
        let mut k = 0;
        while k < n as usize && v.len() < len {
            let h = self.live[i];
            v.push(h);
            i = (i + stride) % len;
            k += 1;
        }
        let mut seen = BTreeSet::new();
        v.retain(|h| seen.insert(*h));
        v
    }

    /// A long run of calls, each compared with the model, everything compared now and then.
    fn march(&mut self, seed: u32, n: u32, keep: u16, ctx: &mut Ctx) -> R<(), (u32, String)> {
        // rows of large components are slow to move, and snapshots around refusals to take
        let heavy = self.types.iter().map(|t| TYPES[*t].size).max().unwrap_or(0);
        let n = match heavy {
            0..=600 => n,
            601..=5000 => n.min(500),
            _ => n.min(200),
        };
        let n = if self.o.refuse || self.o.addr { n.min(4000) } else { n };
        let keep = (keep as usize).min(if heavy > 5000 { 3 } else if heavy > 600 { 60 } else { 3000 });
        let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ ((seed as u64) << 17 | seed as u64);
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u32
        };
        let pauses = if self.m.len().max(keep) > 300 { 2 } else { 5 };
        for i in 0..n {
            let w = |e: String| (i, e);
            let live = self.live.len();
            let full = live > keep;
            let k = rnd() % 100;
            let pick = |s: &Self, r: u32| ent(s.live[r as usize % s.live.len()]);
            if live == 0 || k < if full { 22 } else { 38 } {
                let g = self.groups[rnd() as usize % self.groups.len()];
                self.create(g).map_err(w)?;
            } else if k < 52 {
                let e = pick(self, rnd());
                self.destroy(e).map_err(w)?;
            } else if k < 60 {
                let e = pick(self, rnd());
                let m = self.m[&e.raw()].mask;
                if let Some(l) = tables().by_mask.get(&m) {
                    let g = l[rnd() as usize % l.len()];
                    self.remove_entity(e, g).map_err(w)?;
                } else {
                    self.destroy(e).map_err(w)?;
                }
            } else if k < 78 {
                let (e, t) = (pick(self, rnd()), self.types[rnd() as usize % self.types.len()]);
                self.add(e, t).map_err(w)?;
            } else if k < 94 {
                let (e, t) = (pick(self, rnd()), self.types[rnd() as usize % self.types.len()]);
                self.del(e, t).map_err(w)?;
            } else if k < 97 {
                let (e, t) = (pick(self, rnd()), self.types[rnd() as usize % self.types.len()]);
                self.set(e, t).map_err(w)?;
            } else if !self.dead.is_empty() {
                let d = ent(self.dead[rnd() as usize % self.dead.len()]);
                if !self.m.contains_key(&d.raw()) {
                    match k {
                        97 => self.destroy(d).map(|_| ()),
                        _ => {
                            let t = self.types[rnd() as usize % self.types.len()];
                            self.add(d, t).map(|_| ())
                        }
                    }
                    .map_err(w)?;
                }
            }
            if i % 61 == 60 && !self.live.is_empty() {
                let e = pick(self, rnd());
                self.touch(e.raw()).map_err(w)?;
            }
            if i % (n / pauses + 1) == n / pauses {
                self.observe(ctx, None).map_err(w)?;
            }
        }
        ctx.count("calls on marches", n as u64);
        if n >= 10_000 {
            ctx.label("marches of 10,000 calls or more");
        }
        self.observe(ctx, None).map_err(|e| (n, e))
    }

    fn walk(&mut self, seed: u32, n: u16, keep: u8, ctx: &mut Ctx) -> R {
        let ts: Vec<usize> = self.types.iter().copied().filter(|t| TYPES[*t].size <= 64).collect();
        if ts.is_empty() {
            return Ok(());
        }
        let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ ((seed as u64) << 17 | seed as u64);
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u32
        };
        let mut own: Vec<u32> = Vec::new();
        let mut fresh = 0u32;
        for i in 0..n {
            let w = |e: String| format!("call {i} of the walk: {e}");
            if own.len() < keep as usize && (own.is_empty() || rnd() % 8 == 0) {
                let g = single_of(ts[rnd() as usize % ts.len()]);
                if let Some(h) = self.create(g).map_err(w)? {
                    own.push(h);
                }
                continue;
            }
            let k = rnd() as usize % own.len();
            let h = own[k];
            let e = ent(h);
            let m = self.m[&h].mask;
            if rnd() % 40 == 0 {
                let l = tables().by_mask.get(&m).filter(|_| rnd() % 2 == 0);
                match l {
                    Some(l) => {
                        let g = l[rnd() as usize % l.len()];
                        self.remove_entity(e, g).map(|_| ())
                    }
                    None => self.destroy(e).map(|_| ()),
                }
                .map_err(w)?;
                own.swap_remove(k);
                continue;
            }
            // a set not seen before, if there is one next to this; now and then any
            let add: Vec<usize> = ts.iter().copied().filter(|t| m & (1 << t) == 0 && m.count_ones() < 14).collect();
            let del: Vec<usize> = ts.iter().copied().filter(|t| m & (1 << t) != 0 && m.count_ones() > 1).collect();
            let all: Vec<usize> = add.iter().chain(&del).copied().collect();
            if all.is_empty() {
                continue;
            }
            let new: Vec<usize> = all.iter().copied().filter(|t| !self.sets.contains(&(m ^ 1 << t))).collect();
            let from = if new.is_empty() || rnd() % 8 == 0 { &all } else { &new };
            let t = from[rnd() as usize % from.len()];
            fresh += !self.sets.contains(&(m ^ 1 << t)) as u32;
            if m & (1 << t) == 0 {
                self.add(e, t).map_err(w)?;
            } else {
                self.del(e, t).map_err(w)?;
            }
            if rnd() % 4 == 0 {
                self.set(e, bits(self.m[&h].mask).next().unwrap()).map_err(w)?;
            }
            let other = own[rnd() as usize % own.len()];
            for h in [h, other] {
                self.touch(h).map_err(w)?;
            }
            if i % 4001 == 2003 {
                self.observe(ctx, None).map_err(w)?;
            }
        }
        ctx.count("sets reached on walks", fresh as u64);
        self.observe(ctx, None)
    }

    /// One call (or several) during which memory is refused. It may cope, refuse or panic; if it does
    /// not succeed, nothing may have changed.
    fn starve(&mut self, how: u8, e: Entity, g: usize, t: usize, nth: u8, all: bool, fill: bool, ctx: &mut Ctx) -> R {
        let mask = |w: &World| w.m.get(&e.raw()).map_or(0, |r| r.mask);
        let target = match how {
            1 => mask(self) | 1 << t,
            2 => mask(self) & !(1 << t),
            _ => tables().groups[g].mask,
        };
        if fill && how < 3 {
            // so many that the set's storage is full (if its capacity never was larger)
            let with = tables().by_mask.get(&target).and_then(|l| l.first().copied());
            if let Some(x) = with.filter(|x| tables().groups[*x].valid) {
                let big: usize = bits(target).map(|t| TYPES[t].size).sum();
                let have = self.m.values().filter(|r| r.mask == target).count();
                let full = have.max(1).next_power_of_two().max(128);
                if full * big <= 4 << 20 {
                    for _ in have..full {
                        self.create(x)?;
                    }
                }
            }
        }
        let size: usize = bits(target).map(|t| TYPES[t].size).sum();
        let rounds = if how == 3 { ((6 << 20) / size.max(1)).clamp(2, 300) } else { 1 };
        for round in 0..rounds {
            let before = if self.m.len() <= 40 || (self.m.len() <= 400 && round == 0) { Some(self.snapshot()?) } else { None };
            guard::starve(nth, all);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
                1 => self.add(e, t).map(|_| ()),
                2 => self.del(e, t).map(|_| ()),
                _ => self.create(g).map(|_| ()),
            }));
            let refused = guard::feed();
            match r {
                Ok(Ok(())) => {
                    ctx.label(if refused > 0 { "refused memory, call coped" } else { "no memory was needed" });
                    if refused == 0 {
                        continue;
                    }
                    break;
                }
                Ok(Err(m)) if refused == 0 => return Err(m),
                // (the call is compared with what it would have done: it did not; it may refuse as well)
                Ok(Err(m)) => {
                    ensure!(m.contains("was refused"), "{m} (memory was refused)");
                    ctx.label("refused memory, call refused");
                }
                Err(_) => {
                    ensure!(refused > 0, "panicked: {}", crate::runner::last_panic());
                    ctx.label(match how {
                        1 => "refused memory while adding: panic",
                        2 => "refused memory while removing: panic",
                        _ => "refused memory while creating: panic",
                    });
                    ctx.label(if fill || how == 3 { "refused memory: growing" } else { "refused memory: any" });
                }
            }
            ctx.label("memory refused");
            if let Some(b) = before {
                ensure!(self.snapshot()? == b, "a call for which there was no memory changed the registry's observable state");
            }
            break;
        }
        Ok(())
    }

    fn tall(&mut self, g: u8, t: u8, over: u16, how: u8, seed: u32, calls: u16, ctx: &mut Ctx) -> R {
        // the palette's group and type with the smallest rows, so that most cases can be tall
        let small = |g: usize| tables().groups[g].valid && tables().groups[g].row_bytes <= 100;
        let gs: Vec<usize> = self.groups.iter().copied().filter(|g| small(*g)).collect();
        let Some(g) = gs.get(g as usize % gs.len().max(1)).copied() else { return Ok(()) };
        let mask = tables().groups[g].mask;
        let ts: Vec<usize> = self.types.iter().copied().filter(|t| TYPES[*t].size <= 64).collect();
        let others: Vec<usize> = ts.iter().copied().filter(|t| mask & (1 << t) == 0).collect();
        let n = 65_536 + over as usize;
        if self.m.len() > 20_000 {
            return Ok(());
        }
        let mut hs: Vec<u32> = Vec::with_capacity(n);
        for _ in 0..n {
            match self.create(g)? {
                Some(h) => hs.push(h),
                None => return Ok(()),
            }
        }
        // by adding or removing a component, in order or against it
        match how % 4 {
            1 if !others.is_empty() && mask.count_ones() < 14 => {
                let t = others[t as usize % others.len()];
                if how & 4 != 0 {
                    hs.reverse();
                }
                for h in &hs {
                    self.add(ent(*h), t)?;
                }
                ctx.label("more than 65,536 entities given a component");
            }
            2 if mask.count_ones() > 1 => {
                let has: Vec<usize> = bits(mask).collect();
                let t = has[t as usize % has.len()];
                if how & 4 != 0 {
                    hs.reverse();
                }
                for h in &hs {
                    self.del(ent(*h), t)?;
                }
                ctx.label("more than 65,536 entities with a component removed");
            }
            _ => {}
        }
        if self.m.len() > 65_536 {
            ctx.label("more than 65,536 entities in a set");
        }
        let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ ((seed as u64) << 17 | seed as u64);
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u32
        };
        for i in 0..calls {
            let w = |e: String| format!("call {i} after that: {e}");
            if self.live.is_empty() {
                break;
            }
            let len = self.live.len();
            let last = (over as usize * 2).min(len);
            let at = |r: u32, top: bool| if top { len - 1 - r as usize % last } else { r as usize % len };
            let h = self.live[at(rnd(), rnd() % 3 != 0)];
            let e = ent(h);
            // some neighbour is looked at after each call
            let other = self.live[at(rnd(), rnd() % 2 == 0)];
            match rnd() % 100 {
                0..=17 => {
                    self.create(g).map_err(w)?;
                }
                18..=33 => {
                    self.destroy(e).map_err(w)?;
                }
                34..=39 => {
                    let m = self.m[&h].mask;
                    if let Some(l) = tables().by_mask.get(&m) {
                        let g = l[rnd() as usize % l.len()];
                        self.remove_entity(e, g).map_err(w)?;
                    }
                }
                40..=59 => {
                    let m = self.m[&h].mask;
                    let free: Vec<usize> = ts.iter().copied().filter(|t| m & (1 << t) == 0).collect();
                    if !free.is_empty() && m.count_ones() < 14 {
                        self.add(e, free[rnd() as usize % free.len()]).map_err(w)?;
                    }
                }
                60..=79 => {
                    let m = self.m[&h].mask;
                    if m.count_ones() > 1 {
                        let has: Vec<usize> = bits(m).collect();
                        self.del(e, has[rnd() as usize % has.len()]).map_err(w)?;
                    }
                }
                80..=89 => {
                    let m = self.m[&h].mask;
                    let has: Vec<usize> = bits(m).collect();
                    self.set(e, has[rnd() as usize % has.len()]).map_err(w)?;
                }
                _ => {
                    let g = self.groups[rnd() as usize % self.groups.len()];
                    self.set_group(e, g, true).map_err(w)?;
                }
            }
            for h in [h, other] {
                if self.m.contains_key(&h) {
                    self.touch(h).map_err(w)?;
                }
            }
        }
        self.observe(ctx, None)
    }

    pub fn step(&mut self, op: &Op, ctx: &mut Ctx) -> R {
        self.steps += 1;
        let mut pd: Option<Pred> = None;
        match op {
            Op::Create { g } => {
                let g = self.g(*g);
                if let Some(h) = self.create(g)? {
                    ctx.label("creations");
                    self.touch(h)?;
                } else {
                    ctx.label("refused: invalid group");
                }
            }
            Op::CreateMany { g, n } => {
                let g = self.g(*g);
                let n = self.cap_rows(g, *n);
                for _ in 0..n {
                    if let Some(h) = self.create(g)? {
                        ctx.label("creations");
                        if n < 40 {
                            self.touch(h)?;
                        }
                    } else {
                        break;
                    }
                }
                if n > 128 {
                    ctx.label("populations beyond 128 of one set");
                }
                if n > 65_536 {
                    ctx.label("populations beyond 65536 of one set");
                }
            }
            Op::Destroy { e } => {
                let e = self.sel(*e);
                if self.destroy(e)? {
                    ctx.label("destructions");
                } else {
                    ctx.label("refused: dead handle");
                }
            }
            Op::DestroyRange { start, n, stride } => {
                for h in self.range(*start, *n, *stride as usize) {
                    self.destroy(ent(h))?;
                    ctx.label("destructions");
                }
            }
            Op::RemoveEntity { e, g } => {
                let (e, g) = (self.sel(*e), self.g(*g));
                if self.remove_entity(e, g)? {
                    ctx.label("entities removed by value");
                } else {
                    ctx.label("refused: entity removal");
                }
            }
            Op::RemoveExact { e, k } => {
                let e = self.sel(*e);
                if let Some(r) = self.m.get(&e.raw()) {
                    if let Some(l) = tables().by_mask.get(&r.mask) {
                        let g = l[*k as usize % l.len()];
                        self.remove_entity(e, g)?;
                        ctx.label("entities removed by value");
                    }
                } else {
                    let g = self.g(*k);
                    self.remove_entity(e, g)?;
                    ctx.label("refused: dead handle");
                }
            }
            Op::Add { e, t } => {
                let (e, t) = (self.sel(*e), self.t(*t));
                if self.add(e, t)? {
                    ctx.label("components added");
                    if self.m[&e.raw()].mask.count_ones() == 14 {
                        ctx.label("14th component added");
                    }
                } else {
                    ctx.label("refused: addition");
                }
                self.touch(e.raw())?;
            }
            Op::Del { e, t } => {
                let (e, t) = (self.sel(*e), self.t(*t));
                if self.del(e, t)? {
                    ctx.label("components removed");
                } else {
                    ctx.label("refused: removal");
                }
                self.touch(e.raw())?;
            }
            Op::AddRange { start, n, t } => {
                let t = self.t(*t);
                for h in self.range(*start, *n, 1) {
                    if self.add(ent(h), t)? {
                        ctx.label("components added");
                    }
                }
            }
            Op::DelRange { start, n, t } => {
                let t = self.t(*t);
                for h in self.range(*start, *n, 1) {
                    if self.del(ent(h), t)? {
                        ctx.label("components removed");
                    }
                }
            }
            Op::Set { e, t } => {
                let (e, t) = (self.sel(*e), self.t(*t));
                self.set(e, t)?;
                ctx.label("single writes");
                self.touch(e.raw())?;
            }
            Op::SetGroup { e, g } => {
                let (e, g) = (self.sel(*e), self.g(*g));
                self.set_group(e, g, true)?;
                ctx.label("tuple writes");
                self.touch(e.raw())?;
            }
            Op::IterWrite { g, ents, pred, first } => {
                let g = self.g(*g);
                self.iter_write(g, *ents, pred.as_ref(), *first, false, ctx)?;
                pd = pred.clone();
            }
            Op::ExactWrite { g, ents } => {
                let g = self.g(*g);
                self.iter_write(g, *ents, None, None, true, ctx)?;
            }
            Op::Churn { g, n } => {
                let g = self.g(*g);
                let mut first: Option<u32> = None;
                for i in 0..*n {
                    let Some(h) = self.create(g)? else { break };
                    if let Some(f) = first {
                        if f != h && !self.m.contains_key(&f) && i % 16 == 0 {
                            // the first handle of this slot stays dead
                            let t = self.types[0];
                            self.refused_queries(ent(f), t, g)?;
                        }
                    } else {
                        first = Some(h);
                    }
                    self.destroy(ent(h))?;
                }
                ctx.count("slot reuses", *n as u64);
            }
            Op::Clear => {
                let hs: Vec<u32> = self.live.clone();
                for h in hs {
                    self.destroy(ent(h))?;
                }
            }
            Op::March { seed, n, keep } => {
                self.march(*seed, *n, *keep, ctx).map_err(|(i, e)| format!("call {i} of the march: {e}"))?;
            }
            Op::Walk { seed, n, keep } => {
                self.walk(*seed, *n, *keep, ctx)?;
            }
            Op::Tall { g, t, over, how, seed, calls } => {
                self.tall(*g, *t, *over, *how, *seed, *calls, ctx)?;
            }
            Op::Spread { g, n, salt } => {
                let g = self.g(*g);
                let mut x = *salt | 1;
                // an archetype of large components costs megabytes
                let heavy = self.types.iter().any(|t| TYPES[*t].size > 2000);
                let n = if heavy { (*n).min(3) } else { *n };
                for _ in 0..n {
                    let Some(h) = self.create(g)? else { break };
                    x ^= x << 13;
                    x ^= x >> 17;
                    x ^= x << 5;
                    let ts: Vec<usize> = self
                        .types
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| x & (1 << (i % 32)) != 0)
                        .map(|(_, t)| *t)
                        .collect();
                    for t in ts {
                        self.add(ent(h), t)?;
                    }
                }
                if n > 60 {
                    ctx.label("spread over many sets");
                }
            }
            Op::Build { mask, salt } => {
                self.build(*mask, *salt, ctx)?;
            }
            Op::Probe { e } => {
                let e = self.sel(*e);
                if self.m.contains_key(&e.raw()) {
                    // live: calls that must be refused nonetheless
                    let r = self.m[&e.raw()];
                    let has = bits(r.mask).next().unwrap();
                    self.add(e, has)?;
                    if let Some(t) = self.types.iter().copied().find(|t| r.mask & (1 << t) == 0) {
                        self.del(e, t)?;
                        if r.mask.count_ones() == 14 {
                            ctx.label("15th component refused");
                            self.add(e, t)?;
                        }
                    }
                    if r.mask.count_ones() == 1 {
                        self.del(e, has)?;
                        ctx.label("last component kept");
                    }
                    let gs = self.groups.clone();
                    for g in gs {
                        if tables().groups[g].mask != r.mask || !tables().groups[g].valid {
                            self.remove_entity(e, g)?;
                        }
                    }
                    ctx.label("refusals on live entities");
                } else {
                    self.probe_dead(e)?;
                    ctx.label("refused: dead handle");
                }
            }
            Op::DestroyPanic { e, t } => {
                let e = self.sel(*e);
                if let Some(row) = self.m.get(&e.raw()).copied() {
                    let ts: Vec<usize> = bits(row.mask).filter(|t| TYPES[*t].tracked).collect();
                    if ts.is_empty() {
                        self.destroy(e)?;
                    } else {
                        let t = ts[*t as usize % ts.len()];
                        ledger::plan_panic(t, row.k[t]);
                        let reg = &mut self.reg;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            reg.destroy_entity(e)
                        }));
                        ledger::clear_plan();
                        if ledger::fired().is_empty() {
                            return Err(format!(
                                "destroying {:#x} did not drop its C{t}",
                                e.raw()
                            ));
                        }
                        ledger::forget_fired();
                        match r {
                            Err(_) => {
                                let m = crate::runner::last_panic();
                                ensure!(
                                    m.contains("planned destructor panic"),
                                    "destroying with a panicking destructor panicked otherwise: {m}"
                                );
                                ctx.label("destructor panics during destroy");
                            }
                            Ok(b) => ensure!(b, "destroy_entity returned false for a live entity"),
                        }
                        // its remaining components may have been dropped or leaked
                        self.model_remove(e.raw());
                        for x in ts {
                            if x != t {
                                *self.leaks.entry((x, row.k[x])).or_insert(0) += 1;
                            }
                        }
                        // the handle is dead
                        let (t0, g0) = (self.types[0], self.groups[0]);
                        self.refused_queries(e, t0, g0)?;
                    }
                }
            }
            Op::Starve { how, e, g, t, nth, all, fill } => {
                let (e, g, t) = (self.sel(*e), self.g(*g), self.t(*t));
                self.starve(*how, e, g, t, *nth, *all, *fill, ctx)?;
            }
            Op::Observe => {}
        }
        let n = self.m.len();
        let due = matches!(op, Op::Observe)
            || (n <= 8 && !self.o.sparse)
            || (n <= 64 && self.steps % 3 == 0 && !self.o.sparse)
            || (n <= 600 && self.steps % 8 == 0 && !self.o.sparse)
            || (self.steps % 40 == 0);
        if due {
            self.observe(ctx, pd.as_ref())?;
        } else {
            if self.o.ledger {
                if let Some(p) = ledger::problems() {
                    return Err(p);
                }
            }
            if self.o.alloc {
                self.check_alloc()?;
            }
        }
        Ok(())
    }

    /// Drops the registry and checks the books.
    pub fn finish(self, ctx: &mut Ctx) -> R {
        ctx.count("live at teardown", self.m.len() as u64);
        let World { reg, o, leaks, .. } = self;
        drop(reg);
        if o.ledger {
            if let Some(p) = ledger::problems() {
                return Err(format!("at teardown: {p}"));
            }
            for ((t, k), n) in ledger::alive() {
                let l = leaks.get(&(t, k)).copied().unwrap_or(0);
                ensure!(n <= l, "value {k} of C{t} was not dropped with the registry");
            }
        }
        if o.alloc && !cfg!(any(miri, feature = "asan")) {
            guard::sweep();
            if let Some(p) = guard::problems() {
                return Err(format!("at teardown: {p}"));
            }
        }
        Ok(())
    }
}

/// Runs a whole history.
pub fn run_world(c: &WorldCase, o: Oracles, ctx: &mut Ctx) -> R {
    run_world_sets(c, o, ctx).map(|_| ())
}

/// Runs a whole history and returns the component sets that entities had.
pub fn run_world_sets(c: &WorldCase, o: Oracles, ctx: &mut Ctx) -> R<BTreeSet<u32>> {
    let mut extra = c.extra.clone();
    for op in &c.ops {
        if let Op::Build { mask, .. } = op {
            extra.extend(bits(*mask).map(|t| t as u8));
        }
    }
    let mut w = World::new(&c.groups, &extra, o);
    for (i, op) in c.ops.iter().enumerate() {
        w.step(op, ctx).map_err(|e| format!("op {i} {op:?}: {e}"))?;
    }
    w.observe(ctx, None).map_err(|e| format!("at the end: {e}"))?;
    ctx.count("component sets seen", w.sets.len() as u64);
    if w.sets.len() > 128 {
        ctx.label("more than 128 component sets");
    }
    if w.sets.len() > 1000 {
        ctx.label("more than 1,000 component sets");
    }
    if w.sets.len() > 4200 {
        ctx.label("more than 4,200 component sets");
    }
    let sets = w.sets.clone();
    w.finish(ctx)?;
    Ok(sets)
}
