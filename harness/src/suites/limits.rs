//! The limits of a whole registry: 14 components, 65,534 component sets, 16,777,215 entities.

use crate::runner::*;
use crate::world::{op, palette, run_world_sets, Mix, Op, Oracles, WorldCase};
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicI64, Ordering};

type R<T = ()> = Result<T, String>;

fn handle(raw: u32) -> Entity {
    unsafe { Entity::new_unchecked(raw & 0xff_ffff, (raw >> 24) as u8) }
}

/// Wide component groups, with histories that pass through 13, 14 and (refused) 15 components.
pub struct C08;
impl Suite for C08 {
    const NAME: &'static str = "C08";
    const RULE: &'static str = "histories over groups of up to 14 components with most calls adding or removing components, so that entities pass through 12, 13 and 14 components and a 15th is tried, compared with a model; non-trivial: an entity had 13 or 14 components";
    type Case = WorldCase;
    fn strategy(_t: Tier) -> BoxedStrategy<WorldCase> {
        let m = Mix {
            add: 24,
            del: 14,
            build: 6,
            spread: 0,
            churn: 0,
            kinds: [2, 3, 80, 3, 2, 3],
            pred: false,
            ..Mix::BASE
        };
        // types at hand: enough to go beyond 14
        (palette(m), proptest::collection::vec(op(m), 1..40), proptest::collection::vec(0u8..20, 2..8), any::<u32>())
            .prop_map(|((groups, mut extra), mut ops, more, salt)| {
                extra.extend(more);
                // climb to the limit: every type of the palette is added to one entity in turn
                let at = salt as usize % (ops.len() + 1);
                if salt & 3 != 0 {
                    for k in 0..24u8 {
                        ops.insert(
                            (at + k as usize).min(ops.len()),
                            Op::AddRange { start: (salt >> 8) as u16, n: 1 + (salt >> 24) as u16 % 3, t: k },
                        );
                    }
                }
                WorldCase { groups, extra, ops }
            })
            .boxed()
    }
    fn run(c: &WorldCase, ctx: &mut Ctx) -> R {
        let o = Oracles { values: true, refuse: true, iter: true, ledger: true, ..Default::default() };
        let sets = run_world_sets(c, o, ctx)?;
        for n in 1..=14 {
            if sets.iter().any(|m| m.count_ones() == n) {
                ctx.label(&format!("entities with {n:02} components"));
            }
        }
        ctx.nontrivial = sets.iter().any(|m| m.count_ones() >= 13);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// 16,777,215 entities

const MAX: usize = 16_777_215;

pub struct A(u32);
impl Component for A {
    const NAME: &'static str = "LimitA";
}
pub struct B(u8);
impl Component for B {
    const NAME: &'static str = "LimitB";
}
pub struct Z;
impl Component for Z {
    const NAME: &'static str = "LimitZ";
}
/// Counts what is alive.
pub struct D(u16);
impl Component for D {
    const NAME: &'static str = "LimitD";
}
static D_ALIVE: AtomicI64 = AtomicI64::new(0);
impl D {
    fn new(v: u16) -> D {
        D_ALIVE.fetch_add(1, Ordering::Relaxed);
        D(v)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        D_ALIVE.fetch_sub(1, Ordering::Relaxed);
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FullCase {
    /// component sets used, each a non-empty subset of A=1, B=2, Z=4, D=8
    pub sets: Vec<u8>,
    /// how entities are spread: 0 in turn, 1 in blocks, 2 by a hash, 3 all in the first but a few
    pub spread: u8,
    /// created with one component less, which is then added
    pub by_move: bool,
    pub salt: u32,
    /// destroyed and created again at the limit
    pub holes: Vec<u32>,
    pub rounds: u8,
}

fn value(serial: u32, which: u32) -> u32 {
    (serial ^ (which << 29)).wrapping_mul(2654435761).rotate_left(which * 5 + 1)
}

struct Full {
    reg: Registry,
    /// per slot: serial of the current entity, its set, its version
    serial: Vec<u32>,
    set: Vec<u8>,
    version: Vec<u8>,
    live: usize,
    next: u32,
}

impl Full {
    fn make(&mut self, set: u8, s: u32) -> Option<Entity> {
        let a = || A(value(s, 0));
        let b = || B(value(s, 1) as u8);
        let d = || D::new(value(s, 3) as u16);
        let r = &mut self.reg;
        // handed back values are checked to be the ones given
        fn same<T>(e: T, f: impl Fn(&T) -> bool) -> Option<Entity> {
            assert!(f(&e), "a refused creation handed back other values than it was given");
            None
        }
        let oa = |x: &A| x.0 == value(s, 0);
        let ob = |x: &B| x.0 == value(s, 1) as u8;
        let od = |x: &D| x.0 == value(s, 3) as u16;
        match set {
            1 => r.create_entity(a()).or_else(|e| same(e, oa).ok_or(())).ok(),
            2 => r.create_entity(b()).or_else(|e| same(e, ob).ok_or(())).ok(),
            4 => r.create_entity(Z).or_else(|e| same(e, |_| true).ok_or(())).ok(),
            8 => r.create_entity(d()).or_else(|e| same(e, od).ok_or(())).ok(),
            3 => r.create_entity((b(), a())).or_else(|e| same(e, |e| oa(&e.1) && ob(&e.0)).ok_or(())).ok(),
            5 => r.create_entity((a(), Z)).or_else(|e| same(e, |e| oa(&e.0)).ok_or(())).ok(),
            6 => r.create_entity((Z, b())).or_else(|e| same(e, |e| ob(&e.1)).ok_or(())).ok(),
            9 => r.create_entity((a(), d())).or_else(|e| same(e, |e| oa(&e.0) && od(&e.1)).ok_or(())).ok(),
            10 => r.create_entity((d(), b())).or_else(|e| same(e, |e| ob(&e.1) && od(&e.0)).ok_or(())).ok(),
            12 => r.create_entity((d(), Z)).or_else(|e| same(e, |e| od(&e.0)).ok_or(())).ok(),
            7 => r.create_entity((b(), Z, a())).or_else(|e| same(e, |e| oa(&e.2) && ob(&e.0)).ok_or(())).ok(),
            11 => r.create_entity((d(), b(), a())).or_else(|e| same(e, |e| oa(&e.2) && ob(&e.1) && od(&e.0)).ok_or(())).ok(),
            13 => r.create_entity((Z, d(), a())).or_else(|e| same(e, |e| oa(&e.2) && od(&e.1)).ok_or(())).ok(),
            14 => r.create_entity((Z, d(), b())).or_else(|e| same(e, |e| ob(&e.2) && od(&e.1)).ok_or(())).ok(),
            _ => r.create_entity((b(), Z, a(), d())).or_else(|e| same(e, |e| oa(&e.2) && ob(&e.0) && od(&e.3)).ok_or(())).ok(),
        }
    }
    fn add(&mut self, e: Entity, bit: u8, s: u32) -> R {
        let ok = match bit {
            1 => self.reg.add_component(e, A(value(s, 0))).is_ok(),
            2 => self.reg.add_component(e, B(value(s, 1) as u8)).is_ok(),
            4 => self.reg.add_component(e, Z).is_ok(),
            _ => self.reg.add_component(e, D::new(value(s, 3) as u16)).is_ok(),
        };
        ensure!(ok, "adding a component to {:#x} is refused with {} live entities", e.raw(), self.live);
        Ok(())
    }
    fn remove(&mut self, e: Entity, bit: u8, s: u32) -> R {
        let r = &mut self.reg;
        let ok = match bit {
            1 => r.remove_component::<A>(e).map(|x| x.0 == value(s, 0)),
            2 => r.remove_component::<B>(e).map(|x| x.0 == value(s, 1) as u8),
            4 => r.remove_component::<Z>(e).map(|_| true),
            _ => r.remove_component::<D>(e).map(|x| x.0 == value(s, 3) as u16),
        };
        ensure!(ok == Ok(true), "removing a component of {:#x} answers {ok:?} with {} live entities", e.raw(), self.live);
        Ok(())
    }
    fn create(&mut self, set: u8, by_move: bool) -> R<Option<Entity>> {
        let s = self.next;
        self.next += 1;
        let e = if by_move && set.count_ones() > 1 {
            let bit = 1u8 << set.trailing_zeros();
            match self.make(set & !bit, s) {
                None => None,
                Some(e) => {
                    self.add(e, bit, s)?;
                    Some(e)
                }
            }
        } else {
            self.make(set, s)
        };
        if let Some(e) = e {
            let ix = e.index() as usize;
            ensure!(ix < MAX, "a new entity has the handle {:#x}", e.raw());
            if ix >= self.set.len() {
                self.set.resize(ix + 1, 0);
                self.serial.resize(ix + 1, 0);
                self.version.resize(ix + 1, 0);
            }
            ensure!(self.set[ix] == 0, "a new entity got the slot of a live one: {:#x}", e.raw());
            self.set[ix] = set;
            self.serial[ix] = s;
            self.version[ix] = e.version();
            self.live += 1;
        }
        Ok(e)
    }
    fn at(&self, slot: usize) -> Entity {
        handle(slot as u32 | (self.version[slot] as u32) << 24)
    }
    fn check_one(&self, slot: usize) -> R {
        let e = self.at(slot);
        let set = self.set[slot];
        let s = self.serial[slot];
        let r = &self.reg;
        let a = r.get_component::<A>(e).map(|x| x.0) == (set & 1 != 0).then(|| value(s, 0));
        let b = r.get_component::<B>(e).map(|x| x.0) == (set & 2 != 0).then(|| value(s, 1) as u8);
        let z = r.get_component::<Z>(e).is_some() == (set & 4 != 0);
        let d = r.get_component::<D>(e).map(|x| x.0) == (set & 8 != 0).then(|| value(s, 3) as u16);
        ensure!(a && b && z && d, "entity {:#x} no longer reports its components (A {a}, B {b}, Z {z}, D {d}) with {} live", e.raw(), self.live);
        Ok(())
    }
    fn destroy(&mut self, slot: usize) -> R {
        let e = self.at(slot);
        ensure!(self.reg.destroy_entity(e), "destroying {:#x} is refused with {} live entities", e.raw(), self.live);
        ensure!(!self.reg.destroy_entity(e), "destroying {:#x} twice succeeds", e.raw());
        self.set[slot] = 0;
        self.live -= 1;
        Ok(())
    }
    /// Everything, through iteration.
    fn check_all(&self) -> R {
        let mut n = 0usize;
        let mut seen = vec![false; self.set.len()];
        for e in self.reg.iter_entities() {
            let ix = e.index() as usize;
            ensure!(ix < seen.len() && !seen[ix] && self.set[ix] != 0 && self.version[ix] == e.version(), "entity iteration yields {:#x}", e.raw());
            seen[ix] = true;
            n += 1;
        }
        ensure!(n == self.live, "entity iteration yields {n} of {} entities", self.live);
        macro_rules! rows {
            ($t:ty, $bit:expr, $f:expr) => {
                let mut n = 0usize;
                for (es, cs) in self.reg.iter_entity_components_matching::<$t>() {
                    ensure!(es.len() == cs.len(), "iteration yields {} entities with {} components", es.len(), cs.len());
                    for (e, c) in es.iter().zip(cs.iter()) {
                        let ix = e.index() as usize;
                        ensure!(
                            ix < self.set.len() && self.version[ix] == e.version() && self.set[ix] & $bit != 0,
                            "iteration over {} yields {:#x}",
                            stringify!($t),
                            e.raw()
                        );
                        ensure!($f(c, self.serial[ix]), "iteration yields a wrong {} for {:#x}", stringify!($t), e.raw());
                        n += 1;
                    }
                }
                let want = self.set.iter().filter(|s| *s & $bit != 0).count();
                ensure!(n == want, "iteration over {} yields {n} of {want} rows", stringify!($t));
            };
        }
        rows!(A, 1, |c: &A, s| c.0 == value(s, 0));
        rows!(B, 2, |c: &B, s| c.0 == value(s, 1) as u8);
        rows!(Z, 4, |_: &Z, _| true);
        rows!(D, 8, |c: &D, s| c.0 == value(s, 3) as u16);
        let d = self.set.iter().filter(|s| *s & 8 != 0).count() as i64;
        let alive = D_ALIVE.load(Ordering::Relaxed);
        ensure!(alive == d, "{alive} counted components are alive, {d} belong to live entities");
        Ok(())
    }
}

pub struct C08e;
impl Suite for C08e {
    const NAME: &'static str = "C08e";
    const RULE: &'static str = "a registry is filled to 16,777,215 live entities, in 1 to 4 component sets and in several distributions (including all in one set), by creation or by adding components; creation beyond is tried, entities are moved between sets, destroyed and created again at the limit, and every value compared with a model; non-trivial: the limit was reached and passed again after destructions";
    type Case = FullCase;
    const BATCH: usize = 1;
    const PATIENCE: u64 = 400;
    const MEM_GB: u64 = 8;
    const FILL: bool = false;
    fn strategy(_t: Tier) -> BoxedStrategy<FullCase> {
        (
            proptest::collection::vec(prop_oneof![3 => 1u8..16, 2 => Just(2u8), 1 => Just(4u8)], 1..4),
            0u8..4,
            any::<bool>(),
            any::<u32>(),
            proptest::collection::vec(prop_oneof![3 => 0u32..MAX as u32, 1 => MAX as u32 - 9..MAX as u32, 1 => 0u32..4], 1..40),
            1u8..4,
        )
            .prop_map(|(sets, spread, by_move, salt, holes, rounds)| FullCase { sets, spread, by_move, salt, holes, rounds })
            .boxed()
    }
    fn run(c: &FullCase, ctx: &mut Ctx) -> R {
        D_ALIVE.store(0, Ordering::Relaxed);
        let mut w = Full { reg: Registry::default(), serial: vec![], set: vec![], version: vec![], live: 0, next: 0 };
        let k = c.sets.len();
        let pick = |i: usize| -> u8 {
            let j = match c.spread {
                0 => i % k,
                1 => i * k / (MAX + 1),
                2 => (value(i as u32, 2) >> 7) as usize % k,
                _ => (i % 1_000_003 == 0) as usize * (i / 1_000_003 % k),
            };
            c.sets[j.min(k - 1)]
        };
        for i in 0..MAX {
            if w.create(pick(i), c.by_move)?.is_none() {
                return Err(format!("creation is refused with {i} live entities"));
            }
        }
        ctx.label("limit reached");
        for i in 0..3 * k {
            let before = w.live;
            if let Some(e) = w.create(c.sets[i % k], false)? {
                return Err(format!("an entity {:#x} was created beyond the limit", e.raw()));
            }
            ensure!(w.live == before, "harness");
        }
        // an unused component set is refused in the same way
        for set in 1..16 {
            if !c.sets.contains(&set) {
                ensure!(w.create(set, false)?.is_none(), "an entity of another set was created beyond the limit");
            }
        }
        w.check_all().map_err(|e| format!("at the limit: {e}"))?;
        let mut moved = 0u64;
        for round in 0..c.rounds as usize {
            // moves at the limit keep the number of entities
            for h in &c.holes {
                let slot = (*h as usize + round * 11) % MAX;
                let bit = 1u8 << (h.wrapping_add(c.salt) >> 3 & 3);
                let (set, s) = (w.set[slot], w.serial[slot]);
                if set & bit == 0 {
                    w.add(w.at(slot), bit, s)?;
                    w.set[slot] |= bit;
                    moved += 1;
                } else if set != bit {
                    w.remove(w.at(slot), bit, s)?;
                    w.set[slot] &= !bit;
                    moved += 1;
                }
                w.check_one(slot)?;
            }
            let holes: BTreeSet<usize> = c.holes.iter().map(|h| (*h as usize + round * 3) % MAX).collect();
            for h in &holes {
                w.destroy(*h)?;
            }
            let n = holes.len();
            for i in 0..n {
                if w.create(c.sets[i % k], c.by_move ^ (round & 1 == 1))?.is_none() {
                    return Err(format!("creation is refused although {} entities were destroyed at the limit and {i} created since", n));
                }
            }
            ensure!(w.create(c.sets[round % k], false)?.is_none(), "an entity was created beyond the limit after refilling");
            for h in &holes {
                w.check_one(*h)?;
                w.check_one((*h + 1) % MAX)?;
            }
            ctx.count("entities created again at the limit", n as u64);
        }
        ctx.count("moves at the limit", moved);
        w.check_all().map_err(|e| format!("after refilling at the limit: {e}"))?;
        let Full { reg, .. } = w;
        drop(reg);
        let alive = D_ALIVE.load(Ordering::Relaxed);
        ensure!(alive == 0, "after dropping the registry {alive} of the counted components are alive");
        ctx.nontrivial = true;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// 65,534 component sets

macro_rules! small_types {
    ($($ix:literal $t:ident $n:literal),* $(,)?) => {
        $(
            pub struct $t([u8; $n]);
            impl Component for $t {
                const NAME: &'static str = concat!("Limit_", stringify!($t));
            }
            impl $t {
                fn make(s: u32) -> $t {
                    $t(core::array::from_fn(|i| value(s, $ix + i as u32) as u8))
                }
                fn is(&self, s: u32) -> bool {
                    self.0.iter().enumerate().all(|(i, b)| *b == value(s, $ix + i as u32) as u8)
                }
            }
        )*
        const SMALL: usize = [$($ix),*].len();
        fn small_create(r: &mut Registry, t: usize, s: u32) -> R<Option<Entity>> {
            match t {
                $($ix => match r.create_entity($t::make(s)) {
                    Ok(e) => Ok(Some(e)),
                    Err(v) => if v.is(s) { Ok(None) } else { Err("a refused creation handed back another value".into()) },
                },)*
                _ => unreachable!(),
            }
        }
        fn small_add(r: &mut Registry, e: Entity, t: usize, s: u32) -> R<bool> {
            match t {
                $($ix => match r.add_component(e, $t::make(s)) {
                    Ok(()) => Ok(true),
                    Err(v) => if v.is(s) { Ok(false) } else { Err("a refused addition handed back another value".into()) },
                },)*
                _ => unreachable!(),
            }
        }
        fn small_remove(r: &mut Registry, e: Entity, t: usize, s: u32) -> R<bool> {
            match t {
                $($ix => match r.remove_component::<$t>(e) {
                    Ok(v) => if v.is(s) { Ok(true) } else { Err("a removal handed back another value".into()) },
                    Err(()) => Ok(false),
                },)*
                _ => unreachable!(),
            }
        }
        fn small_check(r: &Registry, e: Entity, mask: u32, s: u32) -> R {
            $(
                let want = mask >> $ix & 1 == 1;
                ensure!(r.has_component::<$t>(e) == want, "entity {:#x}: has_component::<{}> is not {want}", e.raw(), stringify!($t));
                match r.get_component::<$t>(e) {
                    None => ensure!(!want, "entity {:#x} lost its {}", e.raw(), stringify!($t)),
                    Some(v) => ensure!(want && v.is(s), "entity {:#x} reports a wrong {}", e.raw(), stringify!($t)),
                }
            )*
            Ok(())
        }
        fn small_rows(r: &Registry, t: usize, f: &mut dyn FnMut(Entity, &dyn Fn(u32) -> bool) -> R) -> R {
            match t {
                $($ix => for (es, cs) in r.iter_entity_components_matching::<$t>() {
                    ensure!(es.len() == cs.len(), "iteration yields {} entities with {} components", es.len(), cs.len());
                    for (e, c) in es.iter().zip(cs) {
                        f(*e, &|s| c.is(s))?;
                    }
                },)*
                _ => unreachable!(),
            }
            Ok(())
        }
    };
}
small_types! {
    0 S0 0, 1 S1 1, 2 S2 2, 3 S3 0, 4 S4 1, 5 S5 1, 6 S6 3, 7 S7 0, 8 S8 1, 9 S9 1,
    10 S10 0, 11 S11 2, 12 S12 1, 13 S13 0, 14 S14 1, 15 S15 4, 16 S16 0, 17 S17 1,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SetsCase {
    pub walkers: u8,
    /// of the pool of 18 types, how many take part (17 or 18)
    pub types: u8,
    pub salt: u64,
    /// in percent: steps that start a new walker from a single component
    pub fresh: u8,
}

pub struct C08a;
impl Suite for C08a {
    const NAME: &'static str = "C08a";
    const RULE: &'static str = "entities walk at random through component sets by adding and removing components until a registry holds 65,534 different sets (of 1 to 14 components), then every step into a new set must be refused and every step into a known one succeed, values and iteration compared with a model; non-trivial: the limit was reached, new sets were refused and known ones still worked";
    type Case = SetsCase;
    const BATCH: usize = 1;
    const PATIENCE: u64 = 400;
    const MEM_GB: u64 = 8;
    const FILL: bool = false;
    fn strategy(_t: Tier) -> BoxedStrategy<SetsCase> {
        (1u8..60, 17u8..=18, any::<u64>(), 0u8..5)
            .prop_map(|(walkers, types, salt, fresh)| SetsCase { walkers, types, salt, fresh })
            .boxed()
    }
    fn run(c: &SetsCase, ctx: &mut Ctx) -> R {
        const SETS: usize = 65_534;
        let nt = (c.types as usize).min(SMALL);
        let mut reg = Registry::default();
        let mut known: HashSet<u32> = HashSet::new();
        // handle -> (set, serial)
        let mut ents: Vec<(Entity, u32, u32)> = Vec::new();
        let mut x = c.salt | 1;
        let mut rnd = |n: usize| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 16) as usize % n
        };
        let mut serial = 0u32;
        let mut steps = 0u64;
        let mut after = 0u64;
        let mut refused_new = 0u64;
        let mut refused_wide = 0u64;
        let mut known_at_limit = 0u64;
        while after < 6000 {
            steps += 1;
            ensure!(steps < 4_000_000, "harness: cannot reach the limit");
            let full = known.len() >= SETS;
            after += full as u64;
            if ents.len() < c.walkers as usize || rnd(100) < c.fresh as usize {
                if ents.len() >= c.walkers as usize {
                    let i = rnd(ents.len());
                    let (e, ..) = ents.swap_remove(i);
                    ensure!(reg.destroy_entity(e), "destroying {:#x} is refused", e.raw());
                }
                let t = rnd(nt);
                serial += 1;
                let got = small_create(&mut reg, t, serial)?;
                let want = known.contains(&(1 << t)) || !full;
                ensure!(got.is_some() == want, "with {} sets, creation with {} set answers {got:?}", known.len(), if known.contains(&(1 << t)) { "a known" } else { "a new" });
                if let Some(e) = got {
                    known.insert(1 << t);
                    ents.push((e, 1 << t, serial));
                } else {
                    refused_new += 1;
                    if ents.is_empty() {
                        return Ok(());
                    }
                }
                continue;
            }
            let i = rnd(ents.len());
            let (e, set, s) = ents[i];
            let t = rnd(nt);
            let to = set ^ 1 << t;
            let can = to != 0 && to.count_ones() <= 14 && (known.contains(&to) || !full);
            let got = if to & 1 << t != 0 { small_add(&mut reg, e, t, s) } else { small_remove(&mut reg, e, t, s) };
            let got = got.map_err(|m| format!("with {} sets: {m}", known.len()))?;
            ensure!(
                got == can,
                "with {} sets, stepping from a set of {} components to {} set of {} answers {got}",
                known.len(),
                set.count_ones(),
                if known.contains(&to) { "a known" } else { "a new" },
                to.count_ones()
            );
            if got {
                known.insert(to);
                ents[i].1 = to;
                known_at_limit += full as u64;
            } else if to.count_ones() > 14 {
                refused_wide += 1;
            } else if to != 0 {
                refused_new += 1;
            }
            if full && after % 16 == 0 || steps % 997 == 0 || (known.len() + 40 > SETS && !full) {
                let (e, set, s) = ents[i];
                small_check(&reg, e, set, s).map_err(|m| format!("with {} sets: {m}", known.len()))?;
            }
        }
        ensure!(known.len() == SETS, "harness");
        for (e, set, s) in &ents {
            small_check(&reg, *e, *set, *s).map_err(|m| format!("at the limit: {m}"))?;
        }
        let m: HashMap<u32, (u32, u32)> = ents.iter().map(|(e, set, s)| (e.raw(), (*set, *s))).collect();
        for t in 0..nt {
            let mut n = BTreeMap::new();
            small_rows(&reg, t, &mut |e, is| {
                let Some((set, s)) = m.get(&e.raw()) else { return Err(format!("iteration yields {:#x}", e.raw())) };
                ensure!(set >> t & 1 == 1 && is(*s), "iteration yields a wrong row for {:#x}", e.raw());
                *n.entry(e.raw()).or_insert(0) += 1;
                Ok(())
            })?;
            let want = ents.iter().filter(|x| x.1 >> t & 1 == 1).count();
            ensure!(n.len() == want && n.values().all(|c| *c == 1), "iteration yields {} of {want} rows", n.len());
        }
        let mut l: Vec<u32> = reg.iter_entities().map(|e| e.raw()).collect();
        l.sort_unstable();
        let mut want: Vec<u32> = m.keys().copied().collect();
        want.sort_unstable();
        ensure!(l == want, "entity iteration differs from the live entities at the limit");
        ctx.count("new sets refused at the limit", refused_new);
        ctx.count("15th components refused", refused_wide);
        ctx.count("moves between known sets at the limit", known_at_limit);
        ctx.nontrivial = refused_new > 0 && known_at_limit > 0;
        Ok(())
    }
}
