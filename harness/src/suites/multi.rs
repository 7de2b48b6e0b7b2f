//! Several registries at once (C20), and registries used from several threads (C22).

use crate::comps::*;
use crate::groups::{IterOut, Take};
use crate::groups::GROUPS;
use crate::guard;
use crate::runner::*;
use crate::world::*;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;

type R<T = ()> = Result<T, String>;

const CALM: Oracles = Oracles {
    values: false,
    handles: true,
    ledger: false,
    iter: true,
    exact: true,
    filter: false,
    addr: false,
    alloc: false,
    invalid: false,
    refuse: false,
    sparse: false,
};

fn small_mix() -> Mix {
    Mix {
        ops: (1, 24),
        huge: false,
        many: 1,
        churn: 1,
        march: 12,
        spread: 1,
        iterw: 2,
        exactw: 1,
        pred: false,
        kinds: [40, 30, 8, 20, 2, 6],
        ..Mix::BASE
    }
}

fn start(c: &WorldCase) -> World {
    let mut w = World::new(&c.groups, &c.extra, CALM);
    w.trace = Some(Vec::new());
    w
}

/// Everything a history shows, step by step.
fn alone(c: &WorldCase, ctx: &mut Ctx) -> R<Vec<u64>> {
    let mut w = start(c);
    for (i, op) in c.ops.iter().enumerate() {
        w.step(op, ctx).map_err(|e| format!("op {i} {op:?}: {e}"))?;
    }
    w.observe(ctx, None)?;
    let t = w.trace.take().unwrap();
    w.finish(ctx)?;
    Ok(t)
}

fn compare(what: &str, a: &[u64], b: &[u64]) -> R {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Err(format!(
        "{what}: observation {i} of {} differs from that of the same history run alone ({:?} instead of {:?})",
        a.len(),
        b.get(i),
        a.get(i)
    ))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct PairCase {
    pub a: WorldCase,
    pub b: WorldCase,
    /// which of three registries (a, b, a's history again) moves next
    pub turns: Vec<u8>,
    /// the second registry is dropped after this many turns
    pub drop_b: u8,
    pub run_a_first: bool,
    /// registries made, used and dropped before the histories are interleaved
    #[serde(default)]
    pub noise: u32,
}

/// Registries that live shortly all show the same.
fn noise(c: &WorldCase, n: u32, ctx: &mut Ctx) -> R {
    let ops = [
        Op::Create { g: 0 },
        Op::Create { g: 1 },
        Op::Add { e: Sel::Recent(0), t: 0 },
        Op::Destroy { e: Sel::Live(0) },
        Op::Create { g: 0 },
        Op::Del { e: Sel::Recent(0), t: 0 },
        Op::Add { e: Sel::Recent(0), t: 1 },
    ];
    let mut first: Option<Vec<u64>> = None;
    let mut scratch = Ctx::default();
    // (the storage of large components is megabytes for each registry)
    let row: u64 = World::new(&c.groups, &c.extra, CALM).types.iter().map(|t| TYPES[*t].size as u64).sum();
    let n = n.min((4_000_000_000 / (128 * 4 * (row + 8))) as u32);
    for i in 0..n {
        let mut w = World::new(&c.groups, &c.extra, Oracles { handles: false, iter: false, exact: false, ..CALM });
        w.trace = Some(Vec::new());
        for op in &ops {
            w.step(op, &mut scratch).map_err(|e| format!("short-lived registry {i}: {e}"))?;
        }
        w.o.iter = i % 64 == 0;
        w.o.exact = i % 64 == 0;
        let cut = w.trace.as_ref().unwrap().len();
        w.observe(&mut scratch, None).map_err(|e| format!("short-lived registry {i}: {e}"))?;
        let mut t = w.trace.take().unwrap();
        t.truncate(cut);
        w.finish(&mut scratch)?;
        match &first {
            None => first = Some(t),
            Some(f) => ensure!(*f == t, "short-lived registry {i} shows something else than the first"),
        }
    }
    ctx.count("short-lived registries", n as u64);
    Ok(())
}

pub struct C20;
impl Suite for C20 {
    const NAME: &'static str = "C20";
    const RULE: &'static str = "two random histories, often over the same component groups, run alone and then interleaved at random with each other and with a second copy of the first, one registry being dropped on the way; handles, results and the contents and order of every iteration compared step by step; non-trivial: at least two registries held entities while calls alternated";
    type Case = PairCase;
    fn strategy(_t: Tier) -> BoxedStrategy<PairCase> {
        let m = small_mix();
        (
            world_case(m),
            world_case(m),
            any::<u32>(),
            proptest::collection::vec(0u8..3, 0..70),
            any::<u8>(),
            any::<bool>(),
            prop_oneof![40 => Just(0u32), 10 => 1u32..100, 4 => 100u32..3000, 1 => 3000u32..70_000],
        )
            .prop_map(|(a, mut b, salt, turns, drop_b, run_a_first, noise)| {
                if salt & 3 != 0 {
                    // the same groups, in another order
                    b.groups = a.groups.clone();
                    let n = b.groups.len();
                    if n > 0 {
                        b.groups.rotate_left(salt as usize / 4 % n);
                    }
                    b.extra = a.extra.clone();
                }
                PairCase { a, b, turns, drop_b, run_a_first, noise }
            })
            .boxed()
    }
    fn run(c: &PairCase, ctx: &mut Ctx) -> R {
        let mut scratch = Ctx::default();
        let (ta, tb);
        if c.run_a_first {
            ta = alone(&c.a, &mut scratch).map_err(|e| format!("first history alone: {e}"))?;
            tb = alone(&c.b, &mut scratch).map_err(|e| format!("second history alone: {e}"))?;
        } else {
            tb = alone(&c.b, &mut scratch).map_err(|e| format!("second history alone: {e}"))?;
            ta = alone(&c.a, &mut scratch).map_err(|e| format!("first history alone: {e}"))?;
        }
        noise(&c.a, c.noise, ctx)?;
        let cases = [&c.a, &c.b, &c.a];
        let mut ws = [Some(start(cases[0])), Some(start(cases[1])), Some(start(cases[2]))];
        let mut at = [0usize; 3];
        let names = ["the first registry", "the second registry", "the copy of the first registry"];
        let mut turn = 0usize;
        let mut populated = false;
        let mut last = 9usize;
        loop {
            // the given turns, then round robin until all are done
            let mut k = match c.turns.get(turn) {
                Some(k) => *k as usize % 3,
                None => turn % 3,
            };
            if turn == c.drop_b as usize {
                if let Some(w) = ws[1].take() {
                    if at[1] > 0 {
                        ctx.label("registries dropped while others live");
                    }
                    let t = w.trace.clone().unwrap();
                    w.finish(&mut scratch)?;
                    compare("the second registry, dropped early", &tb[..t.len().min(tb.len())], &t)?;
                }
            }
            turn += 1;
            let mut tries = 0;
            while tries < 3 && (ws[k].is_none() || at[k] >= cases[k].ops.len()) {
                k = (k + 1) % 3;
                tries += 1;
            }
            if tries == 3 {
                break;
            }
            let i = at[k];
            at[k] += 1;
            let w = ws[k].as_mut().unwrap();
            w.step(&cases[k].ops[i], ctx).map_err(|e| format!("interleaved, {}, op {i}: {e}", names[k]))?;
            if last != k && ws.iter().flatten().filter(|w| !w.live.is_empty()).count() >= 2 {
                populated = true;
            }
            last = k;
        }
        ctx.nontrivial = populated;
        for k in [2, 0, 1] {
            if let Some(mut w) = ws[k].take() {
                w.observe(ctx, None).map_err(|e| format!("{} at the end: {e}", names[k]))?;
                let t = w.trace.take().unwrap();
                w.finish(&mut scratch)?;
                compare(names[k], if k == 1 { &tb } else { &ta }, &t)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Read {
    One { e: Sel, t: u8 },
    Group { e: Sel, g: u8 },
    Iter { g: u8, ents: bool, first: Option<u8> },
    Filter { g: u8, ents: bool, p: Pred },
    Exact { g: u8, ents: bool },
    Entities,
}

pub fn read() -> BoxedStrategy<Read> {
    let g = any::<u8>;
    prop_oneof![
        4 => (sel(15), g()).prop_map(|(e, t)| Read::One { e, t }),
        3 => (sel(15), g()).prop_map(|(e, g)| Read::Group { e, g }),
        3 => (g(), any::<bool>(), proptest::option::weighted(0.2, 0u8..3)).prop_map(|(g, ents, first)| Read::Iter { g, ents, first }),
        2 => (g(), any::<bool>(), pred()).prop_map(|(g, ents, p)| Read::Filter { g, ents, p }),
        2 => (g(), any::<bool>()).prop_map(|(g, ents)| Read::Exact { g, ents }),
        1 => Just(Read::Entities),
    ]
    .boxed()
}

/// One shared read, compared with the model.
pub fn do_read(w: &World, r: &Read) -> R {
    match r {
        Read::One { e, t } => w.read_one(w.sel(*e), w.t(*t)),
        Read::Group { e, g } => w.read_group(w.sel(*e), w.g(*g)),
        Read::Entities => w.read_entities(),
        Read::Exact { g, ents } => {
            let g = w.g(*g);
            let gi = &tables().groups[g];
            let c = (GROUPS[g].exact)(&w.reg, *ents);
            w.check_chunks("shared exact iteration", g, std::slice::from_ref(&c), &|m| gi.valid && m == gi.mask, true)?;
            Ok(())
        }
        Read::Iter { g, ents, first } => {
            let g = w.g(*g);
            let gi = &tables().groups[g];
            let take = first.map_or(Take::All, |n| Take::First(n as usize));
            match (GROUPS[g].iter)(&w.reg, *ents, None, take) {
                IterOut::Bad(e) => Err(e),
                IterOut::Ok(c) => w
                    .check_chunks("shared iteration", g, &c, &|m| gi.valid && m & gi.mask == gi.mask, first.is_none())
                    .map(|_| ()),
            }
        }
        Read::Filter { g, ents, p } => {
            let g = w.g(*g);
            let gi = &tables().groups[g];
            let f = |d: &ArchetypeDescriptor| eval_pred_desc(p, d, &w.types, &w.groups);
            match (GROUPS[g].iter)(&w.reg, *ents, Some(&f), Take::All) {
                IterOut::Bad(e) => Err(e),
                IterOut::Ok(c) => w
                    .check_chunks(
                        "shared filtered iteration",
                        g,
                        &c,
                        &|m| gi.valid && m & gi.mask == gi.mask && eval_pred(p, m, &w.types, &w.groups),
                        true,
                    )
                    .map(|_| ()),
            }
        }
    }
}

/// Whether the registry may be sent and shared is decided by a program of its own; here it just is.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ThreadCase {
    pub world: WorldCase,
    /// steps after which the registry moves to another thread, and what is read there at once
    pub hops: Vec<u8>,
    pub readers: Vec<Vec<Read>>,
    /// the readers also run after this step
    pub read_at: u8,
    /// keep the registry in memory that is read-only while it is read
    #[serde(default)]
    pub sealed: bool,
}

/// The readers on a registry that cannot be written to meanwhile.
fn read_sealed(w: World, readers: &[Vec<Read>], ctx: &mut Ctx) -> R<World> {
    guard::arena(true);
    let w = Box::new(w);
    guard::arena(false);
    std::thread::current();
    guard::seal(true);
    let r = read_together(&w, readers);
    guard::seal(false);
    ctx.label("read while sealed against writing");
    r.map(|_| *w)
}

fn read_together(w: &World, readers: &[Vec<Read>]) -> R {
    let mut res: Vec<R> = Vec::new();
    let before = w.snapshot()?;
    std::thread::scope(|s| {
        let hs: Vec<_> = readers
            .iter()
            .map(|l| {
                let w = Carry(w);
                s.spawn(move || -> R {
                    let w = w.get();
                    for (i, r) in l.iter().enumerate() {
                        do_read(w, r).map_err(|e| format!("read {i} {r:?}: {e}"))?;
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            res.push(match h.join() {
                Ok(r) => r,
                Err(_) => Err(format!("a reading thread panicked: {}", last_panic())),
            });
        }
    });
    for (i, r) in res.into_iter().enumerate() {
        r.map_err(|e| format!("reader {i} of {}: {e}", readers.len()))?;
    }
    ensure!(w.snapshot()? == before, "concurrent reads changed the registry's contents");
    Ok(())
}

fn count_reads(readers: &[Vec<Read>], ctx: &mut Ctx) {
    ctx.count("concurrent readers", readers.len() as u64);
    ctx.count("concurrent reads", readers.iter().map(|r| r.len() as u64).sum());
}

pub struct C22;
impl Suite for C22 {
    const NAME: &'static str = "C22";
    const RULE: &'static str = "random histories on a registry that moves to a new thread at random points (dropped there in the end), compared step by step with the same history on one thread; and two to four threads running random programs of shared queries and iterations at once, each compared with the model; non-trivial: the registry moved while it held entities, or two threads read it while it did";
    type Case = ThreadCase;
    const BATCH: usize = 16;
    // four of them are the reservation for memory that can be sealed
    const MEM_GB: u64 = 10;
    fn strategy(_t: Tier) -> BoxedStrategy<ThreadCase> {
        (
            world_case(small_mix()),
            proptest::collection::vec(0u8..24, 0..5),
            proptest::collection::vec(proptest::collection::vec(read(), 1..10), 2..5),
            any::<u8>(),
            proptest::bool::weighted(0.6),
        )
            .prop_map(|(world, hops, readers, read_at, sealed)| ThreadCase { world, hops, readers, read_at, sealed })
            .boxed()
    }
    fn run(c: &ThreadCase, ctx: &mut Ctx) -> R {
        let mut scratch = Ctx::default();
        let stay = alone(&c.world, &mut scratch).map_err(|e| format!("on one thread: {e}"))?;
        guard::arena(c.sealed);
        let mut w = start(&c.world);
        guard::arena(false);
        for (i, op) in c.world.ops.iter().enumerate() {
            if c.hops.iter().any(|h| *h as usize == i) {
                if !w.live.is_empty() {
                    ctx.label("moves to another thread with entities");
                    ctx.nontrivial = true;
                }
                let carry = Carry((w, ctx as *mut Ctx));
                let r = std::thread::scope(|s| {
                    s.spawn(move || {
                        let (mut w, ctx) = carry.get();
                        // the spawning thread waits
                        guard::arena(c.sealed);
                        let r = w.step(op, unsafe { &mut *ctx });
                        guard::arena(false);
                        Carry((w, r))
                    })
                    .join()
                });
                let (w2, r) = match r {
                    Ok(c) => c.get(),
                    Err(_) => return Err(format!("op {i} {op:?} on another thread panicked: {}", last_panic())),
                };
                w = w2;
                r.map_err(|e| format!("op {i} {op:?} on another thread: {e}"))?;
            } else {
                guard::arena(c.sealed);
                let r = w.step(op, ctx);
                guard::arena(false);
                r.map_err(|e| format!("op {i} {op:?}: {e}"))?;
            }
            if i == c.read_at as usize {
                count_reads(&c.readers, ctx);
                if c.sealed {
                    w = read_sealed(w, &c.readers, ctx)?;
                } else {
                    read_together(&w, &c.readers)?;
                }
            }
        }
        count_reads(&c.readers, ctx);
        if c.sealed {
            w = read_sealed(w, &c.readers, ctx)?;
        } else {
            read_together(&w, &c.readers)?;
        }
        if !w.live.is_empty() {
            ctx.nontrivial = true;
        }
        w.observe(ctx, None)?;
        let t = w.trace.take().unwrap();
        compare("moved between threads", &stay, &t)?;
        let carry = Carry(w);
        let r = std::thread::spawn(move || carry.get().finish(&mut Ctx::default())).join();
        match r {
            Ok(r) => r,
            Err(_) => Err(format!("dropping on another thread panicked: {}", last_panic())),
        }
    }
}

/// The same for an interpreter that reports data races: short histories, few reads.
pub struct C22m;
impl Suite for C22m {
    const NAME: &'static str = "C22m";
    const RULE: &'static str = "under Miri's data-race detector: short random histories on a registry that moves between threads, then two or three threads running random shared queries and iterations at once; non-trivial: two threads read a registry with entities";
    type Case = ThreadCase;
    fn strategy(_t: Tier) -> BoxedStrategy<ThreadCase> {
        (
            world_case(Mix { ops: (1, 7), tiny: true, huge: false, kinds: [30, 40, 12, 16, 0, 0], ..small_mix() }),
            proptest::collection::vec(0u8..8, 0..2),
            proptest::collection::vec(proptest::collection::vec(read(), 2..6), 2..4),
            Just(255),
        )
            .prop_map(|(world, hops, readers, read_at)| ThreadCase { world, hops, readers, read_at, sealed: false })
            .boxed()
    }
    fn run(c: &ThreadCase, ctx: &mut Ctx) -> R {
        let mut w = World::new(&c.world.groups, &c.world.extra, Oracles { sparse: true, ..Default::default() });
        // something to read
        w.step(&Op::CreateMany { g: 0, n: 1 }, ctx)?;
        for (i, op) in c.world.ops.iter().enumerate() {
            if c.hops.iter().any(|h| *h as usize == i) {
                let carry = Carry((w, ctx as *mut Ctx));
                let r = std::thread::scope(|s| {
                    s.spawn(move || {
                        let (mut w, ctx) = carry.get();
                        // the spawning thread waits
                        let r = w.step(op, unsafe { &mut *ctx });
                        Carry((w, r))
                    })
                    .join()
                });
                let (w2, r) = match r {
                    Ok(c) => c.get(),
                    Err(_) => return Err(format!("op {i} {op:?} on another thread panicked: {}", last_panic())),
                };
                w = w2;
                r.map_err(|e| format!("op {i} {op:?} on another thread: {e}"))?;
                ctx.label("moves to another thread");
            } else {
                w.step(op, ctx).map_err(|e| format!("op {i} {op:?}: {e}"))?;
            }
        }
        let mut res: Vec<R> = Vec::new();
        std::thread::scope(|s| {
            let hs: Vec<_> = c
                .readers
                .iter()
                .map(|l| {
                    let w = Carry(&w);
                    s.spawn(move || -> R {
                        let w = w.get();
                        for (i, r) in l.iter().enumerate() {
                            do_read(w, r).map_err(|e| format!("read {i} {r:?}: {e}"))?;
                        }
                        Ok(())
                    })
                })
                .collect();
            for h in hs {
                res.push(match h.join() {
                    Ok(r) => r,
                    Err(_) => Err(format!("a reading thread panicked: {}", last_panic())),
                });
            }
        });
        for (i, r) in res.into_iter().enumerate() {
            r.map_err(|e| format!("reader {i} of {}: {e}", c.readers.len()))?;
        }
        ctx.count("concurrent reads", c.readers.iter().map(|r| r.len() as u64).sum());
        ctx.nontrivial = !w.live.is_empty();
        let carry = Carry(w);
        match std::thread::spawn(move || carry.get().finish(&mut Ctx::default())).join() {
            Ok(r) => r,
            Err(_) => Err(format!("dropping on another thread panicked: {}", last_panic())),
        }
    }
}
