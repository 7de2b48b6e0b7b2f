//! Suites that are histories of registry calls, differing in mix and oracles.

use crate::comps::*;
use crate::runner::*;
use crate::world::*;
use crate::{guard, ledger};
use proptest::prelude::*;

use crate::ensure;

macro_rules! history_suite {
    ($ty:ident, $name:literal, $rule:literal, $mix:expr, $o:expr, |$ctx:ident| $nt:expr) => {
        pub struct $ty;
        impl Suite for $ty {
            const NAME: &'static str = $name;
            const RULE: &'static str = $rule;
            type Case = WorldCase;
            fn strategy(_t: Tier) -> BoxedStrategy<WorldCase> {
                world_case($mix)
            }
            fn run(c: &WorldCase, $ctx: &mut Ctx) -> Result<(), String> {
                run_world(c, $o, $ctx)?;
                $ctx.nontrivial = $nt;
                Ok(())
            }
        }
    };
}

history_suite!(
    C01,
    "C01",
    "random palettes of component groups (every size 1-14, every order of small sets, extreme layouts) and random histories of create/destroy/remove/add/remove-component/write calls against a map model; non-trivial: the history moves an entity between component sets or removes one, with at least two entities observed",
    Mix { churn: 1, iterw: 1, exactw: 0, pred: false, ..Mix::BASE },
    Oracles { values: true, ..Default::default() },
    |ctx| ctx.get("creations") >= 2
        && ctx.get("components added") + ctx.get("components removed") + ctx.get("destructions") + ctx.get("entities removed by value") > 0
);

history_suite!(
    C02,
    "C02",
    "random histories with many destroyed, forged and invalid handles and slot reuse past 256 versions; non-trivial: a slot was reused and a handle that is not live was tried",
    Mix { create: 14, destroy: 14, remove: 8, churn: 7, march: 8, probe: 8, bad: 35, set: 3, iterw: 0, exactw: 0, clear: 2, pred: false, kinds: [30, 20, 8, 40, 0, 3], ..Mix::BASE },
    Oracles { handles: true, ..Default::default() },
    |ctx| ctx.get("refused: dead handle") + ctx.get("dead handles queried") > 0
        && ctx.get("creations") + ctx.get("slot reuses") > 1
);

history_suite!(
    C03,
    "C03",
    "random histories over types with drop glue, heap-owning types, zero-sized and plain types, with a ledger of every live value; non-trivial: values moved between sets, were handed back or destroyed, and some were live when the registry was dropped",
    Mix { create: 12, many: 6, invalid: 25, bad: 18, ..Mix::BASE },
    Oracles { ledger: true, ..Default::default() },
    |ctx| ctx.get("live at teardown") > 0
        && ctx.get("components added") + ctx.get("components removed") + ctx.get("destructions") + ctx.get("entities removed by value") > 0
);

history_suite!(
    C04,
    "C04",
    "random histories spreading entities over many component sets, then all four variants of matching iteration for every group of the palette; non-trivial: rows of at least two component sets were iterated",
    Mix { spread: 8, add: 18, many: 6, churn: 0, probe: 0, set: 1, exactw: 0, iterw: 3, pred: false, ..Mix::BASE },
    Oracles { iter: true, addr: false, ..Default::default() },
    |ctx| ctx.get("rows iterated") > 0 && ctx.get("component sets seen") >= 2
);

history_suite!(
    C06,
    "C06",
    "random histories in which a third of the calls write through one of the mutable paths (component, tuple, matching, filtered, exact), every value re-read through per-entity queries and iteration, mutable references checked for overlap; non-trivial: a write was followed by a move or by another entity's write",
    Mix { set: 22, iterw: 10, exactw: 6, spread: 3, churn: 0, probe: 0, many: 4, ..Mix::BASE },
    Oracles { values: true, iter: true, exact: true, addr: true, ..Default::default() },
    |ctx| ctx.get("single writes") + ctx.get("tuple writes") + ctx.get("values written by iteration") > 0
        && ctx.get("creations") >= 2
);

history_suite!(
    C07,
    "C07",
    "random histories rich in calls that must be refused (dead handles, present or absent components, last component, a 15th component, wrong groups, invalid groups); a snapshot of the registry is compared around each; non-trivial: a call was refused while entities were live",
    Mix { probe: 16, bad: 35, invalid: 60, remove: 12, add: 16, del: 14, kinds: [25, 25, 35, 15, 1, 3], many: 3, churn: 0, huge: false, pred: false, iterw: 0, exactw: 0, ..Mix::BASE },
    Oracles { refuse: true, ..Default::default() },
    |ctx| ctx.labels.keys().any(|k| k.starts_with("refus")) && ctx.get("creations") > 0
);

history_suite!(
    C24,
    "C24",
    "random histories spreading entities over component sets, and random predicates over component sets (membership, lengths, subset and exclusion tests, boolean combinations) in all four variants; non-trivial: a predicate was shown at least two sets and rows were yielded",
    Mix { spread: 8, add: 18, iterw: 8, many: 4, churn: 0, probe: 0, set: 1, exactw: 0, ..Mix::BASE },
    Oracles { filter: true, ..Default::default() },
    |ctx| ctx.get("rows iterated") > 0 && ctx.get("sets shown to predicates") >= 2
);

history_suite!(
    C21,
    "C21",
    "random histories whose palettes contain groups repeating a component type (2 to 14 positions), tried with every registry call on live entities that have all their components; non-trivial: such a group was consulted on a live entity",
    Mix { invalid: 100, bad: 10, probe: 8, create: 20, remove: 14, set: 12, iterw: 8, exactw: 6, spread: 4, huge: false, ..Mix::BASE },
    Oracles { invalid: true, ledger: true, refuse: true, values: true, ..Default::default() },
    |ctx| ctx.get("refused: invalid group") + ctx.get("refused: entity removal") > 0 && ctx.get("creations") > 0
);

history_suite!(
    C05,
    "C05",
    "random histories in which entities reach one component set by different routes (creation through any tuple order, adding and removing components in any order with detours), then exact iteration through every tuple order of each set and removal through other orders; non-trivial: a set was reached by a route and exact iteration yielded rows",
    Mix { build: 16, create: 16, remove: 10, add: 8, del: 8, many: 2, churn: 0, probe: 1, set: 1, spread: 1, iterw: 0, exactw: 3, pred: false, huge: false, invalid: 4, kinds: [50, 20, 14, 8, 2, 12], ops: (1, 40), ..Mix::BASE },
    Oracles { values: true, exact: true, iter: true, ..Default::default() },
    |ctx| ctx.get("sets reached by a route") > 0 && ctx.get("rows iterated exactly") > 0
);

/// Different component sets with one identifier.
pub struct C11;
impl Suite for C11 {
    const NAME: &'static str = "C11";
    const RULE: &'static str = "histories that bring entities to different component sets with the same identifier (found by searching all subsets of the harness's types, plus a set whose hash is the reserved value), by creation and by adding/removing components, mixed with other calls; values, matching, filtered and exact iteration compared with a model; non-trivial: two sets with the same identifier, or the set with the reserved hash, both existed";
    type Case = WorldCase;
    fn strategy(_t: Tier) -> BoxedStrategy<WorldCase> {
        let m = Mix {
            huge: false,
            churn: 0,
            spread: 0,
            invalid: 2,
            kinds: [10, 10, 10, 10, 0, 60],
            ..Mix::BASE
        };
        let pair = proptest::sample::select(crate::collide::pairs().as_slice());
        let block = (
            proptest::collection::vec(pair, 1..3),
            proptest::collection::vec((any::<bool>(), any::<u32>(), any::<u8>()), 2..10),
        );
        (palette(m), block, proptest::collection::vec(op(m), 0..20), any::<u32>())
            .prop_map(|((mut groups, mut extra), (pairs, builds), ops, salt)| {
                let mut all = Vec::new();
                for (i, (side, salt, k)) in builds.into_iter().enumerate() {
                    let (a, b) = pairs[i % pairs.len()];
                    all.push(Op::Build { mask: if side { a } else { b }, salt });
                    if k & 3 == 0 {
                        // one step off the set and back
                        let t = bits(a ^ b).nth(k as usize % (a ^ b).count_ones() as usize).unwrap();
                        extra.push(t as u8);
                    }
                }
                // the groups that tell the sets apart
                for (a, b) in &pairs {
                    let d: Vec<usize> = bits(a ^ b).collect();
                    for (i, t) in d.iter().enumerate() {
                        if (salt as usize + i) % 2 == 0 {
                            groups.push(single_of(*t) as u16);
                        }
                    }
                    for m in [a, b] {
                        if let Some(l) = tables().by_mask.get(m) {
                            groups.push(l[salt as usize % l.len()] as u16);
                        }
                    }
                }
                // interleave
                let n = all.len().max(1);
                for (i, o) in ops.into_iter().enumerate() {
                    let at = (i * 2654435761usize + salt as usize) % (n + i);
                    all.insert(at.min(all.len()), o);
                }
                WorldCase { groups, extra, ops: all }
            })
            .boxed()
    }
    fn run(c: &WorldCase, ctx: &mut Ctx) -> Result<(), String> {
        let o = Oracles {
            values: true,
            iter: true,
            exact: true,
            filter: true,
            ..Default::default()
        };
        let sets = run_world_sets(c, o, ctx)?;
        let mut seen = std::collections::HashMap::new();
        for m in &sets {
            if *m == 0b1111 << 26 {
                ctx.label("the set with the reserved hash existed");
                ctx.nontrivial = true;
            }
            if let Some(id) = crate::collide::crate_id(*m) {
                if seen.insert(id, *m).is_some() {
                    ctx.label("two sets with the same identifier existed");
                    ctx.nontrivial = true;
                }
            }
        }
        Ok(())
    }
}

/// Runs a history twice and compares the allocator's books.
pub struct C09;
impl Suite for C09 {
    const NAME: &'static str = "C09";
    const RULE: &'static str = "random histories over layouts from 0 to 65,535 bytes and alignments 1 to 32,768, under an allocator that checks layouts, redzones, use after release and zero-sized requests, with all value addresses checked for alignment and overlap; each history is run twice to compare what is left allocated; non-trivial: storage grew, or values of two layouts were stored";
    type Case = WorldCase;
    const BATCH: usize = 16;
    fn strategy(_t: Tier) -> BoxedStrategy<WorldCase> {
        world_case(Mix {
            many: 9,
            kinds: [20, 30, 20, 10, 20, 3],
            ops: (1, 40),
            spread: 3,
            pred: false,
            ..Mix::BASE
        })
    }
    fn run(c: &WorldCase, ctx: &mut Ctx) -> Result<(), String> {
        let o = Oracles { addr: true, alloc: true, ..Default::default() };
        run_world(c, o, ctx)?;
        // The first run may have filled caches of the harness; what the second leaves is exact.
        let n = second_run_leak(c, o)?;
        ensure!(
            n == 0,
            "{n} blocks obtained during the history were not released when the registry was dropped"
        );
        ctx.nontrivial = ctx.get("populations beyond 128 of one set") > 0 || ctx.get("component sets seen") >= 2;
        Ok(())
    }
}

fn second_run_leak(c: &WorldCase, o: Oracles) -> Result<i64, String> {
    if cfg!(any(miri, feature = "asan")) {
        return Ok(0);
    }
    ledger::reset();
    let b = guard::live_blocks();
    {
        let mut scratch = Ctx::default();
        run_world(c, o, &mut scratch)?;
    }
    ledger::reset();
    Ok(guard::live_blocks() - b)
}

/// Destructors that panic, during destroy and at teardown.
pub struct C10;
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct PanicCase {
    pub world: WorldCase,
    /// which live value panics at teardown, if any
    pub last: Option<(u16, u8)>,
}
impl Suite for C10 {
    const NAME: &'static str = "C10";
    const RULE: &'static str = "random histories in which chosen component destructors panic (any position of the entity's set) while an entity is destroyed, and at most one while the registry is dropped; a ledger detects any second drop; non-trivial: a destructor panicked during a destroy or at teardown";
    type Case = PanicCase;
    fn strategy(_t: Tier) -> BoxedStrategy<PanicCase> {
        let m = Mix {
            panic: 14,
            churn: 0,
            huge: false,
            kinds: [30, 30, 25, 15, 2, 3],
            iterw: 1,
            ..Mix::BASE
        };
        (world_case(m), proptest::option::of((any::<u16>(), any::<u8>())))
            .prop_map(|(world, last)| PanicCase { world, last })
            .boxed()
    }
    fn run(c: &PanicCase, ctx: &mut Ctx) -> Result<(), String> {
        let o = Oracles {
            values: true,
            handles: true,
            ledger: true,
            iter: true,
            exact: true,
            ..Default::default()
        };
        let mut w = World::new(&c.world.groups, &c.world.extra, o);
        for (i, op) in c.world.ops.iter().enumerate() {
            w.step(op, ctx).map_err(|e| format!("op {i} {op:?}: {e}"))?;
        }
        w.observe(ctx, None).map_err(|e| format!("at the end: {e}"))?;
        let mut planned = None;
        if let (Some((i, t)), false) = (c.last, w.live.is_empty()) {
            let row = w.m[&w.live[i as usize % w.live.len()]];
            let ts: Vec<usize> = bits(row.mask).filter(|t| TYPES[*t].tracked).collect();
            if !ts.is_empty() {
                let t = ts[t as usize % ts.len()];
                ledger::plan_panic(t, row.k[t]);
                planned = Some(t);
            }
        }
        if planned.is_none() {
            let r = w.finish(ctx);
            ctx.nontrivial = ctx.get("destructor panics during destroy") > 0;
            return r;
        }
        let reg = std::mem::take(&mut w.reg);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(reg)));
        ledger::clear_plan();
        ensure!(
            !ledger::fired().is_empty(),
            "dropping the registry did not drop a live entity's component"
        );
        ledger::forget_fired();
        if r.is_err() {
            let m = last_panic();
            ensure!(
                m.contains("planned destructor panic"),
                "dropping the registry with a panicking destructor panicked otherwise: {m}"
            );
            ctx.label("destructor panics at teardown");
        }
        if let Some(p) = ledger::problems() {
            return Err(format!("at teardown: {p}"));
        }
        ctx.nontrivial = true;
        Ok(())
    }
}

/// Memory that is refused.
pub struct C25;
impl Suite for C25 {
    const NAME: &'static str = "C25";
    const RULE: &'static str = "random histories with calls (creating, adding and removing components, into new, roomy and full storage) during which the nth request for memory, or every one from the nth on, is refused by the allocator; a panic is caught, then everything is compared with the model, and the history goes on; the allocator's and the values' books are checked; non-trivial: a request was refused and the registry was used afterwards";
    type Case = WorldCase;
    const BATCH: usize = 1;
    fn strategy(_t: Tier) -> BoxedStrategy<WorldCase> {
        world_case(Mix {
            starve: 24,
            huge: false,
            churn: 0,
            march: 1,
            probe: 0,
            iterw: 1,
            many: 2,
            ops: (1, 40),
            kinds: [30, 30, 20, 15, 6, 3],
            ..Mix::BASE
        })
    }
    fn run(c: &WorldCase, ctx: &mut Ctx) -> Result<(), String> {
        let o = Oracles {
            values: true,
            handles: true,
            iter: true,
            exact: true,
            ledger: true,
            alloc: true,
            addr: true,
            ..Default::default()
        };
        run_world(c, o, ctx)?;
        ctx.nontrivial = ctx.get("memory refused") > 0;
        let n = second_run_leak(c, o)?;
        ensure!(n == 0, "{n} blocks obtained during the history were not released when the registry was dropped");
        Ok(())
    }
}

history_suite!(
    C23,
    "C23",
    "small random histories over every kind of call and layout, run under Miri and under AddressSanitizer, results compared with a model as well; non-trivial: values moved between component sets or rows, or were written through mutable iteration",
    Mix { tiny: true, huge: false, create: 18, many: 1, spread: 1, churn: 1, clear: 1, iterw: 7, exactw: 5, set: 8, add: 16, del: 14, remove: 10, destroy: 10, invalid: 15, ops: (3, 13), kinds: [34, 44, 5, 16, 0, 0], ..Mix::BASE },
    Oracles { values: true, handles: true, iter: true, exact: true, filter: true, invalid: true, ledger: true, sparse: true, ..Default::default() },
    |ctx| ctx.get("components added") + ctx.get("components removed") + ctx.get("destructions") + ctx.get("entities removed by value") > 0
);
