//! Ledger of live component values: every tracked value is entered when made and struck off when
//! dropped. Dropping something that is not on the ledger (double drop, garbage) is recorded.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Mutex;

use crate::comps::NT;

#[derive(Default)]
pub struct Ledger {
    alive: Vec<HashMap<u32, i32>>,
    total: Vec<i64>,
    problems: Vec<String>,
    panic_plan: HashSet<(usize, u32)>,
    pub panics_fired: Vec<(usize, u32)>,
    pub drops: u64,
}

static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let mut g = match LEDGER.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let l = g.get_or_insert_with(|| Ledger {
        alive: vec![HashMap::new(); NT],
        total: vec![0; NT],
        ..Default::default()
    });
    f(l)
}

/// Forget everything (start of a case).
pub fn reset() {
    let mut g = match LEDGER.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    *g = None;
}

pub fn born(ix: usize, key: u32) {
    with(|l| {
        *l.alive[ix].entry(key).or_insert(0) += 1;
        l.total[ix] += 1;
    })
}

/// Called at the start of a component's drop. Returns true if this destructor is to panic.
pub fn died(ix: usize, key: Result<u32, String>) -> bool {
    with(|l| {
        l.drops += 1;
        match key {
            Err(e) => {
                if l.problems.len() < 8 {
                    l.problems
                        .push(format!("dropped a value of type #{ix} that is not intact: {e}"));
                }
                l.total[ix] -= 1;
                false
            }
            Ok(k) => {
                let n = l.alive[ix].entry(k).or_insert(0);
                if *n <= 0 {
                    if l.problems.len() < 8 {
                        l.problems.push(format!(
                            "value #{k} of type #{ix} dropped although it is not alive (double drop)"
                        ));
                    }
                } else {
                    *n -= 1;
                    if *n == 0 {
                        l.alive[ix].remove(&k);
                    }
                    l.total[ix] -= 1;
                }
                if !l.panic_plan.is_empty()
                    && !std::thread::panicking()
                    && l.panic_plan.remove(&(ix, k))
                {
                    l.panics_fired.push((ix, k));
                    return true;
                }
                false
            }
        }
    })
}

pub fn problem(s: String) {
    with(|l| {
        if l.problems.len() < 8 {
            l.problems.push(s)
        }
    })
}

pub fn problems() -> Option<String> {
    with(|l| {
        if l.problems.is_empty() {
            None
        } else {
            Some(l.problems.join("; "))
        }
    })
}

pub fn plan_panic(ix: usize, key: u32) {
    with(|l| {
        l.panic_plan.insert((ix, key));
    })
}
pub fn clear_plan() {
    with(|l| l.panic_plan.clear())
}
pub fn fired() -> Vec<(usize, u32)> {
    with(|l| l.panics_fired.clone())
}
pub fn forget_fired() {
    with(|l| l.panics_fired.clear())
}
pub fn drops() -> u64 {
    with(|l| l.drops)
}

/// Live counts per type.
pub fn totals() -> Vec<i64> {
    with(|l| l.total.clone())
}

/// The multiset of live values.
pub fn alive() -> BTreeMap<(usize, u32), i32> {
    with(|l| {
        let mut m = BTreeMap::new();
        for (ix, h) in l.alive.iter().enumerate() {
            for (k, n) in h {
                if *n != 0 {
                    m.insert((ix, *k), *n);
                }
            }
        }
        m
    })
}
