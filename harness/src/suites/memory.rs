//! C27: the memory of a registry follows what it stores.
use crate::guard;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::*;
use std::mem::size_of;

trait Plain: Component {
    const BIT: usize;
    fn make(v: u64) -> Self;
}
macro_rules! plain {
    ($($t:ident $bit:literal $(#[$m:meta])* [$e:ty; $n:literal]),* $(,)?) => {$(
        $(#[$m])*
        pub struct $t([$e; $n]);
        impl Component for $t { const NAME: &'static str = concat!("Mem", stringify!($t)); }
        impl Plain for $t {
            const BIT: usize = $bit;
            fn make(v: u64) -> Self { $t([v as $e; $n]) }
        }
    )*
    const SIZES: [usize; 6] = [$(size_of::<$t>()),*];
    };
}
plain! { A 0 [u8; 1], B 1 [u64; 1], C 2 [u32; 6], D 3 [u16; 150], Z 4 [u8; 0], W 5 #[repr(align(64))] [u32; 5] }

struct Set {
    mask: usize,
    create: fn(&mut Registry, u64) -> Option<Entity>,
    take: fn(&mut Registry, Entity) -> bool,
    read: fn(&mut Registry) -> usize,
}
macro_rules! sets {
    ($([$($t:ident)*])*) => { [$(Set {
        mask: 0 $(| 1 << $t::BIT)*,
        create: |r, v| r.create_entity(sets!(@make v $($t)*)).ok(),
        take: |r, e| r.remove_entity::<sets!(@ty $($t)*)>(e).is_some(),
        read: |r| r.iter_entity_components_matching::<sets!(@ty $($t)*)>().map(|(e, _)| e.len()).sum::<usize>()
            + r.iter_components_matching_mut::<sets!(@ty $($t)*)>().count(),
    }),*] };
    (@make $v:ident $t:ident) => { $t::make($v) };
    (@make $v:ident $($t:ident)*) => { ($($t::make($v)),*) };
    (@ty $t:ident) => { $t };
    (@ty $($t:ident)*) => { ($($t),*) };
}
const NSETS: usize = 14;
static SETS: [Set; NSETS] = sets! {
    [A] [B] [C] [D] [Z] [W] [A B] [C B A] [Z A] [D W] [B Z W] [A C D Z] [W D C B A] [A B C D Z W]
};

struct One {
    add: fn(&mut Registry, Entity, u64) -> bool,
    del: fn(&mut Registry, Entity) -> bool,
    /// Uses the component by its handle.
    touch: fn(&mut Registry, Entity) -> bool,
}
macro_rules! ones {
    ($($t:ident)*) => { [$(One {
        add: |r, e, v| r.add_component(e, $t::make(v)).is_ok(),
        del: |r, e| r.remove_component::<$t>(e).is_ok(),
        touch: |r, e| r.get_component::<$t>(e).is_some() & r.get_component_mut::<$t>(e).is_some() & r.has_component::<$t>(e),
    }),*] };
}
static ONES: [One; 6] = ones!(A B C D Z W);

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// That many entities of a set.
    Create { set: u8, n: u32 },
    /// A part (of 256) of all entities, from the front, the back, or spread.
    Destroy { part: u8, order: u8 },
    /// `rounds` times: `n` entities are created and destroyed again, or removed by value.
    Cycle { set: u8, n: u16, rounds: u16, order: u8, take: bool },
    /// `rounds` times: a component is added to and removed from some entities.
    Flip { one: u8, n: u16, rounds: u16 },
    /// A component is removed from (or added to) some entities for good.
    Move { one: u8, n: u16, add: bool },
    /// Calls that are refused: dead handles, components twice, the only component, groups that repeat one.
    Refuse { one: u8, n: u16 },
    /// Queries and iterations.
    Read { set: u8, n: u16 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct MemCase {
    pub ops: Vec<Op>,
}

/// One slot per entity alive at once is enough.
const FRESH: &str = "a creation uses a new slot although there are free ones";
const MOST: usize = 120_000;

/// What the population has been so far.
struct Peaks {
    live: [usize; 64],
    peak: [usize; 64],
    total: usize,
    entities: usize,
    calls: usize,
}
impl Peaks {
    fn enter(&mut self, mask: usize) {
        self.live[mask] += 1;
        self.peak[mask] = self.peak[mask].max(self.live[mask]);
        self.total += 1;
        self.entities = self.entities.max(self.total);
    }
    fn leave(&mut self, mask: usize) {
        self.live[mask] -= 1;
        self.total -= 1;
    }
    /// The most a registry may hold. What it needs is about half of this.
    fn bound(&self) -> usize {
        let mut sum = 128 << 10;
        for m in 1..64 {
            if self.peak[m] > 0 {
                let row: usize = (0..6).filter(|i| m >> i & 1 == 1).map(|i| SIZES[i]).sum::<usize>() + size_of::<Entity>();
                sum += (4 * self.peak[m]).max(2 * DEFAULT_ARCHETYPE_ALLOCATION_SIZE as usize) * row;
                sum += 8 * size_of::<Archetype>() + 1024;
            }
        }
        sum + 64 * self.entities.max(64)
    }
}

fn world(c: &MemCase, ctx: &mut Ctx) -> Result<(), String> {
    let mut h: Vec<(Entity, usize)> = Vec::with_capacity(MOST + 1024);
    let mut dead: Vec<Entity> = Vec::with_capacity(64);
    let mut temp: Vec<Entity> = Vec::with_capacity(1024);
    let mut p = Peaks { live: [0; 64], peak: [0; 64], total: 0, entities: 0, calls: 0 };
    let (held0, asked0) = (guard::live_bytes(), guard::requested());
    let mut r = Registry::default();
    let mut v = 0u64;
    for (k, op) in c.ops.iter().enumerate() {
        // (nothing in here may request memory but the registry)
        let mut bad: Option<&'static str> = None;
        match op {
            Op::Create { set, n } => {
                let s = &SETS[*set as usize % NSETS];
                for _ in 0..(*n as usize).min(MOST - h.len()) {
                    v += 1;
                    p.calls += 1;
                    match (s.create)(&mut r, v) {
                        Some(e) => {
                            h.push((e, s.mask));
                            p.enter(s.mask);
                            if e.index() as usize >= p.entities {
                                bad = Some(FRESH);
                            }
                        }
                        None => bad = Some("a creation is refused"),
                    }
                }
            }
            Op::Destroy { part, order } => {
                let n = h.len() * (*part as usize + 1) / 256;
                for i in 0..n {
                    let at = match order % 3 {
                        0 => 0,
                        1 => h.len() - 1,
                        _ => i * 7919 % h.len(),
                    };
                    let (e, m) = h.swap_remove(at);
                    p.calls += 1;
                    if !r.destroy_entity(e) {
                        bad = Some("a destruction is refused");
                    }
                    p.leave(m);
                    if dead.len() < 64 {
                        dead.push(e);
                    } else {
                        dead[i % 64] = e;
                    }
                }
            }
            Op::Cycle { set, n, rounds, order, take } => {
                let s = &SETS[*set as usize % NSETS];
                for _ in 0..*rounds {
                    temp.clear();
                    for _ in 0..(*n % 400 + 1) {
                        v += 1;
                        match (s.create)(&mut r, v) {
                            Some(e) => {
                                temp.push(e);
                                p.enter(s.mask);
                                if e.index() as usize >= p.entities {
                                    bad = Some(FRESH);
                                }
                            }
                            None => bad = Some("a creation is refused"),
                        }
                    }
                    if order % 2 == 0 {
                        temp.reverse();
                    }
                    for &e in &temp {
                        p.calls += 2;
                        if !(if *take { (s.take)(&mut r, e) } else { r.destroy_entity(e) }) {
                            bad = Some("a destruction or removal is refused");
                        }
                        p.leave(s.mask);
                    }
                }
            }
            Op::Flip { one, n, rounds } => {
                let (t, o) = (*one as usize % 6, &ONES[*one as usize % 6]);
                for _ in 0..*rounds {
                    for &(e, m) in h.iter().filter(|x| x.1 >> t & 1 == 0).take(*n as usize % 300 + 1) {
                        v += 1;
                        p.calls += 2;
                        p.leave(m);
                        p.enter(m | 1 << t);
                        if !((o.add)(&mut r, e, v) && (o.del)(&mut r, e)) {
                            bad = Some("an addition or removal is refused");
                        }
                        p.leave(m | 1 << t);
                        p.enter(m);
                    }
                }
            }
            Op::Move { one, n, add } => {
                let (t, o) = (*one as usize % 6, &ONES[*one as usize % 6]);
                for (e, m) in h.iter_mut().filter(|x| (x.1 >> t & 1 == 0) == *add && x.1 != 1 << t).take(*n as usize) {
                    v += 1;
                    p.calls += 1;
                    p.leave(*m);
                    *m ^= 1 << t;
                    p.enter(*m);
                    if !(if *add { (o.add)(&mut r, *e, v) } else { (o.del)(&mut r, *e) }) {
                        bad = Some("an addition or removal is refused");
                    }
                }
            }
            Op::Refuse { one, n } => {
                let (t, o) = (*one as usize % 6, &ONES[*one as usize % 6]);
                for i in 0..*n as usize {
                    v += 1;
                    p.calls += 1;
                    let mut done = r.create_entity((A::make(v), B::make(v), A::make(v))).is_ok();
                    done |= r.destroy_entity(Entity::INVALID);
                    if let Some(&(e, m)) = h.get(i % h.len().max(1)) {
                        p.calls += 1;
                        if m >> t & 1 == 1 {
                            done |= (o.add)(&mut r, e, v);
                            if m == 1 << t {
                                done |= (o.del)(&mut r, e);
                            }
                        } else {
                            done |= (o.del)(&mut r, e);
                        }
                    }
                    if done {
                        bad = Some("a call is carried out that must be refused");
                    }
                }
                // handles that are dead, unless their slots came round to the same version
                for &e in dead.iter().filter(|e| !h.iter().any(|x| x.0 == **e)).take(8) {
                    v += 1;
                    p.calls += 3;
                    if r.destroy_entity(e) | (o.add)(&mut r, e, v) | (o.del)(&mut r, e) {
                        bad = Some("a dead handle is accepted");
                    }
                }
            }
            Op::Read { set, n } => {
                let s = &SETS[*set as usize % NSETS];
                let want = |p: &Peaks| (1..64).filter(|m| m & s.mask == s.mask).map(|m| p.live[m]).sum::<usize>();
                for i in 0..*n as usize % 64 {
                    p.calls += 3;
                    if (s.read)(&mut r) < want(&p) || r.iter_entities().count() != p.total {
                        bad = Some("an iteration misses entities");
                    }
                    if let Some(&(e, m)) = h.get(i * 31 % h.len().max(1)) {
                        let t = i % 6;
                        p.calls += 3;
                        if (ONES[t].touch)(&mut r, e) != (m >> t & 1 == 1) {
                            bad = Some("a query is wrong");
                        }
                    }
                }
            }
        }
        let held = guard::live_bytes() - held0;
        let asked = guard::requested() - asked0;
        if let Some(b) = bad {
            return Err(format!("op {k}: {b}"));
        }
        let bound = p.bound();
        if held > bound as i64 {
            return Err(format!("op {k}: the registry holds {held} bytes; all it has held at once since it was made never needed more than {bound}"));
        }
        let most = 4 * bound + 256 * p.calls;
        if asked > most as u64 {
            return Err(format!("op {k}: the registry has asked for {asked} bytes in {} calls; {most} are more than enough", p.calls));
        }
    }
    drop(r);
    let left = guard::live_bytes() - held0;
    if left != 0 {
        return Err(format!("{left} bytes are left when the registry is gone"));
    }
    ctx.count("calls", p.calls as u64);
    ctx.count("most entities", p.entities as u64);
    let grown = (1..64).filter(|&m| p.peak[m] > 4 * DEFAULT_ARCHETYPE_ALLOCATION_SIZE as usize).count();
    ctx.count("sets that grew several times", grown as u64);
    let churn = p.calls > 50 * p.entities.max(1);
    if churn {
        ctx.label("churn");
    }
    ctx.nontrivial = churn || grown > 0;
    Ok(())
}

pub struct C27;
impl Suite for C27 {
    const NAME: &'static str = "C27";
    const RULE: &'static str = "random histories over six plain types (0 to 300 bytes, one aligned to 64) in fourteen groups, all component sets reachable by additions: up to 120,000 entities at once, thousands of rounds of creation and destruction, addition and removal, refused calls and reads; what the registry holds is compared after every operation, and what it has asked for in all, with what its largest populations needed; non-trivial: more than fifty times as many calls as entities at once, or a component set that outgrew its first capacity several times";
    type Case = MemCase;
    const FILL: bool = false;
    fn strategy(t: Tier) -> BoxedStrategy<MemCase> {
        let many = if t == Tier::Thorough { 120_000u32 } else { 60_000 };
        let op = prop_oneof![
            6 => (any::<u8>(), prop_oneof![4 => 1u32..300, 3 => 100u32..3000, 1 => 3000..many]).prop_map(|(set, n)| Op::Create { set, n }),
            3 => (prop_oneof![any::<u8>(), Just(255u8)], any::<u8>()).prop_map(|(part, order)| Op::Destroy { part, order }),
            5 => (any::<u8>(), prop_oneof![0u16..4, 0u16..400, 120u16..136], 1u16..300, any::<u8>(), any::<bool>())
                .prop_map(|(set, n, rounds, order, take)| Op::Cycle { set, n, rounds: if n > 20 { rounds / 8 + 1 } else { rounds * 8 }, order, take }),
            4 => (any::<u8>(), prop_oneof![0u16..4, 0u16..300, 120u16..136], 1u16..200)
                .prop_map(|(one, n, rounds)| Op::Flip { one, n, rounds: if n > 20 { rounds / 8 + 1 } else { rounds * 4 } }),
            4 => (any::<u8>(), prop_oneof![0u16..200, 0u16..20_000], any::<bool>()).prop_map(|(one, n, add)| Op::Move { one, n, add }),
            2 => (any::<u8>(), prop_oneof![0u16..20, 0u16..3000]).prop_map(|(one, n)| Op::Refuse { one, n }),
            2 => (any::<u8>(), any::<u16>()).prop_map(|(set, n)| Op::Read { set, n }),
        ];
        proptest::collection::vec(op, 3..14).prop_map(|ops| MemCase { ops }).boxed()
    }
    fn run(c: &MemCase, ctx: &mut Ctx) -> Result<(), String> {
        world(c, ctx)
    }
}
