//! Columns of several gigabytes, of which only a few rows are ever touched, and copies between
//! archetypes whose sets differ in more than one component.

use crate::ensure;
use crate::guard;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::*;
use std::collections::BTreeMap;

type R = Result<(), String>;

/// Plain data of a given size, filled with a pattern.
pub trait Plain: Component {
    const SIZE: usize;
    fn bytes(&self) -> &[u8];
    fn bytes_mut(&mut self) -> &mut [u8];
    fn empty() -> Box<Self>;
}

const PERIOD: usize = 251;

fn pattern() -> &'static [u8] {
    static P: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    P.get_or_init(|| (0..65_535 + PERIOD).map(|i| ((i % PERIOD) as u8).wrapping_mul(37) ^ 0x5A).collect())
}

fn make<T: Plain>(s: u32) -> T {
    let mut b = T::empty();
    let k = s as usize % PERIOD;
    b.bytes_mut().copy_from_slice(&pattern()[k..k + T::SIZE]);
    if T::SIZE >= 4 {
        b.bytes_mut()[..4].copy_from_slice(&s.to_le_bytes());
    }
    *b
}

fn same<T: Plain>(v: &T, s: u32, what: &str, row: u32) -> R {
    ensure!(v as *const T as usize % std::mem::align_of::<T>() == 0, "{what}: {} of row {row} is misaligned", T::NAME);
    let k = s as usize % PERIOD;
    let b = v.bytes();
    let from = if T::SIZE >= 4 { 4 } else { 0 };
    let ok = b[from..] == pattern()[k + from..k + T::SIZE] && (T::SIZE < 4 || b[..4] == s.to_le_bytes());
    ensure!(ok, "{what}: {} of row {row} is not the value #{s} that was put there", T::NAME);
    Ok(())
}

macro_rules! plain {
    ($($n:ident, $id:expr, $size:expr, $align:literal;)*) => { $(
        #[repr(C, align($align))]
        pub struct $n([u8; $size]);
        impl Component for $n {
            const NAME: &'static str = stringify!($n);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl Plain for $n {
            const SIZE: usize = $size;
            fn bytes(&self) -> &[u8] { &self.0 }
            fn bytes_mut(&mut self) -> &mut [u8] { &mut self.0 }
            fn empty() -> Box<Self> { Box::new($n([0; $size])) }
        }
    )* };
}
plain! {
    H65535, 900, 65_535, 1;
    H40000, 77, 40_000, 16;
    H65528, 5000, 65_528, 8;
    H4, 400, 4, 4;
    H24, 6000, 24, 8;
    H0, 30_000, 0, 1;
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum H {
    Write { at: u8, flip: bool },
    WriteOne { at: u8, second: bool },
    MutOne { at: u8, second: bool },
    Swap { a: u8, b: u8 },
    ToLast { at: u8 },
    SwapRemove { at: u8, flip: bool },
    SwapDrop { at: u8 },
    Push { flip: bool },
    /// take the row over into the other archetype, which holds one, both or more of the types
    Copy { at: u8, to: u8 },
    /// and back
    Back { at: u8, from: u8 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct HugeCase {
    pub kind: u8,
    /// the byte offset around which rows are used: 2^31 or 2^32
    pub far: bool,
    /// the table is grown into the region instead of made that large
    pub grow: bool,
    pub extra: u8,
    pub other: u8,
    pub ops: Vec<H>,
}

fn ent(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

struct Row {
    handle: u32,
    s: (u32, u32),
}

struct Huge<X: Plain, Y: Plain> {
    a: Archetype,
    len: u32,
    rows: BTreeMap<u32, Row>,
    _p: std::marker::PhantomData<(X, Y)>,
}

/// The archetype rows are copied to and from: its set holds X or Y or both, and others.
enum Side {
    Both,
    X,
    Y,
    Wide,
}

impl<X: Plain, Y: Plain> Huge<X, Y>
where
    (X, Y): ComponentGroup,
    (Y, X): ComponentGroup,
    X: for<'a> ComponentGroup<RefTuple<'a> = &'a X, SliceRefTuple<'a> = &'a [X], SliceMutRefTuple<'a> = &'a mut [X]>,
    Y: for<'a> ComponentGroup<RefTuple<'a> = &'a Y, SliceRefTuple<'a> = &'a [Y], SliceMutRefTuple<'a> = &'a mut [Y]>,
{
    fn check(&mut self) -> R {
        ensure!(self.a.len() == self.len, "the table has {} rows, len() answers {}", self.len, self.a.len());
        ensure!(self.a.capacity() >= self.len, "the capacity is below the length");
        let ents = self.a.entities();
        ensure!(ents.len() == self.len as usize, "entities() has {} elements", ents.len());
        for (r, w) in &self.rows {
            ensure!(ents[*r as usize].raw() == w.handle, "row {r} has the handle {:x} instead of {:x}", ents[*r as usize].raw(), w.handle);
        }
        unsafe {
            let x = self.a.get_fuzzy_slices_unchecked::<X>();
            let y = self.a.get_fuzzy_slices_unchecked::<Y>();
            ensure!(x.len() == self.len as usize && y.len() == self.len as usize, "subset slices have other lengths");
            for (r, w) in &self.rows {
                same(self.a.get_component_unchecked::<X>(*r), w.s.0, "get_component", *r)?;
                same(self.a.get_component_unchecked::<Y>(*r), w.s.1, "get_component", *r)?;
                same(&x[*r as usize], w.s.0, "subset slices", *r)?;
                same(&y[*r as usize], w.s.1, "subset slices", *r)?;
                same(self.a.get_fuzzy_components_unchecked::<X>(*r), w.s.0, "subset references", *r)?;
                same(self.a.get_fuzzy_components_unchecked::<Y>(*r), w.s.1, "subset references", *r)?;
            }
            let xm = self.a.get_fuzzy_slices_unchecked_mut::<X>();
            for (r, w) in &self.rows {
                same(&xm[*r as usize], w.s.0, "mutable subset slices", *r)?;
            }
            for (r, w) in self.rows.iter().take(2).chain(self.rows.iter().next_back()) {
                let v = std::mem::ManuallyDrop::new(Box::new(self.a.read_components_exact_unchecked::<(Y, X)>(*r)));
                let e = read_back::<X, Y>(&v, w, *r);
                drop(std::mem::ManuallyDrop::into_inner(v));
                e?;
            }
        }
        Ok(())
    }
    fn write(&mut self, r: u32, serial: &mut u32, flip: bool) {
        *serial += 3;
        let s = (*serial, *serial + 1);
        let h = serial.wrapping_mul(0x9E37_79B1);
        unsafe {
            if flip {
                self.a.write_entity_unchecked(r, ent(h), (make::<Y>(s.1), make::<X>(s.0)));
            } else {
                self.a.write_entity_unchecked(r, ent(h), (make::<X>(s.0), make::<Y>(s.1)));
            }
        }
        self.rows.insert(r, Row { handle: h, s });
    }
    fn moved(&mut self, r: u32) {
        // the last row takes the place of r
        let last = self.rows.remove(&(self.len - 1));
        if r != self.len - 1 {
            self.rows.remove(&r);
            if let Some(l) = last {
                self.rows.insert(r, l);
            }
        }
        self.len -= 1;
    }
}

fn read_back<X: Plain, Y: Plain>(v: &(Y, X), w: &Row, r: u32) -> R {
    same(&v.1, w.s.0, "read_components_exact", r)?;
    same(&v.0, w.s.1, "read_components_exact", r)
}

fn run2<X: Plain, Y: Plain>(c: &HugeCase, ctx: &mut Ctx) -> R
where
    (X, Y): ComponentGroup,
    (Y, X): ComponentGroup,
    (H24, Y, X, H0): ComponentGroup,
    X: for<'a> ComponentGroup<RefTuple<'a> = &'a X, SliceRefTuple<'a> = &'a [X], SliceMutRefTuple<'a> = &'a mut [X]>,
    Y: for<'a> ComponentGroup<RefTuple<'a> = &'a Y, SliceRefTuple<'a> = &'a [Y], SliceMutRefTuple<'a> = &'a mut [Y]>,
{
    let size = X::SIZE.max(Y::SIZE) as u64;
    let edge = ((1u64 << if c.far { 32 } else { 31 }) / size) as u32;
    let len = edge + 4 + c.extra as u32 % 40;
    let cap = if c.grow { edge / 2 + c.extra as u32 } else { len + c.extra as u32 % 3 };
    let mut t = Huge::<X, Y> {
        a: Archetype::with_capacity(<(X, Y) as ComponentGroup>::DESCRIPTOR.archetype(), cap),
        len: 0,
        rows: BTreeMap::new(),
        _p: Default::default(),
    };
    ensure!(t.a.capacity() == cap, "an archetype made with capacity {cap} has capacity {}", t.a.capacity());
    let mut serial = 0u32;
    // rows that are used: both ends, around the edge, around half of it, and where offsets cut to 32
    // bits would end up
    let mut hot: Vec<u32> = vec![0, 1, 2, 3, edge / 2, edge - 1, edge, edge + 1, edge + 2, 4 + c.extra as u32];
    hot.sort();
    hot.dedup();
    let mut pre = vec![0, 1, 2, 3, cap - 1];
    pre.retain(|r| *r < len);
    for r in 0..len {
        let got = unsafe { t.a.push_uninitialized_entity() };
        ensure!(got == r, "push answers row {got}, the table has {r} rows");
        t.len += 1;
        if pre.contains(&r) {
            // written before the growth
            t.write(r, &mut serial, r % 2 == 0);
        }
    }
    if c.grow {
        ensure!(t.a.capacity() >= len && t.a.capacity() as u64 <= MAX_ENTITIES_PER_ARCHETYPE as u64, "capacity {} after growth", t.a.capacity());
        ctx.count("columns grown past the edge", 1);
    }
    t.check().map_err(|e| format!("after {len} pushes: {e}"))?;
    for r in hot.clone() {
        if !t.rows.contains_key(&r) {
            t.write(r, &mut serial, r % 2 == 1);
        }
    }
    hot.push(u32::MAX); // stands for the last row
    t.check()?;
    let side = [Side::Both, Side::X, Side::Y, Side::Wide][c.other as usize % 4].descriptor::<X, Y>();
    let mut o = Archetype::with_capacity(&side.1, 3);
    let mut orows: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    unsafe {
        for _ in 0..3 {
            o.push_uninitialized_entity();
        }
    }
    let mut far = 0u64;
    for (i, op) in c.ops.iter().enumerate() {
        let wrap = |e: String| format!("op {i} {op:?}: {e}");
        let len = t.len;
        let pick = |k: u8| {
            let r = hot[k as usize % hot.len()];
            if r < len { r } else { len - 1 }
        };
        if t.len < edge {
            break;
        }
        match op {
            H::Write { at, flip } => {
                let r = pick(*at);
                t.write(r, &mut serial, *flip);
            }
            H::WriteOne { at, second } | H::MutOne { at, second } => {
                let r = pick(*at);
                if let Some(row) = t.rows.get_mut(&r) {
                    serial += 1;
                    unsafe {
                        match (op, *second) {
                            (H::WriteOne { .. }, true) => t.a.write_single_component_unchecked(r, make::<Y>(serial)),
                            (H::WriteOne { .. }, false) => t.a.write_single_component_unchecked(r, make::<X>(serial)),
                            (_, true) => *t.a.get_component_unchecked_mut::<Y>(r) = make::<Y>(serial),
                            (_, false) => *t.a.get_component_unchecked_mut::<X>(r) = make::<X>(serial),
                        }
                    }
                    *(if *second { &mut row.s.1 } else { &mut row.s.0 }) = serial;
                }
            }
            H::Swap { a, b } => {
                let (a, b) = (pick(*a), pick(*b));
                if a != b {
                    unsafe { t.a.swap_entities(a, b) };
                    let (x, y) = (t.rows.remove(&a), t.rows.remove(&b));
                    x.map(|x| t.rows.insert(b, x));
                    y.map(|y| t.rows.insert(a, y));
                    far += (a.max(b) >= edge - 1) as u64;
                }
            }
            H::ToLast { at } => {
                let r = pick(*at);
                let moved = unsafe { t.a.swap_to_last_unchecked(r) };
                ensure!(moved == (r != t.len - 1), "op {i} {op:?}: answers {moved}");
                if moved {
                    let (x, y) = (t.rows.remove(&r), t.rows.remove(&(t.len - 1)));
                    x.map(|x| t.rows.insert(t.len - 1, x));
                    y.map(|y| t.rows.insert(r, y));
                    far += 1;
                }
            }
            H::SwapRemove { at, flip } => {
                let r = pick(*at);
                let want = t.rows.remove(&r);
                let e;
                unsafe {
                    if *flip {
                        let v = Box::new(t.a.swap_remove_unchecked::<(Y, X)>(r));
                        ensure!(v.1 == (r != len - 1), "op {i} {op:?}: answers {}", v.1);
                        e = want.as_ref().map_or(Ok(()), |w| read_back::<X, Y>(&v.0, w, r));
                    } else {
                        let v = Box::new(t.a.swap_remove_unchecked::<(X, Y)>(r));
                        ensure!(v.1 == (r != len - 1), "op {i} {op:?}: answers {}", v.1);
                        e = want.as_ref().map_or(Ok(()), |w| {
                            same(&v.0 .0, w.s.0, "swap_remove", r)?;
                            same(&v.0 .1, w.s.1, "swap_remove", r)
                        });
                    }
                }
                e.map_err(wrap)?;
                t.moved(r);
                far += 1;
            }
            H::SwapDrop { at } => {
                let r = pick(*at);
                let moved = unsafe { t.a.swap_drop_unchecked(r) };
                ensure!(moved == (r != len - 1), "op {i} {op:?}: answers {moved}");
                t.moved(r);
                far += 1;
            }
            H::Push { flip } => {
                serial += 3;
                let s = (serial, serial + 1);
                let h = serial.wrapping_mul(0x9E37_79B1);
                if t.len < t.a.capacity() {
                    let r = unsafe {
                        if *flip {
                            t.a.push_entity_unchecked(ent(h), (make::<Y>(s.1), make::<X>(s.0)))
                        } else {
                            t.a.push_entity_unchecked(ent(h), (make::<X>(s.0), make::<Y>(s.1)))
                        }
                    };
                    ensure!(r == t.len, "op {i} {op:?}: answers row {r}");
                    t.rows.insert(r, Row { handle: h, s });
                    t.len += 1;
                    far += 1;
                }
            }
            H::Copy { at, to } => {
                let (r, d) = (pick(*at), *to as u32 % 3);
                if let Some(w) = t.rows.get(&r) {
                    unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&t.a, r, &mut o, d) };
                    orows.insert(d, w.s);
                    ctx.count("rows copied between differing sets", 1);
                }
            }
            H::Back { at, from } => {
                let (r, d) = (pick(*at), *from as u32 % 3);
                if let (Some(w), Some(s)) = (t.rows.get_mut(&r), orows.get(&d)) {
                    unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&o, d, &mut t.a, r) };
                    if side.0 .0 {
                        w.s.0 = s.0;
                    }
                    if side.0 .1 {
                        w.s.1 = s.1;
                    }
                }
            }
        }
        t.check().map_err(wrap)?;
        for (d, s) in &orows {
            unsafe {
                if side.0 .0 {
                    same(o.get_component_unchecked::<X>(*d), s.0, "the copy", *d).map_err(wrap)?;
                }
                if side.0 .1 {
                    same(o.get_component_unchecked::<Y>(*d), s.1, "the copy", *d).map_err(wrap)?;
                }
            }
        }
        if let Some(p) = guard::problems() {
            return Err(format!("op {i} {op:?}: {p}"));
        }
    }
    ctx.count("rows moved beyond the edge", far);
    drop(t);
    drop(o);
    if let Some(p) = guard::problems() {
        return Err(format!("at teardown: {p}"));
    }
    ctx.nontrivial = far > 0;
    Ok(())
}

impl Side {
    fn descriptor<X: Plain, Y: Plain>(&self) -> ((bool, bool), archetype_descriptor::ArchetypeDescriptor)
    where
        (X, Y): ComponentGroup,
        X: ComponentGroup,
        Y: ComponentGroup,
        (H24, Y, X, H0): ComponentGroup,
    {
        match self {
            Side::Both => ((true, true), <(X, Y) as ComponentGroup>::DESCRIPTOR.archetype().clone()),
            Side::X => ((true, false), <X as ComponentGroup>::DESCRIPTOR.archetype().clone()),
            Side::Y => ((false, true), <Y as ComponentGroup>::DESCRIPTOR.archetype().clone()),
            Side::Wide => ((true, true), <(H24, Y, X, H0) as ComponentGroup>::DESCRIPTOR.archetype().clone()),
        }
    }
}

pub struct C12h;
impl Suite for C12h {
    const NAME: &'static str = "C12h";
    const RULE: &'static str = "an archetype with columns of two or four gigabytes (made that large or grown), rows at both ends, around the byte offsets 2^31 and 2^32 and where truncated offsets would land written, swapped, removed, dropped, pushed and copied to and from archetypes with other sets, all of them compared with the values put there after every call; non-trivial: a row beyond the edge was moved";
    type Case = HugeCase;
    const BATCH: usize = 1;
    const MEM_GB: u64 = 24;
    const FILL: bool = false;
    fn strategy(_t: Tier) -> BoxedStrategy<HugeCase> {
        let b = any::<u8>;
        let f = any::<bool>;
        let op = prop_oneof![
            3 => (b(), f()).prop_map(|(at, flip)| H::Write { at, flip }),
            2 => (b(), f()).prop_map(|(at, second)| H::WriteOne { at, second }),
            2 => (b(), f()).prop_map(|(at, second)| H::MutOne { at, second }),
            4 => (b(), b()).prop_map(|(a, b)| H::Swap { a, b }),
            2 => b().prop_map(|at| H::ToLast { at }),
            3 => (b(), f()).prop_map(|(at, flip)| H::SwapRemove { at, flip }),
            2 => b().prop_map(|at| H::SwapDrop { at }),
            3 => f().prop_map(|flip| H::Push { flip }),
            3 => (b(), b()).prop_map(|(at, to)| H::Copy { at, to }),
            2 => (b(), b()).prop_map(|(at, from)| H::Back { at, from }),
        ];
        (b(), f(), f(), b(), b(), proptest::collection::vec(op, 1..24))
            .prop_map(|(kind, far, grow, extra, other, ops)| HugeCase { kind, far, grow, extra, other, ops })
            .boxed()
    }
    fn run(c: &HugeCase, ctx: &mut Ctx) -> R {
        match c.kind % 5 {
            0 => run2::<H65535, H4>(c, ctx),
            1 => run2::<H40000, H4>(c, ctx),
            2 => run2::<H4, H65528>(c, ctx),
            3 => run2::<H65535, H65528>(c, ctx),
            _ => run2::<H65528, H40000>(c, ctx),
        }
    }
}
