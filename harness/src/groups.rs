//! Type-erased access to component groups (tuples), so that generated histories can choose groups
//! at run time.

use crate::comps::*;
use crate::guard;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;

pub type Key = Result<u32, String>;

/// A slice of one component type, type-erased.
#[derive(Clone, Copy, Debug)]
pub struct RawCol {
    pub ix: usize,
    pub ptr: *mut u8,
    pub len: usize,
}

impl RawCol {
    /// # Safety: the slice must still be alive.
    pub unsafe fn obs(&self, row: usize) -> Obs {
        let t = &TYPES[self.ix];
        (t.obs_at)(self.ptr.add(row * t.size))
    }
    pub unsafe fn replace(&self, row: usize, serial: u32) {
        let t = &TYPES[self.ix];
        (t.replace_at)(self.ptr.add(row * t.size), serial)
    }
}

/// One item yielded by an iterator: the entity slice (if the variant has one) and the columns in
/// tuple order.
#[derive(Clone, Debug)]
pub struct Chunk {
    pub ents: Option<Vec<Entity>>,
    pub cols: Vec<RawCol>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Take {
    /// Collect everything; then poll twice more, the result must stay `None`.
    All,
    /// Stop after this many items.
    First(usize),
}

/// How many items `drive` collects.
pub fn via_items(kind: u8, k: usize, len: usize) -> usize {
    match kind {
        1 => 0,
        2 => len.min(1),
        3 => len / (k + 1),
        4 => len.saturating_sub(k),
        5 => (len + k) / (k + 1),
        6 => len.min(k),
        _ => len,
    }
}
pub const VIA_KINDS: u8 = 8;

/// Bound on the number of items an iterator may yield before it is declared endless.
pub const ENDLESS: usize = 70_000;

pub enum IterOut {
    Ok(Vec<Chunk>),
    Bad(String),
}

pub trait HGroup: ComponentGroup {
    fn ixs() -> Vec<usize>;
    fn mk(serials: &[u32]) -> Self;
    fn keys(self) -> Vec<Key>;
    fn refs(r: Self::RefTuple<'_>) -> Vec<Obs>;
    fn refs_mut(r: Self::MutRefTuple<'_>) -> Vec<RawCol>;
    fn cols(s: Self::SliceRefTuple<'_>) -> Vec<RawCol>;
    fn cols_mut(s: Self::SliceMutRefTuple<'_>) -> Vec<RawCol>;
}

#[inline(never)]
fn col<T: HComp>(s: &[T]) -> RawCol {
    RawCol {
        ix: T::IX,
        ptr: s.as_ptr() as *mut u8,
        len: s.len(),
    }
}
#[inline(never)]
fn col_mut<T: HComp>(s: &mut [T]) -> RawCol {
    RawCol {
        ix: T::IX,
        ptr: s.as_mut_ptr() as *mut u8,
        len: s.len(),
    }
}
#[inline(never)]
fn one_mut<T: HComp>(s: &mut T) -> RawCol {
    RawCol {
        ix: T::IX,
        ptr: s as *mut T as *mut u8,
        len: 1,
    }
}

impl<T: HComp> HGroup for T {
    fn ixs() -> Vec<usize> {
        vec![T::IX]
    }
    fn mk(serials: &[u32]) -> Self {
        T::mk(serials[0])
    }
    fn keys(self) -> Vec<Key> {
        vec![self.take()]
    }
    fn refs(r: Self::RefTuple<'_>) -> Vec<Obs> {
        vec![r.obs()]
    }
    fn refs_mut(r: Self::MutRefTuple<'_>) -> Vec<RawCol> {
        vec![one_mut(r)]
    }
    fn cols(s: Self::SliceRefTuple<'_>) -> Vec<RawCol> {
        vec![col(s)]
    }
    fn cols_mut(s: Self::SliceMutRefTuple<'_>) -> Vec<RawCol> {
        vec![col_mut(s)]
    }
}

macro_rules! tuple_group {
    ($(($t:ident, $i:tt)),*) => {
        impl<$($t: HComp),*> HGroup for ($($t),*) {
            fn ixs() -> Vec<usize> { vec![$($t::IX),*] }
            fn mk(serials: &[u32]) -> Self { ($(<$t as HComp>::mk(serials[$i])),*) }
            fn keys(self) -> Vec<Key> { vec![$(self.$i.take()),*] }
            fn refs(r: Self::RefTuple<'_>) -> Vec<Obs> { vec![$(r.$i.obs()),*] }
            fn refs_mut(r: Self::MutRefTuple<'_>) -> Vec<RawCol> { vec![$(one_mut(r.$i)),*] }
            fn cols(s: Self::SliceRefTuple<'_>) -> Vec<RawCol> { vec![$(col(s.$i)),*] }
            fn cols_mut(s: Self::SliceMutRefTuple<'_>) -> Vec<RawCol> { vec![$(col_mut(s.$i)),*] }
        }
    };
}
tuple_group!((A, 0), (B, 1));
tuple_group!((A, 0), (B, 1), (C, 2));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10), (L, 11));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10), (L, 11), (M, 12));
tuple_group!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10), (L, 11), (M, 12), (N, 13));

type Filter<'a> = &'a dyn Fn(&ArchetypeDescriptor) -> bool;

/// Type-erased access to one group.
pub struct GroupVt {
    pub ixs: fn() -> Vec<usize>,
    pub descriptor: fn() -> &'static ComponentGroupDescriptor,
    pub create: fn(&mut Registry, &[u32]) -> Result<Entity, Vec<Key>>,
    pub remove_entity: fn(&mut Registry, Entity) -> Option<Vec<Key>>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Vec<Obs>>,
    pub get_mut: fn(&mut Registry, Entity, &mut dyn FnMut(&[RawCol])) -> bool,
    pub iter: fn(&Registry, bool, Option<Filter>, Take) -> IterOut,
    pub iter_mut: fn(&mut Registry, bool, Option<Filter>, Take, &mut dyn FnMut(&[Chunk])) -> Result<(), String>,
    pub exact: fn(&Registry, bool) -> Chunk,
    pub exact_mut: fn(&mut Registry, bool, &mut dyn FnMut(&Chunk)),
    pub arch: ArchVt,
    pub raw: RawVt,
    pub via: Option<fn(&mut Registry, u8, Option<Filter>, u8, usize, usize) -> Result<Vec<Chunk>, String>>,
}

type Ptrs = [*mut u8; MAX_COMPONENTS_PER_ENTITY];

/// Splitting a tuple into type-erased parts and reading it back.
pub struct RawVt {
    /// makes a value, splits it and shows the pointers; the value itself is forgotten
    pub split: fn(&[u32], &mut dyn FnMut(&Ptrs)),
    /// reads the value out (the original must not be used as a value afterwards)
    pub read: unsafe fn(&Ptrs) -> Vec<Key>,
    pub refs: unsafe fn(&Ptrs) -> Vec<Obs>,
    pub refs_mut: unsafe fn(&Ptrs) -> Vec<RawCol>,
    pub slices: unsafe fn(&Ptrs, usize) -> Vec<RawCol>,
    pub slices_mut: unsafe fn(&Ptrs, usize) -> Vec<RawCol>,
    pub empty: fn(bool) -> Vec<RawCol>,
}

/// The same on a single archetype.
pub struct ArchVt {
    pub push: unsafe fn(&mut Archetype, Entity, &[u32]) -> u32,
    pub write: unsafe fn(&mut Archetype, u32, Entity, &[u32]),
    pub swap_remove: unsafe fn(&mut Archetype, u32) -> (Vec<Key>, bool),
    /// reads a row and forgets the copy
    pub read_exact: unsafe fn(&Archetype, u32) -> Vec<Key>,
    pub slices_exact: unsafe fn(&Archetype) -> Vec<RawCol>,
    pub slices_exact_mut: unsafe fn(&mut Archetype) -> Vec<RawCol>,
    pub slices: unsafe fn(&Archetype) -> Vec<RawCol>,
    pub slices_mut: unsafe fn(&mut Archetype) -> Vec<RawCol>,
    pub ent_slices: unsafe fn(&Archetype) -> Chunk,
    pub ent_slices_mut: unsafe fn(&mut Archetype) -> Chunk,
    pub get: unsafe fn(&Archetype, u32) -> Vec<Obs>,
    pub get_mut: unsafe fn(&mut Archetype, u32, &mut dyn FnMut(&[RawCol])),
}

fn drain(it: &mut dyn Iterator<Item = Chunk>, take: Take) -> Result<Vec<Chunk>, String> {
    let mut out = Vec::new();
    match take {
        Take::First(n) => {
            for _ in 0..n {
                match it.next() {
                    Some(x) => out.push(x),
                    None => break,
                }
            }
        }
        Take::All => {
            let (lo, hi) = it.size_hint();
            loop {
                match it.next() {
                    Some(x) => out.push(x),
                    None => break,
                }
                if out.len() > ENDLESS {
                    return Err(format!("iterator yielded more than {ENDLESS} items"));
                }
            }
            if lo > out.len() || hi.is_some_and(|h| h < out.len()) {
                return Err(format!("size_hint() is ({lo}, {hi:?}) where next() yields {} items", out.len()));
            }
            for _ in 0..2 {
                if it.next().is_some() {
                    return Err("iterator yielded an item after it had ended".into());
                }
            }
        }
    }
    Ok(out)
}

/// Runs a library iterator of `len` items by one of the methods an iterator may provide by itself.
fn drive<I: Iterator, F: FnMut(I::Item) -> Chunk>(mut it: I, mut f: F, kind: u8, k: usize, len: usize) -> Result<Vec<Chunk>, String> {
    let mut out = Vec::new();
    match kind {
        0 => it.for_each(|x| out.push(f(x))),
        1 => {
            let n = it.count();
            if n != len {
                return Err(format!("count() is {n} where next() yields {len} items"));
            }
        }
        2 => out.extend(it.last().map(f)),
        3 => {
            while let Some(x) = it.nth(k) {
                out.push(f(x));
                if out.len() > len {
                    break;
                }
            }
        }
        4 => it.skip(k).for_each(|x| out.push(f(x))),
        5 => it.step_by(k + 1).for_each(|x| out.push(f(x))),
        _ => {
            for _ in 0..k {
                out.extend(it.next().map(&mut f));
            }
            if kind == 6 {
                std::mem::forget(it);
            } else {
                it.for_each(|x| out.push(f(x)));
            }
        }
    }
    Ok(out)
}

fn plain(cols: Vec<RawCol>) -> Chunk {
    Chunk { ents: None, cols }
}
fn with(e: &[Entity], cols: Vec<RawCol>) -> Chunk {
    Chunk {
        ents: Some(e.to_vec()),
        cols,
    }
}

fn iter<G: HGroup>(r: &Registry, ents: bool, f: Option<Filter>, take: Take) -> IterOut {
    // The library wants a filter that lives as long as the registry borrow: move a copy of the
    // reference in.
    let f: Option<Filter<'static>> = unsafe { std::mem::transmute(f) };
    let mut it: Box<dyn Iterator<Item = Chunk> + '_> = match (ents, f) {
        (false, None) => Box::new(r.iter_components_matching::<G>().map(|s| plain(G::cols(s)))),
        (true, None) => Box::new(
            r.iter_entity_components_matching::<G>()
                .map(|(e, s)| with(e, G::cols(s))),
        ),
        (false, Some(f)) => Box::new(
            r.iter_filtered_components_matching::<G, Filter<'static>>(f)
                .map(|s| plain(G::cols(s))),
        ),
        (true, Some(f)) => Box::new(
            r.iter_filtered_entity_components_matching::<G, Filter<'static>>(f)
                .map(|(e, s)| with(e, G::cols(s))),
        ),
    };
    match drain(&mut *it, take) {
        Ok(v) => IterOut::Ok(v),
        Err(e) => IterOut::Bad(e),
    }
}

fn iter_mut<G: HGroup>(
    r: &mut Registry,
    ents: bool,
    f: Option<Filter>,
    take: Take,
    visit: &mut dyn FnMut(&[Chunk]),
) -> Result<(), String> {
    let f: Option<Filter<'static>> = unsafe { std::mem::transmute(f) };
    // Everything yielded is held at the same time (as a caller may), then handed to `visit`.
    let mut it: Box<dyn Iterator<Item = Chunk> + '_> = match (ents, f) {
        (false, None) => Box::new(
            r.iter_components_matching_mut::<G>()
                .map(|s| plain(G::cols_mut(s))),
        ),
        (true, None) => Box::new(
            r.iter_entity_components_matching_mut::<G>()
                .map(|(e, s)| with(e, G::cols_mut(s))),
        ),
        (false, Some(f)) => Box::new(
            r.iter_filtered_components_matching_mut::<G, Filter<'static>>(f)
                .map(|s| plain(G::cols_mut(s))),
        ),
        (true, Some(f)) => Box::new(
            r.iter_filtered_entity_components_matching_mut::<G, Filter<'static>>(f)
                .map(|(e, s)| with(e, G::cols_mut(s))),
        ),
    };
    let chunks = drain(&mut *it, take)?;
    drop(it);
    visit(&chunks);
    Ok(())
}

/// One of the four variants of iteration, driven by another method than `next`.
fn via<G: HGroup>(r: &mut Registry, variant: u8, f: Option<Filter>, kind: u8, k: usize, len: usize) -> Result<Vec<Chunk>, String> {
    let f: Option<Filter<'static>> = unsafe { std::mem::transmute(f) };
    match (variant, f) {
        (0, None) => drive(r.iter_components_matching::<G>(), |s| plain(G::cols(s)), kind, k, len),
        (1, None) => drive(r.iter_entity_components_matching::<G>(), |(e, s)| with(e, G::cols(s)), kind, k, len),
        (2, None) => drive(r.iter_components_matching_mut::<G>(), |s| plain(G::cols_mut(s)), kind, k, len),
        (_, None) => drive(r.iter_entity_components_matching_mut::<G>(), |(e, s)| with(e, G::cols_mut(s)), kind, k, len),
        (0, Some(f)) => drive(r.iter_filtered_components_matching::<G, Filter<'static>>(f), |s| plain(G::cols(s)), kind, k, len),
        (1, Some(f)) => drive(
            r.iter_filtered_entity_components_matching::<G, Filter<'static>>(f),
            |(e, s)| with(e, G::cols(s)),
            kind,
            k,
            len,
        ),
        (2, Some(f)) => drive(
            r.iter_filtered_components_matching_mut::<G, Filter<'static>>(f),
            |s| plain(G::cols_mut(s)),
            kind,
            k,
            len,
        ),
        (_, Some(f)) => drive(
            r.iter_filtered_entity_components_matching_mut::<G, Filter<'static>>(f),
            |(e, s)| with(e, G::cols_mut(s)),
            kind,
            k,
            len,
        ),
    }
}

/// A group whose iterators are also driven by other methods than `next` (not all of them, as it takes
/// the compiler long).
pub const fn gvv<G: HGroup>() -> GroupVt {
    GroupVt { via: Some(via::<G>), ..gvt::<G>() }
}

pub const fn gvt<G: HGroup>() -> GroupVt {
    GroupVt {
        via: None,
        ixs: G::ixs,
        descriptor: || &G::DESCRIPTOR,
        create: |r, s| {
            let g = G::mk(s);
            guard::window(true);
            let x = r.create_entity(g);
            guard::window(false);
            x.map_err(|g| g.keys())
        },
        remove_entity: |r, e| r.remove_entity::<G>(e).map(|g| g.keys()),
        has: |r, e| r.has_components::<G>(e),
        get: |r, e| r.get_components::<G>(e).map(|t| G::refs(t)),
        get_mut: |r, e, f| match r.get_components_mut::<G>(e) {
            None => false,
            Some(t) => {
                let cols = G::refs_mut(t);
                f(&cols);
                true
            }
        },
        iter: iter::<G>,
        iter_mut: iter_mut::<G>,
        exact: |r, ents| {
            if ents {
                let (e, s) = r.iter_entity_components_exact::<G>();
                Chunk {
                    ents: Some(e.to_vec()),
                    cols: G::cols(s),
                }
            } else {
                Chunk {
                    ents: None,
                    cols: G::cols(r.iter_components_exact::<G>()),
                }
            }
        },
        exact_mut: |r, ents, f| {
            if ents {
                let (e, s) = r.iter_entity_components_exact_mut::<G>();
                f(&Chunk {
                    ents: Some(e.to_vec()),
                    cols: G::cols_mut(s),
                })
            } else {
                f(&Chunk {
                    ents: None,
                    cols: G::cols_mut(r.iter_components_exact_mut::<G>()),
                })
            }
        },
        arch: ArchVt {
            push: |a, e, s| unsafe { a.push_entity_unchecked(e, G::mk(s)) },
            write: |a, i, e, s| unsafe { a.write_entity_unchecked(i, e, G::mk(s)) },
            swap_remove: |a, i| unsafe {
                let (g, swapped) = a.swap_remove_unchecked::<G>(i);
                (g.keys(), swapped)
            },
            read_exact: |a, i| unsafe {
                let mut g = std::mem::ManuallyDrop::new(a.read_components_exact_unchecked::<G>(i));
                let mut ptrs = [std::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY];
                // observe through the erased pointers without consuming the copy
                G::as_sorted_pointers(&mut g, &mut ptrs);
                let refs = G::pointers_as_ref_tuple(&ptrs);
                G::refs(refs).into_iter().map(|o| o.key).collect()
            },
            slices_exact: |a| unsafe { G::cols(a.get_slices_unchecked_exact::<G>()) },
            slices_exact_mut: |a| unsafe { G::cols_mut(a.get_slices_unchecked_exact_mut::<G>()) },
            slices: |a| unsafe { G::cols(a.get_fuzzy_slices_unchecked::<G>()) },
            slices_mut: |a| unsafe { G::cols_mut(a.get_fuzzy_slices_unchecked_mut::<G>()) },
            ent_slices: |a| unsafe {
                let (e, s) = a.get_entity_fuzzy_slices_unchecked::<G>();
                Chunk {
                    ents: Some(e.to_vec()),
                    cols: G::cols(s),
                }
            },
            ent_slices_mut: |a| unsafe {
                let (e, s) = a.get_entity_fuzzy_slices_unchecked_mut::<G>();
                Chunk {
                    ents: Some(e.to_vec()),
                    cols: G::cols_mut(s),
                }
            },
            get: |a, i| unsafe { G::refs(a.get_fuzzy_components_unchecked::<G>(i)) },
            get_mut: |a, i, f| unsafe {
                let cols = G::refs_mut(a.get_fuzzy_components_unchecked_mut::<G>(i));
                f(&cols)
            },
        },
        raw: RawVt {
            split: |s, f| {
                let mut g = std::mem::ManuallyDrop::new(G::mk(s));
                let mut ptrs: Ptrs = [std::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY];
                unsafe { G::as_sorted_pointers(&mut g, &mut ptrs) };
                f(&ptrs);
            },
            read: |p| unsafe { G::read_from_sorted_pointers(p).keys() },
            refs: |p| unsafe { G::refs(G::pointers_as_ref_tuple(p)) },
            refs_mut: |p| unsafe { G::refs_mut(G::pointers_as_mut_ref_tuple(p)) },
            slices: |p, n| unsafe { G::cols(G::slice_unchecked(p, n)) },
            slices_mut: |p, n| unsafe { G::cols_mut(G::slice_unchecked_mut(p, n)) },
            empty: |m| {
                if m {
                    G::cols_mut(G::empty_slice_mut())
                } else {
                    G::cols(G::empty_slice())
                }
            },
        },
    }
}

include!("groups_gen.rs");
