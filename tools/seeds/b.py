COMMON = '''
#![allow(dead_code)]
use shard_ecs::*;
#[derive(Debug, PartialEq, Clone)]
struct A(u64);
impl Component for A { const NAME: &'static str = "A"; }
#[derive(Debug, PartialEq, Clone)]
struct B(u32);
impl Component for B { const NAME: &'static str = "B"; }
#[derive(Debug, PartialEq, Clone)]
struct D(String);
impl Component for D { const NAME: &'static str = "D"; }
'''
R = "src/registry/registry.rs"
DA = "src/archetype/data_access.rs"
AM = "src/archetype/mod.rs"
AD = "src/descriptors/archetype_descriptor.rs"
GD = "src/descriptors/component_group_descriptor.rs"
CG = "src/descriptors/component_group.rs"
AR = "src/archetype_registry/mod.rs"
IT = "src/archetype_registry/iterators/"
ER = "src/entity_registry/mod.rs"
RUN = "cargo run --offline --quiet --release"
# demo.sh of demonstrations that are programs which must be rejected by the compiler
REJECT = '''#!/bin/bash
# bad.rs must not compile against the crate in the current directory, good.rs must.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src/bin"
cp "$here/good.rs" "$here/bad.rs" "$d/src/bin/"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shard-ecs = { path = "$repo" }
TOML
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$d" || exit 99
cargo build --offline --quiet --bin good || exit 98
if cargo build --offline --quiet --bin bad 2> err.txt; then echo "bad.rs compiles"; exit 1; fi
grep -q 'error' err.txt || exit 97
'''
ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicBool, Ordering::SeqCst};
// Puts eight marked bytes after every block and checks them on release and resize.
struct Canary;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static BROKEN: AtomicBool = AtomicBool::new(false);
fn grown(l: Layout) -> Layout { Layout::from_size_align(l.size() + 8, l.align()).unwrap() }
unsafe impl GlobalAlloc for Canary {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        let p = System.alloc(grown(l));
        std::ptr::write_bytes(p.add(l.size()), 0xA5, 8);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        for i in 0..8 { if *p.add(l.size() + i) != 0xA5 { BROKEN.store(true, SeqCst); } }
        System.dealloc(p, grown(l))
    }
}
#[global_allocator]
static GLOBAL: Canary = Canary;
'''
SEEDS = [
 dict(id="c04-stop-at-empty-level", property="C04",
  edits=[(IT + "archetype_iter_mut.rs", "                while (self.current_index_in_level as usize) < level.len() {",
   "                if level.is_empty() && self.current_index_in_level == 0 {\n                    // No sets of this size, so none larger either.\n                    break;\n                }\n                while (self.current_index_in_level as usize) < level.len() {")],
  needs="a size of component set that no entity has had between the group's size and a larger matching set, iterated mutably",
  breaks="mutable matching iteration misses entities whose set is larger than a gap in the sizes",
  demo=COMMON + '''
#[derive(Debug)]
struct E(u8);
impl Component for E { const NAME: &'static str = "E"; }
fn main() {
    let mut r = Registry::default();
    r.create_entity(A(1)).unwrap();
    r.create_entity((A(2), B(0), D("x".into()), E(1))).unwrap();
    let got: usize = r.iter_components_matching_mut::<A>().map(|s| s.len()).sum();
    assert_eq!(got, 2);
    let got: usize = r.iter_entity_components_matching_mut::<(A, B)>().map(|s| s.0.len()).sum();
    assert_eq!(got, 1);
}
'''),
 dict(id="c06-slices-mut-inverse", property="C06",
  edits=[(CG, "core::slice::from_raw_parts_mut(sorted_pointers[Self::DESCRIPTOR.unsorted_to_sorted($elem_idx) as usize] as *mut $elem, len)",
   "core::slice::from_raw_parts_mut(sorted_pointers[Self::DESCRIPTOR.sorted_to_unsorted($elem_idx) as usize] as *mut $elem, len)")],
  needs="a tuple whose order is not its own inverse permutation (three or more components) used for mutable slices",
  breaks="mutable slices of such tuples are the columns of other components",
  demo='''
use shard_ecs::*;
macro_rules! c { ($n:ident, $id:expr) => { #[derive(Debug, Clone, PartialEq)] struct $n(u32); impl Component for $n { const NAME: &'static str = stringify!($n); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); } } }
c!(X, 1); c!(Y, 2); c!(Z, 3); c!(W, 4);
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((X(1), Y(2), Z(3), W(4))).unwrap();
    for (a, b, c, d) in r.iter_components_matching_mut::<(Y, Z, W, X)>() { a[0].0 = 12; b[0].0 = 13; c[0].0 = 14; d[0].0 = 11; }
    assert_eq!(r.get_components::<(X, Y, Z, W)>(e).unwrap(), (&X(11), &Y(12), &Z(13), &W(14)));
}
'''),
 dict(id="c16-destroy-free-slot", property="C16",
  edits=[(ER, "|| !entry.is_valid() {\n            return false;\n        }\n        unsafe { entry.invalidate", " {\n            return false;\n        }\n        unsafe { entry.invalidate")],
  needs="a slot freed 256 times, then destroyed again through its oldest handle",
  breaks="a free slot is freed again, which ties its free list into a knot: two live entities share a handle",
  demo='''
use shard_ecs::*;
fn main() {
    let mut t = EntityRegistry::default();
    let (i, a) = (IndexInArchetype::new(0).unwrap(), ArchetypeIndex::new(0).unwrap());
    let first = t.create_entity(i, a).unwrap();
    let mut e = first;
    for _ in 0..255 { assert!(t.destroy_entity(e)); e = t.create_entity(i, a).unwrap(); }
    assert!(t.destroy_entity(e));
    assert!(!t.destroy_entity(first), "destroyed an entity that does not exist");
    let x = t.create_entity(i, a).unwrap();
    let y = t.create_entity(i, a).unwrap();
    assert!(x != y);
}
'''),
 dict(id="c02-entry-ignores-free", property="C02",
  edits=[(ER, "pub fn entity_entry(&self, entity: Entity) -> Option<&EntityEntry> {\n        if entity.index() as usize >= self.entities.len() || entity == Entity::INVALID {\n            return None;\n        }\n        let entry = &self.entities[entity.index() as usize];\n        if entry.version() != entity.version() || !entry.is_valid() {",
   "pub fn entity_entry(&self, entity: Entity) -> Option<&EntityEntry> {\n        if entity.index() as usize >= self.entities.len() || entity == Entity::INVALID {\n            return None;\n        }\n        let entry = &self.entities[entity.index() as usize];\n        // The version of a free slot differs from that of every handle given out for it.\n        if entry.version() != entity.version() {")],
  needs="a handle whose slot was reused until its version came round again, or one made up, while the slot is free",
  breaks="such a handle is taken for a live entity with an archetype that does not exist",
  demo='''
use shard_ecs::*;
fn main() {
    let mut t = EntityRegistry::default();
    let (i, a) = (IndexInArchetype::new(0).unwrap(), ArchetypeIndex::new(0).unwrap());
    let e = t.create_entity(i, a).unwrap();
    assert!(t.destroy_entity(e));
    assert!(t.entity_entry(e).is_none());
    let next = unsafe { Entity::new_unchecked(e.index(), e.version().wrapping_add(1)) };
    assert!(t.entity_entry(next).is_none(), "not a live entity");
}
'''),
 dict(id="c08-archetype-limit", property="C08",
  edits=[(AR, "if self.archetypes.len() >= MAX_ARCHETYPE_COUNT {", "if self.archetypes.len() + 2 >= MAX_ARCHETYPE_COUNT {")],
  needs="65,533 different component sets",
  breaks="the last two of the documented 65,534 component sets are refused",
  demo='''
use shard_ecs::{*, archetype_registry::ArchetypeRegistry, archetype_descriptor::ArchetypeDescriptor, component_descriptor::ComponentDescriptor};
unsafe fn nothing(_: *mut u8, _: usize) {}
fn main() {
    let comps: Vec<ComponentDescriptor> = (1..=17).map(|i| ComponentDescriptor::new(ComponentTypeId::from_u16(i), 0, 1, nothing)).collect();
    let mut r = ArchetypeRegistry::default();
    let mut n = 0;
    for m in 1u32..(1 << 17) {
        if m.count_ones() > 14 { continue; }
        let mut d: Option<ArchetypeDescriptor> = None;
        for (i, c) in comps.iter().enumerate() {
            if m & (1 << i) != 0 { d = Some(match d { None => c.into(), Some(d) => d.add_component(c).unwrap() }); }
        }
        if r.find_or_create_archetype(&d.unwrap()).is_none() { break; }
        n += 1;
    }
    assert_eq!(n, 65534);
}
'''),
 dict(id="c16-one-slot-too-many", property="C16",
  edits=[(ER, "pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;", "pub const MAX_ENTITY_COUNT: usize = 1 << crate::ENTITY_HANDLE_BITS;")],
  needs="16,777,216 live entities",
  breaks="a slot is handed out whose index is the end mark of the free list (and part of the invalid handle)",
  demo='''
use shard_ecs::*;
fn main() {
    let mut t = EntityRegistry::default();
    let (i, a) = (IndexInArchetype::new(0).unwrap(), ArchetypeIndex::new(0).unwrap());
    let mut n = 0u32;
    while n < 16_777_220 && t.create_entity(i, a).is_some() { n += 1; }
    assert_eq!(n, 16_777_215);
}
'''),
 dict(id="c09-copy-whole-words", property="C09",
  edits=[(DA, "                    source_component.size as usize,\n                );", "                    // Whole words copy faster.\n                    (source_component.size as usize + 3) & !3,\n                );")],
  needs="a component whose size is no multiple of four, moved to the last free row of a full archetype",
  breaks="up to three bytes past the end of the destination column are overwritten (and as many read past the source)",
  demo=ALLOC + '''
use shard_ecs::*;
#[derive(Debug, Clone, PartialEq)]
struct S([u8; 3]);
impl Component for S { const NAME: &'static str = "S"; }
#[derive(Debug, Clone, PartialEq)]
struct T(u32);
impl Component for T { const NAME: &'static str = "T"; }
fn main() {
    let mut r = Registry::default();
    for i in 0..127u32 { r.create_entity((S([i as u8; 3]), T(i))).unwrap(); }
    // a full column of S only, whose entities then move over one by one
    let es: Vec<_> = (0..129u8).map(|i| r.create_entity(S([i; 3])).unwrap()).collect();
    r.add_component(es[3], T(3)).unwrap();
    assert_eq!(r.get_component::<S>(es[3]).unwrap(), &S([3; 3]));
    drop(r);
    assert!(!BROKEN.load(SeqCst), "bytes behind a block were overwritten");
}
'''),
 dict(id="c09-empty-archetype-leaks", property="C09",
  edits=[(AM, "        if self.capacity == 0 {", "        if self.len() == 0 {")],
  needs="an archetype that has room but no entities when the registry is dropped",
  breaks="the memory of component sets without entities is never released",
  demo=ALLOC + COMMON.replace("#![allow(dead_code)]\n", "") + '''
fn main() {
    let before = LIVE.load(SeqCst);
    {
        let mut r = Registry::default();
        let e = r.create_entity((A(1), B(2))).unwrap();
        r.destroy_entity(e);
    }
    assert_eq!(LIVE.load(SeqCst), before, "blocks leaked");
}
'''),
 dict(id="c10-drop-rest-restarts", property="C10",
  edits=[(DA, '''        for (idx, descriptor) in self.descriptor.components().iter().enumerate() {
            (descriptor.fns.drop_handler)(
                self.pointers[idx].offset(index as isize * descriptor.size as isize),
                1,
            );
        }
''', '''        // Drops the remaining components if one of the destructors panics.
        struct Remaining<'a> {
            archetype: &'a Archetype,
            index: u32,
            next: usize,
        }
        impl<'a> Remaining<'a> {
            unsafe fn run(&mut self) {
                while self.next < self.archetype.descriptor.len() as usize {
                    let descriptor = &self.archetype.descriptor.components()[self.next];
                    (descriptor.fns.drop_handler)(
                        self.archetype.pointers[self.next]
                            .offset(self.index as isize * descriptor.size as isize),
                        1,
                    );
                    self.next += 1;
                }
            }
        }
        impl<'a> Drop for Remaining<'a> {
            fn drop(&mut self) {
                unsafe { self.run() }
            }
        }
        Remaining {
            archetype: self,
            index,
            next: 0,
        }
        .run();
''')],
  needs="a destructor that panics the first time it runs while its entity is destroyed",
  breaks="the component whose destructor panicked is dropped again",
  demo='''
use shard_ecs::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct P;
impl Drop for P { fn drop(&mut self) { if N.fetch_add(1, SeqCst) == 0 { panic!("first") } } }
impl Component for P { const NAME: &'static str = "P"; }
struct Q(#[allow(dead_code)] u32);
impl Component for Q { const NAME: &'static str = "Q"; }
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((P, Q(1))).map_err(|_| ()).unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.destroy_entity(e)));
    drop(r);
    assert_eq!(N.load(SeqCst), 1, "dropped more than once");
}
'''),
 dict(id="c10-release-guard", property="C10",
  edits=[(AM, '''        unsafe {
            self.drop_entities();
            self.dealloc();
        }
    }
''', '''        // Releases the memory even if a destructor panics.
        struct Release<'a>(&'a mut Archetype);
        impl<'a> Drop for Release<'a> {
            fn drop(&mut self) {
                unsafe {
                    if self.0.len() > 1 {
                        self.0.drop_entities();
                    }
                    self.0.dealloc();
                }
            }
        }
        let release = Release(self);
        unsafe {
            release.0.drop_entities();
        }
        release.0.entity_count = 0;
    }
''')],
  needs="a registry dropped with several entities in one set, one of whose destructors panics",
  breaks="every component of that set is dropped twice",
  demo='''
use shard_ecs::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
static PANICKED: AtomicUsize = AtomicUsize::new(0);
struct P(u32);
impl Drop for P { fn drop(&mut self) { N.fetch_add(1, SeqCst); if self.0 == 1 && PANICKED.fetch_add(1, SeqCst) == 0 { panic!("first") } } }
impl Component for P { const NAME: &'static str = "P"; }
fn main() {
    let mut r = Registry::default();
    for i in 0..3 { r.create_entity(P(i)).map_err(|_| ()).unwrap(); }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(r)));
    assert!(N.load(SeqCst) <= 3, "dropped more than once: {}", N.load(SeqCst));
}
'''),
 dict(id="c11-subset-shortcut-by-id", property="C11",
  edits=[(AD, "        if descriptor.len() > self.len() {\n            return false;\n        }\n", "        if descriptor.archetype_id.into_u32() == self.archetype_id.into_u32() {\n            return true; // the very same set\n        }\n        if descriptor.len() > self.len() {\n            return false;\n        }\n")],
  needs="two component sets whose 32-bit ids collide",
  breaks="an entity seems to have components it does not have",
  demo='''
use shard_ecs::{*, archetype_descriptor::ArchetypeDescriptor, component_descriptor::ComponentDescriptor};
unsafe fn nothing(_: *mut u8, _: usize) {}
fn set(ids: &[u16]) -> ArchetypeDescriptor {
    let mut d: Option<ArchetypeDescriptor> = None;
    for i in ids {
        let c = ComponentDescriptor::new(ComponentTypeId::from_u16(*i), 4, 4, nothing);
        d = Some(match d { None => (&c).into(), Some(d) => d.add_component(&c).unwrap() });
    }
    d.unwrap()
}
fn main() {
    // Sets of two and three whose ids are equal, found by search.
    let mut seen = std::collections::HashMap::new();
    for a in 1..400u16 { for b in a + 1..400 { seen.insert(set(&[a, b]).archetype_id().into_u32(), [a, b]); } }
    let mut n = 0;
    'l: for a in 400..900u16 { for b in a + 1..900 { for c in b + 1..900 {
        let s = set(&[a, b, c]);
        if let Some(p) = seen.get(&s.archetype_id().into_u32()) {
            n += 1;
            assert!(!s.contains_subset(&set(p)), "{:?} is no subset of {:?}", p, [a, b, c]);
            if n == 3 { break 'l; }
        }
    } } }
    assert!(n > 0);
}
'''),
 dict(id="c12-rewrite-keeps-handle", property="C12",
  edits=[(DA, "        self.entities_mut()[index as usize] = entity_handle;\n        core::mem::forget(entity);", "        if index + 1 == self.len() {\n            // Only a row that was just pushed needs its handle.\n            self.entities_mut()[index as usize] = entity_handle;\n        }\n        core::mem::forget(entity);")],
  needs="write_entity_unchecked on a row other than the last",
  breaks="the row's entity handle is not written",
  demo=COMMON + '''
use shard_ecs::archetype::Archetype;
fn main() {
    let mut t = Archetype::with_capacity(<(A, B) as ComponentGroup>::DESCRIPTOR.archetype(), 2);
    unsafe {
        for i in 0..3 { t.push_entity_unchecked(Entity::new_unchecked(i, 0), (A(i as u64), B(i))); }
        t.write_entity_unchecked(1, Entity::new_unchecked(9, 9), (A(9), B(9)));
        assert_eq!(t.entities()[1], Entity::new_unchecked(9, 9));
    }
}
'''),
 dict(id="c12-copy-common-one-difference", property="C12",
  edits=[(DA, '''            for (destination_c_idx, destination_component) in
                destination.descriptor.components().iter().enumerate()
            {
''', '''            // The sets are sorted, so a common component is at most one place away.
            for (destination_c_idx, destination_component) in destination
                .descriptor
                .components()
                .iter()
                .enumerate()
                .skip(source_c_idx.saturating_sub(1))
                .take(3)
            {
''')],
  needs="copying between archetypes whose sets differ by two or more components",
  breaks="components that are further apart in the two sets are not copied",
  demo='''
use shard_ecs::{*, archetype::Archetype};
macro_rules! c { ($n:ident, $id:expr) => { #[derive(Debug, Clone, PartialEq)] struct $n(u32); impl Component for $n { const NAME: &'static str = stringify!($n); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); } } }
c!(X, 1); c!(Y, 2); c!(Z, 3); c!(W, 4);
fn main() {
    let mut s = Archetype::with_capacity(<(X, Y, Z, W) as ComponentGroup>::DESCRIPTOR.archetype(), 2);
    let mut d = Archetype::with_capacity(<W as ComponentGroup>::DESCRIPTOR.archetype(), 2);
    unsafe {
        s.push_entity_unchecked(Entity::new_unchecked(1, 0), (X(1), Y(2), Z(3), W(4)));
        d.push_entity_unchecked(Entity::new_unchecked(2, 0), W(5));
        Archetype::copy_common_components_between_archetypes_unchecked(&s, 0, &mut d, 0);
        assert_eq!(d.get_component_unchecked::<W>(0), &W(4));
    }
}
'''),
 dict(id="c07-full-set-panics", property="C07",
  edits=[(AD, "        if self.len() as usize == MAX_COMPONENTS_PER_ENTITY {\n            return None; // Archetype is full.\n        }\n        match", "        match"),
         (AD, "            Err(insertion_index) => {\n                let mut v = self.clone();", "            Err(insertion_index) if insertion_index == MAX_COMPONENTS_PER_ENTITY => None, // Archetype is full.\n            Err(insertion_index) => {\n                let mut v = self.clone();")],
  needs="adding a fifteenth component that sorts before the others",
  breaks="adding a component to an entity with 14 panics instead of being refused",
  demo='''
use shard_ecs::*;
macro_rules! c { ($($n:ident $id:expr),*) => { $(#[derive(Debug)] struct $n(#[allow(dead_code)] u32); impl Component for $n { const NAME: &'static str = stringify!($n); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); })* } }
c!(C1 1, C2 2, C3 3, C4 4, C5 5, C6 6, C7 7, C8 8, C9 9, C10 10, C11 11, C12 12, C13 13, C14 14, C0 0, C15 15);
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((C1(1), C2(1), C3(1), C4(1), C5(1), C6(1), C7(1), C8(1), C9(1), C10(1), C11(1), C12(1), C13(1), C14(1))).map_err(|_| ()).unwrap();
    assert!(r.add_component(e, C15(1)).is_err());
    assert!(r.add_component(e, C0(1)).is_err());
}
'''),
 dict(id="c14-excludes-length-shortcut", property="C14",
  edits=[(AD, "    pub const fn excludes_subset(&self, descriptor: &ArchetypeDescriptor) -> bool {\n", "    pub const fn excludes_subset(&self, descriptor: &ArchetypeDescriptor) -> bool {\n        if descriptor.len() > self.len() {\n            return true; // too many components to be contained\n        }\n")],
  needs="an exclusion test with a larger set that shares a component",
  breaks="the test says nothing is shared",
  demo=COMMON + '''
fn main() {
    let a = <A as ComponentGroup>::DESCRIPTOR;
    let ab = <(A, B) as ComponentGroup>::DESCRIPTOR;
    assert!(!a.archetype().excludes_subset(ab.archetype()));
}
'''),
 dict(id="c15-eight-passes", property="C15",
  edits=[(GD, "            let mut j = i + 1;\n            while j < N {\n                if return_value[j]", "            let mut j = i + 1;\n            while j < N && (j - i < 12 || i % 2 == 0) {\n                if return_value[j]")],
  needs="a group of 14 components in particular orders",
  breaks="the sorted component list of such groups is not sorted",
  demo='''
use shard_ecs::*;
macro_rules! c { ($($n:ident $id:expr),*) => { $(#[derive(Debug)] struct $n(#[allow(dead_code)] u32); impl Component for $n { const NAME: &'static str = stringify!($n); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); })* } }
c!(C1 1, C2 2, C3 3, C4 4, C5 5, C6 6, C7 7, C8 8, C9 9, C10 10, C11 11, C12 12, C13 13, C14 14);
fn sorted<G: ComponentGroup>() {
    let d = G::DESCRIPTOR;
    let ids: Vec<u16> = d.archetype().components().iter().map(|c| c.component_type_id().into_u16()).collect();
    let mut s = ids.clone(); s.sort();
    assert_eq!(ids, s);
}
fn main() {
    sorted::<(C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14)>();
    sorted::<(C14, C13, C12, C11, C10, C9, C8, C7, C6, C5, C4, C3, C2, C1)>();
    sorted::<(C1, C14, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C2)>();
}
'''),
 dict(id="c17-any-version-invalid", property="C17",
  edits=[("src/entity_registry/entity.rs", "        self.handle != Self::INVALID.handle", "        self.index() != Self::INVALID.index()")],
  needs="a handle with the largest index and a version below 255",
  breaks="handles other than the invalid one count as invalid",
  demo='''
use shard_ecs::*;
fn main() {
    assert!(!Entity::INVALID.is_valid());
    assert!(unsafe { Entity::new_unchecked(MAX_ENTITY_HANDLE_VALUE, 3) }.is_valid());
}
'''),
 dict(id="c18-signed-bytes", property="C18",
  edits=[("src/fnv1a.rs", "        hash ^= bytes[i] as u32;", "        hash ^= bytes[i] as i8 as u32;")],
  needs="input with bytes above 127",
  breaks="the 32-bit hash is not FNV-1a and component ids of non-ASCII names change",
  demo='''
use shard_ecs::*;
struct U;
impl Component for U { const NAME: &'static str = "Größe"; }
fn main() {
    let mut h: u32 = 0x811c9dc5;
    for b in "Größe".bytes() { h = (h ^ b as u32).wrapping_mul(0x01000193); }
    assert_eq!(U::ID.into_u16(), (h >> 16) as u16 ^ h as u16);
}
'''),
 dict(id="c18-zero-limit", property="C18",
  edits=[("src/fnv1a.rs", "pub const fn fnv1a_hash_64(bytes: &[u8], limit: Option<usize>) -> u64 {\n    let mut hash = FNV_OFFSET_BASIS_64;\n\n    let mut i = 0;\n    let len = match limit {\n        Some(v) => {\n            if v <= bytes.len() && v > 0 {",
   "pub const fn fnv1a_hash_64(bytes: &[u8], limit: Option<usize>) -> u64 {\n    let mut hash = FNV_OFFSET_BASIS_64;\n\n    let mut i = 0;\n    let len = match limit {\n        Some(v) => {\n            if v < bytes.len() + (v & 1) {")],
  needs="a limit of zero",
  breaks="a limit of zero hashes nothing instead of everything",
  demo='''
use shard_ecs::*;
fn main() {
    assert_eq!(fnv1a::fnv1a_hash_64(b"abc", Some(0)), fnv1a::fnv1a_hash_64(b"abc", None));
}
'''),
 dict(id="c20-process-wide-epoch", property="C20",
  edits=[(ER, "        entry.set_version(entry.version().wrapping_add(1));", "        // Every now and then one more, so that stale handles of long runs do not repeat in step.\n        static DESTROYED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        let extra = DESTROYED.fetch_add(1, core::sync::atomic::Ordering::Relaxed) % 0x4000 == 0x3fff;\n        entry.set_version(entry.version().wrapping_add(1 + extra as u8));")],
  needs="16,384 destroyed entities in the whole process, whichever registry they were in",
  breaks="the handles a registry gives depend on what other registries did",
  demo=COMMON + '''
fn history() -> Vec<Entity> {
    let mut r = Registry::default();
    let mut v = vec![];
    for i in 0..3000 { let e = r.create_entity(A(i)).unwrap(); v.push(e); r.destroy_entity(e); }
    v
}
fn main() {
    let first = history();
    for _ in 0..10 { assert!(history() == first, "the same history gave other handles"); }
}
'''),
 dict(id="c22-unsynchronised-column-cache", property="C22",
  edits=[(AM, "    entity_count: u32,\n    capacity: u32,\n}", "    entity_count: u32,\n    capacity: u32,\n    last_column: core::cell::Cell<u8>,\n}"),
         (AM, "            capacity: 0,\n        };", "            capacity: 0,\n            last_column: core::cell::Cell::new(0),\n        };"),
         (DA, '''    pub unsafe fn get_component_unchecked<C: Component>(&self, index: u32) -> &C {
        match self''', '''    pub unsafe fn get_component_unchecked<C: Component>(&self, index: u32) -> &C {
        // Queries for one component tend to come in runs.
        let last = self.last_column.get() as usize;
        if self.descriptor.components()[last].component_type_id == C::ID {
            return &*(self.pointers[last] as *mut C).offset(index as isize);
        }
        match self'''),
         (DA, "            Ok(idx) => &*(self.pointers[idx] as *mut C).offset(index as isize),\n", "            Ok(idx) => {\n                self.last_column.set(idx as u8);\n                &*(self.pointers[idx] as *mut C).offset(index as isize)\n            }\n")],
  needs="two threads querying different components of one component set of a shared registry",
  breaks="shared reads write to shared memory without synchronisation: a data race",
  cmd='''cat > /dev/null <<X
X
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
cargo +nightly miri run --offline --quiet''',
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((A(1), B(2))).unwrap();
    let r = &r;
    std::thread::scope(|s| {
        s.spawn(move || for _ in 0..20 { assert_eq!(r.get_component::<A>(e).unwrap().0, 1); });
        s.spawn(move || for _ in 0..20 { assert_eq!(r.get_component::<B>(e).unwrap().0, 2); });
    });
}
'''),
 dict(id="c22-bounds-dropped", property="C22",
  edits=[("src/descriptors/component.rs", "pub trait Component: Send + Sync + Sized + 'static {", "pub trait Component: Send + Sized + 'static {")],
  needs="a component that is not Sync, in a registry shared by threads",
  breaks="components that must not be shared between threads can be",
  demo_sh=REJECT,
  files={"good.rs": "use shard_ecs::*;\nstruct S(u32);\nimpl Component for S { const NAME: &'static str = \"S\"; }\nfn main() { let mut r = Registry::default(); let e = r.create_entity(S(1)).map_err(|_| ()).unwrap(); let r = &r; std::thread::scope(|s| { s.spawn(move || r.get_component::<S>(e).unwrap().0); }); }\n",
         "bad.rs": "use shard_ecs::*;\nstruct S(std::cell::Cell<u32>);\nimpl Component for S { const NAME: &'static str = \"S\"; }\nfn main() { let mut r = Registry::default(); let e = r.create_entity(S(std::cell::Cell::new(1))).map_err(|_| ()).unwrap(); let r = &r; std::thread::scope(|s| { s.spawn(move || r.get_component::<S>(e).unwrap().0.set(2)); s.spawn(move || r.get_component::<S>(e).unwrap().0.set(3)); }); }\n"}),
 dict(id="c23-unlinked-lifetime", property="C23",
  edits=[(DA, "    pub unsafe fn get_fuzzy_components_unchecked_mut<'a, G: ComponentGroup>(\n        &'a mut self,", "    pub unsafe fn get_fuzzy_components_unchecked_mut<'a, G: ComponentGroup>(\n        &mut self,"),
         (R, "    pub fn get_components_mut<'registry, G: ComponentGroup>(\n        &'registry mut self,", "    pub fn get_components_mut<'registry, G: ComponentGroup>(\n        &mut self,")],
  needs="a caller that keeps the references of one mutable tuple query while it makes another",
  breaks="safe code can obtain two mutable references to one component, or keep one to a destroyed component",
  demo_sh=REJECT,
  files={"good.rs": "use shard_ecs::*;\nstruct S(u32);\nimpl Component for S { const NAME: &'static str = \"S\"; }\nstruct T(u32);\nimpl Component for T { const NAME: &'static str = \"T\"; }\nfn main() { let mut r = Registry::default(); let e = r.create_entity((S(1), T(1))).map_err(|_| ()).unwrap(); { let (s, t) = r.get_components_mut::<(S, T)>(e).unwrap(); s.0 = t.0; } r.destroy_entity(e); }\n",
         "bad.rs": "use shard_ecs::*;\nstruct S(u32);\nimpl Component for S { const NAME: &'static str = \"S\"; }\nstruct T(u32);\nimpl Component for T { const NAME: &'static str = \"T\"; }\nfn main() { let mut r = Registry::default(); let e = r.create_entity((S(1), T(1))).map_err(|_| ()).unwrap(); let (s, t) = r.get_components_mut::<(S, T)>(e).unwrap(); r.destroy_entity(e); s.0 = t.0; }\n"}),
 dict(id="c24-filter-sees-group", property="C24",
  edits=[(IT + "filter_archetype_iter.rs", "(self.filter_closure)(archetype.descriptor())", "(self.filter_closure)(if level.len() > 1 {\n                            archetype.descriptor()\n                        } else {\n                            G::DESCRIPTOR.archetype()\n                        })")],
  needs="filtered shared iteration over a set that is the only one of its size",
  breaks="the predicate is shown the queried group instead of the storage's set",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    r.create_entity((A(1), B(1))).unwrap();
    r.create_entity((A(1), D("x".into()))).unwrap();
    r.create_entity((A(1), B(1), D("x".into()))).unwrap();
    let n: usize = r.iter_filtered_components_matching::<A, _>(|d| d.has_component::<D>()).map(|s| s.len()).sum();
    assert_eq!(n, 2);
}
'''),
 dict(id="c05-removal-hashes-tail", property="C05",
  edits=[(AD, "                v.components[last_index] = ComponentDescriptor::INVALID;\n\n                v.len -= 1;\n                v.archetype_id =\n                    ArchetypeDescriptor::compute_archetype_id(&v.components[0..v.len() as usize]);",
   "                v.components[last_index] = ComponentDescriptor::INVALID;\n\n                v.archetype_id =\n                    ArchetypeDescriptor::compute_archetype_id(&v.components[0..v.len() as usize]);\n                v.len -= 1;")],
  needs="a set reached by removing a component, and the same set reached otherwise",
  breaks="entities with the same components are kept in two sets; exact iteration finds only one of them",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((A(1), B(1), D("x".into()))).unwrap();
    r.remove_component::<D>(e).unwrap();
    r.create_entity((A(2), B(2))).unwrap();
    assert_eq!(r.iter_components_exact::<(A, B)>().0.len(), 2);
}
'''),
 dict(id="c13-derive-reports-source", property="C13",
  edits=[(AR, "            .remove_component(component_descriptor.component_type_id())?;\n\n        let (destination_archetype_index, _) =\n            self.find_or_create_archetype(&new_archetype_descriptor)?;\n",
  "            .remove_component(component_descriptor.component_type_id())?;\n\n        // The smaller set usually exists already, next to the one the component was added to.\n        let destination_archetype_index = match self.archetypes[..source_archetype_index as usize]\n            .iter()\n            .rposition(|a| {\n                a.descriptor().len() == new_archetype_descriptor.len()\n                    && a.descriptor().archetype_id().into_u32() as u16\n                        == new_archetype_descriptor.archetype_id().into_u32() as u16\n            }) {\n            Some(index) => index as u16,\n            None => self.find_or_create_archetype(&new_archetype_descriptor)?.0,\n        };\n")],
  needs="two component sets of one size whose ids agree in the low 16 bits, the wanted one older or absent, the other created before the source",
  breaks="removing a component leads to the archetype of another set",
  demo='''
use shard_ecs::{*, archetype_registry::ArchetypeRegistry, archetype_descriptor::ArchetypeDescriptor, component_descriptor::ComponentDescriptor};
unsafe fn nothing(_: *mut u8, _: usize) {}
fn comp(i: u16) -> ComponentDescriptor { ComponentDescriptor::new(ComponentTypeId::from_u16(i), 4, 4, nothing) }
fn set(ids: &[u16]) -> ArchetypeDescriptor {
    let mut d: Option<ArchetypeDescriptor> = None;
    for i in ids { d = Some(match d { None => (&comp(*i)).into(), Some(d) => d.add_component(&comp(*i)).unwrap() }); }
    d.unwrap()
}
fn main() {
    // Two pairs whose ids share the low 16 bits, found by search.
    let mut seen = std::collections::HashMap::new();
    for a in 1..600u16 { for b in a + 1..600 {
        let low = set(&[a, b]).archetype_id().into_u32() as u16;
        if let Some([c, d]) = seen.insert(low, [a, b]) {
            if [c, d].contains(&a) || [c, d].contains(&b) { continue; }
            let mut r = ArchetypeRegistry::default();
            r.find_or_create_archetype(&set(&[c, d])).unwrap();
            let (source, _) = r.find_or_create_archetype(&set(&[a, b, 1000])).unwrap();
            let (_, _, to) = r.find_or_create_archetype_removing_component(source, &comp(1000)).unwrap();
            let ids: Vec<u16> = to.descriptor().components().iter().map(|c| c.component_type_id().into_u16()).collect();
            assert_eq!(ids, vec![a, b]);
            return;
        }
    } }
    panic!("no pair found");
}
'''),
 dict(id="c01-refused-add-moves", property="C01",
  edits=[(R, """        // Get the new archetype
        let (source_archetype, destination_archetype_index, destination_archetype) = match self
            .archetypes
            .find_or_create_archetype_adding_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => return Err(component),
        };
""", """        // Bring the entity to the end.
        let row = entry.index_in_archetype();
        let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
        if unsafe { archetype.swap_to_last_unchecked(row.value()) } {
            let swapped = archetype.entities()[row.value() as usize];
            self.entities.entity_entry_mut(swapped).unwrap().set_index_in_archetype(row);
        }

        // Get the new archetype
        let (source_archetype, destination_archetype_index, destination_archetype) = match self
            .archetypes
            .find_or_create_archetype_adding_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => return Err(component),
        };
"""), (R, """        // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
        if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
            // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
            // We retrieve the entity handle using the metadata, which is now at the swapped with entity's position.
            let swapped_entity =
                source_archetype.entities()[entry.index_in_archetype().value() as usize];
            self.entities
                .entity_entry_mut(swapped_entity)
                .unwrap()
                .set_index_in_archetype(entry.index_in_archetype());
        }

        unsafe {
            // Make space in the destination archetype.
            destination_archetype.push_uninitialized_entity();

            // copy from end to end.
            let new_source_entity_index_in_archetype = source_archetype.len() - 1;
            let destination_entity_index_in_archetype = destination_archetype.len() - 1;
            // Write common components.
            Archetype::copy_common_components_between_archetypes_unchecked(
                source_archetype,
                new_source_entity_index_in_archetype,
                destination_archetype,
                destination_entity_index_in_archetype,
            );
            // Write added component
""", """        unsafe {
            // Make space in the destination archetype.
            destination_archetype.push_uninitialized_entity();

            // copy from end to end.
            let new_source_entity_index_in_archetype = source_archetype.len() - 1;
            let destination_entity_index_in_archetype = destination_archetype.len() - 1;
            // Write common components.
            Archetype::copy_common_components_between_archetypes_unchecked(
                source_archetype,
                new_source_entity_index_in_archetype,
                destination_archetype,
                destination_entity_index_in_archetype,
            );
            // Write added component
""")],
  needs="adding a component an entity already has, when it is not the last of its set",
  breaks="the refused call leaves the entity reading and writing another entity's row",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let es: Vec<_> = (0..3u32).map(|i| r.create_entity((A(i as u64), B(i))).unwrap()).collect();
    assert!(r.add_component(es[0], B(7)).is_err());
    for (i, e) in es.iter().enumerate() { assert_eq!(r.get_component::<A>(*e).unwrap().0, i as u64); }
}
'''),
 dict(id="c12-offset-overflow", property="C12",
  edits=[(DA, "            let ptr_first = self.pointers[idx].offset(first as isize * descriptor.size as isize);\n            let ptr_second = self.pointers[idx].offset(second as isize * descriptor.size as isize);",
   "            let size = descriptor.size as u32;\n            let ptr_first = self.pointers[idx].add(first.wrapping_mul(size) as usize);\n            let ptr_second = self.pointers[idx].add(second.wrapping_mul(size) as usize);")],
  needs="a column of more than four gigabytes, in which a row beyond that is swapped",
  breaks="other rows are swapped",
  demo='''
use shard_ecs::{*, archetype::Archetype};
#[derive(Clone)]
struct Big([u8; 65535]);
impl Component for Big { const NAME: &'static str = "Big"; }
fn main() {
    let n = 66000u32;
    let mut t = Archetype::with_capacity(<Big as ComponentGroup>::DESCRIPTOR.archetype(), n);
    unsafe {
        for _ in 0..n { t.push_uninitialized_entity(); }
        t.write_entity_unchecked(65800, Entity::new_unchecked(1, 1), Big([1; 65535]));
        t.write_entity_unchecked(5, Entity::new_unchecked(2, 2), Big([2; 65535]));
        t.swap_entities(5, 65800);
        assert_eq!(t.get_component_unchecked::<Big>(5).0[100], 1);
        assert_eq!(t.get_component_unchecked::<Big>(65800).0[100], 2);
        while t.len() > 0 { t.decrement_len_unchecked(); }
    }
}
'''),
 dict(id="c03-refused-add-forgets", property="C03",
  edits=[(R, '''            .find_or_create_archetype_adding_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => return Err(component),
        };
''', '''            .find_or_create_archetype_adding_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => {
                if let Some(present) = self.get_component_mut::<C>(entity) {
                    // Hand back a plain copy of what is stored, the new value is not needed.
                    unsafe { core::ptr::copy_nonoverlapping(&component, present, 1) };
                }
                return Err(component);
            }
        };
''')],
  needs="adding a component the entity already has",
  breaks="the stored value is lost and the refused one is dropped twice",
  demo='''
use shard_ecs::*;
use std::sync::{Arc, atomic::{AtomicIsize, Ordering::SeqCst}};
struct P(Arc<AtomicIsize>, u32);
impl P { fn new(c: &Arc<AtomicIsize>, i: u32) -> P { c.fetch_add(1, SeqCst); P(c.clone(), i) } }
impl Drop for P { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
impl Component for P { const NAME: &'static str = "P"; }
fn main() {
    let c = Arc::new(AtomicIsize::new(0));
    let mut r = Registry::default();
    let e = r.create_entity(P::new(&c, 1)).map_err(|_| ()).unwrap();
    let back = r.add_component(e, P::new(&c, 2)).unwrap_err();
    assert_eq!(r.get_component::<P>(e).unwrap().1, 1);
    std::mem::forget(back);
    assert_eq!(c.load(SeqCst), 2);
}
'''),
 dict(id="c21-exact-iteration-of-invalid", property="C21",
  edits=[(AR, '''    pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
        let len = archetype_descriptor.len() as usize;
        if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {''', '''    pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
        let len = archetype_descriptor.len() as usize;
        if len > MAX_COMPONENTS_PER_ENTITY || self.archetypes.is_empty() {''')],
  needs="shared exact iteration over a group that repeats a component type",
  breaks="it panics instead of yielding nothing",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    assert_eq!(r.iter_components_exact::<(A, A)>().0.len(), 0);
    r.create_entity(A(1)).unwrap();
    assert_eq!(r.iter_components_exact::<(A, A)>().0.len(), 0);
}
'''),
]
DERIVE_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shard-ecs = { path = "$repo", features = ["derive"] }
[patch.crates-io]
shard_ecs_derive = { path = "$repo/shard_ecs_derive" }
TOML
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$d" || exit 99
cargo run --offline --quiet
'''
DL = "shard_ecs_derive/src/lib.rs"
SEEDS += [
 dict(id="c19-name-with-generics", property="C19",
  edits=[(DL, "stringify!(#name);", "stringify!(#name #ty_generics);")],
  needs="deriving on a generic type", breaks="the name contains the generic parameters, so the id differs from the documented one",
  demo_sh=DERIVE_SH, demo='''
use shard_ecs::*;
#[derive(Component)]
struct Pair<T: Send + Sync + 'static>(#[allow(dead_code)] T);
fn main() { assert_eq!(<Pair<u8> as Component>::NAME, "Pair"); }
'''),
 dict(id="c19-where-dropped", property="C19",
  edits=[(DL, "        impl #impl_generics Component for #name #ty_generics #where_clause {", "        impl #impl_generics Component for #name #ty_generics {"),
         (DL, "    let (impl_generics, ty_generics, where_clause) =", "    let (impl_generics, ty_generics, _) =")],
  needs="deriving on a generic type whose bounds are in a where clause", breaks="the derived implementation does not compile",
  demo_sh=DERIVE_SH, demo='''
use shard_ecs::*;
#[derive(Component)]
struct Boxed<T>(#[allow(dead_code)] T) where T: Send + Sync + 'static;
fn main() { assert_eq!(<Boxed<u8> as Component>::NAME, "Boxed"); }
'''),
]
