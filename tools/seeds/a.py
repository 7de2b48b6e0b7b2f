COMMON = '''
use shard_ecs::*;
#[derive(Debug, PartialEq, Clone)]
struct A(u64);
impl Component for A { const NAME: &'static str = "A"; }
#[derive(Debug, PartialEq, Clone)]
struct B(u32);
impl Component for B { const NAME: &'static str = "B"; }
#[derive(Debug, PartialEq, Clone)]
struct D(String);
impl Component for D { const NAME: &'static str = "D"; }
'''
R = "src/registry/registry.rs"
DA = "src/archetype/data_access.rs"
SEEDS = [
 dict(id="c02-version-skips-zero", property="C02",
  edits=[("src/entity_registry/mod.rs", "entry.set_version(entry.version().wrapping_add(1));",
          "// Version 0 marks slots that were never reused.\n        entry.set_version(entry.version().checked_add(1).unwrap_or(1));")],
  needs="one slot reused 255 times, keeping a handle from its second life",
  breaks="a destroyed handle becomes live again after 255 instead of 256 reuses of its slot",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((A(1), B(2))).unwrap();
    r.destroy_entity(e);
    let old = r.create_entity((A(1), B(2))).unwrap();
    r.destroy_entity(old);
    for i in 1..256 {
        let e = r.create_entity((A(i), B(2))).unwrap();
        assert!(e != old, "handle of a destroyed entity is back after {i} reuses");
        assert!(r.get_component::<A>(old).is_none());
        r.destroy_entity(e);
    }
}
'''),
 dict(id="c03-zst-drop-skipped", property="C03",
  edits=[("src/descriptors/component_descriptor.rs",
          "        let s = core::slice::from_raw_parts_mut(ptr as *mut ManuallyDrop<C>, len);\n",
          "        if len == 0 || core::mem::size_of::<C>() == 0 {\n            return; // nothing stored\n        }\n        let s = core::slice::from_raw_parts_mut(ptr as *mut ManuallyDrop<C>, len);\n")],
  needs="a zero-sized component type with a destructor, destroyed with its entity or the registry",
  breaks="destructors of zero-sized components are never run",
  demo=COMMON + '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct Guard;
impl Drop for Guard { fn drop(&mut self) { N.fetch_add(1, SeqCst); } }
impl Component for Guard { const NAME: &'static str = "Guard"; }
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((Guard, A(1))).unwrap();
    let _f = r.create_entity((A(2), Guard)).unwrap();
    r.destroy_entity(e);
    assert_eq!(N.load(SeqCst), 1);
    drop(r);
    assert_eq!(N.load(SeqCst), 2);
}
'''),
 dict(id="c24-filter-mut-remembers-level", property="C24",
  edits=[("src/archetype_registry/iterators/filter_archetype_iter_mut.rs",
          "                self.current_index_in_level = 0;\n                self.current_level += 1;",
          "                // Nothing left on this level.\n                self.current_index_in_level -= level.len().min(64);\n                self.current_level += 1;")],
  needs="more than 64 component sets of one size and a larger matching set, iterated by a mutable filtered iterator",
  breaks="mutable filtered iteration skips matching entities of larger sets once one size has more than 64 sets",
  demo='''
use shard_ecs::*;
macro_rules! comps { ($($n:ident),*) => { $( #[derive(Debug)] struct $n(u32); impl Component for $n { const NAME: &'static str = stringify!($n); } )* } }
comps!(K0, K1, K2, K3, K4, K5, K6, K7);
fn main() {
    let mut r = Registry::default();
    // every one of the 70 four-element subsets of K0..K7, then one larger set
    for m in 0u32..256 {
        if m.count_ones() != 4 && m != 0b11111 { continue; }
        // build by adding components one at a time to a temporary single
        let mut e = None;
        macro_rules! step { ($t:ident, $i:expr) => { if m & (1 << $i) != 0 { match e { None => e = Some(r.create_entity($t(m)).unwrap()), Some(x) => r.add_component(x, $t(m)).unwrap() } } } }
        step!(K0, 0); step!(K1, 1); step!(K2, 2); step!(K3, 3); step!(K4, 4); step!(K5, 5); step!(K6, 6); step!(K7, 7);
    }
    let want: usize = r.iter_components_matching::<K0>().map(|s| s.len()).sum();
    let got: usize = r.iter_filtered_components_matching_mut::<K0, _>(|_| true).map(|s| s.len()).sum();
    assert_eq!(want, got);
}
'''),
 dict(id="c06-swap-blocks", property="C06",
  edits=[(DA, "            core::ptr::swap_nonoverlapping(ptr_first, ptr_second, descriptor.size as usize);",
"""            if descriptor.align >= 4 {
                // Swap word-wise when possible.
                core::ptr::swap_nonoverlapping(
                    ptr_first as *mut [u32; 2],
                    ptr_second as *mut [u32; 2],
                    descriptor.size as usize / 8,
                );
            } else {
                core::ptr::swap_nonoverlapping(ptr_first, ptr_second, descriptor.size as usize);
            }""")],
  needs="a component of alignment 4 whose size is not a multiple of 8, and an entity moved or removed that is not the last of its set",
  breaks="the last four bytes of such components stay behind when entities swap places, so values of two entities mix",
  demo=COMMON + '''
#[derive(Debug, PartialEq)]
struct V([u32; 3]);
impl Component for V { const NAME: &'static str = "V3"; }
fn main() {
    let mut r = Registry::default();
    let a = r.create_entity((V([0, 0, 0]), A(0))).unwrap();
    let b = r.create_entity((V([1, 1, 1]), A(1))).unwrap();
    r.get_component_mut::<V>(a).unwrap().0 = [7, 8, 9];
    r.remove_component::<A>(a).unwrap();
    assert_eq!(r.get_component::<V>(a).unwrap().0, [7, 8, 9]);
    assert_eq!(r.get_component::<V>(b).unwrap().0, [1, 1, 1]);
}
'''),
 dict(id="c21-adjacent-duplicates-only", property="C21",
  edits=[("src/descriptors/component_group_descriptor.rs",
          "            let mut cdx = idx + 1;\n            while cdx < N {\n                if descriptors[idx]",
          "            let mut cdx = idx + 1;\n            while cdx < N && cdx < idx + 8 {\n                if descriptors[idx]")],
  needs="a group of at least nine elements repeating a type at a distance of eight or more positions",
  breaks="such a group is accepted: creation stores the repeated type twice in one set",
  demo='''
use shard_ecs::*;
macro_rules! comps { ($($n:ident),*) => { $( #[derive(Debug)] struct $n(u32); impl Component for $n { const NAME: &'static str = stringify!($n); } )* } }
comps!(K0, K1, K2, K3, K4, K5, K6, K7);
fn main() {
    let mut r = Registry::default();
    let x = r.create_entity((K0(0), K1(1), K2(2), K3(3), K4(4), K5(5), K6(6), K7(7), K0(8)));
    assert!(x.is_err());
    assert_eq!(r.iter_entities().count(), 0);
}
'''),
]
