# Planted bugs, fourth part: refused memory (C25).
AR = "src/archetype_registry/mod.rs"
DA = "src/archetype/data_access.rs"
R = "src/registry/registry.rs"
OOM = '''
use shard_ecs::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
/// Refuses the n-th large request from now on (0: the next one), once.
static LEFT: AtomicIsize = AtomicIsize::new(-1);
struct Poor;
fn refuse(size: usize) -> bool {
    size >= 128 && LEFT.load(SeqCst) >= 0 && LEFT.fetch_sub(1, SeqCst) == 0
}
unsafe impl GlobalAlloc for Poor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) { return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) { return std::ptr::null_mut() }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: Poor = Poor;
/// True if `f` panicked with the n-th request refused.
fn refused(n: isize, f: impl FnOnce()) -> bool {
    LEFT.store(n, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LEFT.store(-1, SeqCst);
    r.is_err()
}
#[derive(Debug, Clone, PartialEq)]
pub struct A(pub u64);
impl Component for A { const NAME: &'static str = "A"; }
#[derive(Debug, Clone, PartialEq)]
pub struct B(pub u64);
impl Component for B { const NAME: &'static str = "B"; }
#[derive(Debug, Clone, PartialEq)]
pub struct C(pub u64);
impl Component for C { const NAME: &'static str = "C"; }
'''
SEEDS = [
dict(id="c25-key-before-archetype", property="C25",
  edits=[(AR, '''                let archetype = Archetype::with_capacity(
                    archetype_descriptor,
                    DEFAULT_ARCHETYPE_ALLOCATION_SIZE as u32,
                );
                let key = SortedArchetypeKey {
                    id: archetype_descriptor.archetype_id(),
                    archetype_index: self.archetypes.len() as u16,
                };
                self.archetypes.push(archetype);
                self.sorted_mappings[len - 1].insert(insertion_index, key);
''', '''                let key = SortedArchetypeKey {
                    id: archetype_descriptor.archetype_id(),
                    archetype_index: self.archetypes.len() as u16,
                };
                self.sorted_mappings[len - 1].insert(insertion_index, key);
                self.archetypes.push(Archetype::with_capacity(
                    archetype_descriptor,
                    DEFAULT_ARCHETYPE_ALLOCATION_SIZE as u32,
                ));
''')],
  needs="the memory of a new archetype's columns is refused, the panic is caught, and the same component set is used again",
  breaks="a key that names no archetype stays behind, so the set can never be used again",
  demo=OOM + '''
fn main() {
    for n in 0..3 {
        let mut r = Registry::default();
        let e = r.create_entity(C(9)).ok().unwrap();
        assert!(refused(n, || drop(r.create_entity((A(1), B(2))))));
        let f = r.create_entity((A(3), B(4))).ok().unwrap();
        let g = r.create_entity((B(5), C(6))).ok().unwrap();
        assert_eq!(r.get_components::<(A, B)>(f), Some((&A(3), &B(4))));
        assert_eq!(r.get_components::<(C, B)>(g), Some((&C(6), &B(5))));
        assert_eq!(r.get_component::<C>(e), Some(&C(9)));
        assert_eq!(r.iter_components_matching::<B>().map(|s| s.len()).sum::<usize>(), 2);
    }
}
'''),
dict(id="c25-read-before-growth", property="C25",
  edits=[(R, '''            .find_or_create_archetype_removing_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => return Err(()),
        };
''', '''            .find_or_create_archetype_removing_component(entry.archetype_index(), &C::DESCRIPTOR)
        {
            Some(v) => v,
            None => return Err(()),
        };
        // Read removed component
        let component: C =
            unsafe { source_archetype.read_component_unchecked(entry.index_in_archetype().value()) };
'''), (R, '''            // Read removed component
            let component: C =
                source_archetype.read_component_unchecked(new_source_entity_index_in_archetype);

''', '')],
  needs="a component is removed while the destination archetype is full, and the memory for its growth is refused",
  breaks="the component is dropped while its entity still has it, and dropped again later",
  demo=OOM + '''
static DROPS: AtomicIsize = AtomicIsize::new(0);
pub struct D(pub u64);
impl Component for D { const NAME: &'static str = "D"; }
impl Drop for D {
    fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); }
}
fn main() {
    let mut r = Registry::default();
    let e = r.create_entity((A(1), D(2))).ok().unwrap();
    let first = r.create_entity((A(0), D(0))).ok().unwrap();
    assert!(r.remove_component::<D>(first).is_ok());
    let mut n = 0;
    // remove D from one entity after the other until a request is refused
    loop {
        let x = r.create_entity((A(n), D(n))).ok().unwrap();
        let before = DROPS.load(SeqCst);
        if refused(0, || drop(r.remove_component::<D>(x))) {
            assert_eq!(DROPS.load(SeqCst), before);
            assert_eq!(r.get_component::<D>(x).unwrap().0, n);
            break
        }
        n += 1;
        assert!(n < 1 << 20);
    }
    assert_eq!(r.get_component::<A>(e), Some(&A(1)));
}
'''),
dict(id="c25-capacity-before-columns", property="C25",
  edits=[(DA, '''        let new_capacity = new_capacity as usize;

''', '''        let new_capacity = new_capacity as usize;
        self.capacity = new_capacity as u32;

'''), (DA, '''        }
        self.capacity = new_capacity as u32;
    }
''', '''        }
    }
''')],
  needs="the memory for an archetype's growth is refused, the panic is caught, and the archetype is used further",
  breaks="the archetype believes in room its columns do not have",
  demo=OOM + '''
fn main() {
    let mut r = Registry::default();
    let mut model = Vec::new();
    // fill an archetype, and leave room in the table of entities
    for n in 0..128 { model.push((r.create_entity((A(n), B(n))).ok().unwrap(), n)) }
    let other = r.create_entity(C(1)).ok().unwrap();
    // the same request is refused again and again, as the archetype is still full
    for n in [2, 1, 0, 0] {
        assert!(refused(n, || drop(r.create_entity((A(7), B(7))))), "no memory was asked for");
    }
    assert!(r.destroy_entity(other));
    for (e, n) in &model {
        assert_eq!(r.get_components::<(B, A)>(*e), Some((&B(*n), &A(*n))));
    }
    assert_eq!(r.iter_entities().count(), model.len());
}
'''),
]
