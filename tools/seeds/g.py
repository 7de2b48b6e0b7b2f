# Planted bugs, seventh part: memory (C27).
DA = "src/archetype/data_access.rs"
MEM = '''
use shard_ecs::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static HELD: AtomicUsize = AtomicUsize::new(0);
static ASKED: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size(), SeqCst);
        ASKED.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: Counting = Counting;
pub struct A(pub u64);
impl Component for A { const NAME: &'static str = "A"; }
pub struct B(pub u32);
impl Component for B { const NAME: &'static str = "B"; }
'''
SEEDS = [
dict(id="c27-free-list-ends-at-wrap", property="C27",
  edits=[("src/entity_registry/mod.rs", "        unsafe { entry.invalidate(self.next_free_slot) };", """        // A slot that starts over with version 0 goes to the end of the list.
        let next = match entry.version() {
            u8::MAX => IndexInArchetype::INVALID_VALUE,
            _ => self.next_free_slot,
        };
        unsafe { entry.invalidate(next) };""")],
  needs="a slot destroyed for the 256th time while other slots are free",
  breaks="the slots that were free then are never used again",
  demo=MEM + '''
fn main() {
    let mut r = Registry::default();
    for _ in 0..300 {
        let e: Vec<Entity> = (0..50).map(|i| r.create_entity(A(i)).ok().unwrap()).collect();
        for e in e {
            assert!(e.index() < 50, "{e:?}");
            assert!(r.destroy_entity(e));
        }
    }
}
'''),
dict(id="c27-large-tables-grow-by-blocks", property="C27",
  edits=[(DA, "            let additional_capacity = if self.capacity() == 0 {", "            // Doubling would waste too much on large tables.\n            let additional_capacity = if self.capacity() == 0 || self.capacity() >= 8192 {")],
  needs="a component set of many thousand entities",
  breaks="its columns are moved for every 128 further entities",
  demo=MEM + '''
fn main() {
    let mut r = Registry::default();
    for i in 0..60_000 {
        r.create_entity(A(i)).ok().unwrap();
    }
    assert!(ASKED.load(SeqCst) < 8 << 20, "{} bytes requested", ASKED.load(SeqCst));
}
'''),
]
