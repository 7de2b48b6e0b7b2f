# Planted bugs, sixth part: without the standard library (C26).
BARE = '''#![no_std]
#![no_main]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use shard_ecs::*;
#[link(name = "c")]
extern "C" {
    fn aligned_alloc(align: usize, size: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn _exit(code: i32) -> !;
}
#[link(name = "gcc_s")]
extern "C" {}
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = l.align().max(16);
        aligned_alloc(a, (l.size() + a - 1) / a * a)
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        free(p)
    }
}
#[global_allocator]
static HEAP: Heap = Heap;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { _exit(101) }
}
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
'''
DERIVED = '''
#[derive(Component)]
pub struct A(pub u32);
#[derive(Component)]
pub struct B(pub alloc::boxed::Box<u32>);
'''
WRITTEN = '''
pub struct A(pub u32);
impl Component for A {
    const NAME: &'static str = "A";
}
pub struct B(pub alloc::boxed::Box<u32>);
impl Component for B {
    const NAME: &'static str = "B";
}
'''
MAIN = '''
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let mut r = Registry::default();
    let e = r.create_entity((A(3), B(alloc::boxed::Box::new(4)))).ok().unwrap();
    let f = r.create_entity((A(5), B(alloc::boxed::Box::new(6)))).ok().unwrap();
    let (a, b) = r.remove_entity::<(A, B)>(e).unwrap();
    assert!(a.0 == 3 && *b.0 == 4);
    assert!(r.get_component::<A>(f).unwrap().0 == 5);
    assert!(*r.remove_component::<B>(f).ok().unwrap().0 == 6);
    0
}
'''
DERIVE = '''[dependencies.shard_ecs_derive]
path = "$repo/shard_ecs_derive"
[patch.crates-io]
shard_ecs_derive = { path = "$repo/shard_ecs_derive" }
[features]
default = ["shard-ecs/derive"]'''
SEEDS = [
dict(id="c26-derive-names-std", property="C26",
  edits=[("shard_ecs_derive/src/lib.rs", "            const NAME: &'static str = stringify!(#name);",
          "            const NAME: &'static str = ::std::stringify!(#name);")],
  needs="the derive macro used in a program without the standard library",
  breaks="what the derive macro expands to names std, which such programs do not have",
  deps=DERIVE, cmd="CARGO_PROFILE_RELEASE_PANIC=abort cargo run --offline --quiet --release",
  demo=BARE + DERIVED + MAIN),
dict(id="c26-derive-links-std", property="C26",
  edits=[("src/lib.rs", '''#[cfg(feature = "derive")]
pub use shard_ecs_derive::*;''', '''#[cfg(feature = "derive")]
#[doc(hidden)]
pub extern crate std as __std;
#[cfg(feature = "derive")]
pub use shard_ecs_derive::*;''')],
  needs="the derive feature in a program without the standard library",
  breaks="with the derive feature on, the crate links the standard library, so programs without it no longer build",
  deps=DERIVE, cmd="CARGO_PROFILE_RELEASE_PANIC=abort cargo run --offline --quiet --release",
  demo=BARE + DERIVED + MAIN),
dict(id="c26-debug-note-needs-std", property="C26",
  edits=[("src/registry/registry.rs", '''            return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
                (value, true) => {''', '''            #[cfg(debug_assertions)]
            {
                extern crate std;
                if std::thread::panicking() {
                    std::eprintln!("{:?} is removed during a panic", entity);
                }
            }
            return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
                (value, true) => {''')],
  needs="a debug build of a program without the standard library",
  breaks="debug builds of the crate link the standard library, so such programs only build in release mode",
  cmd="CARGO_PROFILE_DEV_PANIC=abort cargo run --offline --quiet",
  demo=BARE + WRITTEN + MAIN),
]
