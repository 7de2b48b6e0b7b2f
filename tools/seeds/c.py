import os
_b = {}
exec(open("/verif/tools/seeds/b.py").read(), _b)
COMMON, R, DA, AM, AD, GD, CG, AR, IT, ER, RUN = [_b[k] for k in "COMMON R DA AM AD GD CG AR IT ER RUN".split()]
SEEDS = [
dict(id="c01-row-sixteen-bits", property="C01",
  edits=[(R, '''                IndexInArchetype::new(destination_entity_index_in_archetype).unwrap(),
            );

            Ok(())''', '''                IndexInArchetype::new(destination_entity_index_in_archetype as u16 as u32).unwrap(),
            );

            Ok(())''')],
  needs="more than 65,536 entities reaching one component set by adding a component",
  breaks="the location of an entity added to a set in row 65,536 or later is cut to sixteen bits: it shows another entity's components",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let es: Vec<_> = (0..65_600u64).map(|i| r.create_entity(A(i)).ok().unwrap()).collect();
    for (i, e) in es.iter().enumerate() { assert!(r.add_component(*e, B(i as u32)).is_ok()); }
    for (i, e) in es.iter().enumerate() {
        assert_eq!(r.get_components::<(A, B)>(*e), Some((&A(i as u64), &B(i as u32))));
    }
}
'''),
dict(id="c06-single-write-row", property="C06",
  edits=[(DA, "Ok(idx) => &mut *(self.pointers[idx] as *mut C).offset(index as isize),",
          "Ok(idx) => &mut *(self.pointers[idx] as *mut C).offset(index as i16 as u16 as isize),")],
  needs="more than 65,536 entities in one set, one of the later ones written through the single-component access",
  breaks="the write lands on the component of another entity",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let es: Vec<_> = (0..65_600u64).map(|i| r.create_entity((A(i), B(i as u32))).ok().unwrap()).collect();
    for (i, e) in es.iter().enumerate().skip(65_500) { *r.get_component_mut::<A>(*e).unwrap() = A(1_000_000 + i as u64); }
    for (i, e) in es.iter().enumerate() {
        let want = if i < 65_500 { i as u64 } else { 1_000_000 + i as u64 };
        assert_eq!(r.get_component::<A>(*e), Some(&A(want)));
    }
}
'''),
dict(id="c03-count-sixteen-bits", property="C03",
  edits=[(DA, "(descriptor.fns.drop_handler)(self.pointers[idx], self.len() as usize);",
          "(descriptor.fns.drop_handler)(self.pointers[idx], self.len() as u16 as usize);")],
  needs="a registry dropped with 65,536 or more entities in one set",
  breaks="65,536 values of every component are forgotten",
  demo=COMMON + '''
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static N: AtomicU32 = AtomicU32::new(0);
struct T;
struct K(u8);
impl Drop for K { fn drop(&mut self) { N.fetch_add(self.0 as u32, SeqCst); } }
impl Component for K { const NAME: &'static str = "K"; }
fn main() {
    let mut r = Registry::default();
    for i in 0..65_700u64 { assert!(r.create_entity((A(i), K(1))).is_ok()); }
    drop(r);
    assert_eq!(N.load(SeqCst), 65_700);
}
'''),
dict(id="c02-iteration-sixteen-bits", property="C02",
  edits=[("src/entity_registry/iterator.rs", "                        (self.current - 1) as u32,", "                        (self.current - 1) as u16 as u32,")],
  needs="more than 65,536 entities",
  breaks="iterating all entities yields handles that are not live, and others twice",
  demo=COMMON + '''
use std::collections::BTreeSet;
fn main() {
    let mut r = Registry::default();
    let es: BTreeSet<u32> = (0..65_700u64).map(|i| r.create_entity(A(i)).ok().unwrap().raw()).collect();
    let got: Vec<u32> = r.iter_entities().map(|e| e.raw()).collect();
    assert_eq!(got.len(), es.len());
    assert!(got.iter().copied().collect::<BTreeSet<_>>() == es);
}
'''),
dict(id="c13-insertion-clamped", property="C13",
  edits=[(AR, "self.sorted_mappings[len - 1].insert(insertion_index, key);",
          "self.sorted_mappings[len - 1].insert(insertion_index.min(u8::MAX as usize), key);")],
  needs="more than 256 component sets of one size",
  breaks="the sorted table is no longer sorted: some sets are not found again and get a second archetype",
  demo='''
use shard_ecs::*;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_group::ComponentGroup;
macro_rules! t { ($($n:ident)*) => { $( #[derive(Clone)] struct $n(u8); impl Component for $n { const NAME: &'static str = stringify!($n); } )* 
  fn all() -> Vec<fn(&mut Registry, entity_registry::Entity)> { vec![$( |r, e| { let _ = r.add_component(e, $n(1)); } ),*] } } }
t! { Q0 Q1 Q2 Q3 Q4 Q5 Q6 Q7 Q8 Q9 QA QB }
struct S(u32);
impl Component for S { const NAME: &'static str = "S"; }
fn main() {
    let _ = ArchetypeRegistry::default();
    let _ = <(S, Q0)>::DESCRIPTOR;
    let mut r = Registry::default();
    let ops = all();
    // every set of S and five or six others, twice, in two orders
    let mut by_set: Vec<(u32, usize)> = Vec::new();
    for rev in [false, true] {
        for m in 0..1u32 << 12 {
            if m.count_ones() != 5 { continue; }
            let e = r.create_entity(S(m)).ok().unwrap();
            let mut ix: Vec<usize> = (0..12).filter(|i| m & (1 << i) != 0).collect();
            if rev { ix.reverse(); }
            for i in ix { ops[i](&mut r, e); }
            if !rev { by_set.push((m, 0)); }
        }
    }
    // an archetype per set: both entities of a set are in one slice
    let mut seen = std::collections::BTreeSet::new();
    for s in r.iter_components_matching::<S>() {
        if s.is_empty() { continue; }
        let m = s[0].0;
        if m.count_ones() != 5 { continue; }
        assert_eq!(s.len(), 2, "set {m:b}");
        assert!(s.iter().all(|x| x.0 == m));
        assert!(seen.insert(m));
    }
    assert_eq!(seen.len(), by_set.len());
}
'''),
dict(id="c16-last-version-retired", property="C16",
  edits=[(ER, '''        self.next_free_slot = entity.index();
        entry.set_version(entry''', '''        if entity.version() != u8::MAX {
            self.next_free_slot = entity.index();
        }
        entry.set_version(entry''')],
  needs="a slot freed with its last version",
  breaks="the slot is never used again, and the table grows",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    for i in 0..600u64 {
        let e = r.create_entity(A(i)).ok().unwrap();
        assert_eq!(e.index(), 0);
        assert_eq!(e.version() as u64, i % 256);
        assert!(r.destroy_entity(e));
    }
}
'''),
dict(id="c22-read-counter", property="C22",
  edits=[(R, '''    archetypes: ArchetypeRegistry,
}
''', '''    archetypes: ArchetypeRegistry,
    /// Number of tuple queries so far.
    queries: core::sync::atomic::AtomicU64,
}
'''), (R, '''    ) -> Option<G::RefTuple<'registry>> {
''', '''    ) -> Option<G::RefTuple<'registry>> {
        self.queries.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
''')],
  needs="a shared registry whose memory is watched for writes during a tuple query",
  breaks="every shared tuple query writes to the registry",
  demo=COMMON + '''
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
fn main() {
    assert!(std::mem::size_of::<Registry>() < 1 << 16);
    unsafe {
        // a page of its own, read-only while it is read
        let p = mmap(std::ptr::null_mut(), 1 << 16, 3, 0x22, -1, 0) as *mut Registry;
        assert!(p as isize != -1);
        p.write(Registry::default());
        let e = (*p).create_entity((A(1), B(2))).ok().unwrap();
        assert_eq!(mprotect(p as *mut u8, 1 << 16, 1), 0);
        let r: &Registry = &*p;
        assert_eq!(r.get_component::<A>(e), Some(&A(1)));
        assert_eq!(r.get_components::<(B, A)>(e), Some((&B(2), &A(1))));
        assert_eq!(r.iter_components_matching::<A>().count(), 1);
        assert_eq!(mprotect(p as *mut u8, 1 << 16, 3), 0);
        std::ptr::drop_in_place(p);
    }
}
'''),
dict(id="c18-length-sixteen-bits", property="C18",
  edits=[("src/fnv1a.rs", '''pub const fn fnv1a_hash_64(bytes: &[u8], limit: Option<usize>) -> u64 {
    let mut hash = FNV_OFFSET_BASIS_64;

    let mut i = 0;''', '''pub const fn fnv1a_hash_64(bytes: &[u8], limit: Option<usize>) -> u64 {
    let mut hash = FNV_OFFSET_BASIS_64;

    let limit = match limit {
        Some(v) if v > bytes.len() => Some(v & 0xFFFF),
        l => l,
    };
    let mut i = 0;''')],
  needs="a limit above 65,536 whose low sixteen bits are smaller than the input's length",
  breaks="a limit that is too large is not ignored",
  demo='''
use shard_ecs::fnv1a::*;
fn main() {
    let b = [7u8; 100];
    let whole = fnv1a_hash_64(&b, None);
    assert_eq!(fnv1a_hash_64(&b, Some(101)), whole);
    assert_eq!(fnv1a_hash_64(&b, Some(65_536 + 10)), whole);
    assert_eq!(fnv1a_hash_64(&b, Some(usize::MAX)), whole);
}
'''),
]
