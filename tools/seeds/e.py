# Planted bugs, fifth part: methods of iterators other than `next`.
IT = "src/entity_registry/iterator.rs"
AI = "src/archetype_registry/iterators/archetype_iter.rs"
MI = "src/archetype_registry/iterators/matching_iter.rs"
COMMON = '''
use shard_ecs::*;
#[derive(Debug, Clone, PartialEq)]
pub struct A(pub u32);
impl Component for A { const NAME: &'static str = "A"; }
#[derive(Debug, Clone, PartialEq)]
pub struct B(pub u32);
impl Component for B { const NAME: &'static str = "B"; }
#[derive(Debug, Clone, PartialEq)]
pub struct C(pub u32);
impl Component for C { const NAME: &'static str = "C"; }
'''
SEEDS = [
dict(id="c02-skip-over-free-slots", property="C02",
  edits=[(IT, '''    fn next(&mut self) -> Option<Self::Item> {
        while self.current''', '''    fn next(&mut self) -> Option<Self::Item> {
        self.nth(0)
    }

    // Skipping needs no visit of the entries skipped.
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.current = self.current.saturating_add(n);
        while self.current''')],
  needs="an entity iteration that skips entities (skip, nth, step_by), in a registry with free slots",
  breaks="free slots are counted as entities when skipping",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    let e: Vec<Entity> = (0..6).map(|i| r.create_entity(A(i)).ok().unwrap()).collect();
    assert_eq!(r.iter_entities().skip(2).collect::<Vec<_>>(), e[2..]);
    assert!(r.destroy_entity(e[1]));
    assert!(r.destroy_entity(e[2]));
    assert_eq!(r.iter_entities().collect::<Vec<_>>(), [e[0], e[3], e[4], e[5]]);
    assert_eq!(r.iter_entities().skip(2).collect::<Vec<_>>(), [e[4], e[5]]);
    assert_eq!(r.iter_entities().nth(1), Some(e[3]));
}
'''),
dict(id="c04-count-without-test", property="C04",
  edits=[(MI, '''impl<'a, G: ComponentGroup> Iterator for MatchingIter<'a, G> {
    type Item = G::SliceRefTuple<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        let archetype = self.inner_iterator.next()?;
        unsafe { Some(archetype.get_fuzzy_slices_unchecked::<G>()) }
    }
''', '''impl<'a, G: ComponentGroup> Iterator for MatchingIter<'a, G> {
    type Item = G::SliceRefTuple<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        let archetype = self.inner_iterator.next()?;
        Some(unsafe { archetype.get_fuzzy_slices_unchecked::<G>() })
    }

    fn count(self) -> usize {
        self.inner_iterator.count()
    }
'''), (AI, '''    type Item = &'a Archetype;

    fn next(&mut self) -> Option<Self::Item> {
        if !G::DESCRIPTOR.is_valid() {
            return None;
        }
''', '''    type Item = &'a Archetype;

    fn count(mut self) -> usize {
        // Find the first, all that come after it need not be visited.
        match self.next() {
            None => 0,
            Some(_) => {
                let level = self.current_level as usize;
                1 + self.sorted_mappings[level].len() - self.current_index_in_level
                    + self.sorted_mappings[level + 1..].iter().map(|l| l.len()).sum::<usize>()
            }
        }
    }

    fn next(&mut self) -> Option<Self::Item> {
        if !G::DESCRIPTOR.is_valid() {
            return None;
        }
''')],
  needs="count() of a shared matching iteration, with larger component sets that do not match",
  breaks="sets that do not match are counted",
  demo=COMMON + '''
fn main() {
    let mut r = Registry::default();
    r.create_entity(A(1)).ok().unwrap();
    r.create_entity((A(1), B(2))).ok().unwrap();
    assert_eq!(r.iter_components_matching::<A>().count(), 2);
    assert_eq!(r.iter_components_matching::<(B, A)>().count(), 1);
    r.create_entity((B(1), C(2))).ok().unwrap();
    assert_eq!(r.iter_components_matching::<(B, C)>().count(), 1);
    assert_eq!(r.iter_components_matching::<A>().count(), 2);
}
'''),
]
