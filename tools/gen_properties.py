#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
R = "src/registry/registry.rs"
D = "src/archetype/data_access.rs"
AM = "src/archetype/mod.rs"
AR = "src/archetype_registry/mod.rs"
AD = "src/descriptors/archetype_descriptor.rs"
CD = "src/descriptors/component_descriptor.rs"
CG = "src/descriptors/component_group.rs"
CGD = "src/descriptors/component_group_descriptor.rs"
ER = "src/entity_registry/mod.rs"
EN = "src/entity_registry/entity.rs"
EE = "src/entity_registry/entry.rs"
IA = "src/entity_registry/index_in_archetype.rs"
EI = "src/entity_registry/iterator.rs"
FN = "src/fnv1a.rs"
IT = "src/archetype_registry/iterators/"

def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": mechanism, "hook_needed": None}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The registry is a map from live entities to their component values",
 "After any sequence of creating, destroying and removing entities and adding and removing components, every live entity has exactly the component types and values that sequence gave it, and every single- or multi-component query (shared or mutable) on it reports exactly that. "
 "An operation on one entity never changes, moves into, or loses the component data of any other entity. "
 "Removing a component, or removing a whole entity by its exact component set, hands back exactly the values that were stored.",
 ["histories", "inputs"],
 "all histories of registry operations, all component sets of 1 to 14 types (any size, alignment, tuple order), any number of entities per component set",
 "The unit tests follow a few short scripts over three word-sized components; which row is swapped into which hole, when storage grows and how components are copied between storages depends on the whole history and on every component's layout.",
 [R, D, AR, AD],
 [m("swap-with-last and fix-up of the swapped entity's location", R + " create_entity/destroy_entity/remove_entity/add_component/remove_component"),
  m("column copy between archetypes, swap and push with growth", D)],
 [s("entity entry", "archetype index + row of each entity", EE), s("archetype columns", "component data", AM)],
 ["Registry::get_component(s)(_mut)", "Registry::has_component(s)", "Registry::remove_component", "Registry::remove_entity"])

prop("C02", "Entity handles name exactly one live entity and go stale on destruction",
 "No two live entities share a handle, a handle keeps naming the same entity from creation until that entity is destroyed or removed, and iterating all entities yields exactly the live handles, each once, however the iterator is driven (next, nth, skip, count, last). "
 "A handle that is not currently live (destroyed, from elsewhere, arbitrary bits, or the invalid handle) is refused by every registry operation with no effect. "
 "A destroyed handle does not become live again before its slot has been reused 256 times.",
 ["histories", "inputs"],
 "all histories with slot reuse, all 32-bit handle values passed to every operation",
 "Tests reuse a slot at most once or twice and only pass the invalid handle or a just-destroyed one; version wrap, free-list order and arbitrary handle bits are never explored.",
 [R, ER, EN, EI],
 [m("version check and increment, free list of slots", ER + " create_entity/destroy_entity/entity_entry"), m("entity iterator skipping free slots", EI)],
 [s("next_free_slot", "head of the free list threaded through dead entries", ER)],
 ["every Registry method taking an Entity", "Registry::iter_entities"])

prop("C03", "Every component value is dropped exactly once or handed back to its caller",
 "Each component value given to a registry is either dropped exactly once (when its entity is destroyed or the registry is dropped) or handed back exactly once to a caller (as the result of a removal or of a refused operation). "
 "No value is ever dropped twice, dropped while still stored, dropped as garbage, or forgotten, whatever the history, including growth and moves between component sets.",
 ["histories", "inputs"],
 "all histories of registry operations ending in dropping the registry, over components that do and do not need drop, own heap memory, or are zero-sized",
 "The tests only print from Drop and assert nothing about it; ownership depends on every move, swap and failure path taken by the history.",
 [R, D, AM, CD],
 [m("type-erased drop handler", CD + " drop_handler_wrapper"), m("bitwise moves paired with mem::forget / decrement_len", D + ", " + R), m("Drop for Archetype", AM)],
 None, ["Drop of component values", "values returned by Registry methods"])

prop("C04", "Matching iteration visits each matching entity exactly once with its own data",
 "Iterating the components matching a group visits, over all slices yielded, exactly the live entities whose component set contains the group, each exactly once, and at every position the entity slice and all component slices refer to the same entity and have the same length. "
 "Shared and mutable, with-entities and without-entities variants agree with each other, and stopping early, polling after the end, or driving the iterator by any other of its methods (count, nth, skip, last) is harmless and consistent with next.",
 ["histories", "inputs"],
 "all registry histories, all groups of 1 to 14 component types in any tuple order, all four matching iterator variants, any consumption pattern",
 "Tests iterate one or two storages of 32 rows, with a group equal to or one smaller than the set; nothing covers many storages at many sizes, emptied storages, or agreement with what was destroyed or moved.",
 [R, AR, IT + "archetype_iter.rs", IT + "archetype_iter_mut.rs", IT + "matching_iter.rs", IT + "matching_iter_mut.rs", D],
 [m("walk of storages by component count with subset test", IT + "archetype_iter.rs, archetype_iter_mut.rs"), m("slices of the subset columns", D + " get_fuzzy_*")],
 [s("sorted_mappings", "storages per component count", AR)],
 ["Registry::iter_components_matching(_mut)", "Registry::iter_entity_components_matching(_mut)"])

prop("C05", "Only the set of component types matters, not tuple order or construction route",
 "Entities with the same set of component types are treated identically whether they were created with it in any tuple order or reached it by adding and removing components. "
 "Exact iteration over a group yields exactly the live entities whose component set equals the group's set, each once, with entity and component slices aligned, and removing an entity by an exact group succeeds for any tuple order of its set. "
 "Every tuple-typed result presents each component at its own tuple position.",
 ["histories", "inputs"],
 "all pairs of routes (create order, sequences of adds and removes) to the same component set, all tuple orders, set sizes 1 to 14",
 "No test uses exact iteration at all, nor compares an entity created with a set to one that reached the set through add or remove.",
 [R, AR, AD, CGD, CG],
 [m("storage identity computed from sorted component ids", AD + " compute_archetype_id, add_component, remove_component; " + CGD + " new"), m("exact lookup", AR + " find_archetype(_mut)")],
 None, ["Registry::iter_components_exact(_mut)", "Registry::iter_entity_components_exact(_mut)", "Registry::remove_entity", "Registry::get_components"])

prop("C06", "A write through mutable access lands on exactly the addressed component",
 "A value written through any mutable access path (single component, component tuple, mutable matching, filtered or exact iteration) is what every later read of that entity's component reports through any path, until overwritten or removed, including after the entity or its neighbours move. "
 "No other component of any entity changes, and the mutable references handed out together never overlap.",
 ["histories", "inputs"],
 "all histories mixing writes through every mutable path with structural changes, all groups and tuple orders",
 "Tests obtain mutable references but never write through them and read back.",
 [R, D, CG, IT + "archetype_iter_mut.rs", IT + "matching_iter_mut.rs", IT + "filter_matching_iter_mut.rs"],
 [m("pointer arithmetic on columns by row", D + " get_component_unchecked_mut, get_fuzzy_*_mut, get_slices_*_mut"), m("tuple position mapping", CG)],
 None, ["Registry::get_component_mut", "Registry::get_components_mut", "Registry::iter_*_mut"])

prop("C07", "A refused operation changes nothing and gives its arguments back",
 "When an operation is refused (dead handle, component already present, component absent, removing the last component, more than 14 components, removing an entity with a group that is not exactly its component set, invalid group, or an exhausted limit) it reports failure without panicking and returns any component values passed in unchanged. "
 "The observable state of the registry - live handles, component sets, values, and all iterations - is the same before and after.",
 ["histories", "inputs"],
 "every refusable operation in every reachable registry state",
 "Tests exercise a handful of refusals on the invalid handle only and never compare the state before and after; mismatching entity removal is never tried.",
 [R, AR, AD, ER],
 [m("early returns before any mutation", R), m("None from descriptor add/remove and storage creation", AD + ", " + AR)],
 None, ["Err / None / false results of Registry methods", "full registry observation"])

prop("C08", "Documented capacity limits are reachable, enforced cleanly, and recover",
 "A registry supports entities with every number of components from 1 to 14, up to 65,534 distinct component sets, and up to 16,777,215 simultaneously live entities, spread in any way over component sets (including all in one), with all data intact. "
 "Exceeding a limit is refused without panic, corruption or losing the caller's values. "
 "Destroying entities at the limit makes room for as many new ones.",
 ["configurations", "histories"],
 "fill patterns up to and past each limit, reached via create, add and remove, with churn at the limit",
 "The largest test population is 1,064 entities, 3 component sets and 3 components per entity; every limit and every storage growth step beyond a few hundred rows is untested.",
 [R, AR, ER, D, AD, "src/constants.rs"],
 [m("limit checks", ER + " create_entity, " + AR + " find_or_create_archetype, " + AD + " add_component"), m("doubling growth with clamp", D + " resize_if_necessary/resize_capacity")],
 None, ["Registry::create_entity", "Registry::add_component", "Registry::remove_component"])

prop("C09", "Component storage honours the allocator contract and every type's layout",
 "For components of every size from 0 to 65,535 bytes and every alignment, each stored value sits at an address aligned for its type and no two stored values overlap, whatever the growth history. "
 "Every memory request is non-empty, every block is released exactly once with the layout it was obtained with, nothing is touched outside a live block, and dropping a registry or storage releases everything it allocated.",
 ["inputs", "histories"],
 "all component layouts (size, alignment, number of columns), initial capacities including 0, and histories of growth, moves and removal",
 "Tests only use 8-byte components with 8-byte alignment; the system allocator tolerates zero-sized requests, wrong layouts and small overruns silently.",
 [AM, D, CD],
 [m("layout computation for alloc/realloc/dealloc", AM + " with_capacity, " + D + " resize_capacity/dealloc"), m("size/align in the component descriptor", CD)],
 None, ["global allocator calls", "addresses of component references and slices"])

prop("C10", "A panicking component destructor never causes a double drop or corruption",
 "If a component's destructor panics while an entity is destroyed or the registry is dropped, and the panic is caught, no component value is ever dropped a second time. "
 "After such a destroy the entity is gone (its handle is dead), every other entity keeps its handle and components, and the registry remains fully usable.",
 ["fault_sequences", "histories"],
 "all histories with destructors that panic at any chosen point",
 "No test has a destructor that panics.",
 [R, D, AM, CD],
 [m("bookkeeping completed before running destructors", R + " destroy_entity, " + D + " swap_drop_unchecked"), m("drop glue", CD + " drop_handler_wrapper")],
 None, ["Drop of component values", "registry observation after catch_unwind"])

prop("C11", "Different component sets are never conflated, even when their ids collide",
 "Two different sets of component types are always distinguished: entities with one set never show, share storage with, or are iterated as the other, even when the 32-bit identifiers computed for the two sets are equal or equal the reserved invalid value. "
 "Every set of 1 to 14 distinct valid component types can be used.",
 ["inputs", "histories"],
 "all pairs of component sets, in particular same-size sets with colliding identifiers, and operations on entities of both",
 "Tests use three component types; identifier collisions need a search over component ids and never occur by chance there.",
 [AR, AD, CGD],
 [m("lookup of storages by identifier", AR + " find_archetype, find_archetype_mut, find_or_create_archetype"), m("identifier computation", AD + " compute_archetype_id")],
 None, ["Registry and ArchetypeRegistry lookups", "has/get/iterate on entities of both sets"])

prop("C12", "An archetype is a dense table of rows that survives growth, swap and removal",
 "Through its public interface an archetype behaves as a dense table with one row per entity: pushes append (growing from any initial capacity, including zero) and return the row, swapping exchanges two whole rows, swap-removal and swap-drop delete one row by moving the last into its place and report whether a move occurred, and no other row changes. "
 "Length, fullness, entity list, component slices (exact or subset, any tuple order) and single-component reads always agree with that table.",
 ["histories", "inputs"],
 "all sequences of archetype operations within their stated preconditions, all layouts, initial capacities 0..",
 "Tests push one or two rows into an archetype with default capacity; growth, zero initial capacity and removal are not tested directly.",
 [AM, D],
 [m("row operations over type-erased columns", D), m("allocation with given capacity", AM + " with_capacity")],
 None, ["Archetype public methods"])

prop("C13", "The archetype registry keeps one stable archetype per component set",
 "Finding or creating an archetype for a component set returns the same index every time for the same set and different indices for different sets; lookups find it exactly when it has been created, indices never change, and the found archetype describes exactly that set. "
 "Deriving an archetype by adding or removing one component yields the source unchanged together with the archetype of precisely the resulting set, or nothing if that is impossible (component present, absent, last, full, limit reached or source index out of range).",
 ["histories", "inputs"],
 "all sequences of find, create, add-derive and remove-derive over all component sets",
 "The only test creates a single archetype.",
 [AR, AD],
 [m("per-size sorted mapping tables and binary search", AR), m("disjoint mutable access", AR + " disjoint_mut")],
 [s("sorted_mappings", "per component count, ids sorted for binary search", AR)],
 ["ArchetypeRegistry public methods"])

prop("C14", "Archetype descriptors form a faithful algebra of component sets",
 "A descriptor reached by any valid sequence of adding and removing components lists exactly the resulting set, sorted by component id and with each component's own size, alignment and drop behaviour; adding fails exactly if the component is present or 14 are present, removing exactly if it is absent or the last one. "
 "Membership, subset and exclusion tests agree with set operations, and equal sets always get equal identifiers however they were built.",
 ["inputs", "histories"],
 "all component sets of 1 to 14 types over all 16-bit ids, all add/remove sequences, all pairs for the relational tests",
 "Tests check sets of at most three components and never reach 13 or 14.",
 [AD, CD, CGD],
 [m("sorted insertion/removal and identifier recomputation", AD)],
 None, ["ArchetypeDescriptor public methods"])

prop("C15", "Component groups map tuple positions to sorted components faithfully",
 "For every valid group of 1 to 14 distinct component types, in any tuple order, the group's descriptor lists exactly its types sorted by id, its two position mappings are mutually inverse permutations consistent with that order, and a group containing a type twice is invalid. "
 "Splitting a tuple into type-erased parts and reading it back - as value, shared or mutable references, or slices, in the same or any other tuple order - gives every part at its own position.",
 ["inputs"],
 "all tuple arities 1 to 14, all orders, all component ids",
 "Tests check three-component groups in three of the six orders with ids 1, 2, 3.",
 [CG, CGD],
 [m("const sort and mapping computation", CGD + " compute_sorted_descriptors, compute_sort_mappings"), m("macro-generated tuple implementations per arity", CG)],
 None, ["ComponentGroup trait methods", "ComponentGroupDescriptor accessors"])

prop("C16", "The entity table allocates and recycles slots as a faithful handle map",
 "Used on its own, the entity table returns for every live handle exactly the location stored for it, refuses every other handle, and iterates exactly the live handles. "
 "Freed slots are reused before the table grows, a reused slot gets the next version (wrapping after 256), and creation fails only when 16,777,215 entities are live; the query whether a new entity can be registered agrees with whether creation succeeds.",
 ["histories", "configurations"],
 "all sequences of create, destroy, location update and lookup, up to and at the slot limit",
 "Tests create and destroy 1,024 entities twice, in one order, and never reach the limit.",
 [ER, EE, EI],
 [m("intrusive free list and version bump", ER), m("packed entries", EE)],
 [s("next_free_slot", "free list head", ER)],
 ["EntityRegistry public methods"])

prop("C17", "Packed handles, rows and entries store each field independently and losslessly",
 "For every 24-bit index and 8-bit version an entity handle returns exactly the index and version it was built or updated with, updating one never disturbs the other, and raw values round-trip; only the all-ones handle is the invalid one. "
 "Row indices below 2^24-1 round-trip through their 3-byte form and larger ones are refused, and in an entity entry version, row, archetype index and validity are independent of each other.",
 ["inputs"],
 "all 32-bit handles, all 24-bit rows, all entry field values and update orders",
 "Tests check one handle and ten hand-picked values per field.",
 [EN, EE, IA, "src/entity_registry/archetype_index.rs"],
 [m("shift/mask packing", EN), m("byte packing", EE + ", " + IA)],
 None, ["Entity, EntityEntry, IndexInArchetype, ArchetypeIndex accessors"])

prop("C18", "Hashes are FNV-1a and component ids are a stable function of the name",
 "The 64- and 32-bit hash functions equal FNV-1a of the first `limit` bytes (of the whole input if the limit is absent, zero or too large), and the 16-bit one is the xor of the two halves of the 32-bit one; the string forms hash the string's UTF-8 bytes. "
 "A component's default type id is the 16-bit hash of its name, so equal names give equal ids in every program and build.",
 ["inputs"],
 "all byte strings and limits, all names",
 "There is no test of the hash functions at all.",
 [FN, "src/descriptors/component.rs", "src/descriptors/component_type_id.rs"],
 [m("const fn FNV-1a", FN), m("default associated const ID", "src/descriptors/component.rs")],
 None, ["fnv1a::* functions", "Component::ID"])

prop("C19", "The derive macro produces a correct component for every type it accepts",
 "Deriving Component on any struct or enum (unit, tuple or named fields, with attributes and any visibility), or on a generic one whose bounds satisfy Component, compiles wherever the hand-written implementation it stands for (the type's own generics and bounds, the identifier as the name) does, and gives a component whose name is exactly the type's identifier and whose id and layout are those that implementation would have. "
 "Derived components behave in a registry exactly like hand-written ones.",
 ["programs"],
 "all Rust type definitions of the supported shapes",
 "The derive crate has no tests at all and the build only type-checks the feature.",
 ["shard_ecs_derive/src/lib.rs", "src/descriptors/component.rs"],
 [m("proc macro expansion", "shard_ecs_derive/src/lib.rs derive_component")],
 None, ["compilation and behaviour of generated programs"])

prop("C20", "Registries are independent of each other and deterministic",
 "Running the same history on a registry gives the same handles, results, values and iteration contents and order every time, no matter which other registries exist, what was done to them, or in what way the calls are interleaved with theirs. "
 "Dropping one registry never affects another.",
 ["histories"],
 "all pairs of histories and their interleavings on separate registries in one process",
 "No test has two registries interacting in time; hidden shared state would not be noticed.",
 [R, ER, AR],
 [m("all state owned by the registry value", R + " struct Registry")],
 None, ["all Registry methods on two registries"])

prop("C21", "Groups that repeat a component type are rejected everywhere, without panic",
 "A component group naming the same component type more than once never matches anything: creation with it is refused and returns the values, has-queries answer false, get-queries answer none, removal answers none, and every iteration (matching, filtered, exact; shared or mutable; with or without entities) yields no rows. "
 "None of these panics, touches invalid memory, or changes the registry, in debug or release builds.",
 ["inputs", "histories"],
 "all repeating groups of 2 to 14 elements, all operations taking a group, all registry states",
 "Tests only check that the descriptor of one repeating pair is invalid, never what the registry does with it.",
 [R, CGD, AR, IT + "archetype_iter.rs", IT + "archetype_iter_mut.rs", IT + "filter_archetype_iter.rs", IT + "filter_archetype_iter_mut.rs"],
 [m("group validation", CGD + " validate_component_descriptors"), m("validity checks at use", R + ", " + IT)],
 None, ["every Registry method generic over a group"])

prop("C22", "Registries can be sent to and read from many threads without data races",
 "A registry moved to another thread behaves exactly as if it had stayed, and any number of threads reading one shared registry at the same time (queries and all shared iterations) each observe exactly its current contents. "
 "Shared reads never write to shared memory, so they are free of data races under every schedule.",
 ["schedules", "histories"],
 "all histories producing a registry, all sets of concurrent read-only programs and their interleavings, moves between threads at any point of a history",
 "No test uses threads, although Send and Sync are asserted by hand with unsafe impl.",
 [AM, R],
 [m("unsafe impl Send/Sync for Archetype; shared methods only read", AM)],
 None, ["Registry shared methods called from several threads"])

prop("C23", "No history of safe calls causes undefined behaviour",
 "No sequence of calls to the safe interface, with components of any layout, reads uninitialised, freed or out-of-bounds memory, forms a misaligned or null reference, or creates mutable references that alias. "
 "This holds in particular across storage growth, moves between component sets, removal, mutable iteration and teardown, with and without optimisation. "
 "A component type larger or more aligned than the storage can describe (65,535 bytes) is refused by the compiler, or works; it never compiles to code that corrupts memory.",
 ["histories", "inputs"],
 "all histories of safe calls over components of all layouts",
 "Ordinary test runs do not notice undefined behaviour that happens not to crash.",
 [D, AM, CG, IT + "archetype_iter_mut.rs", IT + "filter_archetype_iter_mut.rs", R],
 [m("raw pointer columns", D), m("pointer-to-tuple conversions", CG), m("aliasing-free mutable iteration", IT)],
 None, ["execution under an undefined-behaviour interpreter and address sanitizer"])

prop("C24", "Filtered iteration is matching iteration restricted by the caller's predicate",
 "For any predicate on component sets, filtered iteration yields exactly the rows of matching iteration whose entity's component set satisfies the predicate, with the same data, in all four variants (shared or mutable, with or without entities). "
 "The component set shown to the predicate is exactly that of the storage concerned. A predicate that panics leaves the registry unchanged.",
 ["histories", "inputs"],
 "all registry histories, all groups, all predicates over component sets",
 "No test uses any filtered iterator.",
 [R, AR, IT + "filter_archetype_iter.rs", IT + "filter_archetype_iter_mut.rs", IT + "filter_matching_iter.rs", IT + "filter_matching_iter_mut.rs"],
 [m("predicate applied with the subset test", IT + "filter_archetype_iter.rs, filter_archetype_iter_mut.rs")],
 None, ["Registry::iter_filtered_*"])

prop("C25", "Refused memory leaves the registry exactly as it was",
 "If the memory needed to create an entity, add a component or remove a component is refused (the global allocator returns null), the call panics, gives its arguments back, or ends the process as the standard library does when out of memory; it never uses the null pointer or touches memory outside a live block. "
 "After such a panic is caught, every entity keeps its handle, its component set and its values, no entity exists without components, each value passed in is dropped exactly once or handed back, and no memory is leaked or released twice. "
 "The registry stays fully usable: the same call succeeds once memory is available.",
 ["histories", "fault_sequences"],
 "all registry histories with allocation failure at any request of any call that creates or moves an entity",
 "No test refuses memory; create_entity documents a panic in case of allocation failure, and a half-made change only shows in later calls.",
 [D, AM, R, AR],
 [m("growth of the columns", D + " resize_capacity, resize_if_necessary"), m("initial columns", AM + " with_capacity"), m("order of growth and bookkeeping", R + " create_entity, add_component, remove_component"), m("registration of a new archetype", AR + " find_or_create_archetype")],
 None, ["global allocator calls", "results of all calls after a caught panic"])

prop("C26", "Without the standard library the crate builds and behaves the same",
 "A program without the standard library (#![no_std], with an allocator and a panic handler of its own) that uses the crate, with or without its derive feature, builds in debug and release mode, and every call in it has the effects and results it has in an ordinary program. "
 "The crate asks nothing of its environment but core, alloc and a global allocator.",
 ["programs", "configurations"],
 "all programs that use the public interface with component types of any layout, derived or hand-written, built with and without the standard library, in debug and release mode, with panics that unwind or abort",
 "The README promises no_std support; every test is itself built with the standard library, where a dependency on it goes unnoticed.",
 ["src/lib.rs", "shard_ecs_derive/src/lib.rs", R, AM],
 [m("no_std, alloc only", "src/lib.rs crate attributes"), m("paths in the derive macro's expansion", "shard_ecs_derive/src/lib.rs derive_component")],
 None, ["whether a program builds", "values printed by it"])
prop("C27", "Memory follows what is stored: churn does not grow it, growth is amortised",
 "The memory a registry holds is bounded by a constant multiple of what its largest populations so far needed: the rows of every component set that has had entities (each set with room for at least the default number of rows), one slot per entity alive at once, and a constant per component set. "
 "No number of creations, destructions, additions, removals, refused calls or reads beyond that makes it grow. "
 "The bytes requested from the allocator over a whole history are bounded by a constant multiple of the same plus a small constant per call, so growing is amortised. Dropping the registry releases every byte.",
 ["histories"],
 "all registry histories of any length over any component sets",
 "A table that is not reused, or that is enlarged by less than a factor, still returns right results in short tests; the cost only shows over long histories or large populations.",
 [ER, D, AM, AR],
 [m("reuse of slots", ER + " create_entity, destroy_entity"), m("growth of columns", D + " resize_if_necessary"), m("reuse of archetypes", AR + " find_or_create_archetype")],
 None, ["bytes held and requested at the global allocator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
