From 3861e6238f08bedb3923e85071acb0471b63bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/15] fix: adding the 14th and removing from 14 components
 indexed out of bounds

---
 src/descriptors/archetype_descriptor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..c59bf2a 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,11 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                let last_index = self.len() as usize - 1;
+                for i in found_index..last_index {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[last_index] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From af7c6bbfb55bb6f0035b630f33c84804a37ccc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 02/15] fix: one archetype id per component set, however the
 set was built

---
 src/descriptors/component_group_descriptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..20960c4 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,8 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the used part may be hashed, as is done when components are added or removed.
+        let id = ArchetypeDescriptor::compute_archetype_id(sorted_descriptors.split_at(N).0);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From 9c0f4d6530ca39ff8c5a082a3a74a5d1597caf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 03/15] fix: remove_entity refuses groups that are not exactly
 the entity's set

---
 src/registry/registry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..a62ccd0 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,13 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        if archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From af2c82d2a9bca6c8d829d5bcc94995146647d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 04/15] fix: groups repeating a component type are rejected by
 queries and iteration

---
 src/archetype_registry/iterators/archetype_iter.rs       | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs   | 2 +-
 .../iterators/filter_archetype_iter.rs                   | 2 +-
 .../iterators/filter_archetype_iter_mut.rs               | 2 +-
 src/registry/registry.rs                                 | 9 +++++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index a62ccd0..31fa93a 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -120,6 +120,9 @@ impl Registry {
     /// Returns false if entity is invalid or does not have all of the specified components.
     /// If you need to check for only a single components, prefer to use [`Registry::has_component`] instead.
     pub fn has_components<'registry, G: ComponentGroup>(&'registry self, entity: Entity) -> bool {
+        if !G::DESCRIPTOR.is_valid() {
+            return false;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return false,
             Some(v) => v,
@@ -154,6 +157,9 @@ impl Registry {
         &'registry self,
         entity: Entity,
     ) -> Option<G::RefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
@@ -195,6 +201,9 @@ impl Registry {
         &'registry mut self,
         entity: Entity,
     ) -> Option<G::MutRefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
-- 
2.43.0


From ba6779c9b7c1841e85d4a44b6b33f102809e0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 05/15] fix: component sets with equal archetype ids are told
 apart

---
 src/archetype_registry/mod.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..e68b024 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,33 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the sorted mappings for the given (valid) descriptor. Archetype ids are hashes, so
+    /// different component sets may share one: the component types themselves break the tie.
+    fn search_mapping(&self, archetype_descriptor: &ArchetypeDescriptor) -> Result<usize, usize> {
+        self.sorted_mappings[archetype_descriptor.len() as usize - 1].binary_search_by(|key| {
+            key.id.cmp(&archetype_descriptor.archetype_id()).then_with(|| {
+                self.archetypes[key.archetype_index as usize]
+                    .descriptor()
+                    .components()
+                    .iter()
+                    .map(|c| c.component_type_id())
+                    .cmp(
+                        archetype_descriptor
+                            .components()
+                            .iter()
+                            .map(|c| c.component_type_id()),
+                    )
+            })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_mapping(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +112,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_mapping(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +185,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_mapping(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
-- 
2.43.0


From d34b6d0d2ea4cb1437b9d3fb9245f92f460ef536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 06/15] fix: component sets hashing to the reserved archetype
 id are usable

---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index c59bf2a..ea38335 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let id = ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())));
+        if !id.is_valid() {
+            // The hash happens to be the reserved value, use another one (ids need not be unique).
+            return ArchetypeId::from_u32(0);
+        }
+        id
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From 267cdae025a78724c6d67b2763d8d5fc308446f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 07/15] fix: archetype index range check was off by one

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index e68b024..dfd11b6 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -129,7 +129,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -157,7 +157,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From 03fbf7e2a8dc3cd740dbf4ad3f9479620e56d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 08/15] fix: free entity slots are reused once the table has
 its maximum size

---
 src/entity_registry/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
-- 
2.43.0


From 738edc1def1121d78ec031f99e548be305957b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 09/15] fix: creating an entity in a full archetype is refused
 instead of panicking

---
 src/registry/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 31fa93a..4aa1390 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From 4daed02a7960d7ff46bf5fc21599a2ee8e7a6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 10/15] fix: archetypes grow up to their documented maximum
 instead of deallocating

---
 src/archetype/data_access.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..ad56adc 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -502,10 +502,13 @@ impl Archetype {
     /// Resizes the backing memory by the default amount if necessary.
     unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
+            assert!(self.capacity() < MAX_ENTITIES_PER_ARCHETYPE);
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
-                self.capacity() as usize
+                // Doubling must not go past the maximum.
+                self.capacity()
+                    .min(MAX_ENTITIES_PER_ARCHETYPE - self.capacity()) as usize
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From 64fb8d155d1a38d947d5b6fea8c9b2ebab3c1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 11/15] fix: no zero-sized allocator requests for zero-sized
 components

---
 src/archetype/data_access.rs | 15 ++++++-------
 src/archetype/mod.rs         | 42 +++++++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index ad56adc..f06da62 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,4 +1,4 @@
-use super::Archetype;
+use super::{dealloc_column, realloc_column, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
@@ -441,14 +441,11 @@ impl Archetype {
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * old_capacity as usize,
-                component_type.align as usize,
-            );
-            *pointer = realloc(
+            *pointer = realloc_column(
                 *pointer,
-                layout,
+                component_type.size as usize * old_capacity as usize,
                 component_type.size as usize * new_capacity,
+                component_type.align as usize,
             );
             assert_ne!(*pointer, core::ptr::null_mut());
         }
@@ -467,11 +464,11 @@ impl Archetype {
                 return;
             }
             let component_type = &self.descriptor.components()[index];
-            let layout = Layout::from_size_align_unchecked(
+            dealloc_column(
+                *pointer,
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
-            dealloc(*pointer, layout);
             *pointer = core::ptr::null_mut();
         }
         let layout = Layout::from_size_align_unchecked(
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..ef5683c 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,7 +1,7 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 
 mod data_access;
@@ -17,6 +17,43 @@ pub struct Archetype {
     capacity: u32,
 }
 
+/// Allocates a column of `size` bytes. An empty column gets an aligned dangling pointer, as the
+/// global allocator must not be asked for zero bytes.
+unsafe fn alloc_column(size: usize, align: usize) -> *mut u8 {
+    if size == 0 {
+        return align as *mut u8;
+    }
+    alloc(Layout::from_size_align_unchecked(size, align))
+}
+
+/// Resizes a column obtained by [`alloc_column`] or [`realloc_column`].
+unsafe fn realloc_column(
+    pointer: *mut u8,
+    old_size: usize,
+    new_size: usize,
+    align: usize,
+) -> *mut u8 {
+    if old_size == 0 {
+        return alloc_column(new_size, align);
+    }
+    if new_size == 0 {
+        dealloc_column(pointer, old_size, align);
+        return align as *mut u8;
+    }
+    realloc(
+        pointer,
+        Layout::from_size_align_unchecked(old_size, align),
+        new_size,
+    )
+}
+
+/// Releases a column obtained by [`alloc_column`] or [`realloc_column`].
+unsafe fn dealloc_column(pointer: *mut u8, size: usize, align: usize) {
+    if size != 0 {
+        dealloc(pointer, Layout::from_size_align_unchecked(size, align));
+    }
+}
+
 unsafe impl Send for Archetype {}
 unsafe impl Sync for Archetype {}
 
@@ -57,11 +94,10 @@ impl Archetype {
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
-                    let layout = Layout::from_size_align_unchecked(
+                    archetype.pointers[index] = alloc_column(
                         component.size as usize * capacity as usize,
                         component.align as usize,
                     );
-                    archetype.pointers[index] = alloc(layout);
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
                 archetype.capacity = capacity;
-- 
2.43.0


From cf9432cfff980be8fb001df0c1749c4bd6f522d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 12/15] fix: archetypes without capacity use no null pointers
 and can grow

---
 src/archetype/data_access.rs | 23 ++++++++---------------
 src/archetype/mod.rs         | 10 +++++++---
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index f06da62..b596caa 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,7 +2,6 @@ use super::{dealloc_column, realloc_column, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
@@ -426,14 +425,11 @@ impl Archetype {
         }
         let new_capacity = new_capacity as usize;
 
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * old_capacity as usize,
-            align_of::<Entity>(),
-        );
-        self.entity_associations = realloc(
+        self.entity_associations = realloc_column(
             self.entity_associations as *mut u8,
-            layout,
+            size_of::<Entity>() * old_capacity as usize,
             size_of::<Entity>() * new_capacity,
+            align_of::<Entity>(),
         ) as *mut Entity;
         assert_ne!(self.entity_associations, core::ptr::null_mut());
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
@@ -460,23 +456,20 @@ impl Archetype {
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
             dealloc_column(
                 *pointer,
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = core::ptr::null_mut();
+            *pointer = component_type.align as usize as *mut u8;
         }
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * self.capacity() as usize,
+        dealloc_column(
+            self.entity_associations as *mut u8,
+            size_of::<Entity>() * self.capacity as usize,
             align_of::<Entity>(),
         );
-        dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        self.entity_associations = align_of::<Entity>() as *mut Entity;
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index ef5683c..b0e252f 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -83,14 +83,18 @@ impl Archetype {
             entity_count: 0,
             capacity: 0,
         };
+        // Columns without memory use aligned dangling pointers, as they can be viewed as empty slices.
+        archetype.entity_associations = align_of::<Entity>() as *mut Entity;
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = component.align as usize as *mut u8;
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(
+                archetype.entity_associations = alloc_column(
                     size_of::<Entity>() * capacity as usize,
                     align_of::<Entity>(),
-                );
-                archetype.entity_associations = alloc(layout) as *mut Entity;
+                ) as *mut Entity;
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
-- 
2.43.0


From 3076f053e2a14beba183296f03be7a88ab247b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 13/15] fix: a panicking destructor no longer corrupts the
 registry

---
 src/archetype/data_access.rs | 7 ++++---
 src/registry/registry.rs     | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index b596caa..60a00c1 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -312,14 +312,15 @@ impl Archetype {
     pub unsafe fn swap_drop_unchecked(&mut self, index: u32) -> bool {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
-            // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // Is the last one, so just drop it. (The archetype forgets it first, so that it is not
+            // dropped again if a destructor panics).
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 4aa1390..21fe2ba 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -51,7 +51,8 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            // All bookkeeping is done before the components are dropped, as their destructors may panic.
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -62,9 +63,10 @@ impl Registry {
                     .unwrap()
                     .set_index_in_archetype(index_in_archetype);
             }
+            let _v = self.entities.destroy_entity(entity);
+            debug_assert!(_v);
+            archetype.swap_drop_unchecked(archetype.len() - 1);
         };
-        let _v = self.entities.destroy_entity(entity);
-        debug_assert!(_v);
         true
     }
 
-- 
2.43.0


From 9ed0b991afc10c667c4f71095f3706a003c3aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:00 +0000
Subject: [PATCH 14/15] fix: a refused memory request leaves archetypes and
 registry as they were

---
 src/archetype/data_access.rs | 47 +++++++++++++++++++++++++++---------
 src/archetype/mod.rs         | 34 +++++++++++++-------------
 src/registry/registry.rs     |  8 ++++++
 3 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 60a00c1..fe305e1 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,4 +1,4 @@
-use super::{dealloc_column, realloc_column, Archetype};
+use super::{dealloc_column, realloc_column, restore_column, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
@@ -414,7 +414,7 @@ impl Archetype {
     /// deallocates all memory.
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
-    /// - Panics if resizing fails for whatever reason. This leaves the archetype in an undefined state.
+    /// - Panics if resizing fails for whatever reason. This leaves the archetype as it was.
     /// - Deallocates if the new capacity is smaller or equal to zero.
     /// - Deallocates if the new capacity exceeds [`MAX_ENTITIES_PER_ARCHETYPE`]. TODO: This is weird?
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
@@ -426,29 +426,52 @@ impl Archetype {
         }
         let new_capacity = new_capacity as usize;
 
-        self.entity_associations = realloc_column(
+        let entity_associations = realloc_column(
             self.entity_associations as *mut u8,
             size_of::<Entity>() * old_capacity as usize,
             size_of::<Entity>() * new_capacity,
             align_of::<Entity>(),
         ) as *mut Entity;
-        assert_ne!(self.entity_associations, core::ptr::null_mut());
-        for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
-            .enumerate()
-        {
+        assert_ne!(entity_associations, core::ptr::null_mut());
+        self.entity_associations = entity_associations;
+        for index in 0..self.descriptor.len() as usize {
             let component_type = &self.descriptor.components()[index];
-            *pointer = realloc_column(
-                *pointer,
+            let pointer = realloc_column(
+                self.pointers[index],
                 component_type.size as usize * old_capacity as usize,
                 component_type.size as usize * new_capacity,
                 component_type.align as usize,
             );
-            assert_ne!(*pointer, core::ptr::null_mut());
+            if pointer.is_null() {
+                // All columns must have the same capacity, so the ones already resized go back.
+                self.restore_columns(index, new_capacity, old_capacity as usize);
+            }
+            assert_ne!(pointer, core::ptr::null_mut());
+            self.pointers[index] = pointer;
         }
         self.capacity = new_capacity as u32;
     }
 
+    /// Gives the entity column and the first [`count`] component columns, which have memory for
+    /// [`from`] entities, memory for [`to`] entities.
+    unsafe fn restore_columns(&mut self, count: usize, from: usize, to: usize) {
+        self.entity_associations = restore_column(
+            self.entity_associations as *mut u8,
+            size_of::<Entity>() * from,
+            size_of::<Entity>() * to,
+            align_of::<Entity>(),
+        ) as *mut Entity;
+        for index in 0..count {
+            let component_type = &self.descriptor.components()[index];
+            self.pointers[index] = restore_column(
+                self.pointers[index],
+                component_type.size as usize * from,
+                component_type.size as usize * to,
+                component_type.align as usize,
+            );
+        }
+    }
+
     /// Deallocates the backing memory and sets capacity to zero.
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
@@ -491,7 +514,7 @@ impl Archetype {
     }
 
     /// Resizes the backing memory by the default amount if necessary.
-    unsafe fn resize_if_necessary(&mut self) {
+    pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
             assert!(self.capacity() < MAX_ENTITIES_PER_ARCHETYPE);
             let additional_capacity = if self.capacity() == 0 {
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index b0e252f..955319a 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,7 +1,7 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, dealloc, realloc, Layout};
+use alloc::alloc::{alloc, dealloc, handle_alloc_error, realloc, Layout};
 use core::mem::{align_of, size_of};
 
 mod data_access;
@@ -47,6 +47,21 @@ unsafe fn realloc_column(
     )
 }
 
+/// Undoes a resize by [`realloc_column`]. As there is no way back if even this fails, does not return
+/// in that case.
+unsafe fn restore_column(
+    pointer: *mut u8,
+    old_size: usize,
+    new_size: usize,
+    align: usize,
+) -> *mut u8 {
+    let restored = realloc_column(pointer, old_size, new_size, align);
+    if restored.is_null() {
+        handle_alloc_error(Layout::from_size_align_unchecked(new_size, align));
+    }
+    restored
+}
+
 /// Releases a column obtained by [`alloc_column`] or [`realloc_column`].
 unsafe fn dealloc_column(pointer: *mut u8, size: usize, align: usize) {
     if size != 0 {
@@ -90,22 +105,7 @@ impl Archetype {
         }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
-            unsafe {
-                archetype.entity_associations = alloc_column(
-                    size_of::<Entity>() * capacity as usize,
-                    align_of::<Entity>(),
-                ) as *mut Entity;
-                assert_ne!(archetype.entity_associations, core::ptr::null_mut());
-
-                for (index, component) in archetype.descriptor.components().iter().enumerate() {
-                    archetype.pointers[index] = alloc_column(
-                        component.size as usize * capacity as usize,
-                        component.align as usize,
-                    );
-                    assert_ne!(archetype.pointers[index], core::ptr::null_mut());
-                }
-                archetype.capacity = capacity;
-            }
+            unsafe { archetype.resize_capacity(capacity as isize) };
         }
         archetype
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 21fe2ba..e100aa5 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -33,6 +33,8 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
+        // Make room first: if this panics, no entity may be left without a row.
+        unsafe { archetype.resize_if_necessary() };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
@@ -246,6 +248,9 @@ impl Registry {
             None => return Err(component),
         };
 
+        // Make room first: if this panics, nothing may have been moved yet.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -314,6 +319,9 @@ impl Registry {
             None => return Err(()),
         };
 
+        // Make room first: if this panics, nothing may have been moved yet.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
-- 
2.43.0


From 343cbe64cf2cab8f52dc4dcaf550dd2f969a337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:02 +0000
Subject: [PATCH 15/15] fix: component types larger than the descriptor can
 hold are refused at compile time

---
 src/descriptors/component_descriptor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/component_descriptor.rs b/src/descriptors/component_descriptor.rs
index 6650898..d81c6e5 100644
--- a/src/descriptors/component_descriptor.rs
+++ b/src/descriptors/component_descriptor.rs
@@ -9,8 +9,14 @@ macro_rules! define_component_descriptor {
     ($item:ident) => {
         ComponentDescriptor {
             component_type_id: $item::ID,
-            size: core::mem::size_of::<$item>() as u16,
-            align: core::mem::align_of::<$item>() as u16,
+            size: {
+                assert!(core::mem::size_of::<$item>() <= u16::MAX as usize);
+                core::mem::size_of::<$item>() as u16
+            },
+            align: {
+                assert!(core::mem::align_of::<$item>() <= u16::MAX as usize);
+                core::mem::align_of::<$item>() as u16
+            },
             fns: ComponentDescriptorFnPointers {
                 drop_handler: ComponentDescriptor::drop_handler_wrapper::<$item>,
             },
-- 
2.43.0

