//! Pairs of different component sets whose identifiers collide.

use crate::comps::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use std::collections::HashMap;
use std::sync::OnceLock;

/// FNV-1a over the sorted identifiers, as the crate computes it. Only used to search for collisions;
/// whether sets really collide is judged by the crate's own identifiers.
fn fnv(ids: &[u16]) -> u32 {
    let mut b = [0u8; 28];
    for (i, id) in ids.iter().enumerate() {
        b[i * 2..i * 2 + 2].copy_from_slice(&id.to_le_bytes());
    }
    let mut h = 2166136261u32;
    for x in b {
        h = (h ^ x as u32).wrapping_mul(16777619);
    }
    h
}

pub fn hash_of(mask: u32) -> u32 {
    let mut ids: Vec<u16> = crate::world::bits(mask).map(|t| TYPES[t].id).collect();
    ids.sort_unstable();
    fnv(&ids)
}

/// Colliding pairs among the small types, and the ones built into the chosen identifiers.
pub fn pairs() -> &'static Vec<(u32, u32)> {
    static P: OnceLock<Vec<(u32, u32)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut order: Vec<(u16, usize)> = (0..NSMALL).map(|t| (TYPES[t].id, t)).collect();
        order.sort_unstable();
        let mut v: Vec<(u32, u32)> = Vec::with_capacity(1 << 20);
        let mut ids = Vec::with_capacity(20);
        for s in 1u32..1 << NSMALL {
            if s.count_ones() > 14 {
                continue;
            }
            ids.clear();
            let mut mask = 0;
            for (i, (id, t)) in order.iter().enumerate() {
                if s & (1 << i) != 0 {
                    ids.push(*id);
                    mask |= 1 << t;
                }
            }
            v.push((fnv(&ids), mask));
        }
        v.sort_unstable();
        let mut out = Vec::new();
        for w in v.windows(2) {
            if w[0].0 == w[1].0 {
                out.push((w[0].1, w[1].1));
            }
        }
        for _ in 0..6 {
            out.push((1 << 5 | 1 << 8, 1 << 30 | 1 << 31));
            out.push((0b1111 << 26, 0b111 << 26));
        }
        out
    })
}

/// The identifier the crate gives this set.
pub fn crate_id(mask: u32) -> Option<u32> {
    let mut d: Option<ArchetypeDescriptor> = None;
    for t in crate::world::bits(mask) {
        d = Some(match d {
            None => {
                let g = crate::world::single_of(t);
                (crate::groups::GROUPS[g].descriptor)().archetype().clone()
            }
            Some(d) => (TYPES[t].desc_add)(&d)?,
        });
    }
    d.map(|d| d.archetype_id().into_u32())
}
