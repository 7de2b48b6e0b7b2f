//! The universe of component types the generated histories draw from.
//!
//! Every value is made from a serial number; as much of the serial as fits (the *key*) is stored in
//! the value together with a pattern derived from it, so that a torn, stale or misplaced value is
//! recognised when read or dropped.

use crate::{guard, ledger};
use shard_ecs::*;

/// What reading a component found.
#[derive(Debug, Clone)]
pub struct Obs {
    pub key: Result<u32, String>,
    pub addr: usize,
}

pub trait HComp: Component + Sized {
    const IX: usize;
    const DEFAULT_ID: bool = true;
    /// Number of low serial bits a value can hold.
    const BITS: u32;
    fn mk(serial: u32) -> Self;
    fn key(&self) -> Result<u32, String>;
    #[inline(never)]
    fn obs(&self) -> Obs {
        let addr = self as *const Self as usize;
        if addr % std::mem::align_of::<Self>() != 0 {
            return Obs {
                key: Err(format!(
                    "misaligned address {addr:#x} for alignment {}",
                    std::mem::align_of::<Self>()
                )),
                addr,
            };
        }
        Obs {
            key: self.key(),
            addr,
        }
    }
    #[inline(never)]
    fn take(self) -> Result<u32, String> {
        self.key()
    }
}

pub const fn mask(bits: u32) -> u32 {
    if bits >= 32 {
        u32::MAX
    } else {
        (1u32 << bits) - 1
    }
}

#[inline]
fn pat(serial: u32, ix: usize, i: usize) -> u8 {
    ((serial.wrapping_mul(0x9E37_79B1) >> 24) as u8)
        ^ (i as u8).wrapping_mul(29)
        ^ ((i >> 8) as u8)
        ^ (ix as u8).wrapping_mul(101)
        ^ 0x55
}

fn fill(b: &mut [u8], serial: u32, ix: usize) {
    let s = serial.to_le_bytes();
    for (i, x) in b.iter_mut().enumerate() {
        *x = if i < 4 { s[i] } else { pat(serial, ix, i) };
    }
}

fn check(b: &[u8], ix: usize) -> Result<u32, String> {
    let mut s = [0u8; 4];
    for i in 0..b.len().min(4) {
        s[i] = b[i];
    }
    let serial = u32::from_le_bytes(s);
    for (i, x) in b.iter().enumerate().skip(4) {
        if *x != pat(serial, ix, i) {
            return Err(format!(
                "type #{ix} ({} bytes): byte {i} is {x:#04x}, expected {:#04x} for serial {serial}",
                b.len(),
                pat(serial, ix, i)
            ));
        }
    }
    Ok(serial)
}

macro_rules! bytes_comp {
    (@common $name:ident, $ix:expr, $n:expr, [$($attr:tt)*], $track:expr, $dflt:expr) => {
        $($attr)*
        #[derive(Debug)]
        pub struct $name { b: [u8; $n] }
        impl HComp for $name {
            const IX: usize = $ix;
            const DEFAULT_ID: bool = $dflt;
            const BITS: u32 = if $n >= 4 { 32 } else { 8 * $n };
            #[inline(never)]
            fn mk(serial: u32) -> Self {
                let serial = serial & mask(Self::BITS);
                let mut v = $name { b: [0u8; $n] };
                fill(&mut v.b, serial, $ix);
                if $track { ledger::born($ix, serial); }
                v
            }
            fn key(&self) -> Result<u32, String> { check(&self.b, $ix) }
        }
    };
    (@drop $name:ident, $ix:expr) => {
        impl Drop for $name {
            fn drop(&mut self) {
                if ledger::died($ix, HComp::key(self)) {
                    panic!("planned destructor panic");
                }
            }
        }
    };
    ($name:ident, $ix:expr, $n:expr, [$($attr:tt)*], nodrop, name $cname:expr) => {
        bytes_comp!(@common $name, $ix, $n, [$($attr)*], false, true);
        impl Component for $name { const NAME: &'static str = $cname; }
    };
    ($name:ident, $ix:expr, $n:expr, [$($attr:tt)*], drop, name $cname:expr) => {
        bytes_comp!(@common $name, $ix, $n, [$($attr)*], true, true);
        bytes_comp!(@drop $name, $ix);
        impl Component for $name { const NAME: &'static str = $cname; }
    };
    ($name:ident, $ix:expr, $n:expr, [$($attr:tt)*], nodrop, id $id:expr) => {
        bytes_comp!(@common $name, $ix, $n, [$($attr)*], false, false);
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
    };
    ($name:ident, $ix:expr, $n:expr, [$($attr:tt)*], drop, id $id:expr) => {
        bytes_comp!(@common $name, $ix, $n, [$($attr)*], true, false);
        bytes_comp!(@drop $name, $ix);
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
    };
}

// Small and medium layouts.
bytes_comp!(C0, 0, 0, [], drop, id 0);
bytes_comp!(C1, 1, 1, [], drop, name "small-one");
bytes_comp!(C2, 2, 2, [#[repr(C, align(2))]], nodrop, name "two");
bytes_comp!(C3, 3, 3, [], drop, name "three bytes");
bytes_comp!(C4, 4, 4, [#[repr(C, align(4))]], drop, id 1);
bytes_comp!(C5, 5, 8, [#[repr(C, align(8))]], drop, id 256);
bytes_comp!(C6, 6, 12, [#[repr(C, align(4))]], drop, id 0x7FFF);
bytes_comp!(C7, 7, 16, [#[repr(C, align(16))]], drop, id 0x8000);
bytes_comp!(C10, 10, 64, [#[repr(C, align(64))]], drop, name "cacheline");
bytes_comp!(C11, 11, 257, [], drop, name "odd");
bytes_comp!(C12, 12, 0, [#[repr(C, align(16))]], nodrop, name "marker-aligned");
bytes_comp!(C13, 13, 24, [#[repr(C, align(8))]], drop, name "Transform");
bytes_comp!(C14, 14, 5, [], drop, id 0x00FF);
bytes_comp!(C15, 15, 1000, [#[repr(C, align(8))]], drop, name "big-ish");
bytes_comp!(C17, 17, 8, [#[repr(C, align(8))]], nodrop, name "plain");
bytes_comp!(C18, 18, 2, [], drop, id 0xFF00);
bytes_comp!(C19, 19, 256, [#[repr(C, align(256))]], drop, name "page-ish");
// Extreme layouts (used by histories flagged `big`).
bytes_comp!(C20, 20, 4096, [#[repr(C, align(4096))]], drop, name "page");
bytes_comp!(C21, 21, 65535, [], drop, name "largest");
bytes_comp!(C22, 22, 32768, [#[repr(C, align(32768))]], nodrop, name "most aligned");
bytes_comp!(C23, 23, 40000, [#[repr(C, align(8))]], drop, name "forty thousand");
bytes_comp!(C24, 24, 32769, [], drop, name "over half");
bytes_comp!(C25, 25, 0, [#[repr(C, align(4096))]], drop, name "empty page");
// Identifiers chosen for what sets of them hash to: the hash of the first four together is u32::MAX,
// and the last two together have the same hash as {C5, C8}.
bytes_comp!(C26, 26, 4, [], drop, id 16182);
bytes_comp!(C27, 27, 8, [#[repr(C, align(8))]], drop, id 18501);
bytes_comp!(C28, 28, 1, [], drop, id 38415);
bytes_comp!(C29, 29, 24, [#[repr(C, align(8))]], nodrop, id 56361);
bytes_comp!(C30, 30, 8, [#[repr(C, align(4))]], drop, id 45604);
bytes_comp!(C31, 31, 16, [#[repr(C, align(16))]], drop, id 61281);

/// Owns heap memory.
#[derive(Debug)]
pub struct C8 {
    b: Box<[u8; 12]>,
}
impl Component for C8 {
    const NAME: &'static str = "boxed";
}
impl HComp for C8 {
    const IX: usize = 8;
    const BITS: u32 = 32;
    #[inline(never)]
    fn mk(serial: u32) -> Self {
        let mut b = Box::new([0u8; 12]);
        fill(&mut b[..], serial, 8);
        ledger::born(8, serial);
        C8 { b }
    }
    fn key(&self) -> Result<u32, String> {
        check(&self.b[..], 8)
    }
}
impl Drop for C8 {
    fn drop(&mut self) {
        if ledger::died(8, HComp::key(self)) {
            panic!("planned destructor panic");
        }
    }
}

/// Owns a string and a vector.
#[derive(Debug)]
pub struct C9 {
    s: String,
    v: Vec<u32>,
}
impl Component for C9 {
    const NAME: &'static str = "C9";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0xFFFE);
}
impl HComp for C9 {
    const IX: usize = 9;
    const DEFAULT_ID: bool = false;
    const BITS: u32 = 32;
    #[inline(never)]
    fn mk(serial: u32) -> Self {
        ledger::born(9, serial);
        C9 {
            s: format!("s{serial}"),
            v: vec![serial; (serial % 3) as usize],
        }
    }
    fn key(&self) -> Result<u32, String> {
        let Some(k) = self.s.strip_prefix('s').and_then(|x| x.parse::<u32>().ok()) else {
            return Err("type #9: string content damaged".into());
        };
        if self.v.len() != (k % 3) as usize || self.v.iter().any(|x| *x != k) {
            return Err("type #9: vector content damaged".into());
        }
        Ok(k)
    }
}
impl Drop for C9 {
    fn drop(&mut self) {
        if ledger::died(9, HComp::key(self)) {
            panic!("planned destructor panic");
        }
    }
}

/// An enum with a niche, some variants owning heap memory.
#[derive(Debug)]
pub enum C16Inner {
    Small(u32),
    Boxed(Box<u32>),
    Wide([u32; 3]),
}
#[derive(Debug)]
pub struct C16(C16Inner);
impl Component for C16 {
    const NAME: &'static str = "an enum";
}
impl HComp for C16 {
    const IX: usize = 16;
    const BITS: u32 = 32;
    #[inline(never)]
    fn mk(serial: u32) -> Self {
        ledger::born(16, serial);
        C16(match serial % 3 {
            0 => C16Inner::Small(serial),
            1 => C16Inner::Boxed(Box::new(serial)),
            _ => C16Inner::Wide([serial, !serial, serial]),
        })
    }
    fn key(&self) -> Result<u32, String> {
        let (k, tag) = match &self.0 {
            C16Inner::Small(k) => (*k, 0),
            C16Inner::Boxed(b) => (**b, 1),
            C16Inner::Wide(w) => {
                if w[0] != !w[1] || w[0] != w[2] {
                    return Err("type #16: wide variant damaged".into());
                }
                (w[0], 2)
            }
        };
        if k % 3 != tag {
            return Err("type #16: variant does not fit its value".into());
        }
        Ok(k)
    }
}
impl Drop for C16 {
    fn drop(&mut self) {
        if ledger::died(16, HComp::key(self)) {
            panic!("planned destructor panic");
        }
    }
}

pub const NT: usize = 32;
/// Types below this index have modest layouts; the rest are only used by `big` histories.
pub const NSMALL: usize = 20;

/// Type-erased access to one component type.
#[derive(Clone, Copy)]
pub struct TypeVt {
    pub ix: usize,
    pub id: u16,
    /// the name, for types whose id is the default one
    pub named: Option<&'static str>,
    pub size: usize,
    pub align: usize,
    pub bits: u32,
    pub tracked: bool,
    pub descriptor: fn() -> ComponentDescriptor,
    pub obs_at: unsafe fn(*const u8) -> Obs,
    pub replace_at: unsafe fn(*mut u8, u32),
    pub add: fn(&mut Registry, Entity, u32) -> Result<(), Result<u32, String>>,
    pub remove: fn(&mut Registry, Entity) -> Result<Result<u32, String>, ()>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Obs>,
    pub get_mut: fn(&mut Registry, Entity, Option<u32>) -> Option<Obs>,
    pub desc_has: fn(&archetype_descriptor::ArchetypeDescriptor) -> bool,
    pub desc_add:
        fn(&archetype_descriptor::ArchetypeDescriptor) -> Option<archetype_descriptor::ArchetypeDescriptor>,
    pub arch_get: unsafe fn(&Archetype, u32) -> Obs,
    pub arch_get_mut: unsafe fn(&mut Archetype, u32, Option<u32>) -> Obs,
    pub arch_write: unsafe fn(&mut Archetype, u32, u32),
    pub arch_read: unsafe fn(&mut Archetype, u32) -> Result<u32, String>,
}

unsafe fn obs_at<T: HComp>(p: *const u8) -> Obs {
    if p as usize % std::mem::align_of::<T>() != 0 {
        return Obs {
            key: Err(format!("misaligned address {p:?}")),
            addr: p as usize,
        };
    }
    (*(p as *const T)).obs()
}
unsafe fn replace_at<T: HComp>(p: *mut u8, serial: u32) {
    *(p as *mut T) = T::mk(serial);
}

const fn vt<T: HComp>() -> TypeVt {
    TypeVt {
        ix: T::IX,
        id: T::ID.into_u16(),
        named: if T::DEFAULT_ID { Some(T::NAME) } else { None },
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        bits: T::BITS,
        tracked: std::mem::needs_drop::<T>(),
        descriptor: || T::DESCRIPTOR,
        obs_at: obs_at::<T>,
        replace_at: replace_at::<T>,
        add: |r, e, s| {
            let c = T::mk(s);
            guard::window(true);
            let x = r.add_component(e, c);
            guard::window(false);
            x.map_err(|c| c.take())
        },
        remove: |r, e| {
            guard::window(true);
            let x = r.remove_component::<T>(e);
            guard::window(false);
            x.map(|c| c.take())
        },
        has: |r, e| r.has_component::<T>(e),
        get: |r, e| r.get_component::<T>(e).map(|c| c.obs()),
        get_mut: |r, e, w| {
            r.get_component_mut::<T>(e).map(|c| {
                let o = c.obs();
                if let Some(s) = w {
                    *c = T::mk(s);
                }
                o
            })
        },
        desc_has: |d| d.has_component::<T>(),
        desc_add: |d| d.add_component_from::<T>(),
        arch_get: |a, i| unsafe { a.get_component_unchecked::<T>(i).obs() },
        arch_get_mut: |a, i, w| unsafe {
            let c = a.get_component_unchecked_mut::<T>(i);
            let o = c.obs();
            if let Some(s) = w {
                *c = T::mk(s);
            }
            o
        },
        arch_write: |a, i, s| unsafe { a.write_single_component_unchecked(i, T::mk(s)) },
        arch_read: |a, i| unsafe { a.read_component_unchecked::<T>(i).take() },
    }
}

pub static TYPES: [TypeVt; NT] = [
    vt::<C0>(),
    vt::<C1>(),
    vt::<C2>(),
    vt::<C3>(),
    vt::<C4>(),
    vt::<C5>(),
    vt::<C6>(),
    vt::<C7>(),
    vt::<C8>(),
    vt::<C9>(),
    vt::<C10>(),
    vt::<C11>(),
    vt::<C12>(),
    vt::<C13>(),
    vt::<C14>(),
    vt::<C15>(),
    vt::<C16>(),
    vt::<C17>(),
    vt::<C18>(),
    vt::<C19>(),
    vt::<C20>(),
    vt::<C21>(),
    vt::<C22>(),
    vt::<C23>(),
    vt::<C24>(),
    vt::<C25>(),
    vt::<C26>(),
    vt::<C27>(),
    vt::<C28>(),
    vt::<C29>(),
    vt::<C30>(),
    vt::<C31>(),
];

pub fn key_of(ix: usize, serial: u32) -> u32 {
    serial & mask(TYPES[ix].bits)
}
