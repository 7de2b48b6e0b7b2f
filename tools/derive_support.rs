//! Support code of the generated crate: field types, and a history driven over a component type.
#![allow(warnings)]
use shard_ecs::component::Component;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::{Entity, Registry};
use std::fmt::Write;
use std::sync::atomic::{AtomicI64, Ordering};

pub trait Sh: Send + Sync + 'static {
    fn sh(&self) -> u64;
    fn bx(&self) -> Box<dyn Sh>;
}
impl Sh for u16 {
    fn sh(&self) -> u64 {
        *self as u64
    }
    fn bx(&self) -> Box<dyn Sh> {
        Box::new(*self)
    }
}
impl Clone for Box<dyn Sh> {
    fn clone(&self) -> Self {
        self.bx()
    }
}
impl std::fmt::Debug for Box<dyn Sh> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sh")
    }
}

pub static ALIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
pub struct Tr(u32);
impl Tr {
    fn new(v: u32) -> Tr {
        ALIVE.fetch_add(1, Ordering::Relaxed);
        Tr(v)
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        Tr::new(self.0)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, Ordering::Relaxed);
    }
}
#[derive(Clone, Debug)]
#[repr(align(32))]
pub struct Al32(u8);

pub trait Fld {
    fn mk(s: u32) -> Self;
    fn dg(&self) -> u64;
}
macro_rules! num { ($($t:ty),*) => { $(impl Fld for $t { fn mk(s: u32) -> $t { s.wrapping_mul(2654435761) as $t } fn dg(&self) -> u64 { *self as u64 } })* } }
num!(u8, u16, u32, u64, i32, u128);
macro_rules! fld { ($($t:ty, $s:ident => $m:expr, $x:ident => $d:expr;)*) => { $(impl Fld for $t { fn mk($s: u32) -> $t { $m } fn dg(&self) -> u64 { let $x = self; $d } })* } }
fld! {
    f32, s => s as f32 / 7.0, x => x.to_bits() as u64;
    bool, s => s & 1 == 1, x => *x as u64;
    char, s => char::from_u32(s % 0xd000).unwrap(), x => *x as u64;
    (), s => (), x => 3;
    &'static str, s => ["a", "bc", "", "def"][s as usize % 4], x => x.len() as u64;
    String, s => format!("v{s}"), x => x.bytes().fold(1u64, |h, b| h.wrapping_mul(31) + b as u64);
    Box<dyn Sh>, s => Box::new(s as u16), x => x.sh();
    fn(u32) -> u32, s => { fn a(x: u32) -> u32 { x + 1 } fn b(x: u32) -> u32 { x ^ 5 } if s & 1 == 0 { a } else { b } }, x => x(10) as u64;
    Tr, s => Tr::new(s), x => x.0 as u64;
    Al32, s => Al32(s as u8), x => { assert!(x as *const Al32 as usize % 32 == 0); x.0 as u64 };
    P1, s => P1(s), x => x.0 as u64;
    P2, s => P2(s as u8, Tr::new(s)), x => x.0 as u64;
}
impl<T: Fld, const N: usize> Fld for [T; N] {
    fn mk(s: u32) -> Self {
        std::array::from_fn(|i| T::mk(s.wrapping_add(i as u32 * 17)))
    }
    fn dg(&self) -> u64 {
        self.iter().fold(N as u64, |h, x| h.wrapping_mul(1099511628211) ^ x.dg())
    }
}
impl<T: Fld> Fld for Vec<T> {
    fn mk(s: u32) -> Self {
        (0..s % 4).map(|i| T::mk(s.wrapping_add(i * 13))).collect()
    }
    fn dg(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, x| h.wrapping_mul(1099511628211) ^ x.dg())
    }
}
impl<T: Fld> Fld for Option<T> {
    fn mk(s: u32) -> Self {
        if s % 3 == 0 { None } else { Some(T::mk(s)) }
    }
    fn dg(&self) -> u64 {
        self.as_ref().map_or(77, |x| x.dg())
    }
}
impl<T: Fld> Fld for Box<T> {
    fn mk(s: u32) -> Self {
        Box::new(T::mk(s))
    }
    fn dg(&self) -> u64 {
        (**self).dg()
    }
}
impl<T: Fld> Fld for std::sync::Arc<T> {
    fn mk(s: u32) -> Self {
        std::sync::Arc::new(T::mk(s))
    }
    fn dg(&self) -> u64 {
        (**self).dg()
    }
}
impl<A: Fld, B: Fld> Fld for (A, B) {
    fn mk(s: u32) -> Self {
        (A::mk(s), B::mk(s.wrapping_add(3)))
    }
    fn dg(&self) -> u64 {
        self.0.dg().rotate_left(9) ^ self.1.dg()
    }
}
impl<T: ?Sized> Fld for std::marker::PhantomData<T> {
    fn mk(_: u32) -> Self {
        std::marker::PhantomData
    }
    fn dg(&self) -> u64 {
        5
    }
}

#[derive(Clone, Debug)]
pub struct P1(pub u32);
impl Component for P1 {
    const NAME: &'static str = "::P1";
}
#[derive(Clone, Debug)]
pub struct P2(pub u8, pub Tr);
impl Component for P2 {
    const NAME: &'static str = "::P2";
}
#[derive(Clone, Debug)]
pub struct P3;
impl Component for P3 {
    const NAME: &'static str = "::P3";
}

pub fn facts<T: Component>(out: &mut String) {
    let d = T::DESCRIPTOR;
    let n: String = T::NAME.bytes().map(|b| format!("{b:02x}")).collect();
    writeln!(
        out,
        "FACT {n} {} {} {} {} {} {} {}",
        T::ID.into_u16(),
        d.component_type_id().into_u16(),
        d.size(),
        d.align(),
        std::mem::size_of::<T>(),
        std::mem::align_of::<T>(),
        <T as ComponentGroup>::DESCRIPTOR.len()
    )
    .unwrap();
}

/// A random history over groups containing T.
pub fn drive<T: Component>(out: &mut String, salt: u32, mk: fn(u32) -> T, dg: fn(&T) -> u64) {
    let alive0 = ALIVE.load(Ordering::Relaxed);
    let mut x = (salt as u64) << 1 | 1;
    let mut rnd = |n: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 16) as usize % n
    };
    let mut log: Vec<String> = Vec::new();
    {
        let mut r = Registry::default();
        let mut es: Vec<Entity> = Vec::new();
        for i in 0..60u32 {
            let e = if es.is_empty() { Entity::invalid() } else { es[rnd(es.len())] };
            match rnd(12) {
                0 => es.extend(r.create_entity(mk(i))),
                1 => es.extend(r.create_entity((mk(i), P1(i)))),
                2 => es.extend(r.create_entity((P2(i as u8, Tr::new(i)), mk(i), P3)).ok()),
                3 => es.extend(r.create_entity((P1(i), P3)).ok()),
                4 => log.push(format!("add {:?}", r.add_component(e, mk(i)).map_err(|v| dg(&v)))),
                5 => log.push(format!("add1 {:?}", r.add_component(e, P1(i)).map_err(|v| v.0))),
                6 => log.push(format!("del {:?}", r.remove_component::<T>(e).map(|v| dg(&v)))),
                7 => log.push(format!("del1 {:?}", r.remove_component::<P1>(e).map(|v| v.0))),
                8 => log.push(format!("take {:?}", r.remove_entity::<(P1, T)>(e).map(|v| (v.0.0, dg(&v.1))))),
                9 => log.push(format!("destroy {}", r.destroy_entity(e))),
                10 => {
                    if let Some(v) = r.get_component_mut::<T>(e) {
                        *v = mk(i + 1000);
                    }
                }
                _ => log.push(format!("same type twice {}", r.create_entity((mk(i), mk(i))).is_err())),
            }
            log.push(format!("get {:x} {:?} {} {}", e.raw(), r.get_component::<T>(e).map(dg), r.has_component::<T>(e), r.has_components::<(P3, T)>(e)));
        }
        for s in r.iter_components_matching::<T>() {
            log.push(format!("iter {:?}", s.iter().map(dg).collect::<Vec<_>>()));
        }
        for (es, (a, b)) in r.iter_entity_components_matching::<(T, P1)>() {
            log.push(format!("iter2 {:?} {:?}", es.iter().map(|e| e.raw()).collect::<Vec<_>>(), a.iter().map(dg).zip(b).map(|(a, b)| (a, b.0)).collect::<Vec<_>>()));
        }
        for e in r.iter_entities() {
            log.push(format!("e {:x}", e.raw()));
        }
    }
    log.push(format!("alive {}", ALIVE.load(Ordering::Relaxed) - alive0));
    for l in log {
        writeln!(out, "{l}").unwrap();
    }
}
