use super::*;
use crate::communication::CommunicatedOption;
use crate::communication::Identified;
use crate::communication::MPI_UNIVERSE;
use crate::extent::Extent;
use crate::peano_hilbert::PeanoKey2d;
use crate::peano_hilbert::PeanoKey3d;
use crate::sweep::DirectionIndex;
use crate::vp_api::*;
use bevy_ecs::prelude::Entity;
use mpi::traits::*;

fn transfer<T: Equivalence>(from: &T, into: &mut T) {
    let world = MPI_UNIVERSE.world();
    let b = world.pack(from);
    unsafe {
        world.unpack_into(&b, into, 0);
    }
}

#[derive(Clone, Copy, Equivalence, PartialEq, Debug)]
struct Mixed {
    a: [i32; 3],
    b: bool,
    c: u64,
}
fn mixed() -> Mixed {
    Mixed { a: [any_u64() as i32, any_u64() as i32, any_u64() as i32], b: any_bool(), c: any_u64() }
}

fn option<T: Equivalence + Clone + PartialEq>(v: Option<T>, other: Option<T>) {
    let c: CommunicatedOption<T> = v.clone().into();
    let mut d: CommunicatedOption<T> = other.into();
    transfer(&c, &mut d);
    let e = d.clone();
    let back: Option<T> = d.into();
    must(back == v, "an optional value arrives as it was sent");
    let back: Option<T> = e.into();
    must(back == v, "so does a copy of it");
    let back: Option<T> = c.clone().into();
    must(back == v, "the sender's value is unchanged");
}
#[no_mangle]
pub extern "C" fn c07_option() {
    let some = pick(2) == 1;
    let other = pick(2) == 1;
    match pick(4) {
        0 => option(if some { Some(any_u64()) } else { None }, if other { Some(any_u64()) } else { None }),
        1 => option(if some { Some(any_u64() as u8) } else { None }, if other { Some(any_u64() as u8) } else { None }),
        2 => option(if some { Some(mixed()) } else { None }, if other { Some(mixed()) } else { None }),
        _ => option(if some { Some(any_bool()) } else { None }, if other { Some(any_bool()) } else { None }),
    }
    cover(some && !other, "value over nothing");
    cover(!some && other, "nothing over value");
}
#[no_mangle]
pub extern "C" fn c07_identified() {
    let bits = any_u64();
    let e = Entity::from_bits(bits);
    let d = mixed();
    let a = Identified::new(e, d);
    let mut b = Identified::new(Entity::from_bits(any_u64()), mixed());
    transfer(&a, &mut b);
    must(b.data == d, "the data arrives as it was sent");
    must(b.entity() == e && b.key == a.key, "with the entity it belongs to");
    let o = Entity::from_bits(any_u64());
    must((Identified::new(o, 0u8).key == a.key) == (o == e), "different entities have different keys");
}
#[no_mangle]
pub extern "C" fn c07_keys() {
    let x = any_u64();
    let y = any_u64();
    let a = PeanoKey3d(((x as u128) << 64) | y as u128);
    let mut b = PeanoKey3d(any_u64() as u128);
    transfer(&a, &mut b);
    must(a == b, "a three-dimensional key arrives as it was sent");
    let a = PeanoKey2d(x);
    let mut b = PeanoKey2d(y);
    transfer(&a, &mut b);
    must(a == b, "a two-dimensional key arrives as it was sent");
    let a = DirectionIndex(x as usize);
    let mut b = DirectionIndex(y as usize);
    transfer(&a, &mut b);
    must(a == b, "a direction index arrives as it was sent");
}
#[no_mangle]
pub extern "C" fn c07_extent() {
    let e = Extent { min: [any_u64(), any_u64(), any_u64()], max: [any_u64(), any_u64(), any_u64()], center: [any_u64(), any_u64(), any_u64()] };
    let mut f = Extent { min: [any_u64(); 3], max: [any_u64(); 3], center: [any_u64(); 3] };
    transfer(&e, &mut f);
    must(e.min == f.min && e.max == f.max && e.center == f.center, "an extent arrives as it was sent");
}
