use super::*;
use crate::communication::MPI_UNIVERSE;
use crate::chemistry::hydrogen_only::HydrogenOnly;
use crate::prelude::ParticleId;
use crate::units::PhotonRate;
use crate::vp_api::*;
use mpi::traits::*;

/// what one rank tells another about a solved cell
#[no_mangle]
pub extern "C" fn c07_rate_data() {
    let world = MPI_UNIVERSE.world();
    let id = |a: u64, b: u64| ParticleId { index: a as u32, rank: b as i32 };
    let a = RateData::<HydrogenOnly> { rate: unsafe { core::mem::transmute::<u64, PhotonRate>(any_u64()) }, id: id(any_u64(), any_u64()), dir: DirectionIndex(any_u64() as usize), periodic: any_bool() };
    let mut b = RateData::<HydrogenOnly> { rate: unsafe { core::mem::transmute::<u64, PhotonRate>(any_u64()) }, id: id(any_u64(), any_u64()), dir: DirectionIndex(any_u64() as usize), periodic: any_bool() };
    let bytes = world.pack(&a);
    unsafe {
        world.unpack_into(&bytes, &mut b, 0);
    }
    let bits = |r: &PhotonRate| unsafe { core::mem::transmute_copy::<PhotonRate, u64>(r) };
    must(bits(&a.rate) == bits(&b.rate), "the rate arrives as it was sent");
    must(a.id == b.id, "with the cell it is for");
    must(a.dir == b.dir, "and the direction");
    must(a.periodic == b.periodic, "and whether it crossed the boundary of the box");
}
