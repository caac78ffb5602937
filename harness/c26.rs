//! Who owns which particle, and whom to ask for particles around a point.
use super::*;
use crate::communication::CommunicatedOption;
use crate::communication::WorldRank;
use crate::components::Position;
use crate::domain::*;
use crate::particle::LocalParticle;
use crate::prelude::ParticleId;
use crate::units::Length;
use crate::vp_api::*;
use bevy_ecs::prelude::*;
use bevy_ecs::store;
use mpi::model;

fn pos(p: [f64; 3]) -> VecLength {
    VecLength::meters(p[0], p[1], p[2])
}
fn unit_box() -> SimulationBox {
    SimulationBox::cube_from_side_length(Length::meters(8.0))
}

type Wire = CommunicatedOption<crate::domain::Extent>;
static mut EXTENTS: [Option<([f64; 3], [f64; 3])>; 3] = [None; 3];
fn ext(e: ([f64; 3], [f64; 3])) -> crate::domain::Extent {
    crate::domain::Extent::from_min_max(pos(e.0), pos(e.1))
}
fn gather(r: i32, _own: *const u8, _size: usize, dst: *mut u8) {
    let w: Wire = unsafe { EXTENTS[r as usize] }.map(ext).into();
    unsafe { core::ptr::write(dst as *mut Wire, w) };
}
/// every process that has a particle within the radius is asked
#[no_mangle]
pub extern "C" fn c26_extents() {
    store::reset();
    let n = 3;
    let me = pick(n);
    model::reset(n as i32, me as i32);
    model::world().gather = Some(gather);
    // some processes have no particles
    let dim = pick(3);
    let at = |x: f64| {
        let mut p = [1.0, 2.0, 3.0];
        p[dim] = x;
        p
    };
    let mut xs = [(0.0, 0.0); 3];
    let mut has = [false; 3];
    for r in 0..n {
        has[r] = any_here(r);
        let a = if r == 1 { real(0.0, 8.0) } else { [1.0, 0.0, 6.0][r] };
        let b = if r == 1 { real(0.0, 8.0) } else { [1.5, 0.0, 7.0][r] };
        assume(a <= b);
        xs[r] = (a, b);
        unsafe { EXTENTS[r] = if has[r] { Some((at(a), at(b))) } else { None } };
    }
    if has[me] {
        for x in [xs[me].0, xs[me].1] {
            store::spawn((LocalParticle, Position(pos(at(x)))));
        }
    }
    let mut d: DecompositionState = Decomposition { num_ranks: n, cuts: vec![], loads: vec![], extents: vec![] };
    set_domain_extents_system(ResMut::from_ref(&mut d), Query::of_store());
    let b = unit_box();
    let c = [0.5, 4.0, 7.75][pick(3)];
    let r = real(0.01, 3.9);
    let search = crate::extent::Extent::<MVec>::cube_around_sphere(MVec::new(at(c)[0], at(c)[1], at(c)[2]), r);
    for rank in 0..n {
        let asked = d.rank_owns_part_of_search_radius(rank as i32, &search, &b);
        for x in [xs[rank].0, xs[rank].1] {
            let dx = (x - c).abs();
            let dx = if dx > 4.0 { 8.0 - dx } else { dx };
            must(!(has[rank] && dx < r - 1e-6) || asked, "a process that has a particle within the radius is asked");
        }
        must(has[rank] || !asked, "a process without particles is not asked");
    }
    cover(has[0] && !has[1] && has[2], "a process without particles in between");
    cover(has[0] && has[1] && has[2], "all have particles");
}
fn any_here(r: usize) -> bool {
    r == 0 || pick(2) == 1
}

/// particles that another process owns are sent there, all others stay
#[no_mangle]
pub extern "C" fn c26_outgoing() {
    store::reset();
    let n = 3;
    let me = pick(n);
    model::reset(n as i32, me as i32);
    let b = unit_box();
    let places = [[0.5, 0.5, 0.5], [7.5, 0.5, 0.5], [4.5, 7.0, 1.0], [0.5, 0.5, 7.5]];
    let keys: Vec<u128> = places.iter().map(|p| pos(*p).into_key(&*b).0).collect();
    let mut es = vec![];
    for p in places {
        es.push(store::spawn((LocalParticle, Position(pos(p)))));
    }
    let mut cuts = [wide(), wide()];
    cuts.sort();
    let d: DecompositionState = Decomposition { num_ranks: n, cuts: vec![PK(cuts[0]), PK(cuts[1]), PK(1 << 126)], loads: vec![], extents: vec![] };
    let mut out = crate::domain::exchange_data_plugin::vp_c26b::outgoing(n, me as i32);
    set_outgoing_entities_system(ResMut::from_ref(&mut out), Res::from_ref(&d), Res::from_ref(&WorldRank(me as i32)), Res::from_ref(&b), Query::of_store());
    let sent: Vec<(i32, Vec<Entity>)> = out.iter().map(|(r, v)| (r, v.clone())).collect();
    for (i, e) in es.iter().enumerate() {
        let owner = if keys[i] < cuts[0] { 0 } else if keys[i] < cuts[1] { 1 } else { 2 };
        must(d.get_owning_rank(PK(keys[i])) == owner || cuts[0] == cuts[1], "the owner is the process whose part of the curve has the key");
        for (r, v) in sent.iter() {
            let num = v.iter().filter(|x| *x == e).count();
            let want = (*r == d.get_owning_rank(PK(keys[i]))) as usize;
            must(num == want, "a particle goes to its owner, once, and nowhere else");
        }
    }
    must(sent.iter().all(|(r, _)| *r != me as i32), "nothing is sent to oneself");
    cover(cuts[0] < cuts[1], "different cuts");
}
use crate::peano_hilbert::PeanoKey3d as PK;
fn wide() -> u128 {
    (any_u64() as u128) << 62
}

/// ids name one particle each, on all processes
#[no_mangle]
pub extern "C" fn c26_ids() {
    store::reset();
    let me = pick(3) as i32;
    let n = pick(4);
    let es: Vec<Entity> = (0..n).map(|i| if i == 1 { let _ = store::spawn((Position(pos([0.0; 3])),)); store::spawn((LocalParticle, Position(pos([1.0; 3])))) } else { store::spawn((LocalParticle, Position(pos([2.0; 3])))) }).collect();
    determine_particle_ids_system(Commands::of_store(), Res::from_ref(&WorldRank(me)), Query::of_store());
    store::apply();
    let map = store::resource::<IdEntityMap>().unwrap();
    must(map.iter().count() == n, "every local particle has an id");
    let mut seen = vec![];
    for e in es.iter() {
        let id = store::get::<ParticleId>(*e);
        must(id.is_some(), "every local particle has an id");
        let id = *id.unwrap();
        must(id.rank == me, "an id names the process");
        must(!seen.contains(&id), "no two particles have the same id");
        must(map.get_by_left(&id) == Some(e) && map.get_by_right(e) == Some(&id), "ids are found by particle, particles by id");
        seen.push(id);
    }
    // entities change, ids stay
    let gone = store::spawn((ParticleId { index: 77, rank: 9 }, Position(pos([0.0; 3]))));
    update_id_entity_map_system(Query::of_store(), ResMut::from_ref(map));
    must(map.iter().count() == n + 1 && map.get_by_left(&ParticleId { index: 77, rank: 9 }) == Some(&gone), "new ids are found");
    store::despawn(gone);
    update_id_entity_map_system(Query::of_store(), ResMut::from_ref(map));
    must(map.iter().count() == n && map.get_by_right(&gone).is_none(), "ids that are gone are not found");
    for (e, id) in es.iter().zip(seen.iter()) {
        must(map.get_by_left(id) == Some(e), "the others are still found");
    }
}
/// the tree that is searched holds all local particles
#[no_mangle]
pub extern "C" fn c26_tree() {
    store::reset();
    let n = pick(4);
    for i in 0..n {
        store::spawn((LocalParticle, ParticleId { index: i as u32, rank: 1 }, Position(pos([real(0.0, 8.0), 1.0, 2.0]))));
    }
    store::spawn((ParticleId { index: 9, rank: 2 }, Position(pos([1.0, 1.0, 2.0]))));
    construct_quad_tree_system(Commands::of_store(), Query::of_store(), Res::from_ref(&unit_box()));
    store::apply();
    let t = store::resource::<QuadTree>().unwrap();
    let ids: Vec<u32> = t.iter().map(|l| l.id.index).collect();
    must(ids.len() == n && (0..n as u32).all(|i| ids.contains(&i)), "the tree holds every local particle and no others");
    must(t.iter().all(|l| l.id.rank == 1), "with its id");
}
