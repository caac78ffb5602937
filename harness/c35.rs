//! Grids that are read from a file of connections between cells.
use super::*;
use super::id_cache::vp_c35i as wire;
use crate::prelude::LocalParticle;
use crate::sweep::DirectionsSpecification;
use crate::units::Dimensionless;
use crate::units::PhotonRate;
use crate::units::Time;
use crate::vp_api::*;
use bevy_ecs::prelude::Query;
use bevy_ecs::store;
use mpi::model;

/// cells: two of this process, one each of two others
const IDS: [u64; 4] = [10, 20, 30, 40];
static mut OWNER: [ParticleId; 4] = [ParticleId { index: 0, rank: 0 }; 4];
/// how many pieces of requests the other processes have
static mut CHUNKS: usize = 0;
static mut ASKED: [[usize; 4]; 3] = [[0; 4]; 3];
static mut ANSWERS: [Vec<(u64, ParticleId)>; 3] = [Vec::new(), Vec::new(), Vec::new()];
static mut MESSAGES: [[usize; 2]; 3] = [[0; 2]; 3];
fn gather(r: i32, own: *const u8, size: usize, dst: *mut u8) {
    unsafe {
        if r == model::rank() || size != 8 {
            std::ptr::copy_nonoverlapping(own, dst, size);
        } else {
            *(dst as *mut u64) = CHUNKS as u64;
        }
    }
}
#[allow(static_mut_refs)]
fn on_send(id: usize) {
    let s = &model::world().sent[id];
    let d = s.dest as usize;
    unsafe {
        if s.elem_size == wire::REQUEST {
            MESSAGES[d][0] += 1;
            let mut replies = vec![];
            for i in 0..s.len {
                let asked = wire::parse_request(s.ptr, i);
                let k = IDS.iter().position(|j| *j == asked).unwrap();
                ASKED[d][k] += 1;
                if OWNER[k].rank == s.dest {
                    replies.push((asked, OWNER[k]));
                }
            }
            wire::deliver_replies(s.dest, &replies);
        } else {
            MESSAGES[d][1] += 1;
            for i in 0..s.len {
                ANSWERS[d].push(wire::parse_reply(s.ptr, i));
            }
        }
    }
}
fn cell<T>(t: T) -> hdf5::Cell {
    let mut c = hdf5::Cell::empty();
    c.put(&t);
    c
}
fn dataset(name: &str, rows: Vec<hdf5::Cell>, cgs: f64, length: i32, a: i32, h: i32) -> usize {
    let d = hdf5::add_dataset(0, name, rows);
    let l = &mut hdf5::files()[0].datasets[d].value.attrs;
    l.push(hdf5::Named { name: "to_cgs".to_owned(), value: cell(cgs) });
    for (n, v) in [("length_scaling", length), ("velocity_scaling", 0), ("mass_scaling", 0), ("a_scaling", a), ("h_scaling", h)] {
        l.push(hdf5::Named { name: n.to_owned(), value: cell(v) });
    }
    d
}
struct C {
    ids: [usize; 2],
    kind: i32,
    area: f64,
    x: f64,
}
#[allow(static_mut_refs)]
fn run(me: usize, connections: Vec<C>, their_requests: [&[u64]; 2]) -> ([bool; 4], usize) {
    let others = [(me + 1) % 3, (me + 2) % 3];
    store::reset();
    hdf5::reset();
    model::reset(3, me as i32);
    model::world().gather = Some(gather);
    model::world().on_send = Some(on_send);
    let any_requests = their_requests.iter().any(|l| !l.is_empty());
    unsafe {
        OWNER = [ParticleId { index: 0, rank: me as i32 }, ParticleId { index: 1, rank: me as i32 }, ParticleId { index: 5, rank: others[0] as i32 }, ParticleId { index: 0, rank: others[1] as i32 }];
        CHUNKS = if any_requests { 1 } else { 0 };
        ASKED = [[0; 4]; 3];
        MESSAGES = [[0; 2]; 3];
        ANSWERS = [vec![], vec![], vec![]];
    }
    for k in 0..2 {
        wire::deliver_requests(others[k] as i32, their_requests[k]);
    }
    hdf5::add_file("grid");
    let f = |g: fn(&C) -> hdf5::Cell| connections.iter().map(g).collect::<Vec<_>>();
    dataset("Id1", f(|c| cell(IDS[c.ids[0]])), 0.0, 0, 0, 0);
    dataset("Id2", f(|c| cell(IDS[c.ids[1]])), 0.0, 0, 0, 0);
    dataset("ConnectionType", f(|c| cell(c.kind)), 0.0, 0, 0, 0);
    dataset("Area", f(|c| cell(c.area)), 400.0, 2, 2, -2);
    let d = dataset("Normal", vec![], 0.0, 0, 0, 0);
    hdf5::files()[0].datasets[d].value.columns = connections.iter().enumerate().map(|(i, c)| vec![c.x, 0.25, (i + 1) as f64]).collect();
    let (m0, m1) = (8.0, 54.0);
    let spawn = |k: usize, m: f64, d: f64| store::spawn((LocalParticle, unsafe { OWNER[k] }, UniqueParticleId(IDS[k]), Mass(units::Mass::new_unchecked(m)), Density(units::Density::new_unchecked(d))));
    let es = [spawn(0, m0, 1.0), spawn(1, m1, 2.0)];
    let pars = Parameters { initial_fraction_ionized_hydrogen: None, sources: crate::arepo_postprocess::SourceType::Explicit(vec![]), grid: GridParameters::Read("grid".into()), remap_from: None };
    let sweep = SweepParameters {
        directions: DirectionsSpecification::Num(1),
        rotate_directions: false,
        num_timestep_levels: 1,
        significant_rate_threshold: PhotonRate::zero(),
        timestep_safety_factor: Dimensionless::dimensionless(1.0),
        chemistry_timestep_safety_factor: Dimensionless::dimensionless(1.0),
        check_deadlock: false,
        periodic: false,
        max_timestep: Time::seconds(64.0),
        prevent_cooling: false,
        num_tasks_to_solve_before_send_receive: 1,
    };
    let cosmology = Cosmology::Cosmological { a: 0.5, h: 0.25, params: None };
    read_grid_system(Commands::of_store(), Query::of_store(), Res::from_ref(&pars), Res::from_ref(&sweep), Res::from_ref(&cosmology));
    store::apply();
    // what the cells should have: connection, own end
    let mut remote = [false; 4];
    let mut possible = [false; 4];
    let mut faces = 0;
    for own in 0..2 {
        let c = store::get::<Cell>(es[own]);
        must(c.is_some(), "every particle gets a cell");
        let c = c.unwrap();
        must(close(c.volume.value_unchecked(), [8.0, 27.0][own], 1e-9), "the volume is the mass by the density");
        must(close(c.size.value_unchecked(), [2.0, 3.0][own], 1e-6), "the size is the side of a cube of that volume");
        let mut expected = 0;
        for (i, con) in connections.iter().enumerate() {
            let k = con.kind;
            let valid = k != -1 && k & 10 == 0 && k & 5 != 5;
            if !valid {
                continue;
            }
            let periodic = [k & 1 != 0, k & 4 != 0];
            for end in 0..2 {
                if con.ids[end] != own || periodic[end] {
                    continue;
                }
                expected += 1;
                faces += 1;
                let sign = if end == 0 { -1.0 } else { 1.0 };
                let other = con.ids[1 - end];
                possible[other] |= other >= 2;
                let z = sign * (i + 1) as f64;
                let found: Vec<_> = c.neighbours.iter().filter(|(f, _)| f.normal.value_unchecked().z == z).collect();
                must(found.len() == 1, "every valid connection of a cell gives it one face, with the normal pointing to the other side");
                let (face, kind) = found[0];
                let n = face.normal.value_unchecked();
                must(n.x == sign * con.x && n.y == sign * 0.25, "the normal is that of the connection");
                must(close(face.area.value_unchecked(), con.area * 0.16, 1e-9), "the area is that of the connection, in physical units");
                let id = unsafe { OWNER[other] };
                let right = match kind {
                    ParticleType::Local(x) => !periodic[1 - end] && other < 2 && *x == id,
                    ParticleType::Remote(x) => {
                        remote[other] = true;
                        !periodic[1 - end] && other >= 2 && x.id == id && x.rank == id.rank
                    }
                    ParticleType::Boundary => periodic[1 - end],
                    _ => false,
                };
                must(right, "the other side is the cell with that id on its process, or the boundary if it lies across the box");
            }
            for end in 0..2 {
                if con.ids[end] == own {
                    possible[con.ids[1 - end]] |= con.ids[1 - end] >= 2;
                }
            }
        }
        must(c.neighbours.len() == expected, "there are no other faces");
    }
    // haloes
    let mut haloes = [0; 4];
    for r in store::rows().iter() {
        if let Some(h) = r.get::<HaloParticle>() {
            let id = unsafe { *r.get::<ParticleId>().unwrap() };
            let rank = unsafe { (*h).rank };
            must(rank == id.rank, "a halo is of the process of its particle");
            let k = unsafe { OWNER.iter().position(|o| *o == id) };
            must(k.is_some(), "a halo stands for a cell");
            haloes[k.unwrap()] += 1;
        }
    }
    for k in 0..4 {
        must(haloes[k] <= 1 && (haloes[k] == 0 || possible[k]), "only neighbours of other processes become haloes, once each");
        must(!remote[k] || haloes[k] == 1, "all of them do");
    }
    // messages
    unsafe {
        for k in 0..2 {
            let o = others[k];
            must(MESSAGES[o][0] == MESSAGES[o][1], "every request is followed by a reply");
            must(!any_requests || MESSAGES[o][0] == 1, "all processes take part if one of them has requests");
            for j in 0..4 {
                must(ASKED[o][j] <= 1, "a cell is asked for once");
            }
            for (j, id) in IDS.iter().enumerate() {
                let n = ANSWERS[o].iter().filter(|a| a.0 == *id && a.1 == OWNER[j]).count();
                must(j >= 2 || n == if their_requests[k].contains(id) { 1 } else { 0 }, "requests of others for cells of this process are answered");
            }
            must(ANSWERS[o].iter().all(|a| IDS.iter().position(|i| *i == a.0).map_or(false, |j| OWNER[j] == a.1)), "answers are right");
        }
    }
    cover(faces > 0, "faces");
    (remote, faces)
}
const KINDS: (usize, usize) = (0, 17);
fn kind() -> i32 {
    any(KINDS.0, KINDS.1) as i32 - 1
}
/// one connection of any kind and another
#[no_mangle]
pub extern "C" fn c35_kinds() {
    let me = 1;
    let a = pick(4);
    let b = pick(4);
    assume(a != b);
    let second = [[0, 3], [1, 0], [2, 3]][pick(3)];
    let (remote, faces) = run(me, vec![C { ids: [a, b], kind: kind(), area: real(0.0, 100.0), x: real(-1.0, 1.0) }, C { ids: second, kind: 0, area: real(0.0, 100.0), x: 0.5 }], [&[], &[]]);
    cover(remote[2] && remote[3], "neighbours on two processes");
    cover(faces == 0, "no faces");
}
#[no_mangle]
pub extern "C" fn c35_requests() {
    let me = pick(3);
    let none: &[u64] = &[];
    let theirs = [none, &[20], &[20, 10], &[40, 10, 50]];
    let first = [[0, 1], [2, 0], [1, 3], [3, 2]][pick(4)];
    run(me, vec![C { ids: first, kind: 0, area: real(0.0, 100.0), x: real(-1.0, 1.0) }], [theirs[pick(4)], theirs[pick(4)]]);
}
#[no_mangle]
pub extern "C" fn c35_many() {
    let me = pick(3);
    let pairs = [[0, 1], [1, 2], [2, 0], [3, 0], [1, 3]];
    let n = 3 + pick(3);
    let skip = pick(6);
    let l = (0..n).map(|i| C { ids: pairs[i], kind: if i == skip { kind() } else { 0 }, area: real(0.0, 100.0), x: real(-1.0, 1.0) }).collect();
    let (remote, faces) = run(me, l, [&[], &[]]);
    cover(remote[2] && remote[3] && faces == 6, "neighbours on two processes");
}
/// the kinds of connections
#[no_mangle]
pub extern "C" fn c35_types() {
    let k = any_u64() as i32;
    let r: Result<ConnectionType, ()> = ConnectionTypeInt(k).try_into();
    let valid = k != -1 && k & 2 == 0 && k & 8 == 0 && !(k & 1 != 0 && k & 4 != 0);
    match r {
        Ok(t) => must(valid && t.periodic1 == (k & 1 != 0) && t.periodic2 == (k & 4 != 0), "the ends across the box are told from the kind of the connection"),
        Err(()) => must(!valid, "only connections of cells that do not exist or that have both ends across the box are left out"),
    }
}
