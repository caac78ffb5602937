//! Searches for points of other processes and across the boundary of the box.
use super::*;
use crate::domain::decomposition::vp_c34d as dec;
use crate::domain::LeafData;
use crate::prelude::ParticleId;
use crate::quadtree::QuadTreeConfig;
use crate::simulation_box::PeriodicWrapType3d;
use crate::simulation_box::WrapType as W;
use crate::vp_api::*;
use mpi::model;

type D = ActiveDimension;
type P3 = Point<D>;
const L: f64 = 8.0;
static mut SENT: Vec<(Rank, usize, Vec<u8>)> = Vec::new();
#[allow(static_mut_refs)]
fn on_send(id: usize) {
    let s = &model::world().sent[id];
    let n = s.len * s.elem_size;
    let mut v: Vec<u8> = Vec::with_capacity(n);
    unsafe {
        core::ptr::copy_nonoverlapping(s.ptr, v.as_mut_ptr(), n);
        v.set_len(n);
        SENT.push((s.dest, s.len, v));
    }
}
fn at(dim: usize, x: f64) -> [f64; 3] {
    let mut p = [1.0, 2.0, 3.0];
    p[dim] = x;
    p
}
fn pt(p: [f64; 3]) -> P3 {
    P3::new(p[0], p[1], p[2])
}
fn len(p: [f64; 3]) -> VecLength {
    VecLength::new_unchecked(pt(p))
}
fn shift(w: &W) -> f64 {
    match w {
        W::NoWrap => 0.0,
        W::Plus => L,
        W::Minus => -L,
    }
}
fn shifts(w: &PeriodicWrapType3d) -> [f64; 3] {
    [shift(&w.x), shift(&w.y), shift(&w.z)]
}
/// the distance along the line to the closest image
fn near(x: f64, c: f64) -> f64 {
    let d = (x - c).abs();
    if d > L / 2.0 { L - d } else { d }
}
/// what was found is where the particle or one of its images is, within the radius
fn right(r: &SearchResult<D>, p: [f64; 3], dim: usize, c: f64, radius: f64) {
    let s = shifts(&r.periodic_wrap_type);
    let q = [r.point.x, r.point.y, r.point.z];
    for i in 0..3 {
        must(close(q[i], p[i] + s[i], 1e-9), "a point that is found is the particle or its image on the side that is given");
    }
    must((q[dim] - c).abs() <= radius + 1e-6, "it is within the radius");
}
#[allow(static_mut_refs)]
fn run(x: f64, c: f64, radius: f64, own_c: f64, own_radius: f64, rounds: usize) {
    let dim = pick(3);
    let me = pick(2) as Rank;
    let other = 1 - me;
    model::reset(2, me);
    unsafe { SENT = Vec::new() };
    model::world().on_send = Some(on_send);
    let b = dec::unit_box();
    let (p0, p1) = (at(dim, x), at(dim, 6.5));
    let leaf = |i: usize, p| LeafData { id: ParticleId { index: i as u32, rank: me }, pos: len(p) };
    let tree = QuadTree::new(&QuadTreeConfig { max_depth: 1, max_num_particles_per_leaf: 1 }, vec![leaf(0, p0), leaf(1, p1)], &crate::domain::Extent::from_min_max(len([0.0; 3]), len([L; 3])));
    // the other process has particles between 2 and 3
    let theirs = crate::domain::Extent::from_min_max(len(at(dim, 2.0)), len(at(dim, 3.0)));
    let d = dec::with_extents(me, theirs);
    let mut search = ParallelSearch::<D>::new(&tree, &d, b, HaloCache::default(), 2);
    let request = SearchData::<D> { point: pt(at(dim, c)), radius };
    let answer = SearchResult::<D> { point: pt(at(dim, 2.5)), id: ParticleId { index: 7, rank: other }, periodic_wrap_type: PeriodicWrapType3d { x: W::NoWrap, y: W::NoWrap, z: W::NoWrap } };
    let requests = vec![request.to_equivalent()];
    let answers = vec![answer.to_equivalent()];
    let none = vec![answer.to_equivalent()];
    let mut first = 0;
    for round in 0..rounds {
        model::deliver(other, &requests, true);
        model::deliver(other, if round == 0 { &answers[..] } else { &none[..0] }, true);
        let before = unsafe { SENT.len() };
        let own = vec![SearchData::<D> { point: pt(at(dim, own_c)), radius: own_radius }];
        let got = search.radius_search(own);
        let sent = unsafe { &SENT[before..] };
        must(sent.len() == 2 && sent.iter().all(|s| s.0 == other), "two messages to every other process");
        // the request
        let close_to_them = near(2.0, own_c) < own_radius - 1e-6 || near(3.0, own_c) < own_radius - 1e-6;
        must(!close_to_them || sent[0].1 == 1, "a process that has particles within the radius is asked");
        must(sent[0].1 <= 1, "a search is sent once");
        if sent[0].1 == 1 {
            let m: MpiSearchData<D> = unsafe { std::ptr::read_unaligned(sent[0].2.as_ptr() as *const MpiSearchData<D>) };
            let m = SearchData::<D>::from_equivalent(&m);
            must(m.point == pt(at(dim, own_c)) && m.radius == own_radius, "the search arrives as it was");
        }
        // the answers to the other process
        let mut count = [0; 2];
        for i in 0..sent[1].1 {
            let size = std::mem::size_of::<MpiSearchResult<D>>();
            let m: MpiSearchResult<D> = unsafe { std::ptr::read_unaligned(sent[1].2.as_ptr().add(i * size) as *const MpiSearchResult<D>) };
            let m = SearchResult::<D>::from_equivalent(&m);
            must(m.id.rank == me && m.id.index < 2, "only particles of this process are sent");
            let k = conc(m.id.index as usize);
            count[k] += 1;
            right(&m, [p0, p1][k], dim, c, radius);
        }
        for k in 0..2 {
            let d = near([x, 6.5][k], c);
            if round == 0 {
                must(!(d < radius - 1e-6) || count[k] == 1, "all particles within the radius are sent");
                must(!(d > radius + 1e-6) || count[k] == 0, "no others are sent");
                must(count[k] <= 1, "a particle is sent once");
                first += count[k];
            } else {
                must(count[k] == 0, "what was sent before is not sent again");
            }
        }
        // what this process gets
        let n = got[other].len();
        must(n == if round == 0 { 1 } else { 0 }, "what the other process sends arrives");
        if round == 0 {
            let a = &got[other][0];
            must(a.point == answer.point && a.id == answer.id && a.periodic_wrap_type == answer.periodic_wrap_type, "as it was sent");
        }
        let mut own_count = [0; 2];
        for r in got[me].iter() {
            must(r.periodic_wrap_type.is_periodic(), "own particles are found only across the boundary");
            let k = conc(r.id.index as usize);
            own_count[k] += 1;
            right(r, [p0, p1][k], dim, own_c, own_radius);
        }
        for k in 0..2 {
            let px = [x, 6.5][k];
            let across = (px - own_c).abs() > L - own_radius + 1e-6;
            must(!(round == 0 && across) || own_count[k] == 1, "own particles across the boundary are found");
            must(round == 0 || own_count[k] == 0, "once");
        }
        cover(round > 0 || own_count[0] + own_count[1] == 1, "an own particle across the boundary");
    }
    cover(first == 2, "both particles are sent");
    cover(first == 0, "none is sent");
}
#[no_mangle]
pub extern "C" fn c34_requests() {
    let x = real(0.0, 7.9);
    run(x, real(0.1, 7.9), 2.5, [0.5, 7.5][pick(2)], 1.75, 1);
}
#[no_mangle]
pub extern "C" fn c34_radius() {
    run(7.75, [0.5, 5.0, 7.0][pick(3)], real(0.1, 3.9), real(0.1, 7.9), real(0.1, 3.9), 1);
}
#[no_mangle]
pub extern "C" fn c34_again() {
    let x = real(0.0, 7.9);
    run(x, 7.0, real(0.1, 3.5), 0.5, 1.75, 2);
}
fn wrap_any() -> W {
    [W::NoWrap, W::Plus, W::Minus][pick(3)]
}
/// over the wire
#[no_mangle]
pub extern "C" fn c34_wire() {
    use crate::dimension::TwoD;
    use crate::simulation_box::PeriodicWrapType2d;
    let id = ParticleId { index: any_u64() as u32, rank: any_u64() as i32 };
    let (a, b, c) = (real(-1e9, 1e9), real(-1e9, 1e9), real(-1e9, 1e9));
    let r = SearchResult::<D> { point: pt([a, b, c]), id, periodic_wrap_type: PeriodicWrapType3d { x: wrap_any(), y: wrap_any(), z: wrap_any() } };
    let s = SearchResult::<D>::from_equivalent(&r.to_equivalent());
    must(s.point == r.point && s.id == r.id && s.periodic_wrap_type == r.periodic_wrap_type, "points that were found arrive as they were");
    let r = SearchResult::<TwoD> { point: Point::<TwoD>::new(a, b), id, periodic_wrap_type: PeriodicWrapType2d { x: wrap_any(), y: wrap_any() } };
    let s = SearchResult::<TwoD>::from_equivalent(&r.to_equivalent());
    must(s.point == r.point && s.id == r.id && s.periodic_wrap_type == r.periodic_wrap_type, "points in the plane that were found arrive as they were");
    let q = SearchData::<TwoD> { point: Point::<TwoD>::new(a, b), radius: c };
    let t = SearchData::<TwoD>::from_equivalent(&q.to_equivalent());
    must(t.point == q.point && t.radius == q.radius, "searches in the plane arrive as they were");
    cover(id.rank < 0, "a wide range of ids");
}
