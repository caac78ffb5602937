//! Import of points of other processes until all cells of this process are right.
use super::*;
use crate::dimension::ThreeD;
use crate::simulation_box::PeriodicWrapType3d;
use crate::voronoi::constructor::halo_cache::HaloCache;
use crate::voronoi::constructor::Constructor;
use crate::voronoi::delaunay::vp_c28;
use crate::voronoi::primitives::Point3d;
use crate::vp_api::*;

type Q = Point3d;
const ME: Rank = 1;
struct Others {
    points: Vec<(Rank, ParticleId, PeriodicWrapType3d, Q)>,
    cache: HaloCache<ThreeD>,
    imported: std::rc::Rc<std::cell::RefCell<Vec<ParticleId>>>,
    slow: bool,
    rounds: usize,
}
impl RadiusSearch<ThreeD> for Others {
    fn radius_search(&mut self, data: Vec<SearchData<ThreeD>>) -> DataByRank<SearchResults<ThreeD>> {
        self.rounds += 1;
        must(self.rounds < 40, "the search comes to an end");
        let mut out = DataByRank::empty();
        for rank in 0..3 {
            let mut found = vec![];
            for s in data.iter() {
                let near: Vec<_> = self.points.iter().filter(|(r, _, _, p)| *r == rank && (*p - s.point).length() < s.radius).map(|(_, id, w, p)| (*p, *id, *w)).collect();
                found.extend(self.cache.get_new_haloes(rank, near.into_iter()));
            }
            for f in found.iter() {
                self.imported.borrow_mut().push(f.id);
            }
            out.insert(rank, found);
        }
        out
    }
    fn determine_global_extent(&self) -> Option<Extent<Q>> {
        Some(Extent::from_min_max(Q::new(0.0, 0.0, 0.0), Q::new(1.0, 1.0, 1.0)))
    }
    /// other processes may take longer
    fn everyone_finished(&mut self, num: usize) -> bool {
        if num == 0 && self.slow {
            self.slow = false;
            return false;
        }
        num == 0
    }
    fn num_points(&mut self) -> usize {
        8
    }
    fn rank(&self) -> Rank {
        ME
    }
}
fn id(i: usize, rank: Rank) -> ParticleId {
    ParticleId { index: i as u32, rank }
}
const AROUND: [[f64; 3]; 6] = [[0.8, 0.52, 0.47], [0.2, 0.46, 0.55], [0.53, 0.83, 0.44], [0.45, 0.18, 0.52], [0.56, 0.47, 0.85], [0.43, 0.54, 0.13]];
fn wrap(i: usize) -> PeriodicWrapType3d {
    use crate::simulation_box::WrapType::*;
    [PeriodicWrapType3d { x: NoWrap, y: NoWrap, z: NoWrap }, PeriodicWrapType3d { x: Plus, y: NoWrap, z: NoWrap }, PeriodicWrapType3d { x: NoWrap, y: Minus, z: Plus }][i]
}
fn run(local: &[Q], others: Vec<(Rank, ParticleId, PeriodicWrapType3d, Q)>, length: f64, slow: bool) {
    vp_c28::NEAR.store(true, std::sync::atomic::Ordering::Relaxed);
    let imported = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let search = Others { points: others.clone(), cache: HaloCache::default(), imported: imported.clone(), slow, rounds: 0 };
    let c = Constructor::<ThreeD>::construct_from_iter(local.iter().enumerate().map(|(i, p)| (id(i, ME), *p)), search, Some(length));
    let t = &c.data.triangulation;
    // cells of this process are right, whatever was not imported
    let mut checked = 0;
    for (_, tet) in t.tetras.iter() {
        if tet.points().any(|p| t.point_kinds[&p] == PointKind::Inner) {
            checked += 1;
            let c: Vec<Q> = tet.points().map(|p| t.get_original_point(p)).collect();
            for (_, oid, w, p) in others.iter() {
                let is_corner = tet.points().any(|q| t.get_original_point(q) == *p);
                must(is_corner || vp_c28::in_sphere(c[0], c[1], c[2], c[3], *p) < 1e-6, "no point of any process is in the sphere around a tetrahedron at a point of this process");
            }
        }
    }
    must(checked > 0, "there are tetrahedra");
    let got = imported.borrow();
    for (i, a) in got.iter().enumerate() {
        must(!got[..i].contains(a), "a point is imported once");
    }
    must(c.data.point_to_cell_map.iter().count() == local.len() + got.len(), "every point has one cell");
    for (i, p) in local.iter().enumerate() {
        must(c.get_position_for_cell(ParticleType::Local(id(i, ME))) == *p, "own points are where they were");
        let pi = c.get_point_by_cell(ParticleType::Local(id(i, ME))).unwrap();
        must(t.point_kinds[&pi] == PointKind::Inner, "own points are inner points");
    }
    for (rank, oid, w, p) in others.iter() {
        let periodic = *w != wrap(0);
        let kind = match (*rank == ME, periodic) {
            (true, _) => ParticleType::LocalPeriodic(PeriodicNeighbour { id: *oid, periodic_wrap_type: *w }),
            (false, true) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour { id: *oid, rank: *rank, periodic_wrap_type: *w }),
            (false, false) => ParticleType::Remote(RemoteNeighbour { id: *oid, rank: *rank }),
        };
        let at = c.get_point_by_cell(kind);
        must(at.is_some() == got.contains(oid), "imported points are known as what they are");
        if let Some(at) = at {
            must(t.get_original_point(at) == *p, "imported points are where they were");
            must(t.point_kinds[&at] == PointKind::Halo(*rank), "imported points belong to their process");
        }
    }
    cover(got.len() == others.len(), "all points are imported");
}
fn around(n: usize) -> Vec<(Rank, ParticleId, PeriodicWrapType3d, Q)> {
    (0..n).map(|i| {
        let rank = [0, 2, 1, 0, 2, 0][i];
        let w = [0, 0, 1, 2, 0, 0][i];
        (rank, id(i + 10, rank), wrap(w), Q::new(AROUND[i][0], AROUND[i][1], AROUND[i][2]))
    }).collect()
}
const MORE: [[f64; 3]; 5] = [[0.31, 0.75, 0.72], [0.72, 0.27, 0.71], [0.93, 0.88, 0.06], [0.66, 0.61, 0.38], [0.75, 0.745, 0.775]];
/// the initial radius of the searches is anything: a ring of others and one more
#[no_mangle]
pub extern "C" fn c34_ring() {
    let mut o = around(6);
    let p = MORE[pick(5)];
    o.push((2, id(20, 2), wrap(0), Q::new(p[0], p[1], p[2])));
    run(&[Q::new(0.5, 0.49, 0.52)], o, real(0.02, 2.0), pick(2) == 1);
}
/// few points: everything has to be imported
#[no_mangle]
pub extern "C" fn c34_few() {
    let n = pick(3);
    let mut o = around(n);
    let p = MORE[pick(4)];
    o.push((0, id(20, 0), wrap(2), Q::new(p[0], p[1], p[2])));
    run(&[Q::new(0.5, 0.49, 0.52)], o, real(0.02, 2.0), pick(2) == 1);
}
/// two points of this process, close to each other or far apart
#[no_mangle]
pub extern "C" fn c34_two() {
    let o = around(4);
    let mut l = vec![Q::new(0.5, 0.49, 0.52)];
    let i = pick(4);
    l.push(Q::new(MORE[i][0], MORE[i][1], MORE[i][2]));
    run(&l, o, real(0.1, 1.0), false);
}
