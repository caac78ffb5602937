//! Voronoi cells of a triangulation.
use super::*;
use crate::extent::Extent;
use crate::hash_map::BiMap;
use crate::prelude::ParticleId;
use crate::voronoi::delaunay::Delaunay;
use crate::voronoi::delaunay::PointKind;
use crate::voronoi::delaunay::Triangulation;
use crate::voronoi::VoronoiGrid;
use crate::vp_api::*;

const TOL: f64 = 1e-4;
const MARGIN: f64 = 4e-3;
const SPACE_MARGIN: f64 = 1e-3;

fn id(i: usize) -> ParticleType {
    ParticleType::Local(ParticleId { rank: 0, index: i as u32 })
}
fn same(a: ParticleType, b: ParticleType) -> bool {
    match (a, b) {
        (ParticleType::Local(a), ParticleType::Local(b)) => a.index == b.index && a.rank == b.rank,
        (ParticleType::Boundary, ParticleType::Boundary) => true,
        _ => false,
    }
}

// ---- in the plane
type P = Point2d;
fn orient(a: P, b: P, c: P) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
fn in_circle(a: P, b: P, c: P, d: P) -> f64 {
    let (u, v, w) = (a - d, b - d, c - d);
    let q = |p: P| p.x * p.x + p.y * p.y;
    q(u) * (v.x * w.y - v.y * w.x) - q(v) * (u.x * w.y - u.y * w.x) + q(w) * (u.x * v.y - u.y * v.x)
}
/// not close to three points on a line or four on a circle
fn general_plane(ps: &[P]) {
    let n = ps.len() - 1;
    let x = ps[n];
    let mut ok = true;
    for i in 0..n {
        for j in 0..i {
            ok &= orient(ps[i], ps[j], x).abs() > MARGIN;
            for k in 0..j {
                ok &= in_circle(ps[i], ps[j], ps[k], x).abs() > MARGIN;
            }
        }
    }
    assume(ok);
}
const PLANE: [[f64; 2]; 6] = [[0.1, 0.15], [0.95, 0.1], [0.85, 0.9], [0.05, 0.8], [0.4, 0.3], [0.7, 0.62]];
fn plane_grid(ps: &[P], moving: bool) -> VoronoiGrid<TwoD> {
    let e = Extent::<P>::from_points([P::new(0.0, 0.0), P::new(1.0, 1.0)].into_iter()).unwrap();
    let mut t = crate::voronoi::delaunay::vp_c28::outermost::<TwoD>(&e);
    let mut map = BiMap::default();
    for (i, p) in ps.iter().enumerate() {
        if moving && i + 1 == ps.len() {
            let mut all: Vec<P> = crate::voronoi::delaunay::vp_c28::points_of(&t);
            all.push(*p);
            general_plane(&all);
        }
        let (k, _) = t.insert(*p, PointKind::Inner);
        map.insert(id(i), k);
    }
    TriangulationData::from_triangulation_and_map(t, map).construct_voronoi()
}
fn cross(a: P, b: P) -> f64 {
    a.x * b.y - a.y * b.x
}
fn check_plane(g: &VoronoiGrid<TwoD>, ps: &[P]) {
    must(g.cells.len() == ps.len(), "one cell for each point");
    for (i, p) in ps.iter().enumerate() {
        must(g.cells.iter().filter(|c| same(c.index, id(i))).count() == 1, "one cell for each point");
        let c = g.cells.iter().find(|c| same(c.index, id(i))).unwrap();
        must(c.center == *p, "a cell is around its point");
        must(c.is_infinite == c.faces.iter().any(|f| f.connection.is_boundary()), "a cell is infinite if it has a face to the boundary");
        must(!c.faces.iter().any(|f| same(f.connection, id(i))), "no cell is its own neighbour");
        must(c.faces.len() == c.points.len() && c.faces.len() >= 3, "as many faces as corners");
        for (j, q) in ps.iter().enumerate() {
            let n = c.faces.iter().filter(|f| same(f.connection, id(j))).count();
            must(n <= 1, "one face between two cells");
            if n == 1 && i < j {
                let f = c.faces.iter().find(|f| same(f.connection, id(j))).unwrap();
                let o = g.cells.iter().find(|c| same(c.index, id(j))).unwrap();
                must(o.faces.iter().filter(|f| same(f.connection, id(i))).count() == 1, "both cells at a face have it");
                let b = o.faces.iter().find(|f| same(f.connection, id(i))).unwrap();
                if !c.is_infinite || !o.is_infinite {
                    must(close(f.area, b.area, TOL), "a face has the same area for both cells");
                }
                must(close(f.normal.x, -b.normal.x, TOL) && close(f.normal.y, -b.normal.y, TOL), "a face has opposite normals for the two cells");
                let d = *q - *p;
                must(close(f.normal.dot(f.normal), 1.0, TOL) && cross(f.normal, d).abs() < TOL && f.normal.dot(d) > 0.0, "the normal points to the neighbour");
            }
        }
        if !c.is_infinite {
            let mut v = 0.0;
            let mut s = P::new(0.0, 0.0);
            for f in c.faces.iter() {
                let j = f.connection.unwrap_id().index as usize;
                v += 0.25 * f.area * (ps[j] - *p).dot(f.normal);
                s = s + f.normal * f.area;
            }
            must(close(c.volume(), v, 1e-3) && c.volume() > 0.0, "the volume of a cell");
            must(close(3.141592653589793 * c.size() * c.size(), v, 1e-3), "the size of a cell is the radius of a circle of its volume");
            must(s.x.abs() < 1e-3 && s.y.abs() < 1e-3, "the faces of a cell are closed");
            for x in c.points.iter() {
                for q in ps.iter() {
                    must((*x - *p).dot(*x - *p) <= (*x - *q).dot(*x - *q) + TOL, "all corners are closest to the point of the cell");
                }
            }
            cover(true, "finite cell");
        }
    }
}
fn plane(num: usize, p: P) {
    let mut ps: Vec<P> = PLANE[..num].iter().map(|x| P::new(x[0], x[1])).collect();
    ps.push(p);
    let g = plane_grid(&ps, true);
    check_plane(&g, &ps);
}
#[no_mangle]
pub extern "C" fn c29_plane_across() {
    plane(4, P::new(real(0.0, 1.0), 0.55));
}
#[no_mangle]
pub extern "C" fn c29_plane_up() {
    plane(5, P::new(0.52, real(0.0, 1.0)));
}
#[no_mangle]
pub extern "C" fn c29_plane_more() {
    let x = real(0.1, 0.9);
    plane(6, [P::new(x, 0.45), P::new(0.3, x)][pick(2)]);
}
/// which cell contains a point
#[no_mangle]
pub extern "C" fn c29_plane_contains() {
    let ps: Vec<P> = PLANE.iter().map(|x| P::new(x[0], x[1])).chain([P::new(0.45, 0.72)].into_iter()).collect();
    let g = plane_grid(&ps, false);
    let x = real(0.0, 1.0);
    let q = [P::new(x, 0.5), P::new(0.47, x), P::new(x, 0.9 - 0.8 * x)][pick(3)];
    let d = |p: P| (q - p).dot(q - p);
    for c in g.cells.iter() {
        if c.is_infinite {
            continue;
        }
        let m = c.center;
        let nearest = ps.iter().all(|p| *p == m || d(m) < d(*p) - TOL);
        let farther = ps.iter().any(|p| *p != m && d(m) > d(*p) + TOL);
        let r = c.contains(q);
        if nearest {
            must(r, "a point is in the cell whose point is closest");
            cover(true, "inside");
        }
        if farther {
            must(!r, "a point is in no other cell");
        }
    }
}

// ---- in space
type Q = Point3d;
fn vol(a: Q, b: Q, c: Q, d: Q) -> f64 {
    (b - a).cross(c - a).dot(d - a)
}
fn in_sphere(a: Q, b: Q, c: Q, d: Q, e: Q) -> f64 {
    let (u, v, w, x) = (a - e, b - e, c - e, d - e);
    let tri = |p: Q, q: Q, r: Q| p.cross(q).dot(r);
    let q = |p: Q| p.dot(p);
    q(u) * tri(v, w, x) - q(v) * tri(u, w, x) + q(w) * tri(u, v, x) - q(x) * tri(u, v, w)
}
fn general_space(ps: &[Q]) {
    let n = ps.len() - 1;
    let x = ps[n];
    let mut ok = true;
    for i in 0..n {
        for j in 0..i {
            for k in 0..j {
                ok &= vol(ps[i], ps[j], ps[k], x).abs() > SPACE_MARGIN;
                for l in 0..k {
                    ok &= in_sphere(ps[i], ps[j], ps[k], ps[l], x).abs() > SPACE_MARGIN;
                }
            }
        }
    }
    assume(ok);
}
const SPACE: [[f64; 3]; 6] = [[0.05, 0.1, 0.1], [0.95, 0.15, 0.2], [0.3, 0.95, 0.15], [0.4, 0.35, 0.95], [0.5, 0.42, 0.3], [0.38, 0.5, 0.45]];
fn space_grid(ps: &[Q], moving: bool) -> VoronoiGrid<ThreeD> {
    let e = Extent::<Q>::from_points([Q::new(0.0, 0.0, 0.0), Q::new(1.0, 1.0, 1.0)].into_iter()).unwrap();
    let mut t = crate::voronoi::delaunay::vp_c28::outermost::<ThreeD>(&e);
    crate::voronoi::delaunay::vp_c28::NEAR.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut map = BiMap::default();
    for (i, p) in ps.iter().enumerate() {
        if moving && i + 1 == ps.len() {
            let mut all: Vec<Q> = crate::voronoi::delaunay::vp_c28::points_of(&t);
            all.push(*p);
            general_space(&all);
        }
        let (k, _) = t.insert(*p, PointKind::Inner);
        map.insert(id(i), k);
    }
    TriangulationData::from_triangulation_and_map(t, map).construct_voronoi()
}
fn check_space(g: &VoronoiGrid<ThreeD>, ps: &[Q]) {
    must(g.cells.len() == ps.len(), "one cell for each point");
    for (i, p) in ps.iter().enumerate() {
        must(g.cells.iter().filter(|c| same(c.index, id(i))).count() == 1, "one cell for each point");
        let c = g.cells.iter().find(|c| same(c.index, id(i))).unwrap();
        must(c.center == *p, "a cell is around its point");
        must(c.is_infinite == c.faces.iter().any(|f| f.connection.is_boundary()), "a cell is infinite if it has a face to the boundary");
        must(!c.faces.iter().any(|f| same(f.connection, id(i))), "no cell is its own neighbour");
        must(c.faces.len() >= 4, "a cell has faces");
        for (j, q) in ps.iter().enumerate() {
            let n = c.faces.iter().filter(|f| same(f.connection, id(j))).count();
            must(n <= 1, "one face between two cells");
            if n == 1 && i < j {
                let f = c.faces.iter().find(|f| same(f.connection, id(j))).unwrap();
                let o = g.cells.iter().find(|c| same(c.index, id(j))).unwrap();
                must(o.faces.iter().filter(|f| same(f.connection, id(i))).count() == 1, "both cells at a face have it");
                let b = o.faces.iter().find(|f| same(f.connection, id(i))).unwrap();
                if !c.is_infinite || !o.is_infinite {
                    must(close(f.area, b.area, 1e-4), "a face has the same area for both cells");
                }
                must((f.normal + b.normal).dot(f.normal + b.normal) < TOL, "a face has opposite normals for the two cells");
                let d = *q - *p;
                let k = f.normal.cross(d);
                must(close(f.normal.dot(f.normal), 1.0, TOL) && k.dot(k) < TOL && f.normal.dot(d) > 0.0, "the normal points to the neighbour");
            }
        }
        if !c.is_infinite {
            let mut v = 0.0;
            let mut s = Q::new(0.0, 0.0, 0.0);
            for f in c.faces.iter() {
                let j = f.connection.unwrap_id().index as usize;
                v += f.area * (ps[j] - *p).dot(f.normal) / 6.0;
                s = s + f.normal * f.area;
            }
            must(close(c.volume(), v, 1e-3) && c.volume() > 0.0, "the volume of a cell");
            must(s.dot(s) < 1e-4, "the faces of a cell are closed");
            for x in c.points.iter() {
                for q in ps.iter() {
                    must((*x - *p).dot(*x - *p) <= (*x - *q).dot(*x - *q) + TOL, "all corners are closest to the point of the cell");
                }
            }
            cover(true, "finite cell");
        }
    }
}
fn space(num: usize, p: Q) {
    let mut ps: Vec<Q> = SPACE[..num].iter().map(|x| Q::new(x[0], x[1], x[2])).collect();
    ps.push(p);
    let g = space_grid(&ps, true);
    check_space(&g, &ps);
}
#[no_mangle]
pub extern "C" fn c29_space_five() {
    space(5, Q::new(0.41, 0.38, real(0.15, 0.7)));
}
#[no_mangle]
pub extern "C" fn c29_space_contains() {
    let ps: Vec<Q> = SPACE.iter().map(|x| Q::new(x[0], x[1], x[2])).collect();
    let g = space_grid(&ps, false);
    let x = real(0.0, 1.0);
    let q = [Q::new(x, 0.45, 0.35), Q::new(0.44, x, 0.4), Q::new(x, 0.9 - 0.8 * x, 0.1 + 0.5 * x)][pick(3)];
    let d = |p: Q| (q - p).dot(q - p);
    for c in g.cells.iter() {
        if c.is_infinite {
            continue;
        }
        let m = c.center;
        let nearest = ps.iter().all(|p| *p == m || d(m) < d(*p) - TOL);
        let farther = ps.iter().any(|p| *p != m && d(m) > d(*p) + TOL);
        let r = c.contains(q);
        if nearest {
            must(r, "a point is in the cell whose point is closest");
            cover(true, "inside");
        }
        if farther {
            must(!r, "a point is in no other cell");
        }
    }
}

// ---- arranging in a cycle
/// items in any order along a ring
#[no_mangle]
pub extern "C" fn c29_cyclic() {
    let n = 2 + pick(4);
    // a permutation
    let mut items: Vec<usize> = vec![];
    for _ in 0..n {
        let mut free: Vec<usize> = (0..n).filter(|i| !items.contains(i)).collect();
        let k = pick(free.len());
        items.push(free.swap_remove(k));
    }
    let ring = move |a: &usize, b: &usize| (*a + 1) % n == *b || (*b + 1) % n == *a;
    let r: Vec<(usize, usize)> = arrange_cyclic_by(&items, ring).map(|(a, b)| (*a, *b)).collect();
    must(r.len() == n, "as many pairs as items");
    for i in 0..n {
        must(r.iter().filter(|x| x.0 == i).count() == 1 && r.iter().filter(|x| x.1 == i).count() == 1, "every item is first once and second once");
        must(ring(&r[i].0, &r[i].1), "pairs are neighbours");
        must(r[i].1 == r[(i + 1) % n].0, "pairs follow each other");
    }
    let w: Vec<(usize, usize)> = periodic_windows_2(&items).map(|(a, b)| (*a, *b)).collect();
    must(w.len() == n && (0..n).all(|i| w[i] == (items[i], items[(i + 1) % n])), "windows of two along a ring");
    must(periodic_windows_2(&items[..1]).count() == 0 && periodic_windows_2(&items[..0]).count() == 0, "no windows without two items");
    must(arrange_cyclic_by(&items[..1], ring).count() == 0, "nothing to arrange");
}
