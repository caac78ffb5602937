//! Triangulations by insertion of points.
use super::*;
use crate::dimension::ThreeD;
use crate::dimension::TwoD;
use crate::voronoi::primitives::Point2d;
use crate::voronoi::primitives::Point3d;
use crate::vp_api::*;

// ---- in the plane
type P = Point2d;
fn orient(a: P, b: P, c: P) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
/// positive if d is in the circle through a, b, c, which are counterclockwise
fn in_circle(a: P, b: P, c: P, d: P) -> f64 {
    let (u, v, w) = (a - d, b - d, c - d);
    let q = |p: P| p.x * p.x + p.y * p.y;
    q(u) * (v.x * w.y - v.y * w.x) - q(v) * (u.x * w.y - u.y * w.x) + q(w) * (u.x * v.y - u.y * v.x)
}
fn check_plane(t: &Triangulation<TwoD>, n: usize) {
    must(t.points.iter().count() == n + 3, "all points are there");
    must(t.tetras.iter().count() == 2 * n + 1 && t.faces.iter().count() == 3 * n + 3, "as many triangles and edges as there have to be");
    let ps: Vec<(PointIndex, P)> = t.points.iter().map(|(i, p)| (i, *p)).collect();
    let mut area = 0.0;
    for (ti, tri) in t.tetras.iter() {
        let c: Vec<P> = tri.points().map(|p| t.points[p]).collect();
        let a = orient(c[0], c[1], c[2]);
        must(a > 0.0, "all triangles are counterclockwise");
        area += a;
        for (i, p) in ps.iter() {
            if !tri.contains_point(*i) {
                must(in_circle(c[0], c[1], c[2], *p) < MARGIN, "no point is in the circle around a triangle");
            }
        }
        for (f, p) in tri.faces_and_points() {
            let line = &t.faces[f.face];
            must(!line.contains_point(p) && line.points().all(|q| tri.contains_point(q)), "an edge has the two corners that are not opposite of it");
            let (q1, q2) = (line.points().next().unwrap(), line.points().nth(1).unwrap());
            must(q1 != q2, "an edge has two corners");
            match f.opposing {
                None => must(t.point_kinds[&q1] == PointKind::Outer && t.point_kinds[&q2] == PointKind::Outer, "only the edges of the first triangle have one side"),
                Some(o) => {
                    let other = &t.tetras[o.tetra];
                    must(o.tetra != ti && other.contains_point(o.point) && !tri.contains_point(o.point), "the point on the other side of an edge");
                    let back = other.find_face(f.face);
                    must(other.find_point_opposite(f.face) == o.point, "the point on the other side of an edge");
                    must(back.opposing.map(|b| b.tetra == ti && b.point == p) == Some(true), "both triangles at an edge know each other");
                }
            }
        }
    }
    let outer: Vec<P> = ps.iter().filter(|(i, _)| t.point_kinds[i] == PointKind::Outer).map(|(_, p)| *p).collect();
    must(outer.len() == 3 && close(area, orient(outer[0], outer[1], outer[2]).abs(), 1e-3), "the triangles cover everything");
}
const MARGIN: f64 = 1e-6;
/// no three points on a line and no four on a circle, with the last point
fn general_plane(ps: &[P]) {
    let n = ps.len() - 1;
    let x = ps[n];
    let mut ok = true;
    for i in 0..n {
        for j in 0..i {
            ok &= orient(ps[i], ps[j], x).abs() > MARGIN;
            for k in 0..j {
                ok &= in_circle(ps[i], ps[j], ps[k], x).abs() > MARGIN;
            }
        }
    }
    assume(ok);
}
const PLANE: [[f64; 2]; 4] = [[0.3, 0.4], [0.7, 0.2], [0.6, 0.8], [0.15, 0.9]];
fn plane(num: usize, size: [f64; 2], p: P) {
    let e = Extent::<P>::from_points([P::new(0.0, 0.0), P::new(size[0], size[1])].into_iter()).unwrap();
    let mut t = Triangulation::<TwoD>::all_encompassing(&e);
    check_plane(&t, 0);
    for i in 0..num {
        t.insert(P::new(PLANE[i][0] * size[0], PLANE[i][1] * size[1]), PointKind::Inner);
        check_plane(&t, i + 1);
    }
    let mut all: Vec<P> = t.points.iter().map(|(_, p)| *p).collect();
    all.push(p);
    general_plane(&all);
    let (i, new) = t.insert(p, PointKind::Inner);
    check_plane(&t, num + 1);
    must(t.points[i] == p, "the point is where it was inserted");
    // all triangles at the new point are reported
    for (ti, tri) in t.tetras.iter() {
        must(!tri.contains_point(i) || new.contains(&ti), "all triangles that changed are reported");
    }
    cover(true, "done");
}
#[no_mangle]
pub extern "C" fn c28_plane_one() {
    plane(0, [1.0, 1.0], P::new(real(0.0, 1.0), real(0.0, 1.0)));
}
#[no_mangle]
pub extern "C" fn c28_plane_two() {
    plane(1, [1.0, 1.0], P::new(real(0.0, 1.0), real(0.0, 1.0)));
}
#[no_mangle]
pub extern "C" fn c28_plane_line() {
    let x = real(0.0, 1.0);
    let p = [P::new(x, 0.55), P::new(0.52, x), P::new(x, 0.05)][pick(3)];
    plane(2 + pick(3), [1.0, 1.0], p);
}
/// a box that is longer than wide
#[no_mangle]
pub extern "C" fn c28_plane_long() {
    let x = real(0.0, 1.0);
    let p = [P::new(4.0 * x, 0.55), P::new(2.2, x)][pick(2)];
    plane(2 + pick(2), [4.0, 1.0], p);
}

// ---- in space
/// The order in which tetrahedra are tried depends on distances that are often the same: all are the same in what follows.
pub static NEAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
type Q = Point3d;
fn vol(a: Q, b: Q, c: Q, d: Q) -> f64 {
    (b - a).cross(c - a).dot(d - a)
}
/// positive if e is in the sphere through a, b, c, d with positive volume
pub(crate) fn in_sphere(a: Q, b: Q, c: Q, d: Q, e: Q) -> f64 {
    let (u, v, w, x) = (a - e, b - e, c - e, d - e);
    let tri = |p: Q, q: Q, r: Q| p.cross(q).dot(r);
    let q = |p: Q| p.dot(p);
    q(u) * tri(v, w, x) - q(v) * tri(u, w, x) + q(w) * tri(u, v, x) - q(x) * tri(u, v, w)
}
fn check_space(t: &Triangulation<ThreeD>, n: usize) {
    must(t.points.iter().count() == n + 4, "all points are there");
    let ps: Vec<(PointIndex, Q)> = t.points.iter().map(|(i, p)| (i, *p)).collect();
    let mut total = 0.0;
    let mut inner_faces = 0;
    for (ti, tet) in t.tetras.iter() {
        let c: Vec<Q> = tet.points().map(|p| t.points[p]).collect();
        let v = vol(c[0], c[1], c[2], c[3]);
        must(v > 0.0, "all tetrahedra have the same orientation");
        total += v;
        for (i, p) in ps.iter() {
            if !tet.contains_point(*i) {
                must(in_sphere(c[0], c[1], c[2], c[3], *p) < MARGIN, "no point is in the sphere around a tetrahedron");
            }
        }
        for (f, p) in tet.faces_and_points() {
            let face = &t.faces[f.face];
            let q: Vec<PointIndex> = face.points().collect();
            must(!face.contains_point(p) && q.iter().all(|q| tet.contains_point(*q)), "a face has the three corners that are not opposite of it");
            must(q[0] != q[1] && q[1] != q[2] && q[0] != q[2], "a face has three corners");
            match f.opposing {
                None => must(q.iter().all(|q| t.point_kinds[q] == PointKind::Outer), "only the faces of the first tetrahedron have one side"),
                Some(o) => {
                    inner_faces += 1;
                    let other = &t.tetras[o.tetra];
                    must(o.tetra != ti && other.contains_point(o.point) && !tet.contains_point(o.point), "the point on the other side of a face");
                    let back = other.find_face(f.face);
                    must(other.find_point_opposite(f.face) == o.point, "the point on the other side of a face");
                    must(back.opposing.map(|b| b.tetra == ti && b.point == p) == Some(true), "both tetrahedra at a face know each other");
                }
            }
        }
    }
    must(t.faces.iter().count() == inner_faces / 2 + 4, "every face belongs to a tetrahedron");
    let outer: Vec<Q> = ps.iter().filter(|(i, _)| t.point_kinds[i] == PointKind::Outer).map(|(_, p)| *p).collect();
    must(outer.len() == 4 && close(total, vol(outer[0], outer[1], outer[2], outer[3]).abs(), 1e-3), "the tetrahedra cover everything");
}
pub(crate) fn general_space(ps: &[Q]) {
    let n = ps.len() - 1;
    let x = ps[n];
    let mut ok = true;
    for i in 0..n {
        for j in 0..i {
            for k in 0..j {
                ok &= vol(ps[i], ps[j], ps[k], x).abs() > MARGIN;
                for l in 0..k {
                    ok &= in_sphere(ps[i], ps[j], ps[k], ps[l], x).abs() > MARGIN;
                }
            }
        }
    }
    assume(ok);
}
const SPACE: [[f64; 3]; 5] = [[0.3, 0.4, 0.35], [0.7, 0.2, 0.6], [0.6, 0.8, 0.1], [0.15, 0.9, 0.75], [0.5, 0.45, 0.85]];
fn space(num: usize, size: [f64; 3], p: Q) {
    NEAR.store(num > 1, std::sync::atomic::Ordering::Relaxed);
    let e = Extent::<Q>::from_points([Q::new(0.0, 0.0, 0.0), Q::new(size[0], size[1], size[2])].into_iter()).unwrap();
    let mut t = Triangulation::<ThreeD>::all_encompassing(&e);
    check_space(&t, 0);
    for i in 0..num {
        t.insert(Q::new(SPACE[i][0] * size[0], SPACE[i][1] * size[1], SPACE[i][2] * size[2]), PointKind::Inner);
        check_space(&t, i + 1);
    }
    let before = t.tetras.iter().count();
    let mut all: Vec<Q> = t.points.iter().map(|(_, p)| *p).collect();
    all.push(p);
    general_space(&all);
    let (i, new) = t.insert(p, PointKind::Inner);
    check_space(&t, num + 1);
    must(t.points[i] == p, "the point is where it was inserted");
    for (ti, tet) in t.tetras.iter() {
        must(!tet.contains_point(i) || new.contains(&ti), "all tetrahedra that changed are reported");
    }
    cover(t.tetras.iter().count() >= before + 3, "inserted");
}
#[no_mangle]
pub extern "C" fn c28_space_one() {
    space(0, [1.0; 3], Q::new(real(0.0, 1.0), real(0.0, 1.0), 0.3));
}
#[no_mangle]
pub extern "C" fn c28_space_two() {
    let x = real(0.0, 1.0);
    let p = [Q::new(x, 0.55, 0.2), Q::new(0.52, x, 0.75), Q::new(0.1, 0.05, x)][pick(3)];
    space(1, [1.0; 3], p);
}
#[no_mangle]
pub extern "C" fn c28_space_three() {
    let x = real(0.0, 1.0);
    let p = [Q::new(x, 0.55, 0.2), Q::new(0.52, x, 0.75), Q::new(0.1, 0.05, x)][pick(3)];
    space(2, [1.0; 3], p);
}
#[no_mangle]
pub extern "C" fn c28_space_four() {
    let x = real(0.0, 1.0);
    let p = [Q::new(x, 0.55, 0.2), Q::new(0.52, x, 0.75)][pick(2)];
    space(3, [1.0; 3], p);
}
#[no_mangle]
pub extern "C" fn c28_space_five() {
    let x = real(0.0, 1.0);
    let p = [Q::new(x, 0.55, 0.2), Q::new(0.52, x, 0.75)][pick(2)];
    space(4, [1.0; 3], p);
}
#[no_mangle]
pub extern "C" fn c28_space_long() {
    let x = real(0.0, 1.0);
    space(2, [4.0, 1.0, 2.0], Q::new(4.0 * x, 0.55, 0.4));
}

// ---- for other harnesses
pub(crate) fn outermost<D: DDimension>(e: &Extent<crate::dimension::Point<D>>) -> Triangulation<D>
where
    Triangulation<D>: Delaunay<D>,
{
    Triangulation::<D>::all_encompassing(e)
}
pub(crate) fn points_of<D: DDimension>(t: &Triangulation<D>) -> Vec<crate::dimension::Point<D>> {
    t.points.iter().map(|(_, p)| *p).collect()
}
