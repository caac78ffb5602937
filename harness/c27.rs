//! Triangles: inside or outside, circles around them, distances, intersections.
use super::*;
use crate::vp_api::*;
use crate::voronoi::primitives::polygon3d::Polygon3d;

type P = Point2d;
const FIXED: [[[f64; 2]; 3]; 4] = [
    [[1.0, 1.0], [2.0, 1.25], [1.5, 2.0]],
    [[1.0, 1.0], [1.5, 1.0], [1.0, 1.75]],
    [[1.25, 1.5], [1.5, 1.0], [1.75, 1.875]],
    [[2.0, 2.0], [1.0, 2.0], [1.5, 1.9]],
];
fn p2(a: [f64; 2]) -> P {
    P::new(a[0], a[1])
}
/// twice the signed area
fn orient(a: P, b: P, c: P) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
fn any2() -> P {
    P::new(real(0.5, 2.5), real(0.5, 2.5))
}
const FAR: f64 = 1e-6;
/// a triangle with one corner anywhere (or none), counterclockwise or not
fn triangle(corner: usize) -> TriangleData<P> {
    let f = FIXED[pick(4)];
    let mut c = [p2(f[0]), p2(f[1]), p2(f[2])];
    if corner < 3 {
        c[corner] = any2();
    }
    TriangleData { p1: c[0], p2: c[1], p3: c[2] }
}
fn inside(t: &TriangleData<P>, p: P) -> bool {
    let s = [orient(t.p1, t.p2, p), orient(t.p2, t.p3, p), orient(t.p3, t.p1, p)];
    let a = orient(t.p1, t.p2, t.p3);
    assume(a.abs() > 0.01);
    for x in s {
        assume(x.abs() > FAR);
    }
    s.iter().all(|x| (*x > 0.0) == (a > 0.0))
}
/// a point is in a triangle if it is on the inner side of all edges
#[no_mangle]
pub extern "C" fn c27_inside_point() {
    let t = triangle(3);
    let p = any2();
    let want = inside(&t, p);
    must(t.contains(p) == want, "a point is in a triangle if it is on the inner side of all edges");
    cover(want, "inside");
    cover(!want, "outside");
}
#[no_mangle]
pub extern "C" fn c27_inside_corner() {
    let t = triangle(pick(3));
    let p = p2([1.375, 1.4375]);
    let want = inside(&t, p);
    must(t.contains(p) == want, "a point is in a triangle if it is on the inner side of all edges");
    cover(want, "inside");
}
/// the circle goes through the three corners
#[no_mangle]
pub extern "C" fn c27_center() {
    let corner = pick(3);
    let mut t = triangle(3);
    *[&mut t.p1, &mut t.p2, &mut t.p3][corner] = [P::new(real(0.5, 2.5), 1.125), P::new(1.875, real(0.5, 2.5))][pick(2)];
    assume(orient(t.p1, t.p2, t.p3).abs() > 0.01);
    let c = t.get_center_of_circumcircle();
    // the difference of the squares of the distances
    let same = |p: P| (p - t.p1).dot(c * 2.0 - p - t.p1).abs() < 1e-6;
    must(same(t.p2) && same(t.p3), "the center of the circumcircle has the same distance to all corners");
}
/// the circle contains what is closer to its center than the corners
#[no_mangle]
pub extern "C" fn c27_circle() {
    let t = triangle(3);
    let t = if orient(t.p1, t.p2, t.p3) > 0.0 { t } else { TriangleData { p1: t.p2, p2: t.p1, p3: t.p3 } };
    let p = any2();
    let c = t.get_center_of_circumcircle();
    let d = |p: P| (p.x - c.x) * (p.x - c.x) + (p.y - c.y) * (p.y - c.y);
    let diff = d(p) - d(t.p1);
    assume(diff.abs() > FAR);
    must(t.circumcircle_contains(p) == (diff < 0.0), "the circumcircle contains the points that are closer to its center");
    cover(diff < 0.0, "in the circle");
    cover(diff > 0.0, "not in the circle");
}
#[no_mangle]
pub extern "C" fn c27_circle_corner() {
    let t = triangle(pick(3));
    let a = orient(t.p1, t.p2, t.p3);
    assume(a > 0.01);
    let p = p2([1.375, 1.4375]);
    // the power of the point, times the area
    let (u, v, w) = (t.p1 - p, t.p2 - p, t.p3 - p);
    let det = u.dot(u) * (v.x * w.y - v.y * w.x) - v.dot(v) * (u.x * w.y - u.y * w.x) + w.dot(w) * (u.x * v.y - u.y * v.x);
    assume(det.abs() > FAR);
    must(t.circumcircle_contains(p) == (det > 0.0), "the circumcircle contains the points that are closer to its center");
    cover(det > 0.0, "in the circle");
    cover(det < 0.0, "not in the circle");
}
/// the first triangle contains the box, oriented counterclockwise
#[no_mangle]
pub extern "C" fn c27_first() {
    let (x, y) = (real(-100.0, 100.0), real(-100.0, 100.0));
    let (w, h) = (real(0.5, 100.0), real(0.5, 100.0));
    let e = Extent::<P>::from_points([P::new(x, y), P::new(x + w, y + h)].into_iter()).unwrap();
    let t = TriangleData::<P>::all_encompassing(&e);
    must(orient(t.p1, t.p2, t.p3) > 0.0, "the first triangle is oriented counterclockwise");
    for (i, j) in [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)] {
        let c = P::new(x + i * w, y + j * h);
        must(orient(t.p1, t.p2, c) > 0.0 && orient(t.p2, t.p3, c) > 0.0 && orient(t.p3, t.p1, c) > 0.0, "the first triangle contains the whole box");
    }
    let ex = t.extent();
    for p in [t.p1, t.p2, t.p3] {
        must(ex.min.x <= p.x && ex.min.y <= p.y && ex.max.x >= p.x && ex.max.y >= p.y, "the extent of a triangle has its corners");
    }
}

// ---- in space
type Q = Point3d;
fn any3() -> Q {
    Q::new(real(0.5, 2.5), real(0.5, 2.5), real(0.5, 2.5))
}
const SPACE: [[[f64; 3]; 3]; 3] = [
    [[1.0, 1.0, 1.0], [2.0, 1.25, 1.0], [1.5, 2.0, 1.0]],
    [[1.0, 1.0, 1.5], [1.5, 1.75, 1.0], [1.25, 2.0, 1.75]],
    [[2.0, 1.0, 1.0], [1.0, 2.0, 1.0], [1.0, 1.0, 2.0]],
];
fn space(k: usize) -> TriangleData<Q> {
    let f = SPACE[k];
    let q = |a: [f64; 3]| Q::new(a[0], a[1], a[2]);
    TriangleData { p1: q(f[0]), p2: q(f[1]), p3: q(f[2]) }
}
fn vol(a: Q, b: Q, c: Q, d: Q) -> f64 {
    (b - a).cross(c - a).dot(d - a)
}
/// through the triangle, or outside of which of its edges
fn crossing(t: &TriangleData<Q>, q1: Q, q2: Q) {
    // signed volumes with each edge, all of one sign inside
    let along = vol(t.p1, t.p2, t.p3, q2) - vol(t.p1, t.p2, t.p3, q1);
    assume(along.abs() > 0.01);
    let v = [vol(q1, q2, t.p2, t.p3), vol(q1, q2, t.p3, t.p1), vol(q1, q2, t.p1, t.p2)];
    for x in v {
        assume(x.abs() > FAR);
    }
    // the sum of all is the volume along the line
    let total = v[0] + v[1] + v[2];
    let out: Vec<bool> = v.iter().map(|x| (*x > 0.0) != (total > 0.0)).collect();
    let ids = [EdgeIdentifier::One, EdgeIdentifier::Two, EdgeIdentifier::Three];
    let got = t.get_line_intersection_type(q1, q2);
    let number = conc(match got {
        IntersectionType::Inside => 0,
        IntersectionType::OutsideOneEdge(_) => 1,
        IntersectionType::OutsideTwoEdges(_, _) => 2,
    });
    must(number == out.iter().filter(|x| **x).count(), "a line passes outside of as many edges as reported");
    for i in 0..3 {
        if number == 1 {
            if let IntersectionType::OutsideOneEdge(a) = got {
                must((a == ids[i]) == out[i], "a line passes outside of the edge that is reported");
            }
        } else if number == 2 {
            if let IntersectionType::OutsideTwoEdges(a, b) = got {
                must((a == ids[i] || b == ids[i]) == out[i], "a line passes outside of the edges that are reported");
            }
        }
    }
    let num = out.iter().filter(|x| **x).count();
    cover(num == 0, "inside");
    cover(num == 1, "outside one edge");
    cover(num == 2, "outside two edges");
}
#[no_mangle]
pub extern "C" fn c27_line() {
    let t = space(pick(3));
    let q1 = [Q::new(1.25, 1.5, 2.25), Q::new(1.0, 0.75, 0.5)][pick(2)];
    let q2 = Q::new(real(0.5, 2.5), real(0.5, 2.5), [0.75, 1.25][pick(2)]);
    crossing(&t, q1, q2);
}
#[no_mangle]
pub extern "C" fn c27_line_any() {
    let t = space(pick(3));
    let q1 = Q::new(1.25, 1.5, 2.25);
    crossing(&t, q1, any3());
}
/// names of edges and the points opposite of them fit
#[no_mangle]
pub extern "C" fn c27_edges() {
    let ids = [EdgeIdentifier::One, EdgeIdentifier::Two, EdgeIdentifier::Three];
    let t = Triangle { p1: PointIndex(any(0, 100) as usize), p2: PointIndex(any(0, 100) as usize), p3: PointIndex(any(0, 100) as usize) };
    let ps = [t.p1, t.p2, t.p3];
    assume(ps[0] != ps[1] && ps[1] != ps[2] && ps[0] != ps[2]);
    for i in 0..3 {
        let (a, b) = t.get_points_of(ids[i]);
        let o = t.get_point_opposite(ids[i]);
        must(o == ps[i] && a != o && b != o && a != b && ps.contains(&a) && ps.contains(&b), "an edge has the two corners that are not opposite of it");
    }
}
/// no point of the triangle is closer than the closest one
#[no_mangle]
pub extern "C" fn c27_closest() {
    let t = space(pick(3));
    let q = Q::new(real(0.5, 2.5), real(0.5, 2.5), [0.75, 1.25, 2.25][pick(3)]);
    let c = t.closest_point(q);
    let (r, s) = (real(0.0, 1.0), real(0.0, 1.0));
    assume(r + s <= 1.0);
    let any = t.p1 + (t.p2 - t.p1) * r + (t.p3 - t.p1) * s;
    must((c - q).length_squared() <= (any - q).length_squared() + 1e-9, "no point of a triangle is closer than the closest one");
    let n = (t.p2 - t.p1).cross(t.p3 - t.p1);
    must(n.dot(c - t.p1).abs() < 1e-9, "the closest point is in the plane of the triangle");
    let e = |a: Q, b: Q| (b - a).cross(c - a).dot(n) > -1e-9;
    must(e(t.p1, t.p2) && e(t.p2, t.p3) && e(t.p3, t.p1), "the closest point is in the triangle");
}
/// the area of a plane polygon
#[no_mangle]
pub extern "C" fn c27_area() {
    // a convex quadrangle, one corner anywhere beyond the diagonal
    let (x, y) = (real(0.5, 3.0), real(0.5, 3.0));
    let pts = [[0.0, 0.0], [1.0, 0.0], [x, y], [0.0, 1.0]];
    assume(x + y > 1.0);
    let plane = pick(3);
    let lift = |p: [f64; 2]| match plane {
        0 => Q::new(p[0], p[1], 0.5),
        1 => Q::new(-2.0, p[1], p[0]),
        _ => Q::new(p[0], p[1], p[1]),
    };
    let scale: f64 = if plane == 2 { 2.0 } else { 1.0 };
    let start = pick(4);
    let poly = Polygon3d { points: (0..4).map(|i| lift(pts[(start + i) % 4])).collect() };
    let a = poly.area();
    let want = 0.5 * (x + y);
    must(a >= 0.0 && close(a * a, want * want * scale, 1e-6), "the area of a polygon");
}
