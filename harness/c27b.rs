//! Tetrahedra: inside or outside and spheres around them.
use super::*;
use crate::vp_api::*;

type Q = Point3d;
const FIXED: [[[f64; 3]; 4]; 3] = [
    [[1.0, 1.0, 1.0], [2.0, 1.25, 1.0], [1.5, 2.0, 1.0], [1.5, 1.5, 2.0]],
    [[1.0, 1.0, 1.0], [2.0, 1.0, 1.0], [1.0, 2.0, 1.0], [1.0, 1.0, 2.0]],
    [[1.25, 1.0, 1.5], [1.75, 1.5, 1.0], [1.0, 1.75, 1.25], [1.5, 1.25, 2.0]],
];
fn q(a: [f64; 3]) -> Q {
    Q::new(a[0], a[1], a[2])
}
fn any3() -> Q {
    Q::new(real(0.5, 2.5), real(0.5, 2.5), real(0.5, 2.5))
}
fn vol(a: Q, b: Q, c: Q, d: Q) -> f64 {
    (b - a).cross(c - a).dot(d - a)
}
const FAR: f64 = 1e-6;
fn tetra(corner: usize) -> TetrahedronData {
    let f = FIXED[pick(3)];
    let mut c = [q(f[0]), q(f[1]), q(f[2]), q(f[3])];
    if corner < 4 {
        c[corner] = any3();
    }
    TetrahedronData { p1: c[0], p2: c[1], p3: c[2], p4: c[3] }
}
fn inside(t: &TetrahedronData, p: Q) -> bool {
    let a = vol(t.p1, t.p2, t.p3, t.p4);
    assume(a.abs() > 0.01);
    let s = [vol(p, t.p2, t.p3, t.p4), vol(t.p1, p, t.p3, t.p4), vol(t.p1, t.p2, p, t.p4), vol(t.p1, t.p2, t.p3, p)];
    for x in s {
        assume(x.abs() > FAR);
    }
    s.iter().all(|x| (*x > 0.0) == (a > 0.0))
}
#[no_mangle]
pub extern "C" fn c27_tetra_inside() {
    let t = tetra(4);
    let p = any3();
    let want = inside(&t, p);
    must(t.contains(p) == want, "a point is in a tetrahedron if it is on the inner side of all faces");
    cover(want, "inside");
    cover(!want, "outside");
}
#[no_mangle]
pub extern "C" fn c27_tetra_inside_corner() {
    let t = tetra(pick(4));
    let p = q([1.375, 1.4375, 1.3125]);
    let want = inside(&t, p);
    must(t.contains(p) == want, "a point is in a tetrahedron if it is on the inner side of all faces");
    cover(want, "inside");
    cover(!want, "outside");
}
#[no_mangle]
pub extern "C" fn c27_tetra_center() {
    let corner = 1 + pick(3);
    let mut t = tetra(4);
    let x = real(0.5, 2.5);
    *[&mut t.p1, &mut t.p2, &mut t.p3, &mut t.p4][corner] = [Q::new(x, 1.125, 1.625), Q::new(1.875, x, 1.25), Q::new(1.0625, 1.3125, x)][pick(3)];
    assume(vol(t.p1, t.p2, t.p3, t.p4).abs() > 0.01);
    let c = t.get_center_of_circumcircle();
    // the difference of the squares of the distances
    let same = |p: Q| (p - t.p1).dot(c * 2.0 - p - t.p1).abs() < 1e-6;
    must(same(t.p2) && same(t.p3) && same(t.p4), "the center of the circumsphere has the same distance to all corners");
}
/// the sphere contains what is closer to its center than the corners
#[no_mangle]
pub extern "C" fn c27_sphere() {
    let t = tetra(4);
    let t = orientation(t);
    let x = real(0.5, 2.5);
    let p = [Q::new(x, 1.125, 1.375), Q::new(1.625, x, 1.25), Q::new(x, 0.75, 1.5), Q::new(1.125, 1.75, x)][pick(4)];
    let c = t.get_center_of_circumcircle();
    let d = |p: Q| (p - c).length_squared();
    let diff = d(p) - d(t.p1);
    assume(diff.abs() > 1e-3);
    must(t.circumcircle_contains(p) == (diff < 0.0), "the circumsphere contains the points that are closer to its center");
    cover(diff < 0.0, "in the sphere");
    cover(diff > 0.0, "not in the sphere");
}
/// the orientation of the first tetrahedron
fn orientation(t: TetrahedronData) -> TetrahedronData {
    let e = Extent::<Q>::from_points([q([0.0; 3]), q([1.0; 3])].into_iter()).unwrap();
    let f = TetrahedronData::all_encompassing(&e);
    let s = vol(f.p1, f.p2, f.p3, f.p4) > 0.0;
    if (vol(t.p1, t.p2, t.p3, t.p4) > 0.0) == s {
        t
    } else {
        TetrahedronData { p1: t.p2, p2: t.p1, p3: t.p3, p4: t.p4 }
    }
}
/// the first tetrahedron contains the box
#[no_mangle]
pub extern "C" fn c27_tetra_first() {
    let (x, y, z) = (real(-100.0, 100.0), real(-100.0, 100.0), real(-100.0, 100.0));
    let (w, h, d) = (real(0.5, 100.0), real(0.5, 100.0), real(0.5, 100.0));
    let min = Q::new(x, y, z);
    let max = Q::new(x + w, y + h, z + d);
    let e = Extent::<Q>::from_points([min, max].into_iter()).unwrap();
    let t = TetrahedronData::all_encompassing(&e);
    must(vol(t.p1, t.p2, t.p3, t.p4) > 0.0, "the first tetrahedron has a fixed orientation");
    for k in 0..8 {
        let c = Q::new(
            if k & 1 == 0 { min.x } else { max.x },
            if k & 2 == 0 { min.y } else { max.y },
            if k & 4 == 0 { min.z } else { max.z },
        );
        must(
            vol(c, t.p2, t.p3, t.p4) > 0.0 && vol(t.p1, c, t.p3, t.p4) > 0.0 && vol(t.p1, t.p2, c, t.p4) > 0.0 && vol(t.p1, t.p2, t.p3, c) > 0.0,
            "the first tetrahedron contains the whole box",
        );
    }
    let ex = t.extent();
    for p in [t.p1, t.p2, t.p3, t.p4] {
        must(ex.contains(&p), "the extent of a tetrahedron has its corners");
    }
}
/// the distance of a tetrahedron to a point outside is that of its closest point
#[no_mangle]
pub extern "C" fn c27_tetra_distance() {
    let t = TetrahedronData { p1: q(FIXED[1][0]), p2: q(FIXED[1][1]), p3: q(FIXED[1][2]), p4: q(FIXED[1][3]) };
    let p = Q::new(real(0.5, 2.5), [0.75, 1.25][pick(2)], [0.75, 2.25][pick(2)]);
    assume(!inside(&t, p));
    let d = t.distance_to_point(p);
    let (u, v, w) = (real(0.0, 1.0), real(0.0, 1.0), real(0.0, 1.0));
    assume(u + v + w <= 1.0);
    let any = t.p1 + (t.p2 - t.p1) * u + (t.p3 - t.p1) * v + (t.p4 - t.p1) * w;
    must(d >= 0.0 && d * d <= (any - p).length_squared() + 1e-6, "no point of a tetrahedron is closer than its distance");
}
