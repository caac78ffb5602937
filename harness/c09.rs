use super::*;
use crate::vp_api::*;
use glam::DVec2;
use glam::DVec3;

const EPS: f64 = 1e-9;
fn r() -> f64 {
    real(-1000.0, 1000.0)
}
fn p2() -> DVec2 {
    DVec2::new(r(), r())
}
fn p3() -> DVec3 {
    DVec3::new(r(), r(), r())
}
fn le(a: f64, b: f64) -> bool {
    a <= b + EPS * (1.0 + a.abs() + b.abs())
}

#[no_mangle]
pub extern "C" fn c09_points2() {
    let n = 1 + pick(3);
    let ps: Vec<DVec2> = (0..n).map(|_| p2()).collect();
    let e = Extent::from_points(ps.iter().copied()).unwrap();
    let mut tight = [false; 4];
    for p in ps.iter() {
        must(e.min.x <= p.x && p.x <= e.max.x && e.min.y <= p.y && p.y <= e.max.y, "every point is inside of the extent");
        tight[0] |= e.min.x == p.x;
        tight[1] |= e.max.x == p.x;
        tight[2] |= e.min.y == p.y;
        tight[3] |= e.max.y == p.y;
    }
    must(tight[0] && tight[1] && tight[2] && tight[3], "the extent is not larger than needed");
    must(close(e.center().x, (e.min.x + e.max.x) / 2.0, EPS) && close(e.center().y, (e.min.y + e.max.y) / 2.0, EPS), "the center is in the middle");
    let s = e.side_lengths();
    must(close(s.x, e.max.x - e.min.x, EPS) && close(s.y, e.max.y - e.min.y, EPS), "side lengths");
    let m = e.max_side_length();
    must(le(s.x, m) && le(s.y, m) && (close(m, s.x, EPS) || close(m, s.y, EPS)), "largest side length");
    cover(n == 3 && e.min.x < e.max.x && e.min.y < e.max.y, "three points");
}
#[no_mangle]
pub extern "C" fn c09_points3() {
    let n = 1 + pick(2);
    let ps: Vec<DVec3> = (0..n).map(|_| p3()).collect();
    let e = Extent::from_points(ps.iter().copied()).unwrap();
    for p in ps.iter() {
        for i in 0..3 {
            must(e.min[i] <= p[i] && p[i] <= e.max[i], "every point is inside of the extent");
        }
    }
    for i in 0..3 {
        must(ps.iter().any(|p| p[i] == e.min[i]) && ps.iter().any(|p| p[i] == e.max[i]), "the extent is not larger than needed");
        must(close(e.center()[i], (e.min[i] + e.max[i]) / 2.0, EPS), "the center is in the middle");
        must(close(e.side_lengths()[i], e.max[i] - e.min[i], EPS), "side lengths");
    }
    let m = e.max_side_length();
    let s = e.side_lengths();
    must(le(s.x, m) && le(s.y, m) && le(s.z, m) && (close(m, s.x, EPS) || close(m, s.y, EPS) || close(m, s.z, EPS)), "largest side length");
    cover(n == 2, "two points");
}
#[no_mangle]
pub extern "C" fn c09_empty() {
    must(Extent::<DVec3>::from_points([].into_iter()).is_none(), "no points have no extent");
    must(Extent::<DVec2>::from_points([].into_iter()).is_none(), "no points have no extent");
    let x = real(-10.0, 10.0);
    let y = real(-10.0, 10.0);
    let e = Extent::<f64>::from_points([x, y].into_iter()).unwrap();
    must(e.min <= x && e.min <= y && e.max >= x && e.max >= y && (e.min == x || e.min == y) && (e.max == x || e.max == y), "extent of numbers");
}
/// the extent with periodic images contains every point of the extent, shifted by up to one box size in every direction
#[no_mangle]
pub extern "C" fn c09_images() {
    let min = p3();
    let size = DVec3::new(real(0.0, 1000.0), real(0.0, 1000.0), real(0.0, 1000.0));
    let e = Extent::from_min_max(min, min + size);
    let f = e.including_periodic_images();
    let p = DVec3::new(real(-1000.0, 2000.0), real(-1000.0, 2000.0), real(-1000.0, 2000.0));
    for i in 0..3 {
        assume(e.min[i] <= p[i] && p[i] <= e.max[i]);
        for k in [-1.0, 0.0, 1.0] {
            let q = p[i] + k * size[i];
            must(le(f.min[i], q) && le(q, f.max[i]), "the images of a point are inside");
        }
        must(close(f.max[i] - f.min[i], 3.0 * size[i], EPS), "three times as large");
        must(close(f.center()[i], e.center()[i], EPS), "around the same center");
    }
}
