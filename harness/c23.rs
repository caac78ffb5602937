//! The periodic box.
use super::*;
use crate::vp_api::*;

const EPS: f64 = 1e-9;
fn box_() -> (SimulationBox, [f64; 3], [f64; 3]) {
    let lo = [real(-100.0, 100.0), real(-100.0, 100.0), real(-100.0, 100.0)];
    let l = [real(1.0, 1000.0), real(1.0, 1000.0), real(1.0, 1000.0)];
    let min = VecLength::meters(lo[0], lo[1], lo[2]);
    let max = VecLength::meters(lo[0] + l[0], lo[1] + l[1], lo[2] + l[2]);
    (SimulationBox::new(Extent::from_min_max(min, max)), lo, l)
}
fn arr(v: VecLength) -> [f64; 3] {
    [v.x().in_meters(), v.y().in_meters(), v.z().in_meters()]
}
fn vec(v: [f64; 3]) -> VecLength {
    VecLength::meters(v[0], v[1], v[2])
}
fn near(a: f64, b: f64) -> bool {
    close(a, b, EPS)
}

/// wrapping moves a position by whole boxes into the box
#[no_mangle]
pub extern "C" fn c23_wrap() {
    let (b, lo, l) = box_();
    // one component up to four boxes away, the other ones inside
    let d = pick(3);
    let k = pick(9) as f64 - 4.0;
    let mut p = [0.0; 3];
    let mut home = [0.0; 3];
    for i in 0..3 {
        let f = if i == d { real(0.001, 0.999) } else { [0.25, 0.5, 0.75][i] };
        home[i] = lo[i] + f * l[i];
        p[i] = home[i] + if i == d { k * l[i] } else { 0.0 };
    }
    let w = arr(b.periodic_wrap(vec(p)));
    for i in 0..3 {
        must(near(w[i], home[i]), "a position is moved by whole boxes into the box, in each dimension on its own");
    }
}
/// the boundaries, with concrete numbers
#[no_mangle]
pub extern "C" fn c23_wrap_edges() {
    let lo = [0.0, -1.0, 2.5][pick(3)];
    let l = [1.0, 2.0, 0.1, 3.0][pick(4)];
    let v = lo + l * [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, -1e-20, 1e-20, 1.0 - 1e-16, -1e-9][pick(12)];
    let b = SimulationBox::new(Extent::from_min_max(vec([lo; 3]), vec([lo + l; 3])));
    for w in arr(b.periodic_wrap(vec([v; 3]))) {
        must(w >= lo && w <= lo + l, "wrapped positions are in the box, also those at its boundary");
    }
}

/// distances are those to the nearest image
#[no_mangle]
pub extern "C" fn c23_distance() {
    let (b, lo, l) = box_();
    let d = pick(3);
    let mut p = [0.0; 3];
    let mut q = [0.0; 3];
    for i in 0..3 {
        if i == d {
            p[i] = lo[i] + real(0.0, 1.0) * l[i];
            q[i] = lo[i] + real(0.0, 1.0) * l[i];
        } else {
            p[i] = lo[i] + 0.25 * l[i];
            q[i] = lo[i] + [0.25, 0.5, 0.375][i] * l[i];
        }
    }
    let v = arr(b.periodic_distance_vec(&vec(p), &vec(q)));
    let r = arr(b.periodic_distance_vec(&vec(q), &vec(p)));
    for i in 0..3 {
        let raw = p[i] - q[i];
        must(near(v[i], raw) || near(v[i], raw - l[i]) || near(v[i], raw + l[i]), "the distance is that to an image");
        must(v[i] <= l[i] / 2.0 + 1e-6 && v[i] >= -l[i] / 2.0 - 1e-6, "the distance is that to the nearest image");
        must(near(v[i], -r[i]) || near(v[i].abs(), l[i] / 2.0), "the distance is the same both ways");
    }
    cover(p[d] - q[d] > l[d] / 2.0, "across the boundary");
}
#[no_mangle]
pub extern "C" fn c23_length() {
    let b = SimulationBox::cube_from_side_length(Length::meters(10.0));
    let c = SimulationBox::cube_from_side_length_centered(Length::meters(10.0));
    let p = [real(0.0, 10.0), 1.0, 2.0];
    let q = [real(0.0, 10.0), 9.5, 2.0];
    let shift = |a: [f64; 3]| vec([a[0] - 5.0, a[1] - 5.0, a[2] - 5.0]);
    let x = b.periodic_distance(&vec(p), &vec(q)).in_meters();
    let y = c.periodic_distance(&shift(p), &shift(q)).in_meters();
    let dx = (p[0] - q[0]).abs();
    let dx = if dx > 5.0 { 10.0 - dx } else { dx };
    must(x >= 0.0 && close(x * x, dx * dx + 1.5 * 1.5, 1e-6), "the distance is the length of the shortest way");
    must(close(x * x, y * y, 1e-6), "and does not depend on where the box is");
}

/// the images of a point are the point and its copies in the boxes around
#[no_mangle]
pub extern "C" fn c23_images() {
    let (b, lo, l) = box_();
    let p = [lo[0] + real(0.0, 1.0) * l[0], lo[1] + real(0.0, 1.0) * l[1], lo[2] + real(0.0, 1.0) * l[2]];
    let images: Vec<_> = b.iter_periodic_images(vec(p)).collect();
    must(images.len() == 27, "there are 27 images");
    let mut seen = [false; 27];
    let s = |w: WrapType| match w {
        WrapType::NoWrap => 0.0,
        WrapType::Minus => -1.0,
        WrapType::Plus => 1.0,
    };
    for (t, q) in images {
        let k = [s(t.x), s(t.y), s(t.z)];
        let q = arr(q);
        for i in 0..3 {
            must(near(q[i], p[i] + k[i] * l[i]), "an image is where its type says");
        }
        let n = ((k[0] + 1.0) * 9.0 + (k[1] + 1.0) * 3.0 + k[2] + 1.0) as usize;
        must(!seen[n], "all images are different");
        seen[n] = true;
        must(t.is_periodic() == (n != 13), "exactly the point itself is not periodic");
        must((t == PeriodicWrapType3d::no_wrap()) == (n == 13), "the point itself has no type of image");
        must((t == PeriodicWrapType3d::default()) == (n == 13), "the point itself has the default type");
    }
    must(PeriodicWrapType3d { x: WrapType::NoWrap, y: WrapType::NoWrap, z: WrapType::Plus }.is_periodic(), "an image in one dimension is periodic");
    must(!PeriodicWrapType2d::no_wrap().is_periodic(), "the point itself in two dimensions");
    for w in [WrapType::Minus, WrapType::Plus] {
        must(PeriodicWrapType2d { x: w, y: WrapType::NoWrap }.is_periodic() && PeriodicWrapType2d { x: WrapType::NoWrap, y: w }.is_periodic(), "images in two dimensions");
    }
}
/// the size of the box, given in comoving units or not
#[no_mangle]
pub extern "C" fn c23_size() {
    let a = real(0.01, 1.0);
    let h = real(0.1, 1.0);
    let s = real(1.0, 1000.0);
    let cosmology = Cosmology::Cosmological { a, h, params: None };
    let b = get_simulation_box(&SimulationBoxParameters::Normal(Length::meters(s)), &cosmology);
    let c = get_simulation_box(&SimulationBoxParameters::Comoving(ComovingLengthTimesH::new_unchecked(s)), &cosmology);
    for (b, want) in [(b, s), (c, s * a / h)] {
        let (min, max) = (arr(b.min), arr(b.max));
        for i in 0..3 {
            must(min[i] == 0.0 && close(max[i], want, 1e-9), "the box has the size that was asked for");
        }
    }
}
