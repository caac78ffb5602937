use super::*;
use crate::vp_api::*;

const B2: u32 = NUM_BITS_PER_DIMENSION_2D;
const B3: u32 = NUM_BITS_PER_DIMENSION_3D;

fn bits(n: u32) -> u64 {
    any(0, (1usize << n) - 1) as u64
}

/// k free bits below a concrete prefix of the path and above concrete low bits
fn window2(k: u32) -> ((u64, u64), (u64, u64), u32) {
    // the prefix decides in which orientation the curve enters the window
    let depth = [0, 1, 2, 5, B2 - k][pick(5)];
    let p = [[0u64, 0], [0x5555_5555, 0x3333_3333], [0xffff_ffff, 0], [0x1234_5678, 0x9abc_def1]][if depth == 0 { 0 } else { pick(4) }];
    let (px, py) = (p[0] & ((1u64 << depth) - 1), p[1] & ((1u64 << depth) - 1));
    let low = B2 - depth - k;
    let f = |p: u64, w: u64| (p << (k + low)) | (w << low);
    let a = (f(px, bits(k)), f(py, bits(k)));
    let b = (f(px, bits(k)), f(py, bits(k)));
    (a, b, low)
}

fn absdiff(a: u64, b: u64) -> u64 {
    if a > b {
        a - b
    } else {
        b - a
    }
}

fn curve2(k: u32) {
    let (a, b, low) = window2(k);
    let ka = PeanoKey2d::from_integer_pos(a);
    let kb = PeanoKey2d::from_integer_pos(b);
    must((ka == kb) == (a == b), "different cells have different keys");
    let (ca, cb) = (ka.0 >> (2 * low), kb.0 >> (2 * low));
    let (da, db) = (absdiff(a.0, b.0) >> low, absdiff(a.1, b.1) >> low);
    must((ca == cb) == (da == 0 && db == 0), "a cell of a coarser grid is one contiguous range of keys");
    if ca + 1 == cb {
        must(da + db == 1, "consecutive keys belong to neighbouring cells");
    }
    cover(a != b, "two cells");
}
#[no_mangle]
pub extern "C" fn c08_curve2() {
    curve2(3);
}
#[no_mangle]
pub extern "C" fn c08_curve2_deep() {
    curve2(4);
}

fn curve3(k: u32) {
    let depth = [0, 1, 2, 7, B3 - k][pick(5)];
    let p = [[0u64, 0, 0], [0x155_5555_5555, 0x333_3333_3333, 0x3c3_c3c3_c3c3], [u64::MAX, 0, u64::MAX], [0x123_4567_89ab, 0x2fe_dcba_9876, 0x0f0_1e2d_3c4b]][if depth == 0 { 0 } else { pick(4) }];
    let low = B3 - depth - k;
    let f = |p: u64, w: u64| ((p & ((1u64 << depth) - 1)) << (k + low)) | (w << low);
    let a = [f(p[0], bits(k)), f(p[1], bits(k)), f(p[2], bits(k))];
    let b = [f(p[0], bits(k)), f(p[1], bits(k)), f(p[2], bits(k))];
    let key = |a: [u64; 3]| PeanoKey3d::from_integer_pos((a[0] as u128, a[1] as u128, a[2] as u128));
    let (ka, kb) = (key(a), key(b));
    must((ka == kb) == (a == b), "different cells have different keys");
    let (ca, cb) = (ka.0 >> (3 * low), kb.0 >> (3 * low));
    let d: u64 = (0..3).map(|i| absdiff(a[i], b[i]) >> low).sum();
    must((ca == cb) == (d == 0), "a cell of a coarser grid is one contiguous range of keys");
    if ca + 1 == cb {
        must(d == 1, "consecutive keys belong to neighbouring cells");
    }
    must(ca >> (3 * k) == cb >> (3 * k), "keys of the same coarse cell have the same prefix");
    must(ka.0 >> (3 * B3) == 0, "keys are within the range of keys");
    cover(a != b, "two cells");
}
#[no_mangle]
pub extern "C" fn c08_curve3() {
    curve3(3);
}
#[no_mangle]
pub extern "C" fn c08_curve3_deep() {
    curve3(4);
}

/// The corners and the centre of the box are mapped to the right quadrant: no point of the box,
/// its boundary included, is outside of the curve.
#[no_mangle]
pub extern "C" fn c08_box2() {
    let (x, y, w, h) = (real(-1000.0, 1000.0), real(-1000.0, 1000.0), real(0.001, 1000.0), real(0.001, 1000.0));
    let (i, j) = (pick(2), pick(2));
    let k = PeanoKey2d::from_point_and_min_max(DVec2::new(x + w * i as f64, y + h * j as f64), DVec2::new(x, y), DVec2::new(x + w, y + h));
    let top = (1u64 << B2) - 1;
    let ideal = PeanoKey2d::from_integer_pos((i as u64 * top, j as u64 * top));
    let s = 2 * (B2 - 4);
    must(k.0 >> s == ideal.0 >> s, "a corner of the box lies in the corner of the grid of cells");
}
#[no_mangle]
pub extern "C" fn c08_box3() {
    let (x, y, z) = (real(-1000.0, 1000.0), real(-1000.0, 1000.0), real(-1000.0, 1000.0));
    let (u, v, w) = (real(0.001, 1000.0), real(0.001, 1000.0), real(0.001, 1000.0));
    let (i, j, l) = (pick(2), pick(2), pick(2));
    let k = PeanoKey3d::from_point_and_min_max(DVec3::new(x + u * i as f64, y + v * j as f64, z + w * l as f64), DVec3::new(x, y, z), DVec3::new(x + u, y + v, z + w));
    let top = (1u128 << B3) - 1;
    let ideal = PeanoKey3d::from_integer_pos((i as u128 * top, j as u128 * top, l as u128 * top));
    let s = 3 * (B3 - 4);
    must(k.0 >> s == ideal.0 >> s, "a corner of the box lies in the corner of the grid of cells");
}
