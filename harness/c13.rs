use super::*;
use crate::vp_api::*;

fn orthogonal(m: &[[f64; 3]; 3]) {
    for i in 0..3 {
        for j in 0..3 {
            let d = m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2];
            must(close(d, if i == j { 1.0 } else { 0.0 }, 1e-6), "a rotation preserves lengths and angles");
        }
    }
}
fn det(m: &[[f64; 3]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
#[no_mangle]
pub extern "C" fn c13_orthogonal() {
    let mut rng = StdRng::seed_from_u64(1);
    let m = get_random_rotation_matrix(&mut rng);
    orthogonal(&m);
}
#[no_mangle]
pub extern "C" fn c13_det() {
    let mut rng = StdRng::seed_from_u64(1);
    let m = get_random_rotation_matrix(&mut rng);
    must(close(det(&m), 1.0, 1e-6), "a rotation does not mirror");
}
#[no_mangle]
pub extern "C" fn c13_multiply() {
    let m: [[f64; 3]; 3] = std::array::from_fn(|_| std::array::from_fn(|_| real(-1.0, 1.0)));
    let v = MVec::new(real(-1.0, 1.0), real(-1.0, 1.0), real(-1.0, 1.0));
    let mut w = v;
    multiply_by_matrix(&mut w, &m);
    for i in 0..3 {
        must(close(w[i], m[i][0] * v.x + m[i][1] * v.y + m[i][2] * v.z, 1e-9), "a matrix is applied to a vector");
    }
}
/// a rotated direction is a unit vector again
#[no_mangle]
pub extern "C" fn c13_norm() {
    let mut rng = StdRng::seed_from_u64(1);
    let m = get_random_rotation_matrix(&mut rng);
    let k = pick(3);
    let mut v = MVec::new((k == 0) as u8 as f64, (k == 1) as u8 as f64, (k == 2) as u8 as f64);
    multiply_by_matrix(&mut v, &m);
    must(close(v.x * v.x + v.y * v.y + v.z * v.z, 1.0, 1e-6), "a rotated direction has length one");
}
