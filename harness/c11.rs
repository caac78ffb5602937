use super::*;
use crate::vp_api::*;

fn r() -> f64 {
    real(-10.0, 10.0)
}
fn solves<const M: usize, const N: usize>(m: &[[f64; N]; M], x: &[f64; M], eps: f64) {
    for i in 0..M {
        let mut s = 0.0;
        for j in 0..M {
            s += m[i][j] * x[j];
        }
        must(close(s, m[i][M], eps), "the solution solves every equation");
    }
}
fn det2(m: &[[f64; 3]; 2]) -> f64 {
    m[0][0] * m[1][1] - m[0][1] * m[1][0]
}
fn det3(m: &[[f64; 4]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
#[no_mangle]
pub extern "C" fn c11_two() {
    let m: [[f64; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| r()));
    let d = det2(&m);
    assume(d > 0.1 || d < -0.1);
    let x = solve_system_of_equations::<2, f64>(m);
    solves(&m, &x, 1e-9);
    cover(m[0][0] == 0.0, "zero pivot");
}
/// any pattern of zeros, with two different sets of numbers in the other places; the right hand side is free
fn three() -> [[f64; 4]; 3] {
    const V: [[[f64; 3]; 3]; 2] = [[[2.0, -3.0, 5.0], [-1.0, 4.0, 0.5], [6.0, 1.0, -2.0]], [[1.0, 2.0, -1.0], [2.0, 4.0, 3.0], [-3.0, -6.0, 3.0]]];
    let v = V[pick(2)];
    let mut m = [[0.0; 4]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = if pick(2) == 1 { v[i][j] } else { 0.0 };
        }
        m[i][3] = r();
    }
    m
}
/// one entry of the matrix is free as well
fn three_free() -> [[f64; 4]; 3] {
    const V: [[[f64; 3]; 3]; 4] = [
        [[2.0, -3.0, 5.0], [-1.0, 4.0, 0.5], [6.0, 1.0, -2.0]],
        [[0.0, 2.0, -1.0], [2.0, 0.0, 3.0], [-3.0, -6.0, 0.0]],
        [[1.0, 2.0, 3.0], [1.0, 2.0, 5.0], [1.0, 3.0, 4.0]],
        [[0.0, 0.0, 3.0], [0.0, 2.0, 5.0], [1.0, 3.0, 4.0]],
    ];
    let v = V[pick(4)];
    let mut m = [[0.0; 4]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = v[i][j];
        }
        m[i][3] = r();
    }
    m[pick(3)][pick(3)] = r();
    m
}
#[no_mangle]
pub extern "C" fn c11_three() {
    let m = three();
    let d = det3(&m);
    assume(d > 0.1 || d < -0.1);
    let x = solve_system_of_equations::<3, f64>(m);
    solves(&m, &x, 1e-9);
    cover(m[0][0] == 0.0 && m[1][0] == 0.0, "zero pivots");
}
#[no_mangle]
pub extern "C" fn c11_checked() {
    let m = three();
    let d = det3(&m);
    match solve_3x4_system_of_equations_error(m) {
        Ok(x) => {
            must(d > 1e-9 || d < -1e-9, "singular systems have no solution");
            solves(&m, &x, 1e-6);
        }
        Err(_) => must(d < 1e-5 && d > -1e-5, "only singular systems are refused"),
    }
    cover(d != 0.0 && m[0][0] == 0.0 && m[1][0] == 0.0, "zero pivots");
    cover(d == 0.0, "singular");
}
#[no_mangle]
pub extern "C" fn c11_checked_any() {
    let m = three_free();
    let d = det3(&m);
    assume(d > 0.1 || d < -0.1);
    if let Ok(x) = solve_3x4_system_of_equations_error(m) {
        solves(&m, &x, 1e-6);
    }
}
