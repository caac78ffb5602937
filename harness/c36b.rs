use super::*;
use crate::vp_api::*;

/// the entries around a value in a window and how far it is between them
fn around(bins: &[f64], window: usize, x: f64) -> (usize, f64) {
    let n = bins.len();
    if window == 0 {
        return (0, 0.0);
    }
    if window == n {
        return (n - 2, 1.0);
    }
    let i = window - 1;
    (i, (x - bins[i]) / (bins[i + 1] - bins[i]))
}
/// any value between two entries or beyond the ends
fn any_in(bins: &[f64], window: usize) -> f64 {
    let n = bins.len();
    if window == 0 {
        real(bins[0] / 1000.0, bins[0])
    } else if window == n {
        real(bins[n - 1], bins[n - 1] * 1000.0)
    } else {
        real(bins[window - 1], bins[window])
    }
}
fn window(bins: &[f64], x: f64) -> usize {
    bins.iter().filter(|b| **b <= x).count()
}
fn lookup(age: f64, metallicity: f64, mass: f64) -> f64 {
    bpass_lookup(Time::years(age), Dimensionless::dimensionless(metallicity), Mass::solar(mass)).in_photons_per_second()
}
/// rates between the entries of the table
fn check(age: f64, i: usize, metallicity: f64, j: usize, mass: f64) {
    let got = lookup(age, metallicity, mass);
    let (i, s) = around(&BPASS_AGE_BINS, i, age);
    let (j, t) = around(&BPASS_METALLICITY_BINS, j, metallicity);
    let e = [[BPASS_TABLE[i][j], BPASS_TABLE[i][j + 1]], [BPASS_TABLE[i + 1][j], BPASS_TABLE[i + 1][j + 1]]];
    let (mut lo, mut hi) = (e[0][0], e[0][0]);
    for a in 0..2 {
        for b in 0..2 {
            lo = lo.min(e[a][b]);
            hi = hi.max(e[a][b]);
        }
    }
    let want = (1.0 - s) * ((1.0 - t) * e[0][0] + t * e[0][1]) + s * ((1.0 - t) * e[1][0] + t * e[1][1]);
    let margin = 1e-3 * hi * mass;
    must((got - want * mass).abs() <= margin, "the rate is interpolated between the four entries around age and metallicity");
    must(got >= lo * mass - margin && got <= hi * mass + margin, "it is between them, at the ends of the table that of the last entry");
}
#[no_mangle]
pub extern "C" fn c36_age() {
    let i = pick(NUM_BPASS_AGES + 1);
    let age = any_in(&BPASS_AGE_BINS, i);
    let z = [1e-7, 2e-3, 0.035, 1.0][pick(4)];
    check(age, i, z, window(&BPASS_METALLICITY_BINS, z), 1.0);
    cover(i == 0, "younger than the table");
    cover(i == NUM_BPASS_AGES, "older than the table");
    cover(i == 20, "within the table");
}
#[no_mangle]
pub extern "C" fn c36_metallicity() {
    let j = pick(NUM_BPASS_METALLICITIES + 1);
    let z = any_in(&BPASS_METALLICITY_BINS, j);
    let age = [1e3, 1e6, 3e6, 1.1e9, 9e10, 1e12][pick(6)];
    check(age, window(&BPASS_AGE_BINS, age), z, j, 1.0);
    cover(j == 0, "below the table");
    cover(j == NUM_BPASS_METALLICITIES, "above the table");
    cover(j == 5, "within the table");
}
#[no_mangle]
pub extern "C" fn c36_mass() {
    let m = real(0.0, 1e9);
    let (age, z) = ([1e3, 3e6, 1.1e9][pick(3)], [1.1e-3, 0.011][pick(2)]);
    check(age, window(&BPASS_AGE_BINS, age), z, window(&BPASS_METALLICITY_BINS, z), m);
    cover(m > 1e8, "many stars");
}
/// the table can be searched
#[no_mangle]
pub extern "C" fn c36_table() {
    for i in 1..NUM_BPASS_AGES {
        must(BPASS_AGE_BINS[i] > BPASS_AGE_BINS[i - 1], "ages are sorted");
    }
    for i in 1..NUM_BPASS_METALLICITIES {
        must(BPASS_METALLICITY_BINS[i] > BPASS_METALLICITY_BINS[i - 1], "metallicities are sorted");
    }
    cover(true, "the table");
}
