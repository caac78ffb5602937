use super::*;
use crate::vp_api::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub static LINEAR: AtomicBool = AtomicBool::new(false);
/// stands for the time between two scale factors where only the search matters
pub fn linear(a0: Dimensionless, a1: Dimensionless) -> Time {
    Time::years(3000.0) * (*a1 - *a0)
}
fn d(x: f64) -> Dimensionless {
    Dimensionless::dimensionless(x)
}
fn cosmology(a: f64, h: f64) -> Cosmology {
    Cosmology::Cosmological { a, h, params: None }
}
fn power(x: f64, n: i32) -> f64 {
    let mut r = 1.0;
    for _ in 0..n.abs() {
        r *= x;
    }
    r
}
/// comoving units
#[no_mangle]
pub extern "C" fn c32_factor() {
    let (a, h) = (real(0.01, 1.0), real(0.3, 1.0));
    let (i, j) = (pick(7) as i32 - 3, pick(7) as i32 - 3);
    let dim = Dimension { a: i, h: j, length: pick(3) as i32, time: 0, mass: 0, temperature: 0 };
    let f = cosmology(a, h).get_factor(&dim);
    // f a^i h^j = 1
    let (mut l, mut r) = (f, 1.0);
    if i > 0 { l *= power(a, i) } else { r *= power(a, i) }
    if j > 0 { l *= power(h, j) } else { r *= power(h, j) }
    must((l - r).abs() <= 1e-9 * r, "the factor takes the powers of the scale factor and of little h out");
    let n = dim.non_cosmological();
    must(n.a == 0 && n.h == 0 && n.length == dim.length && n.time == dim.time && n.mass == dim.mass && n.temperature == dim.temperature, "only the cosmological part of the units goes away");
    cover(i == 3 && j == -3, "high powers");
}
#[no_mangle]
pub extern "C" fn c32_redshift() {
    let (a, h) = (real(0.001, 1.0), real(0.3, 1.0));
    let c = cosmology(a, h);
    must(*c.scale_factor() == a && *c.little_h() == h, "the parameters are those given");
    must(((*c.redshift() + 1.0) * a - 1.0).abs() <= 1e-9, "one plus redshift is one over the scale factor");
    let n = Cosmology::NonCosmological;
    must(*n.scale_factor() == 1.0 && *n.redshift() == 0.0, "without cosmology nothing expands");
    cover(a < 0.01, "early");
}
fn params() -> CosmologyParams {
    let omega_0 = real(0.2, 0.8);
    CosmologyParams { omega_0, omega_lambda: 1.0 - omega_0 }
}
/// the time between two scale factors
#[no_mangle]
pub extern "C" fn c32_time() {
    let p = params();
    let h = d(real(0.5, 1.0));
    let (a, b) = (real(0.01, 1.0), real(0.01, 1.0));
    let t = p.time_difference_between_scalefactors(d(a), d(b), h).value_unchecked();
    let back = p.time_difference_between_scalefactors(d(b), d(a), h).value_unchecked();
    must(t + back == 0.0 || (t + back).abs() <= 1e-9 * t.abs(), "the time back is as long");
    if a < b {
        must(t > 0.0, "the universe grows with time");
    }
    if a == b {
        must(t == 0.0, "no time passes at the same scale factor");
    }
    cover(a < b, "later");
}
/// times add up
#[no_mangle]
pub extern "C" fn c32_add() {
    let p = params();
    let h = d(real(0.5, 1.0));
    let (a, b, c) = (real(0.01, 1.0), real(0.01, 1.0), real(0.01, 1.0));
    let f = |a, b| p.time_difference_between_scalefactors(d(a), d(b), h).value_unchecked();
    let (x, y, z) = (f(a, b), f(b, c), f(a, c));
    must((x + y - z).abs() <= 1e-9 * (x.abs() + y.abs()), "times add up");
    cover(a < b && b < c, "in order");
}
/// only flat universes
#[no_mangle]
pub extern "C" fn c32_flat() {
    let (o, l) = (real(0.1, 1.0), real(0.1, 1.0));
    let p = CosmologyParams { omega_0: o, omega_lambda: l };
    panic_ok(o + l < 0.990001 || o + l > 1.009999);
    let _ = p.time_difference_between_scalefactors(d(0.5), d(0.6), d(0.7));
    must(o + l >= 0.989999999 && o + l <= 1.010000001, "a universe that is not flat is refused");
    cover(true, "flat");
}
/// the search finds the root of an increasing function
#[no_mangle]
pub extern "C" fn c32_search() {
    let (lo, hi) = (real(-10.0, 10.0), real(-10.0, 10.0));
    assume(lo < hi);
    let w = real(0.0, 1.0);
    let root = lo + w * (hi - lo);
    let slope = real(0.1, 10.0);
    let threshold = slope * (hi - lo) / 40.0;
    let x = binary_search(|x| (x - root) * slope, lo, hi, threshold);
    must(lo <= x && x <= hi, "the root is in the interval");
    must(((x - root) * slope).abs() <= threshold * 1.000001, "the function is small at the root");
    cover(x > lo + 0.9 * (hi - lo), "near the end");
}
/// the scale factor after some time
#[no_mangle]
pub extern "C" fn c32_later() {
    LINEAR.store(true, Relaxed);
    let p = params();
    let (a, b) = (real(0.01, 1.0), real(0.0, 1.0));
    let t = linear(d(a), d(b));
    let got = *p.get_scalefactor_from_scalefactor_and_time_difference(d(a), d(0.7), t);
    must((linear(d(a), d(got)) - t).abs() <= Time::years(101.0), "the time to the scale factor that is found is the time given");
    LINEAR.store(false, Relaxed);
    cover(b > 0.9, "late");
}
/// the time that is written with outputs
#[no_mangle]
pub extern "C" fn c32_spec() {
    use crate::time_spec::TimeSpec;
    LINEAR.store(true, Relaxed);
    let (a, b) = (real(0.01, 1.0), real(0.01, 1.0));
    assume(a < b);
    let t = linear(d(a), d(b));
    match TimeSpec::new(t, &Cosmology::Cosmological { a, h: 0.7, params: Some(params()) }) {
        TimeSpec::Cosmological(c) => {
            must((*c.scale_factor - b).abs() <= 0.04, "the scale factor of the time that has passed");
            must(((*c.redshift + 1.0) * *c.scale_factor - 1.0).abs() <= 1e-9, "the redshift of that scale factor");
        }
        _ => must(false, "with cosmological parameters the scale factor is known"),
    }
    match TimeSpec::new(t, &Cosmology::NonCosmological) {
        TimeSpec::Time(x) => must(x == t, "without cosmology there is only the time"),
        _ => must(false, "without cosmology there is no scale factor"),
    }
    LINEAR.store(false, Relaxed);
    cover(b > 0.9, "late");
}
