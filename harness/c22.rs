//! Steps of the chemistry, whatever changes the rate equations ask for.
use super::*;
use crate::vp_api::*;

const EPS: f64 = 1e-10;
const BUDGET: usize = 3;
/// (is temperature, step, temperature, fraction, change)
static mut LOG: Vec<(bool, f64, f64, f64, f64)> = Vec::new();
static mut LEFT: usize = 0;
static mut FACTOR: f64 = 0.0;

fn change(temp: bool, s: &Solver, dt: Time, max: f64) -> f64 {
    unsafe {
        let v = if LEFT == 0 {
            0.0
        } else {
            LEFT -= 1;
            let v = real(-max, max);
            // not so close to the largest allowed change that rounding decides
            let at = if temp { s.temperature.in_kelvins() } else { s.ionized_hydrogen_fraction.value() };
            let d = abs(v) - FACTOR * at;
            assume(d > 1e-6 * at || d < -1e-6 * at);
            assume(v == 0.0 || abs(v) > 1e-6 * at);
            v
        };
        (*core::ptr::addr_of_mut!(LOG)).push((temp, dt.in_seconds(), s.temperature.in_kelvins(), s.ionized_hydrogen_fraction.value(), v));
        v
    }
}
pub fn change_t(s: &Solver, dt: Time) -> Temperature {
    Temperature::kelvins(change(true, s, dt, 1e6))
}
pub fn change_x(s: &Solver, dt: Time) -> Dimensionless {
    Dimensionless::dimensionless(change(false, s, dt, 10.0))
}

fn abs(x: f64) -> f64 {
    if x < 0.0 {
        -x
    } else {
        x
    }
}
fn same(a: f64, b: f64) -> bool {
    abs(a - b) <= 1e-9 * (1.0 + abs(b))
}

fn run(budget: usize, x0: f64) {
    unsafe {
        LOG = Vec::new();
        LEFT = budget;
    }
    let prevent_cooling = pick(2) == 1;
    let factor = [0.1, 0.5][pick(2)];
    unsafe { FACTOR = factor };
    let t0 = real(1.0, 1e5);
    let directions = (&crate::sweep::DirectionsSpecification::Num(1)).into();
    let mut site = Site::new(
        &directions,
        HydrogenOnlySpecies::new(Dimensionless::dimensionless(x0), Temperature::kelvins(t0)),
        PROTON_MASS / Volume::cubic_centimeters(1.0),
        PhotonRate::zero(),
    );
    let c = HydrogenOnly {
        rate_threshold: PhotonRate::zero(),
        scale_factor: Dimensionless::dimensionless(1.0),
        timestep_safety_factor: Dimensionless::dimensionless(factor),
        prevent_cooling,
    };
    let dt = 64.0;
    let scale = c.update_abundances(&mut site, PhotonRate::zero(), Time::seconds(dt), Volume::cubic_meters(1.0), Length::meters(1.0));
    let clamp = |x: f64| {
        let x = if prevent_cooling && x < x0 { x0 } else { x };
        if x < EPS {
            EPS
        } else if x > 1.0 - EPS {
            1.0 - EPS
        } else {
            x
        }
    };
    let t1 = site.species.temperature.in_kelvins();
    let x1 = site.species.ionized_hydrogen_fraction.value();
    must(x1 >= EPS * 0.999999 && x1 <= 1.0 - EPS * 0.999999, "the ionized fraction stays between zero and one");
    must(t1 > 0.0, "the temperature stays positive");
    if prevent_cooling {
        must(t1 >= t0, "gas does not cool below where it started, if that is asked for");
        must(x1 >= clamp(x0) - 1e-15, "nor recombine");
    }
    // the steps, one by one
    let log = unsafe { &*core::ptr::addr_of!(LOG) };
    let (mut t, mut x) = (t0, clamp(x0));
    let mut done = 0.0;
    let mut half = None;
    let mut splits = 0;
    for &(temp, step, at, ax, v) in log.iter() {
        match (half, temp) {
            (None, true) => {
                must(same(at, t) && same(ax, x), "a step starts where the last one ended");
                if abs(v) <= factor * t {
                    half = Some(t + v);
                } else {
                    splits += 1;
                }
            }
            (Some(ht), false) => {
                must(same(at, ht) && same(ax, x), "the ionization is advanced at the new temperature");
                half = None;
                if abs(v) <= factor * x {
                    t = if prevent_cooling && ht < t0 { t0 } else { ht };
                    x = clamp(x + v);
                    done += step;
                } else {
                    splits += 1;
                }
            }
            _ => must(false, "temperature and ionization are advanced in turn, and not after a change that was too large"),
        }
    }
    must(half.is_none(), "no step is left half done");
    must(done == dt, "the steps that were done add up to the whole step");
    must(same(t1, t) && same(x1, x), "changes that are too large for a step are not applied");
    must(site.species.timestep.in_seconds() == scale.time.in_seconds() && scale.time.in_seconds() > 0.0, "the time scale of the change is positive");
    cover(splits == 1, "a step that is split");
    cover(splits == 0, "a step that is not split");
}
#[no_mangle]
pub extern "C" fn c22_steps() {
    run(BUDGET, real(1e-3, 0.999));
}
#[no_mangle]
pub extern "C" fn c22_extreme() {
    run(2, [0.0, 1.0, 1e-10, 1.0 - 1e-10, 1e-12, 0.5][pick(6)]);
}
#[no_mangle]
pub extern "C" fn c22_steps_deep() {
    run(5, real(1e-3, 0.999));
}

/// one change: applied exactly if it is small enough, with the step that would make it as large as allowed
#[no_mangle]
pub extern "C" fn c22_update() {
    let v0 = real(1e-3, 1e6);
    let ch = real(-1e6, 1e6);
    let f = real(0.01, 0.9);
    let mut v = Temperature::kelvins(v0);
    let r = update(&mut v, Temperature::kelvins(ch), Dimensionless::dimensionless(f), Time::seconds(8.0));
    let v = v.in_kelvins();
    match r {
        Ok(t) => {
            must(abs(ch) <= f * v0 * (1.0 + 1e-9), "a change is only applied if it is small enough");
            must(same(v, v0 + ch), "the whole change is applied");
            let t = t.in_seconds();
            must(t >= 8.0 * (1.0 - 1e-9), "a step that was fine is not recommended to become smaller");
            must(ch == 0.0 || abs(t * abs(ch) - 8.0 * f * v0) <= 1e-6 * (8.0 * f * v0), "the recommended step is the one over which the value changes by as much as is allowed");
        }
        Err(_) => {
            must(abs(ch) >= f * v0 * (1.0 - 1e-9), "a change is only refused if it is too large");
            must(v == v0, "a change that is refused is not applied");
        }
    }
    cover(ch > 0.0 && v > v0, "applied");
}
