use super::*;
use crate::units::PhotonRate;
use crate::vp_api::*;

const NUMS: [usize; 6] = [1, 16, 21, 32, 64, 84];

fn xyz(d: &Direction) -> [f64; 3] {
    let v = d.0 .0;
    [v.x, v.y, v.z]
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

/// the tables: as many directions as asked for, all of length one and different from each other
#[no_mangle]
pub extern "C" fn c19_tables() {
    let num = NUMS[pick(NUMS.len())];
    let spec = DirectionsSpecification::Num(num);
    let d: Directions = (&spec).into();
    must(d.len() == num && spec.num() == num, "as many directions as asked for");
    let i = pick(num);
    let a = xyz(&d[DirectionIndex(i)]);
    must(close(dot(a, a), 1.0, 1e-5), "directions are unit vectors");
    let mut closest = -1.0;
    for (j, b) in d.enumerate() {
        if j.0 != i {
            let c = dot(a, xyz(b));
            if c > closest {
                closest = c;
            }
        }
    }
    must(num == 1 || closest < 0.98, "no direction is there twice");
    must(num == 1 || closest > 0.5, "no part of the sky is without direction");
    cover(num == 84 && i == 83, "the last direction");
}

/// the directions cover the sky evenly
#[no_mangle]
pub extern "C" fn c19_isotropic() {
    let num = NUMS[1 + pick(NUMS.len() - 1)];
    let d: Directions = (&DirectionsSpecification::Num(num)).into();
    let mut mean = [0.0; 3];
    let mut second = [[0.0; 3]; 3];
    let mut n = 0;
    for (i, x) in d.enumerate() {
        must(i.0 == n, "directions are numbered in order");
        let a = xyz(x);
        for k in 0..3 {
            mean[k] += a[k] / num as f64;
            for l in 0..3 {
                second[k][l] += a[k] * a[l] / num as f64;
            }
        }
        n += 1;
    }
    must(n == num, "all directions are visited");
    for k in 0..3 {
        must(mean[k].abs() < 1e-3, "there is as much forward as backward");
        for l in 0..3 {
            must((second[k][l] - if k == l { 1.0 / 3.0 } else { 0.0 }).abs() < 0.01, "there is the same along every axis");
        }
    }
    // seen from any direction
    let s = [real(-1.0, 1.0), real(-1.0, 1.0), real(-1.0, 1.0)];
    let q = dot(s, s);
    let mut seen = 0.0;
    for k in 0..3 {
        for l in 0..3 {
            seen += second[k][l] * s[k] * s[l];
        }
    }
    must(seen <= 0.35 * q + 1e-9 && seen >= 0.31 * q - 1e-9, "there is the same along every line of sight");
}

/// directions that are given have any length
#[no_mangle]
pub extern "C" fn c19_explicit() {
    let v = MVec::new(real(-10.0, 10.0), real(-10.0, 10.0), real(0.1, 10.0));
    let w = MVec::new(0.0, 2.0, 0.0);
    let one = Dimensionless::dimensionless(1.0);
    let spec = DirectionsSpecification::Explicit(vec![w * one, v * one]);
    let d: Directions = (&spec).into();
    must(d.len() == 2 && spec.num() == 2, "as many directions as given");
    let a = xyz(&d[DirectionIndex(1)]);
    must(close(dot(a, a), 1.0, 1e-6), "given directions become unit vectors");
    let c = [a[1] * v.z - a[2] * v.y, a[2] * v.x - a[0] * v.z, a[0] * v.y - a[1] * v.x];
    must(close(c[0], 0.0, 1e-6) && close(c[1], 0.0, 1e-6) && close(c[2], 0.0, 1e-6), "which point along the given ones");
    must(a[2] > 0.0, "and not backwards");
    let b = xyz(&d[DirectionIndex(0)]);
    must(b[0] == 0.0 && b[1] == 1.0 && b[2] == 0.0, "in the order in which they are given");
}

/// when the directions are turned, the radiation stays
#[no_mangle]
pub extern "C" fn c19_turn() {
    let n = 1 + pick(3);
    let one = Dimensionless::dimensionless(1.0);
    let all = [MVec::new(1.0, 0.0, 0.0), MVec::new(0.0, 1.0, 0.0), MVec::new(-0.6, -0.8, 0.0)];
    let old: Vec<Direction> = (0..n).map(|i| Direction(all[i] * one)).collect();
    // any new directions
    let new: Vec<Direction> = (0..n).map(|_| Direction(MVec::new(real(-1.0, 1.0), real(-1.0, 1.0), real(-1.0, 1.0)) * one)).collect();
    let rates: Vec<f64> = (0..n).map(|_| real(0.0, 100.0)).collect();
    let mut values: Vec<PhotonRate> = rates.iter().map(|r| PhotonRate::photons_per_second(*r)).collect();
    remap(&mut values, &old, &new);
    let mut before = 0.0;
    let mut after = 0.0;
    for i in 0..n {
        before += rates[i];
        let v = values[i].in_photons_per_second();
        must(v >= 0.0, "no direction carries less than nothing");
        after += v;
    }
    let d = before - after;
    must(d < 1e-6 && d > -1e-6, "turning the directions does not change the amount of radiation");
}
/// directions that are only renumbered take their radiation along
#[no_mangle]
pub extern "C" fn c19_renumber() {
    let one = Dimensionless::dimensionless(1.0);
    let all = [MVec::new(1.0, 0.0, 0.0), MVec::new(0.0, 1.0, 0.0), MVec::new(-0.6, -0.8, 0.0), MVec::new(0.0, 0.6, 0.8)];
    let old: Vec<Direction> = all.iter().map(|v| Direction(*v * one)).collect();
    let shift = pick(4);
    let new: Vec<Direction> = (0..4).map(|i| Direction(all[(i + shift) % 4] * one)).collect();
    let rates: Vec<f64> = (0..4).map(|_| real(0.0, 100.0)).collect();
    let mut values: Vec<PhotonRate> = rates.iter().map(|r| PhotonRate::photons_per_second(*r)).collect();
    remap(&mut values, &old, &new);
    for i in 0..4 {
        let d = values[i].in_photons_per_second() - rates[(i + shift) % 4];
        must(d < 1e-6 && d > -1e-6, "radiation goes to the direction that is closest");
    }
}

use crate::sweep::count_by_dir::CountByDir;
/// counters per direction
#[no_mangle]
pub extern "C" fn c19_counts() {
    let n = 1 + pick(4);
    let start = any(0, 1000);
    let mut c = CountByDir::new(n, start);
    let mut want = vec![start; n];
    for _ in 0..3 {
        let d = pick(n);
        if pick(2) == 0 {
            c[DirectionIndex(d)] += 1;
            want[d] += 1;
        } else if want[d] > 0 {
            want[d] -= 1;
            must(c.reduce(DirectionIndex(d)) == want[d], "counting down tells what is left");
        }
    }
    let mut total = 0;
    for d in 0..n {
        must(c[DirectionIndex(d)] == want[d], "every direction has its own count");
        total += want[d];
    }
    must(c.total() == total, "the total is that of all directions");
    must(CountByDir::empty().total() == 0, "nothing to count");
}
