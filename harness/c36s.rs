//! Stars of a snapshot as sources.
use super::*;
use crate::arepo_postprocess::unit_reader::vp_c36::dataset;
use crate::arepo_postprocess::FromIcs;
use crate::arepo_postprocess::GridParameters;
use crate::arepo_postprocess::SourceType;
use crate::cosmology::vp_c36c as co;
use crate::vp_api::*;
use bevy_ecs::store;
use mpi::model;

struct Star {
    pos: [f64; 3],
    z: f64,
    time: f64,
    mass: f64,
}
fn run(stars: &[Star], ranks: usize, escape: f64) {
    hdf5::reset();
    hdf5::add_file("a");
    let f = |g: fn(&Star) -> f64| stars.iter().map(g).collect::<Vec<_>>();
    let d = dataset(0, "PartType4/Coordinates", vec![], 200.0, [1, 0, 0, 1, -1]);
    hdf5::files()[0].datasets[d].value.columns = stars.iter().map(|s| s.pos.to_vec()).collect();
    dataset(0, "PartType4/GFM_Metallicity", f(|s| s.z), 0.0, [0; 5]);
    dataset(0, "PartType4/GFM_StellarFormationTime", f(|s| s.time), 0.0, [0; 5]);
    // solar masses
    dataset(0, "PartType4/Masses", f(|s| s.mass), 1e3 * Mass::solar(1.0).value_unchecked(), [0, 0, 1, 0, 0]);
    let pars = crate::io::input::vp_c36i::files(&["a"]);
    let run = Parameters { initial_fraction_ionized_hydrogen: None, sources: SourceType::FromIcs(FromIcs { escape_fraction: Dimensionless::dimensionless(escape) }), grid: GridParameters::Construct, remap_from: None };
    let cosmology = co::cosmology(0.5, 0.75);
    let mut got = vec![];
    for r in 0..ranks {
        store::reset();
        model::reset(ranks as i32, r as i32);
        read_sources_system(Commands::of_store(), Res::from_ref(&pars), Res::from_ref(&run), Res::from_ref(&cosmology));
        store::apply();
        let s = store::resource::<Sources>();
        must(s.is_some(), "every process has a list of sources");
        for s in s.unwrap().sources.iter() {
            let p = s.pos.value_unchecked();
            got.push(([p.x, p.y, p.z], s.rate.in_photons_per_second()));
        }
    }
    let mut n = 0;
    for s in stars {
        if !(s.time > 0.0) {
            continue;
        }
        must(n < got.len(), "every star is a source");
        let (p, rate) = &got[n];
        for k in 0..3 {
            // 2 m times the scale factor by little h
            must(close(p[k], s.pos[k] * 2.0 * 0.5 / 0.75, 1e-9), "it is at the position of the star");
        }
        let age = 1e8 * (0.5 - s.time);
        let want = escape * bpass_lookup(Time::years(age), Dimensionless::dimensionless(s.z), Mass::solar(s.mass)).in_photons_per_second();
        must((rate - want).abs() <= 1e-6 * want, "its rate is that of its age, metallicity and mass, times the fraction that escapes");
        n += 1;
    }
    must(got.len() == n, "wind is no source");
    cover(n == stars.len(), "all are stars");
    cover(n == 0, "none is a star");
}
fn star(k: usize, fixed: bool) -> Star {
    let p = [real(-10.0, 10.0), 0.5 + k as f64, 2.0];
    let wind = pick(2) == 1;
    let time = if wind { real(-1.0, 0.0) } else if fixed { 0.25 + 0.05 * k as f64 } else { real(0.46, 0.489) };
    Star { pos: p, z: [0.004, 0.015, 1e-4][k], time, mass: [10.0, 200.0, 5.0][k] }
}
#[no_mangle]
pub extern "C" fn c36_one() {
    run(&[star(0, false)], 1 + pick(2), [0.25, 1.0][pick(2)]);
}
#[no_mangle]
pub extern "C" fn c36_stars() {
    run(&[star(0, true), star(1, true), star(2, true)], 1 + pick(3), 0.5);
}
