//! Absorption of radiation in a cell and what it does to the gas.
use super::*;
use crate::sweep::site::Site;
use crate::vp_api::*;

const EPS: f64 = 1e-10;

struct Gas {
    cell: Cell,
    site: Site<HydrogenOnly>,
    chemistry: HydrogenOnly,
}
/// hydrogen with that number of atoms per cubic centimeter
fn gas(nh: f64, x: f64, size: f64, threshold: f64) -> Gas {
    let directions = (&crate::sweep::DirectionsSpecification::Num(1)).into();
    Gas {
        cell: Cell { neighbours: vec![], size: Length::kiloparsec(size), volume: Length::kiloparsec(size) * Length::kiloparsec(size) * Length::kiloparsec(size) },
        site: Site::new(
            &directions,
            HydrogenOnlySpecies::new(Dimensionless::dimensionless(x), Temperature::kelvins(1e4)),
            PROTON_MASS / Volume::cubic_centimeters(1.0) * nh,
            PhotonRate::zero(),
        ),
        chemistry: HydrogenOnly {
            rate_threshold: PhotonRate::photons_per_second(threshold),
            scale_factor: Dimensionless::dimensionless(1.0),
            timestep_safety_factor: Dimensionless::dimensionless(0.1),
            prevent_cooling: false,
        },
    }
}
fn out(g: &Gas, rate: f64) -> f64 {
    g.chemistry.get_outgoing_rate(&g.cell, &g.site, PhotonRate::photons_per_second(rate)).in_photons_per_second()
}
fn solver(g: &Gas, rate: f64) -> Solver {
    Solver {
        ionized_hydrogen_fraction: g.site.species.ionized_hydrogen_fraction,
        temperature: g.site.species.temperature,
        density: g.site.density,
        volume: g.cell.volume,
        length: g.cell.size,
        rate: PhotonRate::photons_per_second(rate),
        scale_factor: Dimensionless::dimensionless(1.0),
        floor: None,
    }
}

/// no cell creates radiation, none lets less than nothing pass
#[no_mangle]
pub extern "C" fn c21_between() {
    let g = gas(real(1e-6, 1e3), real(0.0, 1.0), real(1e-3, 100.0), 0.0);
    let r = real(0.0, 1e6);
    let o = out(&g, r);
    must(o >= 0.0, "what leaves a cell is not negative");
    must(o <= r, "no cell creates radiation");
    must(r == 0.0 || o > 0.0, "some of it always leaves");
}
/// ionized gas is transparent, more gas absorbs more
#[no_mangle]
pub extern "C" fn c21_transparent() {
    let (nh, size, r) = (real(1e-6, 1e3), real(1e-3, 100.0), real(0.0, 1e6));
    must(out(&gas(nh, 1.0, size, 0.0), r) == r, "fully ionized gas is transparent");
    must(out(&gas(0.0, 0.5, size, 0.0), r) == r, "a cell without gas is transparent");
}
#[no_mangle]
pub extern "C" fn c21_more() {
    let (nh, x, size, r) = (real(1e-3, 10.0), real(0.0, 0.999), real(1e-3, 10.0), real(0.1, 1e3));
    let a = out(&gas(nh, x, size, 0.0), r);
    let b = match pick(3) {
        0 => out(&gas(nh * 2.0, x, size, 0.0), r),
        1 => out(&gas(nh, x * 0.5, size, 0.0), r),
        _ => out(&gas(nh, x, size * 1.5, 0.0), r),
    };
    must(b <= a, "more neutral gas in the way absorbs more");
}
/// radiation below the threshold is dropped, all other is not
#[no_mangle]
pub extern "C" fn c21_threshold() {
    let t = real(0.0, 100.0);
    let r = real(0.0, 1000.0);
    let o = out(&gas(1.0, 0.5, 1.0, t), r);
    let free = out(&gas(1.0, 0.5, 1.0, 0.0), r);
    must(if r < t { o == 0.0 } else { o == free }, "exactly the radiation below the threshold is dropped");
    cover(r < t, "below");
    cover(r > t, "above");
}
/// what does not leave is absorbed: the atoms ionized in a step are the photons that do not come out
#[no_mangle]
pub extern "C" fn c21_budget() {
    let g = gas(real(1e-3, 10.0), real(0.0, 0.999), real(1e-3, 10.0), 0.0);
    let r = real(0.1, 1e3);
    let o = out(&g, r);
    let s = solver(&g, r);
    let dt = 4.0;
    let t = Time::seconds(dt);
    let atoms = s.num_newly_ionized_hydrogen_atoms(t).value();
    must(close(atoms, (r - o) * dt, 1e-6), "every absorbed photon ionizes one atom");
    must(atoms >= 0.0 && atoms <= r * dt, "not more atoms are ionized than photons come in");
}
/// the same number of atoms, as a rate per neutral atom and as heat
#[no_mangle]
pub extern "C" fn c21_rates() {
    let nh = [1e-3, 1.0, 100.0][pick(3)];
    let x = [0.0, 0.5, 0.99][pick(3)];
    let g = gas(nh, x, 1.0, 0.0);
    let r = real(0.0, 1e3);
    let s = solver(&g, r);
    let t = Time::seconds(4.0);
    let atoms = s.num_newly_ionized_hydrogen_atoms(t).value();
    let per_atom: Rate = s.photoionization_rate(t);
    let neutral = (s.neutral_hydrogen_number_density() * s.volume).value();
    let d = (per_atom * t).value() * neutral - atoms;
    must(d <= 1e-6 * (1.0 + atoms) && d >= -1e-6 * (1.0 + atoms), "the ionization rate is the absorbed photons per neutral atom");
    let heat = s.photoheating_rate(t) * s.volume * t;
    let want = atoms * (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT);
    let q = (heat / (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT)).value() - atoms;
    let _ = want;
    must(q <= 1e-6 * (1.0 + atoms) && q >= -1e-6 * (1.0 + atoms), "every absorbed photon heats by what is left of its energy");
}
/// ionized and neutral atoms are all atoms
#[no_mangle]
pub extern "C" fn c21_densities() {
    let nh = real(1e-6, 1e3);
    let x = real(0.0, 1.0);
    let s = solver(&gas(nh, x, 1.0, 0.0), 0.0);
    let cc = Volume::cubic_centimeters(1.0);
    let all = (s.hydrogen_number_density() * cc).value();
    let ion = (s.ionized_hydrogen_number_density() * cc).value();
    let neutral = (s.neutral_hydrogen_number_density() * cc).value();
    let e = (s.electron_number_density() * cc).value();
    must(close(all, nh, 1e-6), "the number of atoms follows from the density");
    must(close(ion + neutral, all, 1e-6), "atoms are ionized or neutral");
    must(ion >= 0.0 && neutral >= 0.0, "there are no negative numbers of atoms");
    must(close(ion, x * nh, 1e-6), "the ionized fraction is that of all atoms");
    must(close(e, ion, 1e-9), "one electron per ionized atom");
    let mu = s.mu().value();
    must(close(mu * (1.0 + x), 1.0, 1e-9), "the mean mass of a particle");
}
/// reaction rates are positive, cooling takes energy away, at all temperatures
#[no_mangle]
pub extern "C" fn c21_positive() {
    let mut s = solver(&gas(1.0, 0.5, 1.0, 0.0), 0.0);
    let t = real(10.0, 1e7);
    s.temperature = Temperature::kelvins(t);
    s.scale_factor = Dimensionless::dimensionless(1.0);
    must(s.case_b_recombination_rate().in_centimeters_cubed_per_s() > 0.0, "recombination");
    must(s.collisional_ionization_rate().in_centimeters_cubed_per_s() > 0.0, "collisional ionization");
    let e = HeatingTerm::ergs_centimeters_cubed_per_s(1.0);
    must((s.case_b_recombination_cooling_rate() / e).value() > 0.0, "cooling by recombination");
    must((s.collisional_ionization_cooling_rate() / e).value() > 0.0, "cooling by ionization");
    must((s.collisional_excitation_cooling_rate() / e).value() > 0.0, "cooling by excitation");
    must((s.bremsstrahlung_cooling_rate() / e).value() > 0.0, "cooling by radiation");
    let c = (s.compton_cooling_rate() / EnergyPerTime::ergs_per_s(1.0)).value();
    must(if t > 2.727 { c > 0.0 } else { c <= 0.0 }, "gas that is hotter than the background cools");
}
