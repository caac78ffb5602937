//! Units of snapshots of AREPO.
use super::*;
use crate::vp_api::*;

fn cell<T>(t: T) -> hdf5::Cell {
    let mut c = hdf5::Cell::empty();
    c.put(&t);
    c
}
/// a dataset of the file with the given number: length, velocity, mass, a, h
pub fn dataset(f: usize, name: &str, rows: Vec<f64>, cgs: f64, dims: [i32; 5]) -> usize {
    let d = hdf5::add_dataset(f, name, rows.into_iter().map(cell).collect());
    let l = &mut hdf5::files()[f].datasets[d].value.attrs;
    l.push(hdf5::Named { name: "to_cgs".to_owned(), value: cell(cgs) });
    for (n, v) in [("length_scaling", dims[0]), ("velocity_scaling", dims[1]), ("mass_scaling", dims[2]), ("a_scaling", dims[3]), ("h_scaling", dims[4])] {
        l.push(hdf5::Named { name: n.to_owned(), value: cell(v) });
    }
    d
}
fn power(x: f64, n: i32) -> f64 {
    let mut r = 1.0;
    for _ in 0..n.abs() {
        r *= if n > 0 { x } else { 1.0 / x };
    }
    r
}
#[no_mangle]
pub extern "C" fn c36_units() {
    hdf5::reset();
    hdf5::add_file("f");
    let dims = [[-3, 0, 1, 2][pick(4)], [-1, 0, 2][pick(3)], [-1, 0, 1][pick(3)], [-3, 0, 1][pick(3)], [-1, 0, 2][pick(3)]];
    let cgs = real(0.0, 1e6);
    dataset(0, "x", vec![1.0], cgs, dims);
    let set = hdf5::File::from_index(0).dataset("x").unwrap();
    let (a, h) = [(0.5, 0.75), (0.25, 0.5)][pick(2)];
    let known = pick(2) == 0;
    let r = ArepoUnitReader::new(if known { Cosmology::Cosmological { a, h, params: None } } else { Cosmology::NonCosmological });
    let refused = !known && (dims[3] != 0 || dims[4] != 0);
    let plain = dims[0] + dims[1] == 0 && dims[1] == 0 && dims[2] == 0 && dims[3] == 0 && dims[4] == 0;
    panic_ok(refused);
    let d = r.read_dimension(&set);
    must(!refused, "comoving units are refused without a cosmology");
    must(d.length == dims[0] + dims[1] && d.time == -dims[1] && d.mass == dims[2] && d.temperature == 0 && d.a == 0 && d.h == 0, "velocities are lengths by times, what is comoving is converted");
    panic_ok(cgs == 0.0 && !plain);
    let f = r.read_scale_factor(&set);
    must(cgs != 0.0 || plain, "a factor of zero is refused unless the quantity has no units");
    let expected = power(0.01, d.length) * power(0.001, d.mass) * power(a, dims[3]) * power(h, dims[4]);
    let cgs = if cgs == 0.0 { 1.0 } else { cgs };
    must((f - cgs * expected).abs() <= 1e-9 * cgs * expected, "values are converted from the units of the file to those of the program");
    cover(known && dims[3] == -3 && dims[4] == 2, "comoving");
    cover(plain, "no units");
}
