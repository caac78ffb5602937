use super::*;
use crate::vp_api::*;
use bevy_ecs::store;

pub fn reader(rank: Rank, num_ranks: usize, files: Vec<File>) -> Reader {
    Reader { rank, num_ranks, files }
}
pub fn spawned() -> SpawnedEntities {
    SpawnedEntities::default()
}
type V = crate::components::Density;
fn add(f: usize, name: &str, rows: Vec<f64>, attr: f64) {
    let d = hdf5::add_dataset(f, name, rows.iter().map(|x| {
        let mut c = hdf5::Cell::empty();
        c.put(x);
        c
    }).collect());
    let a = |n: &str, c: hdf5::Cell| hdf5::files()[f].datasets[d].value.attrs.push(hdf5::Named { name: n.to_owned(), value: c });
    let mut c = hdf5::Cell::empty();
    c.put(&attr);
    a("scale_factor_si", c);
    for (n, v) in [("scaling_length", -3i32), ("scaling_mass", 1), ("scaling_time", 0), ("scaling_temperature", 0)] {
        let mut c = hdf5::Cell::empty();
        c.put(&v);
        a(n, c);
    }
}
fn descriptor(name: &str) -> InputDatasetDescriptor<V> {
    InputDatasetDescriptor::new(crate::io::DatasetDescriptor { dataset_name: name.to_owned(), unit_reader: Box::new(crate::io::DefaultUnitReader) }, DatasetShape::OneDimensional)
}

/// chunks cover a region without gaps, in order, none empty and none larger than asked for
#[no_mangle]
pub extern "C" fn c30_chunks() {
    let start = any(0, 1000000);
    let len = any(0, 1000000);
    let size = any(1, 1000000);
    assume(len <= 5 * size);
    let region = Region { file_index: 0, start, end: start + len };
    let l = get_chunk_sizes(&region, size);
    let n = conc(l.len());
    let mut at = start;
    for i in 0..n {
        must(l[i].start == at && l[i].end > at, "a chunk begins where the one before ended");
        must(l[i].end - l[i].start <= size, "no chunk is larger than asked for");
        at = l[i].end;
    }
    must(at == start + len, "the chunks cover the whole region");
    cover(n == 5, "five chunks");
    cover(len == 0, "an empty region");
}
/// the values of the files, converted with the scale factor of each file, in pieces of any size
#[no_mangle]
pub extern "C" fn c30_units() {
    hdf5::reset();
    let nf = 1 + pick(2);
    let mut want = vec![];
    let mut files = vec![];
    for f in 0..nf {
        let n = pick(4);
        let s = real(1e-3, 1e3);
        let rows: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
        for r in rows.iter() {
            want.push(*r * s);
        }
        let i = hdf5::add_file(["a", "b"][f]);
        if n > 0 || pick(2) == 0 {
            add(i, "x", rows, s);
        }
        files.push(File::from_index(i));
    }
    let ranks = 1 + pick(3);
    let mut got: Vec<f64> = vec![];
    for r in 0..ranks {
        let rd = reader(r as Rank, ranks, files.clone());
        let whole: Vec<V> = rd.read_dataset(descriptor("x")).collect();
        must(whole.len() == rd.get_num_entities("x"), "as many entries are read as there are");
        let chunk = 1 + pick(3);
        let parts: Vec<V> = rd.read_dataset_chunked(descriptor("x"), chunk).collect();
        must(parts.len() == whole.len(), "reading in pieces misses nothing");
        for (a, b) in parts.iter().zip(whole.iter()) {
            must(**a == **b, "reading in pieces reads the same values");
        }
        got.extend(whole.iter().map(|v| v.0.value_unchecked()));
    }
    must(got.len() == want.len(), "every entry is read by one process");
    for (a, b) in got.iter().zip(want.iter()) {
        must(close(*a, *b, 1e-9), "values are converted with the scale factor of their file");
    }
    cover(nf == 2 && ranks == 3 && want.len() > 4, "several files and readers");
}
/// a dataset of other units is refused
#[no_mangle]
pub extern "C" fn c30_refused() {
    hdf5::reset();
    let i = hdf5::add_file("a");
    add(i, "x", vec![1.0], 1.0);
    let which = pick(4);
    let name = ["scaling_length", "scaling_mass", "scaling_time", "scaling_temperature"][which];
    let v = any(0, 20) as i32 - 10;
    for a in hdf5::files()[i].datasets[0].value.attrs.iter_mut() {
        if a.name == name {
            a.value.put(&v);
        }
    }
    let right = v == [-3, 1, 0, 0][which];
    panic_ok(!right);
    let l: Vec<V> = reader(0, 1, vec![File::from_index(i)]).read_dataset(descriptor("x")).collect();
    must(right, "a dataset with other units than those of the quantity is refused");
    must(l.len() == 1, "the value is read");
    cover(true, "the right units");
}
/// particles of the files: one for every entry, with the values of the same row of all datasets
#[no_mangle]
pub extern "C" fn c30_particles() {
    hdf5::reset();
    store::reset();
    let ranks = 1 + pick(2);
    let me = pick(ranks);
    let ns = [pick(3), pick(3)];
    let mut all = vec![];
    for f in 0..2 {
        let i = hdf5::add_file(["a", "b"][f]);
        let rows: Vec<f64> = (0..ns[f]).map(|_| real(0.0, 1e6)).collect();
        all.extend(rows.iter().map(|x| *x));
        add(i, "density", rows.clone(), 1.0);
        let d = hdf5::add_dataset(i, "id", rows.iter().enumerate().map(|(k, _)| {
            let mut c = hdf5::Cell::empty();
            c.put(&((10 * f + k) as f64));
            c
        }).collect());
        let _ = d;
    }
    mpi::model::reset(ranks as i32, me as i32);
    let mut sp = SpawnedEntities::default();
    let mut reg = RegisteredDatasets::default();
    reg.insert("density".to_owned(), RegisteredDataset { name: "density".to_owned() });
    reg.insert("id".to_owned(), RegisteredDataset { name: "id".to_owned() });
    let pars = InputParameters { paths: vec!["a".into(), "b".into()] };
    let mut perf = Performance::default();
    spawn_entities_system(Commands::of_store(), ResMut::from_ref(&mut sp), Res::from_ref(&reg), Res::from_ref(&pars), ResMut::from_ref(&mut perf));
    store::apply();
    let d = descriptor("density");
    read_dataset_system::<V>(NonSend::from_ref(&d), Commands::of_store(), Res::from_ref(&sp), Res::from_ref(&pars));
    store::apply();
    let total = all.len();
    let per = total / ranks;
    let n = if me == ranks - 1 { total - per * me } else { per };
    must(sp.len() == n && store::rows().len() == n, "there is one particle for every entry of this process");
    for (k, e) in sp.iter().enumerate() {
        must(store::get::<LocalParticle>(*e).is_some(), "particles belong to the process");
        must(store::get::<V>(*e).map(|v| v.0.value_unchecked()) == Some(all[per * me + k]), "particles get the values in the order of the files");
    }
    cover(n == 2 && ranks == 2, "two particles on one of two processes");
}

/// datasets of vectors
#[no_mangle]
pub extern "C" fn c30_vectors() {
    hdf5::reset();
    let i = hdf5::add_file("a");
    let n = pick(4);
    let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..3).map(|_| real(-1e6, 1e6)).collect()).collect();
    let s = real(1e-3, 1e3);
    add(i, "x", vec![], s);
    let set = &mut hdf5::files()[i].datasets[0].value;
    set.columns = rows.clone();
    for (k, v) in [("scaling_length", 1i32), ("scaling_mass", 0)] {
        for a in set.attrs.iter_mut() {
            if a.name == k {
                a.value.put(&v);
            }
        }
    }
    fn make(d: &[Float]) -> crate::components::Position {
        crate::components::Position(crate::units::VecLength::new_unchecked(glam::DVec3::new(d[0], d[1], d[2])))
    }
    let d = || InputDatasetDescriptor::new(crate::io::DatasetDescriptor { dataset_name: "x".to_owned(), unit_reader: Box::new(crate::io::DefaultUnitReader) }, DatasetShape::TwoDimensional(make));
    let ranks = 1 + pick(2);
    let mut got = vec![];
    for r in 0..ranks {
        let rd = reader(r as Rank, ranks, vec![File::from_index(i)]);
        let chunk = 1 + pick(2);
        got.extend(rd.read_dataset_chunked(d(), chunk));
    }
    must(got.len() == n, "every row is read by one process");
    for (p, w) in got.iter().zip(rows.iter()) {
        let p = p.0.value_unchecked();
        must(close(p.x, w[0] * s, 1e-9) && close(p.y, w[1] * s, 1e-9) && close(p.z, w[2] * s, 1e-9), "rows become vectors in the units of the file");
    }
    cover(n == 3 && ranks == 2, "three rows, two processes");
}
