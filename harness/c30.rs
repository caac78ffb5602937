use super::*;
use crate::vp_api::*;
use bevy_ecs::store;
use bevy_ecs::prelude::Query;
use crate::io::input::vp_c30b as input;
use crate::io::InputDatasetDescriptor;
use crate::prelude::LocalParticle;
use mpi::model;

type V = crate::components::Density;
static mut COUNTS: [usize; 4] = [0; 4];
fn parameters(files: usize) -> OutputParameters {
    OutputParameters {
        time_between_snapshots: crate::units::Time::zero(),
        time_first_snapshot: None,
        output_dir: "o".into(),
        snapshots_dir: "s".into(),
        time_series_dir: "t".into(),
        fields: parameters::Fields::All,
        snapshot_padding: 3,
        used_parameters_filename: String::new(),
        handle_existing_output: Default::default(),
        performance_data_filename: String::new(),
        num_output_files: files,
    }
}
fn gather(r: i32, own: *const u8, _size: usize, dst: *mut u8) {
    unsafe {
        let own = *(own as *const usize);
        if r == model::rank() {
            *(dst as *mut usize) = own;
        } else {
            *(dst as *mut usize) = COUNTS[r as usize];
        }
    }
}
fn round(ranks: usize, max_files: usize, max: usize) {
    hdf5::reset();
    store::reset();
    let nf = 1 + pick(max_files);
    let p = parameters(nf);
    Timer::initialize_system(Commands::of_store(), Res::from_ref(&p));
    store::apply();
    let timer: &Timer = store::resource::<Timer>().unwrap();
    let values: Vec<Vec<f64>> = (0..ranks).map(|_| (0..pick(max + 1)).map(|_| real(-1e6, 1e6)).collect()).collect();
    let all: Vec<f64> = values.iter().flatten().map(|x| *x).collect();
    for r in 0..ranks {
        unsafe { COUNTS[r] = values[r].len() };
    }
    let total = NumParticlesTotal(all.len());
    let descriptor = OutputDatasetDescriptor::<V>::new(DatasetDescriptor::default_for::<V>());
    let mut files = OutputFiles::default();
    create_file_system(ResMut::from_ref(&mut files), Res::from_ref(&p), Res::from_ref(timer), Res::from_ref(&total), Res::from_ref(&WorldRank(0)));
    create_dataset_system::<V>(ResMut::from_ref(&mut files), NonSend::from_ref(&descriptor));
    close_file_system(ResMut::from_ref(&mut files));
    for r in 0..ranks {
        store::reset();
        for v in values[r].iter() {
            store::spawn((LocalParticle, crate::components::Density(crate::units::Density::new_unchecked(*v))));
        }
        model::reset(ranks as i32, r as i32);
        model::world().gather = Some(gather);
        compute_output_rank_assignment_system(Commands::of_store(), Res::from_ref(&WorldRank(r as i32)), Res::from_ref(&p), Query::of_store(), Res::from_ref(&total));
        store::apply();
        let assignment: &RankAssignment = store::resource::<RankAssignment>().unwrap();
        let mut files = OutputFiles::default();
        open_file_system(ResMut::from_ref(&mut files), Res::from_ref(&p), Res::from_ref(timer), Res::from_ref(assignment));
        write_dataset_system::<V>(Query::of_store(), ResMut::from_ref(&mut files), NonSend::from_ref(&descriptor));
        close_file_system(ResMut::from_ref(&mut files));
        must(files.0.is_none(), "no files stay open");
    }
    let mut rows = 0;
    for f in hdf5::files().iter() {
        for d in f.datasets.iter() {
            for row in d.value.rows.iter() {
                must(row.written == 1, "every row of a file is written once");
                rows += 1;
            }
        }
    }
    must(rows == all.len(), "the files have one row for every particle");
    let n = hdf5::files().len();
    must(n <= nf, "no more files than asked for");
    let readers = 1 + pick(3);
    let mut got: Vec<f64> = vec![];
    for r in 0..readers {
        let rd = input::reader(r as i32, readers, (0..n).map(|i| File::from_index(i)).collect());
        got.extend(rd.read_dataset(InputDatasetDescriptor::<V>::default()).map(|v| v.0.value_unchecked()));
    }
    must(got.len() == all.len(), "as many entries are read as were written");
    for (a, b) in got.iter().zip(all.iter()) {
        must(*a == *b, "the values come back as they were written, in the same order");
    }
    cover(all.len() > 2 && n == max_files, "several entries and files");
    cover(ranks == 1 || (values[0].is_empty() && !all.is_empty()), "nothing on the first process");
}
#[no_mangle]
pub extern "C" fn c30_round_1() {
    round(1, 3, 5);
}
#[no_mangle]
pub extern "C" fn c30_round_2() {
    round(2, 2, 3);
}
#[no_mangle]
pub extern "C" fn c30_round_3() {
    round(3, 2, 1);
}
/// one process after the other has its files open, the main process first
#[no_mangle]
pub extern "C" fn c30_turns() {
    let n = any(1, 8);
    let (a, b) = (any(0, 7), any(0, 7));
    assume(a < n && b < n && a != b);
    let turn = |r: usize| {
        model::reset(n as i32, r as i32);
        let w = crate::prelude::WorldSize(n);
        init_wait_for_other_ranks_system(Res::from_ref(&w), Res::from_ref(&WorldRank(r as i32)));
        let before = model::world().barriers;
        finish_wait_for_other_ranks_system(Res::from_ref(&w), Res::from_ref(&WorldRank(r as i32)));
        (before, model::world().barriers)
    };
    let (x, all) = turn(a);
    let (y, all2) = turn(b);
    must(all == all2, "all processes wait for each other equally often");
    must(x < all && y < all, "nobody goes on before all have written");
    must(x != y, "no two processes have the files open at the same time");
    must((x == 0) == (a == 0), "the main process, which creates the files, goes first");
    cover(n == 8 && a == 7, "the last of eight processes");
}
/// snapshots are due at the first time and then after every interval; static quantities only once
#[no_mangle]
pub extern "C" fn c30_timer() {
    use crate::simulation_plugin::{SimulationTime, StopSimulationEvent};
    use bevy_ecs::schedule::ShouldRun;
    store::reset();
    let mut p = parameters(1);
    let first = if pick(2) == 0 { Some(real(0.0, 10.0)) } else { None };
    let step = real(0.0, 10.0);
    p.time_first_snapshot = first.map(|x| crate::units::Time::new_unchecked(x));
    p.time_between_snapshots = crate::units::Time::new_unchecked(step);
    Timer::initialize_system(Commands::of_store(), Res::from_ref(&p));
    store::apply();
    let mut due = first.unwrap_or(0.0);
    let mut time = 0.0;
    let mut count = 0;
    for _ in 0..3 {
        time += real(0.0, 10.0);
        let stop: Vec<StopSimulationEvent> = if pick(2) == 0 { vec![] } else { vec![StopSimulationEvent] };
        let t = SimulationTime(crate::units::Time::new_unchecked(time));
        let timer: &mut Timer = store::resource::<Timer>().unwrap();
        must(timer.snapshot_num() == count, "snapshots are numbered in order");
        let ev = || bevy_ecs::prelude::EventReader(&stop[..], std::marker::PhantomData);
        let run = Timer::run_criterion(Res::from_ref(&t), Res::from_ref(timer), ev()) == ShouldRun::Yes;
        must(run == (time >= due || !stop.is_empty()), "a snapshot is written when one is due or the simulation ends");
        let fixed = Timer::dataset_write_run_criterion::<V>(Res::from_ref(&t), Res::from_ref(timer), ev()) == ShouldRun::Yes;
        let changing = Timer::dataset_write_run_criterion::<crate::components::Temperature>(Res::from_ref(&t), Res::from_ref(timer), ev()) == ShouldRun::Yes;
        must(changing == run, "every snapshot has the quantities that change");
        must(fixed == (run && count == 0), "the first snapshot has the quantities that do not change");
        if run {
            Timer::update_system(ResMut::from_ref(timer), Res::from_ref(&p));
            due += step;
            count += 1;
        }
    }
    cover(count == 3, "three snapshots");
    cover(count == 0, "none");
}
