//! Which process owns which part of the space filling curve.
use super::*;
use crate::dimension::ThreeD;
use crate::peano_hilbert::PeanoKey2d;
use crate::peano_hilbert::PeanoKey3d;
use crate::vp_api::*;
use mpi::model;
use mpi::traits::Equivalence;

/// short keys, so that all of them can be tried
#[derive(PartialOrd, Ord, Copy, Clone, PartialEq, Eq, Debug, Equivalence)]
struct Short(u64);
impl Key for Short {
    type Dimension = ThreeD;
    const MAX_DEPTH: usize = 8;
    fn middle(start: Self, end: Self) -> Self {
        Short(<PeanoKey2d as Key>::middle(PeanoKey2d(start.0), PeanoKey2d(end.0)).0)
    }
    fn next(self) -> Self {
        Short(<PeanoKey2d as Key>::next(PeanoKey2d(self.0)).0)
    }
}
fn owner(d: &Decomposition<Short>, k: u64, n: usize) -> usize {
    let r = d.get_owning_rank(Short(k));
    must(r >= 0 && (r as usize) < n, "every particle is owned by a process that exists");
    r as usize
}
/// every particle has an owner, and owners are in the order of the curve
fn ownership(keys: &[u64], n: usize, d: &Decomposition<Short>) -> Vec<usize> {
    must(d.cuts.len() == n, "there is one part per process");
    let mut load = vec![0; n];
    let mut last = 0;
    let mut sorted = keys.to_vec();
    sorted.sort();
    for k in sorted {
        let o = owner(d, k, n);
        must(o >= last, "the parts of the processes follow each other along the curve");
        last = o;
        load[o] += 1;
    }
    load
}
fn balanced(load: &[usize], total: usize) {
    let n = load.len();
    let share = total / n;
    for r in 0..n - 1 {
        must(load[r] <= share && load[r] + 1 >= share, "a process owns its share, but for one particle");
    }
    must(load[n - 1] >= share && load[n - 1] <= share + n - 1 + total % n, "the last process owns the rest");
}
fn spaced(n: usize) -> Vec<u64> {
    // at least four apart, in any order
    let mut k = any(0, 3) as u64;
    let mut v = vec![k];
    for _ in 1..n {
        k += any(4, 8) as u64;
        v.push(k);
    }
    match pick(3) {
        0 => {}
        1 => v.reverse(),
        _ => v.rotate_left(1),
    }
    v
}
fn run(num: usize, ranks: usize) {
    let keys = spaced(num);
    let mut c = KeyCounter::new(keys.iter().map(|k| Short(*k)).collect());
    must(c.total_load() == num as u64, "the whole load is that of all particles");
    let d = Decomposition::new(&mut c, ranks);
    let load = ownership(&keys, ranks, &d);
    balanced(&load, num);
    must(d.loads.len() == ranks, "there is one load per process");
    let imb = d.get_imbalance();
    must(imb >= 0.0 && imb < 1.0 || num < 2 * ranks, "the imbalance is a fraction");
}
#[no_mangle]
pub extern "C" fn c25_two() {
    let num = 1 + pick(4);
    if num >= 2 {
        run(num, 2);
    } else {
        run(num, 1);
    }
}
#[no_mangle]
pub extern "C" fn c25_three() {
    run(4, 3);
}
#[no_mangle]
pub extern "C" fn c25_three_deep() {
    run(6, 3);
}
/// any keys, also equal ones, also fewer than processes
#[no_mangle]
pub extern "C" fn c25_any() {
    let num = 1 + pick(3);
    let keys: Vec<u64> = (0..num).map(|_| any(1, 7) as u64).collect();
    let ranks = 1 + pick(3);
    let mut c = KeyCounter::new(keys.iter().map(|k| Short(*k)).collect());
    let d = Decomposition::new(&mut c, ranks);
    ownership(&keys, ranks, &d);
    // keys of points where there was no particle, on the way
    owner(&d, 0, ranks);
}
/// the very ends of the curve
#[no_mangle]
pub extern "C" fn c25_ends() {
    let ranks = 1 + pick(3);
    let keys = [0, 1 << 40, 1 << 60, u64::MAX - 5, u64::MAX];
    let n = 3 + pick(3);
    let mut c = KeyCounter::new(keys[5 - n..].iter().map(|k| PeanoKey2d(*k)).collect());
    let d = Decomposition::new(&mut c, ranks);
    for k in &keys[5 - n..] {
        let r = d.get_owning_rank(PeanoKey2d(*k));
        must(r >= 0 && (r as usize) < ranks, "every particle is owned by a process that exists, also at the end of the curve");
    }
    let top = (1u128 << 126) - 1;
    let keys = [0, 1 << 40, 1 << 100, top - 5, top];
    let mut c = KeyCounter::new(keys[5 - n..].iter().map(|k| PeanoKey3d(*k)).collect());
    let d = Decomposition::new(&mut c, ranks);
    for k in &keys[5 - n..] {
        let r = d.get_owning_rank(PeanoKey3d(*k));
        must(r >= 0 && (r as usize) < ranks, "every particle is owned by a process that exists, also at the end of the curve");
    }
}

/// all processes find the same parts: the loads are those of all processes
static mut OTHER: u64 = 0;
static mut OTHER_KEYS: [u64; 2] = [0; 2];
struct Two {
    here: ParallelCounter<Short>,
    there: KeyCounter<Short>,
}
impl LoadCounter<Short> for Two {
    fn load_in_range(&mut self, start: Short, end: Short) -> Work {
        unsafe { OTHER = self.there.load_in_range(start, end) };
        self.here.load_in_range(start, end)
    }
    fn min_key(&mut self) -> Short {
        self.here.min_key()
    }
    fn max_key(&mut self) -> Short {
        self.here.max_key()
    }
}
fn gather(r: i32, own: *const u8, size: usize, dst: *mut u8) {
    // first the smallest, then the largest key
    unsafe {
        let w = model::world();
        *(dst as *mut u64) = OTHER_KEYS[if w.num_collectives <= 1 { 0 } else { 1 }];
    }
}
fn reduce(send: *const u8, _size: usize, recv: *mut u8, _op: mpi::collective::SystemOperation) {
    unsafe { *(recv as *mut u64) = *(send as *const u64) + OTHER };
}
#[no_mangle]
pub extern "C" fn c25_parallel() {
    let all = spaced(4);
    let split = 1 + pick(3);
    let (here, there) = all.split_at(split);
    let there: Vec<u64> = there.to_vec();
    let mut there_c = KeyCounter::new(there.iter().map(|k| Short(*k)).collect());
    model::reset(2, pick(2) as i32);
    model::world().gather = Some(gather);
    model::world().reduce = Some(reduce);
    unsafe { OTHER_KEYS = [there_c.min_key().0, there_c.max_key().0] };
    let mut c = Two { here: ParallelCounter::new(KeyCounter::new(here.iter().map(|k| Short(*k)).collect())), there: there_c };
    must(all.iter().all(|k| c.here.min_key <= Short(*k) && Short(*k) <= c.here.max_key), "the smallest and the largest key are those of all processes");
    must(all.iter().any(|k| c.here.min_key == Short(*k)) && all.iter().any(|k| c.here.max_key == Short(*k)), "and are keys of particles");
    let d = Decomposition::new(&mut c, 2);
    let mut single = KeyCounter::new(all.iter().map(|k| Short(*k)).collect());
    let e = Decomposition::new(&mut single, 2);
    must(d.cuts == e.cuts, "the parts do not depend on how the particles were spread");
    must(d.loads == e.loads, "nor do the loads");
}
/// shares are even, however close to each other the particles are
#[no_mangle]
pub extern "C" fn c25_clustered() {
    let ranks = 2 + pick(2);
    let shift = [0, 30, 60][pick(3)];
    let far = pick(2) == 1;
    let mut small: Vec<u64> = (0..5).map(|i| (1000 + i * 16) << (shift / 2)).collect();
    let mut keys: Vec<u128> = (0..5).map(|i| (1000 + i * 16) << shift).collect();
    small.push(if far { u64::MAX - 100 } else { 0 });
    keys.push(if far { (1 << 126) - 100 } else { 0 });
    let mut c = KeyCounter::new(small.iter().map(|k| PeanoKey2d(*k)).collect());
    let d = Decomposition::new(&mut c, ranks);
    let mut load = vec![0; ranks];
    for k in small.iter() {
        load[d.get_owning_rank(PeanoKey2d(*k)) as usize] += 1;
    }
    balanced(&load, 6);
    let mut c = KeyCounter::new(keys.iter().map(|k| PeanoKey3d(*k)).collect());
    let d = Decomposition::new(&mut c, ranks);
    let mut load = vec![0; ranks];
    for k in keys.iter() {
        load[d.get_owning_rank(PeanoKey3d(*k)) as usize] += 1;
    }
    balanced(&load, 6);
}
