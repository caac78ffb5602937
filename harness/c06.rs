use super::*;
use crate::vp_api::*;
use mpi::model;

const N: usize = 4;
static mut VALUES: [u64; N] = [0; N];
static mut LENS: [usize; N] = [0; N];
static mut VAR: [[u64; 3]; N] = [[0; 3]; N];
static mut MODE: usize = 0;
fn gather(r: i32, own: *const u8, size: usize, dst: *mut u8) {
    unsafe {
        if size == 8 {
            *(dst as *mut u64) = if MODE == 0 { VALUES[r as usize] } else { LENS[r as usize] as u64 };
        } else {
            core::ptr::copy_nonoverlapping(own, dst, size);
        }
    }
}
fn gather_var(r: i32, i: usize, _size: usize, dst: *mut u8) {
    unsafe { *(dst as *mut u64) = VAR[r as usize][i] }
}
fn start(lo: usize, hi: usize) -> (usize, usize) {
    let size = 1 + pick(N);
    let rank = pick(size);
    model::reset(size as i32, rank as i32);
    model::world().gather = Some(gather);
    model::world().gather_var = Some(gather_var);
    unsafe {
        MODE = 0;
        VALUES = std::array::from_fn(|_| any(lo, hi) as u64);
    }
    (size, rank)
}
fn val(i: usize) -> u64 {
    unsafe { VALUES[i] }
}

#[no_mangle]
pub extern "C" fn c06_gather() {
    let (size, rank) = start(0, 1 << 62);
    let mut w = MpiWorld::<u64>::new();
    must(w.size() == size && w.rank() == rank as i32, "size and rank");
    let all = w.all_gather(&val(rank));
    must(all.len() == size, "one value per rank");
    for r in 0..size {
        must(all[r] == val(r), "values are in rank order");
    }
    cover(size == N, "four ranks");
}
#[no_mangle]
pub extern "C" fn c06_reduce() {
    let (size, rank) = start(0, 1 << 32);
    let mut w = MpiWorld::<u64>::new();
    let s: u64 = w.all_gather_sum(&val(rank));
    let min: Option<u64> = w.all_gather_min(&val(rank));
    let max: Option<u64> = w.all_gather_max(&val(rank));
    let mut sum = 0;
    let mut lo = u64::MAX;
    let mut hi = 0;
    for r in 0..size {
        sum += val(r);
        lo = lo.min(val(r));
        hi = hi.max(val(r));
    }
    must(s == sum, "the sum is that over all ranks");
    must(min == Some(lo), "the minimum is that over all ranks");
    must(max == Some(hi), "the maximum is that over all ranks");
    cover(size == N && lo < hi, "four ranks");
}
#[no_mangle]
pub extern "C" fn c06_same() {
    let (size, rank) = start(0, 10);
    let mut w = MpiWorld::<u64>::new();
    let same = w.all_ranks_have_same_value(&val(rank));
    let mut all = true;
    for r in 0..size {
        all &= val(r) == val(rank);
    }
    must(same == all, "agreement is reported exactly if all ranks have the same value");
    cover(size == N && same, "agreement");
    cover(size == N && !same && val(0) == val(1) && rank == 0, "disagreement");
}
#[no_mangle]
pub extern "C" fn c06_varcount() {
    let (size, rank) = start(0, 0);
    assume(size <= 3);
    unsafe {
        MODE = 1;
        for r in 0..size {
            LENS[r] = pick(3);
            for i in 0..3 {
                VAR[r][i] = any_u64();
            }
        }
        let mut w = MpiWorld::<u64>::new();
        let send: Vec<u64> = VAR[rank][..LENS[rank]].to_vec();
        let got = w.all_gather_varcount(&send);
        let mut k = 0;
        for r in 0..size {
            for i in 0..LENS[r] {
                must(k < got.len() && got[k] == VAR[r][i], "all elements of all ranks, in rank order");
                k += 1;
            }
        }
        must(k == got.len(), "nothing else");
        cover(size == 3 && LENS[0] == 0 && LENS[1] == 2 && LENS[2] == 1, "different counts");
    }
}
/// tags that MPI accepts
#[no_mangle]
pub extern "C" fn c06_tag() {
    let size = 2;
    model::reset(size, 0);
    unsafe { HASH = Some(any_u64()) };
    let mut w = MpiWorld::<u64>::new();
    w.blocking_send_vec(1, &[1, 2]);
    let s = &model::world().sent[0];
    must(s.dest == 1 && s.len == 2 && s.complete, "the message goes to the rank that was named");
    must(s.tag >= 0 && s.tag <= 32767, "the tag is one that every MPI accepts");
    let data = [3u64, any_u64()];
    model::deliver(1, &data, pick(2) == 1);
    let arrived = model::world().inbound[0].arrived;
    match w.try_receive_vec(1) {
        Some(v) => must(arrived && v.len() == 2 && v[0] == 3 && v[1] == data[1], "a message that arrived is received"),
        None => {
            must(!arrived, "a message that arrived is found");
            let v = w.receive_vec(1);
            must(v.len() == 2 && v[1] == data[1], "receiving waits for the message");
        }
    }
    must(w.try_receive_vec(1).is_none(), "nothing more");
    must(model::tags_agree(), "messages are received under the tag they are sent with");
    let mut w = MpiWorld::<u64>::new_custom_tag(12);
    w.blocking_send_vec(1, &[1, 2]);
    must(model::world().sent[1].tag == 12, "a tag that was asked for is used");
    unsafe { HASH = None };
}

/// the hash of a type's name, if it is to be any number
pub static mut HASH: Option<u64> = None;
