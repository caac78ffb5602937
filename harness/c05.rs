use super::*;
use crate::vp_api::*;
use mpi::model;

const N: usize = 3;
static mut OTHER: [usize; N] = [0; N];
fn gather(r: i32, own: *const u8, size: usize, dst: *mut u8) {
    unsafe {
        if size == 8 {
            *(dst as *mut usize) = OTHER[r as usize];
        } else {
            core::ptr::copy_nonoverlapping(own, dst, size);
        }
    }
}

/// All ranks go through the same number of chunks, and each rank's chunks are its data in order.
fn chunks(max_items: usize, max_chunk: usize, max_chunks: usize) {
    let chunk = any(1, max_chunk);
    let counts: [usize; N] = std::array::from_fn(|_| any(0, max_items));
    let mut global = 0;
    for r in 0..N {
        // ceiling of the quotient, said without a division
        let k = any(0, max_chunks);
        assume(k * chunk >= counts[r] && (k == 0 || (k - 1) * chunk < counts[r]));
        unsafe { OTHER[r] = k };
        global = global.max(k);
    }
    let global = conc(global);
    model::reset(N as i32, 0);
    model::world().gather = Some(gather);
    let items: Vec<()> = vec![(); counts[0]];
    let mut n = 0;
    let mut seen = 0;
    for c in divide_into_chunks_with_same_num_globally(&items, chunk) {
        must(n < global, "not more chunks than the rank with the most data needs");
        must(c.len() <= chunk, "no chunk is larger than the chunk size");
        must(c.len() == chunk || seen + c.len() == counts[0], "only the end of the data leaves a chunk unfilled");
        seen += c.len();
        n += 1;
    }
    must(n == global, "as many chunks as the rank with the most data needs");
    must(seen == counts[0], "all of the data is in a chunk");
    cover(counts[0] == 0 && n == max_chunks, "rank without data");
    cover(counts[0] == max_chunks * chunk && n == max_chunks && chunk > 1, "data fills the last chunk");
}
#[no_mangle]
pub extern "C" fn c05_small() {
    chunks(6, 3, 3);
}
#[no_mangle]
pub extern "C" fn c05_large() {
    chunks(4000000, 1000000, 4);
}
/// the values are the items, in order
#[no_mangle]
pub extern "C" fn c05_values() {
    let chunk = 1 + pick(4);
    let n = pick(6);
    let items: Vec<u64> = (0..n).map(|_| any_u64()).collect();
    let other = pick(5);
    unsafe { OTHER = [(n + chunk - 1) / chunk, other, 0] };
    model::reset(2, 0);
    model::world().gather = Some(gather);
    let mut i = 0;
    let mut k = 0;
    for c in divide_into_chunks_with_same_num_globally(&items, chunk) {
        for x in c.iter() {
            must(i < n && *x == items[i], "chunks are the items in order");
            i += 1;
        }
        k += 1;
    }
    must(i == n, "all items");
    must(k == ((n + chunk - 1) / chunk).max(other), "number of chunks");
}
