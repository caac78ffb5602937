use super::*;
use crate::vp_api::*;

/// Every entry of every file is read by exactly one rank, in file order.
fn input<const NF: usize>(max_ranks: usize, max_entries: usize) {
    let files: [usize; NF] = std::array::from_fn(|_| any(0, max_entries));
    let num_ranks = conc(any(1, max_ranks));
    let total: usize = files.iter().sum();
    let mut file = 0;
    let mut pos = 0;
    let mut seen = 0;
    let mut smallest = usize::MAX;
    let mut largest = 0;
    for r in 0..num_ranks {
        let a = get_rank_input_assignment_for_rank(&files, num_ranks, r as i32);
        let mut mine = 0;
        for region in a.regions.iter() {
            while file < NF && pos == files[file] {
                file += 1;
                pos = 0;
            }
            must(file < NF, "no rank reads past the last file");
            must(region.start < region.end, "regions are not empty");
            must(region.file_index == file && region.start == pos, "regions continue where the previous one ended");
            must(region.end <= files[file], "regions end inside their file");
            mine += region.end - region.start;
            pos = region.end;
        }
        seen += mine;
        smallest = smallest.min(mine);
        largest = largest.max(mine);
    }
    must(seen == total, "all entries are read");
    cover(total > 3 && num_ranks == max_ranks, "several entries, all ranks");
    cover(total < num_ranks, "fewer entries than ranks");
}

#[no_mangle]
pub extern "C" fn c01_input_1() {
    input::<1>(8, 1000000);
}
#[no_mangle]
pub extern "C" fn c01_input_2() {
    input::<2>(4, 100000);
}
#[no_mangle]
pub extern "C" fn c01_input_3() {
    input::<3>(4, 1000);
}
