use super::*;
use crate::vp_api::*;

/// Every entry of every rank is written to exactly one place; the files are filled without gaps.
fn output<const NR: usize>(max_files: usize, max_entries: usize) {
    let counts: [usize; NR] = std::array::from_fn(|_| any(0, max_entries));
    let num_files = conc(any(1, max_files));
    let total: usize = counts.iter().sum();
    let mut file = 0;
    let mut pos = 0;
    let mut seen = 0;
    let mut sizes = vec![0; num_files];
    for r in 0..NR {
        let a = get_rank_output_assignment_for_rank(&counts, num_files, r as i32);
        let mut mine = 0;
        for region in a.regions.iter() {
            must(region.start < region.end, "regions are not empty");
            must(region.file_index < num_files, "only the desired files are written");
            let f = conc(region.file_index);
            if f != file {
                must(f > file, "files are filled in order");
                file = f;
                pos = 0;
            }
            must(region.start == pos, "regions continue where the previous one ended");
            mine += region.end - region.start;
            pos = region.end;
            sizes[f] = pos;
        }
        must(mine == counts[r], "a rank writes all of its entries");
        seen += mine;
    }
    must(seen == total, "all entries are written");
    if total >= num_files {
        for s in sizes.iter() {
            must(*s > 0, "no file stays empty if there is enough data");
        }
    }
    cover(total > 3 && num_files == max_files, "several entries, all files");
    cover(total > 0 && total < num_files, "fewer entries than files");
    cover(NR < 2 || (counts[0] == 0 && total > 2), "an empty rank");
}
#[no_mangle]
pub extern "C" fn c02_output_1() {
    output::<1>(6, 1000000);
}
#[no_mangle]
pub extern "C" fn c02_output_2() {
    output::<2>(4, 100000);
}
#[no_mangle]
pub extern "C" fn c02_output_3() {
    output::<3>(3, 1000);
}
