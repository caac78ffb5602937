use super::*;
use crate::vp_api::*;

fn list(m: usize, levels: usize, rank: i32) -> (ActiveList<u64>, Vec<u64>, usize) {
    let k = pick(levels);
    let vals: Vec<u64> = (0..m).map(|_| any_u64()).collect();
    // the map is filled in some order
    let shift = pick(m);
    let map: HashMap<ParticleId, u64> = (0..m).map(|i| (i + shift) % m).map(|i| (ParticleId { index: i as u32, rank }, vals[i])).collect();
    (ActiveList::new(map, levels, TimestepLevel(k)), vals, k)
}

fn check(l: &ActiveList<u64>, vals: &[u64], lev: &[usize], levels: usize, rank: i32) {
    let m = vals.len();
    for c in 0..levels {
        let mut seen = vec![0; m];
        for (id, v) in l.enumerate_active(TimestepLevel(c)) {
            must(id.rank == rank && (id.index as usize) < m, "the cell exists");
            let i = id.index as usize;
            must(*v == vals[i], "every cell comes with its own data");
            seen[i] += 1;
        }
        for i in 0..m {
            must(seen[i] == (lev[i] >= c) as usize, "the active cells are those whose level is not below the current one, each once");
        }
    }
    let mut n = 0;
    for (id, level, v) in l.enumerate_with_levels() {
        must(id.index as usize == n && id.rank == rank, "all cells are listed in order");
        must(level.0 == lev[n], "with their level");
        must(*v == vals[n], "and their data");
        n += 1;
    }
    must(n == m, "no cell is missing");
    let mut n = 0;
    for v in l.iter() {
        must(*v == vals[n], "the data of all cells in order");
        n += 1;
    }
    must(n == m, "no data is missing");
    for i in 0..m {
        let id = ParticleId { index: i as u32, rank };
        must(*l.get(id) == vals[i], "the data of a cell");
        must(l.get_level(id).0 == lev[i], "the level of a cell");
    }
}

fn run(ops: usize) {
    let m = 1 + pick(3);
    let levels = 1 + pick(3);
    let rank = pick(2) as i32;
    let (mut l, mut vals, k) = list(m, levels, rank);
    let mut lev = vec![k; m];
    check(&l, &vals, &lev, levels, rank);
    for _ in 0..ops {
        let i = pick(m);
        let id = ParticleId { index: i as u32, rank };
        match pick(5) {
            0 => {
                let n = pick(levels);
                l.set_level(id, TimestepLevel(n));
                lev[i] = n;
            }
            1 => {
                let mut at = 0;
                for (id, level, v) in l.enumerate_with_levels_mut() {
                    must(id.index as usize == at && id.rank == rank && *v == vals[at], "levels are changed cell by cell");
                    if at >= i {
                        level.0 = levels - 1 - level.0;
                        lev[at] = level.0;
                    }
                    at += 1;
                }
                must(at == m, "the level of every cell can be changed");
            }
            2 => {
                let x = any_u64();
                *l.get_mut(id) = x;
                vals[i] = x;
            }
            3 => {
                let c = pick(levels);
                let (v, active) = l.get_mut_and_active_state(id, TimestepLevel(c));
                must(*v == vals[i], "the cell that was asked for");
                must(active == (lev[i] >= c), "active exactly if its level is not below the current one");
                let (level, v) = l.get_mut_with_level(id);
                must(*v == vals[i] && level.0 == lev[i], "the cell with its level");
            }
            _ => {
                let x = any_u64();
                for v in l.iter_mut() {
                    *v ^= x;
                }
                for v in vals.iter_mut() {
                    *v ^= x;
                }
            }
        }
    }
    l.update_bins();
    check(&l, &vals, &lev, levels, rank);
    cover(m == 3 && lev[0] != lev[1], "cells at different levels");
}

#[no_mangle]
pub extern "C" fn c15_list() {
    run(1);
}
#[no_mangle]
pub extern "C" fn c15_list_deep() {
    run(2);
}
/// the cells of another rank, or with a gap, are refused
#[no_mangle]
pub extern "C" fn c15_refused() {
    let mut map: HashMap<ParticleId, u64> = Default::default();
    let a = (pick(3) as u32, pick(2) as i32);
    let b = (pick(3) as u32, pick(2) as i32);
    assume(a != b);
    map.insert(ParticleId { index: a.0, rank: a.1 }, 1);
    map.insert(ParticleId { index: b.0, rank: b.1 }, 2);
    let fine = a.1 == b.1 && a.0 + b.0 == 1;
    panic_ok(!fine);
    let _l = ActiveList::new(map, 2, TimestepLevel(0));
    must(fine, "cells that are not numbered without gaps on one rank are refused");
    cover(fine, "fine");
}
/// the list does not give out active cells by levels that are no longer theirs
#[no_mangle]
pub extern "C" fn c15_stale() {
    let m = 1 + pick(3);
    let (mut l, _, k) = list(m, 3, 0);
    let i = pick(m);
    let n = pick(3);
    if pick(2) == 0 {
        l.set_level(ParticleId { index: i as u32, rank: 0 }, TimestepLevel(n));
    } else {
        for (id, level, _) in l.enumerate_with_levels_mut() {
            if id.index as usize == i {
                level.0 = n;
            }
        }
    }
    let c = pick(3);
    panic_ok(true);
    let mut seen = vec![0; m];
    for (id, _) in l.enumerate_active(TimestepLevel(c)) {
        seen[id.index as usize] += 1;
    }
    panic_ok(false);
    for j in 0..m {
        let level = if j == i { n } else { k };
        must(seen[j] == (level >= c) as usize, "active cells are given out by the levels they have now, or not at all");
    }
}
