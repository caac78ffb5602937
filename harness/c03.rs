use super::*;
use crate::vp_api::*;

const N: usize = 4;
type Model = [Option<u64>; N];

fn check(x: &DataByRank<u64>, m: &Model, len: usize) {
    for r in 0..len {
        must(x.get(&(r as i32)).copied() == m[r], "get returns what was stored for that rank");
    }
    let mut it = x.iter();
    for r in 0..N {
        if let Some(v) = m[r] {
            let e = it.next();
            must(e.is_some(), "iteration visits every rank with data");
            let (k, d) = e.unwrap();
            must(k == r as i32, "iteration is in rank order and names the right rank");
            must(*d == v, "iteration yields the data of that rank");
        }
    }
    must(it.next().is_none(), "iteration visits nothing else");
}

fn ops(n: usize, size: usize, own: i32) {
    let fill = any_u64();
    let mut x: DataByRank<u64> = DataByRank::from_closure_size_and_rank(|| fill, size, own);
    let mut m: Model = [None; N];
    let mut len = size;
    for r in 0..size {
        if r as i32 != own {
            m[r] = Some(fill);
        }
    }
    check(&x, &m, len);
    for _ in 0..n {
        let r = pick(N);
        match pick(5) {
            0 => {
                let v = any_u64();
                x.insert(r as i32, v);
                m[r] = Some(v);
                len = len.max(r + 1);
            }
            1 => {
                if r < len {
                    must(x.remove(&(r as i32)) == m[r], "remove returns what was stored");
                    m[r] = None;
                }
            }
            2 => {
                if r < len && m[r].is_some() {
                    must(Some(x[r as i32]) == m[r], "indexing returns what was stored");
                    let v = any_u64();
                    x[r as i32] = v;
                    m[r] = Some(v);
                }
            }
            3 => {
                let v = any_u64();
                for (k, d) in x.iter_mut() {
                    must(m[k as usize] == Some(*d), "mutable iteration yields the data of that rank");
                    *d = v;
                    m[k as usize] = Some(v);
                }
            }
            _ => {
                if r < len {
                    if let Some(d) = x.get_mut(&(r as i32)) {
                        must(Some(*d) == m[r], "get_mut returns what was stored");
                        *d = 7;
                        m[r] = Some(7);
                    } else {
                        must(m[r].is_none(), "get_mut finds what was stored");
                    }
                }
            }
        }
        check(&x, &m, len);
    }
    // the ways to take everything out again
    let c = x.clone();
    check(&c, &m, len);
    match pick(2) {
        0 => {
            let got: Vec<(i32, u64)> = x.drain_all().collect();
            let mut i = 0;
            for r in 0..N {
                if let Some(v) = m[r] {
                    must(i < got.len() && got[i] == (r as i32, v), "draining yields each rank's data once");
                    i += 1;
                }
            }
            must(i == got.len(), "draining yields nothing else");
            must(x.iter().next().is_none(), "nothing is left after draining");
        }
        _ => {
            let again: DataByRank<u64> = x.into_iter().collect();
            let mut last = 0;
            for r in 0..N {
                if m[r].is_some() {
                    last = r + 1;
                }
            }
            check(&again, &m, last);
        }
    }
}
#[no_mangle]
pub extern "C" fn c03_from_empty() {
    ops(2, 0, -1);
}
#[no_mangle]
pub extern "C" fn c03_from_size() {
    let size = pick(N + 1);
    let own = if size > 0 { pick(size) as i32 } else { -1 };
    ops(1, size, own);
}
#[no_mangle]
pub extern "C" fn c03_deep() {
    ops(3, 3, 1);
}

#[no_mangle]
pub extern "C" fn c03_construct() {
    struct C(usize, i32);
    impl SizedCommunicator for C {
        fn size(&self) -> usize {
            self.0
        }
        fn rank(&self) -> i32 {
            self.1
        }
    }
    let size = 1 + pick(N);
    let rank = pick(size) as i32;
    let c = C(size, rank);
    let v = any_u64();
    let a: DataByRank<u64> = DataByRank::from_communicator(&c);
    let b: DataByRank<u64> = DataByRank::same_for_other_ranks_in_communicator(v, &c);
    let d: DataByRank<u64> = DataByRank::same_for_all_ranks_in_communicator(v, &c);
    let mut ma: Model = [None; N];
    let mut mb: Model = [None; N];
    let mut md: Model = [None; N];
    for r in 0..size {
        if r as i32 != rank {
            ma[r] = Some(0);
            mb[r] = Some(v);
        }
        md[r] = Some(v);
    }
    check(&a, &ma, size);
    check(&b, &mb, size);
    check(&d, &md, size);
    let all = c.all_ranks();
    let others = c.other_ranks();
    must(all.len() == size && others.len() == size - 1, "number of ranks");
    let mut i = 0;
    for r in 0..size {
        must(all[r] == r as i32, "all ranks in order");
        if r as i32 != rank {
            must(others[i] == r as i32, "other ranks in order, without this one");
            i += 1;
        }
    }
    // number of elements of all ranks together
    let mut w: DataByRank<Vec<u64>> = DataByRank::from_communicator(&c);
    let mut total = 0;
    for (_, l) in w.iter_mut() {
        let n = pick(3);
        *l = vec![v; n];
        total += n;
    }
    must(w.size() == total, "size counts the elements of all ranks");
    cover(size == N && total == 4, "all ranks with data");
    cover(size == 1, "single rank");
}
/// many ranks, inserted forwards, backwards, every other one first, or from the middle
#[no_mangle]
pub extern "C" fn c03_many() {
    let n = [1, 5, 9, 16, 17, 33, 40][pick(7)];
    let order = pick(4);
    let mut x: DataByRank<u64> = DataByRank::empty();
    let mut m: Vec<Option<u64>> = vec![None; n];
    for i in 0..n {
        let r = match order {
            0 => i,
            1 => n - 1 - i,
            2 => if 2 * i < n { 2 * i } else { (2 * i - n) | 1 },
            _ => (i + n / 2) % n,
        };
        let v = any_u64();
        x.insert(r as i32, v);
        m[r] = Some(v);
    }
    for r in 0..n {
        must(x.get(&(r as i32)).copied() == m[r], "get returns what was stored for that rank");
    }
    let mut k = 0;
    for (r, d) in x.iter() {
        while m[k].is_none() {
            k += 1;
        }
        must(r == k as i32, "iteration is in rank order and names the right rank");
        must(Some(*d) == m[k], "iteration yields the data of that rank");
        k += 1;
    }
    let mut y = x.clone();
    let mut k = 0;
    for (r, d) in y.drain_all() {
        must(k < n && r == k as i32 && Some(d) == m[k], "draining yields the data of every rank once, in rank order");
        k += 1;
    }
    must(k == n, "draining yields the data of every rank once, in rank order");
    must(y.iter().next().is_none(), "nothing is left after draining");
    let gone = pick(n);
    must(x.remove(&(gone as i32)) == m[gone], "remove returns what was stored");
    m[gone] = None;
    let mut k = 0;
    for (r, d) in x.into_iter() {
        while m[k].is_none() {
            k += 1;
        }
        must(r == k as i32, "iteration is in rank order and names the right rank");
        must(Some(d) == m[k], "iteration yields the data of that rank");
        k += 1;
    }
    while k < n && m[k].is_none() {
        k += 1;
    }
    must(k == n, "iteration visits every rank with data");
}

/// several hundred ranks
#[no_mangle]
pub extern "C" fn c03_hundreds() {
    let n = 300;
    let v = any_u64();
    let mut x: DataByRank<u64> = (0..n).map(|r| (r as i32, v.wrapping_add(r as u64))).collect();
    for (r, d) in x.iter_mut() {
        *d = d.wrapping_add(r as u64);
    }
    let want = |r: usize| v.wrapping_add(2 * r as u64);
    let mut y = x.clone();
    let mut k = 0;
    for (r, d) in x.iter() {
        must(r == k as i32 && *d == want(k), "iteration visits every rank once, in order");
        k += 1;
    }
    must(k == n, "iteration visits every rank once, in order");
    let mut k = 0;
    for (r, d) in y.drain_all() {
        must(r == k as i32 && d == want(k), "draining yields the data of every rank once, in rank order");
        k += 1;
    }
    must(k == n, "draining yields the data of every rank once, in rank order");
    must(x.remove(&280) == Some(want(280)) && x.get(&280).is_none() && x.get(&281) == Some(&want(281)), "removal affects one rank");
    let mut k = 0;
    for (r, d) in x.into_iter() {
        if k == 280 {
            k += 1;
        }
        must(r == k as i32 && d == want(k), "iteration visits every rank once, in order");
        k += 1;
    }
    must(k == n, "iteration visits every rank once, in order");
}
/// large amounts of data
#[no_mangle]
pub extern "C" fn c03_size() {
    let (a, b, c) = (any(0, 1 << 40), any(0, 1 << 40), any(0, 1 << 40));
    let mut w: DataByRank<Vec<()>> = DataByRank::empty();
    w.insert(3, vec![(); c]);
    w.insert(0, vec![(); a]);
    w.insert(1, vec![(); b]);
    must(w.size() == a + b + c, "size counts the elements of all ranks");
    w.remove(&0);
    must(w.size() == b + c, "size counts the elements of all ranks");
}
