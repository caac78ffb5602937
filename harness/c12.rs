use super::*;
use crate::vp_api::*;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(Index);
impl From<Index> for Id {
    fn from(i: Index) -> Self {
        Id(i)
    }
}
impl From<Id> for Index {
    fn from(i: Id) -> Self {
        i.0
    }
}
const MAX: usize = 4;

/// An arena is a map: what was inserted under an id is there until it is removed, ids are never reused.
fn arena(n: usize) {
    let mut a: IndexedArena<Id, u64> = IndexedArena::default();
    if pick(2) == 1 {
        a.reserve(3);
    }
    let mut ids: Vec<(Id, Option<u64>)> = vec![];
    for _ in 0..n {
        match pick(3) {
            0 => {
                let v = any_u64();
                let id = a.insert(v);
                for (o, _) in ids.iter() {
                    must(*o != id, "ids are new");
                }
                ids.push((id, Some(v)));
            }
            1 => {
                if !ids.is_empty() {
                    let k = pick(ids.len());
                    let r = a.remove(ids[k].0);
                    must(r == ids[k].1, "removing returns what was there");
                    ids[k].1 = None;
                }
            }
            _ => {
                if !ids.is_empty() {
                    let k = pick(ids.len());
                    if ids[k].1.is_some() {
                        let v = any_u64();
                        must(Some(a[ids[k].0]) == ids[k].1, "indexing finds what was inserted");
                        a[ids[k].0] = v;
                        ids[k].1 = Some(v);
                    }
                }
            }
        }
        let mut live = 0;
        for (id, v) in ids.iter() {
            must(a.get(*id).copied() == *v, "an id finds what was inserted under it, until it is removed");
            must(a.contains(*id) == v.is_some(), "contains agrees");
            live += v.is_some() as usize;
        }
        must(a.len() == live, "the length is the number of elements");
        let mut seen = 0;
        for (id, v) in a.iter() {
            must(ids.iter().any(|(i, x)| *i == id && *x == Some(*v)), "iteration visits elements under their ids");
            seen += 1;
        }
        must(seen == live, "iteration visits all elements");
    }
    let c = a.clone();
    let mut k = 0;
    let want: Vec<u64> = c.iter().map(|(_, v)| *v).collect();
    for v in a.into_iter() {
        must(k < want.len() && v == want[k], "taking the elements out yields all of them");
        k += 1;
    }
    must(k == want.len(), "taking the elements out yields all of them");
}
#[no_mangle]
pub extern "C" fn c12_arena() {
    arena(MAX);
}
#[no_mangle]
pub extern "C" fn c12_arena_deep() {
    arena(MAX + 1);
}
#[no_mangle]
pub extern "C" fn c12_vec() {
    let mut a: IndexedVec<usize, u64> = IndexedVec::default();
    if pick(2) == 1 {
        a.reserve(2);
    }
    let n = pick(4);
    let mut want = vec![];
    for i in 0..n {
        let v = any_u64();
        must(a.insert(v) == i, "ids count up");
        want.push(v);
        for k in 0..=i {
            must(a[k] == want[k], "an id finds what was inserted under it");
        }
    }
    if n > 0 {
        let k = pick(n);
        let v = any_u64();
        a[k] = v;
        want[k] = v;
    }
    let mut i = 0;
    for (id, v) in a.iter() {
        must(id == i && *v == want[i], "iteration visits elements under their ids");
        i += 1;
    }
    must(i == n, "iteration visits all elements");
    let mut i = 0;
    for v in a.into_iter() {
        must(v == want[i], "taking the elements out yields them in order");
        i += 1;
    }
    must(i == n, "taking the elements out yields all of them");
}
