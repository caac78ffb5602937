use super::*;
use crate::vp_api::*;
use mpi::model;

const N: usize = 4;
const L: usize = 2;

struct Log {
    dest: i32,
    len: usize,
    data: [u64; L],
}
static mut LOG: Vec<Log> = Vec::new();
fn log() -> &'static mut Vec<Log> {
    unsafe { &mut *core::ptr::addr_of_mut!(LOG) }
}
/// what MPI reads from the buffer when the message really leaves
fn leave(id: usize) {
    let s = &model::world().sent[id];
    if s.complete {
        return;
    }
    // large messages only leave when the other process receives, which may be waiting for us in turn
    must(model::world().inbound.iter().all(|m| m.source != s.dest || m.taken), "no process waits for its messages to leave before it receives");
    let mut data = [0; L];
    let p = s.ptr as *const u64;
    for i in 0..s.len {
        data[i] = unsafe { *p.add(i) };
    }
    log().push(Log { dest: s.dest, len: s.len, data });
}
fn on_send(id: usize) {
    let s = &model::world().sent[id];
    if s.complete {
        let mut data = [0; L];
        let p = s.ptr as *const u64;
        for i in 0..s.len {
            data[i] = unsafe { *p.add(i) };
        }
        log().push(Log { dest: s.dest, len: s.len, data });
    }
}

fn start(max: usize) -> (usize, i32) {
    let size = 1 + pick(max);
    let rank = pick(size) as i32;
    model::reset(size as i32, rank);
    unsafe { LOG = Vec::new() };
    model::world().on_wait = Some(leave);
    model::world().on_send = Some(on_send);
    (size, rank)
}

fn some(n: usize) -> Vec<u64> {
    (0..n).map(|_| any_u64()).collect()
}

/// one message to every other rank, with the data meant for it
fn check_sent(size: usize, rank: i32, want: &[Vec<u64>]) {
    let mut seen = [false; N];
    for m in log().iter() {
        let d = m.dest as usize;
        must(m.dest != rank && m.dest >= 0 && d < size, "messages go to other ranks");
        must(!seen[d], "one message per rank");
        seen[d] = true;
        must(m.len == want[d].len(), "all of the data is sent");
        for i in 0..m.len.min(want[d].len()) {
            must(m.data[i] == want[d][i], "the data is sent unchanged");
        }
    }
    for r in 0..size {
        must(r as i32 == rank || seen[r], "every other rank gets a message");
    }
    for s in model::world().sent.iter() {
        must(s.complete, "all sends are complete in the end");
    }
    *log() = Vec::new();
}

fn check_received(size: usize, rank: i32, got: &DataByRank<Vec<u64>>, want: &[Vec<u64>]) {
    let mut n = 0;
    for (r, d) in got.iter() {
        must(r != rank, "nothing is received from this rank itself");
        let w = &want[r as usize];
        must(d.len() == w.len(), "all data of that rank is received");
        for i in 0..d.len().min(w.len()) {
            must(d[i] == w[i], "the data of that rank is received unchanged");
        }
        n += 1;
    }
    must(n == size - 1, "every other rank is heard");
}

fn round(c: &mut ExchangeCommunicator<u64>, size: usize, rank: i32, kind: usize, lmax: usize, lin: usize) {
    let inbound: Vec<Vec<u64>> = (0..size).map(|r| if r as i32 == rank { vec![] } else { some(pick(lin)) }).collect();
    for r in 0..size {
        if r as i32 != rank {
            model::deliver(r as i32, &inbound[r], true);
        }
    }
    let mut outbound: Vec<Vec<u64>> = vec![vec![]; size];
    let got;
    match kind {
        0 => {
            let mut d: DataByRank<Vec<u64>> = DataByRank::empty();
            let mut longest = 0;
            for r in 0..size {
                if r as i32 != rank {
                    let k = pick(lmax);
                    if k > 0 {
                        let v = some(k - 1);
                        outbound[r] = v.clone();
                        d.insert(r as i32, v);
                        longest = longest.max(k - 1);
                    }
                }
            }
            cover(longest > 0, "data is sent");
            got = c.exchange_all(d);
        }
        1 => {
            let v = some(pick(L + 1));
            for r in 0..size {
                if r as i32 != rank {
                    outbound[r] = v.clone();
                }
            }
            got = c.exchange_same_for_all(&v);
        }
        _ => {
            for r in 0..size {
                if r as i32 != rank && pick(2) == 1 {
                    let v = some(1);
                    outbound[r] = v.clone();
                    c.blocking_send_vec(r as i32, v);
                }
            }
            got = c.receive_vec();
        }
    }
    check_sent(size, rank, &outbound);
    check_received(size, rank, &got, &inbound);
    for m in model::world().inbound.iter() {
        must(m.taken, "no message is left over");
    }
    must(model::tags_agree(), "messages are received under the tag they are sent with");
}

#[no_mangle]
pub extern "C" fn c04_all() {
    let (size, rank) = start(3);
    let mut c = ExchangeCommunicator::<u64>::new();
    round(&mut c, size, rank, 0, L + 2, L + 1);
}
#[no_mangle]
pub extern "C" fn c04_all_4() {
    let (size, rank) = start(4);
    assume(size == 4);
    let mut c = ExchangeCommunicator::<u64>::new();
    round(&mut c, size, rank, 0, 3, 2);
}
#[no_mangle]
pub extern "C" fn c04_same() {
    let (size, rank) = start(4);
    let mut c = ExchangeCommunicator::<u64>::new();
    round(&mut c, size, rank, 1, L + 2, L);
    cover(size == 4, "four ranks");
}
#[no_mangle]
pub extern "C" fn c04_blocking() {
    let (size, rank) = start(4);
    let mut c: ExchangeCommunicator<u64> = Communicator::new().into();
    must(c.size() == size && c.rank() == rank, "size and rank");
    round(&mut c, size, rank, 2, 0, L);
    cover(size == 4, "four ranks");
}
/// a communicator can be used again and again
#[no_mangle]
pub extern "C" fn c04_rounds() {
    let (size, rank) = start(3);
    assume(size > 1);
    let mut c = ExchangeCommunicator::<u64>::new();
    for _ in 0..2 {
        let kind = pick(3);
        round(&mut c, size, rank, kind, 3, 2);
    }
}
