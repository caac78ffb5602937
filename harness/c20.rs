use super::*;
use crate::chemistry::timescale::Timescale;
use crate::particle::ParticleId;
use crate::sweep::grid::Cell;
use crate::sweep::site::Site;
use crate::sweep::DirectionIndex;
use crate::units::*;
use crate::vp_api::*;
use mpi::model;

#[derive(Clone, Debug)]
struct C;
impl Chemistry for C {
    type Photons = PhotonRate;
    type Species = usize;
    fn get_outgoing_rate(&self, _: &Cell, _: &Site<Self>, r: PhotonRate) -> PhotonRate {
        r
    }
    fn update_abundances(&self, _: &mut Site<Self>, _: PhotonRate, t: Time, _: Volume, _: Length) -> Timescale {
        Timescale::temperature(t)
    }
}

/// (destination, what MPI read from the buffer when the message left)
static mut LOG: Vec<(i32, usize)> = Vec::new();
static mut DROPPED: bool = false;

fn leave(k: usize) {
    let s = &model::world().sent[k];
    let p = s.ptr as *const RateData<C>;
    for i in 0..s.len {
        let x = unsafe { (*p.add(i)).dir.0 };
        unsafe { (*core::ptr::addr_of_mut!(LOG)).push((s.dest, x)) };
    }
}
fn on_test(k: usize) -> bool {
    let done = any_bool();
    if done {
        leave(k);
    }
    done
}
fn on_wait(k: usize) {
    if !model::world().sent[k].complete {
        leave(k);
    }
}
fn item(tag: usize) -> RateData<C> {
    RateData { id: ParticleId { index: 1, rank: 0 }, dir: DirectionIndex(tag), rate: PhotonRate::zero(), periodic: false }
}

fn run(size: usize, rounds: usize) {
    let rank = pick(size) as i32;
    model::reset(size as i32, rank);
    unsafe { LOG = Vec::new() };
    model::world().test = Some(on_test);
    model::world().on_wait = Some(on_wait);
    let mut c = SweepCommunicator::<C>::new();
    must(c.size() == size && c.rank() == rank, "size and rank");
    let mut to_send: DataByRank<Vec<RateData<C>>> = DataByRank::from_size_and_rank(size, rank);
    let mut given: Vec<Vec<usize>> = vec![vec![]; size];
    let mut n = 0;
    for _ in 0..rounds {
        for r in 0..size {
            if r as i32 != rank && pick(2) == 1 {
                to_send[r as i32].push(item(n));
                given[r].push(n);
                n += 1;
            }
        }
        c.try_send_all(&mut to_send);
        // what is neither waiting nor on its way has left
        let mut waiting = 0;
        for (_, q) in to_send.iter() {
            waiting += q.len();
        }
        let left = unsafe { (*core::ptr::addr_of!(LOG)).len() };
        must(waiting + c.count_remaining_to_send() + left >= n, "nothing is lost");
        if c.count_remaining_to_send() == 0 {
            must(waiting + left == n, "if nothing remains to be sent, everything has left");
            for s in model::world().sent.iter() {
                must(s.complete, "and every message is complete");
            }
        }
    }
    let mut waiting = vec![vec![]; size];
    for (r, q) in to_send.iter() {
        for x in q.iter() {
            waiting[r as usize].push(x.dir.0);
        }
    }
    for r in 0..size {
        must(r as i32 == rank || c.try_recv(r as i32).is_none(), "nothing is received of a rank that sent nothing");
    }
    must(model::tags_agree(), "messages are received under the tag they are sent with");
    drop(c);
    for s in model::world().sent.iter() {
        must(s.complete, "the memory of a message is not given back before the message has left");
        must(s.len > 0, "no empty messages");
    }
    for r in 0..size {
        let mut got: Vec<usize> = unsafe { (*core::ptr::addr_of!(LOG)).iter().filter(|x| x.0 == r as i32).map(|x| x.1).collect() };
        got.extend(waiting[r].iter().copied());
        must(got == given[r], "every rank gets what was meant for it, once and in order");
    }
    cover(n == rounds * (size - 1), "data for all ranks in all rounds");
}

#[no_mangle]
pub extern "C" fn c20_send() {
    run(3, 2);
}
#[no_mangle]
pub extern "C" fn c20_send_two() {
    run(2, 3);
}
#[no_mangle]
pub extern "C" fn c20_send_deep() {
    run(3, 3);
}
/// messages are received whole, in order, and only when they are there
#[no_mangle]
pub extern "C" fn c20_receive() {
    model::reset(3, 1);
    let mut c = SweepCommunicator::<C>::new();
    let n = [1 + pick(2), pick(3)];
    let a: Vec<RateData<C>> = (0..n[0]).map(item).collect();
    let b: Vec<RateData<C>> = (0..n[1]).map(|i| item(10 + i)).collect();
    let arrived = pick(2) == 1;
    model::deliver(0, &a, true);
    model::deliver(0, &b, arrived);
    must(c.try_recv(2).is_none(), "nothing is received of a rank that sent nothing");
    let x = c.try_recv(0);
    must(x.is_some(), "a message that is there is received");
    let x = x.unwrap();
    must(x.len() == n[0] && x.iter().enumerate().all(|(i, d)| d.dir.0 == i && d.id == item(0).id), "the first message is received first");
    let y = c.try_recv(0);
    must(y.is_some() == arrived, "a message is received when it is there");
    if let Some(y) = y {
        must(y.len() == n[1] && y.iter().enumerate().all(|(i, d)| d.dir.0 == 10 + i), "the second message is received second");
        must(c.try_recv(0).is_none(), "no message is received twice");
    }
}
