//! State of the modelled world, set up and read by the harnesses.
use crate::collective::SystemOperation;
use crate::traits::Equivalence;
use crate::Rank;
use crate::Tag;

#[derive(Clone, Debug)]
pub struct Sent {
    pub dest: Rank,
    pub tag: Tag,
    /// number of elements
    pub len: usize,
    /// the send buffer, which MPI may read until the request is complete
    pub ptr: *const u8,
    pub elem_size: usize,
    pub complete: bool,
}

pub struct Inbound {
    pub source: Rank,
    /// number of elements
    pub len: usize,
    pub ptr: *const u8,
    /// the message has arrived: a probe may find it
    pub arrived: bool,
    pub taken: bool,
}

pub struct World {
    pub size: Rank,
    pub rank: Rank,
    pub sent: Vec<Sent>,
    pub inbound: Vec<Inbound>,
    pub num_collectives: usize,
    /// how often this process waited for all others
    pub barriers: usize,
    /// the tags that messages were waited for under
    pub probes: Vec<Tag>,
    /// fills in the contribution of another rank to a gather: (rank, size of element, destination)
    pub gather: Option<fn(Rank, *const u8, usize, *mut u8)>,
    pub gather_var: Option<fn(Rank, usize, usize, *mut u8)>,
    pub reduce: Option<fn(*const u8, usize, *mut u8, SystemOperation)>,
    /// asked when a request that is not known to be complete is tested
    pub test: Option<fn(usize) -> bool>,
    /// called when a request is waited for
    pub on_wait: Option<fn(usize)>,
    /// called on every send
    pub on_send: Option<fn(usize)>,
    /// asked whether a message is there when it is probed for
    pub on_probe: Option<fn(usize) -> bool>,
}

pub static mut WORLD: World = World {
    size: 1,
    rank: 0,
    sent: Vec::new(),
    inbound: Vec::new(),
    num_collectives: 0,
    barriers: 0,
    probes: Vec::new(),
    gather: None,
    gather_var: None,
    reduce: None,
    test: None,
    on_wait: None,
    on_send: None,
    on_probe: None,
};

pub fn world() -> &'static mut World {
    unsafe { &mut *core::ptr::addr_of_mut!(WORLD) }
}

pub fn reset(size: Rank, rank: Rank) {
    let w = world();
    w.size = size;
    w.rank = rank;
    w.sent = Vec::new();
    w.inbound = Vec::new();
    w.num_collectives = 0;
    w.barriers = 0;
    w.probes = Vec::new();
    w.gather = None;
    w.gather_var = None;
    w.reduce = None;
    w.test = None;
    w.on_wait = None;
    w.on_send = None;
    w.on_probe = None;
}

pub fn rank() -> Rank {
    world().rank
}

pub fn size() -> Rank {
    world().size
}

pub fn collective_started() {
    world().num_collectives += 1;
}

pub unsafe fn gathered<T: Equivalence>(r: Rank, own: &T, dst: *mut T) {
    match world().gather {
        Some(f) => f(r, own as *const T as *const u8, core::mem::size_of::<T>(), dst as *mut u8),
        // all ranks contribute the same
        None => core::ptr::copy_nonoverlapping(own as *const T, dst, 1),
    }
}

pub unsafe fn gathered_var<T: Equivalence>(r: Rank, i: usize, dst: *mut T) {
    let f = world().gather_var.expect("no model of MPI_Allgatherv set up");
    f(r, i, core::mem::size_of::<T>(), dst as *mut u8)
}

pub unsafe fn reduced<T: Equivalence>(send: &T, recv: &mut T, op: SystemOperation) {
    match world().reduce {
        Some(f) => f(
            send as *const T as *const u8,
            core::mem::size_of::<T>(),
            recv as *mut T as *mut u8,
            op,
        ),
        None => core::ptr::copy_nonoverlapping(send as *const T, recv as *mut T, 1),
    }
}

pub fn sent<T: Equivalence>(dest: Rank, tag: Tag, data: &[T], complete: bool) -> usize {
    let w = world();
    let id = w.sent.len();
    w.sent.push(Sent {
        dest,
        tag,
        len: data.len(),
        ptr: data.as_ptr() as *const u8,
        elem_size: core::mem::size_of::<T>(),
        complete,
    });
    if let Some(f) = w.on_send {
        f(id);
    }
    id
}

pub fn wait(id: usize) {
    let w = world();
    if let Some(f) = w.on_wait {
        f(id);
    }
    w.sent[id].complete = true;
}

pub fn test(id: usize) -> bool {
    let w = world();
    if w.sent[id].complete {
        return true;
    }
    let c = match w.test {
        Some(f) => f(id),
        None => true,
    };
    w.sent[id].complete = c;
    c
}

/// Adds a message of another rank; the memory behind `data` has to stay alive.
pub fn deliver<T: Equivalence>(source: Rank, data: &[T], arrived: bool) {
    world().inbound.push(Inbound {
        source,
        len: data.len(),
        ptr: data.as_ptr() as *const u8,
        arrived,
        taken: false,
    });
}

/// MPI does not let messages overtake each other: the first one of that source that was not taken.
fn first(source: Rank) -> Option<usize> {
    let w = world();
    let mut i = 0;
    while i < w.inbound.len() {
        if w.inbound[i].source == source && !w.inbound[i].taken {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn probe_blocking(source: Rank, tag: Tag) -> usize {
    world().probes.push(tag);
    match first(source) {
        Some(i) => {
            world().inbound[i].taken = true;
            i
        }
        None => panic!("deadlock: blocking receive of a message that nobody sends"),
    }
}

pub fn probe_nonblocking(source: Rank, tag: Tag) -> Option<usize> {
    world().probes.push(tag);
    match first(source) {
        Some(i) if world().inbound[i].arrived && world().on_probe.map_or(true, |f| f(i)) => {
            world().inbound[i].taken = true;
            Some(i)
        }
        _ => None,
    }
}

pub fn take<T: Equivalence>(id: usize) -> Vec<T> {
    let m = &world().inbound[id];
    let mut v = Vec::with_capacity(m.len);
    let p = m.ptr as *const T;
    let mut i = 0;
    while i < m.len {
        v.push(unsafe { core::ptr::read(p.add(i)) });
        i += 1;
    }
    v
}

/// All processes run the same code: what is sent under one tag has to be waited for under the same one.
pub fn tags_agree() -> bool {
    let w = world();
    let mut tag = None;
    let mut ok = true;
    for s in w.sent.iter() {
        ok &= *tag.get_or_insert(s.tag) == s.tag;
    }
    for p in w.probes.iter() {
        ok &= *tag.get_or_insert(*p) == *p;
    }
    ok
}
