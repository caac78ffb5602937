//! One process of a sweep: small grids with local, remote and periodic neighbours, any sources and any state left by
//! earlier sweeps, any arrival of messages.
#![allow(dangerous_implicit_autorefs, static_mut_refs)]
use super::*;
use crate::sweep::grid::Face;
use crate::sweep::grid::PeriodicNeighbour;
use crate::units::Length;
use crate::units::MVec;
use crate::units::VecDimensionless;
use crate::units::PhotonRate;
use crate::vp_api::*;
use mpi::model;

const ME: i32 = 1;
const NAMES: usize = 8;

/// absorbs a fixed part of what comes in, which differs between the cells
#[derive(Clone, Debug)]
struct Absorb;
static mut SOLVED: [usize; NAMES] = [0; NAMES];
static mut UPDATED: [(usize, f64, f64); NAMES] = [(0, 0.0, 0.0); NAMES];
static mut CHANGE: [f64; NAMES] = [1e9; NAMES];
const PART: [f64; NAMES] = [0.5, 0.25, 0.75, 0.5, 0.5, 0.5, 0.5, 0.5];

impl Chemistry for Absorb {
    type Photons = PhotonRate;
    type Species = usize;
    fn get_outgoing_rate(&self, _cell: &Cell, site: &Site<Self>, incoming_rate: PhotonRate) -> PhotonRate {
        unsafe { SOLVED[site.species] += 1 };
        incoming_rate * PART[site.species]
    }
    fn update_abundances(&self, site: &mut Site<Self>, rate: PhotonRate, timestep: Time, _: Volume, _: Length) -> Timescale {
        unsafe {
            let u = &mut UPDATED[site.species];
            u.0 += 1;
            u.1 += timestep.in_seconds();
            u.2 = rate.in_photons_per_second();
            Timescale::temperature(Time::seconds(CHANGE[site.species]))
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Near,
    Periodic,
}
use Kind::*;
/// the cell `a` is upwind of the cell `b` along the axis, behind a face of that area
#[derive(Clone, Copy)]
struct Link(usize, usize, Kind, usize, f64);

/// which rank a cell is on; usually cells up to 3 on rank 1, 4 and 6 on rank 0 and 5 on rank 2
static mut OWNER: [i32; NAMES] = [0; NAMES];
const USUAL: [i32; NAMES] = [1, 1, 1, 1, 0, 2, 0, 2];
fn owner(c: usize) -> i32 {
    unsafe { OWNER[c] }
}
fn id(c: usize) -> ParticleId {
    let rank = owner(c);
    ParticleId { index: (0..c).filter(|i| owner(*i) == rank).count() as u32, rank }
}
fn local(c: usize) -> bool {
    owner(c) == model::rank()
}
fn neighbour(c: usize, k: Kind) -> ParticleType {
    let periodic_wrap_type = Default::default();
    match (local(c), k) {
        (true, Near) => ParticleType::Local(id(c)),
        (false, Near) => ParticleType::Remote(RemoteNeighbour { id: id(c), rank: id(c).rank }),
        (true, Periodic) => ParticleType::LocalPeriodic(PeriodicNeighbour { id: id(c), periodic_wrap_type }),
        (false, Periodic) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour { id: id(c), rank: id(c).rank, periodic_wrap_type }),
    }
}
fn axis(a: usize, sign: f64) -> VecDimensionless {
    let v = match a {
        0 => MVec::new(sign, 0.0, 0.0),
        1 => MVec::new(0.0, sign, 0.0),
        _ => MVec::new(0.0, 0.0, sign),
    };
    v * Dimensionless::dimensionless(1.0)
}
fn comp(v: &VecDimensionless, a: usize) -> f64 {
    let v = *v;
    match a {
        0 => v.x().value(),
        1 => v.y().value(),
        _ => v.z().value(),
    }
}

struct Grid {
    /// the cells of this rank
    cells: Vec<usize>,
    /// and those of others
    remote: Vec<usize>,
    links: Vec<Link>,
    dirs: Vec<VecDimensionless>,
}

fn directions(k: usize) -> Vec<VecDimensionless> {
    let d = |x, y, z| MVec::new(x, y, z) * Dimensionless::dimensionless(1.0);
    match k {
        0 => vec![d(1.0, 0.0, 0.0)],
        1 => vec![d(-1.0, 0.0, 0.0), d(0.0, 1.0, 0.0)],
        2 => vec![d(0.6, 0.8, 0.0), d(0.6, -0.8, 0.0)],
        _ => vec![d(1.0, 0.0, 0.0), d(-0.6, -0.8, 0.0), d(0.0, 0.6, 0.8)],
    }
}

const LOCAL: [(usize, &[Link]); 6] = [
    (1, &[]),
    (2, &[Link(0, 1, Near, 0, 2.0)]),
    (3, &[Link(0, 1, Near, 0, 2.0), Link(1, 2, Near, 0, 3.0)]),
    (3, &[Link(0, 1, Near, 0, 2.0), Link(0, 2, Near, 1, 3.0), Link(1, 2, Near, 1, 1.0)]),
    (3, &[Link(1, 0, Near, 0, 2.0), Link(2, 0, Near, 1, 5.0), Link(2, 1, Near, 1, 1.0)]),
    (3, &[Link(0, 1, Near, 0, 1.0), Link(1, 2, Near, 1, 1.0), Link(0, 2, Near, 0, 4.0)]),
];
const PERIODIC: [(usize, &[Link]); 3] = [
    (1, &[Link(0, 0, Periodic, 0, 1.0)]),
    (3, &[Link(0, 1, Near, 0, 2.0), Link(1, 2, Near, 0, 2.0), Link(2, 0, Periodic, 0, 2.0)]),
    (2, &[Link(0, 1, Near, 0, 2.0), Link(1, 0, Periodic, 0, 2.0), Link(0, 0, Periodic, 1, 3.0), Link(1, 1, Periodic, 1, 3.0)]),
];
const REMOTE: [(usize, &[Link]); 6] = [
    (1, &[Link(4, 0, Near, 0, 2.0), Link(0, 5, Near, 0, 2.0)]),
    (2, &[Link(4, 0, Near, 0, 2.0), Link(0, 1, Near, 0, 2.0), Link(1, 5, Near, 0, 1.0), Link(5, 0, Near, 1, 3.0)]),
    (2, &[Link(0, 4, Near, 0, 1.0), Link(4, 1, Near, 0, 2.0), Link(0, 1, Near, 1, 2.0), Link(1, 5, Near, 1, 2.0)]),
    (2, &[Link(0, 4, Near, 0, 1.0), Link(1, 4, Near, 0, 2.0), Link(1, 5, Near, 1, 3.0)]),
    (2, &[Link(4, 0, Near, 0, 1.0), Link(4, 1, Near, 0, 2.0), Link(5, 1, Near, 1, 3.0), Link(6, 0, Near, 1, 3.0)]),
    (2, &[Link(0, 1, Near, 0, 1.0), Link(1, 4, Near, 0, 2.0), Link(4, 0, Periodic, 0, 2.0), Link(1, 5, Periodic, 1, 1.0)]),
];

impl Grid {
    fn new(links: &[Link], n: usize, dirs: usize, rank: i32, owners: [i32; NAMES]) -> Grid {
        unsafe { OWNER = owners };
        model::reset(3, rank);
        let is = |c: usize| c < n || links.iter().any(|l| l.0 == c || l.1 == c);
        Grid { cells: (0..NAMES).filter(|&c| is(c) && local(c)).collect(), remote: (0..NAMES).filter(|&c| is(c) && !local(c)).collect(), links: links.to_vec(), dirs: directions(dirs) }
    }
    fn cell(&self, c: usize) -> Cell {
        let mut neighbours = vec![];
        for l in self.links.iter() {
            let face = |s| Face { area: FaceArea::square_meters(l.4), normal: axis(l.3, s) };
            if l.0 == c {
                neighbours.push((face(1.0), neighbour(l.1, l.2)));
            }
            if l.1 == c {
                neighbours.push((face(-1.0), neighbour(l.0, l.2)));
            }
        }
        // the rest of the surface is the boundary of the box
        neighbours.push((Face { area: FaceArea::square_meters(1.0), normal: axis(0, 1.0) }, ParticleType::Boundary));
        neighbours.push((Face { area: FaceArea::square_meters(1.5), normal: axis(2, -1.0) }, ParticleType::Boundary));
        Cell { neighbours, size: Length::meters(1.0), volume: Volume::cubic_meters(1.0) }
    }
    /// Some(part of the radiation leaving a) if the link carries radiation in that direction, with the cells in that order
    fn flow(&self, l: &Link, d: usize) -> Option<(usize, usize, f64)> {
        let dot = comp(&self.dirs[d], l.3);
        if dot == 0.0 {
            return None;
        }
        let (a, b) = if dot > 0.0 { (l.0, l.1) } else { (l.1, l.0) };
        let s = if dot > 0.0 { 1.0 } else { -1.0 };
        let mut total = 0.0;
        for k in self.links.iter() {
            let e = comp(&self.dirs[d], k.3);
            if k.0 == a && e > 0.0 || k.1 == a && e < 0.0 {
                total += k.4 * if e > 0.0 { e } else { -e };
            }
            // a cell that is its own periodic neighbour has only one of the two faces downwind
        }
        let x = comp(&self.dirs[d], 0);
        let z = comp(&self.dirs[d], 2);
        if x > 0.0 {
            total += x;
        }
        if z < 0.0 {
            total -= 1.5 * z;
        }
        Some((a, b, l.4 * dot * s / total))
    }
}

struct Msg {
    items: Vec<RateData<Absorb>>,
}
static mut INBOX: Vec<Msg> = Vec::new();
/// message -> what has to be sent before it can be there
static mut NEEDS: Vec<Option<(ParticleId, usize)>> = Vec::new();
static mut LOG: Vec<(i32, RateData<Absorb>)> = Vec::new();
static mut REFUSE: usize = 0;
static mut PENDING: usize = 0;

static mut TOLD: Vec<(i32, ParticleId, usize)> = Vec::new();
fn copy_sent(k: usize) {
    let s = &model::world().sent[k];
    if s.elem_size == core::mem::size_of::<TimestepLevelData>() {
        let p = s.ptr as *const TimestepLevelData;
        for i in 0..s.len {
            let x = unsafe { &*p.add(i) };
            unsafe { TOLD.push((s.dest, x.id, x.level.0)) };
        }
        return;
    }
    let p = s.ptr as *const RateData<Absorb>;
    for i in 0..s.len {
        let x = unsafe { (*p.add(i)).clone() };
        unsafe { (*core::ptr::addr_of_mut!(LOG)).push((s.dest, x)) };
    }
}
fn on_test(k: usize) -> bool {
    unsafe {
        if PENDING > 0 && any_bool() {
            PENDING -= 1;
            return false;
        }
    }
    copy_sent(k);
    true
}
fn on_wait(k: usize) {
    if !model::world().sent[k].complete {
        copy_sent(k);
    }
}
fn was_sent(to: ParticleId, dir: usize) -> bool {
    for s in model::world().sent.iter() {
        if s.complete {
            continue;
        }
        let p = s.ptr as *const RateData<Absorb>;
        for i in 0..s.len {
            let x = unsafe { &*p.add(i) };
            if x.id == to && x.dir.0 == dir {
                return true;
            }
        }
    }
    for (_, x) in unsafe { (*core::ptr::addr_of!(LOG)).iter() } {
        if x.id == to && x.dir.0 == dir {
            return true;
        }
    }
    false
}
fn on_probe(i: usize) -> bool {
    unsafe {
        let m = &(*core::ptr::addr_of!(NEEDS))[i];
        if let Some((to, dir)) = m {
            if !was_sent(*to, *dir) {
                return false;
            }
        }
        if REFUSE > 0 && any_bool() {
            REFUSE -= 1;
            return false;
        }
    }
    true
}

fn rate(x: f64) -> PhotonRate {
    PhotonRate::photons_per_second(x)
}
fn val(x: &PhotonRate) -> f64 {
    x.in_photons_per_second()
}
fn same(a: f64, b: f64) -> bool {
    let d = a - b;
    d < 1e-6 && d > -1e-6
}

fn sweep(g: &Grid, levels: usize, batch: usize, source: &[f64]) -> Sweep<Absorb> {
    let rank = model::rank();
    unsafe {
        SOLVED = [0; NAMES];
        UPDATED = [(0, 0.0, 0.0); NAMES];
        CHANGE = [1e9; NAMES];
        INBOX = Vec::new();
        NEEDS = Vec::new();
        LOG = Vec::new();
        TOLD = Vec::new();
        REFUSE = 0;
        PENDING = 0;
    }
    model::world().test = Some(on_test);
    model::world().on_wait = Some(on_wait);
    model::world().on_probe = Some(on_probe);
    let directions: Directions = (&DirectionsSpecification::Explicit(g.dirs.clone())).into();
    let cells: HashMap<ParticleId, Cell> = g.cells.iter().map(|&i| (id(i), g.cell(i))).collect();
    let sites: HashMap<ParticleId, Site<Absorb>> = g.cells.iter()
        .map(|&i| (id(i), Site::new(&directions, i, crate::units::Density::zero(), rate(source[i]))))
        .collect();
    let parameters = SweepParameters {
        directions: DirectionsSpecification::Explicit(g.dirs.clone()),
        rotate_directions: false,
        num_timestep_levels: levels,
        significant_rate_threshold: PhotonRate::zero(),
        timestep_safety_factor: Dimensionless::dimensionless(1.0),
        chemistry_timestep_safety_factor: Dimensionless::dimensionless(1.0),
        check_deadlock: false,
        periodic: false,
        max_timestep: Time::seconds(64.0),
        prevent_cooling: false,
        num_tasks_to_solve_before_send_receive: batch,
    };
    Sweep::new(
        directions,
        cells,
        sites,
        g.remote.iter().map(|&c| id(c)).collect(),
        parameters.max_timestep,
        parameters.timestep_safety_factor,
        &parameters,
        3,
        rank,
        Absorb,
    )
}

/// any state that earlier sweeps may have left: what came in is what the neighbours gave
struct Before {
    out: Vec<Vec<f64>>,
    inc: Vec<Vec<f64>>,
    per: Vec<Vec<f64>>,
}

fn earlier(g: &Grid, s: &mut Sweep<Absorb>) -> Before {
    let nd = g.dirs.len();
    let mut b = Before { out: vec![], inc: vec![vec![0.0; nd]; NAMES], per: vec![vec![0.0; nd]; NAMES] };
    for c in 0..NAMES {
        b.out.push((0..nd).map(|_| if g.cells.contains(&c) { real(0.0, 100.0) } else { 0.0 }).collect());
    }
    for l in g.links.iter() {
        for d in 0..nd {
            if let Some((from, to, part)) = g.flow(l, d) {
                if local(to) {
                    // what a remote cell gave is not known to this rank by cell: any amount
                    let given = if local(from) { b.out[from][d] * part } else { 50.0 };
                    if l.2 == Near {
                        b.inc[to][d] += given;
                    } else {
                        b.per[to][d] += given;
                    }
                }
            }
        }
    }
    for &i in g.cells.iter() {
        let site = s.sites.get_mut(id(i));
        for d in 0..nd {
            site.outgoing_total_rate[d] = rate(b.out[i][d]);
            site.incoming_total_rate[d] = rate(b.inc[i][d]);
            site.periodic_source[d] = rate(b.per[i][d]);
        }
    }
    b
}

fn set_levels(g: &Grid, s: &mut Sweep<Absorb>, levels: usize) -> [usize; NAMES] {
    let mut lev = [0; NAMES];
    let current = pick(levels);
    for c in 0..NAMES {
        lev[c] = levels - 1;
        if g.cells.contains(&c) {
            lev[c] = pick(levels);
            s.cells.set_level(id(c), TimestepLevel(lev[c]));
            s.sites.set_level(id(c), TimestepLevel(lev[c]));
        } else if g.remote.contains(&c) {
            lev[c] = pick(levels);
            s.halo_levels.insert(id(c), TimestepLevel(lev[c]));
        }
    }
    s.cells.update_bins();
    s.sites.update_bins();
    s.current_level = TimestepLevel(current);
    lev
}

/// what the other ranks are going to tell about their cells
fn inbound(g: &Grid, act: &dyn Fn(usize) -> bool, reverse: bool, split: bool, values: bool) -> Vec<(usize, usize, Kind, f64)> {
    let mut want = vec![];
    for rank in (0..3).filter(|r| *r != model::rank()) {
        let mut items = vec![];
        let mut needs = vec![];
        for l in g.links.iter() {
            for d in 0..g.dirs.len() {
                if let Some((from, to, _)) = g.flow(l, d) {
                    if local(to) && !local(from) && id(from).rank == rank && act(from) && act(to) {
                        // the change of what that cell gives
                        let x = if values { real(-50.0, 100.0) } else { 1.0 };
                        want.push((to, d, l.2, x));
                        items.push(RateData::<Absorb> { id: id(to), dir: DirectionIndex(d), rate: rate(x), periodic: l.2 == Periodic });
                        // the remote cell itself may wait for a cell of this rank
                        let mut n = None;
                        for k in g.links.iter() {
                            if let Some((a, b, _)) = g.flow(k, d) {
                                if b == from && local(a) && k.2 == Near && act(a) {
                                    n = Some((id(from), d));
                                }
                            }
                        }
                        needs.push(n);
                    }
                }
            }
        }
        if reverse {
            items.reverse();
            needs.reverse();
        }
        let inbox = unsafe { &mut *core::ptr::addr_of_mut!(INBOX) };
        let ns = unsafe { &mut *core::ptr::addr_of_mut!(NEEDS) };
        // what does not wait for anything first: MPI keeps the order of messages
        let mut free = vec![];
        let mut bound = vec![];
        for (i, n) in items.into_iter().zip(needs) {
            if n.is_none() {
                free.push(i);
            } else {
                bound.push((i, n));
            }
        }
        let send = |m: Vec<RateData<Absorb>>, n, inbox: &mut Vec<Msg>, ns: &mut Vec<_>| {
            inbox.push(Msg { items: m });
            model::deliver(rank, &inbox.last().unwrap().items, true);
            ns.push(n);
        };
        if split {
            for i in free {
                send(vec![i], None, inbox, ns);
            }
        } else if !free.is_empty() {
            send(free, None, inbox, ns);
        }
        for (i, n) in bound {
            send(vec![i], n, inbox, ns);
        }
    }
    want
}

fn solve(s: &mut Sweep<Absorb>) {
    let mut timers = Performance::default();
    s.single_sweep(&mut timers);
}

/// everything that has to hold after a sweep
fn check(g: &Grid, s: &mut Sweep<Absorb>, b: &Before, source: &[f64], act: &dyn Fn(usize) -> bool, given: &[(usize, usize, Kind, f64)]) {
    let nd = g.dirs.len();
    for &i in g.cells.iter() {
        let n = unsafe { SOLVED[i] };
        must(n == if act(i) { nd } else { 0 }, "every active cell is solved once for every direction, and no other");
        let u = unsafe { UPDATED[i] };
        must(u.0 == act(i) as usize, "the chemistry of every active cell is advanced once, and of no other");
    }
    must(s.to_solve.is_empty(), "nothing is left to be solved");
    let mut out = vec![vec![]; NAMES];
    let mut inc = vec![vec![]; NAMES];
    let mut per = vec![vec![]; NAMES];
    for &i in g.cells.iter() {
        let site = s.sites.get_mut(id(i));
        must(!act(i) || site.num_missing_upwind.total() == 0, "no cell waits for its neighbours any more");
        out[i] = site.outgoing_total_rate.iter().map(val).collect::<Vec<_>>();
        inc[i] = site.incoming_total_rate.iter().map(val).collect::<Vec<_>>();
        per[i] = site.periodic_source.iter().map(val).collect::<Vec<_>>();
    }
    // what arrives is what left
    for &i in g.cells.iter() {
        for d in 0..nd {
            let mut want = 0.0;
            let mut want_per = 0.0;
            for l in g.links.iter() {
                if let Some((from, to, part)) = g.flow(l, d) {
                    if to == i {
                        let x = if local(from) { out[from][d] * part } else { 50.0 };
                        if l.2 == Near {
                            want += x;
                        } else {
                            want_per += x;
                        }
                    }
                }
            }
            for &(to, dir, k, x) in given {
                if to == i && dir == d {
                    if k == Near {
                        want += x;
                    } else {
                        want_per += x;
                    }
                }
            }
            must(same(inc[i][d], want), "what comes into a cell is what its upwind neighbours give to it");
            must(same(per[i][d], want_per), "what comes in across the boundary of the box is what the cells there give to it");
            let src = source[i] / nd as f64;
            if act(i) {
                let late = src + inc[i][d] + per[i][d];
                let early = src + inc[i][d] + b.per[i][d];
                let o = out[i][d];
                must(same(o, late * PART[i]) || same(o, early * PART[i]), "a cell is solved with everything that comes in, and its own source");
            } else {
                must(same(out[i][d], b.out[i][d]), "cells that are not active give what they gave before");
            }
        }
        if act(i) {
            let mut total = source[i];
            for d in 0..nd {
                total += inc[i][d] + per[i][d];
            }
            let u = unsafe { UPDATED[i] };
            must(same(u.2, total), "the chemistry sees the radiation of all directions and the source");
        }
    }
    // what goes to other ranks
    let log = unsafe { &*core::ptr::addr_of!(LOG) };
    let mut expected = 0;
    for l in g.links.iter() {
        for d in 0..nd {
            if let Some((from, to, part)) = g.flow(l, d) {
                if local(from) && !local(to) && act(from) && act(to) {
                    expected += 1;
                    let mut n = 0;
                    for (dest, x) in log.iter() {
                        if *dest == id(to).rank && x.id == id(to) && x.dir.0 == d && x.periodic == (l.2 == Periodic) && same(val(&x.rate), (out[from][d] - b.out[from][d]) * part) {
                            n += 1;
                        }
                    }
                    must(n >= 1, "remote neighbours are told the change of what they get");
                }
            }
        }
    }
    let active = log.iter().filter(|(_, x)| g.remote.iter().any(|&c| id(c) == x.id && act(c))).count();
    must(active == expected, "remote neighbours are told once");
    for x in model::world().sent.iter() {
        must(x.complete, "all messages have left");
    }
    for m in model::world().inbound.iter() {
        must(m.taken, "no message is left over");
    }
}

fn grid(grids: &[(usize, &[Link])], dirs: usize) -> Grid {
    let (n, links) = grids[pick(grids.len())];
    Grid::new(links, n, pick(dirs), ME, USUAL)
}
fn run(grids: &[(usize, &[Link])], dirs: usize, levels: usize, schedules: bool) {
    let g = grid(grids, dirs);
    let source: Vec<f64> = (0..NAMES).map(|c| if g.cells.contains(&c) { real(0.0, 100.0) } else { 0.0 }).collect();
    let batch = if pick(2) == 0 { 0 } else { 10000 };
    let mut s = sweep(&g, levels, batch, &source);
    let b = earlier(&g, &mut s);
    let lev = set_levels(&g, &mut s, levels);
    let current = s.current_level.0;
    let act = move |c: usize| lev[c] >= current;
    let (reverse, split) = if schedules { (pick(2) == 1, pick(2) == 1) } else { (false, true) };
    let given = inbound(&g, &act, reverse, split, true);
    if schedules {
        unsafe {
            REFUSE = 1;
            PENDING = 1;
        }
    }
    solve(&mut s);
    check(&g, &mut s, &b, &source, &act, &given);
    cover(current == levels - 1, "the finest level");
    core::mem::forget(s);
}

#[no_mangle]
pub extern "C" fn c16_local() {
    run(&LOCAL, 3, 2, false);
}
#[no_mangle]
pub extern "C" fn c16_periodic() {
    run(&PERIODIC, 3, 2, false);
}
#[no_mangle]
pub extern "C" fn c16_remote() {
    run(&REMOTE, 2, 2, false);
}
#[no_mangle]
pub extern "C" fn c16_schedules() {
    run(&REMOTE, 1, 1, true);
}
#[no_mangle]
pub extern "C" fn c16_local_deep() {
    run(&LOCAL, 4, 3, false);
}
#[no_mangle]
pub extern "C" fn c16_remote_deep() {
    run(&REMOTE, 4, 3, false);
}
#[no_mangle]
pub extern "C" fn c16_schedules_deep() {
    run(&REMOTE, 3, 2, true);
}

/// the processes agree on how much they tell each other, whoever has which cell
#[no_mangle]
pub extern "C" fn c16_agree() {
    const CHAIN: [&[Link]; 3] = [
        &[Link(0, 1, Near, 0, 1.0), Link(1, 2, Near, 0, 1.0), Link(2, 0, Periodic, 0, 1.0)],
        &[Link(0, 1, Near, 0, 1.0), Link(0, 2, Near, 1, 2.0), Link(1, 2, Near, 1, 3.0)],
        &[Link(0, 1, Near, 0, 1.0), Link(1, 2, Near, 1, 1.0), Link(2, 1, Periodic, 1, 1.0), Link(0, 2, Near, 0, 1.0)],
    ];
    let links = CHAIN[pick(3)];
    let dirs = pick(3);
    let mut owners = [2; NAMES];
    for c in 0..3 {
        owners[c] = pick(2) as i32;
    }
    // both ranks have cells
    assume(owners[0] != owners[1] || owners[0] != owners[2]);
    let lev = [pick(2), pick(2), pick(2)];
    let current = TimestepLevel(pick(2));
    let mut sent = [0, 0];
    let mut awaited = [0, 0];
    for rank in 0..2 {
        let g = Grid::new(links, 3, dirs, rank as i32, owners);
        let mut s = sweep(&g, 2, 10000, &[1.0; NAMES]);
        for c in 0..3 {
            if local(c) {
                s.cells.set_level(id(c), TimestepLevel(lev[c]));
                s.sites.set_level(id(c), TimestepLevel(lev[c]));
            } else {
                s.halo_levels.insert(id(c), TimestepLevel(lev[c]));
            }
        }
        s.cells.update_bins();
        s.sites.update_bins();
        s.current_level = current;
        s.init_counts();
        awaited[rank] = s.to_receive_count[1 - rank as i32];
        must(s.to_receive_count[2] == 0, "nothing is awaited of a process without cells");
        let act = move |c: usize| lev[c] >= current.0;
        inbound(&g, &act, false, true, false);
        unsafe { NEEDS.iter_mut().for_each(|n| *n = None) };
        solve(&mut s);
        let log = unsafe { &*core::ptr::addr_of!(LOG) };
        sent[rank] = log.len();
        for (dest, x) in log.iter() {
            must(*dest == 1 - rank as i32 && x.id.rank == *dest, "cells are told to the process that has them");
        }
        core::mem::forget(s);
    }
    must(sent[0] == awaited[1], "what a process waits for is what the other one sends");
    must(sent[1] == awaited[0], "what a process waits for is what the other one sends");
    cover(sent[0] > 0 && sent[1] > 0, "data in both directions");
    cover(current.0 == 1 && sent[0] + sent[1] > 0, "data at the finer level");
}

/// a neighbour on another process that takes no part in this sweep still gets the change, as one on this process would
#[no_mangle]
pub extern "C" fn c17_remote_inactive() {
    let periodic = pick(2) == 1;
    let k = if periodic { Periodic } else { Near };
    let g = Grid::new(&[Link(0, 4, k, 0, 1.0)], 1, 0, ME, USUAL);
    let mut source = [0.0; NAMES];
    source[0] = real(0.0, 100.0);
    let mut s = sweep(&g, 2, 10000, &source);
    let b = earlier(&g, &mut s);
    s.halo_levels.insert(id(4), TimestepLevel(0));
    s.current_level = TimestepLevel(1);
    solve(&mut s);
    let out = val(&s.sites.get(id(0)).outgoing_total_rate[0]);
    let told: f64 = unsafe { LOG.iter().map(|(_, x)| val(&x.rate)).sum() };
    must(same(told, (out - b.out[0][0]) * 0.5), "a remote neighbour that is not active is told the change");
    core::mem::forget(s);
}

// ---- rounds of sweeps ----

static mut OTHERS: [usize; 8] = [0; 8];
static mut ASKED: usize = 0;
/// the numbers of active cells that other ranks report, level by level
fn counts(r: i32, _own: *const u8, size: usize, dst: *mut u8) {
    assert!(size == 8);
    unsafe {
        *(dst as *mut usize) = OTHERS[ASKED % 8];
        if r == 2 {
            ASKED += 1;
        }
    }
}

fn step(max: f64, l: usize) -> f64 {
    max / (1u64 << l) as f64
}

fn rounds(levels: usize, grids: &[(usize, &[Link])], remote: bool) {
    let g = grid(grids, 1);
    let mut s = sweep(&g, levels, 10000, &[1.0; NAMES]);
    // changes of the rates do not limit the steps here
    s.significant_rate_threshold = rate(1e30);
    let advanced = pick(levels + 1);
    for _ in 0..advanced {
        s.timestep_state.advance_allowed_levels();
    }
    let low = levels - 1 - if advanced == 0 { 0 } else { (advanced - 1).min(levels - 1) };
    let next_low = if advanced == 0 { low } else { low.saturating_sub(1) };
    let mut lev = [0; NAMES];
    let which = pick(g.cells.len());
    for &c in g.cells.iter() {
        lev[c] = low + pick(levels - low);
        s.cells.set_level(id(c), TimestepLevel(lev[c]));
        s.sites.set_level(id(c), TimestepLevel(lev[c]));
        unsafe { CHANGE[c] = if c == which { real(0.1, 1000.0) } else { [1000.0, 20.0, 50.0, 1.0][c] } };
    }
    s.cells.update_bins();
    s.sites.update_bins();
    for &c in g.remote.iter() {
        lev[c] = low + pick(levels - low);
        s.halo_levels.insert(id(c), TimestepLevel(lev[c]));
    }
    unsafe {
        ASKED = 0;
        // the others have cells at every level
        OTHERS = [1; 8];
    }
    model::world().gather = Some(counts);
    // what other ranks tell during the sweeps
    let order: Vec<usize> = s.timestep_state.iter_levels_in_sweep_order().map(|l| l.0).collect();
    if remote {
        for &current in order.iter() {
            let act = move |c: usize| lev[c] >= current;
            inbound(&g, &act, false, true, false);
        }
        unsafe { NEEDS.iter_mut().for_each(|n| *n = None) };
    }
    // and about their levels in the end
    let mut theirs = vec![];
    for rank in [0, 2] {
        let mut v = vec![];
        for &c in g.remote.iter() {
            if owner(c) == rank {
                let l = if c % 2 == 0 { levels - 1 } else { 0 };
                v.push(TimestepLevelData { level: TimestepLevel(l), id: id(c) });
                theirs.push((c, l));
            }
        }
        let v: &'static mut [TimestepLevelData] = v.leak();
        model::deliver(rank, v, true);
        unsafe { NEEDS.push(None) };
    }
    let mut timers = Performance::default();
    let elapsed = s.run_sweeps(&mut timers).in_seconds();
    must(same(elapsed, step(64.0, low)), "a round takes the largest step that is allowed");
    for &c in g.cells.iter() {
        let u = unsafe { UPDATED[c] };
        must(same(u.1, elapsed), "every cell is advanced by the time that elapsed");
        must(u.0 == 1 << (lev[c] - low), "in steps of its own level");
        let l = s.cells.get_level(id(c)).0;
        must(l == s.sites.get_level(id(c)).0, "a cell has one level");
        must(l < levels && l >= next_low, "the new level is allowed");
        let want = unsafe { CHANGE[c] };
        must(l == levels - 1 || step(64.0, l) <= want, "the new step is not larger than the time over which the cell changes");
        must(l == next_low || step(64.0, l - 1) > want, "the new step is not smaller than needed");
        // the next sweep uses the new levels
        let n = s.cells.enumerate_active(TimestepLevel(l)).filter(|(i, _)| *i == id(c)).count();
        must(n == 1, "the cell is active at its new level");
        if l + 1 < levels {
            let n = s.sites.enumerate_active(TimestepLevel(l + 1)).filter(|(i, _)| *i == id(c)).count();
            must(n == 0, "and not at a finer one");
        }
    }
    // neighbours know each other's levels
    for &(c, l) in theirs.iter() {
        must(s.get_level(id(c)).0 == l, "the levels of remote neighbours are the ones they told");
    }
    let told = unsafe { &*core::ptr::addr_of!(TOLD) };
    for l in g.links.iter() {
        for (a, b) in [(l.0, l.1), (l.1, l.0)] {
            if local(a) && !local(b) {
                let level = s.cells.get_level(id(a)).0;
                must(told.iter().any(|x| *x == (owner(b), id(a), level)), "every process with a neighbour of a cell is told its new level");
            }
        }
    }
    for x in told.iter() {
        must(g.cells.iter().any(|&c| id(c) == x.1 && s.cells.get_level(id(c)).0 == x.2), "only new levels are told");
    }
    cover(low == 0 && g.cells.len() > 1 && lev[0] == 0 && lev[1] == levels - 1, "different levels");
    core::mem::forget(s);
}

#[no_mangle]
pub extern "C" fn c18_local() {
    rounds(3, &LOCAL[..3], false);
}
#[no_mangle]
pub extern "C" fn c18_remote() {
    rounds(2, &REMOTE, true);
}
#[no_mangle]
pub extern "C" fn c18_local_deep() {
    rounds(4, &LOCAL, false);
}
#[no_mangle]
pub extern "C" fn c18_remote_deep() {
    rounds(3, &REMOTE, true);
}

/// a cell whose radiation changes quickly gets small steps
#[no_mangle]
pub extern "C" fn c18_rate_change() {
    let g = Grid::new(&[], 1, 0, ME, USUAL);
    let source = real(0.5, 100.0);
    let mut s = sweep(&g, 3, 10000, &[source; NAMES]);
    let before = real(0.5, 100.0);
    s.sites.get_mut(id(0)).previous_incoming_total_rate = rate(before);
    let significant = pick(2) == 0;
    if !significant {
        s.significant_rate_threshold = rate(1000.0);
    }
    s.current_level = TimestepLevel(2);
    s.single_sweep(&mut Performance::default());
    let t = s.sites.get(id(0)).change_timescale.in_seconds();
    // 16 seconds for a change by that part
    if significant {
        let change = if source > before { source - before } else { before - source };
        must(t <= 1e9 && (same(t * change, 16.0 * source) || t == 1e9 || t > 1e8), "the time over which the radiation of a cell changes by as much as there is");
        must(change * 1e9 < 16.1 * source || t < 1e9, "limits its step");
    } else {
        must(t == 1e9, "unless there is no significant radiation");
    }
    must(same(s.sites.get(id(0)).previous_incoming_total_rate.in_photons_per_second(), source), "the radiation is remembered for the next step");
    cover(significant, "significant");
    core::mem::forget(s);
}
