use super::*;
use crate::vp_api::*;
use crate::domain::decomposition::vp_c31d as dec;
use crate::prelude::LocalParticle;
use bevy_ecs::prelude::Query;
use bevy_ecs::store;
use mpi::model;

const MAX: usize = 2;
static mut NUM: [usize; 2] = [0; 2];
static mut POS: [[[f64; 3]; MAX]; 2] = [[[0.0; 3]; MAX]; 2];
static mut RATE: [[f64; MAX]; 2] = [[0.0; MAX]; 2];
fn gather(r: i32, own: *const u8, size: usize, dst: *mut u8) {
    unsafe {
        if r == model::rank() {
            std::ptr::copy_nonoverlapping(own, dst, size);
        } else if size == 4 {
            *(dst as *mut i32) = NUM[r as usize] as i32;
        } else {
            *(dst as *mut u64) = NUM[r as usize] as u64;
        }
    }
}
fn gather_var(r: i32, i: usize, _size: usize, dst: *mut u8) {
    unsafe { std::ptr::write(dst as *mut Source, source(r as usize, i)) }
}
fn source(r: usize, i: usize) -> Source {
    unsafe { Source { pos: pos(POS[r][i]), rate: SourceRate::new_unchecked(RATE[r][i]) } }
}
fn pos(p: [f64; 3]) -> VecLength {
    VecLength::new_unchecked(glam::DVec3::new(p[0], p[1], p[2]))
}
fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
}
/// Sources of two processes, cells of one of them.
fn run(cells: Vec<[f64; 3]>, places: &[[f64; 3]]) {
    store::reset();
    let me = pick(2);
    let b = dec::unit_box();
    unsafe {
        for r in 0..2 {
            NUM[r] = pick(MAX + 1);
            for i in 0..MAX {
                POS[r][i] = places[if i < NUM[r] { pick(places.len()) } else { 0 }];
                RATE[r][i] = real(0.0, 100.0);
            }
        }
    }
    model::reset(2, me as i32);
    model::world().gather = Some(gather);
    model::world().gather_var = Some(gather_var);
    let start: Vec<f64> = cells.iter().map(|_| real(0.0, 1.0)).collect();
    let es: Vec<_> = cells.iter().zip(start.iter()).map(|(c, s)| store::spawn((LocalParticle, Position(pos(*c)), components::Source(SourceRate::new_unchecked(*s))))).collect();
    let d = dec::two(pos([4.0, 4.0, 4.0]).into_key(&*b));
    let mine = Sources { sources: unsafe { (0..NUM[me]).map(|i| source(me, i)).collect() } };
    let mut events = vec![];
    set_source_terms_system(Query::of_store(), Res::from_ref(&mine), Res::from_ref(&d), Res::from_ref(&b), Res::from_ref(&WorldRank(me as i32)), bevy_ecs::event::EventWriter(&mut events, std::marker::PhantomData));
    let mut total = 0.0;
    let mut here = 0.0;
    let mut num_here = 0;
    let mut sure: Vec<f64> = cells.iter().map(|_| 0.0).collect();
    unsafe {
        for r in 0..2 {
            for i in 0..NUM[r] {
                total += RATE[r][i];
                if d.get_owning_rank(pos(POS[r][i]).into_key(&*b)) == me as i32 {
                    here += RATE[r][i];
                    num_here += 1;
                    for (k, c) in cells.iter().enumerate() {
                        if cells.iter().enumerate().all(|(j, o)| j == k || dist(POS[r][i], *c) < dist(POS[r][i], *o)) {
                            sure[k] += RATE[r][i];
                        }
                    }
                }
            }
        }
    }
    must(events.len() == 1 && close(events[0].0.value_unchecked(), total, 1e-9), "the luminosity of all sources of all processes is reported");
    let mut sum = 0.0;
    for (k, e) in es.iter().enumerate() {
        let got = store::get::<components::Source>(*e).unwrap().0.value_unchecked() - start[k];
        must(got >= sure[k] - 1e-6, "a cell gets the rates of the sources it is closest to");
        sum += got;
    }
    must(close(sum, here, 1e-6), "the rates of the sources on this process are given to its cells, once");
    cover(num_here == 3, "three sources on one process");
    cover(num_here == 0 && total > 1.0, "all sources elsewhere");
}
/// moving cell
#[no_mangle]
pub extern "C" fn c31_cells() {
    let x = real(0.0, 8.0);
    run(vec![[x, 1.0, 1.0], [5.0, 2.0, 1.0]], &[[1.0, 1.0, 1.0], [6.0, 6.0, 6.0]]);
}
#[no_mangle]
pub extern "C" fn c31_three() {
    let (x, y) = (real(0.0, 8.0), real(0.0, 8.0));
    run(vec![[1.0, 1.0, 1.0], [x, y, 3.0], [6.0, 6.0, 5.0]], &[[2.0, 3.0, 2.0], [6.0, 5.0, 6.0]]);
}
/// the sources of the processes, whoever has them
#[no_mangle]
pub extern "C" fn c31_owner() {
    run(vec![[4.0, 4.0, 4.0]], &[[0.5, 0.5, 0.5], [3.9, 4.1, 4.1], [7.0, 7.0, 7.0]]);
}
