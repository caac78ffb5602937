use super::*;
use crate::vp_api::*;
use crate::units::Dimensionless;
use bevy_ecs::store;
use crate::prelude::Float as F;

fn wrap_of(w: &WrapType) -> i32 {
    match w {
        WrapType::NoWrap => 0,
        WrapType::Plus => 1,
        WrapType::Minus => -1,
    }
}
fn grid(num: [i32; 3], ranks: usize) {
    let c = real(0.1, 10.0);
    let off = |_: usize| real(-1e-9, 1e-9);
    let sides: [F; 3] = std::array::from_fn(|i| num[i] as F * c * (1.0 + off(i)));
    let b = SimulationBox::new(crate::domain::Extent::from_min_max(crate::units::VecLength::zero(), VecLength::new_unchecked(glam::DVec3::new(sides[0], sides[1], sides[2]))));
    let periodic = pick(2) == 0;
    let me = pick(ranks);
    store::reset();
    let spec = NumCellsSpec::CellSize(Length::new_unchecked(c));
    init_cartesian_grid_system(Commands::of_store(), Res::from_ref(&b), spec, Res::from_ref(&WorldSize(ranks)), Res::from_ref(&WorldRank(me as i32)), periodic);
    store::apply();
    // the cells, by where they are
    let total = (num[0] * num[1] * num[2]) as usize;
    let rank_of = |x: i32| (x as usize * ranks) / num[0] as usize;
    let mut ids: Vec<Option<ParticleId>> = vec![None; total];
    let index = |p: [i32; 3]| ((p[0] * num[1] + p[1]) * num[2] + p[2]) as usize;
    let mut seen = vec![];
    for row in store::rows().iter() {
        let e = row.entity;
        let p = store::get::<Position>(e).unwrap().value_unchecked();
        let at: [f64; 3] = [p.x, p.y, p.z];
        let mut cell = [0; 3];
        for i in 0..3 {
            let mut found = 0;
            for k in 0..num[i] {
                if (at[i] - k as F * c).abs() <= 1e-3 * c {
                    cell[i] = k;
                    found += 1;
                }
            }
            must(found == 1, "cells are one cell size apart");
        }
        let id = *store::get::<ParticleId>(e).unwrap();
        let k = conc(index(cell));
        must(ids[k].is_none(), "there is one cell at a place");
        ids[k] = Some(id);
        seen.push((cell, e, id));
    }
    let mut num_local = 0;
    for (cell, e, id) in seen.iter() {
        let r = rank_of(cell[0]);
        must(id.rank == r as i32, "cells belong to the process of their slice");
        must(store::get::<LocalParticle>(*e).is_some() == (r == me), "the cells of this process are local");
        let f = store::get::<Cell>(*e).unwrap();
        must(close(f.size.value_unchecked(), c, 1e-9) && close(f.volume.value_unchecked(), c * c * c, 1e-9), "size and volume are those of a cube");
        must(f.neighbours.len() == 6, "six faces");
        let mut dirs = [0; 6];
        let mut near = false;
        for (face, n) in f.neighbours.iter() {
            must(close(face.area.value_unchecked(), c * c, 1e-9), "the area is that of a square");
            let v = face.normal.value();
            let v = [v.x, v.y, v.z];
            let mut which = 6;
            for d in 0..6 {
                let s = if d % 2 == 0 { -1.0 } else { 1.0 };
                if (0..3).all(|i| (v[i] - if i == d / 2 { s } else { 0.0 }).abs() <= 1e-9) {
                    which = d;
                }
            }
            let which = conc(which);
            must(which < 6, "normals go along the axes, outwards");
            dirs[which] += 1;
            let mut other = *cell;
            let i = which / 2;
            other[i] += if which % 2 == 0 { -1 } else { 1 };
            let w = if other[i] < 0 { -1 } else if other[i] >= num[i] { 1 } else { 0 };
            other[i] = (other[i] + num[i]) % num[i];
            let ro = rank_of(other[0]);
            let (want, wrap) = match n {
                ParticleType::Boundary => {
                    must(w != 0 && !periodic, "the boundary is where the box ends, unless it is periodic");
                    continue;
                }
                ParticleType::Local(id) => {
                    must(w == 0 && r == ro, "local neighbours are on the same process");
                    (*id, None)
                }
                ParticleType::Remote(x) => {
                    must(w == 0 && r != ro && x.rank == ro as i32, "remote neighbours are on another process");
                    near |= ro == me;
                    (x.id, None)
                }
                ParticleType::LocalPeriodic(x) => {
                    must(w != 0 && periodic && r == ro, "periodic neighbours are across the boundary");
                    (x.id, Some(x.periodic_wrap_type))
                }
                ParticleType::RemotePeriodic(x) => {
                    must(w != 0 && periodic && r != ro && x.rank == ro as i32, "remote periodic neighbours are across the boundary, elsewhere");
                    near |= ro == me;
                    (x.id, Some(x.periodic_wrap_type))
                }
            };
            if let Some(t) = wrap {
                let t = [wrap_of(&t.x), wrap_of(&t.y), wrap_of(&t.z)];
                must((0..3).all(|k| t[k] == if k == i { w } else { 0 }), "the wrap is that of the side that was crossed");
            }
            if let Some(id) = ids[index(other)] {
                must(id == want, "a neighbour is the cell on the other side of the face");
            } else {
                must(r != me, "all neighbours of local cells are known");
            }
        }
        must(dirs.iter().all(|x| *x == 1), "one face on every side");
        if r == me {
            num_local += 1;
        } else {
            must(near, "haloes are next to a local cell");
        }
    }
    let want = (0..num[0]).filter(|x| rank_of(*x) == me).count() as i32 * num[1] * num[2];
    must(num_local == want, "all cells of this process are there");
    for (i, a) in seen.iter().enumerate() {
        must(seen[i + 1..].iter().all(|b| a.2 != b.2), "ids name one cell");
    }
    cover(periodic && num_local > 0, "periodic");
    cover(!periodic && num_local > 0, "with boundaries");
}
#[no_mangle]
pub extern "C" fn c33_slab() {
    grid([4, 1, 1], 2);
}
#[no_mangle]
pub extern "C" fn c33_uneven() {
    grid([3, 2, 1], 2);
}
#[no_mangle]
pub extern "C" fn c33_one() {
    grid([2, 2, 2], 1);
}
#[no_mangle]
pub extern "C" fn c33_more() {
    grid([1, 3, 2], 1);
}
#[no_mangle]
pub extern "C" fn c33_ranks() {
    grid([4, 2, 1], 3);
}
