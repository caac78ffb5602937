//! The tree of particles and the search around a point.
use super::*;
use crate::domain::LeafData;
use crate::domain::NodeData;
use crate::parameters::SimulationBox;
use crate::prelude::ParticleId;
use crate::units::Length;
use crate::vp_api::*;

type T = QuadTree<NodeData, LeafData>;
fn leaf(i: usize, p: [f64; 3]) -> LeafData {
    LeafData { id: ParticleId { index: i as u32, rank: 0 }, pos: VecLength::meters(p[0], p[1], p[2]) }
}
fn extent(lo: [f64; 3], hi: [f64; 3]) -> Extent {
    Extent::from_min_max(VecLength::meters(lo[0], lo[1], lo[2]), VecLength::meters(hi[0], hi[1], hi[2]))
}
fn arr(v: &VecLength) -> [f64; 3] {
    [v.x().in_meters(), v.y().in_meters(), v.z().in_meters()]
}
/// walks the tree; returns how often each particle was seen
fn walk(t: &T, depth: usize, max_depth: usize, max_num: usize, lo: [f64; 3], hi: [f64; 3], seen: &mut Vec<usize>) -> usize {
    let (a, b) = (arr(&t.extent.min), arr(&t.extent.max));
    for i in 0..3 {
        must(close(a[i], lo[i], 1e-9) && close(b[i], hi[i], 1e-9), "a node covers its octant of the node above");
    }
    must(depth <= max_depth, "the tree is not deeper than allowed");
    let n = match &t.node {
        Node::Leaf(l) => {
            for d in l.iter() {
                seen[d.id.index as usize] += 1;
                let p = arr(&d.pos);
                for i in 0..3 {
                    must(p[i] >= lo[i] - 1e-9 && p[i] <= hi[i] + 1e-9, "particles are in the node that covers them");
                }
            }
            must(depth == max_depth || l.len() <= max_num + 1, "leaves with too many particles are divided");
            l.len()
        }
        Node::Tree(c) => {
            let mut n = 0;
            let mid = [(lo[0] + hi[0]) / 2.0, (lo[1] + hi[1]) / 2.0, (lo[2] + hi[2]) / 2.0];
            let mut taken = [false; 8];
            for child in c.iter() {
                let cmin = arr(&child.extent.min);
                let (mut l, mut h) = (lo, mid);
                let mut k = 0;
                for i in 0..3 {
                    if cmin[i] > (lo[i] + mid[i]) / 2.0 {
                        l[i] = mid[i];
                        h[i] = hi[i];
                        k += 1 << i;
                    }
                }
                must(!taken[k], "the children cover different octants");
                taken[k] = true;
                n += walk(child, depth + 1, max_depth, max_num, l, h, seen);
            }
            n
        }
    };
    must(t.data.work == n as u64, "a node counts the particles below it");
    n
}
fn build(n: usize, sym: usize) {
    let max_depth = pick(3);
    let max_num = pick(2);
    let lo = [0.0, 0.0, 0.0];
    let hi = [8.0, 4.0, 6.0];
    let fixed = [[1.0, 1.0, 1.0], [7.5, 3.5, 0.5], [4.0, 2.0, 3.0], [1.0, 1.0, 1.0]];
    let ps: Vec<_> = (0..n).map(|i| leaf(i, if i < sym { [real(0.0, 8.0), [1.0, 2.0, 3.5][pick(3)], [1.5, 5.0][pick(2)]] } else { fixed[i] })).collect();
    let t = T::new(&QuadTreeConfig { max_depth, max_num_particles_per_leaf: max_num }, ps, &extent(lo, hi));
    let mut seen = vec![0; n];
    let all = walk(&t, 0, max_depth, max_num, lo, hi, &mut seen);
    must(all == n && seen.iter().all(|x| *x == 1), "every particle is in the tree exactly once");
    let mut seen = vec![0; n];
    for d in t.iter() {
        seen[d.id.index as usize] += 1;
    }
    must(seen.iter().all(|x| *x == 1), "an iteration visits every particle exactly once");
    let mut seen = vec![0; n];
    t.depth_first_map_leaf(&mut |_, l| {
        for d in l {
            seen[d.id.index as usize] += 1;
        }
    });
    must(seen.iter().all(|x| *x == 1), "a visit of all leaves sees every particle exactly once");
    cover(max_depth == 2 && max_num == 0, "a deep tree");
}
#[no_mangle]
pub extern "C" fn c24_tree() {
    build(3, 1);
}
#[no_mangle]
pub extern "C" fn c24_tree_one() {
    let n = pick(3);
    build(n, n.min(1));
}
#[no_mangle]
pub extern "C" fn c24_tree_deep() {
    build(4, 2);
}

/// a search finds exactly the particles closer than the radius, across the boundary as well
fn search(n: usize, any_pos: bool, l: [f64; 3]) {
    let b = SimulationBox::new(extent([0.0; 3], l));
    let dim = pick(3);
    let side = l[dim];
    let along = |x: f64| {
        let mut p = [1.0 / 8.0 * l[0], 7.5 / 8.0 * l[1], 3.0 / 8.0 * l[2]];
        p[dim] = x;
        p
    };
    let places = [0.5 / 8.0 * side, 3.9 / 8.0 * side, 7.9 / 8.0 * side];
    let xs: Vec<f64> = (0..n).map(|i| if i == 0 { real(0.0, side) } else { places[i] }).collect();
    let ps: Vec<_> = xs.iter().enumerate().map(|(i, x)| leaf(i, along(*x))).collect();
    let max_depth = [0, 2][pick(2)];
    let t = T::new(&QuadTreeConfig { max_depth, max_num_particles_per_leaf: 0 }, ps, b_extent(&b));
    let x = if any_pos { real(0.0, side) } else { [0.25, 4.0, 7.75][pick(3)] / 8.0 * side };
    let r = real(0.01, 0.75 * side);
    let found: Vec<usize> = t.iter_particles_in_radius(&b, VecLength::meters(along(x)[0], along(x)[1], along(x)[2]), Length::meters(r)).map(|d| d.id.index as usize).collect();
    for i in 0..n {
        let d = (xs[i] - x).abs();
        let d = if d > side / 2.0 { side - d } else { d };
        let num = found.iter().filter(|f| **f == i).count();
        must(num <= 1, "a search finds a particle once");
        must(!(d < r - 1e-6) || num == 1, "a search finds all particles within the radius");
        must(!(d > r + 1e-6) || num == 0, "a search finds no particles beyond the radius");
    }
    cover(found.len() == n, "all found");
    cover(found.is_empty(), "none found");
}
fn b_extent(b: &SimulationBox) -> &Extent {
    b
}
#[no_mangle]
pub extern "C" fn c24_search() {
    search(2, false, [8.0; 3]);
}
#[no_mangle]
pub extern "C" fn c24_search_any() {
    search(1, true, [8.0; 3]);
}
#[no_mangle]
pub extern "C" fn c24_search_deep() {
    search(3, true, [8.0; 3]);
}
/// boxes that are longer in one dimension than in the others
#[no_mangle]
pub extern "C" fn c24_search_long() {
    search(1, true, [[16.0, 4.0, 8.0], [4.0, 16.0, 8.0]][pick(2)]);
}
/// in all three dimensions at once
#[no_mangle]
pub extern "C" fn c24_search_space() {
    let b = SimulationBox::new(extent([0.0; 3], [8.0; 3]));
    let p = [[7.9, 7.9, 7.9], [0.1, 4.5, 7.0], [3.0, 3.0, 3.0]][pick(3)];
    let t = T::new(&QuadTreeConfig { max_depth: 2, max_num_particles_per_leaf: 0 }, vec![leaf(0, p), leaf(1, [4.0, 4.0, 4.0])], b_extent(&b));
    let c = [[0.1, 0.2, 0.1], [7.0, 4.0, 0.5], [5.0, 3.0, 3.5]][pick(3)];
    let r = real(0.01, 12.0);
    let found = t.iter_particles_in_radius(&b, VecLength::meters(c[0], c[1], c[2]), Length::meters(r)).filter(|d| d.id.index == 0).count();
    let mut d2 = 0.0;
    for i in 0..3 {
        let d = (p[i] - c[i]).abs();
        let d = if d > 4.0 { 8.0 - d } else { d };
        d2 += d * d;
    }
    must(!(d2 < r * r - 1e-6) || found == 1, "a search finds all particles within the radius");
    must(!(d2 > r * r + 1e-6) || found == 0, "a search finds no particles beyond the radius");
}
/// octants, in two and in three dimensions
#[no_mangle]
pub extern "C" fn c24_octants() {
    use crate::domain::extent::Extent2d;
    use crate::units::Vec2Length;
    let lo = [real(-10.0, 0.0), real(-10.0, 0.0), real(-10.0, 0.0)];
    let hi = [real(1.0, 10.0), real(1.0, 10.0), real(1.0, 10.0)];
    let d = pick(3);
    let mut p = [0.5, 0.5, 0.5];
    let f = real(0.0, 1.0);
    p[d] = lo[d] + f * (hi[d] - lo[d]);
    for i in 0..3 {
        if i != d {
            p[i] = lo[i] + [0.25, 0.75, 0.25][i] * (hi[i] - lo[i]);
        }
    }
    let e = extent(lo, hi);
    let q = e.get_quadrants()[e.get_quadrant_index(&VecLength::meters(p[0], p[1], p[2]))].clone();
    let (a, b) = (arr(&q.min), arr(&q.max));
    for i in 0..3 {
        must(a[i] <= p[i] + 1e-9 && p[i] <= b[i] + 1e-9, "a point is in its octant");
        must(close((b[i] - a[i]) * 2.0, hi[i] - lo[i], 1e-9), "octants are half as long");
        must(close(a[i], lo[i], 1e-9) || close(b[i], hi[i], 1e-9), "octants are at the corners");
    }
    if d < 2 {
        let e = Extent2d::from_min_max(Vec2Length::meters(lo[0], lo[1]), Vec2Length::meters(hi[0], hi[1]));
        let q = e.get_quadrants()[e.get_quadrant_index(&Vec2Length::meters(p[0], p[1]))].clone();
        for (a, b, p, lo, hi) in [(q.min.x(), q.max.x(), p[0], lo[0], hi[0]), (q.min.y(), q.max.y(), p[1], lo[1], hi[1])] {
            let (a, b) = (a.in_meters(), b.in_meters());
            must(a <= p + 1e-9 && p <= b + 1e-9, "a point is in its quadrant");
            must(close((b - a) * 2.0, hi - lo, 1e-9), "quadrants are half as long");
        }
    }
}
/// numbers of octants and back
#[no_mangle]
pub extern "C" fn c24_index() {
    use super::node_index::NodeIndex;
    let n = TWO_TO_NUM_DIMENSIONS as u8;
    let (v, w) = (any(0, n as usize) as u8, any(0, n as usize) as u8);
    let (a, b) = (NodeIndex::from(v), NodeIndex::from(w));
    must(u8::from(a) == v && NodeIndex::from(u8::from(a)) == a, "the number of a node names the node");
    must((a == b) == (v == w), "different numbers name different nodes");
    must((a == NodeIndex::ThisNode) == (v == n), "octants are not the node itself");
    if v < n {
        must(a == NodeIndex::Child(v), "octants have the numbers of their order");
    }
    must(u8::from(NodeIndex::default()) == n, "a node is itself by default");
    cover(v == n, "the node itself");
}
