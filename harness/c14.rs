use super::*;
use crate::vp_api::*;

fn state(max: f64) -> (TimestepState, usize, usize) {
    let n = 1 + pick(6);
    let mut s = TimestepState::new(Time::seconds(max), n);
    let k = pick(n + 2);
    for _ in 0..k {
        s.advance_allowed_levels();
    }
    // the first round is repeated, then one more level per round
    let low = (n - 1) - (if k == 0 { 0 } else { (k - 1).min(n - 1) });
    (s, n, low)
}

/// the largest of the allowed steps that is not larger than desired, or else the smallest
#[no_mangle]
pub extern "C" fn c14_level() {
    let max = real(1e-3, 1e3);
    let desired = real(1e-6, 1e6);
    let (s, n, low) = state(max);
    let l = s.get_desired_level_from_desired_timestep(Time::seconds(desired)).0;
    must(l < n, "the level exists");
    must(l >= low, "the level is allowed");
    let step = |l: usize| max / (1u64 << l) as f64;
    must(close(s.timestep_at_level(TimestepLevel(l)).in_seconds(), step(l), 1e-12), "the step of a level is the largest one halved once per level");
    must(l == n - 1 || step(l) <= desired, "a cell is not stepped over more than it wants, unless there is no smaller step");
    must(l == low || step(l - 1) > desired, "a cell is not stepped in smaller steps than it needs");
    cover(n == 6 && l > low && l < n - 1, "a level in between");
    cover(n == 6 && l == low, "the lowest level");
}

/// steps that are zero, infinite or far out of the range
#[no_mangle]
pub extern "C" fn c14_extreme() {
    let (s, n, low) = state(1.0);
    for (d, want) in [(0.0, n - 1), (1e-300, n - 1), (1e300, low), (f64::INFINITY, low), (1.0, low), (1.0 + 1e-9, low)] {
        let l = s.get_desired_level_from_desired_timestep(Time::seconds(d)).0;
        must(l == want, "extreme steps get the first or the last level");
    }
    for i in 0..n {
        let d = 1.0 / (1u64 << i) as f64;
        let l = s.get_desired_level_from_desired_timestep(Time::seconds(d)).0;
        must(l == i.max(low), "a step that is exactly that of a level gets that level");
    }
    cover(n == 6 && low == 0, "all levels allowed");
}

/// every level is swept as often as its step fits into the step of the round, evenly spaced
#[no_mangle]
pub extern "C" fn c14_order() {
    let max = 64.0;
    let (s, n, low) = state(max);
    let levels: Vec<usize> = s.iter_levels_in_sweep_order().map(|l| l.0).collect();
    let total = s.current_max_timestep().in_seconds();
    must(total == max / (1u64 << low) as f64, "the round takes the largest allowed step");
    let finest = s.timestep_at_level(TimestepLevel(n - 1)).in_seconds();
    must(levels.len() as f64 * finest == total, "the sweeps of the round are one finest step apart");
    for l in low..n {
        let step = s.timestep_at_level(TimestepLevel(l)).in_seconds();
        let mut next = 0.0;
        let mut count = 0;
        for (i, &c) in levels.iter().enumerate() {
            must(c >= low && c < n, "only allowed levels are swept");
            if TimestepLevel(l).is_active(TimestepLevel(c)) {
                must(i as f64 * finest == next, "the steps of a level follow each other without gap or overlap");
                next += step;
                count += 1;
            }
        }
        must(count as f64 * step == total, "the steps of every level add up to the whole round");
    }
    let allowed: Vec<usize> = s.iter_allowed_levels().map(|l| l.0).collect();
    let all: Vec<usize> = s.iter_all_levels().map(|l| l.0).collect();
    must(allowed == (low..n).collect::<Vec<_>>(), "the allowed levels are those from the lowest allowed one on");
    must(all == (0..n).collect::<Vec<_>>(), "all levels");
    cover(n == 6 && low == 0, "all levels in use");
}

/// rounds one after the other: time is aligned with the largest step when that is first allowed
#[no_mangle]
pub extern "C" fn c14_aligned() {
    let n = 1 + pick(12);
    let max = 4096.0;
    let mut s = TimestepState::new(Time::seconds(max), n);
    let mut t = 0.0;
    for _ in 0..n {
        let d = s.current_max_timestep().in_seconds();
        must(d <= max, "no round is longer than the largest step");
        must(t % d == 0.0, "a round starts at a multiple of its length");
        t += d;
        s.advance_allowed_levels();
    }
    must(t == max, "the first rounds take the largest step together");
    for _ in 0..3 {
        must(s.current_max_timestep().in_seconds() == max, "from then on every round takes the largest step");
        s.advance_allowed_levels();
    }
}
