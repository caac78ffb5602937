//! Interval branch and prune for formulas over few real variables: the truth of the formula is evaluated on
//! boxes with outward rounding, boxes on which it is false are dropped and undecided ones are divided.
use crate::expr::*;
use crate::ir::mask;
use crate::solver::{Model, Res, MV};
use std::collections::HashMap;

type I = (f64, f64);
const ALL: I = (f64::NEG_INFINITY, f64::INFINITY);

fn out(a: f64, b: f64) -> I {
    if a.is_nan() || b.is_nan() {
        return ALL;
    }
    (a.next_down(), b.next_up())
}
fn add(a: I, b: I) -> I {
    if a.0 == 0.0 && a.1 == 0.0 {
        return b;
    }
    if b.0 == 0.0 && b.1 == 0.0 {
        return a;
    }
    out(a.0 + b.0, a.1 + b.1)
}
fn neg(a: I) -> I {
    (-a.1, -a.0)
}
fn mul(a: I, b: I, same: bool) -> I {
    if same {
        let (x, y) = (a.0 * a.0, a.1 * a.1);
        let (lo, hi) = (x.min(y), x.max(y));
        if a.0 <= 0.0 && a.1 >= 0.0 {
            return (0.0, out(hi, hi).1);
        }
        let r = out(lo, hi);
        return (r.0.max(0.0), r.1);
    }
    let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
    if p.iter().any(|x| x.is_nan()) {
        return ALL;
    }
    out(p.iter().fold(f64::INFINITY, |x, y| x.min(*y)), p.iter().fold(f64::NEG_INFINITY, |x, y| x.max(*y)))
}
fn div(a: I, b: I) -> I {
    if b.0 <= 0.0 && b.1 >= 0.0 {
        return ALL;
    }
    let p = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
    if p.iter().any(|x| x.is_nan()) {
        return ALL;
    }
    out(p.iter().fold(f64::INFINITY, |x, y| x.min(*y)), p.iter().fold(f64::NEG_INFINITY, |x, y| x.max(*y)))
}

#[derive(Clone, Copy)]
enum V {
    R(G),
    /// can be false, can be true
    B(bool, bool),
    /// the values a bit vector can have; any if there are none
    S(Set),
}
#[derive(Clone, Copy)]
struct G {
    /// values on the box
    v: I,
    /// values in its middle
    m: I,
    /// derivatives by the variables on the box
    d: D,
}
const K: usize = 3;
type D = [I; K];
const NO: D = [ALL; K];
fn konst(i: I) -> G {
    G { v: i, m: i, d: [(0.0, 0.0); K] }
}
/// the values, and what the mean value theorem says about them
fn mean(v: I, m: I, f: impl Fn(usize) -> I, h: &[I]) -> V {
    let mut v = v;
    let mut d = NO;
    let mut w = if h.is_empty() { ALL } else { m };
    for k in 0..h.len() {
        d[k] = f(k);
        w = if d[k].0.is_finite() && d[k].1.is_finite() { add(w, mul(d[k], h[k], false)) } else { ALL };
    }
    v = (v.0.max(w.0), v.1.min(w.1));
    V::R(G { v, m, d })
}
#[derive(Clone, Copy)]
struct Set {
    n: u8,
    v: [u128; 6],
}
impl Set {
    const ANY: Set = Set { n: 0, v: [0; 6] };
    fn all(&self) -> &[u128] {
        &self.v[..self.n as usize]
    }
    fn of(x: impl Iterator<Item = Option<u128>>) -> Set {
        let mut s = Set::ANY;
        for x in x {
            let x = match x {
                Some(x) => x,
                None => return Set::ANY,
            };
            if !s.all().contains(&x) {
                if s.n as usize == s.v.len() {
                    return Set::ANY;
                }
                s.v[s.n as usize] = x;
                s.n += 1;
            }
        }
        s
    }
    fn map(&self, f: impl Fn(u128) -> u128) -> Set {
        Set::of(self.all().iter().map(|x| Some(f(*x))))
    }
    fn map2(&self, o: &Set, f: impl Fn(u128, u128) -> Option<u128>) -> Set {
        if self.n == 0 || o.n == 0 {
            return Set::ANY;
        }
        Set::of(self.all().iter().flat_map(|x| o.all().iter().map(|y| f(*x, *y)).collect::<Vec<_>>()))
    }
    fn rel(&self, o: &Set, f: impl Fn(u128, u128) -> bool) -> V {
        if self.n == 0 || o.n == 0 {
            return V::B(true, true);
        }
        let (mut no, mut yes) = (false, false);
        for x in self.all() {
            for y in o.all() {
                if f(*x, *y) {
                    yes = true;
                } else {
                    no = true;
                }
            }
        }
        V::B(no, yes)
    }
}
fn s(v: V) -> Set {
    match v {
        V::S(s) => s,
        _ => Set::ANY,
    }
}
fn r(v: V) -> I {
    g(v).v
}
fn g(v: V) -> G {
    match v {
        V::R(i) => i,
        _ => G { v: ALL, m: ALL, d: NO },
    }
}
fn b(v: V) -> (bool, bool) {
    match v {
        V::B(f, t) => (f, t),
        _ => (true, true),
    }
}

struct Tape {
    /// operation, operands, width of the result and of the first two operands
    ops: Vec<(Op, Vec<u32>, [u32; 3])>,
    ids: Vec<Id>,
    at: HashMap<Id, u32>,
    roots: Vec<u32>,
}
impl Tape {
    fn new(ctx: &Ctx, cs: &[Id]) -> Option<Tape> {
        let mut t = Tape { ops: vec![], ids: vec![], at: HashMap::new(), roots: vec![] };
        let mut at: HashMap<Id, u32> = HashMap::new();
        for c in cs {
            let mut st = vec![(*c, false)];
            while let Some((x, done)) = st.pop() {
                if at.contains_key(&x) {
                    continue;
                }
                let n = ctx.n(x);
                // a square root is a variable with the definition of its square
                let args = match n.op {
                    Op::Var(v) => ctx.roots.get(&v).map_or(vec![], |e| vec![*e]),
                    _ => n.args.clone(),
                };
                if done || args.is_empty() {
                    match n.sort {
                        Sort::BV(w) if w > 128 => return None,
                        _ => {}
                    }
                    match n.op {
                        Op::Var(_) if n.sort != Sort::Real => return None,
                        Op::CReal(u) if !f64::from_bits(u).is_finite() => return None,
                        _ => {}
                    }
                    at.insert(x, t.ops.len() as u32);
                    t.ids.push(x);
                    let w = |k: Option<&Id>| match k.map(|k| ctx.sort(*k)) {
                        Some(Sort::BV(w)) => w,
                        _ => 0,
                    };
                    t.ops.push((n.op, args.iter().map(|a| at[a]).collect(), [w(Some(&x)), w(args.first()), w(args.get(1))]));
                    if t.ops.len() > 200_000 {
                        return None;
                    }
                } else {
                    st.push((x, true));
                    for a in args.iter() {
                        st.push((*a, false));
                    }
                }
            }
            t.roots.push(at[c]);
        }
        t.at = at;
        Some(t)
    }
    /// What is left to decide on a box, for an SMT solver: with the values on the box in place of what they decide.
    fn residual(&self, ctx: &Ctx, dom: &HashMap<u32, I>, vals: &[V], tag: usize) -> String {
        let mut text = String::new();
        let mut names: HashMap<u32, String> = HashMap::new();
        for (v, i) in dom.iter() {
            let n = format!("v{}_{}", tag, v);
            text.push_str(&format!("(declare-const {} Real)\n(assert (and (<= {} {}) (<= {} {})))\n", n, real_str(i.0), n, n, real_str(i.1)));
        }
        let fixed = |q: u32| -> Option<String> {
            match vals[q as usize] {
                V::B(true, false) => Some("false".into()),
                V::B(false, true) => Some("true".into()),
                V::R(G { v: (x, y), .. }) if x == y => Some(real_str(x)),
                V::S(s) if s.n == 1 => Some(format!("(_ bv{} {})", s.v[0], self.ops[q as usize].2[0])),
                _ => None,
            }
        };
        for root in self.roots.iter() {
            let mut st = vec![(*root, false)];
            while let Some((q, done)) = st.pop() {
                if names.contains_key(&q) {
                    continue;
                }
                if let Some(n) = fixed(q) {
                    names.insert(q, n);
                    continue;
                }
                let (op, a, _) = &self.ops[q as usize];
                // a choice that is decided is one of its sides
                let one = match op {
                    Op::Ite => match b(vals[a[0] as usize]) {
                        (false, _) => Some(a[1]),
                        (true, false) => Some(a[2]),
                        _ => None,
                    },
                    _ => None,
                };
                let need: Vec<u32> = one.map_or(a.clone(), |x| vec![x]);
                if !done && !need.is_empty() {
                    st.push((q, true));
                    st.extend(need.iter().map(|x| (*x, false)));
                    continue;
                }
                if let Some(x) = one {
                    let n = names[&x].clone();
                    names.insert(q, n);
                    continue;
                }
                if let Op::Var(v) = op {
                    if a.is_empty() {
                        names.insert(q, format!("v{}_{}", tag, v));
                    } else {
                        let n = format!("r{}_{}", tag, q);
                        text.push_str(&format!("(declare-const {} Real)\n(assert (and (<= 0.0 {}) (= (* {} {}) {})))\n", n, n, n, n, names[&a[0]]));
                        names.insert(q, n);
                    }
                    continue;
                }
                let e = self.ids[q as usize];
                let body = ctx.body_with(e, &|x| names[&self.at[&x]].clone());
                let n = format!("t{}_{}", tag, q);
                text.push_str(&format!("(define-fun {} () {} {})\n", n, ctx.sort_str(ctx.sort(e)), body));
                names.insert(q, n);
            }
            text.push_str(&format!("(assert {})\n", names[root]));
        }
        text
    }
    /// truth of the conjunction on a box
    fn eval(&self, vars: &[u32], dom: &HashMap<u32, I>, vals: &mut Vec<V>) -> (bool, bool) {
        vals.clear();
        // distances from the middle
        let h: Vec<I> = vars
            .iter()
            .map(|v| {
                let i = dom[v];
                let m = i.0 + (i.1 - i.0) * 0.5;
                add(i, (-m, -m))
            })
            .collect();
        let h = if h.len() > K { &[][..] } else { &h[..] };
        for (op, a, w) in self.ops.iter() {
            let x = |k: usize| vals[a[k] as usize];
            let v = match *op {
                Op::Var(_) if a.len() == 1 => {
                    let root = |i: I| {
                        if i.1 < 0.0 {
                            ALL
                        } else {
                            (i.0.max(0.0).sqrt().next_down().max(0.0), i.1.sqrt().next_up())
                        }
                    };
                    let p = g(x(0));
                    let v = root(p.v);
                    mean(v, root(p.m), |k| if v.0 > 0.0 { div(p.d[k], mul(v, (2.0, 2.0), false)) } else { ALL }, h)
                }
                Op::Var(v) => {
                    let i = dom[&v];
                    let m = i.0 + (i.1 - i.0) * 0.5;
                    let mut d = [(0.0, 0.0); K];
                    if let Some(k) = vars.iter().position(|x| *x == v) {
                        if k < K {
                            d[k] = (1.0, 1.0);
                        }
                    }
                    V::R(G { v: i, m: (m, m), d })
                }
                Op::CBool(c) => V::B(!c, c),
                Op::CReal(u) => {
                    let c = f64::from_bits(u);
                    V::R(konst((c, c)))
                }
                Op::RAdd => {
                    let (p, q) = (g(x(0)), g(x(1)));
                    mean(add(p.v, q.v), add(p.m, q.m), |k| add(p.d[k], q.d[k]), h)
                }
                Op::RSub if a[0] == a[1] => V::R(konst((0.0, 0.0))),
                Op::RSub => {
                    let (p, q) = (g(x(0)), g(x(1)));
                    mean(add(p.v, neg(q.v)), add(p.m, neg(q.m)), |k| add(p.d[k], neg(q.d[k])), h)
                }
                Op::RNeg => {
                    let p = g(x(0));
                    V::R(G { v: neg(p.v), m: neg(p.m), d: p.d.map(neg) })
                }
                Op::RMul => {
                    let (p, q) = (g(x(0)), g(x(1)));
                    let same = a[0] == a[1];
                    let d = |k: usize| if same { mul((2.0, 2.0), mul(p.v, p.d[k], false), false) } else { add(mul(p.d[k], q.v, false), mul(p.v, q.d[k], false)) };
                    mean(mul(p.v, q.v, same), mul(p.m, q.m, same), d, h)
                }
                Op::RDiv => {
                    let (p, q) = (g(x(0)), g(x(1)));
                    let v = div(p.v, q.v);
                    mean(v, div(p.m, q.m), |k| div(add(p.d[k], neg(mul(v, q.d[k], false))), q.v), h)
                }
                Op::RLt => {
                    // the difference, which is exact where both sides are
                    let (p, q) = (g(x(0)), g(x(1)));
                    let w = r(mean(add(p.v, neg(q.v)), add(p.m, neg(q.m)), |k| add(p.d[k], neg(q.d[k])), h));
                    let (p, q) = (p.v, q.v);
                    V::B(p.1 >= q.0 && w.1 >= 0.0, p.0 < q.1 && w.0 < 0.0)
                }
                Op::RLe => {
                    let (p, q) = (g(x(0)), g(x(1)));
                    let w = r(mean(add(p.v, neg(q.v)), add(p.m, neg(q.m)), |k| add(p.d[k], neg(q.d[k])), h));
                    let (p, q) = (p.v, q.v);
                    V::B(p.1 > q.0 && w.1 > 0.0, p.0 <= q.1 && w.0 <= 0.0)
                }
                Op::Eq => match (x(0), x(1)) {
                    (V::R(p), V::R(q)) => {
                        let (p, q) = (p.v, q.v);
                        V::B(!(p.0 == p.1 && p == q), p.0 <= q.1 && q.0 <= p.1)
                    }
                    (V::B(f, t), V::B(g, u)) => V::B((f && u) || (t && g), (f && g) || (t && u)),
                    (V::S(p), V::S(q)) => p.rel(&q, |x, y| x == y),
                    _ => V::B(true, true),
                },
                Op::CBV(c) => V::S(Set::of([Some(c)].into_iter())),
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => V::S(s(x(0)).map2(&s(x(1)), |p, q| Ctx::fold(*op, w[0], p, q))),
                Op::Concat => V::S(s(x(0)).map2(&s(x(1)), |p, q| Some(p << w[2] | q))),
                Op::Extract(h, l) => V::S(s(x(0)).map(|p| (p >> l) & mask(h - l + 1))),
                Op::ZExt => V::S(s(x(0))),
                Op::SExt => V::S(s(x(0)).map(|p| sx(p, w[1]) as u128 & mask(w[0]))),
                Op::Ult => s(x(0)).rel(&s(x(1)), |p, q| p < q),
                Op::Ule => s(x(0)).rel(&s(x(1)), |p, q| p <= q),
                Op::Slt => s(x(0)).rel(&s(x(1)), |p, q| sx(p, w[1]) < sx(q, w[1])),
                Op::Sle => s(x(0)).rel(&s(x(1)), |p, q| sx(p, w[1]) <= sx(q, w[1])),
                Op::Ite => {
                    let (f, t) = b(x(0));
                    match (f, t) {
                        (false, _) => x(1),
                        (true, false) => x(2),
                        _ => match (x(1), x(2)) {
                            (V::R(p), V::R(q)) => V::R(G { v: (p.v.0.min(q.v.0), p.v.1.max(q.v.1)), m: ALL, d: NO }),
                            (V::S(p), V::S(q)) => V::S(if p.n == 0 || q.n == 0 { Set::ANY } else { Set::of(p.all().iter().chain(q.all()).map(|x| Some(*x))) }),
                            (p, q) => {
                                let (p, q) = (b(p), b(q));
                                V::B(p.0 || q.0, p.1 || q.1)
                            }
                        },
                    }
                }
                Op::Not => {
                    let (f, t) = b(x(0));
                    V::B(t, f)
                }
                Op::BAnd => {
                    let (mut f, mut t) = (false, true);
                    for k in 0..a.len() {
                        let (g, u) = b(x(k));
                        f |= g;
                        t &= u;
                    }
                    V::B(f, t)
                }
                Op::BOr => {
                    let (mut f, mut t) = (true, false);
                    for k in 0..a.len() {
                        let (g, u) = b(x(k));
                        f &= g;
                        t |= u;
                    }
                    V::B(f, t)
                }
                Op::Uf(_) => V::R(G { v: ALL, m: ALL, d: NO }),
            };
            vals.push(v);
        }
        let (mut f, mut t) = (false, true);
        for q in self.roots.iter() {
            let (g, u) = b(vals[*q as usize]);
            f |= g;
            t &= u;
        }
        (f, t)
    }
}

/// the definition of a square root
fn defines(ctx: &Ctx, c: Id) -> bool {
    let n = ctx.n(c);
    if n.op != Op::Eq {
        return false;
    }
    for (p, q) in [(n.args[0], n.args[1]), (n.args[1], n.args[0])] {
        let m = ctx.n(p);
        if m.op == Op::RMul && m.args[0] == m.args[1] {
            if let Op::Var(v) = ctx.n(m.args[0]).op {
                if ctx.roots.get(&v) == Some(&q) {
                    return true;
                }
            }
        }
    }
    false
}

/// bounds of the variables that the conjunction states
fn bounds(ctx: &Ctx, cs: &[Id], vars: &[u32]) -> Option<HashMap<u32, I>> {
    let mut d: HashMap<u32, I> = vars.iter().map(|v| (*v, ALL)).collect();
    let mut st: Vec<(Id, bool)> = cs.iter().map(|c| (*c, true)).collect();
    while let Some((c, pos)) = st.pop() {
        let n = ctx.n(c);
        match n.op {
            Op::Not => st.push((n.args[0], !pos)),
            Op::BAnd if pos => st.extend(n.args.iter().map(|a| (*a, true))),
            Op::BOr if !pos => st.extend(n.args.iter().map(|a| (*a, false))),
            Op::RLe | Op::RLt => {
                // a <= b, or b <= a if it is denied
                let (p, q) = if pos { (n.args[0], n.args[1]) } else { (n.args[1], n.args[0]) };
                if let (Op::Var(v), Some(x)) = (ctx.n(p).op, ctx.as_real(q)) {
                    if let Some(e) = d.get_mut(&v) {
                    e.1 = e.1.min(x);
                    }
                } else if let (Some(x), Op::Var(v)) = (ctx.as_real(p), ctx.n(q).op) {
                    if let Some(e) = d.get_mut(&v) {
                    e.0 = e.0.max(x);
                    }
                }
            }
            _ => {}
        }
    }
    if d.values().all(|i| i.0.is_finite() && i.1.is_finite()) {
        Some(d)
    } else {
        None
    }
}

/// Decides the conjunction if that takes at most `budget` boxes.
pub fn decide(ctx: &Ctx, cs: &[Id], max_vars: usize, budget: usize, rest: &mut dyn FnMut(&str, &[String]) -> Option<Option<Vec<f64>>>) -> Res {
    // what roots are defined to be holds by construction
    let cs: Vec<Id> = cs.iter().copied().filter(|c| !defines(ctx, *c)).collect();
    let cs = &cs[..];
    let mut todo: Vec<u32> = cs.iter().flat_map(|c| ctx.n(*c).vars.iter().copied()).collect();
    let mut seen = std::collections::HashSet::new();
    let mut vars = vec![];
    while let Some(v) = todo.pop() {
        if seen.insert(v) {
            match ctx.roots.get(&v) {
                Some(e) => todo.extend(ctx.n(*e).vars.iter().copied()),
                None => vars.push(v),
            }
        }
    }
    vars.sort_unstable();
    if vars.is_empty() || vars.len() > max_vars || vars.iter().any(|v| ctx.vars[*v as usize].sort != Sort::Real) {
        return Res::Unknown;
    }
    let dom = match bounds(ctx, cs, &vars) {
        Some(d) => d,
        None => return Res::Unknown,
    };
    if dom.values().any(|i| i.0 > i.1) {
        return Res::Unsat;
    }
    let tape = match Tape::new(ctx, cs) {
        Some(t) => t,
        None => return Res::Unknown,
    };
    let mut vals = vec![];
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(vars.iter().map(|v| dom[v]).collect::<Vec<I>>());
    let mut left = vec![];
    let mut n = 0;
    let full: Vec<f64> = vars.iter().map(|v| dom[v].1 - dom[v].0).collect();
    while let Some(bx) = queue.pop_front() {
        n += 1;
        if n > budget {
            return Res::Unknown;
        }
        let d: HashMap<u32, I> = vars.iter().copied().zip(bx.iter().copied()).collect();
        let (_, t) = tape.eval(&vars, &d, &mut vals);
        if !t {
            continue;
        }
        let mid: Vec<f64> = bx.iter().map(|i| i.0 + (i.1 - i.0) * 0.5).collect();
        let p: HashMap<u32, I> = vars.iter().copied().zip(mid.iter().map(|x| (*x, *x))).collect();
        let (f, t) = tape.eval(&vars, &p, &mut vals);
        if t && !f {
            let mut m = Model::new();
            for (v, x) in vars.iter().zip(mid.iter()) {
                m.insert(*v, MV::R(*x));
            }
            return Res::Sat(Some(m));
        }
        // the widest side, relative to the whole
        let mut k = 0;
        let mut w = -1.0;
        for i in 0..bx.len() {
            let x = if full[i] > 0.0 { (bx[i].1 - bx[i].0) / full[i] } else { 0.0 };
            if x > w && mid[i] > bx[i].0 && mid[i] < bx[i].1 {
                w = x;
                k = i;
            }
        }
        if w < 1e-14 {
            left.push(bx);
            if left.len() > 16 {
                return Res::Unknown;
            }
            continue;
        }
        let (mut lo, mut hi) = (bx.clone(), bx);
        lo[k].1 = mid[k];
        hi[k].0 = mid[k];
        queue.push_back(lo);
        queue.push_back(hi);
    }
    for bx in left {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let tag = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d: HashMap<u32, I> = vars.iter().copied().zip(bx.iter().copied()).collect();
        tape.eval(&vars, &d, &mut vals);
        let text = tape.residual(ctx, &d, &vals, tag);
        let names: Vec<String> = vars.iter().map(|v| format!("v{}_{}", tag, v)).collect();
        match rest(&text, &names) {
            None => return Res::Unknown,
            Some(None) => {}
            Some(Some(x)) => return Res::Sat(Some(vars.iter().copied().zip(x.into_iter().map(MV::R)).collect())),
        }
    }
    Res::Unsat
}
