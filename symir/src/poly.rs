//! Exact normal forms of real terms: rational functions over the terms' atoms, with the squares of
//! square roots, cosines and sines of arc cosines replaced by what they are. Decides identities that the
//! solver's nonlinear arithmetic does not finish; whatever does not become a constant is left to the solver.
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};

/// m * 2^e, m odd or zero
#[derive(Clone, Copy, PartialEq, Debug)]
struct Dy {
    m: i128,
    e: i32,
}
impl Dy {
    fn new(mut m: i128, mut e: i32) -> Dy {
        if m == 0 {
            return Dy { m: 0, e: 0 };
        }
        let k = m.trailing_zeros();
        m >>= k;
        e += k as i32;
        Dy { m, e }
    }
    fn of(x: f64) -> Option<Dy> {
        if !x.is_finite() {
            return None;
        }
        let b = x.to_bits();
        let ex = (b >> 52 & 0x7ff) as i32;
        let f = (b & ((1u64 << 52) - 1)) as i128;
        let (m, e) = if ex == 0 { (f, -1074) } else { (f | 1i128 << 52, ex - 1075) };
        Some(Dy::new(if x < 0.0 { -m } else { m }, e))
    }
    fn mul(self, o: Dy) -> Option<Dy> {
        Some(Dy::new(self.m.checked_mul(o.m)?, self.e + o.e))
    }
    fn add(self, o: Dy) -> Option<Dy> {
        if self.m == 0 {
            return Some(o);
        }
        if o.m == 0 {
            return Some(self);
        }
        let e = self.e.min(o.e);
        let sh = |d: Dy| -> Option<i128> {
            let k = (d.e - e) as u32;
            if k > 120 || d.m.unsigned_abs().leading_zeros() < k + 2 {
                return None;
            }
            Some(d.m << k)
        };
        Some(Dy::new(sh(self)?.checked_add(sh(o)?)?, e))
    }
    fn neg(self) -> Dy {
        Dy { m: -self.m, e: self.e }
    }
}

type Mono = Vec<(Id, u32)>;
type Poly = BTreeMap<Mono, Dy>;
const LIMIT: usize = 20000;

pub struct Norm<'a> {
    pub ctx: &'a mut Ctx,
    pub sqrt: HashMap<Id, Id>,
    memo: HashMap<Id, Option<(Poly, Poly)>>,
    simp: HashMap<Id, Id>,
    work: usize,
}

fn konst(d: Dy) -> Poly {
    let mut p = Poly::new();
    if d.m != 0 {
        p.insert(vec![], d);
    }
    p
}
fn one() -> Poly {
    konst(Dy::new(1, 0))
}
fn padd(a: &Poly, b: &Poly, neg: bool) -> Option<Poly> {
    let mut r = a.clone();
    for (m, c) in b {
        let c = if neg { c.neg() } else { *c };
        let s = r.get(m).copied().unwrap_or(Dy::new(0, 0)).add(c)?;
        if s.m == 0 {
            r.remove(m);
        } else {
            r.insert(m.clone(), s);
        }
    }
    if r.len() > LIMIT {
        return None;
    }
    Some(r)
}

impl<'a> Norm<'a> {
    pub fn new(ctx: &'a mut Ctx, sqrt: HashMap<Id, Id>) -> Norm<'a> {
        Norm { ctx, sqrt, memo: HashMap::new(), simp: HashMap::new(), work: 0 }
    }
    fn uf_name(&self, a: Id) -> Option<(String, Id)> {
        let n = self.ctx.n(a);
        if let Op::Uf(u) = n.op {
            if n.args.len() == 1 {
                return Some((self.ctx.ufs[u as usize].0.clone(), n.args[0]));
            }
        }
        None
    }
    /// the square of an atom, if it is simpler
    fn square(&mut self, a: Id) -> Option<Poly> {
        if let Some(e) = self.sqrt.get(&a).copied() {
            let (p, q) = self.poly(e)?;
            return if q == one() { Some(p) } else { None };
        }
        let (n, x) = self.uf_name(a)?;
        if n == "uf_cos" {
            let s = self.ctx.uf("uf_sin", vec![x]);
            let mut p = one();
            let minus: Poly = [(vec![(s, 2)], Dy::new(-1, 0))].into_iter().collect();
            p = padd(&p, &minus, false)?;
            // the sine may have a rule of its own
            return self.reduce(p);
        }
        if n == "uf_sin" {
            let (m, y) = self.uf_name(x)?;
            if m == "uf_acos" {
                let (p, q) = self.poly(y)?;
                if q != one() {
                    return None;
                }
                let yy = self.pmul(&p, &p)?;
                return padd(&one(), &yy, true);
            }
        }
        None
    }
    fn has_square(&mut self, a: Id) -> bool {
        if self.sqrt.contains_key(&a) {
            return true;
        }
        match self.uf_name(a) {
            Some((n, _)) if n == "uf_cos" => true,
            Some((n, x)) if n == "uf_sin" => matches!(self.uf_name(x), Some((m, _)) if m == "uf_acos"),
            _ => false,
        }
    }
    fn reduce(&mut self, p: Poly) -> Option<Poly> {
        let mut todo: Vec<(Mono, Dy)> = p.into_iter().collect();
        let mut r = Poly::new();
        while let Some((m, c)) = todo.pop() {
            self.work += 1;
            if self.work > 400000 {
                return None;
            }
            let k = m.iter().position(|(a, e)| *e >= 2 && self.has_square(*a));
            let sq = match k {
                Some(k) => {
                    let a = m[k].0;
                    self.square(a).map(|s| (k, s))
                }
                None => None,
            };
            match sq {
                None => {
                    let s = r.get(&m).copied().unwrap_or(Dy::new(0, 0)).add(c)?;
                    if s.m == 0 {
                        r.remove(&m);
                    } else {
                        r.insert(m, s);
                    }
                }
                Some((k, s)) => {
                    let mut m = m;
                    if m[k].1 == 2 {
                        m.remove(k);
                    } else {
                        m[k].1 -= 2;
                    }
                    for (n, d) in &s {
                        todo.push((mono(&m, n), c.mul(*d)?));
                    }
                }
            }
            if r.len() > LIMIT || todo.len() > 4 * LIMIT {
                return None;
            }
        }
        Some(r)
    }
    fn pmul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len() * b.len() > 10 * LIMIT {
            return None;
        }
        let mut r = Poly::new();
        for (m, c) in a {
            for (n, d) in b {
                let k = mono(m, n);
                let s = r.get(&k).copied().unwrap_or(Dy::new(0, 0)).add(c.mul(*d)?)?;
                if s.m == 0 {
                    r.remove(&k);
                } else {
                    r.insert(k, s);
                }
            }
        }
        self.reduce(r)
    }
    fn poly(&mut self, e: Id) -> Option<(Poly, Poly)> {
        if let Some(p) = self.memo.get(&e) {
            return p.clone();
        }
        let p = self.poly_raw(e);
        self.memo.insert(e, p.clone());
        p
    }
    fn poly_raw(&mut self, e: Id) -> Option<(Poly, Poly)> {
        let n = self.ctx.n(e).clone();
        if let Some(x) = self.ctx.as_real(e) {
            return Some((konst(Dy::of(x)?), one()));
        }
        Some(match n.op {
            Op::RAdd | Op::RSub => {
                let (p, q) = self.poly(n.args[0])?;
                let (r, s) = self.poly(n.args[1])?;
                if q == s {
                    (padd(&p, &r, n.op == Op::RSub)?, q)
                } else {
                    let (a, b) = (self.pmul(&p, &s)?, self.pmul(&r, &q)?);
                    (padd(&a, &b, n.op == Op::RSub)?, self.pmul(&q, &s)?)
                }
            }
            Op::RNeg => {
                let (p, q) = self.poly(n.args[0])?;
                (padd(&Poly::new(), &p, true)?, q)
            }
            Op::RMul => {
                let (p, q) = self.poly(n.args[0])?;
                let (r, s) = self.poly(n.args[1])?;
                if p == s {
                    (r, q)
                } else if q == r {
                    (p, s)
                } else {
                    (self.pmul(&p, &r)?, self.pmul(&q, &s)?)
                }
            }
            Op::RDiv => {
                let (p, q) = self.poly(n.args[0])?;
                let (r, s) = self.poly(n.args[1])?;
                if r.is_empty() {
                    return None;
                }
                if p == r {
                    (s, q)
                } else if q == s {
                    (p, r)
                } else {
                    (self.pmul(&p, &s)?, self.pmul(&q, &r)?)
                }
            }
            Op::Ite => {
                let c = self.simp(n.args[0]);
                match self.ctx.as_bool(c) {
                    Some(true) => self.poly(n.args[1])?,
                    Some(false) => self.poly(n.args[2])?,
                    None => {
                        let a = self.poly(n.args[1]);
                        let b = self.poly(n.args[2]);
                        if a.is_some() && a == b {
                            return a;
                        }
                        atom(e)
                    }
                }
            }
            _ => atom(e),
        })
    }
    /// the constant that a difference is, if it is one
    fn diff(&mut self, a: Id, b: Id) -> Option<i128> {
        let (p, q) = self.poly(a)?;
        let (r, s) = self.poly(b)?;
        if q == s && q.len() == 1 && q.contains_key(&vec![]) {
            let d = padd(&p, &r, true)?;
            if d.is_empty() {
                return Some(0);
            }
            if d.len() == 1 {
                if let Some(c) = d.get(&vec![]) {
                    return Some(c.m.signum() * q[&vec![]].m.signum());
                }
            }
            return None;
        }
        let (x, y) = (self.pmul(&p, &s)?, self.pmul(&r, &q)?);
        let d = padd(&x, &y, true)?;
        if d.is_empty() {
            return Some(0);
        }
        // c * (common denominator)
        let den = self.pmul(&q, &s)?;
        if d.len() == den.len() && d.keys().eq(den.keys()) {
            let (c0, k0) = (*d.values().next()?, *den.values().next()?);
            let prop = d.values().zip(den.values()).all(|(c, k)| matches!((c.mul(k0), k.mul(c0)), (Some(x), Some(y)) if x == y));
            if prop {
                return Some(c0.m.signum() * k0.m.signum());
            }
        }
        None
    }
    pub fn simp(&mut self, e: Id) -> Id {
        if let Some(r) = self.simp.get(&e) {
            return *r;
        }
        let n = self.ctx.n(e).clone();
        let r = match n.op {
            Op::Not => {
                let a = self.simp(n.args[0]);
                self.ctx.not(a)
            }
            Op::BAnd => {
                let (a, b) = (self.simp(n.args[0]), self.simp(n.args[1]));
                self.ctx.and(a, b)
            }
            Op::BOr => {
                let (a, b) = (self.simp(n.args[0]), self.simp(n.args[1]));
                self.ctx.or(a, b)
            }
            Op::Ite if n.sort == Sort::Bool => {
                let (c, a, b) = (self.simp(n.args[0]), self.simp(n.args[1]), self.simp(n.args[2]));
                self.ctx.ite(c, a, b)
            }
            Op::Eq if self.ctx.sort(n.args[0]) == Sort::Bool => {
                let (a, b) = (self.simp(n.args[0]), self.simp(n.args[1]));
                self.ctx.eq(a, b)
            }
            Op::RLt | Op::RLe => match self.diff(n.args[0], n.args[1]) {
                Some(s) => self.ctx.bool(if n.op == Op::RLt { s < 0 } else { s <= 0 }),
                None => e,
            },
            Op::Eq if self.ctx.sort(n.args[0]) == Sort::Real => match self.diff(n.args[0], n.args[1]) {
                Some(s) => self.ctx.bool(s == 0),
                None => e,
            },
            _ => e,
        };
        self.simp.insert(e, r);
        r
    }
}

fn atom(e: Id) -> (Poly, Poly) {
    ([(vec![(e, 1)], Dy::new(1, 0))].into_iter().collect(), one())
}
fn mono(a: &Mono, b: &Mono) -> Mono {
    let mut r: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}
