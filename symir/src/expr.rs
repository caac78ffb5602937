//! Hash-consed terms over booleans, bit vectors and reals.
use crate::ir::mask;
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    BV(u32),
    Real,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var(u32),
    CBool(bool),
    CBV(u128),
    CReal(u64),
    // bit vectors
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract(u32, u32),
    ZExt,
    SExt,
    Ult,
    Ule,
    Slt,
    Sle,
    // any sort
    Eq,
    Ite,
    // booleans
    Not,
    BAnd,
    BOr,
    // reals
    RAdd,
    RSub,
    RMul,
    RDiv,
    RNeg,
    RLt,
    RLe,
    Uf(u32),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub op: Op,
    pub args: Vec<Id>,
    pub sort: Sort,
    pub lo: u128,
    pub hi: u128,
    pub vars: Rc<Vec<u32>>,
    pub real: bool,
}

pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, Vec<Id>, Sort), Id>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<(String, usize)>,
    /// variables that stand for the square root of a term
    pub roots: HashMap<u32, Id>,
    uf_map: HashMap<String, u32>,
    empty: Rc<Vec<u32>>,
}

fn bits_for(x: u128) -> u32 {
    (128 - x.leading_zeros()).max(1)
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], map: HashMap::new(), vars: vec![], ufs: vec![], roots: HashMap::new(), uf_map: HashMap::new(), empty: Rc::new(vec![]) }
    }
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn sort(&self, i: Id) -> Sort {
        self.n(i).sort
    }
    pub fn width(&self, i: Id) -> u32 {
        match self.sort(i) {
            Sort::BV(w) => w,
            Sort::Bool => 1,
            Sort::Real => 64,
        }
    }
    fn mk(&mut self, op: Op, args: Vec<Id>, sort: Sort, lo: u128, hi: u128) -> Id {
        let key = (op, args, sort);
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let args = key.1.clone();
        let mut real = sort == Sort::Real;
        let vars = if let Op::Var(v) = op {
            Rc::new(vec![v])
        } else {
            let mut acc: Rc<Vec<u32>> = self.empty.clone();
            for a in args.iter() {
                let n = self.n(*a);
                real |= n.real;
                if n.vars.is_empty() || Rc::ptr_eq(&n.vars, &acc) {
                    continue;
                }
                if acc.is_empty() {
                    acc = n.vars.clone();
                    continue;
                }
                if n.vars.iter().all(|v| acc.binary_search(v).is_ok()) {
                    continue;
                }
                let mut u: Vec<u32> = acc.iter().chain(n.vars.iter()).copied().collect();
                u.sort_unstable();
                u.dedup();
                acc = Rc::new(u);
            }
            acc
        };
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op, args, sort, lo, hi, vars, real });
        self.map.insert(key, id);
        id
    }
    pub fn var(&mut self, name: String, sort: Sort, lo: u128, hi: u128) -> Id {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name, sort });
        self.mk(Op::Var(v), vec![], sort, lo, hi)
    }
    pub fn bool(&mut self, b: bool) -> Id {
        self.mk(Op::CBool(b), vec![], Sort::Bool, b as u128, b as u128)
    }
    pub fn bv(&mut self, w: u32, v: u128) -> Id {
        let v = v & mask(w);
        self.mk(Op::CBV(v), vec![], Sort::BV(w), v, v)
    }
    pub fn real(&mut self, x: f64) -> Id {
        let x = if x == 0.0 { 0.0 } else { x };
        self.mk(Op::CReal(x.to_bits()), vec![], Sort::Real, 0, 0)
    }
    pub fn as_bool(&self, i: Id) -> Option<bool> {
        if let Op::CBool(b) = self.n(i).op {
            Some(b)
        } else {
            None
        }
    }
    pub fn as_bv(&self, i: Id) -> Option<u128> {
        if let Op::CBV(b) = self.n(i).op {
            Some(b)
        } else {
            None
        }
    }
    pub fn as_real(&self, i: Id) -> Option<f64> {
        if let Op::CReal(b) = self.n(i).op {
            Some(f64::from_bits(b))
        } else {
            None
        }
    }
    pub fn not(&mut self, a: Id) -> Id {
        match self.n(a).op {
            Op::CBool(b) => self.bool(!b),
            Op::Not => self.n(a).args[0],
            Op::RLt => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.rle(y, x)
            }
            Op::RLe => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.rlt(y, x)
            }
            Op::Ult => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.ule(y, x)
            }
            Op::Ule => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.ult(y, x)
            }
            Op::Slt => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.sle(y, x)
            }
            Op::Sle => {
                let (x, y) = (self.n(a).args[0], self.n(a).args[1]);
                self.slt(y, x)
            }
            _ => self.mk(Op::Not, vec![a], Sort::Bool, 0, 1),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match (self.as_bool(a), self.as_bool(b)) {
            (Some(false), _) | (_, Some(false)) => return self.bool(false),
            (Some(true), _) => return b,
            (_, Some(true)) => return a,
            _ => {}
        }
        if self.not(a) == b {
            return self.bool(false);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Op::BAnd, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match (self.as_bool(a), self.as_bool(b)) {
            (Some(true), _) | (_, Some(true)) => return self.bool(true),
            (Some(false), _) => return b,
            (_, Some(false)) => return a,
            _ => {}
        }
        if self.not(a) == b {
            return self.bool(true);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Op::BOr, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.as_bool(c) {
            return if v { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Op::Not = self.n(c).op {
            let d = self.n(c).args[0];
            return self.ite(d, b, a);
        }
        let s = self.sort(a);
        if s == Sort::Bool {
            match (self.as_bool(a), self.as_bool(b)) {
                (Some(true), Some(false)) => return c,
                (Some(false), Some(true)) => return self.not(c),
                (Some(true), None) => return self.or(c, b),
                (Some(false), None) => {
                    let d = self.not(c);
                    return self.and(d, b);
                }
                (None, Some(false)) => return self.and(c, a),
                (None, Some(true)) => {
                    let d = self.not(c);
                    return self.or(d, a);
                }
                _ => {}
            }
        }
        if let Sort::BV(w) = s {
            // keep the zero extension outside
            let hi = self.n(a).hi.max(self.n(b).hi);
            let k = bits_for(hi);
            if k < w && (self.as_bv(a).is_none() || self.as_bv(b).is_none()) {
                let (x, y) = (self.trunc(a, k), self.trunc(b, k));
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        let lo = self.n(a).lo.min(self.n(b).lo);
        let hi = self.n(a).hi.max(self.n(b).hi);
        self.mk(Op::Ite, vec![c, a, b], s, lo, hi)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.bool(true);
        }
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        match self.sort(a) {
            Sort::Bool => {
                if let Some(v) = self.as_bool(b) {
                    return if v { a } else { self.not(a) };
                }
            }
            Sort::BV(w) => {
                let (na, nb) = (self.n(a), self.n(b));
                if na.hi < nb.lo || nb.hi < na.lo {
                    return self.bool(false);
                }
                if let (Some(x), Some(y)) = (self.as_bv(a), self.as_bv(b)) {
                    return self.bool(x == y);
                }
                if let Op::Ite = na.op {
                    let (c, x, y) = (na.args[0], na.args[1], na.args[2]);
                    if self.is_const(b) && (self.is_const(x) || self.is_const(y)) {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                if let Some(k) = self.as_bv(b) {
                    let na = self.n(a);
                    match na.op {
                        Op::Add => {
                            let (x, y) = (na.args[0], na.args[1]);
                            if let Some(c) = self.as_bv(y) {
                                let d = self.bv(w, k.wrapping_sub(c));
                                return self.eq(x, d);
                            }
                        }
                        Op::Concat => {
                            let (x, y) = (na.args[0], na.args[1]);
                            let wy = self.width(y);
                            let wx = self.width(x);
                            let kx = self.bv(wx, k >> wy);
                            let ky = self.bv(wy, k);
                            let p = self.eq(x, kx);
                            let q = self.eq(y, ky);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                }
                let hi = self.n(a).hi.max(self.n(b).hi);
                let k = bits_for(hi);
                if k < w {
                    let (x, y) = (self.trunc(a, k), self.trunc(b, k));
                    return self.eq(x, y);
                }
            }
            Sort::Real => {
                if let (Some(x), Some(y)) = (self.as_real(a), self.as_real(b)) {
                    return self.bool(x == y);
                }
                if let Op::Ite = self.n(a).op {
                    let (c, x, y) = (self.n(a).args[0], self.n(a).args[1], self.n(a).args[2]);
                    if self.is_const(b) && self.is_const(x) && self.is_const(y) {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
            }
        }
        let (a, b) = if self.is_const(b) { (a, b) } else { (a.min(b), a.max(b)) };
        self.mk(Op::Eq, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn is_const(&self, a: Id) -> bool {
        matches!(self.n(a).op, Op::CBool(_) | Op::CBV(_) | Op::CReal(_))
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.width(a);
        if self.sort(a) == Sort::Bool {
            let (o, z) = (self.bv(w, 1), self.bv(w, 0));
            return self.ite(a, o, z);
        }
        if wa == w {
            return a;
        }
        assert!(wa < w, "zext {} to {}", wa, w);
        if let Some(v) = self.as_bv(a) {
            return self.bv(w, v);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            let x = n.args[0];
            return self.zext(x, w);
        }
        if n.op == Op::Ite && self.is_const(n.args[1]) && self.is_const(n.args[2]) {
            let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
            let (p, q) = (self.zext(x, w), self.zext(y, w));
            return self.ite(c, p, q);
        }
        let (lo, hi) = (n.lo, n.hi);
        self.mk(Op::ZExt, vec![a], Sort::BV(w), lo, hi)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        if self.sort(a) == Sort::Bool {
            let (o, z) = (self.bv(w, mask(w)), self.bv(w, 0));
            return self.ite(a, o, z);
        }
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.as_bv(a) {
            return self.bv(w, sx(v, wa) as u128);
        }
        if self.n(a).hi < 1u128 << (wa - 1) {
            return self.zext(a, w);
        }
        self.mk(Op::SExt, vec![a], Sort::BV(w), 0, mask(w))
    }
    pub fn trunc(&mut self, a: Id, k: u32) -> Id {
        self.extract(a, k - 1, 0)
    }
    pub fn extract(&mut self, a: Id, h: u32, l: u32) -> Id {
        let w = self.width(a);
        if l == 0 && h + 1 == w {
            return a;
        }
        assert!(h < w && l <= h, "extract {} {} of {}", h, l, w);
        let k = h - l + 1;
        if let Some(v) = self.as_bv(a) {
            return self.bv(k, v >> l);
        }
        let n = self.n(a).clone();
        if n.hi >> l == 0 {
            return self.bv(k, 0);
        }
        match n.op {
            Op::ZExt => {
                let x = n.args[0];
                let wx = self.width(x);
                if l >= wx {
                    return self.bv(k, 0);
                }
                if h < wx {
                    return self.extract(x, h, l);
                }
                let y = self.extract(x, wx - 1, l);
                return self.zext(y, k);
            }
            Op::SExt => {
                let x = n.args[0];
                let wx = self.width(x);
                if h < wx {
                    return self.extract(x, h, l);
                }
            }
            Op::Extract(_, l2) => {
                let x = n.args[0];
                return self.extract(x, h + l2, l + l2);
            }
            Op::Concat => {
                let (x, y) = (n.args[0], n.args[1]);
                let wy = self.width(y);
                if h < wy {
                    return self.extract(y, h, l);
                }
                if l >= wy {
                    return self.extract(x, h - wy, l - wy);
                }
                let p = self.extract(x, h - wy, 0);
                let q = self.extract(y, wy - 1, l);
                return self.concat(p, q);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.args[0], h, l);
                let y = self.extract(n.args[1], h, l);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if l == 0 => {
                let x = self.extract(n.args[0], h, 0);
                let y = self.extract(n.args[1], h, 0);
                return self.bin(n.op, x, y);
            }
            Op::Ite if self.is_const(n.args[1]) || self.is_const(n.args[2]) => {
                let x = self.extract(n.args[1], h, l);
                let y = self.extract(n.args[2], h, l);
                return self.ite(n.args[0], x, y);
            }
            _ => {}
        }
        let (lo, hi) = if l == 0 && n.hi <= mask(k) { (n.lo, n.hi) } else if h + 1 == w || n.hi >> l <= mask(k) { (n.lo >> l, n.hi >> l) } else { (0, mask(k)) };
        self.mk(Op::Extract(h, l), vec![a], Sort::BV(k), lo, hi)
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.width(a), self.width(b));
        if let Some(x) = self.as_bv(a) {
            if x == 0 {
                return self.zext(b, wa + wb);
            }
            if let Some(y) = self.as_bv(b) {
                return self.bv(wa + wb, x << wb | y);
            }
        }
        if let (Op::Extract(h, l), Op::Extract(h2, l2)) = (self.n(a).op, self.n(b).op) {
            if l == h2 + 1 && self.n(a).args[0] == self.n(b).args[0] {
                let x = self.n(a).args[0];
                return self.extract(x, h, l2);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let (lo, hi) = (na.lo << wb | nb.lo, na.hi << wb | nb.hi);
        let (lo, hi) = if wa + wb > 128 { (0, u128::MAX) } else { (lo, hi) };
        self.mk(Op::Concat, vec![a, b], Sort::BV(wa + wb), lo, hi)
    }
    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128 & m
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128 & m
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y & m
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let a = sx(x, w);
                let s = y.min(w as u128 - 1) as u32;
                (a >> s) as u128 & m
            }
            _ => return None,
        })
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.width(a);
        debug_assert!(self.width(b) == w);
        if let (Some(x), Some(y)) = (self.as_bv(a), self.as_bv(b)) {
            let v = Ctx::fold(op, w, x, y).unwrap();
            return self.bv(w, v);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b) = if comm && self.is_const(a) { (b, a) } else { (a, b) };
        let m = mask(w);
        // both branches of a choice between constants
        if let Some(c) = self.as_bv(b) {
            let na = self.n(a).clone();
            if na.op == Op::Ite && self.is_const(na.args[1]) && self.is_const(na.args[2]) && !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem if c == 0) {
                let p = self.bin(op, na.args[1], b);
                let q = self.bin(op, na.args[2], b);
                return self.ite(na.args[0], p, q);
            }
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c == 0 => return a,
                Op::Mul | Op::And if c == 0 => return b,
                Op::Mul | Op::UDiv if c == 1 => return a,
                Op::URem if c == 1 => return self.bv(w, 0),
                Op::And if c == m => return a,
                Op::Sub => {
                    let d = self.bv(w, c.wrapping_neg());
                    return self.bin(Op::Add, a, d);
                }
                Op::Add if na.op == Op::Add => {
                    if let Some(d) = self.as_bv(na.args[1]) {
                        let e = self.bv(w, c.wrapping_add(d));
                        return self.bin(Op::Add, na.args[0], e);
                    }
                }
                Op::Xor if c == m && na.op == Op::Xor => {
                    if self.as_bv(na.args[1]) == Some(m) {
                        return na.args[0];
                    }
                }
                Op::And if (c + 1).is_power_of_two() => {
                    let k = bits_for(c);
                    let t = self.trunc(a, k);
                    return self.zext(t, w);
                }
                Op::And if na.hi <= m && c != 0 => {
                    // mask of a contiguous high part
                    let tz = c.trailing_zeros();
                    if (c >> tz) + 1 == 1u128 << (bits_for(c) - tz) && tz > 0 {
                        let k = bits_for(c);
                        let t = self.extract(a, k - 1, tz);
                        let z = self.bv(tz, 0);
                        let r = self.concat(t, z);
                        return self.zext(r, w);
                    }
                }
                Op::LShr => {
                    if c >= w as u128 {
                        return self.bv(w, 0);
                    }
                    let t = self.extract(a, w - 1, c as u32);
                    return self.zext(t, w);
                }
                Op::Shl => {
                    if c >= w as u128 {
                        return self.bv(w, 0);
                    }
                    let t = self.extract(a, w - 1 - c as u32, 0);
                    let z = self.bv(c as u32, 0);
                    return self.concat(t, z);
                }
                Op::UDiv if c.is_power_of_two() => {
                    let s = self.bv(w, c.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if c.is_power_of_two() => {
                    let s = self.bv(w, c - 1);
                    return self.bin(Op::And, a, s);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.bv(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if op == Op::Sub && self.as_bv(a).is_none() {
            // (x + y) - x, (x + c) - (x + d)
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::Add {
                if na.args[0] == b {
                    return na.args[1];
                }
                if na.args[1] == b {
                    return na.args[0];
                }
                if nb.op == Op::Add && na.args[0] == nb.args[0] {
                    return self.bin(Op::Sub, na.args[1], nb.args[1]);
                }
            }
            if nb.op == Op::Add && nb.args[0] == a && self.is_const(nb.args[1]) {
                let z = self.bv(w, 0);
                return self.bin(Op::Sub, z, nb.args[1]);
            }
        }
        if op == Op::Or {
            // parts of a word put together
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            for (x, nx, ny, y) in [(a, &na, &nb, b), (b, &nb, &na, a)] {
                let _ = x;
                if nx.op == Op::Concat {
                    if let Some(0) = self.as_bv(nx.args[1]) {
                        let k = self.width(nx.args[1]);
                        if ny.hi <= mask(k) {
                            let t = self.trunc(y, k);
                            return self.concat(nx.args[0], t);
                        }
                    }
                }
                if nx.op == Op::ZExt {
                    let inner = nx.args[0];
                    let ni = self.n(inner).clone();
                    if ni.op == Op::Concat {
                        if let Some(0) = self.as_bv(ni.args[1]) {
                            let k = self.width(ni.args[1]);
                            if ny.hi <= mask(k) {
                                let t = self.trunc(y, k);
                                let r = self.concat(ni.args[0], t);
                                return self.zext(r, w);
                            }
                        }
                    }
                }
            }
        }
        // ranges
        let (al, ah, bl, bh) = {
            let (x, y) = (self.n(a), self.n(b));
            (x.lo, x.hi, y.lo, y.hi)
        };
        let (lo, hi) = match op {
            Op::Add => {
                let half = m / 2;
                if let Some(s) = ah.checked_add(bh).filter(|s| *s <= m) {
                    (al + bl, s)
                } else if bl == bh && bl > half && al >= (m - bl) + 1 {
                    let d = m - bl + 1;
                    (al - d, ah - d)
                } else {
                    (0, m)
                }
            }
            Op::Sub => {
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    (0, m)
                }
            }
            Op::Mul => match ah.checked_mul(bh).filter(|s| *s <= m) {
                Some(s) => (al * bl, s),
                None => (0, m),
            },
            Op::UDiv => {
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                if bl > 0 {
                    if ah < bl {
                        return a;
                    }
                    (0, ah.min(bh - 1))
                } else {
                    (0, ah.max(bh))
                }
            }
            Op::And => (0, ah.min(bh)),
            Op::Or => (al.max(bl), mask(bits_for(ah).max(bits_for(bh)))),
            Op::Xor => (0, mask(bits_for(ah).max(bits_for(bh)))),
            Op::LShr => (0, ah),
            Op::Shl => {
                if bh < 128 && bits_for(ah) as u128 + bh <= w as u128 {
                    (al, ah << bh)
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        };
        let k = match op {
            Op::UDiv | Op::URem | Op::LShr => bits_for(ah).max(bits_for(bh)),
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor => bits_for(hi),
            Op::Shl => bits_for(hi).max(bits_for(bh)),
            _ => w,
        };
        if k < w && !(op == Op::UDiv && bl == 0) {
            let (x, y) = (self.trunc(a, k), self.trunc(b, k));
            let r = if self.is_const(x) && self.is_const(y) { self.bin(op, x, y) } else { self.bin_raw(op, x, y, lo, hi) };
            return self.zext(r, w);
        }
        if matches!(op, Op::SDiv | Op::SRem) && ah <= m / 2 && bh <= m / 2 && bl > 0 {
            return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
        }
        if op == Op::AShr && ah <= m / 2 {
            return self.bin(Op::LShr, a, b);
        }
        self.bin_raw(op, a, b, lo, hi)
    }
    fn bin_raw(&mut self, op: Op, a: Id, b: Id, lo: u128, hi: u128) -> Id {
        let w = self.width(a);
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b) = if comm && !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        let (a, b) = if comm && self.is_const(a) { (b, a) } else { (a, b) };
        if let Some(c) = self.as_bv(b) {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr if c == 0 => return a,
                Op::Mul | Op::UDiv if c == 1 => return a,
                Op::Mul | Op::And if c == 0 => return b,
                Op::And if c == mask(w) => return a,
                _ => {}
            }
        }
        self.mk(op, vec![a, b], Sort::BV(w), lo, hi.min(mask(w)))
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.width(a);
        let (al, ah, bl, bh) = (self.n(a).lo, self.n(a).hi, self.n(b).lo, self.n(b).hi);
        if ah < bl {
            return self.bool(true);
        }
        if al >= bh {
            return self.bool(false);
        }
        if let Some(1) = self.as_bv(b) {
            let z = self.bv(w, 0);
            return self.eq(a, z);
        }
        if a == b {
            return self.bool(false);
        }
        let k = bits_for(ah.max(bh));
        if k < w {
            let (x, y) = (self.trunc(a, k), self.trunc(b, k));
            return self.ult(x, y);
        }
        self.mk(Op::Ult, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let w = self.width(a);
        let (al, ah, bl, bh) = (self.n(a).lo, self.n(a).hi, self.n(b).lo, self.n(b).hi);
        if ah <= bl {
            return self.bool(true);
        }
        if al > bh {
            return self.bool(false);
        }
        if a == b {
            return self.bool(true);
        }
        let k = bits_for(ah.max(bh));
        if k < w {
            let (x, y) = (self.trunc(a, k), self.trunc(b, k));
            return self.ule(x, y);
        }
        self.mk(Op::Ule, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.width(a);
        let h = mask(w) / 2;
        let (al, ah, bl, bh) = (self.n(a).lo, self.n(a).hi, self.n(b).lo, self.n(b).hi);
        if ah <= h && bh <= h {
            return self.ult(a, b);
        }
        if al > h && bl > h {
            return self.ult(a, b);
        }
        if al > h && bh <= h {
            return self.bool(true);
        }
        if ah <= h && bl > h {
            return self.bool(false);
        }
        if a == b {
            return self.bool(false);
        }
        self.mk(Op::Slt, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        let w = self.width(a);
        let h = mask(w) / 2;
        let (al, ah, bl, bh) = (self.n(a).lo, self.n(a).hi, self.n(b).lo, self.n(b).hi);
        if (ah <= h && bh <= h) || (al > h && bl > h) {
            return self.ule(a, b);
        }
        if al > h && bh <= h {
            return self.bool(true);
        }
        if ah <= h && bl > h {
            return self.bool(false);
        }
        if a == b {
            return self.bool(true);
        }
        self.mk(Op::Sle, vec![a, b], Sort::Bool, 0, 1)
    }
    /// lo <= e <= hi, not simplified by what is known of e's range
    pub fn range_fact(&mut self, e: Id, lo: Id, hi: Id) -> Id {
        let a = self.mk(Op::Ule, vec![lo, e], Sort::Bool, 0, 1);
        let b = self.mk(Op::Ule, vec![e, hi], Sort::Bool, 0, 1);
        self.and(a, b)
    }
    // reals
    pub fn radd(&mut self, a: Id, b: Id) -> Id {
        match (self.as_real(a), self.as_real(b)) {
            (Some(x), Some(y)) => {
                let s = x + y;
                if s - x == y && s - y == x {
                    return self.real(s);
                }
            }
            (Some(x), None) if x == 0.0 => return b,
            (None, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Op::RAdd, vec![a, b], Sort::Real, 0, 0)
    }
    pub fn rsub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.real(0.0);
        }
        match (self.as_real(a), self.as_real(b)) {
            (Some(x), None) if x == 0.0 => return self.rneg(b),
            (None, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        self.mk(Op::RSub, vec![a, b], Sort::Real, 0, 0)
    }
    pub fn rneg(&mut self, a: Id) -> Id {
        if let Some(x) = self.as_real(a) {
            return self.real(-x);
        }
        if self.n(a).op == Op::RNeg {
            return self.n(a).args[0];
        }
        self.mk(Op::RNeg, vec![a], Sort::Real, 0, 0)
    }
    pub fn rmul(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) };
        if let Some(x) = self.as_real(a) {
            if x == 0.0 {
                return a;
            }
            if x == 1.0 {
                return b;
            }
            if x == -1.0 {
                return self.rneg(b);
            }
        }
        // x * ite(c, k1, k2) with constants 0/1
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x).clone();
            if n.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.as_real(n.args[1]), self.as_real(n.args[2])) {
                    if p == 0.0 || q == 0.0 || p.abs() == 1.0 || q.abs() == 1.0 {
                        let u = self.rmul(n.args[1], y);
                        let v = self.rmul(n.args[2], y);
                        return self.ite(n.args[0], u, v);
                    }
                }
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Op::RMul, vec![a, b], Sort::Real, 0, 0)
    }
    pub fn rdiv(&mut self, a: Id, b: Id) -> Id {
        if let Some(x) = self.as_real(a) {
            if x == 0.0 {
                return a;
            }
        }
        if let Some(y) = self.as_real(b) {
            if y == 1.0 {
                return a;
            }
            if y == -1.0 {
                return self.rneg(a);
            }
            let inv = 1.0 / y;
            if y.is_normal() && inv.is_normal() && y.to_bits() & ((1u64 << 52) - 1) == 0 {
                let i = self.real(inv);
                return self.rmul(i, a);
            }
        }
        if a == b {
            return self.real(1.0);
        }
        self.mk(Op::RDiv, vec![a, b], Sort::Real, 0, 0)
    }
    pub fn rlt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.bool(false);
        }
        if let (Some(x), Some(y)) = (self.as_real(a), self.as_real(b)) {
            return self.bool(x < y);
        }
        self.mk(Op::RLt, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn rle(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.bool(true);
        }
        if let (Some(x), Some(y)) = (self.as_real(a), self.as_real(b)) {
            return self.bool(x <= y);
        }
        self.mk(Op::RLe, vec![a, b], Sort::Bool, 0, 1)
    }
    pub fn uf(&mut self, name: &str, args: Vec<Id>) -> Id {
        let k = match self.uf_map.get(name) {
            Some(k) => *k,
            None => {
                let k = self.ufs.len() as u32;
                self.ufs.push((name.to_string(), args.len()));
                self.uf_map.insert(name.to_string(), k);
                k
            }
        };
        self.mk(Op::Uf(k), args, Sort::Real, 0, 0)
    }

    /// Value of a term without reals under an assignment of the variables.
    pub fn eval(&self, e: Id, m: &HashMap<u32, u128>, memo: &mut HashMap<Id, u128>) -> Option<u128> {
        let n = self.n(e);
        match n.op {
            Op::CBool(b) => return Some(b as u128),
            Op::CBV(v) => return Some(v),
            Op::Var(v) => return m.get(&v).copied(),
            _ => {}
        }
        if n.real {
            return None;
        }
        if let Some(v) = memo.get(&e) {
            return Some(*v);
        }
        let r = match n.op {
            Op::Ite => {
                let c = self.eval(n.args[0], m, memo)?;
                self.eval(if c != 0 { n.args[1] } else { n.args[2] }, m, memo)?
            }
            Op::Not => 1 - self.eval(n.args[0], m, memo)?,
            Op::BAnd => {
                if self.eval(n.args[0], m, memo)? == 0 {
                    0
                } else {
                    self.eval(n.args[1], m, memo)?
                }
            }
            Op::BOr => {
                if self.eval(n.args[0], m, memo)? != 0 {
                    1
                } else {
                    self.eval(n.args[1], m, memo)?
                }
            }
            Op::Extract(h, l) => self.eval(n.args[0], m, memo)? >> l & mask(h - l + 1),
            Op::ZExt => self.eval(n.args[0], m, memo)?,
            Op::SExt => sx(self.eval(n.args[0], m, memo)?, self.width(n.args[0])) as u128 & mask(self.width(e)),
            Op::Concat => {
                if self.width(e) > 128 {
                    return None;
                }
                self.eval(n.args[0], m, memo)? << self.width(n.args[1]) | self.eval(n.args[1], m, memo)?
            }
            _ => {
                let a = self.eval(n.args[0], m, memo)?;
                let b = self.eval(n.args[1], m, memo)?;
                let w = self.width(n.args[0]);
                match n.op {
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Ule => (a <= b) as u128,
                    Op::Slt => (sx(a, w) < sx(b, w)) as u128,
                    Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
                    op => Ctx::fold(op, w, a, b)?,
                }
            }
        };
        memo.insert(e, r);
        Some(r)
    }

    pub fn sort_str(&self, s: Sort) -> String {
        match s {
            Sort::Bool => "Bool".into(),
            Sort::BV(w) => format!("(_ BitVec {})", w),
            Sort::Real => "Real".into(),
        }
    }

    /// Name of a term in SMT-LIB text: constants are written out, others by name.
    pub fn name(&self, e: Id) -> String {
        let n = self.n(e);
        match n.op {
            Op::CBool(b) => b.to_string(),
            Op::CBV(v) => {
                let w = self.width(e);
                format!("(_ bv{} {})", v, w)
            }
            Op::CReal(b) => real_str(f64::from_bits(b)),
            Op::Var(v) => self.vars[v as usize].name.clone(),
            _ => format!("e{}", e),
        }
    }
    pub fn iname(&self, e: Id) -> String {
        match self.n(e).op {
            Op::CBV(v) => v.to_string(),
            _ => self.name(e),
        }
    }
    /// The term over integers instead of bit vectors (exact: wrapping is written out); None where that does not work.
    pub fn ibody(&self, e: Id) -> Option<String> {
        let n = self.n(e);
        let nm = |i: usize| self.iname(n.args[i]);
        let w = self.width(e);
        let p2 = |k: u32| pow2_str(k);
        let rg = |i: usize| (self.n(n.args[i]).lo, self.n(n.args[i]).hi);
        let signed = |i: usize| {
            let wa = self.width(n.args[i]);
            if rg(i).1 <= mask(wa) / 2 {
                nm(i)
            } else {
                format!("(ite (< {} {}) {} (- {} {}))", nm(i), p2(wa - 1), nm(i), nm(i), p2(wa))
            }
        };
        Some(match n.op {
            Op::Add => {
                let (a, b) = (rg(0), rg(1));
                if a.1.checked_add(b.1).map_or(false, |s| s <= mask(w)) {
                    format!("(+ {} {})", nm(0), nm(1))
                } else {
                    // one subtraction is enough
                    format!("(let ((s (+ {} {}))) (ite (< s {}) s (- s {})))", nm(0), nm(1), p2(w), p2(w))
                }
            }
            Op::Sub => {
                let (a, b) = (rg(0), rg(1));
                if a.0 >= b.1 {
                    format!("(- {} {})", nm(0), nm(1))
                } else {
                    format!("(let ((s (- {} {}))) (ite (< s 0) (+ s {}) s))", nm(0), nm(1), p2(w))
                }
            }
            Op::Mul => {
                let (a, b) = (rg(0), rg(1));
                if a.1.checked_mul(b.1).map_or(false, |s| s <= mask(w)) {
                    format!("(* {} {})", nm(0), nm(1))
                } else {
                    format!("(mod (* {} {}) {})", nm(0), nm(1), p2(w))
                }
            }
            Op::UDiv if rg(1).0 > 0 => format!("(div {} {})", nm(0), nm(1)),
            Op::URem if rg(1).0 > 0 => format!("(mod {} {})", nm(0), nm(1)),
            Op::Concat => format!("(+ (* {} {}) {})", nm(0), p2(self.width(n.args[1])), nm(1)),
            Op::Extract(h, l) => {
                let wa = self.width(n.args[0]);
                let a = if l == 0 { nm(0) } else { format!("(div {} {})", nm(0), p2(l)) };
                if h + 1 == wa || rg(0).1 <= mask(h + 1) {
                    a
                } else {
                    format!("(mod {} {})", a, p2(h - l + 1))
                }
            }
            Op::ZExt => nm(0),
            Op::SExt => {
                let wa = self.width(n.args[0]);
                format!("(ite (< {} {}) {} (+ {} (- {} {})))", nm(0), p2(wa - 1), nm(0), nm(0), p2(w), p2(wa))
            }
            Op::Ult => format!("(< {} {})", nm(0), nm(1)),
            Op::Ule => format!("(<= {} {})", nm(0), nm(1)),
            Op::Slt => format!("(< {} {})", signed(0), signed(1)),
            Op::Sle => format!("(<= {} {})", signed(0), signed(1)),
            Op::Eq => format!("(= {} {})", nm(0), nm(1)),
            Op::Ite => format!("(ite {} {} {})", nm(0), nm(1), nm(2)),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => return None,
            _ => self.body(e),
        })
    }
    pub fn isort_str(&self, s: Sort) -> String {
        match s {
            Sort::BV(_) => "Int".into(),
            s => self.sort_str(s),
        }
    }
    pub fn body(&self, e: Id) -> String {
        self.body_with(e, &|a| self.name(a))
    }
    pub fn body_with(&self, e: Id, name: &dyn Fn(Id) -> String) -> String {
        let n = self.n(e);
        let o = match n.op {
            Op::Add => "bvadd".to_string(),
            Op::Sub => "bvsub".into(),
            Op::Mul => "bvmul".into(),
            Op::UDiv => "bvudiv".into(),
            Op::SDiv => "bvsdiv".into(),
            Op::URem => "bvurem".into(),
            Op::SRem => "bvsrem".into(),
            Op::And => "bvand".into(),
            Op::Or => "bvor".into(),
            Op::Xor => "bvxor".into(),
            Op::Shl => "bvshl".into(),
            Op::LShr => "bvlshr".into(),
            Op::AShr => "bvashr".into(),
            Op::Concat => "concat".into(),
            Op::Extract(h, l) => format!("(_ extract {} {})", h, l),
            Op::ZExt => format!("(_ zero_extend {})", self.width(e) - self.width(n.args[0])),
            Op::SExt => format!("(_ sign_extend {})", self.width(e) - self.width(n.args[0])),
            Op::Ult => "bvult".into(),
            Op::Ule => "bvule".into(),
            Op::Slt => "bvslt".into(),
            Op::Sle => "bvsle".into(),
            Op::Eq => "=".into(),
            Op::Ite => "ite".into(),
            Op::Not => "not".into(),
            Op::BAnd => "and".into(),
            Op::BOr => "or".into(),
            Op::RAdd => "+".into(),
            Op::RSub => "-".into(),
            Op::RMul => "*".into(),
            Op::RDiv => "/".into(),
            Op::RNeg => "-".into(),
            Op::RLt => "<".into(),
            Op::RLe => "<=".into(),
            Op::Uf(k) => self.ufs[k as usize].0.clone(),
            _ => unreachable!(),
        };
        let mut s = format!("({}", o);
        for a in n.args.iter() {
            s.push(' ');
            s.push_str(&name(*a));
        }
        s.push(')');
        s
    }
}

pub fn pow2_str(k: u32) -> String {
    let mut d: Vec<u32> = vec![1];
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 1_000_000_000;
            c = v / 1_000_000_000;
        }
        if c > 0 {
            d.push(c);
        }
    }
    big_str(&d)
}

fn big_str(d: &[u32]) -> String {
    let mut s = format!("{}", d[d.len() - 1]);
    for x in d.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", x));
    }
    s
}

fn mul_pow2_str(m: u64, k: u32) -> String {
    let mut d: Vec<u32> = vec![(m % 1_000_000_000) as u32, (m / 1_000_000_000 % 1_000_000_000) as u32, (m / 1_000_000_000_000_000_000) as u32];
    for _ in 0..k {
        let mut c = 0u32;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 1_000_000_000;
            c = v / 1_000_000_000;
        }
        if c > 0 {
            d.push(c);
        }
    }
    while d.len() > 1 && *d.last().unwrap() == 0 {
        d.pop();
    }
    big_str(&d)
}

pub fn real_str(x: f64) -> String {
    assert!(x.is_finite());
    if x == 0.0 {
        return "0.0".into();
    }
    let b = x.abs().to_bits();
    let e = (b >> 52) as i32;
    let f = b & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    let s = if e >= 0 { format!("{}.0", mul_pow2_str(m, e as u32)) } else { format!("(/ {}.0 {}.0)", m, pow2_str((-e) as u32)) };
    if x < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}
