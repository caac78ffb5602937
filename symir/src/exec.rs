//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    Int(u32, u128),
    F64(f64),
    F32(f32),
    E(Id),
    Agg(Rc<Vec<Val>>),
    Undef,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Byte {
    C(u8),
    S(Id, u8),
    U,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<Byte>,
    pub heap: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Pin {
    Val(Id, u128),
    Floor(Id, i64),
}

#[derive(Debug)]
pub enum Stop {
    Fork { cond: Id, mt: Option<Rc<HashMap<u32, u128>>>, mf: Option<Rc<HashMap<u32, u128>>>, pin: Option<Pin> },
    Values(Id, u64),
    Dead,
    Panic(String),
    Mem(String),
    Error(String),
    Done,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    prev: u32,
    ip: usize,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    E(Id),
    C(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pc: Vec<Id>,
    facts: HashMap<Id, bool>,
    pins: HashMap<Id, u128>,
    floors: HashMap<Id, i64>,
    model: Option<Rc<HashMap<u32, u128>>>,
    inputs: Vec<Input>,
    outs: Vec<Input>,
    steps: u64,
    nvars: u32,
    panic_ok: bool,
    tainted: bool,
    covers: BTreeSet<String>,
    notes: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub inputs: Vec<u64>,
    pub have_model: bool,
    pub tainted: bool,
    pub trace: Vec<String>,
}

pub struct PathSample {
    pub inputs: Vec<u64>,
    pub covers: Vec<String>,
    pub outs: Vec<Option<u64>>,
    pub panicked: bool,
}

#[derive(Clone)]
enum Callee {
    Fun(Rc<Func>),
    Ext(Rc<String>, bool),
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ctx: Ctx,
    pub solver: Solver,
    gaddr: HashMap<String, u64>,
    by_addr: BTreeMap<u64, String>,
    funcs: HashMap<String, Rc<Func>>,
    callees: HashMap<u64, Callee>,
    ginit: HashMap<u64, Rc<Obj>>,
    gsize: BTreeMap<u64, (u64, String)>,
    pub dbg_seen: HashSet<u32>,
    pub fn_seen: BTreeSet<String>,
    pub max_steps: u64,
    pub deadline: Instant,
    pub paths: u64,
    pub dead: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub steps: u64,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, bool>,
    pub cover_inputs: Vec<(String, Vec<u64>)>,
    pub samples: Vec<PathSample>,
    pub max_samples: usize,
    pub asserts: u64,
    pub unknown_branches: u64,
    pub incomplete: bool,
    pub choose: Vec<u64>,
    pub max_violations: usize,
    sqrt_of: HashMap<Id, Id>,
    pub identities: usize,
    real_uf: HashMap<String, Vec<Id>>,
    pub notes: BTreeSet<String>,
    pub maxvals: usize,
    tmark: bool,
    pub stop_on_first: bool,
    pub check_branches_real: bool,
    /// (share, of how many) of the paths this process explores
    pub shard: (u64, u64),
}

fn f_of(v: &Val) -> Option<f64> {
    match v {
        Val::F64(x) => Some(*x),
        Val::F32(x) => Some(*x as f64),
        Val::Int(64, b) => Some(f64::from_bits(*b as u64)),
        _ => None,
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: Solver) -> Exec<'m> {
        let mut e = Exec {
            m,
            ctx: Ctx::new(),
            solver,
            gaddr: HashMap::new(),
            by_addr: BTreeMap::new(),
            funcs: HashMap::new(),
            callees: HashMap::new(),
            ginit: HashMap::new(),
            gsize: BTreeMap::new(),
            dbg_seen: HashSet::new(),
            fn_seen: BTreeSet::new(),
            max_steps: 20_000_000,
            deadline: Instant::now(),
            paths: 0,
            dead: 0,
            panics_ok: 0,
            forks: 0,
            steps: 0,
            violations: vec![],
            errors: BTreeMap::new(),
            covers: BTreeMap::new(),
            cover_inputs: vec![],
            samples: vec![],
            max_samples: 4,
            asserts: 0,
            unknown_branches: 0,
            incomplete: false,
            choose: vec![],
            max_violations: 6,
            sqrt_of: HashMap::new(),
            identities: 0,
            real_uf: HashMap::new(),
            notes: BTreeSet::new(),
            maxvals: 96,
            tmark: false,
            stop_on_first: false,
            check_branches_real: true,
            shard: (0, 1),
        };
        e.ctx.bool(true);
        e.ctx.bool(false);
        let mut a: u64 = 0x10000;
        let mut names: Vec<&String> = m.funcs.keys().collect();
        names.sort();
        for n in names {
            e.gaddr.insert(n.clone(), a);
            e.by_addr.insert(a, n.clone());
            a += 16;
        }
        e.gaddr.insert("llvm.x86.vpdiv.64".into(), a);
        e.by_addr.insert(a, "llvm.x86.vpdiv.64".into());
        let mut a: u64 = 0x4000_0000;
        for n in m.global_order.iter() {
            let g = &m.globals[n];
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            e.gaddr.insert(n.clone(), a);
            e.gsize.insert(a, (g.ty.size(), n.clone()));
            a += g.ty.size() + 16;
        }
        e
    }

    // ---- constants ----
    fn caddr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(t) = self.m.aliases.get(n) {
            return self.caddr(t);
        }
        err(format!("unknown global {}", n))
    }
    fn cval(&self, ty: &Ty, c: &Const) -> R<Val> {
        Ok(match c {
            Const::Int(w, v) => {
                if let Ty::Int(x) = ty {
                    Val::Int(*x, v & mask(*x))
                } else {
                    Val::Int(*w, *v)
                }
            }
            Const::F64(x) => {
                if *ty == Ty::Float {
                    Val::F32(*x as f32)
                } else {
                    Val::F64(*x)
                }
            }
            Const::F32(x) => Val::F32(*x),
            Const::Undef => match ty {
                Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(|_| Val::Undef).collect())),
                Ty::Vector(n, _) | Ty::Array(n, _) => Val::Agg(Rc::new((0..*n).map(|_| Val::Undef).collect())),
                _ => Val::Undef,
            },
            Const::Zero => self.zero(ty),
            Const::Agg(v) => {
                let mut o = vec![];
                for (t, c) in v {
                    o.push(self.cval(t, c)?);
                }
                Val::Agg(Rc::new(o))
            }
            Const::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::Int(8, *x as u128)).collect())),
            Const::Splat(b) => {
                let v = self.cval(&b.0, &b.1)?;
                Val::Agg(Rc::new((0..ty.count()).map(|_| v.clone()).collect()))
            }
            Const::Global(n) => Val::Int(64, self.caddr(n)? as u128),
            Const::Gep(t, b, ix) => {
                let base = match self.cval(&b.0, &b.1)? {
                    Val::Int(_, v) => v as u64,
                    _ => return err("constant gep"),
                };
                let mut a = base;
                let mut cur = t.clone();
                for (k, (it, i)) in ix.iter().enumerate() {
                    let (w, i) = match self.cval(it, i)? {
                        Val::Int(w, v) => (w, v),
                        _ => return err("constant gep index"),
                    };
                    let i = sx(i, w) as i64;
                    if k == 0 {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                    } else if let Ty::Struct(..) = cur {
                        a = a.wrapping_add(cur.field_offset(i as usize));
                        cur = cur.field(i as usize);
                    } else {
                        cur = cur.field(0);
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                    }
                }
                Val::Int(64, a as u128)
            }
            Const::Cast(op, b, t) => {
                let v = self.cval(&b.0, &b.1)?;
                match (op.as_str(), v) {
                    ("ptrtoint" | "inttoptr" | "bitcast" | "zext" | "trunc" | "ptrtoaddr", Val::Int(_, x)) => Val::Int(t.bits(), x & mask(t.bits())),
                    _ => return err("constant cast"),
                }
            }
            Const::Bin(op, a, b) => match (self.cval(&a.0, &a.1)?, self.cval(&b.0, &b.1)?) {
                (Val::Int(w, x), Val::Int(_, y)) => {
                    let o = match op.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "mul" => Op::Mul,
                        _ => Op::Xor,
                    };
                    Val::Int(w, Ctx::fold(o, w, x, y).unwrap())
                }
                _ => return err("constant op"),
            },
        })
    }
    fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => Val::Int(*w, 0),
            Ty::Ptr => Val::Int(64, 0),
            Ty::Double => Val::F64(0.0),
            Ty::Float => Val::F32(0.0),
            Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(|f| self.zero(f)).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => Val::Agg(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            _ => Val::Undef,
        }
    }
    fn cbytes(&self, ty: &Ty, c: &Const, out: &mut [Byte]) -> R<()> {
        match (ty, c) {
            (_, Const::Zero) => {
                for b in out.iter_mut() {
                    *b = Byte::C(0);
                }
            }
            (_, Const::Undef) => {
                for b in out.iter_mut() {
                    *b = Byte::U;
                }
            }
            (_, Const::Bytes(v)) => {
                for (i, b) in v.iter().enumerate() {
                    out[i] = Byte::C(*b);
                }
            }
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Const::Agg(v)) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.cbytes(t, x, &mut out[o..o + t.size() as usize])?;
                }
            }
            _ => {
                let v = self.cval(ty, c)?;
                let mut b = vec![];
                conc_bytes(&v, ty, &mut b)?;
                out[..b.len()].copy_from_slice(&b);
            }
        }
        Ok(())
    }

    fn func(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let mut f = self.m.parse_func(name).map_err(Stop::Error)?;
        for b in f.blocks.iter_mut() {
            for i in b.iter_mut() {
                let mut e = None;
                visit(&mut i.ins, &mut |ty, o| {
                    if let Opd::C(c) = o {
                        if matches!(**c, Const::Global(_) | Const::Gep(..) | Const::Cast(..) | Const::Bin(..)) {
                            match self.cval(ty, c) {
                                Ok(Val::Int(w, v)) => *o = Opd::C(Rc::new(Const::Int(w, v))),
                                Ok(_) => {}
                                Err(Stop::Error(s)) => e = Some(s),
                                Err(_) => {}
                            }
                        }
                    }
                });
                if let Some(e) = e {
                    i.ins = Ins::Unsupported(e);
                }
            }
        }
        let f = Rc::new(f);
        self.funcs.insert(name.to_string(), f.clone());
        Ok(f)
    }

    // ---- memory ----
    fn find(&mut self, st: &State, a: u64, n: u64) -> R<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=a).next_back() {
            if a + n <= b + o.data.len() as u64 {
                return Ok((*b, o.clone()));
            }
        }
        if a >= 0x4000_0000 {
            if let Some((b, (size, name))) = self.gsize.range(..=a).next_back() {
                if a + n <= b + size {
                    let b = *b;
                    if let Some(o) = self.ginit.get(&b) {
                        return Ok((b, o.clone()));
                    }
                    let g = &self.m.globals[name];
                    let mut data = vec![Byte::C(0); *size as usize];
                    if let Some(c) = &g.init {
                        self.cbytes(&g.ty, c, &mut data)?;
                    }
                    let o = Rc::new(Obj { data, heap: false });
                    self.ginit.insert(b, o.clone());
                    return Ok((b, o));
                }
            }
        }
        Err(Stop::Mem(format!("access to {} bytes at {:#x}", n, a)))
    }
    fn read(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Byte>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.find(st, a, n)?;
        let k = (a - b) as usize;
        Ok(o.data[k..k + n as usize].to_vec())
    }
    fn write(&mut self, st: &mut State, a: u64, d: &[Byte]) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (b, o) = self.find(st, a, d.len() as u64)?;
        let k = (a - b) as usize;
        drop(o);
        if !st.mem.contains_key(&b) {
            let o = self.ginit[&b].clone();
            st.mem.insert(b, o);
        }
        let r = st.mem.get_mut(&b).unwrap();
        let r = Rc::make_mut(r);
        r.data[k..k + d.len()].copy_from_slice(d);
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64, align: u64, heap: bool, zero: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + n + 16;
        st.mem.insert(a, Rc::new(Obj { data: vec![if zero { Byte::C(0) } else { Byte::U }; n as usize], heap }));
        a
    }

    fn expr(&mut self, v: &Val, ty: &Ty) -> R<Id> {
        Ok(match v {
            Val::E(i) => *i,
            Val::Int(1, b) => self.ctx.bool(*b != 0),
            Val::Int(w, b) => {
                if matches!(ty, Ty::Double) {
                    let x = f64::from_bits(*b as u64);
                    if !x.is_finite() {
                        return err("infinite value in a term");
                    }
                    self.ctx.real(x)
                } else {
                    self.ctx.bv(*w, *b)
                }
            }
            Val::F64(x) => {
                if !x.is_finite() {
                    return err("infinite value in a term");
                }
                self.ctx.real(*x)
            }
            Val::F32(x) => {
                if !x.is_finite() {
                    return err("infinite value in a term");
                }
                self.ctx.real(*x as f64)
            }
            Val::Undef => match ty {
                Ty::Double | Ty::Float => self.ctx.real(0.0),
                Ty::Int(1) => self.ctx.bool(false),
                t => self.ctx.bv(t.bits(), 0),
            },
            Val::Agg(_) => return err("aggregate in a term"),
        })
    }
    fn norm(&self, i: Id) -> Val {
        match self.ctx.n(i).op {
            Op::CBool(b) => Val::Int(1, b as u128),
            Op::CBV(v) => Val::Int(self.ctx.width(i), v),
            Op::CReal(b) => Val::F64(f64::from_bits(b)),
            _ => Val::E(i),
        }
    }

    fn bytes(&mut self, v: &Val, ty: &Ty, out: &mut Vec<Byte>) -> R<()> {
        match (v, ty) {
            (Val::Agg(vs), Ty::Struct(..) | Ty::Array(..)) => {
                let base = out.len();
                out.resize(base + ty.size() as usize, Byte::U);
                for (i, x) in vs.iter().enumerate() {
                    let t = ty.field(i);
                    let o = base + ty.field_offset(i) as usize;
                    let mut b = vec![];
                    self.bytes(x, &t, &mut b)?;
                    out[o..o + b.len()].copy_from_slice(&b);
                }
                Ok(())
            }
            (Val::Agg(vs), Ty::Vector(_, t)) => {
                if t.bits() % 8 != 0 {
                    return err("store of a vector of bits");
                }
                for x in vs.iter() {
                    self.bytes(x, t, out)?;
                }
                Ok(())
            }
            (Val::E(i), _) => {
                let n = ty.store_size() as u8;
                let e = match self.ctx.sort(*i) {
                    Sort::Bool => self.ctx.zext(*i, 8),
                    Sort::BV(w) => self.ctx.zext(*i, if w > n as u32 * 8 { w } else { n as u32 * 8 }),
                    Sort::Real => *i,
                };
                if let Val::Int(w, v) = self.norm(e) {
                    return conc_bytes(&Val::Int(w, v), ty, out);
                }
                for k in 0..n {
                    out.push(Byte::S(e, k));
                }
                Ok(())
            }
            _ => conc_bytes(v, ty, out),
        }
    }
    fn value(&mut self, b: &[Byte], ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => {
                let mut o = vec![];
                for i in 0..ty.count() {
                    let t = ty.field(i);
                    let k = ty.field_offset(i) as usize;
                    o.push(self.value(&b[k..k + t.store_size() as usize], &t)?);
                }
                return Ok(Val::Agg(Rc::new(o)));
            }
            Ty::Vector(n, t) => {
                if t.bits() % 8 != 0 {
                    return err("load of a vector of bits");
                }
                let s = t.store_size() as usize;
                let mut o = vec![];
                for i in 0..*n as usize {
                    o.push(self.value(&b[i * s..(i + 1) * s], t)?);
                }
                return Ok(Val::Agg(Rc::new(o)));
            }
            _ => {}
        }
        if b.iter().all(|x| matches!(x, Byte::C(_))) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate().take(16) {
                if let Byte::C(c) = x {
                    v |= (*c as u128) << (8 * i);
                }
            }
            return Ok(match ty {
                Ty::Double => Val::F64(f64::from_bits(v as u64)),
                Ty::Float => Val::F32(f32::from_bits(v as u32)),
                t => Val::Int(t.bits(), v & mask(t.bits())),
            });
        }
        if b.iter().all(|x| matches!(x, Byte::U)) {
            return Ok(Val::Undef);
        }
        // one whole term
        if let Byte::S(e, 0) = b[0] {
            let whole = b.iter().enumerate().all(|(i, x)| *x == Byte::S(e, i as u8));
            if whole {
                match self.ctx.sort(e) {
                    Sort::Real if b.len() == 8 || (*ty == Ty::Float && b.len() == 4) => return Ok(Val::E(e)),
                    Sort::BV(w) if w as usize == b.len() * 8 => {
                        if matches!(ty, Ty::Double | Ty::Float) {
                            return self.bits_to_real(e);
                        }
                        let t = ty.bits();
                        if t == 1 {
                            let x = self.ctx.extract(e, 0, 0);
                            let o = self.ctx.bv(1, 1);
                            let r = self.ctx.eq(x, o);
                            return Ok(self.norm(r));
                        }
                        let r = self.ctx.trunc(e, t);
                        return Ok(self.norm(r));
                    }
                    _ => {}
                }
            }
        }
        let mut acc: Option<Id> = None;
        for x in b.iter() {
            let p = match x {
                Byte::C(c) => self.ctx.bv(8, *c as u128),
                Byte::U => self.ctx.bv(8, 0),
                Byte::S(e, k) => {
                    if self.ctx.sort(*e) == Sort::Real {
                        return err("part of a real number read as an integer");
                    }
                    self.ctx.extract(*e, *k as u32 * 8 + 7, *k as u32 * 8)
                }
            };
            acc = Some(match acc {
                None => p,
                Some(a) => self.ctx.concat(p, a),
            });
        }
        let e = acc.unwrap();
        if matches!(ty, Ty::Double) {
            return self.bits_to_real(e);
        }
        let t = ty.bits();
        if t == 1 {
            let x = self.ctx.extract(e, 0, 0);
            let o = self.ctx.bv(1, 1);
            let r = self.ctx.eq(x, o);
            return Ok(self.norm(r));
        }
        let r = self.ctx.trunc(e, t);
        Ok(self.norm(r))
    }
    /// A bit pattern used as a floating point number: only choices between constants can be.
    fn bits_to_real(&mut self, e: Id) -> R<Val> {
        let n = self.ctx.n(e).clone();
        match n.op {
            Op::CBV(v) => Ok(Val::F64(f64::from_bits(v as u64))),
            Op::Ite => {
                let a = self.bits_to_real(n.args[1])?;
                let b = self.bits_to_real(n.args[2])?;
                let x = self.expr(&a, &Ty::Double)?;
                let y = self.expr(&b, &Ty::Double)?;
                let r = self.ctx.ite(n.args[0], x, y);
                Ok(self.norm(r))
            }
            _ if n.sort == Sort::Real => Ok(Val::E(e)),
            _ => err("bits of a symbolic integer used as a floating point number"),
        }
    }

    // ---- decisions ----
    fn learn(&mut self, st: &mut State, c: Id, b: bool) {
        st.facts.insert(c, b);
        let n = self.ctx.not(c);
        st.facts.insert(n, !b);
        let node = self.ctx.n(c).clone();
        if b && node.op == Op::BAnd {
            self.learn(st, node.args[0], true);
            self.learn(st, node.args[1], true);
        }
        if !b && node.op == Op::BOr {
            self.learn(st, node.args[0], false);
            self.learn(st, node.args[1], false);
        }
    }
    fn assume(&mut self, st: &mut State, c: Id) {
        if self.ctx.as_bool(c) == Some(true) {
            return;
        }
        if st.facts.get(&c) != Some(&true) {
            st.pc.push(c);
            self.learn(st, c, true);
        }
    }
    fn bmodel(m: &Model) -> Rc<HashMap<u32, u128>> {
        Rc::new(m.iter().filter_map(|(k, v)| if let MV::B(x) = v { Some((*k, *x)) } else { None }).collect())
    }
    fn sat(&mut self, st: &State, c: Id) -> (Option<bool>, Option<Rc<HashMap<u32, u128>>>) {
        let want = !self.ctx.n(c).real;
        let t = std::time::Instant::now();
        let r = self.solver.check(&self.ctx, &st.pc, c, want);
        if t.elapsed().as_secs_f64() > 3.0 && std::env::var("SYMIR_SLOW").is_ok() {
            eprintln!("{:.1} s: {}", t.elapsed().as_secs_f64(), self.where_(st));
        }
        match r {
            Res::Sat(m) => (Some(true), m.map(|m| Exec::bmodel(&m))),
            Res::Unsat => (Some(false), None),
            Res::Unknown => (None, None),
        }
    }
    /// The truth value of c on this path; forks when both are possible.
    fn decide(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(b) = self.ctx.as_bool(c) {
            return Ok(b);
        }
        if let Some(b) = st.facts.get(&c) {
            return Ok(*b);
        }
        let nc = self.ctx.not(c);
        let mut known = None;
        if !self.ctx.n(c).real {
            if let Some(m) = &st.model {
                known = self.ctx.eval(c, m, &mut HashMap::new()).map(|v| v != 0);
            }
        }
        let (mt, mf);
        match known {
            Some(true) => {
                let (r, m) = self.sat(st, nc);
                if r == Some(false) {
                    self.learn(st, c, true);
                    return Ok(true);
                }
                if r.is_none() {
                    self.unknown_branches += 1;
                }
                mt = st.model.clone();
                mf = m;
            }
            Some(false) => {
                let (r, m) = self.sat(st, c);
                if r == Some(false) {
                    self.learn(st, c, false);
                    return Ok(false);
                }
                if r.is_none() {
                    self.unknown_branches += 1;
                }
                mf = st.model.clone();
                mt = m;
            }
            None => {
                let (r, m) = self.sat(st, c);
                if r == Some(false) {
                    self.learn(st, c, false);
                    return Ok(false);
                }
                let (r2, m2) = self.sat(st, nc);
                if r2 == Some(false) {
                    if r.is_none() {
                        // the path condition is satisfiable, so c must hold
                    }
                    self.learn(st, c, true);
                    if st.model.is_none() {
                        st.model = m;
                    }
                    return Ok(true);
                }
                if r.is_none() || r2.is_none() {
                    self.unknown_branches += 1;
                }
                mt = m;
                mf = m2;
            }
        }
        Err(Stop::Fork { cond: c, mt, mf, pin: None })
    }
    /// A concrete value for e on this path; forks over the feasible ones.
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            Val::Int(_, x) => return Ok(*x),
            Val::Undef => return Ok(0),
            Val::E(e) => *e,
            Val::F64(x) => return Ok(x.to_bits() as u128),
            _ => return err("concretizing an aggregate"),
        };
        if let Some(x) = st.pins.get(&e) {
            return Ok(*x);
        }
        if self.ctx.sort(e) == Sort::Bool {
            return Ok(self.decide(st, e)? as u128);
        }
        if self.ctx.sort(e) == Sort::Real {
            return err("concretizing a real number");
        }
        let x = self.some_value(st, e)?;
        let w = self.ctx.width(e);
        let k = self.ctx.bv(w, x);
        let c = self.ctx.eq(e, k);
        match self.decide(st, c) {
            Ok(true) => {
                st.pins.insert(e, x);
                Ok(x)
            }
            Ok(false) => err("concretize: value of the model is infeasible"),
            Err(Stop::Fork { cond, mt, mf, .. }) => Err(Stop::Fork { cond, mt, mf, pin: Some(Pin::Val(e, x)) }),
            Err(s) => Err(s),
        }
    }
    fn some_value(&mut self, st: &mut State, e: Id) -> R<u128> {
        if let Some(m) = &st.model {
            if let Some(x) = self.ctx.eval(e, m, &mut HashMap::new()) {
                return Ok(x);
            }
        }
        // a model of the path condition that also covers e's variables
        let t = self.ctx.eq(e, e);
        let w = self.ctx.width(e);
        let c = if self.ctx.as_bool(t) == Some(true) {
            let hi = self.ctx.bv(w, mask(w));
            let x = self.ctx.ule(e, hi);
            if self.ctx.as_bool(x).is_some() {
                // something that mentions e
                let z = self.ctx.bv(w, 0);
                let a = self.ctx.eq(e, z);
                let b = self.ctx.not(a);
                let (r, m) = self.sat(st, b);
                if r == Some(true) {
                    if let Some(m) = m {
                        if let Some(x) = self.ctx.eval(e, &m, &mut HashMap::new()) {
                            return Ok(x);
                        }
                    }
                }
                let (r, _) = self.sat(st, a);
                if r == Some(true) {
                    return Ok(0);
                }
                if let Some(vs) = self.value_set(e, 0) {
                    for x in vs {
                        let k = self.ctx.bv(w, x);
                        let c = self.ctx.eq(e, k);
                        if self.sat(st, c).0 == Some(true) {
                            return Ok(x);
                        }
                    }
                }
                return err("no value found for a term");
            }
            x
        } else {
            t
        };
        let _ = c;
        err("no value found for a term")
    }
    /// All feasible values of e (at most maxvals).
    fn values(&mut self, st: &mut State, e: Id) -> R<Vec<u128>> {
        // choices between constants need no solver
        let mut ls = BTreeSet::new();
        if self.leaves(e, &mut ls, 0) && ls.len() <= 16 {
            return Ok(ls.into_iter().collect());
        }
        let mut out: Vec<u128> = vec![];
        let mut c = self.ctx.bool(true);
        let w = self.ctx.width(e);
        if let Some(m) = st.model.clone() {
            if let Some(x) = self.ctx.eval(e, &m, &mut HashMap::new()) {
                out.push(x);
                let k = self.ctx.bv(w, x);
                let q = self.ctx.eq(e, k);
                let q = self.ctx.not(q);
                c = self.ctx.and(c, q);
            }
        }
        if out.is_empty() {
            let x = self.some_value(st, e)?;
            out.push(x);
            let k = self.ctx.bv(w, x);
            let q = self.ctx.eq(e, k);
            let q = self.ctx.not(q);
            c = self.ctx.and(c, q);
        }
        loop {
            if out.len() > self.maxvals {
                return err(format!("more than {} values for an address", self.maxvals));
            }
            match self.solver.check(&self.ctx, &st.pc, c, true) {
                Res::Unsat => return Ok(out),
                Res::Sat(Some(m)) => {
                    let m = Exec::bmodel(&m);
                    match self.ctx.eval(e, &m, &mut HashMap::new()) {
                        Some(x) => {
                            if out.contains(&x) {
                                return err("value enumeration");
                            }
                            out.push(x);
                            let k = self.ctx.bv(w, x);
                            let q = self.ctx.eq(e, k);
                            let q = self.ctx.not(q);
                            c = self.ctx.and(c, q);
                        }
                        None => return err("value enumeration without model"),
                    }
                }
                _ => return err("value enumeration: solver gave up"),
            }
        }
    }
    /// a small set that contains every value of e
    fn value_set(&self, e: Id, depth: u32) -> Option<BTreeSet<u128>> {
        if depth > 24 {
            return None;
        }
        let n = self.ctx.n(e);
        let w = self.ctx.width(e);
        let r: BTreeSet<u128> = match (n.op, n.sort) {
            (Op::CBV(v), _) => [v].into(),
            (_, Sort::Bool) => [0, 1].into(),
            (_, Sort::Real) => return None,
            (Op::Ite, _) => {
                let mut a = self.value_set(n.args[1], depth + 1)?;
                a.extend(self.value_set(n.args[2], depth + 1)?);
                a
            }
            (Op::ZExt, _) => self.value_set(n.args[0], depth + 1)?,
            (Op::SExt, _) => {
                let k = self.ctx.width(n.args[0]);
                self.value_set(n.args[0], depth + 1)?.into_iter().map(|x| sx(x, k) as u128 & mask(w)).collect()
            }
            (Op::Extract(h, l), _) => self.value_set(n.args[0], depth + 1)?.into_iter().map(|x| x >> l & mask(h - l + 1)).collect(),
            (op, _) if n.args.len() == 2 => {
                let (a, b) = (self.value_set(n.args[0], depth + 1)?, self.value_set(n.args[1], depth + 1)?);
                let mut r = BTreeSet::new();
                if op == Op::Concat {
                    let k = self.ctx.width(n.args[1]);
                    for x in &a {
                        for y in &b {
                            r.insert(x << k | y);
                        }
                    }
                } else {
                    for x in &a {
                        for y in &b {
                            r.insert(Ctx::fold(op, w, *x, *y)?);
                        }
                    }
                }
                r
            }
            _ => return None,
        };
        if r.len() > 64 {
            return None;
        }
        Some(r)
    }
    fn leaves(&self, e: Id, out: &mut BTreeSet<u128>, depth: u32) -> bool {
        if depth > 6 {
            return false;
        }
        let n = self.ctx.n(e);
        match n.op {
            Op::CBV(v) => {
                out.insert(v);
                true
            }
            Op::Ite => self.leaves(n.args[1], out, depth + 1) && self.leaves(n.args[2], out, depth + 1),
            Op::Add => {
                if let Some(k) = self.ctx.as_bv(n.args[1]) {
                    let mut s = BTreeSet::new();
                    if !self.leaves(n.args[0], &mut s, depth + 1) {
                        return false;
                    }
                    for x in s {
                        out.insert(x.wrapping_add(k) & mask(self.ctx.width(e)));
                    }
                    return true;
                }
                false
            }
            Op::ZExt => self.leaves(n.args[0], out, depth + 1),
            _ => false,
        }
    }

    fn load(&mut self, st: &mut State, a: &Val, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        match a {
            Val::Int(_, x) => {
                let x = *x as u64;
                if n == 0 {
                    return Ok(self.zero(ty));
                }
                let (b, o) = self.find(st, x, n)?;
                let k = (x - b) as usize;
                self.value(&o.data[k..k + n as usize], ty)
            }
            Val::E(e) => {
                let e = *e;
                if let Some(x) = st.pins.get(&e) {
                    let x = *x;
                    return self.load(st, &Val::Int(64, x), ty);
                }
                if let Some(v) = self.load_split(st, e, ty, &mut HashMap::new(), 0)? {
                    return Ok(v);
                }
                let vs = match self.values(st, e) {
                    Ok(v) => v,
                    Err(Stop::Error(_)) => {
                        let x = self.concretize(st, a)?;
                        return self.load(st, &Val::Int(64, x), ty);
                    }
                    Err(s) => return Err(s),
                };
                let mut loaded = vec![];
                for x in vs.iter() {
                    match self.load(st, &Val::Int(64, *x), ty) {
                        Ok(v) => loaded.push((*x, v)),
                        Err(Stop::Mem(_)) => {
                            // an address outside every object: decide whether it can be
                            let k = self.ctx.bv(64, *x);
                            let c = self.ctx.eq(e, k);
                            if self.decide(st, c)? {
                                return Err(Stop::Mem(format!("access at {:#x}", x)));
                            }
                        }
                        Err(s) => return Err(s),
                    }
                }
                if loaded.is_empty() {
                    return Err(Stop::Dead);
                }
                let mut acc = loaded[loaded.len() - 1].1.clone();
                for (x, v) in loaded[..loaded.len() - 1].iter().rev() {
                    let k = self.ctx.bv(64, *x);
                    let c = self.ctx.eq(e, k);
                    acc = match self.choose_val(c, v, &acc, ty) {
                        Ok(v) => v,
                        Err(Stop::Error(_)) => {
                            let x = self.concretize(st, a)?;
                            return self.load(st, &Val::Int(64, x), ty);
                        }
                        Err(s) => return Err(s),
                    };
                }
                Ok(acc)
            }
            _ => Err(Stop::Mem("load through an undefined pointer".into())),
        }
    }
    /// Takes a choice out of an address: c ? x : y, as two addresses.
    fn split(&mut self, e: Id) -> Option<(Id, Id, Id)> {
        let n = self.ctx.n(e).clone();
        let w = if let Sort::BV(w) = n.sort { w } else { return None };
        match n.op {
            Op::Ite => Some((n.args[0], n.args[1], n.args[2])),
            Op::ZExt => {
                let (c, x, y) = self.split(n.args[0])?;
                Some((c, self.ctx.zext(x, w), self.ctx.zext(y, w)))
            }
            Op::Add | Op::Mul | Op::Or | Op::Concat => {
                for k in 0..2 {
                    if let Some((c, x, y)) = self.split(n.args[k]) {
                        let mut f = |s: &mut Exec, z: Id| {
                            let (p, q) = if k == 0 { (z, n.args[1]) } else { (n.args[0], z) };
                            if n.op == Op::Concat {
                                s.ctx.concat(p, q)
                            } else {
                                s.ctx.bin(n.op, p, q)
                            }
                        };
                        let x = f(self, x);
                        let y = f(self, y);
                        return Some((c, x, y));
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// Load at an address that contains choices: both sides are loaded.
    fn load_split(&mut self, st: &mut State, e: Id, ty: &Ty, memo: &mut HashMap<Id, Val>, depth: u32) -> R<Option<Val>> {
        if let Some(v) = memo.get(&e) {
            return Ok(Some(v.clone()));
        }
        if depth > 40 || memo.len() > 600 {
            return Ok(None);
        }
        let v = if let Some(x) = self.ctx.as_bv(e) {
            match self.load(st, &Val::Int(64, x), ty) {
                Ok(v) => v,
                Err(Stop::Mem(_)) => return Ok(None),
                Err(s) => return Err(s),
            }
        } else if let Some((c, x, y)) = self.split(e) {
            let p = match self.load_split(st, x, ty, memo, depth + 1)? {
                Some(v) => v,
                None => return Ok(None),
            };
            let q = match self.load_split(st, y, ty, memo, depth + 1)? {
                Some(v) => v,
                None => return Ok(None),
            };
            match self.choose_val(c, &p, &q, ty) {
                Ok(v) => v,
                Err(Stop::Error(_)) => return Ok(None),
                Err(s) => return Err(s),
            }
        } else if depth > 0 {
            // the value may be out of reach under the choices made so far
            let n = self.ctx.n(e);
            if n.hi - n.lo > 4096 {
                return Ok(None);
            }
            match self.load(st, &Val::E(e), ty) {
                Ok(v) => v,
                Err(Stop::Mem(_)) | Err(Stop::Error(_)) => return Ok(None),
                Err(s) => return Err(s),
            }
        } else {
            return Ok(None);
        };
        memo.insert(e, v.clone());
        Ok(Some(v))
    }
    fn store(&mut self, st: &mut State, a: &Val, v: &Val, ty: &Ty) -> R<()> {
        match a {
            Val::Int(_, x) => {
                let mut b = vec![];
                self.bytes(v, ty, &mut b)?;
                self.write(st, *x as u64, &b)
            }
            Val::E(e) => {
                let e = *e;
                if let Some(x) = st.pins.get(&e) {
                    let x = *x;
                    return self.store(st, &Val::Int(64, x), v, ty);
                }
                let simple = matches!(ty, Ty::Int(_) | Ty::Double | Ty::Ptr);
                let vs = if simple { self.values(st, e) } else { err("") };
                let vs = match vs {
                    Ok(v) if v.len() <= 32 => v,
                    _ => {
                        let x = self.concretize(st, a)?;
                        return self.store(st, &Val::Int(64, x), v, ty);
                    }
                };
                let mut new = vec![];
                for x in vs.iter() {
                    let k = self.ctx.bv(64, *x);
                    let c = self.ctx.eq(e, k);
                    let old = match self.load(st, &Val::Int(64, *x), ty) {
                        Ok(o) => o,
                        Err(Stop::Mem(s)) => {
                            if self.decide(st, c)? {
                                return Err(Stop::Mem(s));
                            }
                            continue;
                        }
                        _ => {
                            let x = self.concretize(st, a)?;
                            return self.store(st, &Val::Int(64, x), v, ty);
                        }
                    };
                    match self.choose_val(c, v, &old, ty) {
                        Ok(n) => new.push((*x, n)),
                        Err(_) => {
                            let x = self.concretize(st, a)?;
                            return self.store(st, &Val::Int(64, x), v, ty);
                        }
                    }
                }
                for (x, n) in new {
                    self.store(st, &Val::Int(64, x), &n, ty)?;
                }
                Ok(())
            }
            _ => Err(Stop::Mem("store through an undefined pointer".into())),
        }
    }
    fn choose_val(&mut self, c: Id, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(self.choose_val(c, &x[i], &y[i], &ty.field(i))?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        match (a, b) {
            (Val::Undef, x) | (x, Val::Undef) => return Ok(x.clone()),
            (Val::Int(_, x), Val::Int(_, y)) if x == y => return Ok(a.clone()),
            (Val::F64(x), Val::F64(y)) if x.to_bits() == y.to_bits() => return Ok(a.clone()),
            _ => {}
        }
        let is_real = |s: &Exec, v: &Val| matches!(v, Val::E(i) if s.ctx.sort(*i) == Sort::Real);
        let t = if is_real(self, a) || is_real(self, b) { Ty::Double } else { ty.clone() };
        let x = self.expr(a, &t)?;
        let y = self.expr(b, &t)?;
        if self.ctx.sort(x) != self.ctx.sort(y) {
            return err("choice between terms of different sorts");
        }
        let r = self.ctx.ite(c, x, y);
        Ok(self.norm(r))
    }
    fn cstr(&mut self, st: &State, p: &Val, n: &Val) -> R<String> {
        if let (Val::Int(_, p), Val::Int(_, n)) = (p, n) {
            let b = self.read(st, *p as u64, *n as u64)?;
            let v: Vec<u8> = b.iter().map(|x| if let Byte::C(c) = x { *c } else { b'?' }).collect();
            return Ok(String::from_utf8_lossy(&v).to_string());
        }
        Ok("?".into())
    }

    // ---- running ----
    fn opd(&self, fr: &Frame, ty: &Ty, o: &Opd) -> R<Val> {
        match o {
            Opd::Reg(r) => Ok(fr.regs[*r as usize].clone()),
            Opd::C(c) => self.cval(ty, c),
            Opd::Meta => Ok(Val::Undef),
        }
    }
    fn top(&self, st: &State, o: &TOp) -> R<Val> {
        self.opd(st.frames.last().unwrap(), &o.ty, &o.op)
    }
    fn sop(&self, st: &State, ty: &Ty, o: &Opd) -> R<Val> {
        self.opd(st.frames.last().unwrap(), ty, o)
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let f = self.func(entry).map_err(|e| format!("{:?}", e))?;
        let regs = vec![Val::Undef; f.nregs];
        Ok(State {
            frames: vec![Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }],
            mem: BTreeMap::new(),
            next: 0x7000_0000_0000,
            pc: vec![],
            facts: HashMap::new(),
            pins: HashMap::new(),
            floors: HashMap::new(),
            model: Some(Rc::new(HashMap::new())),
            inputs: vec![],
            outs: vec![],
            steps: 0,
            nvars: 0,
            panic_ok: false,
            tainted: false,
            covers: BTreeSet::new(),
            notes: BTreeSet::new(),
        })
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let st = self.initial(entry)?;
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            if Instant::now() > self.deadline {
                self.incomplete = true;
                break;
            }
            if self.violations.len() >= self.max_violations {
                break;
            }
            if self.stop_on_first && !self.violations.is_empty() {
                break;
            }
            loop {
                match self.step(&mut st) {
                    Ok(()) => {
                        if st.steps & 0xfff == 0 && Instant::now() > self.deadline {
                            self.incomplete = true;
                            break;
                        }
                        if st.steps > self.max_steps {
                            self.violation(&mut st, "steps", format!("path longer than {} instructions", self.max_steps));
                            break;
                        }
                    }
                    Err(Stop::Fork { cond, mt, mf, pin }) => {
                        self.forks += 1;
                        let mut other = st.clone();
                        let nc = self.ctx.not(cond);
                        self.assume(&mut other, nc);
                        other.model = mf;
                        self.assume(&mut st, cond);
                        st.model = mt;
                        match pin {
                            Some(Pin::Val(e, v)) => {
                                st.pins.insert(e, v);
                            }
                            Some(Pin::Floor(e, v)) => {
                                st.floors.insert(e, v);
                            }
                            None => {}
                        }
                        work.push(other);
                    }
                    Err(Stop::Values(id, n)) => {
                        for v in (0..n).rev() {
                            let mut s = st.clone();
                            s.pins.insert(id, v as u128);
                            work.push(s);
                        }
                        break;
                    }
                    Err(Stop::Dead) => {
                        self.dead += 1;
                        break;
                    }
                    Err(Stop::Done) => {
                        self.finish(&mut st, false);
                        break;
                    }
                    Err(Stop::Panic(s)) => {
                        if st.panic_ok {
                            self.panics_ok += 1;
                            self.finish(&mut st, true);
                        } else {
                            self.violation(&mut st, "panic", s);
                        }
                        break;
                    }
                    Err(Stop::Mem(s)) => {
                        let w = self.where_(&st);
                        self.violation(&mut st, "memory", format!("{} {}", s, w));
                        break;
                    }
                    Err(Stop::Error(s)) => {
                        let w = self.where_(&st);
                        *self.errors.entry(format!("{} {}", s, w)).or_insert(0) += 1;
                        break;
                    }
                }
            }
            self.notes.extend(st.notes.iter().cloned());
        }
        Ok(())
    }
    fn where_(&self, st: &State) -> String {
        let mut s = String::from("in ");
        for fr in st.frames.iter().rev().take(4) {
            s.push_str(&fr.f.name);
            if let Some(i) = fr.f.blocks.get(fr.block as usize).and_then(|b| b.get(fr.ip)) {
                s.push_str(&format!(" [{}]", crate::dbg::loc(self.m, i.dbg)));
            }
            s.push_str(" < ");
        }
        s
    }
    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|fr| {
                let d = fr.f.blocks.get(fr.block as usize).and_then(|b| b.get(fr.ip)).map_or(0, |i| i.dbg);
                format!("{} {}", fr.f.name, crate::dbg::loc(self.m, d))
            })
            .collect()
    }
    fn inputs_under(&self, st: &State, m: &Model, list: &[Input]) -> Vec<Option<u64>> {
        let _ = st;
        let bm = Exec::bmodel(m);
        list.iter()
            .map(|i| match i {
                Input::C(x) => Some(*x),
                Input::E(e) => match self.ctx.sort(*e) {
                    Sort::Real => match self.ctx.n(*e).op {
                        Op::Var(v) => Some(match m.get(&v) {
                            Some(MV::R(x)) => x.to_bits(),
                            _ => 0f64.to_bits(),
                        }),
                        _ => None,
                    },
                    _ => {
                        let mut full: HashMap<u32, u128> = (*bm).clone();
                        for v in self.ctx.n(*e).vars.iter() {
                            full.entry(*v).or_insert(0);
                        }
                        self.ctx.eval(*e, &full, &mut HashMap::new()).map(|x| x as u64)
                    }
                },
            })
            .collect()
    }
    fn full_model(&mut self, st: &State, c: Id) -> Option<Model> {
        match self.solver.check(&self.ctx, &st.pc, c, true) {
            Res::Sat(Some(m)) => Some(m),
            _ => None,
        }
    }
    fn finish(&mut self, st: &mut State, panicked: bool) {
        self.paths += 1;
        // every power of two and the first few paths are kept as samples
        if self.samples.len() < self.max_samples && (self.paths <= 2 || self.paths.is_power_of_two()) {
            let t = self.ctx.bool(true);
            if let Some(m) = self.full_model(st, t) {
                let inp = self.inputs_under(st, &m, &st.inputs);
                let outs = self.inputs_under(st, &m, &st.outs);
                if inp.iter().all(|x| x.is_some()) {
                    self.samples.push(PathSample { inputs: inp.into_iter().map(|x| x.unwrap()).collect(), covers: st.covers.iter().cloned().collect(), outs, panicked });
                }
            }
        }
    }
    fn violation(&mut self, st: &mut State, kind: &str, what: String) {
        let t = self.ctx.bool(true);
        self.violation_with(st, kind, what, t);
    }
    fn violation_with(&mut self, st: &mut State, kind: &str, what: String, c: Id) {
        if self.violations.iter().filter(|v| v.kind == kind && v.what == what).count() >= 2 {
            return;
        }
        let trace = self.trace(st);
        // values on a coarse grid first: they are exact in floating point
        let mut models = vec![];
        if let Some(m) = self.full_model(st, c) {
            models.push(m);
        }
        if models.is_empty() {
            if let Res::Unsat = self.solver.check(&self.ctx, &st.pc, c, false) {
                // an infeasible path that the solver could not refute earlier
                return;
            }
            self.violations.push(Violation { kind: kind.into(), what, inputs: vec![], have_model: false, tainted: st.tainted, trace });
            return;
        }
        for m in models {
            let inp = self.inputs_under(st, &m, &st.inputs);
            let ok = inp.iter().all(|x| x.is_some());
            self.violations.push(Violation {
                kind: kind.into(),
                what: what.clone(),
                inputs: inp.into_iter().map(|x| x.unwrap_or(0)).collect(),
                have_model: ok,
                tainted: st.tainted,
                trace: trace.clone(),
            });
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = match f.blocks[fr.block as usize].get(fr.ip) {
            Some(i) => i,
            None => return err("fell off a block"),
        };
        st.steps += 1;
        self.steps += 1;
        if inst.dbg != 0 {
            self.dbg_seen.insert(inst.dbg);
        }
        let v = match &inst.ins {
            Ins::Bin(op, a, b) => {
                let x = self.top(st, a)?;
                let y = self.sop(st, &a.ty, b)?;
                Some(self.binop(st, op, &a.ty, &x, &y)?)
            }
            Ins::FNeg(a) => {
                let x = self.top(st, a)?;
                Some(self.fneg(&x)?)
            }
            Ins::ICmp(p, a, b) => {
                let x = self.top(st, a)?;
                let y = self.sop(st, &a.ty, b)?;
                Some(self.icmp(st, p, &a.ty, &x, &y)?)
            }
            Ins::FCmp(p, a, b) => {
                let x = self.top(st, a)?;
                let y = self.sop(st, &a.ty, b)?;
                Some(self.fcmp(p, &x, &y)?)
            }
            Ins::Cast(op, a, t) => {
                let x = self.top(st, a)?;
                Some(self.cast(st, op, &a.ty, &x, t)?)
            }
            Ins::Select(c, a, b) => {
                let cv = self.top(st, c)?;
                let x = self.top(st, a)?;
                let y = self.top(st, b)?;
                Some(self.select(st, &cv, &x, &y, &a.ty)?)
            }
            Ins::Gep(t, b, ix) => {
                let mut a = self.top(st, b)?;
                let mut cur = t.clone();
                for (k, i) in ix.iter().enumerate() {
                    let iv = self.top(st, i)?;
                    if k > 0 {
                        if let Ty::Struct(..) = cur {
                            if let Val::Int(_, x) = iv {
                                let o = cur.field_offset(x as usize);
                                cur = cur.field(x as usize);
                                a = self.add_const(&a, o)?;
                                continue;
                            }
                            return err("gep");
                        }
                        cur = cur.field(0);
                    }
                    let s = cur.size();
                    match (&iv, &a) {
                        (Val::Int(w, x), _) => {
                            let o = (sx(*x, *w) as i64).wrapping_mul(s as i64) as u64;
                            a = self.add_const(&a, o)?;
                        }
                        (Val::E(_), _) => {
                            let e = self.expr(&iv, &i.ty)?;
                            let e = self.ctx.sext(e, 64);
                            let k = self.ctx.bv(64, s as u128);
                            let o = self.ctx.bin(Op::Mul, e, k);
                            let b = self.expr(&a, &Ty::Ptr)?;
                            let r = self.ctx.bin(Op::Add, b, o);
                            a = self.norm(r);
                        }
                        _ => a = Val::Undef,
                    }
                }
                Some(a)
            }
            Ins::Load(t, a) => {
                let p = self.top(st, a)?;
                Some(self.load(st, &p, t)?)
            }
            Ins::Store(v, a) => {
                let x = self.top(st, v)?;
                let p = self.top(st, a)?;
                self.store(st, &p, &x, &v.ty)?;
                None
            }
            Ins::Alloca(t, n, al) => {
                let mut k = 1;
                if let Some(n) = n {
                    let x = self.top(st, n)?;
                    k = self.concretize(st, &x)? as u64;
                }
                let a = self.alloc(st, t.size() * k, *al, false, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                Some(Val::Int(64, a as u128))
            }
            Ins::Phi(..) => {
                // all phis of the block at once
                let fr = st.frames.last().unwrap();
                let mut vals = vec![];
                let mut k = fr.ip;
                let blk = &f.blocks[fr.block as usize];
                while let Some(Inst { dst, ins: Ins::Phi(t, vs), .. }) = blk.get(k) {
                    let (o, _) = match vs.iter().find(|(_, b)| *b == fr.prev) {
                        Some(x) => x,
                        None => return err("phi without the predecessor"),
                    };
                    vals.push((dst.unwrap(), self.opd(fr, t, o)?));
                    k += 1;
                }
                let fr = st.frames.last_mut().unwrap();
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
                fr.ip = k;
                return Ok(());
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let v = self.sop(st, &Ty::Int(1), c)?;
                let t = match v {
                    Val::Int(_, x) => x != 0,
                    Val::E(e) => self.decide(st, e)?,
                    Val::Undef => false,
                    _ => return err("branch condition"),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(v, d, cs) => {
                let x = self.top(st, v)?;
                match x {
                    Val::Int(_, x) => {
                        let t = cs.iter().find(|(k, _)| *k == x).map_or(*d, |c| c.1);
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        let w = v.ty.bits();
                        let e = if self.ctx.sort(e) == Sort::Bool { self.ctx.zext(e, w) } else { e };
                        let mut target = *d;
                        for (k, b) in cs.iter() {
                            let kk = self.ctx.bv(w, *k);
                            let c = self.ctx.eq(e, kk);
                            if self.decide(st, c)? {
                                target = *b;
                                break;
                            }
                        }
                        self.jump(st, target);
                    }
                    Val::Undef => self.jump(st, *d),
                    _ => return err("switch"),
                }
                return Ok(());
            }
            Ins::Ret(v) => {
                let r = match v {
                    Some(o) => Some(self.top(st, o)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas.iter() {
                    st.mem.remove(a);
                }
                match st.frames.last_mut() {
                    None => return Err(Stop::Done),
                    Some(p) => {
                        if let (Some(d), Some(r)) = (fr.dst, r) {
                            p.regs[d as usize] = r;
                        }
                        match fr.normal {
                            Some(b) => {
                                p.prev = p.block;
                                p.block = b;
                                p.ip = 0;
                            }
                            None => p.ip += 1,
                        }
                    }
                }
                return Ok(());
            }
            Ins::Unreachable => return Err(Stop::Mem("unreachable code reached".into())),
            Ins::ExtractValue(a, ix) => {
                let mut x = self.top(st, a)?;
                for i in ix {
                    x = match x {
                        Val::Agg(v) => v[*i].clone(),
                        _ => Val::Undef,
                    };
                }
                Some(x)
            }
            Ins::InsertValue(a, b, ix) => {
                let x = self.top(st, a)?;
                let y = self.top(st, b)?;
                Some(self.insert(&x, &a.ty, &y, ix)?)
            }
            Ins::ExtractElement(a, i) => {
                let x = self.top(st, a)?;
                let iv = self.top(st, i)?;
                let k = self.concretize(st, &iv)? as usize;
                match x {
                    Val::Agg(v) => Some(v[k].clone()),
                    _ => Some(Val::Undef),
                }
            }
            Ins::InsertElement(a, b, i) => {
                let x = self.top(st, a)?;
                let y = self.top(st, b)?;
                let iv = self.top(st, i)?;
                let k = self.concretize(st, &iv)? as usize;
                Some(self.insert(&x, &a.ty, &y, &[k])?)
            }
            Ins::Shuffle(a, b, m) => {
                let x = self.top(st, a)?;
                let y = self.top(st, b)?;
                let mv = self.top(st, m)?;
                let n = a.ty.count();
                let get = |v: &Val, i: usize| match v {
                    Val::Agg(v) => v[i].clone(),
                    _ => Val::Undef,
                };
                let mut o = vec![];
                for k in 0..m.ty.count() {
                    o.push(match get(&mv, k) {
                        Val::Int(_, i) => {
                            if (i as usize) < n {
                                get(&x, i as usize)
                            } else {
                                get(&y, i as usize - n)
                            }
                        }
                        _ => Val::Undef,
                    });
                }
                Some(Val::Agg(Rc::new(o)))
            }
            Ins::Freeze(a) => Some(match self.top(st, a)? {
                Val::Undef => self.zero(&a.ty),
                v => v,
            }),
            Ins::CmpXchg(p, c, n) => {
                let a = self.top(st, p)?;
                let cv = self.top(st, c)?;
                let nv = self.top(st, n)?;
                let old = self.load(st, &a, &c.ty)?;
                let eq = self.icmp(st, "eq", &c.ty, &old, &cv)?;
                let t = match eq {
                    Val::Int(_, x) => x != 0,
                    Val::E(e) => self.decide(st, e)?,
                    _ => false,
                };
                if t {
                    self.store(st, &a, &nv, &c.ty)?;
                }
                Some(Val::Agg(Rc::new(vec![old, Val::Int(1, t as u128)])))
            }
            Ins::AtomicRmw(op, p, v) => {
                let a = self.top(st, p)?;
                let x = self.top(st, v)?;
                let old = self.load(st, &a, &v.ty)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.binop(st, op, &v.ty, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() {
                            "umax" => "ugt",
                            "umin" => "ult",
                            "max" => "sgt",
                            _ => "slt",
                        };
                        let c = self.icmp(st, p, &v.ty, &old, &x)?;
                        self.select(st, &c, &old, &x, &v.ty)?
                    }
                    _ => return err("atomicrmw"),
                };
                self.store(st, &a, &new, &v.ty)?;
                Some(old)
            }
            Ins::Fence => None,
            Ins::Call { ret, callee, args, noreturn, normal } => {
                return self.call(st, inst, ret, callee, args, *noreturn, *normal);
            }
            Ins::Unsupported(s) => return err(format!("unsupported: {}", s)),
        };
        let fr = st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (inst.dst, v) {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
        Ok(())
    }
    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.block;
        fr.block = b;
        fr.ip = 0;
    }
    fn add_const(&mut self, a: &Val, o: u64) -> R<Val> {
        Ok(match a {
            Val::Int(_, x) => Val::Int(64, (*x as u64).wrapping_add(o) as u128),
            Val::E(e) => {
                let k = self.ctx.bv(64, o as u128);
                let r = self.ctx.bin(Op::Add, *e, k);
                self.norm(r)
            }
            _ => Val::Undef,
        })
    }
    fn insert(&mut self, x: &Val, ty: &Ty, y: &Val, ix: &[usize]) -> R<Val> {
        if ix.is_empty() {
            return Ok(y.clone());
        }
        let mut v: Vec<Val> = match x {
            Val::Agg(v) => (**v).clone(),
            _ => vec![Val::Undef; ty.count()],
        };
        v[ix[0]] = self.insert(&v[ix[0]], &ty.field(ix[0]), y, &ix[1..])?;
        Ok(Val::Agg(Rc::new(v)))
    }
    fn select(&mut self, st: &mut State, c: &Val, x: &Val, y: &Val, ty: &Ty) -> R<Val> {
        match c {
            Val::Int(_, k) => Ok(if *k != 0 { x.clone() } else { y.clone() }),
            Val::E(e) => {
                if let Some(b) = st.facts.get(e) {
                    return Ok(if *b { x.clone() } else { y.clone() });
                }
                match self.choose_val(*e, x, y, ty) {
                    Ok(v) => Ok(v),
                    Err(Stop::Error(_)) => Ok(if self.decide(st, *e)? { x.clone() } else { y.clone() }),
                    Err(s) => Err(s),
                }
            }
            Val::Agg(cs) => {
                let mut o = vec![];
                for i in 0..cs.len() {
                    let (a, b) = match (x, y) {
                        (Val::Agg(a), Val::Agg(b)) => (a[i].clone(), b[i].clone()),
                        _ => return err("vector select"),
                    };
                    o.push(self.select(st, &cs[i], &a, &b, &ty.field(i))?);
                }
                Ok(Val::Agg(Rc::new(o)))
            }
            _ => Ok(y.clone()),
        }
    }
    fn is_real(&self, v: &Val) -> bool {
        matches!(v, Val::E(i) if self.ctx.sort(*i) == Sort::Real)
    }
    fn binop(&mut self, st: &mut State, op: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::Agg(a), Val::Agg(b)) = (x, y) {
            let t = ty.field(0);
            let mut o = vec![];
            for i in 0..a.len() {
                o.push(self.binop(st, op, &t, &a[i], &b[i])?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if op.starts_with('f') {
            return self.fbin(st, op, ty, x, y);
        }
        if self.is_real(x) || self.is_real(y) {
            return self.real_bits(st, op, x, y);
        }
        let o = match op {
            "add" => Op::Add,
            "sub" => Op::Sub,
            "mul" => Op::Mul,
            "udiv" => Op::UDiv,
            "sdiv" => Op::SDiv,
            "urem" => Op::URem,
            "srem" => Op::SRem,
            "and" => Op::And,
            "or" => Op::Or,
            "xor" => Op::Xor,
            "shl" => Op::Shl,
            "lshr" => Op::LShr,
            "ashr" => Op::AShr,
            _ => return err(format!("operation {}", op)),
        };
        let w = ty.bits();
        if let (Val::Int(_, a), Val::Int(_, b)) = (x, y) {
            if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *b == 0 {
                return Err(Stop::Mem("division by zero".into()));
            }
            return Ok(Val::Int(w, Ctx::fold(o, w, *a, *b).unwrap()));
        }
        match (o, x, y) {
            // nothing may depend on an undefined value, except that it can be masked
            (Op::And, Val::Undef, _) | (Op::And, _, Val::Undef) => return Ok(self.zero(ty)),
            (Op::Or, Val::Undef, v) | (Op::Or, v, Val::Undef) => return Ok(v.clone()),
            _ => {}
        }
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Undef);
        }
        let a = self.expr(x, ty)?;
        let b = self.expr(y, ty)?;
        if w == 1 {
            let r = match o {
                Op::And | Op::Mul => self.ctx.and(a, b),
                Op::Or => self.ctx.or(a, b),
                Op::Xor | Op::Add | Op::Sub => {
                    let e = self.ctx.eq(a, b);
                    self.ctx.not(e)
                }
                Op::Shl | Op::LShr => {
                    let n = self.ctx.not(b);
                    self.ctx.and(a, n)
                }
                _ => return err("operation on bits"),
            };
            return Ok(self.norm(r));
        }
        let r = self.ctx.bin(o, a, b);
        Ok(self.norm(r))
    }
    /// Integer operations on the bits of a real number: sign manipulations.
    fn real_bits(&mut self, st: &mut State, op: &str, x: &Val, y: &Val) -> R<Val> {
        let (x, y) = if self.is_real(x) { (x, y) } else { (y, x) };
        let e = if let Val::E(e) = x { *e } else { unreachable!() };
        const SIGN: u128 = 1 << 63;
        let z = self.ctx.real(0.0);
        match (op, y) {
            ("and", Val::Int(_, m)) if *m == SIGN - 1 => {
                let n = self.ctx.rneg(e);
                let c = self.ctx.rlt(e, z);
                let r = self.ctx.ite(c, n, e);
                Ok(self.norm(r))
            }
            ("xor", Val::Int(_, m)) if *m == SIGN => {
                let r = self.ctx.rneg(e);
                Ok(self.norm(r))
            }
            ("and", Val::Int(_, m)) if *m == SIGN => {
                let c = self.ctx.rlt(e, z);
                let (p, q) = (self.ctx.bv(64, SIGN), self.ctx.bv(64, 0));
                let r = self.ctx.ite(c, p, q);
                Ok(self.norm(r))
            }
            ("or", Val::Int(_, m)) if *m == SIGN => {
                let n = self.ctx.rneg(e);
                let c = self.ctx.rlt(e, z);
                let r = self.ctx.ite(c, e, n);
                Ok(self.norm(r))
            }
            ("lshr", Val::Int(_, 63)) => {
                let c = self.ctx.rlt(e, z);
                let r = self.ctx.zext(c, 64);
                Ok(self.norm(r))
            }
            ("ashr", Val::Int(_, 63)) => {
                let c = self.ctx.rlt(e, z);
                let r = self.ctx.sext(c, 64);
                Ok(self.norm(r))
            }
            ("or" | "add" | "xor", Val::Int(_, 0)) => Ok(x.clone()),
            ("and", Val::Int(_, m)) if *m == mask(64) => Ok(x.clone()),
            ("and", Val::Int(_, 0)) => Ok(Val::Int(64, 0)),
            _ => {
                let _ = st;
                err(format!("bit operation {} on a real number", op))
            }
        }
    }
    fn icmp(&mut self, st: &mut State, p: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::Agg(a), Val::Agg(b)) = (x, y) {
            let t = ty.field(0);
            let mut o = vec![];
            for i in 0..a.len() {
                o.push(self.icmp(st, p, &t, &a[i], &b[i])?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Undef);
        }
        let w = ty.bits();
        if let (Val::Int(_, a), Val::Int(_, b)) = (x, y) {
            let (s, t) = (sx(*a, w), sx(*b, w));
            let r = match p {
                "eq" => a == b,
                "ne" => a != b,
                "ult" => a < b,
                "ule" => a <= b,
                "ugt" => a > b,
                "uge" => a >= b,
                "slt" => s < t,
                "sle" => s <= t,
                "sgt" => s > t,
                "sge" => s >= t,
                _ => return err("icmp"),
            };
            return Ok(Val::Int(1, r as u128));
        }
        if self.is_real(x) || self.is_real(y) {
            return self.real_icmp(p, x, y);
        }
        let a = self.expr(x, ty)?;
        let b = self.expr(y, ty)?;
        if w == 1 {
            let na = self.ctx.not(a);
            let nb = self.ctx.not(b);
            let r = match p {
                "eq" => self.ctx.eq(a, b),
                "ne" => self.ctx.eq(a, nb),
                "ult" | "sgt" => self.ctx.and(na, b),
                "ule" | "sge" => self.ctx.or(na, b),
                "ugt" | "slt" => self.ctx.and(a, nb),
                "uge" | "sle" => self.ctx.or(a, nb),
                _ => return err("icmp"),
            };
            return Ok(self.norm(r));
        }
        let r = match p {
            "eq" => self.ctx.eq(a, b),
            "ne" => {
                let e = self.ctx.eq(a, b);
                self.ctx.not(e)
            }
            "ult" => self.ctx.ult(a, b),
            "ule" => self.ctx.ule(a, b),
            "ugt" => self.ctx.ult(b, a),
            "uge" => self.ctx.ule(b, a),
            "slt" => self.ctx.slt(a, b),
            "sle" => self.ctx.sle(a, b),
            "sgt" => self.ctx.slt(b, a),
            "sge" => self.ctx.sle(b, a),
            _ => return err("icmp"),
        };
        Ok(self.norm(r))
    }
    /// Comparison of the bit patterns of real numbers.
    fn real_icmp(&mut self, p: &str, x: &Val, y: &Val) -> R<Val> {
        let z = self.ctx.real(0.0);
        if let (Val::E(e), Val::Int(_, k)) = (x, y) {
            if *k == 0 && p == "slt" {
                let r = self.ctx.rlt(*e, z);
                return Ok(self.norm(r));
            }
            if *k == mask(64) && p == "sgt" {
                let r = self.ctx.rle(z, *e);
                return Ok(self.norm(r));
            }
        }
        if p == "eq" || p == "ne" {
            let fin = |v: &Val| match v {
                Val::Int(_, b) => f64::from_bits(*b as u64).is_finite(),
                Val::F64(f) => f.is_finite(),
                _ => true,
            };
            if !fin(x) || !fin(y) {
                return Ok(Val::Int(1, (p == "ne") as u128));
            }
            let a = self.expr(x, &Ty::Double)?;
            let b = self.expr(y, &Ty::Double)?;
            if self.ctx.sort(a) == Sort::Real && self.ctx.sort(b) == Sort::Real {
                let e = self.ctx.eq(a, b);
                let r = if p == "eq" { e } else { self.ctx.not(e) };
                return Ok(self.norm(r));
            }
        }
        err(format!("bit comparison {} of real numbers", p))
    }
    fn cast(&mut self, st: &mut State, op: &str, from: &Ty, x: &Val, to: &Ty) -> R<Val> {
        if op == "bitcast" {
            return self.bitcast(from, x, to);
        }
        if let Val::Agg(a) = x {
            let (f, t) = (from.field(0), to.field(0));
            let mut o = vec![];
            for v in a.iter() {
                o.push(self.cast(st, op, &f, v, &t)?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let Val::Undef = x {
            return Ok(Val::Undef);
        }
        let w = to.bits();
        match op {
            "zext" | "ptrtoint" | "inttoptr" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                if let Val::Int(_, v) = x {
                    return Ok(Val::Int(w, v & mask(w)));
                }
                if self.is_real(x) {
                    if w == 64 {
                        return Ok(x.clone());
                    }
                    return err("truncated bits of a real number");
                }
                let e = self.expr(x, from)?;
                let r = if w > from.bits() {
                    self.ctx.zext(e, w)
                } else if w == from.bits() {
                    e
                } else if w == 1 {
                    let b = self.ctx.extract(e, 0, 0);
                    let o = self.ctx.bv(1, 1);
                    self.ctx.eq(b, o)
                } else {
                    self.ctx.trunc(e, w)
                };
                Ok(self.norm(r))
            }
            "sext" => {
                if let Val::Int(f, v) = x {
                    return Ok(Val::Int(w, sx(*v, *f) as u128 & mask(w)));
                }
                let e = self.expr(x, from)?;
                let r = self.ctx.sext(e, w);
                Ok(self.norm(r))
            }
            "fpext" => Ok(match x {
                Val::F32(f) => Val::F64(*f as f64),
                v => v.clone(),
            }),
            "fptrunc" => Ok(match x {
                Val::F64(f) => Val::F32(*f as f32),
                v => v.clone(),
            }),
            "sitofp" | "uitofp" => {
                if let Val::E(e) = x {
                    let e = *e;
                    if self.ctx.sort(e) == Sort::Bool {
                        let (o, z) = (self.ctx.real(if op == "sitofp" { -1.0 } else { 1.0 }), self.ctx.real(0.0));
                        let r = self.ctx.ite(e, o, z);
                        return Ok(self.norm(r));
                    }
                    // a choice between constants
                    let n = self.ctx.n(e).clone();
                    if n.op == Op::Ite && self.ctx.is_const(n.args[1]) && self.ctx.is_const(n.args[2]) {
                        let p = self.norm(n.args[1]);
                        let q = self.norm(n.args[2]);
                        let p = self.cast(st, op, from, &p, to)?;
                        let q = self.cast(st, op, from, &q, to)?;
                        return self.choose_val(n.args[0], &p, &q, &Ty::Double);
                    }
                }
                let v = self.concretize(st, x)?;
                let fw = from.bits();
                let f = if op == "sitofp" { sx(v, fw) as f64 } else { v as f64 };
                Ok(if *to == Ty::Float { Val::F32(f as f32) } else { Val::F64(f) })
            }
            "fptosi" | "fptoui" => self.fp_to_int(st, x, w, op == "fptosi", false),
            _ => err(format!("cast {}", op)),
        }
    }
    fn fp_to_int(&mut self, st: &mut State, x: &Val, w: u32, signed: bool, sat: bool) -> R<Val> {
        let _ = sat;
        let k: i128;
        match f_of(x) {
            Some(f) => {
                let f = f.trunc();
                k = if f.is_nan() { 0 } else { f as i128 };
            }
            None => {
                let e = self.expr(x, &Ty::Double)?;
                let z = self.ctx.real(0.0);
                let neg = self.ctx.rlt(e, z);
                if self.decide(st, neg)? {
                    let n = self.ctx.rneg(e);
                    k = -(self.floor(st, n)? as i128);
                } else {
                    k = self.floor(st, e)? as i128;
                }
            }
        }
        let (lo, hi) = if w >= 128 { (if signed { i128::MIN } else { 0 }, i128::MAX) } else if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
        let k = k.clamp(lo, hi);
        Ok(Val::Int(w, k as u128 & mask(w)))
    }
    /// The floor of a real term; forks over the feasible integers.
    fn floor(&mut self, st: &mut State, e: Id) -> R<i64> {
        if let Some(k) = st.floors.get(&e) {
            return Ok(*k);
        }
        if let Some(x) = self.ctx.as_real(e) {
            return Ok(x.floor() as i64);
        }
        // an integer near a feasible value
        let t = self.ctx.bool(true);
        let m = match self.full_model(st, t) {
            Some(m) => m,
            None => return err("floor: no model"),
        };
        let x = match self.approx(e, &m, 0) {
            Some(x) if x.is_finite() => x,
            _ => return err("floor: no value"),
        };
        let k0 = x.floor() as i64;
        for k in [k0, k0 - 1, k0 + 1, k0 + 2] {
            let a = self.ctx.real(k as f64);
            let b = self.ctx.real((k + 1) as f64);
            let p = self.ctx.rle(a, e);
            let q = self.ctx.rlt(e, b);
            let c = self.ctx.and(p, q);
            match self.decide(st, c) {
                Ok(true) => {
                    st.floors.insert(e, k);
                    return Ok(k);
                }
                Ok(false) => continue,
                Err(Stop::Fork { cond, mt, mf, .. }) => return Err(Stop::Fork { cond, mt, mf, pin: Some(Pin::Floor(e, k)) }),
                Err(s) => return Err(s),
            }
        }
        err("floor: no integer found")
    }
    /// Approximate value of a term under a model.
    fn approx(&self, e: Id, m: &Model, depth: u32) -> Option<f64> {
        if depth > 2000 {
            return None;
        }
        let n = self.ctx.n(e);
        let d = depth + 1;
        Some(match n.op {
            Op::Var(v) => match m.get(&v) {
                Some(MV::R(x)) => *x,
                Some(MV::B(x)) => *x as f64,
                None => 0.0,
            },
            Op::CReal(b) => f64::from_bits(b),
            Op::RAdd => self.approx(n.args[0], m, d)? + self.approx(n.args[1], m, d)?,
            Op::RSub => self.approx(n.args[0], m, d)? - self.approx(n.args[1], m, d)?,
            Op::RMul => self.approx(n.args[0], m, d)? * self.approx(n.args[1], m, d)?,
            Op::RDiv => self.approx(n.args[0], m, d)? / self.approx(n.args[1], m, d)?,
            Op::RNeg => -self.approx(n.args[0], m, d)?,
            Op::Ite => {
                let c = self.approx(n.args[0], m, d)?;
                self.approx(if c != 0.0 { n.args[1] } else { n.args[2] }, m, d)?
            }
            Op::RLt => (self.approx(n.args[0], m, d)? < self.approx(n.args[1], m, d)?) as u8 as f64,
            Op::RLe => (self.approx(n.args[0], m, d)? <= self.approx(n.args[1], m, d)?) as u8 as f64,
            Op::Not => 1.0 - self.approx(n.args[0], m, d)?,
            Op::BAnd => (self.approx(n.args[0], m, d)? != 0.0 && self.approx(n.args[1], m, d)? != 0.0) as u8 as f64,
            Op::BOr => (self.approx(n.args[0], m, d)? != 0.0 || self.approx(n.args[1], m, d)? != 0.0) as u8 as f64,
            Op::CBool(b) => b as u8 as f64,
            Op::Eq if self.ctx.sort(n.args[0]) == Sort::Real => (self.approx(n.args[0], m, d)? == self.approx(n.args[1], m, d)?) as u8 as f64,
            Op::Uf(u) => {
                // the function itself: it satisfies all facts that are assumed of it
                let x = self.approx(n.args[0], m, d)?;
                match self.ctx.ufs[u as usize].0.as_str() {
                    "uf_exp" => x.exp(),
                    "uf_exp2" => x.exp2(),
                    "uf_log" => x.ln(),
                    "uf_log2" => x.log2(),
                    "uf_log10" => x.log10(),
                    "uf_pow" => x.powf(self.approx(n.args[1], m, d)?),
                    "uf_sin" => x.sin(),
                    "uf_cos" => x.cos(),
                    "uf_acos" => x.acos(),
                    "uf_cbrt" => x.cbrt(),
                    "uf_sinh" => x.sinh(),
                    "uf_asinh" => x.asinh(),
                    _ => return None,
                }
            }
            _ => {
                let bm = Exec::bmodel(m);
                self.ctx.eval(e, &bm, &mut HashMap::new())? as f64
            }
        })
    }
    fn bitcast(&mut self, from: &Ty, x: &Val, to: &Ty) -> R<Val> {
        match (x, from, to) {
            (Val::Agg(v), Ty::Vector(_, t), Ty::Int(_)) if t.bits() == 1 => {
                let mut acc = Val::Int(0, 0);
                let mut e: Option<Id> = None;
                for b in v.iter() {
                    let q = self.expr(b, &Ty::Int(1))?;
                    let q = self.ctx.zext(q, 1);
                    e = Some(match e {
                        None => q,
                        Some(a) => self.ctx.concat(q, a),
                    });
                }
                if let Some(e) = e {
                    acc = self.norm(e);
                }
                Ok(acc)
            }
            (Val::Agg(_), _, _) | (_, _, Ty::Vector(..)) => {
                let mut b = vec![];
                self.bytes(x, from, &mut b)?;
                self.value(&b, to)
            }
            (Val::F64(f), _, Ty::Int(_)) => Ok(Val::Int(64, f.to_bits() as u128)),
            (Val::F32(f), _, Ty::Int(_)) => Ok(Val::Int(32, f.to_bits() as u128)),
            (Val::Int(_, b), _, Ty::Double) => Ok(Val::F64(f64::from_bits(*b as u64))),
            (Val::Int(_, b), _, Ty::Float) => Ok(Val::F32(f32::from_bits(*b as u32))),
            (Val::E(e), _, Ty::Double) if self.ctx.sort(*e) != Sort::Real => self.bits_to_real(*e),
            _ => Ok(x.clone()),
        }
    }

    // ---- floating point as reals ----
    fn fneg(&mut self, x: &Val) -> R<Val> {
        Ok(match x {
            Val::F64(f) => Val::F64(-f),
            Val::F32(f) => Val::F32(-f),
            Val::E(e) => {
                let r = self.ctx.rneg(*e);
                self.norm(r)
            }
            Val::Agg(v) => {
                let mut o = vec![];
                for a in v.iter() {
                    o.push(self.fneg(a)?);
                }
                Val::Agg(Rc::new(o))
            }
            v => v.clone(),
        })
    }
    fn sign(&mut self, st: &mut State, e: Id) -> R<i32> {
        let z = self.ctx.real(0.0);
        let c = self.ctx.rlt(z, e);
        if self.decide(st, c)? {
            return Ok(1);
        }
        let c = self.ctx.eq(e, z);
        if self.decide(st, c)? {
            return Ok(0);
        }
        Ok(-1)
    }
    fn fbin(&mut self, st: &mut State, op: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Undef);
        }
        if let (Val::F32(a), Val::F32(b)) = (x, y) {
            return Ok(Val::F32(match op {
                "fadd" => a + b,
                "fsub" => a - b,
                "fmul" => a * b,
                "fdiv" => a / b,
                _ => a % b,
            }));
        }
        let (cx, cy) = (f_of(x), f_of(y));
        if let (Some(a), Some(b)) = (cx, cy) {
            let r = match op {
                "fadd" => a + b,
                "fsub" => a - b,
                "fmul" => a * b,
                "fdiv" => a / b,
                _ => a % b,
            };
            return Ok(if *ty == Ty::Float { Val::F32(r as f32) } else { Val::F64(r) });
        }
        for c in [cx, cy].iter().flatten() {
            if c.is_nan() {
                return Ok(Val::F64(f64::NAN));
            }
        }
        if let Some(c) = cx {
            if c.is_infinite() {
                let e = self.expr(y, ty)?;
                return Ok(Val::F64(match op {
                    "fadd" | "fsub" => c,
                    "fmul" => c * self.sign(st, e)? as f64,
                    "fdiv" => {
                        let s = self.sign(st, e)?;
                        if s == 0 {
                            self.tmark = true;
                            c
                        } else {
                            c * s as f64
                        }
                    }
                    _ => f64::NAN,
                }));
            }
        }
        if let Some(c) = cy {
            if c.is_infinite() {
                let e = self.expr(x, ty)?;
                return Ok(match op {
                    "fadd" => Val::F64(c),
                    "fsub" => Val::F64(-c),
                    "fmul" => Val::F64(c * self.sign(st, e)? as f64),
                    "fdiv" => Val::F64(0.0),
                    _ => x.clone(),
                });
            }
        }
        let a = self.expr(x, &Ty::Double)?;
        let b = self.expr(y, &Ty::Double)?;
        let r = match op {
            "fadd" => self.ctx.radd(a, b),
            "fsub" => self.ctx.rsub(a, b),
            "fmul" => self.ctx.rmul(a, b),
            "fdiv" => {
                let z = self.ctx.real(0.0);
                let c = self.ctx.eq(b, z);
                if self.decide(st, c)? {
                    st.tainted = true;
                    st.notes.insert("division by zero taken as division by +0".into());
                    let s = self.sign(st, a)?;
                    return Ok(Val::F64(match s {
                        0 => f64::NAN,
                        1 => f64::INFINITY,
                        _ => f64::NEG_INFINITY,
                    }));
                }
                self.ctx.rdiv(a, b)
            }
            "frem" => {
                let z = self.ctx.real(0.0);
                let c = self.ctx.eq(b, z);
                if self.decide(st, c)? {
                    return Ok(Val::F64(f64::NAN));
                }
                let q = self.ctx.rdiv(a, b);
                let c = self.ctx.rlt(q, z);
                let k = if self.decide(st, c)? {
                    let n = self.ctx.rneg(q);
                    -self.floor(st, n)?
                } else {
                    self.floor(st, q)?
                };
                let kk = self.ctx.real(k as f64);
                let p = self.ctx.rmul(kk, b);
                self.ctx.rsub(a, p)
            }
            _ => return err(format!("operation {}", op)),
        };
        Ok(self.norm(r))
    }
    fn fcmp(&mut self, p: &str, x: &Val, y: &Val) -> R<Val> {
        if let (Val::Agg(a), Val::Agg(b)) = (x, y) {
            let mut o = vec![];
            for i in 0..a.len() {
                o.push(self.fcmp(p, &a[i], &b[i])?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Undef);
        }
        let b = |v: bool| Ok(Val::Int(1, v as u128));
        let (cx, cy) = (f_of(x), f_of(y));
        // one of them infinite or not a number, the other a finite real
        let (fx, fy) = match (cx, cy) {
            (Some(a), Some(c)) => (a, c),
            (Some(a), None) if !a.is_finite() => (a, 0.0),
            (None, Some(c)) if !c.is_finite() => (0.0, c),
            _ => {
                let a = self.expr(x, &Ty::Double)?;
                let c = self.expr(y, &Ty::Double)?;
                let r = match p {
                    "oeq" | "ueq" => self.ctx.eq(a, c),
                    "one" | "une" => {
                        let e = self.ctx.eq(a, c);
                        self.ctx.not(e)
                    }
                    "olt" | "ult" => self.ctx.rlt(a, c),
                    "ole" | "ule" => self.ctx.rle(a, c),
                    "ogt" | "ugt" => self.ctx.rlt(c, a),
                    "oge" | "uge" => self.ctx.rle(c, a),
                    "ord" => self.ctx.bool(true),
                    "uno" => self.ctx.bool(false),
                    "true" => self.ctx.bool(true),
                    "false" => self.ctx.bool(false),
                    _ => return err("fcmp"),
                };
                return Ok(self.norm(r));
            }
        };
        let un = fx.is_nan() || fy.is_nan();
        b(match p {
            "oeq" => fx == fy,
            "ueq" => un || fx == fy,
            "one" => !un && fx != fy,
            "une" => fx != fy,
            "olt" => fx < fy,
            "ult" => un || fx < fy,
            "ole" => fx <= fy,
            "ule" => un || fx <= fy,
            "ogt" => fx > fy,
            "ugt" => un || fx > fy,
            "oge" => fx >= fy,
            "uge" => un || fx >= fy,
            "ord" => !un,
            "uno" => un,
            "true" => true,
            _ => false,
        })
    }
    fn minmax(&mut self, x: &Val, y: &Val, max: bool, propagate: bool) -> R<Val> {
        let (cx, cy) = (f_of(x), f_of(y));
        if let (Some(a), Some(b)) = (cx, cy) {
            if propagate && (a.is_nan() || b.is_nan()) {
                return Ok(Val::F64(f64::NAN));
            }
            return Ok(Val::F64(if max { a.max(b) } else { a.min(b) }));
        }
        for (c, o, s) in [(cx, y, x), (cy, x, y)] {
            if let Some(c) = c {
                if c.is_nan() {
                    return Ok(if propagate { s.clone() } else { o.clone() });
                }
                if c.is_infinite() {
                    return Ok(if (c > 0.0) == max { s.clone() } else { o.clone() });
                }
            }
        }
        let a = self.expr(x, &Ty::Double)?;
        let b = self.expr(y, &Ty::Double)?;
        let c = self.ctx.rle(a, b);
        let r = if max { self.ctx.ite(c, b, a) } else { self.ctx.ite(c, a, b) };
        Ok(self.norm(r))
    }
    fn sqrt(&mut self, st: &mut State, x: &Val) -> R<Val> {
        if let Some(f) = f_of(x) {
            return Ok(Val::F64(f.sqrt()));
        }
        let e = self.expr(x, &Ty::Double)?;
        let z = self.ctx.real(0.0);
        let c = self.ctx.rlt(e, z);
        if self.decide(st, c)? {
            return Ok(Val::F64(f64::NAN));
        }
        let s = match self.sqrt_of.get(&e) {
            Some(s) => *s,
            None => {
                let n = format!("sqrt{}", e);
                let s = self.ctx.var(n, Sort::Real, 0, 0);
                self.sqrt_of.insert(e, s);
                if let Op::Var(v) = self.ctx.n(s).op {
                    self.ctx.roots.insert(v, e);
                }
                s
            }
        };
        let p = self.ctx.rle(z, s);
        let q = self.ctx.rmul(s, s);
        let q = self.ctx.eq(q, e);
        self.assume(st, p);
        self.assume(st, q);
        Ok(Val::E(s))
    }
    fn powi(&mut self, st: &mut State, x: &Val, n: i64) -> R<Val> {
        if let Some(f) = f_of(x) {
            return Ok(Val::F64(f.powi(n as i32)));
        }
        let one = Val::F64(1.0);
        let mut r = one.clone();
        for _ in 0..n.unsigned_abs() {
            r = self.fbin(st, "fmul", &Ty::Double, &r, x)?;
        }
        if n < 0 {
            r = self.fbin(st, "fdiv", &Ty::Double, &one, &r)?;
        }
        Ok(r)
    }
    /// Functions without a theory: uninterpreted, with a few facts.
    fn transcendental(&mut self, st: &mut State, name: &str, args: &[Val]) -> R<Val> {
        if args.iter().all(|a| f_of(a).is_some()) {
            let a: Vec<f64> = args.iter().map(|a| f_of(a).unwrap()).collect();
            return Ok(Val::F64(match name {
                "exp" => a[0].exp(),
                "exp2" => a[0].exp2(),
                "log" => a[0].ln(),
                "log2" => a[0].log2(),
                "log10" => a[0].log10(),
                "pow" => a[0].powf(a[1]),
                "sin" => a[0].sin(),
                "cos" => a[0].cos(),
                "tan" => a[0].tan(),
                "atan" => a[0].atan(),
                "atan2" => a[0].atan2(a[1]),
                "acos" => a[0].acos(),
                "asin" => a[0].asin(),
                "cbrt" => a[0].cbrt(),
                "sinh" => a[0].sinh(),
                "cosh" => a[0].cosh(),
                "asinh" => a[0].asinh(),
                "log1p" => a[0].ln_1p(),
                "expm1" => a[0].exp_m1(),
                "hypot" => a[0].hypot(a[1]),
                "tanh" => a[0].tanh(),
                _ => return err(format!("function {}", name)),
            }));
        }
        if args.iter().any(|a| f_of(a).map_or(false, |x| x.is_nan())) {
            return Ok(Val::F64(f64::NAN));
        }
        if name == "pow" {
            if let Some(y) = f_of(&args[1]) {
                if y == y.trunc() && y.abs() <= 8.0 {
                    return self.powi(st, &args[0], y as i64);
                }
                if y == 0.5 {
                    return self.sqrt(st, &args[0]);
                }
            }
        }
        let mut e = vec![];
        for a in args {
            e.push(self.expr(a, &Ty::Double)?);
        }
        let z = self.ctx.real(0.0);
        let one = self.ctx.real(1.0);
        if matches!(name, "log" | "log2" | "log10" | "log1p") {
            let x = if name == "log1p" { self.ctx.radd(e[0], one) } else { e[0] };
            let c = self.ctx.rlt(x, z);
            if self.decide(st, c)? {
                return Ok(Val::F64(f64::NAN));
            }
            let c = self.ctx.eq(x, z);
            if self.decide(st, c)? {
                return Ok(Val::F64(f64::NEG_INFINITY));
            }
        }
        if name == "acos" || name == "asin" {
            let m = self.ctx.real(-1.0);
            let (p, q) = (self.ctx.rlt(e[0], m), self.ctx.rlt(one, e[0]));
            let c = self.ctx.or(p, q);
            if self.decide(st, c)? {
                return Ok(Val::F64(f64::NAN));
            }
        }
        if name == "pow" {
            let c = self.ctx.rlt(e[0], z);
            if self.decide(st, c)? {
                return err("power of a negative number");
            }
        }
        let key = format!("uf_{}", name);
        if name == "cos" {
            // the cosine of an arc cosine
            let n = self.ctx.n(e[0]).clone();
            if let Op::Uf(u) = n.op {
                if self.ctx.ufs[u as usize].0 == "uf_acos" {
                    return Ok(self.norm(n.args[0]));
                }
            }
        }
        let r = self.ctx.uf(&key, e.clone());
        st.notes.insert(format!("{} is uninterpreted, with monotonicity and sign facts", name));
        let mut facts = vec![];
        match name {
            "exp" | "exp2" => {
                facts.push(self.ctx.rlt(z, r));
                let (p, q) = (self.ctx.rlt(e[0], z), self.ctx.rlt(r, one));
                facts.push(self.ctx.eq(p, q));
                let (p, q) = (self.ctx.eq(e[0], z), self.ctx.eq(r, one));
                facts.push(self.ctx.eq(p, q));
                if name == "exp" {
                    let l = self.ctx.radd(e[0], one);
                    facts.push(self.ctx.rle(l, r));
                }
            }
            "log" | "log2" | "log10" => {
                let (p, q) = (self.ctx.rlt(e[0], one), self.ctx.rlt(r, z));
                facts.push(self.ctx.eq(p, q));
                let (p, q) = (self.ctx.eq(e[0], one), self.ctx.eq(r, z));
                facts.push(self.ctx.eq(p, q));
                if name == "log2" || name == "log10" {
                    // powers of the base in a window
                    for k in -34i32..=34 {
                        let b = if name == "log2" { 2f64.powi(k) } else { 10f64.powi(k) };
                        if name == "log10" && k < 0 {
                            continue;
                        }
                        let (bb, kk) = (self.ctx.real(b), self.ctx.real(k as f64));
                        let (p, q) = (self.ctx.rlt(e[0], bb), self.ctx.rlt(r, kk));
                        facts.push(self.ctx.eq(p, q));
                        let (p, q) = (self.ctx.eq(e[0], bb), self.ctx.eq(r, kk));
                        facts.push(self.ctx.eq(p, q));
                    }
                }
            }
            "pow" => {
                // zero stays zero for a positive exponent
                let c = self.ctx.rlt(z, e[0]);
                let pos = self.ctx.rlt(z, r);
                let nc = self.ctx.not(c);
                let imp = self.ctx.or(nc, pos);
                facts.push(imp);
                facts.push(self.ctx.rle(z, r));
                let b1 = self.ctx.eq(e[0], one);
                let r1 = self.ctx.eq(r, one);
                let nb1 = self.ctx.not(b1);
                facts.push(self.ctx.or(nb1, r1));
                if let Some(y) = self.ctx.as_real(e[1]) {
                    let lt = self.ctx.rlt(e[0], one);
                    let rlt = if y > 0.0 { self.ctx.rlt(r, one) } else { self.ctx.rlt(one, r) };
                    let both = self.ctx.and(lt, c);
                    let nb = self.ctx.not(both);
                    facts.push(self.ctx.or(nb, rlt));
                    let gt = self.ctx.rlt(one, e[0]);
                    let rgt = if y > 0.0 { self.ctx.rlt(one, r) } else { self.ctx.rlt(r, one) };
                    let ng = self.ctx.not(gt);
                    facts.push(self.ctx.or(ng, rgt));
                }
            }
            "sin" | "cos" => {
                let m = self.ctx.real(-1.0);
                facts.push(self.ctx.rle(m, r));
                facts.push(self.ctx.rle(r, one));
                let mut o = self.ctx.uf(if name == "sin" { "uf_cos" } else { "uf_sin" }, e.clone());
                let n = self.ctx.n(e[0]).clone();
                if let Op::Uf(u) = n.op {
                    if name == "sin" && self.ctx.ufs[u as usize].0 == "uf_acos" {
                        facts.push(self.ctx.rle(z, r));
                        o = n.args[0];
                    }
                }
                let (p, q) = (self.ctx.rmul(r, r), self.ctx.rmul(o, o));
                let s = self.ctx.radd(p, q);
                facts.push(self.ctx.eq(s, one));
            }
            "acos" => {
                facts.push(self.ctx.rle(z, r));
            }
            _ => {}
        }
        // monotonicity against the other applications
        if matches!(name, "exp" | "exp2" | "log" | "log2" | "log10" | "cbrt" | "asinh" | "sinh") || (name == "pow" && self.ctx.as_real(e[1]).is_some()) {
            let others: Vec<Id> = self.real_uf.get(&key).cloned().unwrap_or_default();
            for o in others {
                if o == r {
                    continue;
                }
                let oa = self.ctx.n(o).args.clone();
                if name == "pow" && oa[1] != e[1] {
                    continue;
                }
                let inc = name != "pow" || self.ctx.as_real(e[1]).unwrap() > 0.0;
                let p = self.ctx.rlt(oa[0], e[0]);
                let q = if inc { self.ctx.rlt(o, r) } else { self.ctx.rlt(r, o) };
                facts.push(self.ctx.eq(p, q));
            }
            let l = self.real_uf.entry(key).or_default();
            if !l.contains(&r) {
                l.push(r);
            }
        }
        for f in facts {
            self.assume(st, f);
        }
        Ok(Val::E(r))
    }
    fn rounding(&mut self, st: &mut State, x: &Val, kind: &str) -> R<Val> {
        if let Some(f) = f_of(x) {
            return Ok(Val::F64(match kind {
                "floor" => f.floor(),
                "ceil" => f.ceil(),
                "trunc" => f.trunc(),
                "roundeven" | "rint" | "nearbyint" => f.round_ties_even(),
                _ => f.round(),
            }));
        }
        let e = self.expr(x, &Ty::Double)?;
        let z = self.ctx.real(0.0);
        let half = self.ctx.real(0.5);
        Ok(Val::F64(match kind {
            "floor" => self.floor(st, e)? as f64,
            "ceil" => {
                let n = self.ctx.rneg(e);
                -(self.floor(st, n)? as f64)
            }
            "trunc" => {
                let c = self.ctx.rlt(e, z);
                if self.decide(st, c)? {
                    let n = self.ctx.rneg(e);
                    -(self.floor(st, n)? as f64)
                } else {
                    self.floor(st, e)? as f64
                }
            }
            "round" => {
                let c = self.ctx.rlt(e, z);
                if self.decide(st, c)? {
                    let n = self.ctx.rneg(e);
                    let n = self.ctx.radd(n, half);
                    -(self.floor(st, n)? as f64)
                } else {
                    let n = self.ctx.radd(e, half);
                    self.floor(st, n)? as f64
                }
            }
            _ => return err(format!("rounding {}", kind)),
        }))
    }

    // ---- calls ----
    fn location(&mut self, st: &State, args: &[Val]) -> String {
        // a core::panic::Location among the arguments
        for a in args.iter().rev() {
            if let Val::Int(64, p) = a {
                if let Ok(b) = self.read(st, *p as u64, 24) {
                    let mut v = [0u8; 24];
                    let mut ok = true;
                    for (i, x) in b.iter().enumerate() {
                        if let Byte::C(c) = x {
                            v[i] = *c
                        } else {
                            ok = false
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let ptr = u64::from_le_bytes(v[0..8].try_into().unwrap());
                    let len = u64::from_le_bytes(v[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(v[16..20].try_into().unwrap());
                    if len > 0 && len < 300 {
                        if let Ok(s) = self.cstr(st, &Val::Int(64, ptr as u128), &Val::Int(64, len as u128)) {
                            let s = s.trim_end_matches('\0');
                            if s.ends_with(".rs") {
                                return format!("{}:{}", s, line);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn call(&mut self, st: &mut State, inst: &Inst, ret: &Ty, callee: &Opd, args: &[TOp], noreturn: bool, normal: Option<u32>) -> R<()> {
        let cv = self.sop(st, &Ty::Ptr, callee)?;
        let addr = self.concretize(st, &cv)? as u64;
        let cal = match self.callees.get(&addr) {
            Some(c) => c.clone(),
            None => {
                let name = match self.by_addr.get(&addr) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Mem(format!("call of {:#x}", addr))),
                };
                let (nr, body) = self.m.funcs.get(&name).map_or((false, false), |d| (d.noreturn, d.body.is_some()));
                let ext = !body || nr || matches!(name.as_str(), "malloc" | "calloc" | "realloc" | "free" | "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "exp" | "log" | "pow" | "sqrt");
                let c = if ext { Callee::Ext(Rc::new(name), nr) } else { Callee::Fun(self.func(&name)?) };
                self.callees.insert(addr, c.clone());
                c
            }
        };
        let mut vals = Vec::with_capacity(args.len());
        for a in args {
            vals.push(self.top(st, a)?);
        }
        match cal {
            Callee::Fun(f) if !noreturn => {
                if st.frames.len() > 400 {
                    return err("recursion too deep");
                }
                if self.fn_seen.insert(f.name.clone()) {}
                let mut regs = vec![Val::Undef; f.nregs];
                for (p, v) in f.params.iter().zip(vals) {
                    regs[*p as usize] = v;
                }
                st.frames.push(Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], dst: inst.dst, normal });
                Ok(())
            }
            Callee::Fun(f) => {
                let l = self.location(st, &vals);
                Err(Stop::Panic(format!("{} {}", short(&f.name), l)))
            }
            Callee::Ext(name, nr) => {
                if nr || noreturn {
                    let l = self.location(st, &vals);
                    return Err(Stop::Panic(format!("{} {}", short(&name), l)));
                }
                let r = self.external(st, &name, ret, args, &vals)?;
                let fr = st.frames.last_mut().unwrap();
                if let Some(d) = inst.dst {
                    fr.regs[d as usize] = r;
                }
                match normal {
                    Some(b) => {
                        fr.prev = fr.block;
                        fr.block = b;
                        fr.ip = 0;
                    }
                    None => fr.ip += 1,
                }
                Ok(())
            }
        }
    }
    fn fresh(&mut self, st: &mut State, sort: Sort, lo: u128, hi: u128) -> Id {
        // the k-th input of a path is the same variable on all paths with the same sort and range
        let k = st.nvars;
        st.nvars += 1;
        let n = match sort {
            Sort::Bool => format!("b{}", k),
            Sort::BV(w) => format!("v{}_{}_{:x}_{:x}", k, w, lo, hi),
            Sort::Real => format!("x{}", k),
        };
        if let Some(i) = self.ctx.vars.iter().position(|v| v.name == n) {
            // find the node
            let vid = i as u32;
            for (id, node) in self.ctx.nodes.iter().enumerate() {
                if node.op == Op::Var(vid) {
                    return id as Id;
                }
            }
        }
        self.ctx.var(n, sort, lo, hi)
    }
    fn external(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[TOp], v: &[Val]) -> R<Val> {
        let _ = ret;
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, ret, args, v);
        }
        match name {
            "vp_u64" => {
                let e = self.fresh(st, Sort::BV(64), 0, mask(64));
                st.inputs.push(Input::E(e));
                Ok(Val::E(e))
            }
            "vp_range" => {
                let lo = self.concretize(st, &v[0])?;
                let hi = self.concretize(st, &v[1])?;
                if lo == hi {
                    st.inputs.push(Input::C(lo as u64));
                    return Ok(Val::Int(64, lo));
                }
                if lo > hi {
                    return Err(Stop::Dead);
                }
                let w = 128 - hi.leading_zeros();
                let e = self.fresh(st, Sort::BV(w), lo, hi);
                // the structural range of the variable is used by the simplifier: state it to the solver with the raw operator
                let l = self.ctx.bv(w, lo);
                let h = self.ctx.bv(w, hi);
                if hi != mask(w) || lo != 0 {
                    let c = self.ctx.range_fact(e, l, h);
                    st.pc.push(c);
                    if let Some(m) = &st.model {
                        // extend the model
                        let mut m2 = (**m).clone();
                        if let Op::Var(x) = self.ctx.n(e).op {
                            m2.insert(x, lo);
                        }
                        st.model = Some(Rc::new(m2));
                    }
                } else if let Some(m) = &st.model {
                    let mut m2 = (**m).clone();
                    if let Op::Var(x) = self.ctx.n(e).op {
                        m2.insert(x, lo);
                    }
                    st.model = Some(Rc::new(m2));
                }
                let r = self.ctx.zext(e, 64);
                st.inputs.push(Input::E(r));
                Ok(Val::E(r))
            }
            "vp_bool" => {
                let e = self.fresh(st, Sort::Bool, 0, 1);
                let z = self.ctx.zext(e, 64);
                st.inputs.push(Input::E(z));
                if let Some(m) = &st.model {
                    let mut m2 = (**m).clone();
                    if let Op::Var(x) = self.ctx.n(e).op {
                        m2.insert(x, 0);
                    }
                    st.model = Some(Rc::new(m2));
                }
                Ok(Val::E(e))
            }
            "vp_f64" => {
                let e = self.fresh(st, Sort::Real, 0, 0);
                st.inputs.push(Input::E(e));
                for (k, a) in v.iter().enumerate().take(2) {
                    match f_of(a) {
                        Some(f) if f.is_finite() => {
                            let b = self.ctx.real(f);
                            let c = if k == 0 { self.ctx.rle(b, e) } else { self.ctx.rle(e, b) };
                            self.assume(st, c);
                        }
                        Some(_) => {}
                        None => {
                            let b = self.expr(a, &Ty::Double)?;
                            let c = if k == 0 { self.ctx.rle(b, e) } else { self.ctx.rle(e, b) };
                            self.assume(st, c);
                        }
                    }
                }
                Ok(Val::E(e))
            }
            "vp_pick" => {
                // a symbolic number below n, made concrete on this path
                let n = self.concretize(st, &v[0])? as u64;
                let k = st.inputs.len();
                if let Some(c) = self.choose.get(st.outs_picks()) {
                    let c = *c;
                    if c >= n {
                        return Err(Stop::Dead);
                    }
                    st.notes_pick();
                    st.inputs.push(Input::C(c));
                    return Ok(Val::Int(64, c as u128));
                }
                let key = 0x8000_0000u32 + k as u32;
                match st.pins.remove(&key) {
                    Some(x) => {
                        st.inputs.push(Input::C(x as u64));
                        Ok(Val::Int(64, x))
                    }
                    None => {
                        if n == 0 {
                            return Err(Stop::Dead);
                        }
                        Err(Stop::Values(key, n))
                    }
                }
            }
            "vp_conc" => {
                let x = self.concretize(st, &v[0])?;
                Ok(Val::Int(64, x))
            }
            "vp_is_native" => Ok(Val::Int(1, 0)),
            "vp_assume" => match &v[0] {
                Val::Int(_, x) => {
                    if *x == 0 {
                        Err(Stop::Dead)
                    } else {
                        Ok(Val::Undef)
                    }
                }
                Val::E(e) => {
                    let e = *e;
                    if let Some(b) = st.facts.get(&e) {
                        return if *b { Ok(Val::Undef) } else { Err(Stop::Dead) };
                    }
                    if !self.ctx.n(e).real {
                        if let Some(m) = &st.model {
                            if self.ctx.eval(e, m, &mut HashMap::new()) == Some(1) {
                                self.assume(st, e);
                                return Ok(Val::Undef);
                            }
                        }
                    }
                    let (r, m) = self.sat(st, e);
                    if r == Some(false) {
                        return Err(Stop::Dead);
                    }
                    self.assume(st, e);
                    st.model = m;
                    Ok(Val::Undef)
                }
                _ => err("assume of an undefined value"),
            },
            "vp_assert" => {
                self.asserts += 1;
                let msg = self.cstr(st, &v[1], &v[2])?;
                match &v[0] {
                    Val::Int(_, x) => {
                        if *x == 0 {
                            self.violation(st, "assert", msg);
                            return Err(Stop::Dead);
                        }
                        Ok(Val::Undef)
                    }
                    Val::E(e) => {
                        let e = *e;
                        if let Some(true) = st.facts.get(&e) {
                            return Ok(Val::Undef);
                        }
                        let mut e0 = e;
                        if self.ctx.n(e).real {
                            let roots = self.sqrt_of.iter().map(|(k, v)| (*v, *k)).collect();
                            e0 = crate::poly::Norm::new(&mut self.ctx, roots).simp(e);
                            if self.ctx.as_bool(e0) == Some(true) {
                                self.identities += 1;
                                return Ok(Val::Undef);
                            }
                        }
                        let n = self.ctx.not(e0);
                        match self.solver.check(&self.ctx, &st.pc, n, false) {
                            Res::Unsat => {
                                self.learn(st, e, true);
                                Ok(Val::Undef)
                            }
                            Res::Sat(_) => {
                                self.violation_with(st, "assert", msg, n);
                                // go on with the paths where it holds
                                let (r, m) = self.sat(st, e);
                                if r == Some(false) {
                                    return Err(Stop::Dead);
                                }
                                self.assume(st, e);
                                st.model = m;
                                Ok(Val::Undef)
                            }
                            Res::Unknown => {
                                *self.errors.entry(format!("undecided assertion: {}", msg)).or_insert(0) += 1;
                                self.assume(st, e);
                                st.model = None;
                                Ok(Val::Undef)
                            }
                        }
                    }
                    _ => err("assertion of an undefined value"),
                }
            }
            "vp_cover" => {
                let msg = self.cstr(st, &v[1], &v[2])?;
                match &v[0] {
                    Val::Int(_, x) => {
                        if *x != 0 {
                            st.covers.insert(msg.clone());
                            self.cover(st, msg, None)?;
                        } else {
                            self.covers.entry(msg).or_insert(false);
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        self.cover(st, msg, Some(e))?;
                    }
                    _ => {}
                }
                Ok(Val::Undef)
            }
            "vp_out" => {
                let o = match &v[0] {
                    Val::Int(_, x) => Input::C(*x as u64),
                    Val::E(e) => Input::E(*e),
                    _ => Input::C(0),
                };
                st.outs.push(o);
                Ok(Val::Undef)
            }
            "vp_panic_ok" => {
                st.panic_ok = self.concretize(st, &v[0])? != 0;
                Ok(Val::Undef)
            }
            "malloc" => {
                let n = self.concretize(st, &v[0])? as u64;
                if n > 1 << 32 {
                    return Ok(Val::Int(64, 0));
                }
                Ok(Val::Int(64, self.alloc(st, n, 16, true, false) as u128))
            }
            "calloc" => {
                let a = self.concretize(st, &v[0])? as u64;
                let b = self.concretize(st, &v[1])? as u64;
                if a.saturating_mul(b) > 1 << 32 {
                    return Ok(Val::Int(64, 0));
                }
                Ok(Val::Int(64, self.alloc(st, a * b, 16, true, true) as u128))
            }
            "posix_memalign" => {
                let al = self.concretize(st, &v[1])? as u64;
                let n = self.concretize(st, &v[2])? as u64;
                let a = self.alloc(st, n, al, true, false);
                self.store(st, &v[0], &Val::Int(64, a as u128), &Ty::Ptr)?;
                Ok(Val::Int(32, 0))
            }
            "realloc" => {
                let p = self.concretize(st, &v[0])? as u64;
                let n = self.concretize(st, &v[1])? as u64;
                let a = self.alloc(st, n, 16, true, false);
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) => o.clone(),
                        None => return Err(Stop::Mem("realloc of something not allocated".into())),
                    };
                    let k = old.data.len().min(n as usize);
                    let d = old.data[..k].to_vec();
                    self.write(st, a, &d)?;
                    st.mem.remove(&p);
                }
                Ok(Val::Int(64, a as u128))
            }
            "free" => {
                let p = self.concretize(st, &v[0])? as u64;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.heap => {
                            st.mem.remove(&p);
                        }
                        _ => return Err(Stop::Mem(format!("free of {:#x}, which is not allocated", p))),
                    }
                }
                Ok(Val::Undef)
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &v[0], &v[1], &v[2])?;
                Ok(v[0].clone())
            }
            "memset" => {
                self.memset(st, &v[0], &v[1], &v[2])?;
                Ok(v[0].clone())
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, &v[2])? as u64;
                let p = self.concretize(st, &v[0])? as u64;
                let q = self.concretize(st, &v[1])? as u64;
                let a = self.read(st, p, n)?;
                let b = self.read(st, q, n)?;
                let mut acc = self.ctx.bv(32, 0);
                for i in (0..n as usize).rev() {
                    if a[i] == b[i] {
                        continue;
                    }
                    if let (Byte::S(x, 0), Byte::S(y, 0)) = (a[i], b[i]) {
                        if self.ctx.sort(x) == Sort::Real && self.ctx.sort(y) == Sort::Real && name == "bcmp" {
                            let e = self.ctx.eq(x, y);
                            let o = self.ctx.bv(32, 1);
                            acc = self.ctx.ite(e, acc, o);
                            continue;
                        }
                    }
                    if let (Byte::S(x, k), Byte::S(y, l)) = (a[i], b[i]) {
                        if self.ctx.sort(x) == Sort::Real && self.ctx.sort(y) == Sort::Real && k == l && name == "bcmp" {
                            continue;
                        }
                    }
                    let x = self.value(&a[i..i + 1], &Ty::Int(8))?;
                    let y = self.value(&b[i..i + 1], &Ty::Int(8))?;
                    let x = self.expr(&x, &Ty::Int(8))?;
                    let y = self.expr(&y, &Ty::Int(8))?;
                    let e = self.ctx.eq(x, y);
                    let l = self.ctx.ult(x, y);
                    let (m, o) = (self.ctx.bv(32, mask(32)), self.ctx.bv(32, 1));
                    let d = self.ctx.ite(l, m, o);
                    acc = self.ctx.ite(e, acc, d);
                }
                Ok(self.norm(acc))
            }
            "strlen" => {
                let p = self.concretize(st, &v[0])? as u64;
                let mut n = 0;
                loop {
                    match self.read(st, p + n, 1)?[0] {
                        Byte::C(0) => break,
                        _ => n += 1,
                    }
                }
                Ok(Val::Int(64, n as u128))
            }
            "sqrt" => self.sqrt(st, &v[0]),
            "exp" | "exp2" | "log" | "log2" | "log10" | "pow" | "sin" | "cos" | "tan" | "atan" | "atan2" | "acos" | "asin" | "cbrt" | "sinh" | "cosh" | "asinh" | "log1p" | "expm1" | "hypot" | "tanh" => {
                if name == "hypot" && !v.iter().all(|a| f_of(a).is_some()) {
                    let a = self.fbin(st, "fmul", &Ty::Double, &v[0], &v[0])?;
                    let b = self.fbin(st, "fmul", &Ty::Double, &v[1], &v[1])?;
                    let c = self.fbin(st, "fadd", &Ty::Double, &a, &b)?;
                    return self.sqrt(st, &c);
                }
                self.transcendental(st, name, v)
            }
            "fmod" => self.fbin(st, "frem", &Ty::Double, &v[0], &v[1]),
            "floor" | "ceil" | "trunc" | "round" => self.rounding(st, &v[0], name),
            "fmin" => self.minmax(&v[0], &v[1], false, false),
            "fmax" => self.minmax(&v[0], &v[1], true, false),
            "__errno_location" => {
                let a = self.alloc(st, 8, 8, false, true);
                Ok(Val::Int(64, a as u128))
            }
            "write" => Ok(v[2].clone()),
            "clock_gettime" => {
                // the clock stands still
                st.notes.insert("the clock stands still".into());
                let z = Val::Int(128, 1000);
                self.store(st, &v[1], &z, &Ty::Int(128))?;
                Ok(Val::Int(32, 0))
            }
            "getenv" => Ok(Val::Int(64, 0)),
            _ => err(format!("call of external function {}", name)),
        }
    }
    fn cover(&mut self, st: &mut State, msg: String, c: Option<Id>) -> R<()> {
        if self.covers.get(&msg) == Some(&true) {
            return Ok(());
        }
        self.covers.entry(msg.clone()).or_insert(false);
        let c = match c {
            Some(c) => c,
            None => self.ctx.bool(true),
        };
        match self.solver.check(&self.ctx, &st.pc, c, true) {
            Res::Sat(m) => {
                self.covers.insert(msg.clone(), true);
                if let Some(m) = m {
                    let i = self.inputs_under(st, &m, &st.inputs);
                    self.cover_inputs.push((msg, i.into_iter().map(|x| x.unwrap_or(0)).collect()));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let s = self.concretize(st, s)? as u64;
        let d = self.concretize(st, d)? as u64;
        let b = self.read(st, s, n)?;
        self.write(st, d, &b)
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, d)? as u64;
        let b = match v {
            Val::Int(_, x) => Byte::C(*x as u8),
            Val::E(e) => {
                let e = self.ctx.trunc(*e, 8);
                Byte::S(e, 0)
            }
            _ => Byte::U,
        };
        self.write(st, d, &vec![b; n as usize])
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, ret: &Ty, args: &[TOp], v: &[Val]) -> R<Val> {
        let head = n.split('.').next().unwrap();
        match head {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "donothing" | "invariant" | "stackrestore" | "va_end" | "va_start" => return Ok(Val::Undef),
            "x86" if n == "x86.sse2.pause" => return Ok(Val::Undef),
            "x86" if n.starts_with("x86.addcarry.") || n.starts_with("x86.subborrow.") => {
                let t = args[1].ty.clone();
                let w = t.bits();
                let c = self.expr(&v[0], &Ty::Int(8))?;
                let z = self.ctx.bv(8, 0);
                let c = self.ctx.eq(c, z);
                let c = self.ctx.not(c);
                let (o, zz) = (self.ctx.bv(w + 2, 1), self.ctx.bv(w + 2, 0));
                let c = self.ctx.ite(c, o, zz);
                let (a, b) = (self.expr(&v[1], &t)?, self.expr(&v[2], &t)?);
                let (a, b) = (self.ctx.zext(a, w + 2), self.ctx.zext(b, w + 2));
                let op = if n.contains("addcarry") { Op::Add } else { Op::Sub };
                let s = self.ctx.bin(op, a, b);
                let s = self.ctx.bin(op, s, c);
                let lo = self.ctx.extract(s, w - 1, 0);
                let hi = self.ctx.extract(s, w, w);
                let hi = self.ctx.zext(hi, 8);
                return Ok(Val::Agg(Rc::new(vec![self.norm(hi), self.norm(lo)])));
            }
            "x86" if n == "x86.vpdiv.64" => {
                // (divisor, high, low) -> (remainder, quotient)
                let t = Ty::Int(64);
                let (d, h, l) = (self.expr(&v[0], &t)?, self.expr(&v[1], &t)?, self.expr(&v[2], &t)?);
                let c = self.ctx.ule(d, h);
                if self.decide(st, c)? {
                    return Err(Stop::Panic("division overflow".into()));
                }
                let x = self.ctx.concat(h, l);
                let d = self.ctx.zext(d, 128);
                let q = self.ctx.bin(Op::UDiv, x, d);
                let r = self.ctx.bin(Op::URem, x, d);
                let (q, r) = (self.ctx.trunc(q, 64), self.ctx.trunc(r, 64));
                return Ok(Val::Agg(Rc::new(vec![self.norm(r), self.norm(q)])));
            }
            "stacksave" => return Ok(Val::Int(64, 0)),
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "memcpy" | "memmove" => {
                self.memcpy(st, &v[0], &v[1], &v[2])?;
                return Ok(Val::Undef);
            }
            "memset" => {
                self.memset(st, &v[0], &v[1], &v[2])?;
                return Ok(Val::Undef);
            }
            "threadlocal" => return Ok(v[0].clone()),
            "is" if n.starts_with("is.constant") => return Ok(Val::Int(1, 0)),
            "expect" => return Ok(v[0].clone()),
            "launder" | "strip" | "ptrmask" => return Ok(v[0].clone()),
            "vector" => {
                return self.reduce(st, n, args, v);
            }
            _ => {}
        }
        // elementwise on vectors
        if let Some(Val::Agg(a)) = v.get(0) {
            if matches!(args[0].ty, Ty::Vector(..)) {
                let k = a.len();
                let mut o = vec![];
                for i in 0..k {
                    let mut w = vec![];
                    let mut ar = vec![];
                    for (j, x) in v.iter().enumerate() {
                        match x {
                            Val::Agg(y) if matches!(args[j].ty, Ty::Vector(..)) => {
                                w.push(y[i].clone());
                                ar.push(TOp { ty: args[j].ty.field(0), op: Opd::Meta });
                            }
                            _ => {
                                w.push(x.clone());
                                ar.push(args[j].clone());
                            }
                        }
                    }
                    let rt = if let Ty::Vector(_, t) = ret { (**t).clone() } else { return err("vector intrinsic") };
                    o.push(self.intrinsic(st, n, &rt, &ar, &w)?);
                }
                return Ok(Val::Agg(Rc::new(o)));
            }
        }
        // floating point
        match head {
            "fabs" => {
                return match f_of(&v[0]) {
                    Some(f) if !matches!(v[0], Val::F32(_)) => Ok(Val::F64(f.abs())),
                    Some(f) => Ok(Val::F32(f.abs() as f32)),
                    None => {
                        let e = self.expr(&v[0], &Ty::Double)?;
                        let z = self.ctx.real(0.0);
                        let c = self.ctx.rlt(e, z);
                        let m = self.ctx.rneg(e);
                        let r = self.ctx.ite(c, m, e);
                        Ok(self.norm(r))
                    }
                }
            }
            "sqrt" => return self.sqrt(st, &v[0]),
            "minnum" | "minimumnum" => return self.minmax(&v[0], &v[1], false, false),
            "maxnum" | "maximumnum" => return self.minmax(&v[0], &v[1], true, false),
            "minimum" => return self.minmax(&v[0], &v[1], false, true),
            "maximum" => return self.minmax(&v[0], &v[1], true, true),
            "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => return self.rounding(st, &v[0], head),
            "exp" | "exp2" | "log" | "log2" | "log10" | "pow" | "sin" | "cos" | "tan" | "atan" | "atan2" | "acos" | "asin" | "sinh" | "cosh" | "tanh" => return self.transcendental(st, head, v),
            "powi" => {
                let k = self.concretize(st, &v[1])?;
                return self.powi(st, &v[0], sx(k, 32) as i64);
            }
            "fma" | "fmuladd" => {
                if let (Some(a), Some(b), Some(c)) = (f_of(&v[0]), f_of(&v[1]), f_of(&v[2])) {
                    return Ok(Val::F64(if head == "fma" { a.mul_add(b, c) } else { a * b + c }));
                }
                let p = self.fbin(st, "fmul", &Ty::Double, &v[0], &v[1])?;
                return self.fbin(st, "fadd", &Ty::Double, &p, &v[2]);
            }
            "copysign" => {
                if let (Some(a), Some(b)) = (f_of(&v[0]), f_of(&v[1])) {
                    return Ok(Val::F64(a.copysign(b)));
                }
                let m = match f_of(&v[0]) {
                    Some(a) => Val::F64(a.abs()),
                    None => self.intrinsic(st, "fabs.f64", ret, &args[..1], &v[..1])?,
                };
                if let Some(b) = f_of(&v[1]) {
                    return if b.is_sign_negative() { self.fneg(&m) } else { Ok(m) };
                }
                let e = self.expr(&v[1], &Ty::Double)?;
                let z = self.ctx.real(0.0);
                let c = self.ctx.rlt(e, z);
                let nm = self.fneg(&m)?;
                return self.select(st, &Val::E(c), &nm, &m, &Ty::Double);
            }
            "fptosi" | "fptoui" => return self.fp_to_int(st, &v[0], ret.bits(), head == "fptosi", true),
            "is" if n.starts_with("is.fpclass") => {
                let m = self.concretize(st, &v[1])? as u32;
                return match f_of(&v[0]) {
                    Some(f) => {
                        let cls = if f.is_nan() {
                            3
                        } else if f == f64::NEG_INFINITY {
                            4
                        } else if f == f64::INFINITY {
                            512
                        } else if f == 0.0 {
                            if f.is_sign_negative() {
                                32
                            } else {
                                64
                            }
                        } else if f < 0.0 {
                            if f.is_subnormal() {
                                16
                            } else {
                                8
                            }
                        } else if f.is_subnormal() {
                            128
                        } else {
                            256
                        };
                        Ok(Val::Int(1, (m & cls != 0) as u128))
                    }
                    None => {
                        let e = self.expr(&v[0], &Ty::Double)?;
                        let z = self.ctx.real(0.0);
                        let neg = self.ctx.rlt(e, z);
                        let zero = self.ctx.eq(e, z);
                        let pos = self.ctx.rlt(z, e);
                        let mut r = self.ctx.bool(false);
                        if m & 8 != 0 {
                            r = self.ctx.or(r, neg);
                        }
                        if m & 64 != 0 {
                            r = self.ctx.or(r, zero);
                        }
                        if m & 256 != 0 {
                            r = self.ctx.or(r, pos);
                        }
                        Ok(self.norm(r))
                    }
                };
            }
            _ => {}
        }
        // integers
        let ty = args.get(0).map(|a| a.ty.clone()).unwrap_or(Ty::Void);
        let w = ty.bits();
        if v.iter().any(|x| matches!(x, Val::Undef)) {
            return Ok(Val::Undef);
        }
        match head {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match head {
                    "umax" => "ugt",
                    "umin" => "ult",
                    "smax" => "sgt",
                    _ => "slt",
                };
                let c = self.icmp(st, p, &ty, &v[0], &v[1])?;
                self.select(st, &c, &v[0], &v[1], &ty)
            }
            "abs" => {
                let z = Val::Int(w, 0);
                let c = self.icmp(st, "slt", &ty, &v[0], &z)?;
                let m = self.binop(st, "sub", &ty, &z, &v[0])?;
                self.select(st, &c, &m, &v[0], &ty)
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if head == "ucmp" { ("ult", "ugt") } else { ("slt", "sgt") };
                let l = self.icmp(st, lt, &ty, &v[0], &v[1])?;
                let g = self.icmp(st, gt, &ty, &v[0], &v[1])?;
                let rw = ret.bits();
                let a = self.select(st, &g, &Val::Int(rw, 1), &Val::Int(rw, 0), ret)?;
                self.select(st, &l, &Val::Int(rw, mask(rw)), &a, ret)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = head.starts_with('s');
                let op = &head[1..];
                let (r, o) = self.overflow(op, signed, w, &ty, &v[0], &v[1])?;
                if n.contains("with.overflow") {
                    return Ok(Val::Agg(Rc::new(vec![r, o])));
                }
                if n.contains(".sat") {
                    let lim = if !signed {
                        Val::Int(w, if op == "sub" { 0 } else { mask(w) })
                    } else {
                        let z = Val::Int(w, 0);
                        let neg = self.icmp(st, "slt", &ty, &v[0], &z)?;
                        self.select(st, &neg, &Val::Int(w, 1 << (w - 1)), &Val::Int(w, mask(w - 1)), &ty)?
                    };
                    return self.select(st, &o, &lim, &r, &ty);
                }
                err(format!("intrinsic {}", n))
            }
            "ctlz" | "cttz" | "ctpop" => {
                if let Val::Int(_, x) = &v[0] {
                    let r = match head {
                        "ctlz" => (x << (128 - w)).leading_zeros().min(w),
                        "cttz" => x.trailing_zeros().min(w),
                        _ => x.count_ones(),
                    };
                    return Ok(Val::Int(w, r as u128));
                }
                let e = self.expr(&v[0], &ty)?;
                let one = self.ctx.bv(1, 1);
                let mut acc = self.ctx.bv(w, if head == "ctpop" { 0 } else { w as u128 });
                for k in 0..w {
                    let i = if head == "cttz" { w - 1 - k } else { k };
                    let b = self.ctx.extract(e, i, i);
                    if head == "ctpop" {
                        let z = self.ctx.zext(b, w);
                        acc = self.ctx.bin(Op::Add, acc, z);
                    } else {
                        let c = self.ctx.eq(b, one);
                        let val = self.ctx.bv(w, if head == "cttz" { i } else { w - 1 - i } as u128);
                        acc = self.ctx.ite(c, val, acc);
                    }
                }
                Ok(self.norm(acc))
            }
            "fshl" | "fshr" => {
                let s = self.concretize(st, &v[2])? as u32 % w;
                let a = self.expr(&v[0], &ty)?;
                let b = self.expr(&v[1], &ty)?;
                let c = self.ctx.concat(a, b);
                let lo = if head == "fshl" { w - s } else { s };
                let r = self.ctx.extract(c, lo + w - 1, lo);
                Ok(self.norm(r))
            }
            "bswap" | "bitreverse" => {
                let step = if head == "bswap" { 8 } else { 1 };
                let e = self.expr(&v[0], &ty)?;
                let mut acc: Option<Id> = None;
                for k in 0..w / step {
                    let p = self.ctx.extract(e, k * step + step - 1, k * step);
                    acc = Some(match acc {
                        None => p,
                        Some(a) => self.ctx.concat(a, p),
                    });
                }
                Ok(self.norm(acc.unwrap()))
            }
            _ => err(format!("intrinsic {}", n)),
        }
    }
    fn reduce(&mut self, st: &mut State, n: &str, args: &[TOp], v: &[Val]) -> R<Val> {
        let op = match n.split('.').nth(2) {
            Some(o) => o,
            None => return err(n.to_string()),
        };
        let t = args[0].ty.field(0);
        if let Val::Agg(x) = &v[0] {
            let mut acc = x[0].clone();
            for y in x[1..].iter() {
                acc = match op {
                    "add" | "mul" | "and" | "or" | "xor" => self.binop(st, op, &t, &acc, y)?,
                    "umax" | "umin" | "smax" | "smin" => {
                        let p = match op {
                            "umax" => "ugt",
                            "umin" => "ult",
                            "smax" => "sgt",
                            _ => "slt",
                        };
                        let c = self.icmp(st, p, &t, &acc, y)?;
                        self.select(st, &c, &acc, y, &t)?
                    }
                    _ => return err(format!("intrinsic {}", n)),
                };
            }
            return Ok(acc);
        }
        err(format!("intrinsic {}", n))
    }
    fn overflow(&mut self, op: &str, signed: bool, w: u32, ty: &Ty, x: &Val, y: &Val) -> R<(Val, Val)> {
        let o = match op {
            "add" => Op::Add,
            "sub" => Op::Sub,
            _ => Op::Mul,
        };
        if let (Val::Int(_, a), Val::Int(_, b)) = (x, y) {
            let r = Ctx::fold(o, w, *a, *b).unwrap();
            let ov = if signed {
                let (s, t) = (sx(*a, w), sx(*b, w));
                let f = match op {
                    "add" => s.checked_add(t),
                    "sub" => s.checked_sub(t),
                    _ => s.checked_mul(t),
                };
                f.map_or(true, |f| f != sx(r, w))
            } else {
                match op {
                    "add" => a.checked_add(*b).map_or(true, |s| s > mask(w)),
                    "sub" => a < b,
                    _ => a.checked_mul(*b).map_or(true, |s| s > mask(w)),
                }
            };
            return Ok((Val::Int(w, r), Val::Int(1, ov as u128)));
        }
        let a = self.expr(x, ty)?;
        let b = self.expr(y, ty)?;
        let r = self.ctx.bin(o, a, b);
        let ov = if !signed {
            match op {
                "sub" => self.ctx.ult(a, b),
                "add" => {
                    if self.ctx.n(a).hi.checked_add(self.ctx.n(b).hi).map_or(false, |s| s <= mask(w)) {
                        self.ctx.bool(false)
                    } else {
                        self.ctx.ult(r, a)
                    }
                }
                _ => {
                    if self.ctx.n(a).hi.checked_mul(self.ctx.n(b).hi).map_or(false, |s| s <= mask(w)) {
                        self.ctx.bool(false)
                    } else {
                        if w > 64 {
                            return err("wide multiplication overflow");
                        }
                        let (p, q) = (self.ctx.zext(a, 2 * w), self.ctx.zext(b, 2 * w));
                        let m = self.ctx.bin(Op::Mul, p, q);
                        let h = self.ctx.extract(m, 2 * w - 1, w);
                        let z = self.ctx.bv(w, 0);
                        let e = self.ctx.eq(h, z);
                        self.ctx.not(e)
                    }
                }
            }
        } else {
            let half = mask(w) / 2;
            let (ah, bh) = (self.ctx.n(a).hi, self.ctx.n(b).hi);
            let small = ah <= half && bh <= half;
            let fits = match op {
                "sub" => small,
                "add" => small && ah + bh <= half,
                _ => small && ah.checked_mul(bh).map_or(false, |s| s <= half),
            };
            if fits {
                self.ctx.bool(false)
            } else {
                let ww = if op == "mul" { 2 * w } else { w + 1 };
                let (p, q) = (self.ctx.sext(a, ww), self.ctx.sext(b, ww));
                let m = self.ctx.bin(o, p, q);
                let t = self.ctx.trunc(m, w);
                let t = self.ctx.sext(t, ww);
                let e = self.ctx.eq(m, t);
                self.ctx.not(e)
            }
        };
        Ok((self.norm(r), self.norm(ov)))
    }
}

impl State {
    fn outs_picks(&self) -> usize {
        self.notes.iter().filter(|n| n.starts_with("pick")).count()
    }
    fn notes_pick(&mut self) {
        let k = self.outs_picks();
        self.notes.insert(format!("pick{}", k));
    }
}

fn conc_bytes(v: &Val, ty: &Ty, out: &mut Vec<Byte>) -> R<()> {
    let n = ty.store_size() as usize;
    match v {
        Val::Int(_, x) => {
            for i in 0..n {
                out.push(Byte::C(if i < 16 { (x >> (8 * i)) as u8 } else { 0 }));
            }
        }
        Val::F64(f) => out.extend(f.to_bits().to_le_bytes().iter().map(|b| Byte::C(*b))),
        Val::F32(f) => out.extend(f.to_bits().to_le_bytes().iter().map(|b| Byte::C(*b))),
        Val::Undef => out.extend(std::iter::repeat(Byte::U).take(n)),
        Val::Agg(vs) => match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let base = out.len();
                out.resize(base + ty.size() as usize, Byte::U);
                for (i, x) in vs.iter().enumerate() {
                    let t = ty.field(i);
                    let o = base + ty.field_offset(i) as usize;
                    let mut b = vec![];
                    conc_bytes(x, &t, &mut b)?;
                    out[o..o + b.len()].copy_from_slice(&b);
                }
            }
            _ => return err("bytes of an aggregate"),
        },
        Val::E(_) => return err("bytes of a term"),
    }
    Ok(())
}

pub fn short(s: &str) -> String {
    // last path components of a mangled name
    let mut parts = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && s.is_char_boundary(j) && s.is_char_boundary(j + n) && s[j..j + n].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                parts.push(&s[j..j + n]);
                i = j + n;
            }
        } else {
            i += 1;
        }
    }
    if parts.is_empty() {
        return s.to_string();
    }
    let k = parts.len().saturating_sub(3);
    parts[k..].join("::")
}

fn visit(i: &mut Ins, f: &mut dyn FnMut(&Ty, &mut Opd)) {
    fn t(o: &mut TOp, f: &mut dyn FnMut(&Ty, &mut Opd)) {
        let ty = o.ty.clone();
        f(&ty, &mut o.op);
    }
    match i {
        Ins::Bin(_, a, b) | Ins::ICmp(_, a, b) | Ins::FCmp(_, a, b) => {
            t(a, f);
            let ty = a.ty.clone();
            f(&ty, b);
        }
        Ins::FNeg(a) | Ins::Cast(_, a, _) | Ins::Load(_, a) | Ins::Freeze(a) | Ins::ExtractValue(a, _) => t(a, f),
        Ins::Select(a, b, c) | Ins::CmpXchg(a, b, c) | Ins::InsertElement(a, b, c) | Ins::Shuffle(a, b, c) => {
            t(a, f);
            t(b, f);
            t(c, f);
        }
        Ins::Gep(_, a, ix) => {
            t(a, f);
            for x in ix {
                t(x, f);
            }
        }
        Ins::Store(a, b) | Ins::InsertValue(a, b, _) | Ins::ExtractElement(a, b) | Ins::AtomicRmw(_, a, b) => {
            t(a, f);
            t(b, f);
        }
        Ins::Alloca(_, Some(a), _) => t(a, f),
        Ins::Call { callee, args, .. } => {
            f(&Ty::Ptr, callee);
            for a in args {
                t(a, f);
            }
        }
        Ins::Phi(ty, vs) => {
            for (o, _) in vs {
                f(ty, o);
            }
        }
        Ins::CondBr(c, _, _) => f(&Ty::Int(1), c),
        Ins::Switch(a, _, _) => t(a, f),
        Ins::Ret(Some(a)) => t(a, f),
        _ => {}
    }
}
