//! SMT solver processes: one incremental z3, and one-shot runs of z3 and cvc5 for what it leaves open.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum MV {
    B(u128),
    R(f64),
}

pub type Model = HashMap<u32, MV>;

#[derive(Debug)]
pub enum Res {
    Sat(Option<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub cache: u64,
    pub icp: u64,
    pub residual: u64,
    pub time: f64,
    pub max: f64,
}

pub struct Solver {
    proc: Option<Child>,
    out: Option<BufReader<ChildStdout>>,
    stack: Vec<Id>,
    defined: HashSet<Id>,
    nvars: usize,
    nufs: usize,
    buf: String,
    pub stats: Stats,
    pub inc_ms: u64,
    pub one_s: u64,
    cache: HashMap<(Vec<Id>, Id), bool>,
    pub scratch: String,
    pub dump: Option<String>,
    /// bit vectors as integers in the incremental solver
    pub ints: bool,
    bad: HashSet<Id>,
    base: String,
    side: Option<(Child, BufReader<ChildStdout>)>,
    pub icp_vars: usize,
    pub icp_boxes: usize,
}

fn parse_value(s: &[String], i: &mut usize) -> Option<f64> {
    // an s-expression over numbers
    let t = s.get(*i)?.clone();
    *i += 1;
    if t == "(" {
        let op = s.get(*i)?.clone();
        *i += 1;
        if op == "root-obj" || op == "_" || op == "let" {
            return None;
        }
        let mut a = vec![];
        while s.get(*i)? != ")" {
            a.push(parse_value(s, i)?);
        }
        *i += 1;
        return Some(match op.as_str() {
            "-" => {
                if a.len() == 1 {
                    -a[0]
                } else {
                    a[0] - a[1]
                }
            }
            "/" => a[0] / a[1],
            "+" => a.iter().sum(),
            "*" => a.iter().product(),
            "to_real" => a[0],
            _ => return None,
        });
    }
    t.trim_end_matches('?').parse().ok()
}

fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// quotient of two decimal numbers of any length, as f64
fn frac(a: &str, b: &str) -> f64 {
    // both may exceed f64's range: use mantissa and exponent
    fn split(s: &str) -> (f64, i32) {
        let s = s.trim_end_matches(".0");
        let d: String = s.chars().take(30).collect();
        let rest = s.len() as i32 - d.len() as i32;
        (d.parse().unwrap_or(f64::NAN), rest)
    }
    let (x, e) = split(a);
    let (y, f) = split(b);
    x / y * 10f64.powi(e - f)
}

fn model_of(ctx: &Ctx, vars: &[u32], text: &str) -> Option<Model> {
    // ((name value) (name value) ...)
    let t = tokens(text);
    let mut by_name = HashMap::new();
    for v in vars {
        by_name.insert(ctx.vars[*v as usize].name.clone(), *v);
    }
    let mut m = Model::new();
    let mut i = 1;
    while i < t.len() && t[i] == "(" {
        let name = t.get(i + 1)?.clone();
        i += 2;
        let v = *by_name.get(&name)?;
        match ctx.vars[v as usize].sort {
            Sort::Real => {
                let val;
                if t[i] == "(" && t[i + 1] == "/" && t[i + 2] != "(" && t[i + 3] != "(" {
                    val = frac(&t[i + 2], &t[i + 3]);
                    i += 5;
                } else if t[i] == "(" && t[i + 1] == "-" && t[i + 2] == "(" && t[i + 3] == "/" && t[i + 4] != "(" {
                    val = -frac(&t[i + 4], &t[i + 5]);
                    i += 8;
                } else {
                    let mut j = i;
                    match parse_value(&t, &mut j) {
                        Some(x) => val = x,
                        None => return None,
                    }
                    i = j;
                }
                m.insert(v, MV::R(val));
            }
            _ => {
                let s = &t[i];
                let x = if s == "true" {
                    1
                } else if s == "false" {
                    0
                } else if let Some(h) = s.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()?
                } else if let Some(h) = s.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok()?
                } else if s == "(" && t[i + 1] == "_" {
                    let x = t[i + 2].strip_prefix("bv")?.parse().ok()?;
                    i += 4;
                    x
                } else if let Ok(x) = s.parse::<u128>() {
                    x
                } else {
                    return None;
                };
                i += 1;
                m.insert(v, MV::B(x));
            }
        }
        if t.get(i)? != ")" {
            return None;
        }
        i += 1;
    }
    Some(m)
}

impl Solver {
    pub fn new(scratch: &str) -> Solver {
        Solver {
            proc: None,
            out: None,
            stack: vec![],
            defined: HashSet::new(),
            nvars: 0,
            nufs: 0,
            buf: String::new(),
            stats: Stats::default(),
            inc_ms: 2000,
            one_s: 60,
            cache: HashMap::new(),
            scratch: scratch.to_string(),
            dump: None,
            ints: false,
            bad: HashSet::new(),
            base: String::new(),
            side: None,
            icp_vars: 1,
            icp_boxes: 2000,
        }
    }
    fn start(&mut self) {
        let mut p = Command::new("z3-new").arg("-in").arg("-memory:6000").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        self.out = Some(BufReader::new(p.stdout.take().unwrap()));
        self.proc = Some(p);
        self.stack.clear();
        self.defined.clear();
        self.nvars = 0;
        self.nufs = 0;
        self.buf.clear();
        self.buf.push_str("(set-option :global-declarations true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
        self.buf.push_str(&format!("(set-option :timeout {})\n", self.inc_ms));
    }
    fn stop(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.kill();
            let _ = p.wait();
        }
        self.out = None;
    }
    fn flush(&mut self) -> bool {
        let b = std::mem::take(&mut self.buf);
        match self.proc.as_mut().and_then(|p| p.stdin.as_mut()) {
            Some(i) => i.write_all(b.as_bytes()).and_then(|_| i.flush()).is_ok(),
            None => false,
        }
    }
    fn read(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let mut l = String::new();
            match self.out.as_mut()?.read_line(&mut l) {
                Ok(0) | Err(_) => return None,
                _ => {}
            }
            depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
            s.push_str(&l);
            if depth <= 0 && !s.trim().is_empty() {
                return Some(s.trim().to_string());
            }
        }
    }
    fn define_int(ctx: &Ctx, e: Id, defined: &mut HashSet<Id>, bad: &mut HashSet<Id>, out: &mut String) -> bool {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if defined.contains(&x) || bad.contains(&x) {
                continue;
            }
            let n = ctx.n(x);
            if n.args.is_empty() {
                continue;
            }
            if done {
                if n.args.iter().any(|a| bad.contains(a)) {
                    bad.insert(x);
                    continue;
                }
                match ctx.ibody(x) {
                    Some(b) => {
                        defined.insert(x);
                        out.push_str(&format!("(define-fun e{} () {} {})\n", x, ctx.isort_str(n.sort), b));
                    }
                    None => {
                        bad.insert(x);
                    }
                }
            } else {
                st.push((x, true));
                for a in n.args.iter() {
                    st.push((*a, false));
                }
            }
        }
        !bad.contains(&e)
    }
    fn define(ctx: &Ctx, e: Id, defined: &mut HashSet<Id>, out: &mut String) {
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if defined.contains(&x) {
                continue;
            }
            let n = ctx.n(x);
            if n.args.is_empty() {
                continue;
            }
            if done {
                defined.insert(x);
                out.push_str(&format!("(define-fun e{} () {} {})\n", x, ctx.sort_str(n.sort), ctx.body(x)));
            } else {
                st.push((x, true));
                for a in n.args.iter() {
                    st.push((*a, false));
                }
            }
        }
    }
    fn declare(&mut self, ctx: &Ctx) {
        while self.nvars < ctx.vars.len() {
            let v = &ctx.vars[self.nvars];
            if self.ints {
                self.buf.push_str(&format!("(declare-const {} {})\n", v.name, ctx.isort_str(v.sort)));
                if let Sort::BV(w) = v.sort {
                    self.base.push_str(&format!("(assert (and (<= 0 {}) (< {} {})))\n", v.name, v.name, pow2_str(w)));
                }
            } else {
                self.buf.push_str(&format!("(declare-const {} {})\n", v.name, ctx.sort_str(v.sort)));
            }
            self.nvars += 1;
        }
        while self.nufs < ctx.ufs.len() {
            let (n, k) = &ctx.ufs[self.nufs];
            self.buf.push_str(&format!("(declare-fun {} ({}) Real)\n", n, vec!["Real"; *k].join(" ")));
            self.nufs += 1;
        }
    }
    /// Constraints connected with `c` through shared variables.
    pub fn slice(ctx: &Ctx, pc: &[Id], c: Id) -> Vec<Id> {
        let mut vars: HashSet<u32> = ctx.n(c).vars.iter().copied().collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut more = false;
            for (i, p) in pc.iter().enumerate() {
                if !taken[i] && ctx.n(*p).vars.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    more = true;
                    vars.extend(ctx.n(*p).vars.iter());
                }
            }
            if !more {
                break;
            }
        }
        pc.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, p)| *p).collect()
    }
    /// Is pc and c satisfiable? pc itself is known to be.
    pub fn check(&mut self, ctx: &Ctx, pc: &[Id], c: Id, model: bool) -> Res {
        if let Some(b) = ctx.as_bool(c) {
            if !b {
                return Res::Unsat;
            }
            if !model {
                return Res::Sat(None);
            }
        }
        let sl = Solver::slice(ctx, pc, c);
        let mut key: Vec<Id> = sl.clone();
        key.sort_unstable();
        let key = (key, c);
        if let Some(r) = self.cache.get(&key) {
            if !*r {
                self.stats.cache += 1;
                return Res::Unsat;
            }
            if !model {
                self.stats.cache += 1;
                return Res::Sat(None);
            }
        }
        let t = Instant::now();
        self.stats.queries += 1;
        let mut r = self.intervals(ctx, pc, &sl, c, model);
        if let Res::Unknown = r {
            r = self.incremental(ctx, pc, c, model);
        } else {
            self.stats.icp += 1;
        }
        if let Res::Unknown = r {
            self.stats.fallback += 1;
            r = self.oneshot(ctx, pc, &sl, c, model);
        }
        let d = t.elapsed().as_secs_f64();
        self.stats.time += d;
        if d > self.stats.max {
            self.stats.max = d;
        }
        match r {
            Res::Sat(_) => {
                self.stats.sat += 1;
                self.cache.insert(key, true);
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(key, false);
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
    /// Satisfiability of a text of its own, with values: None if that is not known, Some(None) if it is not.
    fn residual(&mut self, text: &str, names: &[String]) -> Option<Option<Vec<f64>>> {
        self.stats.residual += 1;
        if self.side.is_none() {
            let mut p = Command::new("z3-new").arg("-in").arg("-memory:3000").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let o = BufReader::new(p.stdout.take()?);
            p.stdin.as_mut()?.write_all(format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(set-option :timeout {})\n", self.inc_ms.max(1000)).as_bytes()).ok()?;
            self.side = Some((p, o));
        }
        let r = (|| {
            let (p, o) = self.side.as_mut()?;
            let mut line = |p: &mut Child, s: String| -> Option<String> {
                let i = p.stdin.as_mut()?;
                i.write_all(s.as_bytes()).ok()?;
                i.flush().ok()?;
                let mut l = String::new();
                o.read_line(&mut l).ok()?;
                Some(l)
            };
            let a = line(p, format!("(push 1)\n{}(check-sat)\n", text))?;
            match a.trim() {
                "unsat" => {
                    p.stdin.as_mut()?.write_all(b"(pop 1)\n").ok()?;
                    Some(Some(None))
                }
                "unknown" | "timeout" => {
                    p.stdin.as_mut()?.write_all(b"(pop 1)\n").ok()?;
                    Some(None)
                }
                "sat" => {
                    let mut x = vec![];
                    for n in names {
                        let l = line(p, format!("(get-value ({}))\n", n))?;
                        let t = tokens(&l);
                        let mut i = 3;
                        match parse_value(&t, &mut i) {
                            Some(v) => x.push(v),
                            None => {
                                p.stdin.as_mut()?.write_all(b"(pop 1)\n").ok()?;
                                return Some(None);
                            }
                        }
                    }
                    p.stdin.as_mut()?.write_all(b"(pop 1)\n").ok()?;
                    Some(Some(Some(x)))
                }
                x => {
                    eprintln!("z3 on what intervals left: {}", x);
                    None
                }
            }
        })();
        if r.is_none() {
            if let Some((mut p, _)) = self.side.take() {
                let _ = p.kill();
                let _ = p.wait();
            }
        }
        r.flatten()
    }
    fn intervals(&mut self, ctx: &Ctx, pc: &[Id], sl: &[Id], c: Id, model: bool) -> Res {
        if model && sl.is_empty() && ctx.as_bool(c) == Some(true) && pc.iter().any(|x| ctx.n(*x).real) {
            return match self.parts(ctx, pc) {
                Some(m) => Res::Sat(Some(m)),
                None => Res::Unknown,
            };
        }
        if !ctx.n(c).real && !sl.iter().any(|x| ctx.n(*x).real) {
            return Res::Unknown;
        }
        let mut cs = sl.to_vec();
        cs.push(c);
        let (k, n) = (self.icp_vars, self.icp_boxes);
        let r = crate::icp::decide(ctx, &cs, k, n, &mut |text, names| self.residual(text, names));
        if let (Res::Sat(Some(m)), true) = (&r, model) {
            let rest: Vec<Id> = pc.iter().filter(|p| !sl.contains(p)).copied().collect();
            return match self.parts(ctx, &rest) {
                Some(mut m2) => {
                    m2.extend(m.clone());
                    Res::Sat(Some(m2))
                }
                None => Res::Unknown,
            };
        }
        r
    }
    /// A model of constraints, part by part where these share no variables.
    fn parts(&mut self, ctx: &Ctx, cs: &[Id]) -> Option<Model> {
        let mut m = Model::new();
        let mut rest: Vec<Id> = cs.to_vec();
        let mut open = vec![];
        while let Some(c) = rest.iter().copied().find(|c| ctx.n(*c).real) {
            let sl = Solver::slice(ctx, &rest, c);
            rest.retain(|x| !sl.contains(x) && *x != c);
            let (k, n) = (self.icp_vars, self.icp_boxes);
            match crate::icp::decide(ctx, &sl, k, n, &mut |text, names| self.residual(text, names)) {
                Res::Sat(Some(x)) => m.extend(x),
                _ => open.extend(sl),
            }
        }
        let left: Vec<Id> = cs.iter().copied().filter(|c| rest.contains(c) || open.contains(c)).collect();
        if !left.is_empty() {
            match self.incremental(ctx, &left, ctx_true(ctx)?, true) {
                Res::Sat(Some(x)) => m.extend(x),
                _ => return None,
            }
        }
        Some(m)
    }
    fn incremental(&mut self, ctx: &Ctx, pc: &[Id], c: Id, model: bool) -> Res {
        if self.inc_ms == 0 {
            return Res::Unknown;
        }
        if self.proc.is_none() {
            self.start();
        }
        if self.ints {
            if self.nvars < ctx.vars.len() && !self.stack.is_empty() {
                // the bounds of new variables belong to the bottom of the stack
                self.buf.push_str(&format!("(pop {})\n", self.stack.len()));
                self.stack.clear();
            }
            self.declare(ctx);
            let b = std::mem::take(&mut self.base);
            self.buf.push_str(&b);
        }
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        if self.stack.len() > k {
            self.buf.push_str(&format!("(pop {})\n", self.stack.len() - k));
            self.stack.truncate(k);
        }
        self.declare(ctx);
        let mut buf = std::mem::take(&mut self.buf);
        for p in &pc[k..] {
            if self.ints {
                if !Solver::define_int(ctx, *p, &mut self.defined, &mut self.bad, &mut buf) {
                    self.buf = buf;
                    return Res::Unknown;
                }
            } else {
                Solver::define(ctx, *p, &mut self.defined, &mut buf);
            }
            buf.push_str(&format!("(push 1)\n(assert {})\n", ctx.name(*p)));
            self.stack.push(*p);
        }
        if self.ints {
            if !Solver::define_int(ctx, c, &mut self.defined, &mut self.bad, &mut buf) {
                self.buf = buf;
                return Res::Unknown;
            }
        } else {
            Solver::define(ctx, c, &mut self.defined, &mut buf);
        }
        buf.push_str(&format!("(push 1)\n(assert {})\n(check-sat)\n", ctx.name(c)));
        self.buf = buf;
        if !self.flush() {
            self.stop();
            return Res::Unknown;
        }
        let a = self.read();
        let mut r = match a.as_deref() {
            Some("sat") => Res::Sat(None),
            Some("unsat") => Res::Unsat,
            Some("unknown") | Some("timeout") => Res::Unknown,
            None => {
                self.stop();
                return Res::Unknown;
            }
            Some(x) => {
                if x.contains("error") {
                    eprintln!("z3: {}", x);
                }
                self.stop();
                return Res::Unknown;
            }
        };
        if let (Res::Sat(m), true) = (&mut r, model) {
            let mut vars: Vec<u32> = ctx.n(c).vars.to_vec();
            for p in pc {
                vars.extend(ctx.n(*p).vars.iter());
            }
            vars.sort_unstable();
            vars.dedup();
            if vars.is_empty() {
                *m = Some(Model::new());
            } else {
                let names: Vec<String> = vars.iter().map(|v| ctx.vars[*v as usize].name.clone()).collect();
                self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
                if !self.flush() {
                    self.stop();
                    return r;
                }
                match self.read() {
                    Some(t) => *m = model_of(ctx, &vars, &t),
                    None => {
                        self.stop();
                        return r;
                    }
                }
            }
        }
        self.buf.push_str("(pop 1)\n");
        r
    }
    fn script(ctx: &Ctx, cs: &[Id], vars: &[u32], model: bool, tail: &str) -> String {
        let mut s = String::new();
        if model {
            s.push_str("(set-option :produce-models true)\n");
        }
        s.push_str("(set-logic ALL)\n");
        for v in vars {
            let v = &ctx.vars[*v as usize];
            s.push_str(&format!("(declare-const {} {})\n", v.name, ctx.sort_str(v.sort)));
        }
        for (n, k) in ctx.ufs.iter() {
            s.push_str(&format!("(declare-fun {} ({}) Real)\n", n, vec!["Real"; *k].join(" ")));
        }
        let mut d = HashSet::new();
        for c in cs {
            Solver::define(ctx, *c, &mut d, &mut s);
            s.push_str(&format!("(assert {})\n", ctx.name(*c)));
        }
        s.push_str(tail);
        if model && !vars.is_empty() {
            let names: Vec<String> = vars.iter().map(|v| ctx.vars[*v as usize].name.clone()).collect();
            s.push_str(&format!("(get-value ({}))\n", names.join(" ")));
        }
        s
    }
    fn oneshot(&mut self, ctx: &Ctx, pc: &[Id], sl: &[Id], c: Id, model: bool) -> Res {
        let mut cs = sl.to_vec();
        cs.push(c);
        let mut r = self.portfolio(ctx, &cs, model);
        if let (Res::Sat(Some(m)), true) = (&mut r, model) {
            // the independent rest of the path condition
            let rest: Vec<Id> = pc.iter().filter(|p| !sl.contains(p)).copied().collect();
            if !rest.is_empty() {
                let t = ctx_true(ctx);
                let r2 = match t {
                    Some(t) => self.incremental(ctx, &rest, t, true),
                    None => Res::Unknown,
                };
                let r2 = match r2 {
                    Res::Sat(Some(m)) => Res::Sat(Some(m)),
                    _ => self.portfolio(ctx, &rest, true),
                };
                match r2 {
                    Res::Sat(Some(m2)) => m.extend(m2),
                    _ => {
                        let mm = std::mem::take(m);
                        return Res::Sat(Some(mm));
                    }
                }
            }
        }
        r
    }
    fn portfolio(&mut self, ctx: &Ctx, cs: &[Id], model: bool) -> Res {
        let mut vars: Vec<u32> = vec![];
        let mut real = false;
        for p in cs {
            vars.extend(ctx.n(*p).vars.iter());
            real |= ctx.n(*p).real;
        }
        vars.sort_unstable();
        vars.dedup();
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = format!("{}/q{}_{}", self.scratch, std::process::id(), n);
        let mut procs = vec![];
        let dec = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
        let mut variants: Vec<(&str, Vec<String>, String)> = vec![];
        let t = self.one_s;
        variants.push(("z3-new", vec![format!("-T:{}", t), "-memory:4000".into()], format!("{}{}", dec, Solver::script(ctx, cs, &vars, model, "(check-sat)\n"))));
        if real && ctx.ufs.is_empty() {
            variants.push(("z3-new", vec![format!("-T:{}", t), "-memory:4000".into()], format!("{}{}", dec, Solver::script(ctx, cs, &vars, model, "(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))\n"))));
        }
        variants.push((
            "cvc5",
            vec![format!("--tlimit={}", t * 1000), if real { "--nl-cov".into() } else { "--bitblast=eager".into() }],
            {
                let s = Solver::script(ctx, cs, &vars, model, "(check-sat)\n");
                if real { s } else if model { s.replace("(set-logic ALL)", "(set-logic QF_BV)") } else { s.replace("(set-logic ALL)", "(set-logic QF_BV)") }
            },
        ));
        for (k, (exe, args, text)) in variants.iter().enumerate() {
            let f = format!("{}_{}.smt2", base, k);
            let o = format!("{}_{}.out", base, k);
            if std::fs::write(&f, text).is_err() {
                continue;
            }
            let out = std::fs::File::create(&o).unwrap();
            match Command::new(exe).args(args).arg(&f).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn() {
                Ok(p) => procs.push((p, f, o, false)),
                Err(_) => {}
            }
        }
        let start = Instant::now();
        let mut res = Res::Unknown;
        'w: while start.elapsed() < Duration::from_secs(t + 5) {
            let mut alive = false;
            for (p, _, o, done) in procs.iter_mut() {
                if *done {
                    continue;
                }
                match p.try_wait() {
                    Ok(None) => alive = true,
                    _ => {
                        *done = true;
                        let text = std::fs::read_to_string(&*o).unwrap_or_default();
                        let first = text.lines().next().unwrap_or("").trim();
                        if first == "unsat" {
                            res = Res::Unsat;
                            break 'w;
                        }
                        if first == "sat" {
                            let m = if model {
                                if vars.is_empty() {
                                    Some(Model::new())
                                } else {
                                    model_of(ctx, &vars, &text[3..])
                                }
                            } else {
                                None
                            };
                            if model && m.is_none() {
                                if let Res::Unknown = res {
                                    res = Res::Sat(None);
                                }
                                continue;
                            }
                            res = Res::Sat(m);
                            break 'w;
                        }
                    }
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        for (mut p, f, o, _) in procs {
            let _ = p.kill();
            let _ = p.wait();
            if let Some(d) = &self.dump {
                if let Res::Unknown = res {
                    let _ = std::fs::copy(&f, format!("{}/{}", d, f.rsplit('/').next().unwrap()));
                }
            }
            let _ = std::fs::remove_file(f);
            let _ = std::fs::remove_file(o);
        }
        res
    }
}

fn ctx_true(ctx: &Ctx) -> Option<Id> {
    // the constant is always made by the executor at start
    (0..ctx.nodes.len().min(4)).map(|i| i as Id).find(|i| ctx.as_bool(*i) == Some(true))
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.stop();
        if let Some((mut p, _)) = self.side.take() {
            let _ = p.kill();
            let _ = p.wait();
        }
    }
}
