//! LLVM IR in memory, and the parser for its text form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other(String),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                65..=128 => 16,
                _ => ((*w as u64) + 63) / 64 * 8,
            },
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut a = 1;
                for f in fs.iter() {
                    if !packed {
                        let al = f.align();
                        a = a.max(al);
                        o = (o + al - 1) / al * al;
                    }
                    o += f.size();
                }
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// bytes a store of the value writes
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            Ty::Vector(n, t) => *n as u32 * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let al = f.align();
                        o = (o + al - 1) / al * al;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    F64(f64),
    F32(f32),
    Undef,
    Zero,
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Const)>),
    /// address of a global, resolved later
    Global(String),
    Gep(Ty, Box<(Ty, Const)>, Vec<(Ty, Const)>),
    Cast(String, Box<(Ty, Const)>, Ty),
    Bin(String, Box<(Ty, Const)>, Box<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Rc<Const>),
    /// resolved constant (index into the module's pool is not needed: kept as value by the executor)
    Meta,
}

#[derive(Clone, Debug)]
pub struct TOp {
    pub ty: Ty,
    pub op: Opd,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(String, TOp, Opd),
    FNeg(TOp),
    ICmp(String, TOp, Opd),
    FCmp(String, TOp, Opd),
    Cast(String, TOp, Ty),
    Select(TOp, TOp, TOp),
    Gep(Ty, TOp, Vec<TOp>),
    Load(Ty, TOp),
    Store(TOp, TOp),
    Alloca(Ty, Option<TOp>, u64),
    Call { ret: Ty, callee: Opd, args: Vec<TOp>, noreturn: bool, normal: Option<u32> },
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TOp, u32, Vec<(u128, u32)>),
    Ret(Option<TOp>),
    Unreachable,
    ExtractValue(TOp, Vec<usize>),
    InsertValue(TOp, TOp, Vec<usize>),
    ExtractElement(TOp, TOp),
    InsertElement(TOp, TOp, TOp),
    Shuffle(TOp, TOp, TOp),
    Freeze(TOp),
    CmpXchg(TOp, TOp, TOp),
    AtomicRmw(String, TOp, TOp),
    Fence,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub ins: Ins,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Vec<Inst>>,
    pub noreturn: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub noreturn: bool,
    /// line range of the body in the module's text; None for a declaration
    pub body: Option<(usize, usize)>,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Rc<Const>>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub lines: Vec<String>,
    pub funcs: HashMap<String, FuncDecl>,
    pub globals: HashMap<String, GlobalDef>,
    pub global_order: Vec<String>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub noreturn_attrs: HashMap<u32, bool>,
    pub meta: HashMap<u32, usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Id(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
    Attr(u32),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s.get(i + 1).map_or(false, |c| c.is_ascii_hexdigit()) {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut t = vec![];
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let s = i + 2;
                    let mut j = s;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[s..j])).to_string();
                    i = j + 1;
                } else {
                    let s = i + 1;
                    let mut j = s;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = line[s..j].to_string();
                    i = j;
                }
                t.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let s = i + 1;
                let mut j = s;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                t.push(Tok::Meta(line[s..j].to_string()));
                i = j;
            }
            b'#' => {
                let s = i + 1;
                let mut j = s;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                t.push(Tok::Attr(line[s..j].parse().unwrap_or(0)));
                i = j;
            }
            b'"' => {
                let s = i + 1;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                t.push(Tok::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                t.push(Tok::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            _ if c.is_ascii_digit() || c == b'-' || (c == b'+' && b.get(i + 1).map_or(false, |d| d.is_ascii_digit())) => {
                let s = i;
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) {
                    j += 1;
                }
                t.push(Tok::Num(line[s..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let s = i;
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                t.push(Tok::Id(line[s..j].to_string()));
                i = j;
            }
            _ => {
                t.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    t
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    types: &'a HashMap<String, Ty>,
    regs: Option<&'a mut HashMap<String, u32>>,
    labels: Option<&'a HashMap<String, u32>>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let r = self.t.get(self.i).cloned().ok_or("end of line")?;
        self.i += 1;
        Ok(r)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.want('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.types.contains_key(n),
            Some(Tok::Id(s)) => {
                matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        Ok(match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                _ => Ty::Other(s),
            },
            Tok::P('{') => self.struct_ty(false)?,
            Tok::P('[') => {
                let n = self.num()?;
                self.next()?; // x
                let t = self.ty()?;
                self.want(']')?;
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let t = self.struct_ty(true)?;
                    self.want('>')?;
                    t
                } else {
                    let n = self.num()?;
                    self.next()?;
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vector(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or(format!("type {}", n))?,
            x => return Err(format!("type at {:?}", x)),
        })
    }
    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if !self.eat('}') {
            loop {
                f.push(self.ty()?);
                if self.eat(',') {
                    continue;
                }
                self.want('}')?;
                break;
            }
        }
        Ok(Ty::Struct(Rc::new(f), packed))
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            Tok::Num(s) => s.parse().map_err(|_| s),
            x => Err(format!("number at {:?}", x)),
        }
    }
    fn attrs(&mut self) -> R<()> {
        // skips attribute words in front of a value or a type
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if self.type_start() || is_value_word(&s) {
                        return Ok(());
                    }
                    self.i += 1;
                    if s == "align" {
                        if self.is('(') {
                            self.skip_parens()?;
                        } else {
                            self.i += 1;
                        }
                    } else if self.is('(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Str(_)) if matches!(self.t.get(self.i + 1), Some(Tok::P('='))) => self.i += 3,
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().unwrap();
        let k = m.len() as u32;
        *m.entry(n.to_string()).or_insert(k)
    }
    fn tconst(&mut self) -> R<(Ty, Const)> {
        let t = self.ty()?;
        self.attrs()?;
        let c = self.konst(&t)?;
        Ok((t, c))
    }
    pub fn konst(&mut self, ty: &Ty) -> R<Const> {
        let tok = self.next()?;
        Ok(match tok {
            Tok::Num(s) => match ty {
                Ty::Int(w) => Const::Int(*w, parse_int(&s, *w)?),
                Ty::Double => Const::F64(parse_float(&s)?),
                Ty::Float => Const::F32(parse_float(&s)? as f32),
                _ => return Err(format!("number {} of type {:?}", s, ty)),
            },
            Tok::Global(n) => Const::Global(n),
            Tok::Str(b) => Const::Bytes(b),
            Tok::P('{') => self.agg('}')?,
            Tok::P('[') => self.agg(']')?,
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}')?;
                    self.want('>')?;
                    a
                } else {
                    self.agg('>')?
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(1, 0),
                "null" => Const::Int(64, 0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "none" => Const::Undef,
                "splat" => {
                    self.want('(')?;
                    let c = self.tconst()?;
                    self.want(')')?;
                    Const::Splat(Box::new(c))
                }
                "getelementptr" => {
                    while !self.is('(') {
                        self.i += 1;
                        if self.is('(') && matches!(self.t.get(self.i - 1), Some(Tok::Id(x)) if x == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.want('(')?;
                    let t = self.ty()?;
                    self.want(',')?;
                    let b = self.tconst()?;
                    let mut ix = vec![];
                    while self.eat(',') {
                        ix.push(self.tconst()?);
                    }
                    self.want(')')?;
                    Const::Gep(t, Box::new(b), ix)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    self.want('(')?;
                    let c = self.tconst()?;
                    self.next()?; // to
                    let t = self.ty()?;
                    self.want(')')?;
                    Const::Cast(s, Box::new(c), t)
                }
                "add" | "sub" | "xor" | "mul" => {
                    while !self.is('(') {
                        self.i += 1;
                    }
                    self.want('(')?;
                    let a = self.tconst()?;
                    self.want(',')?;
                    let b = self.tconst()?;
                    self.want(')')?;
                    Const::Bin(s, Box::new(a), Box::new(b))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty)?,
                // special floating point constants
                "inf" | "pinf" => Const::F64(f64::INFINITY),
                "ninf" => Const::F64(f64::NEG_INFINITY),
                "nan" | "qnan" => Const::F64(f64::NAN),
                _ if s.starts_with("f0x") => match ty {
                    Ty::Float => match u32::from_str_radix(&s[3..], 16) {
                        Ok(b) => Const::F32(f32::from_bits(b)),
                        Err(_) => return Err(format!("constant {}", s)),
                    },
                    _ => Const::F64(parse_float(&s)?),
                },
                _ => return Err(format!("constant {}", s)),
            },
            Tok::P('+') | Tok::P('-') => {
                let neg = tok == Tok::P('-');
                match self.konst(ty)? {
                    Const::F64(x) => Const::F64(if neg { -x } else { x }),
                    c => c,
                }
            }
            x => return Err(format!("constant at {:?}", x)),
        })
    }
    fn agg(&mut self, close: char) -> R<Const> {
        let mut v = vec![];
        if !self.eat(close) {
            loop {
                v.push(self.tconst()?);
                if self.eat(',') {
                    continue;
                }
                self.want(close)?;
                break;
            }
        }
        Ok(Const::Agg(v))
    }
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        if let Ty::Other(s) = ty {
            if s == "metadata" {
                return Ok(Opd::Meta);
            }
        }
        Ok(Opd::C(Rc::new(self.konst(ty)?)))
    }
    fn tval(&mut self) -> R<TOp> {
        let ty = self.ty()?;
        self.attrs()?;
        let op = self.val(&ty)?;
        Ok(TOp { ty, op })
    }
    fn label(&mut self) -> R<u32> {
        self.eat_id("label");
        match self.next()? {
            Tok::Local(n) => self.labels.unwrap().get(&n).copied().ok_or(format!("label {}", n)),
            x => Err(format!("label at {:?}", x)),
        }
    }
    fn flags(&mut self) {
        while !self.type_start() {
            match self.peek() {
                Some(Tok::Id(_)) => self.i += 1,
                Some(Tok::P('(')) => {
                    let _ = self.skip_parens();
                }
                _ => return,
            }
        }
    }
}

fn is_value_word(s: &str) -> bool {
    s.starts_with("f0x") || matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext"
            | "sext" | "add" | "sub" | "xor" | "mul" | "inf" | "ninf" | "pinf" | "nan" | "qnan" | "asm"
    )
}

fn parse_int(s: &str, w: u32) -> R<u128> {
    let m = mask(w);
    if let Some(r) = s.strip_prefix('-') {
        let v: u128 = r.parse().map_err(|_| s.to_string())?;
        Ok(v.wrapping_neg() & m)
    } else {
        if let Ok(v) = s.parse::<u128>() {
            return Ok(v & m);
        }
        // wider than 128 bits: not supported by the executor, the value is dropped
        Ok(0)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn parse_float(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        if let Ok(b) = u64::from_str_radix(h, 16) {
            return Ok(f64::from_bits(b));
        }
        return Err(format!("float {}", s));
    }
    if let Some(h) = s.strip_prefix("f0x") {
        if let Ok(b) = u64::from_str_radix(h, 16) {
            return Ok(f64::from_bits(b));
        }
    }
    s.parse().map_err(|_| format!("float {}", s))
}

impl Module {
    pub fn parse(text: &str) -> R<Module> {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines,
            funcs: HashMap::new(),
            globals: HashMap::new(),
            global_order: vec![],
            aliases: HashMap::new(),
            types: HashMap::new(),
            noreturn_attrs: HashMap::new(),
            meta: HashMap::new(),
        };
        // attribute groups first
        for l in m.lines.iter() {
            if let Some(r) = l.strip_prefix("attributes #") {
                let n: u32 = r.split(' ').next().unwrap().parse().map_err(|_| l.clone())?;
                m.noreturn_attrs.insert(n, r.split(|c| c == ' ').any(|w| w == "noreturn"));
            } else if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Tok::Local(n) = &t[0] {
                    let types = m.types.clone();
                    let mut p = P { t: &t, i: 3, types: &types, regs: None, labels: None };
                    let ty = p.ty().unwrap_or(Ty::Other("opaque".into()));
                    m.types.insert(n.clone(), ty);
                }
            }
        }
        let mut i = 0;
        while i < m.lines.len() {
            let l = &m.lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let t = lex(l);
                let name = t.iter().find_map(|x| if let Tok::Global(n) = x { Some(n.clone()) } else { None }).ok_or("function without name")?;
                let noreturn = t.iter().any(|x| match x {
                    Tok::Id(s) => s == "noreturn",
                    Tok::Attr(n) => m.noreturn_attrs.get(n).copied().unwrap_or(false),
                    _ => false,
                });
                let mut body = None;
                if l.starts_with("define ") {
                    let s = i;
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                    body = Some((s, i));
                }
                m.funcs.insert(name.clone(), FuncDecl { name, noreturn, body });
            } else if l.starts_with('@') {
                let t = lex(l);
                let name = if let Tok::Global(n) = &t[0] { n.clone() } else { return Err(l.clone()) };
                let types = m.types.clone();
                let mut p = P { t: &t, i: 2, types: &types, regs: None, labels: None };
                let mut constant = false;
                let mut alias = false;
                let mut external = false;
                loop {
                    match p.peek() {
                        Some(Tok::Id(s)) => {
                            let s = s.clone();
                            match s.as_str() {
                                "global" => {
                                    p.i += 1;
                                    break;
                                }
                                "constant" => {
                                    constant = true;
                                    p.i += 1;
                                    break;
                                }
                                "alias" | "ifunc" => {
                                    alias = true;
                                    p.i += 1;
                                    break;
                                }
                                "external" | "extern_weak" => {
                                    external = true;
                                    p.i += 1;
                                }
                                _ => p.i += 1,
                            }
                        }
                        Some(_) => p.i += 1,
                        None => return Err(format!("global {}", l)),
                    }
                }
                if alias {
                    if let Some(Tok::Global(tgt)) = t.iter().rev().find(|x| matches!(x, Tok::Global(_))) {
                        m.aliases.insert(name, tgt.clone());
                    }
                    i += 1;
                    continue;
                }
                let ty = p.ty()?;
                let init = if external { None } else { Some(Rc::new(p.konst(&ty).map_err(|e| format!("{}: {}", e, l))?)) };
                let mut align = ty.align().max(1);
                for k in p.i..t.len() {
                    if t[k] == Tok::Id("align".into()) {
                        if let Some(Tok::Num(n)) = t.get(k + 1) {
                            align = n.parse().unwrap_or(align);
                        }
                    }
                }
                m.global_order.push(name.clone());
                m.globals.insert(name.clone(), GlobalDef { name, ty, init, constant, align });
            } else if l.starts_with('!') {
                if let Some((n, _)) = l[1..].split_once(' ') {
                    if let Ok(n) = n.parse() {
                        m.meta.insert(n, i);
                    }
                }
            }
            i += 1;
        }
        Ok(m)
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let d = self.funcs.get(name).ok_or(format!("no function {}", name))?;
        let (s, e) = d.body.ok_or(format!("no body for {}", name))?;
        let head = lex(&self.lines[s]);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut labels: HashMap<String, u32> = HashMap::new();
        // parameters: after the name, in parentheses
        let mut params = vec![];
        let gi = head.iter().position(|x| matches!(x, Tok::Global(_))).unwrap();
        let ret;
        {
            let mut p = P { t: &head, i: 1, types: &self.types, regs: Some(&mut regs), labels: None };
            loop {
                p.attrs()?;
                if p.type_start() {
                    break;
                }
                p.i += 1;
            }
            ret = p.ty()?;
            p.i = gi + 1;
            p.want('(')?;
            let mut n = 0;
            while !p.is(')') {
                if p.is('.') || matches!(p.peek(), Some(Tok::Id(s)) if s == "...") {
                    p.i += 1;
                    continue;
                }
                p.ty()?;
                p.attrs()?;
                let nm = match p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => format!("{}", n),
                };
                n += 1;
                params.push(p.reg(&nm));
                p.eat(',');
            }
        }
        // first pass: labels
        let nparams = params.len();
        let mut nblocks = 0u32;
        let mut first = true;
        for i in s + 1..e {
            let l = &self.lines[i];
            let b = l.as_bytes();
            if b.is_empty() {
                continue;
            }
            if b[0] != b' ' && b[0] != b'\t' {
                let lab = label_of(l);
                if let Some(lab) = lab {
                    labels.insert(lab, nblocks);
                    nblocks += 1;
                }
                first = false;
            } else if first {
                labels.insert(format!("{}", nparams), 0);
                nblocks += 1;
                first = false;
            }
        }
        let mut blocks: Vec<Vec<Inst>> = vec![];
        let mut i = s + 1;
        let mut started = false;
        while i < e {
            let l = &self.lines[i];
            if l.is_empty() {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') && !l.starts_with('\t') {
                if label_of(l).is_some() {
                    blocks.push(vec![]);
                    started = true;
                }
                i += 1;
                continue;
            }
            if !started {
                blocks.push(vec![]);
                started = true;
            }
            let tl = l.trim_start();
            if tl.starts_with('#') {
                // debug records
                i += 1;
                continue;
            }
            let mut t = lex(l);
            if t.contains(&Tok::Id("switch".into())) && t.last() == Some(&Tok::P('[')) {
                loop {
                    i += 1;
                    let u = lex(&self.lines[i]);
                    let done = u.first() == Some(&Tok::P(']'));
                    t.extend(u);
                    if done {
                        break;
                    }
                }
            } else {
                // continuation lines (invoke, landingpad, long arrays of operand bundles)
                while i + 1 < e && self.lines[i + 1].starts_with("          ") && !self.lines[i + 1].trim_start().starts_with('#') && !self.lines[i + 1].trim_start().starts_with(';') {
                    i += 1;
                    t.extend(lex(&self.lines[i]));
                }
            }
            let mut dbg = 0;
            for k in 0..t.len() {
                if t[k] == Tok::Meta("dbg".into()) {
                    if let Some(Tok::Meta(n)) = t.get(k + 1) {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
            }
            let mut p = P { t: &t, i: 0, types: &self.types, regs: Some(&mut regs), labels: Some(&labels) };
            let mut dst = None;
            if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (t.get(0), t.get(1)) {
                dst = Some(p.reg(n));
                p.i = 2;
            }
            let ins = match self.parse_ins(&mut p) {
                Ok(x) => x,
                Err(er) => Ins::Unsupported(format!("{} in: {}", er, l.trim())),
            };
            blocks.last_mut().unwrap().push(Inst { dst, ins, dbg });
            i += 1;
        }
        Ok(Func { name: name.to_string(), ret, params, nregs: regs.len(), blocks, noreturn: d.noreturn })
    }

    fn parse_ins(&self, p: &mut P) -> R<Ins> {
        let op = match p.next()? {
            Tok::Id(s) => s,
            x => return Err(format!("instruction {:?}", x)),
        };
        Ok(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.flags();
                let a = p.tval()?;
                p.want(',')?;
                let b = p.val(&a.ty)?;
                Ins::Bin(op, a, b)
            }
            "fneg" => {
                p.flags();
                Ins::FNeg(p.tval()?)
            }
            "icmp" | "fcmp" => {
                let mut pred = String::new();
                while !p.type_start() {
                    if let Tok::Id(s) = p.next()? {
                        if s != "samesign" {
                            pred = s;
                        }
                    }
                }
                let a = p.tval()?;
                p.want(',')?;
                let b = p.val(&a.ty)?;
                if op == "icmp" {
                    Ins::ICmp(pred, a, b)
                } else {
                    Ins::FCmp(pred, a, b)
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                p.flags();
                let a = p.tval()?;
                p.next()?;
                let t = p.ty()?;
                Ins::Cast(op, a, t)
            }
            "select" => {
                p.flags();
                let c = p.tval()?;
                p.want(',')?;
                let a = p.tval()?;
                p.want(',')?;
                let b = p.tval()?;
                Ins::Select(c, a, b)
            }
            "getelementptr" => {
                p.flags();
                let t = p.ty()?;
                p.want(',')?;
                let b = p.tval()?;
                let mut ix = vec![];
                while p.is(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta(_))) {
                    p.i += 1;
                    ix.push(p.tval()?);
                }
                Ins::Gep(t, b, ix)
            }
            "load" => {
                p.flags();
                let t = p.ty()?;
                p.want(',')?;
                let a = p.tval()?;
                Ins::Load(t, a)
            }
            "store" => {
                p.flags();
                let v = p.tval()?;
                p.want(',')?;
                let a = p.tval()?;
                Ins::Store(v, a)
            }
            "alloca" => {
                p.flags();
                let t = p.ty()?;
                let mut n = None;
                let mut al = 16;
                while p.eat(',') {
                    if p.is_id("align") {
                        p.i += 1;
                        al = p.num()?;
                    } else if p.type_start() {
                        n = Some(p.tval()?);
                    } else {
                        break;
                    }
                }
                Ins::Alloca(t, n, al)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && !invoke {
                    p.next()?;
                }
                // calling convention, attributes
                loop {
                    p.attrs()?;
                    if p.type_start() {
                        break;
                    }
                    p.i += 1;
                    if p.i >= p.t.len() {
                        return Err("call".into());
                    }
                }
                let ret = p.ty()?;
                if p.is('(') {
                    p.skip_parens()?;
                }
                let callee = if p.is_id("asm") {
                    // the wide division of num-bigint; nothing else
                    let mut text = None;
                    while !p.is('(') {
                        if let Some(Tok::Str(b)) = p.peek() {
                            if text.is_none() {
                                text = Some(String::from_utf8_lossy(b).to_string());
                            }
                        }
                        p.i += 1;
                        if p.i >= p.t.len() {
                            return Err("asm".into());
                        }
                    }
                    if text.as_deref() != Some("div ${2:q}") {
                        return Ok(Ins::Unsupported("inline assembly".into()));
                    }
                    Opd::C(Rc::new(Const::Global("llvm.x86.vpdiv.64".into())))
                } else {
                    p.val(&Ty::Ptr)?
                };
                p.want('(')?;
                let mut args = vec![];
                while !p.eat(')') {
                    let ty = p.ty()?;
                    if ty == Ty::Other("metadata".into()) {
                        // skip to the comma or parenthesis
                        let mut d = 0;
                        loop {
                            match p.peek() {
                                Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                                Some(Tok::P('}')) => d -= 1,
                                Some(Tok::P(')')) => {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1
                                }
                                Some(Tok::P(',')) if d == 0 => break,
                                None => return Err("metadata".into()),
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push(TOp { ty, op: Opd::Meta });
                    } else {
                        p.attrs()?;
                        let op = p.val(&ty)?;
                        args.push(TOp { ty, op });
                    }
                    p.eat(',');
                }
                let mut noreturn = false;
                let mut normal = None;
                while p.i < p.t.len() {
                    match &p.t[p.i] {
                        Tok::Attr(n) => noreturn |= self.noreturn_attrs.get(n).copied().unwrap_or(false),
                        Tok::Id(s) if s == "noreturn" => noreturn = true,
                        Tok::Id(s) if s == "to" && invoke => {
                            p.i += 1;
                            normal = Some(p.label()?);
                            break;
                        }
                        Tok::Meta(_) => break,
                        _ => {}
                    }
                    p.i += 1;
                }
                Ins::Call { ret, callee, args, noreturn, normal }
            }
            "phi" => {
                p.flags();
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.want('[')?;
                    let x = p.val(&t)?;
                    p.want(',')?;
                    let l = p.label()?;
                    p.want(']')?;
                    v.push((x, l));
                    if p.is(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "br" => {
                if p.is_id("label") {
                    Ins::Br(p.label()?)
                } else {
                    let c = p.tval()?;
                    p.want(',')?;
                    let a = p.label()?;
                    p.want(',')?;
                    let b = p.label()?;
                    Ins::CondBr(c.op, a, b)
                }
            }
            "switch" => {
                let v = p.tval()?;
                p.want(',')?;
                let d = p.label()?;
                p.want('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let (_, c) = p.tconst()?;
                    p.want(',')?;
                    let l = p.label()?;
                    if let Const::Int(_, x) = c {
                        cs.push((x, l));
                    } else {
                        return Err("switch case".into());
                    }
                }
                Ins::Switch(v, d, cs)
            }
            "ret" => {
                if p.is_id("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(p.tval()?))
                }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let a = p.tval()?;
                let mut ix = vec![];
                while p.is(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                    p.i += 1;
                    ix.push(p.num()? as usize);
                }
                Ins::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let a = p.tval()?;
                p.want(',')?;
                let b = p.tval()?;
                let mut ix = vec![];
                while p.is(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                    p.i += 1;
                    ix.push(p.num()? as usize);
                }
                Ins::InsertValue(a, b, ix)
            }
            "extractelement" => {
                let a = p.tval()?;
                p.want(',')?;
                Ins::ExtractElement(a, p.tval()?)
            }
            "insertelement" => {
                let a = p.tval()?;
                p.want(',')?;
                let b = p.tval()?;
                p.want(',')?;
                Ins::InsertElement(a, b, p.tval()?)
            }
            "shufflevector" => {
                let a = p.tval()?;
                p.want(',')?;
                let b = p.tval()?;
                p.want(',')?;
                Ins::Shuffle(a, b, p.tval()?)
            }
            "freeze" => Ins::Freeze(p.tval()?),
            "fence" => Ins::Fence,
            "cmpxchg" => {
                p.flags();
                let a = p.tval()?;
                p.want(',')?;
                let b = p.tval()?;
                p.want(',')?;
                Ins::CmpXchg(a, b, p.tval()?)
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let k = match p.next()? {
                    Tok::Id(s) => s,
                    _ => return Err("atomicrmw".into()),
                };
                let a = p.tval()?;
                p.want(',')?;
                Ins::AtomicRmw(k, a, p.tval()?)
            }
            _ => Ins::Unsupported(op),
        })
    }
}

fn label_of(l: &str) -> Option<String> {
    let b = l.as_bytes();
    if b[0] == b'"' {
        let e = l[1..].find('"')? + 1;
        if l[e + 1..].starts_with(':') {
            return Some(l[1..e].to_string());
        }
        return None;
    }
    let e = l.find(':')?;
    let n = &l[..e];
    if n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$') {
        Some(n.to_string())
    } else {
        None
    }
}
