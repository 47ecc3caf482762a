//! LLVM IR modules: types, constants, instructions; functions are parsed lazily.

use crate::lex::{T, lex};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(Ty::align).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, _) => {
                let (mut o, a) = self.struct_end(f.len());
                if a > 1 {
                    o = o.div_ceil(a) * a;
                }
                o
            }
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
        }
    }
    fn struct_end(&self, n: usize) -> (u64, u64) {
        let Ty::Struct(f, packed) = self else { panic!("struct") };
        let mut o = 0u64;
        for t in f.iter().take(n) {
            if !*packed {
                let a = t.align();
                o = o.div_ceil(a) * a;
            }
            o += t.size();
        }
        (o, self.align())
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let (mut o, _) = self.struct_end(i);
                if !*packed {
                    let a = f[i].align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, C)>),
    Gep(Box<C>, Vec<(u64, C)>), // base, (scale, index) pairs
    Cast(u16, Box<C>),          // truncate to width (ptrtoint / inttoptr / trunc / bitcast)
    Bin(Bin, u16, Box<C>, Box<C>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Ty, C),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Debug)]
pub enum Ins {
    Bin(Bin, u16, Opd, Opd, u32),
    Icmp(Pred, u16, Opd, Opd, u32),
    Cast(CastK, u16, u16, Opd, u32),
    Select(Opd, Opd, Opd, Ty, u32),
    Alloca(u64, u64, Option<Opd>, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u16, u64)>, u32),
    Extract(Opd, Vec<u32>, u32),
    Insert(Ty, Opd, Opd, Vec<u32>, u32),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    AtomicRmw(String, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Freeze(Opd, u32),
    VBin(Bin, u64, u16, Opd, Opd, u32),
    VIcmp(Pred, u64, u16, Opd, Opd, u32),
    VCast(CastK, u64, u16, u16, Opd, u32),
    VSelect(Opd, Opd, Opd, u64, u16, u32),
    VBit(Ty, Ty, Opd, u32),
    Shuffle(u64, Opd, Opd, Vec<Option<u32>>, u32),
    InsEl(u64, Opd, Opd, Opd, u32),
    ExtEl(Opd, Opd, u32),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub enum Callee {
    Direct(String),
    Id(u32),
    Indirect(Opd),
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub path: String,
    pub text: String,
    /// function name -> byte range of its definition
    pub funcs: HashMap<String, (usize, usize)>,
    /// global name -> byte range of its line
    pub globals: HashMap<String, (usize, usize)>,
    pub types: HashMap<String, String>,
    pub aliases: HashMap<String, String>,
}

pub struct Program {
    pub modules: Vec<Module>,
    /// externally visible name -> module
    pub ext_funcs: HashMap<String, usize>,
    pub ext_globals: HashMap<String, usize>,
}

fn sym_name(line: &str) -> Option<(&str, bool)> {
    // first '@name' of a line; returns (name, _)
    let p = line.find('@')?;
    let rest = &line[p + 1..];
    if let Some(r) = rest.strip_prefix('"') {
        let e = r.find('"')?;
        Some((&r[..e], true))
    } else {
        let e = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(rest.len());
        Some((&rest[..e], false))
    }
}

impl Program {
    pub fn load(paths: &[String]) -> std::io::Result<Program> {
        let mut p = Program { modules: vec![], ext_funcs: HashMap::new(), ext_globals: HashMap::new() };
        for path in paths {
            let text = std::fs::read_to_string(path)?;
            let mut m = Module {
                path: path.clone(),
                text: String::new(),
                funcs: HashMap::new(),
                globals: HashMap::new(),
                types: HashMap::new(),
                aliases: HashMap::new(),
            };
            let mi = p.modules.len();
            let mut pos = 0;
            let bytes = text.as_bytes();
            while pos < text.len() {
                let e = text[pos..].find('\n').map_or(text.len(), |x| pos + x);
                let line = &text[pos..e];
                if line.starts_with("define ") {
                    let (n, _) = sym_name(line).unwrap();
                    // find closing "\n}\n"
                    let end = text[pos..].find("\n}").map_or(text.len(), |x| pos + x);
                    let internal = line.starts_with("define internal") || line.starts_with("define private");
                    if !internal {
                        p.ext_funcs.entry(n.to_string()).or_insert(mi);
                    }
                    m.funcs.insert(n.to_string(), (pos, end));
                    pos = end + 2;
                    while pos < text.len() && bytes[pos] != b'\n' {
                        pos += 1;
                    }
                    pos += 1;
                    continue;
                }
                if line.starts_with('@') {
                    let (n, _) = sym_name(line).unwrap();
                    let after = &line[n.len()..];
                    let head = after.split_once('=').map_or("", |x| x.1).trim_start();
                    if head.contains(" alias ") || head.starts_with("alias ") || head.contains("unnamed_addr alias") {
                        if let Some(q) = head.rfind('@') {
                            if let Some((t, _)) = sym_name(&head[q..]) {
                                m.aliases.insert(n.to_string(), t.to_string());
                                p.ext_funcs.entry(n.to_string()).or_insert(mi);
                            }
                        }
                    } else {
                        let decl = head.starts_with("external") || head.starts_with("extern_weak");
                        if !decl {
                            if !head.starts_with("private") && !head.starts_with("internal") {
                                p.ext_globals.entry(n.to_string()).or_insert(mi);
                            }
                            m.globals.insert(n.to_string(), (pos, e));
                        }
                    }
                } else if line.starts_with('%') && line.contains(" = type ") {
                    let (l, r) = line.split_once(" = type ").unwrap();
                    let n = l.trim_start_matches('%').trim_matches('"');
                    m.types.insert(n.to_string(), r.to_string());
                }
                pos = e + 1;
            }
            m.text = text;
            p.modules.push(m);
        }
        Ok(p)
    }

    pub fn find_func(&self, module: usize, name: &str) -> Option<(usize, String)> {
        let mut name = name.to_string();
        for _ in 0..4 {
            if self.modules[module].funcs.contains_key(&name) {
                return Some((module, name));
            }
            let mi = if self.modules[module].aliases.contains_key(&name) { Some(module) } else { self.ext_funcs.get(&name).copied() };
            match mi {
                Some(mi) => {
                    if self.modules[mi].funcs.contains_key(&name) {
                        return Some((mi, name));
                    }
                    if let Some(a) = self.modules[mi].aliases.get(&name) {
                        name = a.clone();
                        if self.modules[mi].funcs.contains_key(&name) {
                            return Some((mi, name));
                        }
                    } else {
                        return None;
                    }
                }
                None => return None,
            }
        }
        None
    }

    pub fn find_global(&self, module: usize, name: &str) -> Option<usize> {
        if self.modules[module].globals.contains_key(name) {
            return Some(module);
        }
        self.ext_globals.get(name).copied()
    }

    /// Parse the initialiser of a global: (type, init, align)
    pub fn parse_global(&self, module: usize, name: &str) -> (Ty, C, u64) {
        let m = &self.modules[module];
        let (a, b) = m.globals[name];
        let line = &m.text[a..b];
        let toks = lex(line);
        let mut p = P { t: &toks, i: 0, m, regs: None };
        // @name = [linkage] [..attrs] (global|constant) type init, ...
        loop {
            match p.next() {
                Some(T::Word("global")) | Some(T::Word("constant")) => break,
                None => return (Ty::Other, C::Bad(line.chars().take(80).collect()), 1),
                _ => {}
            }
        }
        let ty = p.ty();
        let c = p.constant(&ty);
        let mut align = ty.align();
        while let Some(t) = p.next() {
            if t == T::Word("align") {
                if let Some(T::Int(s)) = p.next() {
                    align = s.parse().unwrap();
                }
            }
        }
        (ty, c, align)
    }

    pub fn parse_func(&self, module: usize, name: &str) -> Func {
        let m = &self.modules[module];
        let (a, b) = m.funcs[name];
        let text = &m.text[a..b];
        parse_func(m, module, name, text)
    }
}

struct Regs {
    map: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

struct P<'t, 'a> {
    t: &'t [T<'a>],
    i: usize,
    m: &'t Module,
    regs: Option<&'t mut Regs>,
}

const ATTR_STOP: &[&str] = &["null", "true", "false", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr", "trunc", "bitcast", "sub", "add", "xor", "mul", "blockaddress", "asm", "addrspacecast", "splat"];

impl<'t, 'a> P<'t, 'a> {
    fn next(&mut self) -> Option<T<'a>> {
        let r = self.t.get(self.i).cloned();
        self.i += 1;
        r
    }
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn peek_at(&self, n: usize) -> Option<&T<'a>> {
        self.t.get(self.i + n)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Some(T::Word(x)) if *x == w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Some(T::P(b'(')) => d += 1,
                Some(T::P(b')')) => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                None => return,
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Some(T::Word(w)) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Some(T::P(b'[')) => {
                let n = self.int();
                self.eat_w("x");
                let t = self.ty();
                self.eat_p(b']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            Some(T::P(b'{')) => {
                let mut f = vec![];
                while !self.eat_p(b'}') {
                    f.push(self.ty());
                    self.eat_p(b',');
                    if self.peek().is_none() {
                        break;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            Some(T::P(b'<')) => {
                if self.eat_p(b'{') {
                    let mut f = vec![];
                    while !self.eat_p(b'}') {
                        f.push(self.ty());
                        self.eat_p(b',');
                        if self.peek().is_none() {
                            break;
                        }
                    }
                    self.eat_p(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int();
                    self.eat_w("x");
                    let t = self.ty();
                    self.eat_p(b'>');
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Some(T::Local(n)) => {
                if let Some(d) = self.m.types.get(n) {
                    let toks = lex(d);
                    let mut p = P { t: &toks, i: 0, m: self.m, regs: None };
                    p.ty()
                } else {
                    Ty::Other
                }
            }
            _ => Ty::Other,
        }
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Some(T::Int(s)) => s.parse::<i128>().unwrap_or(0),
            _ => 0,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Word(w)) if !ATTR_STOP.contains(w) => {
                    self.i += 1;
                    if self.peek() == Some(&T::P(b'(')) {
                        self.skip_paren();
                    } else if matches!(self.t.get(self.i - 1), Some(T::Word("align"))) {
                        if matches!(self.peek(), Some(T::Int(_))) {
                            self.i += 1;
                        }
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                Some(T::Hash) => self.i += 1,
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let l = r.map.len() as u32;
        *r.map.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self) -> u32 {
        self.eat_w("label");
        match self.next() {
            Some(T::Local(n)) => {
                let r = self.regs.as_mut().unwrap();
                *r.blocks.get(n).unwrap_or(&u32::MAX)
            }
            _ => u32::MAX,
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(T::Local(n)) = self.peek() {
            let n: &str = n;
            let n = n.to_string();
            self.i += 1;
            return Opd::R(self.reg(&n));
        }
        let c = self.constant(ty);
        Opd::K(ty.clone(), c)
    }
    /// `type attrs value`
    fn typed(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.opd(&t);
        (t, o)
    }
    fn constant(&mut self, ty: &Ty) -> C {
        match self.next() {
            Some(T::Int(s)) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap_or(0)).wrapping_neg() } else { s.parse::<u128>().unwrap_or(0) };
                    C::Int(mask(v, *w))
                }
                Ty::Float(w) => parse_float(s, *w),
                _ => C::Bad(format!("int for {ty:?}")),
            },
            Some(T::Word(w)) => match w {
                "null" | "none" => C::Int(0),
                "true" => C::Int(1),
                "false" => C::Int(0),
                "undef" | "poison" => C::Undef,
                "zeroinitializer" => C::Zero,
                "getelementptr" => {
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                        if self.peek() == Some(&T::P(b'(')) && matches!(self.t.get(self.i - 1), Some(T::Word("inrange"))) {
                            self.skip_paren();
                        }
                    }
                    self.eat_p(b'(');
                    let t = self.ty();
                    self.eat_p(b',');
                    let bt = self.ty();
                    let base = self.constant(&bt);
                    let mut idx = vec![];
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat_p(b',') {
                        let it = self.ty();
                        let c = self.constant(&it);
                        if first {
                            idx.push((cur.size(), c));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    if let C::Int(i) = c {
                                        idx.push((1, C::Int(cur.field_offset(i as usize) as u128)));
                                        cur = cur.field(i as usize);
                                    }
                                }
                                Ty::Arr(..) => {
                                    cur = cur.field(0);
                                    idx.push((cur.size(), c));
                                }
                                _ => return C::Bad("gep const".into()),
                            }
                        }
                    }
                    self.eat_p(b')');
                    C::Gep(Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" => {
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.eat_p(b'(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.eat_w("to");
                    let to = self.ty();
                    self.eat_p(b')');
                    C::Cast(to.bits(), Box::new(c))
                }
                "sub" | "add" | "xor" | "mul" => {
                    let op = match w {
                        "sub" => Bin::Sub,
                        "add" => Bin::Add,
                        "mul" => Bin::Mul,
                        _ => Bin::Xor,
                    };
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.eat_p(b'(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.eat_p(b',');
                    let t2 = self.ty();
                    let b = self.constant(&t2);
                    self.eat_p(b')');
                    C::Bin(op, t.bits(), Box::new(a), Box::new(b))
                }
                "splat" => {
                    self.eat_p(b'(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.eat_p(b')');
                    C::Agg((0..ty.nfields()).map(|_| (t.clone(), c.clone())).collect())
                }
                _ => C::Bad(w.to_string()),
            },
            Some(T::Global(n)) => C::Global(n.to_string()),
            Some(T::CStr(s)) => C::Bytes(unescape(s)),
            Some(T::P(b'<')) => {
                if self.eat_p(b'{') {
                    let a = self.agg(b'}');
                    self.eat_p(b'>');
                    a
                } else {
                    self.agg(b'>')
                }
            }
            Some(T::P(b'{')) => self.agg(b'}'),
            Some(T::P(b'[')) => self.agg(b']'),
            x => C::Bad(format!("{x:?}")),
        }
    }
    fn agg(&mut self, end: u8) -> C {
        let mut v = vec![];
        while !self.eat_p(end) {
            let t = self.ty();
            let c = self.constant(&t);
            v.push((t, c));
            self.eat_p(b',');
            if self.peek().is_none() {
                break;
            }
        }
        C::Agg(v)
    }
}

fn parse_float(s: &str, w: u16) -> C {
    if let Some(h) = s.strip_prefix("0x") {
        if let Ok(v) = u64::from_str_radix(h.trim_start_matches(['H', 'K', 'L', 'M', 'R']), 16) {
            if w == 32 {
                return C::Int((f64::from_bits(v) as f32).to_bits() as u128);
            }
            return C::Int(v as u128);
        }
        return C::Bad(s.to_string());
    }
    match s.parse::<f64>() {
        Ok(f) => {
            if w == 32 {
                C::Int((f as f32).to_bits() as u128)
            } else if w == 64 {
                C::Int(f.to_bits() as u128)
            } else {
                C::Bad(s.to_string())
            }
        }
        Err(_) => C::Bad(s.to_string()),
    }
}

pub fn mask(v: u128, w: u16) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn parse_func(m: &Module, module: usize, name: &str, text: &str) -> Func {
    let mut lines: Vec<String> = vec![];
    let mut it = text.lines();
    let header = it.next().unwrap();
    let mut cur: Option<String> = None;
    for l in it {
        if let Some(c) = &mut cur {
            c.push('\n');
            c.push_str(l);
            if l.trim_start().starts_with(']') {
                lines.push(cur.take().unwrap());
            }
            continue;
        }
        let tl = l.trim_start();
        if tl.is_empty() || tl.starts_with(';') || tl.starts_with('#') {
            continue;
        }
        if tl.starts_with("switch ") && tl.trim_end().ends_with('[') {
            cur = Some(l.to_string());
            continue;
        }
        lines.push(l.to_string());
    }
    let mut regs = Regs { map: HashMap::new(), blocks: HashMap::new() };
    // labels
    let mut nb = 0u32;
    let mut first = true;
    for l in &lines {
        if !l.starts_with(' ') {
            let e = label_of(l);
            regs.blocks.insert(e, nb);
            nb += 1;
            first = false;
        } else if first {
            // unnamed entry block: numbered implicitly; nothing can branch to it
            nb += 1;
            first = false;
        }
    }
    // header params
    let toks = lex(header);
    let mut params = vec![];
    {
        let mut p = P { t: &toks, i: 0, m, regs: Some(&mut regs) };
        loop {
            match p.next() {
                Some(T::Global(_)) => break,
                None => break,
                _ => {}
            }
        }
        p.eat_p(b'(');
        while !p.eat_p(b')') {
            let _t = p.ty();
            p.skip_attrs();
            match p.next() {
                Some(T::Local(n)) => {
                    let n = n.to_string();
                    let r = p.reg(&n);
                    params.push(r);
                }
                _ => {
                    // unnamed / varargs
                }
            }
            p.eat_p(b',');
            if p.peek().is_none() {
                break;
            }
        }
    }
    let mut blocks: Vec<Block> = vec![];
    for l in &lines {
        if !l.starts_with(' ') {
            blocks.push(Block { phis: vec![], ins: vec![] });
            continue;
        }
        if blocks.is_empty() {
            blocks.push(Block { phis: vec![], ins: vec![] });
        }
        let toks = lex(l);
        let mut p = P { t: &toks, i: 0, m, regs: Some(&mut regs) };
        let b = blocks.last_mut().unwrap();
        parse_ins(&mut p, b, l);
    }
    Func { name: name.to_string(), module, nregs: regs.map.len() as u32, params, blocks }
}

fn label_of(l: &str) -> String {
    if let Some(r) = l.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        l[..l.find(':').unwrap_or(l.len())].to_string()
    }
}

fn parse_ins(p: &mut P, b: &mut Block, line: &str) {
    let mut d = u32::MAX;
    if let (Some(T::Local(n)), Some(T::P(b'='))) = (p.peek(), p.peek_at(1)) {
        let n = n.to_string();
        d = p.reg(&n);
        p.i += 2;
    }
    let bad = || Ins::Bad(line.trim().chars().take(160).collect());
    let w = match p.next() {
        Some(T::Word(w)) => w,
        _ => {
            b.ins.push(bad());
            return;
        }
    };
    let skip_flags = |p: &mut P| {
        loop {
            match p.peek() {
                Some(T::Word(x)) if ["nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "volatile", "atomic", "weak", "inrange", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inalloca"].contains(x) => p.i += 1,
                _ => break,
            }
        }
    };
    let bin = match w {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "urem" => Some(Bin::URem),
        "sdiv" => Some(Bin::SDiv),
        "srem" => Some(Bin::SRem),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        _ => None,
    };
    if let Some(op) = bin {
        skip_flags(p);
        let t = p.ty();
        if !matches!(t, Ty::Int(_) | Ty::Vec(..)) {
            b.ins.push(bad());
            return;
        }
        let x = p.opd(&t);
        p.eat_p(b',');
        let y = p.opd(&t);
        if let Ty::Vec(n, el) = &t {
            b.ins.push(Ins::VBin(op, *n, el.bits(), x, y, d));
            return;
        }
        b.ins.push(Ins::Bin(op, t.bits(), x, y, d));
        return;
    }
    let ins = match w {
        "icmp" => {
            skip_flags(p);
            let pr = match p.next() {
                Some(T::Word(x)) => match x {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    _ => Pred::Sge,
                },
                _ => Pred::Eq,
            };
            let t = p.ty();
            if let Ty::Vec(n, el) = &t {
                let x = p.opd(&t);
                p.eat_p(b',');
                let y = p.opd(&t);
                Ins::VIcmp(pr, *n, el.bits(), x, y, d)
            } else if !matches!(t, Ty::Int(_) | Ty::Ptr) {
                bad()
            } else {
                let x = p.opd(&t);
                p.eat_p(b',');
                let y = p.opd(&t);
                Ins::Icmp(pr, t.bits(), x, y, d)
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
            skip_flags(p);
            let (t, x) = p.typed();
            p.eat_w("to");
            let to = p.ty();
            let ok = |t: &Ty| matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float(_));
            if w == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
                Ins::VBit(t, to, x, d)
            } else if let (Ty::Vec(n, a), Ty::Vec(_, e)) = (&t, &to) {
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    _ => CastK::Bit,
                };
                Ins::VCast(k, *n, a.bits(), e.bits(), x, d)
            } else if !ok(&t) || !ok(&to) {
                bad()
            } else {
                let (f, o) = (t.bits(), to.bits());
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    _ if f > o => CastK::Trunc,
                    _ if f < o => CastK::ZExt,
                    _ => CastK::Bit,
                };
                Ins::Cast(k, f, o, x, d)
            }
        }
        "select" => {
            skip_flags(p);
            let (ct, c) = p.typed();
            p.eat_p(b',');
            let (t, x) = p.typed();
            p.eat_p(b',');
            let (_, y) = p.typed();
            match (&ct, &t) {
                (Ty::Vec(n, _), Ty::Vec(_, e)) => Ins::VSelect(c, x, y, *n, e.bits(), d),
                (Ty::Int(1), _) => Ins::Select(c, x, y, t, d),
                _ => bad(),
            }
        }
        "alloca" => {
            skip_flags(p);
            let t = p.ty();
            let mut al = t.align();
            let mut n = None;
            while p.eat_p(b',') {
                if p.eat_w("align") {
                    al = p.int() as u64;
                } else if matches!(p.peek(), Some(T::Word(x)) if x.starts_with('i')) {
                    n = Some(p.typed().1);
                } else {
                    break;
                }
            }
            Ins::Alloca(t.size(), al, n, d)
        }
        "load" => {
            skip_flags(p);
            let t = p.ty();
            p.eat_p(b',');
            let (_, ptr) = p.typed();
            if matches!(t, Ty::Other) { bad() } else { Ins::Load(t, ptr, d) }
        }
        "store" => {
            skip_flags(p);
            let (t, v) = p.typed();
            p.eat_p(b',');
            let (_, ptr) = p.typed();
            if matches!(t, Ty::Other) { bad() } else { Ins::Store(t, v, ptr) }
        }
        "getelementptr" => {
            skip_flags(p);
            let t = p.ty();
            p.eat_p(b',');
            let (_, base) = p.typed();
            let mut off: i64 = 0;
            let mut terms = vec![];
            let mut cur = t;
            let mut first = true;
            let mut err = false;
            while p.eat_p(b',') {
                if matches!(p.peek(), Some(T::Meta)) {
                    break;
                }
                let (it, o) = p.typed();
                let scale;
                if first {
                    scale = cur.size();
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            if let Opd::K(_, C::Int(i)) = &o {
                                off += cur.field_offset(*i as usize) as i64;
                                cur = cur.field(*i as usize);
                            } else {
                                err = true;
                            }
                            continue;
                        }
                        Ty::Arr(..) => {
                            cur = cur.field(0);
                            scale = cur.size();
                        }
                        _ => {
                            err = true;
                            break;
                        }
                    }
                }
                match &o {
                    Opd::K(Ty::Int(w), C::Int(v)) => {
                        let s = if *w < 128 && (v >> (w - 1)) & 1 == 1 { (*v as i128) - (1i128 << w) } else { *v as i128 };
                        off = off.wrapping_add((s as i64).wrapping_mul(scale as i64));
                    }
                    _ => terms.push((o, it.bits(), scale)),
                }
            }
            if err { bad() } else { Ins::Gep(base, off, terms, d) }
        }
        "extractvalue" => {
            let (_, a) = p.typed();
            let mut ix = vec![];
            while p.eat_p(b',') {
                if let Some(T::Int(s)) = p.peek() {
                    ix.push(s.parse().unwrap());
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ins::Extract(a, ix, d)
        }
        "insertvalue" => {
            let (t, a) = p.typed();
            p.eat_p(b',');
            let (_, v) = p.typed();
            let mut ix = vec![];
            while p.eat_p(b',') {
                if let Some(T::Int(s)) = p.peek() {
                    ix.push(s.parse().unwrap());
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ins::Insert(t, a, v, ix, d)
        }
        "tail" | "call" | "musttail" | "notail" => {
            if w != "call" {
                p.eat_w("call");
            }
            parse_call(p, d).unwrap_or_else(bad)
        }
        "br" => {
            if matches!(p.peek(), Some(T::Word("label"))) {
                Ins::Br(p.label())
            } else {
                let (_, c) = p.typed();
                p.eat_p(b',');
                let a = p.label();
                p.eat_p(b',');
                let e = p.label();
                Ins::CondBr(c, a, e)
            }
        }
        "switch" => {
            let (t, v) = p.typed();
            p.eat_p(b',');
            let def = p.label();
            p.eat_p(b'[');
            let mut cases = vec![];
            while !p.eat_p(b']') {
                let ct = p.ty();
                let c = p.constant(&ct);
                p.eat_p(b',');
                let l = p.label();
                if let C::Int(x) = c {
                    cases.push((x, l));
                }
                if p.peek().is_none() {
                    break;
                }
            }
            Ins::Switch(t.bits(), v, def, cases)
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Ins::Ret(None)
            } else {
                let o = p.opd(&t);
                Ins::Ret(Some(o))
            }
        }
        "unreachable" => Ins::Unreachable,
        "phi" => {
            skip_flags(p);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                if !p.eat_p(b'[') {
                    break;
                }
                let o = p.opd(&t);
                p.eat_p(b',');
                let l = p.label();
                p.eat_p(b']');
                inc.push((l, o));
                if !p.eat_p(b',') {
                    break;
                }
            }
            b.phis.push(Phi { dst: d, inc });
            return;
        }
        "atomicrmw" => {
            skip_flags(p);
            let op = match p.next() {
                Some(T::Word(x)) => x.to_string(),
                _ => String::new(),
            };
            let (_, ptr) = p.typed();
            p.eat_p(b',');
            let (t, v) = p.typed();
            Ins::AtomicRmw(op, t, ptr, v, d)
        }
        "cmpxchg" => {
            skip_flags(p);
            let (_, ptr) = p.typed();
            p.eat_p(b',');
            let (t, c) = p.typed();
            p.eat_p(b',');
            let (_, n) = p.typed();
            Ins::CmpXchg(t, ptr, c, n, d)
        }
        "shufflevector" => {
            let (t, x) = p.typed();
            p.eat_p(b',');
            let (_, y) = p.typed();
            p.eat_p(b',');
            let mt = p.ty();
            let m = p.constant(&mt);
            let n = mt.nfields();
            let ix = match m {
                C::Zero => vec![Some(0); n],
                C::Undef => vec![None; n],
                C::Agg(v) => v.iter().map(|(_, c)| if let C::Int(i) = c { Some(*i as u32) } else { None }).collect(),
                _ => vec![None; n],
            };
            Ins::Shuffle(t.nfields() as u64, x, y, ix, d)
        }
        "insertelement" => {
            let (t, x) = p.typed();
            p.eat_p(b',');
            let (_, y) = p.typed();
            p.eat_p(b',');
            let (_, i) = p.typed();
            Ins::InsEl(t.nfields() as u64, x, y, i, d)
        }
        "extractelement" => {
            let (_, x) = p.typed();
            p.eat_p(b',');
            let (_, i) = p.typed();
            Ins::ExtEl(x, i, d)
        }
        "fence" => Ins::Nop,
        "freeze" => {
            let (_, x) = p.typed();
            Ins::Freeze(x, d)
        }
        _ => bad(),
    };
    b.ins.push(ins);
}

fn parse_call(p: &mut P, d: u32) -> Option<Ins> {
    // [fast-math] [cconv] [ret attrs] <ty>|<fnty> <callee>(args) ...
    loop {
        match p.peek() {
            Some(T::Word(w)) => {
                let is_ty = *w == "void" || *w == "ptr" || *w == "float" || *w == "double" || *w == "half" || *w == "fp128" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok());
                if is_ty {
                    break;
                }
                p.i += 1;
                if p.peek() == Some(&T::P(b'(')) {
                    p.skip_paren();
                } else if matches!(p.t.get(p.i - 1), Some(T::Word("align"))) && matches!(p.peek(), Some(T::Int(_))) {
                    p.i += 1;
                }
            }
            Some(T::P(b'{' | b'[' | b'<')) | Some(T::Local(_)) => break,
            Some(T::Hash) | Some(T::Str(_)) => p.i += 1,
            _ => return None,
        }
    }
    let ret = p.ty();
    // function type form: ty (args...) callee
    if p.peek() == Some(&T::P(b'(')) {
        p.skip_paren();
    }
    let callee = match p.peek()? {
        T::Global(n) => {
            let n = n.to_string();
            p.i += 1;
            Callee::Direct(n)
        }
        T::Local(n) => {
            let n = n.to_string();
            p.i += 1;
            Callee::Indirect(Opd::R(p.reg(&n)))
        }
        T::Word("asm") => return None,
        _ => return None,
    };
    if !p.eat_p(b'(') {
        return None;
    }
    let mut args = vec![];
    while !p.eat_p(b')') {
        if let Some(T::Word("metadata")) = p.peek() {
            // metadata argument: skip to ',' or ')'
            let mut depth = 0;
            loop {
                match p.peek() {
                    Some(T::P(b'(')) => depth += 1,
                    Some(T::P(b')')) if depth == 0 => break,
                    Some(T::P(b')')) => depth -= 1,
                    Some(T::P(b',')) if depth == 0 => break,
                    None => break,
                    _ => {}
                }
                p.i += 1;
            }
            args.push((Ty::Other, Opd::K(Ty::Other, C::Int(0))));
        } else {
            let (t, o) = p.typed();
            args.push((t, o));
        }
        p.eat_p(b',');
        if p.peek().is_none() {
            break;
        }
    }
    let dst = if d == u32::MAX { None } else { Some(d) };
    Some(Ins::Call(callee, args, ret, dst))
}
