//! The symbolic interpreter: explores every feasible path of a harness, forking on symbolic
//! branches, switches and addresses; memory is a set of bounds-checked objects.

use crate::expr::{Arena, E, NONE, Op, bin_const, sext_const, slt_const};
use crate::ir::*;
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    S(E),
    U,
    A(Rc<Vec<Val>>),
}

const UNDEF: u32 = 256;
const SYM0: u32 = 512;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub kind: u8, // b'g', b'h', b's'
    pub ro: bool,
    pub align: u64,
    pub data: Vec<u32>,
}

#[derive(Clone)]
struct Frame {
    f: Rc<CFunc>,
    blk: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<E>,
    bounds: HashMap<E, (u128, u128)>,
    model: Rc<Vec<u128>>,
    syms: Vec<u16>,
    next_heap: u64,
    next_stack: u64,
    steps: u64,
    panic_ok: bool,
    live_heap: i64,
    live_bytes: u64,
    peak_bytes: u64,
    allocs: u64,
    obs: Vec<Val>,
}

pub struct CFunc {
    pub f: Func,
    pub kvals: Vec<Val>,
    pub pretty: String,
}

enum FKind {
    Defined,
    Intr(String),
    Panic(String),
    Undefined,
}

struct FnEntry {
    module: usize,
    name: String,
    kind: FKind,
    body: Option<Rc<CFunc>>,
    addr: u64,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u16, u64)>,
}

enum Stop {
    Done,
    Drop,
    Viol(String, String),
    Err(String),
    Retry, // the instruction must be re-executed (memory was refined)
}

type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub complete: u64,
    pub expected_panics: u64,
    pub dropped: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub branches_sym: u64,
    pub concretizations: u64,
    pub sym_loads: u64,
    pub by_interval: u64,
    pub steps: u64,
    pub cache_hits: u64,
}

pub struct Limits {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_secs: f64,
    pub max_viol: usize,
    pub keep_inputs: usize,
    pub sym_load_max: u64,
}

pub struct Engine<'p> {
    prog: &'p Program,
    pub ar: Arena,
    pub z3: Z3,
    fns: Vec<FnEntry>,
    fn_ids: HashMap<(usize, String), u32>,
    fn_by_addr: HashMap<u64, u32>,
    gaddr: HashMap<(usize, String), u64>,
    gobjs: BTreeMap<u64, Rc<Obj>>,
    next_g: u64,
    work: Vec<State>,
    cache: HashMap<Vec<u32>, Option<Vec<(u32, u128)>>>,
    var_e: HashMap<u32, E>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<u32, bool>,
    pub assert_ids: BTreeSet<u32>,
    pub used_fns: BTreeSet<String>,
    pub samples: Vec<(Vec<(u16, u64)>, Vec<u64>, bool)>,
    lim: Limits,
    t0: Instant,
}

const FBASE: u64 = 0x40_0000;
const GBASE: u64 = 0x1_0000_0000;
const HBASE: u64 = 0x5500_0000_0000;
const SBASE: u64 = 0x7f00_0000_0000;

fn classify(name: &str) -> Option<FKind> {
    if name.starts_with("llvm.") || name.starts_with("vp_") {
        return Some(FKind::Intr(name.to_string()));
    }
    if let Some(p) = name.find("7___rustc") {
        let t = &name[p + 9..];
        let t = t.trim_start_matches(|c: char| c.is_ascii_digit());
        match t {
            "___rust_alloc" | "___rust_dealloc" | "___rust_realloc" | "___rust_alloc_zeroed" | "___rust_no_alloc_shim_is_unstable_v2" | "___rust_no_alloc_shim_is_unstable" => return Some(FKind::Intr(t.to_string())),
            _ => {}
        }
        if t.contains("alloc_error_handler") {
            return Some(FKind::Panic("alloc_error".into()));
        }
    }
    match name {
        "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen" | "abort" => return Some(FKind::Intr(name.to_string())),
        _ => {}
    }
    if name.contains("_4core9panicking") || name.contains("_3std9panicking") || name.contains("18handle_alloc_error") {
        return Some(FKind::Panic(demangle(name)));
    }
    None
}

/// Readable rendering of a v0-mangled name: the identifier segments joined by `::`.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut segs: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if len >= 2 && s + len <= b.len() && n.is_char_boundary(s) && n.is_char_boundary(s + len) {
                segs.push(&n[s..s + len]);
                i = s + len;
            } else if len == 1 && s + 1 <= b.len() {
                i = s + 1;
            }
        } else if b[i] == b's' || b[i] == b'C' || b[i] == b'B' {
            // disambiguator / backref: skip to '_'
            i += 1;
            if i < b.len() && b[i - 1] == b'C' {
                if b[i] == b's' {
                    while i < b.len() && b[i] != b'_' {
                        i += 1;
                    }
                    i += 1;
                }
            } else {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 12 {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                }
            }
        } else {
            i += 1;
        }
    }
    segs.truncate(6);
    segs.join("::")
}

fn el(v: &Val, i: usize) -> Val {
    match v {
        Val::A(a) => a[i].clone(),
        _ => Val::U,
    }
}

impl<'p> Engine<'p> {
    pub fn new(prog: &'p Program, lim: Limits, z3_timeout: u32) -> Self {
        Engine {
            prog,
            ar: Arena::new(),
            z3: Z3::new(z3_timeout),
            fns: vec![],
            fn_ids: HashMap::new(),
            fn_by_addr: HashMap::new(),
            gaddr: HashMap::new(),
            gobjs: BTreeMap::new(),
            next_g: GBASE,
            work: vec![],
            cache: HashMap::new(),
            var_e: HashMap::new(),
            stats: Stats::default(),
            viols: vec![],
            errors: vec![],
            covers: BTreeMap::new(),
            assert_ids: BTreeSet::new(),
            used_fns: BTreeSet::new(),
            samples: vec![],
            lim,
            t0: Instant::now(),
        }
    }

    // ---- program entities -------------------------------------------------------------------

    fn fn_id(&mut self, module: usize, name: &str) -> u32 {
        let k = classify(name);
        let (m, n, kind) = match k {
            Some(k) => (usize::MAX, name.to_string(), k),
            None => match self.prog.find_func(module, name) {
                Some((m, n)) => {
                    let kind = classify(&n).unwrap_or(FKind::Defined);
                    (m, n, kind)
                }
                None => (usize::MAX, name.to_string(), FKind::Undefined),
            },
        };
        let m = if matches!(kind, FKind::Defined) { m } else { usize::MAX };
        let key = (m, n);
        if let Some(i) = self.fn_ids.get(&key) {
            return *i;
        }
        let id = self.fns.len() as u32;
        let addr = FBASE + 16 * id as u64;
        self.fns.push(FnEntry { module: key.0, name: key.1.clone(), kind, body: None, addr });
        self.fn_by_addr.insert(addr, id);
        self.fn_ids.insert(key, id);
        id
    }

    fn global_addr(&mut self, module: usize, name: &str) -> u64 {
        if let Some(m) = self.prog.find_global(module, name) {
            let key = (m, name.to_string());
            if let Some(a) = self.gaddr.get(&key) {
                return *a;
            }
            let (ty, init, align) = self.prog.parse_global(m, name);
            let size = ty.size();
            let al = align.max(16);
            let base = self.next_g.div_ceil(al) * al;
            self.next_g = base + size + 32;
            self.gaddr.insert(key, base);
            let mut data = vec![0u32; size as usize];
            self.fill(m, &ty, &init, &mut data, 0);
            let line = {
                let md = &self.prog.modules[m];
                let (a, _) = md.globals[name];
                &md.text[a..(a + 200 + name.len()).min(md.text.len())]
            };
            let ro = line.split_once('=').is_some_and(|(_, r)| {
                let c = r.find(" constant ");
                let g = r.find(" global ");
                match (c, g) {
                    (Some(x), Some(y)) => x < y,
                    (Some(_), None) => true,
                    _ => false,
                }
            });
            self.gobjs.insert(base, Rc::new(Obj { base, kind: b'g', ro, align, data }));
            return base;
        }
        let id = self.fn_id(module, name);
        self.fns[id as usize].addr
    }

    fn fill(&mut self, m: usize, ty: &Ty, c: &C, d: &mut [u32], off: usize) {
        match c {
            C::Zero => {}
            C::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    d[off + i] = *x as u32;
                }
            }
            C::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.fill(m, t, x, d, off + o);
                }
            }
            C::Undef => {
                for i in 0..ty.size() as usize {
                    d[off + i] = UNDEF;
                }
            }
            _ => {
                let v = self.const_int(m, c);
                for i in 0..ty.size() as usize {
                    d[off + i] = ((v >> (8 * i)) & 0xff) as u32;
                }
            }
        }
    }

    fn const_int(&mut self, m: usize, c: &C) -> u128 {
        match c {
            C::Int(v) => *v,
            C::Zero | C::Undef => 0,
            C::Global(n) => self.global_addr(m, n) as u128,
            C::Gep(b, idx) => {
                let mut a = self.const_int(m, b) as u64;
                for (s, i) in idx {
                    let v = self.const_int(m, i);
                    a = a.wrapping_add((v as u64).wrapping_mul(*s));
                }
                a as u128
            }
            C::Cast(w, b) => mask(self.const_int(m, b), *w),
            C::Bin(op, w, a, b) => {
                let x = self.const_int(m, a);
                let y = self.const_int(m, b);
                bin_const(*op, x, y, *w)
            }
            _ => {
                self.errors.push(format!("unsupported constant {c:?}"));
                0
            }
        }
    }

    fn const_val(&mut self, m: usize, ty: &Ty, c: &C) -> Val {
        match (ty, c) {
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), C::Undef) => Val::A(Rc::new((0..ty.nfields()).map(|i| self.const_val(m, &ty.field(i), &C::Undef)).collect())),
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), C::Zero) => Val::A(Rc::new((0..ty.nfields()).map(|i| self.const_val(m, &ty.field(i), &C::Zero)).collect())),
            (_, C::Agg(v)) => Val::A(Rc::new(v.iter().map(|(t, x)| self.const_val(m, t, x)).collect())),
            (_, C::Bytes(b)) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u128)).collect())),
            (_, C::Undef) => Val::U,
            (_, C::Bad(_)) => Val::U,
            _ => Val::I(self.const_int(m, c)),
        }
    }

    fn body(&mut self, id: u32) -> Rc<CFunc> {
        if let Some(b) = &self.fns[id as usize].body {
            return b.clone();
        }
        let (m, n) = (self.fns[id as usize].module, self.fns[id as usize].name.clone());
        let mut f = self.prog.parse_func(m, &n);
        let base = f.nregs;
        let mut kv: Vec<Val> = vec![];
        {
            let mut fix = |o: &mut Opd| {
                if let Opd::K(t, c) = o {
                    let v = self.const_val(m, t, c);
                    kv.push(v);
                    *o = Opd::R(base + kv.len() as u32 - 1);
                }
            };
            for b in &mut f.blocks {
                for p in &mut b.phis {
                    for (_, o) in &mut p.inc {
                        fix(o);
                    }
                }
                for i in &mut b.ins {
                    match i {
                        Ins::Bin(_, _, a, b, _) | Ins::Icmp(_, _, a, b, _) => {
                            fix(a);
                            fix(b);
                        }
                        Ins::Cast(_, _, _, a, _) | Ins::Load(_, a, _) | Ins::Extract(a, _, _) | Ins::Freeze(a, _) | Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => fix(a),
                        Ins::Select(a, b, c, _, _) => {
                            fix(a);
                            fix(b);
                            fix(c);
                        }
                        Ins::Alloca(_, _, n, _) => {
                            if let Some(n) = n {
                                fix(n);
                            }
                        }
                        Ins::Store(_, a, b) | Ins::Insert(_, a, b, _, _) | Ins::AtomicRmw(_, _, a, b, _) => {
                            fix(a);
                            fix(b);
                        }
                        Ins::Gep(a, _, t, _) => {
                            fix(a);
                            for (o, _, _) in t {
                                fix(o);
                            }
                        }
                        Ins::Call(c, args, _, _) => {
                            if let Callee::Indirect(o) = c {
                                fix(o);
                            }
                            for (_, o) in args {
                                fix(o);
                            }
                        }
                        Ins::Ret(Some(a)) | Ins::VCast(_, _, _, _, a, _) | Ins::VBit(_, _, a, _) => fix(a),
                        Ins::VBin(_, _, _, a, b, _) | Ins::VIcmp(_, _, _, a, b, _) | Ins::Shuffle(_, a, b, _, _) | Ins::ExtEl(a, b, _) => {
                            fix(a);
                            fix(b);
                        }
                        Ins::VSelect(a, b, c, _, _, _) | Ins::InsEl(_, a, b, c, _) => {
                            fix(a);
                            fix(b);
                            fix(c);
                        }
                        Ins::CmpXchg(_, a, b, c, _) => {
                            fix(a);
                            fix(b);
                            fix(c);
                        }
                        _ => {}
                    }
                }
            }
        }
        for b in &mut f.blocks {
            for i in &mut b.ins {
                if let Ins::Call(c, _, _, _) = i {
                    if let Callee::Direct(n) = c {
                        let id = self.fn_id(m, n);
                        *c = Callee::Id(id);
                    }
                }
            }
        }
        let pretty = demangle(&n);
        let c = Rc::new(CFunc { f, kvals: kv, pretty });
        self.used_fns.insert(n);
        self.fns[id as usize].body = Some(c.clone());
        c
    }

    // ---- solving ------------------------------------------------------------------------------

    /// Adds a conjunct to the path condition (the caller has established satisfiability).
    fn push_pc(&self, st: &mut State, c: E) {
        let n = self.ar.n(c);
        if n.op == Op::Eq && self.ar.k(n.b).is_some() {
            // e == k makes every recorded e != k' redundant
            let ar = &self.ar;
            st.pc.retain(|x| {
                let m = ar.n(*x);
                if m.op != Op::Not {
                    return true;
                }
                let q = ar.n(m.a);
                !(q.op == Op::Eq && q.a == n.a && ar.k(q.b).is_some())
            });
        }
        self.ar.learn(c, &mut st.bounds);
        st.pc.push(c);
    }

    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<u128>>>> {
        if let Some(k) = self.ar.k(c) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if let Some(t) = self.ar.tri(c, &st.bounds, 4) {
            self.stats.by_interval += 1;
            return Ok(if t { Some(st.model.clone()) } else { None });
        }
        if st.pc.contains(&c) {
            return Ok(Some(st.model.clone()));
        }
        let nc = self.ar.not(c);
        if st.pc.contains(&nc) {
            return Ok(None);
        }
        if self.ar.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let mut vs = self.ar.varset(c);
        let mut sel = vec![c.0];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let ev = self.ar.varset(*e);
                if (0..4).any(|k| ev[k] & vs[k] != 0) {
                    used[i] = true;
                    sel.push(e.0);
                    for k in 0..4 {
                        vs[k] |= ev[k];
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        sel.sort_unstable();
        sel.dedup();
        let r = if let Some(r) = self.cache.get(&sel) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let es: Vec<E> = sel.iter().map(|x| E(*x)).collect();
            let mut vars = vec![];
            for i in 0..st.syms.len() as u32 {
                if vs[i as usize / 64] >> (i % 64) & 1 == 1 {
                    let e = self.ar.var(i, st.syms[i as usize]);
                    vars.push((i, e));
                }
            }
            let r = match self.z3.check(&self.ar, &es, &vars) {
                Sat::Unsat => None,
                Sat::Sat(m) => Some(m),
                Sat::Unknown => return Err(Stop::Err("solver returned unknown (timeout)".into())),
            };
            self.cache.insert(sel, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut v = (*st.model).clone();
            for (i, x) in m {
                if v.len() <= i as usize {
                    v.resize(i as usize + 1, 0);
                }
                v[i as usize] = x;
            }
            Rc::new(v)
        }))
    }

    /// Decide a symbolic condition for the current state; if both sides are possible, the other
    /// side is queued (it will re-execute the current instruction).
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.k(c) {
            return Ok(k == 1);
        }
        self.stats.branches_sym += 1;
        let v = self.ar.eval(c, &st.model) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if st.pc.contains(&mine) {
            return Ok(v);
        }
        if let Some(m) = self.feasible(st, other)? {
            let mut s2 = st.clone();
            self.push_pc(&mut s2, other);
            s2.model = m;
            self.work.push(s2);
            self.push_pc(st, mine);
        }
        Ok(v)
    }

    /// The value of a condition if the path condition forces it (no fork).
    fn forced(&mut self, st: &State, c: E) -> R<Option<bool>> {
        let v = self.ar.eval(c, &st.model) == 1;
        let o = if v { self.ar.not(c) } else { c };
        Ok(if self.feasible(st, o)?.is_none() { Some(v) } else { None })
    }

    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.ar.k(e) {
            return Ok(k);
        }
        self.stats.concretizations += 1;
        let v = self.ar.eval(e, &st.model);
        let w = self.ar.w(e);
        let k = self.ar.c(v, w);
        let eq = self.ar.eq(e, k);
        if self.ar.k(eq).is_some() || st.pc.contains(&eq) {
            return Ok(v);
        }
        let ne = self.ar.not(eq);
        if let Some(m) = self.feasible(st, ne)? {
            let mut s2 = st.clone();
            self.push_pc(&mut s2, ne);
            s2.model = m;
            self.work.push(s2);
            self.push_pc(st, eq);
        }
        Ok(v)
    }

    fn conc_val(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => self.concretize(st, *e),
            Val::U => Err(Stop::Viol("uninit".into(), "use of an uninitialised value".into())),
            Val::A(_) => Err(Stop::Err("aggregate where scalar expected".into())),
        }
    }

    // ---- memory -------------------------------------------------------------------------------

    fn find_obj<'a>(&'a self, st: &'a State, addr: u64) -> Option<&'a Rc<Obj>> {
        if let Some((_, o)) = st.mem.range(..=addr).next_back() {
            if addr <= o.base + o.data.len() as u64 {
                // one-past-the-end is only "inside" for zero-size use; callers check bounds
                if addr < o.base + o.data.len() as u64 || o.data.is_empty() {
                    return Some(o);
                }
            }
        }
        if let Some((_, o)) = self.gobjs.range(..=addr).next_back() {
            if addr < o.base + o.data.len() as u64 {
                return Some(o);
            }
        }
        None
    }

    fn mem_err(&self, st: &State, what: &str, addr: u64, n: u64) -> Stop {
        let mut extra = String::new();
        if let Some((_, o)) = st.mem.range(..=addr).next_back() {
            extra = format!("; nearest object: base {:#x} size {} kind {}", o.base, o.data.len(), o.kind as char);
        }
        Stop::Viol("memory".into(), format!("{what} of {n} bytes at {addr:#x} is outside every live object{extra}"))
    }

    fn read_bytes(&self, st: &State, addr: u64, n: u64) -> R<Vec<u32>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.find_obj(st, addr).ok_or_else(|| self.mem_err(st, "read", addr, n))?;
        let off = (addr - o.base) as usize;
        if off + n as usize > o.data.len() {
            return Err(self.mem_err(st, "read", addr, n));
        }
        Ok(o.data[off..off + n as usize].to_vec())
    }

    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let o = match self.find_obj(st, addr) {
            Some(o) => o,
            None => return Err(self.mem_err(st, "write", addr, n)),
        };
        let off = (addr - o.base) as usize;
        if off + n as usize > o.data.len() {
            return Err(self.mem_err(st, "write", addr, n));
        }
        if o.ro {
            return Err(Stop::Viol("memory".into(), format!("write to read-only memory at {addr:#x}")));
        }
        let base = o.base;
        if o.kind == b'g' && !st.mem.contains_key(&base) {
            let c = o.clone();
            st.mem.insert(base, c);
        }
        let o = Rc::make_mut(st.mem.get_mut(&base).unwrap());
        Ok((o, off))
    }

    fn write_bytes(&self, st: &mut State, addr: u64, b: &[u32]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, addr, b.len() as u64)?;
        o.data[off..off + b.len()].copy_from_slice(b);
        Ok(())
    }

    fn load_scalar(&mut self, st: &State, addr: u64, w: u16) -> R<Val> {
        let n = (w as u64).div_ceil(8);
        let (any_sym, all_undef, conc, slice);
        {
            let o = match self.find_obj(st, addr) {
                Some(o) => o,
                None => return Err(self.mem_err(st, "read", addr, n)),
            };
            let off = (addr - o.base) as usize;
            if off + n as usize > o.data.len() {
                return Err(self.mem_err(st, "read", addr, n));
            }
            let s = &o.data[off..off + n as usize];
            let mut v: u128 = 0;
            let mut sy = false;
            let mut un = true;
            for (i, x) in s.iter().enumerate() {
                if *x < 256 {
                    v |= (*x as u128) << (8 * i);
                    un = false;
                } else if *x >= SYM0 {
                    sy = true;
                    un = false;
                }
            }
            any_sym = sy;
            all_undef = un;
            conc = v;
            slice = if sy { s.to_vec() } else { vec![] };
        }
        if all_undef {
            return Ok(Val::U);
        }
        if !any_sym {
            return Ok(Val::I(mask(conc, w)));
        }
        let mut acc: Option<E> = None;
        for x in slice.iter() {
            let e = if *x >= SYM0 { E(*x - SYM0) } else { self.ar.c(if *x < 256 { *x as u128 } else { 0 }, 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        e = self.ar.simp(e);
        if w % 8 != 0 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.mkv(e))
    }

    fn mkv(&self, e: E) -> Val {
        match self.ar.k(e) {
            Some(k) => Val::I(k),
            None => Val::S(e),
        }
    }

    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            // sub-byte elements are packed in memory
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let w = (*n * t.bits() as u64).div_ceil(8) as u16 * 8;
                let x = self.load_scalar(st, addr, w)?;
                self.vbit(&Ty::Int(w), ty, &x)
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    v.push(self.load_ty(st, addr + ty.field_offset(i), &ty.field(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => self.load_scalar(st, addr, ty.bits()),
        }
    }

    /// Integer load at a symbolic address that stays inside one object: an if-then-else over the
    /// object's cells instead of one path per address. `None`: the caller must fork on the address.
    fn sym_load(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        let w = match ty {
            Ty::Int(w) if *w == 8 || *w == 16 || *w == 32 || *w == 64 => *w,
            _ => return Ok(None),
        };
        let n = (w / 8) as u64;
        let a = self.ar.eval(e, &st.model) as u64;
        let (base, len) = match self.find_obj(st, a) {
            Some(o) => (o.base, o.data.len() as u64),
            None => return Ok(None),
        };
        if len < n || len > self.lim.sym_load_max || (a - base) % n != 0 || a - base + n > len {
            return Ok(None);
        }
        let kb = self.ar.c(base as u128, 64);
        let off = self.ar.bin(Bin::Sub, e, kb);
        let lim = self.ar.c((len - n) as u128, 64);
        let inside = self.ar.ule(off, lim);
        if n > 1 {
            let km = self.ar.c((n - 1) as u128, 64);
            let low = self.ar.bin(Bin::And, off, km);
            let z = self.ar.c(0, 64);
            let al = self.ar.eq(low, z);
            let nal = self.ar.not(al);
            if self.feasible(st, nal)?.is_some() {
                return Ok(None);
            }
        }
        // group the cells by value
        let mut groups: Vec<(Val, Vec<u64>)> = vec![];
        let mut by: HashMap<Vec<u32>, usize> = HashMap::new();
        let data = self.find_obj(st, a).unwrap().clone();
        let mut undef = vec![];
        let mut o = 0;
        while o + n <= len {
            let key = data.data[o as usize..(o + n) as usize].to_vec();
            if key.iter().all(|x| *x == UNDEF) {
                undef.push(o);
            } else if let Some(g) = by.get(&key) {
                groups[*g].1.push(o);
            } else {
                let v = self.load_scalar(st, base + o, w)?;
                by.insert(key, groups.len());
                groups.push((v, vec![o]));
                if groups.len() > 300 {
                    return Ok(None);
                }
            }
            o += n;
        }
        if !undef.is_empty() {
            let mut c = self.ar.c(0, 1);
            for o in &undef {
                let k = self.ar.c(*o as u128, 64);
                let q = self.ar.eq(off, k);
                c = self.ar.bin(Bin::Or, c, q);
            }
            if self.feasible(st, c)?.is_some() {
                return Ok(None);
            }
        }
        if !self.decide(st, inside)? {
            return Ok(None);
        }
        self.stats.sym_loads += 1;
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut acc = groups[0].0.clone();
        for (v, os) in groups.iter().skip(1) {
            let mut c = self.ar.c(0, 1);
            for o in os {
                let k = self.ar.c(*o as u128, 64);
                let q = self.ar.eq(off, k);
                c = self.ar.bin(Bin::Or, c, q);
            }
            if self.ar.k(c) == Some(0) {
                continue;
            }
            acc = self.ite(c, w, v, &acc)?;
        }
        Ok(Some(acc))
    }

    fn to_bytes(&mut self, v: &Val, w: u16) -> Vec<u32> {
        let n = (w as usize).div_ceil(8);
        match v {
            Val::I(x) => (0..n).map(|i| ((x >> (8 * i)) & 0xff) as u32).collect(),
            Val::U | Val::A(_) => vec![UNDEF; n],
            Val::S(e) => {
                let mut e = *e;
                if self.ar.w(e) as usize != n * 8 {
                    e = self.ar.zext(e, (n * 8) as u16);
                }
                (0..n)
                    .map(|i| {
                        let b = self.ar.extract_raw(e, (8 * i) as u16, 8);
                        match self.ar.k(b) {
                            Some(k) => k as u32,
                            None => b.0 + SYM0,
                        }
                    })
                    .collect()
            }
        }
    }

    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), Val::A(_)) if t.bits() % 8 != 0 => {
                let bits = (*n * t.bits() as u64) as u16;
                let x = self.vbit(ty, &Ty::Int(bits), v)?;
                let x = match x {
                    Val::S(e) if bits % 8 != 0 => {
                        let e = self.ar.zext(e, bits.div_ceil(8) * 8);
                        self.mkv(e)
                    }
                    x => x,
                };
                self.store_ty(st, addr, &Ty::Int(bits.div_ceil(8) * 8), &x)
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Val::A(a)) => {
                let a = a.clone();
                for (i, x) in a.iter().enumerate() {
                    self.store_ty(st, addr + ty.field_offset(i), &ty.field(i), x)?;
                }
                Ok(())
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), _) => {
                let b = vec![UNDEF; ty.size() as usize];
                self.write_bytes(st, addr, &b)
            }
            _ => {
                // fast path: concrete scalar
                if let Val::I(x) = v {
                    let n = (ty.bits() as u64).div_ceil(8);
                    let (o, off) = self.obj_mut(st, addr, n)?;
                    let x = *x;
                    for i in 0..n as usize {
                        o.data[off + i] = ((x >> (8 * i)) & 0xff) as u32;
                    }
                    return Ok(());
                }
                let b = self.to_bytes(v, ty.bits());
                self.write_bytes(st, addr, &b)
            }
        }
    }

    fn alloc(&self, st: &mut State, size: u64, align: u64, kind: u8, fill: u32) -> u64 {
        let next = if kind == b's' { &mut st.next_stack } else { &mut st.next_heap };
        let a = align.max(16);
        let base = next.div_ceil(a) * a;
        *next = base + size + 32;
        st.mem.insert(base, Rc::new(Obj { base, kind, ro: false, align, data: vec![fill; size as usize] }));
        if kind == b'h' {
            st.live_heap += 1;
            st.allocs += 1;
            st.live_bytes += size;
            st.peak_bytes = st.peak_bytes.max(st.live_bytes);
        }
        base
    }

    fn dealloc(&self, st: &mut State, addr: u64, size: u64, align: u64) -> R<()> {
        match st.mem.get(&addr) {
            Some(o) if o.kind == b'h' => {
                if o.data.len() as u64 != size || o.align != align {
                    return Err(Stop::Viol("memory".into(), format!("deallocation with wrong layout: object size {} align {}, given {size}/{align}", o.data.len(), o.align)));
                }
                st.mem.remove(&addr);
                st.live_heap -= 1;
                st.live_bytes -= size;
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), format!("deallocation of {addr:#x}, which is not a live heap object (double free?)"))),
        }
    }

    // ---- values -------------------------------------------------------------------------------

    fn e(&mut self, v: &Val, w: u16) -> R<E> {
        match v {
            Val::I(x) => Ok(self.ar.c(*x, w)),
            Val::S(e) => Ok(*e),
            Val::U => Ok(self.ar.c(0, w)),
            Val::A(_) => Err(Stop::Err("aggregate operand".into())),
        }
    }

    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::I(x), Val::I(y)) => Ok(Val::I(bin_const(op, *x, *y, w))),
            (Val::U, Val::I(0)) | (Val::I(0), Val::U) if op == Bin::And => Ok(Val::I(0)),
            // how enums with unused payload bytes are assembled into one register: the other part counts
            (Val::U, x) | (x, Val::U) if op == Bin::Or && (w > 1 || matches!(x, Val::I(1))) => Ok(x.clone()),
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            _ => {
                let x = self.e(a, w)?;
                let y = self.e(b, w)?;
                let r = self.ar.bin(op, x, y);
                Ok(self.mkv(r))
            }
        }
    }

    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => slt_const(x, y, w),
                Pred::Sle => !slt_const(y, x, w),
                Pred::Sgt => slt_const(y, x, w),
                Pred::Sge => !slt_const(x, y, w),
            };
            return Ok(Val::I(r as u128));
        }
        if matches!(a, Val::U) || matches!(b, Val::U) {
            return Ok(Val::U);
        }
        let x = self.e(a, w)?;
        let y = self.e(b, w)?;
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => self.ar.ne(x, y),
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ule => self.ar.ule(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sle => self.ar.sle(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sge => self.ar.sle(y, x),
        };
        Ok(self.mkv(r))
    }

    fn cast(&mut self, k: CastK, f: u16, t: u16, a: &Val) -> R<Val> {
        Ok(match a {
            Val::I(x) => Val::I(match k {
                CastK::Trunc => mask(*x, t),
                CastK::ZExt | CastK::Bit => *x,
                CastK::SExt => sext_const(*x, f, t),
            }),
            Val::S(e) => {
                let r = match k {
                    CastK::Trunc => self.ar.extract(*e, 0, t),
                    CastK::ZExt => self.ar.zext(*e, t),
                    CastK::SExt => self.ar.sext(*e, t),
                    CastK::Bit => *e,
                };
                self.mkv(r)
            }
            Val::U => Val::U,
            Val::A(_) => return Err(Stop::Err("cast of aggregate".into())),
        })
    }

    fn ite(&mut self, c: E, w: u16, a: &Val, b: &Val) -> R<Val> {
        if matches!(a, Val::U) {
            return Ok(b.clone());
        }
        if matches!(b, Val::U) {
            return Ok(a.clone());
        }
        let x = self.e(a, w)?;
        let y = self.e(b, w)?;
        let r = self.ar.ite(c, x, y);
        Ok(self.mkv(r))
    }

    // ---- running ------------------------------------------------------------------------------

    pub fn run(&mut self, harness: &str) -> bool {
        self.t0 = Instant::now();
        let Some(m) = self.prog.ext_funcs.get(harness).copied() else {
            self.errors.push(format!("harness {harness} not found"));
            return false;
        };
        let id = self.fn_id(m, harness);
        let f = self.body(id);
        let nregs = f.f.nregs as usize;
        let st = State {
            frames: vec![Frame { f, blk: 0, ip: 0, regs: vec![Val::U; nregs], allocas: vec![], ret: None }],
            mem: BTreeMap::new(),
            pc: vec![],
            bounds: HashMap::new(),
            model: Rc::new(vec![]),
            syms: vec![],
            next_heap: HBASE,
            next_stack: SBASE,
            steps: 0,
            panic_ok: false,
            live_heap: 0,
            live_bytes: 0,
            peak_bytes: 0,
            allocs: 0,
            obs: vec![],
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.stats.paths >= self.lim.max_paths {
                self.errors.push(format!("path limit {} reached", self.lim.max_paths));
                return false;
            }
            self.stats.paths += 1;
            let s0 = st.steps;
            let r = self.run_path(&mut st);
            self.stats.steps += st.steps - s0;
            match r {
                Stop::Done => {
                    self.stats.complete += 1;
                    self.sample(&st, true);
                }
                Stop::Drop => self.stats.dropped += 1,
                Stop::Viol(k, w) => {
                    if k == "panic" && st.panic_ok {
                        self.stats.expected_panics += 1;
                        self.sample(&st, false);
                    } else {
                        let v = self.violation(&st, k, w);
                        self.viols.push(v);
                        if self.viols.len() >= self.lim.max_viol {
                            return false;
                        }
                    }
                }
                Stop::Err(s) => {
                    let stk = self.stack(&st).join(" < ");
                    self.errors.push(format!("{s} [{stk}]"));
                    return false;
                }
                Stop::Retry => unreachable!(),
            }
            if self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.errors.push(format!("time limit {} s reached with {} paths pending", self.lim.max_secs, self.work.len()));
                return false;
            }
        }
        self.errors.is_empty()
    }

    fn sample(&mut self, st: &State, done: bool) {
        let n = self.stats.complete + self.stats.expected_panics;
        let k = self.lim.keep_inputs as u64;
        // keep an evenly thinning sample of paths for native cross-validation
        if (self.samples.len() as u64) < k || n % (1 + n / k.max(1)) == 0 {
            let inp = self.inputs(st);
            let m = st.model.clone();
            let mut obs = vec![];
            for v in &st.obs {
                obs.push(match v {
                    Val::I(x) => *x as u64,
                    Val::S(e) => self.ar.eval(*e, &m) as u64,
                    _ => 0,
                });
            }
            if (self.samples.len() as u64) < k {
                self.samples.push((inp, obs, done));
            } else {
                let i = (n % k) as usize;
                self.samples[i] = (inp, obs, done);
            }
        }
    }

    fn inputs(&self, st: &State) -> Vec<(u16, u64)> {
        st.syms.iter().enumerate().map(|(i, w)| (*w, mask(st.model.get(i).copied().unwrap_or(0), *w) as u64)).collect()
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.f.pretty.clone()).take(12).collect()
    }

    fn violation(&mut self, st: &State, kind: String, what: String) -> Violation {
        Violation { kind, what, stack: self.stack(st), inputs: self.inputs(st) }
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(s) => return s,
            }
            st.steps += 1;
            if st.steps > self.lim.max_steps {
                return Stop::Err(format!("step limit {} reached on a path", self.lim.max_steps));
            }
            if st.steps & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                return Stop::Err("time limit reached".into());
            }
        }
    }

    #[inline]
    fn opd<'a>(fr: &'a Frame, o: &Opd) -> &'a Val {
        match o {
            Opd::R(r) => {
                let n = fr.regs.len() as u32;
                if *r < n { &fr.regs[*r as usize] } else { &fr.f.kvals[(*r - n) as usize] }
            }
            Opd::K(..) => unreachable!(),
        }
    }

    fn get(st: &State, o: &Opd) -> Val {
        Self::opd(st.frames.last().unwrap(), o).clone()
    }

    fn set(st: &mut State, d: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    fn ptr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        let v = Self::get(st, o);
        match v {
            Val::I(x) => Ok(x as u64),
            Val::S(e) => Ok(self.concretize(st, e)? as u64),
            Val::U => Err(Stop::Viol("uninit".into(), "dereference of an uninitialised pointer".into())),
            Val::A(_) => Err(Stop::Err("aggregate pointer".into())),
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let v = p.inc.iter().find(|(l, _)| *l == from).map(|(_, o)| Self::opd(fr, o).clone()).unwrap_or(Val::U);
                vals.push((p.dst, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.f.blocks[fr.blk as usize].ins[fr.ip as usize];
        match ins {
            Ins::Bin(op, w, a, b, d) => {
                let x = Self::opd(fr, a);
                let y = Self::opd(fr, b);
                if let (Val::I(x), Val::I(y)) = (x, y) {
                    let v = Val::I(bin_const(*op, *x, *y, *w));
                    Self::set(st, *d, v);
                    return Ok(());
                }
                let (x, y) = (x.clone(), y.clone());
                let v = self.bin(*op, *w, &x, &y)?;
                Self::set(st, *d, v);
            }
            Ins::Icmp(p, w, a, b, d) => {
                let x = Self::opd(fr, a).clone();
                let y = Self::opd(fr, b).clone();
                let v = self.icmp(*p, *w, &x, &y)?;
                Self::set(st, *d, v);
            }
            Ins::Cast(k, from, to, a, d) => {
                let x = Self::get(st, a);
                let v = self.cast(*k, *from, *to, &x)?;
                Self::set(st, *d, v);
            }
            Ins::Select(c, a, b, ty, d) => {
                let cv = Self::get(st, c);
                let x = Self::get(st, a);
                let y = Self::get(st, b);
                let v = match cv {
                    Val::I(1) => x,
                    Val::I(_) => y,
                    Val::U => Val::U,
                    Val::S(e) => {
                        if matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
                            if self.decide(st, e)? { x } else { y }
                        } else if let Some(t) = self.forced(st, e)? {
                            if t { x } else { y }
                        } else {
                            self.ite(e, ty.bits(), &x, &y)?
                        }
                    }
                    Val::A(_) => return Err(Stop::Err("select cond".into())),
                };
                Self::set(st, *d, v);
            }
            Ins::Alloca(sz, al, n, d) => {
                let mut size = *sz;
                if let Some(n) = n {
                    let v = Self::get(st, n);
                    size *= self.conc_val(st, &v)? as u64;
                }
                let a = self.alloc(st, size, *al, b's', UNDEF);
                st.frames.last_mut().unwrap().allocas.push(a);
                Self::set(st, *d, Val::I(a as u128));
            }
            Ins::Load(ty, p, d) => {
                if let Val::S(e) = Self::opd(fr, p) {
                    let e = *e;
                    if let Some(v) = self.sym_load(st, e, ty)? {
                        Self::set(st, *d, v);
                        return Ok(());
                    }
                }
                let a = self.ptr(st, p)?;
                let v = self.load_ty(st, a, ty)?;
                Self::set(st, *d, v);
            }
            Ins::Store(ty, v, p) => {
                let a = self.ptr(st, p)?;
                let v = Self::get(st, v);
                self.store_ty(st, a, ty, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Ins::Gep(b, off, terms, d) => {
                let mut acc = Self::get(st, b);
                if *off != 0 {
                    acc = self.bin(Bin::Add, 64, &acc, &Val::I(*off as u64 as u128))?;
                }
                for (o, w, s) in terms {
                    let x = Self::get(st, o);
                    let x = if *w < 64 {
                        self.cast(CastK::SExt, *w, 64, &x)?
                    } else if *w > 64 {
                        self.cast(CastK::Trunc, *w, 64, &x)?
                    } else {
                        x
                    };
                    let x = if *s == 1 { x } else { self.bin(Bin::Mul, 64, &x, &Val::I(*s as u128))? };
                    acc = self.bin(Bin::Add, 64, &acc, &x)?;
                }
                Self::set(st, *d, acc);
            }
            Ins::Extract(a, ix, d) => {
                let mut v = Self::get(st, a);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                Self::set(st, *d, v);
            }
            Ins::Insert(ty, a, v, ix, d) => {
                let base = Self::get(st, a);
                let x = Self::get(st, v);
                fn ins(ty: &Ty, b: Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    let mut v = match b {
                        Val::A(a) => (*a).clone(),
                        _ => vec![Val::U; ty.nfields()],
                    };
                    let i = ix[0] as usize;
                    let old = v[i].clone();
                    v[i] = ins(&ty.field(i), old, x, &ix[1..]);
                    Val::A(Rc::new(v))
                }
                let r = ins(ty, base, x, ix);
                Self::set(st, *d, r);
            }
            Ins::Br(t) => self.goto(st, *t),
            Ins::CondBr(c, a, b) => {
                let t = match Self::get(st, c) {
                    Val::I(x) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    Val::U => return Err(Stop::Viol("uninit".into(), "branch on an uninitialised value".into())),
                    Val::A(_) => return Err(Stop::Err("branch on aggregate".into())),
                };
                self.goto(st, if t { *a } else { *b });
            }
            Ins::Switch(w, v, def, cases) => {
                let x = match Self::get(st, v) {
                    Val::I(x) => x,
                    Val::U => return Err(Stop::Viol("uninit".into(), "switch on an uninitialised value".into())),
                    Val::A(_) => return Err(Stop::Err("switch on aggregate".into())),
                    Val::S(e) => {
                        // pick the target of the current model; fork per distinct target
                        let v = self.ar.eval(e, &st.model);
                        let mut targets: Vec<u32> = vec![];
                        for (_, t) in cases {
                            if !targets.contains(t) {
                                targets.push(*t);
                            }
                        }
                        if !targets.contains(def) {
                            targets.push(*def);
                        }
                        let mine = cases.iter().find(|(k, _)| *k == v).map_or(*def, |x| x.1);
                        let mut conds = vec![];
                        for t in &targets {
                            let mut c = self.ar.f();
                            for (k, tt) in cases {
                                if tt == t {
                                    let kk = self.ar.c(*k, *w);
                                    let q = self.ar.eq(e, kk);
                                    c = self.ar.bin(Bin::Or, c, q);
                                }
                            }
                            if t == def {
                                let mut nd = self.ar.t();
                                for (k, tt) in cases {
                                    if tt != def {
                                        let kk = self.ar.c(*k, *w);
                                        let q = self.ar.ne(e, kk);
                                        nd = self.ar.bin(Bin::And, nd, q);
                                    }
                                }
                                c = nd;
                            }
                            conds.push(c);
                        }
                        self.stats.branches_sym += 1;
                        let mut forked = false;
                        let mut mc = NONE;
                        for (i, t) in targets.iter().enumerate() {
                            if *t == mine {
                                mc = conds[i];
                                continue;
                            }
                            if let Some(m) = self.feasible(st, conds[i])? {
                                let mut s2 = st.clone();
                                self.push_pc(&mut s2, conds[i]);
                                s2.model = m;
                                self.work.push(s2);
                                forked = true;
                            }
                        }
                        if forked && self.ar.k(mc).is_none() && !st.pc.contains(&mc) {
                            self.push_pc(st, mc);
                        }
                        self.goto(st, mine);
                        return Ok(());
                    }
                };
                let t = cases.iter().find(|(k, _)| *k == x).map_or(*def, |c| c.1);
                self.goto(st, t);
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| Self::get(st, o));
                self.do_ret(st, r)?;
            }
            Ins::Unreachable => return Err(Stop::Viol("unreachable".into(), "reached code the compiler was told is unreachable".into())),
            Ins::AtomicRmw(op, ty, p, v, d) => {
                let a = self.ptr(st, p)?;
                let w = ty.bits();
                let old = self.load_scalar(st, a, w)?;
                let x = Self::get(st, v);
                let new = match op.as_str() {
                    "add" => self.bin(Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(Bin::And, w, &old, &x)?,
                    "or" => self.bin(Bin::Or, w, &old, &x)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &x)?,
                    "xchg" => x,
                    _ => return Err(Stop::Err(format!("atomicrmw {op}"))),
                };
                self.store_ty(st, a, ty, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg(ty, p, c, n, d) => {
                let a = self.ptr(st, p)?;
                let w = ty.bits();
                let old = self.load_scalar(st, a, w)?;
                let c = Self::get(st, c);
                let n = Self::get(st, n);
                let eq = self.icmp(Pred::Eq, w, &old, &c)?;
                let ok = match eq {
                    Val::I(x) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store_ty(st, a, ty, &n)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::I(ok as u128)])));
            }
            Ins::Freeze(a, d) => {
                let v = match Self::get(st, a) {
                    Val::U => Val::I(0),
                    v => v,
                };
                Self::set(st, *d, v);
            }
            Ins::VBin(op, n, w, a, b, d) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.bin(*op, *w, &el(&x, i), &el(&y, i))?);
                }
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::VIcmp(p, n, w, a, b, d) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.icmp(*p, *w, &el(&x, i), &el(&y, i))?);
                }
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::VCast(k, n, f, t, a, d) => {
                let x = Self::get(st, a);
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.cast(*k, *f, *t, &el(&x, i))?);
                }
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::VSelect(c, a, b, n, w, d) => {
                let (c, x, y) = (Self::get(st, c), Self::get(st, a), Self::get(st, b));
                let mut v = vec![];
                for i in 0..*n as usize {
                    let r = match el(&c, i) {
                        Val::I(1) => el(&x, i),
                        Val::I(_) => el(&y, i),
                        Val::S(e) => self.ite(e, *w, &el(&x, i), &el(&y, i))?,
                        _ => Val::U,
                    };
                    v.push(r);
                }
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::VBit(from, to, a, d) => {
                let x = Self::get(st, a);
                let v = self.vbit(from, to, &x)?;
                Self::set(st, *d, v);
            }
            Ins::Shuffle(n, a, b, ix, d) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = ix
                    .iter()
                    .map(|i| match i {
                        None => Val::U,
                        Some(i) if (*i as u64) < *n => el(&x, *i as usize),
                        Some(i) => el(&y, *i as usize - *n as usize),
                    })
                    .collect();
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::InsEl(n, a, b, i, d) => {
                let (x, y, i) = (Self::get(st, a), Self::get(st, b), Self::get(st, i));
                let i = self.conc_val(st, &i)? as usize;
                let mut v: Vec<Val> = (0..*n as usize).map(|k| el(&x, k)).collect();
                v[i] = y;
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::ExtEl(a, i, d) => {
                let (x, i) = (Self::get(st, a), Self::get(st, i));
                let i = self.conc_val(st, &i)? as usize;
                Self::set(st, *d, el(&x, i));
            }
            Ins::Nop => st.frames.last_mut().unwrap().ip += 1,
            Ins::Bad(s) => return Err(Stop::Err(format!("unsupported instruction: {s}"))),
            Ins::Call(c, args, ret, d) => {
                let id = match c {
                    Callee::Id(i) => *i,
                    Callee::Indirect(o) => {
                        let a = self.ptr(st, o)?;
                        match self.fn_by_addr.get(&a) {
                            Some(i) => *i,
                            None => return Err(Stop::Viol("memory".into(), format!("call through invalid function pointer {a:#x}"))),
                        }
                    }
                    Callee::Direct(_) => unreachable!(),
                };
                let vals: Vec<Val> = args.iter().map(|(_, o)| Self::get(st, o)).collect();
                match &self.fns[id as usize].kind {
                    FKind::Defined => {
                        let b = self.body(id);
                        if st.frames.len() > 400 {
                            return Err(Stop::Err("call depth limit".into()));
                        }
                        let mut regs = vec![Val::U; b.f.nregs as usize];
                        for (p, v) in b.f.params.iter().zip(vals) {
                            regs[*p as usize] = v;
                        }
                        st.frames.push(Frame { f: b, blk: 0, ip: 0, regs, allocas: vec![], ret: *d });
                    }
                    FKind::Panic(n) => {
                        let n = n.clone();
                        let msg = self.panic_msg(st, &n, &vals);
                        let kind = if n.contains("nounwind") || n.contains("misaligned") || n.contains("null_pointer") { "ub" } else if n.contains("alloc_error") { "alloc" } else { "panic" };
                        return Err(Stop::Viol(kind.into(), msg));
                    }
                    FKind::Undefined => {
                        let n = self.fns[id as usize].name.clone();
                        return Err(Stop::Err(format!("call to external function {n}")));
                    }
                    FKind::Intr(n) => {
                        let n = n.clone();
                        let tys: Vec<Ty> = args.iter().map(|(t, _)| t.clone()).collect();
                        let r = self.intrinsic(st, &n, &tys, &vals, ret)?;
                        let fr = st.frames.last_mut().unwrap();
                        if let Some(d) = d {
                            fr.regs[*d as usize] = r;
                        }
                        fr.ip += 1;
                    }
                }
            }
        }
        Ok(())
    }

    fn panic_msg(&mut self, st: &State, n: &str, vals: &[Val]) -> String {
        // best effort: a (ptr, len) string argument pair
        if vals.len() >= 2 {
            if let (Val::I(p), Val::I(l)) = (&vals[0], &vals[1]) {
                for len in [*l as u64, (*l as u64) >> 1] {
                    if len > 0 && len < 300 {
                        if let Ok(b) = self.read_bytes(st, *p as u64, len) {
                            if b.iter().all(|x| *x < 256) {
                                let s: String = b.iter().map(|x| *x as u8 as char).collect();
                                if s.is_ascii() {
                                    return format!("{n}: {s}");
                                }
                            }
                        }
                    }
                }
            }
        }
        n.to_string()
    }

    fn do_ret(&mut self, st: &mut State, r: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        match st.frames.last_mut() {
            None => Err(Stop::Done),
            Some(c) => {
                if let Some(d) = fr.ret {
                    c.regs[d as usize] = r.unwrap_or(Val::U);
                }
                c.ip += 1;
                Ok(())
            }
        }
    }

    fn bool_e(&mut self, v: &Val) -> R<E> {
        match v {
            Val::I(x) => Ok(self.ar.c(*x & 1, 1)),
            Val::S(e) => {
                if self.ar.w(*e) == 1 {
                    Ok(*e)
                } else {
                    Ok(self.ar.extract(*e, 0, 1))
                }
            }
            Val::U => Err(Stop::Viol("uninit".into(), "harness condition depends on an uninitialised value".into())),
            _ => Err(Stop::Err("bool".into())),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, tys: &[Ty], a: &[Val], ret: &Ty) -> R<Val> {
        let none = Ok(Val::U);
        if let Some(n) = n.strip_prefix("vp_") {
            return match n {
                "sym" => {
                    let w = self.conc_val(st, &a[0])? as u16;
                    let i = st.syms.len() as u32;
                    if i as usize >= crate::expr::MAXVARS {
                        return Err(Stop::Err("too many symbolic inputs".into()));
                    }
                    st.syms.push(w);
                    let e = self.ar.var(i, w);
                    self.var_e.insert(i, e);
                    let mut m = (*st.model).clone();
                    if m.len() <= i as usize {
                        m.resize(i as usize + 1, 0);
                    } else {
                        m[i as usize] = 0;
                    }
                    st.model = Rc::new(m);
                    let z = self.ar.zext(e, 64);
                    Ok(Val::S(z))
                }
                "assume" => {
                    let c = self.bool_e(&a[0])?;
                    match self.feasible(st, c)? {
                        None => Err(Stop::Drop),
                        Some(m) => {
                            if self.ar.k(c).is_none() && !st.pc.contains(&c) {
                                self.push_pc(st, c);
                            }
                            st.model = m;
                            none
                        }
                    }
                }
                "assert" => {
                    let id = self.conc_val(st, &a[1])? as u32;
                    self.assert_ids.insert(id);
                    let c = self.bool_e(&a[0])?;
                    self.stats.asserts += 1;
                    match self.ar.k(c) {
                        Some(1) => none,
                        Some(_) => Err(Stop::Viol("assert".into(), format!("assertion {id}"))),
                        None => {
                            self.stats.asserts_solver += 1;
                            let nc = self.ar.not(c);
                            match self.feasible(st, nc)? {
                                None => none,
                                Some(m) => {
                                    st.model = m;
                                    Err(Stop::Viol("assert".into(), format!("assertion {id}")))
                                }
                            }
                        }
                    }
                }
                "cover" => {
                    let id = self.conc_val(st, &a[1])? as u32;
                    if self.covers.get(&id) != Some(&true) {
                        let c = self.bool_e(&a[0])?;
                        let ok = self.feasible(st, c)?.is_some();
                        self.covers.insert(id, ok);
                    }
                    none
                }
                "concrete" => {
                    let v = self.conc_val(st, &a[0])?;
                    Ok(Val::I(v))
                }
                "panic_ok" => {
                    let v = self.conc_val(st, &a[0])?;
                    st.panic_ok = v & 1 == 1;
                    none
                }
                // what: 0 bytes alive, 1 most bytes alive since the last mark, 2 allocations so far, 3 mark
                "heap" => {
                    let r = match self.conc_val(st, &a[0])? {
                        0 => st.live_bytes,
                        1 => st.peak_bytes,
                        2 => st.allocs,
                        _ => {
                            st.peak_bytes = st.live_bytes;
                            0
                        }
                    };
                    Ok(Val::I(r as u128))
                }
                "live_heap" => Ok(Val::I(st.live_heap as u64 as u128)),
                "obs" => {
                    if st.obs.len() < 4096 {
                        st.obs.push(a[0].clone());
                    }
                    none
                }
                "symbolic" => Ok(Val::I(1)),
                _ => Err(Stop::Err(format!("unknown harness intrinsic vp_{n}"))),
            };
        }
        match n {
            "___rust_alloc" | "___rust_alloc_zeroed" => {
                if let Val::S(e) = &a[0] {
                    // one path for all absurd sizes together, whatever they are
                    let w = self.ar.w(*e);
                    let lim = self.ar.c(1 << 28, w);
                    let big = self.ar.ult(lim, *e);
                    let is_big = self.ar.eval(big, &st.model) == 1;
                    let not_big = self.ar.not(big);
                    let (mine, other) = if is_big { (big, not_big) } else { (not_big, big) };
                    if self.ar.k(big).is_none() && !st.pc.contains(&mine) {
                        if let Some(m) = self.feasible(st, other)? {
                            let mut s2 = st.clone();
                            self.push_pc(&mut s2, other);
                            s2.model = m;
                            self.work.push(s2);
                            self.push_pc(st, mine);
                        }
                    }
                    if is_big {
                        return Ok(Val::I(0));
                    }
                }
                let sz = self.conc_val(st, &a[0])? as u64;
                let al = self.conc_val(st, &a[1])? as u64;
                if sz > 1 << 28 {
                    return Ok(Val::I(0)); // as the system allocator would for absurd sizes
                }
                let fill = if n.ends_with("zeroed") { 0 } else { UNDEF };
                let p = self.alloc(st, sz, al, b'h', fill);
                return Ok(Val::I(p as u128));
            }
            "___rust_dealloc" => {
                let p = self.conc_val(st, &a[0])? as u64;
                let sz = self.conc_val(st, &a[1])? as u64;
                let al = self.conc_val(st, &a[2])? as u64;
                self.dealloc(st, p, sz, al)?;
                return none;
            }
            "___rust_realloc" => {
                let p = self.conc_val(st, &a[0])? as u64;
                let old = self.conc_val(st, &a[1])? as u64;
                let al = self.conc_val(st, &a[2])? as u64;
                let new = self.conc_val(st, &a[3])? as u64;
                if new > 1 << 28 {
                    return Ok(Val::I(0));
                }
                let b = self.read_bytes(st, p, old.min(new))?;
                let q = self.alloc(st, new, al, b'h', UNDEF);
                self.write_bytes(st, q, &b)?;
                self.dealloc(st, p, old, al)?;
                return Ok(Val::I(q as u128));
            }
            "___rust_no_alloc_shim_is_unstable_v2" | "___rust_no_alloc_shim_is_unstable" => return none,
            "abort" | "llvm.trap" => return Err(Stop::Viol("abort".into(), "process abort".into())),
            "memcpy" | "memmove" => {
                self.copy(st, &a[0], &a[1], &a[2])?;
                return Ok(a[0].clone());
            }
            "memset" => {
                self.set_mem(st, &a[0], &a[1], &a[2])?;
                return Ok(a[0].clone());
            }
            "memcmp" | "bcmp" => {
                let l = self.conc_val(st, &a[2])? as u64;
                let p = self.conc_val(st, &a[0])? as u64;
                let q = self.conc_val(st, &a[1])? as u64;
                let x = self.read_bytes(st, p, l)?;
                let y = self.read_bytes(st, q, l)?;
                let mut acc = self.ar.c(0, 32);
                for i in (0..l as usize).rev() {
                    if x[i] == y[i] {
                        continue;
                    }
                    let ex = self.byte_e(x[i]);
                    let ey = self.byte_e(y[i]);
                    let eq = self.ar.eq(ex, ey);
                    let lt = self.ar.ult(ex, ey);
                    let m1 = self.ar.c(u128::MAX, 32);
                    let p1 = self.ar.c(1, 32);
                    let d = if n == "bcmp" { p1 } else { self.ar.ite(lt, m1, p1) };
                    acc = self.ar.ite(eq, acc, d);
                }
                return Ok(self.mkv(acc));
            }
            "strlen" => {
                let mut p = self.conc_val(st, &a[0])? as u64;
                let s = p;
                loop {
                    let v = self.load_scalar(st, p, 8)?;
                    if self.conc_val(st, &v)? == 0 {
                        return Ok(Val::I((p - s) as u128));
                    }
                    p += 1;
                }
            }
            _ => {}
        }
        let Some(r) = n.strip_prefix("llvm.") else { return Err(Stop::Err(format!("intrinsic {n}"))) };
        let base = r;
        let has = |p: &str| base.starts_with(p);
        if has("lifetime.") || has("experimental.noalias") || has("dbg.") || has("prefetch") || has("invariant.") || has("assume") || has("donothing") || has("sideeffect") || has("pseudoprobe") || has("stackrestore") {
            return none;
        }
        if has("stacksave") {
            return Ok(Val::I(0));
        }
        if has("memcpy.") || has("memmove.") {
            self.copy(st, &a[0], &a[1], &a[2])?;
            return none;
        }
        if has("memset.") {
            self.set_mem(st, &a[0], &a[1], &a[2])?;
            return none;
        }
        if has("threadlocal.address") {
            return Ok(a[0].clone());
        }
        if has("expect") || has("ssa.copy") || has("launder") || has("strip.invariant") {
            return Ok(a[0].clone());
        }
        if has("is.constant") {
            return Ok(Val::I(0));
        }
        if has("load.relative") {
            let off = self.conc_val(st, &a[1])? as u64;
            let p = self.conc_val(st, &a[0])? as u64;
            let v = self.load_scalar(st, p.wrapping_add(off), 32)?;
            let v = self.conc_val(st, &v)?;
            return Ok(Val::I(p.wrapping_add(sext_const(v, 32, 64) as u64) as u128));
        }
        let w = tys.first().map_or(0, Ty::bits);
        let u = a.iter().any(|v| matches!(v, Val::U));
        if u {
            return match ret {
                Ty::Struct(f, _) => Ok(Val::A(Rc::new(vec![Val::U; f.len()]))),
                _ => Ok(Val::U),
            };
        }
        let name = base.split('.').collect::<Vec<_>>();
        match (name[0], name.get(1).copied().unwrap_or("")) {
            ("umin", _) | ("umax", _) | ("smin", _) | ("smax", _) => {
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let c = if name[0].starts_with('u') { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                let r = if name[0].ends_with("min") { self.ar.ite(c, x, y) } else { self.ar.ite(c, y, x) };
                Ok(self.mkv(r))
            }
            ("uadd", "sat") => {
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let s = self.ar.bin(Bin::Add, x, y);
                let o = self.ar.ult(s, x);
                let k = self.ar.c(u128::MAX, w);
                let r = self.ar.ite(o, k, s);
                Ok(self.mkv(r))
            }
            ("usub", "sat") => {
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let s = self.ar.bin(Bin::Sub, x, y);
                let o = self.ar.ult(x, y);
                let k = self.ar.c(0, w);
                let r = self.ar.ite(o, k, s);
                Ok(self.mkv(r))
            }
            (op @ ("uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul"), "with") => {
                let bop = match &op[1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let signed = op.starts_with('s');
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let r = bin_const(bop, *x, *y, w);
                    let o = if w <= 64 {
                        if signed {
                            let (p, q) = (sext_const(*x, w, 128) as i128, sext_const(*y, w, 128) as i128);
                            let z = match bop {
                                Bin::Add => p + q,
                                Bin::Sub => p - q,
                                _ => p * q,
                            };
                            sext_const(r, w, 128) as i128 != z
                        } else {
                            match bop {
                                Bin::Add => x + y != r,
                                Bin::Sub => x < y,
                                _ => x * y != r,
                            }
                        }
                    } else if signed {
                        let (p, q) = (*x as i128, *y as i128);
                        match bop {
                            Bin::Add => p.checked_add(q).is_none(),
                            Bin::Sub => p.checked_sub(q).is_none(),
                            _ => p.checked_mul(q).is_none(),
                        }
                    } else {
                        match bop {
                            Bin::Add => x.checked_add(*y).is_none(),
                            Bin::Sub => x < y,
                            _ => x.checked_mul(*y).is_none(),
                        }
                    };
                    return Ok(Val::A(Rc::new(vec![Val::I(r), Val::I(o as u128)])));
                }
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let r = self.ar.bin(bop, x, y);
                let o = if bop == Bin::Mul || signed {
                    let w2 = if bop == Bin::Mul { w * 2 } else { w + 1 };
                    if w2 > 128 {
                        return Err(Stop::Err("128-bit symbolic overflow arithmetic".into()));
                    }
                    let (p, q) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                    let z = self.ar.bin(bop, p, q);
                    let rr = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                    self.ar.ne(z, rr)
                } else if bop == Bin::Add {
                    self.ar.ult(r, x)
                } else {
                    self.ar.ult(x, y)
                };
                let (r, o) = (self.mkv(r), self.mkv(o));
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            ("ctpop", _) => {
                if let Val::I(x) = &a[0] {
                    return Ok(Val::I(x.count_ones() as u128));
                }
                let x = self.e(&a[0], w)?;
                let mut s = self.ar.c(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    s = self.ar.bin(Bin::Add, s, b);
                }
                Ok(self.mkv(s))
            }
            ("ctlz", _) => {
                if let Val::I(x) = &a[0] {
                    return Ok(Val::I((x.leading_zeros() as u128) - (128 - w as u128)));
                }
                let x = self.e(&a[0], w)?;
                let mut r = self.ar.c(w as u128, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.c((w - 1 - i) as u128, w);
                    r = self.ar.ite(b, k, r);
                }
                Ok(self.mkv(r))
            }
            ("cttz", _) => {
                if let Val::I(x) = &a[0] {
                    return Ok(Val::I((x.trailing_zeros() as u128).min(w as u128)));
                }
                let x = self.e(&a[0], w)?;
                let mut r = self.ar.c(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.c(i as u128, w);
                    r = self.ar.ite(b, k, r);
                }
                Ok(self.mkv(r))
            }
            ("bswap", _) => {
                let x = self.e(&a[0], w)?;
                let mut acc: Option<E> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Ok(self.mkv(acc.unwrap()))
            }
            ("bitreverse", _) => {
                let x = self.e(&a[0], w)?;
                let mut acc: Option<E> = None;
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Ok(self.mkv(acc.unwrap()))
            }
            ("fshl", _) | ("fshr", _) => {
                let k = match &a[2] {
                    Val::I(k) => (*k % w as u128) as u16,
                    Val::S(e) => {
                        let e = *e;
                        (self.concretize(st, e)? % w as u128) as u16
                    }
                    _ => 0,
                };
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let r = if name[0] == "fshl" {
                    if k == 0 {
                        x
                    } else {
                        let h = self.ar.extract(x, 0, w - k);
                        let l = self.ar.extract(y, w - k, k);
                        self.ar.concat(h, l)
                    }
                } else if k == 0 {
                    y
                } else {
                    let h = self.ar.extract(x, 0, k);
                    let l = self.ar.extract(y, k, w - k);
                    self.ar.concat(h, l)
                };
                Ok(self.mkv(r))
            }
            ("abs", _) => {
                let x = self.e(&a[0], w)?;
                let z = self.ar.c(0, w);
                let neg = self.ar.slt(x, z);
                let m = self.ar.bin(Bin::Sub, z, x);
                let r = self.ar.ite(neg, m, x);
                Ok(self.mkv(r))
            }
            ("ucmp", _) | ("scmp", _) => {
                let x = self.e(&a[0], w)?;
                let y = self.e(&a[1], w)?;
                let rw = ret.bits();
                let lt = if name[0] == "ucmp" { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                let eq = self.ar.eq(x, y);
                let m1 = self.ar.c(u128::MAX, rw);
                let z = self.ar.c(0, rw);
                let p1 = self.ar.c(1, rw);
                let i = self.ar.ite(eq, z, p1);
                let r = self.ar.ite(lt, m1, i);
                Ok(self.mkv(r))
            }
            ("ptrmask", _) => self.bin(Bin::And, 64, &a[0], &a[1]),
            _ => Err(Stop::Err(format!("unsupported intrinsic llvm.{base}"))),
        }
    }

    fn vbit(&mut self, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        // flatten to one integer, then split
        let (n, w) = match from {
            Ty::Vec(n, t) => (*n as usize, t.bits()),
            t => (1, t.bits()),
        };
        let mut acc: Option<E> = None;
        let mut undef = true;
        for i in 0..n {
            let v = if matches!(from, Ty::Vec(..)) { el(x, i) } else { x.clone() };
            undef &= matches!(v, Val::U);
            let e = self.e(&v, w)?;
            acc = Some(match acc {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        if undef {
            return Ok(Val::U);
        }
        let e = acc.unwrap();
        match to {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut v = vec![];
                for i in 0..*n as u16 {
                    let b = self.ar.extract(e, i * w, w);
                    v.push(self.mkv(b));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(self.mkv(e)),
        }
    }

    fn byte_e(&mut self, b: u32) -> E {
        if b >= SYM0 { E(b - SYM0) } else { self.ar.c(if b < 256 { b as u128 } else { 0 }, 8) }
    }

    fn copy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.conc_val(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc_val(st, d)? as u64;
        let s = self.conc_val(st, s)? as u64;
        let b = self.read_bytes(st, s, n)?;
        self.write_bytes(st, d, &b)
    }
    fn set_mem(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.conc_val(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc_val(st, d)? as u64;
        let b = self.to_bytes(v, 8);
        let v = vec![b[0]; n as usize];
        self.write_bytes(st, d, &v)
    }
}
