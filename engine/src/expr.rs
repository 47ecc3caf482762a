//! Hash-consed bit-vector expressions with local simplification.

use crate::ir::{Bin, mask};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    B(Bin),
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Ite,
    Concat, // a = high, b = low
    Extract(u16), // low bit
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub const NONE: E = E(u32::MAX);

pub const MAXVARS: usize = 256;
pub type VarSet = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E>,
    pub var_w: Vec<u16>,
    eval_val: Vec<u128>,
    eval_ep: Vec<u32>,
    epoch: u32,
}

fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if (v >> (w - 1)) & 1 == 1 {
        (v | !((1u128 << w) - 1)) as i128
    } else {
        v as i128
    }
}

pub fn bin_const(op: Bin, a: u128, b: u128, w: u16) -> u128 {
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => if b == 0 { u128::MAX } else { a / b },
        Bin::URem => if b == 0 { a } else { a % b },
        Bin::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 }
        }
        Bin::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => {
            let s = sext(a, w);
            let n = if b >= w as u128 { (w - 1) as u32 } else { b as u32 };
            (s >> n) as u128
        }
    };
    mask(r, w)
}

pub fn slt_const(a: u128, b: u128, w: u16) -> bool {
    sext(a, w) < sext(b, w)
}
pub fn sext_const(a: u128, from: u16, to: u16) -> u128 {
    mask(sext(a, from) as u128, to)
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], vars: vec![], map: HashMap::new(), var_w: vec![], eval_val: vec![], eval_ep: vec![], epoch: 0 }
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = E(self.nodes.len() as u32);
        let mut vs: VarSet = [0; 4];
        if let Op::Var(i) = op {
            vs[i as usize / 64] |= 1 << (i % 64);
        }
        for x in [a, b, c] {
            if x != NONE {
                let o = self.vars[x.0 as usize];
                for k in 0..4 {
                    vs[k] |= o[k];
                }
            }
        }
        self.nodes.push(n);
        self.vars.push(vs);
        self.eval_val.push(0);
        self.eval_ep.push(0);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e.0 as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e.0 as usize]
    }
    pub fn k(&self, e: E) -> Option<u128> {
        match self.nodes[e.0 as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> E {
        self.mk(Op::Const(mask(v, w)), w, NONE, NONE, NONE)
    }
    pub fn var(&mut self, i: u32, w: u16) -> E {
        while self.var_w.len() <= i as usize {
            self.var_w.push(0);
        }
        self.mk(Op::Var(i), w, NONE, NONE, NONE)
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }

    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let v = bin_const(op, x, y, w);
            return self.c(v, w);
        }
        let ones = mask(u128::MAX, w);
        let (mut a, mut b) = (a, b);
        if matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor) {
            // constant on the right; otherwise order by id
            if self.k(a).is_some() || (self.k(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.k(b);
        match op {
            Bin::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    let n = self.n(a);
                    if n.op == Op::B(Bin::Add) {
                        if let Some(z) = self.k(n.b) {
                            let k = self.c(y.wrapping_add(z), w);
                            return self.bin(Bin::Add, n.a, k);
                        }
                    }
                    if let Op::Ite = n.op {
                        if self.k(n.b).is_some() || self.k(n.c).is_some() {
                            let x = self.bin(op, n.b, b);
                            let z = self.bin(op, n.c, b);
                            return self.ite(n.a, x, z);
                        }
                    }
                } else {
                    let (xa, ca) = self.split_add(a);
                    let (xb, cb) = self.split_add(b);
                    if ca != 0 || cb != 0 {
                        let d = self.bin(Bin::Add, xa, xb);
                        let k = self.c(ca.wrapping_add(cb), w);
                        return self.bin(Bin::Add, d, k);
                    }
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::B(Bin::Sub) && na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::B(Bin::Sub) && nb.b == a {
                        return nb.a;
                    }
                }
            }
            Bin::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = kb {
                    let k = self.c(y.wrapping_neg(), w);
                    return self.bin(Bin::Add, a, k);
                }
                if let Some((_, ca, cb)) = self.same_base(a, b) {
                    return self.c(ca.wrapping_sub(cb), w);
                }
                {
                    let (xa, ca) = self.split_add(a);
                    let (xb, cb) = self.split_add(b);
                    let (na, nb) = (self.n(xa), self.n(xb));
                    let mut d = None;
                    if na.op == Op::B(Bin::Add) {
                        if na.a == xb {
                            d = Some(na.b);
                        } else if na.b == xb {
                            d = Some(na.a);
                        }
                    }
                    if d.is_none() && nb.op == Op::B(Bin::Add) && (nb.a == xa || nb.b == xa) {
                        let o = if nb.a == xa { nb.b } else { nb.a };
                        let z = self.c(0, w);
                        d = Some(self.mk(Op::B(Bin::Sub), w, z, o, NONE));
                    }
                    if d.is_none() && (ca != 0 || cb != 0) {
                        d = Some(self.bin(Bin::Sub, xa, xb));
                    }
                    if let Some(d) = d {
                        let k = self.c(ca.wrapping_sub(cb), w);
                        return self.bin(Bin::Add, d, k);
                    }
                }
                // (x + k) - x
                let n = self.n(a);
                if n.op == Op::B(Bin::Add) {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                }
            }
            Bin::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, k);
                    }
                }
            }
            Bin::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(ones) || a == b {
                    return a;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.f();
                }
                if let Some(y) = kb {
                    // low-bit mask of a zero-extension that already fits
                    let n = self.n(a);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let im = mask(u128::MAX, iw);
                        if y & im == im {
                            return a;
                        }
                        let k = self.c(y, iw);
                        let x = self.bin(Bin::And, n.a, k);
                        return self.zext(x, w);
                    }
                    if n.op == Op::B(Bin::And) {
                        if let Some(z) = self.k(n.b) {
                            let k = self.c(y & z, w);
                            return self.bin(Bin::And, n.a, k);
                        }
                    }
                    // contiguous low mask => zext(extract)
                    let ty = y.trailing_ones() as u16;
                    if y == mask(u128::MAX, ty) && ty < w {
                        let x = self.extract(a, 0, ty);
                        return self.zext(x, w);
                    }
                }
            }
            Bin::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(ones) {
                    return b;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.t();
                }
                if w > 1 {
                    if let Some(r) = self.or_concat(a, b) {
                        return r;
                    }
                }
            }
            Bin::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if kb == Some(ones) {
                    return self.not(a);
                }
                if w > 1 && kb == Some(1 << (w - 1)) {
                    // flipping the top bit is adding it
                    return self.bin(Bin::Add, a, b);
                }
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if y >= w as u128 {
                        if op == Bin::AShr {
                            let k = self.c((w - 1) as u128, w);
                            return self.mk(Op::B(op), w, a, k, NONE);
                        }
                        return self.c(0, w);
                    }
                    let y = y as u16;
                    if op == Bin::LShr {
                        let x = self.extract(a, y, w - y);
                        return self.zext(x, w);
                    }
                    if op == Bin::Shl {
                        let x = self.extract(a, 0, w - y);
                        let z = self.c(0, y);
                        return self.concat(x, z);
                    }
                }
            }
            Bin::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Bin::LShr, a, k);
                    }
                }
            }
            Bin::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(Bin::And, a, k);
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::B(op), w, a, b, NONE)
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        let (x, y) = (self.n(a), self.n(b));
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
    }

    /// `zext(lo) | (hi << k)` style combination into a concat
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        // one is concat(hi, 0:k), the other is zext(lo) with width(lo) <= k
        for (x, y) in [(na, nb), (nb, na)] {
            if x.op == Op::Concat && self.k(x.b) == Some(0) && y.op == Op::ZExt {
                let k = self.w(x.b);
                let lw = self.w(y.a);
                if lw <= k {
                    let lo = self.zext(y.a, k);
                    return Some(self.concat(x.a, lo));
                }
            }
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w;
        match n.op {
            Op::Const(v) => self.c(!v, w),
            Op::Not => n.a,
            Op::Ult if w == 1 => self.ule(n.b, n.a),
            Op::Ule if w == 1 => self.ult(n.b, n.a),
            Op::Slt if w == 1 => self.sle(n.b, n.a),
            Op::Sle if w == 1 => self.slt(n.b, n.a),
            _ => self.mk(Op::Not, w, a, NONE, NONE),
        }
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let (mut a, mut b) = (a, b);
        if self.k(a).is_some() || (self.k(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        if let Some(kb) = self.k(b) {
            if self.k(a).is_some() {
                return self.f(); // both constants, distinct ids
            }
            if w == 1 {
                return if kb == 1 { a } else { self.not(a) };
            }
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if kb >> iw != 0 {
                        return self.f();
                    }
                    let k = self.c(kb, iw);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let k = mask(kb, iw);
                    if sext_const(k, iw, w) != kb {
                        return self.f();
                    }
                    let k = self.c(k, iw);
                    return self.eq(n.a, k);
                }
                Op::Ite => {
                    if self.k(n.b).is_some() || self.k(n.c).is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.c(kb >> lw, w - lw);
                    let lk = self.c(kb, lw);
                    let h = self.eq(n.a, hk);
                    if self.k(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(n.b, lk);
                    return self.bin(Bin::And, h, l);
                }
                Op::B(Bin::Add) => {
                    if let Some(z) = self.k(n.b) {
                        let k = self.c(kb.wrapping_sub(z), w);
                        return self.eq(n.a, k);
                    }
                }
                Op::B(Bin::Xor) => {
                    if let Some(z) = self.k(n.b) {
                        let k = self.c(kb ^ z, w);
                        return self.eq(n.a, k);
                    }
                    if kb == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Not => {
                    let k = self.c(!kb, w);
                    return self.eq(n.a, k);
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if self.same_base(a, b).is_some() {
                return self.f();
            }
            {
                let (xa, ca) = self.split_add(a);
                let (xb, cb) = self.split_add(b);
                if ca != 0 && cb != 0 {
                    let k = self.c(ca.wrapping_sub(cb), w);
                    let l = self.bin(Bin::Add, xa, k);
                    return self.eq(l, xb);
                }
                let (na, nb) = (self.n(xa), self.n(xb));
                let dc = mask(ca.wrapping_sub(cb), w);
                for (x, c, o) in [(na, dc, xb), (nb, mask(dc.wrapping_neg(), w), xa)] {
                    // (o + r) + c == o  iff  r == -c
                    if x.op == Op::B(Bin::Add) && (x.a == o || x.b == o) {
                        let r = if x.a == o { x.b } else { x.a };
                        let k = self.c(c.wrapping_neg(), w);
                        return self.eq(r, k);
                    }
                }
                if na.op == Op::B(Bin::Add) && nb.op == Op::B(Bin::Add) {
                    for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                        for (r, t) in [(nb.a, nb.b), (nb.b, nb.a)] {
                            if p == r {
                                let k = self.c(dc, w);
                                let l = self.bin(Bin::Add, q, k);
                                return self.eq(l, t);
                            }
                        }
                    }
                }
            }
            if w == 1 {
                let x = self.bin(Bin::Xor, a, b);
                return self.not(x);
            }
        }
        self.mk(Op::Eq, 1, a, b, NONE)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }

    /// `e` as base + constant
    fn split_add(&self, e: E) -> (E, u128) {
        let n = self.n(e);
        if n.op == Op::B(Bin::Add) {
            if let Some(k) = self.k(n.b) {
                return (n.a, k);
            }
        }
        (e, 0)
    }
    /// a = x + ca, b = x + cb with ca != cb
    fn same_base(&self, a: E, b: E) -> Option<(E, u128, u128)> {
        if self.k(a).is_some() || self.k(b).is_some() {
            return None;
        }
        let (xa, ca) = self.split_add(a);
        let (xb, cb) = self.split_add(b);
        (xa == xb && ca != cb).then_some((xa, ca, cb))
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let ones = mask(u128::MAX, w);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.f(),
            (Some(x), _) if x == ones => return self.f(),
            (_, Some(1)) => {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            (_, Some(y)) if y == ones => return self.ne(a, b),
            (Some(x), _) if x == ones - 1 => {
                let z = self.c(ones, w);
                return self.eq(b, z);
            }
            (Some(0), _) => {
                let z = self.c(0, w);
                return self.ne(b, z);
            }
            _ => {}
        }
        if a == b {
            return self.f();
        }
        if let Some((_, ca, cb)) = self.same_base(a, b) {
            // a = x+ca, b = x+cb = a+e: a < a+e iff a+e does not wrap
            let e = mask(cb.wrapping_sub(ca), w);
            let k = self.c(ones - e, w);
            return self.ule(a, k);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(y) = self.k(b) {
                if y >> iw != 0 {
                    return self.t();
                }
                let k = self.c(y, iw);
                return self.ult(na.a, k);
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return self.ult(na.a, nb.a);
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(x) = self.k(a) {
                if x >> iw != 0 {
                    return self.f();
                }
                let k = self.c(x, iw);
                return self.ult(k, nb.a);
            }
        }
        if let Some(r) = self.cmp_ite(a, b, |s, x, y| s.ult(x, y)) {
            return r;
        }
        self.mk(Op::Ult, 1, a, b, NONE)
    }
    fn cmp_ite(&mut self, a: E, b: E, f: impl Fn(&mut Self, E, E) -> E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.k(b).is_some() && (self.k(na.b).is_some() || self.k(na.c).is_some()) {
            let x = f(self, na.b, b);
            let y = f(self, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && self.k(a).is_some() && (self.k(nb.b).is_some() || self.k(nb.c).is_some()) {
            let x = f(self, a, nb.b);
            let y = f(self, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let ones = mask(u128::MAX, w);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c((x <= y) as u128, 1),
            (Some(0), _) => return self.t(),
            (_, Some(y)) if y == ones => return self.t(),
            (_, Some(y)) => {
                let k = self.c(y + 1, w);
                return self.ult(a, k);
            }
            (Some(x), _) => {
                let k = self.c(x - 1, w);
                return self.ult(k, b);
            }
            _ => {}
        }
        if a == b {
            return self.t();
        }
        if self.same_base(a, b).is_some() {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ule(na.a, nb.a);
        }
        self.mk(Op::Ule, 1, a, b, NONE)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(slt_const(x, y, w) as u128, 1);
        }
        if a == b {
            return self.f();
        }
        let (na, nb) = (self.n(a), self.n(b));
        let nonneg = |s: &Self, n: &Node, e: E| n.op == Op::ZExt || s.k(e).is_some_and(|v| (v >> (w - 1)) & 1 == 0);
        if nonneg(self, &na, a) && nonneg(self, &nb, b) {
            return self.ult(a, b);
        }
        if na.op == Op::ZExt {
            if let Some(y) = self.k(b) {
                if (y >> (w - 1)) & 1 == 1 {
                    return self.f();
                }
            }
        }
        if nb.op == Op::ZExt {
            if let Some(y) = self.k(a) {
                if (y >> (w - 1)) & 1 == 1 {
                    return self.t();
                }
            }
        }
        if let Some(r) = self.cmp_ite(a, b, |s, x, y| s.slt(x, y)) {
            return r;
        }
        self.mk(Op::Slt, 1, a, b, NONE)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c((!slt_const(y, x, w)) as u128, 1);
        }
        if a == b {
            return self.t();
        }
        if let Some(r) = self.cmp_ite(a, b, |s, x, y| s.sle(x, y)) {
            return r;
        }
        self.mk(Op::Sle, 1, a, b, NONE)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bin::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Bin::And, n, b);
                }
                (None, Some(0)) => return self.bin(Bin::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bin::Or, n, a);
                }
                _ => {}
            }
        }
        let n = self.n(c);
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        if n.op == Op::Eq && ((n.a == a && n.b == b) || (n.a == b && n.b == a)) {
            return b;
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(Op::Ite, w, c, a, b)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const(v) => self.c(v, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::ZExt, w, a, NONE, NONE),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const(v) => {
                let r = sext_const(v, n.w, w);
                self.c(r, w)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::SExt, w, a, NONE, NONE),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const(v) => self.c(if lo >= 128 { 0 } else { v >> lo }, w),
            Op::Extract(l2) => self.extract(n.a, lo + l2, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.c(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Op::Extract(lo), w, a, NONE, NONE)
                }
            }
            Op::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Op::Extract(lo), w, a, NONE, NONE)
                }
            }
            Op::B(op @ (Bin::And | Bin::Or | Bin::Xor)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::B(op @ (Bin::Add | Bin::Sub | Bin::Mul)) if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(op, x, y)
            }
            _ => self.mk(Op::Extract(lo), w, a, NONE, NONE),
        }
    }
    /// Byte extraction that keeps the source term whole, so that reassembling all its bytes gives it back.
    pub fn extract_raw(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const(_) => self.extract(a, lo, w),
            Op::Extract(l2) => self.extract_raw(n.a, lo + l2, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.c(0, w)
                } else if lo + w <= iw {
                    self.extract_raw(n.a, lo, w)
                } else {
                    let x = self.extract_raw(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract_raw(n.b, lo, w)
                } else if lo >= lw {
                    self.extract_raw(n.a, lo - lw, w)
                } else {
                    self.mk(Op::Extract(lo), w, a, NONE, NONE)
                }
            }
            _ => self.mk(Op::Extract(lo), w, a, NONE, NONE),
        }
    }
    /// Push an extraction left by `extract_raw` into its operand.
    pub fn simp(&mut self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::Extract(lo) => self.extract(n.a, lo, n.w),
            Op::ZExt => {
                let x = self.simp(n.a);
                self.zext(x, n.w)
            }
            _ => e,
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.k(h), self.k(l)) {
            return self.c((x << wl) | y, w);
        }
        if self.k(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if let (Op::Extract(lh), Op::Extract(ll)) = (nh.op, nl.op) {
            if nh.a == nl.a && lh == ll + wl {
                return self.extract_raw(nh.a, ll, w);
            }
        }
        // extract(x, wl..) ++ x-as-is  (x has width wl? no) ; extract(hi) ++ concat(extract, rest)
        if let Op::Extract(lh) = nh.op {
            if nl.op == Op::Concat {
                let nlh = self.n(nl.a);
                if let Op::Extract(l2) = nlh.op {
                    if nlh.a == nh.a && lh == l2 + nlh.w {
                        let hh = self.extract_raw(nh.a, l2, nlh.w + wh);
                        return self.concat(hh, nl.b);
                    }
                }
            }
        }
        // ite(c,k1,k2) ++ ite(c,k3,k4)
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        self.mk(Op::Concat, w, h, l, NONE)
    }

    /// Unsigned interval containing every value of `e`, given intervals for some subterms.
    pub fn iv(&self, e: E, b: &HashMap<E, (u128, u128)>, d: u32) -> (u128, u128) {
        let n = self.n(e);
        let ones = mask(u128::MAX, n.w);
        if let Op::Const(v) = n.op {
            return (v, v);
        }
        let full = (0, ones);
        let mut r = full;
        if d > 0 {
            match n.op {
                Op::ZExt => r = self.iv(n.a, b, d - 1),
                Op::Ite => {
                    let x = self.iv(n.b, b, d - 1);
                    let y = self.iv(n.c, b, d - 1);
                    r = (x.0.min(y.0), x.1.max(y.1));
                }
                Op::B(Bin::Add) => {
                    let x = self.iv(n.a, b, d - 1);
                    let y = self.iv(n.b, b, d - 1);
                    if n.w <= 64 && x.1 + y.1 <= ones {
                        r = (x.0 + y.0, x.1 + y.1);
                    } else if n.w <= 64 && x.0 + y.0 > ones {
                        r = (x.0 + y.0 - ones - 1, x.1 + y.1 - ones - 1);
                    }
                }
                Op::B(Bin::Sub) => {
                    let x = self.iv(n.a, b, d - 1);
                    let y = self.iv(n.b, b, d - 1);
                    if x.0 >= y.1 {
                        r = (x.0 - y.1, x.1 - y.0);
                    }
                }
                Op::B(Bin::Mul) => {
                    let x = self.iv(n.a, b, d - 1);
                    let y = self.iv(n.b, b, d - 1);
                    if n.w <= 64 && x.1.checked_mul(y.1).is_some_and(|v| v <= ones) {
                        r = (x.0 * y.0, x.1 * y.1);
                    }
                }
                Op::B(Bin::And) => {
                    let x = self.iv(n.a, b, d - 1);
                    let y = self.iv(n.b, b, d - 1);
                    r = (0, x.1.min(y.1));
                }
                Op::B(Bin::URem) => {
                    let y = self.iv(n.b, b, d - 1);
                    if y.0 > 0 {
                        r = (0, y.1 - 1);
                    }
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let x = self.iv(n.a, b, d - 1);
                    let y = self.iv(n.b, b, d - 1);
                    r = ((x.0 << lw) + y.0, (x.1 << lw) + y.1);
                }
                Op::Extract(0) => {
                    let x = self.iv(n.a, b, d - 1);
                    if x.1 <= ones {
                        r = x;
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = b.get(&e) {
            r = (r.0.max(x.0), r.1.min(x.1));
        }
        if r.0 > r.1 { full } else { r }
    }
    /// Truth value of a condition where intervals alone settle it.
    pub fn tri(&self, c: E, b: &HashMap<E, (u128, u128)>, d: u32) -> Option<bool> {
        let n = self.n(c);
        match n.op {
            Op::Const(v) => Some(v == 1),
            Op::Not => self.tri(n.a, b, d).map(|x| !x),
            Op::Ult | Op::Ule => {
                let x = self.iv(n.a, b, 8);
                let y = self.iv(n.b, b, 8);
                if n.op == Op::Ult {
                    if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None }
                } else if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None }
            }
            Op::Eq => {
                let x = self.iv(n.a, b, 8);
                let y = self.iv(n.b, b, 8);
                if x.1 < y.0 || y.1 < x.0 { Some(false) } else { None }
            }
            Op::B(Bin::And) if d > 0 && n.w == 1 => match (self.tri(n.a, b, d - 1), self.tri(n.b, b, d - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::B(Bin::Or) if d > 0 && n.w == 1 => match (self.tri(n.a, b, d - 1), self.tri(n.b, b, d - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    /// Record what asserting `c` says about intervals of its subterms.
    pub fn learn(&self, c: E, b: &mut HashMap<E, (u128, u128)>) {
        let n = self.n(c);
        match n.op {
            Op::B(Bin::And) if n.w == 1 => {
                self.learn(n.a, b);
                self.learn(n.b, b);
            }
            Op::Ult | Op::Ule => {
                let s = (n.op == Op::Ult) as u128;
                let x = self.iv(n.a, b, 4);
                let y = self.iv(n.b, b, 4);
                if y.1 >= s && self.k(n.a).is_none() && y.1 - s < x.1 {
                    b.insert(n.a, (x.0, y.1 - s));
                }
                if self.k(n.b).is_none() && x.0 + s > y.0 {
                    b.insert(n.b, (x.0 + s, y.1));
                }
            }
            Op::Eq => {
                let x = self.iv(n.a, b, 4);
                let y = self.iv(n.b, b, 4);
                let r = (x.0.max(y.0), x.1.min(y.1));
                if r.0 <= r.1 {
                    if self.k(n.a).is_none() {
                        b.insert(n.a, r);
                    }
                    if self.k(n.b).is_none() {
                        b.insert(n.b, r);
                    }
                }
            }
            _ => {}
        }
    }

    /// Evaluate under an assignment (memoised per call).
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        self.new_epoch();
        self.ev(e, m)
    }
    pub fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        let i = e.0 as usize;
        if self.eval_ep[i] == self.epoch {
            return self.eval_val[i];
        }
        let n = self.nodes[i];
        let w = n.w;
        let v = match n.op {
            Op::Const(v) => return v,
            Op::Var(k) => mask(m.get(k as usize).copied().unwrap_or(0), w),
            Op::B(op) => {
                let x = self.ev(n.a, m);
                let y = self.ev(n.b, m);
                bin_const(op, x, y, w)
            }
            Op::Eq => (self.ev(n.a, m) == self.ev(n.b, m)) as u128,
            Op::Ult => (self.ev(n.a, m) < self.ev(n.b, m)) as u128,
            Op::Ule => (self.ev(n.a, m) <= self.ev(n.b, m)) as u128,
            Op::Slt => {
                let iw = self.w(n.a);
                slt_const(self.ev(n.a, m), self.ev(n.b, m), iw) as u128
            }
            Op::Sle => {
                let iw = self.w(n.a);
                !slt_const(self.ev(n.b, m), self.ev(n.a, m), iw) as u128
            }
            Op::Not => mask(!self.ev(n.a, m), w),
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            Op::Extract(lo) => mask(self.ev(n.a, m) >> lo, w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => {
                let iw = self.w(n.a);
                sext_const(self.ev(n.a, m), iw, w)
            }
        };
        self.eval_ep[i] = self.epoch;
        self.eval_val[i] = v;
        v
    }
    /// Iterative warm-up is unnecessary: expression depth is bounded by construction; recursion is fine.
    pub fn varset(&self, e: E) -> VarSet {
        self.vars[e.0 as usize]
    }
}
