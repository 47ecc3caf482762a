//! C10: set algebra between any two kinds of set is the mathematical one.
use crate::kinds::*;
use crate::{ck, cov, harnesses, model, nd};
use core::hash::Hash;
use core::ops::{BitAnd, BitOr, BitXor, Sub};
use frozen_collections::*;

/// A value of any kind of set. Its hash code says nothing, so results of the operators (which use a randomised
/// hash function) stay within what the solver handles.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct E(pub u8);
impl Hash for E {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {}
}
impl Scalar for E {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
type Hb = hashbrown::HashSet<E>;

fn has(l: &[u8], x: u8) -> bool {
    let mut r = false;
    for y in l {
        r |= *y == x;
    }
    r
}
/// The distinct values of both lists that satisfy `p(in a, in b)`.
fn expect(a: &[u8], b: &[u8], p: impl Fn(bool, bool) -> bool) -> ([u8; 12], usize) {
    let mut r = [0; 12];
    let mut n = 0;
    for l in [a, b] {
        for x in l {
            if p(has(a, *x), has(b, *x)) && !has(&r[..n], *x) {
                r[n] = *x;
                n += 1;
            }
        }
    }
    (r, n)
}
/// The iterator yields exactly the expected values, each once, within its own size hints at every point.
fn same<'a>(mut it: impl Iterator<Item = &'a E>, exp: &([u8; 12], usize)) {
    let (r, n) = (&exp.0[..exp.1], exp.1);
    let mut seen = [0u8; 12];
    let mut c = 0;
    loop {
        let (lo, hi) = it.size_hint();
        ck!(lo <= n - c);
        ck!(hi.map_or(true, |h| h >= n - c));
        match it.next() {
            Some(x) => {
                ck!(c < n);
                ck!(has(r, x.0) && !has(&seen[..c], x.0));
                seen[c] = x.0;
                c += 1;
            }
            None => break,
        }
    }
    ck!(c == n);
    ck!(it.next().is_none());
}
fn ops<S1: Set<E> + Len, S2: Set<E> + Len>(s1: &S1, s2: &S2, a: &[u8], b: &[u8]) {
    let and = expect(a, b, |x, y| x && y);
    let or = expect(a, b, |x, y| x || y);
    let xor = expect(a, b, |x, y| x != y);
    let sub = expect(a, b, |x, y| x && !y);
    let rev = expect(a, b, |x, y| !x && y);
    same(s1.union(s2), &or);
    same(s1.intersection(s2), &and);
    same(s1.symmetric_difference(s2), &xor);
    same(s1.difference(s2), &sub);
    ck!(s1.is_disjoint(s2) == (and.1 == 0));
    ck!(s1.is_subset(s2) == (sub.1 == 0));
    ck!(s1.is_superset(s2) == (rev.1 == 0));
}
/// Ways of consuming the set iterators other than one by one, after some items.
fn consume<'a, I: Iterator<Item = &'a E> + Clone>(it: I, exp: &([u8; 12], usize)) {
    let mut it = it;
    let n = exp.1;
    let mut c = 0;
    while c < n {
        // a clone has what the original has left
        ck!(it.clone().count() == n - c);
        ck!(it.clone().fold(0, |a, x| if has(&exp.0[..n], x.0) { a + 1 } else { 100 }) == n - c);
        ck!(it.clone().last().is_some());
        ck!(it.clone().nth(n - c).is_none());
        ck!(it.next().is_some());
        c += 1;
    }
    ck!(it.clone().count() == 0 && it.next().is_none());
}
fn consume_all<S1: Set<E> + Len, S2: Set<E> + Len>(s1: &S1, s2: &S2, a: &[u8], b: &[u8])
where
    for<'x> <S1 as SetIteration<E>>::Iterator<'x>: Clone,
    for<'x> <S2 as SetIteration<E>>::Iterator<'x>: Clone,
    S1: 'static,
    S2: 'static,
{
    consume(s1.union(s2), &expect(a, b, |x, y| x || y));
    consume(s1.intersection(s2), &expect(a, b, |x, y| x && y));
    consume(s1.symmetric_difference(s2), &expect(a, b, |x, y| x != y));
    consume(s1.difference(s2), &expect(a, b, |x, y| x && !y));
}
fn is(h: Hb, exp: ([u8; 12], usize)) {
    ck!(h.len() == exp.1);
    same(h.iter(), &exp);
}
fn operators<S1, S2>(s1: &S1, s2: &S2, a: &[u8], b: &[u8])
where
    for<'x> &'x S1: BitOr<&'x S2, Output = Hb> + BitAnd<&'x S2, Output = Hb> + BitXor<&'x S2, Output = Hb> + Sub<&'x S2, Output = Hb>,
{
    is(s1 | s2, expect(a, b, |x, y| x || y));
    is(s1 & s2, expect(a, b, |x, y| x && y));
    is(s1 ^ s2, expect(a, b, |x, y| x != y));
    is(s1 - s2, expect(a, b, |x, y| x && !y));
}

fn es(l: &[u8]) -> Vec<E> {
    let mut v = Vec::with_capacity(l.len());
    for x in l {
        v.push(E(*x));
    }
    v
}
macro_rules! mk {
    (0, $l:expr) => { FzOrderedSet::new(es($l)) };
    (1, $l:expr) => { FzHashSet::with_hasher(es($l), model::ByteHash(0)) };
    (2, $l:expr) => { FzScalarSet::new(es($l)) };
    (3, $l:expr) => {{ let mut m = hashbrown::HashSet::with_hasher(model::ByteHash(0)); for x in es($l) { m.insert(x); } m }};
    (4, $l:expr) => {{ let mut m = std::collections::HashSet::with_hasher(model::ByteHash(0)); for x in es($l) { m.insert(x); } m }};
    (5, $l:expr) => {{ let mut m = std::collections::BTreeSet::new(); for x in es($l) { m.insert(x); } m }};
}
macro_rules! pairs {
    ($k:expr, $f:ident, $a:expr, $b:expr; $($n:literal => $x:tt $y:tt),*) => {
        match $k { $($n => { let s1 = mk!($x, $a); let s2 = mk!($y, $b); $f(&s1, &s2, $a, $b) })* _ => {} }
    };
}
/// Two lists of values of the given lengths; with `small`, below 4.
fn lists(n: usize, m: usize, small: bool) -> ([u8; 4], [u8; 4]) {
    let g = |n: usize| {
        let mut r = [0u8; 4];
        for i in 0..n {
            r[i] = nd::any_u8();
            if small {
                nd::assume(r[i] < 4);
            }
        }
        r
    };
    (g(n), g(m))
}
const SIZES: [(usize, usize); 7] = [(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (0, 0)];
const MORE: [(usize, usize); 2] = [(3, 1), (1, 3)];
const MOST: [(usize, usize); 2] = [(3, 2), (2, 3)];

fn run_wide(sizes: &[(usize, usize)], kinds: usize) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(kinds);
    let (a, b) = lists(n, m, false);
    let (a, b) = (&a[..n], &b[..m]);
    pairs!(k, ops, a, b; 0 => 0 0, 1 => 0 1, 2 => 1 0, 3 => 1 1, 4 => 0 3, 5 => 3 0, 6 => 1 3, 7 => 3 1, 8 => 0 5, 9 => 5 0, 10 => 4 5, 11 => 3 4, 12 => 4 0, 13 => 1 4)
}
fn run_scalar(sizes: &[(usize, usize)]) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(6);
    let (a, b) = lists(n, m, true);
    let (a, b) = (&a[..n], &b[..m]);
    pairs!(k, ops, a, b; 0 => 2 0, 1 => 0 2, 2 => 1 2, 3 => 2 1, 4 => 2 2, 5 => 2 3)
}
fn run_consume(sizes: &[(usize, usize)]) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(6);
    let (a, b) = lists(n, m, k >= 4);
    let (a, b) = (&a[..n], &b[..m]);
    pairs!(k, consume_all, a, b; 0 => 0 1, 1 => 1 0, 2 => 0 3, 3 => 5 1, 4 => 2 0, 5 => 1 2)
}
fn run_operators(sizes: &[(usize, usize)]) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(9);
    let (a, b) = lists(n, m, k >= 6);
    let (a, b) = (&a[..n], &b[..m]);
    pairs!(k, operators, a, b; 0 => 0 0, 1 => 0 1, 2 => 1 0, 3 => 1 1, 4 => 0 3, 5 => 1 5, 6 => 2 0, 7 => 2 2, 8 => 1 2)
}
/// Macro-written sets and string sets: concrete contents, overlapping in every way.
fn inline_pairs() {
    let a = [1u8, 2, 3, 9];
    let s0 = fz_scalar_set!({ 1u8, 2u8, 3u8, 9u8 });
    macro_rules! go { ($s:expr, $b:expr) => {{
        let (s, b) = ($s, $b);
        let q = nd::any_u8();
        let has = |l: &[u8]| has(l, q);
        let n = |it: &mut dyn Iterator<Item = &u8>| { let mut c = 0; for x in it { if *x == q { c += 1 } } c };
        ck!(n(&mut s0.union(&s)) == (has(&a) || has(&b)) as u32);
        ck!(n(&mut s0.intersection(&s)) == (has(&a) && has(&b)) as u32);
        ck!(n(&mut s0.difference(&s)) == (has(&a) && !has(&b)) as u32);
        ck!(n(&mut s.difference(&s0)) == (!has(&a) && has(&b)) as u32);
        ck!(n(&mut s0.symmetric_difference(&s)) == (has(&a) != has(&b)) as u32);
        let all = |x: &[u8], y: &[u8]| x.iter().all(|v| y.contains(v));
        ck!(s0.is_subset(&s) == all(&a, &b) && s0.is_superset(&s) == all(&b, &a));
        ck!(s0.is_disjoint(&s) == !a.iter().any(|v| b.contains(v)));
    }}; }
    match nd::pick(6) {
        0 => go!(fz_scalar_set!({ 2u8, 3u8 }), [2u8, 3]),
        1 => go!(fz_scalar_set!({ 2u8, 3u8, 4u8, 5u8, 6u8, 200u8 }), [2u8, 3, 4, 5, 6, 200]),
        2 => go!(FzOrderedSet::new([1u8, 2, 3, 9].to_vec()), [1u8, 2, 3, 9]),
        3 => go!(FzScalarSet::new([10u8, 20, 30].to_vec()), [10u8, 20, 30]),
        4 => go!(FzHashSet::with_hasher([9u8, 8, 7, 1, 2, 3].to_vec(), model::ByteHash(1)), [9u8, 8, 7, 1, 2, 3]),
        _ => { let k = [9u8, 1, 40]; go!(fz_ordered_set!({ k[0], k[1], k[2] }), k) }
    }
}
fn strings() {
    let a = ["a", "bb", "ccc"];
    let i = nd::pick(5);
    let b: &[&str] = [&["a"][..], &["a", "bb", "ccc"], &["x", "bb"], &[], &["ccc", "bb", "a", "d"]][i];
    let s1 = fz_string_set!({ "a", "bb", "ccc" });
    let s2: std::collections::BTreeSet<&'static str> = b.iter().copied().collect();
    let exp = |p: fn(bool, bool) -> bool| {
        let mut n = 0;
        for x in ["a", "bb", "ccc", "x", "d"] { n += p(a.contains(&x), b.contains(&x)) as usize; }
        n
    };
    macro_rules! chk { ($it:expr, $p:expr) => {{
        let mut c = 0;
        for x in $it { ck!($p(a.contains(x), b.contains(x))); c += 1; }
        ck!(c == exp($p));
    }}; }
    chk!(s1.union(&s2), |x: bool, y: bool| x || y);
    chk!(s1.intersection(&s2), |x: bool, y: bool| x && y);
    chk!(s1.difference(&s2), |x: bool, y: bool| x && !y);
    chk!(SetOps::<&'static str>::difference(&s2, &s1), |x: bool, y: bool| !x && y);
    chk!(s1.symmetric_difference(&s2), |x: bool, y: bool| x != y);
    chk!(SetOps::<&'static str>::union(&s2, &s1), |x: bool, y: bool| x || y);
    chk!(SetOps::<&'static str>::intersection(&s2, &s1), |x: bool, y: bool| x && y);
    ck!(s1.is_subset(&s2) == (exp(|x: bool, y: bool| x && !y) == 0));
    ck!(s1.is_superset(&s2) == (exp(|x: bool, y: bool| !x && y) == 0));
    ck!(SetOps::<&'static str>::is_superset(&s2, &s1) == (exp(|x: bool, y: bool| x && !y) == 0));
    ck!(s1.is_disjoint(&s2) == (exp(|x: bool, y: bool| x && y) == 0));
}

/// Large sets that overlap in part. Two values can be told apart by their number.
macro_rules! algebra_large { ($s1:expr, $s2:expr, $a:expr, $b:expr) => {{
    let (s1, s2, a, b) = ($s1, $s2, $a, $b);
    let ina = |x: u16| a.contains(&x);
    let inb = |x: u16| b.contains(&x);
    fn count<'a>(it: impl Iterator<Item = &'a u16>, exp: usize, p: impl Fn(u16) -> bool) {
        let mut seen = vec![false; 4000];
        let mut it = it;
        let mut c = 0;
        loop {
            let (lo, hi) = it.size_hint();
            ck!(lo <= exp - c && hi.map_or(true, |h| h >= exp - c));
            match it.next() { Some(x) => { ck!(c < exp && p(*x) && !seen[*x as usize]); seen[*x as usize] = true; c += 1; } None => break }
        }
        ck!(c == exp);
    }
    let n = |p: &dyn Fn(bool, bool) -> bool| { let mut c = 0; for x in 0..4000 { c += p(ina(x), inb(x)) as usize; } c };
    let (or, and, xor, sub) = (n(&|x, y| x || y), n(&|x, y| x && y), n(&|x, y| x != y), n(&|x, y| x && !y));
    count(s1.union(&s2), or, |x| ina(x) || inb(x));
    count(s1.intersection(&s2), and, |x| ina(x) && inb(x));
    count(s1.symmetric_difference(&s2), xor, |x| ina(x) != inb(x));
    count(s1.difference(&s2), sub, |x| ina(x) && !inb(x));
    ck!(s1.is_subset(&s2) == (sub == 0) && s1.is_disjoint(&s2) == (and == 0) && s1.is_superset(&s2) == (and == n(&|_, y| y)));
    ck!((&s1 | &s2).len() == or && (&s1 & &s2).len() == and && (&s1 ^ &s2).len() == xor && (&s1 - &s2).len() == sub);
}}; }
/// Values 0..n but for one; and those from `from`, `m` of them.
fn large_pair() {
    let n = [300u16, 260][nd::pick(2)];
    let (from, m) = [(0, 300), (1, 299), (299, 300), (300, 20), (0, 10)][nd::pick(5)];
    let skip = [500, 0, 255, 256][nd::pick(4)];
    let f = |r: core::ops::Range<u16>| { let mut v = Vec::with_capacity(320); for x in r { if x != skip { v.push(x); } } v };
    let k = nd::pick(5);
    let (a, b) = if nd::pick(2) == 0 { (f(0..n), (from..from + m).collect::<Vec<u16>>()) } else { ((from..from + m).collect::<Vec<u16>>(), f(0..n)) };
    struct Has([bool; 4000]);
    impl Has { fn contains(&self, x: &u16) -> bool { self.0[*x as usize] } }
    let has = |l: &[u16]| { let mut h = Has([false; 4000]); for x in l { h.0[*x as usize] = true; } h };
    let (p, q) = (has(&a), has(&b));
    match k {
        0 => algebra_large!(FzScalarSet::new(a), FzScalarSet::new(b), p, q),
        1 => algebra_large!(FzScalarSet::new(a), FzOrderedSet::new(b), p, q),
        2 => algebra_large!(FzHashSet::with_hasher(a, model::ByteHash(0)), FzScalarSet::new(b), p, q),
        3 => algebra_large!(FzOrderedSet::new(a), FzHashSet::with_hasher(b, model::ByteHash(0)), p, q),
        _ => algebra_large!(FzHashSet::with_hasher(a, model::ByteHash(0)), b.into_iter().collect::<std::collections::BTreeSet<u16>>(), p, q),
    }
}

harnesses! {
    fn h_c10_q_large("5 pairs of sets of up to 300 u16 values, overlapping in 40 ways: four iterators with size hints, three predicates, sizes of the operators' results") { large_pair() }
    fn h_c10_q_wide("14 pairs of set kinds from any lists of up to 2 values each: four iterators with size hints, three predicates") { run_wide(&SIZES, 14) }
    fn h_c10_q_wide3("14 pairs of set kinds from any lists of 3 and 1 values") { run_wide(&MORE, 14) }
    fn h_c10_t_wide32("4 pairs of set kinds from any lists of 3 and 2 values") { run_wide(&MOST, 4) }
    fn h_c10_q_scalar("6 pairs involving a scalar set from any lists of up to 2 values below 4") { run_scalar(&SIZES) }
    fn h_c10_q_scalar3("6 pairs involving a scalar set from any lists of 3 and 1 values below 4") { run_scalar(&MORE) }
    fn h_c10_q_consume("6 pairs: counting, folding, last, nth and clones of the four iterators after any number of items, lists of up to 2 values") { run_consume(&SIZES) }
    fn h_c10_q_consume3("6 pairs: counting, folding, last, nth and clones, lists of 3 and 1 values") { run_consume(&MORE) }
    fn h_c10_q_operators("9 pairs: the operators | & ^ -, lists of up to 2 values") { run_operators(&SIZES) }
    fn h_c10_q_operators3("9 pairs: the operators | & ^ -, lists of 3 and 1 values") { run_operators(&MORE) }
    fn h_c10_q_inline("macro-written set against six other sets, any query value") { inline_pairs() }
    fn h_c10_q_strings("macro-written string set against five ordered sets of strings") { strings() }
}
