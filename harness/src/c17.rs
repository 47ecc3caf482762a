//! C17: every way of constructing a collection from the same entries gives the same collection.
use crate::kinds::*;
use crate::{ck, ck_map, cov, harnesses, model, nd};
use core::hash::Hash;
use frozen_collections::*;

type H = model::ByteHash;

/// A key whose hash code says nothing (for collections hashing with a randomised or default function).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct E(pub u8);
impl Hash for E {
    fn hash<X: core::hash::Hasher>(&self, _h: &mut X) {}
}
impl Scalar for E {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
fn keys<const N: usize>(max: u8) -> [u8; N] {
    let mut k = [0; N];
    for i in 0..N {
        k[i] = nd::any_u8();
        if max != 0 {
            nd::assume(k[i] < max);
        }
    }
    k
}
fn pairs<const N: usize>(k: &[u8; N]) -> [(E, u8); N] {
    core::array::from_fn(|i| (E(k[i]), i as u8))
}
/// An iterator that announces as little as allowed, or everything.
struct It<T, const N: usize>([Option<T>; N], usize, bool);
impl<T, const N: usize> Iterator for It<T, N> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.1 == N { return None; }
        self.1 += 1;
        self.0[self.1 - 1].take()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.2 { (N - self.1, Some(N - self.1)) } else { (0, None) }
    }
}
fn it<T, const N: usize>(a: [T; N], exact: bool) -> It<T, N> {
    It(a.map(Some), 0, exact)
}
fn same<const N: usize>(m: impl MapQuery<E, u8>, k: &[u8; N], q: u8) {
    ck!(Len::len(&m) == model::distinct(&k[..]));
    let e = model::last(&k[..], &q);
    ck!(MapQuery::get(&m, &E(q)).copied() == e);
    ck!(MapQuery::contains_key(&m, &E(q)) == e.is_some());
    cov!(e.is_some());
}
fn same_set<const N: usize>(m: impl SetQuery<E>, k: &[u8; N], q: u8) {
    ck!(Len::len(&m) == model::distinct(&k[..]));
    ck!(SetQuery::contains(&m, &E(q)) == model::last(&k[..], &q).is_some());
}
fn unit<const N: usize>(k: &[u8; N]) -> Vec<(E, ())> {
    let mut v = Vec::with_capacity(N);
    for x in k { v.push((E(*x), ())); }
    v
}
fn es<const N: usize>(k: &[u8; N]) -> [E; N] {
    core::array::from_fn(|i| E(k[i]))
}
fn maps<const N: usize>() {
    let c = nd::pick(9);
    let k = keys::<N>(0);
    let p = pairs(&k);
    let q = nd::any_u8();
    match c {
        0 => same(FzOrderedMap::from(p), &k, q),
        1 => same(FzOrderedMap::from_iter(it(p, true)), &k, q),
        2 => same(it(p, false).collect::<FzOrderedMap<_, _>>(), &k, q),
        3 => same(FzHashMap::<_, _, H>::from(p), &k, q),
        4 => same(it(p, true).collect::<FzHashMap<_, _, H>>(), &k, q),
        5 => same(it(p, false).collect::<FzHashMap<_, _, H>>(), &k, q),
        6 => same(FzHashMap::new(p.to_vec()), &k, q),
        7 => same(FzOrderedMap::new(p.to_vec()), &k, q),
        _ => same(FzHashMap::with_hasher(p.to_vec(), model::ByteHash(1)), &k, q),
    }
}
fn scalar_maps<const N: usize>(max: u8) {
    let c = nd::pick(4);
    let k = keys::<N>(max);
    let p = pairs(&k);
    let q = nd::any_u8();
    match c {
        0 => same(FzScalarMap::from(p), &k, q),
        1 => same(FzScalarMap::from_iter(it(p, true)), &k, q),
        2 => same(it(p, false).collect::<FzScalarMap<_, _>>(), &k, q),
        _ => same(FzScalarMap::new(p.to_vec()), &k, q),
    }
}
fn sets<const N: usize>() {
    let c = nd::pick(9);
    let k = keys::<N>(0);
    let p = es(&k);
    let q = nd::any_u8();
    match c {
        0 => same_set(FzOrderedSet::from(p), &k, q),
        1 => same_set(it(p, true).collect::<FzOrderedSet<_>>(), &k, q),
        2 => same_set(it(p, false).collect::<FzOrderedSet<_>>(), &k, q),
        3 => same_set(FzOrderedSet::from(FzOrderedMap::new(unit(&k))), &k, q),
        4 => same_set(FzHashSet::<_, H>::from(p), &k, q),
        5 => same_set(it(p, true).collect::<FzHashSet<_, H>>(), &k, q),
        6 => same_set(it(p, false).collect::<FzHashSet<_, H>>(), &k, q),
        7 => same_set(FzHashSet::from(FzHashMap::with_hasher(unit(&k), model::ByteHash(1))), &k, q),
        _ => same_set(FzHashSet::new(p.to_vec()), &k, q),
    }
}
fn scalar_sets<const N: usize>(max: u8) {
    let c = nd::pick(4);
    let k = keys::<N>(max);
    let p = es(&k);
    let q = nd::any_u8();
    match c {
        0 => same_set(FzScalarSet::from(p), &k, q),
        1 => same_set(it(p, true).collect::<FzScalarSet<_>>(), &k, q),
        2 => same_set(it(p, false).collect::<FzScalarSet<_>>(), &k, q),
        _ => same_set(FzScalarSet::from(FzScalarMap::new(unit(&k))), &k, q),
    }
}
const WORDS: [&str; 6] = ["", "k", "ka", "kb", "kbb", "zz"];
fn strings<const N: usize>() {
    let c = nd::pick(11);
    let k: [&'static str; N] = core::array::from_fn(|_| WORDS[nd::pick(6)]);
    let p: [(&'static str, u8); N] = core::array::from_fn(|i| (k[i], i as u8));
    let own: [(String, u8); N] = core::array::from_fn(|i| (String::from(k[i]), i as u8));
    let last = |q: &str| { let mut e = None; for i in 0..N { if k[i] == q { e = Some(i as u8); } } e };
    macro_rules! m { ($m:expr) => {{
        let m = $m;
        ck!(m.len() == model::distinct(&k[..]) && m.is_empty() == (N == 0));
        for q in WORDS { ck!(m.get(q).copied() == last(q)); }
        ck!(m.get("absent").is_none());
        let w = model::word(2);
        if c >= 8 { return; }
        ck!(m.get(&w).copied() == last(&w));
    }}; }
    macro_rules! s { ($m:expr) => {{
        let m = $m;
        ck!(m.len() == model::distinct(&k[..]) && m.is_empty() == (N == 0));
        for q in WORDS { ck!(m.contains(q) == last(q).is_some()); }
        if c >= 8 { return; }
        let w = model::word(2);
        ck!(m.contains(&w) == last(&w).is_some());
    }}; }
    match c {
        0 => m!(FzStringMap::<Box<str>, u8, H>::from(p)),
        1 => m!(it(p, true).collect::<FzStringMap<Box<str>, u8, H>>()),
        2 => m!(it(own, false).collect::<FzStringMap<Box<str>, u8, H>>()),
        3 => m!(FzStringMap::<Box<str>, u8, H>::from(own)),
        4 => s!(FzStringSet::<Box<str>, H>::from(k)),
        5 => s!(it(k, true).collect::<FzStringSet<Box<str>, H>>()),
        6 => s!(it(own, false).map(|x| x.0).collect::<FzStringSet<Box<str>, H>>()),
        7 => s!(FzStringSet::from(FzStringMap::<Box<str>, (), H>::from(k.map(|x| (x, ()))))),
        8 => m!(FzStringMap::new(p.to_vec())),
        9 => m!(FzStringMap::<Box<str>, u8>::from(p)),
        _ => s!(FzStringSet::new(k.to_vec())),
    }
}
/// Default collections are empty and answer every query with nothing.
fn defaults() {
    let q = nd::any_u8();
    macro_rules! m { ($t:ty) => {{
        let mut m = <$t>::default();
        ck!(m.len() == 0 && m.is_empty() && m.get(&q).is_none() && !m.contains_key(&q) && m.get_mut(&q).is_none() && m.get_key_value(&q).is_none());
        ck!(m.iter().next().is_none() && m.keys().next().is_none() && m.values().next().is_none() && m.iter_mut().next().is_none() && m.values_mut().next().is_none());
        ck!(m.get_disjoint_mut([&q])[0].is_none());
        ck!(m.clone().into_iter().next().is_none() && m.clone().into_keys().next().is_none() && m.into_values().next().is_none());
    }}; }
    macro_rules! s { ($t:ty) => {{
        let m = <$t>::default();
        ck!(m.len() == 0 && m.is_empty() && !m.contains(&q) && m.iter().next().is_none() && SetExtras::get(&m, &q).is_none() && m.into_iter().next().is_none());
    }}; }
    match nd::pick(13) {
        0 => m!(FzScalarMap<u8, u8>),
        1 => m!(FzOrderedMap<u8, u8>),
        2 => m!(FzHashMap<u8, u8, H>),
        3 => m!(DenseScalarLookupMap<u8, u8>),
        4 => m!(SparseScalarLookupMap<u8, u8>),
        5 => m!(EytzingerSearchMap<u8, u8>),
        6 => m!(ScanMap<u8, u8>),
        7 => m!(FrozenHashMap<u8, u8, SmallCollection, hashers::BridgeHasher<H>>),
        8 => s!(FzScalarSet<u8>),
        9 => s!(FzOrderedSet<u8>),
        10 => s!(FzHashSet<u8, H>),
        11 => {
            let w = model::word(2);
            let m = FzStringMap::<Box<str>, u8, H>::default();
            ck!(m.len() == 0 && m.is_empty() && m.get(&w).is_none() && !m.contains_key(&w) && m.iter().next().is_none());
        }
        _ => {
            let w = model::word(2);
            let m = FzStringSet::<Box<str>, H>::default();
            ck!(m.len() == 0 && m.is_empty() && m.get(&w).is_none() && !m.contains(&w) && m.iter().next().is_none());
        }
    }
}

/// Arrays, vectors and iterators (announcing all or nothing) of 300 entries, 10 of the keys given twice.
fn large() {
    const N: usize = 310;
    let mut k = crate::large::keys(300, 2);
    for i in 0..10 { k.push(k[i * 7]); }
    let a: [(u16, u16); N] = core::array::from_fn(|i| (k[i], i as u16));
    let t: [u16; N] = core::array::from_fn(|i| k[i]);
    let exact = nd::pick(2) == 0;
    let c = nd::pick(6);
    macro_rules! map { ($m:expr) => {{
        let m = $m;
        ck!(m.len() == 300);
        let mut i = 0;
        while i < N {
            let mut e = i;
            if i % 7 == 0 && i < 70 { e = 300 + i / 7; }
            ck!(m.get(&k[i]).copied() == Some(e as u16));
            i += 1;
        }
        let q = nd::below(5) as u16;
        ck!(m.get(&q).is_none());
    }}; }
    macro_rules! set { ($m:expr) => {{
        let m = $m;
        ck!(m.len() == 300);
        for x in &k { ck!(m.contains(x)); }
        let q = nd::below(5) as u16;
        ck!(!m.contains(&q));
    }}; }
    match c {
        0 => match nd::pick(2) { 0 => map!(FzOrderedMap::from(a)), _ => map!(it(a, exact).collect::<FzOrderedMap<_, _>>()) },
        1 => match nd::pick(2) { 0 => map!(FzHashMap::<_, _, H>::from(a)), _ => map!(it(a, exact).collect::<FzHashMap<_, _, H>>()) },
        2 => match nd::pick(2) { 0 => map!(FzScalarMap::from(a)), _ => map!(it(a, exact).collect::<FzScalarMap<_, _>>()) },
        3 => match nd::pick(2) { 0 => set!(FzOrderedSet::from(t)), _ => set!(it(t, exact).collect::<FzOrderedSet<_>>()) },
        4 => match nd::pick(2) { 0 => set!(FzHashSet::<_, H>::from(t)), _ => set!(it(t, exact).collect::<FzHashSet<_, H>>()) },
        _ => match nd::pick(2) { 0 => set!(FzScalarSet::from(t)), _ => set!(it(t, exact).collect::<FzScalarSet<_>>()) },
    }
}

harnesses! {
    fn h_c17_q_large("arrays and iterators (announcing all or nothing) of 310 entries over 300 keys: hash, ordered and scalar maps and sets") { large() }
    fn h_c17_q_maps("ordered and hash maps from any 0 to 3 entries constructed in nine ways, any query") {
        match nd::pick(4) { 0 => maps::<0>(), 1 => maps::<1>(), 2 => maps::<2>(), _ => maps::<3>() }
    }
    fn h_c17_q_scalar_maps("scalar maps from any 0 to 2 entries with keys below 8, 3 below 4, constructed in four ways, any query") {
        match nd::pick(4) { 0 => scalar_maps::<0>(0), 1 => scalar_maps::<1>(0), 2 => scalar_maps::<2>(8), _ => scalar_maps::<3>(4) }
    }
    fn h_c17_q_sets("ordered and hash sets from any 0 to 3 values constructed in nine ways, any query") {
        match nd::pick(4) { 0 => sets::<0>(), 1 => sets::<1>(), 2 => sets::<2>(), _ => sets::<3>() }
    }
    fn h_c17_q_scalar_sets("scalar sets from any 0 to 2 values below 8, 3 below 4, constructed in four ways, any query") {
        match nd::pick(4) { 0 => scalar_sets::<0>(0), 1 => scalar_sets::<1>(0), 2 => scalar_sets::<2>(8), _ => scalar_sets::<3>(4) }
    }
    fn h_c17_q_strings("string maps and sets from 0 to 2 of six strings constructed in eleven ways, any query of up to 2 ASCII characters") {
        match nd::pick(3) { 0 => strings::<0>(), 1 => strings::<1>(), _ => strings::<2>() }
    }
    fn h_c17_t_strings3("string maps and sets from 3 of six strings constructed in eleven ways, any query of up to 2 ASCII characters") { strings::<3>() }
    fn h_c17_q_defaults("default maps and sets of every kind: empty, any query") { defaults() }
}
