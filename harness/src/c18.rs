//! C18: whatever the traits of keys, queries and hashers answer (nonsense, or something else on every call), safe
//! code reads and writes live memory only, hands no value out twice for writing and drops everything once.
use crate::kinds::*;
use crate::{ck, cov, harnesses, model, nd, with_map, with_own_map, with_own_set, with_set, with_str_map};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher as _};
use equivalent::{Comparable, Equivalent};
use frozen_collections::*;

static mut LIVE: [i8; 16] = [0; 16];
fn live(i: u8) -> i8 {
    unsafe { LIVE[i as usize] }
}
fn total() -> i32 {
    let mut t = 0;
    for i in 0..16 {
        t += live(i) as i32;
    }
    t
}
/// An owner that counts its live copies and knows whether it is one.
struct D(u8, Box<u8>);
impl D {
    fn new(id: u8) -> D {
        unsafe { LIVE[id as usize] += 1 };
        D(id, Box::new(id ^ 0x55))
    }
    fn ok(&self) -> bool {
        self.0 < 16 && live(self.0) > 0 && *self.1 == self.0 ^ 0x55
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        ck!(self.ok());
        D::new(self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        ck!(self.ok());
        unsafe { LIVE[self.0 as usize] -= 1 };
    }
}

fn order() -> Ordering {
    match nd::pick(3) {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}
fn yes() -> bool {
    nd::split(nd::any_bool() as u64) != 0
}
const CODES: [u64; 3] = [0, 3, u64::MAX];
fn code() -> u64 {
    CODES[nd::pick(3)]
}
/// Scalar indexes around both ends of the type.
const AT: [usize; 5] = [0, 1, 3, usize::MAX - 1, usize::MAX];
static mut SPAN: usize = 3;
fn at() -> usize {
    match unsafe { SPAN } {
        0 => nd::any_u64() as usize,
        n => AT[nd::pick(n)],
    }
}

/// The traits of every type below answer anew on each call.
macro_rules! wild {
    ($($t:ty)*) => {$(
        impl PartialEq for $t { fn eq(&self, _: &$t) -> bool { yes() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, _: &$t) -> Option<Ordering> { Some(order()) } }
        impl Ord for $t { fn cmp(&self, _: &$t) -> Ordering { order() } }
        impl Hash for $t { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { h.write_u64(code()) } }
    )*};
}
/// An owning key.
#[derive(Clone)]
struct W(D);
/// A scalar key.
#[derive(Clone, Copy)]
struct S(u8);
/// A query.
#[derive(Clone, Copy)]
struct Q;
wild!(W S Q);
impl Scalar for S {
    fn index(&self) -> usize {
        at()
    }
}
impl Scalar for Q {
    fn index(&self) -> usize {
        at()
    }
}
macro_rules! queries {
    ($($k:ty)*) => {$(
        impl Equivalent<$k> for Q { fn equivalent(&self, _: &$k) -> bool { yes() } }
        impl Comparable<$k> for Q { fn compare(&self, _: &$k) -> Ordering { order() } }
    )*};
}
queries!(W S u8);
/// Hash codes as the key's `Hash` wrote them.
#[derive(Clone, Default)]
struct Raw(u64);
impl core::hash::BuildHasher for Raw {
    type Hasher = Raw;
    fn build_hasher(&self) -> Raw {
        Raw(0)
    }
}
impl core::hash::Hasher for Raw {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
/// A hasher that answers anew on each call (`WILD` codes) once `WILD` is set.
#[derive(Clone, Default)]
struct Any(u64);
static mut WILD: usize = 0;
impl core::hash::BuildHasher for Any {
    type Hasher = Any;
    fn build_hasher(&self) -> Any {
        Any(0)
    }
}
impl core::hash::Hasher for Any {
    fn finish(&self) -> u64 {
        if unsafe { WILD > 0 } { nd::pick(unsafe { WILD }) as u64 } else { self.0 }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
}

/// One lookup of any kind: what it finds is alive and part of the map.
fn look<K, V, X, M: MapQuery<X, V> + MapExtras<K, V, X>>(m: &mut M, q: &X, ok: impl Fn(&V) -> bool, kok: impl Fn(&K) -> bool) {
    match nd::pick(4) {
        0 => {
            if let Some(v) = m.get(q) {
                ck!(ok(v));
            }
        }
        1 => {
            if let Some(v) = m.get_mut(q) {
                ck!(ok(v));
            }
        }
        2 => {
            if let Some((k, v)) = m.get_key_value(q) {
                ck!(kok(k));
                ck!(ok(v));
            }
        }
        _ => {
            let _ = m.contains_key(q);
        }
    }
}
/// Mutable references to several values at once: all different, all alive.
fn several<K, V, X: Eq, M: MapExtras<K, V, X>, const N: usize>(m: &mut M, q: &X, len: usize, ok: impl Fn(&V) -> bool) {
    let r = m.get_disjoint_mut([q; N]);
    let mut at = [0usize; N];
    let mut found = 0;
    for v in r.into_iter().flatten() {
        ck!(ok(v));
        let p = v as *mut V as usize;
        for o in &at[..found] {
            ck!(*o != p);
        }
        at[found] = p;
        found += 1;
    }
}
/// Every entry that is left is alive, with the value it was given, and no entry is there twice.
fn all<'a, K: 'a, V: 'a>(it: impl Iterator<Item = (&'a K, &'a V)>, n: usize, id: impl Fn(&K) -> u8, vid: impl Fn(&V) -> u8) {
    let mut seen = [false; 8];
    let mut c = 0;
    for (k, v) in it {
        let i = id(k);
        ck!(i < n as u8 && !seen[i as usize]);
        seen[i as usize] = true;
        ck!(vid(v) == i + 8);
        c += 1;
    }
    ck!(c <= n);
}

fn did(d: &D) -> u8 {
    ck!(d.ok());
    d.0
}
fn list_w(n: u8) -> Vec<(W, D)> {
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n {
        v.push((W(D::new(i)), D::new(i + 8)));
    }
    v
}
fn list_s(n: u8) -> Vec<(S, D)> {
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n {
        v.push((S(i), D::new(i + 8)));
    }
    v
}

/// Runs with panics allowed; afterwards nothing may be left.
fn bracket(f: impl FnOnce()) {
    nd::panic_ok(true);
    let h = nd::live_heap();
    f();
    ck!(total() == 0);
    ck!(nd::live_heap() == h);
    cov!(true);
}

/// Everything one can do with a map of `n` owned entries.
fn use_w<M>(mut m: M, n: usize, deep: bool)
where
    M: Map<W, D, Q> + Len + IntoIterator<Item = (W, D)> + Clone,
{
    ck!(m.len() <= n);
    match nd::pick(5) {
        0 => look(&mut m, &Q, D::ok, |k| k.0.ok()),
        1 => several::<_, _, _, _, 2>(&mut m, &Q, n, D::ok),
        2 => {
            let c = m.clone();
            drop(m);
            all(c.iter(), n, |k| did(&k.0), did);
            return;
        }
        3 if deep => several::<_, _, _, _, 3>(&mut m, &Q, n, D::ok),
        3 => {
            for (k, v) in m.iter_mut() {
                ck!(k.0.ok() && v.ok());
                *v = D::new(15);
            }
        }
        _ => {
            let mut it = m.into_iter();
            if let Some((k, v)) = it.next() {
                ck!(k.0.ok() && v.ok() && v.0 == k.0.0 + 8);
            }
            return;
        }
    }
    let mut c = 0;
    for (k, v) in m.iter() {
        ck!(k.0.ok() && v.ok());
        c += 1;
    }
    ck!(c == m.len());
}
/// The same for copyable keys.
fn use_s<M>(mut m: M, n: usize)
where
    M: Map<S, D, Q> + Len + IntoIterator<Item = (S, D)>,
{
    ck!(m.len() <= n);
    match nd::pick(4) {
        0 => look(&mut m, &Q, D::ok, |_| true),
        1 => several::<_, _, _, _, 2>(&mut m, &Q, n, D::ok),
        2 => {
            all(m.iter(), n, |k| k.0, did);
            return;
        }
        _ => {
            let mut it = m.into_iter();
            if let Some((k, v)) = it.next() {
                ck!(v.ok() && v.0 == k.0 + 8);
            }
            return;
        }
    }
    for (_, v) in m.iter() {
        ck!(v.ok());
    }
}
/// Maps over ordinary keys, asked by queries that answer anything.
fn ask<M>(mut m: M, k: &[u8], _: impl Fn() -> u8)
where
    M: Map<u8, u8, Q> + Len,
{
    let n = k.len();
    ck!(m.len() == n);
    unsafe { SPAN = 0 };
    let ok = |v: &u8| (*v as usize) < n;
    match nd::pick(3) {
        0 => look(&mut m, &Q, ok, |x| *x > 0),
        1 => several::<_, _, _, _, 2>(&mut m, &Q, n, ok),
        _ => several::<_, _, _, _, 3>(&mut m, &Q, n, ok),
    }
    for (i, e) in k.iter().enumerate() {
        let mut c = 0;
        for (x, v) in m.iter() {
            if x == e {
                ck!(*v == i as u8);
                c += 1;
            }
        }
        ck!(c == 1);
    }
}

/// Sets of owning elements.
fn use_set<T>(m: T, n: usize)
where
    T: Set<W, Q> + Len + IntoIterator<Item = W> + Clone,
{
    ck!(m.len() <= n);
    match nd::pick(4) {
        0 => {
            if let Some(w) = m.get(&Q) {
                ck!(w.0.ok());
            }
        }
        1 => {
            let _ = m.contains(&Q);
        }
        2 => {
            let c = m.clone();
            drop(m);
            let mut seen = [false; 8];
            for w in c.iter() {
                let i = did(&w.0);
                ck!(!seen[i as usize]);
                seen[i as usize] = true;
            }
        }
        _ => {
            let mut it = m.into_iter();
            if let Some(w) = it.next() {
                ck!(w.0.ok());
            }
        }
    }
}
/// Strings that differ on every call.
struct Text;
const TEXTS: [&str; 9] = ["", "ka", "kb", "k", "kdd", "xk", "kkkkkkkk", "ak", "xbk"];
static mut NTEXTS: usize = 9;
impl AsRef<str> for Text {
    fn as_ref(&self) -> &str {
        TEXTS[nd::pick(unsafe { NTEXTS })]
    }
}
impl PartialEq for Text {
    fn eq(&self, _: &Text) -> bool {
        yes()
    }
}
impl Eq for Text {}
/// A string that is equal to and hashes like anything.
struct Word(&'static str);
impl PartialEq for Word {
    fn eq(&self, _: &Word) -> bool {
        yes()
    }
}
impl Eq for Word {}
impl Equivalent<&'static str> for Word {
    fn equivalent(&self, _: &&'static str) -> bool {
        yes()
    }
}
impl AsRef<str> for Word {
    fn as_ref(&self) -> &str {
        self.0
    }
}

fn strings(keys: &[&'static str]) {
    let mut v = Vec::with_capacity(4);
    for (i, s) in keys.iter().enumerate() {
        v.push((*s, D::new(i as u8 + 8)));
    }
    let mut m = FzStringMap::with_hasher(v, Any(0));
    ck!(m.len() <= keys.len());
    if unsafe { WILD == 0 } {
        unsafe { WILD = 4 };
    }
    match nd::pick(3) {
        0 => look(&mut m, &Text, D::ok, |_| true),
        1 => several::<_, _, _, _, 2>(&mut m, &Text, keys.len(), D::ok),
        _ => {
            let c = m.clone();
            drop(m);
            for (_, d) in c.iter() {
                ck!(d.ok());
            }
        }
    }
}
fn string_set(keys: &[&'static str]) {
    let m = FzStringSet::with_hasher(keys.to_vec(), Any(0));
    ck!(m.len() <= keys.len());
    unsafe { WILD = 4 };
    if let Some(s) = m.get(Text) {
        ck!(s.len() < 6);
    }
}
const WORDS: [[&str; 4]; 3] = [["ka", "kb", "kc", "kdd"], ["ak", "xbk", "zzck", "k"], ["", "k", "kk", "kkk"]];

/// Maps of the standard library, asked by a key.
fn use_std<M>(mut m: M)
where
    M: Map<W, D, W> + Len,
{
    let q = W(D::new(7));
    match nd::pick(3) {
        0 => look(&mut m, &q, D::ok, |k| k.0.ok()),
        1 => several::<_, _, _, _, 2>(&mut m, &q, 2, D::ok),
        _ => {
            for (k, v) in m.iter() {
                ck!(k.0.ok() && v.ok());
            }
        }
    }
}

/// Maps built without looking at the keys' order or hash codes again.
fn direct(kind: usize, n: u8) {
    match kind {
        0 => use_w(ScanMap::new(list_w(n)), n as usize, true),
        1 => use_w(EytzingerSearchMap::new(list_w(n)), n as usize, true),
        2 => use_s(SparseScalarLookupMap::new(list_s(n)), n as usize),
        _ => {
            if let Ok(m) = DenseScalarLookupMap::new(list_s(n)) {
                use_s(m, n as usize)
            }
        }
    }
}

/// Sets over ordinary values, asked by queries that answer anything.
fn ask_set<T>(m: T, k: &[u8], _: impl Fn() -> u8)
where
    T: Set<u8, Q> + Len,
{
    ck!(m.len() == k.len());
    unsafe { SPAN = 0 };
    if let Some(x) = m.get(&Q) {
        ck!(k.contains(x));
    }
    let _ = m.contains(&Q);
}
/// A value of the type of the others, with an identity of its own.
fn w(i: u8) -> W {
    W(D::new(i))
}
fn v(i: u8) -> D {
    D::new(i + 8)
}

harnesses! {
    fn h_c18_q_ordered("ordered maps from 2 owning entries whose comparisons answer anything on every call; lookups, 2 keys at once, clones, iteration") {
        bracket(|| use_w(FzOrderedMap::new(list_w(2)), 2, false))
    }
    fn h_c18_q_ordered_set("ordered sets from 2 owning values whose comparisons answer anything on every call") {
        bracket(|| use_set(FzOrderedSet::new(list_w(2).into_iter().map(|e| e.0).collect::<Vec<_>>()), 2))
    }
    fn h_c18_t_ordered("ordered maps from 3 owning entries whose comparisons answer anything on every call") {
        bracket(|| use_w(FzOrderedMap::new(list_w(3)), 3, true))
    }
    fn h_c18_q_scan("scan maps from 2 owning entries whose equality answers anything on every call") {
        bracket(|| direct(0, 2))
    }
    fn h_c18_q_search("search maps from 2 owning entries whose comparisons answer anything on every call") {
        bracket(|| direct(1, 2))
    }
    fn h_c18_q_hash("hash maps from 2 owning entries whose equality and hash codes (3 values) answer anything on every call") {
        bracket(|| use_w(FzHashMap::with_hasher(list_w(2), Raw(0)), 2, false))
    }
    fn h_c18_q_hash_set("hash sets from 2 owning values whose equality and hash codes (3 values) answer anything on every call") {
        bracket(|| use_set(FzHashSet::with_hasher(list_w(2).into_iter().map(|e| e.0).collect::<Vec<_>>(), Raw(0)), 2))
    }
    fn h_c18_q_dense("dense scalar maps built directly from 2 entries whose indexes (3 values) and order answer anything on every call") {
        bracket(|| direct(3, 2))
    }
    fn h_c18_q_dense_ends("the same, indexes 0, 1, 3 and the two greatest ones, one entry") {
        unsafe { SPAN = 5 };
        bracket(|| direct(3, 1))
    }
    fn h_c18_q_sparse("sparse scalar maps built directly from 2 entries whose indexes (3 values) and order answer anything on every call") {
        bracket(|| direct(2, 2))
    }
    fn h_c18_q_scalar("scalar maps from 2 entries whose indexes (3 values) and order answer anything on every call") {
        bracket(|| use_s(FzScalarMap::new(list_s(2)), 2))
    }
    fn h_c18_q_scalar_one("scalar maps from one entry whose index (0, 1, 3 or the two greatest ones) answers anything on every call") {
        unsafe { SPAN = 5 };
        bracket(|| use_s(FzScalarMap::new(list_s(1)), 1))
    }
    fn h_c18_q_ask("the 16 map kinds of the library over u8 keys, queries that answer anything on every call; any lookup, 2 and 3 keys at once") {
        nd::panic_ok(true);
        with_own_map!(nd::pick(OWN_KINDS), |j| j, ask)
    }
    fn h_c18_q_strings("string maps over 3 families of 4 keys, hashers that answer anything once the map is built and queries that are another string on every call") {
        bracket(|| strings(&WORDS[nd::pick(3)]))
    }
    fn h_c18_q_strings_build("string maps from 1 or 2 keys, hashers that answer anything on every call, queries that are another string on every call") {
        unsafe {
            WILD = 2;
            NTEXTS = 4;
        }
        bracket(|| strings(&WORDS[nd::pick(3)][..1 + nd::pick(2)]))
    }
    fn h_c18_q_string_set("string sets over 3 families of 4 keys, hashers that answer anything once the set is built and queries that are another string on every call") {
        bracket(|| string_set(&WORDS[nd::pick(3)]))
    }
    fn h_c18_q_std_tree("standard ordered maps of up to 2 owning entries whose comparisons answer anything on every call; lookups, 2 keys at once") {
        bracket(|| use_std(list_w(2).into_iter().collect::<std::collections::BTreeMap<_, _>>()))
    }
    fn h_c18_q_std_hash("standard hash maps of up to 2 owning entries whose equality and hash codes (3 values) answer anything on every call; lookups, 2 keys at once") {
        bracket(|| {
            let mut m = std::collections::HashMap::with_capacity_and_hasher(3, Raw(0));
            m.extend(list_w(2));
            use_std(m)
        })
    }
    fn h_c18_q_ask_set("ordered, hash and scalar sets of both forms over u8 values, queries that answer anything on every call") {
        nd::panic_ok(true);
        let k = [9u8, 1, 5, 7, 3];
        match nd::pick(6) {
            0 => ask_set(FzOrderedSet::new(k.to_vec()), &k, || 0),
            1 => ask_set(FzHashSet::with_hasher(k.to_vec(), model::ByteHash(0)), &k, || 0),
            2 => ask_set(fz_scalar_set!({ 8u8, 6u8, 7u8 }), &[8, 6, 7], || 0),
            3 => ask_set(fz_scalar_set!({ 8u8, 6u8, 17u8, 30u8 }), &[8, 6, 17, 30], || 0),
            4 => ask_set(fz_ordered_set!({ k[0], k[1], k[2], k[3], k[4] }), &k, || 0),
            _ => ask_set(fz_hash_set!({ k[0], k[1], k[2] }), &k[..3], || 0),
        }
    }
    fn h_c18_q_macro("ordered and hash maps of 2 entries written with the macros, computed owning keys whose traits answer anything on every call") {
        bracket(|| match nd::pick(2) {
            0 => use_w(fz_ordered_map!({ w(0): v(0), w(1): v(1) }), 2, true),
            _ => use_w(fz_hash_map!({ w(0): v(0), w(1): v(1) }), 2, true),
        })
    }
    fn h_c18_q_macro_scalar("scalar maps of 2 entries written with the macro, computed keys whose traits answer anything on every call") {
        bracket(|| use_s(fz_scalar_map!({ S(0): v(0), S(1): v(1) }), 2))
    }
    fn h_c18_t_macro_four("ordered maps of 4 entries written with the macro, computed owning keys whose comparisons answer anything on every call") {
        bracket(|| use_w(fz_ordered_map!({ w(0): v(0), w(1): v(1), w(2): v(2), w(3): v(3) }), 4, true))
    }
    fn h_c18_t_hash("hash maps from 3 owning entries whose equality and hash codes (3 values) answer anything on every call; lookups") {
        bracket(|| {
            let m = FzHashMap::with_hasher(list_w(3), Raw(0));
            ck!(m.len() <= 3);
            all(m.iter(), 3, |k| did(&k.0), did);
        })
    }
    fn h_c18_q_algebra("union, intersection and difference of 2 sets of one owning value each whose traits answer anything on every call") {
        bracket(|| {
            let a = FzHashSet::with_hasher(vec![w(0)], Raw(0));
            let b = FzHashSet::with_hasher(vec![w(1)], Raw(0));
            let mut n = 0;
            match nd::pick(3) {
                0 => for x in a.union(&b) { ck!(x.0.ok()); n += 1 },
                1 => for x in a.intersection(&b) { ck!(x.0.ok()); n += 1 },
                _ => for x in a.symmetric_difference(&b) { ck!(x.0.ok()); n += 1 },
            }
            ck!(n <= 2);
        })
    }
}
