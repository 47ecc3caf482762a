//! C14: a query finds the same entry in whatever equivalent form it is given.
use crate::kinds::*;
use crate::{ck, cov, harnesses, model, nd};
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::hash::{BuildHasher, Hash};
use equivalent::{Comparable, Equivalent};
use frozen_collections::hashers::*;
use frozen_collections::*;
use std::borrow::Cow;
use std::rc::Rc;

const SETS: [[&str; 4]; 6] = [
    ["ka", "kb", "kc", "kdd"],
    ["ak", "xbk", "zzck", "k"],
    ["", "k", "kk", "kkk"],
    ["abx", "aby", "acx", "acy"],
    ["x", "yx", "zx", "aaaax"],
    ["m", "n", "o", "p"],
];
fn owned(k: &[&'static str]) -> Vec<(String, u8)> {
    let mut v = Vec::with_capacity(k.len());
    for (i, s) in k.iter().enumerate() {
        v.push((String::from(*s), i as u8));
    }
    v
}
fn bytes(k: &[&'static str]) -> Vec<(Vec<u8>, u8)> {
    let mut v = Vec::with_capacity(k.len());
    for (i, s) in k.iter().enumerate() {
        v.push((s.as_bytes().to_vec(), i as u8));
    }
    v
}
fn expect(k: &[&'static str], q: &str) -> Option<u8> {
    let mut e = None;
    for i in 0..k.len() {
        if k[i] == q {
            e = Some(i as u8);
        }
    }
    e
}
/// A type presenting its text only through AsRef.
struct View<'a>(&'a str);
impl AsRef<str> for View<'_> {
    fn as_ref(&self) -> &str {
        self.0
    }
}

macro_rules! all {
    ($m:expr, $q:expr, $e:expr) => {{
        ck!($m.get($q).copied() == $e);
        ck!($m.contains_key($q) == $e.is_some());
        ck!($m.get_key_value($q).map(|x| *x.1) == $e);
        ck!($m.get_mut($q).copied() == $e);
    }};
}
macro_rules! traits {
    ($m:expr, $Q:ty, $q:expr, $e:expr) => {{
        ck!(MapQuery::<$Q, u8>::get(&$m, $q).copied() == $e);
        ck!(MapQuery::<$Q, u8>::contains_key(&$m, $q) == $e.is_some());
        ck!(MapQuery::<$Q, u8>::get_mut(&mut $m, $q).copied() == $e);
        ck!(MapExtras::<_, u8, $Q>::get_key_value(&$m, $q).map(|x| *x.1) == $e);
    }};
}

fn string_forms(max: usize) {
    let k = SETS[nd::pick(6)];
    let mut m = FzStringMap::with_hasher(owned(&k), model::ByteHash([0, 1][nd::pick(2)]));
    let s = FzStringSet::with_hasher(k.to_vec(), model::ByteHash(0));
    let w = model::word(max);
    let e = expect(&k, &w);
    all!(m, w.as_str(), e);
    all!(m, &w, e);
    all!(m, w.clone(), e);
    all!(m, View(&w), e);
    all!(m, &View(&w), e);
    all!(m, Box::<str>::from(w.as_str()), e);
    all!(m, Rc::<str>::from(w.as_str()), e);
    all!(m, Cow::Borrowed(w.as_str()), e);
    traits!(m, String, &w, e);
    traits!(m, &str, &w.as_str(), e);
    traits!(m, Box<str>, &Box::<str>::from(w.as_str()), e);
    traits!(m, View<'_>, &View(&w), e);
    ck!(s.contains(w.as_str()) == e.is_some() && s.contains(&w) == e.is_some() && s.contains(View(&w)) == e.is_some());
    ck!(s.get(w.clone()).is_some() == e.is_some() && s.get(Cow::Borrowed(w.as_str())).is_some() == e.is_some());
    ck!(SetQuery::<String>::contains(&s, &w) == e.is_some());
    ck!(SetExtras::<Box<str>, View<'_>>::get(&s, &View(&w)).is_some() == e.is_some());
    let got = m.get_disjoint_mut([w.clone()]);
    ck!(got[0].as_deref().copied() == e);
    cov!(e == Some(2));
    cov!(e.is_none());
}
fn hash_forms(max: usize) {
    let k = SETS[nd::pick(6)];
    let h = model::ByteHash([0, 1, 3][nd::pick(3)]);
    let mut m = FzHashMap::with_hasher(owned(&k), h.clone());
    let mut b = FzHashMap::with_hasher(bytes(&k), h.clone());
    let s = FzHashSet::with_hasher(owned(&k).into_iter().map(|x| x.0).collect(), h);
    let w = model::word(max);
    let e = expect(&k, &w);
    all!(m, w.as_str(), e);
    all!(m, &w, e);
    all!(b, w.as_bytes(), e);
    all!(b, &w.as_bytes().to_vec(), e);
    traits!(m, str, w.as_str(), e);
    traits!(m, String, &w, e);
    traits!(b, [u8], w.as_bytes(), e);
    ck!(s.contains(w.as_str()) == e.is_some() && s.contains(&w) == e.is_some());
    ck!(m.get_disjoint_mut([w.as_str()])[0].as_deref().copied() == e);
    cov!(e == Some(2));
}
fn ordered_forms(max: usize) {
    let k = SETS[nd::pick(6)];
    let mut m = FzOrderedMap::new(owned(&k));
    let mut b = FzOrderedMap::new(bytes(&k));
    let s = FzOrderedSet::new(owned(&k).into_iter().map(|x| x.0).collect());
    let w = model::word(max);
    let e = expect(&k, &w);
    all!(m, w.as_str(), e);
    all!(m, &w, e);
    all!(b, w.as_bytes(), e);
    all!(b, &w.as_bytes().to_vec(), e);
    traits!(m, str, w.as_str(), e);
    traits!(m, String, &w, e);
    traits!(b, [u8], w.as_bytes(), e);
    ck!(s.contains(w.as_str()) == e.is_some() && s.contains(&w) == e.is_some());
    ck!(s.get(w.as_str()).is_some() == e.is_some());
    ck!(m.get_disjoint_mut([w.as_str()])[0].as_deref().copied() == e);
    cov!(e == Some(2));
}

/// A query of another type: ten times the key, compared and hashed accordingly.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ten(pub u16);
impl Equivalent<u8> for Ten {
    fn equivalent(&self, k: &u8) -> bool {
        self.0 == *k as u16 * 10
    }
}
impl Comparable<u8> for Ten {
    fn compare(&self, k: &u8) -> Ordering {
        self.0.cmp(&(*k as u16 * 10))
    }
}
impl Hash for Ten {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u8((self.0 / 10) as u8)
    }
}
impl Ord for Ten {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Ten {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
fn other_type() {
    let k = [9u8, 1, 5, 7, 3, 200];
    let n = [2usize, 3, 6][nd::pick(3)];
    let e = |q: u16| {
        let mut r = None;
        for i in 0..n {
            if k[i] as u16 * 10 == q {
                r = Some(i as u8);
            }
        }
        r
    };
    macro_rules! go { ($m:expr) => {{
        let mut m = $m;
        let q = Ten(nd::any_u16());
        all!(m, &q, e(q.0));
        traits!(m, Ten, &q, e(q.0));
        ck!(m.get_disjoint_mut([&q])[0].as_deref().copied() == e(q.0));
        cov!(e(q.0).is_some());
    }}; }
    match nd::pick(6) {
        0 => go!(FzHashMap::with_hasher(list(&k[..n], |i| i), model::ByteHash(0))),
        1 => go!(FzHashMap::with_hasher(list(&k[..n], |i| i), model::ByteHash(1))),
        2 => go!(FzOrderedMap::new(list(&k[..n], |i| i))),
        3 => go!(ScanMap::new(list(&k[..n], |i| i))),
        4 => go!(EytzingerSearchMap::new(list(&k[..n], |i| i))),
        _ => {
            let s = FzOrderedSet::new(k[..n].to_vec());
            let h = FzHashSet::with_hasher(k[..n].to_vec(), model::ByteHash(0));
            let q = Ten(nd::any_u16());
            let x = e(q.0).is_some();
            ck!(s.contains(&q) == x && h.contains(&q) == x);
            ck!(s.get(&q).is_some() == x);
            ck!(SetQuery::<Ten>::contains(&s, &q) == x && SetQuery::<Ten>::contains(&h, &q) == x);
            ck!(SetExtras::<u8, Ten>::get(&h, &q).is_some() == x);
        }
    }
}
/// A scalar query type other than the key type, with the same indexes.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Wide(pub u16);
impl Scalar for Wide {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
impl Equivalent<u8> for Wide {
    fn equivalent(&self, k: &u8) -> bool {
        self.0 == *k as u16
    }
}
impl Comparable<u8> for Wide {
    fn compare(&self, k: &u8) -> Ordering {
        self.0.cmp(&(*k as u16))
    }
}
fn scalar_forms() {
    macro_rules! go { ($k:expr, $m:expr) => {{
        let k = $k;
        let mut m = $m;
        let q = Wide(nd::any_u16());
        let mut e = None;
        for i in 0..k.len() { if k[i] as u16 == q.0 { e = Some(i as u8); } }
        all!(m, &q, e);
        cov!(e.is_some());
        cov!(q.0 > 255);
    }}; }
    macro_rules! set { ($k:expr, $m:expr) => {{
        let k = $k;
        let m = $m;
        let q = Wide(nd::any_u16());
        let mut e = false;
        for i in 0..k.len() { e |= k[i] as u16 == q.0; }
        ck!(m.contains(&q) == e && m.get(&q).is_some() == e);
    }}; }
    let (a, b, c) = ([5u8, 3, 4], [3u8, 9, 5, 60], [255u8, 0]);
    match nd::pick(9) {
        0 => go!(a, FzScalarMap::new(list(&a, |i| i))),
        1 => go!(b, FzScalarMap::new(list(&b, |i| i))),
        2 => go!(c, FzScalarMap::new(list(&c, |i| i))),
        3 => go!(a, fz_scalar_map!({ 5u8: 0u8, 3u8: 1u8, 4u8: 2u8 })),
        4 => go!(b, fz_scalar_map!({ 3u8: 0u8, 9u8: 1u8, 5u8: 2u8, 60u8: 3u8 })),
        5 => set!(a, FzScalarSet::new(a.to_vec())),
        6 => set!(b, FzScalarSet::new(b.to_vec())),
        7 => set!(c, FzScalarSet::new(c.to_vec())),
        _ => set!(b, fz_scalar_set!({ 3u8, 9u8, 5u8, 60u8 })),
    }
}

/// All forms of the same text have the same hash code under every hasher, run-time and inline hashers agree, and
/// none fails on any length.
fn hashers(max: usize) {
    let w = model::word(max);
    let bh = model::ByteHash(0);
    let b = w.as_bytes();
    macro_rules! forms { ($h:expr) => {{
        let h = $h;
        let x = h.hash_one(w.as_str());
        nd::obs(x);
        ck!(x == h.hash_one(&w));
        ck!(x == h.hash_one(&w.as_str()));
        ck!(x == h.hash_one(&Box::<str>::from(w.as_str())));
        ck!(x == h.hash_one(&View(&w)));
        x
    }}; }
    macro_rules! ranges { ($i:expr; $($n:literal => $a:literal $z:literal),*) => { match $i { $($n => {
        let l = forms!(LeftRangeHasher::new(bh.clone(), $a..$z));
        ck!(forms!(InlineLeftRangeHasher::<$a, $z, model::ByteHash>::new(bh.clone())) == l);
        let r = forms!(RightRangeHasher::new(bh.clone(), $a..$z));
        ck!(forms!(InlineRightRangeHasher::<$a, $z, model::ByteHash>::new(bh.clone())) == r);
        let l = LeftRangeHasher::new(bh.clone(), $a..$z).hash_one(b);
        ck!(InlineLeftRangeHasher::<$a, $z, model::ByteHash>::new(bh.clone()).hash_one(b) == l);
        let r = RightRangeHasher::new(bh.clone(), $a..$z).hash_one(b);
        ck!(InlineRightRangeHasher::<$a, $z, model::ByteHash>::new(bh.clone()).hash_one(b) == r);
    })* _ => {} } }; }
    ranges!(nd::pick(7); 0 => 0 0, 1 => 0 1, 2 => 0 3, 3 => 1 2, 4 => 2 4, 5 => 3 5, 6 => 1 4);
    let h = BridgeHasher::new(bh.clone());
    ck!(h.hash_one(w.as_str()) == h.hash_one(&w) && h.hash_one(&w.as_str()) == h.hash_one(&Box::<str>::from(w.as_str())));
    ck!(LengthHasher.hash_one(w.as_str()) == LengthHasher.hash_one(&w) && LengthHasher.hash_one(&w.as_str()) == LengthHasher.hash_one(&w));
    cov!(w.len() == max);
}
/// Macro-written string collections queried as text, reference and owned reference.
fn macro_forms() {
    macro_rules! go { ($k:expr, $m:expr, $s:expr) => {{
        let (k, mut m, s) = ($k, $m, $s);
        let q = query_str_lit();
        let e = expect(&k, q);
        let t = String::from(q);
        all!(m, q, e);
        all!(m, t.as_str(), e);
        all!(m, &q, e);
        traits!(m, str, t.as_str(), e);
        traits!(m, &'static str, &q, e);
        ck!(s.contains(q) == e.is_some() && s.contains(&q) == e.is_some() && s.get(t.as_str()).is_some() == e.is_some());
        ck!(SetQuery::<str>::contains(&s, &t) == e.is_some());
        cov!(e.is_some());
        cov!(e.is_none());
    }}; }
    match nd::pick(4) {
        0 => go!(["ka", "kb", "kc", "kdd"], fz_string_map!({ "ka": 0u8, "kb": 1u8, "kc": 2u8, "kdd": 3u8 }), fz_string_set!({ "ka", "kb", "kc", "kdd" })),
        1 => go!(["", "k", "kk", "kkk"], fz_string_map!({ "": 0u8, "k": 1u8, "kk": 2u8, "kkk": 3u8 }), fz_string_set!({ "", "k", "kk", "kkk" })),
        2 => go!(["ak", "xbk", "zzck", "k"], fz_string_map!({ "ak": 0u8, "xbk": 1u8, "zzck": 2u8, "k": 3u8 }), fz_string_set!({ "ak", "xbk", "zzck", "k" })),
        _ => go!(["ab", "ba"], fz_string_map!({ "ab": 0u8, "ba": 1u8 }), fz_string_set!({ "ab", "ba" })),
    }
}

harnesses! {
    fn h_c14_q_string_forms("string maps and sets over six key lists, any query of up to 6 ASCII characters in eight forms") { string_forms(6) }
    fn h_c14_t_string_forms("string maps and sets over six key lists, any query of up to 20 ASCII characters in eight forms") { string_forms(20) }
    fn h_c14_q_hash_forms("hash maps and sets of strings and byte vectors under three hash functions, any query of up to 5 ASCII characters as str, String, slice, Vec") { hash_forms(5) }
    fn h_c14_t_hash_forms("the same, queries of up to 16 characters") { hash_forms(16) }
    fn h_c14_q_ordered_forms("ordered maps and sets of strings and byte vectors, any query of up to 5 ASCII characters as str, String, slice, Vec") { ordered_forms(5) }
    fn h_c14_t_ordered_forms("the same, queries of up to 16 characters") { ordered_forms(16) }
    fn h_c14_q_other_type("hash, ordered, scan and search collections of 2, 3 and 6 keys queried with any value of another, wider type") { other_type() }
    fn h_c14_q_scalar_forms("scalar maps and sets queried with any value of a wider scalar type") { scalar_forms() }
    fn h_c14_q_hashers("run-time and inline range hashers over seven ranges, bridge and length hashers: all forms of any text of up to 6 ASCII characters agree") { hashers(6) }
    fn h_c14_q_macro_forms("macro-written string maps and sets, 18 queries in three forms") { macro_forms() }
}
