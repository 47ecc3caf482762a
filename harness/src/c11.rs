//! C11: equality, indexing, clones and debug output agree with the contents.
use crate::kinds::*;
use crate::{with_large, with_large_set, ck, cov, harnesses, model, nd, with_map, with_own_map, with_own_set, with_str_map};
use core::fmt::Debug;
use core::hash::Hash;
use core::ops::Index;
use frozen_collections::*;
use std::collections::{BTreeMap, BTreeSet};

/// A key whose hash code says nothing.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct E(pub u8);
impl Hash for E {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {}
}
impl Scalar for E {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
type L = ([u8; 4], [u8; 4], usize);

fn es(l: &L) -> Vec<(E, u8)> {
    let mut v = Vec::with_capacity(l.2);
    for i in 0..l.2 {
        v.push((E(l.0[i]), l.1[i]));
    }
    v
}
fn ks(l: &L) -> Vec<E> {
    let mut v = Vec::with_capacity(l.2);
    for i in 0..l.2 {
        v.push(E(l.0[i]));
    }
    v
}
/// Position of the last entry with the key.
fn pos(l: &L, k: u8) -> Option<usize> {
    model::last(&l.0[..l.2], &k).map(|x| x as usize)
}
fn within(a: &L, b: &L, values: bool) -> bool {
    let mut r = true;
    for i in 0..a.2 {
        let v = a.1[pos(a, a.0[i]).unwrap()];
        r &= match pos(b, a.0[i]) {
            Some(j) => !values || b.1[j] == v,
            None => false,
        };
    }
    r
}
fn same(a: &L, b: &L, values: bool) -> bool {
    within(a, b, values) && within(b, a, values)
}

macro_rules! mk {
    (0, $l:expr) => { FzOrderedMap::new(es($l)) };
    (1, $l:expr) => { FzHashMap::with_hasher(es($l), model::ByteHash(0)) };
    (2, $l:expr) => { FzScalarMap::new(es($l)) };
    (3, $l:expr) => {{ let mut m = hashbrown::HashMap::with_hasher(model::ByteHash(0)); for x in es($l) { m.insert(x.0, x.1); } m }};
    (4, $l:expr) => {{ let mut m = std::collections::HashMap::with_hasher(model::ByteHash(0)); for x in es($l) { m.insert(x.0, x.1); } m }};
    (5, $l:expr) => {{ let mut m = BTreeMap::new(); for x in es($l) { m.insert(x.0, x.1); } m }};
    (6, $l:expr) => { EytzingerSearchMap::new(es($l)) };
    (7, $l:expr) => { ScanMap::new(es($l)) };
    (8, $l:expr) => { FzHashMap::with_hasher(es($l), model::ByteHash(1)) };
}
macro_rules! mks {
    (0, $l:expr) => { FzOrderedSet::new(ks($l)) };
    (1, $l:expr) => { FzHashSet::with_hasher(ks($l), model::ByteHash(0)) };
    (2, $l:expr) => { FzScalarSet::new(ks($l)) };
    (3, $l:expr) => {{ let mut m = hashbrown::HashSet::with_hasher(model::ByteHash(0)); for x in ks($l) { m.insert(x); } m }};
    (4, $l:expr) => {{ let mut m = std::collections::HashSet::with_hasher(model::ByteHash(0)); for x in ks($l) { m.insert(x); } m }};
    (5, $l:expr) => {{ let mut m = BTreeSet::new(); for x in ks($l) { m.insert(x); } m }};
}
macro_rules! own {
    ($k:expr, $a:expr, $b:expr; $($n:literal => $x:tt $y:tt),*) => { match $k { $($n => {
        let (m, n) = (mk!($x, $a), mk!($y, $b));
        let e = same($a, $b, true);
        ck!((m == n) == e && (n == m) == e && (m != n) != e);
        ck!(m == m && m.clone() == m && (m.clone() == n) == e);
    })* _ => {} } };
}
macro_rules! foreign {
    ($k:expr, $a:expr, $b:expr; $($n:literal => $x:tt $y:tt),*) => { match $k { $($n => {
        let (m, n) = (mk!($x, $a), mk!($y, $b));
        let e = same($a, $b, true);
        ck!((m == n) == e && (m != n) != e);
    })* _ => {} } };
}
macro_rules! own_set {
    ($k:expr, $a:expr, $b:expr; $($n:literal => $x:tt $y:tt),*) => { match $k { $($n => {
        let (m, n) = (mks!($x, $a), mks!($y, $b));
        let e = same($a, $b, false);
        ck!((m == n) == e && (n == m) == e && (m != n) != e);
        ck!(m == m && m.clone() == m && (m.clone() == n) == e);
    })* _ => {} } };
}
macro_rules! foreign_set {
    ($k:expr, $a:expr, $b:expr; $($n:literal => $x:tt $y:tt),*) => { match $k { $($n => {
        let (m, n) = (mks!($x, $a), mks!($y, $b));
        let e = same($a, $b, false);
        ck!((m == n) == e && (m != n) != e);
    })* _ => {} } };
}

fn list(n: usize, keys: u8) -> L {
    let mut r = ([0; 4], [0; 4], n);
    for i in 0..n {
        r.0[i] = nd::any_u8();
        if keys != 0 {
            nd::assume(r.0[i] < keys);
        }
        r.1[i] = nd::any_u8();
    }
    r
}
const SIZES: [(usize, usize); 7] = [(0, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (1, 0)];
const MORE: [(usize, usize); 2] = [(3, 1), (1, 3)];
const MOST: [(usize, usize); 3] = [(3, 2), (2, 3), (3, 3)];

fn maps(sizes: &[(usize, usize)]) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(9);
    let (a, b) = (&list(n, 0), &list(m, 0));
    own!(k, a, b; 0 => 0 0, 1 => 0 1, 2 => 1 1, 3 => 1 8, 4 => 8 0);
    foreign!(k, a, b; 5 => 0 3, 6 => 1 4, 7 => 0 5, 8 => 1 5);
    cov!(same(a, b, true));
    cov!(same(a, b, false) && !same(a, b, true));
    cov!(!same(a, b, false));
}
fn scalar_maps(sizes: &[(usize, usize)], keys: u8) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(5);
    let (a, b) = (&list(n, keys), &list(m, keys));
    own!(k, a, b; 0 => 2 0, 1 => 2 1, 2 => 2 2);
    foreign!(k, a, b; 3 => 2 5, 4 => 2 3);
    cov!(same(a, b, true));
}
fn sets(sizes: &[(usize, usize)]) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(7);
    let (a, b) = (&list(n, 0), &list(m, 0));
    own_set!(k, a, b; 0 => 0 0, 1 => 0 1, 2 => 1 1);
    foreign_set!(k, a, b; 3 => 0 3, 4 => 1 4, 5 => 0 5, 6 => 1 5);
    cov!(same(a, b, false));
}
fn scalar_sets(sizes: &[(usize, usize)], keys: u8) {
    let (n, m) = sizes[nd::pick(sizes.len())];
    let k = nd::pick(5);
    let (a, b) = (&list(n, keys), &list(m, keys));
    own_set!(k, a, b; 0 => 2 0, 1 => 2 1, 2 => 2 2);
    foreign_set!(k, a, b; 3 => 2 5, 4 => 2 3);
    cov!(same(a, b, false));
}

/// Every kind of map against an ordered map with the same contents but for at most one entry.
fn near_map<M>(m: M, k: &[u8], _: impl Fn() -> u8)
where
    M: PartialEq<BTreeMap<u8, u8>> + PartialEq + Clone,
{
    let n = k.len();
    let mut o = BTreeMap::new();
    let i = nd::pick(n);
    let how = nd::pick(5);
    for j in 0..n {
        if j == i && how == 1 {
            continue; // one entry missing
        }
        o.insert(if j == i && how == 2 { 77 } else { k[j] }, j as u8); // or under another key
    }
    if how == 3 {
        o.insert(78, 0); // one entry more
    }
    let mut e = how == 0 || how == 4;
    if how == 4 {
        let d = nd::any_u8(); // or another value
        o.insert(k[i], d);
        e = d == i as u8;
    }
    ck!((m == o) == e && (m != o) != e);
    let c = m.clone();
    ck!(c == m && m == c && (c == o) == e);
    cov!(e && how == 4);
}
fn near_set<M>(m: M, k: &[u8], _: impl Fn() -> u8)
where
    M: PartialEq<BTreeSet<u8>> + PartialEq + Clone,
{
    let n = k.len();
    let mut o = BTreeSet::new();
    let i = nd::pick(n);
    let how = nd::pick(4);
    for j in 0..n {
        if j == i && how == 1 {
            continue;
        }
        o.insert(if j == i && how == 2 { 77 } else { k[j] });
    }
    if how == 3 {
        o.insert(78);
    }
    let e = how == 0;
    ck!((m == o) == e && (m != o) != e);
    let c = m.clone();
    ck!(c == m && m == c && (c == o) == e);
}
/// Indexing returns what a lookup finds and panics exactly when there is nothing to find.
fn index<M>(m: M, k: &[u8], q: impl Fn() -> u8)
where
    M: for<'a> Index<&'a u8, Output = u8>,
{
    let q = q();
    let e = model::last(k, &q);
    if e.is_none() {
        nd::panic_ok(true);
    }
    let v = m[&q];
    ck!(e == Some(v));
    nd::panic_ok(false);
    cov!(v == 1);
}
fn index_str<M>(m: M, k: &[&'static str], q: fn() -> &'static str)
where
    M: for<'a> Index<&'a &'static str, Output = u8>,
{
    let q = q();
    let mut e = None;
    for i in 0..k.len() {
        if k[i] == q {
            e = Some(i as u8);
        }
    }
    if e.is_none() {
        nd::panic_ok(true);
    }
    let v = m[&q];
    ck!(e == Some(v));
    nd::panic_ok(false);
    cov!(v == 1);
}

// ---- debug output: what is rendered, recorded instead of written

static mut LOG: [(u8, u8); 32] = [(0, 0); 32];
static mut LOGGED: usize = 0;
fn log(what: u8, v: u8) {
    unsafe {
        ck!(LOGGED < 32);
        LOG[LOGGED] = (what, v);
        LOGGED += 1;
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DV(pub u8);
impl Debug for DV {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        log(1, self.0);
        f.write_str("v")
    }
}
/// What comes out: every entry once, `{key: v, key: v}`.
fn render<M: Debug>(m: M, k: &[u8], _: impl Fn() -> u8) {
    unsafe { LOGGED = 0 };
    let s = format!("{m:?}");
    let n = k.len();
    unsafe { ck!(LOGGED == n) };
    // keys in the text pair with the values logged
    let b = s.as_bytes();
    ck!(b[0] == b'{' && b[b.len() - 1] == b'}');
    let mut p = 1;
    for j in 0..n {
        let mut key = 0usize;
        let start = p;
        while b[p].is_ascii_digit() {
            key = key * 10 + (b[p] - b'0') as usize;
            p += 1;
        }
        ck!(p > start && &b[p..p + 3] == b": v");
        p += 3;
        if j + 1 < n {
            ck!(&b[p..p + 2] == b", ");
            p += 2;
        }
        let e = model::last(k, &(key as u8)).map(|x| x + 100);
        ck!(e == Some(unsafe { LOG[j].1 }));
        for i in 0..j {
            ck!(unsafe { LOG[i].1 != LOG[j].1 });
        }
    }
    ck!(p == b.len() - 1);
}
fn render_set<M: Debug>(m: M, k: &[u8], _: impl Fn() -> u8) {
    let s = format!("{m:?}");
    let b = s.as_bytes();
    ck!(b[0] == b'{' && b[b.len() - 1] == b'}');
    let mut p = 1;
    let mut seen = 0u64;
    for j in 0..k.len() {
        let mut key = 0usize;
        let start = p;
        while b[p].is_ascii_digit() {
            key = key * 10 + (b[p] - b'0') as usize;
            p += 1;
        }
        ck!(p > start);
        if j + 1 < k.len() {
            ck!(&b[p..p + 2] == b", ");
            p += 2;
        }
        let e = model::last(k, &(key as u8));
        ck!(e.is_some());
        seen |= 1 << e.unwrap();
    }
    ck!(p == b.len() - 1);
    ck!(seen == (1 << k.len()) - 1);
}

/// A clone answers like the original, for every query.
fn cloned<M: MapQuery<u8, u8> + Clone>(m: M, k: &[u8], q: impl Fn() -> u8) {
    let c = m.clone();
    ck!(Len::len(&c) == k.len());
    let q = q();
    let e = model::last(k, &q);
    ck!(MapQuery::get(&c, &q).copied() == e);
    ck!(MapQuery::get(&m, &q).copied() == e);
    drop(m);
    ck!(MapQuery::get(&c, &q).copied() == e);
}

fn strings() {
    let k = nd::pick(4);
    let i = nd::pick(4);
    let how = nd::pick(4);
    let d = nd::any_u8();
    macro_rules! go { ($m:expr, $k:expr, $K:ty) => {{
        let (m, k) = ($m, $k);
        let mut o: BTreeMap<$K, u8> = BTreeMap::new();
        for j in 0..4 {
            if j == i && how == 1 { continue; }
            o.insert(if j == i && how == 2 { "zz".into() } else { k[j].into() }, if j == i && how == 3 { d } else { j as u8 });
        }
        let e = how == 0 || how == 3 && d == i as u8;
        ck!((m == o) == e && (m.clone() == o) == e && m == m.clone());
    }}; }
    match k {
        0 => { let k = ["ka", "kb", "kc", "kdd"]; go!(FzStringMap::with_hasher(kinds_list(&k), model::ByteHash(0)), k, Box<str>) }
        1 => { let k = ["ak", "xbk", "zzck", "k"]; go!(FzStringMap::with_hasher(kinds_list(&k), model::ByteHash(0)), k, Box<str>) }
        2 => { let k = ["", "k", "kk", "kkk"]; go!(FzStringMap::with_hasher(kinds_list(&k), model::ByteHash(1)), k, Box<str>) }
        _ => { let k = ["ka", "kb", "kc", "kdd"]; go!(fz_string_map!({ "ka": 0u8, "kb": 1u8, "kc": 2u8, "kdd": 3u8 }), k, &'static str) }
    }
}
fn kinds_list(k: &[&'static str; 4]) -> Vec<(&'static str, u8)> {
    crate::kinds::list(k, |i| i)
}
fn string_sets() {
    let k = nd::pick(3);
    let i = nd::pick(4);
    let how = nd::pick(4);
    macro_rules! go { ($m:expr, $k:expr, $K:ty) => {{
        let (m, k) = ($m, $k);
        let mut o: BTreeSet<$K> = BTreeSet::new();
        for j in 0..4 {
            if j == i && how == 1 { continue; }
            o.insert(if j == i && how == 2 { "zz".into() } else { k[j].into() });
        }
        if how == 3 { o.insert("zz".into()); }
        ck!((m == o) == (how == 0) && (m.clone() == o) == (how == 0) && m == m.clone());
    }}; }
    match k {
        0 => { let k = ["ka", "kb", "kc", "kdd"]; go!(FzStringSet::with_hasher(k.to_vec(), model::ByteHash(0)), k, Box<str>) }
        1 => { let k = ["", "k", "kk", "kkk"]; go!(FzStringSet::with_hasher(k.to_vec(), model::ByteHash(0)), k, Box<str>) }
        _ => { let k = ["ka", "kb", "kc", "kdd"]; go!(fz_string_set!({ "ka", "kb", "kc", "kdd" }), k, &'static str) }
    }
}

/// A large map against a copy with at most one difference.
macro_rules! eq_large { ($m:expr, $n:expr, $s:expr) => {{
    let (m, n, s): (_, usize, u16) = ($m, $n, $s);
    let mut c = m.clone();
    let mut o = BTreeMap::new();
    for (k, v) in m.iter() { o.insert(*k, *v); }
    ck!(m == c && c == m && m == o && o.len() == n);
    let j = [0usize, 127, 254, 255, 256, n / 2, n - 1][nd::pick(7)] as u16;
    let how = nd::pick(4);
    let k = j * s + 5;
    ck!(m[&k] == j + 1);
    let e = match how {
        0 => { let x = nd::any_u16(); *c.get_mut(&k).unwrap() = x; o.insert(k, x); cov!(x == j + 1); x == j + 1 }
        1 => { let v = o.remove(&k).unwrap(); o.insert(4, v); false }
        2 => { o.remove(&k); false }
        _ => { o.insert(60_000, 1); false }
    };
    if how == 0 { ck!((m == c) == e && (c == m) == e && (m != c) != e && c == o); }
    ck!((m == o) == e && (m != o) != e);
}}; }
macro_rules! eq_large_set { ($m:expr, $n:expr, $s:expr) => {{
    let (m, n, s): (_, usize, u16) = ($m, $n, $s);
    let c = m.clone();
    let mut o = BTreeSet::new();
    for k in m.iter() { o.insert(*k); }
    ck!(m == c && c == m && m == o && o.len() == n);
    let k = [0usize, 127, 254, 255, 256, n / 2, n - 1][nd::pick(7)] as u16 * s + 5;
    let how = nd::pick(4);
    match how { 0 => {} 1 => { o.remove(&k); o.insert(4); } 2 => { o.remove(&k); } _ => { o.insert(60_000); } }
    ck!((m == o) == (how == 0) && (m != o) == (how != 0) && (c == o) == (how == 0));
}}; }

harnesses! {
    fn h_c11_q_large("maps of 300 and 1100 u16 keys, ten kinds, against themselves with one value (any), one key or one entry changed at 7 places") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j + 1, eq_large) }
    fn h_c11_q_large_set("sets of 300 and 1100 u16 values, ten kinds, against themselves with one value changed, missing or added") { with_large_set!(nd::pick(crate::large::LARGE_KINDS), eq_large_set) }
    fn h_c11_q_maps("9 pairs of map kinds from any lists of up to 2 entries each, any values: equality both ways, reflexive, clones") { maps(&SIZES) }
    fn h_c11_q_maps3("9 pairs of map kinds from any lists of 3 and 1 entries") { maps(&MORE) }
    fn h_c11_t_maps33("9 pairs of map kinds from any lists of 3 and 2 or 3 entries") { maps(&MOST) }
    fn h_c11_q_scalar_maps("5 pairs involving a scalar map from any lists of up to 2 entries with keys below 4, any values") { scalar_maps(&SIZES, 4) }
    fn h_c11_t_scalar_maps8("5 pairs involving a scalar map from any lists of up to 2 entries with keys below 8, any values") { scalar_maps(&SIZES, 8) }
    fn h_c11_t_scalar_maps3("5 pairs involving a scalar map from any lists of 3 and 1 entries with keys below 4, any values") { scalar_maps(&MORE, 4) }
    fn h_c11_q_sets("7 pairs of set kinds from any lists of up to 2 values each") { sets(&SIZES) }
    fn h_c11_q_sets3("7 pairs of set kinds from any lists of 3 and 1 values") { sets(&MORE) }
    fn h_c11_t_sets33("7 pairs of set kinds from any lists of 3 and 2 or 3 values") { sets(&MOST) }
    fn h_c11_q_scalar_sets("5 pairs involving a scalar set from any lists of up to 2 values below 4") { scalar_sets(&SIZES, 4) }
    fn h_c11_t_scalar_sets8("5 pairs involving a scalar set from any lists of up to 2 values below 8") { scalar_sets(&SIZES, 8) }
    fn h_c11_q_near("16 map kinds against an ordered map with one entry changed, missing, renamed or added, any value") { let k = nd::pick(OWN_KINDS); with_own_map!(k, |i: u8| i, near_map) }
    fn h_c11_q_near_set("13 set kinds against an ordered set with one value missing, changed or added") { let k = nd::pick(OWN_SET_KINDS); with_own_set!(k, near_set) }
    fn h_c11_q_strings("4 string map kinds against an ordered map with one entry changed, missing or renamed, any value") { strings() }
    fn h_c11_q_string_sets("3 string set kinds against an ordered set with one value changed, missing or added") { string_sets() }
    fn h_c11_q_index("16 map kinds indexed with any key: the value found, or a panic exactly when absent") { let k = nd::pick(OWN_KINDS); with_own_map!(k, |i: u8| i, index) }
    fn h_c11_q_index_str("7 string map kinds indexed with any key") { let k = nd::pick(STR_KINDS); with_str_map!(k, |i: u8| i, index_str) }
    fn h_c11_q_clone("16 map kinds: a clone answers any query like the original, also after that is dropped") { let k = nd::pick(OWN_KINDS); with_own_map!(k, |i: u8| i, cloned) }
    fn h_c11_q_debug("16 map kinds: debug output has every entry once, keys with their values") { let k = nd::pick(OWN_KINDS); with_own_map!(k, |i: u8| DV(i + 100), render) }
    fn h_c11_q_debug_set("13 set kinds: debug output has every value once") { let k = nd::pick(OWN_SET_KINDS); with_own_set!(k, render_set) }
}
