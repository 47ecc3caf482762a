//! Collections larger than the thresholds the library decides by (128, 255, 256, 1000), over u16 keys. Their
//! contents are concrete; queries are symbolic, over everything or within windows around chosen ranks.
use crate::kinds::*;
use crate::nd;

/// `n` keys in a shuffled order: key of rank j is `j * stride + 5`.
pub fn keys(n: usize, stride: u16) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    let mut j = n / 2;
    let mut i = 0;
    while i < n {
        v.push(j as u16 * stride + 5);
        j += 19;
        while j >= n { j -= n; }
        i += 1;
    }
    v
}
/// The keys with a value made from their rank.
pub fn pairs<V>(k: &[u16], stride: u16, v: impl Fn(u16) -> V) -> Vec<(u16, V)> {
    let mut r = Vec::with_capacity(k.len());
    for x in k { r.push((*x, v((*x - 5) / stride))); }
    r
}
/// Any query, and the rank of the key it equals.
pub fn query(n: usize, stride: u16) -> (u16, Option<u16>) {
    let j = nd::any_u16();
    match nd::pick(4) {
        0 => {
            nd::assume((j as usize) < n);
            (j * stride + 5, Some(j))
        }
        1 => {
            let d = nd::any_u16();
            nd::assume((j as usize) < n && d > 0 && d < stride);
            (j * stride + 5 + d, None)
        }
        2 => (nd::below(5) as u16, None),
        _ => {
            nd::assume(j > (n as u16 - 1) * stride + 5);
            (j, None)
        }
    }
}
/// One of the windows of 64 queries around 8 places, and the rank of the key it equals.
pub fn window(n: usize, stride: u16) -> (u16, Option<u16>) {
    window_n(n, stride, 6)
}
/// Windows of 4.
pub fn narrow(n: usize, stride: u16) -> (u16, Option<u16>) {
    window_n(n, stride, 2)
}
fn window_n(n: usize, stride: u16, b: u32) -> (u16, Option<u16>) {
    let w = nd::bits(b) as u16;
    match nd::pick(8) {
        x if x < 5 => {
            // narrow windows contain the boundaries too
            let b = if b > 2 { [0, 100, 232, n / 2, n - 40][x] } else { [0, 127, 254, n / 2, n - 2][x] };
            let j = b as u16 + w;
            (j * stride + 5, if (j as usize) < n { Some(j) } else { None })
        }
        5 => if stride > 1 { ((n as u16 / 3 + w) * stride + 5 + stride / 2, None) } else { (n as u16 + 5 + w, None) },
        6 => (if w < 5 { w } else { u16::MAX - w }, None),
        _ => (u16::MAX - 256 + w, None),
    }
}

/// `$f!(map, n, stride)`; values made by `$v` from the rank of the key.
#[macro_export]
macro_rules! with_large {
    ($kind:expr, $v:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        use $crate::large::{keys, pairs};
        let v = $v;
        match $kind {
            0 => { let (n, s) = (300, 1); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            1 => { let (n, s) = (300, 3); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            2 => { let (n, s) = (300, 101); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            3 => { let (n, s) = (300, 3); $f!(FzOrderedMap::new(pairs(&keys(n, s), s, v)), n, s) }
            4 => { let (n, s) = (300, 3); $f!(FzHashMap::with_hasher(pairs(&keys(n, s), s, v), ByteHash(0)), n, s) }
            5 => { let (n, s) = (1100, 1); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            6 => { let (n, s) = (1100, 7); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            7 => { let (n, s) = (1100, 50); $f!(FzScalarMap::new(pairs(&keys(n, s), s, v)), n, s) }
            8 => { let (n, s) = (1100, 7); $f!(FzOrderedMap::new(pairs(&keys(n, s), s, v)), n, s) }
            _ => { let (n, s) = (1100, 7); $f!(FzHashMap::with_hasher(pairs(&keys(n, s), s, v), ByteHash(0)), n, s) }
        }
    }};
}
pub const LARGE_KINDS: usize = 10;

#[macro_export]
macro_rules! with_large_set {
    ($kind:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        use $crate::large::keys;
        match $kind {
            0 => { let (n, s) = (300, 1); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            1 => { let (n, s) = (300, 3); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            2 => { let (n, s) = (300, 101); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            3 => { let (n, s) = (300, 3); $f!(FzOrderedSet::new(keys(n, s)), n, s) }
            4 => { let (n, s) = (300, 3); $f!(FzHashSet::with_hasher(keys(n, s), ByteHash(0)), n, s) }
            5 => { let (n, s) = (1100, 1); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            6 => { let (n, s) = (1100, 7); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            7 => { let (n, s) = (1100, 50); $f!(FzScalarSet::new(keys(n, s)), n, s) }
            8 => { let (n, s) = (1100, 7); $f!(FzOrderedSet::new(keys(n, s)), n, s) }
            _ => { let (n, s) = (1100, 7); $f!(FzHashSet::with_hasher(keys(n, s), ByteHash(0)), n, s) }
        }
    }};
}

/// Every key is found, by every read entry point, and so is (or is not) any query.
#[macro_export]
macro_rules! look_large {
    ($m:expr, $n:expr, $s:expr) => { $crate::look_large!($m, $n, $s, $crate::large::window) };
    ($m:expr, $n:expr, $s:expr, $q:path) => {{
        let (mut m, n, s): (_, usize, u16) = ($m, $n, $s);
        ck!(m.len() == n && !m.is_empty());
        let mut j = 0;
        while j < n as u16 {
            let k = j * s + 5;
            ck!(m.get(&k).copied() == Some(j + 1));
            ck!(m.get_key_value(&k).map(|x| (*x.0, *x.1)) == Some((k, j + 1)));
            j += 1;
        }
        let (q, r) = $q(n, s);
        let v = r.map(|j| j + 1);
        cov!(r.is_some());
        cov!(r.is_none());
        ck!(m.get(&q).copied() == v);
        ck!(m.contains_key(&q) == r.is_some());
        ck!(m.get_key_value(&q).map(|x| (*x.0, *x.1)) == v.map(|v| (q, v)));
        ck!(m.get_mut(&q).copied() == v);
    }};
}
#[macro_export]
macro_rules! look_large_set {
    ($m:expr, $n:expr, $s:expr) => { $crate::look_large_set!($m, $n, $s, $crate::large::window) };
    ($m:expr, $n:expr, $s:expr, $q:path) => {{
        let (m, n, s): (_, usize, u16) = ($m, $n, $s);
        ck!(m.len() == n && !m.is_empty());
        let mut j = 0;
        while j < n as u16 {
            let k = j * s + 5;
            ck!(m.contains(&k) && m.get(&k).copied() == Some(k));
            j += 1;
        }
        let (q, r) = $q(n, s);
        ck!(m.contains(&q) == r.is_some());
        ck!(m.get(&q).copied() == r.map(|_| q));
    }};
}

/// The same for u32 keys and more entries than 16 bits count.
pub fn keys32(n: usize, stride: u32) -> Vec<u32> {
    let mut v = Vec::with_capacity(n);
    let mut j = n / 2;
    let mut i = 0;
    while i < n {
        v.push(j as u32 * stride + 5);
        j += 19;
        while j >= n { j -= n; }
        i += 1;
    }
    v
}
pub fn pairs32(k: &[u32]) -> Vec<(u32, u32)> {
    let mut r = Vec::with_capacity(k.len());
    for x in k { r.push((*x, *x ^ 3)); }
    r
}
#[macro_export]
macro_rules! look_huge {
    ($m:expr, $n:expr, $s:expr) => {{
        let (mut m, n, s): (_, usize, u32) = ($m, $n, $s);
        ck!(m.len() == n && !m.is_empty());
        let w = $crate::nd::bits(3) as u32;
        let b = [0u32, 255, 4095, 65_532, n as u32 / 2, n as u32 - 4][$crate::nd::pick(6)];
        let (q, r) = match $crate::nd::pick(3) {
            0 => ((b + w) * s + 5, b + w < n as u32),
            1 => ((b + w) * s + 6, s == 1 && b + w + 1 < n as u32),
            _ => (u32::MAX - w, false),
        };
        let v = if r { Some(q ^ 3) } else { None };
        cov!(r);
        cov!(!r);
        ck!(m.get(&q).copied() == v);
        ck!(m.contains_key(&q) == r);
        ck!(m.get_key_value(&q).map(|x| (*x.0, *x.1)) == v.map(|v| (q, v)));
        ck!(m.get_mut(&q).copied() == v);
    }};
}
