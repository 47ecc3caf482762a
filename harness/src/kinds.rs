//! Every kind of map and set the library has, over small keys, for the properties that quantify over kinds.
//! `with_map!(kind, value_fn, f)` builds one and calls `f(map, keys, query)`: `keys` in the order given at
//! construction (distinct), values `value_fn(position)`, and `query` makes a symbolic value of the key type.
use crate::model::ByteHash;
use crate::nd;
pub use frozen_collections::maps::{DenseScalarLookupMap, EytzingerSearchMap, HashMap as FrozenHashMap, ScanMap, SparseScalarLookupMap};
pub use frozen_collections::*;

pub fn list<K: Copy, V>(k: &[K], v: impl Fn(u8) -> V) -> Vec<(K, V)> {
    let mut r = Vec::with_capacity(k.len());
    for (i, k) in k.iter().enumerate() {
        r.push((*k, v(i as u8)));
    }
    r
}

pub const MAP_KINDS: usize = 19;
/// Kinds implemented by the library itself (the others are standard collections implementing its traits).
pub const OWN_KINDS: usize = 16;

/// Literal copies of keys are needed by the inline kinds; `run` (a function) hides constants from the optimizer.
#[macro_export]
macro_rules! with_map {
    ($kind:expr, $v:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        let any = || $crate::nd::any_u8();
        let v = $v;
        match $kind {
            16 => { let k = [6u8, 1, 9, 7]; let mut m = std::collections::HashMap::with_hasher(ByteHash(0)); for e in list(&k, &v) { m.insert(e.0, e.1); } $f(m, &k, any) }
            17 => { let k = [6u8, 1, 9, 7]; let m: std::collections::BTreeMap<u8, _> = list(&k, &v).into_iter().collect(); $f(m, &k, any) }
            18 => { let k = [6u8, 1, 9, 7]; let mut m = hashbrown::HashMap::with_hasher(ByteHash(0)); for e in list(&k, &v) { m.insert(e.0, e.1); } $f(m, &k, any) }
            x => $crate::with_own_map!(x, v, $f),
        }
    }};
}

#[macro_export]
macro_rules! with_own_map {
    ($kind:expr, $v:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        let any = || $crate::nd::any_u8();
        let v = $v;
        match $kind {
            0 => { let k = [5u8, 3, 4]; $f(FzScalarMap::new(list(&k, &v)), &k, any) }
            1 => { let k = [3u8, 9, 5, 60]; $f(FzScalarMap::new(list(&k, &v)), &k, any) }
            2 => { let k = [200u8, 1]; $f(FzScalarMap::new(list(&k, &v)), &k, any) }
            3 => { let k = [9u8, 1, 5]; $f(FzOrderedMap::new(list(&k, &v)), &k, any) }
            4 => { let k = [9u8, 1, 5, 7, 3, 200]; $f(FzOrderedMap::new(list(&k, &v)), &k, any) }
            5 => { let k = [9u8, 1, 5, 7, 200]; $f(FzHashMap::with_hasher(list(&k, &v), ByteHash(0)), &k, any) }
            6 => { let k = [9u8, 1, 5, 7]; $f(FzHashMap::with_hasher(list(&k, &v), ByteHash(1)), &k, any) }
            7 => { let k = [9u8, 1]; $f(FzHashMap::with_hasher(list(&k, &v), ByteHash(3)), &k, any) }
            8 => { let k = [9u8, 1, 5]; $f(ScanMap::new(list(&k, &v)), &k, any) }
            9 => { let k = [8u8, 6, 7]; $f(fz_scalar_map!({ 8u8: v(0), 6u8: v(1), 7u8: v(2) }), &k, any) }
            10 => { let k = [8u8, 6, 17, 30]; $f(fz_scalar_map!({ 8u8: v(0), 6u8: v(1), 17u8: v(2), 30u8: v(3) }), &k, any) }
            11 => { let k = [250u8, 6]; $f(fz_scalar_map!({ 250u8: v(0), 6u8: v(1) }), &k, any) }
            12 => { let k = [250u8, 6, 17, 30, 80, 99, 100, 201]; $f(fz_scalar_map!({ 250u8: v(0), 6u8: v(1), 17u8: v(2), 30u8: v(3), 80u8: v(4), 99u8: v(5), 100u8: v(6), 201u8: v(7) }), &k, any) }
            13 => { let k = [240u8, 16, 32, 48, 80, 96, 112, 208]; $f(fz_scalar_map!({ 240u8: v(0), 16u8: v(1), 32u8: v(2), 48u8: v(3), 80u8: v(4), 96u8: v(5), 112u8: v(6), 208u8: v(7) }), &k, any) }
            14 => { let k = [9u8, 1, 5, 7, 3]; $f(fz_ordered_map!({ k[0]: v(0), k[1]: v(1), k[2]: v(2), k[3]: v(3), k[4]: v(4) }), &k, any) }
            _ => { let k = [7u8]; $f(FzOrderedMap::new(list(&k, &v)), &k, any) }
        }
    }};
}

/// The string-keyed kinds: `f(map, keys, query)`, keys and queries `&'static str`.
#[macro_export]
macro_rules! with_str_map {
    ($kind:expr, $v:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        let v = $v;
        match $kind {
            0 => { let k = ["ka", "kb", "kc", "kdd"]; $f(FzStringMap::with_hasher(list(&k, &v), ByteHash(0)), &k, query_str) }
            1 => { let k = ["ak", "xbk", "zzck", "k"]; $f(FzStringMap::with_hasher(list(&k, &v), ByteHash(0)), &k, query_str) }
            2 => { let k = ["", "k", "kk", "kkk"]; $f(FzStringMap::with_hasher(list(&k, &v), ByteHash(1)), &k, query_str) }
            3 => { let k = ["ka", "kb", "kc", "kdd"]; $f(fz_string_map!({ "ka": v(0), "kb": v(1), "kc": v(2), "kdd": v(3) }), &k, query_str_lit) }
            4 => { let k = ["", "k", "kk", "kkk"]; $f(fz_string_map!({ "": v(0), "k": v(1), "kk": v(2), "kkk": v(3) }), &k, query_str_lit) }
            5 => { let k = ["ak", "xbk", "zzck", "k"]; $f(fz_string_map!({ "ak": v(0), "xbk": v(1), "zzck": v(2), "k": v(3) }), &k, query_str_lit) }
            _ => { let k = ["ab", "ba"]; $f(fz_string_map!({ "ab": v(0), "ba": v(1) }), &k, query_str_lit) }
        }
    }};
}
pub const STR_KINDS: usize = 7;

/// A query string of up to 4 symbolic ASCII characters.
pub fn query_str() -> &'static str {
    let w = crate::model::word(4);
    Box::leak(w.into_boxed_str())
}
/// One of a list of strings around the keys used above (collections hashing with the default hash function).
pub fn query_str_lit() -> &'static str {
    ["", "k", "kk", "kkk", "ka", "kb", "kc", "kdd", "kd", "a", "ak", "xbk", "zzck", "ck", "ab", "ba", "aa", "kkkk"][nd::pick(18)]
}

pub const SET_KINDS: usize = 16;
pub const OWN_SET_KINDS: usize = 13;

/// Every kind of set over u8: `f(set, values, query)`.
#[macro_export]
macro_rules! with_set {
    ($kind:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        let any = || $crate::nd::any_u8();
        match $kind {
            13 => { let k = [6u8, 1, 9, 7]; let mut m = std::collections::HashSet::with_hasher(ByteHash(0)); for e in k { m.insert(e); } $f(m, &k, any) }
            14 => { let k = [6u8, 1, 9, 7]; let m: std::collections::BTreeSet<u8> = k.into_iter().collect(); $f(m, &k, any) }
            15 => { let k = [6u8, 1, 9, 7]; let mut m = hashbrown::HashSet::with_hasher(ByteHash(0)); for e in k { m.insert(e); } $f(m, &k, any) }
            x => $crate::with_own_set!(x, $f),
        }
    }};
}
#[macro_export]
macro_rules! with_own_set {
    ($kind:expr, $f:ident) => {{
        use $crate::kinds::*;
        use $crate::model::ByteHash;
        let any = || $crate::nd::any_u8();
        match $kind {
            0 => { let k = [5u8, 3, 4]; $f(FzScalarSet::new(k.to_vec()), &k, any) }
            1 => { let k = [3u8, 9, 5, 60]; $f(FzScalarSet::new(k.to_vec()), &k, any) }
            2 => { let k = [200u8, 1]; $f(FzScalarSet::new(k.to_vec()), &k, any) }
            3 => { let k = [9u8, 1, 5]; $f(FzOrderedSet::new(k.to_vec()), &k, any) }
            4 => { let k = [9u8, 1, 5, 7, 3, 200]; $f(FzOrderedSet::new(k.to_vec()), &k, any) }
            5 => { let k = [9u8, 1, 5, 7, 200]; $f(FzHashSet::with_hasher(k.to_vec(), ByteHash(0)), &k, any) }
            6 => { let k = [9u8, 1, 5, 7]; $f(FzHashSet::with_hasher(k.to_vec(), ByteHash(1)), &k, any) }
            7 => { let k = [9u8, 1]; $f(FzHashSet::with_hasher(k.to_vec(), ByteHash(3)), &k, any) }
            8 => { let k = [8u8, 6, 7]; $f(fz_scalar_set!({ 8u8, 6u8, 7u8 }), &k, any) }
            9 => { let k = [8u8, 6, 17, 30]; $f(fz_scalar_set!({ 8u8, 6u8, 17u8, 30u8 }), &k, any) }
            10 => { let k = [250u8, 6, 17, 30, 80, 99, 100, 201]; $f(fz_scalar_set!({ 250u8, 6u8, 17u8, 30u8, 80u8, 99u8, 100u8, 201u8 }), &k, any) }
            11 => { let k = [9u8, 1, 5, 7, 3]; $f(fz_ordered_set!({ k[0], k[1], k[2], k[3], k[4] }), &k, any) }
            _ => { let k = [9u8, 1]; $f(fz_ordered_set!({ k[0], k[1] }), &k, any) }
        }
    }};
}
