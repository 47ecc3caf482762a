//! C15: the individual representations, built directly, are right or refuse.
use crate::kinds::*;
use crate::{ck, ck_map, cov, harnesses, model, nd};
use frozen_collections::hashers::*;
use frozen_collections::*;

fn keys<const N: usize>(max: u8) -> [u8; N] {
    let mut k = [0; N];
    for i in 0..N {
        k[i] = nd::any_u8();
        if max != 0 {
            nd::assume(k[i] < max);
        }
    }
    k
}
/// Contiguous: as many distinct keys as the span holds.
fn contiguous(k: &[u8]) -> bool {
    let (mut lo, mut hi) = (255, 0);
    for x in k {
        if *x < lo { lo = *x }
        if *x > hi { hi = *x }
    }
    k.is_empty() || model::distinct(k) == (hi - lo) as usize + 1
}
fn dense<const N: usize>(max: u8) {
    let k = keys::<N>(max);
    let c = contiguous(&k);
    match DenseScalarLookupMap::new(model::entries(&k)) {
        Ok(mut m) => {
            ck!(c);
            ck!(m.len() == model::distinct(&k) && m.is_empty() == (N == 0));
            let q = nd::any_u8();
            ck_map!(m, &q, model::last(&k, &q));
            let e = model::last(&k, &q);
            let d = m.len();
            model::ck_map_traits::<u8, u8, _>(&mut m, &q, e, d);
        }
        Err(e) => {
            ck!(!c);
            ck!(!e.is_empty());
        }
    }
    cov!(c);
}
fn sparse<const N: usize>(max: u8) {
    let k = keys::<N>(max);
    let mut m = SparseScalarLookupMap::new(model::entries(&k));
    let q = nd::any_u8();
    let e = model::last(&k, &q);
    ck_map!(m, &q, e);
    let d = model::distinct(&k);
    model::ck_map_traits::<u8, u8, _>(&mut m, &q, e, d);
}
/// Wider key types: 2 keys anywhere, in any distance from each other.
macro_rules! dense_wide { ($t:ty, $any:expr) => {{
    let k: [$t; 2] = [$any as $t, $any as $t];
    let d = if k[0] < k[1] { k[1].wrapping_sub(k[0]) } else { k[0].wrapping_sub(k[1]) };
    match DenseScalarLookupMap::new(model::entries(&k)) {
        Ok(mut m) => {
            ck!(d == 0 || d == 1);
            cov!(d == 1);
            let q = $any as $t;
            let e = model::last(&k, &q);
            ck_map!(m, &q, e);
            model::ck_map_traits::<$t, $t, _>(&mut m, &q, e, model::distinct(&k));
        }
        Err(_) => { ck!(d != 0 && d != 1); cov!(true); }
    }
}}; }
/// 2 keys less than 5 apart anywhere in wider types.
macro_rules! sparse_wide { ($t:ty, $any:expr) => {{
    let b = $any as $t;
    let d = nd::below(5) as $t;
    nd::assume(b.checked_add(d).is_some());
    let k: [$t; 2] = if nd::pick(2) == 0 { [b, b + d] } else { [b + d, b] };
    let mut m = SparseScalarLookupMap::new(model::entries(&k));
    let q = $any as $t;
    let e = model::last(&k, &q);
    ck_map!(m, &q, e);
    model::ck_map_traits::<$t, $t, _>(&mut m, &q, e, model::distinct(&k));
    cov!(e.is_some());
}}; }
fn scan<const N: usize>() {
    let k = keys::<N>(0);
    let mut m = ScanMap::new(model::entries(&k));
    let q = nd::any_u8();
    let e = model::last(&k, &q);
    ck_map!(m, &q, e);
    let d = model::distinct(&k);
    model::ck_map_traits::<u8, u8, _>(&mut m, &q, e, d);
}
fn search<const N: usize>() {
    let k = keys::<N>(0);
    let mut m = EytzingerSearchMap::new(model::entries(&k));
    let q = nd::any_u8();
    let e = model::last(&k, &q);
    ck_map!(m, &q, e);
    let d = model::distinct(&k);
    model::ck_map_traits::<u8, u8, _>(&mut m, &q, e, d);
}
fn hash<const N: usize>(max: u8) {
    let k = keys::<N>(max);
    let mut m = FrozenHashMap::<u8, u8, SmallCollection, _>::with_hasher(model::entries(&k), BridgeHasher::new(model::ByteHash([0, 1, 3][nd::pick(3)]))).unwrap();
    let q = nd::any_u8();
    let e = model::last(&k, &q);
    ck_map!(m, &q, e);
    let d = model::distinct(&k);
    model::ck_map_traits::<u8, u8, _>(&mut m, &q, e, d);
}
/// n entries over d distinct keys (d <= n <= 2d), values the position of the entry.
fn many(n: u32, d: u32) -> Vec<(u32, u32)> {
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n {
        v.push((if i < d { i } else { i - d }, i));
    }
    v
}
fn last(n: u32, d: u32, q: u32) -> Option<u32> {
    if q >= d {
        None
    } else if q < n - d {
        Some(q + d)
    } else {
        Some(q)
    }
}
/// Around the limit of a magnitude: accepted and right up to it, refused beyond it.
fn limit<CM: CollectionMagnitude>(n: u32, d: u32, max: u32, h: u8) {
    macro_rules! go { ($h:expr) => {
        match FrozenHashMap::<u32, u32, CM, _>::with_hasher(many(n, d), $h) {
            Ok(mut m) => {
                ck!(d <= max);
                ck!(m.len() == d as usize);
                let q = if max == 65535 && d > 1000 { [0, 1, 255, 256, 257, 32767, 32768, 65279, 65280, 65533, 65534, 65535, 65536, 70000][nd::pick(14)] } else if n != d { [0, 1, 100, 144, 145, 146, 253, 254, 255, 300][nd::pick(10)] } else { nd::any_u16() as u32 };
                let e = last(n, d, q);
                ck!(m.get(&q).copied() == e);
                ck!(m.get_mut(&q).copied() == e);
                ck!(m.contains_key(&q) == e.is_some());
                cov!(e.is_some());
            }
            Err(e) => ck!(d > max && !e.is_empty()),
        }
    }; }
    if h == 9 { go!(ScalarHasher) } else { go!(BridgeHasher::new(model::ByteHash(h))) }
}
fn iterates() {
    // every entry of a map at the limit is reachable by iteration too
    let n = [254u32, 255][nd::pick(2)];
    let m = FrozenHashMap::<u32, u32, SmallCollection, _>::with_hasher(many(n, n), BridgeHasher::new(model::ByteHash(0))).unwrap();
    let q = nd::any_u32();
    let mut c = 0;
    for (k, v) in m.iter() {
        ck!(*k == *v);
        if *k == q { c += 1; }
    }
    ck!(c == last(n, n, q).is_some() as u32);
    ck!(m.iter().len() == n as usize);
}
fn length_hashed() {
    // maps hashed by length or by a part of the key alone: equality still decides
    let k = ["a", "b", "cc", "dd", "eee", ""];
    let mut l = Vec::new();
    for (i, x) in k.iter().enumerate() {
        l.push((*x, i as u8));
    }
    macro_rules! go { ($h:expr) => {{
        let m = FrozenHashMap::<&str, u8, SmallCollection, _>::with_hasher(l, $h).unwrap();
        let w = model::word(4);
        let mut e = None;
        for i in 0..k.len() { if k[i] == w.as_str() { e = Some(i as u8); } }
        ck!(m.get(w.as_str()).copied() == e);
        ck!(m.contains_key(w.as_str()) == e.is_some());
        ck!(m.get_key_value(w.as_str()).map(|x| *x.1) == e);
        ck!(m.len() == 6);
        cov!(e.is_some());
    }}; }
    let bh = model::ByteHash(0);
    match nd::pick(6) {
        0 => go!(LengthHasher),
        1 => go!(LeftRangeHasher::new(bh, 0..1)),
        2 => go!(RightRangeHasher::new(bh, 0..2)),
        3 => go!(LeftRangeHasher::new(bh, 1..3)),
        4 => go!(RightRangeHasher::new(bh, 1..2)),
        _ => go!(InlineLeftRangeHasher::<0, 2, model::ByteHash>::new(bh)),
    }
}
fn repeated_lengths() {
    // the same keys given twice under a hasher that sees only the length
    let k = ["a", "b", "cc", "a", "dd", "cc", ""];
    let mut l = Vec::new();
    for (i, x) in k.iter().enumerate() {
        l.push((*x, i as u8));
    }
    let m = FrozenHashMap::<&str, u8, SmallCollection, _>::with_hasher(l, LengthHasher).unwrap();
    ck!(m.len() == 5);
    let w = model::word(3);
    let mut e = None;
    for i in 0..k.len() { if k[i] == w.as_str() { e = Some(i as u8); } }
    ck!(m.get(w.as_str()).copied() == e);
    cov!(e == Some(3));
}

harnesses! {
    fn h_c15_q_dense("dense maps from any lists of 0 to 2 keys of the whole type, any query: built exactly when contiguous") {
        match nd::pick(3) { 0 => dense::<0>(0), 1 => dense::<1>(0), _ => dense::<2>(0) }
    }
    fn h_c15_q_dense3("dense maps from any 3 keys below 12, any query") { dense::<3>(12) }
    fn h_c15_t_dense3("dense maps from any 3 keys of the whole type, any query") { dense::<3>(0) }
    fn h_c15_t_dense4("dense maps from any 4 keys below 8, any query") { dense::<4>(8) }
    fn h_c15_q_sparse("sparse maps from any lists of 0 to 2 keys below 24, any query") {
        match nd::pick(3) { 0 => sparse::<0>(0), 1 => sparse::<1>(0), _ => sparse::<2>(24) }
    }
    fn h_c15_q_sparse3("sparse maps from any 3 keys below 6, any query") { sparse::<3>(6) }
    fn h_c15_q_dense_wide("dense maps from any 2 keys of the whole of six 16- to 64-bit types, any query") {
        match nd::pick(6) {
            0 => dense_wide!(u16, nd::any_u16()),
            1 => dense_wide!(i32, nd::any_u32()),
            2 => dense_wide!(u32, nd::any_u32()),
            3 => dense_wide!(i64, nd::any_u64()),
            4 => dense_wide!(usize, nd::any_u64()),
            _ => dense_wide!(u64, nd::any_u64()),
        }
    }
    fn h_c15_q_sparse_wide("sparse maps from any 2 keys less than 5 apart anywhere in four 16- to 64-bit types, any query") {
        match nd::pick(4) {
            0 => sparse_wide!(i16, nd::any_u16()),
            1 => sparse_wide!(u32, nd::any_u32()),
            2 => sparse_wide!(i64, nd::any_u64()),
            _ => sparse_wide!(u64, nd::any_u64()),
        }
    }
    fn h_c15_q_scan("scan maps from any lists of 0 to 4 keys, any query") {
        match nd::pick(5) { 0 => scan::<0>(), 1 => scan::<1>(), 2 => scan::<2>(), 3 => scan::<3>(), _ => scan::<4>() }
    }
    fn h_c15_q_search("search maps from any lists of 0 to 4 keys, any query") {
        match nd::pick(5) { 0 => search::<0>(), 1 => search::<1>(), 2 => search::<2>(), 3 => search::<3>(), _ => search::<4>() }
    }
    fn h_c15_q_hash("hash maps from any lists of 0 to 2 keys, 3 keys below 5, three hash functions, any query") {
        match nd::pick(4) { 0 => hash::<0>(0), 1 => hash::<1>(0), 2 => hash::<2>(16), _ => hash::<3>(4) }
    }
    fn h_c15_q_small("8-bit hash maps of 254 to 257 and 300 distinct keys out of up to 400 entries, three hash functions: right up to 255, refused beyond; any 16-bit query (ten queries when entries repeat)") {
        let (n, d) = [(254, 254), (255, 255), (256, 256), (257, 257), (300, 300), (400, 255), (300, 254), (400, 256)][nd::pick(8)];
        limit::<SmallCollection>(n, d, 255, if n == d { [0, 9][nd::pick(2)] } else { 0 })
    }
    fn h_c15_q_medium("16-bit hash maps of 255 to 257 keys; any query") {
        let n = [255, 256, 257][nd::pick(3)];
        limit::<MediumCollection>(n, n, 65535, 0)
    }
    fn h_c15_q_medium_max("16-bit hash maps of 65535 and 65536 keys: right at 14 queries, refused") {
        let n = [65535, 65536][nd::pick(2)];
        limit::<MediumCollection>(n, n, 65535, 9)
    }
    fn h_c15_q_large("unlimited hash maps of 256 and 300 keys; any query") { limit::<LargeCollection>([256, 300][nd::pick(2)], 256, u32::MAX, 0) }
    fn h_c15_q_iterates("8-bit hash maps of 254 and 255 keys: iteration yields every key once") { iterates() }
    fn h_c15_q_parts("six keys hashed by length or by six ranges only, any query of up to 4 ASCII characters") { length_hashed() }
    fn h_c15_q_repeated("repeated keys under a hasher that sees only the length") { repeated_lengths() }
}
