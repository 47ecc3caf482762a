//! C01: maps and sets with scalar keys.
use crate::{look_huge, look_large, look_large_set, with_large, with_large_set, ck, cov, harnesses, model, nd};
use core::num::*;
use crate::large::{keys32, pairs32};
use frozen_collections::*;

#[inline(always)]
fn entries<K: Copy>(k: &[K]) -> Vec<(K, u8)> {
    let mut v = Vec::with_capacity(k.len());
    let mut i = 0;
    while i < k.len() {
        v.push((k[i], i as u8));
        i += 1;
    }
    v
}

/// Every key list of length N over the whole type, every query.
macro_rules! full {
    ($t:ty, $any:expr, $n:expr) => {{
        let k: [$t; $n] = core::array::from_fn(|_| $any);
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == model::distinct(&k));
        ck!(m.is_empty() == ($n == 0));
        let q: $t = $any;
        cov!(model::last(&k, &q).is_some());
        cov!(model::last(&k, &q).is_none());
        ck_lookup!(m, k, q);
    }};
}

/// Two keys b and b+d (either order), d < 131 (one path each), b any; queries inside and outside [b, b+d].
macro_rules! near {
    ($t:ty, $any:expr, $mk:expr) => {{
        let b: $t = $any;
        let d = nd::pick(131) as $t;
        nd::assume(b <= <$t>::MAX - d);
        let k = if nd::pick(2) == 0 { [$mk(b), $mk(b + d)] } else { [$mk(b + d), $mk(b)] };
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == if d == 0 { 1 } else { 2 });
        let q: $t = match nd::pick(3) {
            0 => {
                let e = nd::any_u8() as $t;
                nd::assume(e <= d);
                b + e
            }
            1 => {
                let q = $any;
                nd::assume(q < b);
                q
            }
            _ => {
                let q = $any;
                nd::assume(q > b + d);
                q
            }
        };
        ck_lookup!(m, k, $mk(q));
    }};
}

/// Two keys at least 129 apart, any position, any order, any query.
macro_rules! far {
    ($t:ty, $any:expr) => {{
        let b: $t = $any;
        let c: $t = $any;
        nd::assume(b < c);
        let lim = b.wrapping_add(129);
        nd::assume(lim > b && c >= lim);
        let k = if nd::pick(2) == 0 { [b, c] } else { [c, b] };
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == 2);
        let q: $t = $any;
        cov!(q == b);
        cov!(q != b && q != c);
        ck_lookup!(m, k, q);
    }};
}

/// N keys within a window of W values starting at $base (concrete); any query over the type.
macro_rules! window {
    ($t:ty, $any:expr, $n:expr, $w:expr, $base:expr) => {{
        let base: $t = $base;
        let k: [$t; $n] = core::array::from_fn(|_| base + nd::below($w) as $t);
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == model::distinct(&k));
        let q: $t = $any;
        ck_lookup!(m, k, q);
    }};
}

/// A concrete list of keys (values = positions), every query.
macro_rules! shape {
    ($t:ty, $any:expr, $keys:expr) => {{
        let k: Vec<$t> = $keys;
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == k.len());
        let s: FzScalarSet<$t> = k.iter().copied().collect();
        let q: $t = $any;
        let got = m.get(&q).copied();
        let mut exp = None;
        let mut i = 0;
        while i < k.len() {
            if k[i] == q {
                exp = Some(i as u8);
            }
            i += 1;
        }
        cov!(exp.is_some());
        cov!(exp.is_none());
        ck!(got == exp);
        ck!(m.contains_key(&q) == exp.is_some());
        ck!(m.get_mut(&q).copied() == exp);
        match m.get_key_value(&q) {
            Some((kk, v)) => ck!(*kk == q && Some(*v) == exp),
            None => ck!(exp.is_none()),
        }
        ck!(s.len() == k.len());
        ck!(s.contains(&q) == exp.is_some());
        ck!(s.get(&q).copied() == exp.map(|_| q));
    }};
}

fn id<T>(x: T) -> T {
    x
}

harnesses! {
    fn h_c01_q_huge_70000("70000 contiguous, sparse and spread-out u32 keys (more than 16 bits count); queries within windows of 8 around 7 places") { match nd::pick(3) { 0 => look_huge!(FzScalarMap::new(pairs32(&keys32(70_000, 1))), 70_000, 1), 1 => look_huge!(FzScalarMap::new(pairs32(&keys32(70_000, 3))), 70_000, 3), _ => look_huge!(FzScalarMap::new(pairs32(&keys32(66_000, 40_000))), 66_000, 40_000) } }
    fn h_c01_q_large("scalar maps over 300 and 1100 u16 keys, contiguous, sparse and spread out: every key, and queries within windows of 64 around 8 places") { with_large!([0, 1, 2, 5, 6, 7][nd::pick(6)], |j| j + 1, look_large) }
    fn h_c01_q_large_set("scalar sets over 300 and 1100 u16 keys, contiguous, sparse and spread out: every value, and queries within windows of 64 around 8 places") { with_large_set!([0, 1, 2, 5, 6, 7][nd::pick(6)], look_large_set) }
    fn h_c01_q_u8_n2("2 entries, any u8 keys, any u8 query") { full!(u8, nd::any_u8(), 2) }
    fn h_c01_q_i8_n2("2 entries, any i8 keys, any i8 query") { full!(i8, nd::any_u8() as i8, 2) }
    fn h_c01_q_u8_n1("1 entry, any u8 key, any query") { full!(u8, nd::any_u8(), 1) }
    fn h_c01_q_u64_n0("0 entries, any query") { full!(u64, nd::any_u64(), 0) }
    fn h_c01_q_u64_n1("1 entry, any u64 key, any query") { full!(u64, nd::any_u64(), 1) }
    fn h_c01_q_i64_n1("1 entry, any i64 key, any query") { full!(i64, nd::any_u64() as i64, 1) }

    fn h_c01_q_u64_near("2 entries, u64 keys less than 131 apart anywhere, any query") { near!(u64, nd::any_u64(), id) }
    fn h_c01_q_i64_near("2 entries, i64 keys less than 131 apart anywhere, any query") { near!(i64, nd::any_u64() as i64, id) }
    fn h_c01_q_i32_near("2 entries, i32 keys less than 131 apart anywhere, any query") { near!(i32, nd::any_u32() as i32, id) }
    fn h_c01_q_u16_near("2 entries, u16 keys less than 131 apart anywhere, any query") { near!(u16, nd::any_u16(), id) }
    fn h_c01_q_u64_far("2 entries, u64 keys at least 129 apart, any query") { far!(u64, nd::any_u64()) }
    fn h_c01_q_i64_far("2 entries, i64 keys at least 129 apart, any query") { far!(i64, nd::any_u64() as i64) }
    fn h_c01_q_i16_far("2 entries, i16 keys at least 129 apart, any query") { far!(i16, nd::any_u16() as i16) }

    fn h_c01_q_u8_n3_w6("3 entries, u8 keys in 0..6, any u8 query") { window!(u8, nd::any_u8(), 3, 6, 0) }
    fn h_c01_q_i8_n3_w6("3 entries, i8 keys in -3..3, any i8 query") { window!(i8, nd::any_u8() as i8, 3, 6, -3) }
    fn h_c01_q_u64_n3_top("3 entries, u64 keys in the top 5 values, any query") { window!(u64, nd::any_u64(), 3, 5, u64::MAX - 4) }
    fn h_c01_q_i64_n3_bot("3 entries, i64 keys in the lowest 5 values, any query") { window!(i64, nd::any_u64() as i64, 3, 5, i64::MIN) }

    fn h_c01_q_dense40("dense shape, 40 keys 1000..1040, any i32 query; map and set") { shape!(i32, nd::any_u32() as i32, (1000..1040).collect()) }
    fn h_c01_q_dense40_neg("dense shape, 40 keys -20..20 reversed, any i64 query; map and set") { shape!(i64, nd::any_u64() as i64, (-20..20).rev().collect()) }
    fn h_c01_q_sparse30("sparse shape, 30 keys 7*i, any u32 query; map and set") { shape!(u32, nd::any_u32(), (0..30).map(|x| x * 7).collect()) }
    fn h_c01_q_sparse_2ends("sparse shape {0, 127}, any u8 query; map and set") { shape!(u8, nd::any_u8(), vec![127, 0]) }
    fn h_c01_q_hash40("hashed shape, 40 keys i*i*1001+3, any u64 query; map and set") { shape!(u64, nd::any_u64(), (0..40).map(|x| x * x * 1001 + 3).collect()) }
    fn h_c01_q_hash_coll("hashed shape, 9 keys multiples of 2^40 (all collide), any u64 query; map and set") { shape!(u64, nd::any_u64(), (0..9u64).map(|x| x << 40).collect()) }
    fn h_c01_q_hash150("hashed shape, 150 keys i*4099, any u32 query; map and set") { shape!(u32, nd::any_u32(), (0..150).map(|x| x * 4099).collect()) }
    fn h_c01_q_threshold14("14 keys 0..13 plus one in 120..150 (either side of the sparse limits), any u16 query") {
        let x = 120 + nd::pick(30) as u16;
        let mut k: Vec<u16> = (0..13).collect();
        k.push(x);
        let mut m = FzScalarMap::new(entries(&k));
        ck!(m.len() == 14);
        let q = nd::any_u16();
        let exp = if q < 13 { Some(q as u8) } else if q == x { Some(13) } else { None };
        ck!(m.get(&q).copied() == exp);
        ck!(m.get_mut(&q).copied() == exp);
        ck!(m.contains_key(&q) == exp.is_some());
        ck!(m.get_key_value(&q).map(|(k, v)| (*k, *v)) == exp.map(|e| (q, e)));
    }
    fn h_c01_q_repeats("17 to 130 entries over 1 to 30 keys contiguous, 3 apart or 1000 apart, any u32 query; the last equal entry wins") {
        let (n, k) = (model::REPEAT_N[nd::pick(6)], model::REPEAT_K[nd::pick(5)]);
        let step = [1u32, 3, 1000][nd::pick(3)];
        let r = model::repeats(n, k);
        let mut v = Vec::with_capacity(n);
        for i in 0..n { v.push((7 + r[i] as u32 * step, i as u8)); }
        let mut m = FzScalarMap::new(v);
        ck!(m.len() == if n < k { n } else { k });
        let q = nd::any_u32();
        let mut exp = None;
        for i in 0..n { if 7 + r[i] as u32 * step == q { exp = Some(i as u8); } }
        cov!(exp.is_some());
        ck!(m.get(&q).copied() == exp && m.get_mut(&q).copied() == exp);
        ck!(m.get_key_value(&q).map(|x| (*x.0, *x.1)) == exp.map(|e| (q, e)));
    }
    fn h_c01_q_nonzero("2 entries, NonZeroU8 / NonZeroI8 keys in -4..=4 without 0, any query") {
        if nd::pick(2) == 0 {
            let f = || { let v = 1 + nd::below(6) as u8; NonZeroU8::new(v).unwrap() };
            let k = [f(), f()];
            let mut m = FzScalarMap::new(entries(&k));
            let q = nd::any_u8();
            nd::assume(q != 0);
            let q = NonZeroU8::new(q).unwrap();
            ck_lookup!(m, k, q);
        } else {
            let f = || { let v = nd::below(9) as i8 - 4; nd::assume(v != 0); NonZeroI8::new(v).unwrap() };
            let k = [f(), f()];
            let mut m = FzScalarMap::new(entries(&k));
            let q = nd::any_u8() as i8;
            nd::assume(q != 0);
            let q = NonZeroI8::new(q).unwrap();
            ck_lookup!(m, k, q);
        }
    }
    fn h_c01_q_set_n3("set of 3 u8 values in 0..6, any u8 query; new, From, FromIterator agree") {
        let k: [u8; 3] = core::array::from_fn(|_| nd::below(6) as u8);
        let q = nd::any_u8();
        let exp = model::last(&k, &q).is_some();
        let a = FzScalarSet::new(k.to_vec());
        ck!(a.len() == model::distinct(&k));
        ck!(a.contains(&q) == exp);
        ck!(a.get(&q).copied() == if exp { Some(q) } else { None });
        let b = FzScalarSet::from(k);
        ck!(b.contains(&q) == exp && b.len() == a.len());
        let c: FzScalarSet<u8> = k.iter().copied().collect();
        ck!(c.contains(&q) == exp && c.len() == a.len());
    }
    fn h_c01_q_ctors("map of 2 u8 entries in 0..4: From and FromIterator; Default is empty; any query") {
        let k: [u8; 2] = core::array::from_fn(|_| nd::below(4) as u8);
        let q = nd::any_u8();
        let exp = model::last(&k, &q);
        let a = FzScalarMap::from([(k[0], 0u8), (k[1], 1)]);
        ck!(a.get(&q).copied() == exp && a.len() == model::distinct(&k));
        let b: FzScalarMap<u8, u8> = [(k[0], 0u8), (k[1], 1)].into_iter().collect();
        ck!(b.get(&q).copied() == exp && b.len() == model::distinct(&k));
        let mut d = FzScalarMap::<u8, u8>::default();
        ck!(d.is_empty() && d.len() == 0 && d.get(&q).is_none() && d.get_mut(&q).is_none() && d.get_key_value(&q).is_none() && !d.contains_key(&q));
        ck!(d.iter().next().is_none());
    }

    fn h_c01_t_u8_n3_w12("3 entries, u8 keys in 0..12, any u8 query") { window!(u8, nd::any_u8(), 3, 12, 0) }
    fn h_c01_t_u8_n4_w6("4 entries, u8 keys in 0..6, any u8 query") { window!(u8, nd::any_u8(), 4, 6, 0) }
    fn h_c01_t_u32_near("2 entries, u32 keys less than 131 apart, any query") { near!(u32, nd::any_u32(), id) }
    fn h_c01_t_i16_near("2 entries, i16 keys less than 131 apart, any query") { near!(i16, nd::any_u16() as i16, id) }
    fn h_c01_t_usize_near("2 entries, usize keys less than 131 apart, any query") { near!(usize, nd::any_u64() as usize, id) }
    fn h_c01_t_isize_far("2 entries, isize keys at least 129 apart, any query") { far!(isize, nd::any_u64() as isize) }
    fn h_c01_t_hash250("hashed shape, 250 keys i*65537, any u32 query") { shape!(u32, nd::any_u32(), (0..250).map(|x| x * 65537).collect()) }
    fn h_c01_t_sparse200("sparse shape, 200 keys 3*i, any i32 query") { shape!(i32, nd::any_u32() as i32, (0..200).map(|x| x * 3 - 300).collect()) }
}
