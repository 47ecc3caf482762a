//! C02: maps and sets with ordered keys.
use crate::{look_huge, look_large, look_large_set, with_large, with_large_set, ck, ck_lookup, ck_map, cov, harnesses, model, model::entries, nd};
use core::cmp::Ordering;
use frozen_collections::maps::EytzingerSearchMap;
use crate::large::{keys32, pairs32};
use frozen_collections::*;

/// N entries with any keys over the type, any query.
macro_rules! full {
    ($t:ty, $any:expr, $n:expr) => {{
        let k: [$t; $n] = core::array::from_fn(|_| $any);
        let mut m = FzOrderedMap::new(entries(&k));
        ck!(m.len() == model::distinct(&k));
        let q: $t = $any;
        cov!(model::last(&k, &q).is_some());
        cov!(model::last(&k, &q).is_none());
        ck_lookup!(m, k, q);
    }};
}

/// Distinct keys 2i+1 in a fixed order, any query over the type: covers every outcome of comparing a query
/// with n ordered keys.
fn shape(k: &[u16]) {
    let n = k.len();
    let mut m: FzOrderedMap<u16, u16> = k.iter().map(|x| (*x, *x ^ 0x55)).collect();
    ck!(m.len() == n && m.is_empty() == (n == 0));
    let s: FzOrderedSet<u16> = k.iter().copied().collect();
    let q = nd::any_u16();
    let hit = (q & 1) == 1 && (q as usize) < 2 * n;
    let exp = if hit { Some(q ^ 0x55) } else { None };
    ck!(m.get(&q).copied() == exp);
    ck!(m.contains_key(&q) == hit);
    ck!(m.get_mut(&q).copied() == exp);
    ck!(m.get_key_value(&q).map(|(a, b)| (*a, *b)) == exp.map(|e| (q, e)));
    ck!(s.len() == n && s.contains(&q) == hit && s.get(&q).copied() == if hit { Some(q) } else { None });
}

fn odd(n: usize) -> Vec<u16> {
    (0..n as u16).map(|x| 2 * x + 1).collect()
}

/// The three input orders every size is built from: ascending, descending, a multiplicative shuffle.
fn order(n: usize, w: usize) -> Vec<u16> {
    let mut v = odd(n);
    match w {
        0 => v,
        1 => {
            v.reverse();
            v
        }
        _ => {
            let mut r = vec![];
            let mut i = 0;
            while !v.is_empty() {
                i = (i + 7) % v.len();
                r.push(v.remove(i));
            }
            r
        }
    }
}

/// A key whose order ignores its tag: shows which of several equal entries survives.
#[derive(Clone, Copy)]
pub struct Tagged(pub u8, pub u8);
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tagged {}
impl PartialOrd for Tagged {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tagged {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}

macro_rules! look_large_any { ($m:expr, $n:expr, $s:expr) => { look_large!($m, $n, $s, crate::large::query) }; }
macro_rules! look_large_set_any { ($m:expr, $n:expr, $s:expr) => { look_large_set!($m, $n, $s, crate::large::query) }; }

harnesses! {
    fn h_c02_q_huge_70000("70000 u32 keys (more than 16 bits count); queries within windows of 8 around 7 places") { look_huge!(FzOrderedMap::new(pairs32(&keys32(70_000, 3))), 70_000, 3) }
    fn h_c02_q_large("ordered maps over 300 and 1100 u16 keys: every key, and any query") { with_large!([3, 8][nd::pick(2)], |j| j + 1, look_large_any) }
    fn h_c02_q_large_set("ordered sets over 300 and 1100 u16 keys: every value, and any query") { with_large_set!([3, 8][nd::pick(2)], look_large_set_any) }
    fn h_c02_q_u8_n0("0 entries, any query; also Default") {
        full!(u8, nd::any_u8(), 0);
        let mut d = FzOrderedMap::<u8, u8>::default();
        let q = nd::any_u8();
        ck_map!(d, &q, None);
        ck!(d.len() == 0 && d.is_empty());
        let s = FzOrderedSet::<u8>::default();
        ck!(s.len() == 0 && !s.contains(&q) && s.get(&q).is_none());
    }
    fn h_c02_q_u8_n1("1 entry, any u8 key, any query") { full!(u8, nd::any_u8(), 1) }
    fn h_c02_q_i64_n1("1 entry, any i64 key, any query") { full!(i64, nd::any_u64() as i64, 1) }
    fn h_c02_q_i64_n2("2 entries, any i64 keys, any query") { full!(i64, nd::any_u64() as i64, 2) }
    fn h_c02_q_u8_n3("3 entries, any u8 keys, any query") { full!(u8, nd::any_u8(), 3) }
    fn h_c02_q_i16_n3("3 entries, any i16 keys, any query") { full!(i16, nd::any_u16() as i16, 3) }
    fn h_c02_q_u8_n4("4 entries, any u8 keys, any query") { full!(u8, nd::any_u8(), 4) }
    fn h_c02_t_u8_n5("5 entries, any u8 keys, any query") { full!(u8, nd::any_u8(), 5) }

    fn h_c02_q_sizes_asc("0..=32 distinct keys given in ascending order, any u16 query; map and set") { shape(&order(nd::pick(33), 0)) }
    fn h_c02_q_sizes_desc("0..=32 distinct keys given in descending order, any u16 query; map and set") { shape(&order(nd::pick(33), 1)) }
    fn h_c02_q_sizes_mix("0..=32 distinct keys given in a shuffled order, any u16 query; map and set") { shape(&order(nd::pick(33), 2)) }
    fn h_c02_q_big("distinct keys, 63, 64, 65, 100, 127, 128, 200 of them, shuffled, any u16 query; map and set") {
        shape(&order([63, 64, 65, 100, 127, 128, 200][nd::pick(7)], 2))
    }
    fn h_c02_t_sizes_all("33..=130 distinct keys, shuffled, any u16 query; map and set") { shape(&order(33 + nd::pick(98), 2)) }
    fn h_c02_t_huge("255, 256, 257, 511, 512, 513, 700, 1000 distinct keys, any u16 query; map and set") {
        shape(&order([255, 256, 257, 511, 512, 513, 700, 1000][nd::pick(8)], 2))
    }
    fn h_c02_q_dups_many("12 entries over 6 keys: every key given twice with one symbolic swap, any query; last one wins") {
        let mut k = [4u8, 0, 2, 6, 8, 10, 2, 8, 0, 10, 4, 6];
        let i = nd::pick(12);
        let j = nd::pick(12);
        nd::assume(i < j);
        k.swap(i, j);
        let mut m = FzOrderedMap::new(entries(&k));
        ck!(m.len() == 6);
        let q = nd::any_u8();
        ck_lookup!(m, k, q);
    }
    fn h_c02_q_repeats("17 to 130 entries over 1 to 30 keys, any query; the last equal entry is the one kept, in maps and sets") {
        let (n, k) = (model::REPEAT_N[nd::pick(6)], model::REPEAT_K[nd::pick(5)]);
        let r = model::repeats(n, k);
        let mut v = Vec::with_capacity(n);
        let mut t = Vec::with_capacity(n);
        for i in 0..n { v.push((Tagged(r[i] * 2, i as u8), i as u8)); t.push(Tagged(r[i] * 2, i as u8)); }
        let mut m = FzOrderedMap::new(v);
        let s = FzOrderedSet::new(t);
        let d = if n < k { n } else { k };
        ck!(m.len() == d && s.len() == d);
        let q = nd::any_u8();
        let mut exp = None;
        for i in 0..n { if r[i] * 2 == q { exp = Some(i as u8); } }
        cov!(exp.is_some());
        let q = Tagged(q, 200);
        ck!(m.get(&q).copied() == exp && m.get_mut(&q).copied() == exp);
        ck!(m.get_key_value(&q).map(|x| (x.0.1, *x.1)) == exp.map(|e| (e, e)));
        ck!(s.get(&q).map(|x| x.1) == exp);
    }
    fn h_c02_q_tagged("3 entries whose keys compare by their first byte only (0..3), any query: the last equal entry is the one kept") {
        let k: [Tagged; 3] = core::array::from_fn(|i| Tagged(nd::below(3) as u8, i as u8));
        let mut m = FzOrderedMap::new(entries(&k));
        let q = Tagged(nd::any_u8(), 77);
        let exp = model::last(&k, &q);
        ck!(m.get(&q).copied() == exp);
        ck!(m.get_key_value(&q).map(|x| (x.0.1, *x.1)) == exp.map(|e| (e, e)));
        ck!(m.get_mut(&q).copied() == exp);
        let s = FzOrderedSet::new(k.to_vec());
        ck!(s.get(&q).map(|x| x.1) == exp);
        ck!(s.contains(&q) == exp.is_some());
    }
    fn h_c02_q_str("String keys of length 0..=2 (symbolic ASCII bytes), 2 entries, borrowed str query; lookups by borrowed form") {
        let a = model::word(2);
        let b = model::word(2);
        let q = model::word(2);
        let mut m = FzOrderedMap::new(vec![(a.clone(), 0u8), (b.clone(), 1)]);
        let exp = if b == q { Some(1) } else if a == q { Some(0) } else { None };
        ck_map!(m, q.as_str(), exp);
    }
    fn h_c02_q_ctors("3 entries, u8 keys in 0..4: new, From array, FromIterator and the internal search map agree; any query; trait entry points") {
        let k: [u8; 3] = core::array::from_fn(|_| nd::below(4) as u8);
        let q = nd::any_u8();
        let exp = model::last(&k, &q);
        let n = model::distinct(&k);
        let e = [(k[0], 0u8), (k[1], 1), (k[2], 2)];
        let mut a = FzOrderedMap::from(e);
        model::ck_map_traits::<u8, u8, _>(&mut a, &q, exp, n);
        let b: FzOrderedMap<u8, u8> = e.into_iter().collect();
        ck!(b.get(&q).copied() == exp && b.len() == n);
        let mut c = EytzingerSearchMap::new(e.to_vec());
        model::ck_map_traits::<u8, u8, _>(&mut c, &q, exp, n);
        let s = FzOrderedSet::from(k);
        model::ck_set_traits::<u8, u8, _>(&s, &q, exp.is_some(), n);
        let s = FzOrderedSet::new(k.to_vec());
        ck!(s.len() == n && s.contains(&q) == exp.is_some() && s.get(&q).copied() == exp.map(|_| q));
    }
}
