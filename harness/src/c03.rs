//! C03: maps and sets with hashable keys, whatever the hash function.
use crate::model::{ByteHash, TableHash, entries};
use crate::{look_huge, look_large, look_large_set, with_large, with_large_set, ck, ck_lookup, ck_map, cov, harnesses, model, nd};
use core::hash::{BuildHasher, Hash, Hasher as _};
use crate::large::{keys, pairs, keys32, pairs32};
use frozen_collections::*;

/// Keys 3i in a shuffled order under hash function `mode`, any u16 query; map and set.
fn shape(n: usize, mode: u8) {
    let mut k: Vec<u16> = vec![];
    for i in 0..n {
        k.insert((i * 5) % (k.len() + 1), i as u16 * 3);
    }
    let mut m = FzHashMap::with_hasher(k.iter().map(|x| (*x, *x ^ 0x55)).collect(), ByteHash(mode));
    ck!(m.len() == n && m.is_empty() == (n == 0));
    let s = FzHashSet::with_hasher(k, ByteHash(mode));
    let q = nd::any_u16();
    let hit = (q % 3) == 0 && (q as usize) < 3 * n;
    let exp = if hit { Some(q ^ 0x55) } else { None };
    ck!(m.get(&q).copied() == exp);
    ck!(m.contains_key(&q) == hit);
    ck!(m.get_mut(&q).copied() == exp);
    ck!(m.get_key_value(&q).map(|(a, b)| (*a, *b)) == exp.map(|e| (q, e)));
    ck!(s.len() == n && s.contains(&q) == hit && s.get(&q).copied() == if hit { Some(q) } else { None });
}

/// N entries over keys 0..D with hash codes chosen by `h`; any query key in 0..D.
macro_rules! anyhash {
    ($n:expr, $d:expr, $h:expr) => {{
        let t: [u64; $d] = core::array::from_fn(|_| $h);
        let k: [u8; $n] = core::array::from_fn(|_| nd::below($d) as u8);
        let mut m = FzHashMap::with_hasher(entries(&k), TableHash(t));
        ck!(m.len() == model::distinct(&k));
        let q = nd::below($d) as u8;
        cov!(model::last(&k, &q).is_some());
        cov!(model::last(&k, &q).is_none());
        ck_lookup!(m, k, q);
    }};
}

/// Equality and hash ignore the tag.
#[derive(Clone, Copy)]
pub struct Tagged(pub u8, pub u8);
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tagged {}
impl Hash for Tagged {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.0)
    }
}

harnesses! {
    fn h_c03_q_huge_70000("70000 u32 keys (more than 16 bits count); queries within windows of 8 around 7 places") { look_huge!(FzHashMap::with_hasher(pairs32(&keys32(70_000, 3)), model::ByteHash(0)), 70_000, 3) }
    fn h_c03_q_large("hash maps over 300 and 1100 u16 keys, injective hash function: every key, and queries within windows of 64 around 8 places") { with_large!([4, 9][nd::pick(2)], |j| j + 1, look_large) }
    fn h_c03_q_large_set("hash sets over 300 and 1100 u16 keys, injective hash function: every value, and queries within windows of 64 around 8 places") { with_large_set!([4, 9][nd::pick(2)], look_large_set) }
    fn h_c03_q_anyhash_n1("1 entry over 2 keys, any 64-bit hash codes, any query") { anyhash!(1, 2, nd::any_u64()) }
    fn h_c03_q_anyhash_n2("2 entries over 2 keys, any 64-bit hash codes, any query") { anyhash!(2, 2, nd::any_u64()) }
    fn h_c03_q_low_n2("2 entries over 3 keys, hash codes any value below 16, any query") { anyhash!(2, 3, nd::below(16)) }
    fn h_c03_q_top_n2("2 entries over 3 keys, hash codes any multiple of 2^57, any query") { anyhash!(2, 3, nd::below(128) << 57) }
    fn h_c03_q_low_n3("3 entries over 3 keys, hash codes any value below 4, any query") { anyhash!(3, 3, nd::below(4)) }
    fn h_c03_t_low_n3_4("3 entries over 4 keys, hash codes any value below 8, any query") { anyhash!(3, 4, nd::below(8)) }
    fn h_c03_t_low_n4("4 entries over 4 keys, hash codes any value below 2, any query") { anyhash!(4, 4, nd::below(2)) }
    fn h_c03_t_anyhash_n2_3("2 entries over 3 keys, any 64-bit hash codes, any query") { anyhash!(2, 3, nd::any_u64()) }

    fn h_c03_q_sizes_pack("0..=24 distinct keys, injective hash function, any u16 query; map and set") { shape(nd::pick(25), 0) }
    fn h_c03_q_sizes_const("0..=12 distinct keys, constant hash function, any u16 query; map and set") { shape(nd::pick(13), 1) }
    fn h_c03_q_sizes_high("0..=16 distinct keys, hash function with equal low bits, any u16 query; map and set") { shape(nd::pick(17), 4) }
    fn h_c03_q_sizes_two("0..=16 distinct keys, hash function with 4 values, any u16 query; map and set") { shape(nd::pick(17), 3) }
    fn h_c03_q_big("distinct keys, 40, 100, 127, 128, 129 of them, injective hash function, any u16 query; map and set") { shape([40, 100, 127, 128, 129][nd::pick(5)], 0) }
    fn h_c03_q_big_coll("40 and 130 distinct keys, hash function with 4 values, any u16 query; map and set") { shape([40, 130][nd::pick(2)], 3) }
    fn h_c03_q_huge("254 to 257 and 999 to 1001 distinct keys, injective hash function: every key, queries within windows of 4 around 8 places") {
        let n = [254, 255, 256, 257, 999, 1000, 1001][nd::pick(7)];
        look_large!(FzHashMap::with_hasher(pairs(&keys(n, 7), 7, |j| j + 1), ByteHash(0)), n, 7, crate::large::narrow)
    }
    fn h_c03_q_huge_coll("300 distinct keys, hash functions with equal low bits, with 4 values, with top and low bits set: every key, queries within windows of 64 around 8 places") {
        let h = [2, 3, 4][nd::pick(3)];
        look_large!(FzHashMap::with_hasher(pairs(&keys(300, 7), 7, |j| j + 1), ByteHash(h)), 300, 7)
    }
    fn h_c03_t_huge_1000("1000 distinct keys, injective hash function, any u16 query; map and set") { shape(1000, 0) }
    fn h_c03_t_mid("25..=64 distinct keys, hash function with top and low bits set, any u16 query; map and set") { shape(25 + nd::pick(40), 2) }

    fn h_c03_q_repeats("17 to 130 entries over 1 to 30 keys, three hash functions, any query; the last equal entry is the one kept, in maps and sets") {
        let (n, k) = (model::REPEAT_N[nd::pick(6)], model::REPEAT_K[nd::pick(5)]);
        let h = [0, 1, 4][nd::pick(3)];
        let r = model::repeats(n, k);
        let mut v = Vec::with_capacity(n);
        let mut t = Vec::with_capacity(n);
        for i in 0..n { v.push((Tagged(r[i] * 2, i as u8), i as u8)); t.push(Tagged(r[i] * 2, i as u8)); }
        let mut m = FzHashMap::with_hasher(v, ByteHash(h));
        let s = FzHashSet::with_hasher(t, ByteHash(h));
        let d = if n < k { n } else { k };
        ck!(m.len() == d && s.len() == d);
        let q = nd::any_u8();
        let mut exp = None;
        for i in 0..n { if r[i] * 2 == q { exp = Some(i as u8); } }
        cov!(exp.is_some());
        let q = Tagged(q, 200);
        ck!(m.get(&q).copied() == exp && m.get_mut(&q).copied() == exp);
        ck!(m.get_key_value(&q).map(|x| (x.0.1, *x.1)) == exp.map(|e| (e, e)));
        ck!(s.get(&q).map(|x| x.1) == exp);
    }
    fn h_c03_q_tagged("3 entries whose keys compare and hash by their first byte only (0..3), any query: the last equal entry is the one kept") {
        let k: [Tagged; 3] = core::array::from_fn(|i| Tagged(nd::below(3) as u8, i as u8));
        let mut m = FzHashMap::with_hasher(entries(&k), ByteHash(0));
        let q = Tagged(nd::any_u8(), 77);
        let exp = model::last(&k, &q);
        ck!(m.get(&q).copied() == exp);
        ck!(m.get_key_value(&q).map(|x| (x.0.1, *x.1)) == exp.map(|e| (e, e)));
        ck!(m.get_mut(&q).copied() == exp);
        let s = FzHashSet::with_hasher(k.to_vec(), ByteHash(0));
        ck!(s.get(&q).map(|x| x.1) == exp);
        ck!(s.contains(&q) == exp.is_some());
    }
    fn h_c03_q_dups_many("12 entries over 6 keys: every key given twice with one symbolic swap, any query; last one wins") {
        let mut k = [4u8, 0, 2, 6, 8, 10, 2, 8, 0, 10, 4, 6];
        let i = nd::pick(12);
        let j = nd::pick(12);
        nd::assume(i < j);
        k.swap(i, j);
        let mut m = FzHashMap::with_hasher(entries(&k), ByteHash(0));
        ck!(m.len() == 6);
        let q = nd::any_u8();
        ck_lookup!(m, k, q);
    }
    fn h_c03_q_str("String keys of length 0..=2 (symbolic ASCII bytes), 2 entries, borrowed str query") {
        let a = model::word(2);
        let b = model::word(2);
        let q = model::word(2);
        let mut m = FzHashMap::with_hasher(vec![(a.clone(), 0u8), (b.clone(), 1)], ByteHash(3));
        let exp = if b == q { Some(1) } else if a == q { Some(0) } else { None };
        ck_map!(m, q.as_str(), exp);
    }
    fn h_c03_q_default("default hash function, 20 concrete u8 keys, any u8 query; map and set; Default is empty") {
        let k: Vec<u8> = (0..20).map(|x| x * 11 + 3).collect();
        let mut m = FzHashMap::new(entries(&k));
        ck!(m.len() == 20);
        let q = nd::any_u8();
        let exp = if q >= 3 && (q - 3) % 11 == 0 && (q - 3) / 11 < 20 { Some((q - 3) / 11) } else { None };
        ck_map!(m, &q, exp);
        let s = FzHashSet::new(k);
        ck!(s.len() == 20 && s.contains(&q) == exp.is_some());
        let mut d = FzHashMap::<u8, u8>::default();
        ck!(d.len() == 0 && d.is_empty());
        ck_map!(d, &q, None);
        let e = FzHashSet::<u8>::default();
        ck!(e.len() == 0 && !e.contains(&q) && e.get(&q).is_none());
    }
    fn h_c03_q_ctors("3 entries, u8 keys in 0..4: From array, FromIterator with the default hash function; any query in 0..5; trait entry points") {
        let k: [u8; 3] = core::array::from_fn(|_| nd::pick(4) as u8);
        let q = nd::pick(5) as u8;
        let exp = model::last(&k, &q);
        let n = model::distinct(&k);
        let e = [(k[0], 0u8), (k[1], 1), (k[2], 2)];
        let mut a: FzHashMap<u8, u8> = FzHashMap::from(e);
        model::ck_map_traits::<u8, u8, _>(&mut a, &q, exp, n);
        let b: FzHashMap<u8, u8> = e.into_iter().collect();
        ck!(b.get(&q).copied() == exp && b.len() == n);
        let s: FzHashSet<u8> = FzHashSet::from(k);
        model::ck_set_traits::<u8, u8, _>(&s, &q, exp.is_some(), n);
        let s: FzHashSet<u8> = k.into_iter().collect();
        ck!(s.len() == n && s.contains(&q) == exp.is_some() && s.get(&q).copied() == exp.map(|_| q));
    }
}
