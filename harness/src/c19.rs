//! C19: memory and the work of a lookup stay in proportion to what a collection holds.
use crate::kinds::*;
use crate::model::{self, ByteHash, TableHash, entries};
use crate::{ck, cov, harnesses, nd, with_map, with_own_map, with_own_set, with_set, with_str_map};
use core::hash::{BuildHasher, Hash, Hasher};

// What the property allows (see the statement): bytes kept, and bytes in use while building.
fn kept(n: usize, extra: usize) -> u64 {
    (2048 + 256 * n + extra) as u64
}
fn building(n: usize, extra: usize) -> u64 {
    (8192 + 640 * n + 2 * extra) as u64
}
fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}
/// Comparisons an ordered lookup may make.
fn steps(n: usize) -> u64 {
    2 * log2(n) + 2
}

/// Builds with `$e`, checks what it keeps and what it used; yields the collection.
macro_rules! weigh {
    ($n:expr, $extra:expr, $e:expr) => {{
        let (n, extra): (usize, usize) = ($n, $extra);
        let before = nd::live_bytes();
        nd::mark_peak();
        let c = $e;
        ck!(nd::live_bytes() - before <= kept(n, extra));
        ck!(nd::peak_bytes() - before <= building(n, extra));
        c
    }};
}

// ---- counters ---------------------------------------------------------------------------------
static mut CMP: u64 = 0;
static mut EQ: u64 = 0;
static mut HASHED: u64 = 0;
fn reset() {
    unsafe { (CMP, EQ, HASHED) = (0, 0, 0) }
}
fn cmps() -> u64 {
    unsafe { CMP }
}
fn eqs() -> u64 {
    unsafe { EQ }
}
fn hashed() -> u64 {
    unsafe { HASHED }
}
/// Counts comparisons, equality tests and hash computations.
#[derive(Clone, Copy)]
struct C(u32);
impl PartialEq for C {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        unsafe { EQ += 1 }
        self.0 == o.0
    }
}
impl Eq for C {}
impl PartialOrd for C {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for C {
    #[inline]
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        unsafe { CMP += 1 }
        self.0.cmp(&o.0)
    }
}
impl Hash for C {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        unsafe { HASHED += 1 }
        h.write_u32(self.0)
    }
}
impl Scalar for C {
    #[inline]
    fn index(&self) -> usize {
        self.0 as usize
    }
}
/// The key's number times an odd constant, or the number itself.
#[derive(Clone, Default)]
struct Spread(u64);
struct SpreadState(u64, u64);
impl BuildHasher for Spread {
    type Hasher = SpreadState;
    fn build_hasher(&self) -> SpreadState {
        SpreadState(self.0, 0)
    }
}
impl Hasher for SpreadState {
    fn finish(&self) -> u64 {
        match self.0 {
            0 => self.1,
            1 => self.1 << 6,
            2 => self.1 << 32,
            3 => 7,
            4 => self.1 & 1,
            x => self.1.wrapping_mul(x),
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u8(&mut self, b: u8) {
        self.1 = self.1.rotate_left(8) ^ b as u64;
    }
    fn write_u32(&mut self, b: u32) {
        self.1 = self.1.rotate_left(32) ^ b as u64;
    }
    fn write_u64(&mut self, b: u64) {
        self.1 ^= b;
    }
}
const MIX: u64 = 0x9E37_79B9_7F4A_7C15;

/// `n` numbers below `n`, shuffled.
fn shuffled(n: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(n);
    let mut j = n / 2;
    for _ in 0..n {
        v.push(j as u32);
        j += 19;
        while j >= n {
            j -= n;
        }
    }
    v
}
fn list32(v: &[u32]) -> Vec<(C, u32)> {
    let mut r = Vec::with_capacity(v.len());
    for x in v {
        r.push((C(*x), *x));
    }
    r
}

/// Any `$n` keys of a type, far apart or not, as the solver likes: map and set.
macro_rules! any_scalars {
    ($t:ty, $k:expr) => {{
        let k = $k;
        let n = k.len();
        let m = weigh!(n, 0, FzScalarMap::new(entries(&k)));
        ck!(m.len() <= n);
        let s = weigh!(n, 0, FzScalarSet::new(k.to_vec()));
        ck!(s.len() == m.len());
    }};
}
/// Keys from a list of places at both ends, in the middle and at distances around the thresholds.
macro_rules! edges {
    ($t:ty, $e:expr) => {{
        let e: &[$t] = &$e;
        let n = e.len();
        let k = [e[nd::pick(n)], e[nd::pick(n)], e[nd::pick(n)]];
        any_scalars!($t, k)
    }};
}

/// Nothing is allocated by lookups, iteration, comparison and formatting-free use of a map.
fn quiet_map<K, Q, M>(m: M, k: &[Q], q: impl Fn() -> Q)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + MapExtras<K, u8, Q> + Len,
{
    let mut m = m;
    let q = q();
    let hit = k.contains(&q);
    cov!(hit);
    cov!(!hit);
    let a = nd::allocs();
    let b = nd::live_bytes();
    ck!(MapQuery::get(&m, &q).is_some() == hit);
    ck!(MapQuery::contains_key(&m, &q) == hit);
    ck!(MapExtras::get_key_value(&m, &q).is_some() == hit);
    ck!(MapQuery::get_mut(&mut m, &q).is_some() == hit);
    let mut n = 0;
    for _ in m.iter() { n += 1; }
    for _ in m.keys() { n += 1; }
    for _ in m.values() { n += 1; }
    for v in m.values_mut() { *v = 9; n += 1; }
    for (_, v) in m.iter_mut() { *v = 8; n += 1; }
    ck!(n == 5 * m.len());
    ck!(nd::allocs() == a && nd::live_bytes() == b);
}
fn quiet_set<K, S>(s: S, k: &[K], q: impl Fn() -> K)
where
    K: PartialEq + Copy,
    S: Set<K> + SetExtras<K> + Len,
{
    let q = q();
    let hit = k.contains(&q);
    let a = nd::allocs();
    ck!(SetQuery::contains(&s, &q) == hit);
    ck!(SetExtras::get(&s, &q).is_some() == hit);
    let mut n = 0;
    for _ in s.iter() { n += 1; }
    ck!(n == s.len());
    for _ in SetOps::union(&s, &s) { n += 1; }
    for _ in SetOps::intersection(&s, &s) { n += 1; }
    for _ in SetOps::difference(&s, &s) { n += 1; }
    for _ in SetOps::symmetric_difference(&s, &s) { n += 1; }
    ck!(n == 3 * s.len());
    ck!(SetOps::is_subset(&s, &s) && SetOps::is_superset(&s, &s) && !SetOps::is_disjoint(&s, &s));
    ck!(nd::allocs() == a);
}

/// Comparisons made by each read entry point of a map over 0, 3, 6, …, for any query.
macro_rules! count_map {
    ($m:expr, $n:expr, $q:expr, $c:ident) => {{
        let (mut m, n) = ($m, $n);
        let q = C($q);
        reset();
        let hit = m.get(&q).is_some();
        ck!($c(n));
        reset();
        ck!(m.contains_key(&q) == hit);
        ck!($c(n));
        reset();
        ck!(m.get_key_value(&q).is_some() == hit);
        ck!($c(n));
        reset();
        ck!(m.get_mut(&q).is_some() == hit);
        ck!($c(n));
        cov!(hit);
        cov!(!hit);
    }};
}
macro_rules! count_set {
    ($s:expr, $n:expr, $q:expr, $c:ident) => {{
        let (s, n) = ($s, $n);
        let q = C($q);
        reset();
        let hit = s.contains(&q);
        ck!($c(n));
        reset();
        ck!(s.get(&q).is_some() == hit);
        ck!($c(n));
    }};
}
fn ordered_ok(n: usize) -> bool {
    cmps() + eqs() <= steps(n) && hashed() == 0
}
fn hash_ok(_: usize) -> bool {
    cmps() + eqs() <= 4 && hashed() <= 1
}
fn times3(mut v: Vec<u32>) -> Vec<u32> {
    for x in v.iter_mut() { *x *= 3; }
    v
}
fn cs(v: &[u32]) -> Vec<C> {
    let mut r = Vec::with_capacity(v.len());
    for x in v { r.push(C(*x)); }
    r
}
/// Orders keys may be given in: shuffled, ascending, descending, the same key over and over, few keys, every key twice.
fn given(n: usize, order: usize) -> Vec<u32> {
    match order {
        0 => shuffled(n),
        1 => (0..n as u32).collect(),
        2 => (0..n as u32).rev().collect(),
        3 => vec![5; n],
        4 => (0..n as u32).map(|x| x % 7).collect(),
        5 => (0..n as u32).map(|x| x / 2).collect(),
        _ => (0..n as u32).rev().map(|x| x / 2).collect(),
    }
}

fn hash_codes(n: usize) {
    let t: [u64; 4] = core::array::from_fn(|_| nd::any_u64());
    let k = [0u8, 1, 2];
    let m = weigh!(n, 0, FzHashMap::with_hasher(entries(&k[..n]), TableHash(t)));
    ck!(m.len() == n);
}

harnesses! {
    fn h_c19_q_u64_n2("2 entries, any u64 keys 4096 or more apart: memory kept and memory used while building; map and set") {
        let (a, b) = (nd::any_u64(), nd::any_u64());
        nd::assume(a.wrapping_sub(b) >= 4096 && b.wrapping_sub(a) >= 4096);
        any_scalars!(u64, [a, b])
    }
    fn h_c19_t_i64_n2("2 entries, any i64 keys 4096 or more apart: memory kept and used while building; map and set") {
        let (a, b) = (nd::any_u64() as i64, nd::any_u64() as i64);
        nd::assume(a.wrapping_sub(b) as u64 >= 4096 && b.wrapping_sub(a) as u64 >= 4096);
        any_scalars!(i64, [a, b])
    }
    fn h_c19_t_u16_n3("3 entries, any u16 keys each 4096 or more above the one before: memory kept and used while building; map and set") {
        let (a, b, c) = (nd::any_u16(), nd::any_u16(), nd::any_u16());
        nd::assume(a < b && b < c && b - a >= 4096 && c - b >= 4096);
        any_scalars!(u16, [b, a, c])
    }
    fn h_c19_q_u16_n1("1 entry, any u16 key: memory kept and used while building") { any_scalars!(u16, [nd::any_u16()]) }
    fn h_c19_q_edges_u64("3 entries, u64 keys out of 14 places (both ends, the middle, around spans of 30 and 128)") {
        edges!(u64, [0, 1, 2, 29, 30, 31, 127, 128, 129, 1 << 31, 1 << 32, u64::MAX / 2, u64::MAX - 1, u64::MAX])
    }
    fn h_c19_q_edges_i64("3 entries, i64 keys out of 12 places") {
        edges!(i64, [i64::MIN, i64::MIN + 1, -(1 << 40), -129, -128, -1, 0, 1, 127, 1 << 33, i64::MAX - 1, i64::MAX])
    }
    fn h_c19_q_edges_i32("3 entries, i32 keys out of 8 places") { edges!(i32, [i32::MIN, i32::MIN + 127, -1, 0, 1, 128, 65536, i32::MAX]) }
    fn h_c19_q_edges_usize("3 entries, usize and isize keys out of 6 places") {
        edges!(usize, [0, 1, 128, usize::MAX / 2 + 1, usize::MAX - 128, usize::MAX]);
    }
    fn h_c19_q_edges_isize("3 entries, isize keys out of 6 places") { edges!(isize, [isize::MIN, isize::MIN + 128, -1, 0, 1, isize::MAX]) }
    fn h_c19_q_edges_nz("3 entries, NonZeroI64 keys out of 5 places") {
        let z = |x: i64| core::num::NonZeroI64::new(x).unwrap();
        edges!(core::num::NonZeroI64, [z(i64::MIN), z(-1), z(1), z(128), z(i64::MAX)])
    }
    fn h_c19_q_scalar_sizes("8 to 1100 u64 keys, evenly spread 1 to 2^40 apart, or all together but one at the far end") {
        let n = [8, 40, 127, 129, 300, 1100][nd::pick(6)];
        let d = [1u64, 2, 3, 9, 10, 11, 50, 1 << 10, 1 << 40, 0][nd::pick(10)];
        let mut k = Vec::with_capacity(n);
        for x in shuffled(n) { k.push(if d == 0 { if x == 0 { u64::MAX } else { x as u64 } } else { x as u64 * d }); }
        let e: Vec<(u64, u8)> = k.iter().map(|x| (*x, 1)).collect();
        let m = weigh!(n, 0, FzScalarMap::new(e));
        let s = weigh!(n, 0, FzScalarSet::new(k));
        ck!(m.len() == n && s.len() == n);
    }
    fn h_c19_q_hash_codes("2 entries, any 64-bit hash codes: memory kept and used while building") { hash_codes(2) }
    fn h_c19_t_hash_codes_3("3 entries, any 64-bit hash codes: memory kept and used while building") { hash_codes(3) }
    fn h_c19_q_hash_set_codes("2 values, any 64-bit hash codes: memory kept and used while building") {
        let t: [u64; 4] = core::array::from_fn(|_| nd::any_u64());
        let m = weigh!(2, 0, FzHashSet::with_hasher(vec![0u8, 1], TableHash(t)));
        ck!(m.len() == 2);
    }
    fn h_c19_q_hash_sizes("40 to 1100 entries whose hash codes are consecutive, equal, of two values, in the upper half, 64 apart, or mixed") {
        let n = [40, 127, 128, 130, 300, 999, 1000, 1100][nd::pick(8)];
        let h = Spread([0, 1, 2, 3, 4, MIX][nd::pick(6)]);
        nd::assume(n <= 300 || (h.0 != 3 && h.0 != 4));
        let m = weigh!(n, 0, FzHashMap::with_hasher(list32(&shuffled(n)), h));
        ck!(m.len() == n);
    }
    fn h_c19_q_hash_set_sizes("40 to 1100 values whose hash codes are consecutive, in the upper half, 64 apart, or mixed") {
        let n = [40, 128, 300, 1100][nd::pick(4)];
        let h = Spread([0, 1, 2, MIX][nd::pick(4)]);
        let m = weigh!(n, 0, FzHashSet::with_hasher(shuffled(n), h));
        ck!(m.len() == n);
    }
    fn h_c19_q_ordered_sizes("0 to 1100 entries with ordered keys: memory kept and used while building; map and set") {
        let n = [0, 1, 2, 3, 4, 5, 7, 8, 31, 300, 1100][nd::pick(11)];
        let e = list32(&shuffled(n));
        let k = shuffled(n);
        let m = weigh!(n, 0, FzOrderedMap::new(e));
        let s = weigh!(n, 0, FzOrderedSet::new(k));
        ck!(m.len() == n && s.len() == n);
    }
    fn h_c19_q_strings("1 to 130 strings of 1 to 1200 bytes (numbers after or before a common part, or nothing but lengths); map and set") {
        let n = [1usize, 3, 4, 20, 130][nd::pick(5)];
        let w = [0usize, 5, 200, 1000][nd::pick(4)];
        let shape = nd::pick(3);
        nd::assume(n < 130 || w < 1000);
        let mut k = Vec::with_capacity(n);
        let mut bytes = 0;
        for i in 0..n {
            let num = [b'a' + (i / 16) as u8, b'a' + (i & 15) as u8];
            let mut s = Vec::new();
            if shape == 1 { s.extend_from_slice(&num); }
            for _ in 0..w { s.push(b'x'); }
            if shape == 0 { s.extend_from_slice(&num); }
            if shape == 2 { for _ in 0..i { s.push(b'y'); } }
            bytes += s.len();
            k.push(unsafe { String::from_utf8_unchecked(s) });
        }
        let e: Vec<(&str, u8)> = k.iter().map(|x| (x.as_str(), 1u8)).collect();
        let l: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
        let m = weigh!(n, 2 * bytes, FzStringMap::with_hasher(e, ByteHash(0)));
        let s = weigh!(n, 2 * bytes, FzStringSet::with_hasher(l, ByteHash(0)));
        ck!(m.len() == n && s.len() == n);
    }

    fn h_c19_q_quiet_maps("every kind of map the library has, any query: lookups and iteration allocate nothing") {
        let k = nd::pick(OWN_KINDS);
        with_own_map!(k, |i| i, quiet_map)
    }
    fn h_c19_q_quiet_strings("7 kinds of string map, queries of up to 4 characters: lookups and iteration allocate nothing") {
        let k = nd::pick(STR_KINDS);
        with_str_map!(k, |i| i, quiet_map)
    }
    fn h_c19_q_quiet_sets("every kind of set the library has, any query: lookups, iteration and set algebra by reference allocate nothing") {
        let k = nd::pick(OWN_SET_KINDS);
        with_own_set!(k, quiet_set)
    }

    fn h_c19_q_cmp_ordered("ordered maps and sets of 1 to 64 entries, any query: comparisons per lookup at most 2 (log2 n + 1) + 2") {
        let n = 1 + nd::pick(64);
        let v = times3(shuffled(n));
        let m = FzOrderedMap::new(list32(&v));
        let s = FzOrderedSet::new(cs(&v));
        let q = nd::any_u8() as u32;
        count_map!(m, n, q, ordered_ok);
        count_set!(s, n, q, ordered_ok);
    }
    fn h_c19_q_cmp_ordered_large("ordered maps of 300 and 1100 entries, queries within windows of 64 around 4 places: comparisons per lookup") {
        let n = [300, 1100][nd::pick(2)];
        let m = FzOrderedMap::new(list32(&times3(shuffled(n))));
        let q = nd::bits(6) as u32 + [0, 3 * n as u32 / 2, 400, 3 * n as u32 - 32][nd::pick(4)];
        count_map!(m, n, q, ordered_ok);
    }
    fn h_c19_q_cmp_scalar("scalar maps of 4 to 300 entries 1, 3, 9 and 50 apart, any query of 8 bits around 3 places: comparisons per lookup") {
        let n = [4, 9, 40, 300][nd::pick(4)];
        let d = [1u32, 3, 9, 50][nd::pick(4)];
        let mut v = shuffled(n);
        for x in v.iter_mut() { *x *= d; }
        let m = FzScalarMap::new(list32(&v));
        let s = FzScalarSet::new(cs(&v));
        let q = (nd::bits(6) as u32).wrapping_add([0, n as u32 / 2 * d, (n as u32 - 1) * d][nd::pick(3)]);
        count_map!(m, n, q, ordered_ok);
        count_set!(s, n, q, ordered_ok);
    }
    fn h_c19_q_cmp_hash("hash maps of 1 to 40, 128, 300 entries with consecutive hash codes, queries of 6 bits around 3 places: at most one hash computation and 4 key comparisons per lookup") {
        let n = [1, 2, 3, 4, 5, 8, 17, 40, 128, 300][nd::pick(10)];
        let v = shuffled(n);
        let m = FzHashMap::with_hasher(list32(&v), Spread(0));
        let s = FzHashSet::with_hasher(cs(&v), Spread(0));
        let q = nd::bits(6) as u32 + [0, n as u32 / 2, 400][nd::pick(3)];
        count_map!(m, n, q, hash_ok);
        count_set!(s, n, q, hash_ok);
    }
    fn h_c19_q_cmp_macro("maps made by macros over computed keys, 4, 8 and 12 entries, any query: comparisons per lookup") {
        let k = |x: u32| C(x * 3);
        let q = nd::any_u8() as u32;
        match nd::pick(3) {
            0 => count_map!(fz_ordered_map!({ k(2): 0u8, k(0): 1, k(3): 2, k(1): 3 }), 4, q, ordered_ok),
            1 => count_map!(fz_ordered_map!({ k(2): 0u8, k(0): 1, k(3): 2, k(1): 3, k(7): 4, k(6): 5, k(5): 6, k(4): 7 }), 8, q, ordered_ok),
            _ => count_map!(fz_ordered_map!({ k(2): 0u8, k(0): 1, k(3): 2, k(1): 3, k(7): 4, k(6): 5, k(5): 6, k(4): 7, k(8): 8, k(11): 9, k(10): 10, k(9): 11 }), 12, q, ordered_ok),
        }
    }
    fn h_c19_q_build_ordered("ordered and scalar maps and sets from 2 to 1100 entries in 7 orders: at most 4 n (log2 n + 1) comparisons") {
        let n = [2, 20, 21, 64, 300, 1100][nd::pick(6)];
        let o = nd::pick(7);
        let v = given(n, o);
        let max = 4 * n as u64 * log2(n);
        reset();
        let m = FzOrderedMap::new(list32(&v));
        ck!(cmps() + eqs() <= max);
        reset();
        let s = FzOrderedSet::new(cs(&v));
        ck!(cmps() + eqs() <= max);
        reset();
        let t = FzScalarMap::new(list32(&v));
        ck!(cmps() + eqs() <= max);
        ck!(m.len() == s.len() && m.len() == t.len());
    }
    fn h_c19_q_build_hash("hash maps and sets from 2 to 1100 entries in 7 orders with well-spread hash codes: at most 16 n equality tests, 4 n + 16 hash computations") {
        let n = [2, 20, 64, 300, 1100][nd::pick(5)];
        let o = nd::pick(7);
        let v = given(n, o);
        reset();
        let m = FzHashMap::with_hasher(list32(&v), Spread(MIX));
        ck!(cmps() + eqs() <= 16 * n as u64 && hashed() <= 4 * n as u64 + 16);
        reset();
        let s = FzHashSet::with_hasher(cs(&v), Spread(MIX));
        ck!(cmps() + eqs() <= 16 * n as u64 && hashed() <= 4 * n as u64 + 16);
        ck!(m.len() == s.len());
    }
}
