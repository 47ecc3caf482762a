//! Oracles shared by the harnesses: the association-list meaning of a map built from a list of entries.

/// Position of the last entry whose key equals `q` (last one wins), or None.
#[inline(always)]
pub fn last<K: PartialEq<Q>, Q: ?Sized>(keys: &[K], q: &Q) -> Option<u8> {
    let mut r = None;
    let mut i = keys.len();
    while i > 0 {
        i -= 1;
        if keys[i] == *q {
            r = Some(i as u8);
            break;
        }
    }
    r
}

/// Number of distinct keys.
#[inline(always)]
pub fn distinct<K: PartialEq>(keys: &[K]) -> usize {
    let mut n = 0;
    for i in 0..keys.len() {
        let mut dup = false;
        for j in 0..i {
            dup |= keys[j] == keys[i];
        }
        n += !dup as usize;
    }
    n
}

/// Checks every read entry point of a map `m` (values = entry positions) against the model at query `q`.
#[macro_export]
macro_rules! ck_lookup {
    ($m:expr, $keys:expr, $q:expr) => {{
        let exp = $crate::model::last(&$keys[..], &$q);
        let got = $m.get(&$q);
        $crate::nd::obs_opt(got);
        $crate::ck!(got.copied() == exp);
        $crate::ck!($m.contains_key(&$q) == exp.is_some());
        match $m.get_key_value(&$q) {
            Some((k, v)) => $crate::ck!(*k == $q && Some(*v) == exp),
            None => $crate::ck!(exp.is_none()),
        }
        $crate::ck!($m.get_mut(&$q).copied() == exp);
    }};
}

/// Checks every read entry point of a map (and through the query traits) against an expected value.
#[macro_export]
macro_rules! ck_map {
    ($m:expr, $q:expr, $exp:expr) => {{
        let exp: Option<u8> = $exp;
        let got = $m.get($q);
        $crate::nd::obs_opt(got);
        $crate::ck!(got.copied() == exp);
        $crate::ck!($m.contains_key($q) == exp.is_some());
        match $m.get_key_value($q) {
            Some((k, v)) => $crate::ck!($crate::model::same(k, $q) && Some(*v) == exp),
            None => $crate::ck!(exp.is_none()),
        }
        $crate::ck!($m.get_mut($q).copied() == exp);
    }};
}

/// Equality between a stored key and a query.
pub fn same<K: core::borrow::Borrow<Q> + ?Sized, Q: PartialEq + ?Sized>(k: &K, q: &Q) -> bool {
    k.borrow() == q
}

/// The same through the public traits, on any map type.
#[inline(never)]
pub fn ck_map_traits<K, Q: ?Sized + PartialEq, M>(m: &mut M, q: &Q, exp: Option<u8>, len: usize)
where
    K: core::borrow::Borrow<Q>,
    M: frozen_collections::Map<K, u8, Q> + frozen_collections::MapExtras<K, u8, Q>,
{
    use frozen_collections::*;
    crate::ck!(MapQuery::get(m, q).copied() == exp);
    crate::ck!(MapQuery::contains_key(m, q) == exp.is_some());
    crate::ck!(MapQuery::get_mut(m, q).copied() == exp);
    match MapExtras::get_key_value(m, q) {
        Some((k, v)) => crate::ck!(k.borrow() == q && Some(*v) == exp),
        None => crate::ck!(exp.is_none()),
    }
    crate::ck!(Len::len(m) == len);
    crate::ck!(Len::is_empty(m) == (len == 0));
}

/// A set's read entry points, inherent-free (through the public traits).
#[inline(never)]
pub fn ck_set_traits<T, Q: ?Sized + PartialEq, S>(s: &S, q: &Q, exp: bool, len: usize)
where
    T: core::borrow::Borrow<Q>,
    S: frozen_collections::Set<T, Q> + frozen_collections::SetExtras<T, Q>,
{
    use frozen_collections::*;
    crate::ck!(SetQuery::contains(s, q) == exp);
    match SetExtras::get(s, q) {
        Some(t) => crate::ck!(exp && t.borrow() == q),
        None => crate::ck!(!exp),
    }
    crate::ck!(Len::len(s) == len);
    crate::ck!(Len::is_empty(s) == (len == 0));
}

#[inline(always)]
pub fn entries<K: Copy>(k: &[K]) -> Vec<(K, u8)> {
    let mut v = Vec::with_capacity(k.len());
    let mut i = 0;
    while i < k.len() {
        v.push((k[i], i as u8));
        i += 1;
    }
    v
}

/// A string of at most `max` symbolic ASCII characters (one path per length).
pub fn word(max: usize) -> String {
    let n = crate::nd::pick(max + 1);
    word_n(n)
}
pub fn word_n(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let c = crate::nd::any_u8();
        crate::nd::assume(c < 128);
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Hash functions given as a table over small keys: `hash(k) = table[k % N]`.
#[derive(Clone)]
pub struct TableHash<const N: usize>(pub [u64; N]);
pub struct TableState<const N: usize>([u64; N], u8);
impl<const N: usize> core::hash::BuildHasher for TableHash<N> {
    type Hasher = TableState<N>;
    #[inline(always)]
    fn build_hasher(&self) -> TableState<N> {
        TableState(self.0, 0)
    }
}
impl<const N: usize> core::hash::Hasher for TableState<N> {
    #[inline(always)]
    fn finish(&self) -> u64 {
        self.0[self.1 as usize % N]
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = *x;
        }
    }
    #[inline(always)]
    fn write_u8(&mut self, b: u8) {
        self.1 = b;
    }
}

/// A family of simple hash functions over bytes: mode 0 packs the bytes, 1 is constant, 2 is spread over the
/// upper half, 3 keeps two bits only, 4 shifts everything out of the low bits.
#[derive(Clone, Default)]
pub struct ByteHash(pub u8);
pub struct ByteState(u8, u64);
impl core::hash::BuildHasher for ByteHash {
    type Hasher = ByteState;
    #[inline(always)]
    fn build_hasher(&self) -> ByteState {
        ByteState(self.0, 0)
    }
}
impl core::hash::Hasher for ByteState {
    #[inline(always)]
    fn finish(&self) -> u64 {
        match self.0 {
            0 => self.1,
            1 => 5,
            2 => self.1 ^ (self.1 << 57),
            3 => self.1 & 3,
            _ => self.1 << 40,
        }
    }
    #[inline(always)]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.rotate_left(8) ^ *x as u64;
        }
    }
    #[inline(always)]
    fn write_u8(&mut self, b: u8) {
        self.1 = self.1.rotate_left(8) ^ b as u64;
    }
    #[inline(always)]
    fn write_u16(&mut self, b: u16) {
        self.1 = self.1.rotate_left(16) ^ b as u64;
    }
    #[inline(always)]
    fn write_u32(&mut self, b: u32) {
        self.1 = self.1.rotate_left(32) ^ b as u64;
    }
    #[inline(always)]
    fn write_u64(&mut self, b: u64) {
        self.1 ^= b;
    }
    #[inline(always)]
    fn write_usize(&mut self, b: usize) {
        self.1 = self.1.rotate_left(8) ^ b as u64;
    }
}

/// Key numbers of a list of `n` entries over `k` keys, every key given several times when n > k.
pub fn repeats(n: usize, k: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((i * 7 % k) as u8);
    }
    v
}
/// List lengths around the sort and dedup algorithms' thresholds, and numbers of distinct keys.
pub const REPEAT_N: [usize; 6] = [17, 21, 33, 50, 64, 130];
pub const REPEAT_K: [usize; 5] = [1, 2, 5, 16, 30];
