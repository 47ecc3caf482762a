//! C07: get_disjoint_mut hands out references to different entries only, the ones individual lookups find.
use crate::kinds::*;
use crate::{with_large, ck, cov, harnesses, model, nd, with_map, with_own_map, with_str_map};
use core::hash::{Hash, Hasher as _};
use frozen_collections::*;

fn pos<Q: PartialEq>(k: &[Q], q: &Q) -> Option<u8> {
    let mut r = None;
    for i in 0..k.len() {
        if k[i] == *q {
            r = Some(i as u8);
        }
    }
    r
}
fn dup<Q: PartialEq, const N: usize>(q: &[Q; N]) -> bool {
    let mut d = false;
    for i in 0..N {
        for j in 0..i {
            d |= q[i] == q[j];
        }
    }
    d
}

/// `strict`: a repeated key panics even when the map does not have it (everything but the standard hash maps).
fn go<K, Q, M, const N: usize>(m: &mut M, k: &[Q], q: [Q; N], unchecked: bool, strict: bool)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + Len,
{
    let d = dup(&q);
    if N > 1 {
        cov!(d);
    }
    cov!(!d);
    let mut refs = [&q[0]; N];
    for i in 0..N {
        refs[i] = &q[i];
    }
    let mut exp = [None; N];
    for i in 0..N {
        exp[i] = pos(k, &q[i]);
    }
    if d {
        if unchecked {
            return;
        }
        let mut must = strict;
        for i in 0..N {
            for j in 0..i {
                must |= q[i] == q[j] && exp[i].is_some();
            }
        }
        nd::panic_ok(true);
        let r = m.get_disjoint_mut(refs);
        nd::panic_ok(false);
        // repeated keys the map does not have: nothing to hand out twice
        ck!(!must);
        for i in 0..N {
            ck!(r[i].as_ref().map(|v| **v) == exp[i]);
        }
        return;
    }
    let r = if unchecked { unsafe { m.get_disjoint_unchecked_mut(refs) } } else { m.get_disjoint_mut(refs) };
    let mut i = 0;
    for v in r {
        ck!(v.as_ref().map(|v| **v) == exp[i]);
        if let Some(v) = v {
            *v = 100 + i as u8;
        }
        i += 1;
    }
    for (p, key) in k.iter().enumerate() {
        let mut e = p as u8;
        for i in 0..N {
            if exp[i] == Some(p as u8) {
                e = 100 + i as u8;
            }
        }
        ck!(m.get(key).copied() == Some(e));
    }
    ck!(m.len() == k.len());
}
fn id(i: u8) -> u8 {
    i
}
macro_rules! arity {
    ($f:ident, $n:literal, $unchecked:expr) => {
        fn $f<K, Q, M>(mut m: M, k: &[Q], q: impl Fn() -> Q)
        where
            Q: PartialEq + Copy + Eq,
            M: Map<K, u8, Q> + Len,
        {
            go::<K, Q, M, $n>(&mut m, k, core::array::from_fn(|_| q()), $unchecked, true)
        }
    };
}
arity!(one, 1, false);
arity!(two, 2, false);
arity!(three, 3, false);
arity!(four, 4, false);
arity!(unchecked2, 2, true);
arity!(unchecked3, 3, true);

fn std_maps<const N: usize>(unchecked: bool) {
    let k = [6u8, 1, 9, 7];
    macro_rules! build { ($m:expr) => {{ let mut m = $m; for e in list(&k, id) { m.insert(e.0, e.1); } m }}; }
    match nd::pick(3) {
        0 => { let mut m = build!(std::collections::HashMap::with_hasher(model::ByteHash(0))); go::<u8, u8, _, N>(&mut m, &k, core::array::from_fn(|_| nd::any_u8()), unchecked, false) }
        1 => { let mut m = build!(hashbrown::HashMap::with_hasher(model::ByteHash(0))); go::<u8, u8, _, N>(&mut m, &k, core::array::from_fn(|_| nd::any_u8()), unchecked, false) }
        _ => { let mut m = build!(std::collections::BTreeMap::new()); go::<u8, u8, _, N>(&mut m, &k, core::array::from_fn(|_| nd::any_u8()), unchecked, true) }
    }
}

/// A query type with an equality of its own, finer than what it is to the map's keys.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Fine(u8, u8);
impl Hash for Fine {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.0)
    }
}
impl equivalent::Equivalent<u8> for Fine {
    fn equivalent(&self, k: &u8) -> bool {
        self.0 == *k
    }
}
impl equivalent::Comparable<u8> for Fine {
    fn compare(&self, k: &u8) -> core::cmp::Ordering {
        self.0.cmp(k)
    }
}
impl Scalar for Fine {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
/// A key whose order ignores part of it.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Coarse(u8, u8);
impl PartialOrd for Coarse {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Coarse {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

fn aliasing<K, M: MapExtras<K, u8, Q>, Q: Eq>(mut m: M, q: [Q; 2]) {
    nd::panic_ok(true);
    let r = m.get_disjoint_mut([&q[0], &q[1]]);
    nd::panic_ok(false);
    let [a, b] = r;
    if let (Some(a), Some(b)) = (a, b) {
        let (x, y) = (a as *mut u8, b as *mut u8);
        ck!(x != y);
    }
}
fn fine() -> [Fine; 2] {
    [Fine(nd::any_u8(), nd::any_u8()), Fine(nd::any_u8(), nd::any_u8())]
}

/// Many keys at once: distinct ones, some unknown, two of them any.
fn many<K, M, const N: usize>(mut m: M, k: &[u8], _: impl Fn() -> u8)
where
    M: Map<K, u8, u8> + Len,
{
    let mut q = [0u8; N];
    for i in 0..N { q[i] = i as u8; }
    let (a, b) = [(0, 1), (0, N - 1), (N - 2, N - 1), (7, 8)][nd::pick(4)];
    q[a] = nd::any_u8();
    q[b] = nd::any_u8();
    go::<K, u8, M, N>(&mut m, k, q, false, true)
}
macro_rules! many_large { ($m:expr, $n:expr, $s:expr) => {{
    let (mut m, n, s): (_, usize, u16) = ($m, $n, $s);
    let (q1, r1) = crate::large::narrow(n, s);
    let (q2, r2) = crate::large::narrow(n, s);
    if q1 == q2 { nd::panic_ok(true); }
    let [a, b] = m.get_disjoint_mut([&q1, &q2]);
    nd::panic_ok(false);
    ck!(q1 != q2);
    ck!(a.as_ref().map(|v| **v) == r1.map(|j| j + 1) && b.as_ref().map(|v| **v) == r2.map(|j| j + 1));
    if let Some(a) = a { *a = 30_000; }
    if let Some(b) = b { *b = 30_001; }
    ck!(m.get(&q1).copied() == r1.map(|_| 30_000) && m.get(&q2).copied() == r2.map(|_| 30_001));
    cov!(r1.is_some() && r2.is_some());
}}; }

fn ten<K, M: Map<K, u8, u8> + Len>(m: M, k: &[u8], q: impl Fn() -> u8) { many::<K, M, 10>(m, k, q) }
fn seventeen<K, M: Map<K, u8, u8> + Len>(m: M, k: &[u8], q: impl Fn() -> u8) { many::<K, M, 17>(m, k, q) }

harnesses! {
    fn h_c07_q_ten("16 kinds of frozen map: ten keys at once, eight of them 0 to 9, two any u8") { with_own_map!(nd::pick(OWN_KINDS), id, ten) }
    fn h_c07_q_seventeen("5 kinds of frozen map: seventeen keys at once, fifteen of them 0 to 16, two any u8") { with_own_map!([0, 1, 4, 5, 10][nd::pick(5)], id, seventeen) }
    fn h_c07_q_large("maps of 300 and 1100 u16 keys, ten kinds: two queries, each within windows of 4 around 8 places") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j + 1, many_large) }
    fn h_c07_q_two("16 kinds of frozen map: any two u8 keys, every aliasing and presence pattern") { with_own_map!(nd::pick(OWN_KINDS), id, two) }
    fn h_c07_q_three("16 kinds of frozen map: any three u8 keys") { with_own_map!(nd::pick(OWN_KINDS), id, three) }
    fn h_c07_q_one("16 kinds of frozen map: one key") { with_own_map!(nd::pick(OWN_KINDS), id, one) }
    fn h_c07_t_four("16 kinds of frozen map: any four u8 keys") { with_own_map!(nd::pick(OWN_KINDS), id, four) }
    fn h_c07_q_unchecked2("16 kinds of frozen map: get_disjoint_unchecked_mut, any two different u8 keys") { with_own_map!(nd::pick(OWN_KINDS), id, unchecked2) }
    fn h_c07_t_unchecked3("16 kinds of frozen map: get_disjoint_unchecked_mut, any three different u8 keys") { with_own_map!(nd::pick(OWN_KINDS), id, unchecked3) }
    fn h_c07_q_std2("std HashMap, BTreeMap, hashbrown HashMap through MapExtras: any two u8 keys") { std_maps::<2>(false) }
    fn h_c07_q_std3("std HashMap, BTreeMap, hashbrown HashMap through MapExtras: any three u8 keys") { std_maps::<3>(false) }
    fn h_c07_q_std_unchecked("std HashMap, BTreeMap, hashbrown HashMap: get_disjoint_unchecked_mut, any two different u8 keys") { std_maps::<2>(true) }
    fn h_c07_q_str("string-keyed maps (7): any two queries (4 symbolic ASCII characters, or 18 listed strings)") { with_str_map!(nd::pick(STR_KINDS), id, two) }
    fn h_c07_q_str_unchecked("string-keyed maps (7): get_disjoint_unchecked_mut") { with_str_map!(nd::pick(STR_KINDS), id, unchecked2) }
    fn h_c07_q_fine("a query type whose equality is finer than its equivalence, order or index against the map's keys: six maps, any two queries, never the same entry twice") {
        let k = [3u8, 4, 9, 200];
        let d = [3u8, 4, 5];
        match nd::pick(7) {
            0 => aliasing::<u8, _, Fine>(FzHashMap::with_hasher(list(&k, id), model::ByteHash(0)), fine()),
            1 => aliasing::<u8, _, Fine>(FzOrderedMap::new(list(&k, id)), fine()),
            2 => aliasing::<u8, _, Fine>(FzScalarMap::new(list(&d, id)), fine()),
            3 => aliasing::<u8, _, Fine>(FzScalarMap::new(list(&k, id)), fine()),
            4 => aliasing::<u8, _, Fine>(FzHashMap::with_hasher(list(&k[..2], id), model::ByteHash(0)), fine()),
            5 => {
                let m: std::collections::BTreeMap<Coarse, u8> = [(Coarse(3, 0), 0u8), (Coarse(7, 1), 1)].into_iter().collect();
                let q = [Coarse(nd::any_u8(), nd::any_u8()), Coarse(nd::any_u8(), nd::any_u8())];
                aliasing::<Coarse, _, Coarse>(m, q)
            }
            _ => {
                let m = FzOrderedMap::new([(Coarse(3, 0), 0u8), (Coarse(7, 1), 1)].to_vec());
                let q = [Coarse(nd::any_u8(), nd::any_u8()), Coarse(nd::any_u8(), nd::any_u8())];
                aliasing::<Coarse, _, Coarse>(m, q)
            }
        }
    }
    fn h_c07_q_inherent("the inherent get_disjoint_mut of the five map types, any two keys") {
        macro_rules! run { ($m:expr, $k:expr) => {{
            let k = $k;
            let mut m = $m;
            let q = [nd::any_u8(), nd::any_u8()];
            if q[0] == q[1] { nd::panic_ok(true); }
            let [a, b] = m.get_disjoint_mut([&q[0], &q[1]]);
            nd::panic_ok(false);
            ck!(q[0] != q[1]);
            ck!(a.as_ref().map(|v| **v) == pos(&k, &q[0]) && b.as_ref().map(|v| **v) == pos(&k, &q[1]));
            if let Some(a) = a { *a = 200; }
            if let Some(b) = b { *b = 201; }
            for (i, x) in k.iter().enumerate() {
                ck!(m.get(x).copied() == Some(if *x == q[0] { 200 } else if *x == q[1] { 201 } else { i as u8 }));
            }
        }}; }
        match nd::pick(6) {
            0 => { let k = [5u8, 3, 4]; run!(FzScalarMap::new(list(&k, id)), k) }
            1 => { let k = [5u8, 3, 9]; run!(FzScalarMap::new(list(&k, id)), k) }
            2 => { let k = [5u8, 3, 9, 1]; run!(FzOrderedMap::new(list(&k, id)), k) }
            3 => { let k = [5u8, 3, 9, 1]; run!(FzHashMap::with_hasher(list(&k, id), model::ByteHash(0)), k) }
            4 => { let k = [5u8, 3, 9, 1]; run!(fz_scalar_map!({ 5u8: 0u8, 3u8: 1, 9u8: 2, 1u8: 3 }), k) }
            _ => { let k = [5u8, 3, 9, 1]; run!(fz_ordered_map!({ k[0]: 0u8, k[1]: 1, k[2]: 2, k[3]: 3 }), k) }
        }
    }
    fn h_c07_q_zst("maps with zero-sized values: different keys are handed out even though the values share an address") {
        let q = [nd::any_u8(), nd::any_u8()];
        if q[0] == q[1] { nd::panic_ok(true); }
        let k = [3u8, 4, 9];
        macro_rules! run { ($m:expr) => {{
            let mut m = $m;
            let [a, b] = m.get_disjoint_mut([&q[0], &q[1]]);
            nd::panic_ok(false);
            ck!(q[0] != q[1]);
            ck!(a.is_some() == pos(&k, &q[0]).is_some() && b.is_some() == pos(&k, &q[1]).is_some());
        }}; }
        match nd::pick(3) {
            0 => run!(FzScalarMap::new(list(&k, |_| ()))),
            1 => run!(FzOrderedMap::new(list(&k, |_| ()))),
            _ => run!(FzHashMap::with_hasher(list(&k, |_| ()), model::ByteHash(0))),
        }
    }
}
