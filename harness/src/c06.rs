//! C06: writing through a mutable reference changes that entry's value and nothing else.
use crate::{with_large, ck, cov, harnesses, model, nd, with_map, with_str_map};
use crate::kinds::*;

fn pos<Q: PartialEq>(k: &[Q], q: &Q) -> Option<u8> {
    let mut r = None;
    for i in 0..k.len() {
        if k[i] == *q {
            r = Some(i as u8);
        }
    }
    r
}

/// One write through `get_mut` for an arbitrary query, then every entry is looked at.
fn one<K, Q, M>(mut m: M, k: &[Q], q: impl Fn() -> Q)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + Len,
{
    let q = q();
    let p = pos(k, &q);
    cov!(p.is_some());
    cov!(p.is_none());
    let x = nd::any_u8();
    let wrote = match m.get_mut(&q) {
        Some(v) => {
            *v = x;
            true
        }
        None => false,
    };
    ck!(wrote == p.is_some());
    after(&m, k, |i| if Some(i) == p { x } else { i });
}

/// Every entry has the expected value, by lookup and by iteration, and there is nothing else.
fn after<K, Q, M>(m: &M, k: &[Q], exp: impl Fn(u8) -> u8)
where
    M: Map<K, u8, Q> + Len,
{
    ck!(Len::len(m) == k.len());
    let mut sum = 0u32;
    let mut es = 0u32;
    for (i, key) in k.iter().enumerate() {
        let e = exp(i as u8);
        es += e as u32;
        ck!(m.get(key).copied() == Some(e));
        ck!(MapExtras::<K, u8, Q>::get_key_value(m, key).map(|x| *x.1) == Some(e));
    }
    let mut n = 0;
    for (_, v) in MapIteration::iter(m) {
        sum += *v as u32;
        n += 1;
    }
    ck!(n == k.len() && sum == es);
    let mut sum = 0u32;
    for v in MapIteration::values(m) {
        sum += *v as u32;
    }
    ck!(sum == es);
}

/// One write for any query in a large map: it lands where a lookup finds it, the entries around it stay.
fn large<M: Map<u16, u8, u16> + Len>(mut m: M, k: &[u16], q: impl Fn() -> u16) {
    let q = q();
    // the keys are multiples of `k[1]`
    let p = if q % k[1] == 0 && ((q / k[1]) as usize) < k.len() { Some((q / k[1]) as usize) } else { None };
    match m.get_mut(&q) {
        Some(v) => {
            ck!(Some(*v as usize) == p);
            *v = 255;
        }
        None => ck!(p.is_none()),
    }
    ck!(m.get(&q).copied() == p.map(|_| 255));
    let mut n = 0;
    for v in m.values() {
        n += (*v == 255) as usize;
    }
    ck!(n == p.is_some() as usize && Len::len(&m) == k.len());
}

/// Writes through iter_mut, values_mut: all entries, or only the first few.
fn many<K, Q, M>(mut m: M, k: &[Q], _q: impl Fn() -> Q)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + Len,
{
    let x = nd::any_u8();
    match nd::pick(4) {
        0 => {
            for (_, v) in m.iter_mut() {
                *v = v.wrapping_add(x);
            }
            after(&m, k, |i| i.wrapping_add(x));
        }
        1 => {
            for v in m.values_mut() {
                *v = v.wrapping_add(x);
            }
            after(&m, k, |i| i.wrapping_add(x));
        }
        2 => {
            m.iter_mut().fold((), |_, (_, v)| *v = v.wrapping_add(x));
            m.values_mut().for_each(|v| *v ^= x);
            after(&m, k, |i| i.wrapping_add(x) ^ x);
        }
        _ => {
            // the first entry in iteration order only
            let mut which = 0;
            if let Some((_, v)) = m.iter_mut().next() {
                which = *v;
                *v = x;
            }
            after(&m, k, |i| if i == which { x } else { i });
        }
    }
}

/// Two writes in sequence: the second through a possibly different query; earlier writes stay.
fn two<K, Q, M>(mut m: M, k: &[Q], q: impl Fn() -> Q)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + Len,
{
    let (a, b) = (q(), q());
    let (pa, pb) = (pos(k, &a), pos(k, &b));
    if let Some(v) = m.get_mut(&a) {
        *v = 100;
    }
    if let Some(v) = m.get_mut(&b) {
        ck!(*v == if pa == pb { 100 } else { pb.unwrap_or(0) });
        *v = 101;
    }
    after(&m, k, |i| if Some(i) == pb { 101 } else if Some(i) == pa { 100 } else { i });
}

/// A clone does not see writes to the original, nor the other way round.
fn cloned<K, Q, M>(mut m: M, k: &[Q], q: impl Fn() -> Q)
where
    Q: PartialEq + Copy + Eq,
    M: Map<K, u8, Q> + Len + Clone,
{
    let mut c = m.clone();
    let q = q();
    let p = pos(k, &q);
    if let Some(v) = m.get_mut(&q) {
        *v = 77;
    }
    after(&c, k, |i| i);
    for v in c.values_mut() {
        *v += 1;
    }
    after(&c, k, |i| i + 1);
    after(&m, k, |i| if Some(i) == p { 77 } else { i });
}

fn id(i: u8) -> u8 {
    i
}

/// A write in a large map lands on the entry found, and changes no other.
macro_rules! write_large { ($m:expr, $n:expr, $s:expr) => {{
    let (mut m, n, s): (_, usize, u16) = ($m, $n, $s);
    let x = nd::any_u16();
    let (q, r) = crate::large::narrow(n, s);
    match m.get_mut(&q) {
        Some(v) => { ck!(r.map(|j| j + 1) == Some(*v)); *v = x; }
        None => ck!(r.is_none()),
    }
    cov!(r.is_some());
    // which entry it was is known from here on
    let r = nd::split(r.map_or(9999, |j| j as u64)) as u16;
    let mut j = 0;
    while j < n as u16 {
        ck!(m.get(&(j * s + 5)).copied() == Some(if j == r { x } else { j + 1 }));
        j += 1;
    }
    ck!(m.len() == n);
}}; }
macro_rules! write_all_large { ($m:expr, $n:expr, $s:expr) => {{
    let (mut m, n, s): (_, usize, u16) = ($m, $n, $s);
    match nd::pick(3) {
        0 => for (_, v) in m.iter_mut() { *v = *v ^ 0x4000; },
        1 => for v in m.values_mut() { *v = *v ^ 0x4000; },
        _ => { let mut j = 0; while j < n as u16 { *m.get_mut(&(j * s + 5)).unwrap() ^= 0x4000; j += 1; } }
    }
    let mut j = 0;
    while j < n as u16 {
        ck!(m.get(&(j * s + 5)).copied() == Some((j + 1) ^ 0x4000));
        j += 1;
    }
    let mut c = 0;
    for (k, v) in m.iter() { ck!(*v == ((*k - 5) / s + 1) ^ 0x4000); c += 1; }
    ck!(c == n);
}}; }

harnesses! {
    fn h_c06_q_large2("maps of 300 and 1100 u16 keys, ten kinds: one write of any value for queries within windows of 4 around 8 places; every entry afterwards") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j + 1, write_large) }
    fn h_c06_q_large_all("maps of 300 and 1100 u16 keys, ten kinds: every value written through iter_mut, values_mut and get_mut") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j + 1, write_all_large) }
    fn h_c06_q_one("every kind of map (19): one write through get_mut for any u8 query, any value written") { with_map!(nd::pick(MAP_KINDS), id, one) }
    fn h_c06_q_two("every kind of map (19): two writes in sequence for any two u8 queries") { with_map!(nd::pick(MAP_KINDS), id, two) }
    fn h_c06_q_many("every kind of map (19): writes through iter_mut and values_mut, loops and fold, any value") { with_map!(nd::pick(MAP_KINDS), id, many) }
    fn h_c06_q_cloned("every kind of map (19): clone, then writes to either") { with_map!(nd::pick(MAP_KINDS), id, cloned) }
    fn h_c06_q_str_one("string-keyed maps (7): one write for queries of up to 4 symbolic ASCII characters (3 kinds) or 18 listed strings (4 kinds)") { with_str_map!(nd::pick(STR_KINDS), id, one) }
    fn h_c06_q_str_many("string-keyed maps (7): writes through iter_mut and values_mut") { with_str_map!(nd::pick(STR_KINDS), id, many) }
    fn h_c06_q_str_cloned("string-keyed maps (7): clone, then writes to either") { with_str_map!(nd::pick(STR_KINDS), id, cloned) }
    fn h_c06_q_large("hash, ordered, scalar maps of 40 and 130 entries, hash functions with many collisions: one write for any u16 query") {
        let n = [40usize, 130][nd::pick(2)];
        let mut k = Vec::with_capacity(n);
        for i in 0..n as u16 { k.push(i * 3); }
        let v = list(&k, id);
        let w = nd::pick(5);
        let q = || nd::any_u16();
        match w {
            0 => large(FzHashMap::with_hasher(v, model::ByteHash(0)), &k, q),
            1 => large(FzHashMap::with_hasher(v, model::ByteHash(3)), &k, q),
            2 => large(FzOrderedMap::new(v), &k, q),
            3 => large(FzScalarMap::new(v), &k, q),
            _ => { for x in k.iter_mut() { *x *= 100; } large(FzScalarMap::new(list(&k, id)), &k, q) }
        }
    }
    fn h_c06_q_ref_loop("`for (k, v) in &mut map` on six frozen maps: writes land, keys stay") {
        let x = nd::any_u8();
        macro_rules! go { ($m:expr, $k:expr) => {{
            let k = $k;
            let mut m = $m;
            for (key, v) in &mut m { *v = key.wrapping_add(x); }
            for (i, key) in k.iter().enumerate() { let _ = i; ck!(m.get(key).copied() == Some(key.wrapping_add(x))); }
            for (key, v) in &m { ck!(*v == key.wrapping_add(x)); }
            ck!(m.len() == k.len());
        }}; }
        match nd::pick(6) {
            0 => { let k = [5u8, 3, 4]; go!(FzScalarMap::new(list(&k, id)), k) }
            1 => { let k = [5u8, 3, 9]; go!(FzScalarMap::new(list(&k, id)), k) }
            2 => { let k = [5u8, 3, 9, 1]; go!(FzOrderedMap::new(list(&k, id)), k) }
            3 => { let k = [5u8, 3, 9, 1]; go!(FzHashMap::with_hasher(list(&k, id), model::ByteHash(0)), k) }
            4 => { let k = [5u8, 3, 9, 1]; go!(fz_scalar_map!({ 5u8: 0u8, 3u8: 1, 9u8: 2, 1u8: 3 }), k) }
            _ => { let k = [5u8, 3, 9, 1]; go!(fz_ordered_map!({ k[0]: 0u8, k[1]: 1, k[2]: 2, k[3]: 3 }), k) }
        }
    }
}
