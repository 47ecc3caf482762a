//! C08: every iterator yields each entry exactly once and reports its remaining length exactly.
use crate::kinds::*;
use crate::{with_large, with_large_set, ck, cov, harnesses, model, nd, with_map, with_own_map, with_str_map, with_set};
use frozen_collections::*;

/// Runs an iterator that must yield `n` items in one of several ways, with the first items taken one by one.
/// `see` gets every item consumed, and which one it is in the order `next` yields them.
fn run<I: Iterator>(mut it: I, n: usize, mut see: impl FnMut(usize, I::Item)) -> bool {
    let first = nd::below(n as u64 + 1) as usize;
    let mode = nd::pick(5);
    let mut left = n;
    ck!(it.size_hint() == (left, Some(left)));
    let mut i = 0;
    while i < first {
        match it.next() {
            Some(x) => see(i, x),
            None => ck!(false),
        }
        left -= 1;
        ck!(it.size_hint() == (left, Some(left)));
        i += 1;
    }
    match mode {
        0 => {
            while let Some(x) = it.next() {
                ck!(left > 0);
                see(n - left, x);
                left -= 1;
                ck!(it.size_hint() == (left, Some(left)));
            }
            ck!(left == 0);
            ck!(it.next().is_none() && it.next().is_none());
            ck!(it.size_hint() == (0, Some(0)));
            true
        }
        1 => {
            let r = it.fold(0usize, |a, x| {
                see(first + a, x);
                a + 1
            });
            ck!(r == left);
            true
        }
        2 => {
            ck!(it.count() == left);
            false
        }
        3 => {
            let skip = nd::below(n as u64 + 2) as usize;
            match it.nth(skip) {
                Some(x) => {
                    ck!(skip < left);
                    see(first + skip, x);
                    left -= skip + 1;
                    ck!(it.size_hint() == (left, Some(left)));
                    ck!(it.count() == left);
                }
                None => ck!(skip >= left),
            }
            false
        }
        _ => {
            match it.last() {
                Some(x) => {
                    ck!(left > 0);
                    see(n - 1, x);
                }
                None => ck!(left == 0),
            }
            false
        }
    }
}

/// Which entries were seen: none twice.
struct Seen(u32);
impl Seen {
    fn mark(&mut self, p: u8) {
        ck!(p < 32 && self.0 >> p & 1 == 0);
        self.0 |= 1 << p;
    }
    fn done(&self, whole: bool, n: usize) {
        ck!(!whole || self.0 == (1u32 << n) - 1);
    }
}

pub trait KeyIs<Q> {
    fn is(&self, q: &Q) -> bool;
}
impl KeyIs<u8> for u8 {
    fn is(&self, q: &u8) -> bool {
        self == q
    }
}
impl KeyIs<&'static str> for &'static str {
    fn is(&self, q: &&'static str) -> bool {
        self == q
    }
}
impl KeyIs<&'static str> for Box<str> {
    fn is(&self, q: &&'static str) -> bool {
        **self == **q
    }
}
fn pos<K: KeyIs<Q>, Q>(k: &[Q], q: &K) -> u8 {
    let mut r = 255;
    for i in 0..k.len() {
        if q.is(&k[i]) {
            r = i as u8;
        }
    }
    r
}

type V = (u8, u8);
/// Everything a map can be iterated by. `x` is what the values carry next to their position.
fn map<K: KeyIs<Q>, Q, M: Map<K, V, Q> + Len>(mut m: M, k: &[Q], x: u8) {
    let n = k.len();
    let mut s = Seen(0);
    let ok = |v: &V| v.1 == x.wrapping_add(v.0);
    let which = nd::pick(8);
    // however an iterator is consumed, its items come in the order `next` yields them
    let mut o = [255u8; 32];
    match which {
        0 => order(MapIteration::iter(&m), |(_, v)| v.0, &mut o),
        1 => order(MapIteration::iter_mut(&mut m), |(_, v)| v.0, &mut o),
        2 => order(MapIteration::keys(&m), |key| pos(k, key), &mut o),
        3 => order(MapIteration::values(&m), |v| v.0, &mut o),
        4 => order(MapIteration::values_mut(&mut m), |v| v.0, &mut o),
        _ => {}
    }
    let w = match which {
        0 => run(MapIteration::iter(&m), n, |i, (key, v)| { ck!(ok(v) && pos(k, key) == v.0 && o[i] == v.0); s.mark(v.0) }),
        1 => run(MapIteration::iter_mut(&mut m), n, |i, (key, v)| { ck!(ok(v) && pos(k, key) == v.0 && o[i] == v.0); s.mark(v.0) }),
        2 => run(MapIteration::keys(&m), n, |i, key| { let p = pos(k, key); ck!(o[i] == p); s.mark(p) }),
        3 => run(MapIteration::values(&m), n, |i, v| { ck!(ok(v) && o[i] == v.0); s.mark(v.0) }),
        4 => run(MapIteration::values_mut(&mut m), n, |i, v| { ck!(ok(v) && o[i] == v.0); s.mark(v.0) }),
        5 => run(m.into_iter(), n, |_, (key, v)| { ck!(ok(&v) && pos(k, &key) == v.0); s.mark(v.0) }),
        6 => run(MapIteration::into_keys(m), n, |_, key| s.mark(pos(k, &key))),
        _ => run(MapIteration::into_values(m), n, |_, v| { ck!(ok(&v)); s.mark(v.0) }),
    };
    s.done(w, n);
}

/// The order `next` yields items in.
fn order<I: Iterator>(mut it: I, id: impl Fn(I::Item) -> u8, o: &mut [u8; 32]) {
    let mut i = 0;
    while let Some(x) = it.next() {
        ck!(i < 32);
        o[i] = id(x);
        i += 1;
    }
}
/// Two instances of one iterator: consumed in any way, the second yields the items in the order of the first.
fn agree<I: Iterator>(a: I, b: I, n: usize, id: impl Fn(I::Item) -> u8 + Copy) {
    let mut o = [255u8; 32];
    order(a, id, &mut o);
    let mut s = Seen(0);
    let w = run(b, n, |i, x| { let p = id(x); ck!(o[i] == p); s.mark(p) });
    s.done(w, n);
}

/// A copy of an iterator taken part of the way yields what the original still has.
fn clones<I: Iterator + Clone + ExactSizeIterator>(mut it: I, n: usize, id: impl Fn(I::Item) -> u8) {
    let first = nd::below(n as u64 + 1) as usize;
    for _ in 0..first {
        let _ = it.next();
    }
    ck!(it.len() == n - first);
    let c = it.clone();
    ck!(c.len() == n - first);
    let mut a = [0u8; 16];
    let mut i = 0;
    for x in it {
        a[i] = id(x);
        i += 1;
    }
    ck!(i == n - first);
    let mut j = 0;
    for x in c {
        ck!(a[j] == id(x));
        j += 1;
    }
    ck!(j == i);
}
fn exact<I: ExactSizeIterator>(mut it: I, n: usize) {
    let first = nd::below(n as u64 + 1) as usize;
    ck!(it.len() == n);
    for _ in 0..first {
        let _ = it.next();
    }
    ck!(it.len() == n - first);
}
/// Concrete map types: the iterators that can be cloned, exact lengths, `for` over references.
macro_rules! own {
    ($m:expr, $k:expr) => {{
        let mut m = $m;
        let k = $k;
        let n = k.len();
        match nd::pick(11) {
            8 => agree(m.clone().into_iter(), m.clone().into_iter(), n, |(_, v)| v.0),
            9 => agree(m.clone().into_keys(), m.clone().into_keys(), n, |key| pos(&k, &key)),
            10 => agree(m.clone().into_values(), m.clone().into_values(), n, |v| v.0),
            0 => clones(m.iter(), n, |(_, v)| v.0),
            1 => clones(m.keys(), n, |key| pos(&k, key)),
            2 => clones(m.values(), n, |v| v.0),
            3 => exact(m.iter_mut(), n),
            4 => exact(m.values_mut(), n),
            5 => match nd::pick(3) { 0 => exact(m.into_iter(), n), 1 => exact(m.into_keys(), n), _ => exact(m.into_values(), n) },
            6 => { let mut s = Seen(0); for (key, v) in &m { ck!(pos(&k, key) == v.0); s.mark(v.0) } s.done(true, n) }
            _ => { let mut s = Seen(0); for (key, v) in &mut m { ck!(pos(&k, key) == v.0); s.mark(v.0) } s.done(true, n) }
        }
    }};
}

fn set<T: KeyIs<Q>, Q, S: Set<T, Q> + Len>(m: S, k: &[Q], _q: impl Fn() -> Q) {
    let n = k.len();
    let mut s = Seen(0);
    let mut o = [255u8; 32];
    order(SetIteration::iter(&m), |key| pos(k, key), &mut o);
    let w = match nd::pick(2) {
        0 => run(SetIteration::iter(&m), n, |i, key| { let p = pos(k, key); ck!(o[i] == p); s.mark(p) }),
        _ => run(m.into_iter(), n, |_, key| s.mark(pos(k, &key))),
    };
    s.done(w, n);
}

/// Iteration over a map built from any list of keys, repeats included: each distinct key once with its last value.
fn built<M: Map<u8, u8, u8> + Len>(m: M, keys: &[u8]) {
    let n = model::distinct(keys);
    ck!(m.len() == n);
    let mut s = Seen(0);
    let mut c = 0;
    for (k, v) in MapIteration::iter(&m) {
        ck!(model::last(keys, k) == Some(*v));
        s.mark(*v);
        c += 1;
    }
    ck!(c == n);
    let mut t = Seen(0);
    for v in MapIteration::values(&m) {
        t.mark(*v);
    }
    ck!(t.0 == s.0);
    let mut t = Seen(0);
    for k in MapIteration::into_keys(m) {
        t.mark(model::last(keys, &k).unwrap_or(255));
    }
    ck!(t.0 == s.0);
}
fn keys<const N: usize>() -> [u8; N] {
    core::array::from_fn(|_| nd::any_u8())
}

/// Every iterator over a large map: each entry once, lengths exact, skipping ahead.
macro_rules! iter_large { ($m:expr, $n:expr, $s:expr) => {{
    let (mut m, n, s): (_, usize, u16) = ($m, $n, $s);
    let first = [0, 1, 254, 255, 256, 257, n - 1, n][nd::pick(8)];
    let w = nd::pick(8);
    macro_rules! go { ($it:expr, $rank:expr) => {{
        let mut it = $it;
        let rank = $rank;
        let mut seen = vec![false; n];
        let mut c = 0;
        if first > 1 {
            // the first ones in one go
            ck!(it.len() == n && it.size_hint() == (n, Some(n)));
            let x = it.nth(first - 1);
            ck!(x.is_some());
            c = first;
        } else if first == 1 {
            ck!(it.next().is_some());
            c = 1;
        }
        ck!(it.len() == n - c && it.size_hint() == (n - c, Some(n - c)));
        while let Some(x) = it.next() {
            c += 1;
            ck!(c <= n && it.size_hint() == (n - c, Some(n - c)));
            let j: usize = rank(x);
            ck!(j < n && !seen[j]);
            seen[j] = true;
        }
        ck!(c == n && it.next().is_none());
        if first == 0 {
            for x in seen { ck!(x); }
        }
    }}; }
    let by_key = |k: u16| { ck!(k >= 5 && (k - 5) % s == 0); ((k - 5) / s) as usize };
    match w {
        0 => go!(m.iter(), |x: (&u16, &u16)| { ck!(by_key(*x.0) == *x.1 as usize); *x.1 as usize }),
        1 => go!(m.iter_mut(), |x: (&u16, &mut u16)| { ck!(by_key(*x.0) == *x.1 as usize); *x.1 as usize }),
        2 => go!(m.keys(), |x: &u16| by_key(*x)),
        3 => go!(m.values(), |x: &u16| *x as usize),
        4 => go!(m.values_mut(), |x: &mut u16| *x as usize),
        5 => go!(m.into_iter(), |x: (u16, u16)| { ck!(by_key(x.0) == x.1 as usize); x.1 as usize }),
        6 => go!(m.into_keys(), |x: u16| by_key(x)),
        _ => go!(m.into_values(), |x: u16| x as usize),
    }
}}; }
macro_rules! iter_large_set { ($m:expr, $n:expr, $s:expr) => {{
    let (m, n, s): (_, usize, u16) = ($m, $n, $s);
    let by_key = |k: u16| { ck!(k >= 5 && (k - 5) % s == 0); ((k - 5) / s) as usize };
    let mut seen = vec![0u8; n];
    let mut it = m.iter();
    let mut c = 0;
    ck!(it.len() == n);
    while let Some(x) = it.next() { c += 1; ck!(it.size_hint() == (n - c, Some(n - c))); let j = by_key(*x); ck!(j < n); seen[j] += 1; }
    ck!(c == n);
    let mut it = m.into_iter();
    ck!(it.len() == n);
    while let Some(x) = it.next() { c -= 1; ck!(it.size_hint() == (c, Some(c))); let j = by_key(x); ck!(j < n); seen[j] += 1; }
    for x in seen { ck!(x == 2); }
}}; }

harnesses! {
    fn h_c08_q_large("maps of 300 and 1100 u16 keys, ten kinds x 8 iterators, 0, 1, 254 to 257, all but one or all items skipped first") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j, iter_large) }
    fn h_c08_q_large_set("sets of 300 and 1100 u16 values, ten kinds, both iterators") { with_large_set!(nd::pick(crate::large::LARGE_KINDS), iter_large_set) }
    fn h_c08_q_maps("19 kinds of map x 8 iterators x 5 ways of consuming, any number of items taken first, any skip, any values") {
        let x = nd::any_u8();
        fn f<K: KeyIs<Q>, Q, M: Map<K, V, Q> + Len>(m: M, k: &[Q], _q: impl Fn() -> Q) {
            // the value stored with position 0 is x itself
            let x = MapIteration::values(&m).fold(0, |a, v| if v.0 == 0 { v.1 } else { a });
            map(m, k, x)
        }
        with_map!(nd::pick(MAP_KINDS), |i: u8| (i, x.wrapping_add(i)), f)
    }
    fn h_c08_q_str_maps("7 string-keyed maps x 8 iterators x 5 ways of consuming, any number of items taken first, any skip") {
        fn f<K: KeyIs<Q>, Q, M: Map<K, V, Q> + Len>(m: M, k: &[Q], _q: impl Fn() -> Q) {
            map(m, k, 7)
        }
        with_str_map!(nd::pick(STR_KINDS), |i: u8| (i, 7 + i), f)
    }
    fn h_c08_q_sets("16 kinds of set x 2 iterators x 5 ways of consuming, any number of items taken first, any skip") { with_set!(nd::pick(SET_KINDS), set) }
    fn h_c08_q_clone("clones of iterators, exact lengths and loops over references: eight frozen maps, any number of items taken first") {
        let v = |i: u8| (i, 0u8);
        match nd::pick(8) {
            0 => { let k = [5u8, 3, 4]; own!(FzScalarMap::new(list(&k, v)), k) }
            1 => { let k = [5u8, 3, 9]; own!(FzScalarMap::new(list(&k, v)), k) }
            2 => { let k = [5u8, 3, 9, 1]; own!(FzOrderedMap::new(list(&k, v)), k) }
            3 => { let k = [5u8, 3, 9, 1]; own!(FzHashMap::with_hasher(list(&k, v), model::ByteHash(0)), k) }
            4 => { let k = ["a", "b", "cd", "xyz"]; own!(FzStringMap::with_hasher(list(&k, v), model::ByteHash(0)), k) }
            5 => { let k = [5u8, 3, 9, 1]; own!(fz_scalar_map!({ 5u8: v(0), 3u8: v(1), 9u8: v(2), 1u8: v(3) }), k) }
            6 => { let k = ["a", "b", "cd", "xyz"]; own!(fz_string_map!({ "a": v(0), "b": v(1), "cd": v(2), "xyz": v(3) }), k) }
            _ => { let k = [5u8, 3, 9, 1]; own!(fz_ordered_map!({ k[0]: v(0), k[1]: v(1), k[2]: v(2), k[3]: v(3) }), k) }
        }
    }
    fn h_c08_q_set_clone("clones of set iterators, exact lengths and loops over references: five frozen sets") {
        macro_rules! go { ($s:expr, $k:expr) => {{
            let s = $s; let k = $k; let n = k.len();
            match nd::pick(4) {
                3 => agree(s.clone().into_iter(), s.clone().into_iter(), n, |x| pos(&k, &x)),
                0 => clones(s.iter(), n, |x| pos(&k, x)),
                1 => { let mut z = Seen(0); for x in &s { z.mark(pos(&k, x)) } z.done(true, n) }
                _ => exact(s.into_iter(), n),
            }
        }}; }
        match nd::pick(5) {
            0 => { let k = [5u8, 3, 4]; go!(FzScalarSet::new(k.to_vec()), k) }
            1 => { let k = [5u8, 3, 9, 1]; go!(FzOrderedSet::new(k.to_vec()), k) }
            2 => { let k = [5u8, 3, 9, 1]; go!(FzHashSet::with_hasher(k.to_vec(), model::ByteHash(0)), k) }
            3 => { let k = ["a", "b", "cd", "xyz"]; go!(FzStringSet::with_hasher(k.to_vec(), model::ByteHash(0)), k) }
            _ => { let k = [5u8, 3, 9, 1]; go!(fz_scalar_set!({ 5u8, 3u8, 9u8, 1u8 }), k) }
        }
    }
    fn h_c08_q_built_scalar("FzScalarMap from any list of up to 3 keys from 8 consecutive ones, or below 16, repeats included") {
        let mut k = keys::<3>(); let n = nd::pick(4);
        if nd::pick(2) == 0 { for x in &k { nd::assume(*x < 16); } } else { for x in &mut k { nd::assume(*x < 8); *x += 240; } }
        built(FzScalarMap::new(model::entries(&k[..n])), &k[..n])
    }
    fn h_c08_q_built_ordered("FzOrderedMap from any list of up to 4 u8 keys, repeats included") {
        let k = keys::<4>(); let n = nd::pick(5); built(FzOrderedMap::new(model::entries(&k[..n])), &k[..n])
    }
    fn h_c08_q_built_hash("FzHashMap (three hash functions) from any list of up to 3 keys below 8, repeats included") {
        let k = keys::<3>(); let n = nd::pick(4);
        for x in &k { nd::assume(*x < 8); }
        built(FzHashMap::with_hasher(model::entries(&k[..n]), model::ByteHash([0, 1, 3][nd::pick(3)])), &k[..n])
    }
    fn h_c08_t_built_scalar("FzScalarMap from any list of 4 keys below 8, repeats included") {
        let k = keys::<4>();
        for x in &k { nd::assume(*x < 8); } built(FzScalarMap::new(model::entries(&k)), &k)
    }
    fn h_c08_t_built_hash("FzHashMap (three hash functions) from any list of 4 keys below 8, repeats included") {
        let k = keys::<4>();
        for x in &k { nd::assume(*x < 8); }
        built(FzHashMap::with_hasher(model::entries(&k), model::ByteHash([0, 1, 3][nd::pick(3)])), &k)
    }
    fn h_c08_q_built_scalar2("FzScalarMap from any two u8 keys") {
        let k = keys::<2>(); built(FzScalarMap::new(model::entries(&k)), &k)
    }
    fn h_c08_q_built_string("FzStringMap from any list of up to 3 words over {a,b,''} of length up to 2, repeats included") {
        const W: [&str; 5] = ["", "a", "b", "ab", "ba"];
        let n = nd::pick(4);
        let i: [usize; 3] = core::array::from_fn(|x| if x < n { nd::pick(5) } else { 0 });
        let k: [u8; 3] = core::array::from_fn(|x| i[x] as u8);
        let e: Vec<(&str, u8)> = (0..n).map(|j| (W[i[j]], j as u8)).collect();
        let m = FzStringMap::with_hasher(e, model::ByteHash(0));
        ck!(m.len() == model::distinct(&k[..n]));
        let mut s = Seen(0);
        let mut c = 0;
        for (key, v) in m.iter() {
            let w = (0..5).position(|x| W[x] == &**key).unwrap_or(255) as u8;
            ck!(model::last(&k[..n], &w) == Some(*v));
            s.mark(*v);
            c += 1;
        }
        ck!(c == m.len() && m.keys().count() == c && m.values().count() == c);
    }
}
