//! C05: collections written with the macros or emitted by a build script.
use crate::{ck, cov, model, nd};
use frozen_collections::*;

macro_rules! arb {
    ($($t:ident $f:ident $e:expr;)*) => { $(fn $f() -> $t { $e as $t })* };
}
arb! {
    u8 arb_u8 nd::any_u8();
    i8 arb_i8 nd::any_u8();
    u16 arb_u16 nd::any_u16();
    i16 arb_i16 nd::any_u16();
    u32 arb_u32 nd::any_u32();
    i32 arb_i32 nd::any_u32();
    u64 arb_u64 nd::any_u64();
    i64 arb_i64 nd::any_u64();
    usize arb_usize nd::any_u64();
    isize arb_isize nd::any_u64();
    u8 each_u8 nd::split(nd::any_u8() as u64);
}
/// Every value below 512, one path each.
fn each_u16_512() -> u16 {
    let v = nd::bits(16);
    nd::assume(v < 512);
    nd::split(v) as u16
}

/// What the entries written down mean: the position of the last occurrence.
fn meaning<K: PartialEq>(k: &[K], q: &K) -> Option<u16> {
    let mut r = None;
    let mut i = 0;
    while i < k.len() {
        if k[i] == *q {
            r = Some(i as u16);
        }
        i += 1;
    }
    r
}

/// Iteration over the collection yields every written key once (concrete: no query involved).
fn ck_entries<K: PartialEq, V>(k: &[K], len: usize, items: &[(&K, V)], val: impl Fn(&V) -> u16, map: bool) {
    ck!(len == model::distinct(k) && items.len() == len);
    for (i, e) in items.iter().enumerate() {
        let m = meaning(k, e.0);
        ck!(m.is_some());
        if map {
            ck!(Some(val(&e.1)) == m);
        }
        for f in &items[..i] {
            ck!(f.0 != e.0);
        }
    }
}

fn ck_gen_map<K, Q, M>(m: &mut M, k: &[K], q: fn() -> K)
where
    K: PartialEq + Copy,
    M: Map<K, u16, K>,
{
    {
        let items: Vec<(&K, u16)> = m.iter().map(|(k, v)| (k, *v)).collect();
        ck_entries(k, Len::len(m), &items, |v| *v, true);
    }
    let q = q();
    let exp = meaning(k, &q);
    cov!(exp.is_some());
    ck!(m.get(&q).copied() == exp);
    ck!(m.contains_key(&q) == exp.is_some());
    match m.get_key_value(&q) {
        Some((a, v)) => ck!(*a == q && Some(*v) == exp),
        None => ck!(exp.is_none()),
    }
    ck!(m.get_mut(&q).copied() == exp);
    nd::obs(exp.map_or(70000, |x| x as u64));
}

fn ck_gen_set<K, Q, S>(s: &S, k: &[K], q: fn() -> K)
where
    K: PartialEq + Copy,
    S: Set<K, K>,
{
    {
        let items: Vec<(&K, ())> = s.iter().map(|k| (k, ())).collect();
        ck_entries(k, Len::len(s), &items, |_| 0, false);
    }
    let q = q();
    let exp = meaning(k, &q).is_some();
    cov!(exp);
    ck!(s.contains(&q) == exp);
    match s.get(&q) {
        Some(a) => ck!(*a == q && exp),
        None => ck!(!exp),
    }
}

/// A query near one of the keys: the key itself, a byte replaced, dropped, or added at either end.
fn near(k: &[&str], sym: bool) -> String {
    let any = || {
        if sym {
            let c = nd::any_u8();
            nd::assume(c < 128);
            c
        } else {
            b"a1xbz.w\0"[nd::pick(8)]
        }
    };
    let n = k.len().min(6);
    let s = k[nd::pick(n) * (k.len() / n)];
    let mut b: Vec<u8> = s.as_bytes().to_vec();
    match nd::pick(5) {
        0 => {}
        1 => {
            if !b.is_empty() && s.is_ascii() {
                let i = nd::pick(b.len());
                b[i] = any();
            }
        }
        2 => {
            if s.is_ascii() {
                let l = nd::pick(b.len() + 1);
                b.truncate(l);
            }
        }
        3 => b.push(any()),
        _ => b.insert(0, any()),
    }
    unsafe { String::from_utf8_unchecked(b) }
}

fn ck_gen_str_map<M>(m: &mut M, k: &'static [&'static str], sym: bool)
where
    M: Map<&'static str, u16, &'static str> + MapQuery<str, u16> + MapExtras<&'static str, u16, str>,
{
    {
        let items: Vec<(&&str, u16)> = MapIteration::iter(m).map(|(k, v)| (k, *v)).collect();
        ck_entries(k, Len::len(m), &items, |v| *v, true);
    }
    let q: &'static str = Box::leak(near(k, sym).into_boxed_str());
    let exp = meaning(k, &q);
    cov!(exp.is_some());
    ck!(MapQuery::<&'static str, u16>::get(m, &q).copied() == exp);
    ck!(MapQuery::<str, u16>::get(m, q).copied() == exp);
    ck!(MapQuery::<&'static str, u16>::contains_key(m, &q) == exp.is_some());
    ck!(MapQuery::<str, u16>::contains_key(m, q) == exp.is_some());
    match MapExtras::<&'static str, u16, str>::get_key_value(m, q) {
        Some((a, v)) => ck!(*a == q && Some(*v) == exp),
        None => ck!(exp.is_none()),
    }
    ck!(MapQuery::<&'static str, u16>::get_mut(m, &q).copied() == exp);
}

fn ck_gen_str_set<S>(s: &S, k: &'static [&'static str], sym: bool)
where
    S: Set<&'static str, &'static str> + SetQuery<str>,
{
    {
        let items: Vec<(&&str, ())> = SetIteration::iter(s).map(|k| (k, ())).collect();
        ck_entries(k, Len::len(s), &items, |_| 0, false);
    }
    let q: &'static str = Box::leak(near(k, sym).into_boxed_str());
    let exp = meaning(k, &q).is_some();
    cov!(exp);
    ck!(SetQuery::<&'static str>::contains(s, &q) == exp);
    ck!(SetQuery::<str>::contains(s, q) == exp);
    match SetExtras::<&'static str, &'static str>::get(s, &q) {
        Some(a) => ck!(*a == q && exp),
        None => ck!(!exp),
    }
}

include!(concat!(env!("OUT_DIR"), "/c05_gen.rs"));

/// Entries whose keys are expressions: N symbolic keys. When two are equal the program may refuse (panic) to
/// build the collection, else the last one counts.
macro_rules! dyn_map {
    ($k:ident, $m:expr, $q:expr) => {{
        nd::panic_ok(model::distinct(&$k) != $k.len());
        let mut m = $m;
        nd::panic_ok(false);
        ck!(m.len() == model::distinct(&$k));
        let q = $q;
        let exp = meaning(&$k, &q);
        cov!(exp.is_some());
        cov!(exp.is_none());
        ck!(m.get(&q).copied() == exp);
        ck!(m.contains_key(&q) == exp.is_some());
        ck!(m.get_mut(&q).copied() == exp);
        match m.get_key_value(&q) {
            Some((a, v)) => ck!(*a == q && Some(*v) == exp),
            None => ck!(exp.is_none()),
        }
    }};
}
macro_rules! dyn_set {
    ($k:ident, $m:expr, $q:expr) => {{
        nd::panic_ok(model::distinct(&$k) != $k.len());
        let s = $m;
        nd::panic_ok(false);
        ck!(s.len() == model::distinct(&$k));
        let q = $q;
        let exp = meaning(&$k, &q);
        ck!(s.contains(&q) == exp.is_some());
        ck!(s.get(&q).copied() == exp.map(|_| q));
    }};
}

mod dynamic {
    use super::*;
    use crate::harnesses;
    harnesses! {
        fn h_c05_q_dy_hash3("hash macros with 3 symbolic u8 key expressions, any u8 query") {
            let k: [u8; 3] = core::array::from_fn(|_| nd::any_u8());
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_hash_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2 }), nd::any_u8())
            } else {
                dyn_set!(k, fz_hash_set!({ k[0], k[1], k[2] }), nd::any_u8())
            }
        }
        fn h_c05_q_dy_hash5("hash macros with 5 key expressions, one of 12 values symbolic, default hash function, queries 0..12") {
            let k: [u8; 5] = [7, nd::pick(12) as u8, 3, 11, 0];
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_hash_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2, k[3]: 3, k[4]: 4 }), nd::pick(13) as u8)
            } else {
                dyn_set!(k, fz_hash_set!({ k[0], k[1], k[2], k[3], k[4] }), nd::pick(13) as u8)
            }
        }
        fn h_c05_q_dy_ordered3("ordered macros with 3 symbolic u8 key expressions, any u8 query") {
            let k: [u8; 3] = core::array::from_fn(|_| nd::any_u8());
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_ordered_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2 }), nd::any_u8())
            } else {
                dyn_set!(k, fz_ordered_set!({ k[0], k[1], k[2] }), nd::any_u8())
            }
        }
        fn h_c05_q_dy_ordered4("ordered macros with 4 symbolic u8 key expressions, any u8 query") {
            let k: [u8; 4] = core::array::from_fn(|_| nd::any_u8());
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_ordered_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2, k[3]: 3 }), nd::any_u8())
            } else {
                dyn_set!(k, fz_ordered_set!({ k[0], k[1], k[2], k[3] }), nd::any_u8())
            }
        }
        fn h_c05_q_dy_scalar3("scalar macros with 3 key expressions (one literal, two symbolic u8), any u8 query") {
            let k: [u8; 3] = [5, nd::any_u8(), nd::any_u8()];
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_scalar_map!({ 5u8: 0u16, k[1]: 1, k[2]: 2 }), nd::any_u8())
            } else {
                dyn_set!(k, fz_scalar_set!({ 5u8, k[1], k[2] }), nd::any_u8())
            }
        }
        fn h_c05_q_dy_scalar8("scalar macros with 8 key expressions, one symbolic below 40, any u8 query") {
            let x = nd::pick(40) as u8;
            let k: [u8; 8] = [1, 2, 3, x, 4, 5, 6, 30];
            if nd::pick(2) == 0 {
                dyn_map!(k, fz_scalar_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2, k[3]: 3, k[4]: 4, k[5]: 5, k[6]: 6, k[7]: 7 }), nd::any_u8())
            } else {
                dyn_set!(k, fz_scalar_set!({ k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7] }), nd::any_u8())
            }
        }
        fn h_c05_q_dy_long("long forms (let, let mut, static with lazily built entries) with 3 keys, any u8 query") {
            fn key(i: u8) -> u8 { i * 10 }
            let x = nd::any_u8();
            nd::assume(x != 20);
            fz_hash_map!(let m: M1<u8, u16>, { x: 0, 20u8: 1 });
            fz_scalar_map!(let mut n: M2<u8, u16>, { x: 0, 20u8: 1 });
            fz_ordered_set!(let s: M3<u8>, { x, 20u8 });
            fz_hash_set!(static S4: M4<u8>, { key(1), key(2), key(3) });
            fz_scalar_map!(static S5: M5<u8, u16>, { key(1): 0, key(2): 1, key(3): 2, 3u8: 3, 4u8: 4, 5u8: 5, 7u8: 6, 90u8: 7 });
            let q = nd::any_u8();
            let exp = if q == x { Some(0) } else if q == 20 { Some(1) } else { None };
            ck!(m.get(&q).copied() == exp);
            ck!(n.get(&q).copied() == exp);
            ck!(s.contains(&q) == exp.is_some());
            if let Some(v) = n.get_mut(&q) { *v = 9; }
            ck!(n.get(&q).copied() == exp.map(|_| 9));
            ck!(S4.contains(&q) == (q == 10 || q == 20 || q == 30));
            ck!(S5.get(&q).copied() == meaning(&[10u8, 20, 30, 3, 4, 5, 7, 90], &q));
        }
        fn h_c05_q_dy_mut("long forms declared mut (four kinds of set, two of map): their variables can be assigned to; statics of any visibility can be used from where it lets them; any u8 query") {
            mod inner {
                use frozen_collections::*;
                fz_scalar_set!(pub static A: MA<u8>, { 3u8, 9, 200, 17 });
                fz_hash_map!(pub(crate) static B: MB<u8, u16>, { 3u8: 7, 9u8: 8 });
                fz_string_set!(pub(super) static C: MC<&'static str>, { "a", "bb", "ccc", "dd" });
                fz_ordered_map!(pub static D: MD<u8, u16>, { 3u8: 7, 9u8: 8, 200u8: 9, 1u8: 1 });
            }
            let q = nd::any_u8();
            ck!(inner::A.contains(&q) == [3u8, 9, 200, 17].contains(&q));
            ck!(inner::B.get(&q).copied() == if q == 3 { Some(7) } else if q == 9 { Some(8) } else { None });
            let i = nd::pick(5);
            ck!(inner::C.contains(&["a", "bb", "ccc", "dd", "b"][i]) == (i < 4));
            ck!(inner::D.get(&q).copied() == match q { 1 => Some(1), 3 => Some(7), 9 => Some(8), 200 => Some(9), _ => None });
            let x = nd::any_u8();
            nd::assume(x != 20);
            fz_scalar_set!(let mut s1: MS1<u8>, { x, 20u8 });
            fz_hash_set!(let mut s2: MS2<u8>, { x, 20u8 });
            fz_ordered_set!(let mut s3: MS3<u8>, { x, 20u8 });
            fz_string_set!(let mut s4: MS4<&'static str>, { "a", "b" });
            fz_hash_map!(let mut m1: MM1<u8, u16>, { x: 1, 20u8: 2 });
            fz_ordered_map!(let mut m2: MM2<u8, u16>, { x: 1, 20u8: 2 });
            let t = (s1.clone(), s2.clone(), s3.clone(), s4.clone(), m1.clone(), m2.clone());
            if let Some(v) = m1.get_mut(&20) { *v = 5; }
            if let Some(v) = m2.get_mut(&20) { *v = 5; }
            ck!(m1.get(&20) == Some(&5) && m2.get(&20) == Some(&5));
            s1 = t.0; s2 = t.1; s3 = t.2; s4 = t.3; m1 = t.4; m2 = t.5;
            let hit = q == x || q == 20;
            ck!(s1.contains(&q) == hit && s2.contains(&q) == hit && s3.contains(&q) == hit && s4.contains(&"a"));
            ck!(m1.get(&20) == Some(&2) && m2.get(&20) == Some(&2) && m1.get(&x) == Some(&1) && m2.get(&x) == Some(&1));
        }
        fn h_c05_q_dy_literals("literal spellings (hex, octal, binary, separators, no suffix, negative, escapes, raw strings) in the macros; any i32 query / all listed strings") {
            let q = nd::any_u32() as i32;
            let k = [16, 8, 3, 1_000, -5];
            let m = fz_scalar_map!({ 0x10: 0u16, 0o10: 1, 0b11: 2, 1_000: 3, });
            ck!(m.len() == 4 && m.get(&q).copied() == meaning(&k[..4], &q));
            let m = fz_scalar_map!({ 0x10: 0u16, 8: 1, 0b11: 2, 1_000: 3, -5: 4 });
            ck!(m.len() == 5 && m.get(&q).copied() == meaning(&k, &q));
            let s = fz_scalar_set!({ 0x7fff_ffff, -2147483648, 0 });
            ck!(s.contains(&q) == (q == i32::MAX || q == i32::MIN || q == 0));
            let s = fz_hash_set!({ -1, -2, -3, 4 });
            ck!(s.contains(&q) == (q == -1 || q == -2 || q == -3 || q == 4));
            let t = ["a\n", "\u{e9}", "r\\n", "", "a"];
            let m = fz_string_map!({ "a\n": 0u16, "\u{e9}": 1, r"r\n": 2, "": 3 });
            let i = nd::pick(5);
            ck!(m.len() == 4 && m.get(&t[i]).copied() == if i < 4 { Some(i as u16) } else { None });
        }
        fn h_c05_q_dy_values("macros with literal keys (contiguous, gaps, scattered, 8 scattered, 3 and 6 strings, repeated) and computed values: any u16 values, each computed exactly once, any query") {
            static mut N: usize = 0;
            let a: [u16; 8] = core::array::from_fn(|_| nd::any_u16());
            let v = |i: usize| { unsafe { N += 1 }; a[i] };
            unsafe { N = 0 };
            macro_rules! go {
                ($m:ident, $k:expr, $q:expr) => {{
                    let k = $k;
                    let d = model::distinct(&k[..]);
                    ck!(unsafe { N >= d && N <= k.len() });
                    ck!(d < k.len() || unsafe { N == k.len() });
                    let q = $q;
                    let e = meaning(&k[..], &q).map(|i| a[i as usize]);
                    ck!($m.len() == d);
                    ck!($m.get(&q).copied() == e);
                    ck!($m.contains_key(&q) == e.is_some());
                    let x = nd::any_u16();
                    if let Some(y) = $m.get_mut(&q) { *y = x; }
                    ck!($m.get(&q).copied() == e.map(|_| x));
                }};
            }
            let t = ["a", "bb", "ccc", "bc", "x", "yy", "z", ""];
            match nd::pick(9) {
                0 => { let mut m = fz_scalar_map!({ 12u8: v(0), 10: v(1), 11: v(2) }); go!(m, [12u8, 10, 11], nd::any_u8()) }
                1 => { fz_scalar_map!(let mut m: T1<i16, u16>, { -3i16: v(0), 7: v(1), 1: v(2), 0: v(3), -2: v(4), 90: v(5), 91: v(6), -30: v(7) }); go!(m, [-3i16, 7, 1, 0, -2, 90, 91, -30], nd::any_u16() as i16) }
                2 => { let mut m = fz_scalar_map!({ 50u32: v(0), 10: v(1), 30: v(2), 11: v(3) }); go!(m, [50u32, 10, 30, 11], nd::any_u32()) }
                3 => { fz_hash_map!(let mut m: T3<u64, u16>, { 7_000_000u64: v(0), 1u64: v(1), 50_000u64: v(2) }); go!(m, [7_000_000u64, 1, 50_000], nd::any_u64()) }
                4 => { let mut m = fz_ordered_map!({ 7_000_000u64: v(0), 1: v(1), 50_000: v(2), 49_999: v(3), 1 << 40: v(4), 3: v(5), 2_000_000: v(6), 900_000: v(7) }); go!(m, [7_000_000u64, 1, 50_000, 49_999, 1 << 40, 3, 2_000_000, 900_000], nd::any_u64()) }
                5 => { fz_scalar_map!(let mut m: T5<u32, u16>, { 7_000_000u32: v(0), 1u32: v(1), 50_000u32: v(2), 49_999u32: v(3), 99_000_000u32: v(4), 3u32: v(5), 2_000_000u32: v(6), 900_000u32: v(7) }); go!(m, [7_000_000u32, 1, 50_000, 49_999, 99_000_000, 3, 2_000_000, 900_000], nd::any_u32()) }
                6 => { let mut m = fz_string_map!({ "a": v(0), "bb": v(1), "ccc": v(2) }); go!(m, [t[0], t[1], t[2]], t[nd::pick(8)]) }
                7 => { fz_string_map!(let mut m: T7<&'static str, u16>, { "a": v(0), "bb": v(1), "ccc": v(2), "bc": v(3), "x": v(4), "yy": v(5) }); go!(m, [t[0], t[1], t[2], t[3], t[4], t[5]], t[nd::pick(8)]) }
                _ => { let mut m = fz_scalar_map!({ 4u8: v(0), 5: v(1), 4: v(2), 6: v(3), 5: v(4) }); go!(m, [4u8, 5, 4, 6, 5], nd::any_u8()) }
            }
        }
        fn h_c05_q_dy_once("hash, ordered, scalar and string macros with computed keys and values: every key and value is computed exactly once, whatever the values, any query") {
            static mut NK: [u8; 9] = [0; 9];
            static mut NV: [u8; 9] = [0; 9];
            unsafe { NK = [0; 9]; NV = [0; 9] };
            let a: [u16; 9] = core::array::from_fn(|_| nd::any_u16());
            let b: [u8; 9] = [40, 41, 200, 3, 42, 90, 0, 44, 255];
            let w = ["q", "qr", "", "rq", "rqr", "zzzz", "zzzy", "\u{e9}", "k"];
            let k = |i: usize| { unsafe { NK[i] += 1 }; b[i] };
            let t = |i: usize| -> &'static str { unsafe { NK[i] += 1 }; w[i] };
            let v = |i: usize| { unsafe { NV[i] += 1 }; a[i] };
            macro_rules! go {
                ($m:expr, $n:expr, $k:expr, $q:expr, $map:ident) => {{
                    let m = $m;
                    for i in 0..9 {
                        ck!(unsafe { NK[i] } == (i < $n) as u8);
                        ck!(unsafe { NV[i] } == (i < $n && $map) as u8);
                    }
                    let q = $q;
                    let e = meaning(&$k[..$n], &q);
                    ck!(m.len() == $n);
                    (m, q, e)
                }};
            }
            macro_rules! map { ($m:expr, $n:expr, $k:expr, $q:expr) => {{ let (m, q, e) = go!($m, $n, $k, $q, true); ck!(m.get(&q).copied() == e.map(|i| a[i as usize])); }}; }
            macro_rules! set { ($m:expr, $n:expr, $k:expr, $q:expr) => {{ let (m, q, e) = go!($m, $n, $k, $q, false); ck!(m.contains(&q) == e.is_some()); }}; }
            let q8 = || nd::split(nd::any_u8() as u64) as u8;
            match nd::pick(14) {
                0 => map!(fz_hash_map!({ k(0): v(0), k(1): v(1) }), 2, b, q8()),
                1 => map!(fz_hash_map!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3), k(4): v(4) }), 5, b, q8()),
                2 => map!(fz_ordered_map!({ k(0): v(0), k(1): v(1), k(2): v(2) }), 3, b, q8()),
                3 => map!(fz_ordered_map!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3), k(4): v(4), k(5): v(5), k(6): v(6), k(7): v(7), k(8): v(8) }), 9, b, q8()),
                4 => map!(fz_scalar_map!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3) }), 4, b, q8()),
                5 => map!(fz_scalar_map!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3), k(4): v(4), k(5): v(5), k(6): v(6), k(7): v(7), k(8): v(8) }), 9, b, q8()),
                6 => map!(fz_string_map!({ t(0): v(0), t(1): v(1), t(2): v(2) }), 3, w, w[nd::pick(9)]),
                7 => map!(fz_scalar_map!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3), 42u8: v(4 + k(4) as usize - 42) }), 5, b, q8()),
                8 => set!(fz_hash_set!({ k(0), k(1) }), 2, b, q8()),
                9 => set!(fz_hash_set!({ k(0), k(1), k(2), k(3), k(4) }), 5, b, q8()),
                10 => set!(fz_ordered_set!({ k(0), k(1), k(2), k(3), k(4) }), 5, b, q8()),
                11 => set!(fz_scalar_set!({ k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8) }), 9, b, q8()),
                12 => set!(fz_string_set!({ t(0), t(1), t(2) }), 3, w, w[nd::pick(9)]),
                _ => {
                    fz_string_map!(let m: T1<Box<str>, u16>, { t(0): v(0), t(1): v(1), t(2): v(2), t(3): v(3), t(4): v(4), t(5): v(5), t(6): v(6), t(7): v(7), t(8): v(8) });
                    for i in 0..9 { ck!(unsafe { NK[i] == 1 && NV[i] == 1 }); }
                    let i = nd::pick(9);
                    ck!(m.len() == 9 && m.get(w[i]).copied() == Some(a[i]) && m.get("qq").is_none());
                }
            }
        }
        fn h_c05_q_dy_types("hash and ordered macros over other key types (tuples, chars, booleans, arrays, owned strings, user types), values of user types; any query") {
            let (p, r) = (nd::any_u8(), nd::any_u8());
            fn ar(a: u8, b: u8) -> [u8; 2] { [a, b] }
            match nd::pick(7) {
                0 => { let m = fz_ordered_map!({ (3u8, 1u8): 0u16, (1, 200): 1, (3, 0): 2, (0, 0): 3, (255, 255): 4 }); ck!(m.len() == 5 && m.get(&(p, r)).copied() == meaning(&[(3u8, 1u8), (1, 200), (3, 0), (0, 0), (255, 255)], &(p, r))) }
                1 => { let m = fz_hash_map!({ (3u8, 1u8): 0u16, (1, 200): 1, (3, 0): 2 }); ck!(m.len() == 3 && m.get(&(p, r)).copied() == meaning(&[(3u8, 1u8), (1, 200), (3, 0)], &(p, r))) }
                2 => { let c = char::from(p); let m = fz_ordered_map!({ 'a' as char: 0u16, ('\u{e9}'): 1, ('z'): 2, ('0'): 3 }); ck!(m.get(&c).copied() == meaning(&['a', '\u{e9}', 'z', '0'], &c)) }
                3 => { let b = p & 1 == 1; let m = fz_hash_map!({ (true): 0u16, (false): 1 }); ck!(m.len() == 2 && m.get(&b).copied() == Some(if b { 0 } else { 1 })) }
                4 => { let m = fz_ordered_set!({ ar(1u8, 2), ar(0, 9), ar(1, 1), ar(200, 200) }); ck!(m.len() == 4 && m.contains(&[p, r]) == [[1u8, 2], [0, 9], [1, 1], [200, 200]].contains(&[p, r])) }
                5 => {
                    let t = ["one", "two", "three", "four", "", "twofold"];
                    let i = nd::pick(6);
                    let m = fz_hash_map!({ String::from("one"): 0u16, "two".to_string(): 1, format!("thr{}", "ee"): 2, t[3].to_owned(): 3, String::new(): 4 });
                    let o = fz_ordered_map!({ String::from("one"): 0u16, "two".to_string(): 1, format!("thr{}", "ee"): 2, t[3].to_owned(): 3, String::new(): 4 });
                    let e = if i < 5 { Some(i as u16) } else { None };
                    ck!(m.len() == 5 && m.get(t[i]).copied() == e);
                    ck!(o.len() == 5 && o.get(t[i]).copied() == e);
                }
                _ => {
                    #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
                    struct P { b: u8, a: u8 }
                    let q = P { b: p, a: r };
                    let m = fz_ordered_map!({ P { b: 1, a: 2 }: vec![0u16], P { a: 1, b: 1 }: vec![0, 1], P { b: 0, a: 0 }: vec![], P { b: 9, a: 9 }: vec![7; 3] });
                    ck!(m.len() == 4 && m.get(&q).map(|v| v.len() as u16) == meaning(&[P { b: 0, a: 0 }, P { b: 1, a: 2 }, P { b: 1, a: 1 }, P { b: 9, a: 9 }], &q));
                }
            }
        }
        fn h_c05_q_dy_empty("empty long forms of all macros, any query") {
            fz_hash_map!(static A: TA<u8, u16>, {});
            fz_ordered_map!(static B: TB<u8, u16>, {});
            fz_scalar_map!(static C: TC<u8, u16>, {});
            fz_string_map!(static D: TD<&'static str, u16>, {});
            fz_hash_set!(static E: TE<u8>, {});
            fz_scalar_set!(static F: TF<u8>, {});
            let q = nd::any_u8();
            ck!(A.get(&q).is_none() && B.get(&q).is_none() && C.get(&q).is_none() && !E.contains(&q) && !F.contains(&q));
            ck!(D.get(&"").is_none() && A.len() == 0 && D.is_empty());
        }
        fn h_c05_q_dy_string("string macros with 3 and with 5 key expressions; all strings of up to 2 letters out of 2") {
            let w = ["", "a", "b", "aa", "ab", "ba", "bb", "c"];
            let i: [usize; 3] = core::array::from_fn(|_| nd::pick(3));
            let k = [w[i[0]], w[i[1] + 2], w[i[2] + 4]];
            let q = w[nd::pick(8)];
            let exp = meaning(&k, &q);
            if nd::pick(2) == 0 {
                nd::panic_ok(model::distinct(&k) != k.len());
                let m = fz_string_map!({ k[0]: 0u16, k[1]: 1, k[2]: 2 });
                nd::panic_ok(false);
                ck!(m.len() == model::distinct(&k) && m.get(&q).copied() == exp && m.contains_key(&q) == exp.is_some());
            } else {
                let exp = if q == "zz" { Some(3) } else if q == "c" { Some(4) } else { exp };
                fz_string_map!(let m: T1<Box<str>, u16>, { k[0]: 0u16, k[1]: 1, k[2]: 2, "zz": 3, "c": 4 });
                ck!(m.len() == model::distinct(&k) + 2 && m.get(q).copied() == exp && m.contains_key(q) == exp.is_some());
                fz_string_set!(let s: T2<Box<str>>, { k[0], k[1], k[2], "zz", "c" });
                ck!(s.len() == model::distinct(&k) + 2 && s.contains(q) == exp.is_some());
            }
        }
    }
}

pub fn tables() -> Vec<(&'static str, &'static str, fn())> {
    let mut v = GEN_TABLE.to_vec();
    v.extend_from_slice(dynamic::TABLE);
    v
}
