//! C04: maps and sets with string keys.
use crate::model::{ByteHash, word, word_n};
use crate::{ck, ck_map, cov, harnesses, model, nd};
use frozen_collections::*;

/// A map and a set of the given strings (later ones win), built first, then queried.
fn run(k: &[String], mode: u8, query: impl FnOnce() -> String) {
    let mut n = 0;
    for i in 0..k.len() {
        let mut dup = false;
        for j in 0..i {
            dup |= k[j] == k[i];
        }
        n += !dup as usize;
    }
    let e: Vec<(&str, u8)> = k.iter().enumerate().map(|(i, s)| (s.as_str(), i as u8)).collect();
    let mut m = FzStringMap::with_hasher(e, ByteHash(mode));
    let s = FzStringSet::with_hasher(k.to_vec(), ByteHash(mode));
    ck!(m.len() == n && m.is_empty() == (n == 0));
    ck!(s.len() == n && s.is_empty() == (n == 0));
    let q = query();
    let q = q.as_str();
    let mut exp = None;
    for i in 0..k.len() {
        if k[i] == q {
            exp = Some(i as u8);
        }
    }
    cov!(exp.is_none());
    ck_map!(m, q, exp);
    ck!(s.contains(q) == exp.is_some());
    match s.get(q) {
        Some(x) => ck!(exp.is_some() && &**x == q),
        None => ck!(exp.is_none()),
    }
}

/// A query: one of the given keys with one byte replaced by any ASCII character, or cut, or extended.
fn near(k: &[&str]) -> String {
    let s = k[nd::pick(k.len())];
    let mut b: Vec<u8> = s.as_bytes().to_vec();
    match nd::pick(4) {
        0 => {
            if !b.is_empty() {
                let i = nd::pick(b.len());
                let c = nd::any_u8();
                nd::assume(c < 128);
                b[i] = c;
            }
        }
        1 => {
            let l = nd::pick(b.len() + 1);
            b.truncate(l);
        }
        2 => {
            let c = nd::any_u8();
            nd::assume(c < 128);
            b.push(c);
        }
        _ => {
            let c = nd::any_u8();
            nd::assume(c < 128);
            b.insert(0, c);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}

fn shape(k: &[&str], mode: u8) {
    let ks: Vec<String> = k.iter().map(|s| s.to_string()).collect();
    run(&ks, mode, || near(k));
}

/// A string of at most `max` letters out of `a`, one path per string.
fn key(max: usize, a: usize) -> String {
    let n = nd::pick(max + 1);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(b'a' + nd::pick(a) as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

pub const PREFIXED: &[&str] = &["item-1", "item-2", "item-3", "item-45", "item-46"];
pub const SUFFIXED: &[&str] = &["aaaa.rs", "aab.rs", "zz.rs", "q.rs", "bcdefgh.rs", "baaa.rs"];
pub const LENGTHS: &[&str] = &["", "a", "aa", "aaa", "aaaaa"];
pub const SAMELEN: &[&str] = &["cat", "car", "can", "bat", "bar", "ban"];
pub const LONG: &[&str] = &["abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyzz", "abcdefghijklmnopqrstuvwxzz", "zbcdefghijklmnopqrstuvwxyz"];
pub const EMPTYISH: &[&str] = &["", "x", "y", "xx"];
pub const UTF8: &[&str] = &["\u{e9}a", "\u{e9}b", "\u{4e2d}", "\u{1f600}", "e"];
pub const RIGHT: &[&str] = &["xa1", "yxa2", "xa3", "yyxa4"];

/// A key of `n` bytes with one of them replaced at `at`.
fn spot(n: usize, at: usize, c: u8) -> String {
    let mut v = vec![b'm'; n];
    v[at] = c;
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` decimal numbers in a shuffled order, behind or before (or around) something they share.
fn numbers(n: usize, w: usize) -> Vec<String> {
    let mut v = Vec::with_capacity(n);
    let mut j = n / 2;
    for _ in 0..n {
        v.push(number(j, w));
        j += 19;
        while j >= n { j -= n; }
    }
    v
}
fn number(j: usize, w: usize) -> String {
    let d = [b'0' + (j / 1000) as u8, b'0' + (j / 100 % 10) as u8, b'0' + (j / 10 % 10) as u8, b'0' + (j % 10) as u8];
    let mut s = vec![];
    match w {
        0 => s.extend_from_slice(&d),
        1 => { s.extend_from_slice(b"prefix-longer-than-16-"); s.extend_from_slice(&d); }
        2 => { s.extend_from_slice(&d[2..]); s.resize(2 + j % 7 + 18, b'-'); s.extend_from_slice(&d[..2]); }
        _ => { let m = d.iter().position(|c| *c != b'0').unwrap_or(3); s.extend_from_slice(&d[m..]); s.extend_from_slice(b".suffix-longer-than-16"); }
    }
    unsafe { String::from_utf8_unchecked(s) }
}

harnesses! {
    fn h_c04_q_long_spots("keys of 15, 16, 17, 33, 40, 70, 300 bytes that differ in one byte at either end, around 16, 32, or the middle; queries: one byte (symbolic) elsewhere, shorter, longer; map and set") {
        let n = [15, 16, 17, 33, 40, 70, 300][nd::pick(7)];
        let at = [0, 1, 14, 15, 16, 17, 31, 32, 33, n / 2, n - 2, n - 1];
        let mut k = vec![spot(n, 0, b'm'), spot(n - 1, 0, b'm'), spot(n + 1, 0, b'm')];
        for i in at {
            if i < n { k.push(spot(n, i, b'a')); }
        }
        run(&k, 0, || {
            let c = nd::pick(12);
            let i = if c < 11 { at[c] } else { n / 3 };
            let w = nd::pick(3);
            nd::assume(i < n);
            let x = nd::any_u8();
            nd::assume(x < 128);
            match w {
                0 => spot(n, i, x),
                1 => spot(n - 1, if i < n - 1 { i } else { 0 }, x),
                _ => spot(n + 2, i, x),
            }
        });
    }
    fn h_c04_q_large("300 and 1100 string keys: numbers alone, behind a prefix or before a suffix beyond the subslice limit, around a middle of changing length; every key and queries one edit away from 2 of them; map and set") {
        let (n, w) = ([300, 1100][nd::pick(2)], nd::pick(4));
        let k = numbers(n, w);
        let e: Vec<(&str, u16)> = k.iter().enumerate().map(|(i, s)| (s.as_str(), i as u16)).collect();
        let mut m = FzStringMap::with_hasher(e, ByteHash(0));
        let s = FzStringSet::with_hasher(k.clone(), ByteHash(0));
        ck!(m.len() == n && s.len() == n);
        for i in 0..n {
            ck!(m.get(&k[i]).copied() == Some(i as u16) && s.contains(&k[i]));
        }
        let q = near(&[&k[0], &k[n - 1]]);
        let q = q.as_str();
        let mut exp = None;
        for i in 0..n {
            if k[i] == q {
                exp = Some(i as u16);
            }
        }
        cov!(exp.is_some());
        cov!(exp.is_none());
        ck!(m.get(q).copied() == exp && m.contains_key(q) == exp.is_some() && s.contains(q) == exp.is_some());
        ck!(m.get_key_value(q).map(|x| *x.1) == exp && m.get_mut(q).copied() == exp && s.get(q).is_some() == exp.is_some());
    }
    fn h_c04_q_sym_n0("0 entries, query of up to 2 symbolic ASCII characters; Default is empty") {
        run(&[], 0, || word(2));
        let mut d = FzStringMap::<Box<str>, u8>::default();
        ck!(d.len() == 0 && d.is_empty());
        ck!(d.get("x").is_none() && !d.contains_key("") && d.get_mut("").is_none());
        let s = FzStringSet::<Box<str>>::default();
        ck!(s.len() == 0 && s.is_empty() && !s.contains("") && s.get("y").is_none());
    }
    fn h_c04_q_sym_n1("1 entry and query of up to 3 symbolic ASCII characters each") {
        run(&[word(3)], 0, || word(3));
    }
    fn h_c04_q_sym_n2("2 entries of up to 2 letters out of 3, query of up to 3 symbolic ASCII characters, injective hash function") {
        run(&[key(2, 3), key(2, 3)], 0, || word(3));
    }
    fn h_c04_q_sym_n2_coll("2 entries and query of up to 2 symbolic ASCII characters each, constant hash function") {
        run(&[word(2), word(2)], 1, || word(2));
    }
    fn h_c04_q_sym_n3("3 entries of up to 2 letters out of 2, query of up to 3 symbolic ASCII characters, hash function with 4 values") {
        run(&[key(2, 2), key(2, 2), key(2, 2)], 3, || word(3));
    }
    fn h_c04_q_sym_long("3 entries: a letter out of 2 followed by 'ab', one of up to 3 letters out of 2, 'bcdef'; query of up to 6 symbolic characters") {
        let mut a = key(0, 1);
        a.push((b'a' + nd::pick(2) as u8) as char);
        a.push_str("ab");
        run(&[a, key(3, 2), "bcdef".to_string()], 0, || word(6));
    }
    fn h_c04_q_prefixed("5 keys sharing a prefix, queries one edit (symbolic byte) away; map and set") { shape(PREFIXED, 0) }
    fn h_c04_q_suffixed("6 keys sharing a suffix, queries one edit away; map and set") { shape(SUFFIXED, 0) }
    fn h_c04_q_lengths("5 keys of different lengths, queries one edit away; map and set") { shape(LENGTHS, 0) }
    fn h_c04_q_samelen("6 keys of one length, queries one edit away; map and set") { shape(SAMELEN, 3) }
    fn h_c04_q_emptyish("4 keys with the empty string, queries one edit away; map and set") { shape(EMPTYISH, 0) }
    fn h_c04_q_long("4 keys longer than the subslice limit, queries one edit away; map and set") { shape(LONG, 2) }
    fn h_c04_q_right("4 keys unique in their last character, queries one edit away; map and set") { shape(RIGHT, 0) }
    fn h_c04_q_utf8("5 keys with multi-byte characters; every proper prefix and extension of them; map and set") {
        let s = UTF8[nd::pick(UTF8.len())];
        let ks: Vec<String> = UTF8.iter().map(|s| s.to_string()).collect();
        let q = match nd::pick(4) {
            0 => s.to_string(),
            1 => { let mut q = s.to_string(); q.pop(); q }
            2 => format_join(s, "a"),
            _ => format_join("\u{e9}", s),
        };
        run(&ks, 0, || q);
    }
    fn h_c04_q_default("default hash function: 6 keys; queries: the keys with one byte replaced by one of 26 letters; map and set") {
        let k = SAMELEN;
        let mut m: FzStringMap<Box<str>, u8> = FzStringMap::new(k.iter().enumerate().map(|(i, s)| (*s, i as u8)).collect());
        let s: FzStringSet<Box<str>> = FzStringSet::new(k.to_vec());
        let mut b = k[nd::pick(k.len())].as_bytes().to_vec();
        b[nd::pick(3)] = b'a' + nd::pick(26) as u8;
        let q = unsafe { String::from_utf8_unchecked(b) };
        let mut exp = None;
        let mut i = 0;
        while i < k.len() { if k[i] == q { exp = Some(i as u8); } i += 1; }
        ck_map!(m, q.as_str(), exp);
        ck!(s.contains(&q) == exp.is_some() && s.get(&q).is_some() == exp.is_some());
    }
    fn h_c04_q_many("64 keys (two-digit octal numbers), queries one edit away; map and set") {
        let ks: Vec<String> = (0..64u8).map(|x| unsafe { String::from_utf8_unchecked(vec![b'k', b'0' + x / 8, b'0' + x % 8]) }).collect();
        let s: Vec<&str> = vec![&ks[0], &ks[9], &ks[63]];
        run(&ks, 0, || near(&s));
    }
    fn h_c04_q_repeats("17 to 130 entries over 1 to 30 strings, two hash functions; the last equal entry wins; queries one edit away") {
        let (n, k) = (model::REPEAT_N[nd::pick(6)], model::REPEAT_K[nd::pick(5)]);
        let h = [0, 3][nd::pick(2)];
        let ks: Vec<String> = model::repeats(n, k).iter().map(|x| unsafe { String::from_utf8_unchecked(vec![b'k', b'0' + x / 8, b'0' + x % 8]) }).collect();
        let s: Vec<&str> = vec![&ks[0], &ks[16]];
        run(&ks, h, || near(&s));
    }
    fn h_c04_q_tolerated("45 keys of which a few share the bytes (or the length) that tell the others apart; queries one edit away; map and set") {
        // at 40 keys and more, the analysis accepts two duplicates
        let w = nd::pick(4);
        let mut ks: Vec<String> = vec![];
        for i in 0..45u8 {
            let c = b'0' + if i == 44 { 43 } else { i };
            let tail = b'a' + i % 2;
            ks.push(unsafe { String::from_utf8_unchecked(match w {
                0 => vec![c, tail],                 // left range
                1 => vec![b'q', c, tail, b'w'],     // left range with a shared prefix
                2 => { let mut v = vec![b'x'; 1 + i as usize % 3]; v.push(tail); v.push(c); v } // counted from the end
                _ => { let mut v = vec![b'x'; if i == 44 { 43 } else { i as usize }]; v.push(tail); v } // length
            }) });
        }
        let s: Vec<&str> = if w == 3 { vec![&ks[1], &ks[2]] } else { vec![&ks[0], &ks[43], &ks[44]] };
        run(&ks, 0, || near(&s));
    }
    fn h_c04_q_ctors("3 entries over 3 strings: From array, FromIterator, owned and borrowed forms, trait entry points; 4 queries") {
        let w = ["", "ab", "abc", "b"];
        let i: [usize; 3] = core::array::from_fn(|_| nd::pick(3));
        let q = w[nd::pick(4)];
        let mut exp = None;
        for j in 0..3 { if w[i[j]] == q { exp = Some(j as u8); } }
        let n = model::distinct(&i);
        let e = [(w[i[0]], 0u8), (w[i[1]], 1), (w[i[2]], 2)];
        let mut a: FzStringMap<Box<str>, u8> = FzStringMap::from(e);
        ck!(a.len() == n);
        ck!(MapQuery::get(&a, &q).copied() == exp && MapQuery::contains_key(&a, &q) == exp.is_some());
        ck!(MapQuery::get_mut(&mut a, &q).copied() == exp);
        ck!(MapExtras::get_key_value(&a, &q).map(|x| *x.1) == exp);
        ck!(Len::len(&a) == n);
        let b: FzStringMap<Box<str>, u8> = e.iter().map(|x| (x.0.to_string(), x.1)).collect();
        ck!(b.get(q.to_string()).copied() == exp && b.len() == n);
        let s: FzStringSet<Box<str>> = FzStringSet::from([w[i[0]], w[i[1]], w[i[2]]]);
        ck!(s.len() == n && SetQuery::contains(&s, &q) == exp.is_some() && SetExtras::get(&s, &q).is_some() == exp.is_some());
        let s: FzStringSet<Box<str>> = i.iter().map(|x| w[*x]).collect();
        ck!(s.len() == n && s.contains(q) == exp.is_some());
    }
    fn h_c04_t_sym_n2_3("2 entries of up to 3 letters out of 3, query of up to 4 symbolic ASCII characters, injective hash function") {
        run(&[key(3, 3), key(3, 3)], 0, || word(4));
    }
    fn h_c04_t_sym_n4("4 entries of up to 2 letters out of 2, query of up to 3 symbolic ASCII characters, hash function with 4 values") {
        run(&[key(2, 2), key(2, 2), key(2, 2), key(2, 2)], 3, || word(3));
    }
    fn h_c04_t_prefixed_coll("5 keys sharing a prefix, hash function with 4 values, queries one edit away; map and set") { shape(PREFIXED, 3) }
    fn h_c04_t_suffixed_coll("6 keys sharing a suffix, constant hash function, queries one edit away; map and set") { shape(SUFFIXED, 1) }
}

fn format_join(a: &str, b: &str) -> String {
    let mut s = String::with_capacity(a.len() + b.len());
    s.push_str(a);
    s.push_str(b);
    s
}
