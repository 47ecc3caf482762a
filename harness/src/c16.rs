//! C16: the library's traits mean the same on standard collections and everything else that implements them.
use crate::kinds::*;
use crate::{ck, cov, harnesses, model, nd};
use core::hash::Hash;
use frozen_collections::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

/// A value whose hash code says nothing.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct E(pub u8);
impl Hash for E {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {}
}
fn list(n: usize, max: u8) -> ([u8; 3], [u8; 3]) {
    let mut r = ([0; 3], [0; 3]);
    for i in 0..n {
        r.0[i] = nd::any_u8();
        if max != 0 {
            nd::assume(r.0[i] < max);
        }
        r.1[i] = nd::any_u8();
    }
    r
}
/// Everything the traits offer on a map, against the list it was filled from.
fn map<M: Map<E, u8> + Clone>(mut m: M, k: &[u8], v: &[u8]) {
    let d = model::distinct(k);
    ck!(Len::len(&m) == d && Len::is_empty(&m) == (d == 0));
    let q = nd::any_u8();
    let e = model::last(k, &q).map(|i| v[i as usize]);
    ck!(MapQuery::get(&m, &E(q)).copied() == e);
    ck!(MapQuery::contains_key(&m, &E(q)) == e.is_some());
    ck!(MapExtras::get_key_value(&m, &E(q)).map(|x| (x.0.0, *x.1)) == e.map(|x| (q, x)));
    // iterators: the queried key comes up exactly once, with its value, among as many as there are
    let (mut n, mut c) = (0, 0);
    for (a, b) in MapIteration::iter(&m) {
        n += 1;
        if a.0 == q { c += 1; ck!(Some(*b) == e); }
    }
    ck!(n == d && c == e.is_some() as usize);
    let (mut n, mut c) = (0, 0);
    for a in MapIteration::keys(&m) { n += 1; c += (a.0 == q) as usize; }
    ck!(n == d && c == e.is_some() as usize);
    let mut sum = 0u32;
    for b in MapIteration::values(&m) { sum += *b as u32; }
    let mut exp = 0u32;
    for i in 0..k.len() { if model::last(k, &k[i]) == Some(i as u8) { exp += v[i] as u32; } }
    ck!(sum == exp);
    let mut c = 0;
    for a in MapIteration::into_keys(m.clone()) { c += (a.0 == q) as usize; }
    ck!(c == e.is_some() as usize);
    let mut sum = 0u32;
    for b in MapIteration::into_values(m.clone()) { sum += b as u32; }
    ck!(sum == exp);
    let mut c = 0;
    for (a, b) in m.clone() { if a.0 == q { c += 1; ck!(Some(b) == e); } }
    ck!(c == e.is_some() as usize);
    // writes
    let w = nd::any_u8();
    let mut o = m.clone();
    if let Some(x) = MapQuery::get_mut(&mut o, &E(q)) { *x = w; ck!(e.is_some()); } else { ck!(e.is_none()); }
    ck!(MapQuery::get(&o, &E(q)).copied() == e.map(|_| w));
    ck!(MapQuery::get(&m, &E(q)).copied() == e);
    for (a, b) in MapIteration::iter_mut(&mut m) { if a.0 == q { *b = w; } }
    ck!(MapQuery::get(&m, &E(q)).copied() == e.map(|_| w));
    let mut n = 0;
    for b in MapIteration::values_mut(&mut m) { *b = 7; n += 1; }
    ck!(n == d);
    ck!(MapQuery::get(&m, &E(q)).copied() == e.map(|_| 7));
    cov!(e.is_some());
}
fn set<S: Set<E> + Clone>(s: S, k: &[u8]) {
    let d = model::distinct(k);
    ck!(Len::len(&s) == d && Len::is_empty(&s) == (d == 0));
    let q = nd::any_u8();
    let e = model::last(k, &q).is_some();
    ck!(SetQuery::contains(&s, &E(q)) == e);
    ck!(SetExtras::get(&s, &E(q)).copied() == if e { Some(E(q)) } else { None });
    let (mut n, mut c) = (0, 0);
    for a in SetIteration::iter(&s) { n += 1; c += (a.0 == q) as usize; }
    ck!(n == d && c == e as usize);
    let mut c = 0;
    for a in s { c += (a.0 == q) as usize; }
    ck!(c == e as usize);
}
fn maps(n: usize) {
    let k = nd::pick(5);
    let (a, v) = list(n, 0);
    let (a, v) = (&a[..n], &v[..n]);
    match k {
        0 => { let mut m = BTreeMap::new(); for i in 0..n { m.insert(E(a[i]), v[i]); } map(m, a, v) }
        1 => { let mut m = HashMap::with_hasher(model::ByteHash(0)); for i in 0..n { m.insert(E(a[i]), v[i]); } map(m, a, v) }
        2 => { let mut m = hashbrown::HashMap::with_hasher(model::ByteHash(0)); for i in 0..n { m.insert(E(a[i]), v[i]); } map(m, a, v) }
        3 => { let mut l = Vec::with_capacity(n); for i in 0..n { l.push((E(a[i]), v[i])); } map(FzOrderedMap::new(l), a, v) }
        _ => { let mut l = Vec::with_capacity(n); for i in 0..n { l.push((E(a[i]), v[i])); } map(FzHashMap::with_hasher(l, model::ByteHash(1)), a, v) }
    }
}
fn sets(n: usize) {
    let k = nd::pick(4);
    let (a, _) = list(n, 0);
    let a = &a[..n];
    match k {
        0 => { let mut m = BTreeSet::new(); for x in a { m.insert(E(*x)); } set(m, a) }
        1 => { let mut m = HashSet::with_hasher(model::ByteHash(0)); for x in a { m.insert(E(*x)); } set(m, a) }
        2 => { let mut m = hashbrown::HashSet::with_hasher(model::ByteHash(0)); for x in a { m.insert(E(*x)); } set(m, a) }
        _ => set(FzOrderedSet::new(a.iter().map(|x| E(*x)).collect()), a),
    }
}
/// Any text of n characters, with a zero byte nowhere.
fn lens() {
    fn is<T: Len + ?Sized>(x: &T, n: usize) {
        ck!(Len::len(x) == n);
        ck!(Len::is_empty(x) == (n == 0));
    }
    let n = nd::pick(5);
    let w = model::word_n(n);
    let v: Vec<u8> = w.as_bytes().to_vec();
    match nd::pick(6) {
        0 => {
            is(w.as_str(), n);
            is(&w, n);
            is(&w.as_str(), n);
            is(&Box::<str>::from(w.as_str()), n);
            is(&Rc::<str>::from(w.as_str()), n);
            is(&Arc::<str>::from(w.as_str()), n);
            is(std::ffi::OsStr::new(&w), n);
            is(&std::ffi::OsString::from(w.clone()), n);
        }
        1 => {
            is(&v, n);
            is(&v[..], n);
            is(&Box::<[u8]>::from(&v[..]), n);
            is(&Rc::new(v.clone()), n);
            is(&Arc::<[u8]>::from(&v[..]), n);
        }
        2 => {
            for b in &v { nd::assume(*b != 0); }
            let c = std::ffi::CString::new(v).unwrap();
            is(&c, n);
            is(c.as_c_str(), n);
        }
        3 => {
            let mut d = VecDeque::with_capacity(4);
            // wrapped around
            for _ in 0..3 { d.push_back(9); d.pop_front(); }
            for b in &v { d.push_back(*b); }
            is(&d, n);
            let mut l = LinkedList::new();
            for b in &v { l.push_front(*b); }
            is(&l, n);
        }
        4 => {
            let mut h = BinaryHeap::with_capacity(4);
            for b in &v { h.push(*b); }
            is(&h, n);
        }
        _ => {
            let mut m = BTreeMap::new();
            let mut s = BTreeSet::new();
            for (i, _) in v.iter().enumerate() { m.insert(i, ()); s.insert(i); }
            is(&m, n);
            is(&s, n);
            let h: HashMap<usize, (), model::ByteHash> = m.clone().into_iter().collect();
            is(&h, n);
            let h: HashSet<usize, model::ByteHash> = s.clone().into_iter().collect();
            is(&h, n);
            let h: hashbrown::HashMap<usize, (), model::ByteHash> = m.clone().into_iter().collect();
            is(&h, n);
            let h: hashbrown::HashSet<usize, model::ByteHash> = s.clone().into_iter().collect();
            is(&h, n);
        }
    }
}
/// Text with characters of several bytes: length in bytes, as the hashing by length assumes.
fn utf8() {
    let (s, n) = [("é", 2), ("aé", 3), ("日本", 6), ("🦀", 4)][nd::pick(4)];
    ck!(Len::len(s) == n && Len::len(&String::from(s)) == n && Len::len(&s) == n && Len::len(&Box::<str>::from(s)) == n);
    ck!(Len::len(std::ffi::OsStr::new(s)) == n);
}
/// Through trait objects.
fn objects() {
    let k = [6u8, 1, 9];
    let l = crate::kinds::list(&k, |i| i);
    let b: BTreeMap<u8, u8> = l.clone().into_iter().collect();
    let f = FzScalarMap::new(l.clone());
    let h = FzHashMap::with_hasher(l.clone(), model::ByteHash(0));
    let o = FzOrderedMap::new(l);
    let m: [&dyn MapQuery<u8, u8>; 4] = [&b, &f, &h, &o];
    let m = m[nd::pick(4)];
    let q = nd::any_u8();
    let e = model::last(&k, &q);
    ck!(m.get(&q).copied() == e && m.contains_key(&q) == e.is_some() && m.len() == 3 && !m.is_empty());
    let s: [&dyn SetQuery<u8>; 3] = [&FzScalarSet::new(k.to_vec()), &BTreeSet::from(k), &FzOrderedSet::new(k.to_vec())];
    let s = s[nd::pick(3)];
    ck!(s.contains(&q) == e.is_some() && s.len() == 3);
}

/// Bytes that are not text, in the platform's strings.
fn not_text() {
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let n = nd::pick(5);
    let b: Vec<u8> = (0..n).map(|_| nd::any_u8()).collect();
    ck!(Len::len(std::ffi::OsStr::from_bytes(&b)) == n);
    ck!(Len::len(&std::ffi::OsString::from_vec(b.clone())) == n);
    for x in &b { nd::assume(*x != 0); }
    let c = std::ffi::CString::new(b).unwrap();
    ck!(Len::len(&c) == n && Len::len(c.as_c_str()) == n && Len::is_empty(&c) == (n == 0));
}
/// Lengths of any size: elements without a size.
fn any_len() {
    let n = nd::bits(62) as usize;
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(n) };
    fn is<T: Len + ?Sized>(x: &T, n: usize) {
        ck!(Len::len(x) == n);
        ck!(Len::is_empty(x) == (n == 0));
    }
    is(&v, n);
    is(&v[..], n);
    cov!(n > u32::MAX as usize);
    let b = v.into_boxed_slice();
    is(&b, n);
    let r: Rc<[()]> = unsafe { Rc::from_raw(core::ptr::slice_from_raw_parts(Rc::into_raw(Rc::new(())), n)) };
    is(&r, n);
    let a: Arc<[()]> = unsafe { Arc::from_raw(core::ptr::slice_from_raw_parts(Arc::into_raw(Arc::new(())), n)) };
    is(&a, n);
    core::mem::forget((b, r, a));
}
/// Large standard collections.
fn large() {
    let (n, s) = ([300, 1100][nd::pick(2)], 7u16);
    let k = crate::large::keys(n, s);
    fn map<M: Map<u16, u16, u16> + Len>(mut m: M, n: usize, s: u16) {
        ck!(Len::len(&m) == n && MapIteration::iter(&m).count() == n && MapIteration::keys(&m).count() == n);
        let mut j = 0;
        while j < n as u16 {
            let k = j * s + 5;
            ck!(MapQuery::get(&m, &k).copied() == Some(j));
            *MapQuery::get_mut(&mut m, &k).unwrap() = j + 1;
            ck!(MapExtras::get_key_value(&m, &k).map(|x| (*x.0, *x.1)) == Some((k, j + 1)));
            ck!(!MapQuery::contains_key(&m, &(k + 1)));
            j += 1;
        }
        let mut c = 0;
        for (k, v) in m { ck!(k == (v - 1) * s + 5); c += 1; }
        ck!(c == n);
    }
    fn set<S: Set<u16, u16> + Len>(m: S, n: usize, s: u16) {
        ck!(Len::len(&m) == n && SetIteration::iter(&m).count() == n);
        let mut j = 0;
        while j < n as u16 {
            let k = j * s + 5;
            ck!(SetQuery::contains(&m, &k) && SetExtras::get(&m, &k).copied() == Some(k) && !SetQuery::contains(&m, &(k + 1)));
            j += 1;
        }
        ck!(m.into_iter().count() == n);
    }
    macro_rules! m { ($m:expr) => {{ let mut m = $m; for (a, b) in crate::large::pairs(&k, s, |j| j) { m.insert(a, b); } map(m, n, s) }}; }
    macro_rules! t { ($m:expr) => {{ let mut m = $m; for a in &k { m.insert(*a); } set(m, n, s) }}; }
    match nd::pick(9) {
        0 => m!(BTreeMap::new()),
        1 => m!(HashMap::with_hasher(model::ByteHash(0))),
        2 => m!(hashbrown::HashMap::with_hasher(model::ByteHash(0))),
        3 => t!(BTreeSet::new()),
        4 => t!(HashSet::with_hasher(model::ByteHash(0))),
        5 => t!(hashbrown::HashSet::with_hasher(model::ByteHash(0))),
        6 => { let v: VecDeque<u16> = k.iter().copied().collect(); ck!(Len::len(&v) == n); let h: BinaryHeap<u16> = k.iter().copied().collect(); ck!(Len::len(&h) == n); }
        7 => { let v: LinkedList<u16> = k.iter().copied().collect(); ck!(Len::len(&v) == n); let t = "é".repeat(n); ck!(Len::len(&t) == 2 * n && Len::len(t.as_str()) == 2 * n && Len::len(&Arc::<str>::from(t)) == 2 * n); }
        _ => { let c = std::ffi::CString::new(vec![200u8; 70_000]).unwrap(); ck!(Len::len(&c) == 70_000 && Len::len(c.as_c_str()) == 70_000); ck!(Len::len(&Arc::new(vec![1u8; 70_000])) == 70_000); }
    }
}

harnesses! {
    fn h_c16_q_not_text("length of any 0 to 4 bytes as platform and C strings") { not_text() }
    fn h_c16_q_any_len("length of vectors, slices, boxed and shared slices: any below 2^62") { any_len() }
    fn h_c16_q_large("six standard maps and sets of 300 and 1100 entries through the traits; lengths of other large collections and strings") { large() }
    fn h_c16_q_maps("ordered, hash, hashbrown and two frozen maps of any 0 to 2 entries through every trait method; any query, any value written") { maps(nd::pick(3)) }
    fn h_c16_q_maps3("the same with any 3 entries") { maps(3) }
    fn h_c16_q_sets("ordered, hash, hashbrown and frozen sets of any 0 to 2 values through every trait method; any query") { sets(nd::pick(3)) }
    fn h_c16_q_sets3("the same with any 3 values") { sets(3) }
    fn h_c16_q_lens("length and emptiness of all 22 kinds of things that have one, 0 to 4 arbitrary elements") { lens() }
    fn h_c16_q_utf8("length of multi-byte text in every string type") { utf8() }
    fn h_c16_q_objects("the query traits as trait objects, any query") { objects() }
}
