//! C09: everything put into a collection is dropped exactly once, never used afterwards and never leaked.
use crate::kinds::*;
use crate::{ck, cov, harnesses, model, nd, with_map, with_own_map, with_str_map};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher as _};
use frozen_collections::*;

static mut LIVE: [i8; 64] = [0; 64];
fn live(i: u8) -> i8 {
    unsafe { LIVE[i as usize] }
}
fn total() -> i32 {
    let mut t = 0;
    for i in 0..64 {
        t += live(i) as i32;
    }
    t
}
/// An owner: allocates, counts its live copies, equal and ordered by `key` only.
struct D {
    id: u8,
    key: u8,
    b: Box<u8>,
}
impl D {
    fn new(id: u8, key: u8) -> D {
        unsafe { LIVE[id as usize] += 1 };
        D { id, key, b: Box::new(id ^ 0x55) }
    }
    fn ok(&self) -> bool {
        live(self.id) > 0 && *self.b == self.id ^ 0x55
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        ck!(self.ok());
        D::new(self.id, self.key)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        ck!(self.ok());
        unsafe { LIVE[self.id as usize] -= 1 };
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.key == o.key
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> Ordering {
        self.key.cmp(&o.key)
    }
}
impl Hash for D {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.key)
    }
}

/// Runs, then nothing may be left.
fn bracket(f: impl FnOnce()) {
    let h = nd::live_heap();
    f();
    ck!(total() == 0);
    ck!(nd::live_heap() == h);
}

/// Consumes part of an iterator in some way, keeping what it yields alive for a while.
fn part<I: Iterator>(mut it: I, n: usize, ok: impl Fn(&I::Item) -> bool) {
    let first = nd::below(n as u64 + 1) as usize;
    let mode = nd::pick(5);
    let mut kept = Vec::with_capacity(n);
    let mut i = 0;
    while i < first {
        let x = it.next();
        match x {
            Some(x) => kept.push(x),
            None => ck!(false),
        }
        i += 1;
    }
    match mode {
        0 => drop(it),
        1 => {
            let mut it = it;
            while let Some(x) = it.next() {
                kept.push(x);
            }
            ck!(kept.len() == n);
        }
        2 => {
            let c = it.fold(0, |a, x| { ck!(ok(&x)); a + 1 });
            ck!(c == n - first);
        }
        3 => ck!(it.count() == n - first),
        _ => {
            if let Some(x) = it.nth(1) {
                kept.push(x);
            }
            drop(it);
        }
    }
    for x in &kept {
        ck!(ok(x));
    }
}

fn values<K, Q, M: Map<K, D, Q> + Len + Clone>(m: M, k: &[Q], q: impl Fn() -> Q) {
    let n = k.len();
    ck!(total() as usize == n);
    let mut m = m;
    match nd::pick(7) {
        0 => part(m.into_iter(), n, |x| x.1.ok()),
        1 => {
            let it = MapIteration::into_keys(m);
            part(it, n, |_| true);
            ck!(total() == 0);
        }
        2 => part(MapIteration::into_values(m), n, |x| x.ok()),
        3 => {
            let c = m.clone();
            ck!(total() as usize == 2 * n);
            if nd::pick(2) == 0 { drop(m); for key in k { ck!(c.get(key).map_or(false, |d| d.ok())); } } else { drop(c); for key in k { ck!(m.get(key).map_or(false, |d| d.ok())); } }
            ck!(total() as usize == 0 || total() as usize == n);
        }
        4 => {
            let key = q();
            if let Some(v) = m.get_mut(&key) {
                ck!(v.ok());
                let old = v.id;
                *v = D::new(40, 0);
                ck!(live(old) == 0);
                ck!(live(40) == 1);
            }
            ck!(total() as usize == n);
            for v in MapIteration::values(&m) { ck!(v.ok()); }
        }
        5 => {
            for v in MapIteration::values_mut(&mut m) { *v = D::new(41, 0); }
            ck!(live(41) as usize == n && total() as usize == n);
            let key = q();
            if let Some(v) = m.get(&key) { ck!(v.id == 41 && v.ok()); }
        }
        _ => {
            for (_, v) in MapIteration::iter_mut(&mut m) { ck!(v.ok()); }
            drop(m);
            ck!(total() == 0);
        }
    }
}
fn mk(i: u8) -> D {
    D::new(i, i)
}

/// Owning keys and values with repeated keys: the superseded entries are dropped during construction, the rest later.
fn repeats<M: MapIteration<D, D> + Len>(k: &[u8], build: impl FnOnce(Vec<(D, D)>) -> M) {
    let n = k.len();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((D::new(i as u8, k[i]), D::new(16 + i as u8, 0)));
    }
    let m = build(v);
    let d = model::distinct(k);
    ck!(m.len() == d);
    ck!(total() as usize == 2 * d);
    // the value kept is the last one; every key has a live owner
    for i in 0..n {
        let last = model::last(k, &k[i]) == Some(i as u8);
        ck!(live(16 + i as u8) == last as i8);
    }
    let mut c = 0;
    for (key, v) in m.iter() {
        ck!(key.ok() && v.ok());
        c += 1;
    }
    ck!(c == d);
    match nd::pick(3) {
        0 => drop(m),
        1 => part(m.into_iter(), d, |x| x.0.ok() && x.1.ok()),
        _ => part(MapIteration::into_keys(m), d, |x| x.ok()),
    }
}
fn keys<const N: usize>(max: u8) -> [u8; N] {
    core::array::from_fn(|_| {
        let k = nd::any_u8();
        nd::assume(k < max);
        k
    })
}

fn set_of<S: Set<D> + Len + Clone>(s: S, k: &[u8]) {
    let d = model::distinct(k);
    ck!(s.len() == d && total() as usize == d);
    match nd::pick(3) {
        0 => part(s.into_iter(), d, |x| x.ok()),
        1 => {
            let c = s.clone();
            ck!(total() as usize == 2 * d);
            drop(s);
            for x in SetIteration::iter(&c) { ck!(x.ok()); }
        }
        _ => drop(s),
    }
    ck!(total() == 0);
}
fn owners(k: &[u8]) -> Vec<D> {
    let mut v = Vec::with_capacity(k.len());
    for i in 0..k.len() {
        v.push(D::new(i as u8, k[i]));
    }
    v
}

/// An owner counted as a whole.
static mut MANY: i32 = 0;
struct W(u16, Box<u16>);
impl W {
    fn new(k: u16) -> W {
        unsafe { MANY += 1 };
        W(k, Box::new(k ^ 0x55))
    }
    fn ok(&self) -> bool {
        *self.1 == self.0 ^ 0x55
    }
}
impl Drop for W {
    fn drop(&mut self) {
        ck!(self.ok());
        unsafe { MANY -= 1 };
    }
}
impl Clone for W {
    fn clone(&self) -> W {
        W::new(self.0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.0 == o.0
    }
}
impl Eq for W {}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for W {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u16(self.0)
    }
}
trait Sound {
    fn sound(&self) -> bool;
}
impl Sound for W {
    fn sound(&self) -> bool {
        self.ok()
    }
}
impl Sound for u16 {
    fn sound(&self) -> bool {
        true
    }
}
fn many() -> usize {
    unsafe { MANY as usize }
}
/// 300 or 1100 keys, some given again (with an equal key that owns its own memory), then consumed in part.
macro_rules! own_large { ($mk:expr, $key:expr, $e:literal) => {{
    let n = [300, 1100][nd::pick(2)];
    let s = [1u16, 7][nd::pick(2)];
    let d = [0, 1, 270][nd::pick(3)];
    let h = nd::live_heap();
    {
        let mut k = crate::large::keys(n, s);
        for i in 0..d { k.push(k[i]); }
        let mut v = Vec::with_capacity(n + d);
        for x in &k { v.push(($key(*x), W::new(*x))); }
        ck!(many() == $e * (n + d));
        let mut m = $mk(v);
        ck!(m.len() == n && many() == $e * n);
        let first = [0, 1, 255, 256, n][nd::pick(5)];
        match nd::pick(5) {
            0 => { let mut it = m.into_iter(); for i in 0..first { let x = it.next().unwrap(); ck!(x.0.sound() && x.1.ok() && x.0 == $key(x.1.0)); drop(x); ck!(many() == $e * (n - i - 1)); } drop(it); }
            1 => { let mut it = m.into_keys(); for _ in 0..first { ck!(it.next().unwrap().sound()); } drop(it); }
            2 => { let mut it = m.into_values(); for _ in 0..first { ck!(it.next().unwrap().sound()); } drop(it); }
            3 => { let c = m.clone(); ck!(many() == 2 * $e * n); drop(m); ck!(many() == $e * n); for (a, b) in c.iter() { ck!(a.sound() && b.ok()); } }
            _ => { let w = $key(k[first % n]); *m.get_mut(&w).unwrap() = W::new(9); drop(w); ck!(many() == $e * n); drop(m); }
        }
        ck!(many() == 0);
    }
    ck!(nd::live_heap() == h);
}}; }

harnesses! {
    fn h_c09_q_large("300 and 1100 owning keys and values, none, one or 270 of the keys given twice: hash, ordered, scalar maps; 0, 1, 255, 256 or all items taken from the owning iterators, clones, replacement") {
        match nd::pick(3) {
            0 => own_large!(FzScalarMap::new, |x: u16| x, 1),
            1 => own_large!(FzOrderedMap::new, W::new, 2),
            _ => own_large!(|v| FzHashMap::with_hasher(v, model::ByteHash(0)), W::new, 2),
        }
    }
    fn h_c09_q_values("19 kinds of map with owning values: consumed partly in any way, cloned, overwritten, dropped") {
        bracket(|| with_map!(nd::pick(MAP_KINDS), mk, values))
    }
    fn h_c09_q_str_values("7 string-keyed maps with owning values: consumed partly in any way, cloned, overwritten, dropped") {
        // queries leak on purpose, so only the owners are counted
        with_str_map!(nd::pick(STR_KINDS), mk, values);
        ck!(total() == 0);
    }
    fn h_c09_q_str_heap("string-keyed maps own copies of their keys: nothing is leaked") {
        bracket(|| {
            let k = ["ka", "kb", "kc", "kdd"];
            let m = FzStringMap::with_hasher(list(&k, mk), model::ByteHash(0));
            match nd::pick(5) {
                0 => drop(m),
                1 => part(m.into_iter(), 4, |x| x.1.ok() && x.0.len() >= 2),
                2 => part(m.into_keys(), 4, |x| x.len() >= 2),
                3 => part(m.into_values(), 4, |x| x.ok()),
                _ => { let c = m.clone(); drop(m); ck!(c.get("kc").map_or(false, |d| d.ok())); }
            }
        });
        bracket(|| {
            let k = ["ka", "kb", "ka", "kdd"];
            let s = FzStringSet::with_hasher(k.to_vec(), model::ByteHash(0));
            ck!(s.len() == 3);
            let c = s.clone();
            drop(s);
            part(c.into_iter(), 3, |x| x.len() >= 2);
        });
    }
    fn h_c09_q_ordered("FzOrderedMap with owning keys and values from any 3 keys below 4: superseded entries dropped once") {
        bracket(|| { let k = keys::<3>(4); repeats(&k, |v| FzOrderedMap::new(v)) })
    }
    fn h_c09_q_hash("FzHashMap with owning keys and values from any 3 keys below 4, three hash functions") {
        bracket(|| { let k = keys::<3>(4); let h = [0, 1, 3][nd::pick(3)]; repeats(&k, |v| FzHashMap::with_hasher(v, model::ByteHash(h))) })
    }
    fn h_c09_t_ordered("FzOrderedMap with owning keys and values from any 5 keys below 4") {
        bracket(|| { let k = keys::<5>(4); repeats(&k, |v| FzOrderedMap::new(v)) })
    }
    fn h_c09_t_hash("FzHashMap with owning keys and values from any 5 keys below 3, three hash functions") {
        bracket(|| { let k = keys::<5>(3); let h = [0, 1, 3][nd::pick(3)]; repeats(&k, |v| FzHashMap::with_hasher(v, model::ByteHash(h))) })
    }
    fn h_c09_q_scalar("FzScalarMap with owning values from any 3 keys below 6, repeats included") {
        bracket(|| {
            let k = keys::<3>(6);
            let mut v = Vec::with_capacity(3);
            for i in 0..3u8 { v.push((k[i as usize], D::new(i, 0))); }
            let m = FzScalarMap::new(v);
            let d = model::distinct(&k);
            ck!(m.len() == d && total() as usize == d);
            for i in 0..3u8 { ck!(live(i) == (model::last(&k, &k[i as usize]) == Some(i)) as i8); }
            match nd::pick(3) { 0 => drop(m), 1 => part(m.into_iter(), d, |x| x.1.ok()), _ => part(m.into_values(), d, |x| x.ok()) }
        })
    }
    fn h_c09_q_string("FzStringMap with owning values, any 3 of 3 words, repeats included") {
        bracket(|| {
            const W: [&str; 3] = ["", "a", "ab"];
            let k: [u8; 3] = core::array::from_fn(|_| nd::pick(3) as u8);
            let mut v = Vec::with_capacity(3);
            for i in 0..3u8 { v.push((W[k[i as usize] as usize], D::new(i, 0))); }
            let m = FzStringMap::with_hasher(v, model::ByteHash(0));
            let d = model::distinct(&k);
            ck!(m.len() == d && total() as usize == d);
            for i in 0..3u8 { ck!(live(i) == (model::last(&k, &k[i as usize]) == Some(i)) as i8); }
            match nd::pick(3) { 0 => drop(m), 1 => part(m.into_iter(), d, |x| x.1.ok()), _ => part(m.into_values(), d, |x| x.ok()) }
        })
    }
    fn h_c09_q_sets("FzOrderedSet and FzHashSet of owning values from any 3 keys below 3") {
        bracket(|| {
            let k = keys::<3>(3);
            match nd::pick(2) {
                0 => set_of(FzOrderedSet::new(owners(&k)), &k),
                _ => set_of(FzHashSet::with_hasher(owners(&k), model::ByteHash(0)), &k),
            }
        })
    }
    fn h_c09_q_macros("macro-written hash, ordered and scalar collections with owning keys or values, computed keys") {
        bracket(|| {
            match nd::pick(5) {
                0 => { let m = fz_hash_map!({ D::new(0, 1): D::new(1, 0), D::new(2, 2): D::new(3, 0), D::new(4, 3): D::new(5, 0), D::new(6, 4): D::new(7, 0) }); ck!(total() == 8); part(m.into_iter(), 4, |x| x.0.ok() && x.1.ok()) }
                1 => { let m = fz_ordered_map!({ D::new(0, 7): D::new(1, 0), D::new(2, 2): D::new(3, 0), D::new(4, 3): D::new(5, 0), D::new(6, 4): D::new(7, 0), D::new(8, 5): D::new(9, 0) }); ck!(total() == 10); part(m.into_keys(), 5, |x| x.ok()) }
                2 => { let m = fz_scalar_map!({ 3u8: D::new(0, 0), 4u8: D::new(1, 0), 5u8: D::new(2, 0) }); let c = m.clone(); drop(m); part(c.into_values(), 3, |x| x.ok()) }
                3 => { let s = fz_ordered_set!({ D::new(0, 7), D::new(1, 3) }); ck!(total() == 2); part(s.into_iter(), 2, |x| x.ok()) }
                _ => { let s = fz_hash_set!({ D::new(0, 7), D::new(1, 3), D::new(2, 4), D::new(3, 5) }); ck!(total() == 4); let c = s.clone(); ck!(total() == 8); drop(s); part(c.into_iter(), 4, |x| x.ok()) }
            }
        })
    }
    fn h_c09_q_default_from("default, From arrays, FromIterator and collected empties: nothing is leaked, everything dropped once") {
        bracket(|| {
            match nd::pick(6) {
                0 => { let m: FzHashMap<D, D, model::ByteHash> = FzHashMap::default(); ck!(m.len() == 0); }
                1 => { let m = FzOrderedMap::from([(D::new(0, 1), D::new(1, 0)), (D::new(2, 1), D::new(3, 0))]); ck!(m.len() == 1 && total() == 2); }
                2 => { let m: FzHashMap<D, D, model::ByteHash> = [(D::new(0, 1), D::new(1, 0)), (D::new(2, 1), D::new(3, 0))].into_iter().collect(); ck!(m.len() == 1 && total() == 2); }
                3 => { let m: FzScalarMap<u8, D> = [(3u8, D::new(1, 0)), (3, D::new(3, 0)), (4, D::new(4, 0))].into_iter().collect(); ck!(m.len() == 2 && total() == 2 && live(1) == 0); }
                4 => { let m = FzOrderedMap::<D, D>::new(Vec::new()); ck!(m.into_iter().count() == 0); }
                _ => { let s = FzHashSet::<D, model::ByteHash>::from([D::new(0, 1), D::new(1, 2), D::new(2, 1)]); ck!(s.len() == 2 && total() == 2); }
            }
        })
    }
}
