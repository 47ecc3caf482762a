//! C13: serialization writes every entry once, and reading back gives the same collection.
use crate::kinds::*;
use crate::{with_large, with_large_set, ck, cov, harnesses, model, nd, with_own_map, with_own_set};
use core::fmt::{Debug, Display, Formatter};
use core::hash::Hash;
use frozen_collections::*;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use serde::forward_to_deserialize_any;

/// A key whose hash code says nothing.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct E(pub u8);
impl Hash for E {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {}
}
impl Scalar for E {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
impl Serialize for E {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for E {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<E, D::Error> {
        u8::deserialize(d).map(E)
    }
}

#[derive(Debug, PartialEq)]
pub struct Error(u8);
impl Display for Error {
    fn fmt(&self, _: &mut Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(_: T) -> Self {
        Error(2)
    }
}
impl de::Error for Error {
    fn custom<T: Display>(_: T) -> Self {
        Error(2)
    }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        Error(3)
    }
}

// ---- what a serializer is told

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok {
    Map(usize),
    Seq(usize),
    NoLen,
    Num(u8),
    Wide(u16),
    Str(usize, [u8; 4]),
    End,
}
pub struct Rec {
    pub t: Vec<Tok>,
    /// call at which it fails
    fail: usize,
}
impl Rec {
    fn put(&mut self, t: Tok) -> Result<(), Error> {
        if self.t.len() == self.fail {
            return Err(Error(1));
        }
        self.t.push(t);
        Ok(())
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, Error> { Err(Error(9)) })* };
}
impl<'a> Serializer for &'a mut Rec {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = &'a mut Rec;
    type SerializeMap = &'a mut Rec;
    type SerializeTuple = Impossible<(), Error>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    fn serialize_u8(self, v: u8) -> Result<(), Error> {
        self.put(Tok::Num(v))
    }
    fn serialize_u16(self, v: u16) -> Result<(), Error> {
        self.put(Tok::Wide(v))
    }
    fn serialize_str(self, s: &str) -> Result<(), Error> {
        let mut b = [0; 4];
        let s = s.as_bytes();
        for i in 0..s.len() {
            b[i] = s[i];
        }
        self.put(Tok::Str(s.len(), b))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<&'a mut Rec, Error> {
        self.put(n.map_or(Tok::NoLen, Tok::Seq))?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<&'a mut Rec, Error> {
        self.put(n.map_or(Tok::NoLen, Tok::Map))?;
        Ok(self)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> {
        Err(Error(9))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        Err(Error(9))
    }
    no! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_i64(i64) -> ();
        serialize_u32(u32) -> (); serialize_u64(u64) -> (); serialize_f32(f32) -> (); serialize_f64(f64) -> ();
        serialize_char(char) -> (); serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Self::SerializeTuple; serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_struct(&'static str, usize) -> Self::SerializeStruct;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<(), Error> {
        Err(Error(9))
    }
}
impl ser::SerializeSeq for &mut Rec {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        self.put(Tok::End)
    }
}
impl ser::SerializeMap for &mut Rec {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        self.put(Tok::End)
    }
}
fn rec(fail: usize) -> Rec {
    Rec { t: Vec::with_capacity(24), fail }
}

/// The record of a whole map: its length, then every key followed by its value, then the end.
fn written_map(t: &[Tok], n: usize, has: impl Fn(Tok) -> Option<usize>, val: impl Fn(usize) -> u8) {
    ck!(t.len() == 2 * n + 2);
    ck!(t[0] == Tok::Map(n) || t[0] == Tok::NoLen);
    let mut seen = 0u64;
    for i in 0..n {
        let e = has(t[1 + 2 * i]);
        ck!(e.is_some());
        let e = e.unwrap();
        ck!(seen & (1 << e) == 0);
        seen |= 1 << e;
        ck!(t[2 + 2 * i] == Tok::Num(val(e)));
    }
    ck!(t[2 * n + 1] == Tok::End);
}
fn written_set(t: &[Tok], n: usize, has: impl Fn(Tok) -> Option<usize>) {
    ck!(t.len() == n + 2);
    ck!(t[0] == Tok::Seq(n) || t[0] == Tok::NoLen);
    let mut seen = 0u64;
    for i in 0..n {
        let e = has(t[1 + i]);
        ck!(e.is_some());
        ck!(seen & (1 << e.unwrap()) == 0);
        seen |= 1 << e.unwrap();
    }
    ck!(t[n + 1] == Tok::End);
}
fn find(k: &[u8]) -> impl Fn(Tok) -> Option<usize> + '_ {
    |t| match t {
        Tok::Num(x) => model::last(k, &x).map(|x| x as usize),
        _ => None,
    }
}
fn find_str<'a>(k: &'a [&'static str]) -> impl Fn(Tok) -> Option<usize> + 'a {
    |t| match t {
        Tok::Str(n, b) => model::last(k, &core::str::from_utf8(&b[..n]).unwrap()).map(|x| x as usize),
        _ => None,
    }
}

fn ser_map<M: Serialize>(m: M, k: &[u8], _: impl Fn() -> u8) {
    let n = k.len();
    let mut r = rec(99);
    ck!(m.serialize(&mut r).is_ok());
    written_map(&r.t, n, find(k), |i| i as u8 + 100);
    // a failure at any point is reported, and nothing is written after it
    let at = nd::pick(2 * n + 2);
    let mut r = rec(at);
    ck!(m.serialize(&mut r) == Err(Error(1)));
    ck!(r.t.len() == at);
}
fn ser_set<S: Serialize>(m: S, k: &[u8], _: impl Fn() -> u8) {
    let n = k.len();
    let mut r = rec(99);
    ck!(m.serialize(&mut r).is_ok());
    written_set(&r.t, n, find(k));
    let at = nd::pick(n + 2);
    let mut r = rec(at);
    ck!(m.serialize(&mut r) == Err(Error(1)));
    ck!(r.t.len() == at);
}
fn ser_str() {
    macro_rules! map { ($k:expr, $m:expr) => {{
        let k = $k; let mut r = rec(99);
        ck!($m.serialize(&mut r).is_ok());
        written_map(&r.t, k.len(), find_str(&k), |i| i as u8);
    }}; }
    macro_rules! set { ($k:expr, $m:expr) => {{
        let k = $k; let mut r = rec(99);
        ck!($m.serialize(&mut r).is_ok());
        written_set(&r.t, k.len(), find_str(&k));
    }}; }
    let (a, b, c) = (["ka", "kb", "kc", "kdd"], ["", "k", "kk", "kkk"], ["ak", "xbk", "zzck", "k"]);
    match nd::pick(10) {
        0 => map!(a, FzStringMap::with_hasher(list(&a, |i| i), model::ByteHash(0))),
        1 => map!(b, FzStringMap::with_hasher(list(&b, |i| i), model::ByteHash(0))),
        2 => map!(c, FzStringMap::with_hasher(list(&c, |i| i), model::ByteHash(0))),
        3 => map!(a, fz_string_map!({ "ka": 0u8, "kb": 1u8, "kc": 2u8, "kdd": 3u8 })),
        4 => map!(b, fz_string_map!({ "": 0u8, "k": 1u8, "kk": 2u8, "kkk": 3u8 })),
        5 => set!(a, FzStringSet::<Box<str>>::from(a)),
        6 => set!(b, FzStringSet::<Box<str>>::from(b)),
        7 => set!(c, FzStringSet::<Box<str>>::from(c)),
        8 => set!(c, fz_string_set!({ "ak", "xbk", "zzck", "k" })),
        _ => { let e: [&'static str; 0] = []; set!(e, FzStringSet::<Box<str>>::default()); map!(e, FzStringMap::<Box<str>, u8>::default()) }
    }
}

// ---- what a deserializer says

/// How keys and lengths are presented.
#[derive(Clone, Copy)]
pub struct Style {
    /// 0: no size hint, 1: exact, 2: too small, 3: huge, 4: the largest there is
    hint: usize,
    /// strings 0: borrowed, 1: transient, 2: owned
    strings: usize,
    /// item at which it fails
    fail: usize,
}
#[derive(Clone, Copy)]
pub enum Key {
    Num(u8),
    Wide(u16),
    Str(&'static str),
}
pub struct Src<'a> {
    k: &'a [Key],
    v: &'a [u8],
    at: usize,
    st: Style,
}
impl Src<'_> {
    fn hint(&self) -> Option<usize> {
        let left = self.k.len() - self.at;
        match self.st.hint {
            0 => None,
            1 => Some(left),
            2 => Some(left / 2),
            3 => Some(1 << 40),
            _ => Some(usize::MAX),
        }
    }
}
struct One(Key, usize);
impl<'de> Deserializer<'de> for One {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Key::Num(x) => v.visit_u8(x),
            Key::Wide(x) => v.visit_u16(x),
            Key::Str(s) => match self.1 {
                0 => v.visit_borrowed_str(s),
                1 => { let t = String::from(s); v.visit_str(&t) }
                _ => v.visit_string(String::from(s)),
            },
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> MapAccess<'de> for Src<'_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        if self.at * 2 == self.st.fail {
            return Err(Error(1));
        }
        if self.at == self.k.len() {
            return Ok(None);
        }
        s.deserialize(One(self.k[self.at], self.st.strings)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Error> {
        if self.at * 2 + 1 == self.st.fail {
            return Err(Error(1));
        }
        self.at += 1;
        s.deserialize(One(Key::Num(self.v[self.at - 1]), 0))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
impl<'de> SeqAccess<'de> for Src<'_> {
    type Error = Error;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        if self.at == self.st.fail {
            return Err(Error(1));
        }
        if self.at == self.k.len() {
            return Ok(None);
        }
        self.at += 1;
        s.deserialize(One(self.k[self.at - 1], self.st.strings)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
pub struct De<'a>(Src<'a>);
impl<'de> Deserializer<'de> for De<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error(8))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_map(self.0)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_seq(self.0)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any }
}
/// Data of another shape.
struct Odd(usize);
impl<'de> Deserializer<'de> for Odd {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            0 => v.visit_u8(3),
            1 => v.visit_unit(),
            2 => v.visit_str("text"),
            _ => v.visit_none(),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn de<'a>(k: &'a [Key], v: &'a [u8], st: Style) -> De<'a> {
    De(Src { k, v, at: 0, st })
}
fn style(strings: usize) -> Style {
    Style { hint: nd::pick(5), strings, fail: 99 }
}
/// A list of keys below `max` (0: any) with any values.
fn data(n: usize, max: u8) -> ([Key; 3], [u8; 3], [u8; 3]) {
    let mut r = ([Key::Num(0); 3], [0; 3], [0; 3]);
    for i in 0..n {
        let x = nd::any_u8();
        if max != 0 {
            nd::assume(x < max);
        }
        r.0[i] = Key::Num(x);
        r.1[i] = nd::any_u8();
        r.2[i] = x;
    }
    r
}
/// The map read from the data means what the data says.
fn de_map<M: Deserialize<'static> + MapQuery<E, u8> + Serialize + PartialEq>(n: usize, max: u8, hint: bool) {
    let st = if hint { style(0) } else { Style { hint: 1, strings: 0, fail: 99 } };
    let (k, v, x) = data(n, max);
    let m = M::deserialize(de(&k[..n], &v[..n], st));
    ck!(m.is_ok());
    let m = m.ok().unwrap();
    ck!(Len::len(&m) == model::distinct(&x[..n]));
    let q = nd::any_u8();
    let e = model::last(&x[..n], &q).map(|i| v[i as usize]);
    ck!(MapQuery::get(&m, &E(q)).copied() == e);
    cov!(e.is_some());
    cov!(n > 1 && x[0] == x[1]);
}
fn de_set<S: Deserialize<'static> + SetQuery<E>>(n: usize, max: u8, hint: bool) {
    let st = if hint { style(0) } else { Style { hint: 1, strings: 0, fail: 99 } };
    let (k, v, x) = data(n, max);
    let m = S::deserialize(de(&k[..n], &v[..n], st));
    ck!(m.is_ok());
    let m = m.ok().unwrap();
    ck!(Len::len(&m) == model::distinct(&x[..n]));
    let q = nd::any_u8();
    let e = model::last(&x[..n], &q).is_some();
    ck!(SetQuery::contains(&m, &E(q)) == e);
    cov!(e);
}
const KEYS: [&str; 6] = ["", "k", "ka", "kb", "kbb", "zz"];
fn de_str(n: usize) {
    let st = Style { hint: nd::pick(5), strings: nd::pick(3), fail: 99 };
    let mut k = [Key::Num(0); 3];
    let mut x = [""; 3];
    let mut v = [0; 3];
    for i in 0..n {
        x[i] = KEYS[nd::pick(6)];
        k[i] = Key::Str(x[i]);
        v[i] = nd::any_u8();
    }
    let (k, v, x) = (&k[..n], &v[..n], &x[..n]);
    let m = FzStringMap::<Box<str>, u8>::deserialize(de(k, v, st));
    ck!(m.is_ok());
    let m = m.ok().unwrap();
    let s = FzStringSet::<Box<str>>::deserialize(de(k, v, st));
    ck!(s.is_ok());
    let s = s.ok().unwrap();
    let o = FzOrderedMap::<Box<str>, u8>::deserialize(de(k, v, st));
    ck!(o.is_ok());
    let o = o.ok().unwrap();
    let d = model::distinct(x);
    ck!(m.len() == d && s.len() == d && o.len() == d);
    for q in KEYS {
        let e = model::last(x, &q).map(|i| v[i as usize]);
        ck!(m.get(q).copied() == e);
        ck!(o.get(&Box::<str>::from(q)).copied() == e);
        ck!(s.contains(q) == e.is_some());
    }
    if st.strings == 0 {
        // keys borrowed from the data
        let b = FzHashMap::<&'static str, u8, model::ByteHash>::deserialize(de(k, v, st));
        ck!(b.is_ok());
        let b = b.ok().unwrap();
        for q in KEYS {
            ck!(b.get(&q).copied() == model::last(x, &q).map(|i| v[i as usize]));
        }
    }
}
/// A failure at any point of the data is reported, and nothing is leaked or read twice.
fn de_fail() {
    let n = nd::pick(4);
    let (k, v, _) = data(n, 200);
    let set = nd::any_bool();
    let at = nd::pick(if set { n + 1 } else { 2 * n + 1 });
    let st = Style { hint: nd::pick(4), strings: 0, fail: at };
    let before = nd::live_heap();
    let (k, v) = (&k[..n], &v[..n]);
    if set {
        match nd::pick(3) {
            0 => ck!(FzOrderedSet::<E>::deserialize(de(k, v, st)).err() == Some(Error(1))),
            1 => ck!(FzHashSet::<E, model::ByteHash>::deserialize(de(k, v, st)).err() == Some(Error(1))),
            _ => ck!(FzScalarSet::<E>::deserialize(de(k, v, st)).err() == Some(Error(1))),
        }
    } else {
        match nd::pick(3) {
            0 => ck!(FzOrderedMap::<E, u8>::deserialize(de(k, v, st)).err() == Some(Error(1))),
            1 => ck!(FzHashMap::<E, u8, model::ByteHash>::deserialize(de(k, v, st)).err() == Some(Error(1))),
            _ => ck!(FzScalarMap::<E, u8>::deserialize(de(k, v, st)).err() == Some(Error(1))),
        }
    }
    ck!(nd::live_heap() == before);
}
fn de_fail_str() {
    let k = [Key::Str("a"), Key::Str("b"), Key::Str("cc")];
    let n = nd::pick(4);
    let set = nd::any_bool();
    let at = nd::pick(if set { n + 1 } else { 2 * n + 1 });
    let st = Style { hint: nd::pick(4), strings: nd::pick(3), fail: at };
    let v = [1, 2, 3];
    let before = nd::live_heap();
    if set {
        ck!(FzStringSet::<Box<str>>::deserialize(de(&k[..n], &v[..n], st)).err() == Some(Error(1)));
    } else {
        ck!(FzStringMap::<Box<str>, u8>::deserialize(de(&k[..n], &v[..n], st)).err() == Some(Error(1)));
    }
    ck!(nd::live_heap() == before);
}
fn de_odd() {
    let i = nd::pick(4);
    match nd::pick(8) {
        0 => ck!(FzOrderedSet::<E>::deserialize(Odd(i)).is_err()),
        1 => ck!(FzHashSet::<E, model::ByteHash>::deserialize(Odd(i)).is_err()),
        2 => ck!(FzScalarSet::<E>::deserialize(Odd(i)).is_err()),
        3 => ck!(FzOrderedMap::<E, u8>::deserialize(Odd(i)).is_err()),
        4 => ck!(FzHashMap::<E, u8, model::ByteHash>::deserialize(Odd(i)).is_err()),
        5 => ck!(FzScalarMap::<E, u8>::deserialize(Odd(i)).is_err()),
        6 => ck!(FzStringMap::<Box<str>, u8>::deserialize(Odd(i)).is_err()),
        _ => ck!(FzStringSet::<Box<str>>::deserialize(Odd(i)).is_err()),
    }
}
/// Writing a map and reading what was written gives an equal map.
fn round<M: Serialize + Deserialize<'static> + PartialEq + MapQuery<E, u8>>(f: impl Fn(Vec<(E, u8)>) -> M, n: usize, max: u8) {
    let (_, v, x) = data(n, max);
    let mut l = Vec::with_capacity(n);
    for i in 0..n {
        l.push((E(x[i]), v[i]));
    }
    let m = f(l);
    let mut r = rec(99);
    ck!(m.serialize(&mut r).is_ok());
    let d = (r.t.len() - 2) / 2;
    let mut k = [Key::Num(0); 3];
    let mut w = [0; 3];
    for i in 0..d {
        if let (Tok::Num(a), Tok::Num(b)) = (r.t[1 + 2 * i], r.t[2 + 2 * i]) {
            k[i] = Key::Num(a);
            w[i] = b;
        }
    }
    let b = M::deserialize(de(&k[..d], &w[..d], Style { hint: 1, strings: 0, fail: 99 }));
    ck!(b.is_ok());
    let b = b.ok().unwrap();
    ck!(b == m && m == b);
}
fn rounds(n: usize, max: u8) {
    match nd::pick(3) {
        0 => round(FzOrderedMap::<E, u8>::new, n, 0),
        1 => round(|l| FzHashMap::with_hasher(l, model::ByteHash(0)), n, 0),
        _ => round(FzScalarMap::<E, u8>::new, n, max),
    }
}
/// More entries than the capacity reserved from the announced length.
fn de_many() {
    const N: usize = 40;
    let mut k = Vec::with_capacity(N);
    let mut v = Vec::with_capacity(N);
    for i in 0..N {
        k.push(Key::Num((i * 7 % 64) as u8));
        v.push(i as u8);
    }
    let st = style(0);
    macro_rules! go { ($t:ty) => {{
        let m = <$t>::deserialize(de(&k, &v, st)).ok().unwrap();
        ck!(m.len() == N);
        let q = nd::any_u8();
        let mut e = None;
        for i in 0..N { if (i * 7 % 64) as u8 == q { e = Some(i as u8); } }
        ck!(m.get(&E(q)).copied() == e);
        cov!(e == Some(39));
    }}; }
    match nd::pick(3) {
        0 => go!(FzOrderedMap::<E, u8>),
        1 => go!(FzHashMap::<E, u8, model::ByteHash>),
        _ => go!(FzScalarMap::<E, u8>),
    }
}

/// Large maps: what is written, entry for entry.
macro_rules! ser_large { ($m:expr, $n:expr, $s:expr) => {{
    let (m, n, s): (_, usize, u16) = ($m, $n, $s);
    let mut r = Rec { t: Vec::with_capacity(2 * n + 2), fail: usize::MAX };
    ck!(m.serialize(&mut r).is_ok());
    let t = &r.t;
    ck!(t.len() == 2 * n + 2 && (t[0] == Tok::Map(n) || t[0] == Tok::NoLen) && t[2 * n + 1] == Tok::End);
    let mut seen = vec![false; n];
    for i in 0..n {
        if let (Tok::Wide(k), Tok::Wide(v)) = (t[1 + 2 * i], t[2 + 2 * i]) {
            ck!((v as usize) < n && k == v * s + 5 && !seen[v as usize]);
            seen[v as usize] = true;
        } else {
            ck!(false);
        }
    }
    let at = [0, 1, 2, 255, 256, 257, 2 * n, 2 * n + 1][nd::pick(8)];
    let mut r = Rec { t: Vec::with_capacity(2 * n + 2), fail: at };
    ck!(m.serialize(&mut r) == Err(Error(1)) && r.t.len() == at);
}}; }
macro_rules! ser_large_set { ($m:expr, $n:expr, $s:expr) => {{
    let (m, n, s): (_, usize, u16) = ($m, $n, $s);
    let mut r = Rec { t: Vec::with_capacity(n + 2), fail: usize::MAX };
    ck!(m.serialize(&mut r).is_ok());
    let t = &r.t;
    ck!(t.len() == n + 2 && (t[0] == Tok::Seq(n) || t[0] == Tok::NoLen) && t[n + 1] == Tok::End);
    let mut seen = vec![false; n];
    for i in 0..n {
        if let Tok::Wide(k) = t[1 + i] {
            ck!(k >= 5 && (k - 5) % s == 0);
            let j = ((k - 5) / s) as usize;
            ck!(j < n && !seen[j]);
            seen[j] = true;
        } else {
            ck!(false);
        }
    }
}}; }
/// More entries than are allocated for in advance, with repeats.
fn de_large() {
    let n = [300usize, 4097][nd::pick(2)];
    let hint = nd::pick(5);
    let w = nd::pick(6);
    let again = [0usize, 3][(hint + w) % 2];
    let st = Style { hint, strings: 0, fail: usize::MAX };
    let mut k = Vec::with_capacity(n + 3);
    let mut v = Vec::with_capacity(n + 3);
    for x in crate::large::keys(n, 1) { k.push(Key::Wide(x)); v.push(x as u8); }
    // some keys given again with another value
    for i in 0..again { k.push(Key::Wide(i as u16 * 100 + 5)); v.push(200); }
    macro_rules! map { ($t:ty) => {{
        let m = <$t>::deserialize(de(&k, &v, st)).ok().unwrap();
        ck!(m.len() == n);
        let mut j = 0;
        while j < n as u16 {
            let e = if j % 100 == 0 && (j as usize) < again * 100 { 200 } else { (j + 5) as u8 };
            ck!(m.get(&(j + 5)).copied() == Some(e));
            j += 1;
        }
        ck!(m.get(&4).is_none() && m.get(&(n as u16 + 5)).is_none());
    }}; }
    macro_rules! set { ($t:ty) => {{
        let m = <$t>::deserialize(de(&k, &v, st)).ok().unwrap();
        ck!(m.len() == n);
        let mut j = 0;
        while j < n as u16 { ck!(m.contains(&(j + 5))); j += 1; }
        ck!(!m.contains(&4) && !m.contains(&(n as u16 + 5)));
    }}; }
    match w {
        0 => map!(FzOrderedMap::<u16, u8>),
        1 => map!(FzHashMap::<u16, u8, model::ByteHash>),
        2 => map!(FzScalarMap::<u16, u8>),
        3 => set!(FzOrderedSet::<u16>),
        4 => set!(FzHashSet::<u16, model::ByteHash>),
        _ => set!(FzScalarSet::<u16>),
    }
}
fn name(j: u16) -> &'static str {
    let d = vec![b'a' + (j / 1000) as u8, b'0' + (j / 100 % 10) as u8, b'0' + (j / 10 % 10) as u8, b'0' + (j % 10) as u8];
    Box::leak(unsafe { String::from_utf8_unchecked(d) }.into_boxed_str())
}
fn de_large_str() {
    let n = [300u16, 4097][nd::pick(2)];
    let mut k = Vec::with_capacity(n as usize);
    let mut v = Vec::with_capacity(n as usize);
    for x in crate::large::keys(n as usize, 1) { k.push(Key::Str(name(x - 5))); v.push(x as u8); }
    let st = Style { hint: nd::pick(4), strings: nd::pick(3), fail: usize::MAX };
    if nd::pick(2) == 0 {
        let m = FzStringMap::<Box<str>, u8>::deserialize(de(&k, &v, st)).ok().unwrap();
        ck!(m.len() == n as usize);
        for (i, x) in k.iter().enumerate() { if let Key::Str(s) = x { ck!(m.get(*s).copied() == Some(v[i])); } }
        ck!(m.get("a").is_none());
        if n == 300 {
            let mut r = Rec { t: Vec::with_capacity(2 * n as usize + 2), fail: usize::MAX };
            ck!(m.serialize(&mut r).is_ok() && r.t.len() == 2 * n as usize + 2);
            let mut c = 0;
            for i in 0..n as usize { if let (Tok::Str(4, _), Tok::Num(_)) = (r.t[1 + 2 * i], r.t[2 + 2 * i]) { c += 1; } }
            ck!(c == n as usize);
        }
    } else {
        let m = FzStringSet::<Box<str>>::deserialize(de(&k, &v, st)).ok().unwrap();
        ck!(m.len() == n as usize);
        for x in &k { if let Key::Str(s) = x { ck!(m.contains(*s)); } }
        if n == 300 {
            let mut r = Rec { t: Vec::with_capacity(n as usize + 2), fail: usize::MAX };
            ck!(m.serialize(&mut r).is_ok() && r.t.len() == n as usize + 2);
        }
    }
}

harnesses! {
    fn h_c13_q_ser_large("maps of 300 and 1100 u16 keys, ten kinds: what is written, and a failure at 8 points") { with_large!(nd::pick(crate::large::LARGE_KINDS), |j| j, ser_large) }
    fn h_c13_q_ser_large_set("sets of 300 and 1100 u16 values, ten kinds: what is written") { with_large_set!(nd::pick(crate::large::LARGE_KINDS), ser_large_set) }
    fn h_c13_q_de_large("six kinds of collection read from 300 and 4097 entries with five kinds of announced length, with and without repeated keys; every key") { de_large() }
    fn h_c13_q_de_large_str("string maps and sets read from 300 and 4097 strings, borrowed, transient or owned, four kinds of announced length; every key") { de_large_str() }
    fn h_c13_q_ser("16 map kinds: what is written, and a failure at every point") { let k = nd::pick(OWN_KINDS); with_own_map!(k, |i: u8| i + 100, ser_map) }
    fn h_c13_q_ser_set("13 set kinds: what is written, and a failure at every point") { let k = nd::pick(OWN_SET_KINDS); with_own_set!(k, ser_set) }
    fn h_c13_q_ser_str("10 string maps and sets: what is written") { ser_str() }
    fn h_c13_q_de("ordered, hash and scalar maps read from any 0 to 2 entries (scalar keys below 8) with five kinds of announced length; any query") {
        let n = nd::pick(3);
        match nd::pick(3) { 0 => de_map::<FzOrderedMap<E, u8>>(n, 0, true), 1 => de_map::<FzHashMap<E, u8, model::ByteHash>>(n, 0, true), _ => de_map::<FzScalarMap<E, u8>>(n, 8, true) }
    }
    fn h_c13_q_de3("ordered and hash maps read from any 3 entries, scalar maps from any 3 with keys below 4; any query") {
        match nd::pick(3) { 0 => de_map::<FzOrderedMap<E, u8>>(3, 0, false), 1 => de_map::<FzHashMap<E, u8, model::ByteHash>>(3, 0, false), _ => de_map::<FzScalarMap<E, u8>>(3, 4, false) }
    }
    fn h_c13_q_de_set("ordered, hash and scalar sets read from any 0 to 2 values (scalar values below 8) with five kinds of announced length; any query") {
        let n = nd::pick(3);
        match nd::pick(3) { 0 => de_set::<FzOrderedSet<E>>(n, 0, true), 1 => de_set::<FzHashSet<E, model::ByteHash>>(n, 0, true), _ => de_set::<FzScalarSet<E>>(n, 8, true) }
    }
    fn h_c13_q_de_set3("ordered and hash sets read from any 3 values, scalar sets from any 3 below 4; any query") {
        match nd::pick(3) { 0 => de_set::<FzOrderedSet<E>>(3, 0, false), 1 => de_set::<FzHashSet<E, model::ByteHash>>(3, 0, false), _ => de_set::<FzScalarSet<E>>(3, 4, false) }
    }
    fn h_c13_q_de_str("string maps and sets read from 0 to 2 of six strings, any values, borrowed, transient or owned, five kinds of announced length") { de_str(nd::pick(3)) }
    fn h_c13_t_de_str3("string maps and sets read from 3 of six strings, any values") { de_str(3) }
    fn h_c13_q_de_fail("reading 0 to 3 entries with a failure at every point: reported, nothing leaked") { de_fail() }
    fn h_c13_q_de_fail_str("reading 0 to 3 strings with a failure at every point: reported, nothing leaked") { de_fail_str() }
    fn h_c13_q_de_odd("data of another shape is refused with an error") { de_odd() }
    fn h_c13_q_de_many("40 entries with every kind of announced length, any query") { de_many() }
    fn h_c13_q_round("ordered, hash and scalar maps of any up to 2 entries written and read back") { rounds(nd::pick(3), 8) }
    fn h_c13_q_round3("ordered, hash and scalar maps of any 3 entries written and read back") { rounds(3, 4) }
}
