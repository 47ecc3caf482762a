//! C12: scalar indexes are order- and gap-preserving, for built-in types and derived enums.
use crate::{ck, cov, harnesses, model, nd};
use core::num::*;
use frozen_collections::*;

/// a before b exactly when index(a) before index(b); neighbours have neighbouring indexes.
fn pair<T: Scalar>(a: T, b: T, next: Option<T>) {
    let (i, j) = (Scalar::index(&a), Scalar::index(&b));
    nd::obs(i as u64);
    ck!((i == j) == (a == b));
    ck!((i < j) == (a < b));
    if let Some(n) = next {
        ck!(i.wrapping_add(1) == Scalar::index(&n));
    }
    cov!(i < j);
    cov!(next.is_some());
}
macro_rules! ints {
    ($k:expr; $($n:literal => $t:ty),*) => { match $k { $($n => {
        let a = nd::bits(<$t>::BITS) as $t;
        let b = nd::bits(<$t>::BITS) as $t;
        pair(a, b, a.checked_add(1))
    })* _ => {} } };
}
macro_rules! nonzero {
    ($k:expr; $($n:literal => $t:ty : $nz:ty),*) => { match $k { $($n => {
        let a = nd::bits(<$t>::BITS) as $t;
        let b = nd::bits(<$t>::BITS) as $t;
        nd::assume(a != 0 && b != 0);
        let next = match a.checked_add(1) { Some(x) if x != 0 => <$nz>::new(x), _ => None };
        pair(<$nz>::new(a).unwrap(), <$nz>::new(b).unwrap(), next)
    })* _ => {} } };
}

/// Scalar maps and sets over each type: two keys close together, any query.
fn near<T: Scalar>(f: impl Fn(u64) -> T, base: u64, span: u64) {
    let o = nd::pick(span as usize) as u64;
    let (a, b) = (f(base), f(base + o));
    let m = FzScalarMap::new(vec![(a, 0u8), (b, 1u8)]);
    let s = FzScalarSet::new(vec![b, a]);
    let d = nd::bits(8);
    nd::assume(d < span + 4);
    let q = f((base + d).wrapping_sub(2));
    let e = if q == b { Some(1) } else if q == a { Some(0) } else { None };
    ck!(m.get(&q).copied() == e);
    ck!(s.contains(&q) == e.is_some());
    cov!(e == Some(0));
}

#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum One { Only }
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Two { Z, A }
/// Names in an order other than alphabetical, raw identifiers, attributes.
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
#[repr(u8)]
pub enum Seven {
    /// documented
    Zebra,
    r#type,
    #[allow(dead_code)]
    Apple,
    M,
    B,
    C,
    Aa,
}
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(i8)]
pub enum Signed { A, B, C, D }
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Generic<const N: usize> { A, B, C }
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u16)]
pub enum Big { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u16)]
pub enum Full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }

const SEVEN: [Seven; 7] = [Seven::Zebra, Seven::r#type, Seven::Apple, Seven::M, Seven::B, Seven::C, Seven::Aa];

fn big(i: u64) -> Big {
    unsafe { core::mem::transmute::<u16, Big>(i as u16) }
}
fn derived() {
    match nd::pick(7) {
        0 => { ck!(Scalar::index(&One::Only) == 0) }
        1 => { ck!(Scalar::index(&Two::Z) == 0 && Scalar::index(&Two::A) == 1) }
        2 => {
            let i = nd::below(7);
            let v: Seven = unsafe { core::mem::transmute(i as u8) };
            ck!(Scalar::index(&v) == i as usize);
            for (j, x) in SEVEN.iter().enumerate() { ck!((*x == v) == (j as u64 == i)); }
        }
        3 => {
            let i = nd::below(4);
            let v: Signed = unsafe { core::mem::transmute(i as u8) };
            ck!(Scalar::index(&v) == i as usize);
        }
        4 => { ck!(Scalar::index(&Generic::<3>::A) == 0 && Scalar::index(&Generic::<3>::B) == 1 && Scalar::index(&Generic::<9>::C) == 2) }
        5 => {
            let i = nd::below(300);
            ck!(Scalar::index(&big(i)) == i as usize);
            cov!(i == 299);
        }
        _ => {
            let i = nd::below(256);
            let v: Full = unsafe { core::mem::transmute(i as u16) };
            ck!(Scalar::index(&v) == i as usize);
        }
    }
}
/// Maps over a derived enum: any list of variants, any query.
fn enum_maps(n: usize) {
    let mut l = Vec::with_capacity(n);
    let mut k = Vec::with_capacity(n);
    for i in 0..n {
        let x = nd::pick(7);
        l.push((SEVEN[x], i as u8));
        k.push(x as u8);
    }
    let mut m = FzScalarMap::new(l);
    let s = FzScalarSet::new(k.iter().map(|x| SEVEN[*x as usize]).collect());
    let q = nd::below(7) as u8;
    let v: Seven = unsafe { core::mem::transmute(q) };
    let e = model::last(&k[..], &q);
    ck!(m.get(&v).copied() == e);
    ck!(m.contains_key(&v) == e.is_some() && s.contains(&v) == e.is_some());
    ck!(m.len() == model::distinct(&k[..]));
    ck!(m.get_mut(&v).copied() == e);
    cov!(e == Some(0));
    cov!(e.is_none());
}
fn enum_macros() {
    let q = nd::below(7) as u8;
    let v: Seven = unsafe { core::mem::transmute(q) };
    let m = fz_scalar_map!({ Seven::Aa: 0u8, Seven::Zebra: 1u8, Seven::M: 2u8 });
    let e = match q { 6 => Some(0), 0 => Some(1), 3 => Some(2), _ => None };
    ck!(m.get(&v).copied() == e && m.len() == 3);
    let s = fz_scalar_set!({ Seven::B, Seven::C, Seven::r#type, Seven::Apple });
    ck!(s.contains(&v) == (q == 4 || q == 5 || q == 1 || q == 2));
    let o = fz_ordered_map!({ Seven::Aa: 0u8, Seven::Zebra: 1u8, Seven::M: 2u8 });
    ck!(o.get(&v).copied() == e);
}
fn big_maps() {
    let m = match nd::pick(3) {
        0 => { let mut l = vec![]; let mut i = 0; while i < 300 { l.push((big(i), i as u16)); i += 1; } FzScalarMap::new(l) }
        1 => { let mut l = vec![]; let mut i = 0; while i < 300 { l.push((big(i), i as u16)); i += 3; } FzScalarMap::new(l) }
        _ => FzScalarMap::new(vec![(big(299), 299), (big(0), 0)]),
    };
    let n = m.len();
    let i = nd::bits(16);
    nd::assume(i < 300);
    let e = n == 300 || n == 100 && i % 3 == 0 || n == 2 && (i == 0 || i == 299);
    ck!(m.get(&big(i)).copied() == if e { Some(i as u16) } else { None });
    cov!(e);
    cov!(!e);
}

harnesses! {
    fn h_c12_q_ints("any two values of u8..u64, usize, i8..i64, isize: order, injectivity, neighbours") {
        ints!(nd::pick(10); 0 => u8, 1 => u16, 2 => u32, 3 => u64, 4 => usize, 5 => i8, 6 => i16, 7 => i32, 8 => i64, 9 => isize)
    }
    fn h_c12_q_nonzero("any two values of the ten non-zero types: order, injectivity, neighbours") {
        nonzero!(nd::pick(10); 0 => u8: NonZeroU8, 1 => u16: NonZeroU16, 2 => u32: NonZeroU32, 3 => u64: NonZeroU64, 4 => usize: NonZeroUsize,
            5 => i8: NonZeroI8, 6 => i16: NonZeroI16, 7 => i32: NonZeroI32, 8 => i64: NonZeroI64, 9 => isize: NonZeroIsize)
    }
    fn h_c12_q_keys("scalar maps and sets of two keys less than 12 apart around zero and at the type's limits in i8, i16, i32, i64, isize and non-zero types, any query near them") {
        let base = [0u64, 0x7f - 6, 1 << 14][nd::pick(3)];
        match nd::pick(9) {
            0 => near(|x| (x as u8 ^ 0x80) as i8, base & 127, 12),
            1 => near(|x| (x as u16 ^ 0x8000) as i16, base, 12),
            2 => near(|x| (x as u16).wrapping_sub(40) as i16, 34, 12),
            3 => near(|x| (x as u32).wrapping_sub(40) as i32, 34, 12),
            4 => near(|x| x.wrapping_sub(40) as i64, 34, 12),
            5 => near(|x| x.wrapping_sub(40) as isize, 34, 12),
            6 => near(|x| NonZeroU8::new((x as u8) | 1).unwrap(), base & 127, 12),
            7 => near(|x| NonZeroI16::new((x as u16 ^ 0x8000) as i16 | 1).unwrap(), base, 12),
            _ => near(|x| NonZeroU64::new(x.wrapping_add(1 << 63) | 1).unwrap(), base, 12),
        }
    }
    fn h_c12_q_derive("seven enums deriving Scalar with 1 to 300 variants, any variant: the index is the position of the declaration") { derived() }
    fn h_c12_q_enum_maps("scalar maps and sets over an enum, 0 to 4 entries, any variants, any query") { enum_maps(nd::pick(5)) }
    fn h_c12_t_enum_maps("scalar maps and sets over an enum, 5 entries, any variants, any query") { enum_maps(5) }
    fn h_c12_q_enum_macros("macro-written collections over an enum, any query") { enum_macros() }
    fn h_c12_q_big_maps("scalar maps over an enum of 300 variants: all, every third, first and last; any query") { big_maps() }
}
