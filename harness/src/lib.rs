//! Harnesses. Names: h_<property>_<q|t>_<what>; q runs in the quick and thorough tier, t only in thorough.
#![allow(dead_code, unused_imports, unused_macros, static_mut_refs, nonstandard_style, clippy::all)]

pub mod nd;
#[macro_use]
pub mod model;

macro_rules! mods {
    ($($f:literal $m:ident;)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, &'static str, fn(), &'static str)> {
            #[allow(unused_mut)]
            let mut v = vec![];
            $(#[cfg(feature = $f)] v.extend($m::TABLE.iter().map(|x| (x.0, x.1, x.2, concat!("src/", stringify!($m), ".rs"))));)*
            #[cfg(feature = "c05")]
            v.extend(c05::tables().into_iter().map(|x| (x.0, x.1, x.2, "src/c05.rs")));
            v
        }
    };
}

mods! {
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c19" c19;
}

#[cfg(feature = "c05")]
pub mod c05;
#[macro_use]
pub mod kinds;
#[macro_use]
pub mod large;
