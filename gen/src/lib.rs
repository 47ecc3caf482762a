//! Generates the programs C05 is checked on: the same collections written with the macros and emitted the
//! way a build script does (emitter API). Everything is regenerated from /repo's current emitter.

use frozen_collections::emit::*;
use std::fmt::Write as _;
use syn::parse_str;

fn expr(s: &str) -> syn::Expr {
    parse_str(s).unwrap()
}
fn ty(s: &str) -> syn::Type {
    parse_str(s).unwrap()
}

/// One emitted collection bound to a static item (constant keys and values).
fn emit<K>(kt: &str, name: &str, keys: &[(K, String)], map: bool, f: impl Fn(CollectionEmitter, Vec<CollectionEntry<K>>) -> Result<proc_macro2::TokenStream, String>) -> String
where
    K: Clone,
{
    let mut e = CollectionEmitter::new(&ty(kt)).symbol_name(name).static_instance(true).const_keys(true).const_values(true);
    if name.contains("ALIASED") {
        e = e.alias_name(&format!("Al{name}"));
    }
    if map {
        e = e.value_type(&ty("u16"));
    }
    let v = keys
        .iter()
        .enumerate()
        .map(|(i, (k, x))| if map { CollectionEntry::map_entry(k.clone(), expr(x), expr(&format!("{i}u16"))) } else { CollectionEntry::set_entry(k.clone(), expr(x)) })
        .collect();
    f(e, v).unwrap().to_string()
}

struct Out {
    src: String,
    table: Vec<(String, String)>,
}

impl Out {
    /// A harness `h_c05_<name>` picking one of several equivalent programs, then querying it.
    fn harness(&mut self, name: &str, doc: &str, body: &str) {
        writeln!(self.src, "#[unsafe(no_mangle)] #[inline(never)] pub fn h_c05_{name}() {{\n{body}\n}}").unwrap();
        self.table.push((format!("h_c05_{name}"), doc.to_string()));
    }
}

macro_rules! scalar_shape {
    ($o:expr, $tier:literal, $name:expr, $t:ident, $keys:expr) => {{
        let keys: Vec<$t> = $keys;
        let t = stringify!($t);
        let name: &str = $name;
        let up = name.to_uppercase();
        let lits: Vec<($t, String)> = keys.iter().map(|k| (*k, format!("{k}{t}"))).collect();
        let b = &mut String::new();
        let list = keys.iter().map(|k| format!("{k}{t}")).collect::<Vec<_>>().join(", ");
        let ments = keys.iter().enumerate().map(|(i, k)| format!("{k}{t}: {i}u16")).collect::<Vec<_>>().join(", ");
        writeln!(b, "const K: &[{t}] = &[{list}];").unwrap();
        let stat = ["hash", "ordered", "scalar", "set"];
        let _ = stat;
        writeln!(b, "{}", emit(t, &format!("EM_{up}"), &lits, true, |e, v| e.emit_scalar_collection(v))).unwrap();
        writeln!(b, "{}", emit(t, &format!("ES_ALIASED_{up}"), &lits, false, |e, v| e.emit_scalar_collection(v))).unwrap();
        writeln!(b, "fz_scalar_set!(static MS: MacroSet<{t}>, {{ {list} }});").unwrap();
        writeln!(b, "match nd::pick(6) {{").unwrap();
        writeln!(b, "3 => ck_gen_map::<{t}, {t}, _>(&mut fz_hash_map!({{ {ments} }}), K, arb_{t}),").unwrap();
        writeln!(b, "4 => ck_gen_set::<{t}, {t}, _>(&fz_ordered_set!({{ {list} }}), K, arb_{t}),").unwrap();
        writeln!(b, "0 => ck_gen_map::<{t}, {t}, _>(&mut EM_{up}.clone(), K, arb_{t}),").unwrap();
        writeln!(b, "1 => ck_gen_set::<{t}, {t}, _>(&ES_ALIASED_{up}, K, arb_{t}),").unwrap();
        writeln!(b, "2 => ck_gen_map::<{t}, {t}, _>(&mut fz_scalar_map!({{ {ments} }}), K, arb_{t}),").unwrap();
        writeln!(b, "_ => ck_gen_set::<{t}, {t}, _>(&MS, K, arb_{t}),\n}}").unwrap();
        $o.harness(&format!("{}_sc_{name}", $tier), &format!("scalar macros and emitter, {} keys of type {t} ({name}), any {t} query", keys.len()), b);
    }};
}

macro_rules! hash_shape {
    ($o:expr, $tier:literal, $name:expr, $t:ident, $keys:expr, $arb:expr) => {{
        let keys: Vec<$t> = $keys;
        let t = stringify!($t);
        let name: &str = $name;
        let up = name.to_uppercase();
        let lits: Vec<($t, String)> = keys.iter().map(|k| (*k, format!("{k}{t}"))).collect();
        let b = &mut String::new();
        let list = keys.iter().map(|k| format!("{k}{t}")).collect::<Vec<_>>().join(", ");
        writeln!(b, "const K: &[{t}] = &[{list}];").unwrap();
        writeln!(b, "{}", emit(t, &format!("EM_ALIASED_{up}"), &lits, true, |e, v| e.emit_hash_collection(v))).unwrap();
        writeln!(b, "{}", emit(t, &format!("ES_{up}"), &lits, false, |e, v| e.emit_hash_collection(v))).unwrap();
        writeln!(b, "match nd::pick(2) {{").unwrap();
        writeln!(b, "0 => ck_gen_map::<{t}, {t}, _>(&mut EM_ALIASED_{up}.clone(), K, {}),", $arb).unwrap();
        writeln!(b, "_ => ck_gen_set::<{t}, {t}, _>(&ES_{up}, K, {}),\n}}", $arb).unwrap();
        $o.harness(&format!("{}_ha_{name}", $tier), &format!("hash emitter, {} keys of type {t} ({name}), query {}", keys.len(), $arb), b);
    }};
}

macro_rules! ordered_shape {
    ($o:expr, $tier:literal, $name:expr, $t:ident, $keys:expr) => {{
        let keys: Vec<$t> = $keys;
        let t = stringify!($t);
        let name: &str = $name;
        let up = name.to_uppercase();
        let lits: Vec<($t, String)> = keys.iter().map(|k| (*k, format!("{k}{t}"))).collect();
        let b = &mut String::new();
        let list = keys.iter().map(|k| format!("{k}{t}")).collect::<Vec<_>>().join(", ");
        writeln!(b, "const K: &[{t}] = &[{list}];").unwrap();
        writeln!(b, "{}", emit(t, &format!("EM_{up}"), &lits, true, |e, v| e.emit_ordered_collection(v))).unwrap();
        writeln!(b, "{}", emit(t, &format!("ES_ALIASED_{up}"), &lits, false, |e, v| e.emit_ordered_collection(v))).unwrap();
        writeln!(b, "match nd::pick(2) {{").unwrap();
        writeln!(b, "0 => ck_gen_map::<{t}, {t}, _>(&mut EM_{up}.clone(), K, arb_{t}),").unwrap();
        writeln!(b, "_ => ck_gen_set::<{t}, {t}, _>(&ES_ALIASED_{up}, K, arb_{t}),\n}}").unwrap();
        $o.harness(&format!("{}_or_{name}", $tier), &format!("ordered emitter, {} keys of type {t} ({name}), any {t} query", keys.len()), b);
    }};
}

fn string_shape(o: &mut Out, tier: &str, name: &str, sym: bool, keys: &[String]) {
    let up = name.to_uppercase();
    let lits: Vec<(String, String)> = keys.iter().map(|k| (k.clone(), format!("{k:?}"))).collect();
    let b = &mut String::new();
    let list = lits.iter().map(|k| k.1.clone()).collect::<Vec<_>>().join(", ");
    let ments = lits.iter().enumerate().map(|(i, k)| format!("{}: {i}u16", k.1)).collect::<Vec<_>>().join(", ");
    writeln!(b, "const K: &[&str] = &[{list}];").unwrap();
    writeln!(b, "{}", emit("&'static str", &format!("EM_{up}"), &lits, true, |e, v| e.emit_string_collection(v))).unwrap();
    writeln!(b, "{}", emit("&'static str", &format!("ES_ALIASED_{up}"), &lits, false, |e, v| e.emit_string_collection(v))).unwrap();
    writeln!(b, "fz_string_set!(static MS: MacroSet<&'static str>, {{ {list} }});").unwrap();
    writeln!(b, "match nd::pick(6) {{").unwrap();
    writeln!(b, "3 => ck_gen_str_map(&mut fz_ordered_map!({{ {ments} }}), K, {sym}),").unwrap();
    writeln!(b, "4 => ck_gen_str_set(&fz_hash_set!({{ {list} }}), K, {sym}),").unwrap();
    writeln!(b, "0 => ck_gen_str_map(&mut EM_{up}.clone(), K, {sym}),").unwrap();
    writeln!(b, "1 => ck_gen_str_set(&ES_ALIASED_{up}, K, {sym}),").unwrap();
    writeln!(b, "2 => ck_gen_str_map(&mut fz_string_map!({{ {ments} }}), K, {sym}),").unwrap();
    writeln!(b, "_ => ck_gen_str_set(&MS, K, {sym}),\n}}").unwrap();
    o.harness(&format!("{tier}_st_{name}"), &format!("string macros and emitter, {} keys ({name}); queries: keys, truncated keys, keys with one byte replaced or added ({})", keys.len(), if sym { "any ASCII byte" } else { "any of 8 bytes" }), b);
}

pub fn write() -> String {
    let mut o = Out { src: String::new(), table: vec![] };
    // contiguous keys
    scalar_shape!(o, "q", "dense1", u8, vec![7]);
    scalar_shape!(o, "q", "dense3", i8, vec![5, 7, 6]);
    scalar_shape!(o, "q", "dense9", i32, (100..109).rev().collect());
    scalar_shape!(o, "q", "dense40", u16, (0..40).map(|x| x * 7 % 40 + 10).collect());
    scalar_shape!(o, "q", "dense_max", u64, vec![u64::MAX, u64::MAX - 2, u64::MAX - 1]);
    scalar_shape!(o, "q", "dense_i64", i64, vec![i64::MAX - 1, i64::MAX]);
    scalar_shape!(o, "q", "dense300", u16, (0..300).collect());
    // gaps
    scalar_shape!(o, "q", "sparse2", u8, vec![127, 0]);
    scalar_shape!(o, "q", "sparse3", i16, vec![9, 1, 3]);
    scalar_shape!(o, "q", "sparse9", usize, (0..9).map(|x| x * 3 + 2).collect());
    scalar_shape!(o, "q", "sparse40", i32, (0..40).map(|x| x * 5 % 200 + 3).filter(|x| x % 7 != 0).collect());
    scalar_shape!(o, "q", "sparse_span255", u32, (0..27).map(|x| if x == 26 { 254 } else { x * 9 }).collect());
    scalar_shape!(o, "q", "sparse_span256", u32, (0..27).map(|x| if x == 26 { 255 } else { x * 9 }).collect());
    scalar_shape!(o, "q", "sparse_span257", u32, (0..27).map(|x| if x == 26 { 256 } else { x * 9 }).collect());
    scalar_shape!(o, "q", "sparse_top", u64, vec![u64::MAX, u64::MAX - 5, u64::MAX - 9]);
    for n in [255u16, 256, 257, 300] {
        scalar_shape!(o, "q", &format!("sparse{n}"), u16, (0..n).map(|x| x * 2).collect());
    }
    scalar_shape!(o, "q", "dense256", i16, (0..256).map(|x| 30_000 - x).collect());
    scalar_shape!(o, "t", "dense1100", u32, (0..1100).map(|x| x + 70_000).collect());
    scalar_shape!(o, "t", "hash1100", u32, (0..1100).map(|x| x * 4099).collect());
    // scattered keys, scanned below 8 entries
    scalar_shape!(o, "q", "scan3", u64, vec![100_000, 0, 1000]);
    scalar_shape!(o, "q", "scan2_ends", u64, vec![0, u64::MAX]);
    scalar_shape!(o, "q", "scan7", isize, (0..7).map(|x| x * 1001).collect());
    // scattered keys, hashed
    scalar_shape!(o, "q", "hash8", u32, (0..8).map(|x| x * 1001 + 5).collect());
    scalar_shape!(o, "q", "hash9_coll", u64, (0..9).map(|x| x << 20).collect());
    scalar_shape!(o, "q", "hash20", i32, (0..20).map(|x| x * x * 37 + 5).collect());
    scalar_shape!(o, "q", "hash33_mix", i64, (0..33).map(|x| (x % 4) << 30 | x * 300).collect());
    scalar_shape!(o, "q", "hash254", u32, (0..254).map(|x| x * 16).collect());
    scalar_shape!(o, "q", "hash255", u32, (0..255).map(|x| x * 16 + 1).collect());
    scalar_shape!(o, "q", "hash256", u32, (0..256).map(|x| x * 4099).collect());
    scalar_shape!(o, "q", "hash255_coll", u32, (0..255).map(|x| (x % 64) + (x / 64) * 65536).collect());
    scalar_shape!(o, "q", "hash257_coll", u32, (0..257).map(|x| (x % 64) + (x / 64) * 65536).collect());
    // repeated keys: the last one counts
    scalar_shape!(o, "q", "dup_dense", i32, vec![3, 1, 3, 2, 1]);
    scalar_shape!(o, "q", "dup_sparse", u8, vec![30, 1, 30, 2, 1, 60, 30]);
    scalar_shape!(o, "q", "dup_scan", u32, vec![3_000, 1, 3_000, 9_999_999]);
    scalar_shape!(o, "q", "dup_hash", u32, (0..18).map(|x| (x % 9) * 70_001).collect());

    scalar_shape!(o, "q", "dup40_dense", u16, (0..40).map(|x| x * 7 % 9 + 4).collect());
    scalar_shape!(o, "q", "dup40_sparse", i16, (0..40).map(|x| (x * 7 % 9) * 4 + 20).collect());
    scalar_shape!(o, "q", "dup40_hash", u64, (0..40).map(|x| (x * 7 % 9) * 70_001).collect());

    hash_shape!(o, "q", "n40_dup", u8, (0..36).map(|x| x * 7 % 9 + 4).collect(), "arb_u8");
    hash_shape!(o, "q", "n1", u8, vec![9], "arb_u8");
    hash_shape!(o, "q", "n3", u8, vec![9, 200, 0], "arb_u8");
    hash_shape!(o, "q", "n4", u8, vec![9, 200, 0, 1], "arb_u8");
    hash_shape!(o, "q", "n5_dup", u8, vec![9, 200, 9, 0, 1, 200], "arb_u8");
    hash_shape!(o, "q", "n16", u8, (0..16).map(|x| x * 15).collect(), "arb_u8");
    hash_shape!(o, "q", "n60", u8, (0..60).map(|x| x * 4 + 1).collect(), "each_u8");
    hash_shape!(o, "q", "n255", u16, (0..255).collect(), "each_u16_512");
    hash_shape!(o, "q", "n256", u16, (0..256).map(|x| x * 2).collect(), "each_u16_512");
    hash_shape!(o, "q", "n300", u16, (0..300).map(|x| x + 100).collect(), "each_u16_512");

    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 100, 255, 256, 300] {
        ordered_shape!(o, "q", &format!("n{n}"), u16, (0..n as u16).map(|x| (x * 7) % n as u16 * 2 + 1).collect::<std::collections::BTreeSet<u16>>().into_iter().rev().collect());
    }
    ordered_shape!(o, "q", "dup40", u16, (0..40).map(|x| x * 7 % 9 + 4).collect());
    ordered_shape!(o, "q", "dup", i64, vec![5, 3, 5, 9, 3, 7, 1]);

    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    string_shape(&mut o, "q", "scan3", true, &s(&["ab", "abc", ""]));
    string_shape(&mut o, "q", "prefix", true, &s(&["item-1", "item-2", "item-3", "item-45", "item-46"]));
    string_shape(&mut o, "q", "suffix", false, &s(&["aaaa.rs", "aab.rs", "zz.rs", "q.rs", "bcdefgh.rs", "baaa.rs"]));
    string_shape(&mut o, "q", "right", true, &s(&["xa1", "yxa2", "xa3", "yyxa4", "zzzxa5"]));
    string_shape(&mut o, "q", "length", true, &s(&["", "a", "aa", "aaa", "aaaaa"]));
    string_shape(&mut o, "q", "middle", true, &s(&["aaXbb", "aaYbb", "aaZbb", "aaWbb", "aaVbb"]));
    string_shape(&mut o, "q", "one", false, &s(&["a", "b", "c", "d", "e", "f"]));
    string_shape(&mut o, "q", "same2", false, &s(&["aa", "ab", "ba", "bb"]));
    string_shape(&mut o, "q", "mixed", false, &s(&["", "x", "y", "xx", "yy", "xy"]));
    string_shape(&mut o, "q", "long", false, &s(&["abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyzz", "abcdefghijklmnopqrstuvwxzz", "zbcdefghijklmnopqrstuvwxyz"]));
    string_shape(&mut o, "q", "dup", true, &s(&["a", "bb", "a", "cc", "dd", "bb", "ee"]));
    string_shape(&mut o, "q", "utf8", true, &s(&["\u{e9}a", "\u{e9}b", "\u{4e2d}", "\u{1f600}", "e"]));
    string_shape(&mut o, "q", "many", false, &(0..64).map(|x| format!("k{x:02o}")).collect::<Vec<_>>());
    string_shape(&mut o, "q", "dup40", false, &(0..40).map(|x| format!("k{}", x * 7 % 9)).collect::<Vec<_>>());
    // at 40 keys and more, the analysis accepts two keys alike in the bytes or the length it uses
    let ch = |i: u8| (b'0' + if i == 44 { 43 } else { i }) as char;
    let ch = |i: u8| if ch(i) == '\\' { '~' } else { ch(i) };
    let tail = |i: u8| if i % 2 == 0 { 'a' } else { 'b' };
    string_shape(&mut o, "q", "tol_left", false, &(0..45).map(|i| format!("{}{}", ch(i), tail(i))).collect::<Vec<_>>());
    string_shape(&mut o, "q", "tol_right", false, &(0..45).map(|i| format!("{}{}{}", "x".repeat(1 + i as usize % 3), tail(i), ch(i))).collect::<Vec<_>>());
    string_shape(&mut o, "q", "tol_len", false, &(0..45).map(|i| format!("{}{}", "x".repeat(if i == 44 { 43 } else { i as usize }), tail(i))).collect::<Vec<_>>());
    string_shape(&mut o, "q", "case", false, &s(&["ka", "KA", "kA", "Ka", "kb"]));
    string_shape(&mut o, "q", "space", false, &s(&["a", "a ", " a", "a\n", "a\0", "\\a", "\"a"]));
    string_shape(&mut o, "q", "far", false, &(0..6).map(|x| format!("{}{x}{}", "y".repeat(40), "y".repeat(40))).collect::<Vec<_>>());
    string_shape(&mut o, "q", "first", false, &(0..6).map(|x| format!("{x}{}", "y".repeat(70))).collect::<Vec<_>>());
    string_shape(&mut o, "q", "case_long", false, &(0..8).map(|x| { let mut v = "mmmmmmmm".to_string().into_bytes(); v[x] = b'M'; String::from_utf8(v).unwrap() }).collect::<Vec<_>>());
    string_shape(&mut o, "q", "len30", false, &(0..30).map(|x| "z".repeat(x)).collect::<Vec<_>>());
    string_shape(&mut o, "q", "many300", false, &(0..300).map(|x| format!("{x}")).collect::<Vec<_>>());

    // every other form the emitter has: an expression, local bindings, lazily built statics, private and public
    {
        let keys = [("scalar", vec![90u32, 3, 4, 7, 4]), ("scalar8", (0..9).map(|x| x % 8 * 100_003).collect()), ("hash", vec![5, 700_000, 2, 9, 5, 1 << 30]), ("ordered", vec![1 << 31, 9, 0, 9, 70_000, 44])];
        for (what, ks) in &keys {
            let b = &mut String::new();
            let list = ks.iter().map(|k| format!("{k}u32")).collect::<Vec<_>>().join(", ");
            writeln!(b, "const K: &[u32] = &[{list}];").unwrap();
            let mut arms = String::new();
            let mut n = 0;
            for map in [true, false] {
                for form in 0..9 {
                    let name = format!("X{n}");
                    let mut e = CollectionEmitter::new(&ty("u32"));
                    if map {
                        e = e.value_type(&ty("u16"));
                    }
                    e = match form {
                        0 => e,
                        1 => e.symbol_name(&name),
                        2 => e.symbol_name(&name).mutable(true),
                        3 => e.symbol_name(&name).alias_name(&format!("A{name}")),
                        4 => e.symbol_name(&name).alias_name(&format!("A{name}")).mutable(true).const_keys(true).const_values(true),
                        5 => e.symbol_name(&name).static_instance(true),
                        6 => e.symbol_name(&name).static_instance(true).alias_name(&format!("A{name}")).const_keys(true).visibility(parse_str("pub").unwrap()),
                        7 => e.symbol_name(&name).static_instance(true).const_values(true).visibility(parse_str("pub(crate)").unwrap()),
                        _ => e.symbol_name(&name).static_instance(true).alias_name(&format!("A{name}")).const_keys(true).const_values(true).visibility(parse_str("pub(super)").unwrap()),
                    };
                    // a set is emitted also from entries with values
                    let v = ks.iter().enumerate().map(|(i, k)| if map || form % 2 == 0 { CollectionEntry::map_entry(*k, expr(&format!("{k}u32")), expr(&format!("{i}u16"))) } else { CollectionEntry::set_entry(*k, expr(&format!("{k}u32"))) }).collect();
                    let t = match *what { "hash" => e.emit_hash_collection(v), "ordered" => e.emit_ordered_collection(v), _ => e.emit_scalar_collection(v) }.unwrap().to_string();
                    let call = |x: &str| if map { format!("ck_gen_map::<u32, u32, _>({x}, K, arb_u32)") } else { format!("ck_gen_set::<u32, u32, _>({x}, K, arb_u32)") };
                    let r = if map { "&mut " } else { "&" };
                    let body = match form {
                        0 => call(&format!("{r}{t}")),
                        1 | 3 => format!("{t} {}", call(&if map { format!("&mut {name}.clone()") } else { format!("&{name}") })),
                        2 | 4 => format!("{t} {}", call(&format!("&mut {name}"))),
                        5..=7 => format!("{t} {}", call(&if map { format!("&mut (*{name}).clone()") } else { format!("&*{name}") })),
                        _ => format!("mod m {{ use super::*; {t} }} use m::{name}; {}", call(&if map { format!("&mut {name}.clone()") } else { format!("&{name}") })),
                    };
                    writeln!(arms, "{n} => {{ {body} }}").unwrap();
                    n += 1;
                }
            }
            writeln!(b, "#[allow(unused_mut)] match nd::pick({n}) {{\n{arms}_ => unreachable!() }}").unwrap();
            o.harness(&format!("q_forms_{what}"), &format!("{what} emitter, every form (expression, let, let mut, alias, lazily built static, visibilities), {} keys, any u32 query", ks.len()), b);
        }
        let ks = ["pear", "peach", "fig", "peas", "fig", "plum"];
        let b = &mut String::new();
        writeln!(b, "const K: &[&str] = &{ks:?};").unwrap();
        let mut arms = String::new();
        let mut n = 0;
        for map in [true, false] {
            for form in 0..5 {
                let name = format!("X{n}");
                let mut e = CollectionEmitter::new(&ty("&'static str"));
                if map {
                    e = e.value_type(&ty("u16"));
                }
                e = match form {
                    0 => e,
                    1 => e.symbol_name(&name),
                    2 => e.symbol_name(&name).mutable(true).alias_name(&format!("A{name}")),
                    3 => e.symbol_name(&name).static_instance(true),
                    _ => e.symbol_name(&name).static_instance(true).alias_name(&format!("A{name}")).const_keys(true),
                };
                let v = ks.iter().enumerate().map(|(i, k)| if map || form % 2 == 0 { CollectionEntry::map_entry(k.to_string(), expr(&format!("{k:?}")), expr(&format!("{i}u16"))) } else { CollectionEntry::set_entry(k.to_string(), expr(&format!("{k:?}"))) }).collect();
                let t = e.emit_string_collection(v).unwrap().to_string();
                let call = |x: &str| if map { format!("ck_gen_str_map({x}, K, false)") } else { format!("ck_gen_str_set({x}, K, false)") };
                let r = if map { "&mut " } else { "&" };
                let body = match form {
                    0 => call(&format!("{r}{t}")),
                    1 => format!("{t} {}", call(&if map { format!("&mut {name}.clone()") } else { format!("&{name}") })),
                    2 => format!("{t} {}", call(&format!("&mut {name}"))),
                    _ => format!("{t} {}", call(&if map { format!("&mut (*{name}).clone()") } else { format!("&*{name}") })),
                };
                writeln!(arms, "{n} => {{ {body} }}").unwrap();
                n += 1;
            }
        }
        writeln!(b, "#[allow(unused_mut)] match nd::pick({n}) {{\n{arms}_ => unreachable!() }}").unwrap();
        o.harness("q_forms_string", "string emitter, every form (expression, let, let mut, alias, lazily built static), 6 keys; queries: keys, truncated keys, keys with one byte replaced or added", b);
    }

    // literals and computed keys mixed, beyond the sizes the other programs have
    for (n, tier) in [(12, "q"), (320, "q")] {
        let mut k: Vec<String> = (0..n).map(|i| format!("\"k{i}\"")).collect();
        k.insert(n / 2, "x".into());
        let m = k.iter().enumerate().map(|(i, k)| format!("{k}: {i}u16")).collect::<Vec<_>>().join(", ");
        let (l, h) = (k.join(", "), n / 2);
        let b = format!(
            "let x: &'static str = [\"k\", \"y\", \"k{n}\"][nd::pick(3)];
            const K: &[&str] = &[{}];
            fz_string_map!(let m: T1<Box<str>, u16>, {{ {m} }});
            fz_string_set!(let s: T2<Box<str>>, {{ {l} }});
            let q: &'static str = Box::leak(near(K, false).into_boxed_str());
            let exp = if q == x {{ Some({h}u16) }} else {{ meaning(K, &q).map(|i| if i < {h} {{ i }} else {{ i + 1 }}) }};
            ck!(m.len() == {n} + 1 && m.get(q).copied() == exp && m.contains_key(q) == exp.is_some());
            ck!(s.len() == {n} + 1 && s.contains(q) == exp.is_some());",
            (0..n).map(|i| format!("\"k{i}\"")).collect::<Vec<_>>().join(", ")
        );
        o.harness(&format!("{tier}_mix_str{n}"), &format!("string macros, {n} literal keys and a computed one; queries near 6 of the keys"), &b);
        let mut k: Vec<String> = (0..n).map(|i| format!("{}u32", i * 3)).collect();
        k.insert(n / 2, "x".into());
        let m = k.iter().enumerate().map(|(i, k)| format!("{k}: {i}u16")).collect::<Vec<_>>().join(", ");
        let l = k.join(", ");
        let b = format!(
            "let x = [1u32, {n} * 3, 1 << 31][nd::pick(3)];
            fz_scalar_map!(let m: T1<u32, u16>, {{ {m} }});
            fz_scalar_set!(let s: T2<u32>, {{ {l} }});
            let i = nd::below({n} + 2) as u32;
            let (q, exp) = match nd::pick(4) {{ 0 => (x, Some({h}u16)), 1 => {{ nd::assume(i < {n}); (i * 3, Some(if i < {h} {{ i }} else {{ i + 1 }} as u16)) }}, 2 => {{ (i * 3 + 2, None) }}, _ => (u32::MAX - i, None) }};
            ck!(m.len() == {n} + 1 && m.get(&q).copied() == exp && m.contains_key(&q) == exp.is_some());
            ck!(s.len() == {n} + 1 && s.contains(&q) == exp.is_some());"
        );
        o.harness(&format!("{tier}_mix_sc{n}"), &format!("scalar macros, {n} literal keys and a computed one; every key, queries between and beyond them"), &b);
    }

    writeln!(o.src, "pub const GEN_TABLE: &[(&str, &str, fn())] = &[").unwrap();
    for (n, d) in &o.table {
        writeln!(o.src, "({n:?}, {d:?}, {n} as fn()),").unwrap();
    }
    writeln!(o.src, "];").unwrap();
    o.src
}
