//! The interface between the harnesses and whatever runs them: the symbolic executor (`/verif/engine`)
//! implements these externs symbolically, the replay binary (`/verif/replay`) from recorded values.

unsafe extern "C" {
    fn vp_sym(bits: u32) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, id: u32);
    fn vp_cover(c: bool, id: u32);
    fn vp_concrete(v: u64) -> u64;
    fn vp_panic_ok(c: bool);
    fn vp_live_heap() -> u64;
    fn vp_heap(what: u32) -> u64;
    fn vp_obs(v: u64);
}

#[inline(always)]
pub fn bits(n: u32) -> u64 {
    unsafe { vp_sym(n) }
}
#[inline(always)]
pub fn any_u8() -> u8 {
    bits(8) as u8
}
#[inline(always)]
pub fn any_u16() -> u16 {
    bits(16) as u16
}
#[inline(always)]
pub fn any_u32() -> u32 {
    bits(32) as u32
}
#[inline(always)]
pub fn any_u64() -> u64 {
    bits(64)
}
#[inline(always)]
pub fn any_bool() -> bool {
    bits(1) != 0
}
/// A symbolic value below `n`.
#[inline(always)]
pub fn below(n: u64) -> u64 {
    let v = bits(if n <= 256 { 8 } else { 64 });
    assume(v < n);
    v
}
/// One path per value below `n`.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    let v = bits(8);
    assume(v < n as u64);
    unsafe { vp_concrete(v) as usize }
}
/// Fork over every value the argument can have.
#[inline(always)]
pub fn split(v: u64) -> u64 {
    unsafe { vp_concrete(v) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { vp_assert(c, id) }
}
#[inline(always)]
pub fn cover(c: bool, id: u32) {
    unsafe { vp_cover(c, id) }
}
/// From here on a panic is the specified outcome (and ends the path); call again with false to end that.
#[inline(always)]
pub fn panic_ok(c: bool) {
    unsafe { vp_panic_ok(c) }
}
/// Number of live heap allocations.
#[inline(always)]
pub fn live_heap() -> u64 {
    unsafe { vp_live_heap() }
}
/// Bytes in live heap allocations.
#[inline(always)]
pub fn live_bytes() -> u64 {
    unsafe { vp_heap(0) }
}
/// The most bytes ever alive since the last `mark_peak`.
#[inline(always)]
pub fn peak_bytes() -> u64 {
    unsafe { vp_heap(1) }
}
/// Number of heap allocations made so far.
#[inline(always)]
pub fn allocs() -> u64 {
    unsafe { vp_heap(2) }
}
#[inline(always)]
pub fn mark_peak() {
    unsafe { vp_heap(3) };
}
/// Records a value, compared between the symbolic and the native run of the same inputs.
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { vp_obs(v) }
}
#[inline(always)]
pub fn obs_opt(v: Option<&u8>) {
    obs(v.map_or(1000, |v| *v as u64));
}

/// Asserts; identified in reports by its source line.
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::nd::check($c, line!())
    };
}
/// Reachability witness: some path must make it true.
#[macro_export]
macro_rules! cov {
    ($c:expr) => {
        $crate::nd::cover($c, line!())
    };
}
/// Defines harness entry points plus the table the replay binary dispatches on. The string states
/// the bounds of the claim.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident($d:expr) $b:block)*) => {
        $($(#[$m])* #[unsafe(no_mangle)] #[inline(never)] pub fn $n() $b)*
        pub const TABLE: &[(&str, &str, fn())] = &[$((stringify!($n), $d, $n as fn())),*];
    };
}
