//! `fzreplay list` prints the harness table as JSON lines; `fzreplay run <harness> <file>` runs a
//! harness once per line of <file> ("v v v ..."): each line must be run in a process of its own, so
//! only the line given by the third argument is run. Output: `OBS n..`, then one of
//! `RESULT ok|assert <line>|panic <msg>|expected_panic|dropped`; a crash by signal is also a result.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

// ---- allocator: never reuses memory, poisons, and aborts on invalid frees -----------------------

struct Checked;
const MAGIC: u64 = 0x5afe_a110_c8ed_b10c;
const DEAD: u64 = 0xdead_f4ee_dead_f4ee;
static LIVE: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);

#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    align: u64,
    on: u64,
}

fn die(m: &str) -> ! {
    ON.store(false, Ordering::SeqCst);
    println!("RESULT memory {m}");
    std::process::abort()
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = l.align().max(64);
        if l.size() > 256 << 20 {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(Layout::from_size_align_unchecked(l.size() + pad + 64, pad)) };
        if p.is_null() {
            return p;
        }
        let on = ON.load(Ordering::Relaxed);
        let u = unsafe { p.add(pad) };
        unsafe {
            std::ptr::write_bytes(u, 0xa5, l.size() + 64);
            *(u.sub(32) as *mut Head) = Head { magic: MAGIC, size: l.size() as u64, align: l.align() as u64, on: on as u64 };
        }
        if on {
            LIVE.fetch_add(1, Ordering::Relaxed);
            ALLOCS.fetch_add(1, Ordering::Relaxed);
            let b = BYTES.fetch_add(l.size() as u64, Ordering::Relaxed) + l.size() as u64;
            PEAK.fetch_max(b, Ordering::Relaxed);
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = unsafe { &mut *(u.sub(32) as *mut Head) };
        if h.magic != MAGIC {
            die(if h.magic == DEAD { "double free" } else { "free of an invalid pointer" });
        }
        if h.size != l.size() as u64 || h.align != l.align() as u64 {
            die("deallocation with the wrong layout");
        }
        for i in 0..64 {
            if unsafe { *u.add(l.size() + i) } != 0xa5 {
                die("write past the end of an allocation");
            }
        }
        h.magic = DEAD;
        if h.on == 1 {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            BYTES.fetch_sub(l.size() as u64, Ordering::Relaxed);
        }
        // the memory is kept (quarantined for the life of the process) and poisoned
        unsafe { std::ptr::write_bytes(u, 0xdb, l.size()) };
    }
}

#[global_allocator]
static A: Checked = Checked;

// ---- the harness interface ---------------------------------------------------------------------

struct St {
    vals: Vec<u64>,
    pos: usize,
    obs: Vec<u64>,
    panic_ok: bool,
}
struct G(UnsafeCell<St>);
unsafe impl Sync for G {}
static ST: G = G(UnsafeCell::new(St { vals: vec![], pos: 0, obs: vec![], panic_ok: false }));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut St {
    unsafe { &mut *ST.0.get() }
}
fn off<T>(f: impl FnOnce() -> T) -> T {
    let o = ON.swap(false, Ordering::SeqCst);
    let r = f();
    ON.store(o, Ordering::SeqCst);
    r
}
fn finish(r: &str) -> ! {
    ON.store(false, Ordering::SeqCst);
    let o: Vec<String> = st().obs.iter().map(|x| x.to_string()).collect();
    println!("OBS {}", o.join(" "));
    println!("RESULT {r}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

#[unsafe(no_mangle)]
pub extern "C" fn vp_sym(bits: u32) -> u64 {
    let s = st();
    let v = s.vals.get(s.pos).copied().unwrap_or(0);
    s.pos += 1;
    if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        finish("dropped")
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_assert(c: bool, id: u32) {
    if !c {
        finish(&format!("assert {id}"))
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_cover(_c: bool, _id: u32) {}
#[unsafe(no_mangle)]
pub extern "C" fn vp_concrete(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_panic_ok(c: bool) {
    st().panic_ok = c;
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_live_heap() -> u64 {
    LIVE.load(Ordering::SeqCst)
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_heap(what: u32) -> u64 {
    match what {
        0 => BYTES.load(Ordering::SeqCst),
        1 => PEAK.load(Ordering::SeqCst),
        2 => ALLOCS.load(Ordering::SeqCst),
        _ => {
            PEAK.store(BYTES.load(Ordering::SeqCst), Ordering::SeqCst);
            0
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_obs(v: u64) {
    off(|| st().obs.push(v))
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_symbolic() -> u64 {
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = fzh::table();
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for (n, d, _, f) in t {
                println!("{n}\t{f}\t{d}");
            }
        }
        Some("run") => {
            let f = t.iter().find(|x| x.0 == a[2]).expect("unknown harness").2;
            st().vals = a[3..].iter().map(|x| x.parse().expect("number")).collect();
            st().obs.reserve(4096);
            std::panic::set_hook(Box::new(|i| {
                ON.store(false, Ordering::SeqCst);
                if st().panic_ok {
                    finish("expected_panic")
                }
                let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                finish(&format!("panic {} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()))
            }));
            ON.store(true, Ordering::SeqCst);
            f();
            finish("ok")
        }
        _ => {
            eprintln!("usage: fzreplay list | run <harness> <values...>");
            std::process::exit(64)
        }
    }
}
