//! Interface between the harnesses and the symbolic executor.
//!
//! The executor intercepts the `symx_*` functions by name.  Linked natively they
//! replay one concrete input, so the same binary confirms counterexamples.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

struct G {
    input: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    params: Vec<u64>,
    opts: u64,
    wit: u64,
    short: bool,
}
struct Cell0(UnsafeCell<G>);
unsafe impl Sync for Cell0 {}
static ST: Cell0 = Cell0(UnsafeCell::new(G { input: vec![], pos: 0, out: vec![], params: vec![], opts: 0, wit: 0, short: false }));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut G {
    unsafe { &mut *ST.0.get() }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn symx_bytes(p: *mut u8, n: usize) {
    let g = st();
    for i in 0..n {
        let v = if g.pos < g.input.len() {
            g.input[g.pos]
        } else {
            g.short = true;
            0
        };
        g.pos += 1;
        *p.add(i) = v;
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_assume(c: bool) {
    if !c {
        finish("ASSUME-FALSE", "");
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn symx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
        finish("CHECK-FAILED", m);
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn symx_fail(p: *const u8, n: usize) {
    symx_check(false, p, n)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_witness(i: u32) {
    st().wit |= 1 << (i & 63);
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn symx_out(p: *const u8, n: usize) {
    st().out.extend_from_slice(std::slice::from_raw_parts(p, n));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_opts(o: u64) {
    st().opts = o;
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_concretize(v: u64) -> u64 {
    std::hint::black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_param(i: usize) -> u64 {
    st().params.get(i).copied().unwrap_or(0)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn finish(status: &str, msg: &str) -> ! {
    use std::io::Write;
    let g = st();
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "OUT {}", hex(&g.out));
    let _ = writeln!(o, "WIT {}", g.wit);
    if g.short {
        let _ = writeln!(o, "SHORT-INPUT");
    }
    let _ = writeln!(o, "STATUS {} {}", status, msg.replace('\n', " "));
    let _ = o.flush();
    unsafe { _exit(0) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}

// ---------------------------------------------------------------- safe wrappers
pub const PANIC_OK: u64 = 1;
pub const LEAK_OK: u64 = 2;
pub fn assume(c: bool) {
    symx_assume(c)
}
pub fn check(c: bool, m: &str) {
    unsafe { symx_check(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { symx_fail(m.as_ptr(), m.len()) }
    #[allow(clippy::empty_loop)]
    loop {}
}
/// Compare two strings byte by byte with a single combined condition per position.
pub fn check_eq_bytes(a: &[u8], b: &[u8], m: &str) {
    check(a.len() == b.len(), m);
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    check(d == 0, m);
}
pub fn witness(i: u32) {
    symx_witness(i)
}
pub fn out(b: &[u8]) {
    unsafe { symx_out(b.as_ptr(), b.len()) }
}
pub fn out_u64(v: u64) {
    out(&v.to_le_bytes())
}
pub fn opts(o: u64) {
    symx_opts(o)
}
pub fn param(i: usize) -> u64 {
    symx_param(i)
}
pub fn concretize(v: u64) -> u64 {
    symx_concretize(v)
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { symx_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { symx_bytes(v.as_mut_ptr(), N) };
    v
}
pub fn any_u8() -> u8 {
    arr::<1>()[0]
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn any_u128() -> u128 {
    u128::from_le_bytes(arr())
}
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
/// A concrete number below `n`, all of them explored.
pub fn choose(n: u8) -> u8 {
    let b = any_u8();
    assume(b < n);
    concretize(b as u64) as u8
}

// ---------------------------------------------------------------- native driver
pub struct Checking;
const SLOTS: usize = 1 << 16;
struct Tab(UnsafeCell<[(usize, usize, usize); SLOTS]>);
unsafe impl Sync for Tab {}
static TAB: Tab = Tab(UnsafeCell::new([(0, 0, 0); SLOTS]));
static TRACK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
fn bad(m: &str) -> ! {
    TRACK.store(false, Ordering::SeqCst);
    finish("MEMORY", m)
}
fn find(p: usize) -> Option<usize> {
    let t = unsafe { &*TAB.0.get() };
    let mut i = (p >> 4) % SLOTS;
    loop {
        if t[i].0 == p {
            return Some(i);
        }
        if t[i].0 == 0 {
            return None;
        }
        i = (i + 1) % SLOTS;
    }
}
fn add(p: usize, s: usize, a: usize) {
    let t = unsafe { &mut *TAB.0.get() };
    let mut i = (p >> 4) % SLOTS;
    while t[i].0 > 1 && t[i].0 != p {
        i = (i + 1) % SLOTS;
    }
    t[i] = (p, s, a);
    LIVE.fetch_add(1, Ordering::SeqCst);
}
// Freed blocks stay in the table with size 0 while tracked, so that a second
// free of the same address is recognised (memory is not reused while tracking).
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if TRACK.load(Ordering::SeqCst) {
            add(p as usize, l.size(), l.align());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(Ordering::SeqCst) {
            match find(p as usize) {
                Some(i) => {
                    let t = &mut *TAB.0.get();
                    if t[i].1 == 0 {
                        bad("double-free");
                    }
                    if t[i].1 != l.size() || t[i].2 != l.align() {
                        bad("layout-mismatch");
                    }
                    t[i].1 = 0;
                    LIVE.fetch_sub(1, Ordering::SeqCst);
                    std::ptr::write_bytes(p, 0xDE, l.size());
                    return; // quarantined
                }
                None => {
                    if under_valgrind() {
                        System.dealloc(p, l)
                    }
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
}
/// Here and not in the harness crates: the executor intercepts the allocator's entry
/// points, which therefore must not be inlined into the code under test.
#[global_allocator]
static A: Checking = Checking;
static VG: AtomicBool = AtomicBool::new(false);
fn under_valgrind() -> bool {
    VG.load(Ordering::SeqCst)
}

/// `bin ENTRY HEXINPUT [PARAM,PARAM..]`
pub fn native_main(entries: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in entries {
            println!("{}", n);
        }
        return;
    }
    let Some((_, f)) = entries.iter().find(|(n, _)| *n == a[1]) else {
        eprintln!("no entry {}", a[1]);
        std::process::exit(3);
    };
    let h = a[2].as_bytes();
    let input: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect();
    let params: Vec<u64> = a.get(3).map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let plain = std::env::var("SYMX_PLAIN").is_ok();
    VG.store(plain, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|i| {
        TRACK.store(false, Ordering::SeqCst);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        finish("PANIC", &format!("{} [{}]", m, l));
    }));
    let rounds = if plain { 1 } else { 2 };
    for r in 0..rounds {
        *st() = G { input: input.clone(), pos: 0, out: Vec::with_capacity(1 << 16), params: params.clone(), opts: 0, wit: 0, short: false };
        let before = LIVE.load(Ordering::SeqCst);
        if !plain {
            TRACK.store(true, Ordering::SeqCst);
        }
        f();
        TRACK.store(false, Ordering::SeqCst);
        // statics initialised in the first round are not leaks
        if r == 1 && LIVE.load(Ordering::SeqCst) > before && st().opts & LEAK_OK == 0 {
            finish("LEAK", &format!("{} blocks", LIVE.load(Ordering::SeqCst) - before));
        }
    }
    finish("OK", "");
}
#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            $crate::native_main(&[$((stringify!($n), $n as extern "C" fn())),*]);
        }
    };
}
