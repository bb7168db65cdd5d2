//! Primitives available to the property harnesses.
//! wasm64: imports answered by the symbolic executor. Native: replay of a concrete input.

#[cfg(target_arch = "wasm64")]
mod imp {
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn vp_alloc(size: usize, align: usize) -> *mut u8;
        fn vp_any_u8() -> u32;
        fn vp_any_below(n: u32) -> u32;
        fn vp_any_bytes(p: *mut u8, n: usize);
        fn vp_choose(n: u32) -> u32;
        fn vp_pin(v: u64) -> u64;
        fn vp_assume(c: u32);
        fn vp_check(c: u32, m: *const u8, n: usize);
        fn vp_check_eq(a: *const u8, an: usize, b: *const u8, bn: usize, m: *const u8, n: usize);
        fn vp_cover(m: *const u8, n: usize);
        fn vp_observe(m: *const u8, n: usize);
        fn vp_panic(f: *const u8, n: usize, line: u32);
        fn vp_limit(n: u64);
        fn vp_log(m: *const u8, n: usize);
    }

    struct A;
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            vp_alloc(l.size(), l.align())
        }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            vp_alloc(l.size(), l.align()) // fresh memory reads as zero
        }
        unsafe fn dealloc(&self, _p: *mut u8, _l: std::alloc::Layout) {}
    }
    #[global_allocator]
    static GLOBAL: A = A;

    pub fn init() {
        std::panic::set_hook(Box::new(|i| {
            let (f, l) = match i.location() {
                Some(l) => (l.file(), l.line()),
                None => ("?", 0),
            };
            unsafe { vp_panic(f.as_ptr(), f.len(), l) }
        }));
    }
    /// the largest single allocation that is allowed from now on
    pub fn limit(n: u64) {
        unsafe { vp_limit(n) }
    }
    pub fn any_u8() -> u8 {
        unsafe { vp_any_u8() as u8 }
    }
    pub fn any_below(n: u8) -> u8 {
        unsafe { vp_any_below(n as u32) as u8 }
    }
    pub fn fill(b: &mut [u8]) {
        if !b.is_empty() {
            unsafe { vp_any_bytes(b.as_mut_ptr(), b.len()) }
        }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { vp_choose(n) }
    }
    pub fn pin(v: u64) -> u64 {
        unsafe { vp_pin(v) }
    }
    pub fn assume(c: bool) {
        unsafe { vp_assume(c as u32) }
    }
    pub fn check(c: bool, m: &str) {
        unsafe { vp_check(c as u32, m.as_ptr(), m.len()) }
    }
    pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
        unsafe { vp_check_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &str) {
        unsafe { vp_cover(m.as_ptr(), m.len()) }
    }
    pub fn observe(m: &[u8]) {
        unsafe { vp_observe(m.as_ptr(), m.len()) }
    }
    pub fn log(m: &str) {
        unsafe { vp_log(m.as_ptr(), m.len()) }
    }
}

#[cfg(not(target_arch = "wasm64"))]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u8>,
        pub fails: Vec<String>,
        pub covers: Vec<String>,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    pub struct Pruned;

    pub static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(4 << 30);
    pub fn init() {}
    pub fn limit(n: u64) {
        LIMIT.store(n as usize, std::sync::atomic::Ordering::Relaxed);
    }
    pub fn any_u8() -> u8 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            c.input.get(p).copied().unwrap_or(0)
        })
    }
    pub fn any_below(n: u8) -> u8 {
        choose(n as u32) as u8
    }
    pub fn fill(b: &mut [u8]) {
        for x in b {
            *x = any_u8();
        }
    }
    pub fn choose(n: u32) -> u32 {
        let v = any_u8() as u32;
        if v >= n {
            std::panic::panic_any(Pruned);
        }
        v
    }
    pub fn pin(v: u64) -> u64 {
        v
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Pruned);
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            CTX.with(|x| x.borrow_mut().fails.push(m.to_string()));
        }
    }
    pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
        if a != b {
            if std::env::var("VP_VERBOSE").is_ok() {
                eprintln!("check_eq {m}\n  got  {a:?}\n  want {b:?}");
            }
        }
        check(a == b, m);
    }
    pub fn cover(m: &str) {
        CTX.with(|x| x.borrow_mut().covers.push(m.to_string()));
    }
    pub fn observe(m: &[u8]) {
        CTX.with(|x| x.borrow_mut().obs.extend_from_slice(m));
    }
    pub fn log(m: &str) {
        eprintln!("LOG {m}");
    }
}

pub use imp::*;

pub fn any_u16() -> u16 {
    let mut b = [0; 2];
    fill(&mut b);
    u16::from_le_bytes(b)
}
pub fn any_u32() -> u32 {
    let mut b = [0; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
pub fn any_u64() -> u64 {
    let mut b = [0; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
pub fn any_uint(n: usize) -> u64 {
    let mut b = [0; 8];
    fill(&mut b[..n]);
    u64::from_le_bytes(b)
}
/// a choice among any number of alternatives
pub fn choose_wide(n: usize) -> usize {
    if n <= 256 {
        return choose(n as u32) as usize;
    }
    let hi = choose(((n + 255) / 256) as u32) as usize;
    let left = n - hi * 256;
    hi * 256 + choose(left.min(256) as u32) as usize
}
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(&mut v);
    v
}
/// `n` arbitrary ASCII characters
pub fn any_ascii(n: usize) -> Vec<u8> {
    let mut v = any_bytes(n);
    for x in v.iter_mut() {
        *x &= 0x7f;
    }
    v
}
/// an arbitrary well-formed UTF-8 string of `n` bytes
pub fn any_utf8(n: usize) -> Vec<u8> {
    let v = any_bytes(n);
    assume(std::str::from_utf8(&v).is_ok());
    v
}
/// An arbitrary number with exactly `n` decimal digits (no leading zero unless n = 1) and its text.
pub fn any_decimal(n: usize) -> (u64, Vec<u8>) {
    any_digits(n, n == 1)
}
/// An arbitrary number of `n` decimal digits and those digits.
pub fn any_digits(n: usize, zero: bool) -> (u64, Vec<u8>) {
    let (mut v, mut t) = (0u64, vec![]);
    for i in 0..n {
        let d = if i == 0 && !zero { any_below(9) + 1 } else { any_below(10) };
        v = v * 10 + d as u64;
        t.push(b'0' + d);
    }
    (v, t)
}
/// A number of `n` digits, the first of them not zero. All digits are arbitrary up to 6, only three of them
/// beyond; `max` bounds the number.
pub fn any_number(n: usize, max: u64) -> (u64, Vec<u8>) {
    if n <= 6 {
        return any_digits(n, false);
    }
    let m = max.to_string().into_bytes();
    let (mut v, mut t) = (0u64, vec![]);
    // the longest numbers share the leading digits of the maximum
    let edge = m.len() == n;
    for i in 0..n {
        let d = if edge && i + 4 < n {
            m[i] - b'0'
        } else if edge || i == n / 2 || i + 1 == n {
            any_below(10)
        } else if i == 0 {
            any_below(9) + 1
        } else {
            7
        };
        if edge && i + 4 == n {
            // room for the remaining three digits
            assume(d <= m[i] - b'0');
        }
        v = v.wrapping_mul(10).wrapping_add(d as u64);
        t.push(b'0' + d);
    }
    if edge {
        // only the last four digits differ
        let k = 10_000;
        assume(v.wrapping_sub(max - max % k) <= max % k);
    }
    (v, t)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize]
}
