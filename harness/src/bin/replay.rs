//! Replays concrete inputs: stdin lines "entry arg hexinput"; one line per input on stdout:
//! "<end> <observations hex> <failed checks, joined by |> <panic location>".
use harness::api::*;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
struct Cap;
#[global_allocator]
static A: Cap = Cap;
fn limit_now() -> usize {
    LIMIT.load(std::sync::atomic::Ordering::Relaxed)
}
// Requests above the limit the symbolic executor uses are failures of the same kind here.
unsafe impl std::alloc::GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > limit_now() {
            huge();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > limit_now() {
            huge();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > limit_now() {
            huge();
        }
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
/// The line for the current input is written and the process ends; the driver restarts it.
fn huge() -> ! {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    let m = b"alloc - - -\n";
    unsafe {
        write(1, m.as_ptr(), m.len());
        _exit(0)
    }
}

fn main() {
    let es = harness::all_entries();
    thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file().replace(' ', "_"), l.line())).unwrap_or_default();
        LOC.with(|x| *x.borrow_mut() = s);
    }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut p = line.split(' ');
        let name = p.next().unwrap().to_string();
        let arg: u32 = p.next().unwrap().parse().unwrap();
        let input = unhex(p.next().unwrap_or(""));
        let f = es.iter().find(|e| e.0 == name).expect("entry").1;
        LOC.with(|x| x.borrow_mut().clear());
        openssl::LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
        harness::env::NET.clear_poison();
        limit(4 << 30);
        CTX.with(|c| *c.borrow_mut() = Ctx { input, ..Default::default() });
        let r = std::panic::catch_unwind(|| f(arg));
        limit(4 << 30);
        let end = match &r {
            Ok(()) => "return",
            Err(e) if e.is::<Pruned>() => "pruned",
            Err(_) => "panic",
        };
        let (obs, fails) = CTX.with(|c| {
            let c = c.borrow();
            (c.obs.iter().map(|b| format!("{b:02x}")).collect::<String>(), c.fails.join("|").replace(' ', "_"))
        });
        let loc = if end == "panic" { LOC.with(|x| x.borrow().clone()) } else { String::new() };
        let mut o = out.lock();
        writeln!(o, "{end} {} {} {}", if obs.is_empty() { "-" } else { &obs }, if fails.is_empty() { "-" } else { &fails }, if loc.is_empty() { "-" } else { &loc }).unwrap();
        o.flush().unwrap();
    }
}
