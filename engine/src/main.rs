mod exec;
mod expr;
mod solver;
mod wasm;
use exec::*;
use std::ffi::{c_int, c_void};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    wasm: String,
    entry: String,
    arg: Vec<u64>,
    out: String,
    procs: i64,
    steps: u64,
    timeout_ms: u32,
    time: f64,
    wit: usize,
    dump: Option<String>,
    dump_every: u64,
    trace: bool,
    max_paths: u64,
}

fn main() {
    let mut a = Args {
        wasm: String::new(),
        entry: String::new(),
        arg: vec![],
        out: String::new(),
        procs: 1,
        steps: 20_000_000,
        timeout_ms: 60_000,
        time: 1e9,
        wit: 4000,
        dump: None,
        dump_every: 50,
        trace: false,
        max_paths: u64::MAX,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap();
        match k.as_str() {
            "--wasm" => a.wasm = v(),
            "--entry" => a.entry = v(),
            "--arg" => a.arg.push(v().parse().unwrap()),
            "--out" => a.out = v(),
            "--procs" => a.procs = v().parse().unwrap(),
            "--steps" => a.steps = v().parse().unwrap(),
            "--timeout-ms" => a.timeout_ms = v().parse().unwrap(),
            "--time" => a.time = v().parse().unwrap(),
            "--wit" => a.wit = v().parse().unwrap(),
            "--dump" => a.dump = Some(v()),
            "--dump-every" => a.dump_every = v().parse().unwrap(),
            "--max-paths" => a.max_paths = v().parse().unwrap(),
            "--trace" => a.trace = true,
            "--z3-version" => {
                println!("{}", solver::version());
                return;
            }
            x => panic!("argument {x}"),
        }
    }
    let bytes = std::fs::read(&a.wasm).expect("wasm file");
    let m = wasm::parse(&bytes);
    let t0 = Instant::now();
    // shared: free process slots, paths finished
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI64 };
    let slots = unsafe { &*sh };
    let total = unsafe { &*sh.add(1) };
    slots.store(a.procs - 1, Ordering::SeqCst);
    let mut slv = solver::Solver::new(a.timeout_ms);
    if let Some(d) = &a.dump {
        slv.dump = Some((d.clone(), a.dump_every));
    }
    let mut en = Engine::new(&m, slv);
    en.max_steps = a.steps;
    en.max_wit = a.wit;
    en.trace = a.trace;
    en.deadline = Some(t0 + std::time::Duration::from_secs_f64(a.time));
    let st = en.initial(&a.entry, &a.arg);
    en.work.push(st);
    let mut kids: Vec<c_int> = vec![];
    let mut truncated = 0usize;
    let mut is_child = false;
    let mut n = 0u64;
    while let Some(st) = en.work.pop() {
        if t0.elapsed().as_secs_f64() > a.time || n >= a.max_paths {
            truncated = en.work.len() + 1;
            break;
        }
        en.run_path(st);
        n += 1;
        total.fetch_add(1, Ordering::Relaxed);
        while en.work.len() >= 2 && slots.load(Ordering::Relaxed) > 0 {
            if slots.fetch_sub(1, Ordering::SeqCst) <= 0 {
                slots.fetch_add(1, Ordering::SeqCst);
                break;
            }
            // the child takes the older half of the pending paths
            let h = en.work.len() / 2;
            let pid = unsafe { fork() };
            if pid == 0 {
                is_child = true;
                kids.clear();
                en.work.truncate(h);
                // fresh result counters
                en.ends.clear();
                en.inconclusive.clear();
                en.violations.clear();
                en.viol_count.clear();
                en.witnesses.clear();
                en.wit_seen = 0;
                en.steps = 0;
                en.forks = 0;
                en.checks = 0;
                en.concretized = 0;
                en.late = 0;
                en.covers.clear();
                en.slv.queries = 0;
                en.slv.cache_hits = 0;
                en.slv.model_hits = 0;
                en.slv.sat = 0;
                en.slv.unsat = 0;
                en.slv.unknown = 0;
                en.slv.time = 0.0;
                en.slv.dumped = 0;
                for c in en.called.iter_mut() {
                    *c = 0;
                }
            } else if pid > 0 {
                kids.push(pid);
                en.work.drain(0..h);
            } else {
                slots.fetch_add(1, Ordering::SeqCst);
                break;
            }
        }
    }
    // results
    let mut o = String::new();
    let mut kv = |k: &str, v: String| {
        let _ = write!(o, "{}{}:{}", if o.is_empty() { "{" } else { "," }, js(k), v);
    };
    let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    kv("entry", js(&a.entry));
    kv("ends", map(&en.ends));
    kv("inconclusive", map(&en.inconclusive));
    kv("truncated", (truncated + en.late).to_string());
    kv("steps", en.steps.to_string());
    kv("max_path_steps", en.max_steps_seen.to_string());
    kv("max_inputs", en.max_nin.to_string());
    kv("forks", en.forks.to_string());
    kv("checks", en.checks.to_string());
    kv("concretized", en.concretized.to_string());
    kv("queries", en.slv.queries.to_string());
    kv("sat", en.slv.sat.to_string());
    kv("unsat", en.slv.unsat.to_string());
    kv("unknown", en.slv.unknown.to_string());
    kv("cache_hits", en.slv.cache_hits.to_string());
    kv("model_hits", en.slv.model_hits.to_string());
    kv("solver_time", format!("{:.3}", en.slv.time));
    kv("solver_max", format!("{:.3}", en.slv.max_time));
    kv("dumped", en.slv.dumped.to_string());
    kv("nodes", en.pool.nodes.len().to_string());
    kv("wall", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("covers", format!("{{{}}}", en.covers.iter().map(|(k, v)| format!("{}:{}", js(&en.labels[*k as usize]), v)).collect::<Vec<_>>().join(",")));
    kv(
        "violations",
        format!(
            "[{}]",
            en.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\"}}", js(&v.kind), js(&v.msg), hex(&v.input))).collect::<Vec<_>>().join(",")
        ),
    );
    kv(
        "violation_counts",
        format!("[{}]", en.viol_count.iter().map(|((k, m), n)| format!("[{},{},{}]", js(k), js(m), n)).collect::<Vec<_>>().join(",")),
    );
    kv(
        "functions",
        format!("[{}]", (0..m.funcs.len()).filter(|&i| en.called[i] > 0).map(|i| format!("[{},{}]", js(&m.funcs[i].name), en.called[i])).collect::<Vec<_>>().join(",")),
    );
    kv(
        "witnesses",
        format!(
            "[{}]",
            en.witnesses.iter().map(|w| format!("[\"{}\",\"{}\",{}]", hex(&w.input), hex(&w.obs), js(&w.end))).collect::<Vec<_>>().join(",")
        ),
    );
    o.push('}');
    if !a.out.is_empty() {
        let tmp = format!("{}.{}.tmp", a.out, std::process::id());
        std::fs::write(&tmp, &o).expect("write");
        std::fs::rename(&tmp, format!("{}.{}.json", a.out, std::process::id())).expect("rename");
    } else {
        println!("{o}");
    }
    slots.fetch_add(1, Ordering::SeqCst);
    let mut bad = 0;
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 {
            bad = 71;
        }
    }
    if is_child {
        unsafe { _exit(bad) }
    }
    std::process::exit(bad);
}
