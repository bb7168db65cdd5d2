//! Symbolic execution of the lowered wasm code.
use crate::expr::*;
use crate::solver::{Res, Solver};
use crate::wasm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u64),
    S(E),
}

const PG: u64 = 4096;
const L2: u64 = 64;
const LOW_LIMIT: u64 = 1 << 28;
pub const ALLOC_LIMIT: u64 = 1 << 32;

#[derive(Clone)]
struct Page {
    b: [u8; PG as usize],
    s: Option<Box<[E; PG as usize]>>,
}

type Chunk = [Option<Rc<Page>>; L2 as usize];

#[derive(Clone, Default)]
pub struct Mem {
    low: Vec<Option<Rc<Chunk>>>,
    high: HashMap<u64, Rc<Page>>,
}

impl Mem {
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        if a < LOW_LIMIT {
            let i = (a / (PG * L2)) as usize;
            match self.low.get(i) {
                Some(Some(c)) => c[((a / PG) % L2) as usize].as_deref(),
                _ => None,
            }
        } else {
            self.high.get(&(a / PG)).map(|r| &**r)
        }
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        if a < LOW_LIMIT {
            let i = (a / (PG * L2)) as usize;
            if i >= self.low.len() {
                self.low.resize(i + 1, None);
            }
            let c = self.low[i].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
            let c = Rc::make_mut(c);
            let p = c[((a / PG) % L2) as usize].get_or_insert_with(|| Rc::new(Page { b: [0; PG as usize], s: None }));
            Rc::make_mut(p)
        } else {
            let p = self.high.entry(a / PG).or_insert_with(|| Rc::new(Page { b: [0; PG as usize], s: None }));
            Rc::make_mut(p)
        }
    }
    #[inline]
    pub fn get(&self, a: u64) -> (u8, E) {
        match self.page(a) {
            None => (0, 0),
            Some(p) => {
                let o = (a % PG) as usize;
                (p.b[o], p.s.as_ref().map_or(0, |s| s[o]))
            }
        }
    }
    #[inline]
    pub fn set(&mut self, a: u64, v: u8, e: E) {
        let p = self.page_mut(a);
        let o = (a % PG) as usize;
        p.b[o] = v;
        if e != 0 {
            p.s.get_or_insert_with(|| vec![0; PG as usize].into_boxed_slice().try_into().unwrap())[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
    }
    /// concrete little-endian read when no byte is symbolic
    #[inline]
    fn read_conc(&self, a: u64, n: u64) -> Option<u64> {
        let o = a % PG;
        if o + n <= PG {
            match self.page(a) {
                None => Some(0),
                Some(p) => {
                    let o = o as usize;
                    if let Some(s) = &p.s {
                        if s[o..o + n as usize].iter().any(|&x| x != 0) {
                            return None;
                        }
                    }
                    let mut buf = [0u8; 8];
                    buf[..n as usize].copy_from_slice(&p.b[o..o + n as usize]);
                    Some(u64::from_le_bytes(buf))
                }
            }
        } else {
            let mut r = 0;
            for i in 0..n {
                let (v, e) = self.get(a + i);
                if e != 0 {
                    return None;
                }
                r |= (v as u64) << (8 * i);
            }
            Some(r)
        }
    }
    #[inline]
    fn write_conc(&mut self, a: u64, v: u64, n: u64) {
        let o = a % PG;
        if o + n <= PG {
            let p = self.page_mut(a);
            let o = o as usize;
            p.b[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
            if let Some(s) = &mut p.s {
                for x in &mut s[o..o + n as usize] {
                    *x = 0;
                }
            }
        } else {
            for i in 0..n {
                self.set(a + i, (v >> (8 * i)) as u8, 0);
            }
        }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        for (i, &x) in b.iter().enumerate() {
            self.set(a + i as u64, x, 0);
        }
    }
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
}

#[derive(Clone)]
pub struct State {
    stack: Vec<Val>,
    frames: Vec<Frame>,
    globals: Vec<Val>,
    mem: Mem,
    mem_pages: u64,
    brk: u64,
    limit: u64,
    pub pc: Vec<E>,
    facts: HashMap<E, bool>,
    bind: HashMap<E, u64>,
    rng: HashMap<E, (u64, u64)>,
    pub model: Vec<u8>,
    pub model_id: u64,
    pub nin: u32,
    obs: Vec<(u8, E)>, // output bytes
    steps: u64,
    covers: BTreeSet<u32>,
    forks: u32,
}

pub enum Stop {
    /// path pruned by an assumption
    Pruned,
    /// path ended (normally or by a reported violation)
    End(String),
    /// the engine cannot decide this path
    Inconclusive(String),
    /// out of time
    Late,
}

type X<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
}
pub struct Witness {
    pub input: Vec<u8>,
    pub obs: Vec<u8>,
    pub end: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Icpt {
    None,
    Memcmp,
    Memcpy,
    Memset,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub pool: Pool,
    pub slv: Solver,
    pub work: Vec<State>,
    icpt: Vec<Icpt>,
    pub called: Vec<u64>,
    pub labels: Vec<String>,
    pub label_ids: HashMap<String, u32>,
    pub covers: BTreeMap<u32, u64>,
    pub ends: BTreeMap<String, u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_count: BTreeMap<(String, String), u64>,
    pub witnesses: Vec<Witness>,
    pub max_wit: usize,
    pub wit_seen: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub concretized: u64,
    pub deadline: Option<std::time::Instant>,
    /// paths abandoned at the deadline
    pub late: usize,
    pub max_steps_seen: u64,
    pub max_nin: u32,
    pub trace: bool,
    pub trace_branches: bool,
    pub viol_cap: u64,
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, slv: Solver) -> Self {
        let icpt = m
            .funcs
            .iter()
            .map(|f| match f.name.as_str() {
                "memcmp" | "bcmp" => Icpt::Memcmp,
                "memcpy" | "memmove" => Icpt::Memcpy,
                "memset" => Icpt::Memset,
                _ => Icpt::None,
            })
            .collect();
        Engine {
            m,
            pool: Pool::new(),
            slv,
            work: vec![],
            icpt,
            called: vec![0; m.funcs.len()],
            labels: vec![],
            label_ids: HashMap::new(),
            covers: BTreeMap::new(),
            ends: BTreeMap::new(),
            inconclusive: BTreeMap::new(),
            violations: vec![],
            viol_count: BTreeMap::new(),
            witnesses: vec![],
            max_wit: 4000,
            wit_seen: 0,
            steps: 0,
            max_steps: 50_000_000,
            forks: 0,
            checks: 0,
            concretized: 0,
            deadline: None,
            late: 0,
            max_steps_seen: 0,
            max_nin: 0,
            trace: false,
            trace_branches: std::env::var("VP_BRANCHES").is_ok(),
            viol_cap: 3,
        }
    }

    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let f = *self.m.exports.get(entry).unwrap_or_else(|| {
            eprintln!("no export {entry}");
            std::process::exit(64)
        });
        let mut mem = Mem::default();
        for (a, d) in &self.m.data {
            mem.write_bytes(*a, d);
        }
        let mut st = State {
            stack: vec![],
            frames: vec![],
            globals: self.m.globals.iter().map(|&v| Val::C(v)).collect(),
            mem,
            mem_pages: self.m.mem_pages,
            limit: ALLOC_LIMIT,
            brk: (self.m.mem_pages * 65536 + 0xffff) & !0xffff,
            pc: vec![],
            facts: HashMap::new(),
            bind: HashMap::new(),
            rng: HashMap::new(),
            model: vec![],
            model_id: self.slv.fresh_model_id(),
            nin: 0,
            obs: vec![],
            steps: 0,
            covers: BTreeSet::new(),
            forks: 0,
        };
        for &a in args {
            st.stack.push(Val::C(a));
        }
        self.enter(&mut st, f);
        st
    }

    fn enter(&mut self, st: &mut State, f: u32) {
        let fun = &self.m.funcs[f as usize];
        self.called[f as usize] += 1;
        let base = st.stack.len() as u32 - fun.nparams;
        for _ in fun.nparams..fun.nlocals {
            st.stack.push(Val::C(0));
        }
        st.frames.push(Frame { func: f, pc: 0, base });
        if self.trace {
            eprintln!("{:indent$}> {}", "", fun.name, indent = st.frames.len());
        }
    }

    // ---------- expressions of values ----------
    fn e(&mut self, v: Val, w: u8) -> E {
        match v {
            Val::C(x) => self.pool.c(x, w),
            Val::S(e) => e,
        }
    }
    fn v(&self, e: E) -> Val {
        match self.pool.as_const(e) {
            Some(x) => Val::C(x),
            None => Val::S(e),
        }
    }

    // ---------- path condition ----------
    fn add_fact(&mut self, st: &mut State, c: E, val: bool) {
        let n = self.pool.n(c);
        st.facts.insert(c, val);
        if n.op == Op::Not {
            return self.add_fact(st, n.a, !val);
        }
        if n.op == Op::And && val || n.op == Op::Or && !val {
            self.add_fact(st, n.a, val);
            self.add_fact(st, n.b, val);
            return;
        }
        match (n.op, val) {
            (Op::Eq, true) => {
                if let Some(k) = self.pool.as_const(n.b) {
                    st.bind.insert(n.a, k);
                    st.rng.insert(n.a, (k, k));
                }
            }
            (Op::Eq, false) => {
                if let Some(k) = self.pool.as_const(n.b) {
                    let (lo, hi) = self.range(st, n.a);
                    if k == lo && lo < hi {
                        st.rng.insert(n.a, (lo + 1, hi));
                    } else if k == hi && lo < hi {
                        st.rng.insert(n.a, (lo, hi - 1));
                    }
                }
            }
            (Op::Ult, _) | (Op::Ule, _) => {
                let strict = n.op == Op::Ult;
                if let Some(k) = self.pool.as_const(n.b) {
                    let (mut lo, mut hi) = self.range(st, n.a);
                    match (strict, val) {
                        (true, true) => hi = hi.min(k.saturating_sub(1)),
                        (true, false) => lo = lo.max(k),
                        (false, true) => hi = hi.min(k),
                        (false, false) => lo = lo.max(k.saturating_add(1)),
                    }
                    st.rng.insert(n.a, (lo, hi));
                } else if let Some(k) = self.pool.as_const(n.a) {
                    let (mut lo, mut hi) = self.range(st, n.b);
                    match (strict, val) {
                        (true, true) => lo = lo.max(k.saturating_add(1)),
                        (true, false) => hi = hi.min(k),
                        (false, true) => lo = lo.max(k),
                        (false, false) => hi = hi.min(k.saturating_sub(1)),
                    }
                    st.rng.insert(n.b, (lo, hi));
                }
            }
            _ => {}
        }
    }

    fn range(&self, st: &State, e: E) -> (u64, u64) {
        if let Some(r) = st.rng.get(&e) {
            return *r;
        }
        let n = self.pool.n(e);
        if n.op == Op::ZExt {
            return self.range(st, n.a);
        }
        let i = self.pool.info[e as usize];
        (i.lo, i.hi)
    }

    fn quick(&self, st: &State, c: E) -> Option<bool> {
        let mut budget = 256;
        self.quick_b(st, c, &mut budget)
    }

    fn quick_b(&self, st: &State, c: E, bud: &mut u32) -> Option<bool> {
        if *bud == 0 {
            return None;
        }
        *bud -= 1;
        if let Some(k) = self.pool.as_const(c) {
            return Some(k == 1);
        }
        if let Some(&b) = st.facts.get(&c) {
            return Some(b);
        }
        let n = self.pool.n(c);
        match n.op {
            Op::Not => self.quick_b(st, n.a, bud).map(|b| !b),
            Op::And => match (self.quick_b(st, n.a, bud), self.quick_b(st, n.b, bud)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.quick_b(st, n.a, bud), self.quick_b(st, n.b, bud)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Eq => {
                let (a, b) = (self.range(st, n.a), self.range(st, n.b));
                if a.1 < b.0 || b.1 < a.0 {
                    Some(false)
                } else if a.0 == a.1 && b.0 == b.1 && a.0 == b.0 {
                    Some(true)
                } else {
                    None
                }
            }
            Op::Ult => {
                let (a, b) = (self.range(st, n.a), self.range(st, n.b));
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Ule => {
                let (a, b) = (self.range(st, n.a), self.range(st, n.b));
                if a.1 <= b.0 {
                    Some(true)
                } else if a.0 > b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn constrain(&mut self, st: &mut State, c: E) {
        st.pc.push(c);
        self.add_fact(st, c, true);
    }

    fn apply_model(&mut self, st: &mut State, asg: &[(u32, u8)]) {
        for &(v, b) in asg {
            if v as usize >= st.model.len() {
                st.model.resize(v as usize + 1, 0);
            }
            st.model[v as usize] = b;
        }
        st.model_id = self.slv.fresh_model_id();
        let (id, m) = (st.model_id, st.model.clone());
        self.slv.remember(id, &m);
    }

    fn eval(&mut self, st: &State, e: E) -> u64 {
        self.pool.eval(e, &st.model, st.model_id)
    }

    fn on_time(&self) -> X<()> {
        match self.deadline {
            Some(d) if std::time::Instant::now() > d => Err(Stop::Late),
            _ => Ok(()),
        }
    }

    /// Decides a branch; forks when both sides are feasible.
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(b) = self.quick(st, c) {
            return Ok(b);
        }
        if self.trace_branches {
            eprintln!("BRANCH{} {}", self.where_(st), self.pool.show(c, 9));
        }
        let side = self.eval(st, c) == 1;
        let nc = self.pool.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        self.on_time()?;
        match self.slv.check(&mut self.pool, &st.pc, other) {
            Res::Unsat => {
                self.add_fact(st, mine, true);
                Ok(side)
            }
            Res::Sat(asg) => {
                let mut o = st.clone();
                self.constrain(&mut o, other);
                self.apply_model(&mut o, &asg);
                o.forks += 1;
                self.work.push(o);
                self.forks += 1;
                self.constrain(st, mine);
                st.forks += 1;
                Ok(side)
            }
            Res::Unknown => Err(Stop::Inconclusive("solver returned unknown on a branch".into())),
        }
    }

    fn conc(&mut self, st: &mut State, v: Val) -> X<u64> {
        let e = match v {
            Val::C(x) => return Ok(x),
            Val::S(e) => e,
        };
        if let Some(&k) = st.bind.get(&e) {
            return Ok(k);
        }
        self.concretized += 1;
        let x = self.eval(st, e);
        let w = self.pool.w(e);
        let k = self.pool.c(x, w);
        let c = self.pool.eq(e, k);
        let r = self.decide(st, c)?;
        if r {
            st.bind.insert(e, x);
            Ok(x)
        } else {
            Err(Stop::Inconclusive("concretisation".into()))
        }
    }

    fn report(&mut self, kind: &str, msg: &str, model: &[u8], nin: u32) {
        let n = self.viol_count.entry((kind.to_string(), msg.to_string())).or_insert(0);
        *n += 1;
        if *n <= self.viol_cap {
            let mut input = model.to_vec();
            input.resize(nin as usize, 0);
            self.violations.push(Violation { kind: kind.to_string(), msg: msg.to_string(), input });
        }
    }

    // ---------- memory ----------
    fn load_bytes(&mut self, st: &State, a: u64, n: u64) -> Val {
        if let Some(v) = st.mem.read_conc(a, n) {
            return Val::C(v);
        }
        let mut r: Option<E> = None;
        for i in 0..n {
            let (v, e) = st.mem.get(a + i);
            let e = if e == 0 {
                self.pool.c(v as u64, 8)
            } else if let Some(&k) = st.bind.get(&e) {
                self.pool.c(k, 8)
            } else {
                e
            };
            r = Some(match r {
                None => e,
                Some(x) => self.pool.concat(e, x),
            });
        }
        let e = r.unwrap();
        if let Some(&k) = st.bind.get(&e) {
            return Val::C(k);
        }
        self.v(e)
    }

    fn store_bytes(&mut self, st: &mut State, a: u64, v: Val, n: u64) {
        match v {
            Val::C(x) => st.mem.write_conc(a, x, n),
            Val::S(e) => {
                for i in 0..n {
                    let b = self.pool.extract(e, (8 * i) as u8, 8);
                    match self.pool.as_const(b) {
                        Some(k) => st.mem.set(a + i, k as u8, 0),
                        None => st.mem.set(a + i, 0, b),
                    }
                }
            }
        }
    }

    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n {
            let (b, e) = st.mem.get(p + i);
            v.push(if e != 0 { self.pool.eval(e, &st.model, st.model_id) as u8 } else { b });
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn byte_e(&mut self, st: &State, a: u64) -> E {
        let v = self.load_bytes(st, a, 1);
        self.e(v, 8)
    }

    fn label(&mut self, s: String) -> u32 {
        if let Some(&i) = self.label_ids.get(&s) {
            return i;
        }
        let i = self.labels.len() as u32;
        self.labels.push(s.clone());
        self.label_ids.insert(s, i);
        i
    }

    // ---------- main loop ----------
    pub fn run_path(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = self.run(&mut st);
        self.steps += st.steps - s0;
        self.max_steps_seen = self.max_steps_seen.max(st.steps);
        self.max_nin = self.max_nin.max(st.nin);
        match r {
            Ok(()) => unreachable!(),
            Err(Stop::Pruned) => {
                *self.ends.entry("pruned".into()).or_insert(0) += 1;
            }
            Err(Stop::Late) => self.late += 1,
            Err(Stop::Inconclusive(s)) => {
                *self.inconclusive.entry(s).or_insert(0) += 1;
            }
            Err(Stop::End(s)) => {
                *self.ends.entry(s.clone()).or_insert(0) += 1;
                for c in &st.covers {
                    *self.covers.entry(*c).or_insert(0) += 1;
                }
                self.wit_seen += 1;
                let keep = self.witnesses.len() < self.max_wit;
                if keep || self.wit_seen % 97 == 0 {
                    let mut input = st.model.clone();
                    input.resize(st.nin as usize, 0);
                    let mut obs = vec![];
                    for i in 0..st.obs.len() {
                        let (b, e) = st.obs[i];
                        obs.push(if e != 0 { self.pool.eval(e, &st.model, st.model_id) as u8 } else { b });
                    }
                    let w = Witness { input, obs, end: s };
                    if keep {
                        self.witnesses.push(w);
                    } else {
                        let k = (self.wit_seen / 97) as usize % self.max_wit;
                        self.witnesses[k] = w;
                    }
                }
            }
        }
    }

    fn run(&mut self, st: &mut State) -> X<()> {
        let m = self.m;
        loop {
            let fr = *st.frames.last().unwrap();
            let fun = &m.funcs[fr.func as usize];
            let code = &fun.code;
            let mut pc = fr.pc as usize;
            let base = fr.base as usize;
            let opbase = base + fun.nlocals as usize;
            // inner loop: stay in this frame
            loop {
                st.steps += 1;
                if st.steps > self.max_steps {
                    let (mm, n) = (st.model.clone(), st.nin);
                    let at = m.funcs[fr.func as usize].name.clone();
                    let _ = at;
                    self.report("hang", "step budget exceeded", &mm, n);
                    return Err(Stop::End("hang".into()));
                }
                match &code[pc] {
                    I::LGet(i) => {
                        let v = st.stack[base + *i as usize];
                        st.stack.push(v);
                    }
                    I::LSet(i) => {
                        let v = st.stack.pop().unwrap();
                        st.stack[base + *i as usize] = v;
                    }
                    I::LTee(i) => {
                        let v = *st.stack.last().unwrap();
                        st.stack[base + *i as usize] = v;
                    }
                    I::Const(k) => st.stack.push(Val::C(*k)),
                    I::Num(op) => {
                        let op = *op;
                        if is_div(op) {
                            let d = *st.stack.last().unwrap();
                            let w = if op < 0x7c { 32 } else { 64 };
                            if let Val::S(e) = d {
                                let z = self.pool.c(0, w);
                                let c = self.pool.eq(e, z);
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                if self.decide(st, c)? {
                                    return self.trap(st, "division by zero");
                                }
                            } else if d == Val::C(0) {
                                return self.trap(st, "division by zero");
                            }
                        }
                        self.num(st, op)?
                    }
                    I::Load { op, off } => {
                        let a = *st.stack.last().unwrap();
                        let (n, _, _) = load_kind(*op);
                        let v = match a {
                            Val::C(x) => self.load_bytes(st, x.wrapping_add(*off), n),
                            Val::S(e) => {
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                self.load_sym(st, e, *off, n)?
                            }
                        };
                        let v = self.load_ext(v, *op);
                        *st.stack.last_mut().unwrap() = v;
                    }
                    I::Store { op, off } => {
                        let l = st.stack.len();
                        let a = st.stack[l - 2];
                        let x = match a {
                            Val::C(x) => x,
                            Val::S(_) => {
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                self.conc(st, a)?
                            }
                        };
                        let v = st.stack[l - 1];
                        let n = match op {
                            0x3a | 0x3c => 1,
                            0x3b | 0x3d => 2,
                            0x36 | 0x38 | 0x3e => 4,
                            _ => 8,
                        };
                        st.stack.truncate(l - 2);
                        let addr = x.wrapping_add(*off);
                        if addr < 1024 {
                            return self.trap(st, "store to null page");
                        }
                        self.store_bytes(st, addr, v, n);
                    }
                    I::Br(t) => {
                        adjust(&mut st.stack, opbase, t);
                        pc = t.pc as usize;
                        continue;
                    }
                    I::BrIf(t) => {
                        let c = *st.stack.last().unwrap();
                        let b = match c {
                            Val::C(x) => x as u32 != 0,
                            Val::S(e) => {
                                let z = self.pool.c(0, 32);
                                let q = self.pool.eq(e, z);
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                !self.decide(st, q)?
                            }
                        };
                        st.stack.pop();
                        if b {
                            adjust(&mut st.stack, opbase, t);
                            pc = t.pc as usize;
                            continue;
                        }
                    }
                    I::JmpZ(t) => {
                        let c = *st.stack.last().unwrap();
                        let b = match c {
                            Val::C(x) => x as u32 != 0,
                            Val::S(e) => {
                                let z = self.pool.c(0, 32);
                                let q = self.pool.eq(e, z);
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                !self.decide(st, q)?
                            }
                        };
                        st.stack.pop();
                        if !b {
                            pc = *t as usize;
                            continue;
                        }
                    }
                    I::Jmp(t) => {
                        pc = *t as usize;
                        continue;
                    }
                    I::BrTable(v) => {
                        let c = *st.stack.last().unwrap();
                        let k = match c {
                            Val::C(x) => (x as u32 as usize).min(v.len() - 1),
                            Val::S(e) => {
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                self.brtable(st, e, v)?
                            }
                        };
                        st.stack.pop();
                        let t = v[k];
                        adjust(&mut st.stack, opbase, &t);
                        pc = t.pc as usize;
                        continue;
                    }
                    I::Select(w) => {
                        let l = st.stack.len();
                        let c = st.stack[l - 1];
                        match c {
                            Val::C(x) => {
                                if x as u32 == 0 {
                                    st.stack[l - 3] = st.stack[l - 2];
                                }
                            }
                            Val::S(e) => {
                                let (a, b) = (st.stack[l - 3], st.stack[l - 2]);
                                let z = self.pool.c(0, 32);
                                let q = self.pool.eq(e, z);
                                if let Some(k) = self.quick(st, q) {
                                    if k {
                                        st.stack[l - 3] = b;
                                    }
                                } else if a != b {
                                    let (x, y) = (self.e(a, *w), self.e(b, *w));
                                    let r = self.pool.ite(q, y, x);
                                    st.stack[l - 3] = self.v(r);
                                }
                            }
                        }
                        st.stack.truncate(l - 2);
                    }
                    I::Drop => {
                        st.stack.pop();
                    }
                    I::GGet(i) => {
                        let v = st.globals[*i as usize];
                        st.stack.push(v);
                    }
                    I::GSet(i) => {
                        let v = st.stack.pop().unwrap();
                        st.globals[*i as usize] = v;
                    }
                    I::Call(f) => {
                        let f = *f;
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let g = &m.funcs[f as usize];
                        if let Some(nm) = &g.import {
                            self.host(st, nm, g.nparams as usize)?;
                            pc += 1;
                            continue;
                        }
                        if self.icpt[f as usize] != Icpt::None {
                            self.intercept(st, self.icpt[f as usize])?;
                            pc += 1;
                            continue;
                        }
                        st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                        self.enter(st, f);
                        break;
                    }
                    I::CallInd(ty) => {
                        let t = *st.stack.last().unwrap();
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let x = self.conc(st, t)?;
                        let f = m.table.get(x as usize).copied().unwrap_or(u32::MAX);
                        if f == u32::MAX {
                            return self.trap(st, "bad indirect call");
                        }
                        let g = &m.funcs[f as usize];
                        let (t1, t2) = (&m.types[g.ty as usize], &m.types[*ty as usize]);
                        if t1.params != t2.params || t1.results != t2.results {
                            return self.trap(st, "indirect call type mismatch");
                        }
                        st.stack.pop();
                        if let Some(nm) = &g.import {
                            self.host(st, nm, g.nparams as usize)?;
                            pc += 1;
                            continue;
                        }
                        st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                        self.enter(st, f);
                        break;
                    }
                    I::Return => {
                        let n = fun.nresults as usize;
                        let l = st.stack.len();
                        for i in 0..n {
                            st.stack[base + i] = st.stack[l - n + i];
                        }
                        st.stack.truncate(base + n);
                        st.frames.pop();
                        if st.frames.is_empty() {
                            return Err(Stop::End("ok".into()));
                        }
                        break;
                    }
                    I::MemSize => {
                        let v = st.mem_pages;
                        st.stack.push(Val::C(v));
                    }
                    I::MemGrow => {
                        let d = st.stack.pop().unwrap();
                        if let Val::C(d) = d {
                            let o = st.mem_pages;
                            st.mem_pages += d;
                            st.stack.push(Val::C(o));
                        } else {
                            return Err(Stop::Inconclusive("symbolic memory.grow".into()));
                        }
                    }
                    I::MemCopy => {
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        self.memcpy(st)?;
                        let l = st.stack.len();
                        st.stack.truncate(l - 3);
                    }
                    I::MemFill => {
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        self.memset(st)?;
                        let l = st.stack.len();
                        st.stack.truncate(l - 3);
                    }
                    I::Unreachable => return self.trap(st, "unreachable"),
                    I::TruncSat(_) => return Err(Stop::Inconclusive("float conversion".into())),
                    I::Bad(x) => return Err(Stop::Inconclusive(format!("bad instruction {x}"))),
                }
                pc += 1;
            }
        }
    }

    fn trap(&mut self, st: &State, what: &str) -> X<()> {
        let names: Vec<String> = st.frames.iter().rev().take(3).map(|f| short(&self.m.funcs[f.func as usize].name)).collect();
        let msg = format!("{what} in {}", names.join(" < "));
        self.report("trap", &msg, &st.model, st.nin);
        Err(Stop::End("trap".into()))
    }

    fn brtable(&mut self, st: &mut State, e: E, v: &[Tgt]) -> X<usize> {
        // group table slots by destination so that equal targets do not fork
        if let Some(&k) = st.bind.get(&e) {
            return Ok((k as usize).min(v.len() - 1));
        }
        let x = (self.eval(st, e) as u32 as usize).min(v.len() - 1);
        let dest = v[x].pc;
        let mut c = self.pool.ff();
        let mut i = 0;
        while i < v.len() {
            if v[i].pc == dest {
                let mut j = i;
                while j + 1 < v.len() && v[j + 1].pc == dest {
                    j += 1;
                }
                let lo = self.pool.c(i as u64, 32);
                let part = if j == v.len() - 1 {
                    self.pool.ule(lo, e)
                } else if i == j {
                    self.pool.eq(e, lo)
                } else {
                    let hi = self.pool.c(j as u64, 32);
                    let p = self.pool.ule(lo, e);
                    let q = self.pool.ule(e, hi);
                    self.pool.and(p, q)
                };
                c = self.pool.or(c, part);
                i = j + 1;
            } else {
                i += 1;
            }
        }
        if self.decide(st, c)? {
            Ok(x)
        } else {
            Err(Stop::Inconclusive("br_table".into()))
        }
    }

    /// (base constant, list of (condition, value)) when the address is a small decision tree
    fn leaves(&mut self, e: E, out: &mut Vec<u64>, budget: &mut u32) -> bool {
        if let Some(k) = self.pool.as_const(e) {
            out.push(k);
            return true;
        }
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let n = self.pool.n(e);
        match n.op {
            Op::Ite => self.leaves(n.b, out, budget) && self.leaves(n.c, out, budget),
            Op::Add => {
                if let Some(k) = self.pool.as_const(n.b) {
                    let s = out.len();
                    if !self.leaves(n.a, out, budget) {
                        return false;
                    }
                    for x in &mut out[s..] {
                        *x = x.wrapping_add(k) & mask(n.w);
                    }
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    }

    fn load_sym(&mut self, st: &mut State, e: E, off: u64, n: u64) -> X<Val> {
        if let Some(&k) = st.bind.get(&e) {
            return Ok(self.load_bytes(st, k.wrapping_add(off), n));
        }
        // decision tree of constant addresses
        let mut lv = vec![];
        let mut b = 24;
        if self.leaves(e, &mut lv, &mut b) && lv.len() <= 16 {
            lv.sort_unstable();
            lv.dedup();
            let mut r: Option<E> = None;
            for &a in &lv {
                let v = self.load_bytes(st, a.wrapping_add(off), n);
                let ve = self.e(v, (8 * n) as u8);
                r = Some(match r {
                    None => ve,
                    Some(x) => {
                        let k = self.pool.c(a, 64);
                        let c = self.pool.eq(e, k);
                        self.pool.ite(c, ve, x)
                    }
                });
            }
            let r = r.unwrap();
            return Ok(self.v(r));
        }
        if let Some(r) = self.load_affine(st, e, off, n) {
            return Ok(self.v(r));
        }
        // base + bounded offset
        let (mut lo, mut hi) = self.range(st, e);
        let nd = self.pool.n(e);
        if nd.op == Op::Add {
            if let Some(k) = self.pool.as_const(nd.b) {
                let (l, h) = self.range(st, nd.a);
                if let (Some(l), Some(h)) = (l.checked_add(k), h.checked_add(k)) {
                    lo = lo.max(l);
                    hi = hi.min(h);
                }
            }
        }
        // known-zero low bits give the stride (relative to an added constant base)
        let (z, b0) = match (nd.op, self.pool.as_const(nd.b)) {
            (Op::Add, Some(k)) => (self.pool.info[nd.a as usize].zeros, k),
            _ => (self.pool.info[e as usize].zeros, 0),
        };
        let step = 1u64 << z.trailing_ones().min(4);
        let lo = b0.wrapping_add((lo.wrapping_sub(b0).wrapping_add(step - 1)) / step * step);
        if hi >= lo && (hi - lo) / step < 1100 {
            // make sure that the bound used is implied by the path condition: `range` only
            // uses facts of this path, so it is
            let mut items: Vec<(u64, Val)> = vec![];
            let mut a = lo;
            while a <= hi {
                let v = self.load_bytes(st, a.wrapping_add(off), n);
                items.push((a, v));
                a += step;
            }
            // group equal values
            let mut groups: Vec<(Val, Vec<(u64, u64)>)> = vec![];
            let mut idx: HashMap<(u8, u64), usize> = HashMap::new();
            for (a, v) in items {
                let key = match v {
                    Val::C(x) => (0u8, x),
                    Val::S(x) => (1u8, x as u64),
                };
                let gi = *idx.entry(key).or_insert_with(|| {
                    groups.push((v, vec![]));
                    groups.len() - 1
                });
                let rs = &mut groups[gi].1;
                match rs.last_mut() {
                    Some(l) if l.1 + step == a => l.1 = a,
                    _ => rs.push((a, a)),
                }
            }
            groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
            let mut r: Option<E> = None;
            for (v, rs) in groups {
                let ve = self.e(v, (8 * n) as u8);
                r = Some(match r {
                    None => ve,
                    Some(x) => {
                        let mut c = self.pool.ff();
                        for (p, q) in rs {
                            let pk = self.pool.c(p, 64);
                            let part = if p == q {
                                self.pool.eq(e, pk)
                            } else {
                                let qk = self.pool.c(q, 64);
                                let s = self.pool.ule(pk, e);
                                let t = self.pool.ule(e, qk);
                                self.pool.and(s, t)
                            };
                            c = self.pool.or(c, part);
                        }
                        self.pool.ite(c, ve, x)
                    }
                });
            }
            let r = r.unwrap();
            return Ok(self.v(r));
        }
        let k = self.conc(st, Val::S(e))?;
        Ok(self.load_bytes(st, k.wrapping_add(off), n))
    }

    /// A load from constant data at base + sum of bounded atoms whose value is an affine function of
    /// the atoms (checked for all their values), such as a table of decimal digit pairs.
    fn load_affine(&mut self, st: &State, e: E, off: u64, n: u64) -> Option<E> {
        if n > 4 {
            return None;
        }
        let l = self.pool.lin(e)?;
        if l.terms.is_empty() || l.k < 0 || l.terms.len() > 4 {
            return None;
        }
        let rg: Vec<(u64, u64)> = l.terms.iter().map(|t| (self.pool.info[t.0 as usize].lo, self.pool.info[t.0 as usize].hi)).collect();
        let mut count = 1u64;
        for r in &rg {
            count = count.checked_mul((r.1 - r.0).checked_add(1)?)?;
            if count > 1200 {
                return None;
            }
        }
        let at = |x: &Vec<u64>| -> Option<i128> {
            let mut a = l.k;
            for (t, v) in l.terms.iter().zip(x) {
                a += t.1 * *v as i128;
            }
            if a < 0 || a > u64::MAX as i128 {
                return None;
            }
            let a = (a as u64).wrapping_add(off);
            let mut v = 0u64;
            for i in 0..n {
                match st.mem.get(a + i) {
                    (b, 0) => v |= (b as u64) << (8 * i),
                    _ => return None,
                }
            }
            Some(v as i128)
        };
        let base: Vec<u64> = rg.iter().map(|r| r.0).collect();
        let f0 = at(&base)?;
        let mut slope = vec![];
        for i in 0..rg.len() {
            let mut x = base.clone();
            x[i] = rg[i].0 + 1;
            let s = at(&x)? - f0;
            if s < 0 {
                return None;
            }
            slope.push(s);
        }
        let mut x = base.clone();
        loop {
            let mut want = f0;
            for i in 0..x.len() {
                want += slope[i] * (x[i] - base[i]) as i128;
            }
            if at(&x)? != want {
                return None;
            }
            let mut i = 0;
            while i < x.len() && x[i] == rg[i].1 {
                x[i] = base[i];
                i += 1;
            }
            if i == x.len() {
                break;
            }
            x[i] += 1;
        }
        let mut k = f0;
        for i in 0..x.len() {
            k -= slope[i] * base[i] as i128;
        }
        let terms = l.terms.iter().zip(&slope).filter(|t| *t.1 != 0).map(|(t, s)| (t.0, *s)).collect();
        self.pool.lin_build(&Lin::new(k, terms), (8 * n) as u8)
    }

    fn load_ext(&mut self, v: Val, op: u8) -> Val {
        let (n, w, signed) = load_kind(op);
        match v {
            Val::C(x) => {
                if signed {
                    Val::C(sext(x, (8 * n) as u8) as u64 & mask(w))
                } else {
                    Val::C(x)
                }
            }
            Val::S(e) => {
                let r = if (8 * n) as u8 == w {
                    e
                } else if signed {
                    self.pool.sext(e, w)
                } else {
                    self.pool.zext(e, w)
                };
                self.v(r)
            }
        }
    }

    fn memcpy(&mut self, st: &mut State) -> X<()> {
        let l = st.stack.len();
        let (d, s, n) = (st.stack[l - 3], st.stack[l - 2], st.stack[l - 1]);
        let n = self.conc(st, n)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d)?;
        let s = self.conc(st, s)?;
        if n > 1 << 24 {
            return Err(Stop::Inconclusive("huge memory copy".into()));
        }
        let buf: Vec<(u8, E)> = (0..n).map(|i| st.mem.get(s + i)).collect();
        for (i, (b, e)) in buf.into_iter().enumerate() {
            st.mem.set(d + i as u64, b, e);
        }
        st.steps += n / 8;
        Ok(())
    }

    fn memset(&mut self, st: &mut State) -> X<()> {
        let l = st.stack.len();
        let (d, v, n) = (st.stack[l - 3], st.stack[l - 2], st.stack[l - 1]);
        let n = self.conc(st, n)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d)?;
        if n > 1 << 24 {
            return Err(Stop::Inconclusive("huge memory fill".into()));
        }
        let (b, e) = match v {
            Val::C(x) => (x as u8, 0),
            Val::S(e) => {
                let x = self.pool.extract(e, 0, 8);
                match self.pool.as_const(x) {
                    Some(k) => (k as u8, 0),
                    None => (0, x),
                }
            }
        };
        for i in 0..n {
            st.mem.set(d + i, b, e);
        }
        st.steps += n / 8;
        Ok(())
    }

    fn intercept(&mut self, st: &mut State, k: Icpt) -> X<()> {
        let l = st.stack.len();
        match k {
            Icpt::Memcpy => {
                self.memcpy(st)?;
                st.stack.truncate(l - 2); // returns dst
            }
            Icpt::Memset => {
                self.memset(st)?;
                st.stack.truncate(l - 2);
            }
            Icpt::Memcmp => {
                let (a, b, n) = (st.stack[l - 3], st.stack[l - 2], st.stack[l - 1]);
                let n = self.conc(st, n)?;
                let mut r = self.pool.c(0, 32);
                if n > 0 {
                    let a = self.conc(st, a)?;
                    let b = self.conc(st, b)?;
                    for i in (0..n).rev() {
                        let x = self.byte_e(st, a + i);
                        let y = self.byte_e(st, b + i);
                        let q = self.pool.eq(x, y);
                        let x = self.pool.zext(x, 32);
                        let y = self.pool.zext(y, 32);
                        let d = self.pool.sub(x, y);
                        r = self.pool.ite(q, r, d);
                    }
                }
                // keep the common "== 0" test a plain conjunction
                if n > 0 {
                    let a = self.conc(st, st.stack[l - 3])?;
                    let b = self.conc(st, st.stack[l - 2])?;
                    let mut all = self.pool.tt();
                    for i in 0..n {
                        let x = self.byte_e(st, a + i);
                        let y = self.byte_e(st, b + i);
                        let q = self.pool.eq(x, y);
                        all = self.pool.and(all, q);
                    }
                    let z = self.pool.c(0, 32);
                    r = self.pool.ite(all, z, r);
                }
                st.stack.truncate(l - 3);
                let v = self.v(r);
                st.stack.push(v);
            }
            Icpt::None => unreachable!(),
        }
        Ok(())
    }

    /// Symbolic UTF-8 validity of a byte string (RFC 3629 automaton, unrolled).
    fn utf8_ok(&mut self, bytes: &[E]) -> E {
        // states: 0 ok, 1 one more, 2 two more, 3 three more, 4 after E0, 5 after ED, 6 after F0, 7 after F4, 8 error
        let mut cur: Vec<E> = vec![];
        let (tt, ff) = (self.pool.tt(), self.pool.ff());
        for i in 0..9 {
            cur.push(if i == 0 { tt } else { ff });
        }
        for &b in bytes {
            let inr = |p: &mut Pool, lo: u64, hi: u64| -> E {
                let l = p.c(lo, 8);
                let h = p.c(hi, 8);
                if lo == hi {
                    return p.eq(b, l);
                }
                let x = p.ule(l, b);
                let y = p.ule(b, h);
                p.and(x, y)
            };
            let p = &mut self.pool;
            let ascii = inr(p, 0, 0x7f);
            let c2df = inr(p, 0xc2, 0xdf);
            let e0 = inr(p, 0xe0, 0xe0);
            let e1ec = inr(p, 0xe1, 0xec);
            let ed = inr(p, 0xed, 0xed);
            let eeef = inr(p, 0xee, 0xef);
            let f0 = inr(p, 0xf0, 0xf0);
            let f1f3 = inr(p, 0xf1, 0xf3);
            let f4 = inr(p, 0xf4, 0xf4);
            let cont = inr(p, 0x80, 0xbf);
            let a0bf = inr(p, 0xa0, 0xbf);
            let x809f = inr(p, 0x80, 0x9f);
            let x90bf = inr(p, 0x90, 0xbf);
            let x808f = inr(p, 0x80, 0x8f);
            let mut nx = vec![p.ff(); 9];
            let tr = |p: &mut Pool, nx: &mut Vec<E>, from: E, c: E, to: usize| {
                let t = p.and(from, c);
                nx[to] = p.or(nx[to], t);
            };
            tr(p, &mut nx, cur[0], ascii, 0);
            tr(p, &mut nx, cur[0], c2df, 1);
            tr(p, &mut nx, cur[0], e0, 4);
            let e = p.or(e1ec, eeef);
            tr(p, &mut nx, cur[0], e, 2);
            tr(p, &mut nx, cur[0], ed, 5);
            tr(p, &mut nx, cur[0], f0, 6);
            tr(p, &mut nx, cur[0], f1f3, 3);
            tr(p, &mut nx, cur[0], f4, 7);
            tr(p, &mut nx, cur[1], cont, 0);
            tr(p, &mut nx, cur[2], cont, 1);
            tr(p, &mut nx, cur[3], cont, 2);
            tr(p, &mut nx, cur[4], a0bf, 1);
            tr(p, &mut nx, cur[5], x809f, 1);
            tr(p, &mut nx, cur[6], x90bf, 2);
            tr(p, &mut nx, cur[7], x808f, 2);
            cur = nx;
        }
        cur[0]
    }

    // ---------- host functions ----------
    fn host(&mut self, st: &mut State, name: &str, np: usize) -> X<()> {
        let l = st.stack.len();
        let args: Vec<Val> = st.stack[l - np..].to_vec();
        let mut ret: Option<Val> = None;
        match name {
            "vp_alloc" => {
                let (size, align) = (args[0], args[1]);
                let align = self.conc(st, align)?.max(16);
                let bound = match size {
                    Val::C(x) => x,
                    Val::S(e) => {
                        let lim = self.pool.c(st.limit, 64);
                        let big = self.pool.ult(lim, e);
                        if self.decide(st, big)? {
                            // prefer a model that the native allocator refuses for certain
                            let t = self.pool.c(1 << 47, 64);
                            let c = self.pool.ule(t, e);
                            if let Res::Sat(a) = self.slv.check(&mut self.pool, &st.pc, c) {
                                self.constrain(st, c);
                                self.apply_model(st, &a);
                            }
                            let at = self.where_(st);
                            self.report("alloc", &format!("allocation of more than {} bytes requested{at}", st.limit), &st.model.clone(), st.nin);
                            return Err(Stop::End("alloc".into()));
                        }
                        self.range(st, e).1.min(st.limit)
                    }
                };
                if bound > st.limit {
                    let at = self.where_(st);
                    self.report("alloc", &format!("allocation of more than {} bytes requested{at}", st.limit), &st.model.clone(), st.nin);
                    return Err(Stop::End("alloc".into()));
                }
                let a = (st.brk + align - 1) / align * align;
                st.brk = a + bound.max(1);
                ret = Some(Val::C(a));
            }
            "vp_limit" => {
                st.limit = self.conc(st, args[0])?;
            }
            "vp_any_u8" => {
                let e = self.pool.var(st.nin);
                st.nin += 1;
                ret = Some(Val::S(self.pool.zext(e, 32)));
            }
            "vp_any_below" => {
                let n = self.conc(st, args[0])?;
                let raw = self.pool.var(st.nin);
                if n == 0 || n > 255 {
                    return Err(Stop::Inconclusive("bad bound".into()));
                }
                let k = self.pool.c(n, 8);
                let c = self.pool.ult(raw, k);
                if self.quick(st, c).is_none() {
                    // the variable is fresh: always satisfiable
                    if self.eval(st, c) != 1 {
                        self.apply_model(st, &[(st.nin, 0)]);
                    }
                    self.constrain(st, c);
                }
                let e = self.pool.var_below(st.nin, n);
                st.nin += 1;
                let z = self.pool.zext(e, 32);
                ret = Some(self.v(z));
            }
            "vp_any_bytes" => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                for i in 0..n {
                    let e = self.pool.var(st.nin);
                    st.nin += 1;
                    st.mem.set(p + i, 0, e);
                }
            }
            "vp_choose" => {
                let n = self.conc(st, args[0])?;
                let e = self.pool.var(st.nin);
                let k = self.pool.c(n, 8);
                let c = self.pool.ult(e, k);
                if n < 256 && self.quick(st, c).is_none() {
                    // the variable is fresh: always satisfiable
                    let cur = self.eval(st, c);
                    if cur != 1 {
                        self.apply_model(st, &[(st.nin, 0)]);
                    }
                    self.constrain(st, c);
                }
                let v = self.conc(st, Val::S(e))?;
                st.nin += 1;
                ret = Some(Val::C(v));
            }
            "vp_pin" => {
                let v = self.conc(st, args[0])?;
                ret = Some(Val::C(v));
            }
            "vp_assume" => {
                let e = self.e(args[0], 32);
                let z = self.pool.c(0, 32);
                let q = self.pool.eq(e, z);
                let c = self.pool.not(q);
                self.assume(st, c)?;
            }
            "vp_check" => {
                let e = self.e(args[0], 32);
                let z = self.pool.c(0, 32);
                let q = self.pool.eq(e, z);
                let c = self.pool.not(q);
                self.check(st, c, args[1], args[2])?;
            }
            "vp_check_eq" => {
                let an = self.conc(st, args[1])?;
                let bn = self.conc(st, args[3])?;
                let mut c = self.pool.tt();
                if an != bn {
                    c = self.pool.ff();
                } else if an > 0 {
                    let a = self.conc(st, args[0])?;
                    let b = self.conc(st, args[2])?;
                    for i in 0..an {
                        let x = self.byte_e(st, a + i);
                        let y = self.byte_e(st, b + i);
                        let q = self.pool.eq(x, y);
                        if self.trace_branches && self.pool.as_const(q).is_none() {
                            eprintln!("BRANCH check_eq {}", self.pool.show(q, 12));
                        }
                        c = self.pool.and(c, q);
                    }
                }
                self.check(st, c, args[4], args[5])?;
            }
            "vp_cover" => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                let s = self.str_at(st, p, n);
                let i = self.label(s);
                st.covers.insert(i);
            }
            "vp_observe" => {
                let n = self.conc(st, args[1])?;
                let p = if n > 0 { self.conc(st, args[0])? } else { 0 };
                for i in 0..n {
                    let x = st.mem.get(p + i);
                    st.obs.push(x);
                }
            }
            "vp_utf8" => {
                let n = self.conc(st, args[1])?;
                let p = if n > 0 { self.conc(st, args[0])? } else { 0 };
                let mut bs = vec![];
                for i in 0..n {
                    bs.push(self.byte_e(st, p + i));
                }
                let ok = self.utf8_ok(&bs);
                let r = self.pool.zext(ok, 32);
                ret = Some(self.v(r));
            }
            "vp_panic" => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                let line = self.conc(st, args[2])?;
                let f = self.str_at(st, p, n);
                let at = self.where_(st);
                let f = f.rsplit("/library/").next().unwrap().to_string();
                let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
                self.report("panic", &format!("panic at {f}:{line}{at}"), &st.model.clone(), st.nin);
                return Err(Stop::End("panic".into()));
            }
            "vp_log" => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                let s = self.str_at(st, p, n);
                eprintln!("LOG {s}");
            }
            _ => {
                eprintln!("unknown import {name}");
                return Err(Stop::Inconclusive(format!("unknown import {name}")));
            }
        }
        let l = st.stack.len();
        st.stack.truncate(l - np);
        if let Some(r) = ret {
            st.stack.push(r);
        }
        Ok(())
    }

    /// Innermost frames belonging to the code under test.
    fn where_(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![];
        for f in st.frames.iter().rev() {
            let n = &self.m.funcs[f.func as usize].name;
            if n.contains("mysql_cdc") && !n.contains("harness") {
                v.push(short(n));
                if v.len() == 2 {
                    break;
                }
            }
        }
        if v.is_empty() {
            String::new()
        } else {
            format!(" in {}", v.join(" < "))
        }
    }

    fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        match self.quick(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Pruned),
            None => {}
        }
        if self.eval(st, c) == 1 {
            self.constrain(st, c);
            return Ok(());
        }
        self.on_time()?;
        match self.slv.check(&mut self.pool, &st.pc, c) {
            Res::Unsat => Err(Stop::Pruned),
            Res::Sat(a) => {
                self.constrain(st, c);
                self.apply_model(st, &a);
                Ok(())
            }
            Res::Unknown => Err(Stop::Inconclusive("solver returned unknown on an assumption".into())),
        }
    }

    fn check(&mut self, st: &mut State, c: E, mp: Val, ml: Val) -> X<()> {
        self.checks += 1;
        if self.quick(st, c) == Some(true) {
            return Ok(());
        }
        let p = self.conc(st, mp)?;
        let n = self.conc(st, ml)?;
        let msg = self.str_at(st, p, n);
        let nc = self.pool.not(c);
        self.on_time()?;
        match self.slv.check(&mut self.pool, &st.pc, nc) {
            Res::Unsat => {
                self.add_fact(st, c, true);
                Ok(())
            }
            Res::Sat(a) => {
                let mut m = st.model.clone();
                for &(v, b) in &a {
                    if v as usize >= m.len() {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = b;
                }
                self.report("check", &msg, &m, st.nin);
                match self.assume(st, c) {
                    Err(Stop::Pruned) => Err(Stop::End("check failed".into())),
                    r => r,
                }
            }
            Res::Unknown => {
                *self.inconclusive.entry(format!("solver returned unknown on check: {msg}")).or_insert(0) += 1;
                self.assume(st, c)
            }
        }
    }

    // ---------- numeric instructions ----------
    fn num(&mut self, st: &mut State, op: u8) -> X<()> {
        let l = st.stack.len();
        let unary = matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
        if unary {
            let a = st.stack[l - 1];
            let r = match a {
                Val::C(x) => Val::C(un_conc(op, x).ok_or_else(|| Stop::Inconclusive(format!("float instruction {op:#x}")))?),
                Val::S(e) => {
                    let r = self.un_sym(op, e)?;
                    self.v(r)
                }
            };
            st.stack[l - 1] = r;
            return Ok(());
        }
        let (a, b) = (st.stack[l - 2], st.stack[l - 1]);
        st.stack.truncate(l - 1);
        let r = match (a, b) {
            (Val::C(x), Val::C(y)) => match bin_conc(op, x, y) {
                Some(v) => Val::C(v),
                None => return Err(Stop::Inconclusive(format!("instruction {op:#x}"))),
            },
            _ => {
                let w: u8 = if op_is64(op) { 64 } else { 32 };
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.bin_sym(op, x, y, w)?;
                self.v(r)
            }
        };
        st.stack[l - 2] = r;
        Ok(())
    }

    fn un_sym(&mut self, op: u8, e: E) -> X<E> {
        let p = &mut self.pool;
        let w = p.w(e);
        Ok(match op {
            0x45 | 0x50 => {
                let z = p.c(0, w);
                let q = p.eq(e, z);
                p.zext(q, 32)
            }
            0x67 | 0x79 => {
                // clz
                let mut r = p.c(w as u64, w);
                for i in 0..w {
                    let b = p.extract(e, i, 1);
                    let k = p.c((w - 1 - i) as u64, w);
                    r = p.ite(b, k, r);
                }
                r
            }
            0x68 | 0x7a => {
                let mut r = p.c(w as u64, w);
                for i in (0..w).rev() {
                    let b = p.extract(e, i, 1);
                    let k = p.c(i as u64, w);
                    r = p.ite(b, k, r);
                }
                r
            }
            0x69 | 0x7b => {
                let mut r = p.c(0, w);
                for i in 0..w {
                    let b = p.extract(e, i, 1);
                    let z = p.zext(b, w);
                    r = p.add(r, z);
                }
                r
            }
            0xa7 => p.extract(e, 0, 32),
            0xac => p.sext(e, 64),
            0xad => p.zext(e, 64),
            0xbc..=0xbf => e, // reinterpret
            0xc0 => {
                let x = p.extract(e, 0, 8);
                p.sext(x, 32)
            }
            0xc1 => {
                let x = p.extract(e, 0, 16);
                p.sext(x, 32)
            }
            0xc2 => {
                let x = p.extract(e, 0, 8);
                p.sext(x, 64)
            }
            0xc3 => {
                let x = p.extract(e, 0, 16);
                p.sext(x, 64)
            }
            0xc4 => {
                let x = p.extract(e, 0, 32);
                p.sext(x, 64)
            }
            _ => return Err(Stop::Inconclusive(format!("symbolic float instruction {op:#x}"))),
        })
    }

    fn bin_sym(&mut self, op: u8, x: E, y: E, w: u8) -> X<E> {
        let p = &mut self.pool;
        let cmp = |p: &mut Pool, c: E| p.zext(c, 32);
        let o = if (0x46..=0x4f).contains(&op) {
            op - 0x46
        } else if (0x51..=0x5a).contains(&op) {
            op - 0x51
        } else {
            99
        };
        if o != 99 {
            let c = match o {
                0 => p.eq(x, y),
                1 => {
                    let q = p.eq(x, y);
                    p.not(q)
                }
                2 => p.slt(x, y),
                3 => p.ult(x, y),
                4 => p.slt(y, x),
                5 => p.ult(y, x),
                6 => p.sle(x, y),
                7 => p.ule(x, y),
                8 => p.sle(y, x),
                _ => p.ule(y, x),
            };
            return Ok(cmp(p, c));
        }
        let o = if (0x6a..=0x78).contains(&op) {
            op - 0x6a
        } else if (0x7c..=0x8a).contains(&op) {
            op - 0x7c
        } else {
            return Err(Stop::Inconclusive(format!("symbolic instruction {op:#x}")));
        };
        let km = p.c(w as u64 - 1, w);
        Ok(match o {
            0 => p.add(x, y),
            1 => p.sub(x, y),
            2 => p.mul(x, y),
            3 => p.sdiv(x, y),
            4 => p.udiv(x, y),
            5 => p.srem(x, y),
            6 => p.urem(x, y),
            7 => p.and(x, y),
            8 => p.or(x, y),
            9 => p.xor(x, y),
            10 => {
                let s = p.and(y, km);
                p.shift(Op::Shl, x, s)
            }
            11 => {
                let s = p.and(y, km);
                p.shift(Op::AShr, x, s)
            }
            12 => {
                let s = p.and(y, km);
                p.shift(Op::LShr, x, s)
            }
            13 => {
                let s = p.and(y, km);
                p.rotl(x, s)
            }
            _ => {
                let s = p.and(y, km);
                let wk = p.c(w as u64, w);
                let t = p.sub(wk, s);
                let t = p.and(t, km);
                p.rotl(x, t)
            }
        })
    }
}

pub fn short(n: &str) -> String {
    // strip the v0/legacy hash decorations lightly
    let mut s = n.to_string();
    if let Some(i) = s.rfind("::h") {
        if s.len() - i == 19 {
            s.truncate(i);
        }
    }
    s
}

fn adjust(stack: &mut Vec<Val>, opbase: usize, t: &Tgt) {
    let h = opbase + t.height as usize;
    let n = t.arity as usize;
    let l = stack.len();
    if h + n != l {
        for i in 0..n {
            stack[h + i] = stack[l - n + i];
        }
        stack.truncate(h + n);
    }
}

fn op_is64(op: u8) -> bool {
    matches!(op, 0x50..=0x5a | 0x79..=0x8a | 0x61..=0x66 | 0x99..=0xa6)
}
fn is_div(op: u8) -> bool {
    matches!(op, 0x6d..=0x70 | 0x7f..=0x82)
}

/// (bytes, result width, sign extended)
fn load_kind(op: u8) -> (u64, u8, bool) {
    match op {
        0x28 | 0x2a => (4, 32, false),
        0x29 | 0x2b => (8, 64, false),
        0x2c => (1, 32, true),
        0x2d => (1, 32, false),
        0x2e => (2, 32, true),
        0x2f => (2, 32, false),
        0x30 => (1, 64, true),
        0x31 => (1, 64, false),
        0x32 => (2, 64, true),
        0x33 => (2, 64, false),
        0x34 => (4, 64, true),
        _ => (4, 64, false),
    }
}

fn un_conc(op: u8, x: u64) -> Option<u64> {
    Some(match op {
        0x45 => (x as u32 == 0) as u64,
        0x50 => (x == 0) as u64,
        0x67 => (x as u32).leading_zeros() as u64,
        0x68 => (x as u32).trailing_zeros() as u64,
        0x69 => (x as u32).count_ones() as u64,
        0x79 => x.leading_zeros() as u64,
        0x7a => x.trailing_zeros() as u64,
        0x7b => x.count_ones() as u64,
        0xa7 => x as u32 as u64,
        0xac => x as u32 as i32 as i64 as u64,
        0xad => x as u32 as u64,
        0xbc..=0xbf => x,
        0xc0 => x as u8 as i8 as i32 as u32 as u64,
        0xc1 => x as u16 as i16 as i32 as u32 as u64,
        0xc2 => x as u8 as i8 as i64 as u64,
        0xc3 => x as u16 as i16 as i64 as u64,
        0xc4 => x as u32 as i32 as i64 as u64,
        _ => return None,
    })
}

fn bin_conc(op: u8, x: u64, y: u64) -> Option<u64> {
    if (0x46..=0x4f).contains(&op) {
        let (a, b) = (x as u32, y as u32);
        let (s, t) = (a as i32, b as i32);
        return Some(
            (match op - 0x46 {
                0 => a == b,
                1 => a != b,
                2 => s < t,
                3 => a < b,
                4 => s > t,
                5 => a > b,
                6 => s <= t,
                7 => a <= b,
                8 => s >= t,
                _ => a >= b,
            }) as u64,
        );
    }
    if (0x51..=0x5a).contains(&op) {
        let (a, b) = (x, y);
        let (s, t) = (a as i64, b as i64);
        return Some(
            (match op - 0x51 {
                0 => a == b,
                1 => a != b,
                2 => s < t,
                3 => a < b,
                4 => s > t,
                5 => a > b,
                6 => s <= t,
                7 => a <= b,
                8 => s >= t,
                _ => a >= b,
            }) as u64,
        );
    }
    if (0x6a..=0x78).contains(&op) {
        let (a, b) = (x as u32, y as u32);
        return Some(match op - 0x6a {
            0 => a.wrapping_add(b),
            1 => a.wrapping_sub(b),
            2 => a.wrapping_mul(b),
            3 => (a as i32).checked_div(b as i32)? as u32,
            4 => a.checked_div(b)?,
            5 => (a as i32).wrapping_rem(b as i32) as u32,
            6 => a.checked_rem(b)?,
            7 => a & b,
            8 => a | b,
            9 => a ^ b,
            10 => a.wrapping_shl(b),
            11 => (a as i32).wrapping_shr(b) as u32,
            12 => a.wrapping_shr(b),
            13 => a.rotate_left(b & 31),
            _ => a.rotate_right(b & 31),
        } as u64);
    }
    if (0x7c..=0x8a).contains(&op) {
        let (a, b) = (x, y);
        return Some(match op - 0x7c {
            0 => a.wrapping_add(b),
            1 => a.wrapping_sub(b),
            2 => a.wrapping_mul(b),
            3 => (a as i64).checked_div(b as i64)? as u64,
            4 => a.checked_div(b)?,
            5 => (a as i64).wrapping_rem(b as i64) as u64,
            6 => a.checked_rem(b)?,
            7 => a & b,
            8 => a | b,
            9 => a ^ b,
            10 => a.wrapping_shl(b as u32),
            11 => (a as i64).wrapping_shr(b as u32) as u64,
            12 => a.wrapping_shr(b as u32),
            13 => a.rotate_left((b & 63) as u32),
            _ => a.rotate_right((b & 63) as u32),
        });
    }
    None
}
