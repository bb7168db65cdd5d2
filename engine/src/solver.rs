//! z3 back end: path-condition slicing, query cache and model reuse.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, k: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, k: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {e}");
    std::process::abort();
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u8)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    slv: P,
    ast: HashMap<E, P>,
    sorts: HashMap<u8, P>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    recent: Vec<(u64, Vec<u8>)>,
    next_model: u64,
    pub dump: Option<(String, u64)>, // directory, every n-th query
    pub dumped: u64,
    nfresh: u32,
    pub slow: Vec<(f64, String)>,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, slv, p);
            Solver {
                ctx,
                slv,
                ast: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                model_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                recent: vec![],
                next_model: 1,
                dump: None,
                dumped: 0,
                nfresh: 0,
                slow: vec![],
            }
        }
    }

    pub fn fresh_model_id(&mut self) -> u64 {
        self.next_model += 1;
        self.next_model
    }

    pub fn remember(&mut self, id: u64, m: &[u8]) {
        if self.recent.iter().any(|(i, _)| *i == id) {
            return;
        }
        if self.recent.len() >= 4 {
            self.recent.remove(0);
        }
        self.recent.push((id, m.to_vec()));
    }

    fn sort(&mut self, w: u8) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w as c_uint);
            Z3_inc_ref(ctx, s);
            s
        })
    }

    fn fresh(&mut self, w: u8) -> P {
        self.nfresh += 1;
        let nm = CString::new(format!("aux{}", self.nfresh)).unwrap();
        let s = self.sort(w);
        unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), s) }
    }

    /// Width-1 expressions are translated to Bool, others to bit-vectors.
    fn tr(&mut self, pool: &Pool, root: E) -> P {
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if self.ast.contains_key(&e) {
                stack.pop();
                continue;
            }
            let n = pool.n(e);
            let kids: &[E] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                if !self.ast.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = self.build(pool, n);
            unsafe { Z3_inc_ref(self.ctx, a) };
            self.ast.insert(e, a);
            stack.pop();
        }
        self.ast[&root]
    }

    fn b2v(&mut self, b: P) -> P {
        let s = self.sort(1);
        unsafe { Z3_mk_ite(self.ctx, b, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s)) }
    }

    fn build(&mut self, pool: &Pool, n: Node) -> P {
        let c = self.ctx;
        let ka = self.ast.get(&n.a).copied();
        let kb = self.ast.get(&n.b).copied();
        let kc = self.ast.get(&n.c).copied();
        let aw = pool.w(n.a);
        let bw = pool.w(n.b);
        unsafe {
            // operands as bit-vectors even when one bit wide
            macro_rules! va {
                () => {
                    if aw == 1 {
                        self.b2v(ka.unwrap())
                    } else {
                        ka.unwrap()
                    }
                };
            }
            macro_rules! vb {
                () => {
                    if bw == 1 {
                        self.b2v(kb.unwrap())
                    } else {
                        kb.unwrap()
                    }
                };
            }
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = self.sort(n.w);
                        Z3_mk_unsigned_int64(c, n.k, s)
                    }
                }
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as u32 as c_int), s)
                }
                Op::Add => Z3_mk_bvadd(c, ka.unwrap(), kb.unwrap()),
                Op::Mul => Z3_mk_bvmul(c, ka.unwrap(), kb.unwrap()),
                Op::UDiv | Op::URem => {
                    if let Some(y) = pool.as_const(n.b) {
                        if y != 0 && n.w > 1 {
                            // x = q*y + r, r < y, q <= max/y : exact definition of unsigned division
                            let other = (n.a, n.b);
                            let (q, r) = self.divpair(pool, other, n.w, y, ka.unwrap());
                            return if n.op == Op::UDiv { q } else { r };
                        }
                    }
                    if n.op == Op::UDiv {
                        Z3_mk_bvudiv(c, ka.unwrap(), kb.unwrap())
                    } else {
                        Z3_mk_bvurem(c, ka.unwrap(), kb.unwrap())
                    }
                }
                Op::SDiv => Z3_mk_bvsdiv(c, ka.unwrap(), kb.unwrap()),
                Op::SRem => Z3_mk_bvsrem(c, ka.unwrap(), kb.unwrap()),
                Op::And => {
                    if n.w == 1 {
                        let v = [ka.unwrap(), kb.unwrap()];
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_bvand(c, ka.unwrap(), kb.unwrap())
                    }
                }
                Op::Or => {
                    if n.w == 1 {
                        let v = [ka.unwrap(), kb.unwrap()];
                        Z3_mk_or(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_bvor(c, ka.unwrap(), kb.unwrap())
                    }
                }
                Op::Xor => {
                    if n.w == 1 {
                        Z3_mk_xor(c, ka.unwrap(), kb.unwrap())
                    } else {
                        Z3_mk_bvxor(c, ka.unwrap(), kb.unwrap())
                    }
                }
                Op::Not => {
                    if n.w == 1 {
                        Z3_mk_not(c, ka.unwrap())
                    } else {
                        Z3_mk_bvnot(c, ka.unwrap())
                    }
                }
                Op::Shl => Z3_mk_bvshl(c, ka.unwrap(), kb.unwrap()),
                Op::LShr => Z3_mk_bvlshr(c, ka.unwrap(), kb.unwrap()),
                Op::AShr => Z3_mk_bvashr(c, ka.unwrap(), kb.unwrap()),
                Op::Extract => {
                    let x = Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, va!());
                    if n.w == 1 {
                        let s = self.sort(1);
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s))
                    } else {
                        x
                    }
                }
                Op::Concat => {
                    let x = va!();
                    let y = vb!();
                    Z3_mk_concat(c, x, y)
                }
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - aw) as c_uint, va!()),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - aw) as c_uint, va!()),
                Op::Ite => Z3_mk_ite(c, ka.unwrap(), kb.unwrap(), kc.unwrap()),
                Op::Eq => Z3_mk_eq(c, ka.unwrap(), kb.unwrap()),
                Op::Ult => {
                    let (x, y) = (va!(), vb!());
                    Z3_mk_bvult(c, x, y)
                }
                Op::Ule => {
                    let (x, y) = (va!(), vb!());
                    Z3_mk_bvule(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (va!(), vb!());
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Sle => {
                    let (x, y) = (va!(), vb!());
                    Z3_mk_bvsle(c, x, y)
                }
            }
        }
    }

    /// Quotient/remainder of a node by a constant, as fresh constants with a defining constraint
    /// remembered under the dividend (collected again by `defs`).
    fn divpair(&mut self, _pool: &Pool, key: (E, E), w: u8, y: u64, x: P) -> (P, P) {
        let id = (key.0, key.1);
        if let Some(v) = DIVS.with(|d| d.borrow().get(&id).copied()) {
            return (v.0 as P, v.1 as P);
        }
        unsafe {
            let c = self.ctx;
            let q = self.fresh(w);
            let r = self.fresh(w);
            let s = self.sort(w);
            let yy = Z3_mk_unsigned_int64(c, y, s);
            let sum = Z3_mk_bvadd(c, Z3_mk_bvmul(c, q, yy), r);
            let qm = Z3_mk_unsigned_int64(c, mask(w) / y, s);
            let parts = [Z3_mk_eq(c, x, sum), Z3_mk_bvult(c, r, yy), Z3_mk_bvule(c, q, qm)];
            // q*y + r must not wrap: q < max/y, or q == max/y and r <= max - q*y
            let lim = Z3_mk_unsigned_int64(c, mask(w) - (mask(w) / y) * y, s);
            let nw = [Z3_mk_not(c, Z3_mk_eq(c, q, qm)), Z3_mk_bvule(c, r, lim)];
            let nowrap = Z3_mk_or(c, 2, nw.as_ptr());
            let all = [parts[0], parts[1], parts[2], nowrap];
            let def = Z3_mk_and(c, 4, all.as_ptr());
            for z in [q, r, def] {
                Z3_inc_ref(c, z);
            }
            DIVS.with(|d| d.borrow_mut().insert(id, (q as usize, r as usize, def as usize)));
            (q, r)
        }
    }

    fn defs(&self, pool: &Pool, roots: &[E], out: &mut Vec<P>) {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = roots.to_vec();
        let mut ds = std::collections::HashSet::new();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = pool.n(e);
            if matches!(n.op, Op::UDiv | Op::URem) && pool.as_const(n.b).map_or(false, |y| y != 0) {
                if ds.insert((n.a, n.b)) {
                    if let Some(v) = DIVS.with(|d| d.borrow().get(&(n.a, n.b)).copied()) {
                        out.push(v.2 as P);
                    }
                }
            }
            match n.op {
                Op::Const | Op::Var => {}
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c);
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
    }

    /// Constraints of `pc` transitively sharing variables with `seed`.
    pub fn slice(&self, pool: &Pool, pc: &[E], seed: E) -> Vec<E> {
        let mut have: std::collections::HashSet<u32> = pool.varset(seed).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = pool.varset(c);
                if vs.iter().any(|v| have.contains(v)) {
                    used[i] = true;
                    out.push(c);
                    for v in vs.iter() {
                        if have.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// Satisfiability of pc /\ cond. The returned assignment covers the variables of the slice.
    pub fn check(&mut self, pool: &mut Pool, pc: &[E], cond: E) -> Res {
        match pool.as_const(cond) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(vec![]),
            None => {}
        }
        let mut key = self.slice(pool, pc, cond);
        key.push(cond);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        // recent models
        for i in (0..self.recent.len()).rev() {
            let (id, m) = (self.recent[i].0, std::mem::take(&mut self.recent[i].1));
            let mut ok = true;
            if pool.eval(cond, &m, id) != 1 {
                ok = false;
            } else {
                for &k in &key {
                    if pool.eval(k, &m, id) != 1 {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                self.model_hits += 1;
                let mut vs: std::collections::BTreeSet<u32> = Default::default();
                for &k in &key {
                    vs.extend(pool.varset(k).iter());
                }
                let r = Res::Sat(vs.into_iter().map(|v| (v, m.get(v as usize).copied().unwrap_or(0))).collect());
                self.recent[i].1 = m;
                return r;
            }
            self.recent[i].1 = m;
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.slv);
            for &k in &key {
                let a = self.tr(pool, k);
                Z3_solver_assert(self.ctx, self.slv, a);
            }
            let mut ds = vec![];
            self.defs(pool, &key, &mut ds);
            for d in ds {
                Z3_solver_assert(self.ctx, self.slv, d);
            }
            match Z3_solver_check(self.ctx, self.slv) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vs: std::collections::BTreeSet<u32> = Default::default();
                    for &k in &key {
                        vs.extend(pool.varset(k).iter());
                    }
                    let mut out = vec![];
                    for v in vs {
                        let ve = pool.var(v);
                        let t = self.tr(pool, ve);
                        let mut r: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, t, true, &mut r) {
                            Z3_inc_ref(self.ctx, r);
                            Z3_get_numeral_uint64(self.ctx, r, &mut u);
                            Z3_dec_ref(self.ctx, r);
                        }
                        out.push((v, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if let Some((dir, every)) = self.dump.clone() {
            if self.queries % every == 0 && r != Res::Unknown {
                let txt = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.slv)).to_string_lossy().into_owned() };
                let ans = if r == Res::Unsat { "unsat" } else { "sat" };
                let f = format!("{dir}/q{}_{}_{ans}.smt2", std::process::id(), self.queries);
                let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{txt}\n(check-sat)\n"));
                self.dumped += 1;
            }
        }
        // a sat answer is re-evaluated with the engine's own evaluator
        if let Res::Sat(asg) = &r {
            let mut m = vec![0u8; asg.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0)];
            for &(v, b) in asg {
                m[v as usize] = b;
            }
            let id = self.fresh_model_id();
            for &k in &key {
                if pool.eval(k, &m, id) != 1 {
                    eprintln!("internal: model does not satisfy constraint");
                    std::process::exit(70);
                }
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}

thread_local! {
    static DIVS: std::cell::RefCell<HashMap<(E, E), (usize, usize, usize)>> = Default::default();
}
