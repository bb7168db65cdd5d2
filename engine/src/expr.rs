//! Hash-consed bit-vector expressions (widths 1..=64) with local simplification,
//! known-bits and unsigned-range analysis, and evaluation under a model.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Extract, // k = lo
    Concat,  // a high, b low
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub zeros: u64, // bits known to be zero (within width)
    pub ones: u64,
    pub lo: u64,
    pub hi: u64,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

pub fn sext(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// k + sum of coefficient * atom, over the integers
pub struct Lin {
    pub k: i128,
    pub terms: Vec<(E, i128)>,
    budget: u32,
}

impl Lin {
    pub fn new(k: i128, terms: Vec<(E, i128)>) -> Lin {
        Lin { k, terms, budget: 0 }
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    depth: Vec<u16>,
    extracts: HashMap<(E, u8, u8), E>,
    pub vars: Vec<u32>, // interned var-set id per node
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Rc<Vec<u32>>, u32>,
    unions: HashMap<(u32, u32), u32>,
    memo: Vec<(u32, u64)>,
    epoch: u32,
    memo_model: u64,
}

const NO: E = 0;
const DEEP: u16 = 300;

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            info: vec![],
            map: HashMap::new(),
            depth: vec![],
            extracts: HashMap::new(),
            vars: vec![],
            sets: vec![],
            setmap: HashMap::new(),
            unions: HashMap::new(),
            memo: vec![],
            epoch: 1,
            memo_model: 0,
        };
        p.intern_set(vec![]);
        // node 0 is a dummy
        p.mk_raw(Node { op: Op::Const, w: 64, a: 0, b: 0, c: 0, k: 0 });
        p
    }

    fn intern_set(&mut self, s: Vec<u32>) -> u32 {
        let rc = Rc::new(s);
        if let Some(&i) = self.setmap.get(&rc) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(rc.clone());
        self.setmap.insert(rc, i);
        i
    }

    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unions.get(&key) {
            return r;
        }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                out.push(y[j]);
                j += 1;
            } else {
                out.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.intern_set(out);
        self.unions.insert(key, r);
        r
    }

    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn varset(&self, e: E) -> Rc<Vec<u32>> {
        self.sets[self.vars[e as usize] as usize].clone()
    }

    fn mk_raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let inf = self.analyze(&n);
        // if the analysis pins the value, return a constant instead
        if n.op != Op::Const {
            let m = mask(n.w);
            if (inf.zeros | inf.ones) & m == m {
                let c = self.c(inf.ones & m, n.w);
                self.map.insert(n, c);
                return c;
            }
            if inf.lo == inf.hi {
                let c = self.c(inf.lo, n.w);
                self.map.insert(n, c);
                return c;
            }
        }
        let mut depth = 0;
        if !matches!(n.op, Op::Const | Op::Var) {
            for k in [n.a, n.b, n.c] {
                depth = depth.max(self.depth[k as usize]);
            }
        }
        self.depth.push(depth.saturating_add(1));
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(vec![n.k as u32]), // low half: index
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.vars[n.a as usize],
            Op::Ite => {
                let x = self.union(self.vars[n.a as usize], self.vars[n.b as usize]);
                self.union(x, self.vars[n.c as usize])
            }
            _ => self.union(self.vars[n.a as usize], self.vars[n.b as usize]),
        };
        self.nodes.push(n);
        self.info.push(inf);
        self.vars.push(vs);
        self.memo.push((0, 0));
        self.map.insert(n, e);
        e
    }

    fn analyze(&self, n: &Node) -> Info {
        let w = n.w;
        let m = mask(w);
        let i = |e: E| self.info[e as usize];
        let mut r = Info { zeros: 0, ones: 0, lo: 0, hi: m };
        match n.op {
            Op::Const => {
                r = Info { zeros: !n.k & m, ones: n.k & m, lo: n.k, hi: n.k };
            }
            Op::Var => {
                let b = n.k >> 32;
                if b > 0 {
                    r.hi = b - 1;
                }
            }
            Op::Add => {
                let (x, y) = (i(n.a), i(n.b));
                if let (Some(h), true) = (x.hi.checked_add(y.hi), true) {
                    if h <= m {
                        r.hi = h;
                        r.lo = x.lo + y.lo;
                    } else if let Some(l) = x.lo.checked_add(y.lo) {
                        // both overflow exactly once?
                        if w < 64 && l > m && h <= m + m + 1 {
                            r.lo = l & m;
                            r.hi = h & m;
                            if r.lo > r.hi {
                                r.lo = 0;
                                r.hi = m;
                            }
                        }
                    }
                } else if w == 64 {
                    if let None = x.lo.checked_add(y.lo) {
                        let l = x.lo.wrapping_add(y.lo);
                        let h = x.hi.wrapping_add(y.hi);
                        if l <= h {
                            r.lo = l;
                            r.hi = h;
                        }
                    }
                }
                // low known bits
                let kx = (x.zeros | x.ones).trailing_ones().min(w as u32) as u8;
                let ky = (y.zeros | y.ones).trailing_ones().min(w as u32) as u8;
                let k = kx.min(ky);
                if k > 0 {
                    let mm = mask(k);
                    let s = x.ones.wrapping_add(y.ones) & mm;
                    r.ones |= s;
                    r.zeros |= !s & mm;
                }
            }
            Op::Mul => {
                let (x, y) = (i(n.a), i(n.b));
                if let Some(h) = x.hi.checked_mul(y.hi) {
                    if h <= m {
                        r.hi = h;
                        r.lo = x.lo * y.lo;
                    }
                }
                let tz = x.zeros.trailing_ones() + y.zeros.trailing_ones();
                let tz = tz.min(w as u32) as u8;
                r.zeros |= mask(tz) & m;
                if tz == 0 {
                    r.zeros &= m;
                }
                if tz == 0 {
                    r.zeros = 0;
                }
            }
            Op::UDiv => {
                let (x, y) = (i(n.a), i(n.b));
                if y.lo > 0 {
                    r.lo = x.lo / y.hi;
                    r.hi = x.hi / y.lo;
                }
            }
            Op::URem => {
                let (x, y) = (i(n.a), i(n.b));
                if y.lo > 0 {
                    r.hi = x.hi.min(y.hi - 1);
                    if x.hi < y.lo {
                        r.lo = x.lo;
                        r.hi = x.hi;
                    }
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::And => {
                let (x, y) = (i(n.a), i(n.b));
                r.zeros = x.zeros | y.zeros;
                r.ones = x.ones & y.ones;
                r.hi = x.hi.min(y.hi);
            }
            Op::Or => {
                let (x, y) = (i(n.a), i(n.b));
                r.zeros = x.zeros & y.zeros;
                r.ones = x.ones | y.ones;
                r.lo = x.lo.max(y.lo);
            }
            Op::Xor => {
                let (x, y) = (i(n.a), i(n.b));
                r.zeros = (x.zeros & y.zeros) | (x.ones & y.ones);
                r.ones = (x.zeros & y.ones) | (x.ones & y.zeros);
            }
            Op::Not => {
                let x = i(n.a);
                r.zeros = x.ones;
                r.ones = x.zeros;
                r.lo = m - x.hi;
                r.hi = m - x.lo;
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if n.op == Op::LShr {
                    r.hi = i(n.a).hi;
                }
            }
            Op::Extract => {
                let x = i(n.a);
                r.zeros = (x.zeros >> n.k) & m;
                r.ones = (x.ones >> n.k) & m;
                let sh = x.hi >> n.k;
                if sh <= m {
                    r.hi = sh;
                    r.lo = x.lo >> n.k;
                }
            }
            Op::Concat => {
                let (x, y) = (i(n.a), i(n.b));
                let lw = self.w(n.b);
                r.zeros = (x.zeros << lw) | y.zeros;
                r.ones = (x.ones << lw) | y.ones;
                r.lo = (x.lo << lw) | y.lo;
                r.hi = (x.hi << lw) | y.hi;
            }
            Op::ZExt => {
                let x = i(n.a);
                let xm = mask(self.w(n.a));
                r.zeros = x.zeros | (m & !xm);
                r.ones = x.ones;
                r.lo = x.lo;
                r.hi = x.hi;
            }
            Op::SExt => {
                let x = i(n.a);
                let aw = self.w(n.a);
                let xm = mask(aw);
                let sb = 1u64 << (aw - 1);
                r.zeros = x.zeros & xm;
                r.ones = x.ones & xm;
                if x.zeros & sb != 0 || x.hi < sb {
                    r.zeros |= m & !(xm >> 1);
                    r.lo = x.lo;
                    r.hi = x.hi;
                } else if x.ones & sb != 0 {
                    r.ones |= m & !(xm >> 1);
                }
            }
            Op::Ite => {
                let (x, y) = (i(n.b), i(n.c));
                r.zeros = x.zeros & y.zeros;
                r.ones = x.ones & y.ones;
                r.lo = x.lo.min(y.lo);
                r.hi = x.hi.max(y.hi);
            }
            Op::Eq => {
                let (x, y) = (i(n.a), i(n.b));
                if x.hi < y.lo || y.hi < x.lo || (x.ones & y.zeros) != 0 || (x.zeros & y.ones) != 0 {
                    r.hi = 0;
                } else if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo {
                    r.lo = 1;
                }
            }
            Op::Ult => {
                let (x, y) = (i(n.a), i(n.b));
                if x.hi < y.lo {
                    r.lo = 1
                } else if x.lo >= y.hi {
                    r.hi = 0
                }
            }
            Op::Ule => {
                let (x, y) = (i(n.a), i(n.b));
                if x.hi <= y.lo {
                    r.lo = 1
                } else if x.lo > y.hi {
                    r.hi = 0
                }
            }
            Op::Slt | Op::Sle => {
                let aw = self.w(n.a);
                let sb = 1u64 << (aw - 1);
                let (x, y) = (i(n.a), i(n.b));
                let xs = if x.hi < sb { Some((x.lo as i64, x.hi as i64)) } else if x.lo >= sb { Some((sext(x.lo, aw), sext(x.hi, aw))) } else { None };
                let ys = if y.hi < sb { Some((y.lo as i64, y.hi as i64)) } else if y.lo >= sb { Some((sext(y.lo, aw), sext(y.hi, aw))) } else { None };
                if let (Some(x), Some(y)) = (xs, ys) {
                    if n.op == Op::Slt {
                        if x.1 < y.0 {
                            r.lo = 1
                        } else if x.0 >= y.1 {
                            r.hi = 0
                        }
                    } else if x.1 <= y.0 {
                        r.lo = 1
                    } else if x.0 > y.1 {
                        r.hi = 0
                    }
                }
            }
        }
        // cross-refine
        r.zeros &= m;
        r.ones &= m;
        r.lo = r.lo.max(r.ones);
        r.hi = r.hi.min(m & !r.zeros);
        if r.hi < m {
            // leading zero bits from hi
            let lz = r.hi.leading_zeros(); // for 64-bit
            let hm = if lz == 64 { 0 } else { !0u64 >> lz };
            r.zeros |= m & !hm;
            r.zeros &= m;
        }
        if r.lo > r.hi {
            // contradiction cannot happen for consistent analyses; stay sound
            r.lo = 0;
            r.hi = m;
        }
        r
    }

    pub fn c(&mut self, v: u64, w: u8) -> E {
        self.mk_raw(Node { op: Op::Const, w, a: NO, b: NO, c: NO, k: v & mask(w) })
    }
    pub fn var(&mut self, idx: u32) -> E {
        self.mk_raw(Node { op: Op::Var, w: 8, a: NO, b: NO, c: NO, k: idx as u64 })
    }
    /// Variable known to be below `bound`; the caller adds that fact to the path condition
    /// (on the plain variable of the same index).
    pub fn var_below(&mut self, idx: u32, bound: u64) -> E {
        self.mk_raw(Node { op: Op::Var, w: 8, a: NO, b: NO, c: NO, k: idx as u64 | bound << 32 })
    }

    // ---------- linear forms ----------
    /// Writes `e` as an exact integer sum (no wrap-around) of constant multiples of atoms.
    fn lin_go(&self, e: E, mult: i128, l: &mut Lin) -> bool {
        if l.budget == 0 || mult > 1 << 64 {
            return false;
        }
        l.budget -= 1;
        let n = self.nodes[e as usize];
        let hi = |e: E| self.info[e as usize].hi as u128;
        let m = mask(n.w);
        match n.op {
            Op::Const => {
                l.k += n.k as i128 * mult;
                return true;
            }
            Op::ZExt => return self.lin_go(n.a, mult, l),
            Op::Add => {
                if hi(n.a) + hi(n.b) <= m as u128 {
                    return self.lin_go(n.a, mult, l) && self.lin_go(n.b, mult, l);
                }
                if let Some(c) = self.as_const(n.b) {
                    if c != 0 && self.info[n.a as usize].lo > m - c {
                        l.k -= (m as i128 + 1 - c as i128) * mult;
                        return self.lin_go(n.a, mult, l);
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = self.as_const(n.b) {
                    if hi(n.a) * c as u128 <= m as u128 {
                        return self.lin_go(n.a, mult * c as i128, l);
                    }
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                return self.lin_go(n.a, mult << lw, l) && self.lin_go(n.b, mult, l);
            }
            Op::Or => {
                let (x, y) = (self.info[n.a as usize], self.info[n.b as usize]);
                if !x.zeros & !y.zeros & m == 0 {
                    return self.lin_go(n.a, mult, l) && self.lin_go(n.b, mult, l);
                }
            }
            _ => {}
        }
        match l.terms.iter_mut().find(|t| t.0 == e) {
            Some(t) => t.1 += mult,
            None => {
                if l.terms.len() >= 40 {
                    return false;
                }
                l.terms.push((e, mult));
            }
        }
        true
    }
    pub fn lin(&self, e: E) -> Option<Lin> {
        let mut l = Lin { k: 0, terms: vec![], budget: 200 };
        if self.lin_go(e, 1, &mut l) {
            l.terms.retain(|t| t.1 != 0);
            l.terms.sort_unstable();
            Some(l)
        } else {
            None
        }
    }
    /// Builds a sum whose coefficients are not negative and whose maximum fits in `w` bits.
    pub fn lin_build(&mut self, l: &Lin, w: u8) -> Option<E> {
        if l.k < 0 {
            return None;
        }
        let mut max = l.k as u128;
        for t in &l.terms {
            if t.1 < 0 || t.1 > 1 << 64 {
                return None;
            }
            max += t.1 as u128 * self.info[t.0 as usize].hi as u128;
        }
        if max > mask(w) as u128 {
            return None;
        }
        let mut r: Option<E> = None;
        for t in &l.terms {
            if self.w(t.0) > w {
                return None;
            }
            let z = self.zext(t.0, w);
            let c = self.c(t.1 as u64, w);
            let x = self.mul(z, c);
            r = Some(match r {
                None => x,
                Some(y) => self.add(y, x),
            });
        }
        let k = self.c(l.k as u64, w);
        Some(match r {
            None => k,
            Some(y) => self.add(y, k),
        })
    }
    /// Range of b - a over the integers.
    fn lin_diff(&self, a: E, b: E) -> Option<(i128, i128)> {
        let sum = |e: E| matches!(self.nodes[e as usize].op, Op::Add | Op::Mul | Op::Concat | Op::Or);
        let strip = |e: E| {
            let n = self.nodes[e as usize];
            if n.op == Op::ZExt {
                n.a
            } else {
                e
            }
        };
        if !sum(strip(a)) && !sum(strip(b)) {
            return None;
        }
        let (x, mut y) = (self.lin(a)?, self.lin(b)?);
        y.k -= x.k;
        for t in x.terms {
            match y.terms.iter_mut().find(|u| u.0 == t.0) {
                Some(u) => u.1 -= t.1,
                None => y.terms.push((t.0, -t.1)),
            }
        }
        let (mut lo, mut hi) = (y.k, y.k);
        for t in &y.terms {
            let i = self.info[t.0 as usize];
            let (p, q) = (t.1 * i.lo as i128, t.1 * i.hi as i128);
            lo += p.min(q);
            hi += p.max(q);
        }
        Some((lo, hi))
    }
    /// Quotient and remainder of a sum by `y`, when they are sums too.
    fn lin_div(&self, a: E, y: u64) -> Option<(Lin, Lin)> {
        let l = self.lin(a)?;
        if l.k < 0 || y < 2 {
            return None;
        }
        let y = y as i128;
        let mut q = Lin { k: l.k / y, terms: vec![], budget: 0 };
        let mut r = Lin { k: l.k % y, terms: vec![], budget: 0 };
        let mut max = r.k;
        for t in &l.terms {
            if t.1 < 0 {
                return None;
            }
            let (a, b) = (t.1 / y, t.1 % y);
            if a > 0 {
                q.terms.push((t.0, a));
            }
            if b > 0 {
                r.terms.push((t.0, b));
                max += b * self.info[t.0 as usize].hi as i128;
            }
            if max >= y {
                return None;
            }
        }
        Some((q, r))
    }

    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }

    fn bin(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.mk_raw(Node { op, w, a, b, c: NO, k: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(!n.k, n.w),
            Op::Not => n.a,
            Op::Ult => self.ule(n.b, n.a),
            Op::Ule => self.ult(n.b, n.a),
            Op::Slt => self.sle(n.b, n.a),
            Op::Sle => self.slt(n.b, n.a),
            Op::Concat => {
                let x = self.not(n.a);
                let y = self.not(n.b);
                self.concat(x, y)
            }
            Op::ZExt => {
                let x = self.c(mask(n.w), n.w - self.w(n.a));
                let y = self.not(n.a);
                self.concat(x, y)
            }
            _ => self.mk_raw(Node { op: Op::Not, w: n.w, a, b: NO, c: NO, k: 0 }),
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.c(x.wrapping_add(y), w);
                        return self.add(n.a, k);
                    }
                }
                if w == 1 {
                    return self.not(a);
                }
            }
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // a - a
        let nb = self.n(b);
        if nb.op == Op::Mul && nb.a == a && self.as_const(nb.b) == Some(mask(w)) {
            return self.c(0, w);
        }
        let na = self.n(a);
        if na.op == Op::Mul && na.a == b && self.as_const(na.b) == Some(mask(w)) {
            return self.c(0, w);
        }
        // x - k*q as a sum
        for (p, q) in [(a, b), (b, a)] {
            let nq = self.n(q);
            if nq.op != Op::Mul || w < 8 {
                continue;
            }
            if let Some(c) = self.as_const(nq.b) {
                let neg = c.wrapping_neg() & mask(w);
                if c > mask(w) >> 1 && self.info[nq.a as usize].hi as u128 * neg as u128 <= mask(w) as u128 {
                    if let (Some(mut x), Some(y)) = (self.lin(p), self.lin(nq.a)) {
                        x.k -= y.k * neg as i128;
                        for t in y.terms {
                            match x.terms.iter_mut().find(|u| u.0 == t.0) {
                                Some(u) => u.1 -= t.1 * neg as i128,
                                None => x.terms.push((t.0, -t.1 * neg as i128)),
                            }
                        }
                        x.terms.retain(|t| t.1 != 0);
                        if let Some(r) = self.lin_build(&x, w) {
                            return r;
                        }
                    }
                }
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let m = mask(w);
        if (!ia.zeros & m) & (!ib.zeros & m) == 0 {
            return self.or(a, b);
        }
        // (x + c) + y -> (x + y) + c
        if self.as_const(b).is_none() {
            if na.op == Op::Add {
                if self.as_const(na.b).is_some() {
                    let t = self.add(na.a, b);
                    return self.add(t, na.b);
                }
            }
            if nb.op == Op::Add {
                if self.as_const(nb.b).is_some() {
                    let t = self.add(a, nb.a);
                    return self.add(t, nb.b);
                }
            }
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::Add, w, a, b)
    }

    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.as_const(b) {
            let k = self.c(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                if y.is_power_of_two() {
                    return self.shl_k(a, y.trailing_zeros());
                }
                let n = self.n(a);
                if n.op == Op::Mul {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.c(x.wrapping_mul(y), w);
                        return self.mul(n.a, k);
                    }
                }
                if y == mask(w) && n.op == Op::Add {
                    // -(x + c) = -x - c
                    let x = self.neg(n.a);
                    let z = self.neg(n.b);
                    return self.add(x, z);
                }
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.c(x / y, w);
                }
                if y.is_power_of_two() {
                    return self.lshr_k(a, y.trailing_zeros());
                }
                if self.info[a as usize].hi < y {
                    return self.c(0, w);
                }
                if let Some((q, _)) = self.lin_div(a, y) {
                    if let Some(r) = self.lin_build(&q, w) {
                        return r;
                    }
                }
                // narrow
                if let Some((na, nw)) = self.narrow(a, self.info[b as usize].hi) {
                    let nb = self.c(y, nw);
                    let d = self.udiv(na, nb);
                    return self.zext(d, w);
                }
                let n = self.n(a);
                if n.op == Op::UDiv {
                    if let Some(x) = self.as_const(n.b) {
                        if let Some(p) = x.checked_mul(y) {
                            if p <= mask(w) {
                                let k = self.c(p, w);
                                return self.udiv(n.a, k);
                            }
                        }
                    }
                }
            }
        }
        self.bin(Op::UDiv, w, a, b)
    }
    /// narrows `a` to the fewest bits that hold its range and `other`
    fn narrow(&mut self, a: E, other: u64) -> Option<(E, u8)> {
        let w = self.w(a);
        let hi = self.info[a as usize].hi.max(other);
        let need = (64 - hi.leading_zeros()).max(1) as u8;
        if need < w {
            let x = self.extract(a, 0, need);
            Some((x, need))
        } else {
            None
        }
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.c(x % y, w);
                }
                if y.is_power_of_two() {
                    let k = self.c(y - 1, w);
                    return self.and(a, k);
                }
                if self.info[a as usize].hi < y {
                    return a;
                }
                if let Some((_, q)) = self.lin_div(a, y) {
                    if let Some(r) = self.lin_build(&q, w) {
                        return r;
                    }
                }
                if let Some((na, nw)) = self.narrow(a, y) {
                    let nb = self.c(y, nw);
                    let d = self.urem(na, nb);
                    return self.zext(d, w);
                }
            }
        }
        self.bin(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let sb = 1u64 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < sb && ib.hi < sb {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_div(sext(y, w)) as u64, w);
            }
        }
        self.bin(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let sb = 1u64 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < sb && ib.hi < sb {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_rem(sext(y, w)) as u64, w);
            }
        }
        self.bin(Op::SRem, w, a, b)
    }

    /// Splits into runs according to a per-bit chooser mask: bits set in `sel` come from `a`, others from `b`.
    fn blend(&mut self, a: E, b: E, sel: u64, w: u8, max_runs: u32) -> Option<E> {
        let m = mask(w);
        let s = sel & m;
        let runs = 1 + ((s ^ (s >> 1)) & mask(w.max(2) - 1)).count_ones();
        if runs > max_runs {
            return None;
        }
        let mut lo = 0u8;
        let mut res: Option<E> = None;
        while lo < w {
            let bit = (s >> lo) & 1;
            let mut hi = lo;
            while hi + 1 < w && (s >> (hi + 1)) & 1 == bit {
                hi += 1;
            }
            let src = if bit == 1 { a } else { b };
            let part = self.extract(src, lo, hi - lo + 1);
            res = Some(match res {
                None => part,
                Some(r) => self.concat(part, r),
            });
            lo = hi + 1;
        }
        res
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let m = mask(w);
        if a == b {
            return a;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == m => return a,
            (None, Some(y)) => {
                // bits of `a` already known zero are irrelevant
                let z = self.info[a as usize].zeros;
                if !y & m & !z == 0 {
                    return a;
                }
                // prefer a mask with few runs
                let y1 = y & !z;
                let zero = self.c(0, w);
                for yy in [y, y1, (y | z) & m] {
                    if let Some(e) = self.blend(a, zero, yy, w, 8) {
                        return e;
                    }
                }
                let n = self.n(a);
                if n.op == Op::And {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.c(x & y, w);
                        return self.and(n.a, k);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.ff();
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.zeros | ib.zeros) & m == m {
            return self.c(0, w);
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::And, w, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let m = mask(w);
        if a == b {
            return a;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == m => return b,
            (None, Some(y)) => {
                let all = self.c(m, w);
                if let Some(e) = self.blend(all, a, y, w, 8) {
                    return e;
                }
            }
            _ => {}
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.tt();
            }
            let (a, b) = if a > b { (b, a) } else { (a, b) };
            return self.bin(Op::Or, w, a, b);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let (pa, pb) = (!ia.zeros & m, !ib.zeros & m);
        if pa & pb == 0 {
            // disjoint: becomes a concatenation
            if let Some(e) = self.blend_disjoint(a, b, pa, pb, w) {
                return e;
            }
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::Or, w, a, b)
    }
    fn blend_disjoint(&mut self, a: E, b: E, pa: u64, pb: u64, w: u8) -> Option<E> {
        // choose `sel` covering pa and avoiding pb, minimising runs: unused bits follow the run below them
        let mut sel = 0u64;
        let mut cur = if pa & (pb.wrapping_neg() & pb).wrapping_sub(1) != 0 || pb == 0 { 1 } else { 0 };
        for i in 0..w {
            if (pa >> i) & 1 == 1 {
                cur = 1;
            } else if (pb >> i) & 1 == 1 {
                cur = 0;
            }
            sel |= cur << i;
        }
        self.blend(a, b, sel, w, 8)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return self.not(a),
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Xor {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.c(x ^ y, w);
                        return self.xor(n.a, k);
                    }
                }
                if n.op == Op::Not {
                    let k = self.c(!y, w);
                    return self.xor(n.a, k);
                }
                // split so that bytes untouched by the constant stay clean
                if n.op == Op::Concat || n.op == Op::ZExt {
                    let lw = if n.op == Op::Concat { self.w(n.b) } else { self.w(n.a) };
                    if lw < w {
                        let hi = self.extract(a, lw, w - lw);
                        let lo = self.extract(a, 0, lw);
                        let kh = self.c(y >> lw, w - lw);
                        let kl = self.c(y, lw);
                        let h = self.xor(hi, kh);
                        let l = self.xor(lo, kl);
                        return self.concat(h, l);
                    }
                }
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        for (p, q) in [(na, b), (nb, a)] {
            if p.op == Op::Xor {
                if p.a == q {
                    return p.b;
                }
                if p.b == q {
                    return p.a;
                }
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let m = mask(w);
        if (!ia.zeros & m) & (!ib.zeros & m) == 0 {
            return self.or(a, b);
        }
        // part by part
        for n in [na, nb] {
            let lw = match n.op {
                Op::Concat => self.w(n.b),
                Op::ZExt => self.w(n.a),
                _ => continue,
            };
            if self.as_const(b).is_some() {
                break;
            }
            let (ah, al) = (self.extract(a, lw, w - lw), self.extract(a, 0, lw));
            let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
            let h = self.xor(ah, bh);
            let l = self.xor(al, bl);
            return self.concat(h, l);
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::Xor, w, a, b)
    }
    pub fn shl_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w as u32 {
            return self.c(0, w);
        }
        let hi = self.extract(a, 0, w - k as u8);
        let z = self.c(0, k as u8);
        self.concat(hi, z)
    }
    pub fn lshr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w as u32 {
            return self.c(0, w);
        }
        let x = self.extract(a, k as u8, w - k as u8);
        self.zext(x, w)
    }
    pub fn ashr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        let k = k.min(w as u32 - 1);
        if k == 0 {
            return a;
        }
        let x = self.extract(a, k as u8, w - k as u8);
        self.sext(x, w)
    }
    /// shift amounts are taken modulo the width (wasm semantics)
    pub fn shift(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = (k % w as u64) as u32;
            return match op {
                Op::Shl => self.shl_k(a, k),
                Op::LShr => self.lshr_k(a, k),
                _ => self.ashr_k(a, k),
            };
        }
        let m = self.c(w as u64 - 1, w);
        let b = self.and(b, m);
        if self.as_const(b).is_some() {
            return self.shift(op, a, b);
        }
        self.bin(op, w, a, b)
    }
    pub fn rotl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = (k % w as u64) as u8;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, 0, w - k);
            let lo = self.extract(a, w - k, k);
            return self.concat(hi, lo);
        }
        let ww = self.c(w as u64, w);
        let l = self.shift(Op::Shl, a, b);
        let nb = self.sub(ww, b);
        let r = self.shift(Op::LShr, a, nb);
        self.or(l, r)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w && w > 0);
        if lo == 0 && w == n.w {
            return a;
        }
        // known bits
        let inf = self.info[a as usize];
        let m = mask(w);
        if ((inf.zeros | inf.ones) >> lo) & m == m {
            return self.c(inf.ones >> lo, w);
        }
        let d = self.depth[a as usize];
        if d > DEEP && !matches!(n.op, Op::Const | Op::Extract | Op::Concat | Op::ZExt) {
            // no rewriting of very deep terms (hash functions)
            return self.mk_raw(Node { op: Op::Extract, w, a, b: NO, c: NO, k: lo as u64 });
        }
        if d < 4 {
            return self.extract_go(a, lo, w);
        }
        if let Some(&r) = self.extracts.get(&(a, lo, w)) {
            return r;
        }
        let r = self.extract_go(a, lo, w);
        self.extracts.insert((a, lo, w), r);
        r
    }
    fn extract_go(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return self.c(0, w);
                }
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, aw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if lo < aw {
                    let x = self.extract(n.a, lo, aw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, aw - 1, 1);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            Op::Mul if lo + w == n.w && lo >= 16 => {
                // division by a constant done as multiplication by its scaled reciprocal
                if let Some(mul) = self.as_const(n.b) {
                    let h = self.info[n.a as usize].hi as u128;
                    if mul > 1 && h * mul as u128 <= mask(n.w) as u128 {
                        let p = 1u128 << lo;
                        let d = (p + mul as u128 - 1) / mul as u128;
                        let e = d * mul as u128 - p;
                        if h * e < p && d >= 2 {
                            if let Some((q, _)) = self.lin_div(n.a, d as u64) {
                                if let Some(r) = self.lin_build(&q, w) {
                                    return r;
                                }
                            }
                        }
                    }
                }
            }
            Op::Add if lo > 0 => {
                if let Some((q, _)) = self.lin_div(a, 1 << lo) {
                    if lo + w == n.w {
                        if let Some(r) = self.lin_build(&q, w) {
                            return r;
                        }
                    } else if let Some(r) = self.lin_build(&q, n.w - lo) {
                        if self.n(r).op != Op::Extract {
                            return self.extract(r, 0, w);
                        }
                    }
                }
            }
            Op::Ite => {
                // push into branches when at least one is constant
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if matches!(n.op, Op::Add | Op::Mul) && lo > 0 && lo + w < n.w {
            // bits above lo + w do not matter
            let x = self.extract(a, 0, lo + w);
            let y = self.n(x);
            if y.op != Op::Extract {
                return self.extract(x, lo, w);
            }
        }
        self.mk_raw(Node { op: Op::Extract, w, a, b: NO, c: NO, k: lo as u64 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        debug_assert!(w <= 64);
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.c((na.k << nb.w) | nb.k, w);
            }
            if na.k == 0 {
                return self.zext(b, w);
            }
        }
        if na.op == Op::Extract {
            if nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
                return self.extract(na.a, nb.k as u8, w);
            }
            if na.a == b && na.k == nb.w as u64 {
                return self.extract(b, 0, w); // unreachable in practice (w > width)
            }
        }
        // high part of a sum next to its low part (which is itself written as a sum)
        {
            let (src, lo, aw) = if na.op == Op::Extract { (na.a, na.k as u8, na.w) } else { (NO, 0, 0) };
            let low = if nb.op == Op::Concat { nb.a } else { b };
            let lw = self.w(low);
            if src != NO && lo >= lw && matches!(self.n(src).op, Op::Add | Op::Mul) && self.n(low).op != Op::Const {
                let t = self.extract(src, lo - lw, lw);
                if t == low {
                    let j = self.extract(src, lo - lw, lw + aw);
                    return if low == b { j } else { self.concat(j, nb.b) };
                }
            }
        }
        // zext(x) ++ y -> zext(x ++ y)
        if na.op == Op::ZExt {
            let t = self.concat(na.a, b);
            return self.zext(t, w);
        }
        // x ++ (y ++ z) -> (x ++ y) ++ z when x,y merge
        if nb.op == Op::Concat {
            let (y, z) = (nb.a, nb.b);
            let ny = self.n(y);
            let merge = (na.op == Op::Extract && ny.op == Op::Extract && na.a == ny.a && na.k == ny.k + ny.w as u64)
                || (na.op == Op::Const && ny.op == Op::Const);
            if merge {
                let t = self.concat(a, y);
                return self.concat(t, z);
            }
        }
        if na.op == Op::Concat {
            // right-assoc: (p ++ q) ++ b -> p ++ (q ++ b)
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        if nb.op == Op::ZExt {
            // keep a canonical right-nested form: a ++ zext(x) = a ++ (0 ++ x)
            let zw = nb.w - self.w(nb.a);
            if na.op == Op::Const {
                let k = self.c(na.k << zw, na.w + zw);
                return self.concat(k, nb.a);
            }
        }
        self.bin(Op::Concat, w, a, b)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk_raw(Node { op: Op::ZExt, w, a, b: NO, c: NO, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        let i = self.info[a as usize];
        if i.zeros >> (n.w - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        match n.op {
            Op::Const => self.c(sext(n.k, n.w) as u64, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.mk_raw(Node { op: Op::SExt, w, a, b: NO, c: NO, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let x = self.not(c);
                    return self.and(x, b);
                }
                (None, Some(1)) => {
                    let x = self.not(c);
                    return self.or(x, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        if let (Some(1), Some(0)) = (self.as_const(a), self.as_const(b)) {
            return self.zext(c, w);
        }
        if let (Some(0), Some(1)) = (self.as_const(a), self.as_const(b)) {
            let x = self.not(c);
            return self.zext(x, w);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.mk_raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c((x == y) as u64, 1),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                let n = self.n(a);
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                let inf = self.info[a as usize];
                if (inf.ones & !y) != 0 || (inf.zeros & y) != 0 || y < inf.lo || y > inf.hi {
                    return self.ff();
                }
                match n.op {
                    Op::ZExt => {
                        let aw = self.w(n.a);
                        if y > mask(aw) {
                            return self.ff();
                        }
                        let k = self.c(y, aw);
                        return self.eq(n.a, k);
                    }
                    Op::SExt => {
                        let aw = self.w(n.a);
                        if (sext(y & mask(aw), aw) as u64) & mask(w) != y {
                            return self.ff();
                        }
                        let k = self.c(y, aw);
                        return self.eq(n.a, k);
                    }
                    Op::Concat => {
                        let (hw, lw) = (self.w(n.a), self.w(n.b));
                        let kh = self.c(y >> lw, hw);
                        let kl = self.c(y, lw);
                        let h = self.eq(n.a, kh);
                        let l = self.eq(n.b, kl);
                        return self.and(h, l);
                    }
                    Op::Add => {
                        if let Some(x) = self.as_const(n.b) {
                            let k = self.c(y.wrapping_sub(x), w);
                            return self.eq(n.a, k);
                        }
                        if y == 0 && self.info[n.a as usize].hi as u128 + self.info[n.b as usize].hi as u128 <= mask(w) as u128 {
                            let p = self.eq(n.a, b);
                            let q = self.eq(n.b, b);
                            return self.and(p, q);
                        }
                        if y == 0 {
                            // a + (-b) == 0  ->  a == b
                            for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                                let nq = self.n(q);
                                if nq.op == Op::Mul && self.as_const(nq.b) == Some(mask(w)) {
                                    return self.eq(p, nq.a);
                                }
                            }
                        }
                    }
                    Op::Xor => {
                        if let Some(x) = self.as_const(n.b) {
                            let k = self.c(y ^ x, w);
                            return self.eq(n.a, k);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Or => {
                        if y == 0 {
                            let p = self.eq(n.a, b);
                            let q = self.eq(n.b, b);
                            return self.and(p, q);
                        }
                    }
                    Op::Mul if y == 0 => {
                        if let Some(c) = self.as_const(n.b) {
                            if c != 0 && self.info[n.a as usize].hi as u128 * c as u128 <= mask(w) as u128 {
                                return self.eq(n.a, b);
                            }
                        }
                    }
                    Op::Not => {
                        let k = self.c(!y, w);
                        return self.eq(n.a, k);
                    }
                    Op::Ite => {
                        let (cb, cc) = (self.as_const(n.b), self.as_const(n.c));
                        if cb.is_some() || cc.is_some() {
                            let p = self.eq(n.b, b);
                            let q = self.eq(n.c, b);
                            return self.ite(n.a, p, q);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                let (na, nb) = (self.n(a), self.n(b));
                if w == 1 {
                    let x = self.xor(a, b);
                    return self.not(x);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let (x, y) = (self.w(na.a), self.w(nb.a));
                    if x == y {
                        return self.eq(na.a, nb.a);
                    }
                    let mx = x.max(y);
                    let p = self.zext(na.a, mx);
                    let q = self.zext(nb.a, mx);
                    if mx < w {
                        return self.eq(p, q);
                    }
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.eq(na.a, nb.a);
                    let l = self.eq(na.b, nb.b);
                    return self.and(h, l);
                }
                if matches!(na.op, Op::Add | Op::Mul | Op::Or | Op::Concat | Op::ZExt) && matches!(nb.op, Op::Add | Op::Mul | Op::Or | Op::Concat | Op::ZExt) {
                    if let (Some(x), Some(y)) = (self.lin(a), self.lin(b)) {
                        if x.terms == y.terms {
                            return self.c((x.k == y.k) as u64, 1);
                        }
                    }
                }
                // x + c == x' + c
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
            }
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((x < y) as u64, 1);
        }
        if self.as_const(b) == Some(0) {
            return self.ff();
        }
        if self.as_const(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some((lo, hi)) = self.lin_diff(a, b) {
            if lo > 0 {
                return self.tt();
            }
            if hi <= 0 {
                return self.ff();
            }
        }
        if let Some((x, y)) = self.narrow2(a, b) {
            return self.ult(x, y);
        }
        self.bin(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((x <= y) as u64, 1);
        }
        if self.as_const(a) == Some(0) || self.as_const(b) == Some(mask(w)) {
            return self.tt();
        }
        if self.as_const(b) == Some(0) {
            return self.eq(a, b);
        }
        if let Some(y) = self.as_const(b) {
            // a <= y  ->  a < y+1
            let k = self.c(y + 1, w);
            return self.ult(a, k);
        }
        if let Some(x) = self.as_const(a) {
            let k = self.c(x - 1, w);
            return self.ult(k, b);
        }
        if let Some((lo, hi)) = self.lin_diff(a, b) {
            if lo >= 0 {
                return self.tt();
            }
            if hi < 0 {
                return self.ff();
            }
        }
        if let Some((x, y)) = self.narrow2(a, b) {
            return self.ule(x, y);
        }
        self.bin(Op::Ule, 1, a, b)
    }
    fn narrow2(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        let hi = self.info[a as usize].hi.max(self.info[b as usize].hi);
        let need = (64 - hi.leading_zeros()).max(1) as u8;
        if need < w {
            let x = self.extract(a, 0, need);
            let y = self.extract(b, 0, need);
            Some((x, y))
        } else {
            None
        }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        let sb = 1u64 << (w - 1);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u64, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < sb && ib.hi < sb {
            return self.ult(a, b);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        self.bin(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let w = self.w(a);
        let sb = 1u64 << (w - 1);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((sext(x, w) <= sext(y, w)) as u64, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < sb && ib.hi < sb {
            return self.ule(a, b);
        }
        if self.as_const(a) == Some(0) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if self.as_const(b) == Some(mask(w)) {
            return self.extract(a, w - 1, 1);
        }
        self.bin(Op::Sle, 1, a, b)
    }

    // ---------- evaluation ----------
    /// Evaluates under `model` (missing variables are 0). `model_id` identifies the model for memoisation.
    /// Abbreviated text of an expression, for diagnostics.
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => return format!("{:#x}", n.k),
            Op::Var => return format!("v{}", n.k as u32),
            _ => {}
        }
        if depth == 0 {
            return format!("e{e}");
        }
        let mut v = vec![self.show(n.a, depth - 1)];
        if n.b != NO {
            v.push(self.show(n.b, depth - 1));
        }
        if n.c != NO {
            v.push(self.show(n.c, depth - 1));
        }
        let k = if n.op == Op::Extract { format!("@{}", n.k) } else { String::new() };
        format!("{:?}{}{}({})", n.op, n.w, k, v.join(","))
    }
    pub fn eval(&mut self, e: E, model: &[u8], model_id: u64) -> u64 {
        if self.memo_model != model_id {
            self.memo_model = model_id;
            self.epoch = self.epoch.wrapping_add(1);
            if self.epoch == 0 {
                for m in self.memo.iter_mut() {
                    *m = (0, 0);
                }
                self.epoch = 1;
            }
        }
        let ep = self.epoch;
        if self.memo[e as usize].0 == ep {
            return self.memo[e as usize].1;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo[x as usize].0 == ep {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let v = match n.op {
                Op::Const => Some(n.k),
                Op::Var => Some(*model.get(n.k as u32 as usize).unwrap_or(&0) as u64),
                Op::Ite => {
                    let mc = self.memo[n.a as usize];
                    if mc.0 != ep {
                        stack.push(n.a);
                        None
                    } else {
                        let t = if mc.1 == 1 { n.b } else { n.c };
                        let mt = self.memo[t as usize];
                        if mt.0 != ep {
                            stack.push(t);
                            None
                        } else {
                            Some(mt.1)
                        }
                    }
                }
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => {
                    let ma = self.memo[n.a as usize];
                    if ma.0 != ep {
                        stack.push(n.a);
                        None
                    } else {
                        let aw = self.nodes[n.a as usize].w;
                        Some(match n.op {
                            Op::Not => !ma.1 & mask(n.w),
                            Op::Extract => (ma.1 >> n.k) & mask(n.w),
                            Op::ZExt => ma.1,
                            _ => (sext(ma.1, aw) as u64) & mask(n.w),
                        })
                    }
                }
                _ => {
                    let ma = self.memo[n.a as usize];
                    let mb = self.memo[n.b as usize];
                    if ma.0 != ep || mb.0 != ep {
                        if ma.0 != ep {
                            stack.push(n.a);
                        }
                        if mb.0 != ep {
                            stack.push(n.b);
                        }
                        None
                    } else {
                        let aw = self.nodes[n.a as usize].w;
                        let bw = self.nodes[n.b as usize].w;
                        Some(eval_bin(n.op, ma.1, mb.1, aw, bw) & mask(n.w))
                    }
                }
            };
            if let Some(v) = v {
                self.memo[x as usize] = (ep, v);
                stack.pop();
            }
        }
        self.memo[e as usize].1
    }
}

pub fn eval_bin(op: Op, x: u64, y: u64, aw: u8, bw: u8) -> u64 {
    let m = mask(aw);
    match op {
        Op::Add => x.wrapping_add(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                if sext(x, aw) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sext(x, aw).wrapping_div(sext(y, aw)) as u64
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sext(x, aw).wrapping_rem(sext(y, aw)) as u64
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= aw as u64 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= aw as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let k = y.min(aw as u64 - 1);
            (sext(x, aw) >> k) as u64
        }
        Op::Concat => (x << bw) | y,
        Op::Eq => (x == y) as u64,
        Op::Ult => (x < y) as u64,
        Op::Ule => (x <= y) as u64,
        Op::Slt => (sext(x, aw) < sext(y, aw)) as u64,
        Op::Sle => (sext(x, aw) <= sext(y, aw)) as u64,
        _ => unreachable!(),
    }
}
