//! WebAssembly (memory64) binary parser; lowers every function body to a flat
//! instruction list with resolved branch targets.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Ref,
}

impl Ty {
    pub fn width(self) -> u8 {
        match self {
            Ty::I32 | Ty::F32 => 32,
            _ => 64,
        }
    }
}

#[derive(Clone, Debug)]
pub struct FuncTy {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}

#[derive(Clone, Copy, Debug)]
pub struct Tgt {
    pub pc: u32,
    pub height: u32,
    pub arity: u32,
}

#[derive(Clone, Debug)]
pub enum I {
    Unreachable,
    Br(Tgt),
    BrIf(Tgt),
    BrTable(Box<[Tgt]>), // last = default
    JmpZ(u32),
    Jmp(u32),
    Return,
    Call(u32),
    CallInd(u32),
    Drop,
    Select(u8),
    LGet(u32),
    LSet(u32),
    LTee(u32),
    GGet(u32),
    GSet(u32),
    Load { op: u8, off: u64 },
    Store { op: u8, off: u64 },
    MemSize,
    MemGrow,
    Const(u64),
    Num(u8),
    TruncSat(u8),
    MemCopy,
    MemFill,
    Bad(u32),
}

pub struct Func {
    pub ty: u32,
    pub import: Option<String>,
    pub name: String,
    pub nlocals: u32, // params + locals
    pub nparams: u32,
    pub nresults: u32,
    pub code: Vec<I>,
}

pub struct Module {
    pub types: Vec<FuncTy>,
    pub funcs: Vec<Func>,
    pub nimports: usize,
    pub globals: Vec<u64>,
    pub gtypes: Vec<Ty>,
    pub table: Vec<u32>, // u32::MAX = null
    pub mem_pages: u64,
    pub data: Vec<(u64, Vec<u8>)>,
    pub exports: HashMap<String, u32>,
    pub export_globals: HashMap<String, u32>,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn u(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return r;
            }
        }
    }
    fn s(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as i64) << s;
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.u() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn ty(&mut self) -> Ty {
        match self.u8() {
            0x7f => Ty::I32,
            0x7e => Ty::I64,
            0x7d => Ty::F32,
            0x7c => Ty::F64,
            _ => Ty::Ref,
        }
    }
    fn limits(&mut self) -> (u64, Option<u64>) {
        let f = self.u8();
        let min = self.u();
        let max = if f & 1 != 0 { Some(self.u()) } else { None };
        (min, max)
    }
    fn const_expr(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0u64;
        let mut st: Vec<u64> = vec![];
        loop {
            match self.u8() {
                0x41 => {
                    v = self.s() as u32 as u64;
                    st.push(v)
                }
                0x42 => {
                    v = self.s() as u64;
                    st.push(v)
                }
                0x23 => {
                    let i = self.u() as usize;
                    v = globals[i];
                    st.push(v)
                }
                0x44 => {
                    let b = self.bytes(8);
                    v = u64::from_le_bytes(b.try_into().unwrap());
                    st.push(v)
                }
                0x43 => {
                    let b = self.bytes(4);
                    v = u32::from_le_bytes(b.try_into().unwrap()) as u64;
                    st.push(v)
                }
                0x7c => {
                    let b = st.pop().unwrap();
                    let a = st.pop().unwrap();
                    v = a.wrapping_add(b);
                    st.push(v)
                }
                0xd0 => {
                    self.s();
                    v = u32::MAX as u64;
                }
                0xd2 => v = self.u(),
                0x0b => return v,
                x => panic!("const expr op {x:#x}"),
            }
        }
    }
}

pub fn parse(bytes: &[u8]) -> Module {
    assert_eq!(&bytes[0..4], b"\0asm");
    let mut m = Module {
        types: vec![],
        funcs: vec![],
        nimports: 0,
        globals: vec![],
        gtypes: vec![],
        table: vec![],
        mem_pages: 0,
        data: vec![],
        exports: HashMap::new(),
        export_globals: HashMap::new(),
    };
    let mut r = R { b: bytes, p: 8 };
    let mut names: HashMap<u32, String> = HashMap::new();
    let mut bodies: Vec<(usize, usize)> = vec![];
    while r.p < bytes.len() {
        let id = r.u8();
        let len = r.u() as usize;
        let end = r.p + len;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let n = r.u();
                            for _ in 0..n {
                                let i = r.u() as u32;
                                let s = r.name();
                                names.insert(i, s);
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                let n = r.u();
                for _ in 0..n {
                    let f = r.u8();
                    assert_eq!(f, 0x60, "only function types");
                    let np = r.u();
                    let params = (0..np).map(|_| r.ty()).collect();
                    let nr = r.u();
                    let results = (0..nr).map(|_| r.ty()).collect();
                    m.types.push(FuncTy { params, results });
                }
            }
            2 => {
                let n = r.u();
                for _ in 0..n {
                    let _md = r.name();
                    let nm = r.name();
                    match r.u8() {
                        0 => {
                            let ty = r.u() as u32;
                            let t = &m.types[ty as usize];
                            m.funcs.push(Func {
                                ty,
                                import: Some(nm.clone()),
                                name: nm,
                                nlocals: t.params.len() as u32,
                                nparams: t.params.len() as u32,
                                nresults: t.results.len() as u32,
                                code: vec![],
                            });
                            m.nimports += 1;
                        }
                        1 => {
                            r.u8();
                            r.limits();
                        }
                        2 => {
                            let (a, _) = r.limits();
                            m.mem_pages = a;
                        }
                        3 => {
                            let t = r.ty();
                            r.u8();
                            m.globals.push(0);
                            m.gtypes.push(t);
                        }
                        k => panic!("import kind {k}"),
                    }
                }
            }
            3 => {
                let n = r.u();
                for _ in 0..n {
                    let ty = r.u() as u32;
                    let t = &m.types[ty as usize];
                    m.funcs.push(Func {
                        ty,
                        import: None,
                        name: String::new(),
                        nlocals: t.params.len() as u32,
                        nparams: t.params.len() as u32,
                        nresults: t.results.len() as u32,
                        code: vec![],
                    });
                }
            }
            4 => {
                let n = r.u();
                for _ in 0..n {
                    r.u8();
                    let (min, _) = r.limits();
                    m.table = vec![u32::MAX; min as usize];
                }
            }
            5 => {
                let n = r.u();
                for _ in 0..n {
                    m.mem_pages = r.limits().0;
                }
            }
            6 => {
                let n = r.u();
                for _ in 0..n {
                    let t = r.ty();
                    r.u8();
                    let g = m.globals.clone();
                    let v = r.const_expr(&g);
                    m.globals.push(v);
                    m.gtypes.push(t);
                }
            }
            7 => {
                let n = r.u();
                for _ in 0..n {
                    let nm = r.name();
                    let k = r.u8();
                    let i = r.u() as u32;
                    if k == 0 {
                        m.exports.insert(nm, i);
                    } else if k == 3 {
                        m.export_globals.insert(nm, i);
                    }
                }
            }
            9 => {
                let n = r.u();
                for _ in 0..n {
                    let f = r.u();
                    assert!(f == 0 || f == 2 || f == 4, "elem flags {f}");
                    if f == 2 {
                        r.u();
                    }
                    let g = m.globals.clone();
                    let off = r.const_expr(&g) as usize;
                    if f == 2 {
                        r.u8();
                    }
                    let k = r.u();
                    for j in 0..k {
                        let fi = if f == 4 { r.const_expr(&g) as u32 } else { r.u() as u32 };
                        m.table[off + j as usize] = fi;
                    }
                }
            }
            10 => {
                let n = r.u();
                for _ in 0..n {
                    let l = r.u() as usize;
                    bodies.push((r.p, r.p + l));
                    r.p += l;
                }
            }
            11 => {
                let n = r.u();
                for _ in 0..n {
                    let f = r.u();
                    assert!(f == 0 || f == 2, "passive data segment");
                    if f == 2 {
                        r.u();
                    }
                    let g = m.globals.clone();
                    let off = r.const_expr(&g);
                    let l = r.u() as usize;
                    m.data.push((off, r.bytes(l).to_vec()));
                }
            }
            _ => {}
        }
        r.p = end;
    }
    for (i, f) in m.funcs.iter_mut().enumerate() {
        if let Some(n) = names.get(&(i as u32)) {
            f.name = n.clone();
        }
    }
    for (k, (s, e)) in bodies.into_iter().enumerate() {
        let idx = m.nimports + k;
        let (code, nl) = lower(&bytes[s..e], &m, idx);
        m.funcs[idx].code = code;
        m.funcs[idx].nlocals = nl;
    }
    m
}

struct Ctl {
    is_loop: bool,
    start: u32,
    height: u32,
    nparams: u32,
    nresults: u32,
    params: Vec<Ty>,
    results: Vec<Ty>,
    patches: Vec<(usize, usize)>, // (instruction, slot)
    else_patch: Option<usize>,
    dead: bool,
}

fn lower(b: &[u8], m: &Module, idx: usize) -> (Vec<I>, u32) {
    let mut r = R { b, p: 0 };
    let fty = &m.types[m.funcs[idx].ty as usize];
    let mut lt: Vec<Ty> = fty.params.clone();
    let g = r.u();
    for _ in 0..g {
        let n = r.u() as u32;
        let t = r.ty();
        for _ in 0..n {
            lt.push(t);
        }
    }
    let nl = lt.len() as u32;
    let mut c: Vec<I> = vec![];
    let mut ts: Vec<Ty> = vec![]; // operand types
    let mut ctl: Vec<Ctl> = vec![Ctl {
        is_loop: false,
        start: 0,
        height: 0,
        nparams: 0,
        nresults: fty.results.len() as u32,
        params: vec![],
        results: fty.results.clone(),
        patches: vec![],
        else_patch: None,
        dead: false,
    }];
    let blockty = |r: &mut R| -> (Vec<Ty>, Vec<Ty>) {
        let v = r.s();
        match v {
            -64 => (vec![], vec![]),
            -1 => (vec![], vec![Ty::I32]),
            -2 => (vec![], vec![Ty::I64]),
            -3 => (vec![], vec![Ty::F32]),
            -4 => (vec![], vec![Ty::F64]),
            x if x < 0 => (vec![], vec![Ty::Ref]),
            _ => {
                let t = &m.types[v as usize];
                (t.params.clone(), t.results.clone())
            }
        }
    };
    fn tgt(ctl: &mut Vec<Ctl>, d: u32, ins: usize, slot: usize) -> Tgt {
        let i = ctl.len() - 1 - d as usize;
        let k = &mut ctl[i];
        if k.is_loop {
            Tgt { pc: k.start, height: k.height, arity: k.nparams }
        } else {
            k.patches.push((ins, slot));
            Tgt { pc: u32::MAX, height: k.height, arity: k.nresults }
        }
    }
    fn patch(c: &mut Vec<I>, ps: &[(usize, usize)], pc: u32) {
        for &(i, s) in ps {
            match &mut c[i] {
                I::Br(t) | I::BrIf(t) => t.pc = pc,
                I::BrTable(v) => v[s].pc = pc,
                x => panic!("patch {x:?}"),
            }
        }
    }
    loop {
        if r.p >= b.len() {
            break;
        }
        let op = r.u8();
        let dead = ctl.last().map(|k| k.dead).unwrap_or(false);
        // in dead code the height is irrelevant; keep it from underflowing
        macro_rules! pop {
            ($n:expr) => {
                for _ in 0..$n {
                    ts.pop();
                }
            };
        }
        match op {
            0x00 => {
                c.push(I::Unreachable);
                ctl.last_mut().unwrap().dead = true;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (ps, rs) = blockty(&mut r);
                ctl.push(Ctl {
                    is_loop: op == 3,
                    start: c.len() as u32,
                    height: (ts.len() as u32).saturating_sub(ps.len() as u32),
                    nparams: ps.len() as u32,
                    nresults: rs.len() as u32,
                    params: ps,
                    results: rs,
                    patches: vec![],
                    else_patch: None,
                    dead,
                });
            }
            0x04 => {
                let (ps, rs) = blockty(&mut r);
                pop!(1);
                let at = c.len();
                c.push(I::JmpZ(u32::MAX));
                ctl.push(Ctl {
                    is_loop: false,
                    start: 0,
                    height: (ts.len() as u32).saturating_sub(ps.len() as u32),
                    nparams: ps.len() as u32,
                    nresults: rs.len() as u32,
                    params: ps,
                    results: rs,
                    patches: vec![],
                    else_patch: Some(at),
                    dead,
                });
            }
            0x05 => {
                let at = c.len();
                let outer_dead = if ctl.len() >= 2 { ctl[ctl.len() - 2].dead } else { false };
                let k = ctl.last_mut().unwrap();
                let t = Tgt { pc: u32::MAX, height: k.height, arity: k.nresults };
                c.push(I::Br(t));
                k.patches.push((at, 0));
                let ep = k.else_patch.take().unwrap();
                k.dead = outer_dead;
                ts.resize(k.height as usize, Ty::I64);
                ts.extend(k.params.iter());
                c[ep] = I::JmpZ(c.len() as u32);
            }
            0x0b => {
                let k = ctl.pop().unwrap();
                let pc = c.len() as u32;
                if let Some(ep) = k.else_patch {
                    c[ep] = I::JmpZ(pc);
                }
                patch(&mut c, &k.patches, pc);
                ts.resize(k.height as usize, Ty::I64);
                ts.extend(k.results.iter());
                if ctl.is_empty() {
                    c.push(I::Return);
                    break;
                }
            }
            0x0c => {
                let d = r.u() as u32;
                let at = c.len();
                let t = tgt(&mut ctl, d, at, 0);
                c.push(I::Br(t));
                ctl.last_mut().unwrap().dead = true;
            }
            0x0d => {
                let d = r.u() as u32;
                pop!(1);
                let at = c.len();
                let t = tgt(&mut ctl, d, at, 0);
                c.push(I::BrIf(t));
            }
            0x0e => {
                let n = r.u() as usize;
                pop!(1);
                let at = c.len();
                let mut v = vec![];
                for s in 0..=n {
                    let d = r.u() as u32;
                    v.push(tgt(&mut ctl, d, at, s));
                }
                c.push(I::BrTable(v.into_boxed_slice()));
                ctl.last_mut().unwrap().dead = true;
            }
            0x0f => {
                c.push(I::Return);
                ctl.last_mut().unwrap().dead = true;
            }
            0x10 => {
                let f = r.u() as u32;
                let t = &m.types[m.funcs[f as usize].ty as usize];
                pop!(t.params.len() as u32);
                ts.extend(t.results.iter());
                c.push(I::Call(f));
            }
            0x11 => {
                let ty = r.u() as u32;
                r.u();
                let t = &m.types[ty as usize];
                pop!(1 + t.params.len() as u32);
                ts.extend(t.results.iter());
                c.push(I::CallInd(ty));
            }
            0x1a => {
                pop!(1);
                c.push(I::Drop);
            }
            0x1b => {
                pop!(2);
                let w = ts.last().map_or(64, |t| t.width());
                c.push(I::Select(w));
            }
            0x1c => {
                let n = r.u();
                let mut w = 64;
                for _ in 0..n {
                    w = r.ty().width();
                }
                pop!(2);
                c.push(I::Select(w));
            }
            0x20 => {
                let i = r.u() as u32;
                ts.push(lt[i as usize]);
                c.push(I::LGet(i));
            }
            0x21 => {
                pop!(1);
                c.push(I::LSet(r.u() as u32));
            }
            0x22 => c.push(I::LTee(r.u() as u32)),
            0x23 => {
                let i = r.u() as u32;
                ts.push(m.gtypes[i as usize]);
                c.push(I::GGet(i));
            }
            0x24 => {
                pop!(1);
                c.push(I::GSet(r.u() as u32));
            }
            0x28..=0x35 => {
                r.u();
                let off = r.u();
                pop!(1);
                ts.push(match op {
                    0x28 | 0x2c..=0x2f => Ty::I32,
                    0x2a => Ty::F32,
                    0x2b => Ty::F64,
                    _ => Ty::I64,
                });
                c.push(I::Load { op, off });
            }
            0x36..=0x3e => {
                r.u();
                let off = r.u();
                pop!(2);
                c.push(I::Store { op, off });
            }
            0x3f => {
                r.u8();
                ts.push(Ty::I64);
                c.push(I::MemSize);
            }
            0x40 => {
                r.u8();
                c.push(I::MemGrow);
            }
            0x41 => {
                ts.push(Ty::I32);
                c.push(I::Const(r.s() as u32 as u64));
            }
            0x42 => {
                ts.push(Ty::I64);
                c.push(I::Const(r.s() as u64));
            }
            0x43 => {
                ts.push(Ty::F32);
                c.push(I::Const(u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64));
            }
            0x44 => {
                ts.push(Ty::F64);
                c.push(I::Const(u64::from_le_bytes(r.bytes(8).try_into().unwrap())));
            }
            0x45..=0xc4 => {
                let unary = matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
                pop!(if unary { 1 } else { 2 });
                ts.push(match op {
                    0x45..=0x78 | 0xa7..=0xab | 0xbc | 0xc0 | 0xc1 => Ty::I32,
                    0x79..=0x8a | 0xac..=0xb1 | 0xbd | 0xc2..=0xc4 => Ty::I64,
                    0x8b..=0x98 | 0xb2..=0xb6 | 0xbe => Ty::F32,
                    _ => Ty::F64,
                });
                c.push(I::Num(op));
            }
            0xfc => {
                let s = r.u();
                match s {
                    0..=7 => {
                        pop!(1);
                        ts.push(if s < 4 { Ty::I32 } else { Ty::I64 });
                        c.push(I::TruncSat(s as u8))
                    }
                    10 => {
                        r.u();
                        r.u();
                        pop!(3);
                        c.push(I::MemCopy);
                    }
                    11 => {
                        r.u();
                        pop!(3);
                        c.push(I::MemFill);
                    }
                    _ => panic!("0xfc {s} in {}", m.funcs[idx].name),
                }
            }
            _ => panic!("opcode {op:#x} in {}", m.funcs[idx].name),
        }
    }
    (c, nl)
}
