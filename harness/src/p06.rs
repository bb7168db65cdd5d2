//! C06: rows events yield exactly the rows they contain, every cell in its column.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

fn cols(n: usize) -> Vec<Col> {
    (0..n)
        .map(|i| match i % 4 {
            0 => col(ct::TINY, &[]),
            1 => col(ct::VARCHAR, &[20, 0]),
            2 => col(ct::SHORT, &[]),
            _ => col(ct::LONGLONG, &[]),
        })
        .collect()
}
fn cell(c: &Col, w: &mut W, d: &mut D) {
    d.tag(1);
    match c.ty {
        ct::TINY => {
            let v = any_u8();
            w.u8(v);
            d.tag(dump::t::TINY).n(v as u64);
        }
        ct::SHORT => {
            let v = any_u16();
            w.u16(v);
            d.tag(dump::t::SHORT).n(v as u64);
        }
        ct::LONGLONG => {
            let v = any_u64();
            w.u64(v);
            d.tag(dump::t::LONGLONG).n(v);
        }
        _ => {
            let s = any_ascii(2);
            w.u8(2).b(&s);
            d.tag(dump::t::STRING).s(&s);
        }
    }
}
/// one row image: absent columns and NULLs give None
fn image(cols: &[Col], present: &[bool], null: &[bool], w: &mut W, d: &mut D) {
    let mut nb = vec![];
    let mut body = W::new();
    d.n(cols.len() as u64);
    for i in 0..cols.len() {
        if !present[i] {
            d.tag(0);
        } else if null[i] {
            nb.push(true);
            d.tag(0);
        } else {
            nb.push(false);
            cell(&cols[i], &mut body, d);
        }
    }
    w.b(&bitmap(&nb)).b(&body.0);
}
/// a concrete bit pattern for each structure explored
fn pattern(n: usize, any: bool) -> Vec<bool> {
    if any {
        (0..n).map(|_| choose(2) == 1).collect()
    } else {
        match choose(5) {
            0 => vec![true; n],
            1 => (0..n).map(|i| i % 2 == 0).collect(),
            2 => (0..n).map(|i| i % 3 == 1).collect(),
            3 => (0..n).map(|i| i >= n / 2).collect(),
            _ => (0..n).map(|i| i + 1 == n).collect(),
        }
    }
}
fn go(n: usize, nrows: usize, any: bool, op: Op, v: u8, extra: &[u8]) {
    let null = |p: &[bool]| -> Vec<bool> {
        if any {
            p.iter().map(|x| *x && choose(2) == 1).collect()
        } else {
            match choose(3) {
                0 => vec![false; n],
                1 => vec![true; n],
                _ => (0..n).map(|i| i % 3 == 0).collect(),
            }
        }
    };
    with(n, nrows, op, v, extra, &mut || pattern(n, any), &null)
}
fn with(n: usize, nrows: usize, op: Op, v: u8, extra: &[u8], present: &mut dyn FnMut() -> Vec<bool>, null: &dyn Fn(&[bool]) -> Vec<bool>) {
    let cs = cols(n);
    let id = any_u64() >> 16;
    let mut p = EventParser::new();
    check_ev(&mut p, &table_map(id, &cs), "table map");
    let flags = any_u16();
    let mut w = rows_head(v, id, flags, extra, n);
    let before = present();
    assume(before.iter().any(|x| *x));
    w.b(&bitmap(&before));
    let mut d = D::new();
    d.tag(match op {
        Op::Write => dump::t::WRITE,
        Op::Update => dump::t::UPDATE,
        Op::Delete => dump::t::DELETE,
    });
    d.n(id).n(flags as u64).n(n as u64).bits(&before);
    let after = if op == Op::Update {
        let a = present();
        assume(a.iter().any(|x| *x));
        w.b(&bitmap(&a));
        d.bits(&a);
        Some(a)
    } else {
        None
    };
    d.n(nrows as u64);
    for _ in 0..nrows {
        let nl = null(&before);
        image(&cs, &before, &nl, &mut w, &mut d);
        if let Some(a) = &after {
            let nl = null(a);
            image(&cs, a, &nl, &mut w, &mut d);
        }
    }
    check_ev(&mut p, &Ev { ty: rows_code(op, v), body: w.0, want: d.0 }, "rows");
    cover(match op {
        Op::Write => "write",
        Op::Update => "update",
        Op::Delete => "delete",
    });
}
fn kind() -> (Op, u8) {
    (pick(&[Op::Write, Op::Update, Op::Delete]), 1 + choose(2) as u8)
}
/// every present/NULL combination; arg = columns * 10 + rows
pub fn h_c06_small(arg: u32) {
    let (op, v) = kind();
    let extra: &[u8] = if v == 2 && choose(2) == 1 { &[7, 8, 9] } else { &[] };
    go(arg as usize / 10, arg as usize % 10, true, op, v, extra);
}
/// every set of present columns out of `arg` % 100 (`arg` < 100), or every set of NULLs among that many present ones;
/// of an update's two images one has the arbitrary set (`arg` / 100: 1 NULL, + 2 the after image)
pub fn h_c06_bits(arg: u32) {
    let (n, m) = (arg as usize % 100, arg / 100);
    let (op, v) = kind();
    if op != Op::Update && m & 2 != 0 {
        return;
    }
    let bits: Vec<bool> = (0..n).map(|_| choose(2) == 1).collect();
    let other: Vec<bool> = (0..n).map(|i| i % 3 != 1).collect();
    if m & 1 == 0 {
        let mut k = 0;
        with(n, 2, op, v, &[], &mut || {
            k += 1;
            if (k == 2) == (m & 2 != 0) { bits.clone() } else { other.clone() }
        }, &|p| vec![false; p.len()]);
    } else {
        with(n, 2, op, v, &[], &mut || vec![true; n], &|_| bits.clone());
    }
}
/// version 2 events with extra data of any size
pub fn h_c06_extra(_: u32) {
    let op = pick(&[Op::Write, Op::Update, Op::Delete]);
    let mut extra = any_bytes(3);
    extra.resize(pick(&[3usize, 125, 126, 127, 253, 254, 255, 256, 300, 32765, 32766, 65533]), 9);
    with(3, 1, op, 2, &extra, &mut || vec![true, false, true], &|_| vec![false, false, choose(2) == 1]);
}
/// many columns (several bitmap bytes); arg = columns * 10 + rows
pub fn h_c06_wide(arg: u32) {
    let (op, v) = kind();
    go(arg as usize / 10, arg as usize % 10, false, op, v, &[]);
}
/// many rows
pub fn h_c06_long(arg: u32) {
    let n = arg as usize;
    let cs = [col(ct::TINY, &[]), col(ct::SHORT, &[])];
    let mut p = EventParser::new();
    check_ev(&mut p, &table_map(6, &cs), "table map");
    let (op, v) = kind();
    let mut w = rows_head(v, 6, 1, &[], 2);
    w.u8(3);
    let mut d = D::new();
    d.tag(match op {
        Op::Write => dump::t::WRITE,
        Op::Update => dump::t::UPDATE,
        Op::Delete => dump::t::DELETE,
    });
    d.n(6).n(1).n(2).bits(&[true, true]);
    if op == Op::Update {
        w.u8(3);
        d.bits(&[true, true]);
    }
    d.n(n as u64);
    let half = choose(2) == 1;
    for i in 0..n * if op == Op::Update { 2 } else { 1 } {
        let nul = half && i % 2 == 1;
        image(&cs, &[true, true], &[nul, !nul && half], &mut w, &mut d);
    }
    check_ev(&mut p, &Ev { ty: rows_code(op, v), body: w.0, want: d.0 }, "rows");
    cover("long");
}
super::entries!(h_c06_bits, h_c06_extra, h_c06_small, h_c06_wide, h_c06_long);
