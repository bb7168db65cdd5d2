//! C05: optional table metadata is decoded exactly.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

const NUMERIC: &[u8] = &[ct::TINY, ct::SHORT, ct::INT24, ct::LONG, ct::LONGLONG, ct::FLOAT, ct::DOUBLE, ct::NEWDECIMAL];

/// an arbitrary number below 2^32 in one of the encodings
fn num(w: &mut W) -> u32 {
    match choose(4) {
        0 => {
            let v = any_u8();
            assume(v < 251);
            w.u8(v);
            v as u32
        }
        1 => {
            let v = any_u16();
            w.u8(0xfc).u16(v);
            v as u32
        }
        2 => {
            let v = any_u32() & 0xff_ffff;
            w.u8(0xfd).u24(v);
            v
        }
        _ => {
            let v = any_u32();
            w.u8(0xfe).u64(v as u64);
            v
        }
    }
}
fn nums(w: &mut W, d: &mut D, max: u32) {
    let n = choose(max + 1);
    d.n(n as u64);
    for _ in 0..n {
        let v = num(w);
        d.n(v as u64);
    }
}
fn pairs(w: &mut W, d: &mut D, max: u32) {
    let n = choose(max + 1);
    d.n(n as u64);
    for _ in 0..n {
        let (a, b) = (num(w), num(w));
        d.n(a as u64).n(b as u64);
    }
}
fn text() -> Vec<u8> {
    match choose(4) {
        0 => vec![],
        1 => any_utf8(1),
        2 => any_utf8(3),
        _ => {
            let mut v = vec![b'c'; 260];
            v[259] = any_u8() & 0x7f;
            v
        }
    }
}
fn charset(w: &mut W, d: &mut D) {
    let v = num(w);
    d.n(v as u64);
    pairs(w, d, 1);
}
/// Writes field `k` (1..=12): its value on the wire and its dump.
fn field(k: u32, cols: &[Col], thin: bool) -> (W, D) {
    let (mut w, mut d) = (W::new(), D::new());
    match k {
        1 => {
            let n = cols.iter().filter(|c| NUMERIC.contains(&c.ty)).count();
            let b = any_bits(n);
            w.b(&bitmap_msb(&b));
            d.bits(&b);
        }
        2 | 10 => charset(&mut w, &mut d),
        3 | 7 | 8 | 11 => nums(&mut w, &mut d, if thin { 1 } else { 2 }),
        4 => {
            let n = choose(3);
            d.n(n as u64);
            for _ in 0..n {
                let s = text();
                w.lenstr(&s);
                d.s(&s);
            }
        }
        5 | 6 => {
            // up to two columns of up to two names
            let n = choose(3);
            d.n(n as u64);
            for i in 0..n {
                let m = choose(3);
                w.lenenc(m as u64);
                d.n(m as u64);
                for _ in 0..m {
                    let s = if i == 0 && !thin { text() } else { any_utf8(1) };
                    w.lenstr(&s);
                    d.s(&s);
                }
            }
        }
        9 => pairs(&mut w, &mut d, if thin { 1 } else { 2 }),
        _ => {
            let b = any_bits(cols.len());
            w.b(&bitmap_msb(&b));
            d.bits(&b);
        }
    }
    (w, d)
}
fn go(cols: &[Col], fields: &[u32], thin: bool) {
    let nulls = vec![false; cols.len()];
    let mut w = table_map_body(5, b"db", b"t", cols, &nulls);
    let mut d = table_map_dump(5, b"db", b"t", cols, &nulls);
    d.tag(1);
    let mut got: Vec<Option<D>> = (0..13).map(|_| None).collect();
    for &k in fields {
        let (fw, fd) = field(k, cols, thin);
        w.u8(k as u8).lenstr(&fw.0);
        got[k as usize] = Some(fd);
    }
    for k in 1..=12 {
        match &got[k] {
            None => d.tag(0),
            Some(x) => {
                d.tag(1);
                d.0.extend_from_slice(&x.0);
                &mut d
            }
        };
    }
    let mut p = EventParser::new();
    check_ev(&mut p, &Ev { ty: TABLE_MAP, body: w.0, want: d.0 }, "table metadata");
}
fn some_cols() -> Vec<Col> {
    [ct::TINY, ct::VARCHAR, ct::LONG, ct::BLOB, ct::NEWDECIMAL, ct::YEAR, ct::STRING, ct::FLOAT]
        .iter()
        .map(|t| Col { ty: *t, meta: vec![1; meta_size(*t).0] })
        .collect()
}
/// field `arg` alone
pub fn h_c05_one(arg: u32) {
    go(&some_cols(), &[arg], false);
    cover("one");
}
/// bitmaps over `arg` columns: only numeric columns have a signedness bit, visibility covers all
pub fn h_c05_bits(arg: u32) {
    let all = super::gen::ct::TINY;
    let _ = all;
    let types = [
        ct::TINY, ct::SHORT, ct::DATE, ct::INT24, ct::LONG, ct::VARCHAR, ct::LONGLONG, ct::FLOAT, ct::BIT, ct::DOUBLE, ct::NEWDECIMAL, ct::STRING, ct::BLOB,
        ct::TIMESTAMP2, ct::JSON, ct::ENUM, ct::SET, ct::GEOMETRY, ct::TIME2, ct::DATETIME2,
    ];
    let s = choose(types.len() as u32) as usize;
    let cols: Vec<Col> = (0..arg as usize)
        .map(|i| {
            let t = types[(s + i) % types.len()];
            Col { ty: t, meta: vec![1; meta_size(t).0] }
        })
        .collect();
    go(&cols, &[1, 12], false);
    cover("bits");
}
/// `arg` different fields in any order
pub fn h_c05_mix(arg: u32) {
    let mut f: Vec<u32> = vec![];
    for _ in 0..arg {
        let k = 1 + choose(12);
        assume(!f.contains(&k));
        f.push(k);
    }
    let cols = vec![col(ct::TINY, &[]), col(ct::STRING, &[0xf7, 1])];
    go(&cols, &f, true);
    cover("mix");
}
/// the optional part is absent
pub fn h_c05_none(_: u32) {
    let mut p = EventParser::new();
    check_ev(&mut p, &table_map(any_u64() >> 16, &some_cols()), "no metadata");
    cover("none");
}
/// every list has `arg` elements
pub fn h_c05_long(arg: u32) {
    let cols = some_cols();
    let nulls = vec![false; cols.len()];
    let k = pick(&[2u8, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
    let (mut f, mut d) = (W::new(), D::new());
    let n = arg as u64;
    if k == 2 || k == 10 {
        f.lenenc(45);
        d.n(45);
    }
    if k == 5 || k == 6 {
        f.lenenc(n);
        d.n(1);
    }
    d.n(n);
    let v = num(&mut W::new()) as u64;
    for i in 0..n {
        // the last number is arbitrary
        let x = if i + 1 == n { v } else { i };
        match k {
            4 | 5 | 6 => {
                let s = vec![b'a' + (i % 26) as u8; (i % 3) as usize];
                f.lenstr(&s);
                d.s(&s);
            }
            2 | 9 | 10 => {
                f.lenenc(i).u8(0xfe).u64(x);
                d.n(i).n(x);
            }
            _ => {
                f.u8(0xfe).u64(x);
                d.n(x);
            }
        }
    }
    let mut w = table_map_body(5, b"db", b"t", &cols, &nulls);
    let mut want = table_map_dump(5, b"db", b"t", &cols, &nulls);
    w.u8(k).lenstr(&f.0);
    want.tag(1);
    for i in 1..=12 {
        if i == k {
            want.tag(1).0.extend_from_slice(&d.0);
        } else {
            want.tag(0);
        }
    }
    let mut p = EventParser::new();
    check_ev(&mut p, &Ev { ty: TABLE_MAP, body: w.0, want: want.0 }, "table metadata");
    cover("long");
}
super::entries!(h_c05_one, h_c05_bits, h_c05_mix, h_c05_none, h_c05_long);
