//! C07: numeric, string, binary, BIT, ENUM, SET and YEAR cells are decoded exactly.
use crate::{api::*, dump, dump::t, gen, gen::*, out::*};

fn val(tag: u8, v: u64) -> Vec<u8> {
    let mut d = D::new();
    d.tag(tag).n(v);
    d.0
}
pub fn h_c07_num(_: u32) {
    let mut w = W::new();
    let (c, want) = match choose(7) {
        0 => {
            let v = any_u8();
            w.u8(v);
            (col(ct::TINY, &[]), val(t::TINY, v as u64))
        }
        1 => {
            let v = any_u16();
            w.u16(v);
            (col(ct::SHORT, &[]), val(t::SHORT, v as u64))
        }
        2 => {
            let v = any_u32() & 0xff_ffff;
            w.u24(v);
            (col(ct::INT24, &[]), val(t::INT24, v as u64))
        }
        3 => {
            let v = any_u32();
            w.u32(v);
            (col(ct::LONG, &[]), val(t::LONG, v as u64))
        }
        4 => {
            let v = any_u64();
            w.u64(v);
            (col(ct::LONGLONG, &[]), val(t::LONGLONG, v))
        }
        5 => {
            let v = any_u32();
            w.u32(v);
            (col(ct::FLOAT, &[4]), val(t::FLOAT, v as u64))
        }
        _ => {
            let v = any_u64();
            w.u64(v);
            (col(ct::DOUBLE, &[8]), val(t::DOUBLE, v))
        }
    };
    check_cell(&c, &w.0, &want, "number");
    cover("num");
}
fn text(n: usize) -> Vec<u8> {
    if n <= 4 {
        return any_utf8(n);
    }
    let mut v = vec![b'q'; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        v[i] = any_u8() & 0x7f;
    }
    v
}
fn string_cell(c: &Col, max: usize, s: &[u8]) {
    let mut w = W::new();
    if max < 256 {
        w.u8(s.len() as u8);
    } else {
        w.u16(s.len() as u16);
    }
    w.b(s);
    let mut d = D::new();
    d.tag(t::STRING).s(s);
    check_cell(c, &w.0, &d.0, "string");
}
/// VARCHAR and VARBINARY: the declared maximal size selects the size of the length prefix
pub fn h_c07_varchar(_: u32) {
    let max = any_u16();
    let ty = pick(&[ct::VARCHAR, ct::VARSTRING]);
    let wide = choose(2) == 1;
    assume((max > 255) == wide);
    let n = if wide { pick(&[0usize, 1, 3, 255, 256, 700, 40000]) } else { pick(&[0usize, 1, 2, 3, 4, 254, 255]) };
    assume(n <= max as usize);
    let s = text(n);
    string_cell(&col(ty, &max.to_le_bytes()), if wide { 65535 } else { 255 }, &s);
    cover(if wide { "two byte length" } else { "one byte length" });
}
/// CHAR and BINARY: lengths up to 1023 are spread over both metadata bytes
pub fn h_c07_char(_: u32) {
    let max = any_u16();
    assume(max <= 1023);
    let wide = choose(2) == 1;
    assume((max > 255) == wide);
    let meta = [0xfe ^ ((max & 0x300) >> 4) as u8, max as u8];
    let n = if wide { pick(&[0usize, 1, 3, 255, 256, 1023]) } else { pick(&[0usize, 1, 2, 3, 4, 255]) };
    assume(n <= max as usize);
    let s = text(n);
    string_cell(&col(ct::STRING, &meta), if wide { 1023 } else { 255 }, &s);
    cover(if wide { "long char" } else { "char" });
}
pub fn h_c07_blob(_: u32) {
    let ty = pick(&[ct::TINYBLOB, ct::MEDIUMBLOB, ct::LONGBLOB, ct::BLOB, ct::JSON, ct::GEOMETRY]);
    let p = 1 + choose(4) as usize;
    let n = pick(&[0usize, 1, 5, 255, 256, 66000]);
    assume(n < 1 << (8 * p));
    let mut b = vec![0x55; n];
    for i in 0..n.min(5) {
        b[i] = any_u8();
    }
    if n > 5 {
        b[n - 1] = any_u8();
    }
    let mut w = W::new();
    w.b(&(n as u32).to_le_bytes()[..p]).b(&b);
    let mut d = D::new();
    d.tag(t::BLOB).s(&b);
    check_cell(&col(ty, &[p as u8]), &w.0, &d.0, "blob");
    cover("blob");
}
/// BIT(n), most significant bit first
pub fn h_c07_bit(_: u32) {
    let n = 1 + choose(64) as usize;
    let v = any_u64() & (u64::MAX >> (64 - n));
    let size = (n + 7) / 8;
    let mut w = W::new();
    w.b(&v.to_be_bytes()[8 - size..]);
    let bits: Vec<bool> = (0..n).rev().map(|i| (v >> i) & 1 == 1).collect();
    let mut d = D::new();
    d.tag(t::BIT).bits(&bits);
    check_cell(&col(ct::BIT, &[(n % 8) as u8, (n / 8) as u8]), &w.0, &d.0, "bit");
    cover("bit");
}
/// ENUM and SET are stored in CHAR columns with the real type in the metadata
pub fn h_c07_enum(_: u32) {
    if choose(2) == 0 {
        let p = 1 + choose(2) as usize;
        let v = any_uint(p);
        check_cell(&col(ct::STRING, &[ct::ENUM, p as u8]), &v.to_le_bytes()[..p], &val(t::ENUM, v), "enum");
        cover("enum");
    } else {
        let p = pick(&[1usize, 2, 3, 4, 8]);
        let v = any_uint(p);
        check_cell(&col(ct::STRING, &[ct::SET, p as u8]), &v.to_le_bytes()[..p], &val(t::SET, v), "set");
        cover("set");
    }
}
pub fn h_c07_year(_: u32) {
    let v = any_u8();
    let y = if v == 0 { 0 } else { 1900 + v as u64 };
    check_cell(&col(ct::YEAR, &[]), &[v], &val(t::YEAR, y), "year");
    cover("year");
}
super::entries!(h_c07_num, h_c07_varchar, h_c07_char, h_c07_blob, h_c07_bit, h_c07_enum, h_c07_year);
