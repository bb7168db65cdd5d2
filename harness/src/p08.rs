//! C08: date and time cells are decoded exactly, for every fractional precision.
use crate::{api::*, dump, dump::t, gen, gen::*, out::*};

fn below(n: u32) -> u32 {
    if n <= 255 {
        return any_below(n as u8) as u32;
    }
    // hundreds and the rest
    if n % 100 == 0 {
        return any_below((n / 100) as u8) as u32 * 100 + any_below(100) as u32;
    }
    let h = choose(n / 100 + 1);
    h * 100 + any_below(if h == n / 100 { n % 100 } else { 100 } as u8) as u32
}
/// fraction of a second with `fsp` digits: bytes on the wire, milliseconds
fn fraction(fsp: u32) -> (Vec<u8>, u64) {
    let n = ((fsp + 1) / 2) as usize;
    if n == 0 {
        return (vec![], 0);
    }
    let v = any_digits(fsp as usize, true).0 as u32;
    // odd precisions are stored with one more digit
    let stored = if fsp % 2 == 1 { v * 10 } else { v };
    let micros = v * 10u32.pow(6 - fsp);
    (stored.to_be_bytes()[4 - n..].to_vec(), (micros / 1000) as u64)
}
pub fn h_c08_date(_: u32) {
    let (y, m, d) = (below(10000), below(13), below(32));
    let v = y << 9 | m << 5 | d;
    let mut e = D::new();
    e.tag(t::DATE).n(y as u64).n(m as u64).n(d as u64);
    check_cell(&col(ct::DATE, &[]), &v.to_le_bytes()[..3], &e.0, "date");
    cover("date");
}
fn time_dump(h: u32, m: u32, s: u32, ms: u64) -> Vec<u8> {
    let mut e = D::new();
    e.tag(t::TIME).n(h as u64).n(m as u64).n(s as u64).n(ms);
    e.0
}
pub fn h_c08_time(_: u32) {
    let (h, m, s) = (below(839), below(60), below(60));
    let v = h * 10000 + m * 100 + s;
    check_cell(&col(ct::TIME, &[]), &v.to_le_bytes()[..3], &time_dump(h, m, s, 0), "time");
    cover("time");
}
pub fn h_c08_time2(fsp: u32) {
    let (h, m, s) = (below(839), below(60), below(60));
    let v = 0x80_0000 | h << 12 | m << 6 | s;
    let (f, ms) = fraction(fsp);
    let mut w = W::new();
    w.b(&v.to_be_bytes()[1..]).b(&f);
    check_cell(&col(ct::TIME2, &[fsp as u8]), &w.0, &time_dump(h, m, s, ms), "time2");
    cover("time2");
}
fn dt_dump(f: [u32; 6], ms: u64) -> Vec<u8> {
    let mut e = D::new();
    e.tag(t::DATETIME);
    for x in f {
        e.n(x as u64);
    }
    e.n(ms);
    e.0
}
/// packed decimal YYYYMMDDhhmmss; field `arg` (or all, 6) arbitrary, the others from a few values
pub fn h_c08_datetime(arg: u32) {
    let lim = [10000u32, 13, 32, 24, 60, 60];
    let some: [[u32; 6]; 3] = [[2024, 2, 29, 23, 59, 58], [0, 0, 0, 0, 0, 0], [9999, 12, 31, 0, 7, 9]];
    let mut f = some[choose(3) as usize];
    for i in 0..6 {
        if i == arg || arg == 6 {
            f[i as usize] = below(lim[i as usize]);
        }
    }
    let mut v = 0u64;
    for (i, x) in f.iter().enumerate() {
        v += *x as u64 * 100u64.pow(5 - i as u32);
    }
    check_cell(&col(ct::DATETIME, &[]), &v.to_le_bytes(), &dt_dump(f, 0), "datetime");
    cover("datetime");
}
pub fn h_c08_datetime2(fsp: u32) {
    let f = [below(10000), below(13), below(32), below(24), below(60), below(60)];
    let ym = (f[0] * 13 + f[1]) as u64;
    let v = 1u64 << 39 | ym << 22 | (f[2] as u64) << 17 | (f[3] as u64) << 12 | (f[4] as u64) << 6 | f[5] as u64;
    let (b, ms) = fraction(fsp);
    let mut w = W::new();
    w.b(&v.to_be_bytes()[3..]).b(&b);
    check_cell(&col(ct::DATETIME2, &[fsp as u8]), &w.0, &dt_dump(f, ms), "datetime2");
    cover("datetime2");
}
pub fn h_c08_timestamp(_: u32) {
    let v = any_u32();
    let mut d = D::new();
    d.tag(t::TIMESTAMP).n(v as u64 * 1000);
    check_cell(&col(ct::TIMESTAMP, &[]), &v.to_le_bytes(), &d.0, "timestamp");
    cover("timestamp");
}
pub fn h_c08_timestamp2(fsp: u32) {
    let v = any_u32();
    let (f, ms) = fraction(fsp);
    let mut w = W::new();
    w.b(&v.to_be_bytes()).b(&f);
    let mut d = D::new();
    d.tag(t::TIMESTAMP).n(v as u64 * 1000 + ms);
    check_cell(&col(ct::TIMESTAMP2, &[fsp as u8]), &w.0, &d.0, "timestamp2");
    cover("timestamp2");
}
super::entries!(h_c08_date, h_c08_time, h_c08_time2, h_c08_datetime, h_c08_datetime2, h_c08_timestamp, h_c08_timestamp2);
