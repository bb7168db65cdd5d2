//! C09: DECIMAL cells are decoded to the exact decimal text for every precision and scale.
use crate::{api::*, dump::t, gen::*, out::*};

const BYTES: [usize; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];

/// `arg` = precision * 100 + scale. Every digit is arbitrary; one group of digits (any) has any number of
/// leading zeros, the other groups either none or only zeros.
pub fn h_c09_decimal(arg: u32) {
    one((arg / 100) as usize, (arg % 100) as usize);
}
/// every scale of precision `arg`
pub fn h_c09_precision(arg: u32) {
    one(arg as usize, choose(arg.min(30) + 1) as usize);
}
fn one(p: usize, s: usize) {
    let int = p - s;
    let mut sizes = vec![];
    if int % 9 > 0 {
        sizes.push(int % 9);
    }
    sizes.resize(sizes.len() + int / 9, 9);
    sizes.resize(sizes.len() + s / 9, 9);
    if s % 9 > 0 {
        sizes.push(s % 9);
    }
    let special = choose(sizes.len() as u32) as usize;
    let lead = choose(sizes[special] as u32 + 1) as usize;
    let rest = if sizes.len() > 1 { choose(2) } else { 0 };
    let mut digits: Vec<u8> = vec![];
    // number of leading digits known to be zero
    let (mut zeros, mut counting) = (0, true);
    for (i, n) in sizes.iter().enumerate() {
        let z = if i == special { lead } else if rest == 1 { *n } else { 0 };
        digits.resize(digits.len() + z, 0);
        if counting {
            zeros += z;
        }
        counting &= z == *n;
        for k in z..*n {
            digits.push(if k == z { any_below(9) + 1 } else { any_below(10) });
        }
    }
    let sig = int - zeros.min(int);
    // there is no negative zero
    let neg = zeros < p && choose(2) == 1;
    // groups of nine digits from the decimal point outwards, each a big-endian number
    let mut w: Vec<u8> = vec![];
    let mut group = |d: &[u8]| {
        let mut v = 0u32;
        for x in d {
            v = v * 10 + *x as u32;
        }
        w.extend_from_slice(&v.to_be_bytes()[4 - BYTES[d.len()]..]);
    };
    let lead = int % 9;
    group(&digits[..lead]);
    for c in digits[lead..int].chunks(9) {
        group(c);
    }
    for c in digits[int..].chunks(9) {
        group(c);
    }
    w[0] ^= 0x80;
    if neg {
        for x in w.iter_mut() {
            *x ^= 0xff;
        }
    }
    let mut text: Vec<u8> = vec![];
    if neg {
        text.push(b'-');
    }
    if sig == 0 {
        text.push(b'0');
    }
    for i in int - sig..int {
        text.push(b'0' + digits[i]);
    }
    if s > 0 {
        text.push(b'.');
        for d in &digits[int..] {
            text.push(b'0' + *d);
        }
    }
    let mut d = D::new();
    d.tag(t::DECIMAL).s(&text);
    check_cell(&col(ct::NEWDECIMAL, &[p as u8, s as u8]), &w, &d.0, "decimal");
    cover(if neg { "negative" } else { "positive" });
    cover("decimal");
}
super::entries!(h_c09_decimal, h_c09_precision);
