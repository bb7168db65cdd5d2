//! C11: rotate, heartbeat, query, XID, INTVAR, USER_VAR and rows query events are decoded exactly.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

fn run(e: Ev) {
    let mut p = EventParser::new();
    check_ev(&mut p, &e, "event body");
}
/// text of `n` bytes: all of them arbitrary for short ones, the first, middle and last for long ones
fn text(n: usize) -> Vec<u8> {
    if n <= 5 {
        return any_utf8(n);
    }
    let mut v = vec![b'm'; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        v[i] = any_u8() & 0x7f;
    }
    v
}
pub fn h_c11_scalar(_: u32) {
    match choose(2) {
        0 => run(xid()),
        _ => run(intvar()),
    }
    cover("scalar");
}
/// file names of `arg` bytes
pub fn h_c11_file(arg: u32) {
    let s = text(arg as usize);
    if choose(2) == 0 {
        run(rotate(any_u64(), &s));
        cover("rotate");
    } else {
        run(heartbeat(&s));
        cover("heartbeat");
    }
}
/// query texts of `arg` bytes
pub fn h_c11_text(arg: u32) {
    let s = text(arg as usize);
    match choose(3) {
        0 => {
            run(annotate(&s));
            cover("annotate");
        }
        1 => {
            run(rows_query(&s));
            cover("rows query");
        }
        _ => {
            let st = any_bytes(choose(4) as usize);
            run(query(any_u32(), any_u32(), any_u16(), &st, b"db", &s));
            cover("query");
        }
    }
}
/// database names and status blocks of many sizes
pub fn h_c11_query(_: u32) {
    let db = text(pick(&[0usize, 1, 2, 3, 64, 192, 255]));
    let mut st = vec![7u8; pick(&[0usize, 1, 20, 255, 256, 300])];
    let n = st.len();
    if n > 0 {
        st[0] = any_u8();
        st[n - 1] = any_u8();
    }
    run(query(any_u32(), any_u32(), any_u16(), &st, &db, &text(pick(&[0usize, 1, 4]))));
    cover("query sizes");
}
pub fn h_c11_uservar(_: u32) {
    let name = text(pick(&[0usize, 1, 3, 64, 260]));
    if choose(4) == 0 {
        run(uservar(&name, None));
        cover("null variable");
    } else {
        let v = text(pick(&[0usize, 1, 3, 300]));
        let flags = any_u8();
        run(uservar(&name, Some((any_u8(), any_u32(), &v, flags))));
        cover("variable");
    }
}
super::entries!(h_c11_scalar, h_c11_file, h_c11_text, h_c11_query, h_c11_uservar);
