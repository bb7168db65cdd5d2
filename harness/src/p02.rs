//! C02: header fields and dispatch by event type code.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::{event_header::EventHeader, event_parser::EventParser};

const KNOWN: &[u8] = &[
    QUERY, ROTATE, INTVAR, USER_VAR, FORMAT, XID, TABLE_MAP, WRITE1, UPDATE1, DELETE1, HEARTBEAT, ROWS_QUERY, WRITE2, UPDATE2, DELETE2, MY_GTID,
    MY_PREV, ANNOTATE, MA_GTID, MA_LIST,
];
/// all 19 bytes arbitrary; `arg` more or fewer bytes
pub fn h_c02_header(arg: u32) {
    let b = any_bytes(arg as usize);
    let r = EventHeader::parse(&b);
    match r {
        Ok(h) => {
            check(b.len() >= 19, "a complete header is required");
            let mut d = D::new();
            dump::header(&mut d, &h);
            observe(&d.0);
            let le = |a: usize, n: usize| {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (b[a + i] as u64) << (8 * i);
                }
                v
            };
            let mut e = D::new();
            e.n(le(0, 4)).n(le(4, 1)).n(le(5, 4)).n(le(9, 4)).n(le(13, 4)).n(le(17, 2));
            check_eq(&d.0, &e.0, "header fields");
            cover("header");
        }
        Err(_) => {
            check(b.len() < 19, "19 bytes are a header");
            cover("incomplete header");
        }
    }
}
/// any other code with any body is an unknown event
pub fn h_c02_unknown(arg: u32) {
    let body = any_bytes(arg as usize);
    let ty = any_u8();
    for k in KNOWN {
        assume(ty != *k);
    }
    let mut p = EventParser::new();
    let mut h = H::any(ty, body.len());
    h.len = any_u32();
    let r = p.parse_event(&h.header(), &body);
    check_eq(&dump::result(&r), &[dump::t::UNKNOWN], "codes without a decoder give UnknownEvent");
    // and leave no trace
    check_ev(&mut p, &xid(), "event after an unknown one");
    cover("unknown");
}
/// each code selects its decoder
pub fn h_c02_known(_: u32) {
    let mut p = EventParser::new();
    let cols = [col(ct::TINY, &[])];
    let e = match choose(20) {
        0 => sql(b"x"),
        1 => rotate(any_u64(), b"f"),
        2 => intvar(),
        3 => uservar(b"n", None),
        4 => fde(false),
        5 => xid(),
        6 => gen::table_map(9, &cols),
        7 => heartbeat(b"f"),
        8 => rows_query(b"q"),
        9 => my_gtid(any_u8(), &any_uuid(1), any_u64(), 0),
        10 => {
            let mut d = D::new();
            d.tag(dump::t::MY_PREV).n(0);
            Ev { ty: MY_PREV, body: vec![0; 8], want: d.0 }
        }
        11 => annotate(b"q"),
        12 => ma_gtid(any_u8(), any_u32(), 1, any_u64()),
        13 => {
            let mut d = D::new();
            d.tag(dump::t::MA_LIST).n(0);
            Ev { ty: MA_LIST, body: vec![0; 4], want: d.0 }
        }
        n => {
            check_ev(&mut p, &gen::table_map(9, &cols), "table map");
            let op = [Op::Write, Op::Update, Op::Delete][(n as usize - 14) / 2];
            let v = 1 + (n as u8) % 2;
            let mut w = rows_head(v, 9, 1, &[], 1);
            w.u8(1);
            let mut d = D::new();
            d.tag(match op {
                Op::Write => dump::t::WRITE,
                Op::Update => dump::t::UPDATE,
                Op::Delete => dump::t::DELETE,
            });
            d.n(9).n(1).n(1).bits(&[true]);
            if op == Op::Update {
                w.u8(1);
                d.bits(&[true]);
            }
            d.n(1);
            for _ in 0..(1 + (op == Op::Update) as u8) {
                let x = any_u8();
                w.u8(0).u8(x);
                d.n(1).tag(1).tag(dump::t::TINY).n(x as u64);
            }
            Ev { ty: rows_code(op, v), body: w.0, want: d.0 }
        }
    };
    check_ev(&mut p, &e, "the code selects the decoder");
    cover("known");
}
super::entries!(h_c02_header, h_c02_unknown, h_c02_known);
