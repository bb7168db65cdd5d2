//! C03: the format description event is decoded for any server and switches checksum handling;
//! the checksum trailer is never part of the data.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

/// `arg` = number of event types the server knows
pub fn h_c03_format(arg: u32) {
    let n = arg as usize;
    let k = pick(&[0usize, 1, 6, 49, 50]);
    let mut name = vec![b'5'; k];
    for i in 0..k.min(3) {
        name[i] = any_u8() & 0x7f;
        assume(name[i] != 0);
    }
    let alg = match choose(4) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        _ => {
            let a = any_u8();
            assume(a > 1);
            Some(a)
        }
    };
    let lens = any_bytes(4);
    let mut e = format(any_u16(), &name, n, alg, |i| lens[i % 4]);
    let ok = !matches!(alg, Some(a) if a > 1);
    if !ok {
        e.want = ERR.to_vec();
    }
    let mut p = EventParser::new();
    check_ev(&mut p, &e, "format description");
    // what follows carries a checksum exactly if the event says so
    let mut x = some_text();
    if alg == Some(1) {
        x.body.extend(any_bytes(4));
    }
    check_ev(&mut p, &x, "event after the format description");
    cover(match alg {
        None => "old",
        Some(0) => "off",
        Some(1) => "crc32",
        _ => "unsupported",
    });
}
fn some_text() -> Ev {
    match choose(4) {
        0 => heartbeat(&any_utf8(3)),
        1 => rotate(any_u64(), &any_utf8(2)),
        2 => annotate(&any_utf8(1)),
        _ => xid(),
    }
}
fn some_event(p: &mut EventParser, crc: bool) -> Ev {
    match choose(9) {
        0 => heartbeat(&any_utf8(3)),
        1 => rotate(any_u64(), &any_utf8(2)),
        2 => annotate(&[]),
        3 => rows_query(&any_utf8(2)),
        4 => sql(&any_utf8(2)),
        5 => uservar(&any_utf8(1), Some((any_u8(), any_u32(), &any_utf8(2), any_u8()))),
        6 => table_map(any_u64() >> 16, &[col(ct::TINY, &[]), col(ct::VARCHAR, &any_bytes(2))]),
        7 => {
            let mut m = table_map(5, &[col(ct::TINY, &[])]);
            if crc {
                m.body.extend(any_bytes(4));
            }
            check_ev(p, &m, "table map");
            let mut w = rows_head(2, 5, 1, &[], 1);
            let mut d = D::new();
            d.tag(dump::t::WRITE).n(5).n(1).n(1).bits(&[true]);
            w.u8(1);
            let n = choose(3) as u64;
            d.n(n);
            for _ in 0..n {
                let v = any_u8();
                w.u8(0).u8(v);
                d.n(1).tag(1).tag(dump::t::TINY).n(v as u64);
            }
            Ev { ty: WRITE2, body: w.0, want: d.0 }
        }
        _ => xid(),
    }
}
/// the last four bytes are ignored exactly in checksum mode, through `arg` switches
pub fn h_c03_trailer(arg: u32) {
    let mut p = EventParser::new();
    let mut crc = false;
    for _ in 0..arg {
        let mut f = fde(!crc);
        if crc {
            // while checksums are on, the description itself carries one like any event
            cover("off again");
        }
        crc = !crc;
        let _ = &mut f;
        check_ev(&mut p, &f, "format description");
        let mut e = some_event(&mut p, crc);
        if crc {
            e.body.extend(any_bytes(4));
        }
        check_ev(&mut p, &e, "the checksum is not part of the event");
        cover("trailer");
    }
}
/// events too short for a checksum are errors
pub fn h_c03_short(arg: u32) {
    let mut p = EventParser::new();
    check_ev(&mut p, &fde(true), "format description");
    let ty = any_u8();
    let b = any_bytes(arg as usize);
    check_eq(&dump::result(&parse(&mut p, ty, &b)), ERR, "an event without room for its checksum is an error");
    cover("short");
}
super::entries!(h_c03_format, h_c03_trailer, h_c03_short);
