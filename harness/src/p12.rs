//! C12: events that carry GTIDs are decoded exactly.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::events::binlog_event::BinlogEvent;

/// MySQL GTID event of any server version (`arg` bytes after the transaction id); anonymous ones too
pub fn h_c12_mysql(arg: u32) {
    let mut p = EventParser::new();
    let mut u = [0u8; 16];
    fill(&mut u);
    let mut e = my_gtid(any_u8(), &u, any_u64(), 0);
    e.body.extend(any_bytes(arg as usize));
    check_ev(&mut p, &e, "mysql gtid event");
    cover("mysql");
}
/// `arg` = 10 * sources + intervals of each
pub fn h_c12_prev(arg: u32) {
    let (ns, ni) = (arg / 10, arg % 10);
    let mut w = W::new();
    let mut d = D::new();
    w.u64(ns as u64);
    d.tag(dump::t::MY_PREV).n(ns as u64);
    for i in 0..ns {
        let u = any_uuid(10 + i as u8);
        let t = uuid_text(&u);
        w.b(&u).u64(ni as u64);
        d.s(&t).s(&u).s(&t).n(ni as u64);
        for _ in 0..ni {
            // the end is exclusive on the wire
            let (a, b) = (any_u64(), any_u64());
            assume((a >= 1) & (b > a));
            w.u64(a).u64(b);
            d.n(a).n(b - 1);
        }
    }
    let mut p = EventParser::new();
    check_ev(&mut p, &Ev { ty: MY_PREV, body: w.0, want: d.0 }, "previous gtids");
    cover("previous");
}
/// MariaDB GTID: the server id is the one of the header
pub fn h_c12_mariadb(_: u32) {
    let flags = any_u8();
    let (seq, dom) = (any_u64(), any_u32());
    let mut w = W::new();
    w.u64(seq).u32(dom).u8(flags);
    // commit id, xid, or padding
    let n = pick(&[6usize, 8, 12, 20]);
    w.b(&any_bytes(n));
    let h = H::any(MA_GTID, w.len());
    let mut p = EventParser::new();
    let r = p.parse_event(&h.header(), &w.0);
    let mut d = D::new();
    d.tag(dump::t::MA_GTID).n(dom as u64).n(h.sid as u64).n(seq).n(flags as u64);
    let got = dump::result(&r);
    observe(&got);
    check_eq(&got, &d.0, "mariadb gtid event");
    cover("mariadb");
}
/// list of `arg` MariaDB GTIDs
pub fn h_c12_list(arg: u32) {
    let mut w = W::new();
    let mut d = D::new();
    w.u32(arg);
    d.tag(dump::t::MA_LIST).n(arg as u64);
    for _ in 0..arg {
        let (a, b, c) = (any_u32(), any_u32(), any_u64());
        w.u32(a).u32(b).u64(c);
        d.n(a as u64).n(b as u64).n(c);
    }
    let mut p = EventParser::new();
    check_ev(&mut p, &Ev { ty: MA_LIST, body: w.0, want: d.0 }, "mariadb gtid list");
    cover("list");
}
/// `arg` intervals of one source, `arg` sources, or `arg` entries of a list; the last is arbitrary
pub fn h_c12_many(arg: u32) {
    let n = arg as u64;
    let mut p = EventParser::new();
    let (a, b) = (any_u64(), any_u64());
    assume((a >= 1) & (b > a));
    let mut w = W::new();
    let mut d = D::new();
    // (a map of very many sources takes too long)
    let kind = if n > 1000 { pick(&[0, 2]) } else { choose(3) };
    match kind {
        0 => {
            let t = uuid_text(&[7; 16]);
            w.u64(1).b(&[7; 16]).u64(n);
            d.tag(dump::t::MY_PREV).n(1).s(&t).s(&[7; 16]).s(&t).n(n);
            for i in 0..n {
                let (a, b) = if i + 1 == n { (a, b) } else { (10 * i + 1, 10 * i + 6) };
                w.u64(a).u64(b);
                d.n(a).n(b - 1);
            }
            check_ev(&mut p, &Ev { ty: MY_PREV, body: w.0, want: d.0 }, "previous gtids");
        }
        1 => {
            w.u64(n);
            d.tag(dump::t::MY_PREV).n(n);
            for i in 0..n {
                let mut u = [7; 16];
                u[0] = (i >> 8) as u8;
                u[1] = i as u8;
                let t = uuid_text(&u);
                w.b(&u).u64(1).u64(a).u64(b);
                d.s(&t).s(&u).s(&t).n(1).n(a).n(b - 1);
            }
            check_ev(&mut p, &Ev { ty: MY_PREV, body: w.0, want: d.0 }, "previous gtids");
        }
        _ => {
            w.u32(arg);
            d.tag(dump::t::MA_LIST).n(n);
            for i in 0..arg {
                // several servers of one domain are in the list of a file
                let g = (i / 3, i, if i + 1 == arg { a } else { n });
                w.u32(g.0).u32(g.1).u64(g.2);
                d.n(g.0 as u64).n(g.1 as u64).n(g.2);
            }
            check_ev(&mut p, &Ev { ty: MA_LIST, body: w.0, want: d.0 }, "mariadb gtid list");
        }
    }
    cover("many");
}
super::entries!(h_c12_mysql, h_c12_prev, h_c12_mariadb, h_c12_list, h_c12_many);
