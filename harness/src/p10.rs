//! C10: rows are decoded with the most recent table map of their table id.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

// schemas that differ in the type of the column or only in its metadata
const SCHEMA: [(u8, &[u8]); 3] = [(ct::LONG, &[]), (ct::TIMESTAMP2, &[0]), (ct::TIMESTAMP2, &[2])];

fn map(id: u64, s: usize) -> Ev {
    gen::table_map(id, &[Col { ty: SCHEMA[s].0, meta: SCHEMA[s].1.to_vec() }])
}
fn rows(id: u64, s: Option<usize>) -> Ev {
    let op = pick(&[Op::Write, Op::Update, Op::Delete]);
    let v = 1 + choose(2) as u8;
    let flags = any_u16();
    let mut w = rows_head(v, id, flags, &[], 1);
    w.u8(1);
    let mut d = D::new();
    d.tag(match op {
        Op::Write => dump::t::WRITE,
        Op::Update => dump::t::UPDATE,
        Op::Delete => dump::t::DELETE,
    });
    d.n(id).n(flags as u64).n(1).bits(&[true]);
    if op == Op::Update {
        w.u8(1);
        d.bits(&[true]);
    }
    d.n(1);
    for _ in 0..if op == Op::Update { 2 } else { 1 } {
        let x = any_u32();
        w.u8(0);
        d.n(1).tag(1);
        match s {
            Some(0) => {
                w.u32(x);
                d.tag(dump::t::LONG).n(x as u64)
            }
            Some(2) => {
                let f = 37u8;
                w.b(&x.to_be_bytes()).u8(f);
                d.tag(dump::t::TIMESTAMP).n(x as u64 * 1000 + f as u64 * 10)
            }
            _ => {
                w.b(&x.to_be_bytes());
                d.tag(dump::t::TIMESTAMP).n(x as u64 * 1000)
            }
        };
    }
    Ev { ty: rows_code(op, v), body: w.0, want: if s.is_some() { d.0 } else { ERR.to_vec() } }
}
/// history of `arg` steps, each a table map or a rows event, all with arbitrary table ids
pub fn h_c10_history(arg: u32) {
    let mut p = EventParser::new();
    let mut maps: Vec<(u64, usize)> = vec![];
    for i in 0..arg {
        let id = any_u64() >> 16;
        if i + 1 < arg && choose(2) == 0 {
            let s = choose(3) as usize;
            check_ev(&mut p, &map(id, s), "table map");
            maps.push((id, s));
        } else {
            let mut s = None;
            for m in &maps {
                if m.0 == id {
                    s = Some(m.1);
                }
            }
            check_ev(&mut p, &rows(id, s), "rows decoded with the latest map of the table");
            cover(if s.is_some() { "mapped" } else { "unmapped" });
        }
    }
}
/// two tables with `arg` statements' worth of maps and rows of both interleaved
pub fn h_c10_two(arg: u32) {
    let mut p = EventParser::new();
    let ids = [any_u64() >> 16, any_u64() >> 16];
    assume(ids[0] != ids[1]);
    let mut cur = [0usize; 2];
    for i in 0..2 {
        cur[i] = choose(3) as usize;
        check_ev(&mut p, &map(ids[i], cur[i]), "table map");
    }
    for _ in 0..arg {
        let i = choose(2) as usize;
        if choose(2) == 0 {
            cur[i] = (cur[i] + 1) % 3;
            check_ev(&mut p, &map(ids[i], cur[i]), "table map");
        }
        let j = choose(2) as usize;
        let e = match choose(if arg == 1 { 9 } else { 3 }) {
            0 => xid(),
            1 => sql(b"BEGIN"),
            2 => annotate(b"x"),
            3 => rotate(4, b"f.000002"),
            4 => heartbeat(b"f"),
            5 => fde(false),
            6 => my_gtid(any_u8(), &[7; 16], 5, 8),
            7 => intvar(),
            _ => stop(),
        };
        check_ev(&mut p, &e, "other event");
        check_ev(&mut p, &rows(ids[j], Some(cur[j])), "rows decoded with the latest map of the table");
    }
    cover("two");
}
/// `arg` tables are mapped, then rows of some of them arrive
pub fn h_c10_many(arg: u32) {
    let mut p = EventParser::new();
    let n = arg as u64;
    for i in 0..n {
        check_ev(&mut p, &map(1000 + i, (i % 3) as usize), "table map");
    }
    let k = pick(&[0u64, 1, n / 2, n - 2, n - 1]);
    check_ev(&mut p, &rows(1000 + k, Some((k % 3) as usize)), "rows decoded with the latest map of the table");
    check_ev(&mut p, &rows(1000 + n, None), "rows of an unmapped table");
    cover("many tables");
}
super::entries!(h_c10_history, h_c10_two, h_c10_many);
