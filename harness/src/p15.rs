//! C15: the committed MariaDB GTID list holds, per domain, the last transaction seen to its end.
use crate::{api::*, dump, gen, gen::*, out::*};
use crate::p14::*;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::{gtid::Gtid, gtid_list::GtidList};
use mysql_cdc::replica_options::ReplicaOptions;

type G = (u32, u32, u64);
/// the list holds exactly the wanted entries, in any order
pub fn verify(c: &BinlogClient, want: &[G], m: &str) {
    let l = match &c.options.binlog.gtid_list {
        Some(l) => l,
        None => return check(false, "gtid list kept"),
    };
    check(l.gtids.len() == want.len(), m);
    for w in want {
        let mut found = false;
        for g in &l.gtids {
            found |= (g.domain_id == w.0) & (g.server_id == w.1) & (g.sequence == w.2);
        }
        check(found, m);
    }
}
fn ma_event(g: &G, flags: u8) -> (H, Ev) {
    let e = ma_gtid(flags, g.0, g.1, g.2);
    let mut h = H::any(MA_GTID, e.body.len());
    h.sid = g.1;
    h.next = 1000;
    (h, e)
}
/// one transaction: flags of its GTID event and the events behind it, the last one ends it
fn ma_group(depth: u32) -> (u8, Vec<Ev>) {
    let mut f = any_u8();
    let mut v = vec![];
    match choose(7) {
        0 => {
            // a single statement
            f |= 1;
            v.push(sql(&statement(pick(&[1usize, 5, 6, 8, 11]))));
        }
        n @ 1..=3 => {
            // the GTID event stands for BEGIN
            f &= !1;
            for _ in 0..choose(depth + 1) {
                v.extend(inner(choose(7)));
            }
            v.push(match n {
                1 => xid(),
                2 => sql(b"COMMIT"),
                _ => sql(b"ROLLBACK"),
            });
        }
        4 => {
            f &= !1;
            for _ in 0..choose(depth + 1) {
                v.extend(inner(choose(7)));
            }
            v.push(Ev { ty: XA_PREPARE, body: any_bytes(5), want: vec![] });
        }
        5 => v.push(sql(pick(&[&b"XA COMMIT X'01',X'',1"[..], b"XA ROLLBACK X'01',X'',1"]))),
        _ => {
            f &= !1;
            v.push(annotate(b"COMMIT"));
            v.push(sql(&statement(6)));
            v.push(xid());
        }
    }
    (f, v)
}
fn between(k: u32) -> Vec<Ev> {
    match k {
        0 => vec![],
        1 => vec![heartbeat(b"f")],
        2 => vec![rotate(4, b"f2"), fde(false), Ev { ty: MA_LIST, body: vec![0; 4], want: vec![] }, Ev { ty: CHECKPOINT, body: vec![1, 0, 0, 0, b'f'], want: vec![] }],
        _ => vec![rotate(4, b"f3")],
    }
}
/// `arg` % 10 transactions with up to `arg` / 10 events inside
pub fn h_c15_commit(arg: u32) {
    set_next(1000);
    let mut want: Vec<G> = vec![(3, any_u32(), any_u64())];
    let mut l = GtidList::new();
    l.gtids.push(Gtid::new(want[0].0, want[0].1, want[0].2));
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mariadb_gtid(l), ..Default::default() });
    let mut p = EventParser::new();
    for n in 0..arg % 10 {
        if n > 0 {
            for e in between(choose(4)) {
                feed(&mut c, &mut p, &e);
            }
            verify(&c, &want, "nothing is added between transactions");
        }
        let g = (pick(&[3u32, 0, 4000000000]), any_u32(), any_u64());
        let (f, ev) = ma_group(arg / 10);
        let (h, e) = ma_event(&g, f);
        let h = h.header();
        match p.parse_event(&h, &e.body) {
            Ok(x) => c.commit(&h, &x),
            Err(_) => check(false, "gtid event decodes"),
        }
        for (i, e) in ev.iter().enumerate() {
            verify(&c, &want, "a transaction is not recorded before its end");
            feed(&mut c, &mut p, e);
            if i + 1 == ev.len() {
                match want.iter_mut().find(|w| w.0 == g.0) {
                    Some(w) => *w = g,
                    None => want.push(g),
                }
            }
        }
        verify(&c, &want, "a transaction is recorded at its end");
        cover("committed");
    }
}
/// A transaction is half read when the connection ends; the client connects again. `arg` = events inside
pub fn h_c15_reconnect(arg: u32) {
    set_next(1000);
    use crate::{env::*, proto::*};
    let mut cfg = Cfg::new(true, Strat::Gtid);
    let want: Vec<G> = vec![(0, 1, 7)];
    cfg.list = want.clone();
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut c = client(&cfg, &conv);
    check(c.replicate().is_ok(), "replication starts");
    let mut p = EventParser::new();
    let give = |c: &mut BinlogClient, p: &mut EventParser, g: &G, f: u8| {
        let (h, e) = ma_event(g, f);
        let h = h.header();
        match p.parse_event(&h, &e.body) {
            Ok(x) => c.commit(&h, &x),
            Err(_) => check(false, "gtid event decodes"),
        }
    };
    let g = (choose(2), any_u32(), any_u64());
    let (f, mut ev) = ma_group(arg);
    give(&mut c, &mut p, &g, f);
    let n = choose(ev.len() as u32) as usize;
    ev.truncate(n);
    for e in &ev {
        feed(&mut c, &mut p, e);
    }
    verify(&c, &want, "a transaction is not recorded before its end");
    let mut again = Conv::new();
    cfg.file = c.options.binlog.filename.as_bytes().to_vec();
    cfg.pos = c.options.binlog.position;
    cfg.session(&mut again);
    c.options.port = serve(vec![again.script()]);
    check(c.replicate().is_ok(), "replication starts again");
    again.verify(&seen()[0], "the half-read transaction is requested again");
    let mut p = EventParser::new();
    for e in [rotate(4, b"f"), fde(false), Ev { ty: MA_LIST, body: vec![0; 4], want: vec![] }] {
        feed(&mut c, &mut p, &e);
    }
    let mut end = want.clone();
    if choose(3) > 0 {
        let g2 = if choose(2) == 0 { g } else { (choose(2), any_u32(), any_u64()) };
        if g2.0 == 0 {
            end[0] = g2;
        } else {
            end.push(g2);
        }
        let (f, ev) = ma_group(arg);
        give(&mut c, &mut p, &g2, f);
        for e in &ev {
            verify(&c, &want, "after connecting again, a transaction is not recorded before its end");
            feed(&mut c, &mut p, e);
        }
    } else {
        // what is left of something that began before
        feed(&mut c, &mut p, &pick2(xid(), sql(b"COMMIT")));
    }
    verify(&c, &end, "after connecting again, a transaction is recorded at its end");
    cover("reconnected");
}
/// A group is cut off (the server crashed while it wrote it) and others follow in the same stream.
/// `arg` = events inside
pub fn h_c15_partial(arg: u32) {
    set_next(1000);
    let want: Vec<G> = vec![(0, any_u32(), any_u64())];
    let mut l = GtidList::new();
    l.gtids.push(Gtid::new(want[0].0, want[0].1, want[0].2));
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mariadb_gtid(l), ..Default::default() });
    let mut p = EventParser::new();
    let give = |c: &mut BinlogClient, p: &mut EventParser, g: &G, f: u8| {
        let (h, e) = ma_event(g, f);
        let h = h.header();
        match p.parse_event(&h, &e.body) {
            Ok(x) => c.commit(&h, &x),
            Err(_) => check(false, "gtid event decodes"),
        }
    };
    let (f, mut half) = ma_group(arg);
    give(&mut c, &mut p, &(choose(2), any_u32(), any_u64()), f);
    half.truncate(choose(half.len() as u32) as usize);
    for e in half.iter().chain(&between(choose(4))) {
        feed(&mut c, &mut p, e);
    }
    verify(&c, &want, "a group that is cut off is not recorded");
    let g = (choose(2), any_u32(), any_u64());
    let (f, ev) = ma_group(arg);
    give(&mut c, &mut p, &g, f);
    for e in &ev {
        verify(&c, &want, "after a group that is cut off, one is not recorded before its end");
        feed(&mut c, &mut p, e);
    }
    let mut end = want.clone();
    if g.0 == 0 {
        end[0] = g;
    } else {
        end.push(g);
    }
    verify(&c, &end, "after a group that is cut off, one is recorded at its end");
    cover("cut off");
}
fn pick2(a: Ev, b: Ev) -> Ev {
    if choose(2) == 0 { a } else { b }
}
/// `arg` transactions in a third as many domains, from any sequence number on
pub fn h_c15_many(arg: u32) {
    set_next(any_u32());
    let base = any_u64();
    assume(base < u64::MAX - 1000000);
    let mut want: Vec<G> = vec![];
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mariadb_gtid(GtidList::new()), ..Default::default() });
    let mut p = EventParser::new();
    for i in 0..arg {
        let g = (i % (arg / 3), i, base + i as u64);
        let e = ma_gtid((i % 3 == 0) as u8, g.0, g.1, g.2);
        let mut h = H::new(MA_GTID, e.body.len());
        h.sid = i;
        let h = h.header();
        match p.parse_event(&h, &e.body) {
            Ok(x) => c.commit(&h, &x),
            Err(_) => return check(false, "gtid event decodes"),
        }
        match i % 3 {
            0 => {}
            1 => feed(&mut c, &mut p, &sql(b"INSERT")),
            _ => feed(&mut c, &mut p, &heartbeat(b"f")),
        }
        if i % 50 == 49 {
            verify(&c, &want, "a transaction is not recorded before its end");
        }
        match i % 3 {
            0 => feed(&mut c, &mut p, &sql(b"CREATE TABLE t(a int)")),
            1 => feed(&mut c, &mut p, &sql(b"COMMIT")),
            _ => feed(&mut c, &mut p, &xid()),
        }
        match want.iter_mut().find(|w| w.0 == g.0) {
            Some(w) => *w = g,
            None => want.push(g),
        }
    }
    verify(&c, &want, "a transaction is recorded at its end");
    cover("many");
}
super::entries!(h_c15_partial, h_c15_many, h_c15_commit, h_c15_reconnect);
