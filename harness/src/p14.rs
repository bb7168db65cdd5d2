//! C14: the committed MySQL GTID set contains a transaction exactly from its last event on.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mysql::gtid::{gtid_set::GtidSet, interval::Interval, uuid::Uuid, uuid_set::UuidSet};
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::starting_strategy::StartingStrategy;

pub const U: [[u8; 16]; 2] = [[0x11; 16], [0xab; 16]];
/// any statement of `n` characters that does not control a transaction
pub fn statement(n: usize) -> Vec<u8> {
    let s = any_ascii(n);
    for k in [&b"BEGIN"[..], b"COMMIT", b"ROLLBACK", b"XA "] {
        let k = &k[..];
        if n >= k.len() && (n == k.len() || k == b"XA ") {
            let mut same = true;
            for i in 0..k.len() {
                same &= s[i] == k[i];
            }
            assume(!same);
        }
    }
    s
}
/// something that happens inside a transaction without ending it
pub fn inner(k: u32) -> Vec<Ev> {
    match k {
        0 => vec![sql(&statement(5))],
        1 => vec![table_map(5, &[col(ct::TINY, &[])]), {
            let (v, op) = pick(&[(2, Op::Write), (1, Op::Update), (2, Op::Delete)]);
            let mut w = rows_head(v, 5, any_u16(), &[], 1);
            w.u8(1);
            if op == Op::Update {
                w.u8(1).u8(0).u8(any_u8());
            }
            w.u8(0).u8(any_u8());
            Ev { ty: rows_code(op, v), body: w.0, want: vec![] }
        }],
        2 => vec![sql(pick(&[&b"SAVEPOINT `BEGIN`"[..], b"ROLLBACK TO `COMMIT`", b"INSERT INTO t VALUES ('COMMIT')", b"CREATE TABLE t START TRANSACTION"]))],
        3 => vec![intvar(), sql(&statement(6))],
        4 => vec![heartbeat(b"f")],
        5 => vec![rows_query(b"COMMIT"), annotate(b"COMMIT")],
        _ => vec![Ev { ty: pick(&[RAND, 40, 36, 37]), body: any_bytes(3), want: vec![] }],
    }
}
/// Events of one transaction after its GTID event; the last one ends it.
pub fn group(depth: u32, xa: bool) -> Vec<Ev> {
    let mut v = vec![];
    match choose(if xa { 6 } else { 4 }) {
        0 => v.push(sql(&statement(pick(&[1usize, 5, 6, 8, 11])))), // DDL
        n @ 1..=3 => {
            v.push(sql(b"BEGIN"));
            for _ in 0..choose(depth + 1) {
                v.extend(inner(choose(7)));
            }
            v.push(match n {
                1 => xid(),
                2 => sql(b"COMMIT"),
                _ => sql(b"ROLLBACK"),
            });
        }
        4 => {
            v.push(sql(b"XA START X'01',X'',1"));
            for _ in 0..choose(depth + 1) {
                v.extend(inner(choose(7)));
            }
            v.push(sql(b"XA END X'01',X'',1"));
            v.push(Ev { ty: XA_PREPARE, body: any_bytes(5), want: vec![] });
        }
        _ => v.push(sql(pick(&[&b"XA COMMIT X'01',X'',1"[..], b"XA ROLLBACK X'01',X'',1"]))),
    }
    v
}
/// events between transactions
pub fn between(k: u32) -> Vec<Ev> {
    match k {
        0 => vec![],
        1 => vec![heartbeat(b"f")],
        2 => vec![stop(), rotate(4, b"f2"), fde(false), Ev { ty: MY_PREV, body: vec![0; 8], want: vec![] }],
        _ => vec![rotate(4, b"f3")],
    }
}
thread_local! {
    /// the end position in the headers of all events of a run
    static NEXT: std::cell::Cell<u32> = const { std::cell::Cell::new(1000) };
}
pub fn set_next(n: u32) {
    NEXT.with(|x| x.set(n));
}
pub fn feed(c: &mut BinlogClient, p: &mut EventParser, e: &Ev) {
    let mut h = H::any(e.ty, e.body.len());
    h.next = NEXT.with(|n| n.get());
    let h = h.header();
    match p.parse_event(&h, &e.body) {
        Ok(ev) => c.commit(&h, &ev),
        Err(_) => check(false, "event decodes"),
    }
}
pub fn member(g: &GtidSet, u: &[u8; 16], q: u64) -> bool {
    let mut r = false;
    for s in g.uuid_sets.values() {
        if s.source_id.data == *u {
            for i in &s.intervals {
                r |= (i.start <= q) & (q <= i.end);
            }
        }
    }
    r
}
pub fn base(fixed: bool) -> (GtidSet, u64) {
    let k = if fixed { 10 } else { any_u64() };
    assume((k >= 1) & (k < u64::MAX - 1));
    let mut g = GtidSet::new();
    let u = Uuid::new(U[0]);
    g.uuid_sets.insert(u.uuid.clone(), UuidSet::new(u, vec![Interval::new(1, k)]));
    (g, k)
}
fn verify(c: &BinlogClient, q: u64, k: u64, done: &[(usize, u64)], m: &str) {
    let g = match &c.options.binlog.gtid_set {
        Some(g) => g,
        None => return check(false, "gtid set kept"),
    };
    for s in 0..2 {
        let mut want = (s == 0) & (1 <= q) & (q <= k);
        for d in done {
            want |= (d.0 == s) & (d.1 == q);
        }
        check(member(g, &U[s], q) == want, m);
    }
    check(g.uuid_sets.len() <= 2, "no other source");
}
/// `arg` % 10 transactions with up to `arg` / 10 events inside; all ids arbitrary
pub fn h_c14_commit(arg: u32) {
    go(arg % 10, arg / 10, false);
}
/// the same with a few fixed ids
pub fn h_c14_seq(arg: u32) {
    go(arg % 10, arg / 10, true);
}
fn go(count: u32, depth: u32, fixed: bool) {
    set_next(if fixed { any_u32() } else { 1000 });
    let (g, k) = base(fixed);
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mysql_gtid(g), ..Default::default() });
    let mut p = EventParser::new();
    let mut done: Vec<(usize, u64)> = vec![];
    let q = any_u64();
    for n in 0..count {
        if n > 0 {
            for e in between(choose(4)) {
                feed(&mut c, &mut p, &e);
            }
            verify(&c, q, k, &done, "nothing is added between transactions");
        }
        let s = choose(2) as usize;
        let t = if fixed { [11, 13, 12, 10][n as usize] } else { any_u64() };
        assume(t >= 1);
        feed(&mut c, &mut p, &my_gtid(any_u8(), &U[s], t, 0));
        let ev = group(depth, true);
        for (i, e) in ev.iter().enumerate() {
            verify(&c, q, k, &done, "a transaction is not recorded before its end");
            feed(&mut c, &mut p, e);
            if i + 1 == ev.len() {
                done.push((s, t));
            }
        }
        verify(&c, q, k, &done, "a transaction is recorded at its end");
        cover("committed");
    }
}
/// without a GTID strategy the set is left alone
pub fn h_c14_other(_: u32) {
    set_next(any_u32());
    let b = match choose(3) {
        0 => BinlogOptions::from_start(),
        1 => BinlogOptions::from_end(),
        _ => BinlogOptions::from_position("f".to_string(), 4),
    };
    let mut c = BinlogClient::new(ReplicaOptions { binlog: b, ..Default::default() });
    let mut p = EventParser::new();
    feed(&mut c, &mut p, &my_gtid(0, &U[0], any_u64(), 0));
    for e in group(1, true) {
        feed(&mut c, &mut p, &e);
    }
    check(c.options.binlog.gtid_set.is_none() & c.options.binlog.gtid_list.is_none(), "no gtid position without gtid strategy");
    cover("other strategy");
}
/// A transaction is half read when the connection ends; the client connects again and reads on, with
/// either the same or another transaction, or one that has no GTID. `arg` = events inside
pub fn h_c14_reconnect(arg: u32) {
    use crate::{env::*, proto::*};
    set_next(1000);
    let mut cfg = Cfg::new(false, Strat::Gtid);
    let k = any_u64();
    assume((k >= 1) & (k < u64::MAX - 1));
    cfg.set = vec![(U[0], vec![(1, k)])];
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut c = client(&cfg, &conv);
    check(c.replicate().is_ok(), "replication starts");
    let mut p = EventParser::new();
    let q = any_u64();
    let t = any_u64();
    assume(t >= 1);
    let s = choose(2) as usize;
    feed(&mut c, &mut p, &my_gtid(1, &U[s], t, 0));
    let mut g = group(arg, true);
    let n = choose(g.len() as u32) as usize;
    g.truncate(n);
    for e in &g {
        feed(&mut c, &mut p, e);
    }
    verify(&c, q, k, &[], "a transaction is not recorded before its end");
    let mut again = Conv::new();
    let mut cfg2 = cfg.clone();
    cfg2.file = c.options.binlog.filename.as_bytes().to_vec();
    cfg2.session(&mut again);
    c.options.port = serve(vec![again.script()]);
    check(c.replicate().is_ok(), "replication starts again");
    again.verify(&seen()[0], "the half-read transaction is requested again");
    verify(&c, q, k, &[], "connecting again records nothing");
    let mut p = EventParser::new();
    for e in [rotate(4, b"f"), fde(false), Ev { ty: MY_PREV, body: vec![0; 8], want: vec![] }] {
        feed(&mut c, &mut p, &e);
    }
    let mut done = vec![];
    match choose(3) {
        0 => done.push((s, t)),
        1 => {
            let t = any_u64();
            assume(t >= 1);
            done.push((choose(2) as usize, t));
        }
        _ => (),
    }
    match done.first() {
        Some(d) => feed(&mut c, &mut p, &my_gtid(1, &U[d.0], d.1, 0)),
        None => feed(&mut c, &mut p, &Ev { ty: 34, body: any_bytes(42), want: vec![] }),
    }
    let ev = group(arg, true);
    for e in &ev {
        verify(&c, q, k, &[], "after connecting again, a transaction is not recorded before its end");
        feed(&mut c, &mut p, e);
    }
    verify(&c, q, k, &done, "after connecting again, a transaction is recorded at its end");
    cover(if done.is_empty() { "anonymous" } else { "reconnected" });
}
/// A transaction is cut off (the server crashed while it wrote it) and others follow in the same stream.
/// `arg` = events inside
pub fn h_c14_partial(arg: u32) {
    set_next(1000);
    let (g, k) = base(false);
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mysql_gtid(g), ..Default::default() });
    let mut p = EventParser::new();
    let q = any_u64();
    let t = any_u64();
    assume(t >= 1);
    feed(&mut c, &mut p, &my_gtid(any_u8(), &U[choose(2) as usize], t, 0));
    let mut half = group(arg, true);
    half.truncate(choose(half.len() as u32) as usize);
    for e in half.iter().chain(&between(choose(4))) {
        feed(&mut c, &mut p, e);
    }
    verify(&c, q, k, &[], "a transaction that is cut off is not recorded");
    let (s, t) = (choose(2) as usize, any_u64());
    assume(t >= 1);
    feed(&mut c, &mut p, &my_gtid(any_u8(), &U[s], t, 0));
    for e in &group(arg, true) {
        verify(&c, q, k, &[], "after a transaction that is cut off, one is not recorded before its end");
        feed(&mut c, &mut p, e);
    }
    verify(&c, q, k, &[(s, t)], "after a transaction that is cut off, one is recorded at its end");
    cover("cut off");
}
/// `arg` transactions of one source with consecutive ids, from any id on
pub fn h_c14_many(arg: u32) {
    set_next(any_u32());
    let mut c = BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mysql_gtid(GtidSet::new()), ..Default::default() });
    let mut p = EventParser::new();
    let t = any_u64();
    assume((t >= 1) & (t < u64::MAX - 1000000));
    for i in 0..arg {
        feed(&mut c, &mut p, &my_gtid(1, &U[0], t + i as u64, 0));
        match i % 3 {
            0 => feed(&mut c, &mut p, &sql(b"CREATE TABLE t(a int)")),
            n => {
                feed(&mut c, &mut p, &sql(b"BEGIN"));
                feed(&mut c, &mut p, &if n == 1 { xid() } else { sql(b"COMMIT") });
            }
        }
    }
    let q = any_u64();
    let g = match &c.options.binlog.gtid_set {
        Some(g) => g,
        None => return check(false, "gtid set kept"),
    };
    check(member(g, &U[0], q) == ((q >= t) & (q < t + arg as u64)), "every transaction is recorded");
    cover("many");
}
super::entries!(h_c14_commit, h_c14_seq, h_c14_other, h_c14_reconnect, h_c14_partial, h_c14_many);
