//! C25: starting from the end begins at the position the server reports, and asks for it once.
use crate::{api::*, env::*, gen::*, out::*, proto::*};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::events::event_parser::EventParser;

fn set(c: &mut Conv, columns: usize, rows: &[Vec<u8>]) {
    c.q(b"show master status");
    result_set(c, columns, rows);
}
fn cells(file: &[u8], pos: &[u8], n: usize) -> Vec<u8> {
    let mut w = W::new();
    w.lenstr(file).lenstr(pos);
    for k in 2..n {
        match k {
            2 => w.lenstr(b"db1,db2"),
            3 => w.lenstr(b""),
            _ => w.lenstr(&[b'u'; 300]),
        };
    }
    w.0
}
/// `c` after connecting, asking (if `asks`) and requesting from `file`, `pos`
fn session(cfg: &Cfg, asked: Option<(&[u8], &[u8], usize)>, file: &[u8], pos: u32) -> Conv {
    let mut conv = Conv::new();
    cfg.connect(&mut conv);
    if let Some((f, p, n)) = asked {
        set(&mut conv, n, &[cells(f, p, n)]);
    }
    let mut known = cfg.clone();
    known.file = file.to_vec();
    known.pos = pos;
    if known.file.is_empty() {
        known.strat = Strat::Start;
    }
    known.prepare(&mut conv);
    known.request(&mut conv, file, pos);
    conv
}
fn at(c: &BinlogClient, file: &[u8], pos: u32, m: &str) {
    observe(c.options.binlog.filename.as_bytes());
    check_eq(c.options.binlog.filename.as_bytes(), file, m);
    check(c.options.binlog.position == pos, m);
}
/// a position text of `n` symbolic digits, or one of the boundaries
fn position(n: usize) -> (u64, Vec<u8>) {
    if n == 0 {
        let (v, t) = pick(&[(0u64, &b"0"[..]), (4, b"4"), (157, b"157"), (1073741824, b"1073741824"), (4294967295, b"4294967295"), (2147483648, b"2147483648")]);
        return (v, t.to_vec());
    }
    // the last four digits of long ones are symbolic
    let (mut v, mut t) = any_decimal(n.min(4));
    if n > 4 {
        let head = b"429496"[..n - 4].to_vec();
        v += 10000 * std::str::from_utf8(&head).unwrap().parse::<u64>().unwrap();
        t = [head, t].concat();
    }
    assume((n == 1) | (t[0] != b'0'));
    assume(v <= u32::MAX as u64);
    (v, t)
}
/// `arg` = 10 * digits of the position + MariaDB
pub fn h_c25_end(arg: u32) {
    let cfg = Cfg::new(arg % 10 == 1, Strat::End);
    let file = any_ascii(pick(&[1usize, 10, 250]));
    let (pos, text) = position((arg / 10) as usize);
    let n = 2 + choose(4) as usize;
    let conv = session(&cfg, Some((&file, &text, n)), &file, pos as u32);
    let mut c = client(&cfg, &conv);
    check(c.replicate().is_ok(), "replication starts");
    conv.verify(&seen()[0], "the stream is requested from the reported position");
    at(&c, &file, pos as u32, "the reported position is kept");
    cover("end");
}
/// a status that is missing, incomplete or not a position
pub fn h_c25_bad(_: u32) {
    let cfg = Cfg::new(choose(2) == 1, Strat::End);
    let mut conv = Conv::new();
    cfg.connect(&mut conv);
    let good = cells(b"bin.07", b"157", 5);
    match choose(9) {
        0 => set(&mut conv, 5, &[]),
        1 => set(&mut conv, 5, &[good.clone(), good]),
        2 => set(&mut conv, 1, &[row(&[b"bin.07"])]),
        3 => set(&mut conv, 5, &[cells(b"bin.07", b"", 5)]),
        4 => set(&mut conv, 5, &[cells(b"bin.07", b"4294967296", 5)]),
        5 => {
            let t = any_ascii(3);
            let digit = |b: u8| (b >= b'0') & (b <= b'9');
            assume(!(digit(t[0]) & digit(t[1]) & digit(t[2])));
            // Rust's numbers may have a sign
            assume(t[0] != b'+');
            set(&mut conv, 5, &[cells(b"bin.07", &t, 5)])
        }
        6 => set(&mut conv, 5, &[good[..good.len() - 1].to_vec()]),
        7 => set(&mut conv, 5, &[cells(b"bin.07", b"-1", 5)]),
        _ => set(&mut conv, 5, &[b"\x06bin.07\xfb".to_vec()]),
    }
    let mut c = client(&cfg, &conv);
    check(c.replicate().is_err(), "an error");
    conv.verify(&seen()[0], "nothing is requested");
    at(&c, b"", 0, "no position is kept");
    cover("bad");
}
/// `arg` = 10 * events committed before the reconnect + MariaDB
pub fn h_c25_reconnect(arg: u32) {
    let cfg = Cfg::new(arg % 10 == 1, Strat::End);
    let first = session(&cfg, Some((b"bin.07", b"157", 5)), b"bin.07", 157);
    // the first session may also end right after the position is known
    let mut one = first.script();
    let mut started = true;
    if choose(2) == 1 {
        let k = first.marks[2].1;
        one.data.truncate(k);
        one.gates.retain(|g| g.0 < k);
        started = false;
    }
    let port = crate::env::serve(vec![one.clone()]);
    let mut c = BinlogClient::new(cfg.options(port));
    check(c.replicate().is_ok() == started, "the first session");
    at(&c, b"bin.07", 157, "the reported position is kept");
    let (mut file, mut pos) = (b"bin.07".to_vec(), 157u32);
    let mut p = EventParser::new();
    for _ in 0..if started { arg / 10 } else { 0 } {
        let e = if choose(2) == 0 { xid() } else { rotate(any_u32() as u64, &any_ascii(4)) };
        let mut h = H::any(e.ty, e.body.len());
        if e.ty == ROTATE {
            file = e.body[8..].to_vec();
            pos = u32::from_le_bytes([e.body[0], e.body[1], e.body[2], e.body[3]]);
        } else {
            assume(h.next != 0);
            pos = h.next;
        }
        h.flags = 0;
        let h = h.header();
        match p.parse_event(&h, &e.body) {
            Ok(ev) => c.commit(&h, &ev),
            Err(_) => check(false, "event decodes"),
        }
    }
    let second = session(&cfg, None, &file, pos);
    c.options.port = serve(vec![second.script()]);
    check(c.replicate().is_ok(), "replication starts again");
    second.verify(&seen()[0], "the second session resumes from the committed position without asking");
    at(&c, &file, pos, "the committed position is kept");
    cover("reconnect");
}
/// a session that failed before the position was known asks again; other strategies never ask
pub fn h_c25_other(_: u32) {
    let maria = choose(2) == 1;
    if choose(2) == 0 {
        let cfg = Cfg::new(maria, Strat::End);
        let mut first = Conv::new();
        cfg.connect(&mut first);
        set(&mut first, 5, &[cells(b"bin.07", b"157", 5)]);
        let mut one = first.script();
        one.data.truncate(choose_wide(first.data.len()));
        let port = serve(vec![one]);
        let mut c = BinlogClient::new(cfg.options(port));
        check(c.replicate().is_err(), "the first session fails");
        at(&c, b"", 0, "no position is kept");
        let second = session(&cfg, Some((b"bin.08", b"4", 4)), b"bin.08", 4);
        c.options.port = serve(vec![second.script()]);
        check(c.replicate().is_ok(), "replication starts");
        second.verify(&seen()[0], "the position is asked for again");
        at(&c, b"bin.08", 4, "the reported position is kept");
        cover("asks again");
    } else {
        let mut cfg = Cfg::new(maria, pick(&[Strat::Start, Strat::Position, Strat::Gtid]));
        cfg.file = vec![];
        let mut conv = Conv::new();
        cfg.session(&mut conv);
        let mut c = client(&cfg, &conv);
        check(c.replicate().is_ok(), "replication starts");
        conv.verify(&seen()[0], "the position is not asked for");
        cover("others");
    }
}
super::entries!(h_c25_end, h_c25_bad, h_c25_reconnect, h_c25_other);
