//! C22: the network stream is delivered completely and in order, whatever the fragmentation.
use crate::{api::*, dump, env::*, gen::*, out::*, proto::*};
use std::time::Duration;

/// One item of the stream: its packet and what the iterator must yield.
struct Item {
    pkt: Vec<u8>,
    want: Vec<u8>,
}
fn item(e: &Ev, crc: bool) -> Item {
    let mut w = W::new();
    let n = e.body.len() + if crc { 4 } else { 0 };
    let h = H::any(e.ty, n);
    w.u8(0);
    h.write(&mut w);
    w.b(&e.body);
    if crc {
        w.b(&any_bytes(4));
    }
    let mut d = D::new();
    h.dump(&mut d);
    d.0.extend_from_slice(&e.want);
    Item { pkt: w.0, want: d.0 }
}
fn some_event() -> Ev {
    match choose(8) {
        0 => xid(),
        1 => intvar(),
        2 => stop(),
        3 => rotate(any_u64(), &any_utf8(3)),
        4 => sql(&any_utf8(2)),
        5 => heartbeat(&any_utf8(1)),
        6 => Ev { ty: pick(&[RAND, XA_PREPARE, START_ENC, 99]), body: any_bytes(3), want: vec![dump::t::UNKNOWN] },
        _ => table_map(any_u64() >> 16, &[col(ct::TINY, &[]), col(ct::VARCHAR, &any_bytes(2))]),
    }
}
/// how transfers are split: never, byte by byte, and irregularly with interrupted calls
fn split(s: &mut Script) {
    match choose(4) {
        0 => {}
        1 => {
            s.rchunk = vec![1];
            s.wchunk = vec![1];
        }
        2 => {
            s.rchunk = vec![3, -1, 1, 7];
            s.wchunk = vec![-1, 2, 5];
        }
        _ => {
            s.rchunk = vec![-1, 0, -1, -1, 2];
            s.wchunk = vec![0, -1];
        }
    }
}
fn config(k: u32) -> Cfg {
    let mut c = Cfg::new(k >= 10, [Strat::Start, Strat::Position, Strat::End, Strat::Gtid][(k % 10) as usize]);
    c.checksum = b"NONE";
    c
}
/// `n` items of the stream are appended to the conversation
fn append(c: &mut Conv, items: &[Item]) {
    let mut seq = any_u8();
    for i in items {
        c.s(seq, &i.pkt);
        seq = seq.wrapping_add(1);
    }
}
enum Tail {
    /// the server ends the stream
    End,
    /// the connection fails
    Fails,
}
/// the session must start, deliver `items` and end as said
fn stream(cfg: &Cfg, conv: &Conv, script: Script, items: &[Item], tail: Tail, m: &str) {
    let port = serve(vec![script]);
    let mut c = mysql_cdc::binlog_client::BinlogClient::new(cfg.options(port));
    let mut r = match c.replicate() {
        Ok(r) => r,
        Err(_) => return check(false, "replication starts"),
    };
    for i in items {
        let got = dump::item(&r.next());
        observe(&got);
        check_eq(&got, &i.want, "the next event of the stream");
    }
    match tail {
        Tail::End => check(r.next().is_none(), "the stream ends where the server ends it"),
        Tail::Fails => check(matches!(r.next(), Some(Err(_))), "a failed connection is an error"),
    }
    conv.verify(&seen()[0], "requests");
    cover(m);
}
/// `arg` = 10 * events + checksum
pub fn h_c22_events(arg: u32) {
    let mut cfg = config(pick(&[0u32, 13]));
    let crc = arg % 10 == 1;
    if crc {
        cfg.checksum = b"CRC32";
    }
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut items = vec![];
    for _ in 0..arg / 10 {
        items.push(item(&some_event(), crc));
    }
    append(&mut conv, &items);
    let mut w = W::new();
    w.u8(0xfe).b(&any_bytes(4));
    conv.s(any_u8(), &w.0);
    let mut s = conv.script();
    split(&mut s);
    stream(&cfg, &conv, s, &items, Tail::End, "events");
}
fn short_session(k: u32) -> (Cfg, Conv, usize, Vec<Item>) {
    let cfg = config(k);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let start = conv.data.len();
    let items = vec![item(&xid(), false), item(&rotate(any_u64(), &any_ascii(2)), false), item(&sql(&any_ascii(1)), false)];
    append(&mut conv, &items);
    (cfg, conv, start, items)
}
/// one read or write is cut short at any offset of the session; the next call is interrupted if `arg` >= 100
pub fn h_c22_cut(arg: u32) {
    let (cfg, mut conv, _, items) = short_session(arg % 100);
    conv.s(9, &EOF);
    let mut s = conv.script();
    s.interrupt = arg >= 100;
    if choose(2) == 0 {
        s.cuts.push(choose_wide(conv.data.len()));
    } else {
        s.wcuts.push(choose_wide(conv.expect.len()));
    }
    stream(&cfg, &conv, s, &items, Tail::End, "cut");
}
/// the connection closes, resets or falls silent at any offset
pub fn h_c22_fail(arg: u32) {
    let (cfg, mut conv, start, items) = short_session(arg);
    let at = choose_wide(conv.data.len() + 1);
    let mut s = conv.script();
    s.data.truncate(at);
    s.end = pick(&[End::Eof, End::WouldBlock, End::Reset]);
    if at >= start {
        let mut done = 0;
        let mut o = start;
        for i in &items {
            o += 4 + i.pkt.len();
            if o <= at {
                done += 1;
            }
        }
        return stream(&cfg, &conv, s, &items[..done], Tail::Fails, "failed in the stream");
    }
    s.gates.retain(|g| g.0 <= at);
    // requests that follow answers which never came are not sent
    conv.marks.retain(|m| m.1 <= at);
    let sent = {
        let full = { 
            let mut c = Conv::new();
            cfg.session(&mut c);
            c.marks
        };
        full.iter().filter(|m| m.1 > at).map(|m| m.0).min().unwrap_or(conv.expect.len())
    };
    conv.expect.truncate(sent);
    let port = serve(vec![s]);
    let mut c = mysql_cdc::binlog_client::BinlogClient::new(cfg.options(port));
    check(c.replicate().is_err(), "a failed connection is an error");
    conv.verify(&seen()[0], "requests before the failure");
    cover("failed before the stream");
}
/// a stream whose connection is refused
pub fn h_c22_refused(_: u32) {
    let cfg = config(0);
    let port = serve(vec![]);
    let mut o = cfg.options(port);
    // nobody listens on port 1
    o.port = 1;
    let mut c = mysql_cdc::binlog_client::BinlogClient::new(o);
    check(c.replicate().is_err(), "a refused connection is an error");
    check(seen().is_empty(), "no connection");
    cover("refused");
}
/// the read timeout in force at every read is the heartbeat period plus ten seconds
pub fn h_c22_timeout(_: u32) {
    let mut cfg = config(pick(&[0u32, 13]));
    let (secs, ms) = pick(&[(0u64, 0u32), (0, 1), (0, 999), (1, 0), (30, 0), (59, 500), (3600, 0), (4_294_967, 295), (86_400_000, 1)]);
    let us = any_u16() as u32;
    assume(us < 1000);
    cfg.heartbeat = Duration::new(secs, ms * 1_000_000 + us * 1000);
    cfg.heartbeat_text = ((secs as u128 * 1000 + ms as u128) * 1_000_000).to_string().into_bytes();
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let items = vec![item(&xid(), false)];
    append(&mut conv, &items);
    let mut s = conv.script();
    s.end = End::WouldBlock;
    stream(&cfg, &conv, s, &items, Tail::Fails, "timeout");
    let want = (secs + 10) * 1_000_000 + ms as u64 * 1000 + us as u64;
    let s = &seen()[0];
    check(s.timeouts.len() == 1, "one timeout for all reads");
    check(s.timeouts[0] == Some(want), "the read timeout is the heartbeat period plus ten seconds");
}
/// packets with an unknown status or that do not decode are errors; the stream goes on after them
pub fn h_c22_status(_: u32) {
    let cfg = config(0);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let good = item(&xid(), false);
    let bad = match choose(4) {
        0 => vec![],
        1 => {
            let mut b = any_bytes(pick(&[1usize, 5, 28]));
            let c = any_u8();
            assume((c != 0) & (c != 0xfe) & (c != 0xff));
            b[0] = c;
            b
        }
        2 => {
            // too short for its kind
            let e = pick(&[XID, INTVAR, ROTATE, 2, TABLE_MAP, MY_GTID]);
            item(&Ev { ty: e, body: any_bytes(2), want: vec![] }, false).pkt
        }
        _ => {
            // not even a header
            let mut b = any_bytes(pick(&[1usize, 2, 19]));
            b[0] = 0;
            b
        }
    };
    let items = [Item { pkt: bad, want: vec![] }, good];
    append(&mut conv, &items);
    let mut c = client(&cfg, &conv);
    let mut r = match c.replicate() {
        Ok(r) => r,
        Err(_) => return check(false, "replication starts"),
    };
    check(matches!(r.next(), Some(Err(_))), "an error");
    let got = dump::item(&r.next());
    check_eq(&got, &items[1].want, "the stream goes on after it");
    cover("status");
}
/// events of up to 70000 bytes
pub fn h_c22_big(arg: u32) {
    let n = [32700usize, 32768, 65515, 65535, 65536, 70000][arg as usize];
    let cfg = config(0);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut big = vec![b'x'; n];
    big[0] = any_below(128);
    big[n - 1] = any_below(128);
    let items = vec![item(&xid(), false), item(&annotate(&big), false), item(&xid(), false)];
    append(&mut conv, &items);
    conv.s(9, &EOF);
    let mut s = conv.script();
    s.rchunk = match choose(3) {
        0 => vec![],
        1 => vec![1448],
        _ => vec![4096, -1, 1],
    };
    stream(&cfg, &conv, s, &items, Tail::End, "big");
}
/// `arg` events of which one is arbitrary; the sequence numbers of the packets wrap around
pub fn h_c22_long(arg: u32) {
    let cfg = config(0);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let k = pick(&[0, arg / 2, arg - 1]);
    let mut items = vec![];
    for i in 0..arg {
        if i == k {
            items.push(item(&some_event(), false));
        } else {
            let mut w = W::new();
            let mut d = D::new();
            let b = (i as u64).to_le_bytes().to_vec();
            let h = H { next: i, ..H::new(XID, 8) };
            w.u8(0);
            h.write(&mut w);
            w.b(&b);
            h.dump(&mut d);
            d.tag(dump::t::XID).n(i as u64);
            items.push(Item { pkt: w.0, want: d.0 });
        }
    }
    for (i, x) in items.iter().enumerate() {
        conv.s(1u8.wrapping_add(i as u8), &x.pkt);
    }
    conv.s(0, &EOF);
    let s = conv.script();
    stream(&cfg, &conv, s, &items, Tail::End, "long");
}
super::entries!(h_c22_events, h_c22_cut, h_c22_fail, h_c22_refused, h_c22_timeout, h_c22_status, h_c22_big, h_c22_long);
