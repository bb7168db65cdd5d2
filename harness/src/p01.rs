//! C01: the offline reader yields every event of a binlog file exactly once, in order, with the
//! exact header, and nothing else.
use crate::{api::*, dump, env, gen, gen::*, out::*};
use mysql_cdc::binlog_reader::BinlogReader;

const MAGIC: [u8; 4] = [0xfe, 0x62, 0x69, 0x6e];

fn put(w: &mut W, e: &Ev) -> Vec<u8> {
    let mut h = H::any(e.ty, e.body.len());
    h.ts = any_u32();
    h.write(w);
    w.b(&e.body);
    let mut d = D::new();
    h.dump(&mut d);
    d.0.extend_from_slice(&e.want);
    d.0
}
fn some_event() -> Ev {
    match choose(6) {
        0 => xid(),
        1 => intvar(),
        2 => stop(),
        3 => rotate(any_u64(), &any_utf8(3)),
        4 => sql(&any_utf8(2)),
        _ => {
            let ty = pick(&[RAND, XA_PREPARE, START_ENC, 99]);
            Ev { ty, body: any_bytes(3), want: vec![dump::t::UNKNOWN] }
        }
    }
}
fn open(w: W) -> BinlogReader {
    match BinlogReader::new(env::file(w.0)) {
        Ok(r) => r,
        Err(_) => {
            check(false, "a binlog file opens");
            loop {
                assume(false)
            }
        }
    }
}
fn expect_all(mut r: BinlogReader, want: &[Vec<u8>]) {
    for x in want {
        let got = dump::item(&r.next());
        observe(&got);
        check_eq(&got, x, "the next event of the file");
    }
    check(r.next().is_none(), "iteration ends at the end of the file");
    check(r.next().is_none(), "and stays ended");
}
/// `arg` events of arbitrary kinds and contents
pub fn h_c01_seq(arg: u32) {
    let mut w = W::new();
    w.b(&MAGIC);
    let mut want = vec![];
    for _ in 0..arg {
        let e = some_event();
        want.push(put(&mut w, &e));
    }
    let r = open(w);
    expect_all(if arg & 1 == 1 { r.read_events() } else { r }, &want);
    cover("seq");
}
/// sizes around the internal buffer, mixed with small events
pub fn h_c01_big(arg: u32) {
    let n = [32767usize, 32768, 32769, 70000][arg as usize];
    let mut w = W::new();
    w.b(&MAGIC);
    let mut want = vec![];
    let mut big = vec![b'x'; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        big[i] = any_u8() & 0x7f;
    }
    let order: &[u8] = match choose(3) {
        0 => &[1, 0, 1],
        1 => &[0, 1, 0],
        _ => &[1, 1, 0],
    };
    for k in order {
        let e = if *k == 1 { annotate(&big) } else { xid() };
        want.push(put(&mut w, &e));
    }
    expect_all(open(w), &want);
    cover("big");
}
/// the first four bytes decide whether the file is accepted
pub fn h_c01_magic(arg: u32) {
    let b = any_bytes(arg as usize);
    let r = BinlogReader::new(env::file(b.clone()));
    let good = b.len() >= 4 && (b[0] == MAGIC[0]) & (b[1] == MAGIC[1]) & (b[2] == MAGIC[2]) & (b[3] == MAGIC[3]);
    check(r.is_ok() == good, "a file is accepted exactly if it starts with the magic number");
    cover(if good { "magic" } else { "no magic" });
}
/// a tail cut off anywhere yields no event
pub fn h_c01_cut(_: u32) {
    let mut w = W::new();
    w.b(&MAGIC);
    let e = xid();
    let want = put(&mut w, &e);
    let mut t = W::new();
    let e2 = match choose(3) {
        0 => sql(b"ab"),
        1 => intvar(),
        _ => annotate(b"abc"),
    };
    put(&mut t, &e2);
    let k = choose(t.len() as u32) as usize;
    w.b(&t.0[..k]);
    let mut r = open(w);
    let got = dump::item(&r.next());
    observe(&got);
    check_eq(&got, &want, "the complete event");
    check(!matches!(r.next(), Some(Ok(_))), "an incomplete event is not delivered");
    check(!matches!(r.next(), Some(Ok(_))), "nothing is delivered after it");
    cover("cut");
}
/// an event whose body cannot be decoded is an error and the following events are still delivered
pub fn h_c01_bad(_: u32) {
    let mut w = W::new();
    w.b(&MAGIC);
    let a = xid();
    let mut want = vec![put(&mut w, &a)];
    let (ty, body): (u8, Vec<u8>) = match choose(7) {
        0 => (XID, any_bytes(3)),
        1 => (INTVAR, any_bytes(8)),
        2 => (ROTATE, any_bytes(7)),
        3 => (QUERY, any_bytes(12)),
        4 => (MA_GTID, any_bytes(11)),
        5 => {
            // rows of an unknown table
            let mut w = rows_head(2, any_u64() & 0xffff_ffff_ffff, 1, &[], 1);
            w.u8(1).u8(0).u8(7);
            (WRITE2, w.0)
        }
        _ => (HEARTBEAT, vec![0xff, any_u8()]),
    };
    H::any(ty, body.len()).write(&mut w);
    w.b(&body);
    want.push(ERR.to_vec());
    let b = some_event();
    want.push(put(&mut w, &b));
    expect_all(open(w), &want);
    cover("bad");
}
/// an impossible event length is an error
pub fn h_c01_short(_: u32) {
    let mut w = W::new();
    w.b(&MAGIC);
    let mut h = H::any(XID, 0);
    h.len = any_u32();
    assume(h.len < 19);
    h.write(&mut w);
    let mut r = open(w);
    check(matches!(r.next(), Some(Err(_))), "an event length below the header size is an error");
    check(!matches!(r.next(), Some(Ok(_))), "and no event follows");
    cover("short");
}
/// `arg` events of which one is arbitrary
pub fn h_c01_long(arg: u32) {
    let mut w = W::new();
    w.b(&MAGIC);
    let mut want = vec![];
    let k = pick(&[0, arg / 2, arg - 1]);
    for i in 0..arg {
        if i == k {
            want.push(put(&mut w, &some_event()));
        } else {
            let h = H { next: i, ..H::new(XID, 8) };
            h.write(&mut w);
            w.u64(i as u64);
            let mut d = D::new();
            h.dump(&mut d);
            d.tag(dump::t::XID).n(i as u64);
            want.push(d.0);
        }
    }
    expect_all(open(w), &want);
    cover("long");
}
super::entries!(h_c01_seq, h_c01_big, h_c01_magic, h_c01_cut, h_c01_bad, h_c01_short, h_c01_long);
