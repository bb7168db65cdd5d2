//! Wire-format generators, written from the MySQL/MariaDB protocol documentation.
use crate::api::*;
use crate::dump;
use crate::out::*;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;

pub const QUERY: u8 = 2;
pub const STOP: u8 = 3;
pub const ROTATE: u8 = 4;
pub const INTVAR: u8 = 5;
pub const RAND: u8 = 13;
pub const USER_VAR: u8 = 14;
pub const FORMAT: u8 = 15;
pub const XID: u8 = 16;
pub const TABLE_MAP: u8 = 19;
pub const WRITE1: u8 = 23;
pub const UPDATE1: u8 = 24;
pub const DELETE1: u8 = 25;
pub const HEARTBEAT: u8 = 27;
pub const ROWS_QUERY: u8 = 29;
pub const WRITE2: u8 = 30;
pub const UPDATE2: u8 = 31;
pub const DELETE2: u8 = 32;
pub const MY_GTID: u8 = 33;
pub const MY_PREV: u8 = 35;
pub const XA_PREPARE: u8 = 38;
pub const ANNOTATE: u8 = 160;
pub const CHECKPOINT: u8 = 161;
pub const MA_GTID: u8 = 162;
pub const MA_LIST: u8 = 163;
pub const START_ENC: u8 = 164;

#[derive(Clone, Copy)]
pub struct H {
    pub ts: u32,
    pub ty: u8,
    pub sid: u32,
    pub len: u32,
    pub next: u32,
    pub flags: u16,
}
impl H {
    /// header of an event with `body` bytes after it (checksum included)
    pub fn new(ty: u8, body: usize) -> H {
        H { ts: 1, ty, sid: 1, len: 19 + body as u32, next: 0, flags: 0 }
    }
    pub fn any(ty: u8, body: usize) -> H {
        H { ts: any_u32(), ty, sid: any_u32(), len: 19 + body as u32, next: any_u32(), flags: any_u16() }
    }
    pub fn write(&self, w: &mut W) {
        w.u32(self.ts).u8(self.ty).u32(self.sid).u32(self.len).u32(self.next).u16(self.flags);
    }
    pub fn dump(&self, d: &mut D) {
        d.n(self.ts as u64).n(self.ty as u64).n(self.sid as u64).n(self.len as u64).n(self.next as u64).n(self.flags as u64);
    }
    pub fn header(&self) -> EventHeader {
        let mut w = W::new();
        self.write(&mut w);
        EventHeader::parse(&w.0).unwrap()
    }
}

pub fn parse(p: &mut EventParser, ty: u8, body: &[u8]) -> Result<BinlogEvent, Error> {
    p.parse_event(&H::new(ty, body.len()).header(), body)
}
/// Body of an event together with the dump the parser must produce for it.
#[derive(Clone)]
pub struct Ev {
    pub ty: u8,
    pub body: Vec<u8>,
    pub want: Vec<u8>,
}
pub fn check_ev(p: &mut EventParser, e: &Ev, m: &str) {
    let r = parse(p, e.ty, &e.body);
    let got = dump::result(&r);
    check_eq(&got, &e.want, m);
    observe(&got);
}
pub const ERR: &[u8] = &[0xee];

// ------------------------------------------------------------------ simple events
pub fn xid() -> Ev {
    let v = any_u64();
    let mut d = D::new();
    d.tag(dump::t::XID).n(v);
    Ev { ty: XID, body: v.to_le_bytes().to_vec(), want: d.0 }
}
pub fn intvar() -> Ev {
    let (k, v) = (any_u8(), any_u64());
    let mut w = W::new();
    w.u8(k).u64(v);
    let mut d = D::new();
    d.tag(dump::t::INTVAR).n(k as u64).n(v);
    Ev { ty: INTVAR, body: w.0, want: d.0 }
}
pub fn rotate(pos: u64, name: &[u8]) -> Ev {
    let mut w = W::new();
    w.u64(pos).b(name);
    let mut d = D::new();
    d.tag(dump::t::ROTATE).s(name).n(pos);
    Ev { ty: ROTATE, body: w.0, want: d.0 }
}
pub fn heartbeat(name: &[u8]) -> Ev {
    let mut d = D::new();
    d.tag(dump::t::HEARTBEAT).s(name);
    Ev { ty: HEARTBEAT, body: name.to_vec(), want: d.0 }
}
pub fn query(thread: u32, dur: u32, err: u16, status: &[u8], db: &[u8], sql: &[u8]) -> Ev {
    let mut w = W::new();
    w.u32(thread).u32(dur).u8(db.len() as u8).u16(err).u16(status.len() as u16).b(status).b(db).u8(0).b(sql);
    let mut d = D::new();
    d.tag(dump::t::QUERY).n(thread as u64).n(dur as u64).n(err as u64).s(status).s(db).s(sql);
    Ev { ty: QUERY, body: w.0, want: d.0 }
}
pub fn sql(s: &[u8]) -> Ev {
    query(7, 0, 0, &[], b"db", s)
}
pub fn annotate(q: &[u8]) -> Ev {
    let mut d = D::new();
    d.tag(dump::t::ROWS_QUERY).s(q);
    Ev { ty: ANNOTATE, body: q.to_vec(), want: d.0 }
}
pub fn rows_query(q: &[u8]) -> Ev {
    let mut w = W::new();
    w.u8(if q.len() < 256 { q.len() as u8 } else { 255 }).b(q);
    let mut d = D::new();
    d.tag(dump::t::ROWS_QUERY).s(q);
    Ev { ty: ROWS_QUERY, body: w.0, want: d.0 }
}
pub fn uservar(name: &[u8], v: Option<(u8, u32, &[u8], u8)>) -> Ev {
    let mut w = W::new();
    w.u32(name.len() as u32).b(name);
    let mut d = D::new();
    d.tag(dump::t::USERVAR).s(name);
    match v {
        None => {
            w.u8(1);
            d.tag(0);
        }
        Some((t, c, v, f)) => {
            w.u8(0).u8(t).u32(c).u32(v.len() as u32).b(v).u8(f);
            d.tag(1).n(t as u64).n(c as u64).s(v).n(f as u64);
        }
    }
    Ev { ty: USER_VAR, body: w.0, want: d.0 }
}
pub fn uuid_text(u: &[u8; 16]) -> Vec<u8> {
    let mut o = vec![];
    for (i, b) in u.iter().enumerate() {
        if i == 4 || i == 6 || i == 8 || i == 10 {
            o.push(b'-');
        }
        for n in [b >> 4, b & 15] {
            o.push(if n < 10 { b'0' + n } else { b'a' - 10 + n });
        }
    }
    o
}
pub fn any_uuid(first: u8) -> [u8; 16] {
    let mut u = [first; 16];
    fill(&mut u[1..]);
    u
}
pub fn my_gtid(flags: u8, u: &[u8; 16], t: u64, tail: usize) -> Ev {
    let mut w = W::new();
    w.u8(flags).b(u).u64(t);
    // logical clock, commit time stamps, lengths: present in newer versions
    for i in 0..tail {
        w.u8(i as u8 + 2);
    }
    let mut d = D::new();
    d.tag(dump::t::MY_GTID).s(u).s(&uuid_text(u)).n(t).n(flags as u64);
    Ev { ty: MY_GTID, body: w.0, want: d.0 }
}
pub fn ma_gtid(flags: u8, domain: u32, server: u32, seq: u64) -> Ev {
    let mut w = W::new();
    w.u64(seq).u32(domain).u8(flags);
    // padding or commit id
    w.b(&[0; 6]);
    let mut d = D::new();
    d.tag(dump::t::MA_GTID).n(domain as u64).n(server as u64).n(seq).n(flags as u64);
    Ev { ty: MA_GTID, body: w.0, want: d.0 }
}
pub fn stop() -> Ev {
    Ev { ty: STOP, body: vec![], want: vec![dump::t::UNKNOWN] }
}
/// Format description: `n` event types; `alg`: None = version without checksum support.
pub fn format(version: u16, server: &[u8], n: usize, alg: Option<u8>, lens: impl Fn(usize) -> u8) -> Ev {
    let mut w = W::new();
    w.u16(version).b(server);
    for _ in server.len()..50 {
        w.u8(0);
    }
    w.u32(any_u32()).u8(19);
    for i in 1..=n {
        w.u8(if i == FORMAT as usize { (57 + n) as u8 } else { lens(i) });
    }
    if let Some(a) = alg {
        w.u8(a).u32(any_u32());
    }
    let mut d = D::new();
    d.tag(dump::t::FORMAT).n(version as u64).s(server).n(alg.unwrap_or(0) as u64);
    Ev { ty: FORMAT, body: w.0, want: d.0 }
}
/// Ordinary format description of MySQL 8 with or without checksums.
pub fn fde(crc: bool) -> Ev {
    format(4, b"8.0.35", 41, Some(crc as u8), |_| 8)
}

// ------------------------------------------------------------------ tables and rows
pub mod ct {
    pub const DECIMAL: u8 = 0;
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const LONG: u8 = 3;
    pub const FLOAT: u8 = 4;
    pub const DOUBLE: u8 = 5;
    pub const NULL: u8 = 6;
    pub const TIMESTAMP: u8 = 7;
    pub const LONGLONG: u8 = 8;
    pub const INT24: u8 = 9;
    pub const DATE: u8 = 10;
    pub const TIME: u8 = 11;
    pub const DATETIME: u8 = 12;
    pub const YEAR: u8 = 13;
    pub const VARCHAR: u8 = 15;
    pub const BIT: u8 = 16;
    pub const TIMESTAMP2: u8 = 17;
    pub const DATETIME2: u8 = 18;
    pub const TIME2: u8 = 19;
    pub const JSON: u8 = 245;
    pub const NEWDECIMAL: u8 = 246;
    pub const ENUM: u8 = 247;
    pub const SET: u8 = 248;
    pub const TINYBLOB: u8 = 249;
    pub const MEDIUMBLOB: u8 = 250;
    pub const LONGBLOB: u8 = 251;
    pub const BLOB: u8 = 252;
    pub const VARSTRING: u8 = 253;
    pub const STRING: u8 = 254;
    pub const GEOMETRY: u8 = 255;
}
#[derive(Clone)]
pub struct Col {
    pub ty: u8,
    /// metadata on the wire
    pub meta: Vec<u8>,
}
pub fn col(ty: u8, meta: &[u8]) -> Col {
    Col { ty, meta: meta.to_vec() }
}
/// number of metadata bytes of a column type and whether they are in big-endian order
pub fn meta_size(ty: u8) -> (usize, bool) {
    use ct::*;
    match ty {
        FLOAT | DOUBLE | TINYBLOB | MEDIUMBLOB | LONGBLOB | BLOB | JSON | GEOMETRY | TIMESTAMP2 | DATETIME2 | TIME2 => (1, false),
        VARCHAR | VARSTRING | BIT | NEWDECIMAL => (2, false),
        STRING | ENUM | SET => (2, true),
        _ => (0, false),
    }
}
pub fn meta_value(c: &Col) -> u16 {
    match meta_size(c.ty) {
        (0, _) => 0,
        (1, _) => c.meta[0] as u16,
        (_, false) => u16::from_le_bytes([c.meta[0], c.meta[1]]),
        (_, true) => u16::from_be_bytes([c.meta[0], c.meta[1]]),
    }
}
pub fn bitmap(b: &[bool]) -> Vec<u8> {
    let mut o = vec![0u8; (b.len() + 7) / 8];
    for (i, x) in b.iter().enumerate() {
        o[i / 8] |= (*x as u8) << (i % 8);
    }
    o
}
/// most significant bit first
pub fn bitmap_msb(b: &[bool]) -> Vec<u8> {
    let mut o = vec![0u8; (b.len() + 7) / 8];
    for (i, x) in b.iter().enumerate() {
        o[i / 8] |= (*x as u8) << (7 - i % 8);
    }
    o
}
pub fn any_bits(n: usize) -> Vec<bool> {
    let mut v = vec![];
    let mut b = 0;
    for i in 0..n {
        if i % 8 == 0 {
            b = any_u8();
        }
        v.push((b >> (i % 8)) & 1 == 1);
    }
    v
}
/// everything up to the optional metadata
pub fn table_map_body(id: u64, db: &[u8], table: &[u8], cols: &[Col], nulls: &[bool]) -> W {
    let mut w = W::new();
    w.u48(id).u16(1).u8(db.len() as u8).b(db).u8(0).u8(table.len() as u8).b(table).u8(0);
    w.lenenc(cols.len() as u64);
    for c in cols {
        w.u8(c.ty);
    }
    let m: usize = cols.iter().map(|c| c.meta.len()).sum();
    w.lenenc(m as u64);
    for c in cols {
        w.b(&c.meta);
    }
    w.b(&bitmap(nulls));
    w
}
pub fn table_map_dump(id: u64, db: &[u8], table: &[u8], cols: &[Col], nulls: &[bool]) -> D {
    let mut d = D::new();
    d.tag(dump::t::TABLE_MAP).n(id).s(db).s(table).n(cols.len() as u64);
    for c in cols {
        d.tag(c.ty);
    }
    d.seq(cols, |d, c| {
        d.n(meta_value(c) as u64);
    });
    d.bits(nulls);
    d
}
pub fn table_map(id: u64, cols: &[Col]) -> Ev {
    let nulls = vec![true; cols.len()];
    let w = table_map_body(id, b"db", b"t", cols, &nulls);
    let mut d = table_map_dump(id, b"db", b"t", cols, &nulls);
    d.tag(0);
    Ev { ty: TABLE_MAP, body: w.0, want: d.0 }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Write,
    Update,
    Delete,
}
/// event type code of a rows event of the given version (1 or 2)
pub fn rows_code(op: Op, v: u8) -> u8 {
    match (op, v) {
        (Op::Write, 1) => WRITE1,
        (Op::Update, 1) => UPDATE1,
        (Op::Delete, 1) => DELETE1,
        (Op::Write, _) => WRITE2,
        (Op::Update, _) => UPDATE2,
        (Op::Delete, _) => DELETE2,
    }
}
/// header of a rows event up to and including the number of columns
pub fn rows_head(v: u8, id: u64, flags: u16, extra: &[u8], ncols: usize) -> W {
    let mut w = W::new();
    w.u48(id).u16(flags);
    if v == 2 {
        w.u16(2 + extra.len() as u16).b(extra);
    }
    w.lenenc(ncols as u64);
    w
}
/// One WRITE row of one column: `wire` is the cell on the wire, `want` its dump.
pub fn one_cell(c: &Col, wire: &[u8], want: &[u8]) -> (Ev, Ev) {
    let m = table_map(5, &[c.clone()]);
    let mut w = rows_head(2, 5, 1, &[], 1);
    w.u8(1).u8(0).b(wire);
    let mut d = D::new();
    d.tag(dump::t::WRITE).n(5).n(1).n(1).bits(&[true]).n(1).n(1).tag(1);
    d.0.extend_from_slice(want);
    (m, Ev { ty: WRITE2, body: w.0, want: d.0 })
}
/// Expect the cell to decode to `want`. A second column behind it catches wrong sizes.
pub fn check_cell(c: &Col, wire: &[u8], want: &[u8], msg: &str) {
    let mut p = EventParser::new();
    let cols = [c.clone(), col(ct::SHORT, &[])];
    let m = table_map(5, &cols);
    check_ev(&mut p, &m, "table map");
    let tail = any_u16();
    let mut w = rows_head(2, 5, 1, &[], 2);
    w.u8(3).u8(0).b(wire).u16(tail);
    let mut d = D::new();
    d.tag(dump::t::WRITE).n(5).n(1).n(2).bits(&[true, true]).n(1).n(2).tag(1);
    d.0.extend_from_slice(want);
    d.tag(1).tag(dump::t::SHORT).n(tail as u64);
    check_ev(&mut p, &Ev { ty: WRITE2, body: w.0, want: d.0 }, msg);
}
