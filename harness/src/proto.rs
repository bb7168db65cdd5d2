//! The server's side of the client/server protocol, and what a client must send in a session.
use crate::api::*;
use crate::env::*;
use crate::out::*;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;
use mysql_cdc::providers::mariadb::gtid::{gtid::Gtid, gtid_list::GtidList};
use mysql_cdc::providers::mysql::gtid::{gtid_set::GtidSet, interval::Interval, uuid::Uuid, uuid_set::UuidSet};
use mysql_cdc::replica_options::ReplicaOptions;
use std::time::Duration;

pub fn pkt(seq: u8, body: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.u24(body.len() as u32).u8(seq).b(body);
    w.0
}
/// A conversation: what the server sends and what the client must send, in lock-step.
#[derive(Clone, Default)]
pub struct Conv {
    pub data: Vec<u8>,
    pub expect: Vec<u8>,
    pub gates: Vec<(usize, usize)>,
    pub marks: Vec<(usize, usize)>,
    /// offsets of the server's packets
    pub packets: Vec<usize>,
}
impl Conv {
    pub fn new() -> Conv {
        Conv::default()
    }
    pub fn s(&mut self, seq: u8, body: &[u8]) -> &mut Self {
        if self.gates.last().map(|x| x.1) != Some(self.expect.len()) && !self.expect.is_empty() {
            self.gates.push((self.data.len(), self.expect.len()));
        }
        self.packets.push(self.data.len());
        self.data.extend(pkt(seq, body));
        self
    }
    pub fn c(&mut self, seq: u8, body: &[u8]) -> &mut Self {
        self.marks.push((self.expect.len(), self.data.len()));
        self.expect.extend(pkt(seq, body));
        self
    }
    pub fn q(&mut self, sql: &[u8]) -> &mut Self {
        let mut w = W::new();
        w.u8(3).b(sql);
        self.c(0, &w.0)
    }
    pub fn script(&self) -> Script {
        Script { gates: self.gates.clone(), ..Script::new(self.data.clone()) }
    }
    /// the client sent exactly what it must, each packet after the packets before it were read
    pub fn verify(&self, s: &Seen, m: &str) {
        observe(&s.sent);
        check_eq(&s.sent, &self.expect, m);
        check(s.marks == self.marks, "each request is sent after the answers before it were read");
    }
}

pub const OK: [u8; 7] = [0, 0, 0, 2, 0, 0, 0];
pub const EOF: [u8; 5] = [0xfe, 0, 0, 2, 0];
pub fn err(code: u16, state: Option<&[u8]>, msg: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.u8(0xff).u16(code);
    if let Some(s) = state {
        w.u8(b'#').b(s);
    }
    w.b(msg);
    w.0
}
pub fn column(name: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.lenstr(b"def").lenstr(b"").lenstr(b"").lenstr(b"").lenstr(name).lenstr(b"").u8(12).u16(33).u32(192).u8(0xfd).u16(0).u8(31).u16(0);
    w.0
}
pub fn row(cells: &[&[u8]]) -> Vec<u8> {
    let mut w = W::new();
    for c in cells {
        w.lenstr(c);
    }
    w.0
}
/// packets of a text result set, sequence numbers from 1
pub fn result_set(c: &mut Conv, columns: usize, rows: &[Vec<u8>]) {
    c.s(1, &[columns as u8]);
    let mut seq = 2;
    for _ in 0..columns {
        c.s(seq, &column(b"c"));
        seq += 1;
    }
    c.s(seq, &EOF);
    for r in rows {
        seq += 1;
        c.s(seq, r);
    }
    c.s(seq + 1, &EOF);
}

pub const NATIVE: &[u8] = b"mysql_native_password";
pub const SHA2: &[u8] = b"caching_sha2_password";
pub const SCRAMBLE: &[u8; 20] = b"0123456789abcdefghij";

#[derive(Clone)]
pub struct Greet {
    pub version: Vec<u8>,
    pub id: u32,
    pub scramble: Vec<u8>,
    pub caps: u64,
    pub collation: u8,
    pub status: u16,
    pub plugin: Vec<u8>,
}
impl Greet {
    pub fn new(version: &[u8]) -> Greet {
        Greet { version: version.to_vec(), id: 9, scramble: SCRAMBLE.to_vec(), caps: 0xc1ff_f7ff & !0x800, collation: 8, status: 2, plugin: NATIVE.to_vec() }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut w = W::new();
        let c = self.caps.to_le_bytes();
        w.u8(10).b(&self.version).u8(0).u32(self.id).b(&self.scramble[..8]).u8(0).b(&c[..2]).u8(self.collation).u16(self.status);
        w.b(&c[2..4]).u8(21).b(&[0; 6]).b(&c[4..]).b(&self.scramble[8..]).u8(0).b(&self.plugin).u8(0);
        w.0
    }
}
/// login packet
pub fn login(user: &[u8], response: &[u8], db: Option<&[u8]>, plugin: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    // LONG_FLAG, PROTOCOL_41, SECURE_CONNECTION, PLUGIN_AUTH, CONNECT_WITH_DB
    w.u32(0x4 | 0x200 | 0x8000 | 0x80000 | if db.is_some() { 8 } else { 0 }).u32(0).u8(45).b(&[0; 23]);
    w.b(user).u8(0).u8(response.len() as u8).b(response);
    if let Some(d) = db {
        w.b(d).u8(0);
    }
    w.b(plugin).u8(0);
    w.0
}

#[derive(Clone, Copy, PartialEq)]
pub enum Strat {
    Start,
    Position,
    End,
    Gtid,
}
#[derive(Clone)]
pub struct Cfg {
    pub maria: bool,
    pub strat: Strat,
    pub blocking: bool,
    pub server_id: u32,
    pub heartbeat: Duration,
    /// text of the heartbeat period in nanoseconds
    pub heartbeat_text: Vec<u8>,
    pub file: Vec<u8>,
    pub pos: u32,
    /// MySQL: sources with their intervals
    pub set: Vec<([u8; 16], Vec<(u64, u64)>)>,
    /// MariaDB
    pub list: Vec<(u32, u32, u64)>,
    pub list_text: Vec<u8>,
    pub checksum: &'static [u8],
    /// what `show master status` reports
    pub end_file: Vec<u8>,
    pub end_pos: Vec<u8>,
    pub version: &'static [u8],
}
impl Cfg {
    pub fn new(maria: bool, strat: Strat) -> Cfg {
        Cfg {
            maria,
            strat,
            blocking: true,
            server_id: 65535,
            heartbeat: Duration::from_secs(30),
            heartbeat_text: b"30000000000".to_vec(),
            file: if strat == Strat::Position { b"bin.01".to_vec() } else { vec![] },
            pos: if strat == Strat::End { 0 } else { 4 },
            set: vec![(UU, vec![(1, 5)])],
            list: vec![(0, 1, 7)],
            list_text: b"0-1-7".to_vec(),
            checksum: b"NONE",
            end_file: b"bin.07".to_vec(),
            end_pos: b"157".to_vec(),
            version: if maria { b"5.5.5-10.6.4-MariaDB-log" } else { b"8.0.32" },
        }
    }
    pub fn gtid_set(&self) -> GtidSet {
        let mut g = GtidSet::new();
        for (u, iv) in &self.set {
            let u = Uuid::new(*u);
            let mut s = UuidSet::new(u.clone(), vec![]);
            for i in iv {
                s.intervals.push(Interval::new(i.0, i.1));
            }
            g.uuid_sets.insert(u.uuid.clone(), s);
        }
        g
    }
    pub fn options(&self, port: u16) -> ReplicaOptions {
        let file = String::from_utf8(self.file.clone()).unwrap();
        let mut binlog = match self.strat {
            Strat::Start => BinlogOptions::from_start(),
            Strat::Position => BinlogOptions::from_position(file.clone(), self.pos),
            Strat::End => BinlogOptions::from_end(),
            Strat::Gtid if self.maria => {
                let mut l = GtidList::new();
                for g in &self.list {
                    l.gtids.push(Gtid::new(g.0, g.1, g.2));
                }
                BinlogOptions::from_mariadb_gtid(l)
            }
            Strat::Gtid => BinlogOptions::from_mysql_gtid(self.gtid_set()),
        };
        // what the constructor sets is kept where it is what this configuration wants
        let fresh = Cfg::new(self.maria, self.strat);
        if self.strat != Strat::Position && self.file != fresh.file {
            binlog.filename = file;
        }
        if self.strat != Strat::Position && self.pos != fresh.pos {
            binlog.position = self.pos;
        }
        ReplicaOptions {
            port,
            hostname: "127.0.0.1".to_string(),
            username: "repl".to_string(),
            server_id: self.server_id,
            blocking: self.blocking,
            heartbeat_interval: self.heartbeat,
            binlog,
            ..Default::default()
        }
    }
    pub fn greet(&self) -> Greet {
        Greet::new(self.version)
    }
    /// login without password
    pub fn connect(&self, c: &mut Conv) {
        c.s(0, &self.greet().body());
        c.c(1, &login(b"repl", b"", None, NATIVE));
        c.s(2, &OK);
    }
    /// everything from the greeting to the dump request
    pub fn session(&self, c: &mut Conv) {
        self.connect(c);
        let (file, pos) = self.prepare(c);
        self.request(c, &file, pos);
    }
    pub fn prepare(&self, c: &mut Conv) -> (Vec<u8>, u32) {
        let (mut file, mut pos) = (self.file.clone(), self.pos);
        if self.strat == Strat::End && file.is_empty() {
            c.q(b"show master status");
            result_set(c, 5, &[row(&[&self.end_file, &self.end_pos, b"", b"", b""])]);
            file = self.end_file.clone();
            pos = 0;
            for d in &self.end_pos {
                pos = pos.wrapping_mul(10).wrapping_add((*d - b'0') as u32);
            }
        }
        let mut q = b"set @master_heartbeat_period=".to_vec();
        q.extend(&self.heartbeat_text);
        c.q(&q);
        c.s(1, &OK);
        c.q(b"SET @master_binlog_checksum= @@global.binlog_checksum");
        c.s(1, &OK);
        c.q(b"SELECT @master_binlog_checksum");
        result_set(c, 1, &[row(&[self.checksum])]);
        (file, pos)
    }
    pub fn request(&self, c: &mut Conv, file: &[u8], pos: u32) {
        let sid = if self.blocking { self.server_id } else { 0 };
        if self.maria {
            c.q(b"SET @mariadb_slave_capability=4");
            c.s(1, &OK);
            if self.strat == Strat::Gtid {
                let mut q = b"SET @slave_connect_state='".to_vec();
                q.extend(&self.list_text);
                q.push(b'\'');
                c.q(&q);
                c.s(1, &OK);
                c.q(b"SET @slave_gtid_strict_mode=0");
                c.s(1, &OK);
                c.q(b"SET @slave_gtid_ignore_duplicates=0");
                c.s(1, &OK);
                let mut w = W::new();
                w.u8(21).u32(self.server_id).u8(0).u8(0).u8(0).u16(0).u32(0).u32(0);
                c.c(0, &w.0);
                c.s(1, &OK);
            }
        } else if self.strat == Strat::Gtid {
            // without a file: the server starts at the first transaction that is not in the set
            let mut w = W::new();
            w.u8(30).u16(0).u32(sid).u32(0).u64(4);
            let mut g = W::new();
            g.u64(self.set.len() as u64);
            for (u, iv) in &self.set {
                g.b(u).u64(iv.len() as u64);
                for i in iv {
                    g.u64(i.0).u64(i.1 + 1);
                }
            }
            w.u32(g.len() as u32).b(&g.0);
            c.c(0, &w.0);
            return;
        }
        let mut w = W::new();
        w.u8(18).u32(pos).u16(0).u32(sid).b(file);
        c.c(0, &w.0);
    }
}
pub const UU: [u8; 16] = [0x3e, 0x11, 0xfa, 0x47, 0x71, 0xca, 0x11, 0xe1, 0x9e, 0x33, 0xc8, 0x0a, 0xa9, 0x42, 0x95, 0x62];

pub fn err_text<T>(r: &Result<T, Error>) -> Vec<u8> {
    match r {
        Ok(_) => vec![],
        Err(Error::String(s)) => s.as_bytes().to_vec(),
        Err(_) => b"other".to_vec(),
    }
}
pub fn contains(text: &[u8], part: &[u8]) -> bool {
    let mut r = part.is_empty();
    let mut i = 0;
    while i + part.len() <= text.len() {
        let mut same = true;
        for k in 0..part.len() {
            same &= text[i + k] == part[k];
        }
        r |= same;
        i += 1;
    }
    r
}
/// starts replication against the conversation; `replicate` must succeed
pub fn client(cfg: &Cfg, c: &Conv) -> BinlogClient {
    let port = serve(vec![c.script()]);
    BinlogClient::new(cfg.options(port))
}
