//! C23: whatever bytes an event or a text consists of, decoding returns a value or an error.
//! (Panics, endless loops and allocations above `LIM` are failures wherever they happen.)
use crate::{api::*, dump, env, gen, gen::*, out::*};
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::{gtid::Gtid as MaGtid, gtid_list::GtidList};
use mysql_cdc::providers::mysql::gtid::{gtid::Gtid as MyGtid, gtid_set::GtidSet, uuid::Uuid, uuid_set::UuidSet};

/// inputs have at most 500 bytes
const LIM: u64 = 1 << 16;

fn decode(p: &mut EventParser, ty: u8, body: &[u8]) {
    limit(LIM);
    let r = parse(p, ty, body);
    limit(4 << 30);
    observe(&dump::result(&r));
}
fn columns() -> Vec<Col> {
    vec![
        col(ct::TINY, &[]),
        col(ct::VARCHAR, &[10, 0]),
        col(ct::NEWDECIMAL, &[10, 2]),
        col(ct::DATETIME2, &[3]),
        col(ct::BLOB, &[2]),
        col(ct::BIT, &[3, 1]),
        col(ct::STRING, &[0xf7, 1]),
        col(ct::STRING, &[0xf8, 2]),
        col(ct::STRING, &[0xfe, 12]),
        col(ct::TIME2, &[1]),
        col(ct::TIMESTAMP2, &[6]),
        col(ct::DATE, &[]),
        col(ct::DATETIME, &[]),
        col(ct::TIME, &[]),
        col(ct::YEAR, &[]),
        col(ct::JSON, &[4]),
    ]
}
/// one row without NULLs
fn cells(w: &mut W) {
    w.u8(1).u8(2).b(b"ab").b(&[0x80, 0, 0, 1, 5]).b(&[0x99, 0xa0, 0x82, 0x11, 0x22, 0, 10]).u16(3).b(b"xyz").b(&[7, 0xff]).u8(2).u16(5).u8(3).b(b"str");
    w.b(&[0x81, 0x23, 0x45, 10]).b(&[0x5f, 0, 0, 1, 0, 0, 9]).b(&[0x21, 0xcc, 0x0f]).u64(20240102030405).u24(10203).u8(124).u32(2).b(b"{}");
}
/// well-formed events of every kind
fn template(k: u32) -> (u8, Vec<u8>) {
    let mut w = W::new();
    let e = match k {
        0 => fde(true),
        1 => table_map(5, &columns()),
        2 => {
            let mut w = table_map_body(5, b"db", b"t", &columns(), &[false; 16]);
            w.u8(1).lenstr(&[0x40]).u8(2).lenstr(&[45, 0, 63]).u8(3).lenstr(&[45, 45]).u8(4).lenstr(b"\x01a\x02bc");
            w.u8(5).lenstr(b"\x02\x01x\x01y").u8(6).lenstr(b"\x01\x02zz").u8(7).lenstr(&[1]).u8(8).lenstr(&[0, 1]).u8(9).lenstr(&[0, 4, 1, 2]);
            w.u8(10).lenstr(&[45, 0, 63]).u8(11).lenstr(&[45]).u8(12).lenstr(&[0xff, 0xff]);
            Ev { ty: TABLE_MAP, body: w.0, want: vec![] }
        }
        3 => heartbeat(b"bin.01"),
        4 => rotate(4, b"bin.02"),
        5 => Ev { ty: INTVAR, body: vec![2, 1, 0, 0, 0, 0, 0, 0, 0], want: vec![] },
        6 => uservar(b"va", Some((0, 45, b"val", 0))),
        7 => query(7, 1, 0, &[0, 1, 2, 3, 4], b"db", b"SELECT 1"),
        8 => Ev { ty: XID, body: vec![1; 8], want: vec![] },
        9 => rows_query(b"SELECT 1"),
        10 => annotate(b"SELECT 1"),
        11 => my_gtid(1, &[7; 16], 5, 17),
        12 => {
            w.u64(2);
            for i in 0..2 {
                w.b(&[i; 16]).u64(2).u64(1).u64(5).u64(7).u64(9);
            }
            Ev { ty: MY_PREV, body: w.0, want: vec![] }
        }
        13 => ma_gtid(1, 0, 1, 5),
        14 => {
            w.u32(2).u32(0).u32(1).u64(5).u32(1).u32(1).u64(6);
            Ev { ty: MA_LIST, body: w.0, want: vec![] }
        }
        k => {
            let v2 = k >= 18;
            let op = (k - 15) % 3;
            w.u48(5).u16(1);
            if v2 {
                w.u16(5).b(&[0, 1, 2]);
            }
            w.u8(16).b(&[0xff, 0xff]);
            if op == 1 {
                w.b(&[0xff, 0xff]);
            }
            for i in 0..2 {
                w.b(&[0, 0]);
                cells(&mut w);
                if op == 1 && i == 0 {
                    w.b(&[0, 0]);
                    cells(&mut w);
                }
            }
            if op == 1 {
                w.b(&[0, 0]);
                cells(&mut w);
            }
            Ev { ty: [WRITE1, UPDATE1, DELETE1, WRITE2, UPDATE2, DELETE2][(k - 15) as usize], body: w.0, want: vec![] }
        }
    };
    (e.ty, e.body)
}
fn parser(k: u32) -> EventParser {
    let mut p = EventParser::new();
    if k >= 15 {
        let t = table_map(5, &columns());
        check(parse(&mut p, t.ty, &t.body).is_ok(), "table map decodes");
    }
    p
}
/// the templates themselves are well-formed
pub fn h_c23_template(arg: u32) {
    let (ty, b) = template(arg);
    check(parse(&mut parser(arg), ty, &b).is_ok(), "a well-formed event decodes");
    cover("template");
}
/// any `arg` % 10 adjacent bytes of a well-formed event are arbitrary; `arg` / 10 = kind
pub fn h_c23_window(arg: u32) {
    let k = (arg % 10) as usize;
    let (ty, mut b) = template(arg / 10);
    assume(b.len() >= k);
    let at = choose_wide(b.len() - k + 1);
    fill(&mut b[at..at + k]);
    decode(&mut parser(arg / 10), ty, &b);
    cover("window");
}
/// a well-formed event, cut anywhere or followed by up to `arg` % 10 arbitrary bytes; `arg` / 10 = kind
pub fn h_c23_cut(arg: u32) {
    let (ty, mut b) = template(arg / 10);
    let n = choose_wide(b.len() + 1 + (arg % 10) as usize);
    if n < b.len() {
        b.truncate(n);
    } else {
        let x = any_bytes(n - b.len());
        b.extend(x);
    }
    decode(&mut parser(arg / 10), ty, &b);
    cover("cut");
}
/// events of any kind with any `arg` bytes
pub fn h_c23_short(arg: u32) {
    let ty = any_u8();
    decode(&mut parser(15), ty, &any_bytes(arg as usize));
    cover("short");
}
/// rows of a column of any type with any metadata, `arg` % 10 arbitrary bytes; `arg` / 10 = number of the type
pub fn h_c23_cell(arg: u32) {
    let ty = crate::p04::ALL.get(arg as usize / 10).copied().unwrap_or(0x40 + (arg / 10) as u8);
    let mut p = EventParser::new();
    let mut meta = any_bytes(meta_size(ty).0);
    if ty == ct::NEWDECIMAL || ty == ct::STRING {
        // some values; with one byte of data any value of one of the two with some of the other
        let (a, b): (&[u8], &[u8]) = if ty == ct::STRING { (&[0xfe, 0xf7, 0xf8, 0xce, 0, 0xff], &[0, 1, 2, 4, 8, 9, 255]) } else { (&[0, 1, 9, 10, 18, 65, 255], &[0, 1, 30, 255]) };
        let i = if arg % 10 > 1 { 2 } else { choose(2) };
        if i != 0 {
            meta[0] = pick(a);
        }
        if i != 1 {
            meta[1] = pick(b);
        }
    }
    let t = table_map(5, &[Col { ty, meta }]);
    limit(LIM);
    if parse(&mut p, t.ty, &t.body).is_err() {
        cover("table map refused");
        return;
    }
    let mut w = W::new();
    w.u48(5).u16(1).u16(2).u8(1).u8(1).u8(0).b(&any_bytes((arg % 10) as usize));
    decode(&mut p, WRITE2, &w.0);
    cover("cell");
}
/// rows events that do not fit their table: any number of columns, any bitmaps, tables of `arg` columns
pub fn h_c23_shape(arg: u32) {
    let mut p = EventParser::new();
    let cols: Vec<Col> = (0..arg).map(|_| col(ct::TINY, &[])).collect();
    let t = table_map(5, &cols);
    check(parse(&mut p, t.ty, &t.body).is_ok(), "table map decodes");
    let mut w = W::new();
    let n = any_u8();
    w.u48(5).u16(any_u16()).u16(2).u8(n).b(&any_bytes(pick(&[0usize, 1, 4, 5])));
    let ty = pick(&[WRITE2, UPDATE2, DELETE2]);
    decode(&mut p, ty, &w.0);
    cover("shape");
}
fn text(v: &[u8]) -> &str {
    std::str::from_utf8(v).unwrap_or("")
}
fn texts(v: &[u8]) {
    let s = text(v);
    limit(LIM);
    let mut d = D::new();
    match GtidSet::parse(s) {
        Ok(g) => d.tag(1).s(g.to_string().as_bytes()),
        Err(_) => d.tag(0),
    };
    match GtidList::parse(s) {
        Ok(g) => d.tag(1).s(g.to_string().as_bytes()),
        Err(_) => d.tag(0),
    };
    limit(4 << 30);
    observe(&d.0);
}
/// any `arg` ASCII characters
pub fn h_c23_text(arg: u32) {
    texts(&any_ascii(arg as usize));
    cover("text");
}
/// well-formed texts of which any `arg` adjacent characters are arbitrary
pub fn h_c23_near(arg: u32) {
    let k = arg as usize;
    let mut v = match choose(3) {
        0 => b"3e11fa47-71ca-11e1-9e33-c80aa9429562:1-5:7,3e11fa47-71ca-11e1-9e33-c80aa9429563:3".to_vec(),
        1 => b"0-1-270,1-2-3".to_vec(),
        _ => b"3E11FA4771CA11E19E33C80AA9429562:18446744073709551615".to_vec(),
    };
    let at = choose_wide(v.len() - k + 1);
    for i in 0..k {
        v[at + i] = any_below(128);
    }
    texts(&v);
    cover("near");
}
/// texts that are not ASCII: characters of two to four bytes anywhere
pub fn h_c23_wide(_: u32) {
    let c = pick(&[&"\u{e9}"[..], "\u{20ac}", "\u{1f600}", "\u{3000}", "\u{661}"]);
    let v = pick(&[&"3e11fa47-71ca-11e1-9e33-c80aa9429562:1-5:7"[..], "3e11fa4771ca11e19e33c80aa9429562:1", "0-1-270,1-2-3", ""]);
    let at = choose_wide(v.len() + 1);
    let cut = choose(4) as usize;
    let mut t = v.as_bytes()[..at].to_vec();
    t.extend(c.as_bytes());
    t.extend(&v.as_bytes()[(at + cut).min(v.len())..]);
    texts(&t);
    let _ = Uuid::parse(text(&t).to_string());
    cover("wide");
}
/// binlog files: `arg` arbitrary bytes after the magic number (below 100), or files of `arg` - 100 bytes
pub fn h_c23_file(arg: u32) {
    let mut v = vec![];
    let n = (arg % 100) as usize;
    if arg < 100 {
        v.extend([0xfe, b'b', b'i', b'n']);
    }
    v.extend(any_bytes(n));
    if arg < 100 && n >= 13 {
        // the size of the event is allocated before it is read
        let l = u32::from_le_bytes([v[13], v[14], v[15], v[16]]);
        assume(l < 64);
    }
    match BinlogReader::new(env::file(v)) {
        Err(_) => cover("not a binlog"),
        Ok(r) => {
            let mut d = D::new();
            for x in r {
                let bad = x.is_err();
                d.0.extend(dump::item(&Some(x)));
                if bad {
                    break;
                }
            }
            observe(&d.0);
            cover("binlog");
        }
    }
}
/// a position is committed after anything that decodes
pub fn h_c23_commit(arg: u32) {
    use mysql_cdc::{binlog_client::BinlogClient, binlog_options::BinlogOptions, replica_options::ReplicaOptions};
    let k = arg / 10;
    let (ty, mut b) = template(k);
    let n = (arg % 10) as usize;
    let at = choose_wide(b.len() - n + 1);
    fill(&mut b[at..at + n]);
    let mut c = BinlogClient::new(ReplicaOptions {
        binlog: match choose(3) {
            0 => BinlogOptions::from_start(),
            1 => BinlogOptions::from_mysql_gtid(GtidSet::new()),
            _ => BinlogOptions::from_mariadb_gtid(GtidList::new()),
        },
        ..Default::default()
    });
    let h = H::any(ty, b.len()).header();
    let mut p = parser(k);
    if let Ok(e) = p.parse_event(&h, &b) {
        c.commit(&h, &e);
        let h = H::any(XID, 8).header();
        if let Ok(e) = p.parse_event(&h, &[1; 8]) {
            c.commit(&h, &e);
        }
    }
    cover("commit");
}
super::entries!(h_c23_template, h_c23_window, h_c23_cut, h_c23_short, h_c23_cell, h_c23_shape, h_c23_text, h_c23_near, h_c23_wide, h_c23_file, h_c23_commit);
