//! C13: commit moves the resume point exactly as the stream prescribes: file and position of the
//! next event that can be read without the preceding ones.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;

pub fn options(which: u32) -> BinlogOptions {
    match which {
        0 => BinlogOptions::from_position("start.01".to_string(), 4),
        1 => BinlogOptions::from_start(),
        2 => BinlogOptions::from_end(),
        3 => BinlogOptions::from_mysql_gtid(GtidSet::new()),
        _ => BinlogOptions::from_mariadb_gtid(GtidList::new()),
    }
}
enum Effect {
    None,
    Next,
    File(Vec<u8>, u32),
}
fn rows(op: Op, v: u8, flags: u16) -> Ev {
    let mut w = rows_head(v, 5, flags, &[], 1);
    w.u8(1);
    for _ in 0..if op == Op::Update { 2 } else { 1 } {
        w.u8(0).u8(any_u8());
    }
    if op == Op::Update {
        // second bitmap comes before the rows
        w.0.insert(if v == 2 { 12 } else { 10 }, 1);
    }
    Ev { ty: rows_code(op, v), body: w.0, want: vec![] }
}
fn step(kind: u32) -> (Ev, Effect) {
    match kind {
        0 => (table_map(5, &[col(ct::TINY, &[])]), Effect::None),
        1 => {
            let flags = any_u16();
            assume(flags & 1 == 0);
            (rows(pick(&[Op::Write, Op::Update, Op::Delete]), 1 + choose(2) as u8, flags), Effect::None)
        }
        2 => {
            let flags = any_u16() | 1;
            (rows(pick(&[Op::Write, Op::Update, Op::Delete]), 1 + choose(2) as u8, flags), Effect::Next)
        }
        3 => {
            let name = any_utf8(pick(&[1usize, 3]));
            let pos = any_u32();
            (rotate(pos as u64, &name), Effect::File(name, pos))
        }
        4 => (xid(), Effect::Next),
        5 => (sql(&any_ascii(2)), Effect::Next),
        6 => (heartbeat(b"start.01"), Effect::Next),
        7 => (fde(false), Effect::Next),
        8 => (my_gtid(0, &any_uuid(1), 9, 0), Effect::Next),
        9 => (ma_gtid(any_u8(), 0, 1, any_u64()), Effect::Next),
        10 => (intvar(), Effect::Next),
        11 => (annotate(b"q"), Effect::Next),
        _ => (Ev { ty: pick(&[STOP, XA_PREPARE, 34, CHECKPOINT]), body: any_bytes(4), want: vec![] }, Effect::Next),
    }
}
/// `arg` % 10 events of any kind from any resume point; strategy `arg` / 10
pub fn h_c13_commit(arg: u32) {
    let mut b = options(arg / 10);
    b.position = any_u32();
    let (mut file, mut pos) = (b.filename.clone().into_bytes(), b.position);
    let mut c = BinlogClient::new(ReplicaOptions { binlog: b, ..Default::default() });
    let mut p = EventParser::new();
    p.parse_event(&H::new(TABLE_MAP, 30).header(), &table_map(5, &[col(ct::TINY, &[])]).body).unwrap();
    for _ in 0..arg % 10 {
        let (e, eff) = step(choose(13));
        let h = H::any(e.ty, e.body.len()).header();
        let ev = match p.parse_event(&h, &e.body) {
            Ok(x) => x,
            Err(_) => {
                check(false, "event decodes");
                return;
            }
        };
        c.commit(&h, &ev);
        match eff {
            Effect::None => cover("kept"),
            Effect::Next => {
                // events made up by the server have no position
                if h.next_event_position > 0 {
                    pos = h.next_event_position;
                    cover("moved");
                } else {
                    cover("artificial");
                }
            }
            Effect::File(f, q) => {
                file = f;
                pos = q;
                cover("rotated");
            }
        }
        let mut got = D::new();
        got.s(c.options.binlog.filename.as_bytes()).n(c.options.binlog.position as u64);
        let mut want = D::new();
        want.s(&file).n(pos as u64);
        observe(&got.0);
        check_eq(&got.0, &want.0, "resume point after commit");
    }
}
super::entries!(h_c13_commit);
