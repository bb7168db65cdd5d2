//! C04: table map events are decoded exactly.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::events::event_parser::EventParser;

pub const ALL: &[u8] = &[
    ct::TINY, ct::SHORT, ct::LONG, ct::FLOAT, ct::DOUBLE, ct::NULL, ct::TIMESTAMP, ct::LONGLONG, ct::INT24, ct::DATE, ct::TIME, ct::DATETIME, ct::YEAR,
    ct::VARCHAR, ct::BIT, ct::TIMESTAMP2, ct::DATETIME2, ct::TIME2, ct::JSON, ct::NEWDECIMAL, ct::ENUM, ct::SET, ct::TINYBLOB, ct::MEDIUMBLOB,
    ct::LONGBLOB, ct::BLOB, ct::VARSTRING, ct::STRING, ct::GEOMETRY,
];
fn any_col(ty: u8) -> Col {
    Col { ty, meta: any_bytes(meta_size(ty).0) }
}
fn go(id: u64, db: &[u8], table: &[u8], cols: &[Col], nulls: &[bool]) {
    let w = table_map_body(id, db, table, cols, nulls);
    let mut d = table_map_dump(id, db, table, cols, nulls);
    d.tag(0);
    let mut p = EventParser::new();
    check_ev(&mut p, &Ev { ty: TABLE_MAP, body: w.0, want: d.0 }, "table map");
}
/// every pair of neighbouring types, arbitrary metadata
pub fn h_c04_types(_: u32) {
    let (a, b) = (pick(ALL), pick(ALL));
    let nulls = any_bits(2);
    go(any_u64() >> 16, &any_utf8(2), b"t", &[any_col(a), any_col(b)], &nulls);
    cover("types");
}
/// `arg` columns of rotating types, arbitrary metadata and nullability
pub fn h_c04_many(arg: u32) {
    let n = arg as usize;
    let s = choose(3) as usize * 10;
    let cols: Vec<Col> = (0..n).map(|i| any_col(ALL[(i * 7 + s) % ALL.len()])).collect();
    let nulls = any_bits(n);
    go(any_u64() >> 16, b"d", b"t", &cols, &nulls);
    cover("many");
}
/// names of all lengths; identifiers are arbitrary UTF-8
pub fn h_c04_names(_: u32) {
    let name = || match choose(5) {
        0 => vec![],
        1 => any_utf8(1),
        2 => any_utf8(4),
        3 => vec![b'n'; 192],
        _ => vec![b'z'; 255],
    };
    let (db, t) = (name(), name());
    let nulls = any_bits(1);
    go(any_u64() >> 16, &db, &t, &[any_col(ct::STRING)], &nulls);
    cover("names");
}
super::entries!(h_c04_types, h_c04_many, h_c04_names);
