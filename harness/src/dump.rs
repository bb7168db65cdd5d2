//! Canonical dumps of everything the parser returns. Expected dumps are written by the generators
//! with the same layout, from the values put on the wire.
use crate::out::D;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::row_events::mysql_value::MySqlValue;
use mysql_cdc::events::row_events::row_data::RowData;
use mysql_cdc::events::table_map_event::TableMapEvent;
use mysql_cdc::errors::Error;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;

pub mod t {
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const INT24: u8 = 3;
    pub const LONG: u8 = 4;
    pub const LONGLONG: u8 = 5;
    pub const FLOAT: u8 = 6;
    pub const DOUBLE: u8 = 7;
    pub const DECIMAL: u8 = 8;
    pub const STRING: u8 = 9;
    pub const BIT: u8 = 10;
    pub const ENUM: u8 = 11;
    pub const SET: u8 = 12;
    pub const BLOB: u8 = 13;
    pub const YEAR: u8 = 14;
    pub const DATE: u8 = 15;
    pub const TIME: u8 = 16;
    pub const DATETIME: u8 = 17;
    pub const TIMESTAMP: u8 = 18;

    pub const UNKNOWN: u8 = 100;
    pub const DELETE: u8 = 101;
    pub const UPDATE: u8 = 102;
    pub const WRITE: u8 = 103;
    pub const XID: u8 = 104;
    pub const INTVAR: u8 = 105;
    pub const USERVAR: u8 = 106;
    pub const QUERY: u8 = 107;
    pub const TABLE_MAP: u8 = 108;
    pub const ROTATE: u8 = 109;
    pub const ROWS_QUERY: u8 = 110;
    pub const HEARTBEAT: u8 = 111;
    pub const FORMAT: u8 = 112;
    pub const MY_GTID: u8 = 113;
    pub const MY_PREV: u8 = 114;
    pub const MA_GTID: u8 = 115;
    pub const MA_LIST: u8 = 116;
}

pub fn value(d: &mut D, v: &MySqlValue) {
    match v {
        MySqlValue::TinyInt(x) => d.tag(t::TINY).n(*x as u64),
        MySqlValue::SmallInt(x) => d.tag(t::SHORT).n(*x as u64),
        MySqlValue::MediumInt(x) => d.tag(t::INT24).n(*x as u64),
        MySqlValue::Int(x) => d.tag(t::LONG).n(*x as u64),
        MySqlValue::BigInt(x) => d.tag(t::LONGLONG).n(*x),
        MySqlValue::Float(x) => d.tag(t::FLOAT).n(x.to_bits() as u64),
        MySqlValue::Double(x) => d.tag(t::DOUBLE).n(x.to_bits()),
        MySqlValue::Decimal(x) => d.tag(t::DECIMAL).s(x.as_bytes()),
        MySqlValue::String(x) => d.tag(t::STRING).s(x.as_bytes()),
        MySqlValue::Bit(x) => d.tag(t::BIT).bits(x),
        MySqlValue::Enum(x) => d.tag(t::ENUM).n(*x as u64),
        MySqlValue::Set(x) => d.tag(t::SET).n(*x),
        MySqlValue::Blob(x) => d.tag(t::BLOB).s(x),
        MySqlValue::Year(x) => d.tag(t::YEAR).n(*x as u64),
        MySqlValue::Date(x) => d.tag(t::DATE).n(x.year as u64).n(x.month as u64).n(x.day as u64),
        MySqlValue::Time(x) => d.tag(t::TIME).i(x.hour as i64).n(x.minute as u64).n(x.second as u64).n(x.millis as u64),
        MySqlValue::DateTime(x) => d
            .tag(t::DATETIME)
            .n(x.year as u64)
            .n(x.month as u64)
            .n(x.day as u64)
            .n(x.hour as u64)
            .n(x.minute as u64)
            .n(x.second as u64)
            .n(x.millis as u64),
        MySqlValue::Timestamp(x) => d.tag(t::TIMESTAMP).n(*x),
    };
}
pub fn row(d: &mut D, r: &RowData) {
    d.seq(&r.cells, |d, c| {
        d.opt(c.as_ref(), |d, v| value(d, v));
    });
}
fn strs(d: &mut D, v: &Vec<String>) {
    d.seq(v, |d, x| {
        d.s(x.as_bytes());
    });
}
fn nums(d: &mut D, v: &Vec<u32>) {
    d.seq(v, |d, x| {
        d.n(*x as u64);
    });
}
fn pairs(d: &mut D, v: &Vec<(u32, u32)>) {
    d.seq(v, |d, x| {
        d.n(x.0 as u64).n(x.1 as u64);
    });
}
pub fn table_map(d: &mut D, x: &TableMapEvent) {
    d.n(x.table_id).s(x.database_name.as_bytes()).s(x.table_name.as_bytes()).s(&x.column_types);
    d.seq(&x.column_metadata, |d, m| {
        d.n(*m as u64);
    });
    d.bits(&x.null_bitmap);
    d.opt(x.table_metadata.as_ref(), |d, m| {
        d.opt(m.signedness.as_ref(), |d, v| {
            d.bits(v);
        });
        d.opt(m.default_charset.as_ref(), |d, v| {
            d.n(v.default_charset_collation as u64);
            pairs(d, &v.charset_collations);
        });
        d.opt(m.column_charsets.as_ref(), nums);
        d.opt(m.column_names.as_ref(), strs);
        d.opt(m.set_string_values.as_ref(), |d, v| {
            d.seq(v, strs);
        });
        d.opt(m.enum_string_values.as_ref(), |d, v| {
            d.seq(v, strs);
        });
        d.opt(m.geometry_types.as_ref(), nums);
        d.opt(m.simple_primary_keys.as_ref(), nums);
        d.opt(m.primary_keys_with_prefix.as_ref(), pairs);
        d.opt(m.enum_and_set_default_charset.as_ref(), |d, v| {
            d.n(v.default_charset_collation as u64);
            pairs(d, &v.charset_collations);
        });
        d.opt(m.enum_and_set_column_charsets.as_ref(), nums);
        d.opt(m.column_visibility.as_ref(), |d, v| {
            d.bits(v);
        });
    });
}
/// Sources are listed by the first byte of their uuid, which the harnesses keep distinct.
fn order(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return x.cmp(y);
        }
    }
    a.len().cmp(&b.len())
}
pub fn gtid_set(d: &mut D, g: &GtidSet) {
    let mut v: Vec<_> = g.uuid_sets.iter().collect();
    v.sort_by(|a, b| order(&a.1.source_id.data, &b.1.source_id.data).then(order(a.0.as_bytes(), b.0.as_bytes())));
    d.n(v.len() as u64);
    for (k, u) in v {
        d.s(k.as_bytes()).s(&u.source_id.data).s(u.source_id.uuid.as_bytes());
        d.seq(&u.intervals, |d, i| {
            d.n(i.start).n(i.end);
        });
    }
}
pub fn gtid_list(d: &mut D, g: &GtidList) {
    d.seq(&g.gtids, |d, x| {
        d.n(x.domain_id as u64).n(x.server_id as u64).n(x.sequence);
    });
}
pub fn event(d: &mut D, e: &BinlogEvent) {
    match e {
        BinlogEvent::UnknownEvent => {
            d.tag(t::UNKNOWN);
        }
        BinlogEvent::DeleteRowsEvent(x) => {
            d.tag(t::DELETE).n(x.table_id).n(x.flags as u64).n(x.columns_number as u64).bits(&x.columns_present).seq(&x.rows, row);
        }
        BinlogEvent::WriteRowsEvent(x) => {
            d.tag(t::WRITE).n(x.table_id).n(x.flags as u64).n(x.columns_number as u64).bits(&x.columns_present).seq(&x.rows, row);
        }
        BinlogEvent::UpdateRowsEvent(x) => {
            d.tag(t::UPDATE).n(x.table_id).n(x.flags as u64).n(x.columns_number as u64).bits(&x.columns_before_update).bits(&x.columns_after_update);
            d.seq(&x.rows, |d, r| {
                row(d, &r.before_update);
                row(d, &r.after_update);
            });
        }
        BinlogEvent::XidEvent(x) => {
            d.tag(t::XID).n(x.xid);
        }
        BinlogEvent::IntVarEvent(x) => {
            d.tag(t::INTVAR).n(x.intvar_type as u64).n(x.value);
        }
        BinlogEvent::UserVarEvent(x) => {
            d.tag(t::USERVAR).s(x.name.as_bytes()).opt(x.value.as_ref(), |d, v| {
                d.n(v.var_type as u64).n(v.collation as u64).s(v.value.as_bytes()).n(v.flags as u64);
            });
        }
        BinlogEvent::QueryEvent(x) => {
            d.tag(t::QUERY)
                .n(x.thread_id as u64)
                .n(x.duration as u64)
                .n(x.error_code as u64)
                .s(&x.status_variables)
                .s(x.database_name.as_bytes())
                .s(x.sql_statement.as_bytes());
        }
        BinlogEvent::TableMapEvent(x) => {
            d.tag(t::TABLE_MAP);
            table_map(d, x);
        }
        BinlogEvent::RotateEvent(x) => {
            d.tag(t::ROTATE).s(x.binlog_filename.as_bytes()).n(x.binlog_position);
        }
        BinlogEvent::RowsQueryEvent(x) => {
            d.tag(t::ROWS_QUERY).s(x.query.as_bytes());
        }
        BinlogEvent::HeartbeatEvent(x) => {
            d.tag(t::HEARTBEAT).s(x.binlog_filename.as_bytes());
        }
        BinlogEvent::FormatDescriptionEvent(x) => {
            d.tag(t::FORMAT).n(x.binlog_version as u64).s(x.server_version.as_bytes()).n(x.checksum_type as u64);
        }
        BinlogEvent::MySqlGtidEvent(x) => {
            d.tag(t::MY_GTID).s(&x.gtid.source_id.data).s(x.gtid.source_id.uuid.as_bytes()).n(x.gtid.transaction_id).n(x.flags as u64);
        }
        BinlogEvent::MySqlPrevGtidsEvent(x) => {
            d.tag(t::MY_PREV);
            gtid_set(d, &x.gtid_set);
        }
        BinlogEvent::MariaDbGtidEvent(x) => {
            d.tag(t::MA_GTID).n(x.gtid.domain_id as u64).n(x.gtid.server_id as u64).n(x.gtid.sequence).n(x.flags as u64);
        }
        BinlogEvent::MariaDbGtidListEvent(x) => {
            d.tag(t::MA_LIST);
            gtid_list(d, &x.gtid_list);
        }
    }
}
pub fn header(d: &mut D, h: &EventHeader) {
    d.n(h.timestamp as u64)
        .n(h.event_type as u64)
        .n(h.server_id as u64)
        .n(h.event_length as u64)
        .n(h.next_event_position as u64)
        .n(h.event_flags as u64);
}
/// Ok(event) or Err(_); the kind of the error is not compared.
pub fn result(r: &Result<BinlogEvent, Error>) -> Vec<u8> {
    let mut d = D::new();
    match r {
        Ok(e) => event(&mut d, e),
        Err(_) => {
            d.tag(0xee);
        }
    }
    d.0
}
pub fn item(r: &Option<Result<(EventHeader, BinlogEvent), Error>>) -> Vec<u8> {
    let mut d = D::new();
    match r {
        None => {
            d.tag(0xdd);
        }
        Some(Err(_)) => {
            d.tag(0xee);
        }
        Some(Ok((h, e))) => {
            header(&mut d, h);
            event(&mut d, e);
        }
    }
    d.0
}
