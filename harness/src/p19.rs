//! C19: replication is requested from the server exactly as configured.
use crate::{api::*, env::*, gen::*, out::*, proto::*};
use mysql_cdc::{binlog_client::BinlogClient, replica_options::ReplicaOptions, ssl_mode::SslMode};
use std::time::Duration;

fn run(cfg: &Cfg, m: &str) {
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut c = client(cfg, &conv);
    let r = c.replicate();
    check(r.is_ok(), "replication starts");
    let s = seen();
    check(s.len() == 1 && s[0].ip == 0x7f00_0001 && s[0].port == c.options.port, "one connection to the configured host and port");
    conv.verify(&s[0], m);
    check(s[0].consumed == conv.data.len(), "every answer was read, nothing else");
    cover(m);
}
fn strat(k: u32) -> Strat {
    [Strat::Start, Strat::Position, Strat::End, Strat::Gtid][k as usize]
}
fn scalars(cfg: &mut Cfg) {
    cfg.server_id = any_u32();
    cfg.blocking = any_bool();
    cfg.checksum = pick(&[&b"NONE"[..], b"CRC32"]);
}
/// every server id, blocking or not, every position; `arg` = strategy + 10 * MariaDB
pub fn h_c19_request(arg: u32) {
    let mut cfg = Cfg::new(arg >= 10, strat(arg % 10));
    scalars(&mut cfg);
    if cfg.strat != Strat::End {
        cfg.file = any_ascii(pick(&[0usize, 1, 10, 200]));
        cfg.pos = any_u32();
    }
    run(&cfg, "request");
}
/// a resumed session: file and position as committed, whatever the strategy
pub fn h_c19_resume(arg: u32) {
    let mut cfg = Cfg::new(arg >= 10, strat(arg % 10));
    cfg.file = any_ascii(pick(&[1usize, 6]));
    cfg.pos = any_u32();
    run(&cfg, "resume");
}
/// GTID sets: `arg` = 10 * sources + intervals
pub fn h_c19_set(arg: u32) {
    let mut cfg = Cfg::new(false, Strat::Gtid);
    cfg.set.clear();
    for i in 0..arg / 10 {
        let mut iv = vec![];
        for _ in 0..arg % 10 {
            let (a, b) = (any_u64(), any_u64());
            assume((a >= 1) & (a <= b) & (b < u64::MAX));
            iv.push((a, b));
        }
        let mut u = UU;
        u[3] = i as u8;
        if i == 0 {
            fill(&mut u[14..]);
        }
        cfg.set.push((u, iv));
    }
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut c = client(&cfg, &conv);
    check(c.replicate().is_ok(), "replication starts");
    let s = &seen()[0];
    observe(&[s.sent.len() as u8]);
    // the order of the sources is free
    let at = conv.expect.len() - cfg.set.iter().map(|x| 24 + 16 * x.1.len()).sum::<usize>();
    check(s.sent.len() == conv.expect.len(), "size of the request");
    if s.sent.len() == conv.expect.len() && cfg.set.len() > 1 {
        let mut order = vec![];
        let mut o = at;
        for _ in 0..cfg.set.len() {
            let k = s.sent[o + 3] as usize;
            if k >= cfg.set.len() {
                return check(false, "source in the request");
            }
            order.push(cfg.set[k].clone());
            o += 24 + 16 * cfg.set[k].1.len();
        }
        cfg.set = order;
        conv = Conv::new();
        cfg.session(&mut conv);
    }
    check_eq(&s.sent, &conv.expect, "the complete set is sent");
    check(s.marks == conv.marks, "each request is sent after the answers before it were read");
    cover("set");
}
/// GTID lists of `arg` % 10 domains, numbers of `arg` / 10 digits
pub fn h_c19_list(arg: u32) {
    let mut cfg = Cfg::new(true, Strat::Gtid);
    cfg.list.clear();
    cfg.list_text.clear();
    let n = (arg / 10) as usize;
    for i in 0..arg % 10 {
        if i > 0 {
            cfg.list_text.push(b',');
        }
        let (a, s) = any_decimal(n.min(9));
        let (b, t) = any_decimal(n.min(9));
        let (d, u) = any_decimal(n);
        if n > 1 {
            assume((s[0] != b'0') & (t[0] != b'0') & (u[0] != b'0'));
        }
        for g in &cfg.list {
            assume(g.0 as u64 != a);
        }
        cfg.list.push((a as u32, b as u32, d));
        cfg.list_text.extend(s);
        cfg.list_text.push(b'-');
        cfg.list_text.extend(t);
        cfg.list_text.push(b'-');
        cfg.list_text.extend(u);
    }
    run(&cfg, "list");
}
/// heartbeat periods: `arg` symbolic digits of milliseconds, or boundary values
pub fn h_c19_heartbeat(arg: u32) {
    let mut cfg = Cfg::new(choose(2) == 1, Strat::Start);
    let ms = if arg == 0 {
        let (s, n) = pick(&[(0u64, 0u32), (0, 999_999), (0, 1_000_000), (1, 999_999_999), (30, 0), (59, 1_500_000), (3600, 0), (4_294_967, 0), (4_294_967, 295_000_000), (86_400_000, 1)]);
        cfg.heartbeat = Duration::new(s, n);
        s * 1000 + (n / 1_000_000) as u64
    } else {
        let (v, t) = any_decimal(arg as usize);
        assume(t[0] != b'0');
        cfg.heartbeat = Duration::from_millis(v);
        cfg.heartbeat_text = t;
        cfg.heartbeat_text.extend(b"000000");
        return run(&cfg, "heartbeat");
    };
    cfg.heartbeat_text = (ms as u128 * 1_000_000).to_string().into_bytes();
    run(&cfg, "heartbeat");
}
/// without the set or the list that a GTID start needs, nothing is requested
pub fn h_c19_missing(_: u32) {
    let mut cfg = Cfg::new(choose(2) == 1, Strat::Gtid);
    let mut conv = Conv::new();
    cfg.connect(&mut conv);
    cfg.prepare(&mut conv);
    if cfg.maria {
        conv.q(b"SET @mariadb_slave_capability=4");
        conv.s(1, &OK);
    }
    let mut c = client(&cfg, &conv);
    c.options.binlog.gtid_set = None;
    c.options.binlog.gtid_list = None;
    // the other server's kind of position does not help
    if cfg.maria {
        cfg.maria = false;
        c.options.binlog.gtid_set = Some(cfg.gtid_set());
    }
    check(c.replicate().is_err(), "an error");
    conv.verify(&seen()[0], "no stream is requested");
    cover("missing");
}
/// one source with `arg` intervals, or `arg` domains; numbers of the last are arbitrary
pub fn h_c19_many(arg: u32) {
    let maria = choose(2) == 1;
    let mut cfg = Cfg::new(maria, Strat::Gtid);
    let n = arg as u64;
    if maria {
        cfg.list.clear();
        cfg.list_text.clear();
        for i in 0..n {
            cfg.list.push((i as u32, 1, 10 * i + 1));
            if i > 0 {
                cfg.list_text.push(b',');
            }
            cfg.list_text.extend(format!("{}-1-{}", i, 10 * i + 1).into_bytes());
        }
    } else {
        let (a, b) = (any_u64(), any_u64());
        assume((a > 10 * n) & (a <= b) & (b < u64::MAX));
        let mut iv: Vec<(u64, u64)> = (0..n).map(|i| (10 * i + 1, 10 * i + 5)).collect();
        iv.push((a, b));
        cfg.set = vec![(UU, iv)];
    }
    run(&cfg, "many");
}
/// the documented defaults of the options
pub fn h_c19_default(_: u32) {
    let o = ReplicaOptions::default();
    check(o.port == 3306 && o.hostname == "localhost", "default host and port");
    check(o.ssl_mode == SslMode::Disabled && o.database.is_none(), "default session");
    check(o.username.is_empty() && o.password.is_empty(), "default user");
    let cfg = Cfg::new(choose(2) == 1, Strat::End);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let port = serve(vec![conv.script()]);
    let d = ReplicaOptions { port, hostname: "127.0.0.1".to_string(), username: "repl".to_string(), ..Default::default() };
    let mut c = BinlogClient::new(d);
    check(c.replicate().is_ok(), "replication starts");
    conv.verify(&seen()[0], "default");
    cover("default");
}
/// which protocol is spoken is decided by the version in the greeting
pub fn h_c19_version(_: u32) {
    let (maria, version) = pick(&[
        (true, &b"5.5.5-10.6.4-MariaDB-1:10.6.4+maria~focal-log"[..]),
        (true, b"11.4.2-MariaDB-ubu2404"),
        (true, b"10.11.6-MariaDB"),
        (true, b"5.5.68-MariaDB"),
        (true, b"MariaDB"),
        (false, b"8.0.32-0ubuntu0.22.04.2"),
        (false, b"5.7.44-log"),
        (false, b"5.6.51"),
        (false, b"8.0.36-28-debug"),
        (false, b"10.1.0-Maria"),
        (false, b""),
    ]);
    let mut cfg = Cfg::new(maria, Strat::Gtid);
    cfg.version = version;
    run(&cfg, "version");
}
super::entries!(h_c19_default, h_c19_version, h_c19_request, h_c19_resume, h_c19_set, h_c19_list, h_c19_heartbeat, h_c19_missing, h_c19_many);
