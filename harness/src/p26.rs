//! C26: a client that commits what it processed, and connects again after the connection ended anywhere, gets every event
//! it has not processed, in order and decodable, and again only what it had not committed.
//! The server is a model that keeps a log and answers whatever the client asks for with the part of the log that it names.
use crate::{api::*, dump, env::*, gen::*, out::*, proto::*};
use mysql_cdc::binlog_client::BinlogClient;

struct It {
    e: Ev,
    file: usize,
    start: u32,
    end: u32,
    /// first event of its statement
    stmt: usize,
    /// number of its transaction; the first is 1
    grp: usize,
}
struct Log {
    maria: bool,
    items: Vec<It>,
    file: usize,
    at: u32,
    /// per transaction: (domain, sequence number) or (0, transaction number)
    ids: Vec<(u32, u64)>,
}
fn name(file: usize) -> Vec<u8> {
    format!("bin.{:02}", file + 1).into_bytes()
}
fn rows(id: u64, op: Op, last: bool) -> Ev {
    let flags = last as u16;
    let (mut w, mut d) = (rows_head(2, id, flags, &[], 1), D::new());
    let (a, b) = (any_u8(), any_u8());
    d.tag(match op {
        Op::Write => dump::t::WRITE,
        Op::Update => dump::t::UPDATE,
        Op::Delete => dump::t::DELETE,
    });
    d.n(id).n(flags as u64).n(1).bits(&[true]);
    w.u8(1);
    if op == Op::Update {
        w.u8(1).u8(0).u8(a);
        d.bits(&[true]).n(1).n(1).tag(1).tag(dump::t::TINY).n(a as u64).n(1).tag(1).tag(dump::t::TINY).n(b as u64);
    } else {
        d.n(1).n(1).tag(1).tag(dump::t::TINY).n(b as u64);
    }
    w.u8(0).u8(b);
    Ev { ty: rows_code(op, 2), body: w.0, want: d.0 }
}
impl Log {
    fn push(&mut self, e: Ev, stmt: Option<usize>, grp: usize) -> usize {
        let n = self.items.len();
        let end = self.at + 19 + e.body.len() as u32;
        self.items.push(It { e, file: self.file, start: self.at, end, stmt: stmt.unwrap_or(n), grp });
        self.at = end;
        n
    }
    fn open(&mut self) {
        self.at = 4;
        self.push(fde(false), None, 0);
        let mut w = W::new();
        let mut d = D::new();
        if self.maria {
            w.u32(0);
            d.tag(dump::t::MA_LIST).n(0);
            self.push(Ev { ty: MA_LIST, body: w.0, want: d.0 }, None, 0);
        } else {
            w.u64(0);
            d.tag(dump::t::MY_PREV).n(0);
            self.push(Ev { ty: MY_PREV, body: w.0, want: d.0 }, None, 0);
        }
    }
    fn rotate(&mut self) {
        self.push(rotate(4, &name(self.file + 1)), None, 0);
        self.file += 1;
        self.open();
    }
    fn group(&mut self, kind: u32, id: (u32, u64)) {
        self.ids.push(id);
        let g = self.ids.len();
        let m = self.maria;
        let begin = |l: &mut Log| {
            if !m {
                l.push(sql(b"BEGIN"), None, g);
            }
        };
        self.push(if m { ma_gtid((kind == 0) as u8, id.0, 1, id.1) } else { my_gtid(1, &UU, id.1, 17) }, None, g);
        let cols = [col(ct::TINY, &[])];
        match kind {
            0 => {
                self.push(sql(b"CREATE TABLE t(a INT)"), None, g);
            }
            1 => {
                begin(self);
                let s = self.push(table_map(5, &cols), None, g);
                self.push(rows(5, pick(&[Op::Write, Op::Update, Op::Delete]), true), Some(s), g);
                self.push(xid(), None, g);
            }
            2 => {
                // one statement on two tables
                begin(self);
                let s = self.push(table_map(5, &cols), None, g);
                self.push(table_map(6, &cols), Some(s), g);
                self.push(rows(5, Op::Update, false), Some(s), g);
                self.push(rows(6, Op::Update, true), Some(s), g);
                self.push(sql(b"COMMIT"), None, g);
            }
            3 => {
                begin(self);
                self.push(sql(b"INSERT INTO t VALUES (1)"), None, g);
                self.push(sql(b"SAVEPOINT `a`"), None, g);
                let s = self.push(table_map(7, &cols), None, g);
                self.push(rows(7, Op::Write, true), Some(s), g);
                self.push(sql(b"ROLLBACK"), None, g);
            }
            _ => {
                self.push(sql(b"XA START X'01',X'',1"), None, g);
                let s = self.push(table_map(8, &cols), None, g);
                self.push(rows(8, Op::Delete, false), Some(s), g);
                self.push(rows(8, Op::Delete, true), Some(s), g);
                self.push(sql(b"XA END X'01',X'',1"), None, g);
                self.push(Ev { ty: XA_PREPARE, body: vec![1, 2, 3], want: vec![dump::t::UNKNOWN] }, None, g);
            }
        }
    }
}
/// what the server sends: header, event, index in the log
type Out = Vec<(H, Ev, Option<usize>)>;
fn made(e: Ev, next: u32) -> (H, Ev, Option<usize>) {
    let mut h = H::new(e.ty, e.body.len());
    h.ts = 0;
    h.flags = 0x20;
    h.next = next;
    (h, e, None)
}
impl Log {
    /// the log from item `i` on, without the transactions that are not `wanted`; it begins as a request for `file` and `pos` does
    fn from(&self, i: usize, file: usize, pos: u32, wanted: &[bool]) -> Out {
        let mut out = vec![made(rotate(pos as u64, &name(file)), 0)];
        if i == self.items.len() || self.items[i].e.ty != FORMAT {
            out.push(made(fde(false), 0));
        }
        let mut last = file;
        for k in i..self.items.len() {
            let it = &self.items[k];
            if it.file != last {
                last = it.file;
                out.push(made(rotate(4, &name(last)), 0));
            }
            if it.grp > 0 && !wanted[it.grp - 1] {
                if self.items.get(k + 1).map_or(0, |x| x.grp) != it.grp {
                    out.push(made(heartbeat(&name(last)), it.end));
                }
                continue;
            }
            let mut h = H::new(it.e.ty, it.e.body.len());
            h.next = it.end;
            out.push((h, it.e.clone(), Some(k)));
        }
        out
    }
}
/// One session: the first `n` events are processed and committed.
fn session(c: &mut BinlogClient, cfg: &Cfg, out: &Out, n: usize) {
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let mut seq = 1u8;
    for (h, e, _) in out {
        let mut w = W::new();
        w.u8(0);
        h.write(&mut w);
        w.b(&e.body);
        conv.s(seq, &w.0);
        seq = seq.wrapping_add(1);
    }
    c.options.port = serve(vec![conv.script()]);
    let mut r = match c.replicate() {
        Ok(r) => r,
        Err(_) => return check(false, "replication starts"),
    };
    for (h, e, _) in &out[..n] {
        let x = r.next();
        let mut d = D::new();
        h.dump(&mut d);
        d.0.extend_from_slice(&e.want);
        let got = dump::item(&x);
        observe(&got);
        check_eq(&got, &d.0, "every event is delivered as the server has it in its log");
        match &x {
            Some(Ok((h, e))) => c.commit(h, e),
            _ => return,
        }
    }
    let s = seen();
    check(s.len() == 1, "one connection");
    check_eq(&s[0].sent, &conv.expect, "what is requested is what was committed");
}
/// the options as a configuration
fn read(c: &BinlogClient, cfg: &mut Cfg) {
    let b = &c.options.binlog;
    cfg.file = b.filename.clone().into_bytes();
    cfg.pos = b.position;
    if cfg.strat != Strat::Gtid {
        return;
    }
    if cfg.maria {
        cfg.list.clear();
        cfg.list_text.clear();
        for g in &b.gtid_list.as_ref().unwrap().gtids {
            cfg.list.push((g.domain_id, g.server_id, g.sequence));
            if !cfg.list_text.is_empty() {
                cfg.list_text.push(b',');
            }
            cfg.list_text.extend(format!("{}-{}-{}", g.domain_id, g.server_id, g.sequence).bytes());
        }
    } else {
        cfg.set.clear();
        for u in b.gtid_set.as_ref().unwrap().uuid_sets.values() {
            cfg.set.push((u.source_id.data, u.intervals.iter().map(|i| (i.start, i.end)).collect()));
        }
    }
}
fn has(cfg: &Cfg, id: (u32, u64)) -> bool {
    if cfg.maria {
        return cfg.list.iter().any(|g| g.0 == id.0 && g.2 >= id.1);
    }
    let mut r = false;
    for (u, iv) in &cfg.set {
        check(*u == UU, "no other source");
        for i in iv {
            r |= (i.0 <= id.1) & (id.1 <= i.1);
        }
    }
    pin(r as u64) == 1
}
/// `arg` = 100 * (connections that end early - 1) + 10 * strategy + transactions; strategies 5 to 7 are those of MariaDB
pub fn h_c26_resume(arg: u32) {
    let maria = arg / 10 % 10 >= 5;
    let strat = [Strat::Start, Strat::Position, Strat::End, Strat::Gtid, Strat::Gtid, Strat::Start, Strat::Position, Strat::Gtid][(arg / 10 % 10) as usize];
    let mut cfg = Cfg::new(maria, strat);
    let mut log = Log { maria, items: vec![], file: 0, at: 4, ids: vec![] };
    log.open();
    let t = if maria { 8 } else { any_u64() };
    assume((t >= 2) & (t < u64::MAX - 100));
    cfg.set = vec![(UU, vec![(1, t - 1)])];
    cfg.list = vec![(0, 1, 7)];
    if strat == Strat::Position {
        // earlier transactions were processed before
        let base = any_u32();
        assume((base > 300) & (base < u32::MAX - 5000));
        log.at = base;
    }
    let first = log.items.len();
    let n = arg % 10;
    for k in 0..n {
        if k > 0 && choose(2) == 1 {
            log.rotate();
        }
        let d = if maria { choose(2) } else { 0 };
        log.group(choose(if maria { 4 } else { 5 }), (d, t + k as u64));
    }
    let (mut i, mut file) = (0, 0);
    match strat {
        Strat::Position => {
            i = first;
            cfg.file = name(0);
            cfg.pos = log.items[first].start;
        }
        Strat::End => {
            i = first;
            cfg.end_file = name(0);
            cfg.end_pos = log.items[first].start.to_string().into_bytes();
        }
        _ => {}
    }
    let mut wanted = vec![true; log.ids.len()];
    let mut c = BinlogClient::new(cfg.options(0));
    let mut processed = vec![false; log.items.len()];
    for x in processed.iter_mut().take(i) {
        *x = true;
    }
    let mut ends = arg / 100 + 1;
    loop {
        let pos = if strat == Strat::Gtid { 4 } else { log.items.get(i).map_or(log.at, |x| x.start) };
        let out = log.from(i, file, pos, &wanted);
        let m = if ends > 0 { choose_wide(out.len() + 1) } else { out.len() };
        session(&mut c, &cfg, &out, m);
        // a transaction that is cut off is processed anew
        for x in &out[..m] {
            if let Some(k) = x.2 {
                processed[k] = true;
            }
        }
        if ends == 0 {
            break;
        }
        ends -= 1;
        let known = cfg.strat == Strat::End && cfg.file.is_empty();
        read(&c, &mut cfg);
        if known {
            check(!cfg.file.is_empty(), "the end is asked for once");
        }
        if strat == Strat::Gtid {
            for g in 0..log.ids.len() {
                let whole = (0..log.items.len()).all(|k| log.items[k].grp != g + 1 || processed[k]);
                let h = has(&cfg, log.ids[g]);
                check(h == whole, "a transaction is asked for again exactly if it was not processed to its end");
                wanted[g] = !h;
                for k in 0..log.items.len() {
                    if log.items[k].grp == g + 1 {
                        processed[k] = h;
                    }
                }
            }
            continue;
        }
        // the server looks for the file and the position it is asked for
        let at_start = cfg.file.is_empty();
        let mut found = None;
        for (k, it) in log.items.iter().enumerate() {
            if found.is_none() && (if at_start { it.file == 0 } else { name(it.file) == cfg.file }) && pin((it.start == cfg.pos) as u64) == 1 {
                found = Some((k, it.file));
            }
        }
        if found.is_none() && name(log.file) == cfg.file && pin((log.at == cfg.pos) as u64) == 1 {
            found = Some((log.items.len(), log.file));
        }
        let (k, f) = match found {
            Some(x) => x,
            None => return check(false, "the client asks for a place where an event of the log starts"),
        };
        let done = processed.iter().take_while(|x| **x).count();
        check(k <= done, "no event is left out");
        if k < done {
            // what is sent again: a statement that was not complete, or the events that only describe the file
            let stmt = log.items.get(done).map_or(done, |x| x.stmt);
            check((k..done).all(|x| x >= stmt || log.items[x].grp == 0), "only what was not committed is sent again");
            cover("again");
        }
        for x in processed.iter_mut().skip(k) {
            *x = false;
        }
        i = k;
        file = f;
    }
    check(processed.iter().all(|x| *x), "every event is processed in the end");
    read(&c, &mut cfg);
    if strat == Strat::Gtid {
        for id in &log.ids {
            check(has(&cfg, *id), "every transaction is committed in the end");
        }
    }
    check_eq(&cfg.file, &name(log.file), "the last file is known in the end");
    check(cfg.pos == log.at, "the end of the log is the committed position in the end");
    cover(match strat {
        Strat::Start => "start",
        Strat::Position => "position",
        Strat::End => "end",
        Strat::Gtid if maria => "MariaDB",
        _ => "MySQL",
    });
}
super::entries!(h_c26_resume);
