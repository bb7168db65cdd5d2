//! C21: an error packet of the server, at any step, is reported and stops the session.
use crate::{api::*, env::*, gen::*, out::*, proto::*};
use mysql_cdc::binlog_client::BinlogClient;

/// An error packet with an arbitrary code and message, and the texts that must be reported.
struct Fault {
    body: Vec<u8>,
    code: Vec<u8>,
    msg: Vec<u8>,
}
/// printable characters that Rust's debug format does not escape
fn printable(n: usize) -> Vec<u8> {
    let v = any_ascii(n);
    for b in &v {
        assume((*b >= b' ') & (*b < 127) & (*b != b'"') & (*b != b'\\'));
    }
    v
}
fn fault(digits: usize, len: usize) -> Fault {
    let (c, code) = match digits {
        0 => pick(&[(1u64, &b"1"[..]), (1045, b"1045"), (1236, b"1236"), (9999, b"9999"), (10000, b"10000"), (65535, b"65535")]),
        _ => (0, &b""[..]),
    };
    let (c, code) = if digits == 0 {
        (c, code.to_vec())
    } else {
        let (c, t) = any_decimal(digits);
        assume((t[0] != b'0') | (digits == 1));
        (c, t)
    };
    let msg = printable(len);
    let state = if choose(2) == 0 {
        if len > 0 {
            assume(msg[0] != b'#');
        }
        None
    } else {
        Some(printable(5))
    };
    Fault { body: err(c as u16, state.as_deref(), &msg), code, msg }
}
fn reported(text: &[u8], f: &Fault) {
    check(contains(text, &f.code), "the error names the server's code");
    check(contains(text, &f.msg), "the error carries the server's message");
}
/// the login of `arg` / 100 kinds
pub fn login_kind(k: u32, c: &mut Conv, pw: &mut String, greet: Greet) {
    let mut g = greet;
    if k == 0 {
        c.s(0, &g.body());
        c.c(1, &login(b"repl", b"", None, NATIVE));
        c.s(2, &OK);
        return;
    }
    *pw = "secret".to_string();
    if k == 1 || k == 2 || k == 3 {
        g.plugin = SHA2.to_vec();
    }
    c.s(0, &g.body());
    let r = crate::p20::response(&g.plugin, b"secret", SCRAMBLE);
    c.c(1, &login(b"repl", &r, None, &g.plugin));
    let mut seq = 2;
    let full = |c: &mut Conv, seq: u8, s: &[u8]| {
        c.s(seq, &[1, 4]);
        c.c(seq.wrapping_add(1), &[2]);
        let mut k = vec![1];
        k.extend(crate::p20::PEM);
        c.s(seq.wrapping_add(2), &k);
        c.c(seq.wrapping_add(3), &crate::p20::CIPHER);
        c.s(seq.wrapping_add(4), &OK);
        let _ = s;
    };
    match k {
        1 => c.s(seq, &OK),
        2 => {
            c.s(seq, &[1, 3]);
            c.s(seq + 1, &OK)
        }
        3 => {
            full(c, seq, SCRAMBLE);
            return;
        }
        _ => {
            // switch from native to 4: native, 5: sha2 fast, 6: sha2 full
            let to = if k == 4 { NATIVE } else { SHA2 };
            let s = b"ABCDEFGHIJKLMNOPQRST";
            let mut w = W::new();
            w.u8(0xfe).b(to).u8(0).b(s).u8(0);
            c.s(seq, &w.0);
            c.c(seq + 1, &crate::p20::response(to, b"secret", s));
            seq += 2;
            match k {
                4 => c.s(seq, &OK),
                5 => {
                    c.s(seq, &[1, 3]);
                    c.s(seq + 1, &OK)
                }
                _ => {
                    full(c, seq, s);
                    return;
                }
            }
        }
    };
}
/// `arg` = 1000 * digits of the code (0: boundary values) + 100 * kind of login + 10 * MariaDB + strategy
pub fn h_c21_setup(arg: u32) {
    let maria = arg / 10 % 10 == 1;
    let strat = [Strat::Start, Strat::Position, Strat::End, Strat::Gtid][(arg % 10) as usize];
    let cfg = Cfg::new(maria, strat);
    let mut conv = Conv::new();
    let mut pw = String::new();
    login_kind(arg / 100 % 10, &mut conv, &mut pw, cfg.greet());
    let (file, pos) = cfg.prepare(&mut conv);
    cfg.request(&mut conv, &file, pos);
    // the step that fails
    let k = choose(conv.packets.len() as u32) as usize;
    let at = conv.packets[k];
    let seq = conv.data[at + 3];
    conv.data.truncate(at);
    let f = fault((arg / 1000) as usize, pick(&[0usize, 1, 6, 40]));
    conv.data.extend(pkt(seq, &f.body));
    // what may have been sent until then
    let sent = conv.gates.iter().filter(|g| g.0 <= at).map(|g| g.1).max().unwrap_or(0);
    conv.expect.truncate(sent);
    conv.gates.retain(|g| g.0 <= at);
    conv.marks.retain(|m| m.0 < sent);
    openssl::LOG.lock().unwrap().clear();
    let port = serve(vec![conv.script()]);
    let mut o = cfg.options(port);
    o.password = pw;
    let mut c = BinlogClient::new(o);
    let r = c.replicate();
    check(r.is_err(), "starting replication fails");
    let text = err_text(&r.map(|_| ()));
    observe(&text);
    reported(&text, &f);
    conv.verify(&seen()[0], "nothing is sent after the error");
    check(seen()[0].consumed == conv.data.len(), "the error packet is read");
    cover("setup");
}
/// an error packet inside the stream, after `arg` % 10 events; `arg` / 10 = digits of the code
pub fn h_c21_stream(arg: u32) {
    let cfg = Cfg::new(choose(2) == 1, Strat::Start);
    let mut conv = Conv::new();
    cfg.session(&mut conv);
    let n = arg % 10;
    let mut seq = 1u8;
    for _ in 0..n {
        let e = xid();
        let mut w = W::new();
        w.u8(0);
        H::any(e.ty, e.body.len()).write(&mut w);
        w.b(&e.body);
        conv.s(seq, &w.0);
        seq = seq.wrapping_add(1);
    }
    let f = fault((arg / 10) as usize, pick(&[0usize, 1, 6, 40]));
    conv.s(seq, &f.body);
    let mut c = client(&cfg, &conv);
    let mut s = match c.replicate() {
        Ok(s) => s,
        Err(_) => return check(false, "replication starts"),
    };
    for _ in 0..n {
        check(matches!(s.next(), Some(Ok(_))), "events before the error");
    }
    match s.next() {
        Some(r) => {
            check(r.is_err(), "an error");
            let text = err_text(&r);
            observe(&text);
            reported(&text, &f);
        }
        None => check(false, "an error is not the end of the stream"),
    }
    conv.verify(&seen()[0], "nothing is sent after the request");
    cover("stream");
}
/// error messages with characters of several bytes, at any step; `arg` as for `h_c21_setup`
pub fn h_c21_wide(arg: u32) {
    let maria = arg / 10 % 10 == 1;
    let strat = [Strat::Start, Strat::Position, Strat::End, Strat::Gtid][(arg % 10) as usize];
    let cfg = Cfg::new(maria, strat);
    let mut conv = Conv::new();
    let mut pw = String::new();
    login_kind(arg / 100 % 10, &mut conv, &mut pw, cfg.greet());
    let (file, pos) = cfg.prepare(&mut conv);
    cfg.request(&mut conv, &file, pos);
    let k = choose(conv.packets.len() as u32) as usize;
    let at = conv.packets[k];
    let seq = conv.data[at + 3];
    conv.data.truncate(at);
    conv.gates.retain(|g| g.0 <= at);
    let msg = pick(&["\u{e9}", "a\u{65e5}\u{672c}", "Zugriff verweigert f\u{fc}r 'repl'", "abcd\u{1f600}efgh", "\u{65e5}\u{672c}\u{8a9e}\u{306e}\u{30e1}\u{30c3}\u{30bb}\u{30fc}\u{30b8}"]);
    let state = pick(&[None, Some(&b"42000"[..]), Some(b"HY000")]);
    let code = pick(&[1045u16, 1236]);
    conv.data.extend(pkt(seq, &err(code, state, msg.as_bytes())));
    openssl::LOG.lock().unwrap().clear();
    let port = serve(vec![conv.script()]);
    let mut o = cfg.options(port);
    o.password = pw;
    let mut c = BinlogClient::new(o);
    let r = c.replicate();
    check(r.is_err(), "starting replication fails");
    let text = err_text(&r.map(|_| ()));
    observe(&text);
    reported(&text, &Fault { body: vec![], code: code.to_string().into_bytes(), msg: msg.as_bytes().to_vec() });
    cover("wide");
}
super::entries!(h_c21_wide, h_c21_setup, h_c21_stream);
