//! C24: whatever packets the server sends, starting and reading the stream ends with a value or an error.
//! (Panics, endless loops and allocations above `LIM` are failures wherever they happen.)
use crate::{api::*, dump, env::*, gen::*, out::*, proto::*};
use mysql_cdc::binlog_client::BinlogClient;

/// a packet has at most 16 MB
const LIM: u64 = 1 << 25;

/// `arg` = 100000 * (number of the packet + 1, or 0 for any) + 10000 * kind of login + 1000 * MariaDB + 100 * strategy (+ a number below 100 for the entry)
struct Session {
    cfg: Cfg,
    pw: String,
    /// packets with their sequence numbers
    packets: Vec<(u8, Vec<u8>)>,
}
fn session(arg: u32) -> Session {
    let strat = [Strat::Start, Strat::Position, Strat::End, Strat::Gtid][(arg / 100 % 10) as usize];
    let cfg = Cfg::new(arg / 1000 % 10 == 1, strat);
    let mut conv = Conv::new();
    let mut pw = String::new();
    crate::p21::login_kind(arg / 10000 % 10, &mut conv, &mut pw, cfg.greet());
    let (file, pos) = cfg.prepare(&mut conv);
    cfg.request(&mut conv, &file, pos);
    for (i, e) in [rotate(4, b"bin.02"), fde(false), xid()].iter().enumerate() {
        let mut w = W::new();
        w.u8(0);
        H::new(e.ty, e.body.len()).write(&mut w);
        w.b(&e.body);
        conv.s(1 + i as u8, &w.0);
    }
    conv.s(4, &EOF);
    let mut packets = vec![];
    for (i, at) in conv.packets.iter().enumerate() {
        let end = conv.packets.get(i + 1).copied().unwrap_or(conv.data.len());
        packets.push((conv.data[at + 3], conv.data[at + 4..end].to_vec()));
    }
    Session { cfg, pw, packets }
}
fn run(s: &Session, data: Vec<u8>) {
    openssl::LOG.lock().unwrap().clear();
    let port = serve(vec![Script::new(data)]);
    let mut o = s.cfg.options(port);
    o.password = s.pw.clone();
    let mut c = BinlogClient::new(o);
    limit(LIM);
    let mut d = D::new();
    match c.replicate() {
        Err(_) => {
            d.tag(0);
            cover("refused");
        }
        Ok(events) => {
            d.tag(1);
            let mut n = 0;
            for r in events {
                let bad = r.is_err();
                d.0.extend(dump::item(&Some(r)));
                n += 1;
                check(n <= s.packets.len(), "the stream ends with the data");
                if bad || n > s.packets.len() {
                    break;
                }
            }
            cover("stream");
        }
    }
    limit(4 << 30);
    observe(&d.0);
}
fn all(p: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (s, b) in p {
        v.extend(pkt(*s, b));
    }
    v
}
/// Rust's debug format, in which an error packet's message is reported, looks at every character:
/// messages are printable ASCII without quotes here
fn plain(p: &[u8]) {
    let mut text = true;
    for i in 3..p.len() {
        text &= (p[i] >= b' ') & (p[i] < 127) & (p[i] != b'"') & (p[i] != b'\\') & (p[i] != b'\'');
    }
    if !p.is_empty() {
        assume((p[0] != 0xff) | text);
    }
}
fn which(s: &Session, arg: u32) -> usize {
    if arg >= 100000 {
        return arg as usize / 100000 - 1;
    }
    choose(s.packets.len() as u32) as usize
}
/// the sessions themselves work
pub fn h_c24_session(arg: u32) {
    let s = session(arg);
    let d = all(&s.packets);
    run(&s, d);
}
/// any packet consists of any `arg` % 100 bytes
pub fn h_c24_any(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    s.packets[k].1 = any_bytes((arg % 100) as usize);
    plain(&s.packets[k].1);
    let d = all(&s.packets);
    run(&s, d);
    cover("any");
}
/// any `arg` % 100 adjacent bytes of any packet are arbitrary
pub fn h_c24_window(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    let n = (arg % 100) as usize;
    let p = &mut s.packets[k].1;
    assume(p.len() >= n);
    let at = choose_wide(p.len() - n + 1);
    fill(&mut p[at..at + n]);
    plain(p);
    let d = all(&s.packets);
    run(&s, d);
    cover("window");
}
/// any packet is cut anywhere, or followed by up to `arg` % 100 arbitrary bytes
pub fn h_c24_cut(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    let p = &mut s.packets[k].1;
    let n = choose_wide(p.len() + 1 + (arg % 100) as usize);
    if n < p.len() {
        p.truncate(n);
    } else {
        let x = any_bytes(n - p.len());
        p.extend(x);
    }
    plain(p);
    let d = all(&s.packets);
    run(&s, d);
    cover("cut");
}
/// the size of a packet is wrong
pub fn h_c24_size(arg: u32) {
    let s = session(arg);
    let k = which(&s, arg);
    let mut d = all(&s.packets[..k]);
    let p = &s.packets[k];
    let size = pick(&[0usize, 1, 2, p.1.len().max(1) - 1, p.1.len() + 1, 255, 65535, 0xffff]);
    let mut w = W::new();
    w.u24(size as u32).u8(p.0).b(&p.1);
    d.extend(w.0);
    d.extend(all(&s.packets[k + 1..]));
    run(&s, d);
    cover("size");
}
/// a packet is missing, repeated, or preceded by one of `arg` % 100 arbitrary bytes
pub fn h_c24_order(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    match choose(3) {
        0 => {
            s.packets.remove(k);
        }
        1 => {
            let p = s.packets[k].clone();
            s.packets.insert(k, p);
        }
        _ => {
            let b = any_bytes((arg % 100) as usize);
            plain(&b);
            s.packets.insert(k, (any_u8(), b));
        }
    }
    let d = all(&s.packets);
    run(&s, d);
    cover("order");
}
/// from some packet on, the server sends two packets of any `arg` % 100 bytes
pub fn h_c24_two(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    s.packets.truncate(k);
    for i in 0..2 {
        let b = any_bytes((arg % 100) as usize);
        plain(&b);
        s.packets.push((i, b));
    }
    let d = all(&s.packets);
    run(&s, d);
    cover("two");
}
/// an error packet in the place of any packet, whose text has a character of several bytes, or bytes that are no text, anywhere near the SQL state
pub fn h_c24_text(arg: u32) {
    let mut s = session(arg);
    let k = which(&s, arg);
    let n = choose(9) as usize;
    let mut text = if choose(2) == 1 { b"#".to_vec() } else { vec![] };
    text.extend(&b"42000abc"[..n]);
    text.extend(pick(&[&b"\xc3\xa9"[..], "\u{65e5}".as_bytes(), "\u{1f600}".as_bytes(), b"\xff", b"\xe6\x97", b"\0", b"'\"\\\n"]));
    if choose(2) == 1 {
        text.extend(b"tail");
    }
    s.packets[k].1 = err(1045, None, &text);
    let d = all(&s.packets);
    run(&s, d);
    cover("text");
}
super::entries!(h_c24_text, h_c24_session, h_c24_any, h_c24_window, h_c24_cut, h_c24_size, h_c24_order, h_c24_two);
