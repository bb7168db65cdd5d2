//! C20: every handshake is answered the way the protocol prescribes.
use crate::{api::*, env::*, out::*, proto::*};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::replica_options::ReplicaOptions;
use sha1::Digest;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// only the first and the last characters are symbolic
static EDGE: AtomicBool = AtomicBool::new(false);

fn sha1(x: &[u8]) -> Vec<u8> {
    sha1::Sha1::digest(x).to_vec()
}
fn sha256(x: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(x).to_vec()
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut r = a.to_vec();
    for i in 0..r.len() {
        r[i] ^= b[i % b.len()];
    }
    r
}
/// SHA1(password) XOR SHA1(scramble + SHA1(SHA1(password)))
fn native(pw: &[u8], scramble: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    let h = sha1(pw);
    xor(&h, &sha1(&[scramble, &sha1(&h)[..]].concat()))
}
/// SHA256(password) XOR SHA256(SHA256(SHA256(password)) + scramble)
fn sha2(pw: &[u8], scramble: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    let h = sha256(pw);
    xor(&h, &sha256(&[&sha256(&h)[..], scramble].concat()))
}
pub fn response(plugin: &[u8], pw: &[u8], scramble: &[u8]) -> Vec<u8> {
    if plugin == NATIVE {
        native(pw, scramble)
    } else {
        sha2(pw, scramble)
    }
}
/// scrambles have no zero bytes
fn scramble() -> Vec<u8> {
    let mut v = vec![];
    for i in 0..20 {
        if EDGE.load(Relaxed) && i > 1 && i < 18 {
            v.push(b"0123 56\t8$aB\x7f\x01E%Gh"[i - 2]);
            continue;
        }
        let b = any_below(128);
        assume(b != 0);
        v.push(b);
    }
    v
}
struct Case {
    conv: Conv,
    pw: Vec<u8>,
    user: Vec<u8>,
    db: Option<Vec<u8>>,
    seq: u8,
    /// what must have been encrypted
    plain: Vec<Vec<u8>>,
    ok: bool,
}
pub const PEM: &[u8] = b"-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n";
pub const CIPHER: [u8; 32] = {
    let mut c = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        c[i] = 0xA0 ^ i as u8;
        i += 1;
    }
    c
};
impl Case {
    fn new(n: usize) -> Case {
        let pw = any_ascii(n);
        let user = any_ascii(pick(&[0usize, 4, 32]));
        let db = if choose(2) == 1 { Some(any_ascii(3)) } else { None };
        Case { conv: Conv::new(), pw, user, db, seq: 0, plain: vec![], ok: true }
    }
    fn s(&mut self, body: &[u8]) {
        self.conv.s(self.seq, body);
        self.seq = self.seq.wrapping_add(1);
    }
    fn c(&mut self, body: &[u8]) {
        self.conv.c(self.seq, body);
        self.seq = self.seq.wrapping_add(1);
    }
    fn fail(&mut self) {
        self.s(&err(1045, Some(b"28000"), b"Access denied"));
        self.ok = false;
    }
    /// the server's final answer
    fn last(&mut self) {
        if choose(2) == 0 {
            self.s(&OK);
        } else {
            self.fail();
        }
    }
    /// what follows the response of caching_sha2_password
    fn sha2(&mut self, scramble: &[u8]) {
        match choose(4) {
            0 => self.s(&OK),
            1 => self.fail(),
            2 => {
                self.s(&[1, 3]);
                self.last();
                cover("fast");
            }
            _ => {
                self.s(&[1, 4]);
                self.c(&[2]);
                if choose(3) == 0 {
                    return self.fail();
                }
                let mut k = vec![1];
                k.extend(PEM);
                self.s(&k);
                let mut p = self.pw.clone();
                p.push(0);
                self.plain.push(xor(&p, scramble));
                self.c(&CIPHER);
                self.last();
                cover("full");
            }
        }
    }
    fn greet(&mut self, plugin: &[u8]) -> Vec<u8> {
        let mut g = Greet::new(b"8.0.32");
        g.plugin = plugin.to_vec();
        g.scramble = scramble();
        self.s(&g.body());
        let r = response(plugin, &self.pw, &g.scramble);
        let l = login(&self.user, &r, self.db.as_deref(), plugin);
        self.c(&l);
        g.scramble
    }
    fn run(self, m: &str) {
        openssl::LOG.lock().unwrap().clear();
        let port = serve(vec![self.conv.script()]);
        let c = BinlogClient::new(ReplicaOptions {
            port,
            hostname: "127.0.0.1".to_string(),
            username: String::from_utf8(self.user).unwrap(),
            password: String::from_utf8(self.pw).unwrap(),
            database: self.db.map(|x| String::from_utf8(x).unwrap()),
            ..Default::default()
        });
        let r = c.connect();
        check(r.is_ok() == self.ok, "login succeeds exactly if the server says so");
        let s = seen();
        check(s.len() == 1, "one connection");
        self.conv.verify(&s[0], m);
        check(s[0].consumed == self.conv.data.len(), "the exchange is read to its end");
        let log = openssl::LOG.lock().unwrap();
        check(log.len() == self.plain.len(), "number of encryptions");
        for (a, b) in log.iter().zip(&self.plain) {
            check_eq(&a.plain, b, "password is masked with the scramble before it is encrypted");
            check_eq(&a.pem, PEM, "the server's key is used");
            check(a.padding == 4, "OAEP padding");
        }
        cover(m);
    }
}
fn plugin(k: u32) -> &'static [u8] {
    if k == 0 {
        NATIVE
    } else {
        SHA2
    }
}
/// `arg` = password length
pub fn h_c20_native(arg: u32) {
    let mut c = Case::new(arg as usize);
    c.seq = any_u8();
    c.greet(NATIVE);
    c.last();
    c.run("native");
}
pub fn h_c20_sha2(arg: u32) {
    let mut c = Case::new(arg as usize);
    c.seq = any_u8();
    let s = c.greet(SHA2);
    c.sha2(&s);
    c.run("sha2");
}
/// the server switches the plugin; `arg` = 10 * password length + from + 2 * to
pub fn h_c20_switch(arg: u32) {
    let mut c = Case::new((arg / 10) as usize);
    c.seq = any_u8();
    c.greet(plugin(arg % 2));
    let to = plugin(arg / 2 % 2);
    let s = scramble();
    let mut w = W::new();
    w.u8(0xfe).b(to).u8(0).b(&s).u8(0);
    c.s(&w.0);
    let r = response(to, &c.pw, &s);
    c.c(&r);
    if to == NATIVE {
        c.last();
    } else {
        c.sha2(&s);
    }
    c.run("switch");
}
/// plugins that are not supported: nothing is sent that depends on them
pub fn h_c20_unsupported(_: u32) {
    let mut c = Case::new(3);
    let n = pick(&[&b"sha256_password"[..], b"mysql_clear_password", b"mysql_native_passwor", b"caching_sha2_password2", b"", b"x"]);
    if choose(2) == 0 {
        let mut g = Greet::new(b"8.0.32");
        g.plugin = if n == b"x" { any_ascii(21) } else { n.to_vec() };
        let mut same = true;
        for i in 0..g.plugin.len().min(21) {
            same &= (g.plugin[i] == NATIVE[i]) | (g.plugin[i] == SHA2[i]);
        }
        if n == b"x" {
            assume(!same);
        }
        c.s(&g.body());
    } else {
        c.greet(NATIVE);
        let mut w = W::new();
        w.u8(0xfe).b(n).u8(0).b(&scramble()).u8(0);
        c.s(&w.0);
    }
    c.ok = false;
    c.run("unsupported");
}
/// greetings of all kinds
pub fn h_c20_greeting(_: u32) {
    let maria = choose(2) == 1;
    let mut g = Greet::new(b"");
    g.version = any_ascii(pick(&[0usize, 1, 6]));
    for b in &g.version {
        assume(*b != 0);
    }
    if maria {
        g.version.extend_from_slice(pick(&[&b"10.11.2-MariaDB"[..], b"5.5.5-10.6.4-MariaDB-log", b"MariaDB"]));
    }
    g.id = any_u32();
    g.caps = any_u64() | 0x8000 | 0x80000;
    g.collation = any_u8();
    g.status = any_u16();
    let mut c = Case::new(0);
    c.s(&g.body());
    let l = login(&c.user, &[], c.db.as_deref(), NATIVE);
    c.c(&l);
    c.s(&OK);
    let port = serve(vec![c.conv.script()]);
    let b = BinlogClient::new(ReplicaOptions {
        port,
        hostname: "127.0.0.1".to_string(),
        username: String::from_utf8(c.user).unwrap(),
        database: c.db.map(|x| String::from_utf8(x).unwrap()),
        ..Default::default()
    });
    match b.connect() {
        Ok((_, p)) => check((format!("{:?}", p) == "MariaDB") == maria, "kind of server"),
        Err(_) => check(false, "login succeeds"),
    }
    c.conv.verify(&seen()[0], "login packet");
    cover("greeting");
}
/// names and passwords with characters of several bytes, or of unusual length. `arg` = plugin + 2 * plugin switched to
pub fn h_c20_text(arg: u32) {
    let mut c = Case::new(0);
    let long = "p".repeat(300);
    let t = [
        ("реплика", "пароль", Some("база")),
        ("rêpl", "passwörd of more than twenty characters", None),
        ("", "日本語", Some("データ")),
        ("r", "🔑", Some("")),
        ("r", &long[..], Some(&long[..64])),
        (&long[..255], &long[..256], None),
    ];
    let t = t[choose(t.len() as u32) as usize];
    c.user = t.0.as_bytes().to_vec();
    c.pw = t.1.as_bytes().to_vec();
    c.db = t.2.map(|x| x.as_bytes().to_vec());
    c.seq = any_u8();
    let s = c.greet(plugin(arg % 2));
    if arg < 2 {
        if arg == 0 {
            c.last();
        } else {
            c.sha2(&s);
        }
    } else {
        let to = plugin(arg / 2 - 1);
        let s = scramble();
        let mut w = W::new();
        w.u8(0xfe).b(to).u8(0).b(&s).u8(0);
        c.s(&w.0);
        let r = response(to, &c.pw, &s);
        c.c(&r);
        if to == NATIVE {
            c.last();
        } else {
            c.sha2(&s);
        }
    }
    c.run("text");
}
/// texts and scrambles of which only the first and the last characters vary, so that code which looks at them takes few paths.
/// `arg` = plugin + 2 * plugin switched to
pub fn h_c20_edge(arg: u32) {
    EDGE.store(true, Relaxed);
    let edge = |m: &[u8]| [&any_ascii(1)[..], m, &any_ascii(1)].concat();
    let mut c = Case::new(0);
    c.pw = edge(b"as s");
    c.user = edge(b"se r");
    c.db = Some(edge(b"a b"));
    c.seq = any_u8();
    let mut s = c.greet(plugin(arg % 2));
    let mut to = plugin(arg % 2);
    if arg > 1 {
        to = plugin(arg / 2 - 1);
        s = scramble();
        let mut w = W::new();
        w.u8(0xfe).b(to).u8(0).b(&s).u8(0);
        c.s(&w.0);
        let r = response(to, &c.pw, &s);
        c.c(&r);
    }
    if to == NATIVE {
        c.last();
    } else {
        c.sha2(&s);
    }
    EDGE.store(false, Relaxed);
    c.run("edge");
}
super::entries!(h_c20_edge, h_c20_text, h_c20_native, h_c20_sha2, h_c20_switch, h_c20_unsupported, h_c20_greeting);
