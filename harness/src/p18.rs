//! C18: MariaDB GTID lists: text form and addition.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::providers::mariadb::gtid::{gtid::Gtid, gtid_list::GtidList};

type G = (u32, u32, u64);
/// `n` digits in each number as far as they fit
fn gtid(n: usize) -> (G, Vec<u8>) {
    let part = |n: usize, max: u64| if n == 1 { any_decimal(1) } else { super::p17::printable(n, max) };
    let (a, mut t) = part(n.min(10), u32::MAX as u64);
    let (b, u) = part(n.min(10), u32::MAX as u64);
    let (c, v) = part(n, u64::MAX);
    t.push(b'-');
    t.extend(u);
    t.push(b'-');
    t.extend(v);
    ((a as u32, b as u32, c), t)
}
fn expect(l: &GtidList, want: &[G], m: &str) {
    let mut d = D::new();
    dump::gtid_list(&mut d, l);
    let mut e = D::new();
    e.n(want.len() as u64);
    for g in want {
        e.n(g.0 as u64).n(g.1 as u64).n(g.2);
    }
    observe(&d.0);
    check_eq(&d.0, &e.0, m);
}
/// `arg` = 10 * digits + entries
pub fn h_c18_text(arg: u32) {
    let mut text = vec![];
    let mut canon = vec![];
    let mut want: Vec<G> = vec![];
    let mut dup = false;
    for i in 0..arg % 10 {
        if i > 0 {
            text.extend_from_slice(pick(&[&b","[..], b", ", b",\n", b" ,"]));
            canon.push(b',');
        }
        let (g, t) = gtid((arg / 10) as usize);
        text.extend(&t);
        canon.extend(t);
        for w in &want {
            dup |= w.0 == g.0;
        }
        want.push(g);
    }
    let r = GtidList::parse(&String::from_utf8(text).unwrap());
    match r {
        Ok(l) => {
            check(!dup, "a domain listed twice is rejected");
            expect(&l, &want, "the list as written");
            let s = l.to_string();
            observe(s.as_bytes());
            check_eq(s.as_bytes(), &canon, "printed text");
            cover("list");
        }
        Err(_) => {
            check(dup, "a well-formed list parses");
            cover("duplicate");
        }
    }
}
/// one addition to a list of `arg` domains
pub fn h_c18_add(arg: u32) {
    let mut l = GtidList::new();
    let mut want: Vec<G> = vec![];
    for _ in 0..arg {
        let g = (any_u32(), any_u32(), any_u64());
        for w in &want {
            assume(w.0 != g.0);
        }
        want.push(g);
        l.gtids.push(Gtid::new(g.0, g.1, g.2));
    }
    let g = (any_u32(), any_u32(), any_u64());
    let mut known = false;
    for w in want.iter_mut() {
        if w.0 == g.0 {
            *w = g;
            known = true;
            break;
        }
    }
    if !known {
        want.push(g);
    }
    let r = l.add_gtid(Gtid::new(g.0, g.1, g.2));
    check(r == !known, "add_gtid reports whether the domain is new");
    check(l.gtids.len() == want.len(), "one entry per domain");
    // the order of the entries is not part of the property
    for w in &want {
        let mut found = false;
        for x in &l.gtids {
            found |= (x.domain_id == w.0) & (x.server_id == w.1) & (x.sequence == w.2);
        }
        check(found, "each domain has its last gtid");
    }
    let mut d = D::new();
    dump::gtid_list(&mut d, &l);
    observe(&d.0);
    cover(if known { "replaced" } else { "appended" });
}
/// texts of `arg` domains, then an addition to any of them or of another
pub fn h_c18_many(arg: u32) {
    let mut text = String::new();
    let mut want: Vec<G> = vec![];
    for i in 0..arg {
        want.push((i, i + 1, 7 * i as u64));
        if i > 0 {
            text.push(',');
        }
        text.push_str(&format!("{}-{}-{}", i, i + 1, 7 * i as u64));
    }
    let mut l = match GtidList::parse(&text) {
        Ok(l) => l,
        Err(_) => return check(false, "the list parses"),
    };
    let g = (pick(&[0, 1, arg / 2, arg - 1, arg]), any_u32(), any_u64());
    let known = g.0 < arg;
    if known {
        want[g.0 as usize] = g;
    } else {
        want.push(g);
    }
    check(l.add_gtid(Gtid::new(g.0, g.1, g.2)) == !known, "add_gtid reports whether the domain is new");
    check(l.gtids.len() == want.len(), "one entry per domain");
    let mut seen = vec![false; want.len()];
    for x in &l.gtids {
        let i = x.domain_id as usize;
        check(i < want.len() && !seen[i], "one entry per domain");
        if i < want.len() {
            seen[i] = true;
            check((x.server_id == want[i].1) & (x.sequence == want[i].2), "each domain has its last gtid");
        }
    }
    cover("many");
}
super::entries!(h_c18_text, h_c18_add, h_c18_many);
