//! C17: text form of MySQL GTID sets: parsing gives exactly the denoted set, printing is canonical
//! and round-trips.
use crate::{api::*, dump, gen, gen::*, out::*};
use mysql_cdc::providers::mysql::gtid::{gtid_set::GtidSet, interval::Interval, uuid::Uuid, uuid_set::UuidSet};

fn number(n: usize) -> (u64, Vec<u8>) {
    if n == 0 {
        return any_number(1 + choose(2) as usize, u64::MAX);
    }
    any_number(n, u64::MAX)
}
/// printing many symbolic digits is out of the solver's reach: longer numbers are boundary values
pub fn printable(n: usize, max: u64) -> (u64, Vec<u8>) {
    if n == 0 {
        return any_number(1 + choose(2) as usize, max);
    }
    if n <= 3 {
        return any_number(n, max);
    }
    let p = 10u64.pow(n as u32 - 1);
    let top = if n == 20 || max / 10 < p { max } else { p * 10 - 1 };
    let x = pick(&[p, p + 1, p + (top - p) / 2, top - 1, top]);
    (x, x.to_string().into_bytes())
}
/// sorted, disjoint, non-adjacent intervals of the same set
fn canonical(iv: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = vec![];
    for x in iv {
        let mut x = *x;
        let mut out = vec![];
        let mut placed = false;
        for y in v {
            if y.1 < x.0 && y.1 + 1 < x.0 {
                out.push(y);
            } else if x.1 < y.0 && x.1 + 1 < y.0 {
                if !placed {
                    out.push(x);
                    placed = true;
                }
                out.push(y);
            } else {
                if y.0 < x.0 {
                    x.0 = y.0;
                }
                if y.1 > x.1 {
                    x.1 = y.1;
                }
            }
        }
        if !placed {
            out.push(x);
        }
        v = out;
    }
    v
}
fn expect(g: &GtidSet, want: &[([u8; 16], Vec<(u64, u64)>)], m: &str) {
    let mut d = D::new();
    dump::gtid_set(&mut d, g);
    let mut e = D::new();
    e.n(want.len() as u64);
    for (u, iv) in want {
        let t = uuid_text(u);
        e.s(&t).s(u).s(&t).n(iv.len() as u64);
        for i in iv {
            e.n(i.0).n(i.1);
        }
    }
    observe(&d.0);
    check_eq(&d.0, &e.0, m);
}
const U: [[u8; 16]; 2] = [[0x3e; 16], [0xb0; 16]];
fn num_sep() -> &'static [u8] {
    pick(&[&b","[..], b", ", b",\n", b" ,"])
}
/// `arg` = 100 * digits + 10 * sources listed + intervals of each; any order, overlaps and repetitions
pub fn h_c17_parse(arg: u32) {
    let (dig, ns, ni) = ((arg / 100) as usize, arg / 10 % 10, arg % 10);
    let mut text = vec![];
    let mut sets: [Vec<(u64, u64)>; 2] = [vec![], vec![]];
    let mut order = vec![];
    for i in 0..ns {
        if i > 0 {
            text.extend_from_slice(if ni == 1 { num_sep() } else { b"," });
        }
        let k = choose(2) as usize;
        if !order.contains(&k) {
            order.push(k);
        }
        let mut t = uuid_text(&U[k]);
        if ni == 1 && choose(2) == 1 {
            t.make_ascii_uppercase();
        }
        text.extend(t);
        for _ in 0..ni {
            text.push(b':');
            let (a, t) = number(dig);
            text.extend(t);
            let b = if choose(2) == 1 {
                let (b, t) = number(dig);
                assume(a <= b);
                text.push(b'-');
                text.extend(t);
                b
            } else {
                a
            };
            sets[k].push((a, b));
        }
    }
    let text = String::from_utf8(text).unwrap();
    let g = match GtidSet::parse(&text) {
        Ok(g) => g,
        Err(_) => return check(false, "a well-formed gtid set parses"),
    };
    order.sort();
    let want: Vec<_> = order.iter().map(|k| (U[*k], canonical(&sets[*k]))).collect();
    expect(&g, &want, "the parsed set is the union of what is listed");
    cover("parsed");
}
/// uuids: any hexadecimal digits in any case, in the two bytes from `arg` on
pub fn h_c17_uuid(arg: u32) {
    let mut u = [0u8; 16];
    for i in 0..16 {
        u[i] = (0x1d * i + 0xa3) as u8;
    }
    fill(&mut u[arg as usize..arg as usize + 2]);
    let mut t = uuid_text(&u);
    if choose(2) == 1 {
        t.make_ascii_uppercase();
    }
    let r = match Uuid::parse(String::from_utf8(t).unwrap()) {
        Ok(x) => x,
        Err(_) => return check(false, "a uuid parses"),
    };
    check_eq(&r.data, &u, "uuid bytes");
    check_eq(r.uuid.as_bytes(), &uuid_text(&u), "uuid text is normalised");
    let n = Uuid::new(u);
    check_eq(n.uuid.as_bytes(), &uuid_text(&u), "uuid text from bytes");
    check_eq(&n.data, &u, "uuid bytes kept");
    cover("uuid");
}
/// `arg` = 100 * digits + 10 * sources + intervals: printing a canonical set and parsing it back
pub fn h_c17_print(arg: u32) {
    let (dig, ns, ni) = ((arg / 100) as usize, (arg / 10 % 10) as usize, arg % 10);
    let mut g = GtidSet::new();
    let mut want = vec![];
    let mut text = vec![];
    for k in 0..ns {
        let mut iv: Vec<(u64, u64)> = vec![];
        if k > 0 {
            text.push(b',');
        }
        text.extend(uuid_text(&U[k]));
        for _ in 0..ni {
            let (a, ta) = printable(dig, u64::MAX);
            let (b, tb) = if choose(2) == 1 { (a, ta.clone()) } else { printable(dig, u64::MAX) };
            text.push(b':');
            text.extend(&ta);
            if !std::ptr::eq(&ta, &tb) && ta != tb {
                assume(a < b);
                text.push(b'-');
                text.extend(tb);
            }
            if let Some(l) = iv.last() {
                assume((l.1 < u64::MAX) & (l.1.wrapping_add(1) < a));
            }
            iv.push((a, b));
        }
        let u = Uuid::new(U[k]);
        let mut s = UuidSet::new(u.clone(), vec![]);
        for i in &iv {
            s.intervals.push(Interval::new(i.0, i.1));
        }
        g.uuid_sets.insert(u.uuid.clone(), s);
        want.push((U[k], iv));
    }
    let s = g.to_string();
    observe(s.as_bytes());
    check_eq(s.as_bytes(), &text, "canonical text");
    match GtidSet::parse(&s) {
        Ok(g) => expect(&g, &want, "parsing the printed text gives the same set"),
        Err(_) => check(false, "the printed text parses"),
    }
    cover("printed");
}
/// `arg` intervals that are apart, adjacent or overlapping, in several orders, and one more: any number of 3 digits, or one of several if there are many
pub fn h_c17_many(arg: u32) {
    let n = arg as u64;
    let width = pick(&[0u64, 5, 9, 14]);
    let mut iv: Vec<(u64, u64)> = (0..n).map(|i| (10 * i + 1, 10 * i + 1 + width)).collect();
    match choose(4) {
        0 => {}
        1 => iv.reverse(),
        2 => iv.rotate_left((n / 2) as usize),
        _ => {
            // even ones, then odd ones
            let (a, b): (Vec<_>, Vec<_>) = iv.iter().partition(|x| x.0 / 10 % 2 == 0);
            iv = a;
            iv.extend(b);
        }
    }
    let mut text = uuid_text(&U[0]);
    for i in &iv {
        text.extend(if i.0 == i.1 { format!(":{}", i.0) } else { format!(":{}-{}", i.0, i.1) }.into_bytes());
    }
    let again = choose(3);
    if again == 1 {
        // the same source once more
        text.push(b',');
        text.extend(uuid_text(&U[0]));
    }
    if again > 0 {
        let (x, t) = if n <= 12 {
            number(3)
        } else {
            let x = pick(&[1, 7, 5 * n, 5 * n + 7, 10 * n, 10 * n + 7, u64::MAX]);
            (x, x.to_string().into_bytes())
        };
        text.push(b':');
        text.extend(t);
        iv.push((x, x));
    }
    let g = match GtidSet::parse(std::str::from_utf8(&text).unwrap()) {
        Ok(g) => g,
        Err(_) => return check(false, "a well-formed gtid set parses"),
    };
    let want = canonical(&iv);
    if again == 0 {
        let mut t = uuid_text(&U[0]);
        for i in &want {
            t.extend(if i.0 == i.1 { format!(":{}", i.0) } else { format!(":{}-{}", i.0, i.1) }.into_bytes());
        }
        check_eq(g.to_string().as_bytes(), &t, "canonical text");
    }
    expect(&g, &[(U[0], want)], "the parsed set is the union of what is listed");
    cover("many");
}
super::entries!(h_c17_many, h_c17_parse, h_c17_uuid, h_c17_print);
