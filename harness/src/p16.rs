//! C16: adding a MySQL GTID to a GTID set is exact set union; the representation stays sorted,
//! disjoint and non-adjacent; the result says whether the set grew.
use crate::api::*;
use crate::out::*;
use mysql_cdc::providers::mysql::gtid::{gtid::Gtid, gtid_set::GtidSet, interval::Interval, uuid::Uuid, uuid_set::UuidSet};

fn member(iv: &[(u64, u64)], t: u64) -> bool {
    let mut r = false;
    for &(s, e) in iv {
        r |= (s <= t) & (t <= e);
    }
    r
}
fn canonical(iv: &[(u64, u64)]) -> bool {
    let mut ok = true;
    for i in 0..iv.len() {
        ok &= iv[i].0 <= iv[i].1;
        if i > 0 {
            ok &= (iv[i - 1].1 < u64::MAX) & (iv[i - 1].1.wrapping_add(1) < iv[i].0);
        }
    }
    ok
}
/// One addition from an arbitrary canonical set of `arg` intervals, arbitrary ids.
pub fn h_c16_add(arg: u32) {
    let k = arg as usize;
    let mut pre: Vec<(u64, u64)> = vec![];
    for _ in 0..k {
        pre.push((any_u64(), any_u64()));
    }
    for p in &pre {
        assume(p.0 >= 1);
    }
    assume(canonical(&pre));
    let u = Uuid::new([7; 16]);
    let mut set = UuidSet::new(u.clone(), vec![]);
    for p in &pre {
        set.intervals.push(Interval::new(p.0, p.1));
    }
    let t = any_u64();
    assume(t >= 1);
    let was = member(&pre, t);
    let r = set.add_gtid(Gtid::new(u, t));
    let post: Vec<(u64, u64)> = set.intervals.iter().map(|x| (x.start, x.end)).collect();
    match r {
        Ok(b) => check(b == !was, "add_gtid reports whether the set grew"),
        Err(_) => check(false, "adding a gtid of the same source succeeds"),
    }
    check(canonical(&post), "intervals stay sorted, disjoint and non-adjacent");
    let q = any_u64();
    check(member(&post, q) == (member(&pre, q) | (q == t)), "set after addition = set before + gtid");
    cover(if was { "already" } else { "new" });
    let mut d = D::new();
    for p in &post {
        d.n(p.0).n(p.1);
    }
    observe(&d.0);
}
/// an addition of any id to a set of `arg` fixed intervals with gaps of 1, 2 and more
pub fn h_c16_many(arg: u32) {
    let mut pre: Vec<(u64, u64)> = vec![];
    let mut at = 5;
    for i in 0..arg as u64 {
        pre.push((at, at + i % 4));
        at += i % 4 + 2 + [0, 1, 100][(i % 3) as usize];
    }
    let u = Uuid::new([7; 16]);
    let mut set = UuidSet::new(u.clone(), vec![]);
    for p in &pre {
        set.intervals.push(Interval::new(p.0, p.1));
    }
    let t = any_u64();
    assume(t >= 1);
    let was = member(&pre, t);
    let r = set.add_gtid(Gtid::new(u, t));
    check(matches!(r, Ok(b) if b == !was), "add_gtid reports whether the set grew");
    let post: Vec<(u64, u64)> = set.intervals.iter().map(|x| (x.start, x.end)).collect();
    check(canonical(&post), "intervals stay sorted, disjoint and non-adjacent");
    let q = any_u64();
    check(member(&post, q) == (member(&pre, q) | (q == t)), "set after addition = set before + gtid");
    cover("many intervals");
}
/// additions through the set of all sources: two sources, known or not, `arg` additions of any ids
pub fn h_c16_set(arg: u32) {
    let us = [[7u8; 16], [8; 16], [9; 16]];
    let k = any_u64();
    assume((k >= 1) & (k < u64::MAX));
    let mut set = GtidSet::new();
    let u = Uuid::new(us[0]);
    set.uuid_sets.insert(u.uuid.clone(), UuidSet::new(u, vec![Interval::new(1, k)]));
    let mut had: Vec<(usize, u64)> = vec![];
    let q = any_u64();
    let member_of = |set: &GtidSet, s: usize| {
        let mut r = false;
        for x in set.uuid_sets.values() {
            if x.source_id.data == us[s] {
                r |= member(&x.intervals.iter().map(|i| (i.start, i.end)).collect::<Vec<_>>(), q);
            }
        }
        r
    };
    for _ in 0..arg {
        let (s, t) = (choose(3) as usize, any_u64());
        assume(t >= 1);
        let mut was = (s == 0) & (t <= k);
        for h in &had {
            was |= (h.0 == s) & (h.1 == t);
        }
        let r = set.add_gtid(Gtid::new(Uuid::new(us[s]), t));
        check(matches!(r, Ok(b) if b == !was), "add_gtid reports whether the set grew");
        had.push((s, t));
        for s in 0..3 {
            let mut want = (s == 0) & (1 <= q) & (q <= k);
            for h in &had {
                want |= (h.0 == s) & (h.1 == q);
            }
            check(member_of(&set, s) == want, "set after addition = set before + gtid");
        }
        for x in set.uuid_sets.values() {
            check(canonical(&x.intervals.iter().map(|i| (i.start, i.end)).collect::<Vec<_>>()), "intervals stay sorted, disjoint and non-adjacent");
        }
    }
    let mut n = vec![false; 3];
    n[0] = true;
    had.iter().for_each(|h| n[h.0] = true);
    check(set.uuid_sets.len() == n.iter().filter(|x| **x).count(), "no other source");
    cover("several sources");
}
super::entries!(h_c16_set, h_c16_add, h_c16_many);
