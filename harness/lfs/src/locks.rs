//! C16-C20: locks.
use crate::srv::*;
use std::path::Path;
use vrt::*;

const T1: i64 = 1_000_684_800;
const T1S: &[u8] = b"2001-09-17T00:00:00+00:00";
const T2: i64 = 1_100_000_000;
const T2S: &[u8] = b"2004-11-09T11:33:20+00:00";
/// What is told about a lock.
#[derive(Clone, PartialEq, Debug)]
pub struct L { pub id: Vec<u8>, pub path: Vec<u8>, pub at: Vec<u8>, pub owner: Vec<u8> }
/// The lock described by the arguments of a reply.
pub fn of_args(y: &Reply) -> L {
    check(y.args.len() == 4, "a lock is not described by its id, path, time and owner");
    let g = |k: &[u8]| match y.arg(k) { Some(v) => v.to_vec(), None => fail("a lock is not described by its id, path, time and owner") };
    L { id: g(b"id"), path: g(b"path"), at: g(b"locked-at"), owner: g(b"ownername") }
}
/// The locks in a listing with who owns them ('o' ours, 't' theirs, '-' not told).
pub fn of_list(y: &Reply) -> Vec<(L, u8)> {
    check(y.code == 200 && y.has_data, "a listing failed");
    let d = y.joined();
    let mut out: Vec<(L, u8)> = vec![];
    // One packet for each line: a path may contain any byte.
    let _ = d;
    let mut cur: Option<(L, u8)> = None;
    for l in &y.data {
        check(!l.is_empty() && l[l.len() - 1] == b'\n', "a line of a listing is not terminated");
        let l = &l[..l.len() - 1];
        let sp = match l.iter().position(|c| *c == b' ') { Some(p) => p, None => fail("a line of a listing has no key") };
        let (k, v) = (&l[..sp], &l[sp + 1..]);
        if k == b"lock" {
            if let Some(c) = cur.take() { out.push(c); }
            cur = Some((L { id: v.to_vec(), path: vec![], at: vec![], owner: vec![] }, b'-'));
            continue;
        }
        let c = match cur.as_mut() { Some(c) => c, None => fail("a listing does not start with a lock") };
        check(v.len() > 65 && &v[..64] == &c.0.id[..] && v[64] == b' ' || v.len() == 65, "a line of a listing is about another lock");
        let v = &v[65..];
        match k {
            b"path" => c.0.path = v.to_vec(),
            b"locked-at" => c.0.at = v.to_vec(),
            b"ownername" => c.0.owner = v.to_vec(),
            b"owner" => c.1 = if v == b"ours" { b'o' } else if v == b"theirs" { b't' } else { fail("a lock is neither ours nor theirs") },
            _ => fail("a listing has an unknown line"),
        }
    }
    if let Some(c) = cur.take() { out.push(c); }
    out
}
fn at(root: &Path, mode: Mode, ts: i64, rq: Rq) -> Ran { session(root, mode, 0o022, Some(ts), &mut In::new(&rq.0)) }
fn record(root: &Path, path: &[u8]) -> Option<Vec<u8>> { std::fs::read(root.join("locks").join(s(&lock_id(path)))).ok() }
fn rec(ts: i64, path: &[u8]) -> Vec<u8> { [format!("v1:{}:", ts).as_bytes(), path].concat() }
/// Nothing but complete lock records in the lock directory.
fn only_records(root: &Path) -> bool { names(&root.join("locks")).iter().all(|n| n.len() == 64) }
fn slot_session(root: &Path, ts: i64, rq: Rq, s: &mut Slot) {
    let mut i = In::new(&rq.0);
    use scutiger_lfs::{backend::local::LocalBackend, processor::{PktLineHandler, Processor}};
    let h = PktLineHandler::new(&mut i, Into_(s));
    let r = Processor::new(h, Box::new(LocalBackend::new(root, 0o022, Some(ts)))).process_commands(UP);
    check(r.is_ok(), "a session ended with an error");
}
fn some_path() -> Vec<u8> { match choice("path", 2) { 0 => sym_vec("path", 2), _ => b"a/b".to_vec() } }

/// A request to lock (or else unlock), the code of its reply, and which lock it reported: of 0 nobody, 1 the first holder, 2 session A, 3 session B.
type Step = (bool, u32, u8);
/// Is there an order of the requests of A and B in which they get these replies and leave this lock?
fn explained(a: &[Step], b: &[Step], holder: u8, left: u8, exact: bool) -> bool {
    let step = |s: &Step, me: u8| -> Option<u8> {
        match *s {
            (true, 201, t) if holder == 0 && t == me => Some(me),
            (true, 409, t) if holder != 0 && t == holder => Some(holder),
            // the lock vanished each time it was looked at, so somebody must have been releasing it
            (true, 500, _) => Some(holder),
            (false, 200, t) if holder != 0 && (t == holder || !exact) => Some(0),
            (false, 404, _) if holder == 0 => Some(0),
            _ => None,
        }
    };
    if a.is_empty() && b.is_empty() { return holder == left; }
    let one = |s: &[Step], me: u8| if s.is_empty() { None } else { step(&s[0], me) };
    if let Some(h) = one(a, 2) { if explained(&a[1..], b, h, left, exact) { return true; } }
    if let Some(h) = one(b, 3) { if explained(a, &b[1..], h, left, exact) { return true; } }
    false
}

/// The seconds since 1970 of a time such as 2001-09-17T00:00:00+00:00.
fn seconds(t: &[u8]) -> i64 {
    check(t.len() == 25 && &t[19..] == b"+00:00", "not a time in UTC");
    let n = |a: usize, b: usize| t[a..b].iter().fold(0i64, |x, c| x * 10 + (*c as i64 - 48));
    let (y, m, d) = (n(0, 4), n(5, 7), n(8, 10));
    let (y, m) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
    let days = 365 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + d - 719_469;
    days * 86400 + n(11, 13) * 3600 + n(14, 16) * 60 + n(17, 19)
}
harness! {
fn h_c16_fault() {
    // a path that is held, whatever fails
    let root = repo();
    let path = some_path();
    plant_lock(&root, &path, "1000684800");
    let before = state(&root);
    uid(1001);
    fault(WR | META | RD | DENY);
    let x = serve(&root, UP, &Rq::new().lock(&path).0);
    fault(0);
    let y = x.one();
    if y.code == 409 { reach("conflict") } else { reach("failure"); check(y.code >= 500, "a path that is held was locked again"); }
    let k = [b"locks/", &lock_id(&path)[..]].concat();
    check(state(&root).iter().find(|x| x.0 == k) == before.iter().find(|x| x.0 == k), "a lock that is held was changed");
}
fn h_c16_two() {
    // two sessions lock the same path, or different ones
    let root = repo();
    let path = some_path();
    let same = choice("same", 2) == 1;
    let path2 = if same { path.clone() } else { b"other".to_vec() };
    if !same { assume(path != path2); }
    // somebody else died while locking it
    if choice("stale", 2) == 1 { std::fs::write(root.join("locks").join(format!("{}.lock", s(&lock_id(&path)))), b"v1:").unwrap(); }
    let (mut s1, mut s2) = (Slot::new(), Slot::new());
    spawn(&mut s1, |s| { uid(1001); sched(true); slot_session(&root, T1, Rq::new().lock(&path), s); sched(false); });
    spawn(&mut s2, |s| { uid(1002); sched(true); slot_session(&root, T2, Rq::new().lock(&path2), s); sched(false); });
    wait();
    wait();
    let (a, b) = (s1.replies(), s2.replies());
    check(a.len() == 1 && b.len() == 1, "one reply for each request");
    let (a, b) = (&a[0], &b[0]);
    let (la, lb) = (L { id: lock_id(&path), path: path.clone(), at: T1S.to_vec(), owner: vec![] }, L { id: lock_id(&path2), path: path2.clone(), at: T2S.to_vec(), owner: vec![] });
    let is = |y: &Reply, l: &L| { let x = of_args(y); x.id == l.id && x.path == l.path && x.at == l.at };
    if same {
        check((a.code == 201) != (b.code == 201), "not exactly one of two sessions got the lock");
        let (win, lose, l, ts) = if a.code == 201 { reach("first wins"); (a, b, la, T1) } else { reach("second wins"); (b, a, lb, T2) };
        check(lose.code == 409, "the session which did not get the lock was not told of the conflict");
        check(is(win, &l) && is(lose, &l), "the lock reported is not that of the winner");
        check(of_args(win).owner == of_args(lose).owner, "the owner reported is not the winner");
        check(record(&root, &path) == Some(rec(ts, &path)), "the winner's record is not there");
    } else {
        reach("different");
        check(a.code == 201 && b.code == 201 && is(a, &la) && is(b, &lb), "a free path was not locked");
        check(record(&root, &path) == Some(rec(T1, &path)) && record(&root, &path2) == Some(rec(T2, &path2)), "a record is not there");
    }
    let n = names(&root.join("locks")).iter().filter(|n| n.len() != 64 && n[64..] != *b".lock").count();
    check(n == 0, "a temporary file was left behind");
}

fn h_c16_release() {
    // a session unlocks while another locks; or two unlock
    let root = repo();
    let path = some_path();
    let id = plant_lock(&root, &path, "1000684800");
    let both = choice("both", 2) == 1;
    let (mut s1, mut s2) = (Slot::new(), Slot::new());
    spawn(&mut s1, |s| { sched(true); slot_session(&root, T1, Rq::new().unlock(&id), s); sched(false); });
    spawn(&mut s2, |s| { sched(true); slot_session(&root, T2, if both { Rq::new().unlock(&id) } else { Rq::new().lock(&path) }, s); sched(false); });
    wait();
    wait();
    let (a, b) = (s1.replies(), s2.replies());
    let (a, b) = (&a[0], &b[0]);
    check(only_records(&root), "a temporary file was left behind");
    if both {
        reach("unlock twice");
        check(a.code == 200 && b.code == 404 || a.code == 404 && b.code == 200, "one lock was not released exactly once");
        check(record(&root, &path) == None, "a released lock is still there");
    } else {
        check(a.code == 200, "a held lock was not released");
        check(of_args(a).at == T1S, "another lock was reported as released");
        match b.code {
            201 => { reach("locked again"); check(record(&root, &path) == Some(rec(T2, &path)), "the lock is not held although this was reported"); check(of_args(b).at == T2S, "another lock was reported"); }
            409 => { reach("conflict"); check(record(&root, &path) == None, "a lock is held although nobody got it"); check(of_args(b).at == T1S && of_args(b).path == path, "the conflict is not with the holder's lock"); }
            // the lock vanished each time it was looked at
            500 => { reach("gave up"); check(record(&root, &path) == None, "a lock is held although nobody got it"); }
            _ => fail("a session which tried to lock got neither the lock nor a conflict"),
        }
    }
}

fn h_c16_three() {
    // lock and unlock against lock: the exclusion holds over time
    let root = repo();
    let path = b"a/b";
    let id = lock_id(path);
    let (mut s1, mut s2) = (Slot::new(), Slot::new());
    spawn(&mut s1, |s| { sched(true); slot_session(&root, T1, Rq::new().lock(path).unlock(&id), s); sched(false); });
    spawn(&mut s2, |s| { sched(true); slot_session(&root, T2, Rq::new().lock(path), s); sched(false); });
    wait();
    wait();
    let (a, b) = (s1.replies(), s2.replies());
    check(only_records(&root), "a temporary file was left behind");
    let held = record(&root, path);
    match (a[0].code, a[1].code, b[0].code) {
        (201, 200, 201) => { // one after the other: the lock that was released is the one held then
            let x = of_args(&a[1]);
            if x.at == T1S { reach("in turn"); check(held == Some(rec(T2, path)), "the second lock is lost"); } else { check(x.at == T2S && held == None, "the wrong lock was released"); fail("both sessions held the lock at once") }
        }
        (201, 200, 409) => { reach("second refused"); check(held == None, "a released lock is still there"); check(of_args(&b[0]).at == T1S, "the conflict is not with the holder's lock"); }
        (201, 200, 500) => { reach("second gave up"); check(held == None, "a released lock is still there"); }
        (409, 200, 201) => { reach("first refused"); check(of_args(&a[0]).at == T2S && of_args(&a[1]).at == T2S && held == None, "the wrong lock was released"); }
        _ => fail("neither got the lock in turn"),
    }
}

fn h_c16_history() {
    // two sessions with several requests each to lock and unlock one path: some order of the requests explains all of the replies
    let root = repo();
    let path = b"a/b";
    let id = lock_id(path);
    let held = choice("held", 2) == 1;
    if held { plant_lock(&root, path, "1"); }
    let mut script = |name: &str, n: u64| -> Vec<bool> { (0..n).map(|_| choice(name, 2) == 1).collect() };
    let (na, nb) = (script("a", param("a", 2)), script("b", param("b", 2)));
    let rq = |l: &[bool]| { let mut r = Rq::new(); for x in l { r = if *x { r.lock(path) } else { r.unlock(&id) }; } r };
    let (mut s1, mut s2) = (Slot::new(), Slot::new());
    spawn(&mut s1, |s| { sched(true); slot_session(&root, T1, rq(&na), s); sched(false); });
    spawn(&mut s2, |s| { sched(true); slot_session(&root, T2, rq(&nb), s); sched(false); });
    wait();
    wait();
    let left = match record(&root, path) { None => 0, Some(r) => if r == rec(1, path) { 1 } else if r == rec(T1, path) { 2 } else if r == rec(T2, path) { 3 } else { fail("the record is of no lock that was created") } };
    let seen = |s: &Slot, n: &[bool]| -> Vec<Step> {
        let l = s.replies();
        check(l.len() == n.len(), "one reply for each request");
        l.iter().zip(n).map(|(y, lock)| {
            let t = if y.code == 404 || y.code == 500 { 0 } else { let x = of_args(y); check(x.id == id && x.path == path, "another path's lock was reported"); match &x.at[..] { b"1970-01-01T00:00:01+00:00" => 1, T1S => 2, T2S => 3, _ => fail("a lock was reported which never was") } };
            (*lock, y.code, t)
        }).collect()
    };
    let (a, b) = (seen(&s1, &na), seen(&s2, &nb));
    check(only_records(&root), "a temporary file was left behind");
    let first = if held { 1 } else { 0 };
    let exact = param("exact", 0) == 1;
    if explained(&a, &b, first, left, exact) {
        reach("explained");
    } else {
        check(!exact || !explained(&a, &b, first, left, false), "unlocking reported an earlier lock than the one it removed");
        check(false, "no order of the requests explains the replies");
    }
}

fn h_c17() {
    // killed at any file system operation of a lock or unlock request; then an ordinary session
    let root = repo();
    let path = some_path();
    let held = choice("held", 2) == 1;
    if held { plant_lock(&root, &path, "1000684800"); }
    let id = lock_id(&path);
    let unlocking = choice("what", 2) == 1;
    let mut slot = Slot::new();
    let mode2 = choice("twice", 2) == 1;
    spawn(&mut slot, |s| {
        crash(true);
        slot_session(&root, T2, if unlocking { Rq::new().unlock(&id) } else if mode2 { Rq::new().lock(&path).unlock(&id).lock(&path) } else { Rq::new().lock(&path) }, s);
        crash(false);
    });
    wait();
    let r = record(&root, &path);
    check(r == None || r == Some(rec(T1, &path)) || r == Some(rec(T2, &path)), "a crash left an incomplete lock record");
    let l = replies(&slot.out()).unwrap_or(vec![]);
    if !slot.finished() { reach("killed"); } else { reach("survived"); }
    if l.len() == 1 && l[0].code == 201 && !mode2 { reach("locked"); check(r == Some(rec(T2, &path)), "a lock was reported before its record was in place"); }
    if l.len() == 1 && l[0].code == 200 && unlocking { reach("released"); check(r == None, "a lock was reported as released before it was"); }
    if held && !unlocking && !mode2 { check(r == Some(rec(T1, &path)), "a crash of an attempt to lock disturbed the holder"); }
    // an ordinary session afterwards, the requests in different orders
    let want = r.clone();
    let n = (want.is_some()) as usize;
    let order = choice("order", 4);
    if order == 0 {
        let y = at(&root, DOWN, T2, Rq::new().list(&[])).one();
        let x = of_list(&y);
        check(x.len() == n && x.iter().all(|l| l.0.path == path && l.0.id == id), "after a crash a listing does not show the held locks");
    }
    if order == 1 {
        let y = at(&root, UP, T2, Rq::new().line(b"list-lock", b"").line(b"path=", &path).f()).one();
        check(if n == 1 { of_list(&y).len() == 1 } else { y.code == 404 }, "after a crash a path query does not show the held lock");
    }
    if order == 2 {
        let y = at(&root, UP, T2 + 9, Rq::new().unlock(&id)).one();
        check(if n == 1 { y.code == 200 } else { y.code == 404 }, "after a crash unlocking does not work as usual");
        check(record(&root, &path) == None, "after a crash unlocking does not work as usual");
    }
    if order != 2 {
        let y = at(&root, UP, T2 + 9, Rq::new().lock(&path)).one();
        check(if n == 1 { y.code == 409 } else { y.code == 201 }, "after a crash locking does not work as usual");
        check(record(&root, &path) == if n == 1 { want } else { Some(rec(T2 + 9, &path)) }, "after a crash locking does not work as usual");
    }
    // and in the end it can be released and locked again
    let l = at(&root, UP, T1, Rq::new().unlock(&id).lock(&path)).replies();
    check(l.len() == 2 && l[0].code == if order == 2 { 404 } else { 200 } && l[1].code == 201, "after a crash the path cannot be locked again");
}

fn h_c17_two() {
    // two attempts to lock a path both die somewhere
    let root = repo();
    let path = b"a/b";
    let (mut s1, mut s2) = (Slot::new(), Slot::new());
    spawn(&mut s1, |s| { crash(true); slot_session(&root, T1, Rq::new().lock(path), s); crash(false); });
    spawn(&mut s2, |s| { sched(true); slot_session(&root, T2, Rq::new().lock(path), s); sched(false); });
    wait();
    wait();
    let r = record(&root, path);
    check(s2.finished(), "a session did not survive another one's crash");
    let b = s2.replies();
    if b[0].code == 201 { reach("got it"); check(r == Some(rec(T2, path)), "the lock is not held although this was reported"); }
    else { reach("refused"); check(b[0].code == 409 && r == Some(rec(T1, path)), "a path that is not locked was refused"); }
    if !s1.finished() { reach("killed"); }
    let l = at(&root, UP, T1, Rq::new().unlock(&lock_id(path)).lock(path)).replies();
    check(l[0].code == 200 && l[1].code == 201, "after a crash the path cannot be locked again");
}

fn h_c18() {
    // every way to learn of a lock, for any path, and different owners, wherever the server is
    std::env::set_var("TZ", "AAA-3");
    let root = repo();
    let path = match choice("kind", 3) { 0 => sym_vec("path", choice("len", 4) as usize), 1 => vec![b'p'; 5000], _ => "\u{e9}\u{20ac} x=y\n:v1:".as_bytes().to_vec() };
    let (ts, tss): (i64, &[u8]) = [(0, &b"1970-01-01T00:00:00+00:00"[..]), (-1, b"1969-12-31T23:59:59+00:00"), (T1, T1S), (951782400, b"2000-02-29T00:00:00+00:00"), (253402300799, b"9999-12-31T23:59:59+00:00"), (4102444800, b"2100-01-01T00:00:00+00:00")][choice("time", 6) as usize];
    // (with and without names)
    let me = [0u32, 1001, 1][choice("uid", 3) as usize];
    // (one of which is the beginning of the other)
    let later = [0u32, 1001, 10012, 1][choice("later", 4) as usize];
    uid(me);
    let y = at(&root, UP, ts, Rq::new().lock(&path)).one();
    check(y.code == 201, "a free path was not locked");
    let l = of_args(&y);
    check(l.id == lock_id(&path) && l.path == path && l.at == tss && !l.owner.is_empty(), "the lock created is reported wrongly");
    uid(later);
    let z = at(&root, UP, ts + 1000, Rq::new().lock(&path)).one();
    check(z.code == 409 && of_args(&z) == l, "a conflict reports the lock differently");
    for up in [false, true] {
        let m = if up { UP } else { DOWN };
        let who = if !up { b'-' } else if later == me { b'o' } else { b't' };
        let x = of_list(&at(&root, m, ts + 5, Rq::new().list(&[])).one());
        check(x.len() == 1 && x[0].0 == l, "a listing reports the lock differently");
        check(x[0].1 == who, "a listing tells ours from theirs wrongly");
        let x = of_list(&at(&root, m, ts + 5, Rq::new().line(b"list-lock", b"").line(b"path=", &path).f()).one());
        check(x.len() == 1 && x[0].0 == l && x[0].1 == who, "a path query reports the lock differently");
    }
    if later == me { reach("ours") } else { reach("theirs") }
    let u = at(&root, UP, ts + 7, Rq::new().unlock(&l.id)).one();
    check(u.code == 200 && of_args(&u) == l, "unlocking reports the lock differently");
}

fn h_c18_fault() {
    // what a lock says when writing it, or reading it, does not go as planned
    let root = repo();
    let path = [sym_u8("path"), b'/', 0xc3, 0xa9].to_vec();
    let one = choice("at", 3);
    let ask = |up: bool, r: Rq| at(&root, if up { UP } else { DOWN }, T1, r).one();
    uid(1001);
    if one == 0 { fault(WR | META | RD | DENY | SHORT); }
    let y = ask(true, Rq::new().lock(&path));
    fault(0);
    let l = L { id: lock_id(&path), path: path.clone(), at: T1S.to_vec(), owner: vec![] };
    let same = |x: &L| x.id == l.id && x.path == l.path && x.at == l.at && !x.owner.is_empty();
    if y.code == 201 { reach("locked"); check(same(&of_args(&y)), "the lock created is reported wrongly"); }
    else { reach("failed"); check(one == 0 && y.code >= 500, "a free path was not locked"); }
    if one == 1 { fault(RD | META | DENY | SHORT); }
    let x = ask(false, Rq::new().list(&[]));
    fault(0);
    if x.code == 200 {
        let x = of_list(&x);
        check(x.iter().all(|x| same(&x.0)) && x.len() <= 1, "a listing reports the lock wrongly");
        check(x.len() == 1 || y.code != 201 || one == 1, "a lock that was granted is not listed");
    } else { check(one == 1 && x.code >= 500, "a listing failed without a reason"); }
    if one == 2 { fault(RD | META | DENY | SHORT); }
    let x = ask(true, Rq::new().lock(&path));
    fault(0);
    match x.code {
        409 => { reach("conflict"); check(same(&of_args(&x)), "a conflict reports the lock wrongly"); }
        201 => { reach("again"); check(y.code != 201 && same(&of_args(&x)), "a path that is held was locked again"); }
        c => check(one == 2 && c >= 500, "a lock request failed without a reason"),
    }
}
fn h_c18_clock() {
    // the system's clock, which goes on by any amount each time it is read
    let root = repo();
    // (1969, 2023 and 2038)
    clock([-4000i64, 1_700_000_000, (1 << 31) + 5][choice("epoch", 3) as usize] as u64);
    let path = b"a/b";
    let now = || match std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH) { Ok(d) => d.as_secs() as i64, Err(e) => -(e.duration().as_secs() as i64) };
    let run = |m: Mode, r: Rq| session(&root, m, 0o022, None, &mut In::new(&r.0)).one();
    let before = now();
    let y = run(UP, Rq::new().lock(path));
    let after = now();
    check(y.code == 201, "a free path was not locked");
    let l = of_args(&y);
    let at = seconds(&l.at);
    check((before <= at) & (at <= after), "the time of a lock is not that at which it was made");
    let z = run(UP, Rq::new().lock(path));
    check(z.code == 409 && of_args(&z) == l, "a conflict reports the lock differently");
    check(of_list(&run(DOWN, Rq::new().list(&[])))[0].0 == l, "a listing reports the lock differently");
    check(of_args(&run(UP, Rq::new().unlock(&lock_id(path)))) == l, "unlocking reports the lock differently");
    reach("end");
}

fn h_c18_distinct() {
    // different paths are different locks
    let root = repo();
    let a = sym_vec("a", choice("la", 3) as usize);
    let b = sym_vec("b", choice("lb", 3) as usize);
    assume(a != b);
    let l = at(&root, UP, T1, Rq::new().lock(&a).lock(&b)).replies();
    check(l[0].code == 201 && l[1].code == 201, "different paths exclude each other");
    check(of_args(&l[0]).id != of_args(&l[1]).id, "different paths have the same id");
    let x = of_list(&at(&root, DOWN, T1, Rq::new().list(&[])).one());
    check(x.len() == 2 && x[0].0.id < x[1].0.id, "not both locks are listed, in order");
    let u = at(&root, UP, T1, Rq::new().unlock(&lock_id(&a))).one();
    check(u.code == 200 && of_args(&u).path == a, "the wrong lock was released");
    check(record(&root, &a) == None && record(&root, &b) == Some(rec(T1, &b)), "the wrong lock was released");
    reach("end");
}
}

/// Follow the cursors from `start`: the ids of each page.
fn pages(root: &Path, mode: Mode, limit: Option<&[u8]>, start: Option<&[u8]>, most: usize) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut cursor = start.map(|x| x.to_vec());
    loop {
        let mut r = Rq::new().line(b"list-lock", b"");
        if let Some(l) = limit { r = r.line(b"limit=", l); }
        if let Some(c) = &cursor { r = r.line(b"cursor=", c); }
        let y = at(root, mode, T1, r.f()).one();
        let x = of_list(&y);
        for l in &x { check(l.0.id == lock_id(&l.0.path) && l.0.at == T1S, "a lock is listed wrongly"); }
        out.push(x.into_iter().map(|l| l.0.id).collect());
        cursor = y.arg(b"next-cursor").map(|c| c.to_vec());
        check(y.args.len() == cursor.is_some() as usize, "a listing has unknown arguments");
        if cursor.is_none() { return out; }
        if out.len() > most { fail("paging does not come to an end") }
    }
}
fn strays(root: &Path, id: &[u8]) {
    let d = root.join("locks");
    std::fs::write(d.join("0000stray"), b"v1:1:x").unwrap();
    std::fs::write(d.join("zzz"), b"v1:1:x").unwrap();
    std::fs::write(d.join(format!("{}.lock", s(id))), b"v1:1:x").unwrap();
    std::fs::write(d.join(format!("{}aBcDeF.lock", s(id))), b"v1:1:x").unwrap();
    std::fs::write(d.join(s(&oid_of(b"junk"))), b"not a lock").unwrap();
    std::fs::create_dir(d.join(s(&oid_of(b"dir")))).unwrap();
}
harness! {
fn h_c19() {
    // any subset of some locks, any limit, among stray files
    let root = repo();
    let n = param("locks", 4);
    let mut ids: Vec<Vec<u8>> = vec![];
    for i in 0..n { if choice("have", 2) == 1 { ids.push(plant_lock(&root, format!("path{}", i).as_bytes(), "1000684800")); } }
    if choice("strays", 2) == 1 { strays(&root, &lock_id(b"path1")); }
    ids.sort();
    let lim: Option<u64> = match choice("limit", 7) { k if k < 5 => Some(k + 1), 5 => Some(1 << 40), _ => None };
    let lims = lim.map(|l| l.to_string().into_bytes());
    let up = choice("mode", 2) == 1;
    let p = pages(&root, if up { UP } else { DOWN }, lims.as_deref(), None, 6);
    let size = lim.unwrap_or(100).min(100) as usize;
    let all: Vec<Vec<u8>> = p.iter().flatten().cloned().collect();
    check(all == ids, "paging does not yield every lock exactly once, in order");
    for (i, x) in p.iter().enumerate() {
        check(x.len() <= size, "a page is longer than the limit");
        check(i + 1 == p.len() || x.len() == size, "a page is shorter than the limit although more follow");
    }
    check(p.len() == if ids.is_empty() { 1 } else { (ids.len() + size - 1) / size }, "a cursor was returned although nothing follows");
    if p.len() > 1 { reach("pages") } else { reach("one page") }
}

fn h_c19_cursor() {
    // any cursor
    let root = repo();
    let mut ids: Vec<Vec<u8>> = vec![];
    for i in 0..4 { ids.push(plant_lock(&root, format!("path{}", i).as_bytes(), "1000684800")); }
    ids.sort();
    let c = match choice("cursor", 4) {
        0 => sym_vec("cursor", choice("len", 3) as usize),
        1 => ids[choice("which", 4) as usize].clone(),
        2 => { let mut c = ids[choice("which", 4) as usize].clone(); let i = [0usize, 1, 63][choice("at", 3) as usize]; c[i] = sym_u8("digit"); c }
        _ => { let mut c = ids[choice("which", 4) as usize].clone(); c.push(sym_u8("more")); c }
    };
    let lim = [b"1", b"2", b"9"][choice("limit", 3) as usize];
    let p = pages(&root, DOWN, Some(lim), Some(&c), 6);
    let all: Vec<Vec<u8>> = p.iter().flatten().cloned().collect();
    let want: Vec<Vec<u8>> = ids.iter().filter(|i| **i >= c).cloned().collect();
    check(all == want, "a listing does not start at its cursor");
    reach("end");
}

fn h_c19_fault() {
    // the storage fails while locks are listed: a failure is reported, or what could not be read alone is missing
    let root = repo();
    let mut ids: Vec<Vec<u8>> = vec![];
    for i in 0..4 { ids.push(plant_lock(&root, format!("path{}", i).as_bytes(), "1000684800")); }
    ids.sort();
    let up = choice("mode", 2) == 1;
    let broken = choice("broken", 4);
    let d = root.join("locks");
    if broken > 0 { std::fs::remove_dir_all(&d).unwrap(); }
    if broken == 2 { std::fs::write(&d, b"").unwrap(); }
    if broken == 3 { std::os::unix::fs::symlink("nowhere", &d).unwrap(); }
    let mut r = Rq::new().line(b"list-lock", b"");
    let c = if choice("cursor", 2) == 1 { r = r.line(b"cursor=", &ids[1]); 1 } else { 0 };
    let lim = match choice("limit", 2) { 0 => 9, _ => { r = r.line(b"limit=", b"1"); 1 } };
    if broken == 0 { fault(RD | META | DENY); }
    let y = at(&root, if up { UP } else { DOWN }, T1, r.f()).one();
    fault(0);
    if !y.ok() { reach("failed"); check(y.code >= 500, "a failure to list locks is reported as the client's"); } else {
    check(broken == 0, "locks that cannot be read are taken for none");
    let got: Vec<Vec<u8>> = of_list(&y).into_iter().map(|l| l.0.id).collect();
    let most = param("faults", 1) as usize;
    let rest = &ids[c..];
    check(got.windows(2).all(|w| w[0] < w[1]) && got.iter().all(|i| rest.contains(i)) && got.len() <= lim, "a listing has what it must not");
    if lim == 9 { check(got.len() + most >= rest.len(), "locks that can be read are missing from a listing"); }
    else { check(got.len() == 1 && (got[0] == rest[0] || most > 0 && got[0] <= rest[most]), "locks that can be read are missing from a listing"); }
    let next = y.arg(b"next-cursor");
    check(next.is_some() == (lim == 1) || lim == 1 && rest.len() <= most + 1, "a cursor is missing or surplus");
    if let Some(n) = next { check(n > &got[0][..] && rest.iter().any(|i| &i[..] == n), "a cursor is no lock that follows"); }
    reach("listed");
    }
}

fn h_c19_many() {
    // more locks than fit in a page
    let root = repo();
    let n = [99u64, 100, 101, 102, 301, 200, 201, 700][choice("locks", param("many", 5)) as usize];
    let mut ids: Vec<Vec<u8>> = vec![];
    for i in 0..n { ids.push(plant_lock(&root, format!("p{}", i).as_bytes(), "1000684800")); }
    ids.sort();
    let lim: Option<&[u8]> = [None, Some(&b"100"[..]), Some(b"99"), Some(b"101"), Some(b"18446744073709551615")][choice("limit", 5) as usize];
    let p = pages(&root, DOWN, lim, None, 9);
    let size = if lim == Some(b"99") { 99 } else { 100 };
    let all: Vec<Vec<u8>> = p.iter().flatten().cloned().collect();
    check(all == ids, "paging does not yield every lock exactly once, in order");
    for x in &p { check(x.len() <= size, "a page is longer than 100 locks"); }
    check(p.len() as u64 == (n + size as u64 - 1) / size as u64, "a cursor was returned although nothing follows");
    if p.len() > 1 { reach("pages") } else { reach("one page") }
}

fn h_c20() {
    // any query or unlock in a store with any of three locks
    let root = repo();
    let paths: [&[u8]; 3] = [b"one", b"\xff/x", b""];
    let mut held = vec![];
    for i in 0..3 { if choice("have", 2) == 1 { plant_lock(&root, paths[i], "1000684800"); held.push(i); } }
    let p = match choice("path", 5) { 4 => vec![b'p'; param("long", 4096) as usize], 3 => sym_vec("path", 3), k => paths[k as usize].to_vec() };
    let id = match choice("id", 3) { 0 => lock_id(&p), 1 => { let mut v = lock_id(&p); v[63] = sym_u8("digit"); v } _ => p.clone() };
    let mine = held.iter().any(|i| paths[*i] == &p[..]);
    let known = held.iter().find(|i| lock_id(paths[**i]) == id).cloned();
    assume(!id.contains(&b' ') && !id.contains(&b'\n'));
    let before = state(&root);
    match choice("what", 3) {
        0 => {
            let m = if choice("mode", 2) == 1 { UP } else { DOWN };
            let y = at(&root, m, T1, Rq::new().line(b"list-lock", b"").line(b"path=", &p).f()).one();
            if mine { reach("found"); let x = of_list(&y); check(x.len() == 1 && x[0].0.path == p && x[0].0.id == lock_id(&p), "a path query does not return that path's lock alone"); check(y.args.is_empty(), "a path query returned a cursor"); }
            else { reach("not found"); check(y.code == 404, "a path that is not locked was found"); }
            check(state(&root) == before, "a query changed the store");
        }
        1 => {
            // the path query with a cursor before or after it
            let c = match choice("cursor", 5) { 0 => lock_id(&p), 1 => b"0".to_vec(), 2 => b"g".to_vec(), 3 => { let mut v = lock_id(&p); v[63] = sym_u8("end"); v } _ => lock_id(&p)[..sym_u8("length") as usize & 63].to_vec() };
            assume(!c.contains(&b'\n'));
            let y = at(&root, DOWN, T1, Rq::new().line(b"list-lock", b"").line(b"path=", &p).line(b"cursor=", &c).f()).one();
            if mine && lock_id(&p) >= c { reach("beyond"); check(of_list(&y).len() == 1, "a path query does not return that path's lock"); } else { check(y.code == 404, "a path query returned a lock before its cursor"); }
            check(state(&root) == before, "a query changed the store");
        }
        _ => {
            let y = at(&root, UP, T1, Rq::new().unlock(&id)).one();
            match known {
                Some(i) => {
                    reach("released");
                    check(y.code == 200 && of_args(&y).path == paths[i] && of_args(&y).id == id, "unlocking does not report the lock");
                    let k = [b"locks/", &id[..]].concat();
                    let want: Vec<_> = before.into_iter().filter(|x| x.0 != k).collect();
                    check(state(&root) == want, "unlocking changed something else");
                    check(at(&root, UP, T2, Rq::new().lock(paths[i])).one().code == 201, "a released path cannot be locked again");
                }
                None => { reach("unknown"); // an id which is not even text is refused
                    check(y.code == 404 || y.code == 400 && std::str::from_utf8(&id).is_err(), "an id that is not held was not reported as not found"); check(state(&root) == before, "unlocking an unknown id changed the store"); }
            }
        }
    }
}
}
