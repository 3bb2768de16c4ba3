//! C27: which status a failure is reported with.
use crate::proto::{world, World};
use crate::srv::*;
use vrt::*;

fn other_id(w: &World) -> Vec<u8> { let mut v = w.oid.clone(); let i = choice("at", 3) as usize * 31; v[i] = sym_u8("digit"); v }
fn valid(b: &[u8]) -> bool { b.len() == 64 && b.iter().all(|c| (*c >= b'0' && *c <= b'9') || (*c >= b'a' && *c <= b'f')) }

harness! {
fn h_c27_client() {
    // every kind of mistake a client can make
    let w = world();
    let before = w.state();
    let d = [sym_u8("a"), sym_u8("b")];
    let id = oid_of(&d);
    let what = choice("what", 12);
    let mut up = true;
    let r = match what {
        // bad ids
        0 | 1 => {
            let bad = match choice("id", 6) { 0 => vec![], 1 => sym_vec("id", 2), 2 => w.oid[..63].to_vec(), 3 => [&w.oid[..], b"0"].concat(), 4 => { let b = other_id(&w); assume(!valid(&b)); b } _ => w.oid.to_ascii_uppercase() };
            assume(!bad.contains(&b' ') && !bad.contains(&b'\n'));
            if what == 0 { Rq::new().put(&bad, "2", &d) } else { match choice("get", 3) { 0 => { up = false; Rq::new().get(&bad) } 1 => Rq::new().verify(&bad, "2"), _ => { up = choice("mode", 2) == 1; Rq::new().line(b"batch", b"").d().line(&w.oid, b" 1").line(&bad, b" 2").f() } } }
        }
        // bad numbers
        2 => {
            let bad: Vec<u8> = match choice("number", 6) { 0 => sym_vec("n", 1), 1 => sym_vec("n", 2), 2 => b"18446744073709551616".to_vec(), 3 => b"-1".to_vec(), 4 => vec![], _ => b"0x2".to_vec() };
            assume(dec(&bad).is_none() && !bad.contains(&b'\n') && !bad.contains(&b' '));
            match choice("where", 4) {
                0 => Rq::new().line(b"put-object ", &id).line(b"size=", &bad).d().p(&d).f(),
                1 => Rq::new().line(b"verify-object ", &w.oid).line(b"size=", &bad).f(),
                2 => { up = choice("mode", 2) == 1; Rq::new().line(b"list-lock", b"").line(b"limit=", &bad).f() }
                _ => { up = choice("mode", 2) == 1; assume(!bad.is_empty()); Rq::new().line(b"batch", b"").d().p(&[&w.oid[..], b" ", &bad[..], b"\n"].concat()).f() }
            }
        }
        // the wrong size
        3 => { let n = sym_u8("size"); assume(n != 2); Rq::new().put(&id, &dec_of(n), &d) }
        // the wrong content
        4 => { let e = [sym_u8("c"), sym_u8("d")]; assume(d != e); Rq::new().put(&id, "2", &e) }
        // another hash algorithm
        5 => { up = choice("mode", 2) == 1; let a = match choice("algo", 3) { 0 => sym_vec("algo", 2), 1 => b"sha512".to_vec(), _ => b"sha256 ".to_vec() }; assume(!a.contains(&b'\n')); Rq::new().line(b"batch", b"").line(b"hash-algo=", &a).d().line(&w.oid, b" 28").f() }
        // missing values
        6 => match choice("missing", 5) {
            0 => Rq::new().line(b"put-object ", &id).d().p(&d).f(),
            1 => Rq::new().line(b"verify-object ", &w.oid).f(),
            2 => Rq::new().line(b"lock", b"").line(b"path=", b"new").f(),
            3 => Rq::new().line(b"lock", b"").line(b"refname=", b"new").f(),
            _ => Rq::new().line(b"put-object ", &id).line(b"size=", b"2").f(),
        },
        // repeated ones
        7 => match choice("twice", 3) {
            0 => Rq::new().line(b"put-object ", &id).line(b"size=", b"2").line(b"size=", b"2").d().p(&d).f(),
            1 => Rq::new().line(b"verify-object ", &w.oid).line(b"size=", b"28").line(b"size=", b"28").f(),
            _ => { up = choice("mode", 2) == 1; Rq::new().line(b"list-lock", b"").line(b"limit=", b"1").line(b"limit=", b"2").f() }
        },
        // unknown commands and versions
        8 => { up = choice("mode", 2) == 1; Rq::new().line([&b"nonsense"[..], b"version", b"version 2", b"get-object", b"put-object", b"unlock", b"batch x", b"lock x"][choice("command", 8) as usize], b"").f() }
        9 => { up = choice("mode", 2) == 1; Rq::new().line(b"list-lock", b"").line(b"limit=", b"0").f() }
        // requests of the other kind of session
        10 => match choice("forbidden", 4) { 0 => Rq::new().get(&w.oid), k => { up = false; match k { 1 => Rq::new().put(&id, "2", &d), 2 => Rq::new().verify(&w.oid, "28"), _ => Rq::new().lock(b"new") } } },
        // what is not there
        _ => match choice("absent", 5) {
            0 => { up = false; let o = other_id(&w); assume(valid(&o) && o != w.oid); Rq::new().get(&o) }
            1 => { let o = other_id(&w); assume(valid(&o) && o != w.oid); Rq::new().verify(&o, "28") }
            2 => { let o = other_id(&w); assume(valid(&o) && o != w.lock); Rq::new().unlock(&o) }
            3 => { let p = sym_vec("path", 2); up = choice("mode", 2) == 1; Rq::new().line(b"list-lock", b"").line(b"path=", &p).f() }
            _ => Rq::new().unlock(b"zz"),
        },
    };
    let y = serve(&w.root, if up { UP } else { DOWN }, &r.0).one();
    match what {
        10 => { reach("forbidden"); check(y.code == 403 || y.code == 400, "a request of the other kind of session is not reported as such"); }
        11 => { reach("absent"); check(y.code == 404, "an absent object or lock is not reported as such"); }
        _ => { reach("mistake"); check(y.code == 400, "a mistake of the client is not reported as such"); }
    }
    check(w.state() == before, "a failed request changed the store");
}

fn h_c27_denied() {
    // a lock that may not be removed (one that may not even be read is another matter)
    let w = world();
    let before = w.state();
    fault(META | DENIED);
    let x = serve(&w.root, UP, &Rq::new().unlock(&w.lock).0);
    fault(0);
    let y = x.one();
    if w.state() == before { reach("denied"); check(y.code == 403, "a lock that may not be removed is not reported as such"); }
    else { reach("removed"); check(y.code == 200, "a lock that was removed is not reported as such"); }
}
fn h_c27_listing() {
    // more locks than failures: some are listed, or it is a failure
    let root = repo();
    let n = param("faults", 1) + 1;
    for i in 0..n { plant_lock(&root, format!("p{}", i).as_bytes(), "1000684800"); }
    fault(WR | META | RD | DENY);
    let x = serve(&root, if choice("mode", 2) == 1 { UP } else { DOWN }, &Rq::new().list(&[]).0);
    fault(0);
    let y = x.one();
    if y.code == 200 { reach("listed"); check(!y.data.is_empty(), "the locks could not be listed, which is reported as success"); }
    else { reach("failure"); check(y.code == 500, "a failure of the storage is reported as something else"); }
}
fn h_c27_storage() {
    // any operation of the storage fails
    let w = world();
    let d = if choice("size", 2) == 0 { sym_vec("data", 2) } else { vec![b'q'; 9000] };
    let id = oid_of(&d);
    let path: &[u8] = [&b"held/path"[..], b"new/path"][choice("path", 2) as usize];
    let lock = lock_id(path);
    let mut absent = w.oid.clone();
    absent[63] ^= 1;
    let there = choice("there", 2) == 1;
    let o = if there { &w.oid } else { &absent };
    let what = choice("what", 9);
    let (up, r) = match what {
        0 => (true, Rq::new().put(&id, &d.len().to_string(), &d)),
        1 => (true, Rq::new().verify(o, "28")),
        2 => (true, Rq::new().verify(o, "29")),
        3 => (false, Rq::new().get(o)),
        4 => (choice("mode", 2) == 1, Rq::new().line(b"batch", b"").d().line(o, b" 5").f()),
        5 => (true, Rq::new().lock(path)),
        6 => (true, Rq::new().unlock(&lock)),
        7 => (choice("mode", 2) == 1, Rq::new().line(b"list-lock", b"").f()),
        _ => (choice("mode", 2) == 1, Rq::new().line(b"list-lock", b"").line(b"path=", path).f()),
    };
    let m = if up { UP } else { DOWN };
    // the same request without a failure, in another process
    let mut slot = Slot::new();
    spawn(&mut slot, |s| { let root = w.root.parent().unwrap().join("twin"); copy(&w.root, &root); session_to(&root, m, &r.0, s); });
    wait();
    let want = slot.replies().remove(0);
    fault(WR | META | RD | DENY);
    let x = serve(&w.root, m, &r.0);
    fault(0);
    if !x.ok { // the content could not be sent to its end: there is no complete reply
        check(what == 3, "a failure of the storage ended the session");
        check(replies(&x.out).is_none(), "the content was cut short, but the reply is complete");
        reach("cut short");
        exit(0)
    }
    let y = x.one();
    if y.code == 500 { reach("failure"); return_ok(&w, what, &id) }
    if y.code == 403 { reach("denied"); check(what == 6, "a failure of the storage is reported as the client's"); return_ok(&w, what, &id) }
    check(y.code == want.code, "a failure of the storage is reported as something else");
    if y.code < 300 { reach("success") } else { reach("refused") }
    match what {
        5 | 6 => { for k in [&b"id"[..], b"path", b"locked-at"] { check(y.arg(k) == want.arg(k), "a failure of the storage changed what is reported"); } check(w.state() == state(&w.root.parent().unwrap().join("twin")) || left_over(&w), "success was reported without its effect"); }
        7 | 8 => (), // (a record which cannot be read is not listed)
        _ => { check(y.args == want.args && y.data == want.data, "a failure of the storage changed what is reported"); check(w.state() == state(&w.root.parent().unwrap().join("twin")), "success was reported without its effect"); }
    }
}
}
/// A failed removal of a temporary lock file cannot be helped.
fn left_over(w: &World) -> bool { let t = state(&w.root.parent().unwrap().join("twin")); w.state().iter().filter(|x| x.0.len() == 70).eq(t.iter().filter(|x| x.0.len() == 70)) }
fn return_ok(w: &World, what: u64, id: &[u8]) -> ! {
    if what == 0 { check(content(&w.root, id).is_none(), "a failed upload left an object"); }
    exit(0)
}
fn copy(a: &std::path::Path, b: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    std::fs::create_dir(b).unwrap();
    for (n, c) in tree(a) { let p = b.join(std::ffi::OsStr::from_bytes(&n)); match c { None => std::fs::create_dir_all(p).unwrap(), Some(c) => { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, c).unwrap() } } }
}
fn dec_of(n: u8) -> String {
    let mut v = vec![];
    if n >= 100 { v.push(b'0' + n / 100); }
    if n >= 10 { v.push(b'0' + n / 10 % 10); }
    v.push(b'0' + n % 10);
    unsafe { String::from_utf8_unchecked(v) }
}
