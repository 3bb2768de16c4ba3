//! Long sessions, long requests, full stores.
use crate::locks::{of_args, of_list};
use crate::srv::*;
use vrt::*;

const T1: i64 = 1_000_684_800;
fn path_of(i: usize) -> Vec<u8> { format!("dir/p{}", i).into_bytes() }
fn ascii(n: usize) -> Vec<u8> { n.to_string().into_bytes() }
fn body(i: usize) -> Vec<u8> { format!("content {}", i).into_bytes() }

harness! {
fn h_c08_many() {
    // long batches over a full store, one object of which is arbitrary
    let root = repo();
    let n = [63usize, 100, 101, 257, 1025, 128, 4097][choice("lines", param("lengths", 5)) as usize];
    let at = [0usize, n / 2, n - 1][choice("at", 3) as usize];
    let data = b"the one which may be there".to_vec();
    let digit = sym_u8("digit");
    assume(digit >= b'0' && digit <= b'9');
    let there = choice("have", 2) == 1;
    let up = choice("mode", 2) == 0;
    let mut rq = Rq::new().line(b"batch", b"").d();
    let mut want: Vec<u8> = vec![];
    for i in 0..n {
        let b = if i == at { data.clone() } else { body(i) };
        let oid = oid_of(&b);
        let have = if i == at { there } else { i % 3 == 0 };
        if have { plant(&root, &oid, &b); }
        let mut size = ascii(1000 + i);
        if i == at { size[3] = digit; }
        rq = rq.line(&oid, &[b" ", &size[..]].concat());
        want.extend_from_slice(&oid);
        want.push(b' ');
        want.extend_from_slice(&if have { ascii(b.len()) } else { size });
        want.extend_from_slice(if have == up { b" noop\n" } else if up { b" upload\n" } else { b" download\n" });
    }
    let y = serve(&root, if up { UP } else { DOWN }, &rq.f().0).one();
    check(y.code == 200 && y.data.len() == n, "not one line for each object");
    check(y.joined() == want, "the batch reply does not tell the true state of the objects, in order");
    reach("end");
}

fn h_c12_many() {
    // a long session: each request gets its reply, whatever came before it
    let root = repo();
    let n = param("requests", 300) as usize;
    let odd = [0usize, 1, n / 2, n - 1][choice("at", 4) as usize];
    let mut rq = Rq::new();
    let mut oids = vec![];
    for i in 0..n {
        let b = body(i / 8);
        let oid = oid_of(&b);
        rq = if i == odd { let v = sym_vec("command", 2); rq.p(&v).f() } else { match i % 8 {
            0 => rq.put(&oid, &b.len().to_string(), &b),
            1 => rq.verify(&oid, &b.len().to_string()),
            2 => rq.lock(&path_of(i / 8)),
            3 => rq.lock(&path_of(i / 8)),
            4 => rq.line(b"batch", b"").d().line(&oid, b" 7").f(),
            5 => rq.unlock(&lock_id(&path_of(i / 8))),
            6 => rq.put(&oid, "1", &b),
            _ => rq.list(&[b"limit=1"]),
        } };
        oids.push(oid);
    }
    let ran = session(&root, UP, 0o022, Some(T1), &mut In::new(&rq.quit().0));
    check(ran.ok, "the session ended with an error although all packets are well-formed");
    let l = ran.replies();
    check(l.len() == n + 1, "not exactly one reply for each request");
    for i in 0..n {
        let y = &l[i];
        // (what follows the odd request, up to the end of its group of eight, may depend on it)
        if i == odd { check(!y.ok(), "a senseless request was accepted"); continue; }
        if i / 8 == odd / 8 { continue; }
        let p = path_of(i / 8);
        let good = match i % 8 {
            0 | 1 => y.code == 200 && y.args.is_empty(),
            2 => y.code == 201 && of_args(y).path == p,
            3 => y.code == 409 && of_args(y).path == p,
            4 => y.code == 200 && y.joined() == [&oids[i][..], b" ", body(i / 8).len().to_string().as_bytes(), b" noop\n"].concat(),
            5 => y.code == 200 && of_args(y).id == lock_id(&p),
            6 => y.code >= 400,
            _ => y.code == 200,
        };
        if !good { note(&format!("request {}, status {}", i, y.code)); }
        check(good, "a request is answered differently late in a session");
    }
    check(l[n].code == 200, "quit was refused");
    reach("end");
}

fn h_c14_long() {
    // a long upload, cut off where packets, buffers and the content end
    let root = repo();
    let n = [8192usize, 65516, 65517, 131032, 140000][choice("long", 5) as usize];
    let mut d = vec![b'q'; n];
    d[n - 1] = sym_u8("last");
    let before = state(&root);
    let rq = Rq::new().put(&oid_of(&d), &n.to_string(), &d).0;
    let head = Rq::new().line(b"put-object ", &[b'a'; 64]).line(b"size=", n.to_string().as_bytes()).d().0.len();
    let l = rq.len();
    let cut = match choice("cut", 12) { 0 => l - 1, 1 => l - 4, 2 => l - 5, 3 => head, 4 => head + 4, 5 => head + 4 + 8191, 6 => head + 4 + 8192, 7 => head + 65519, 8 => head + 65520, 9 => head + 65521, 10 => head + 65524, _ => head + 65540 };
    if cut >= l { exit(0) }
    let mut i = In::new(&rq[..cut]);
    i.chunk = [usize::MAX, 8192, 4096][choice("chunk", 3) as usize];
    let ran = session(&root, UP, 0o022, Some(T1), &mut i);
    check(state(&root) == before, "a request which was cut off changed the store");
    check(empty_dir(&root.join("incomplete")), "an upload which was cut off left a temporary file");
    for y in ran.replies() { check(!y.ok(), "a request which was cut off was reported as successful"); }
    reach("end");
}

fn h_c18_long() {
    // long paths: everything about their locks, and that those which differ in one byte are different
    let root = repo();
    let n = [63usize, 64, 128, 254, 255, 256, 257, 1024, 4095, 4096, 4097, 8192, 8193, 32768, 65444, 65445][choice("length", 16) as usize];
    let mut a = vec![b'p'; n];
    let i = [0usize, n / 2, n - 1][choice("at", 3) as usize];
    let mut b = a.clone();
    a[i] = sym_u8("one");
    b[i] = sym_u8("other");
    let req = |p: &[u8]| Rq::new().line(b"lock", b"").line(b"path=", p).line(b"refname=", b"refs/heads/main").f();
    let r = session(&root, UP, 0o022, Some(T1), &mut In::new(&req(&a).raw(&req(&b).0).0)).replies();
    check(r.len() == 2 && r[0].code == 201, "a free path was not locked");
    let l = of_args(&r[0]);
    check(l.path == a && l.id == lock_id(&a), "the lock created is reported wrongly");
    if a == b {
        reach("same");
        check(r[1].code == 409 && of_args(&r[1]) == l, "a path that is held was locked again");
    } else {
        reach("different");
        check(r[1].code == 201 && of_args(&r[1]).path == b, "different paths exclude each other");
        let u = session(&root, UP, 0o022, Some(T1), &mut In::new(&Rq::new().unlock(&lock_id(&b)).0)).one();
        check(u.code == 200 && of_args(&u).path == b, "unlocking reports the lock differently");
    }
    let x = of_list(&session(&root, DOWN, 0o022, Some(T1), &mut In::new(&Rq::new().list(&[]).0)).one());
    check(x.len() == 1 && x[0].0 == l, "a listing reports the lock differently");
}

fn h_c20_many() {
    // many locks: each is found by its path, and released alone
    let root = repo();
    let n = param("locks", 150) as usize;
    let mut ids = vec![];
    for i in 0..n { ids.push(plant_lock(&root, &path_of(i), "1000684800")); }
    let i = choice("which", n as u64 + 1) as usize;
    let p = path_of(i);
    let mut rq = Rq::new().line(b"list-lock", b"").line(b"path=", &p).f().unlock(&lock_id(&p)).lock(&p);
    if choice("cursor", 2) == 1 { rq = Rq::new().line(b"list-lock", b"").line(b"path=", &p).line(b"cursor=", &lock_id(&p)).f().unlock(&lock_id(&p)).lock(&p); }
    let l = session(&root, UP, 0o022, Some(T1), &mut In::new(&rq.0)).replies();
    check(l.len() == 3, "not exactly one reply for each request");
    if i < n {
        reach("held");
        let x = of_list(&l[0]);
        check(x.len() == 1 && x[0].0.path == p && l[0].args.is_empty(), "a path query does not return that path's lock alone");
        check(l[1].code == 200 && of_args(&l[1]).path == p, "unlocking does not report the lock");
    } else {
        reach("free");
        check(l[0].code == 404 && l[1].code == 404, "a lock that is not held was found");
    }
    check(l[2].code == 201, "a released path cannot be locked again");
    check(names(&root.join("locks")).len() == n + (i == n) as usize, "unlocking changed something else");
}
}
