//! C04-C09: the object store.
use crate::srv::*;
use vrt::*;

/// An object's content: few arbitrary bytes, or long with arbitrary bytes where copy buffers and packets end.
fn some_content(maxlen: u64) -> Vec<u8> {
    let n = choice("len", maxlen + 1) as usize;
    sym_vec("data", n)
}
fn long_content(name: &str) -> Vec<u8> {
    let n = [8191usize, 8192, 8193, 65515, 65516, 65517, 73700, 1 << 20][choice("long", param("sizes", 7)) as usize];
    let mut d = vec![b'q'; n];
    let mut e = [0u8; 2];
    sym(name, &mut e);
    // (arbitrary bytes towards the end, so that little of the hash is symbolic)
    d[n - 1] = e[0];
    d[n - 2] = e[1];
    d
}
/// Send `data` in packets of the given sizes, the rest in one.
fn put_split(oid: &[u8], size: &[u8], data: &[u8], cuts: &[usize]) -> Rq {
    let mut r = Rq::new().line(b"put-object ", oid).line(b"size=", size).d();
    let mut at = 0;
    for c in cuts { let e = (at + c).min(data.len()); r = r.p(&data[at..e]); at = e; }
    for c in data[at..].chunks(65516) { r = r.p(c); }
    r.f()
}
fn ascii(n: usize) -> Vec<u8> { n.to_string().into_bytes() }

harness! {
fn h_c04() {
    // arbitrary content, id, declared size and packetisation, over any earlier store content
    let root = repo();
    let data = some_content(param("maxlen", 2));
    let right = oid_of(&data);
    let what = choice("what", 4);
    let oid = match what {
        1 => oid_of(&some_content(param("maxlen", 2))), // the id of some content, perhaps this one
        2 => { let mut o = right.clone(); let i = [0usize, 1, 33, 63][choice("at", 4) as usize]; o[i] = sym_u8("digit"); o }
        _ => right.clone(),
    };
    let size = match what { 3 => match choice("size", 2) { 0 => sym_vec("digits", 1), _ => sym_vec("digits", 2) }, _ => ascii([data.len(), data.len() + 1, 0][choice("size", 3) as usize]) };
    assume(!size.iter().any(|c| *c == b'\n'));
    let before = match choice("before", 2 + (what == 0) as u64) { 0 => None, 1 => Some(b"old".to_vec()), _ => Some(data.clone()) };
    let valid = oid.iter().all(|c| (*c >= b'0' && *c <= b'9') || (*c >= b'a' && *c <= b'f'));
    if let (true, Some(b)) = (valid, &before) { plant(&root, &oid, b); }
    let cut = if what == 0 { choice("cut", data.len() as u64 + 2) as usize } else { data.len() + 1 };
    let rq = put_split(&oid, &size, &data, &if cut > data.len() { vec![] } else { vec![cut, 0] });
    let want = valid && dec(&size) == Some(data.len() as u64) && oid == right;
    let y = serve(&root, UP, &rq.0).one();
    if want {
        reach("stored");
        check(y.code == 200, "a correct upload was refused");
        check(content(&root, &oid) == Some(data), "the stored object is not the content that was sent");
    } else {
        reach("refused");
        check(!y.ok(), "an upload was accepted whose size or content does not match");
        if valid { check(content(&root, &oid) == before, "a refused upload changed the store"); } else { check(nobjects(&root) == 0, "a refused upload stored something"); }
        if oid != right { check(content(&root, &right) == None, "a refused upload stored the object under another id"); }
    }
    check(empty_dir(&root.join("incomplete")), "a partial upload was left behind");
}

fn h_c04_long() {
    // long contents, whole or with one byte more or less, and a size around the true one
    let root = repo();
    let data = long_content("edge");
    let sent = match choice("sent", 3) {
        0 => data.clone(),
        1 => data[..data.len() - 1].to_vec(),
        _ => { let mut v = data.clone(); v.push(sym_u8("more")); v }
    };
    let size = [data.len() as u64, sent.len() as u64, data.len() as u64 + (1 << 32), 0][choice("size", 4) as usize];
    let oid = oid_of(&data);
    let last = [data.len() - 1];
    let cuts: &[usize] = [&[][..], &[1][..], &[8192, 0, 8192][..], &last[..]][choice("cuts", 4) as usize];
    if cuts.iter().any(|c| *c > 65516) { exit(0) }
    let y = serve(&root, UP, &put_split(&oid, size.to_string().as_bytes(), &sent, cuts).0).one();
    if sent == data && size == data.len() as u64 {
        reach("stored");
        check(y.code == 200, "a correct upload was refused");
        check(content(&root, &oid) == Some(data), "the stored object is not the content that was sent");
    } else {
        reach("refused");
        check(!y.ok(), "an upload was accepted whose size or content does not match");
        check(nobjects(&root) == 0, "a refused upload changed the store");
    }
    check(empty_dir(&root.join("incomplete")), "a partial upload was left behind");
}

fn h_c07() {
    // download of any object, present or not, in a store with another object
    let root = repo();
    let data = if choice("short", 2) == 0 { some_content(4) } else { long_content("edge") };
    let oid = oid_of(&data);
    plant(&root, &oid, &data);
    let other = b"another one".to_vec();
    plant(&root, &oid_of(&other), &other);
    // any id: of this object, or any other (perhaps equal)
    let ask = match choice("ask", 3) { 0 => oid.clone(), 1 => { let mut o = oid.clone(); let i = [0usize, 63][choice("at", 2) as usize]; o[i] = b"0123456789abcdef"[choice("digit", 16) as usize]; o } _ => oid_of(b"absent") };
    let y = serve(&root, DOWN, &Rq::new().get(&ask).0).one();
    if ask == oid_of(&other) { exit(0) }
    if ask == oid {
        reach("present");
        check(y.code == 200, "a present object was not returned");
        check(y.arg(b"size") == Some(&ascii(data.len())[..]), "a wrong size was reported");
        check(y.has_data && y.joined() == data, "the data returned is not the stored content");
    } else {
        reach("absent");
        check(y.code == 404, "an absent object must be reported as not found");
    }
    check(content(&root, &oid) == Some(data) && nobjects(&root) == 2, "a download changed the store");
}

fn h_c07_both() {
    // what was uploaded is what is downloaded and verified later, over several sessions
    let root = repo();
    let a = some_content(3);
    let b = sym_vec("second", 2);
    for x in [&a, &b] { check(serve(&root, UP, &Rq::new().put(&oid_of(x), &x.len().to_string(), x).0).one().code == 200, "upload"); }
    let l = serve(&root, DOWN, &Rq::new().get(&oid_of(&a)).get(&oid_of(&b)).get(&oid_of(b"absent")).0).replies();
    check(l.len() == 3, "one reply for each request");
    check(l[0].code == 200 && l[0].joined() == a && l[0].arg(b"size") == Some(&ascii(a.len())[..]), "the first object came back different");
    check(l[1].code == 200 && l[1].joined() == b && l[1].arg(b"size") == Some(&ascii(b.len())[..]), "the second object came back different");
    check(l[2].code == 404, "absent");
    reach("end");
}

fn h_c08() {
    // any list of objects, present and absent, repeated or not, in both kinds of session
    let root = repo();
    let k = choice("items", param("items", 3) + 1) as usize;
    let objs: Vec<Vec<u8>> = vec![sym_vec("data", 2 * choice("len", 2) as usize), b"ab".to_vec(), b"absent".to_vec()];
    let have = [choice("have0", 2) == 1, choice("have1", 2) == 1, false];
    for i in 0..2 { if have[i] { plant(&root, &oid_of(&objs[i]), &objs[i]); } }
    let before = state(&root);
    let up = choice("mode", 2) == 0;
    let mut rq = Rq::new().line(b"batch", b"");
    match if k == 1 { choice("args", 3) } else { 1 } { 0 => (), 1 => rq = rq.line(b"hash-algo=", b"sha256"), _ => rq = rq.line(b"transfer=", b"ssh").line(b"hash-algo=", b"sha256").line(b"refname=", b"refs/heads/main") }
    rq = rq.d();
    let mut want: Vec<u8> = vec![];
    for _ in 0..k {
        let i = choice("which", 3) as usize;
        let oid = oid_of(&objs[i]);
        let size: Vec<u8> = match choice("size", if k < 3 { 3 } else { 1 }) {
            0 => { let d = sym_u8("digit"); assume(d >= b'0' && d <= b'9'); vec![b'1', d] }
            1 => b"18446744073709551615".to_vec(),
            _ => b"0".to_vec(),
        };
        rq = rq.line(&[&oid[..], b" "].concat(), &size);
        want.extend_from_slice(&oid);
        want.push(b' ');
        // the first two may be the same object
        let present = (0..2).find(|j| have[*j] && objs[*j] == objs[i]);
        match present { Some(_) => want.extend_from_slice(&ascii(objs[i].len())), None => want.extend_from_slice(&size) }
        want.extend_from_slice(match (up, present.is_some()) { (true, true) => b" noop\n", (true, false) => b" upload\n", (false, true) => b" download\n", (false, false) => b" noop\n" });
    }
    let y = serve(&root, if up { UP } else { DOWN }, &rq.f().0).one();
    check(y.code == 200, "a batch request was refused");
    check(y.joined() == want, "the batch reply does not tell the true state of the objects, in order");
    for l in &y.data { check(l[l.len() - 1] == b'\n' && !l[..l.len() - 1].contains(&b'\n'), "one line for each packet"); }
    check(y.data.len() == k, "one line for each object");
    check(state(&root) == before, "a batch request changed the store");
    reach("end");
}

fn h_c09() {
    let root = repo();
    let n = choice("len", 3) as usize;
    let data = sym_vec("data", n);
    let oid = oid_of(&data);
    let other = b"zz9".to_vec();
    let have = choice("have", 2) == 1;
    if have { plant(&root, &oid, &data); }
    plant(&root, &oid_of(&other), &other);
    let before = state(&root);
    let mut rq = Rq::new().line(b"verify-object ", &oid);
    let size: Option<Vec<u8>> = match choice("size", 7) {
        0 => Some(sym_vec("digits", 1)), 1 => { let d = sym_vec("digits", 2); assume(n == 0 || d.iter().all(|c| *c < 128)); Some(d) } 2 => Some(b"18446744073709551615".to_vec()),
        3 => Some(b"1844674407370955161".iter().cloned().chain([b'6' + n as u8]).collect()), // 2^64 + n
        4 => Some(((1u64 << 32) + n as u64).to_string().into_bytes()), 5 => { let d = sym_vec("digits", 3); assume(d.iter().all(|c| *c >= b'0' && *c <= b'9')); Some(d) } _ => None };
    if let Some(x) = &size { assume(!x.contains(&b'\n')); rq = rq.line(b"size=", x); }
    let y = serve(&root, UP, &rq.f().0).one();
    match (size.and_then(|x| dec(&x)), have) {
        (None, _) => { reach("bad"); check(!y.ok(), "verified without a valid size"); }
        (Some(_), false) => { reach("absent"); check(y.code == 404, "an absent object must be reported as not found"); }
        (Some(k), true) if k == n as u64 => { reach("same"); check(y.code == 200, "a stored object of the stated size was not verified"); }
        _ => { reach("differs"); check(y.code == 409, "a size that differs must be reported as a conflict"); }
    }
    check(state(&root) == before, "a verify request changed the store");
}
}

harness! {
fn h_c05_crash() {
    // killed at any file system operation of a session with two uploads
    let root = repo();
    let a = sym_vec("data", choice("len", 3) as usize);
    let b = if param("long", 0) == 1 { vec![b'q'; 8193] } else { b"second".to_vec() };
    let (ia, ib) = (oid_of(&a), oid_of(&b));
    let before = match choice("before", 3) { 0 => None, 1 => Some(b"old".to_vec()), _ => Some(a.clone()) };
    if let Some(x) = &before { plant(&root, &ia, x); }
    let mut slot = Slot::new();
    spawn(&mut slot, |s| {
        crash(true);
        session_to(&root, UP, &Rq::new().put(&ia, &a.len().to_string(), &a).put(&ib, &b.len().to_string(), &b).0, s);
        crash(false);
    });
    wait();
    let done = match replies(&slot.out()) { Some(l) => l.len(), None => 0 };
    let now = content(&root, &ia);
    check(now == before || now == Some(a.clone()), "a crash left an object with bad content");
    let nowb = content(&root, &ib);
    check(nowb == None || nowb == Some(b.clone()), "a crash left an object with bad content");
    if done >= 1 { check(now == Some(a.clone()), "success was reported before the object was in place"); }
    if done >= 2 { check(nowb == Some(b.clone()), "success was reported before the object was in place"); }
    if slot.finished() { reach("survived"); check(done == 2, "two replies"); check(empty_dir(&root.join("incomplete")), "a temporary file was left behind"); }
    else if done == 0 { reach("killed early") } else { reach("killed late") }
    // whatever was left behind, the upload can be repeated
    check(serve(&root, UP, &Rq::new().put(&ia, &a.len().to_string(), &a).0).one().code == 200, "an upload after a crash was refused");
    let y = serve(&root, DOWN, &Rq::new().get(&ia).0).one();
    check(y.code == 200 && y.joined() == a, "after a crash and another upload the object is not right");
}

fn h_c05_fault() {
    // any file system operation fails, or reads and writes are cut short
    let root = repo();
    let good = choice("good", 2) == 1;
    let a = if choice("kind", 2) == 0 { sym_vec("data", 2) } else { vec![b'q'; 8193] };
    let ia = oid_of(&a);
    let mut sent = a.clone();
    if !good { sent.pop(); }
    let before = match choice("before", 3) { 0 => None, 1 => Some(b"old".to_vec()), _ => Some(a.clone()) };
    if let Some(x) = &before { plant(&root, &ia, x); }
    let max = param("faults", 1);
    fault(WR | META | RD | DENY | SHORT);
    let y = serve(&root, UP, &Rq::new().put(&ia, &a.len().to_string(), &sent).0).one();
    fault(0);
    let now = content(&root, &ia);
    if y.ok() {
        reach("accepted");
        check(good, "an incomplete upload was accepted");
        check(now == Some(a), "success was reported but the object is not in place");
    } else {
        if y.code == 500 { reach("failed"); } else { reach("refused"); check(!good, "a failure of the storage is reported as the client's"); }
        check(now == before, "a failed upload changed the object");
    }
    // (when it is the removal of the temporary file that fails, nothing more can be done)
    if max == 1 && good { check(empty_dir(&root.join("incomplete")), "a temporary file was left behind"); }
}

fn h_c06_uploads() {
    // two concurrent uploads of one object, each followed by a download
    let root = repo();
    let a = sym_vec("data", 2);
    let ia = oid_of(&a);
    // the other one may send something else under that id
    let bad = choice("bad", 2) == 1;
    let b = if bad { sym_vec("other", 2) } else { a.clone() };
    assume(!bad || a != b);
    if choice("before", 2) == 1 { plant(&root, &ia, &a); }
    let mut s1 = Slot::new();
    let mut s2 = Slot::new();
    spawn(&mut s1, |s| {
        sched(true);
        session_to(&root, UP, &Rq::new().put(&ia, "2", &a).0, s);
        session_to(&root, DOWN, &Rq::new().get(&ia).0, s);
        sched(false);
    });
    spawn(&mut s2, |s| { sched(true); session_to(&root, UP, &Rq::new().put(&ia, "2", &b).0, s); sched(false); });
    wait();
    wait();
    let (x, y) = (s1.replies(), s2.replies());
    check(x[0].code == 200, "a correct upload was refused");
    check(x[1].code == 200 && x[1].joined() == a && x[1].arg(b"size") == Some(b"2"), "a download after a successful upload does not return the object");
    check(bad != (y[0].code == 200), "the wrong uploads were accepted");
    check(content(&root, &ia) == Some(a), "the object is not right in the end");
    check(empty_dir(&root.join("incomplete")), "a temporary file was left behind");
    if bad { reach("bad") } else { reach("good") }
}

fn h_c06_reader() {
    // an upload against downloads, batch and verify requests
    let root = repo();
    let a = if choice("kind", 2) == 0 { sym_vec("data", 2) } else { vec![b'q'; 8193] };
    let (ia, n) = (oid_of(&a), a.len().to_string());
    let before = choice("before", 2) == 1;
    if before { plant(&root, &ia, &a); }
    let mut s1 = Slot::new();
    let mut s2 = Slot::new();
    spawn(&mut s1, |s| { sched(true); session_to(&root, UP, &Rq::new().put(&ia, &n, &a).0, s); sched(false); });
    let what = choice("what", 3);
    let long = a.len() > 1000;
    spawn(&mut s2, |s| {
        sched(true);
        match what {
            0 => { let r = session(&root, DOWN, 0o022, Some(NOW), &mut In::new(&Rq::new().get(&ia).0)).one(); s.put(&[(r.code == 200) as u8, (r.code == 404) as u8, (r.joined() == a) as u8, (r.arg(b"size") == Some(n.as_bytes())) as u8]); }
            1 => { let r = serve(&root, UP, &Rq::new().verify(&ia, &n).0).one(); s.put(&[(r.code == 200) as u8, (r.code == 404) as u8, 1, 1]); }
            _ => {
                let r = serve(&root, DOWN, &Rq::new().line(b"batch", b"").d().line(&ia, b" 77").f().0).one();
                let l = |x: &str| [&ia[..], x.as_bytes(), b"\n"].concat();
                s.put(&[(r.joined() == l(&format!(" {} download", n))) as u8, (r.joined() == l(" 77 noop")) as u8, 1, 1]);
            }
        }
        sched(false);
    });
    wait();
    wait();
    check(s1.replies()[0].code == 200, "a correct upload was refused");
    let r = s2.out();
    check(s2.finished() && r.len() == 4, "the other session did not come to its end");
    if r[0] == 1 { if long { reach("long") } else { reach("present") } check(r[2] == 1 && r[3] == 1, "a concurrent download got something else than the complete object"); }
    else { reach("absent"); check(r[1] == 1, "a concurrent request got neither the object nor not-found"); check(!before, "an object vanished during another upload of it"); }
}
}

harness! {
fn h_c08_fault() {
    // the storage fails while it is asked: the reply is a failure or the truth
    let root = repo();
    let objs: Vec<Vec<u8>> = vec![sym_vec("data", 1), b"ab".to_vec(), b"absent".to_vec()];
    let have = [choice("have0", 2) == 1, choice("have1", 2) == 1, false];
    for i in 0..2 { if have[i] { plant(&root, &oid_of(&objs[i]), &objs[i]); } }
    let up = choice("mode", 2) == 0;
    let mut rq = Rq::new().line(b"batch", b"").d();
    let mut want: Vec<u8> = vec![];
    for _ in 0..2 {
        let i = choice("which", 3) as usize;
        let oid = oid_of(&objs[i]);
        rq = rq.line(&oid, b" 12");
        want.extend_from_slice(&oid);
        want.push(b' ');
        want.extend_from_slice(&if have[i] { ascii(objs[i].len()) } else { b"12".to_vec() });
        want.extend_from_slice(if have[i] == up { b" noop\n" } else if up { b" upload\n" } else { b" download\n" });
    }
    let rq = rq.f().0;
    fault(WR | META | RD | DENY);
    let x = serve(&root, if up { UP } else { DOWN }, &rq);
    fault(0);
    let y = x.one();
    if y.ok() { reach("answered"); check(y.joined() == want, "the batch reply does not tell the true state of the objects, in order"); } else { reach("failed"); }
}

fn h_c21_always() {
    // at no moment, and after no failure, does anything stored give more access than the umask leaves, or an object less
    let root = repo();
    let u = sym_u32("umask") & 0o777;
    let a = b"content".to_vec();
    let ia = oid_of(&a);
    let path = b"path";
    let again = choice("again", 2) == 1;
    let how = choice("how", 2);
    let go = |m: Mode| { unsafe { libc::umask(u as libc::mode_t); } let r = Rq::new().put(&ia, "7", &a).lock(path); let r = if again { r.put(&ia, "7", &a).unlock(&lock_id(path)).lock(path) } else { r }; session(&root, m, u, Some(NOW), &mut In::new(&r.0)) };
    match how {
        0 => { if fork() { crash(true); go(UP); crash(false); exit(0) } wait(); reach("killed"); }
        _ => { let old = unsafe { libc::umask(0) }; fault(WR | META | DENY); go(UP); fault(0); unsafe { libc::umask(old); } reach("failing"); }
    }
    use std::os::unix::fs::MetadataExt;
    let allowed = 0o777 & !u;
    for (n, c) in tree_modes(&root) {
        let perm = c & 0o7777;
        check(perm & !allowed == 0, "something stored gives more access than was asked for");
        let object = n.starts_with("objects") && c & 0o170000 == 0o100000;
        if object { reach("object"); check(perm == allowed, "an object does not give the access that was asked for"); }
    }
    fn tree_modes(root: &std::path::Path) -> Vec<(String, u32)> {
        let mut out = vec![];
        for d in ["objects", "incomplete", "locks"] { walk(root, d.to_string(), true, &mut out); }
        out
    }
    fn walk(root: &std::path::Path, rel: String, top: bool, out: &mut Vec<(String, u32)>) {
        let m = match std::fs::symlink_metadata(root.join(&rel)) { Ok(m) => m, Err(_) => return };
        // (the directories that were there before are the harness's)
        if !top { out.push((rel.clone(), m.mode())); }
        if m.is_dir() { for n in names(&root.join(&rel)) { walk(root, format!("{}/{}", rel, s(&n)), false, out); } }
    }
}
}

/// Zeros: how many, and their SHA-256.
const ZEROS: [(u64, &[u8]); 4] = [
    (4194304, b"bb9f8df61474d25e71fa00722318cd387396ca1736605e1248821cc0de3d3af8"),
    (4194305, b"95e441ca65cd41fa01b2a71799e79fd60db59ed34f13af32a91e85f90378676c"),
    (16777219, b"4b7130e6b7db7468cb846d9b1ef28a31ba93e3042894d1538f6979724ebf3096"),
    (4294967301, b"709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5"),
];
fn zeros(root: &std::path::Path, few: u64) -> (u64, Vec<u8>) {
    let (n, id) = ZEROS[choice("object", few) as usize];
    let p = obj_path(root, id);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::File::create(p).unwrap().set_len(n).unwrap();
    (n, id.to_vec())
}
/// Output of which the beginning is kept and the rest counted, until the connection breaks.
struct Count { head: Vec<u8>, n: u64, zeros: u64, most: u64 }
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.n >= self.most { return Err(std::io::Error::from_raw_os_error(32)); }
        if self.head.len() < 300 { self.head.extend_from_slice(&b[..b.len().min(300)]); }
        self.n += b.len() as u64;
        if b.len() > 4 && b[4] == 0 && b[b.len() - 1] == 0 { self.zeros += b.len() as u64; }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
harness! {
fn h_c07_large() {
    // objects of which the size does not fit in the usual buffers, or in 32 bits
    let root = repo();
    let (n, id) = zeros(&root, param("objects", 4));
    let mut out = Count { head: vec![], n: 0, zeros: 0, most: if n < 1 << 25 { u64::MAX } else { 1 << 18 } };
    let rq = Rq::new().get(&id).0;
    let mut i = In::new(&rq);
    let h = scutiger_lfs::processor::PktLineHandler::new(&mut i, &mut out);
    let r = scutiger_lfs::processor::Processor::new(h, Box::new(scutiger_lfs::backend::local::LocalBackend::new(&root, 0o022, Some(NOW)))).process_commands(DOWN);
    let want = format!("size={}\n", n).into_bytes();
    check(out.head.windows(want.len()).any(|w| w == &want[..]), "a wrong size was reported for a large object");
    if n < 1 << 25 {
        reach("whole");
        check(r.is_ok(), "a large object was not sent");
        note(&format!("{} bytes in {}", out.zeros, out.n));
        // (a packet's first write may hold its length, too)
        check(out.n >= n && out.n - n < n / 16 + 400, "not all of a large object was sent, or too much");
    } else {
        reach("broken");
        check(r.is_err(), "a session went on without a connection");
    }
}
fn h_c09_large() {
    let root = repo();
    let (n, id) = zeros(&root, 4);
    let mut size = if choice("size", 2) == 0 { n.to_string() } else { (n & 0xffffffff).to_string() }.into_bytes();
    let last = size.len() - 1;
    let d = sym_u8("digit");
    assume(d >= b'0' && d <= b'9');
    size[last] = d;
    let y = serve(&root, UP, &Rq::new().verify(&id, s(&size)).0).one();
    if dec(&size) == Some(n) { reach("same"); check(y.code == 200, "a stored object of the stated size was not verified"); }
    else { reach("differs"); check(y.code == 409, "a size that differs must be reported as a conflict"); }
}
fn h_c08_large() {
    let root = repo();
    let (n, id) = zeros(&root, 4);
    let mut size = (n & 0xffffffff).to_string().into_bytes();
    let last = size.len() - 1;
    let d = sym_u8("digit");
    assume(d >= b'0' && d <= b'9');
    size[last] = d;
    let up = choice("mode", 2) == 0;
    let mut other = id.clone();
    other[63] = b'0';
    let rq = Rq::new().line(b"batch", b"").d().line(&[&id[..], b" "].concat(), &size).line(&[&other[..], b" "].concat(), b"9876543210987").f();
    let y = serve(&root, if up { UP } else { DOWN }, &rq.0).one();
    check(y.code == 200, "a batch request was refused");
    let mut want = id.clone();
    want.extend_from_slice(format!(" {} {}\n", n, if up { "noop" } else { "download" }).as_bytes());
    want.extend_from_slice(&other);
    want.extend_from_slice(format!(" 9876543210987 {}\n", if up { "upload" } else { "noop" }).as_bytes());
    check(y.joined() == want, "the batch reply does not tell the true state of the large objects");
    reach("end");
}
}
