//! C10-C15: what the server makes of arbitrary requests.
use crate::srv::*;
use std::io;
use std::path::Path;
use vrt::*;

const HELD: &[u8] = b"held/path";
/// A store with an object, a lock, an unfinished upload and an unfinished lock, and a file outside of it.
pub struct World { pub root: std::path::PathBuf, pub victim: std::path::PathBuf, pub data: Vec<u8>, pub oid: Vec<u8>, pub lock: Vec<u8> }
pub fn world() -> World {
    let root = repo();
    let data = b"S3cr!t#content%of^the&object".to_vec();
    let oid = oid_of(&data);
    plant(&root, &oid, &data);
    let lock = plant_lock(&root, HELD, "1000684800");
    std::fs::write(root.join("incomplete").join("left-over"), b"v1:5:partial").unwrap();
    std::fs::write(root.join("locks").join(format!("{}AbCdEf.lock", s(&lock))), b"v1:5:half").unwrap();
    let victim = root.parent().unwrap().join("victim");
    std::fs::write(&victim, b"v1:7:victim").unwrap();
    World { root, victim, data, oid, lock }
}
impl World {
    pub fn state(&self) -> Vec<(Vec<u8>, Option<Vec<u8>>)> { state(&self.root) }
    pub fn victim_ok(&self) -> bool { std::fs::read(&self.victim).ok() == Some(b"v1:7:victim".to_vec()) && names(self.root.parent().unwrap()).len() == 2 }
}
fn pad(head: &[u8], fill: u8, tail: &[u8]) -> Vec<u8> {
    let mut v = head.to_vec();
    while v.len() + tail.len() < 64 { v.push(fill); }
    v.extend_from_slice(tail);
    v
}
fn is_id(b: &[u8]) -> bool { b.len() == 64 && b.iter().all(|c| (*c >= b'0' && *c <= b'9') || (*c >= b'a' && *c <= b'f')) }

/// Ids of all kinds, none of which is the id of the stored object or lock.
fn odd_id(w: &World) -> Vec<u8> {
    let id = match choice("shape", 12) {
        0 => sym_vec("id", choice("len", 4) as usize),
        1 => { let mut v = w.oid.clone(); let i = [0usize, 2, 40, 62][choice("at", 4) as usize]; let b = sym_vec("two", 2); v[i] = b[0]; v[i + 1] = b[1]; v }
        2 => { let mut v = w.oid.clone(); v.push(sym_u8("more")); v }
        3 => w.oid[..63].to_vec(),
        4 => pad(b"..", b'/', b"victim"),
        5 => pad(b"../", b'/', b"../victim"),
        6 => pad(b"../..", b'/', b"../../victim"),
        7 => pad(w.victim.to_str().unwrap().as_bytes(), b'/', b""),
        8 => pad(b"../locks", b'/', &w.lock[..8]),
        9 => { let mut v = w.lock.clone(); let i = [0usize, 31, 63][choice("at", 3) as usize]; v[i] = sym_u8("digit"); v }
        10 => format!("{}AbCdEf.lock", s(&w.lock)).into_bytes(),
        _ => pad(b"..", b'/', &[b"objects/", &w.oid[..2], b"/", &w.oid[2..4], b"/"].concat()),
    };
    assume(!id.contains(&b' '));
    id
}

harness! {
fn h_c10_ids() {
    let w = world();
    let id = odd_id(&w);
    if id == w.oid || id == w.lock { exit(0) }
    let before = w.state();
    let what = choice("what", 5);
    let rq = match what {
        0 => Rq::new().put(&id, "3", b"abc"),
        1 => Rq::new().verify(&id, "11"),
        2 => Rq::new().get(&id),
        3 => Rq::new().unlock(&id),
        _ => Rq::new().line(b"batch", b"").d().line(&id, b" 5").f(),
    };
    let up = if what == 4 { choice("mode", 2) == 1 } else { what != 2 };
    guard(&w.root);
    let r = serve(&w.root, if up { UP } else { DOWN }, &rq.0);
    unguard();
    let y = r.one();
    if !is_id(&id) { reach("invalid"); check(!y.ok(), "an invalid id was accepted"); }
    else { reach("valid"); check(what == 4 || !y.ok(), "an absent id was accepted"); }
    check(w.state() == before && w.victim_ok(), "a request with an odd id changed a file");
    check(!contains(&r.out, b"victim") && !contains(&r.out, b"half") && !contains(&r.out, b"partial"), "a file which is no object or lock record was read");
}

fn h_c10_locks() {
    // arbitrary paths to lock and list, and cursors
    let w = world();
    let path = match choice("shape", 6) {
        0 => sym_vec("path", choice("len", 4) as usize),
        1 => pad(b"..", b'/', b"victim"),
        2 => b"../../victim".to_vec(),
        3 => w.victim.to_str().unwrap().as_bytes().to_vec(),
        4 => { let mut v = b"../".to_vec(); v.push(sym_u8("c")); v.extend_from_slice(b"/x"); v }
        _ => w.lock.clone(),
    };
    if path == HELD { exit(0) }
    let before = w.state();
    let what = choice("what", 4);
    let rq = match what {
        0 => Rq::new().lock(&path),
        1 => Rq::new().line(b"list-lock", b"").line(b"path=", &path).f(),
        2 => Rq::new().line(b"list-lock", b"").line(b"cursor=", &path).f(),
        _ => Rq::new().line(b"list-lock", b"").line(b"path=", HELD).line(b"cursor=", &path).f(),
    };
    guard(&w.root);
    let r = serve(&w.root, if what == 0 { UP } else { [UP, DOWN][choice("mode", 2) as usize] }, &rq.0);
    unguard();
    let y = r.one();
    check(w.victim_ok(), "a file outside the store was changed");
    if what == 0 {
        check(y.code == 201, "a path was not locked");
        let mut want = before;
        let id = lock_id(&path);
        want.push(([b"locks/", &id[..]].concat(), Some([b"v1:1000684800:", &path[..]].concat())));
        want.sort();
        check(w.state() == want, "locking did something else than adding a lock record");
        reach("locked");
    } else {
        check(w.state() == before, "listing changed the store");
        check(!contains(&r.out, b"v1:7") && !contains(&r.out, b"half"), "a file which is no lock record was read");
        reach("listed");
    }
}

fn h_c11_down() {
    // a download session: any upload request, exact or slightly off
    let w = world();
    let before = w.state();
    let mut d = vec![b'n'];
    d.push(sym_u8("data"));
    let new = oid_of(&d);
    let cmds: [Rq; 6] = [
        Rq::new().put(&new, "2", &d), Rq::new().verify(&w.oid, "28"), Rq::new().lock(b"new/path"), Rq::new().unlock(&w.lock),
        Rq::new().line(b"put-object ", &new).f().line(b"verify-object ", &w.oid).f(), Rq::new().put(&w.oid, "2", &d) ];
    let k = choice("what", 6) as usize;
    let b = mutate(&cmds[k].0, param("edits", 1));
    let exact = b == cmds[k].0;
    let r = serve(&w.root, DOWN, &b);
    check(w.state() == before && empty_but(&w.root), "a download session changed the store");
    if exact { reach("exact"); for y in r.replies() { check(!y.ok(), "a download session accepted a request to upload"); } } else { reach("edited") }
}

fn h_c11_up() {
    // an upload session never sends object content
    let w = world();
    let cmds: [Rq; 5] = [
        Rq::new().get(&w.oid), Rq::new().line(b"get-object ", &w.oid).line(b"size=", b"28").f(), Rq::new().line(b"batch", b"").d().line(&w.oid, b" 28").f(),
        Rq::new().verify(&w.oid, "28"), Rq::new().line(b"get-object ", &w.oid).d().p(b"x").f() ];
    let k = choice("what", 5) as usize;
    let b = mutate(&cmds[k].0, param("edits", 1));
    let exact = b == cmds[k].0;
    let r = serve(&w.root, UP, &b);
    for i in 0..w.data.len() - 8 { check(!contains(&r.out, &w.data[i..i + 8]), "an upload session sent object content"); }
    if exact && (k < 2 || k == 4) { reach("exact"); check(!r.one().ok(), "an upload session accepted a request to download"); } else { reach("other") }
}
}
fn empty_but(root: &Path) -> bool { names(&root.join("incomplete")).len() == 1 && names(&root.join("locks")).len() == 2 }
/// The request with an arbitrary byte somewhere in its first packet.
fn mutate(rq: &[u8], edits: u64) -> Vec<u8> {
    let mut v = rq.to_vec();
    let n = (v.iter().position(|c| *c == b'\n').unwrap_or(20)).min(16);
    for _ in 0..edits {
        let i = choice("edit", n as u64) as usize;
        if i >= 4 { v[i] = sym_u8("byte"); }
    }
    v
}

/// One packet of the erroneous requests.
fn piece(r: Rq, w: &World, k: u64) -> Rq {
    match k {
        0 => r.d(),
        1 => r.p(b"version 1\n"),
        2 => { let v = sym_vec("packet", 2); r.p(&v) }
        3 => r.p(b""),
        4 => r.p(b"size=3\n"),
        5 => r.p(b"path=new\n"),
        6 => r.p(b"refname=r\n"),
        7 => { let o = w.oid.clone(); r.p2(&o, b" 28\n") }
        _ => r.p(b"quit\n"),
    }
}
harness! {
fn h_c12() {
    // any request of up to three further packets, then three ordinary ones
    let w = world();
    let up = choice("mode", 2) == 1;
    let n = choice("packets", param("packets", 2) + 1);
    let valid = oid_of(b"abc");
    let mut r = Rq::new();
    r = match choice("command", 14) {
        0 => r.line(b"batch", b""),
        1 => r.line(b"put-object ", &valid),
        2 => r.line(b"put-object ", b"zz"),
        3 => r.line(b"verify-object ", &w.oid),
        4 => r.line(b"get-object ", &w.oid),
        5 => r.line(b"lock", b""),
        6 => r.line(b"list-lock", b""),
        7 => r.line(b"unlock ", &valid),
        8 => r.line(b"version", b" 2"),
        9 => r.line(b"nonsense", b""),
        10 => r.p(b""),
        11 => r.d(),
        12 => { let v = sym_vec("command", 2); r.p(&v) }
        _ => r.line(b"get-object", b""),
    };
    for _ in 0..n { let k = choice("piece", 9); r = piece(r, &w, k); }
    r = r.f();
    let before = w.state();
    r = r.version().line(b"list-lock", b"").line(b"path=", HELD).f();
    r = if up { let o = w.oid.clone(); r.verify(&o, "28") } else { let o = w.oid.clone(); r.get(&o) };
    let x = serve(&w.root, if up { UP } else { DOWN }, &r.0);
    let l = x.replies();
    check(x.ok, "the session ended with an error although all packets are well-formed");
    check(l.len() == 4, "not exactly one reply for each request");
    check(l[1].code == 200 && l[1].args.is_empty(), "the request after an erroneous one is answered wrongly");
    check(l[2].code == 200 && l[2].joined().len() > 100, "the request after an erroneous one is answered wrongly");
    check(l[3].code == 200 && (up || l[3].joined() == w.data), "the request after an erroneous one is answered wrongly");
    if l[0].ok() { reach("accepted") } else { reach("refused"); check(w.state() == before, "an erroneous request changed the store"); }
}

fn h_c12_flush() {
    // requests consisting of nothing but a flush packet, and of unusual lengths
    let w = world();
    let k = choice("count", 3) + 1;
    let mut r = Rq::new();
    for _ in 0..k { r = r.f(); }
    let x = serve(&w.root, DOWN, &r.version().quit().version().0);
    let l = x.replies();
    check(l.len() as u64 == k + 2, "not exactly one reply for each request");
    for i in 0..k as usize { check(!l[i].ok(), "an empty request was accepted"); }
    check(l[k as usize].code == 200 && l[k as usize + 1].code == 200, "a correct request was refused");
    reach("end");
}
}

/// An input that fails instead of ending.
struct Breaks<'a> { data: &'a [u8], pos: usize, fails: bool }
impl<'a> io::Read for Breaks<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.data.len() - self.pos).min(b.len());
        if n == 0 && !b.is_empty() && self.fails { return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")); }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
harness! {
fn h_c14() {
    // every request, cut off at every byte
    let w = world();
    let d = { let mut d = b"x".to_vec(); d.push(sym_u8("data")); d };
    let new = oid_of(&d);
    let mut up = true;
    let rq = match choice("what", 9) {
        0 => put2(&new, &d),
        1 => Rq::new().lock(b"new/path"),
        2 => Rq::new().unlock(&w.lock),
        3 => Rq::new().verify(&w.oid, "28"),
        4 => { up = false; Rq::new().get(&w.oid) }
        5 => Rq::new().line(b"batch", b"").d().line(&w.oid, b" 28").f(),
        6 => { up = false; Rq::new().list(&[b"limit=5"]) }
        7 => Rq::new().version(),
        _ => { let mut e = new.clone(); e[5] ^= 1; Rq::new().put(&e, "2", &d) } // (wrong content)
    };
    let n = rq.0.len();
    let cut = choice("cut", n as u64) as usize;
    let full = choice("first", 2) == 1;
    let mut input = if full { Rq::new().version().0 } else { vec![] };
    input.extend_from_slice(&rq.0[..cut]);
    let before = w.state();
    let mut out: Vec<u8> = vec![];
    {
        use scutiger_lfs::{backend::local::LocalBackend, processor::{PktLineHandler, Processor}};
        let mut i = Breaks { data: &input, pos: 0, fails: choice("fails", 2) == 1 };
        let h = PktLineHandler::new(&mut i, &mut out);
        let _ = Processor::new(h, Box::new(LocalBackend::new(&w.root, 0o022, Some(NOW)))).process_commands(if up { UP } else { DOWN });
    }
    check(w.state() == before, "a request which was cut off changed the store");
    check(names(&w.root.join("incomplete")).len() == 1, "an upload which was cut off left a temporary file");
    let l = match replies(&out) { Some(l) => l, None => { note_bytes(&out); fail("what the server sent is not a sequence of well-formed replies") } };
    for (i, y) in l.iter().enumerate() { if i == 0 && full { check(y.code == 200, "a complete request was refused"); } else { check(!y.ok(), "a request which was cut off was reported as successful"); } }
    if full { check(l.len() >= 1, "a complete request was not answered"); }
    reach("end");
}
}
fn put2(oid: &[u8], d: &[u8]) -> Rq { Rq::new().line(b"put-object ", oid).line(b"size=2", b"").d().p(&d[..1]).p(&d[1..]).f() }

harness! {
fn h_c13_bytes() {
    // arbitrary bytes on the connection
    let w = world();
    let n = param("bytes", 7) as usize;
    let mut b = vec![];
    let mode = if choice("mode", 2) == 1 { UP } else { DOWN };
    if choice("first", 2) == 1 { b = Rq::new().line(b"batch", b"").0; }
    b.extend(sym_vec("raw", choice("len", n as u64 + 1) as usize));
    if choice("then", 2) == 1 { b.extend(Rq::new().f().version().0); }
    let before = w.state();
    let r = serve(&w.root, mode, &b);
    check(w.state() == before, "senseless input changed the store");
    if !r.out.is_empty() && replies(&r.out).is_none() { note_bytes(&r.out); fail("what the server sent is not a sequence of well-formed replies"); }
    if r.ok { reach("ends normally") } else { reach("ends with an error") }
}

fn h_c13_commands() {
    // every command with arbitrary bytes in place of its id or first argument
    let w = world();
    let c: &[u8] = [&b"version"[..], b"batch", b"put-object", b"verify-object", b"get-object", b"lock", b"list-lock", b"unlock", b"quit", b""][choice("command", 10) as usize];
    let mut v = c.to_vec();
    v.extend(sym_vec("tail", choice("tail", 3) as usize));
    let mut r = Rq::new().p(&v);
    if choice("arg", 2) == 1 { let a = sym_vec("arg", choice("len", param("arg", 2) + 1) as usize); r = r.p(&a); }
    if choice("delim", 2) == 1 { r = r.d(); let a = sym_vec("line", choice("llen", 2) as usize); r = r.p(&a); }
    let x = serve(&w.root, if choice("mode", 2) == 1 { UP } else { DOWN }, &r.f().version().0);
    check(x.ok, "the session ended with an error although all packets are well-formed");
    let l = x.replies();
    check(l.len() == 2 || (c == b"quit" && l.len() == 1) || contains(&v, b"quit"), "not exactly one reply for each request");
    reach("end");
}

fn h_c13_lockdir() {
    // a lock directory with an arbitrary file under a lock's name, and other strange entries
    let root = repo();
    let path = b"the/path";
    let id = lock_id(path);
    let dir = root.join("locks");
    let file = dir.join(s(&id));
    match choice("file", 8) {
        0 => { let v = sym_vec("record", choice("len", param("len", 4) + 1) as usize); std::fs::write(&file, v).unwrap(); }
        1 => { let mut v = b"v1:".to_vec(); v.extend(sym_vec("time", choice("len", 3) as usize)); v.extend_from_slice(b":the/path"); std::fs::write(&file, v).unwrap(); }
        2 => {
            let t = ["9223372036854775807", "-9223372036854775808", "9223372036854775808", "8210266876799", "8210266876800", "-8334601228800", "-8334601228801", "253402300800", "-62167219201", "-1", "0", "+5", "-", "", "0x10", " 1", "99999999999999999999"][choice("extreme", 17) as usize];
            std::fs::write(&file, format!("v1:{}:the/path", t)).unwrap();
        }
        3 => std::fs::create_dir(&file).unwrap(),
        4 => std::os::unix::fs::symlink("nowhere", &file).unwrap(),
        5 => std::fs::write(&file, b"v1:5:another/path").unwrap(),
        6 => { let mut v = b"v1:5:".to_vec(); v.extend(sym_vec("path", choice("len", 3) as usize)); std::fs::write(&file, v).unwrap(); }
        _ => (),
    }
    match choice("stray", 4) {
        0 => std::fs::write(dir.join("stray"), b"v1:5:stray").unwrap(),
        1 => { use std::os::unix::ffi::OsStrExt; std::fs::write(dir.join(std::ffi::OsStr::from_bytes(b"\xff\xfe")), b"v1:5:x").unwrap() }
        2 => std::fs::create_dir(dir.join(s(&oid_of(b"sub")))).unwrap(),
        _ => (),
    }
    let up = choice("mode", 2) == 1;
    let r = match choice("what", 4) {
        0 => Rq::new().list(&[]),
        1 => Rq::new().list(&[b"path=the/path"]),
        2 => if up { Rq::new().lock(path) } else { exit(0) },
        _ => if up { Rq::new().unlock(&id) } else { exit(0) },
    };
    let x = serve(&root, if up { UP } else { DOWN }, &r.version().0);
    check(x.ok, "the session ended with an error although all packets are well-formed");
    check(x.replies().len() == 2, "not exactly one reply for each request");
    reach("end");
}

fn h_c15_args() {
    // one arbitrary argument among well-formed ones: refused when malformed, otherwise taken as sent
    let w = world();
    let n = choice("len", param("len", 4) + 1) as usize;
    let a = sym_vec("arg", n);
    let key: &[u8] = [&b""[..], b"path", b"refname", b"size", b"pat"][choice("key", 5) as usize];
    let mut arg = key.to_vec();
    arg.extend_from_slice(&a);
    let eq = arg.iter().position(|c| *c == b'=');
    let wf = eq.is_some() && arg[arg.len() - 1] == b'\n';
    let before = w.state();
    let what = choice("what", 4);
    let (fixed, up, mut r): (&[&[u8]], bool, Rq) = match what {
        0 => (&[b"path", b"refname"], true, Rq::new().line(b"lock", b"").line(b"path=", b"new/path").line(b"refname=", b"r")),
        1 => (&[b"size"], true, Rq::new().line(b"verify-object ", &w.oid).line(b"size=", b"28")),
        2 => (&[], false, Rq::new().line(b"get-object ", &w.oid)),
        _ => (&[b"path"], false, Rq::new().line(b"list-lock", b"").line(b"path=", HELD)),
    };
    r = r.p(&arg).f();
    let y = serve(&w.root, if up { UP } else { DOWN }, &r.0).one();
    let dup = match eq { Some(e) => fixed.iter().any(|f| *f == &arg[..e]), None => false };
    if wf && !dup {
        // (the listing knows a limit and a cursor, too)
        reach("well-formed");
        check(y.ok(), "a request with well-formed arguments was refused");
    } else {
        if wf { reach("repeated") } else { reach("malformed") }
        check(y.code >= 400 && y.code < 600, "a malformed or repeated argument was accepted");
        check(w.state() == before, "a request with a malformed argument changed the store");
    }
}

fn h_c15_value() {
    // the value is everything between the first equals sign and the last newline
    let w = world();
    let n = choice("len", param("len", 4) + 1) as usize;
    let v = sym_vec("value", n);
    let before = w.state();
    let r = Rq::new().line(b"lock", b"").line(b"refname=", if choice("refname", 2) == 0 { b"a=b" } else { b"" }).line(b"path=", &v).f();
    let y = serve(&w.root, UP, &r.0).one();
    if v == HELD { exit(0) }
    check(y.code == 201 && y.arg(b"path") == Some(&v[..]) || v.is_empty(), "a value was not taken as sent");
    check(y.code == 201 && y.arg(b"id") == Some(&lock_id(&v)[..]), "a value was not taken as sent");
    let mut want = before;
    want.push(([b"locks/", &lock_id(&v)[..]].concat(), Some([b"v1:1000684800:", &v[..]].concat())));
    want.sort();
    check(w.state() == want, "a value was not taken as sent");
    reach("end");
}

fn h_c15_missing() {
    // missing values, and numbers which are none
    let w = world();
    let before = w.state();
    let bad: Vec<u8> = match choice("number", 9) {
        0 => { let v = sym_vec("digits", 1); assume(dec(&v).is_none()); v }
        1 => { let v = sym_vec("digits", 2); assume(dec(&v).is_none() && v[0] < 128 && v[1] < 128); v }
        2 => b"18446744073709551616".to_vec(), 3 => b"99999999999999999999999".to_vec(), 4 => b"-1".to_vec(), 5 => b"".to_vec(), 6 => b"0x5".to_vec(), 7 => b"5 ".to_vec(), _ => b"1e1".to_vec(),
    };
    assume(!bad.contains(&b'\n'));
    let d = b"abc";
    let new = oid_of(d);
    let (up, r) = match choice("what", 13) {
        0 => (true, Rq::new().line(b"put-object ", &new).line(b"size=", &bad).d().p(d).f()),
        1 => (true, Rq::new().line(b"put-object ", &new).d().p(d).f()),
        2 => (true, Rq::new().line(b"verify-object ", &w.oid).line(b"size=", &bad).f()),
        3 => (true, Rq::new().line(b"verify-object ", &w.oid).f()),
        4 => (true, Rq::new().line(b"lock", b"").line(b"path=", b"new").f()),
        5 => (true, Rq::new().line(b"lock", b"").line(b"refname=", b"new").f()),
        6 => (true, Rq::new().line(b"lock", b"").f()),
        7 => (choice("mode", 2) == 1, Rq::new().line(b"list-lock", b"").line(b"limit=", &bad).f()),
        8 => (choice("mode", 2) == 1, Rq::new().line(b"list-lock", b"").line(b"path=", HELD).line(b"limit=", &bad).f()),
        9 => (true, Rq::new().line(b"put-object ", &new).line(b"size=", b"3").f()), // (no data)
        10 => (choice("mode", 2) == 1, Rq::new().line(b"list-lock", b"").line(b"limit=", b"0").f()),
        11 => (true, Rq::new().line(b"put-object ", &new).line(b"size=", b"3").line(b"size=", b"3").d().p(d).f()),
        _ => (choice("mode", 2) == 1, Rq::new().line(b"batch", b"").line(b"hash-algo=", b"sha256").line(b"hash-algo=", b"sha256").d().line(&w.oid, b" 5").f()),
    };
    let y = serve(&w.root, if up { UP } else { DOWN }, &r.0).one();
    check(y.code >= 400 && y.code < 600, "a request with a missing or impossible value was accepted");
    check(w.state() == before && names(&w.root.join("incomplete")).len() == 1, "a request with a missing or impossible value changed the store");
    reach("end");
}

fn h_c15_batch() {
    // one arbitrary line in a batch, or another hash algorithm
    let w = world();
    let before = w.state();
    let what = choice("what", 5);
    let oid = w.oid.clone();
    let mut hash = b"sha256".to_vec();
    let line: Vec<u8> = match what {
        0 => { let mut l = oid.clone(); l.extend(sym_vec("tail", choice("len", param("len", 4) + 1) as usize)); l }
        1 => { let mut l = oid.clone(); l.push(b' '); l.extend(sym_vec("tail", choice("len", param("len", 4) + 1) as usize)); l.push(b'\n'); l }
        2 => { let mut l = sym_vec("head", choice("len", 3) as usize); l.extend_from_slice(&oid); l.extend_from_slice(b" 5\n"); l }
        3 => { let v = [sym_vec("hash", choice("len", 3) as usize), b"sha25".to_vec(), b"sha2566".to_vec(), b"SHA256".to_vec(), b"sha512".to_vec()]; hash = v[choice("algo", 5) as usize].clone(); [&oid[..], b" 5\n"].concat() }
        _ => { let mut l = oid.clone(); l[63] = sym_u8("digit"); l.extend_from_slice(b" 5\n"); l }
    };
    assume(!hash.contains(&b'\n'));
    let r = Rq::new().line(b"batch", b"").line(b"hash-algo=", &hash).d().line(&oid, b" 1").p(&line).f();
    let good = hash == b"sha256" && {
        let n = line.len();
        n > 66 && is_id(&line[..64]) && line[64] == b' ' && line[n - 1] == b'\n' && dec(&line[65..n - 1]).is_some()
    };
    let y = serve(&w.root, if choice("mode", 2) == 1 { UP } else { DOWN }, &r.0).one();
    if good { reach("well-formed"); check(y.code == 200 && y.data.len() == 2, "a well-formed batch was refused"); }
    else { reach("malformed"); check(y.code >= 400 && y.code < 600, "a malformed batch was accepted"); }
    check(w.state() == before, "a batch changed the store");
}
}

harness! {
fn h_c35_commands() {
    // what is no command of the protocol is refused and has no effect; one that is is carried out
    let w = world();
    let d = vec![b'n', sym_u8("data")];
    let new = oid_of(&d);
    let (up, word, arg): (bool, &[u8], &[u8]) = match choice("what", 11) {
        0 => (true, b"version", b"1"), 1 => (false, b"version", b"1"), 2 => (true, b"batch", b""), 3 => (false, b"batch", b""),
        4 => (true, b"put-object", &new), 5 => (true, b"verify-object", &w.oid), 6 => (false, b"get-object", &w.oid),
        7 => (true, b"lock", b""), 8 => (choice("mode", 2) == 0, b"list-lock", b""), 9 => (true, b"unlock", &w.lock), _ => (true, b"quit", b""),
    };
    let mut c = word.to_vec();
    let edits = param("edits", 2) as usize;
    match choice("edit", 5) {
        // any bytes of the word, or what is around it
        0 => for e in 0..edits { let i = choice(["at", "at2", "at3"][e], c.len() as u64) as usize; c[i] = sym_u8(["byte", "byte2", "byte3"][e]); },
        1 => { c = sym_vec("front", 1); c.extend_from_slice(word); }
        2 => c.extend_from_slice(&sym_vec("behind", choice("len", edits as u64) as usize + 1)),
        3 => { let n = choice("cut", c.len() as u64) as usize; c.truncate(n); }
        _ => (),
    }
    // (an argument of the version, or none, or more of them)
    let mut a = if word == b"version" && choice("version", 2) == 1 { sym_vec("version", choice("vlen", 3) as usize) } else { arg.to_vec() };
    if choice("without", 2) == 1 { a.clear(); }
    if !a.is_empty() { c.push(b' '); c.extend_from_slice(&a); }
    if choice("newline", 2) == 1 { c.push(b'\n'); }
    let mut rq = Rq::new().p(&c);
    rq = match word {
        b"batch" => rq.d().line(&w.oid, b" 28").f(),
        b"put-object" => rq.line(b"size=2", b"").d().p(&d).f(),
        b"verify-object" => rq.line(b"size=28", b"").f(),
        b"lock" => rq.line(b"path=", b"new/path").line(b"refname=", b"refs/heads/main").f(),
        _ => rq.f(),
    };
    let before = w.state();
    let out = serve(&w.root, if up { UP } else { DOWN }, &rq.0);
    if c.last() == Some(&b'\n') { c.pop(); }
    let words: Vec<&[u8]> = c.split(|x| *x == b' ').collect();
    let first = words[0];
    let is = |x: &[u8]| first == x;
    let known = is(b"version") || is(b"batch") || is(b"list-lock") || is(b"quit")
        || if up { is(b"put-object") || is(b"verify-object") || is(b"lock") || is(b"unlock") } else { is(b"get-object") };
    let l = out.replies();
    check(l.len() == 1, "one reply for each request");
    let y = &l[0];
    let refused = if !known { reach("unknown"); true }
        else if is(b"version") { reach("version"); words.len() < 2 || words[1] != b"1" }
        else if (is(b"put-object") || is(b"verify-object") || is(b"get-object") || is(b"unlock")) && words.len() < 2 { reach("without"); true }
        else { false };
    if refused {
        check(y.code >= 400 && y.code < 500, "what is no command is not refused");
        check(w.state() == before, "what is no command has an effect");
    } else if words.len() == 1 + !arg.is_empty() as usize && (word == b"version" || a == arg) && first == word {
        reach("known");
        check(y.ok(), "a command is refused");
    }
}
}
