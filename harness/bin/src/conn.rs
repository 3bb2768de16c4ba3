//! Connections: replies that arrive, and readers that go away.
use crate::repo::*;
use std::path::Path;
use vrt::req::*;
use vrt::*;

const XFER: fn() -> i32 = scutiger_xfer_bin::verif_main;
const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;
const AT: fn() -> i32 = scutiger_at_bin::verif_main;
extern "C" {
    fn verif_tty(mask: u64) -> u64;
    fn verif_on_spawn(f: extern "C" fn(*const libc::c_char, *const *const libc::c_char) -> i32) -> u64;
}
const HELLO: &[u8] = b"000eversion=1\n0000";

/// A server with a connection to it.
struct Conn { to: i32, from: i32, got: Vec<u8>, err: std::path::PathBuf }
impl Conn {
    fn new(r: &Repo, op: &[u8]) -> Conn {
        let (i, to) = pipe();
        let (from, o) = pipe();
        let (_, err) = start(&r.dir, XFER, &[b"git-lfs-transfer", b".", op], b"", || { unsafe { libc::dup2(i, 0); libc::dup2(o, 1); } for f in [i, to, from, o] { close(f); } });
        close(i);
        close(o);
        Conn { to, from, got: vec![], err }
    }
    /// Everything up to the next flush packet.
    fn next(&mut self) -> Vec<u8> {
        loop {
            let mut at = 0;
            while at + 4 <= self.got.len() {
                let n = match parse_header(&self.got[at..at + 4]) { Some(n) => n, None => fail("what the server sent is not a sequence of packets") };
                at += if n < 4 { 4 } else { n };
                if n == 0 { let rest = self.got.split_off(at); return std::mem::replace(&mut self.got, rest); }
            }
            let b = read_some(self.from, 4096);
            if b.is_empty() { fail("the server ended before it had replied") }
            self.got.extend_from_slice(&b);
        }
    }
    fn send(&self, b: &[u8]) { if !write_all(self.to, b) { fail("the server ended before it had taken its input") } }
}
fn parse_header(b: &[u8]) -> Option<usize> {
    let mut n = 0;
    for c in b { n = n * 16 + match *c { b'0'..=b'9' => *c - b'0', b'a'..=b'f' => *c - b'a' + 10, _ => return None } as usize; }
    if n == 2 || n == 3 { None } else { Some(n) }
}
fn setup(root: &Path) -> Vec<u8> {
    let data = b"kept content".to_vec();
    let oid = oid_of(&data);
    plant(root, &oid, &data);
    std::fs::create_dir_all(root.join("locks")).unwrap();
    plant_lock(root, b"held", "1000684800");
    oid
}
/// A request, and whether it succeeds in sessions for uploads and for downloads.
fn some_request(k: u64, old: &[u8]) -> (Vec<u8>, bool, bool) {
    let new = b"new".to_vec();
    let noid = oid_of(&new);
    let q = Rq::new();
    match k {
        0 => (q.version().0, true, true),
        1 => (q.put(&noid, "3", &new).0, true, false),
        2 => (q.put(&noid, "3", b"bad").0, false, false),
        3 => (q.get(old).0, false, true),
        4 => (q.line(b"batch", b"").d().line(old, b" 12").line(&noid, b" 3").f().0, true, true),
        5 => (q.lock(b"path").0, true, false),
        6 => (q.list(&[]).0, true, true),
        7 => (q.unlock(&lock_id(b"nothing")).0, false, false),
        8 => (q.line(b"nonsense ", b"1").f().0, false, false),
        9 => (q.line(b"list-lock", b"").line(b"limit=", b"x").f().0, false, false),
        10 => (q.verify(old, "12").0, true, false),
        _ => (q.lock(b"held").0, false, false),
    }
}

/// A pager that reads nothing, or something, and ends.
extern "C" fn leaving(_: *const libc::c_char, _: *const *const libc::c_char) -> i32 {
    let k = choice("taken", 3);
    if k > 0 { read_some(0, if k == 1 { 1 } else { 100000 }); }
    0
}

harness! {
/// A client that waits for each reply before it goes on, and sends its requests in two parts.
fn h_c29() {
    let r = Repo::new();
    let root = r.git.join("lfs");
    let old = setup(&root);
    let up = choice("mode", 2) == 0;
    let mut c = Conn::new(&r, if up { b"upload" } else { b"download" });
    check(c.next() == HELLO, "the session does not begin with the server's version");
    for i in 0..param("requests", 2) {
        let k = if i == 0 { choice("request", 12) } else { choice("next", param("nexts", 2)) * 3 };
        let (b, yu, yd) = some_request(k, &old);
        let cut = if i == 0 { choice("cut", b.len() as u64) as usize } else { 0 };
        if cut > 0 { c.send(&b[..cut]); settle(); reach("cut"); }
        c.send(&b[cut..]);
        let y = match replies(&c.next()) { Some(mut y) if y.len() == 1 => y.remove(0), _ => fail("what the server sent is not a reply") };
        check(y.ok() == if up { yu } else { yd }, "a request got the wrong reply");
        if k == 3 && !up { reach("content"); check(y.joined() == b"kept content", "the data returned is not the stored content"); }
        check(c.got.is_empty(), "there is more than one reply to a request");
    }
    // and then the client leaves, with a word or without
    if choice("quit", 2) == 1 { c.send(&Rq::new().quit().0); let y = c.next(); check(replies(&y).map_or(false, |y| y.len() == 1 && y[0].ok()), "quitting is not acknowledged"); }
    close(c.to);
    check(read_some(c.from, 1).is_empty(), "something is sent without a request");
    let st = wait();
    check(st == 0, "the session failed");
    check(std::fs::read(&c.err).unwrap().is_empty(), "something is reported");
    reach("end");
}
/// A client that goes away without waiting for the reply, or in the middle of it.
fn h_c30_server() {
    let r = Repo::new();
    let root = r.git.join("lfs");
    let old = setup(&root);
    // (a reply that does not fit into the pipe)
    let long = vec![b'l'; 70000];
    let loid = oid_of(&long);
    plant(&root, &loid, &long);
    let before = state(&root);
    let up = choice("mode", 2) == 0;
    let when = choice("when", 3);
    let mut c = Conn::new(&r, if up { b"upload" } else { b"download" });
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
    if when > 0 { c.next(); }
    let k = choice("request", 13);
    let (b, yu, yd) = if k == 12 { (Rq::new().get(&loid).0, false, true) } else { some_request(k, &old) };
    if when < 2 { close(c.from); }
    write_all(c.to, &b);
    if when == 2 { read_some(c.from, 5); close(c.from); }
    // a request for which there is no reply anyway
    write_all(c.to, &Rq::new().version().0);
    close(c.to);
    let st = wait();
    check(st == 13 || st == 0, "the server does not end quietly when its client is gone");
    if st == 13 { reach("signal"); }
    check(std::fs::read(&c.err).unwrap().is_empty(), "something is reported although the client is gone");
    let after = state(&root);
    if after != before {
        reach("done");
        check(up && yu && (k == 1 || k == 5) && after.len() == before.len() + 1, "a request was carried out in part");
        if k == 1 { check(content(&root, &oid_of(b"new")) == Some(b"new".to_vec()), "a request was carried out in part"); }
    }
    let _ = yd;
    check(empty_dir(&root.join("incomplete")), "a partial upload was left behind");
}
/// The reader of a tool's output goes away.
fn h_c30_tools() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    let many = choice("many", 2) == 1;
    let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    if many { for i in 0..60 { packed += &format!("{} refs/heads/a-long-name-of-a-branch-which-is-one-of-many-in-the-listing-{:02}\n", id(0), i); } }
    r.file("packed-refs", packed.as_bytes());
    let (from, o) = pipe();
    unsafe { libc::fcntl(o, libc::F_SETPIPE_SZ, 4096); }
    let taken = choice("taken", 3);
    if taken == 0 { close(from); }
    let (main, args): (fn() -> i32, Vec<&[u8]>) = match choice("tool", 3) {
        0 => (REFS, vec![b"git-recent-refs", b"--sort=committerdate"]),
        1 => (REFS, vec![b"git-recent-refs"]),
        _ => (AT, vec![b"git-at", b"t"]),
    };
    let (_, err) = start(&r.dir, main, &args, b"", || { unsafe { libc::dup2(o, 1); } close(o); if taken > 0 { close(from); } });
    close(o);
    if taken > 0 { read_some(from, if taken == 1 { 1 } else { 3000 }); close(from); }
    let st = wait();
    check(st == 13 || st == 0, "the tool does not end quietly when its reader is gone");
    if st == 13 { reach("signal"); } else { reach("ended"); check(taken > 0, "the tool did not write"); }
    check(std::fs::read(&err).unwrap().is_empty(), "something is reported although the reader is gone");
}
/// The pager is left before it has shown everything.
fn h_c30_pager() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    let many = choice("many", 2) == 1;
    let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    if many { for i in 0..900 { packed += &format!("{} refs/heads/a-long-name-of-a-branch-which-is-one-of-many-in-the-listing-{:03}\n", id(0), i); } }
    r.file("packed-refs", packed.as_bytes());
    let (_, err) = start(&r.dir, REFS, &[b"git-recent-refs", b"--sort=committerdate"], b"", || unsafe { verif_on_spawn(leaving); verif_tty(2); });
    let st = wait();
    check(st == 13 || st == 0, "the tool does not end quietly when its pager is left");
    if st == 13 { reach("signal"); } else { reach("ended"); }
    check(std::fs::read(&err).unwrap().is_empty(), "something is reported although the pager is left");
}
}
