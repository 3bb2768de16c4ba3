//! Standard streams that fail.
use crate::repo::*;
use vrt::req::*;
use vrt::*;

const XFER: fn() -> i32 = scutiger_xfer_bin::verif_main;
const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;
const AT: fn() -> i32 = scutiger_at_bin::verif_main;
const HELLO: &[u8] = b"000eversion=1\n0000";

/// The whole replies among what was sent: how many, and whether each is well-formed.
fn whole(out: &[u8]) -> Vec<Reply> {
    let mut l = vec![];
    let mut at = 0;
    let mut from = 0;
    while at + 4 <= out.len() {
        let mut n = 0;
        for c in &out[at..at + 4] { n = n * 16 + match *c { b'0'..=b'9' => *c - b'0', b'a'..=b'f' => *c - b'a' + 10, _ => fail("what the server sent is not a sequence of packets") } as usize; }
        at += if n < 4 { 4 } else { n };
        if n == 0 && at <= out.len() {
            if from > 0 { match replies(&out[from..at]) { Some(mut r) => l.append(&mut r), None => fail("what the server sent is not a sequence of well-formed replies") } }
            from = at;
        }
    }
    l
}

harness! {
/// The tools.
fn h_c33_tools() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"first\n");
    r.commit(1, &[0], b"1000000001", b"1000000001", b"second\n");
    r.file("refs/heads/main", format!("{}\n", id(1)).as_bytes());
    r.file("refs/heads/old", format!("{}\n", id(0)).as_bytes());
    r.file("logs/HEAD", format!("{} {} A <a@example.org> 1000000000 +0000\tcheckout: moving from old to main\n", id(0), id(1)).as_bytes());
    let k = choice("what", 7) as usize;
    let (tool, args): (fn() -> i32, &[&[u8]]) = match k {
        0 => (AT, &[b"git-at", b"first"]),
        1 => (REFS, &[b"git-recent-refs"]),
        2 => (REFS, &[b"git-recent-refs", b"--sort=committerdate"]),
        3 => (AT, &[b"git-at", b"third"]),
        4 => (AT, &[b"git-at", b"-q", b"("]),
        5 => (AT, &[b"git-at", b"-q", b"third"]),
        _ => (AT, &[b"git-at", b"none", b"first"]),
    };
    let (status, out) = match k {
        0 => (0, format!("{}\n", id(0))),
        1 => (0, "refs/heads/main\nrefs/heads/old\n".to_string()),
        2 => (0, "refs/heads/main\nrefs/heads/old\n".to_string()),
        4 => (2, String::new()),
        _ => (1, String::new()),
    };
    let out = out.into_bytes();
    let o = run_with(&r.dir, tool, args, b"", || fault(WR | SHORT | STD));
    if status != 0 {
        reach("failed");
        check(o.out.is_empty(), "something is printed by a failure");
        check(o.status == status, "the status depends on whether the error can be reported");
    } else if o.out == out {
        reach("all is printed");
        check(o.status == 0, "the status is that of a failure although all is printed");
        check(o.err.is_empty(), "something is reported although all is printed");
    } else {
        reach("not all is printed");
        check(out.starts_with(&o.out), "what is printed is not the beginning of the right output");
        check(o.status != 0, "the status is that of a success although not all is printed");
        check(o.status == 2, "the status of a failure is not 2");
        if param("faults", 1) < 2 { check(!o.err.is_empty(), "a failure to print is not reported"); }
    }
}
/// A program which cannot be run.
fn h_c33_show() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"first\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    // (where no stand-in is registered nothing can be started)
    let o = run(&r.dir, AT, if choice("quiet", 2) == 1 { &[b"git-at", b"--show", b"-q", b"first"] } else { &[b"git-at", b"--show", b"first"] }, b"");
    reach("failed");
    check(o.status == 2 || o.status == 3, "the status is not that of a failure");
    check(o.out.is_empty(), "something is printed by a failure");
    check(!o.err.is_empty(), "a failure is not reported");
}
/// The server.
fn h_c33_server() {
    let r = Repo::new();
    let root = r.git.join("lfs");
    let up = choice("download", 2) == 0;
    let kept = vec![b'k'; 9000];
    let old = oid_of(&kept);
    let (a, b) = (vec![b'a'; 9000], b"little".to_vec());
    let (aid, bid) = (oid_of(&a), oid_of(&b));
    plant(&root, &old, &kept);
    let q = if up { Rq::new().put(&aid, "9000", &a).put(&bid, "6", &b).lock(b"path").list(&[]) } else { Rq::new().get(&old).version().get(&bid).get(&old).list(&[]) };
    let n = if up { 4 } else { 5 };
    let reading = choice("reading", 2) == 1;
    let o = run_with(&r.dir, XFER, &[b"git-lfs-transfer", b".", if up { b"upload" } else { b"download" }], &q.0, || fault(STD | if reading { RD } else { WR } | if choice("short", 2) == 1 { SHORT } else { 0 }));
    check(o.status == 0 || o.status == 2, "the status of a failure is not 2");
    check(o.out.len() < HELLO.len() && HELLO.starts_with(&o.out) || o.out.starts_with(HELLO), "the session does not begin with the server's version");
    let l = whole(&o.out);
    let got = l.len();
    check(got <= n, "more is replied than was asked");
    for (i, x) in l.iter().enumerate() {
        // (a request that cannot be read fails)
        if reading && i + 1 == got && x.code == 500 { check(o.status == 2, "the status is that of a success although a request could not be read"); continue; }
        check(x.ok() == (up || i != 2), "a request got the wrong reply");
        if !up && (i == 0 || i == 3) { check(x.joined() == kept, "something else than the object was sent"); }
    }
    if o.status == 0 {
        reach("done");
        check(got == n, "the status is that of a success although not all was replied");
        check(o.err.is_empty(), "something is reported although all went well");
    } else {
        reach("failed");
        if l.len() == n && l[n - 1].ok() { check(reading, "the status is that of a failure although all went well"); }
        if param("faults", 1) < 2 { check(!o.err.is_empty(), "a failure is not reported"); }
    }
    // what was replied has happened, and nothing that was not asked
    check(content(&root, &old).map_or(false, |x| x == kept), "an object was changed");
    let (ca, cb) = (content(&root, &aid), content(&root, &bid));
    check(ca.is_none() || ca == Some(a), "an object is not what was sent");
    check(cb.is_none() || cb == Some(b), "an object is not what was sent");
    check(empty_dir(&root.join("incomplete")), "an incomplete upload is left behind");
    let locks = names(&root.join("locks")).len();
    if up {
        let did = ca.is_some() as usize + cb.is_some() as usize + locks;
        check(ca.is_some() || did == 0, "a request was carried out although one before it was not");
        check(did >= l.iter().take(3).filter(|x| x.ok()).count(), "something was replied that did not happen");
        check(did <= got + 1, "requests are carried out although no reply can be sent");
    } else { check(locks == 0 && ca.is_none() && cb.is_none(), "a download session changed the store"); }
}
}
