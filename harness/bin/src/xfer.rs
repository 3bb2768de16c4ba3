//! git-lfs-transfer
use crate::repo::*;
use vrt::req::*;
use std::os::unix::fs::MetadataExt;
use std::path::Path;
use vrt::*;

const XFER: fn() -> i32 = scutiger_xfer_bin::verif_main;
const HELLO: &[u8] = b"000eversion=1\n0000";

fn serve(r: &Repo, op: &[u8], input: &[u8]) -> Outcome { run(&r.dir, XFER, &[b"git-lfs-transfer", b".", op], input) }
fn answers(o: &Outcome) -> Vec<Reply> {
    check(o.out.starts_with(HELLO), "the session does not begin with the server's version");
    match replies(&o.out[HELLO.len()..]) { Some(x) => x, None => fail("what the server sent is not a sequence of well-formed replies") }
}
fn all(dir: &Path, out: &mut Vec<(std::path::PathBuf, u32)>) {
    let m = std::fs::symlink_metadata(dir).unwrap();
    out.push((dir.to_path_buf(), m.mode()));
    if m.is_dir() { for n in names(dir) { all(&dir.join(s(&n)), out); } }
}

harness! {
/// The permissions of what a session stores.
fn h_c21() {
    let r = Repo::new();
    let u = sym_u32("umask") & 0o777;
    let named: [&[u8]; 20] = [b"false", b"no", b"off", b"0", b"umask", b"FALSE", b"true", b"yes", b"on", b"1", b"group", b"True", b"\"group\"", b"all", b"world", b"everybody", b"2", b"00", b"\"all\"", b"\"\""];
    // what is permitted to whom: None = whatever the umask leaves
    let (text, mode): (Vec<u8>, Option<u32>) = match choice("kind", 5) {
        0 => (vec![], None),
        1 => {
            let k = choice("name", 20) as usize;
            let v = named[k];
            (["\tsharedRepository = ".as_bytes(), v, b"\n"].concat(), if k < 6 || k == 17 || k == 19 { None } else if k < 13 { Some(0o660) } else { Some(0o664) })
        }
        // no value means true
        2 => (b"\tsharedRepository\n".to_vec(), Some(0o660)),
        // a mode
        k => {
            let n = if k == 3 { 3 } else { 4 };
            let d: Vec<u8> = sym_vec("digit", n).iter().map(|c| b'0' | *c & 7).collect();
            let m = d.iter().fold(0, |m, c| m << 3 | (*c & 7) as u32);
            // less than that has other meanings
            assume(m > 7);
            (["\tsharedrepository = ".as_bytes(), if choice("zero", 2) == 1 { b"0" } else { b"" }, &d, b"\n"].concat(), Some(m & 0o777))
        }
    };
    let config = [&b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n"[..], &text].concat();
    // the setting may be the repository's, or the user's, or one may override the other
    let place = if text.is_empty() { 0 } else { choice("place", 3) };
    r.file("config", if place == 1 { b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n" } else { &config });
    if place > 0 { user_config(&[&b"[core]\n"[..], if place == 1 { &text } else { b"\tsharedRepository = 0604\n" }].concat()); }
    let data = b"content".to_vec();
    let oid = oid_of(&data);
    let up = choice("download", 2) == 0;
    let o = run_with(&r.dir, XFER, &[b"git-lfs-transfer", b".", if up { b"upload" } else { b"download" }], &Rq::new().put(&oid, "7", &data).lock(b"path").0, || unsafe { libc::umask(u as libc::mode_t); });
    check(o.status == 0, "the session failed");
    let a = answers(&o);
    check(a.len() == 2, "not one reply to each request");
    for x in &a { check(x.ok() == up, "a request got the wrong reply"); }
    let allowed = match mode { None => 0o777 & !u, Some(m) => m | (m & 0o444) >> 2 };
    match mode { None => reach("umask"), Some(_) => reach("mode") }
    let mut l = vec![];
    let root = r.git.join("lfs");
    all(&root, &mut l);
    let obj = obj_path(&root, &oid);
    check(l.len() == if up { 9 } else { 5 }, "something else is stored");
    for (p, m) in &l {
        let perm = m & 0o7777;
        check(perm & !allowed == 0, "something stored gives more access than was asked for");
        if m & 0o170000 == 0o040000 || *p == obj { check(perm == allowed, "a directory or an object does not give the access that was asked for"); }
        else { check(perm == allowed & 0o666, "a lock does not give the access that was asked for"); }
    }
}
/// The kind of session follows from the operation on the command line.
fn h_c11_operation() {
    let r = Repo::new();
    let root = r.git.join("lfs");
    let kept = b"kept content".to_vec();
    let old = oid_of(&kept);
    let p = obj_path(&root, &old);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, &kept).unwrap();
    let before = state(&root);
    let op: Vec<u8> = match choice("kind", 4) {
        0 => b"upload".to_vec(),
        1 => b"download".to_vec(),
        2 => { let mut v = if choice("base", 2) == 0 { b"upload".to_vec() } else { b"download".to_vec() }; let i = choice("at", v.len() as u64) as usize; v[i] = sym_u8("byte"); v }
        _ => { let v = sym_vec("operation", choice("length", 3) as usize); v }
    };
    // arguments are text without NULs, and options are not operations
    for c in &op { assume(*c != 0 && *c < 0x80); }
    assume(op.first() != Some(&b'-'));
    let data = b"new".to_vec();
    let new = oid_of(&data);
    let o = serve(&r, &op, &Rq::new().put(&new, "3", &data).get(&old).lock(b"path").0);
    let shown = contains(&o.out, b"kept content");
    let after = state(&root);
    if op == b"upload" {
        reach("upload");
        let a = answers(&o);
        check(o.status == 0 && a.len() == 3 && a[0].ok() && !a[1].ok() && a[2].ok(), "an upload session does not do its work");
        check(!shown, "an upload session sent object content");
        check(after.len() == before.len() + 2, "an upload session did not store what it was sent");
    } else if op == b"download" {
        reach("download");
        let a = answers(&o);
        check(o.status == 0 && a.len() == 3 && !a[0].ok() && a[1].ok() && !a[2].ok(), "a download session does not do its work");
        check(shown, "a download session did not send the object");
        check(after == before, "a download session changed the store");
    } else {
        reach("unknown");
        check(o.status == 2, "the status of an unknown operation is not 2");
        check(!shown, "a session of no kind sent object content");
        check(after == before, "a session of no kind changed the store");
        check(!o.err.is_empty(), "an unknown operation is not reported");
    }
}
/// The status when the server cannot do its work.
fn h_c27_transfer() {
    let r = Repo::new();
    let root = r.git.join("lfs");
    match choice("what", 3) {
        0 => { std::fs::write(&root, b"").unwrap(); }
        1 => { let d = choice("which", 4) as usize; std::fs::create_dir_all(&root).unwrap(); std::fs::write(root.join(["objects", "incomplete", "tmp", "locks"][d]), b"").unwrap(); }
        _ => {}
    }
    let o = if root.exists() { serve(&r, b"upload", b"") } else { let n = choice("bad", 2) as usize; serve(&r, b"upload", [b"0003", b"zzzz"][n]) };
    reach("failed");
    check(o.status == 2, "the status of a failure is not 2");
    check(!o.err.is_empty(), "a failure is not reported");
}
/// The statuses of the tools which read a repository.
fn h_c27_refs() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    let c = choice("packed", 3) as usize;
    r.file("packed-refs", [&b"garbage\n"[..], b"1234 refs/heads/x\n", b"^\n"][c]);
    let o = run(&r.dir, scutiger_refs_bin::verif_main, &[b"git-recent-refs", if choice("author", 2) == 1 { b"--sort=authordate" } else { b"--sort=committerdate" }], b"");
    reach("failed");
    check(o.status == 2, "the status of a failure is not 2");
    check(o.out.is_empty(), "something is printed by a failure");
    check(!o.err.is_empty(), "a failure is not reported");
}
}
