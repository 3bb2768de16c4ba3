//! Where the repository is, and what it is called.
use crate::repo::*;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vrt::req::*;
use vrt::*;

const XFER: fn() -> i32 = scutiger_xfer_bin::verif_main;
const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;
const AT: fn() -> i32 = scutiger_at_bin::verif_main;
const HELLO: &[u8] = b"000eversion=1\n0000";

/// A name of a directory.
fn name() -> Vec<u8> {
    let n = 1 + choice("length", param("name", 2)) as usize;
    let v = sym_vec("name", n);
    for c in &v { assume((*c != 0) & (*c != b'/')); }
    assume(v[0] != b'.');
    v
}
fn p(d: &Path, n: &[u8]) -> PathBuf { d.join(OsStr::from_bytes(n)) }
/// A repository below this directory: (its working tree or itself, its Git directory).
fn build(base: &Path, name: &[u8], kind: u64) -> (PathBuf, PathBuf) {
    let top = p(base, name);
    let git = match kind { 1 => top.clone(), 2 | 4 => p(base, b"elsewhere"), _ => top.join(".git") };
    for d in ["", "objects", "refs", "refs/heads", "refs/tags"] { fs::create_dir_all(git.join(d)).unwrap(); }
    let r = Repo { dir: top.clone(), git: git.clone() };
    r.file("HEAD", b"ref: refs/heads/main\n");
    r.file("config", if kind == 1 { b"[core]\n\trepositoryformatversion = 0\n\tbare = true\n" } else { b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n" });
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    r.file("logs/HEAD", b"");
    match kind {
        2 => { fs::create_dir(&top).unwrap(); fs::write(top.join(".git"), b"gitdir: ../elsewhere\n").unwrap(); }
        4 => { fs::create_dir(&top).unwrap(); fs::write(top.join(".git"), [b"gitdir: ", git.as_os_str().as_bytes(), b"\n"].concat()).unwrap(); }
        // a linked working tree
        3 => {
            let w = p(base, b"linked");
            fs::create_dir(&w).unwrap();
            r.file("worktrees/l/HEAD", b"ref: refs/heads/other\n");
            r.file("worktrees/l/commondir", b"../..\n");
            r.file("worktrees/l/gitdir", &[w.join(".git").as_os_str().as_bytes(), b"\n"].concat());
            r.commit(1, &[], b"1000000000", b"900000000", b"text\n");
            r.file("refs/heads/other", format!("{}\n", id(1)).as_bytes());
            fs::write(w.join(".git"), [b"gitdir: ", git.join("worktrees/l").as_os_str().as_bytes(), b"\n"].concat()).unwrap();
            return (w, git);
        }
        _ => {}
    }
    (top, git)
}
fn answers(o: &Outcome) -> Vec<Reply> {
    check(o.out.starts_with(HELLO), "the session does not begin with the server's version");
    match replies(&o.out[HELLO.len()..]) { Some(x) => x, None => fail("what the server sent is not a sequence of well-formed replies") }
}
fn tree(d: &Path, out: &mut Vec<PathBuf>) {
    out.push(d.to_path_buf());
    if fs::symlink_metadata(d).unwrap().is_dir() { for n in names(d) { tree(&p(d, &n), out); } }
}

harness! {
/// The tools find the repository around the working directory.
fn h_c31_tools() {
    let base = scratch().join("b");
    fs::create_dir(&base).unwrap();
    let kind = choice("kind", 5);
    let (top, git) = build(&base, &name(), kind);
    let from = match choice("from", 4) {
        0 => top.clone(),
        1 => { let d = p(&top, &[b"s", &sym_vec("sub", 1)[..]].concat()); assume(d.as_os_str().as_bytes().last().map_or(false, |c| (*c != 0) & (*c != b'/'))); fs::create_dir(&d).unwrap(); d }
        2 => { let d = top.join("sub/deeper/down"); fs::create_dir_all(&d).unwrap(); d }
        _ => git.join("refs/heads"),
    };
    let head = if kind == 3 && !from.starts_with(&git) { 1 } else { 0 };
    let o = match choice("tool", 3) {
        0 => run(&from, AT, &[b"git-at", b"text"], b""),
        1 => { let o = run(&from, REFS, &[b"git-recent-refs"], b""); check(o.status == 0, "the tool failed"); check(o.out == [&b"refs/heads/main\n"[..], b"refs/heads/other\n"][head], "another HEAD is shown"); reach("refs"); return 0; }
        _ => { let o = run(&from, REFS, &[b"git-recent-refs", b"--sort=committerdate"], b""); check(o.status == 0, "the tool failed"); check(o.out == if kind == 3 { &b"refs/heads/main\nrefs/heads/other\n"[..] } else { b"refs/heads/main\n" }, "other references are shown"); reach("refs"); return 0; }
    };
    reach("at");
    check(o.status == 0 && o.err.is_empty(), "the tool failed");
    check(o.out == format!("{}\n", id(head)).as_bytes(), "another commit is found");
}
/// Without a repository.
fn h_c31_none() {
    let base = scratch().join("b");
    let n = name();
    let d = p(&base, &n);
    fs::create_dir_all(&d).unwrap();
    match choice("what", 7) {
        0 => {}
        // something that looks like one
        1 => { fs::create_dir(d.join(".git")).unwrap(); }
        2 => { fs::write(d.join(".git"), sym_vec("link", choice("bytes", 4) as usize)).unwrap(); }
        3 => { fs::write(d.join(".git"), b"gitdir: ../nowhere\n").unwrap(); }
        4 => { for x in ["objects", "refs"] { fs::create_dir_all(d.join(".git").join(x)).unwrap(); } }
        5 => { for x in ["objects", "HEAD"] { fs::create_dir_all(d.join(".git").join(x)).unwrap(); } }
        _ => { for x in ["objects", "refs"] { fs::create_dir_all(d.join(".git").join(x)).unwrap(); } fs::write(d.join(".git/HEAD"), b"ref: refs/heads/main\n").unwrap(); fs::write(d.join(".git/config"), b"[core]\n\trepositoryformatversion = 9\n").unwrap(); }
    }
    let mut before = vec![];
    tree(&base, &mut before);
    let tool = choice("tool", 4);
    // (an argument that begins with a hyphen is an option)
    if tool == 3 { assume(n[0] != b'-'); }
    let o = match tool {
        0 => run(&d, AT, &[b"git-at", b"text"], b""),
        1 => run(&d, REFS, &[b"git-recent-refs"], b""),
        2 => run(&d, XFER, &[b"git-lfs-transfer", b".", b"upload"], &Rq::new().put(&oid_of(b"new"), "3", b"new").0),
        _ => run(&base, XFER, &[b"git-lfs-transfer", &n, b"upload"], &Rq::new().put(&oid_of(b"new"), "3", b"new").0),
    };
    reach("none");
    check(o.status == 4, "the status without a repository is not 4");
    check(o.out.is_empty(), "something is printed without a repository");
    check(!o.err.is_empty(), "the lack of a repository is not reported");
    let mut after = vec![];
    tree(&base, &mut after);
    check(before == after, "something is stored without a repository");
}
/// Everything is kept in the repository, however it is named.
fn h_c31_store() {
    let base = scratch().join("b");
    fs::create_dir(&base).unwrap();
    let n = name();
    // (not a linked working tree)
    let kind = [0, 1, 2, 4][choice("kind", 4) as usize];
    let (top, git) = build(&base, &n, kind);

    std::os::unix::fs::symlink(OsStr::from_bytes(&n), base.join("alias")).unwrap();
    fs::create_dir(base.join("zz0")).unwrap();
    let way = |k: u64| -> (PathBuf, Vec<u8>) {
        match k {
            0 => (base.clone(), n.clone()),
            1 => (top.clone(), b".".to_vec()),
            2 => (base.clone(), [&b"./"[..], &n, b"/"].concat()),
            3 => (base.join("zz0"), [&b"../"[..], &n].concat()),
            4 => (scratch().to_path_buf(), top.as_os_str().as_bytes().to_vec()),
            5 => (base.clone(), b"alias".to_vec()),
            6 => (git.clone(), b".".to_vec()),
            _ => (base.join("zz0"), git.as_os_str().as_bytes().to_vec()),
        }
    };
    let mut before = vec![];
    tree(&base, &mut before);
    let old = b"kept content".to_vec();
    let oid = oid_of(&old);
    let (d, w) = way(choice("first", 8));
    // (an argument that begins with a hyphen is an option)
    assume(w[0] != b'-');
    let o = run(&d, XFER, &[b"git-lfs-transfer", &w, b"upload"], &Rq::new().put(&oid, "12", &old).lock(b"path").0);
    check(o.status == 0 && o.err.is_empty(), "the session failed");
    let a = answers(&o);
    check(a.len() == 2 && a[0].ok() && a[1].ok(), "an upload session does not do its work");
    let root = git.join("lfs");
    check(content(&root, &oid) == Some(old.clone()), "the object is not stored in the repository's lfs directory");
    let (d, w) = way(choice("second", param("ways", 3)));
    assume(w[0] != b'-');
    let o = run(&d, XFER, &[b"git-lfs-transfer", &w, b"download"], &Rq::new().get(&oid).list(&[]).0);
    check(o.status == 0 && o.err.is_empty(), "the session failed");
    let a = answers(&o);
    check(a.len() == 2 && a[0].ok() && a[1].ok(), "a download session does not do its work");
    check(a[0].joined() == old, "what was stored is not returned");
    check(contains(&a[1].joined(), b"path "), "the lock is not listed");
    reach("found");
    let mut after = vec![];
    tree(&base, &mut after);
    after.retain(|x| !x.starts_with(&root));
    check(before == after, "something is stored outside of the repository's lfs directory");
}
}
