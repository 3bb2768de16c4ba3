//! The pager of git-recent-refs
use crate::repo::*;
use std::ffi::{CStr, OsStr};
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use vrt::*;

extern "C" {
    fn verif_tty(mask: u64) -> u64;
    fn verif_on_spawn(f: extern "C" fn(*const libc::c_char, *const *const libc::c_char) -> i32) -> u64;
}
const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;

/// Stands in for every program that is started: it writes how it was called, then its input, and a mark
/// when that has ended.
extern "C" fn pager(file: *const libc::c_char, argv: *const *const libc::c_char) -> i32 {
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
    let mut a = argv;
    let mut call = b"[".to_vec();
    unsafe {
        call.extend_from_slice(CStr::from_ptr(file).to_bytes());
        while !(*a).is_null() { call.push(0); call.extend_from_slice(CStr::from_ptr(*a).to_bytes()); a = a.add(1); }
    }
    call.extend_from_slice(b"]\n");
    out.write_all(&call).unwrap();
    let mut inp = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) };
    let mut buf = [0u8; 256];
    loop {
        let n = inp.read(&mut buf).unwrap();
        if n == 0 { break; }
        out.write_all(&buf[..n]).unwrap();
    }
    slow();
    out.write_all(b"[end]\n").unwrap();
    0
}
extern "C" { fn usleep(n: u32) -> i32; }
fn slow() { unsafe { usleep(60000); } }

/// A setting: absent, or any short text.
fn setting(name: &str, max: u64) -> Option<Vec<u8>> {
    let k = choice(name, max + 2);
    if k == 0 { return None; }
    let v = sym_vec(name, k as usize - 1);
    for b in &v { assume(*b != 0); }
    Some(v)
}

harness! {
fn h_c28() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    let len = param("len", 3);
    let tty = choice("terminal", 8);
    let env = setting("GIT_PAGER", len);
    let user = setting("PAGER", len);
    let mut conf = None;
    let k = choice("config", len + 3);
    // the setting may be the repository's, or the user's, or one may override the other
    let base = b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n";
    let place = if k > 0 { choice("place", 3) } else { 0 };
    let put = |text: &[u8]| {
        if place == 1 { user_config(&[b"[core]\n", text].concat()); } else { r.file("config", &[base, text].concat()); }
        if place == 2 { user_config(b"[core]\n\tpager = other\n"); }
    };
    if k == 1 {
        put(b"\tpager\n");
        conf = Some(vec![]);
    } else if k > 1 {
        let v = sym_vec("core.pager", k as usize - 2);
        for b in &v { assume(*b != 0 && *b != b'"' && *b != b'\\' && *b != b'\n' && *b != b'\r'); }
        put(&[b"\tpager = \"", &v[..], b"\"\n"].concat());
        conf = Some(v);
    }
    let (e, u) = (env.clone(), user.clone());
    let o = run_with(&r.dir, REFS, &[b"git-recent-refs", b"--sort=authordate"], b"", move || {
        for (n, v) in [("GIT_PAGER", e), ("PAGER", u)] { match v { Some(v) => std::env::set_var(n, OsStr::from_bytes(&v)), None => std::env::remove_var(n) } }
        unsafe { verif_on_spawn(pager); verif_tty(tty); }
    });
    reach("ran");
    let listing = b"refs/heads/main\n";
    let c = env.or(conf).or(user).unwrap_or_else(|| b"less".to_vec());
    let paged = tty & 2 != 0 && !c.is_empty() && c != b"cat";
    if paged {
        reach("paged");
        let call = [b"[sh\0sh\0-c\0", &c[..], b"]\n"].concat();
        check(o.out.starts_with(b"["), "the output is not paged");
        check(o.out.starts_with(&call), "another pager than the chosen one is started");
        let rest = &o.out[call.len()..];
        check(rest.starts_with(listing), "the pager does not get the listing");
        check(&rest[listing.len()..] == b"[end]\n", "the program ends before its pager");
    } else {
        check(!o.out.starts_with(b"["), "the output is paged");
        check(o.out == listing, "the listing is not what is written");
    }
    check(o.status == 0 && o.err.is_empty(), "something is reported");
}
}
