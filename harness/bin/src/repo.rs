//! A Git repository written byte by byte, and running a tool in it.
use std::ffi::CString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vrt::*;

extern "C" {
    fn adler32(a: libc::c_ulong, b: *const u8, n: u32) -> libc::c_ulong;
    fn verif_args(argc: u64, argv: *const *const libc::c_char) -> u64;
}

pub struct Repo { pub dir: PathBuf, pub git: PathBuf }

/// The id of the n-th object.  (The tools turn off the verification of hashes, so these need not be.)
pub fn id(n: usize) -> String { format!("{:02x}{:038x}", 0x10 + n % 240, n + 1) }

impl Repo {
    pub fn new() -> Repo {
        let dir = scratch().join("r");
        let git = dir.join(".git");
        for d in ["", "objects", "refs", "refs/heads", "refs/tags"] { fs::create_dir_all(git.join(d)).unwrap(); }
        let r = Repo { dir, git };
        r.file("HEAD", b"ref: refs/heads/main\n");
        r.file("config", b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n");
        r
    }
    pub fn file(&self, name: &str, data: &[u8]) { let p = self.git.join(name); fs::create_dir_all(p.parent().unwrap()).unwrap(); fs::write(p, data).unwrap(); }
    /// A loose object.
    pub fn object(&self, id: &str, kind: &str, data: &[u8]) {
        let mut raw = format!("{} {}\0", kind, data.len()).into_bytes();
        raw.extend_from_slice(data);
        let n = raw.len() as u16;
        let mut z = vec![0x78, 0x01, 0x01, n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8];
        z.extend_from_slice(&raw);
        let a = unsafe { adler32(1, raw.as_ptr(), raw.len() as u32) } as u32;
        z.extend_from_slice(&a.to_be_bytes());
        self.file(&format!("objects/{}/{}", &id[..2], &id[2..]), &z);
    }
    pub fn commit(&self, n: usize, parents: &[usize], author: &[u8], committer: &[u8], message: &[u8]) { self.commit_tz(n, parents, &[author, b" +0000"].concat(), &[committer, b" +0000"].concat(), message) }
    pub fn commit_tz(&self, n: usize, parents: &[usize], author: &[u8], committer: &[u8], message: &[u8]) {
        let mut c = format!("tree {}\n", id(90)).into_bytes();
        for p in parents { c.extend_from_slice(format!("parent {}\n", id(*p)).as_bytes()); }
        c.extend_from_slice(b"author A <a@example.org> ");
        c.extend_from_slice(author);
        c.extend_from_slice(b"\ncommitter C <c@example.org> ");
        c.extend_from_slice(committer);
        c.extend_from_slice(b"\n\n");
        c.extend_from_slice(message);
        self.object(&id(n), "commit", &c);
    }
}

pub struct Outcome { pub status: i32, pub out: Vec<u8>, pub err: Vec<u8> }
fn redirect(p: &Path, fd: i32, flags: i32) {
    let c = CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { let f = libc::open(c.as_ptr(), flags, 0o600); libc::dup2(f, fd); libc::close(f); }
}
/// The home directory of whoever runs a tool: there is none unless a harness makes it.
pub fn home() -> PathBuf { scratch().join("home") }
/// The user's own configuration.
pub fn user_config(data: &[u8]) { let h = home(); fs::create_dir_all(&h).unwrap(); fs::write(h.join(".gitconfig"), data).unwrap(); }
/// Run a tool's main program in another process; None when it was killed.
pub fn run(dir: &Path, main: fn() -> i32, args: &[&[u8]], input: &[u8]) -> Outcome { run_with(dir, main, args, input, || ()) }
/// The same after some preparation in that process.
pub fn run_with(dir: &Path, main: fn() -> i32, args: &[&[u8]], input: &[u8], prepare: impl FnOnce()) -> Outcome {
    let (o, e) = start(dir, main, args, input, prepare);
    let st = wait();
    check(st & 0x7f == 0, "the tool was ended by a signal");
    Outcome { status: st >> 8, out: fs::read(&o).unwrap(), err: fs::read(&e).unwrap() }
}
/// Start a tool: the files its output and error messages go to.
pub fn start(dir: &Path, main: fn() -> i32, args: &[&[u8]], input: &[u8], prepare: impl FnOnce()) -> (PathBuf, PathBuf) {
    let s = scratch();
    let (i, o, e) = (s.join("in"), s.join("out"), s.join("err"));
    fs::write(&i, input).unwrap();
    if fork() {
        std::env::set_current_dir(dir).unwrap();
        redirect(&i, 0, libc::O_RDONLY);
        redirect(&o, 1, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC);
        redirect(&e, 2, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC);
        let l: Vec<CString> = args.iter().map(|a| CString::new(*a).unwrap()).collect();
        let mut v: Vec<*const libc::c_char> = l.iter().map(|a| a.as_ptr()).collect();
        v.push(std::ptr::null());
        unsafe { verif_args(l.len() as u64, v.as_ptr()); }
        std::mem::forget((l, v));
        std::env::set_var("HOME", home());
        std::env::remove_var("XDG_CONFIG_HOME");
        // (as Rust's runtime does before main)
        unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
        prepare();
        let c = main();
        std::process::exit(c)
    }
    (o, e)
}
/// A pipe: (the end to read from, the end to write to).
pub fn pipe() -> (i32, i32) { let mut p = [0i32; 2]; unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC); } (p[0], p[1]) }
pub fn close(fd: i32) { unsafe { libc::close(fd); } }
pub fn read_some(fd: i32, n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; let k = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, n) }; b.truncate(k.max(0) as usize); b }
pub fn write_all(fd: i32, mut b: &[u8]) -> bool { while !b.is_empty() { let k = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) }; if k <= 0 { return false; } b = &b[k as usize..]; } true }
