//! Building requests, and looking at a store without the code under test.
use sha2::{Digest, Sha256};
use std::path::{Path, PathBuf};
use crate::*;

pub fn oid_of(data: &[u8]) -> Vec<u8> { let mut h = Sha256::new(); h.update(data); hex::encode(h.finalize()).into_bytes() }
pub fn lock_id(path: &[u8]) -> Vec<u8> { let mut v = b"v1:".to_vec(); v.extend_from_slice(path); oid_of(&v) }
pub fn s(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
pub fn obj_path(root: &Path, oid: &[u8]) -> PathBuf { root.join("objects").join(s(&oid[..2])).join(s(&oid[2..4])).join(s(oid)) }
/// Put an object into the store without the code under test.
pub fn plant(root: &Path, oid: &[u8], data: &[u8]) { let p = obj_path(root, oid); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, data).unwrap(); }
pub fn plant_lock(root: &Path, path: &[u8], time: &str) -> Vec<u8> {
    let id = lock_id(path);
    let mut v = b"v1:".to_vec(); v.extend_from_slice(time.as_bytes()); v.push(b':'); v.extend_from_slice(path);
    std::fs::write(root.join("locks").join(s(&id)), v).unwrap();
    id
}
pub fn content(root: &Path, oid: &[u8]) -> Option<Vec<u8>> { std::fs::read(obj_path(root, oid)).ok() }
pub fn names(dir: &Path) -> Vec<Vec<u8>> {
    use std::os::unix::ffi::OsStringExt;
    let mut v: Vec<Vec<u8>> = match std::fs::read_dir(dir) { Ok(d) => d.map(|e| e.unwrap().file_name().into_vec()).collect(), Err(_) => vec![] };
    v.sort();
    v
}
pub fn empty_dir(dir: &Path) -> bool { names(dir).is_empty() }
pub fn nobjects(root: &Path) -> usize {
    let mut n = 0;
    let o = root.join("objects");
    for a in names(&o) { let a = o.join(s(&a)); for b in names(&a) { let b = a.join(s(&b)); n += names(&b).len(); } }
    n
}

/// Requests.
pub struct Rq(pub Vec<u8>);
impl Rq {
    pub fn new() -> Rq { Rq(vec![]) }
    pub fn p(mut self, d: &[u8]) -> Rq { pkt(&mut self.0, d); self }
    pub fn p2(self, a: &[u8], b: &[u8]) -> Rq { let mut v = a.to_vec(); v.extend_from_slice(b); self.p(&v) }
    pub fn line(self, a: &[u8], b: &[u8]) -> Rq { let mut v = a.to_vec(); v.extend_from_slice(b); v.push(b'\n'); self.p(&v) }
    pub fn f(mut self) -> Rq { flush(&mut self.0); self }
    pub fn d(mut self) -> Rq { delim(&mut self.0); self }
    pub fn raw(mut self, b: &[u8]) -> Rq { self.0.extend_from_slice(b); self }
    pub fn put(self, oid: &[u8], size: &str, data: &[u8]) -> Rq {
        let mut r = self.line(b"put-object ", oid).line(b"size=", size.as_bytes()).d();
        for c in data.chunks(65516) { r = r.p(c); }
        r.f()
    }
    pub fn get(self, oid: &[u8]) -> Rq { self.line(b"get-object ", oid).f() }
    pub fn verify(self, oid: &[u8], size: &str) -> Rq { self.line(b"verify-object ", oid).line(b"size=", size.as_bytes()).f() }
    pub fn lock(self, path: &[u8]) -> Rq { self.line(b"lock", b"").line(b"path=", path).line(b"refname=", b"refs/heads/main").f() }
    pub fn unlock(self, id: &[u8]) -> Rq { self.line(b"unlock ", id).f() }
    pub fn list(self, args: &[&[u8]]) -> Rq { let mut r = self.line(b"list-lock", b""); for a in args { r = r.line(a, b""); } r.f() }
    pub fn version(self) -> Rq { self.line(b"version 1", b"").f() }
    pub fn quit(self) -> Rq { self.line(b"quit", b"").f() }
}

/// The value of a decimal number that fits in 64 bits (a plus sign is tolerated).
pub fn dec(b: &[u8]) -> Option<u64> {
    let b = if b.len() > 1 && b[0] == b'+' { &b[1..] } else { b };
    if b.is_empty() { return None; }
    let mut v = 0u64;
    for c in b {
        if !(*c >= b'0' && *c <= b'9') { return None; }
        v = v.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    Some(v)
}
/// Everything under a directory: path relative to it and content (None for a directory), sorted.
pub fn tree(dir: &Path) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
    use std::os::unix::ffi::OsStrExt;
    let mut out = vec![];
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    while let Some(d) = todo.pop() {
        let full = if d.is_empty() { dir.to_path_buf() } else { dir.join(std::ffi::OsStr::from_bytes(&d)) };
        for n in names(&full) {
            let mut rel = d.clone();
            if !rel.is_empty() { rel.push(b'/'); }
            rel.extend_from_slice(&n);
            let p = dir.join(std::ffi::OsStr::from_bytes(&rel));
            if p.is_dir() { out.push((rel.clone(), None)); todo.push(rel); } else { out.push((rel, Some(std::fs::read(&p).unwrap()))); }
        }
    }
    out.sort();
    out
}
/// What matters of a store: objects and locks; empty directories under objects do not.
pub fn state(root: &Path) -> Vec<(Vec<u8>, Option<Vec<u8>>)> { tree(root).into_iter().filter(|x| x.1.is_some()).collect() }

/// What a concurrent or crashing process reports: memory shared with the parent.
pub struct Slot(&'static mut [u8]);
impl Slot {
    pub fn new() -> Slot { Slot(shared(2048)) }
    /// How many replies were sent in full, and whether the process came to its end.
    pub fn put(&mut self, b: &[u8]) {
        let n = self.0[0] as usize | (self.0[1] as usize) << 8;
        if n + b.len() + 3 > self.0.len() { fail("a slot is too small") }
        self.0[3 + n..3 + n + b.len()].copy_from_slice(b);
        let m = n + b.len();
        self.0[0] = m as u8;
        self.0[1] = (m >> 8) as u8;
    }
    pub fn out(&self) -> Vec<u8> { let n = self.0[0] as usize | (self.0[1] as usize) << 8; self.0[3..3 + n].to_vec() }
    pub fn finish(&mut self) { self.0[2] = 1; }
    pub fn finished(&self) -> bool { self.0[2] == 1 }
    /// The replies of a process which came to its end.
    pub fn replies(&self) -> Vec<Reply> { check(self.finished(), "a session did not come to its end"); match replies(&self.out()) { Some(r) => r, None => { note_bytes(&self.out()); fail("what the server sent is not a sequence of well-formed replies") } } }
}
/// A writer into a slot.
pub struct Into_<'a>(pub &'a mut Slot);
impl<'a> std::io::Write for Into_<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.put(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn contains(hay: &[u8], needle: &[u8]) -> bool { hay.len() >= needle.len() && (0..=hay.len() - needle.len()).any(|i| &hay[i..i + needle.len()] == needle) }
