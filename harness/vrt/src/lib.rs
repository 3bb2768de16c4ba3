//! Harness runtime: thin wrappers over the intrinsics.  Under the symbolic executor the intrinsics are
//! modelled by the engine; in a replay they are provided by native/shim.c, which reads the counterexample.
use std::io;
use std::path::PathBuf;

mod raw {
    extern "C" {
        pub fn verif_sym(name: *const u8, nlen: u64, buf: *mut u8, n: u64) -> u64;
        pub fn verif_choice(name: *const u8, nlen: u64, n: u64) -> u64;
        pub fn verif_assume(b: i32) -> u64;
        pub fn verif_assert(b: i32, msg: *const u8, n: u64) -> u64;
        pub fn verif_reach(msg: *const u8, n: u64) -> u64;
        pub fn verif_sched(on: u64) -> u64;
        pub fn verif_crash(on: u64) -> u64;
        pub fn verif_fault(mask: u64) -> u64;
        pub fn verif_guard(p: *const u8, n: u64) -> u64;
        pub fn verif_shared(n: u64) -> *mut u8;
        pub fn verif_param(name: *const u8, nlen: u64, def: u64) -> u64;
        pub fn verif_scratch(buf: *mut u8, cap: u64) -> u64;
        pub fn verif_clock(start: u64) -> u64;
        pub fn verif_pin(v: u64) -> u64;
        pub fn verif_note(s: *const u8, n: u64) -> u64;
        pub fn verif_debug(s: *const u8, n: u64) -> u64;
        pub fn verif_fork() -> i32;
        pub fn verif_uid(uid: u64) -> u64;
        pub fn verif_settle() -> u64;
        pub fn verif_heap() -> u64;
        pub fn waitpid(pid: i32, st: *mut i32, fl: i32) -> i32;
        pub fn _exit(c: i32) -> !;
    }
}

/// Fill `buf` with arbitrary bytes.
pub fn sym(name: &str, buf: &mut [u8]) { unsafe { raw::verif_sym(name.as_ptr(), name.len() as u64, buf.as_mut_ptr(), buf.len() as u64); } }
pub fn sym_vec(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; sym(name, &mut v); v }
pub fn sym_u8(name: &str) -> u8 { let mut b = [0u8; 1]; sym(name, &mut b); b[0] }
pub fn sym_u32(name: &str) -> u32 { let mut b = [0u8; 4]; sym(name, &mut b); u32::from_le_bytes(b) }
pub fn sym_u64(name: &str) -> u64 { let mut b = [0u8; 8]; sym(name, &mut b); u64::from_le_bytes(b) }
/// An arbitrary value below n; the paths fork over it.
pub fn choice(name: &str, n: u64) -> u64 { unsafe { raw::verif_choice(name.as_ptr(), name.len() as u64, n) } }
pub fn assume(b: bool) { unsafe { raw::verif_assume(b as i32); } }
pub fn check(b: bool, msg: &str) { unsafe { raw::verif_assert(b as i32, msg.as_ptr(), msg.len() as u64); } }
pub fn fail(msg: &str) -> ! { check(false, msg); exit(3) }
/// Vacuity guard: the label must be reached on some path.
pub fn reach(l: &str) { unsafe { raw::verif_reach(l.as_ptr(), l.len() as u64); } }
pub fn sched(on: bool) { unsafe { raw::verif_sched(on as u64); } }
/// (Only operations of processes which are being scheduled can be killed or fail.)
pub fn crash(on: bool) { sched(on); unsafe { raw::verif_crash(on as u64); } }
pub fn fault(mask: u64) { sched(mask != 0); unsafe { raw::verif_fault(mask); } }
/// Operations that may fail: 1 = writes, 2 = name space and metadata, 4 = reads; 8 = also with EACCES; 16 = reads and writes may be short; 32 = only those of the standard streams.
pub const WR: u64 = 1;
pub const META: u64 = 2;
pub const RD: u64 = 4;
pub const DENY: u64 = 8;
/// ... or all of them
pub const DENIED: u64 = 64;
pub const SHORT: u64 = 16;
pub const STD: u64 = 32;
/// From now on it is an error for this process to use a path that does not lead into `dir`.
pub fn guard(dir: &std::path::Path) { use std::os::unix::ffi::OsStrExt; let b = dir.as_os_str().as_bytes(); unsafe { raw::verif_guard(b.as_ptr(), b.len() as u64); } }
pub fn unguard() { unsafe { raw::verif_guard(std::ptr::null(), 0); } }
pub fn shared(n: usize) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(raw::verif_shared(n as u64), n) } }
pub fn param(name: &str, def: u64) -> u64 { unsafe { raw::verif_param(name.as_ptr(), name.len() as u64, def) } }
pub fn clock(start: u64) { unsafe { raw::verif_clock(start); } }
pub fn pin(v: u64) -> u64 { unsafe { raw::verif_pin(v) } }
pub fn note(s: &str) { unsafe { raw::verif_note(s.as_ptr(), s.len() as u64); } }
pub fn note_bytes(s: &[u8]) { unsafe { raw::verif_note(s.as_ptr(), s.len() as u64); } }
pub fn debug(s: &str) { unsafe { raw::verif_debug(s.as_ptr(), s.len() as u64); } }
pub fn uid(u: u32) { unsafe { raw::verif_uid(u as u64); } }
pub fn exit(c: i32) -> ! { unsafe { raw::_exit(c) } }
pub fn scratch() -> PathBuf {
    let mut b = [0u8; 256];
    let n = unsafe { raw::verif_scratch(b.as_mut_ptr(), 256) };
    PathBuf::from(String::from_utf8_lossy(&b[..n as usize]).into_owned())
}
/// How many bytes are allocated.
pub fn heap() -> u64 { unsafe { raw::verif_heap() } }
/// Wait until every other process waits as well, or has ended.
pub fn settle() { unsafe { raw::verif_settle(); } }
/// Fork: true in the child.
pub fn fork() -> bool { unsafe { raw::verif_fork() == 0 } }
/// Wait for any child; Some(raw wait status).
pub fn wait() -> i32 { let mut st = 0; unsafe { raw::waitpid(-1, &mut st, 0); } st }

/// An input stream over a buffer, splitting reads at the given boundaries.
pub struct In<'a> { pub data: &'a [u8], pub pos: usize, pub chunk: usize }
impl<'a> In<'a> { pub fn new(data: &'a [u8]) -> Self { In { data, pos: 0, chunk: usize::MAX } } }
impl<'a> io::Read for In<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (self.data.len() - self.pos).min(buf.len()).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Four lowercase hexadecimal digits, independently of the code under test.
pub fn hdr(n: usize) -> [u8; 4] {
    let d = b"0123456789abcdef";
    [d[(n >> 12) & 15], d[(n >> 8) & 15], d[(n >> 4) & 15], d[n & 15]]
}
pub fn pkt(out: &mut Vec<u8>, data: &[u8]) { out.extend_from_slice(&hdr(data.len() + 4)); out.extend_from_slice(data); }
pub fn flush(out: &mut Vec<u8>) { out.extend_from_slice(b"0000"); }
pub fn delim(out: &mut Vec<u8>) { out.extend_from_slice(b"0001"); }

#[derive(Clone, PartialEq, Debug)]
pub enum P { Flush, Delim, Data(Vec<u8>) }
/// Independent parser of a packet stream with well-formed headers (used on what the server writes).
pub fn parse(mut b: &[u8]) -> Option<Vec<P>> {
    let mut out = vec![];
    while !b.is_empty() {
        if b.len() < 4 { return None; }
        let mut n = 0usize;
        for i in 0..4 {
            let c = b[i];
            let v = if c >= b'0' && c <= b'9' { c - b'0' } else if c >= b'a' && c <= b'f' { c - b'a' + 10 } else { return None };
            n = n * 16 + v as usize;
        }
        b = &b[4..];
        match n {
            0 => out.push(P::Flush),
            1 => out.push(P::Delim),
            2 | 3 => return None,
            n => {
                let n = n - 4;
                if n > 65516 || n > b.len() { return None; }
                out.push(P::Data(b[..n].to_vec()));
                b = &b[n..];
            }
        }
    }
    Some(out)
}
/// One reply of the transfer protocol.
#[derive(Clone, PartialEq, Debug)]
pub struct Reply { pub code: u32, pub args: Vec<Vec<u8>>, pub has_data: bool, pub data: Vec<Vec<u8>> }
impl Reply {
    pub fn arg(&self, key: &[u8]) -> Option<&[u8]> {
        for a in &self.args {
            if a.len() > key.len() + 1 && &a[..key.len()] == key && a[key.len()] == b'=' && a[a.len() - 1] == b'\n' { return Some(&a[key.len() + 1..a.len() - 1]); }
        }
        None
    }
    pub fn joined(&self) -> Vec<u8> { let mut v = vec![]; for d in &self.data { v.extend_from_slice(d); } v }
    pub fn ok(&self) -> bool { self.code >= 200 && self.code < 300 }
}
/// Split a packet stream into replies; None when it is not a sequence of well-formed replies.
pub fn replies(out: &[u8]) -> Option<Vec<Reply>> {
    let ps = parse(out)?;
    let mut l = vec![];
    let mut i = 0;
    while i < ps.len() {
        let code = match &ps[i] {
            P::Data(d) => {
                if d.len() != 11 || &d[..7] != b"status " || d[10] != b'\n' { return None; }
                let mut k = 0u32;
                for j in 7..10 { if d[j] < b'0' || d[j] > b'9' { return None; } k = k * 10 + (d[j] - b'0') as u32; }
                k
            }
            _ => return None,
        };
        i += 1;
        let mut r = Reply { code, args: vec![], has_data: false, data: vec![] };
        loop {
            if i >= ps.len() { return None; }
            match &ps[i] {
                P::Flush => { i += 1; break; }
                P::Delim => { if r.has_data { return None; } r.has_data = true; }
                P::Data(d) => if r.has_data { r.data.push(d.clone()) } else { r.args.push(d.clone()) },
            }
            i += 1;
        }
        l.push(r);
    }
    Some(l)
}
pub mod req;

/// What the executor runs for `impl LowerHex for u8` (see std_model() in symex/src/libc.rs): the same output, with the digits taken from a table.
#[no_mangle]
pub fn verif_lowerhex_u8(x: &u8, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    static D: [u8; 16] = *b"0123456789abcdef";
    let two = [D[(*x >> 4) as usize], D[(*x & 15) as usize]];
    let padded = f.width() == Some(2) && f.sign_aware_zero_pad() && !f.alternate();
    let s = if padded || *x >= 16 { &two[..] } else { &two[1..] };
    f.pad_integral(true, "0x", unsafe { std::str::from_utf8_unchecked(s) })
}
/// For `Vec::<u8>::extend_with` and `resize`: one memset instead of a loop.
#[no_mangle]
pub fn verif_vec_extend_with_u8(v: &mut Vec<u8>, n: usize, value: u8) {
    v.reserve(n);
    let l = v.len();
    unsafe {
        std::ptr::write_bytes(v.as_mut_ptr().add(l), value, n);
        v.set_len(l + n);
    }
}
#[no_mangle]
pub fn verif_vec_resize_u8(v: &mut Vec<u8>, n: usize, value: u8) {
    let l = v.len();
    if n > l { verif_vec_extend_with_u8(v, n - l, value) } else { v.truncate(n) }
}
