//! Running the real server on a byte stream, and building requests for it.
use scutiger_core::errors::Error;
use scutiger_lfs::backend::local::LocalBackend;
pub use scutiger_lfs::processor::Mode;
use scutiger_lfs::processor::{PktLineHandler, Processor};
pub use vrt::req::*;
use std::path::{Path, PathBuf};
use vrt::*;

pub const UP: Mode = Mode::Upload;
pub const DOWN: Mode = Mode::Download;
pub const NOW: i64 = 1_000_684_800;

/// What one session did: its result, everything it sent, and how much of the input it took.
pub struct Ran { pub ok: bool, pub out: Vec<u8>, pub used: usize }
impl Ran {
    pub fn replies(&self) -> Vec<Reply> {
        match replies(&self.out) { Some(r) => r, None => { note_bytes(&self.out); fail("what the server sent is not a sequence of well-formed replies") } }
    }
    /// The single reply of a session with one request.
    pub fn one(&self) -> Reply {
        let mut r = self.replies();
        if r.len() != 1 { note_bytes(&self.out); fail("not exactly one reply to one request") }
        r.remove(0)
    }
}
pub fn session(root: &Path, mode: Mode, umask: u32, ts: Option<i64>, input: &mut In) -> Ran {
    let mut out: Vec<u8> = vec![];
    let r: Result<(), Error> = {
        let h = PktLineHandler::new(&mut *input, &mut out);
        Processor::new(h, Box::new(LocalBackend::new(root, umask, ts))).process_commands(mode)
    };
    Ran { ok: r.is_ok(), out, used: input.pos }
}
pub fn serve(root: &Path, mode: Mode, input: &[u8]) -> Ran { session(root, mode, 0o022, Some(NOW), &mut In::new(input)) }

/// A fresh repository lfs directory, as git-lfs-transfer creates it.
pub fn repo() -> PathBuf {
    let mut p = scratch();
    p.push("lfs");
    for d in ["objects", "incomplete", "tmp", "locks"] { std::fs::create_dir_all(p.join(d)).unwrap(); }
    p
}
/// A session whose output appears in the slot as it is written.
pub fn session_to(root: &Path, mode: Mode, input: &[u8], slot: &mut Slot) -> bool {
    let mut i = In::new(input);
    let h = PktLineHandler::new(&mut i, Into_(slot));
    Processor::new(h, Box::new(LocalBackend::new(root, 0o022, Some(NOW)))).process_commands(mode).is_ok()
}
/// Run `f` in another process.
pub fn spawn<F: FnOnce(&mut Slot)>(slot: &mut Slot, f: F) {
    if fork() { f(slot); slot.finish(); exit(0) }
}
