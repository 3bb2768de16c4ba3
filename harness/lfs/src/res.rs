//! C34: what requests leave behind, and how much memory they need.
use crate::srv::*;
use std::io::{Read, Write};
use std::path::Path;
use vrt::*;

fn open_files() -> u32 { let mut n = 0; for fd in 0..40 { if unsafe { libc::fcntl(fd, libc::F_GETFD) } != -1 { n += 1; } } n }

/// The same request several times, each of which is read by itself: what there is before each of them.
struct Again<'a> { one: &'a [u8], times: usize, pos: usize, root: &'a Path, files: Vec<u32>, heap: Vec<u64>, left: usize, may: u64 }
impl<'a> Read for Again<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let at = self.pos % self.one.len();
        if at == 0 {
            // everything before has been answered
            self.files.push(open_files());
            self.heap.push(heap());
            fault(0);
            self.left = names(&self.root.join("incomplete")).len() + names(&self.root.join("tmp")).len() + names(&self.root.join("locks")).iter().filter(|n| n.len() != 64).count();
            if self.pos > 0 && self.files.len() < 4 { fault(self.may); }
            if self.pos == self.times * self.one.len() { return Ok(0); }
        }
        let n = (self.one.len() - at).min(b.len());
        b[..n].copy_from_slice(&self.one[at..at + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Output that is counted and dropped.
struct Sink { n: u64, peak: u64 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.n += b.len() as u64; self.peak = self.peak.max(heap()); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A request made of a beginning, packets of the same data, and an end, none of which is stored.
struct Long<'a> { head: &'a [u8], packet: Vec<u8>, packets: usize, tail: &'a [u8], part: usize, pos: usize, peak: u64 }
impl<'a> Read for Long<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.peak = self.peak.max(heap());
        loop {
            let d: &[u8] = if self.part == 0 { self.head } else if self.part <= self.packets { &self.packet } else if self.part == self.packets + 1 { self.tail } else { return Ok(0) };
            if self.pos == d.len() { self.part += 1; self.pos = 0; continue; }
            let n = (d.len() - self.pos).min(b.len());
            b[..n].copy_from_slice(&d[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
    }
}

harness! {
fn h_c34_again() {
    // a request leaves behind no open file, no temporary file and no memory
    let root = repo();
    let data = b"content of the stored object".to_vec();
    let oid = oid_of(&data);
    plant(&root, &oid, &data);
    plant_lock(&root, b"path", "1000684800");
    let up = choice("mode", 2) == 0;
    let d = [sym_u8("a"), b'b'];
    let id = oid_of(&d);
    let p = [sym_u8("path")];
    let rq = match choice("request", 14) {
        0 => Rq::new().put(&id, "2", &d),
        1 => Rq::new().put(&id, &(sym_u8("size") & 7).to_string(), &d),
        2 => Rq::new().put(&oid, "2", &d),
        3 => { let mut o = oid.clone(); o[5] = sym_u8("digit"); Rq::new().put(&o, "2", &d) }
        4 => Rq::new().get(&oid),
        5 => { let mut o = oid.clone(); o[63] = sym_u8("digit"); Rq::new().get(&o) }
        6 => Rq::new().verify(&oid, "28"),
        7 => Rq::new().line(b"batch", b"").d().line(&oid, b" 28").line(&lock_id(b"x"), b" 3").f(),
        8 => Rq::new().lock(&p),
        9 => Rq::new().lock(b"path"),
        10 => Rq::new().unlock(&lock_id(if choice("held", 2) == 1 { &p } else { b"path" })),
        11 => Rq::new().list(&[]),
        12 => Rq::new().list(&[b"path=path"]),
        _ => { let v = sym_vec("command", 2); Rq::new().p(&v).f() }
    };
    let mut i = Again { one: &rq.0, times: param("times", 4) as usize, pos: 0, root: &root, files: vec![], heap: vec![], left: 0, may: if choice("faults", 2) == 0 { WR | RD } else { META } };
    i.files.reserve(16);
    i.heap.reserve(16);
    let mut o = Sink { n: 0, peak: 0 };
    let h = scutiger_lfs::processor::PktLineHandler::new(&mut i, &mut o);
    let r = scutiger_lfs::processor::Processor::new(h, Box::new(scutiger_lfs::backend::local::LocalBackend::new(&root, 0o022, Some(NOW)))).process_commands(if up { UP } else { DOWN });
    fault(0);
    // (one whose removal fails cannot but stay)
    check(i.left <= if i.may == META { param("faults", 1) as usize } else { 0 }, "a request leaves a temporary file behind");
    check(i.files.iter().all(|n| *n == i.files[0]), "a request leaves a file open");
    // (the first may set something up, and when one fails that may be the second)
    if r.is_ok() && i.files.len() == i.times + 1 {
        reach("all");
        let l = &i.heap[2..];
        check(l.iter().all(|n| *n == l[0]), "a request leaves memory allocated");
    }
}
fn h_c34_memory() {
    // objects of any size need little memory
    let root = repo();
    let n = param("packets", 12) as usize;
    let mut data = vec![b'x'; 65516];
    let mut whole = vec![];
    let good = choice("kind", 5);
    if good > 2 { data[0] = sym_u8("byte"); }
    let (mut head, mut packet) = (vec![], vec![]);
    let (mut up, mut packets) = (true, n);
    if good == 0 || good == 1 { whole.reserve(n * 65516); for _ in 0..n { whole.extend_from_slice(&data); } }
    let id = oid_of(if good == 0 || good == 1 { &whole } else { b"" });
    pkt(&mut packet, &data);
    let size = n * 65516;
    match good {
        0 => { head = Rq::new().line(b"put-object ", &id).line(b"size=", size.to_string().as_bytes()).d().0; }
        1 => { plant(&root, &id, &whole); head = Rq::new().get(&id).0; packets = 0; up = false; }
        // refused ones
        2 => { head = Rq::new().line(b"put-object ", &id).line(b"size=", size.to_string().as_bytes()).d().0; }
        3 => { head = Rq::new().line(b"put-object ", b"nonsense").line(b"size=", size.to_string().as_bytes()).d().0; }
        _ => { head = Rq::new().p(b"nonsense").0; }
    }
    drop(whole);
    drop(data);
    let mut i = Long { head: &head, packet, packets, tail: if good == 1 { b"" } else { b"0000" }, part: 0, pos: 0, peak: 0 };
    let mut o = Sink { n: 0, peak: 0 };
    let base = heap();
    let h = scutiger_lfs::processor::PktLineHandler::new(&mut i, &mut o);
    let r = scutiger_lfs::processor::Processor::new(h, Box::new(scutiger_lfs::backend::local::LocalBackend::new(&root, 0o022, Some(NOW)))).process_commands(if up { UP } else { DOWN });
    check(r.is_ok(), "the session failed");
    let stored = obj_path(&root, &id).exists();
    check(stored == (good < 2), "an object was not stored, or one that was refused");
    if good == 1 { check(o.n > size as u64, "the object was not sent"); }
    reach("done");
    let peak = i.peak.max(o.peak).saturating_sub(base);
    note(&format!("peak {} of {}", peak, size));
    check(peak < size as u64 / 2, "a request needs more memory for a larger object");
}
}
