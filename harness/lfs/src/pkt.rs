//! C01-C03: packet framing.
use scutiger_core::errors::{Error, ErrorKind};
use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::io::{Read, Write};
use vrt::*;

/// Independent meaning of a header: Some(value) for four lowercase hexadecimal digits.
fn meaning(h: &[u8; 4]) -> (bool, u32) {
    let mut ok = true;
    let mut v = 0u32;
    for i in 0..4 {
        let c = h[i] as u32;
        let digit = (c >= 48) & (c <= 57);
        let lower = (c >= 97) & (c <= 102);
        ok &= digit | lower;
        v = v.wrapping_mul(16).wrapping_add(if digit { c.wrapping_sub(48) } else { c.wrapping_sub(87) });
    }
    (ok, v)
}

const BODY: usize = 65535 + 40;

harness! {
fn h_c01_packet() {
    // any four header bytes, ample data behind them
    let mut data = vec![b'x'; 4 + BODY];
    let mut h = [0u8; 4];
    sym("hdr", &mut h);
    data[..4].copy_from_slice(&h);
    let (ok, v) = meaning(&h);
    let mut inp = In::new(&data);
    let r = Reader::new(&mut inp).read_packet();
    match r {
        Ok(p) => match p.packet_type() {
            PacketType::Flush => { reach("flush"); check(ok & (v == 0), "only 0000 is a flush packet"); check(inp.pos == 4, "a flush packet takes four bytes"); }
            PacketType::Delim => { reach("delim"); check(ok & (v == 1), "only 0001 is a delimiter packet"); check(inp.pos == 4, "a delimiter packet takes four bytes"); }
            PacketType::Data(n) => {
                reach("data");
                check(ok & (v >= 4) & (v <= 65520), "data packet from a header that is not one");
                check(n as u64 == (v as u64).wrapping_sub(4), "data packet of the wrong length");
                check(inp.pos as u64 == v as u64, "wrong number of bytes taken");
                let l = p.data().unwrap().len();
                check(l == n, "data does not have the announced length");
            }
        },
        Err(e) => {
            reach("error");
            check(!ok | (v == 2) | (v == 3) | (v > 65520), "a valid header was refused");
            check(e.kind() == ErrorKind::BadPktlineHeader, "a malformed header must be reported as one");
            check(inp.pos == 4, "a malformed header takes four bytes");
        }
    }
}

fn h_c01_stream() {
    // the same four bytes, read as a byte stream, into a buffer that is smaller or larger than a packet
    let mut data = vec![b'x'; 4 + BODY];
    let mut h = [0u8; 4];
    sym("hdr", &mut h);
    data[..4].copy_from_slice(&h);
    let (ok, v) = meaning(&h);
    let size = [1usize, 65515, 65516, 70000][choice("size", 4) as usize];
    let mut buf = vec![0u8; size];
    let mut inp = In::new(&data);
    let r = Reader::new(&mut inp).read(&mut buf);
    // an empty packet is skipped, and what follows it here is not a packet
    match r {
        Ok(0) => { reach("end"); check(ok & ((v == 0) | (v == 1)), "the stream ends only at a flush or delimiter packet"); check(inp.pos == 4, "the end takes four bytes"); }
        Ok(n) => {
            reach("data");
            check(ok & (v > 4) & (v <= 65520), "data from a header that is not one");
            check(inp.pos as u64 == v as u64, "wrong number of bytes taken");
            let all = (v as u64).wrapping_sub(4);
            check(n as u64 == if all < size as u64 { all } else { size as u64 }, "data of the wrong length");
        }
        Err(e) => {
            reach("error");
            check(!ok | (v == 2) | (v == 3) | (v == 4) | (v > 65520), "a valid header was refused");
            check(inp.pos == if ok & (v == 4) { 8 } else { 4 }, "a malformed header takes four bytes");
            check(matches!(e.get_ref().and_then(|x| x.downcast_ref::<Error>()), Some(x) if x.kind() == ErrorKind::BadPktlineHeader), "a malformed header must be reported as one");
        }
    }
}

fn h_c02_length() {
    // every length up to three packets: only the lengths and headers are looked at
    const MAX: usize = 3 * 65516 - 1;
    let data = vec![b'x'; MAX];
    let n = sym_u32("n") as usize;
    assume(n <= MAX);
    let mut w = Writer::new(Sizes::new());
    let r = w.write(&data[..n]);
    check(r.is_ok(), "a write failed");
    check(r.unwrap_or(0) == n, "a write reports another length");
    let z = w.flush();
    check(z.is_ok(), "flush failed");
    reach("end");
    // cannot take the sink back out of the writer: it checks itself, and leaves its total here
    check(total() == n, "bytes lost or added");
}

fn h_c02_packet_length() {
    const L: [usize; 14] = [0, 1, 2, 255, 4091, 4092, 65515, 65516, 65517, 65531, 65532, 65535, 65536, 70000];
    let n = L[choice("n", 14) as usize];
    let pk = Packet::new(PacketType::Data(n), &vec![b'x'; n]);
    let mut w = Writer::new(Sizes::new());
    match w.write_packet(&pk) {
        Ok(_) => { reach("ok"); check(n <= 65516, "a packet too long to be represented was written"); check(total() == n, "bytes lost or added"); }
        Err(_) => { reach("refused"); check(n > 65516, "a packet that can be represented was refused"); check(total() == 0 && !started(), "a refused packet leaves bytes"); }
    }
}

fn h_c02_content() {
    // a sequence of writes and packets, with arbitrary bytes, over a transport that takes part of a write at a time
    let mut sink = Part { out: vec![], max: [1usize, 3, usize::MAX][choice("part", 3) as usize] };
    let steps = param("steps", 2);
    let mut want: Vec<P> = vec![];
    {
        let mut w = Writer::new(&mut sink);
        for i in 0..steps {
            match choice("what", 5) {
                0 => { let n = choice("n", 5) as usize; let d = sym_vec("d", n); let k = w.write(&d); check(matches!(k, Ok(k) if k == n), "write"); if n > 0 { want.push(P::Data(d)); } }
                1 => { let n = choice("n", 5) as usize; let d = sym_vec("d", n); check(w.write_packet(&Packet::new(PacketType::Data(n), &d)).is_ok(), "write_packet"); want.push(P::Data(d)); }
                2 => { check(w.write_packet(&Packet::new(PacketType::Flush, b"")).is_ok(), "flush packet"); want.push(P::Flush); }
                3 => { check(w.write_packet(&Packet::new(PacketType::Delim, b"")).is_ok(), "delimiter packet"); want.push(P::Delim); }
                _ => {
                    if i > 0 { exit(0) } // once is enough
                    // around the packet limit, and a second chunk
                    let n = [65515usize, 65516, 65517, 2 * 65516, 2 * 65516 + 1, 1 << 20][choice("long", 6) as usize];
                    let mut d = vec![b'y'; n];
                    let mut e = [0u8; 3];
                    sym("edge", &mut e);
                    d[0] = e[0]; d[n - 1] = e[1]; d[65514] = e[2];
                    if n > 65516 { d[65515] = e[0] ^ 1; d[65516] = e[1] ^ 1; }
                    let k = w.write(&d);
                    check(matches!(k, Ok(k) if k == n), "write");
                    for c in d.chunks(65516) { want.push(P::Data(c.to_vec())); }
                    reach("long");
                }
            }
        }
    }
    match parse(&sink.out) {
        None => fail("what was written is not a sequence of packets"),
        // where a byte write is split is not part of the property
        Some(got) => check(squash(got) == squash(want), "what was written decodes to something else"),
    }
    reach("end");
}

fn h_c03_small() {
    // packets of arbitrary small sizes and content, an end, and a packet behind it; arbitrary small buffers
    let k = param("packets", 2) as usize;
    let maxlen = param("maxlen", 3);
    let nread = param("reads", 3) as usize;
    let mut data = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let n = choice("len", maxlen + 1) as usize;
        let d = sym_vec("d", n);
        pkt(&mut data, &d);
        want.extend_from_slice(&d);
    }
    if choice("end", 2) == 0 { flush(&mut data) } else { delim(&mut data) }
    let upto = data.len();
    let after = sym_vec("after", 2);
    pkt(&mut data, &after);
    let mut inp = In::new(&data);
    inp.chunk = [1, 3, usize::MAX][choice("chunk", 3) as usize];
    let mut got = vec![];
    let mut ended = false;
    {
        let mut r = Reader::new(&mut inp);
        for i in 0..(want.len() + nread + 1) {
            let n = if i < nread { choice("buf", maxlen + 2) as usize } else { 2 };
            let mut buf = [0xeeu8; 8];
            match r.read(&mut buf[..n]) {
                Ok(0) if n == 0 => { reach("empty read"); }
                Ok(0) => { ended = true; break; }
                Ok(m) => { check(m <= n, "more bytes than the buffer holds"); for j in m..8 { check(buf[j] == 0xee, "bytes written past what was read"); } got.extend_from_slice(&buf[..m]); }
                Err(_) => fail("a valid stream was refused"),
            }
        }
        check(ended, "the end of the data was not reported");
        check(got == want, "the bytes read are not those sent");
        // and then whatever follows the end
        if choice("follow", 2) == 0 {
            let mut buf = [0u8; 8];
            match r.read(&mut buf) { Ok(2) => check(buf[..2] == after[..], "the data after the end is wrong"), _ => fail("the data after the end cannot be read") }
        } else {
            match r.read_packet() { Ok(p) => check(p.data() == Some(&after[..]), "the packet after the end is wrong"), _ => fail("the packet after the end cannot be read") }
        }
    }
    check(inp.pos > upto, "end");
    reach("end");
}

fn h_c03_large() {
    // packets at the maximum length and buffers around it (where the reader switches to reading directly)
    let mut data = vec![];
    let mut want = vec![];
    let mut e = [0u8; 4];
    sym("edge", &mut e);
    for i in 0..2 {
        let n = [0usize, 1, 65515, 65516][choice("len", 4) as usize];
        let mut d = vec![b'a' + i as u8; n];
        if n > 0 { d[0] = e[2 * i]; d[n - 1] = e[2 * i + 1]; }
        pkt(&mut data, &d);
        want.extend_from_slice(&d);
    }
    flush(&mut data);
    let upto = data.len();
    data.extend_from_slice(b"0005z");
    let mut inp = In::new(&data);
    inp.chunk = if choice("chunk", 2) == 0 { usize::MAX } else { 8191 };
    let mut got = vec![];
    let mut ended = false;
    {
        let mut r = Reader::new(&mut inp);
        let mut buf = vec![0u8; 65540];
        for i in 0..8 {
            let n = if i < 2 { [0usize, 1, 65515, 65516, 65517, 65540][choice("buf", 6) as usize] } else { 65530 };
            match r.read(&mut buf[..n]) {
                Ok(0) if n == 0 => (),
                Ok(0) => { ended = true; break; }
                Ok(m) => { check(m <= n, "more bytes than the buffer holds"); got.extend_from_slice(&buf[..m]); }
                Err(_) => fail("a valid stream was refused"),
            }
        }
    }
    check(ended, "the end of the data was not reported");
    check(got == want, "the bytes read are not those sent");
    check(inp.pos == upto, "bytes beyond the end were consumed");
    reach("end");
}
}

/// Adjacent data packets joined (a write may be split anywhere), empty ones kept apart.
fn squash(l: Vec<P>) -> Vec<P> {
    let mut out: Vec<P> = vec![];
    for p in l {
        match (out.last_mut(), p) {
            (Some(P::Data(a)), P::Data(b)) if !a.is_empty() && !b.is_empty() => a.extend_from_slice(&b),
            (_, p) => out.push(p),
        }
    }
    out
}

/// A transport that looks at headers and lengths only, however what is written is cut into pieces.
struct Sizes;
static mut TOTAL: usize = 0;
static mut LEFT: usize = 0;
static mut STARTED: bool = false;
static mut HEAD: [u8; 4] = [0; 4];
static mut HAVE: usize = 0;
impl Sizes { fn new() -> Sizes { unsafe { TOTAL = 0; LEFT = 0; STARTED = false; HAVE = 0; } Sizes } }
fn total() -> usize { unsafe { check(LEFT == 0 && HAVE == 0, "a payload is shorter than its header says"); TOTAL } }
fn started() -> bool { unsafe { STARTED } }
impl Write for Sizes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut i = 0;
        unsafe {
            STARTED = true;
            while i < b.len() {
                if LEFT == 0 {
                    HEAD[HAVE] = b[i];
                    HAVE += 1;
                    i += 1;
                    if HAVE == 4 {
                        let (ok, v) = meaning(&HEAD);
                        check(ok & (v >= 4) & (v <= 65520), "not a valid header");
                        LEFT = (v as usize).wrapping_sub(4);
                        HAVE = 0;
                    }
                } else {
                    let rest = b.len().wrapping_sub(i);
                    let k = if rest <= LEFT { rest } else { LEFT };
                    LEFT = LEFT.wrapping_sub(k);
                    TOTAL = TOTAL.wrapping_add(k);
                    i = i.wrapping_add(k);
                }
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Part { out: Vec<u8>, max: usize }
impl Write for Part {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.max); self.out.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
