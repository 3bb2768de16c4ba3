//! Models of libc, the allocator, POSIX file operations, processes and the harness intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::fs::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::R;
use std::collections::HashMap;
use std::rc::Rc;

const M1: u64 = 0xffff_ffff;
fn c(v: &V) -> X<u64> { match v { V::C(k) => Ok(*k), _ => err("symbolic value where a concrete one is required") } }
fn ok(k: u64) -> X<V> { Ok(V::C(k)) }

pub fn set_errno(g: &mut Engine, st: &mut State, e: i32) -> X<()> { let a = st.pr().errno; g.write_int(st, a, 4, e as u64) }

// ---- visible operations -----------------------------------------------------------------------
/// kind: 1 = write, 2 = name space / metadata, 4 = read
fn gate(g: &mut Engine, st: &mut State, name: &str, path: &[V], kind: u32) -> X<Option<i32>> {
    let (idx, n) = (st.cur, st.pr().nvis);
    if !st.pr().go { st.p().status = Status::Parked; return Err(Stop::Yield); }
    if st.pr().crash_on && !st.crashed {
        let v = g.a.var(&format!("crash.p{}.{}", idx, n), 8);
        let one = g.a.byte(1);
        let q = g.a.bin(Op::Eq, v, one);
        if g.fork(st, q)? {
            st.crashed = true;
            Rc::make_mut(&mut st.trace).push(format!("p{} #{} killed before {} {}", idx, n, name, show(path)));
            return Err(Stop::Exit(9));
        }
    }
    let fo = st.pr().fault_on & kind;
    // when only the standard streams may fail, their operations are numbered by themselves, and what has failed goes on failing
    let (fo, n) = if st.pr().fault_on & 32 == 0 { (fo, n) } else if let Some(fd) = st.pr().stdio {
        if fo != 0 && st.pr().badstd >> fd & 1 == 1 { return Ok(Some(if kind == 1 { ENOSPC } else { EIO })); }
        st.p().nstdio += 1;
        (fo, 999_999 + st.pr().nstdio)
    } else { (0, n) };
    if fo != 0 && st.faults < g.cfg.max_faults {
        let v = g.a.var(&format!("fault.p{}.{}", idx, n), 8);
        let one = g.a.byte(1);
        let q = g.a.bin(Op::Eq, v, one);
        if g.fork(st, q)? {
            st.faults += 1;
            let mut e = if kind == 1 { ENOSPC } else { EIO };
            if st.pr().fault_on & 8 != 0 && kind != 1 {
                let v = g.a.var(&format!("denied.p{}.{}", idx, n), 8);
                let q = g.a.bin(Op::Eq, v, one);
                if g.fork(st, q)? { e = 13; }
            }
            if st.pr().fault_on & 64 != 0 { e = 13; }
            if st.pr().fault_on & 16 != 0 && (name == "write" || name == "read") {
                // or it transfers only a part
                let v = g.a.var(&format!("short.p{}.{}", idx, n), 8);
                let q = g.a.bin(Op::Eq, v, one);
                if g.fork(st, q)? { st.p().short = true; Rc::make_mut(&mut st.trace).push(format!("p{} #{} {} is short", idx, n, name)); return Ok(None); }
            }
            Rc::make_mut(&mut st.trace).push(format!("p{} #{} {} {} fails with errno {}", idx, n, name, show(path), e));
            if st.pr().fault_on & 32 != 0 { if let Some(fd) = st.pr().stdio { st.p().badstd |= 1 << fd; } }
            return Ok(Some(e));
        }
    }
    Ok(None)
}
fn vis(g: &mut Engine, st: &mut State, w: u16, kind: u32, name: &str, path: &[V], f: impl FnOnce(&mut Engine, &mut State) -> Er<V>) -> X<V> {
    let on = st.pr().sched_on;
    let pre = if on { gate(g, st, name, path, kind)? } else { None };
    let failed = pre.is_some();
    let r = match pre { Some(e) => Err(e), None => f(g, st)? };
    if on {
        let (idx, n) = (st.cur, st.pr().nvis);
        if !failed { let s = format!("p{} #{} {} {}{}", idx, n, name, show(path), match &r { Err(e) => format!(" = errno {}", e), _ => String::new() }); Rc::make_mut(&mut st.trace).push(s); }
        let p = st.p();
        p.nvis += 1;
        p.go = false;
        p.stdio = None;
    }
    match r {
        Ok(v) => Ok(v),
        Err(e) => { set_errno(g, st, e)?; Ok(V::C(if w == 32 { M1 } else { u64::MAX })) }
    }
}
fn fdget(st: &State, fd: u64) -> Option<usize> { st.pr().fds.get(fd as usize)?.as_ref().map(|f| f.ofd) }
fn newfd(st: &mut State, ofd: usize, cloexec: bool) -> u64 {
    let f = Rc::make_mut(&mut st.p().fds);
    let e = Some(Fd { ofd, cloexec });
    match f.iter().position(|x| x.is_none()) { Some(i) => { f[i] = e; i as u64 } None => { f.push(e); f.len() as u64 - 1 } }
}
fn close_ofd(st: &mut State, o: usize) {
    let fs = Rc::make_mut(&mut st.fs);
    if let Some(x) = fs.ofds[o].as_mut() { x.refs -= 1; if x.refs == 0 { fs.ofds[o] = None; } }
}
pub fn close_all(st: &mut State) {
    let l: Vec<usize> = st.pr().fds.iter().flatten().map(|f| f.ofd).collect();
    st.p().fds = Default::default();
    for o in l { close_ofd(st, o); }
}
/// directory inode for an *at() call
fn atdir(st: &State, fd: u64) -> Result<u32, i32> {
    if fd as u32 as i32 == -100 { return Ok(st.pr().cwd); }
    match fdget(st, fd) { Some(o) => Ok(st.fs.ofds[o].as_ref().unwrap().ino), None => Err(EBADF) }
}

// ---- files ------------------------------------------------------------------------------------
fn do_open(g: &mut Engine, st: &mut State, dir: u64, path: &[V], flags: u64, mode: &V) -> Er<V> {
    let base = match atdir(st, dir) { Ok(b) => b, Err(e) => return Ok(Err(e)) };
    let (creat, excl, trunc, dirf, nofollow) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o200000 != 0, flags & 0o400000 != 0);
    if flags & 0o20000000 == 0o20000000 && flags & 0o200000 != 0 { // O_TMPFILE
        return Ok(Err(95));
    }
    let w = match g.walk(st, base, path, !(nofollow || (creat && excl)))? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let acc = flags & 3;
    let ino = match w.ino {
        Some(i) => {
            if creat && excl { return Ok(Err(EEXIST)); }
            let n = st.fs.node(i);
            match n.kind {
                Kind::Dir(_) => if acc != 0 || creat { return Ok(Err(EISDIR)); },
                Kind::Link(_) => return Ok(Err(ELOOP)),
                _ => if dirf { return Ok(Err(ENOTDIR)); },
            }
            if trunc && acc != 0 { let nd = Rc::make_mut(&mut st.fs).node_mut(i); if let Kind::File(o) = &mut nd.kind { *o = Rc::new(Obj::new(0)); nd.hole = 0; } }
            i
        }
        None => {
            if !creat { return Ok(Err(ENOENT)); }
            if w.trailing { return Ok(Err(EISDIR)); }
            let um = st.pr().umask.clone();
            let m = mask_mode(g, st, mode, &um);
            let t = g.now(st);
            let uid = st.pr().uid;
            let fs = Rc::make_mut(&mut st.fs);
            let i = fs.add(Inode { kind: Kind::File(Rc::new(Obj::new(0))), mode: m, nlink: 1, uid, mtime: t, parent: 0, hole: 0 });
            fs.link(w.parent, w.name, i);
            i
        }
    };
    let o = Rc::make_mut(&mut st.fs).new_ofd(Ofd { ino, pos: 0, flags: flags as u32, refs: 1, special: 0, list: None });
    Ok(Ok(V::C(newfd(st, o, flags & 0o2000000 != 0))))
}
fn mask_mode(g: &mut Engine, st: &mut State, mode: &V, um: &V) -> V {
    let _ = st;
    let m = g.e(mode, 32);
    let u = g.e(um, 32);
    let all = g.a.c(32, 0o7777);
    let k = g.a.bin(Op::Xor, u, all);
    let r = g.a.bin(Op::And, m, k);
    g.v(r)
}
fn b_open(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?;
    let f = c(&a[1])?;
    let m = a.get(2).cloned().unwrap_or(V::C(0));
    let kind = if f & 3 == 0 { 4 } else { 2 };
    vis(g, st, 32, kind, "open", &p, |g, st| do_open(g, st, (-100i32) as u32 as u64, &p, f, &m))
}
fn b_openat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[1])?;
    let (d, f) = (c(&a[0])?, c(&a[2])?);
    let m = a.get(3).cloned().unwrap_or(V::C(0));
    let kind = if f & 3 == 0 { 4 } else { 2 };
    vis(g, st, 32, kind, "open", &p, |g, st| do_open(g, st, d, &p, f, &m))
}
fn b_close(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fd = c(&a[0])?;
    match fdget(st, fd) {
        None => { set_errno(g, st, EBADF)?; ok(M1) }
        Some(o) => { Rc::make_mut(&mut st.p().fds)[fd as usize] = None; close_ofd(st, o); ok(0) }
    }
}
fn is_fsfile(st: &State, fd: u64) -> bool { fdget(st, fd).map_or(false, |o| { let x = st.fs.ofds[o].as_ref().unwrap(); matches!(st.fs.node(x.ino).kind, Kind::File(_)) }) }
fn do_write(g: &mut Engine, st: &mut State, fd: u64, data: &Obj) -> Er<V> { do_write_at(g, st, fd, data, None) }
fn do_write_at(g: &mut Engine, st: &mut State, fd: u64, data: &Obj, at: Option<u64>) -> Er<V> {
    let o = match fdget(st, fd) { Some(o) => o, None => return Ok(Err(EBADF)) };
    let of = st.fs.ofds[o].clone().unwrap();
    let half;
    let data = if std::mem::take(&mut st.p().short) && data.b.len() > 1 { half = data.slice(0, data.b.len() / 2); &half } else { data };
    let n = data.b.len();
    if of.special == 1 || matches!(st.fs.node(of.ino).kind, Kind::Null) { return Ok(Ok(V::C(n as u64))); }
    if of.flags & 3 == 0 { return Ok(Err(EBADF)); }
    let t = g.now(st);
    let fs = Rc::make_mut(&mut st.fs);
    let mut pos = at.unwrap_or(of.pos) as usize;
    match fs.node(of.ino).kind.clone() {
        Kind::File(_) => {
            let nd = fs.node_mut(of.ino);
            let f = match &mut nd.kind { Kind::File(f) => f, _ => unreachable!() };
            let f = Rc::make_mut(f);
            if of.flags & 0o2000 != 0 { pos = f.b.len() + nd.hole as usize; }
            if nd.hole > 0 && pos + n > f.b.len() {
                if pos as u64 + n as u64 > 1 << 28 { return Err(Stop::Err("a write far into a large file".into())); }
                let end = f.b.len() + nd.hole as usize;
                f.resize(end);
                nd.hole = 0;
            }
            if pos + n > f.b.len() { f.resize(pos + n); }
            f.write_slice(pos, data);
            nd.mtime = t;
        }
        Kind::Pipe(q, cap) => {
            let from = std::mem::take(&mut st.p().sent);
            let fs = Rc::make_mut(&mut st.fs);
            if !fs.ofds.iter().flatten().any(|x| x.ino == of.ino && x.flags & 3 == 0) { return if st.pr().nopipe { Ok(Err(EPIPE)) } else { Err(Stop::Exit(13)) }; }
            let k = (n - from).min(cap.saturating_sub(q.len()));
            let rest = data.slice(from, k);
            if let Kind::Pipe(q, _) = &mut fs.node_mut(of.ino).kind { Rc::make_mut(q).extend(rest.bytes()); }
            if from + k < n { st.p().sent = from + k; st.p().status = Status::WaitRoom(of.ino); return Err(Stop::Yield); }
            return Ok(Ok(V::C(n as u64)));
        }
        _ => return Ok(Err(EINVAL)),
    }
    if at.is_none() { fs.ofds[o].as_mut().unwrap().pos = (pos + n) as u64; }
    Ok(Ok(V::C(n as u64)))
}
fn b_write(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fd = c(&a[0])?;
    let n = g.pinv(st, &a[2])?;
    if is_fsfile(st, fd) {
        let d = g.read_bytes(st, &a[1], n)?;
        st.p().stdio = if fd <= 2 { Some(fd as u8) } else { None };
        vis(g, st, 64, 1, "write", &[], |g, st| do_write(g, st, fd, &d))
    } else {
        let d = g.read_bytes(st, &a[1], n)?;
        match do_write(g, st, fd, &d)? { Ok(v) => Ok(v), Err(e) => { set_errno(g, st, e)?; ok(u64::MAX) } }
    }
}
fn iov(g: &mut Engine, st: &mut State, p: &V, n: u64) -> X<Vec<(u64, u64)>> {
    let b = c(p)?;
    let mut v = vec![];
    for i in 0..n { let a = g.read_int(st, b + i * 16, 8)?; let l = g.read_int(st, b + i * 16 + 8, 8)?; v.push((a, l)); }
    Ok(v)
}
fn b_writev(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, n) = (c(&a[0])?, c(&a[2])?);
    let l = iov(g, st, &a[1], n)?;
    let mut all = vec![];
    for (p, k) in l { let o = g.read_bytes(st, &V::C(p), k)?; all.extend(o.bytes()); }
    let d = Obj::from_bytes(&all);
    if is_fsfile(st, fd) { st.p().stdio = if fd <= 2 { Some(fd as u8) } else { None }; vis(g, st, 64, 1, "write", &[], |g, st| do_write(g, st, fd, &d)) }
    else { match do_write(g, st, fd, &d)? { Ok(v) => Ok(v), Err(e) => { set_errno(g, st, e)?; ok(u64::MAX) } } }
}
fn do_read(g: &mut Engine, st: &mut State, fd: u64, buf: &V, n: u64, at: Option<u64>) -> Er<V> {
    let n = if std::mem::take(&mut st.p().short) && n > 1 { (n / 2).min(3) } else { n };
    let o = match fdget(st, fd) { Some(o) => o, None => return Ok(Err(EBADF)) };
    let of = st.fs.ofds[o].clone().unwrap();
    match st.fs.node(of.ino).kind.clone() {
        Kind::File(f) => {
            if of.flags & 3 == 1 { return Ok(Err(EBADF)); }
            let pos = at.unwrap_or(of.pos) as usize;
            let all = f.b.len() + st.fs.node(of.ino).hole as usize;
            let k = all.saturating_sub(pos).min(n as usize);
            if k > 0 {
                let there = f.b.len().saturating_sub(pos).min(k);
                let mut s = if there > 0 { f.slice(pos, there) } else { Obj::new(0) };
                if there < k { s.resize(k); }
                g.write_bytes(st, buf, &s)?; }
            if at.is_none() { Rc::make_mut(&mut st.fs).ofds[o].as_mut().unwrap().pos = (pos + k) as u64; }
            Ok(Ok(V::C(k as u64)))
        }
        Kind::Null => Ok(Ok(V::C(0))),
        Kind::Pipe(q, _) => {
            if of.flags & 3 == 1 { return Ok(Err(EBADF)); }
            if n != 0 && !pipe_ready(st, of.ino) { st.p().status = Status::WaitPipe(of.ino); return Err(Stop::Yield); }
            let k = q.len().min(n as usize);
            let s = Obj::from_bytes(&q[..k]);
            g.write_bytes(st, buf, &s)?;
            if let Kind::Pipe(q, _) = &mut Rc::make_mut(&mut st.fs).node_mut(of.ino).kind { Rc::make_mut(q).drain(..k); }
            Ok(Ok(V::C(k as u64)))
        }
        Kind::Dir(_) => Ok(Err(EISDIR)),
        Kind::Link(_) => Ok(Err(EINVAL)),
    }
}
fn b_read(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fd = c(&a[0])?;
    let n = g.pinv(st, &a[2])?;
    let buf = a[1].clone();
    if is_fsfile(st, fd) { st.p().stdio = if fd <= 2 { Some(fd as u8) } else { None }; vis(g, st, 64, 4, "read", &[], |g, st| do_read(g, st, fd, &buf, n, None)) }
    else { match do_read(g, st, fd, &buf, n, None)? { Ok(v) => Ok(v), Err(e) => { set_errno(g, st, e)?; ok(u64::MAX) } } }
}
fn b_pread(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, n, off) = (c(&a[0])?, c(&a[2])?, c(&a[3])?);
    let buf = a[1].clone();
    vis(g, st, 64, 4, "pread", &[], |g, st| do_read(g, st, fd, &buf, n, Some(off)))
}
fn b_readv(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, n) = (c(&a[0])?, c(&a[2])?);
    let l = iov(g, st, &a[1], n)?;
    // (as far as the first buffer that has room: fewer bytes than there is room for are allowed)
    let (p, k) = l.into_iter().find(|x| x.1 > 0).unwrap_or((0, 0));
    if is_fsfile(st, fd) { st.p().stdio = if fd <= 2 { Some(fd as u8) } else { None }; vis(g, st, 64, 4, "read", &[], |g, st| do_read(g, st, fd, &V::C(p), k, None)) }
    else { match do_read(g, st, fd, &V::C(p), k, None)? { Ok(v) => Ok(v), Err(e) => { set_errno(g, st, e)?; ok(u64::MAX) } } }
}
fn b_pwrite(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, off) = (c(&a[0])?, c(&a[3])?);
    let n = g.pinv(st, &a[2])?;
    let d = g.read_bytes(st, &a[1], n)?;
    vis(g, st, 64, 1, "pwrite", &[], |g, st| do_write_at(g, st, fd, &d, Some(off)))
}
fn b_lseek(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, off, wh) = (c(&a[0])?, c(&a[1])? as i64, c(&a[2])?);
    let o = match fdget(st, fd) { Some(o) => o, None => { set_errno(g, st, EBADF)?; return ok(u64::MAX) } };
    let of = st.fs.ofds[o].clone().unwrap();
    let len = match &st.fs.node(of.ino).kind { Kind::File(f) => f.b.len() as i64 + st.fs.node(of.ino).hole as i64, _ => { set_errno(g, st, 29)?; return ok(u64::MAX) } };
    let np = match wh { 0 => off, 1 => of.pos as i64 + off, 2 => len + off, _ => -1 };
    if np < 0 { set_errno(g, st, EINVAL)?; return ok(u64::MAX); }
    Rc::make_mut(&mut st.fs).ofds[o].as_mut().unwrap().pos = np as u64;
    ok(np as u64)
}
/// wait until every other process waits as well, or has ended
fn v_heap(_: &mut Engine, st: &mut State, _: &[V]) -> X<V> { ok(st.pr().mem.heap) }
fn v_settle(g: &mut Engine, st: &mut State, _: &[V]) -> X<V> {
    let _ = g;
    if std::mem::take(&mut st.p().settled) { return ok(0); }
    st.p().settled = true;
    st.p().status = Status::Settle;
    Err(Stop::Yield)
}
/// whether reading from this pipe can go on: there is something in it, or nobody can write to it any more
pub fn pipe_ready(st: &State, ino: u32) -> bool {
    let some = matches!(&st.fs.node(ino).kind, Kind::Pipe(q, _) if !q.is_empty());
    some || !st.fs.ofds.iter().flatten().any(|o| o.ino == ino && o.flags & 3 != 0)
}
/// whether a write to this pipe can go on
pub fn pipe_room(st: &State, ino: u32) -> bool {
    matches!(&st.fs.node(ino).kind, Kind::Pipe(q, cap) if q.len() < *cap) || !st.fs.ofds.iter().flatten().any(|o| o.ino == ino && o.flags & 3 == 0)
}
/// signal(SIGPIPE, ...); there are no other signals
fn b_signal(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    if c(&a[0])? != 13 { return ok(0); }
    let h = c(&a[1])?;
    if h > 1 { return err("a handler for SIGPIPE"); }
    let old = st.pr().nopipe as u64;
    st.p().nopipe = h == 1;
    ok(old)
}
fn b_sigaction(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    if c(&a[0])? != 13 { return ok(0); }
    let (new, old) = (c(&a[1])?, c(&a[2])?);
    let was = st.pr().nopipe as u64;
    if new != 0 { let h = g.read_int(st, new, 8)?; if h > 1 { return err("a handler for SIGPIPE"); } st.p().nopipe = h == 1; }
    if old != 0 { g.write_bytes(st, &V::C(old), &Obj::new(152))?; g.write_int(st, old, 8, was)?; }
    ok(0)
}
fn b_pipe2(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = c(&a[0])?;
    let fl = match a.get(1) { Some(v) => c(v)?, None => 0 };
    let t = g.now(st);
    let uid = st.pr().uid;
    for w in 0..2u64 {
        let fs = Rc::make_mut(&mut st.fs);
        let ino = if w == 0 { fs.add(Inode { kind: Kind::Pipe(Default::default(), 65536), mode: V::C(0o600), nlink: 1, uid, mtime: t.clone(), parent: 0, hole: 0 }) } else { fs.inodes.len() as u32 - 1 };
        let o = fs.new_ofd(Ofd { ino, pos: 0, flags: w as u32, refs: 1, special: 0, list: None });
        let fd = newfd(st, o, fl & 0o2000000 != 0);
        g.write_int(st, p + w * 4, 4, fd)?;
    }
    ok(0)
}
fn b_pipe(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { b_pipe2(g, st, &a[..1]) }
fn type_bits(k: &Kind) -> u64 { match k { Kind::File(_) => 0o100000, Kind::Dir(_) => 0o040000, Kind::Link(_) => 0o120000, Kind::Null => 0o020000, Kind::Pipe(..) => 0o010000 } }
fn size_of(n: &Inode) -> u64 { match &n.kind { Kind::File(f) => f.b.len() as u64 + n.hole, Kind::Link(t) => t.len() as u64, Kind::Dir(_) => 4096, _ => 0 } }
fn full_mode(g: &mut Engine, n: &Inode, w: u16) -> V {
    let t = g.a.c(32, type_bits(&n.kind) as u128);
    let m = g.e(&n.mode, 32);
    let r = g.a.bin(Op::Or, m, t);
    let r = if w < 32 { g.a.extract(r, 0, w) } else { r };
    g.v(r)
}
fn fill_stat(g: &mut Engine, st: &mut State, buf: u64, ino: u32) -> X<()> {
    let n = st.fs.node(ino).clone();
    g.write_bytes(st, &V::C(buf), &Obj::new(144))?;
    g.write_int(st, buf, 8, 1)?;
    g.write_int(st, buf + 8, 8, ino as u64 + 100)?;
    g.write_int(st, buf + 16, 8, n.nlink as u64)?;
    let m = full_mode(g, &n, 32);
    g.write_val(st, buf + 24, 32, &m)?;
    g.write_int(st, buf + 28, 4, n.uid as u64)?;
    g.write_int(st, buf + 48, 8, size_of(&n))?;
    g.write_int(st, buf + 56, 8, 4096)?;
    g.write_int(st, buf + 64, 8, (size_of(&n) + 511) / 512)?;
    for o in [72, 88, 104] { g.write_val(st, buf + o, 64, &n.mtime.0)?; g.write_val(st, buf + o + 8, 64, &n.mtime.1)?; }
    Ok(())
}
fn b_stat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let b = c(&a[1])?; vis(g, st, 32, 4, "stat", &p, |g, st| do_stat(g, st, st.pr().cwd, &p, b, true)) }
fn b_lstat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let b = c(&a[1])?; vis(g, st, 32, 4, "lstat", &p, |g, st| do_stat(g, st, st.pr().cwd, &p, b, false)) }
fn do_stat(g: &mut Engine, st: &mut State, base: u32, p: &[V], b: u64, follow: bool) -> Er<V> {
    match g.walk(st, base, p, follow)? {
        Err(e) => Ok(Err(e)),
        Ok(w) => match w.ino { None => Ok(Err(ENOENT)), Some(i) => { fill_stat(g, st, b, i)?; Ok(Ok(V::C(0))) } },
    }
}
fn b_fstat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, b) = (c(&a[0])?, c(&a[1])?);
    match fdget(st, fd) { None => { set_errno(g, st, EBADF)?; ok(M1) } Some(o) => { let i = st.fs.ofds[o].as_ref().unwrap().ino; fill_stat(g, st, b, i)?; ok(0) } }
}
fn b_fstatat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (d, b, fl) = (c(&a[0])?, c(&a[2])?, c(&a[3])?);
    let p = g.cstr(st, &a[1])?;
    if p.is_empty() && fl & 0x1000 != 0 { return b_fstat(g, st, &[a[0].clone(), a[2].clone()]); }
    vis(g, st, 32, 4, "stat", &p, |g, st| { let base = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) }; do_stat(g, st, base, &p, b, fl & 0x100 == 0) })
}
fn b_statx(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (d, fl, b) = (c(&a[0])?, c(&a[2])?, c(&a[4])?);
    if c(&a[1])? == 0 || b == 0 { set_errno(g, st, 14)?; return ok(M1); }
    let p = g.cstr(st, &a[1])?;
    let fill = |g: &mut Engine, st: &mut State, ino: u32| -> Er<V> {
        let n = st.fs.node(ino).clone();
        g.write_bytes(st, &V::C(b), &Obj::new(256))?;
        g.write_int(st, b, 4, 0x7ff)?;
        g.write_int(st, b + 4, 4, 4096)?;
        g.write_int(st, b + 16, 4, n.nlink as u64)?;
        g.write_int(st, b + 20, 4, n.uid as u64)?;
        let m = full_mode(g, &n, 16);
        g.write_val(st, b + 28, 16, &m)?;
        g.write_int(st, b + 32, 8, ino as u64 + 100)?;
        g.write_int(st, b + 40, 8, size_of(&n))?;
        for o in [64, 96, 112] { g.write_val(st, b + o, 64, &n.mtime.0)?; let e = g.e(&n.mtime.1, 64); let e = g.a.extract(e, 0, 32); let v = g.v(e); g.write_val(st, b + o + 8, 32, &v)?; }
        g.write_int(st, b + 140, 4, 1)?;
        Ok(Ok(V::C(0)))
    };
    if p.is_empty() && fl & 0x1000 != 0 {
        return match fdget(st, d) { None => { set_errno(g, st, EBADF)?; ok(M1) } Some(o) => { let i = st.fs.ofds[o].as_ref().unwrap().ino; match fill(g, st, i)? { Ok(v) => Ok(v), Err(_) => err("statx") } } };
    }
    vis(g, st, 32, 4, if fl & 0x100 == 0 { "stat" } else { "lstat" }, &p, |g, st| {
        let base = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
        match g.walk(st, base, &p, fl & 0x100 == 0)? { Err(e) => Ok(Err(e)), Ok(w) => match w.ino { None => Ok(Err(ENOENT)), Some(i) => fill(g, st, i) } }
    })
}
fn do_mkdir(g: &mut Engine, st: &mut State, d: u64, p: &[V], mode: &V) -> Er<V> {
    let base = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
    match g.walk(st, base, p, false)? {
        Err(e) => Ok(Err(e)),
        Ok(w) => {
            if w.ino.is_some() { return Ok(Err(EEXIST)); }
            let um = st.pr().umask.clone();
            let m = mask_mode(g, st, mode, &um);
            let t = g.now(st);
            let uid = st.pr().uid;
            let fs = Rc::make_mut(&mut st.fs);
            let i = fs.add(Inode { kind: Kind::Dir(Default::default()), mode: m, nlink: 2, uid, mtime: t, parent: w.parent, hole: 0 });
            fs.link(w.parent, w.name, i);
            Ok(Ok(V::C(0)))
        }
    }
}
const ATCWD: u64 = (-100i32) as u32 as u64;
fn b_mkdir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let m = a[1].clone(); vis(g, st, 32, 2, "mkdir", &p, |g, st| do_mkdir(g, st, ATCWD, &p, &m)) }
fn b_mkdirat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let d = c(&a[0])?; let p = g.cstr(st, &a[1])?; let m = a[2].clone(); vis(g, st, 32, 2, "mkdir", &p, |g, st| do_mkdir(g, st, d, &p, &m)) }
fn do_unlink(g: &mut Engine, st: &mut State, d: u64, p: &[V], dir: bool) -> Er<V> {
    let base = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
    match g.walk(st, base, p, false)? {
        Err(e) => Ok(Err(e)),
        Ok(w) => {
            let i = match w.ino { Some(i) => i, None => return Ok(Err(ENOENT)) };
            if dir {
                match &st.fs.node(i).kind { Kind::Dir(l) => if !l.is_empty() { return Ok(Err(ENOTEMPTY)); }, _ => return Ok(Err(ENOTDIR)) }
            } else if matches!(st.fs.node(i).kind, Kind::Dir(_)) { return Ok(Err(EISDIR)); }
            let fs = Rc::make_mut(&mut st.fs);
            fs.remove(w.parent, &w.name);
            fs.node_mut(i).nlink -= 1;
            Ok(Ok(V::C(0)))
        }
    }
}
fn b_unlink(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; vis(g, st, 32, 2, "unlink", &p, |g, st| do_unlink(g, st, ATCWD, &p, false)) }
fn b_rmdir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; vis(g, st, 32, 2, "rmdir", &p, |g, st| do_unlink(g, st, ATCWD, &p, true)) }
fn b_unlinkat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let d = c(&a[0])?; let p = g.cstr(st, &a[1])?; let f = c(&a[2])?; vis(g, st, 32, 2, if f & 0x200 != 0 { "rmdir" } else { "unlink" }, &p, |g, st| do_unlink(g, st, d, &p, f & 0x200 != 0)) }
fn do_rename(g: &mut Engine, st: &mut State, d1: u64, p: &[V], d2: u64, q: &[V], noreplace: bool) -> Er<V> {
    let (b1, b2) = match (atdir(st, d1), atdir(st, d2)) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(Err(EBADF)) };
    let w = match g.walk(st, b1, p, false)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let x = match g.walk(st, b2, q, false)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let i = match w.ino { Some(i) => i, None => return Ok(Err(ENOENT)) };
    if let Some(j) = x.ino {
        if noreplace { return Ok(Err(EEXIST)); }
        if i == j { return Ok(Ok(V::C(0))); }
        match (&st.fs.node(i).kind, &st.fs.node(j).kind) {
            (Kind::Dir(_), Kind::Dir(l)) => if !l.is_empty() { return Ok(Err(ENOTEMPTY)); },
            (Kind::Dir(_), _) => return Ok(Err(ENOTDIR)),
            (_, Kind::Dir(_)) => return Ok(Err(EISDIR)),
            _ => {}
        }
        let fs = Rc::make_mut(&mut st.fs);
        fs.remove(x.parent, &x.name);
        fs.node_mut(j).nlink -= 1;
    }
    let fs = Rc::make_mut(&mut st.fs);
    fs.remove(w.parent, &w.name);
    fs.link(x.parent, x.name, i);
    Ok(Ok(V::C(0)))
}
fn b_rename(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let q = g.cstr(st, &a[1])?; vis(g, st, 32, 2, "rename", &q, |g, st| do_rename(g, st, ATCWD, &p, ATCWD, &q, false)) }
fn b_renameat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (d1, d2) = (c(&a[0])?, c(&a[2])?);
    let fl = match a.get(4) { Some(v) => c(v)?, None => 0 };
    let p = g.cstr(st, &a[1])?; let q = g.cstr(st, &a[3])?;
    vis(g, st, 32, 2, "rename", &q, |g, st| do_rename(g, st, d1, &p, d2, &q, fl & 1 != 0))
}
fn do_link(g: &mut Engine, st: &mut State, d1: u64, p: &[V], d2: u64, q: &[V], follow: bool) -> Er<V> {
    let (b1, b2) = match (atdir(st, d1), atdir(st, d2)) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(Err(EBADF)) };
    let w = match g.walk(st, b1, p, follow)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let x = match g.walk(st, b2, q, false)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let i = match w.ino { Some(i) => i, None => return Ok(Err(ENOENT)) };
    if x.ino.is_some() { return Ok(Err(EEXIST)); }
    if matches!(st.fs.node(i).kind, Kind::Dir(_)) { return Ok(Err(1)); }
    let fs = Rc::make_mut(&mut st.fs);
    fs.link(x.parent, x.name, i);
    fs.node_mut(i).nlink += 1;
    Ok(Ok(V::C(0)))
}
fn b_link(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let q = g.cstr(st, &a[1])?; vis(g, st, 32, 2, "link", &q, |g, st| do_link(g, st, ATCWD, &p, ATCWD, &q, false)) }
fn b_linkat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (d1, d2, f) = (c(&a[0])?, c(&a[2])?, c(&a[4])?);
    let p = g.cstr(st, &a[1])?; let q = g.cstr(st, &a[3])?;
    vis(g, st, 32, 2, "link", &q, |g, st| do_link(g, st, d1, &p, d2, &q, f & 0x400 != 0))
}
fn b_symlink(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?; let q = g.cstr(st, &a[1])?;
    vis(g, st, 32, 2, "symlink", &q, |g, st| {
        let cw = st.pr().cwd;
        let x = match g.walk(st, cw, &q, false)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
        if x.ino.is_some() { return Ok(Err(EEXIST)); }
        let t = g.now(st);
        let fs = Rc::make_mut(&mut st.fs);
        let i = fs.add(Inode { kind: Kind::Link(Rc::new(p.clone())), mode: V::C(0o777), nlink: 1, uid: 0, mtime: t, parent: 0, hole: 0 });
        fs.link(x.parent, x.name, i);
        Ok(Ok(V::C(0)))
    })
}
fn b_readlink(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?; let n = c(&a[2])?;
    let buf = a[1].clone();
    vis(g, st, 64, 4, "readlink", &p, |g, st| {
        let cw = st.pr().cwd;
        let w = match g.walk(st, cw, &p, false)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
        let i = match w.ino { Some(i) => i, None => return Ok(Err(ENOENT)) };
        match st.fs.node(i).kind.clone() {
            Kind::Link(t) => { let k = t.len().min(n as usize); g.write_bytes(st, &buf, &Obj::from_bytes(&t[..k]))?; Ok(Ok(V::C(k as u64))) }
            _ => Ok(Err(EINVAL)),
        }
    })
}
fn b_realpath(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?;
    let cw = st.pr().cwd;
    let w = match g.walk(st, cw, &p, true)? { Ok(w) => w, Err(e) => { set_errno(g, st, e)?; return ok(0); } };
    let i = match w.ino { Some(i) => i, None => { set_errno(g, st, ENOENT)?; return ok(0); } };
    let fs = st.fs.clone();
    let mut out = if let Kind::Dir(_) = st.fs.node(i).kind { g.dir_path(&fs, i) } else { let mut d = g.dir_path(&fs, w.parent); if d.len() > 1 { d.push(V::C(47)); } d.extend(w.name.iter().cloned()); d };
    out.push(V::C(0));
    let dst = c(&a[1])?;
    let dst = if dst == 0 { g.malloc(st, &V::C(out.len() as u64))? } else { dst };
    g.write_bytes(st, &V::C(dst), &Obj::from_bytes(&out))?;
    ok(dst)
}
fn do_chmod(g: &mut Engine, st: &mut State, d: u64, p: &[V], m: &V) -> Er<V> {
    let base = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
    let w = match g.walk(st, base, p, true)? { Ok(w) => w, Err(e) => return Ok(Err(e)) };
    let i = match w.ino { Some(i) => i, None => return Ok(Err(ENOENT)) };
    let me = g.e(m, 32);
    let k = g.a.c(32, 0o7777);
    let r = g.a.bin(Op::And, me, k);
    let v = g.v(r);
    Rc::make_mut(&mut st.fs).node_mut(i).mode = v;
    Ok(Ok(V::C(0)))
}
fn b_chmod(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.cstr(st, &a[0])?; let m = a[1].clone(); vis(g, st, 32, 2, "chmod", &p, |g, st| do_chmod(g, st, ATCWD, &p, &m)) }
fn b_fchmodat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let d = c(&a[0])?; let p = g.cstr(st, &a[1])?; let m = a[2].clone(); vis(g, st, 32, 2, "chmod", &p, |g, st| do_chmod(g, st, d, &p, &m)) }
fn b_fchmod(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fd = c(&a[0])?; let m = a[1].clone();
    vis(g, st, 32, 2, "fchmod", &[], |g, st| {
        let o = match fdget(st, fd) { Some(o) => o, None => return Ok(Err(EBADF)) };
        let i = st.fs.ofds[o].as_ref().unwrap().ino;
        let me = g.e(&m, 32);
        let k = g.a.c(32, 0o7777);
        let r = g.a.bin(Op::And, me, k);
        let v = g.v(r);
        Rc::make_mut(&mut st.fs).node_mut(i).mode = v;
        Ok(Ok(V::C(0)))
    })
}
fn b_access(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?;
    vis(g, st, 32, 4, "access", &p, |g, st| { let cw = st.pr().cwd; match g.walk(st, cw, &p, true)? { Err(e) => Ok(Err(e)), Ok(w) => if w.ino.is_some() { Ok(Ok(V::C(0))) } else { Ok(Err(ENOENT)) } } })
}
fn b_faccessat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let d = c(&a[0])?; let p = g.cstr(st, &a[1])?;
    vis(g, st, 32, 4, "access", &p, |g, st| { let b = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) }; match g.walk(st, b, &p, true)? { Err(e) => Ok(Err(e)), Ok(w) => if w.ino.is_some() { Ok(Ok(V::C(0))) } else { Ok(Err(ENOENT)) } } })
}
fn b_umask(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let m = g.e(&a[0], 32);
    let k = g.a.c(32, 0o777);
    let m = g.a.bin(Op::And, m, k);
    let m = g.v(m);
    Ok(std::mem::replace(&mut st.p().umask, m))
}
fn b_ftruncate(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, n) = (c(&a[0])?, c(&a[1])?);
    vis(g, st, 32, 1, "ftruncate", &[], |g, st| {
        let _ = &g;
        let o = match fdget(st, fd) { Some(o) => o, None => return Ok(Err(EBADF)) };
        let i = st.fs.ofds[o].as_ref().unwrap().ino;
        let nd = Rc::make_mut(&mut st.fs).node_mut(i);
        match &mut nd.kind { Kind::File(f) => {
            let len = f.b.len() as u64;
            if n > len && (nd.hole > 0 || n - len > 1 << 26) { nd.hole = n - len; } else { nd.hole = 0; Rc::make_mut(f).resize(n as usize); }
            Ok(Ok(V::C(0))) } _ => Ok(Err(EINVAL)) }
    })
}
fn b_fsync(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { vis(g, st, 32, 2, "fsync", &[], |_, _| Ok(Ok(V::C(0)))) }
fn set_times(g: &mut Engine, st: &mut State, i: u32, ts: u64) -> X<()> {
    let t64 = g.prog.ty(Ty::Int(64));
    let (s, n) = if ts == 0 { (V::C(0), V::C(0x3fffffff)) } else { (g.load(st, &V::C(ts + 16), t64)?, g.load(st, &V::C(ts + 24), t64)?) };
    if let V::C(0x3ffffffe) = n { return Ok(()); }
    let v = if let V::C(0x3fffffff) = n { g.now(st) } else { (s, n) };
    Rc::make_mut(&mut st.fs).node_mut(i).mtime = v;
    Ok(())
}
fn b_futimens(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, ts) = (c(&a[0])?, c(&a[1])?);
    match fdget(st, fd) { None => { set_errno(g, st, EBADF)?; ok(M1) } Some(o) => { let i = st.fs.ofds[o].as_ref().unwrap().ino; set_times(g, st, i, ts)?; ok(0) } }
}
fn b_utimensat(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (d, ts, fl) = (c(&a[0])?, c(&a[2])?, c(&a[3])?);
    let p = g.cstr(st, &a[1])?;
    vis(g, st, 32, 2, "utimens", &p, |g, st| {
        let b = match atdir(st, d) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
        match g.walk(st, b, &p, fl & 0x100 == 0)? { Err(e) => Ok(Err(e)), Ok(w) => match w.ino { None => Ok(Err(ENOENT)), Some(i) => { set_times(g, st, i, ts)?; Ok(Ok(V::C(0))) } } }
    })
}
// directory streams: the DIR* is an object holding the ofd number
fn open_dir(g: &mut Engine, st: &mut State, fd: u64) -> X<u64> {
    let id = st.p().mem.alloc(Obj::new(512));
    let p = (id as u64) << 32;
    g.write_int(st, p, 8, fd)?;
    Ok(p)
}
fn b_opendir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?;
    let r = vis(g, st, 32, 4, "opendir", &p, |g, st| do_open(g, st, ATCWD, &p, 0o200000 | 0o2000000, &V::C(0)))?;
    let fd = c(&r)?;
    if fd == M1 { return ok(0); }
    ok(open_dir(g, st, fd)?)
}
fn b_fdopendir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let fd = c(&a[0])?; ok(open_dir(g, st, fd)?) }
fn b_dirfd(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = c(&a[0])?; ok(g.read_int(st, p, 8)? & M1) }
fn b_readdir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let dp = c(&a[0])?;
    let fd = g.read_int(st, dp, 8)?;
    let o = fdget(st, fd).ok_or(Stop::Err("readdir".into()))?;
    let of = st.fs.ofds[o].clone().unwrap();
    let list = match of.list {
        Some(l) => l,
        None => {
            // the listing is taken in one step (visible)
            let mut got = None;
            vis(g, st, 64, 4, "readdir", &[], |_, st| {
                let mut l: Vec<(Name, u32)> = vec![(Rc::new(vec![V::C(46)]), of.ino), (Rc::new(vec![V::C(46), V::C(46)]), st.fs.node(of.ino).parent)];
                if let Kind::Dir(e) = &st.fs.node(of.ino).kind { l.extend(e.iter().cloned()); }
                got = Some(Rc::new(l));
                Ok(Ok(V::C(0)))
            })?;
            match got { Some(l) => { Rc::make_mut(&mut st.fs).ofds[o].as_mut().unwrap().list = Some(l.clone()); l } None => return ok(0) }
        }
    };
    let pos = of.pos as usize;
    if pos >= list.len() { return ok(0); }
    Rc::make_mut(&mut st.fs).ofds[o].as_mut().unwrap().pos += 1;
    let (n, i) = list[pos].clone();
    let d = dp + 16;
    g.write_int(st, d, 8, i as u64 + 100)?;
    g.write_int(st, d + 8, 8, pos as u64 + 1)?;
    g.write_int(st, d + 16, 2, 280)?;
    let k = match st.fs.node(i).kind { Kind::Dir(_) => 4, Kind::File(_) => 8, Kind::Link(_) => 10, _ => 2 };
    g.write_int(st, d + 18, 1, k)?;
    let mut b = (*n).clone();
    b.push(V::C(0));
    g.write_bytes(st, &V::C(d + 19), &Obj::from_bytes(&b))?;
    ok(d)
}
fn b_closedir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let dp = c(&a[0])?;
    let fd = g.read_int(st, dp, 8)?;
    st.p().mem.free((dp >> 32) as u32);
    b_close(g, st, &[V::C(fd)])
}
fn dup_to(g: &mut Engine, st: &mut State, o: usize, to: Option<u64>, min: u64, ce: bool) -> X<u64> {
    Rc::make_mut(&mut st.fs).ofds[o].as_mut().unwrap().refs += 1;
    let _ = g;
    match to {
        Some(t) => {
            if let Some(old) = fdget(st, t) { close_ofd(st, old); }
            let f = Rc::make_mut(&mut st.p().fds);
            while f.len() <= t as usize { f.push(None); }
            f[t as usize] = Some(Fd { ofd: o, cloexec: ce });
            Ok(t)
        }
        None => {
            let f = Rc::make_mut(&mut st.p().fds);
            while f.len() < min as usize { f.push(None); }
            let i = (min as usize..).find(|&i| i >= f.len() || f[i].is_none()).unwrap();
            if i == f.len() { f.push(None); }
            f[i] = Some(Fd { ofd: o, cloexec: ce });
            Ok(i as u64)
        }
    }
}
fn b_dup(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let fd = c(&a[0])?; match fdget(st, fd) { Some(o) => ok(dup_to(g, st, o, None, 0, false)?), None => { set_errno(g, st, EBADF)?; ok(M1) } } }
fn b_dup2(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let (fd, t) = (c(&a[0])?, c(&a[1])?); match fdget(st, fd) { Some(o) => { if fd == t { return ok(t); } ok(dup_to(g, st, o, Some(t), 0, false)?) } None => { set_errno(g, st, EBADF)?; ok(M1) } } }
fn b_fcntl(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (fd, cmd) = (c(&a[0])?, c(&a[1])?);
    let o = match fdget(st, fd) { Some(o) => o, None => { set_errno(g, st, EBADF)?; return ok(M1) } };
    match cmd {
        0 | 1030 => { let m = c(&a[2])?; ok(dup_to(g, st, o, None, m, cmd == 1030)?) }
        1 => ok(st.pr().fds[fd as usize].as_ref().unwrap().cloexec as u64),
        2 => { let k = c(&a[2])?; Rc::make_mut(&mut st.p().fds)[fd as usize].as_mut().unwrap().cloexec = k & 1 != 0; ok(0) }
        3 => ok(st.fs.ofds[o].as_ref().unwrap().flags as u64 & !0o2000000),
        4 => ok(0),
        1031 => { let k = c(&a[2])?; let ino = st.fs.ofds[o].as_ref().unwrap().ino; if let Kind::Pipe(_, cap) = &mut Rc::make_mut(&mut st.fs).node_mut(ino).kind { *cap = k as usize; } ok(k) }
        _ => err(format!("fcntl {}", cmd)),
    }
}
fn b_chdir(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.cstr(st, &a[0])?;
    let cw = st.pr().cwd;
    match g.walk(st, cw, &p, true)? {
        Ok(Walk { ino: Some(i), .. }) if matches!(st.fs.node(i).kind, Kind::Dir(_)) => { st.p().cwd = i; ok(0) }
        Ok(_) => { set_errno(g, st, ENOENT)?; ok(M1) }
        Err(e) => { set_errno(g, st, e)?; ok(M1) }
    }
}
fn b_getcwd(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fs = st.fs.clone();
    let mut p = g.dir_path(&fs, st.pr().cwd);
    p.push(V::C(0));
    let n = c(&a[1])?;
    if (p.len() as u64) > n { set_errno(g, st, 34)?; return ok(0); }
    g.write_bytes(st, &a[0], &Obj::from_bytes(&p))?;
    Ok(a[0].clone())
}
fn b_isatty(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let fd = c(&a[0])?;
    if fdget(st, fd).is_none() { set_errno(g, st, EBADF)?; return ok(0); }
    if fd < 3 && st.pr().tty >> fd & 1 != 0 { return ok(1); }
    set_errno(g, st, 25)?;
    ok(0)
}
/// verif_tty(mask): which of the standard streams are terminals
fn v_tty(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let m = c(&a[0])?; st.p().tty = m; ok(0) }
fn b_ioctl(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { set_errno(g, st, 25)?; ok(M1) }

// ---- memory -----------------------------------------------------------------------------------
fn b_malloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { ok(g.malloc(st, &a[0])?) }
fn b_calloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let n = g.binop(st, BinOp::Mul, 64, &a[0], &a[1])?; ok(g.malloc(st, &n)?) }
fn b_free(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let p = g.pinv(st, &a[0])?;
    if p == 0 { return ok(0); }
    let n = st.pr().mem.get((p >> 32) as u32).map_or(0, |o| o.b.len()) as u64;
    let m = &mut st.p().mem;
    m.heap = m.heap.saturating_sub(n);
    if p & M1 != 0 || !st.p().mem.free((p >> 32) as u32) { return Err(Stop::Viol("invalid free".into())); }
    ok(0)
}
fn b_realloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { realloc(g, st, &a[0], &a[1]) }
fn realloc(g: &mut Engine, st: &mut State, p: &V, n: &V) -> X<V> {
    let p = g.pinv(st, p)?;
    let n = match n { V::C(k) => *k, V::S(e) => g.max_of(st, *e)?, _ => return err("realloc") };
    if p == 0 { return ok(g.malloc(st, &V::C(n))?); }
    let mut o = (*g.obj(st, (p >> 32) as u32)?).clone();
    let m = &mut st.p().mem;
    m.heap = m.heap.saturating_sub(o.b.len() as u64) + n;
    o.resize(n as usize);
    st.p().mem.free((p >> 32) as u32);
    let id = st.p().mem.alloc(o);
    ok((id as u64) << 32)
}
fn b_memalign(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = g.malloc(st, &a[2])?; let d = c(&a[0])?; g.write_int(st, d, 8, p)?; ok(0) }
fn b_aligned_alloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { ok(g.malloc(st, &a[1])?) }
fn rust_dealloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { b_free(g, st, &a[..1]) }
fn rust_realloc(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { realloc(g, st, &a[0], &a[3]) }
fn b_memcpy(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    g.memcpy(st, &a[0], &a[1], &a[2])?;
    Ok(a[0].clone())
}
fn b_memset(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    g.memset(st, &a[0], &a[1], &a[2])?;
    Ok(a[0].clone())
}
fn b_memcmp(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { cmp(g, st, a, false) }
fn b_bcmp(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { cmp(g, st, a, true) }
fn cmp(g: &mut Engine, st: &mut State, a: &[V], eq_only: bool) -> X<V> {
    let n = g.pinv(st, &a[2])?;
    if n == 0 { return ok(0); }
    let (x, y) = (g.read_bytes(st, &a[0], n)?, g.read_bytes(st, &a[1], n)?);
    if x.sym.is_none() && y.sym.is_none() {
        return ok(match x.b.cmp(&y.b) { std::cmp::Ordering::Less => M1, std::cmp::Ordering::Equal => 0, _ => 1 });
    }
    let (xb, yb) = (x.bytes(), y.bytes());
    if eq_only {
        let q = g.eq_bytes(&xb, &yb);
        let (one, zero) = (g.a.c(32, 1), g.a.c(32, 0));
        let r = g.a.ite(q, zero, one);
        return Ok(g.v(r));
    }
    let (one, m1) = (g.a.c(32, 1), g.a.c(32, M1 as u128));
    let mut acc = g.a.c(32, 0);
    for i in (0..n as usize).rev() {
        let (p, q) = (g.e(&xb[i], 8), g.e(&yb[i], 8));
        if p == q { continue; }
        let lt = g.a.bin(Op::Ult, p, q);
        let eq = g.a.bin(Op::Eq, p, q);
        let d = g.a.ite(lt, m1, one);
        acc = g.a.ite(eq, acc, d);
    }
    Ok(g.v(acc))
}
fn b_strlen(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { ok(g.cstr(st, &a[0])?.len() as u64) }
fn b_strcmp(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (mut x, mut y) = (g.cstr(st, &a[0])?, g.cstr(st, &a[1])?);
    x.push(V::C(0)); y.push(V::C(0));
    if fs_same(&x, &y) { return ok(0); }
    for i in 0..x.len().min(y.len()) {
        let (p, q) = (g.e(&x[i], 8), g.e(&y[i], 8));
        let eq = g.a.bin(Op::Eq, p, q);
        if g.fork(st, eq)? { continue; }
        let lt = g.a.bin(Op::Ult, p, q);
        return ok(if g.fork(st, lt)? { M1 } else { 1 });
    }
    ok(0)
}
fn fs_same(a: &[V], b: &[V]) -> bool { same(a, b) }
/// core::slice::memchr::{memchr,memrchr}_aligned(x: u8, text: &[u8]) -> Option<usize>
fn chr(g: &mut Engine, st: &mut State, a: &[V], rev: bool) -> X<V> {
    let n = g.pinv(st, &a[2])?;
    let x = a[0].clone();
    let o = g.read_bytes(st, &a[1], n)?;
    let xe = g.e(&x, 8);
    for k in 0..n as usize {
        let i = if rev { n as usize - 1 - k } else { k };
        let b = o.get(i);
        let hit = match (&b, &x) { (V::C(p), V::C(q)) => p == q, _ => { let be = g.e(&b, 8); let q = g.a.bin(Op::Eq, be, xe); g.fork(st, q)? } };
        if hit { return Ok(V::A(Rc::new(vec![V::C(1), V::C(i as u64)]))); }
    }
    Ok(V::A(Rc::new(vec![V::C(0), V::C(0)])))
}
fn core_memchr(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { chr(g, st, a, false) }
fn core_memrchr(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { chr(g, st, a, true) }
fn b_memchr(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = g.pinv(st, &a[2])?;
    let k = g.pinv(st, &a[1])?;
    let r = chr(g, st, &[V::C(k & 255), a[0].clone(), V::C(n)], false)?;
    if let V::A(l) = r { if let (V::C(1), V::C(i)) = (&l[0], &l[1]) { return ok(c(&a[0])? + i); } }
    ok(0)
}

// ---- panics -----------------------------------------------------------------------------------
fn loc_string(g: &mut Engine, st: &mut State, p: &V) -> String {
    let f = || -> Option<()> { None };
    let _ = f;
    (|| -> X<String> {
        let l = c(p)?;
        if l >> 32 == 0 { return Ok("?".into()); }
        let (s, n) = (g.read_int(st, l, 8)?, g.read_int(st, l + 8, 8)?);
        let line = g.read_int(st, l + 16, 4)?;
        let mut t = String::from_utf8_lossy(&g.read_bytes(st, &V::C(s), n)?.b).into_owned();
        while t.ends_with('\0') { t.pop(); }
        Ok(format!("{}:{}", t, line))
    })().unwrap_or_else(|_| "?".into())
}
fn b_panic(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let l = a.last().cloned().unwrap_or(V::C(0));
    let s = loc_string(g, st, &l);
    Err(Stop::Viol(format!("panic at {} [{}]", s, g.where_am_i(st))))
}
fn b_abort(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { Err(Stop::Viol(format!("abort [{}]", g.where_am_i(st)))) }

// ---- processes --------------------------------------------------------------------------------
fn b_exit(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = g.pinv(st, &a[0])?; Err(Stop::Exit(((k & 0xff) << 8) as i32)) }
fn b_fork(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> {
    if st.procs.len() > 8 { return err("too many processes"); }
    let mut ch = st.pr().clone();
    let idx = st.procs.len() as i32;
    ch.ppid = ch.pid;
    ch.pid = 1000 + idx;
    ch.go = false;
    ch.nvis = 0;
    ch.status = Status::Run;
    let _ = g;
    for f in ch.fds.iter().flatten() { Rc::make_mut(&mut st.fs).ofds[f.ofd].as_mut().unwrap().refs += 1; }
    // the child returns 0 from this very call
    let fr = Rc::make_mut(ch.frames.last_mut().unwrap());
    let (d, normal) = match &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize] { I::Call(c) => (c.dst, c.normal), _ => return err("fork") };
    if normal.is_some() { return err("fork through invoke"); }
    if let Some(d) = d { fr.regs[d as usize] = V::C(0); }
    fr.ip += 1;
    let pid = ch.pid;
    st.procs.push(ch);
    ok(pid as u64)
}
fn b_waitpid(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let pid = c(&a[0])? as u32 as i32;
    let me = st.pr().pid;
    let cand: Vec<usize> = (0..st.procs.len()).filter(|&i| st.procs[i].ppid == me && !st.procs[i].reaped && i != st.cur && (pid == -1 || st.procs[i].pid == pid)).collect();
    if cand.is_empty() { set_errno(g, st, 10)?; return ok(M1); }
    for i in cand {
        if let Status::Dead(code) = st.procs[i].status {
            st.procs[i].reaped = true;
            let sp = c(&a[1])?;
            if sp != 0 { g.write_int(st, sp, 4, code as u32 as u64)?; }
            return ok(st.procs[i].pid as u64);
        }
    }
    if c(&a[2])? & 1 != 0 { return ok(0); }
    st.p().status = Status::WaitChild(pid);
    Err(Stop::Yield)
}
fn b_kill(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (p, s) = (c(&a[0])? as u32 as i32, c(&a[1])?);
    let _ = g;
    if p != st.pr().pid { return err("a signal to another process"); }
    if s == 0 { return ok(0); }
    Err(Stop::Exit(s as i32))
}
fn b_getpid(_g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { ok(st.pr().pid as u64) }
fn b_getuid(_g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { ok(st.pr().uid as u64) }
fn b_setuid(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let u = c(&a[0])? as u32; st.p().uid = u; ok(0) }

fn b_errno(_g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { ok(st.pr().errno) }
/// the place of a variable in the environment: its slot and its value
fn env_slot(g: &mut Engine, st: &mut State, n: &str) -> X<(u64, Option<u64>)> {
    let base = st.pr().env;
    let mut i = 0;
    'next: loop {
        let p = g.read_int(st, base + i * 8, 8)?;
        if p == 0 { return Ok((i, None)); }
        i += 1;
        let o = g.obj(st, (p >> 32) as u32)?;
        let at = (p & M1) as usize;
        for (k, b) in n.bytes().chain(std::iter::once(b'=')).enumerate() { if at + k >= o.b.len() || !matches!(o.get(at + k), V::C(x) if x == b as u64) { continue 'next; } }
        return Ok((i - 1, Some(p + n.len() as u64 + 1)));
    }
}
fn b_getenv(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let n = g.cstr_c(st, &a[0])?; let p = env_slot(g, st, &n)?.1; ok(p.unwrap_or(0)) }
/// replace, add or remove an entry: the array is written anew
fn env_put(g: &mut Engine, st: &mut State, slot: u64, entry: Option<Vec<V>>) -> X<()> {
    let base = st.pr().env;
    let mut l = vec![];
    loop { let p = g.read_int(st, base + l.len() as u64 * 8, 8)?; if p == 0 { break; } l.push(p); }
    match entry {
        Some(e) => { let p = (st.p().mem.alloc(Obj::from_bytes(&e)) as u64) << 32; if (slot as usize) < l.len() { l[slot as usize] = p; } else { l.push(p); } }
        None => { l.remove(slot as usize); }
    }
    l.push(0);
    let mut o = Obj::new(l.len() * 8);
    for (i, a) in l.iter().enumerate() { o.write_c(i * 8, 8, *a); }
    let env = (st.p().mem.alloc(o) as u64) << 32;
    st.p().env = env;
    let at = g.prog.ext_glob("environ");
    g.write_int(st, at, 8, env)
}
fn b_setenv(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = g.cstr_c(st, &a[0])?;
    let v = g.cstr(st, &a[1])?;
    let (slot, old) = env_slot(g, st, &n)?;
    if old.is_some() && c(&a[2])? == 0 { return ok(0); }
    let mut e: Vec<V> = n.bytes().chain(std::iter::once(b'=')).map(|b| V::C(b as u64)).collect();
    e.extend(v);
    e.push(V::C(0));
    env_put(g, st, slot, Some(e))?;
    ok(0)
}
fn b_unsetenv(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = g.cstr_c(st, &a[0])?;
    while let (slot, Some(_)) = env_slot(g, st, &n)? { env_put(g, st, slot, None)?; }
    ok(0)
}
fn zero0(_g: &mut Engine, _st: &mut State, _a: &[V]) -> X<V> { ok(0) }
fn one1(_g: &mut Engine, _st: &mut State, _a: &[V]) -> X<V> { ok(1) }
fn enosys(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { set_errno(g, st, 38)?; ok(M1) }
fn enosys64(g: &mut Engine, st: &mut State, _a: &[V]) -> X<V> { set_errno(g, st, 38)?; ok(u64::MAX) }
fn b_sysconf(_g: &mut Engine, _st: &mut State, a: &[V]) -> X<V> { ok(match c(&a[0])? { 30 => 4096, 70 => 1024, 84 | 83 => 1, _ => u64::MAX }) }
fn b_clock(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (id, p) = (c(&a[0])?, c(&a[1])?);
    if id == 0 {
        if let Some(last) = st.clock.last().cloned() {
            // realtime: the previous reading or one second more, at the solver's choice
            let n = st.pr().counters.get("clock").copied().unwrap_or(0);
            let v = g.a.var(&format!("clock.p{}.{}", st.cur, n), 8);
            let one = g.a.byte(1);
            let q = g.a.bin(Op::Ule, v, one);
            g.assume(st, q)?;
            let l = g.e(&last, 64);
            let vz = g.a.zext(v, 64);
            let r = g.a.bin(Op::Add, l, vz);
            let r = g.v(r);
            Rc::make_mut(&mut st.p().counters).insert("clock".into(), n + 1);
            Rc::make_mut(&mut st.clock).push(r.clone());
            g.write_val(st, p, 64, &r)?;
            g.write_int(st, p + 8, 8, 0)?;
            return ok(0);
        }
        g.write_int(st, p, 8, 1_700_000_000)?;
        g.write_int(st, p + 8, 8, 0)?;
        return ok(0);
    }
    st.nsym += 1;
    let k = st.nsym as u64;
    g.write_int(st, p, 8, 1000 + k)?;
    g.write_int(st, p + 8, 8, k * 7919)?;
    ok(0)
}
fn b_getrandom(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = c(&a[1])?;
    let mut o = Obj::new(n as usize);
    st.nsym += 1;
    let mut s = 0x9E3779B97F4A7C15u64.wrapping_mul(st.nsym as u64 + 1);
    for b in o.b.iter_mut() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; *b = s as u8; }
    g.write_bytes(st, &a[0], &o)?;
    ok(n)
}
fn b_syscall(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    match c(&a[0])? { 318 => b_getrandom(g, st, &a[1..]), 186 => ok(1), n => { let _ = n; enosys64(g, st, a) } }
}
fn b_key_create(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let p = c(&a[0])?; let k = Rc::make_mut(&mut st.p().keys); k.push(0); let n = k.len() as u64; g.write_int(st, p, 4, n)?; ok(0) }
fn b_getspecific(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = c(&a[0])? as usize; ok(st.pr().keys.get(k.wrapping_sub(1)).copied().unwrap_or(0)) }
fn b_setspecific(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = c(&a[0])? as usize; let v = g.pinv(st, &a[1])?; Rc::make_mut(&mut st.p().keys)[k - 1] = v; ok(0) }
fn b_strerror_r(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let e = c(&a[0])?;
    let n = c(&a[2])?;
    let mut s = { let m = std::io::Error::from_raw_os_error(e as i32).to_string(); m.rsplit_once(" (").map_or(m.clone(), |x| x.0.to_string()).into_bytes() };
    s.push(0);
    if (s.len() as u64) > n { return ok(34); }
    g.write_bytes(st, &a[1], &Obj::from(s))?;
    ok(0)
}
fn user_name(u: u64) -> Option<String> { match u { 0 => Some("root".into()), 1 => Some("daemon".into()), 2 => Some("bin".into()), 65534 => Some("nobody".into()), _ => None } }
fn b_getpwuid_r(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    // (uid, struct passwd*, buf, buflen, struct passwd **result)
    let (u, pw, buf, res) = (c(&a[0])?, c(&a[1])?, c(&a[2])?, c(&a[4])?);
    match user_name(u) {
        None => { g.write_int(st, res, 8, 0)?; ok(0) }
        Some(n) => {
            let mut s = n.into_bytes();
            s.push(0);
            g.write_bytes(st, &V::C(buf), &Obj::from(s))?;
            g.write_bytes(st, &V::C(buf + 100), &Obj::from(b"x\0".to_vec()))?;
            g.write_int(st, pw, 8, buf)?;
            for o in [8u64, 24, 32, 40] { g.write_int(st, pw + o, 8, buf + 100)?; }
            g.write_int(st, pw + 16, 4, u)?;
            g.write_int(st, pw + 20, 4, u)?;
            g.write_int(st, res, 8, pw)?;
            ok(0)
        }
    }
}
fn b_getpwuid(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let u = c(&a[0])?;
    match user_name(u) {
        None => ok(0),
        Some(n) => {
            let id = st.p().mem.alloc(Obj::new(160));
            let pw = (id as u64) << 32;
            let mut s = n.into_bytes();
            s.push(0);
            g.write_bytes(st, &V::C(pw + 64), &Obj::from(s))?;
            g.write_bytes(st, &V::C(pw + 120), &Obj::from(b"x\0".to_vec()))?;
            g.write_int(st, pw, 8, pw + 64)?;
            for o in [8u64, 24, 32, 40] { g.write_int(st, pw + o, 8, pw + 120)?; }
            g.write_int(st, pw + 16, 4, u)?;
            g.write_int(st, pw + 20, 4, u)?;
            ok(pw)
        }
    }
}

// ---- SHA-256 ----------------------------------------------------------------------------------
fn sha_compress_conc(s: &mut [u32; 8], blk: &[u8]) {
    const K: [u32; 64] = [0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2];
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(blk[i * 4..i * 4 + 4].try_into().unwrap()); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *s;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3].wrapping_add(t1); v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1.wrapping_add(t2);
    }
    for i in 0..8 { s[i] = s[i].wrapping_add(v[i]); }
}
/// sha2::sha256::*::compress(state: &mut [u32; 8], blocks: &[[u8; 64]]): concrete when everything is
/// concrete, otherwise an uninterpreted, injective function of (state, block).
fn sha_compress(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = g.pinv(st, &a[2])?;
    for i in 0..n {
        let s = g.read_bytes(st, &a[0], 32)?;
        let bp = c(&a[1])? + i * 64;
        let b = g.read_bytes(st, &V::C(bp), 64)?;
        let mut inp = s.bytes();
        inp.extend(b.bytes());
        let depth = match st.sha.iter().rev().find(|r| same(&r.out, &inp[..32])) { Some(r) => r.depth + 1, None => 1 };
        // the last block of a message ends with the message's length in bits
        let last = b.sym.is_some() || {
            let bits = u64::from_be_bytes(b.b[56..64].try_into().unwrap());
            bits % 8 == 0 && bits / 8 + 72 >= depth as u64 * 64 && bits / 8 + 9 <= depth as u64 * 64
        };
        let known = st.sha.iter().find(|r| r.depth == depth && same(&r.inp, &inp)).map(|r| r.out.clone());
        let out: Vec<V> = if let Some(r) = known { (*r).clone() } else {
            let out: Vec<V> = if s.sym.is_none() && b.sym.is_none() {
                let mut w = [0u32; 8];
                for j in 0..8 { w[j] = u32::from_le_bytes(s.b[j * 4..j * 4 + 4].try_into().unwrap()); }
                sha_compress_conc(&mut w, &b.b);
                w.iter().flat_map(|x| x.to_le_bytes()).map(|x| V::C(x as u64)).collect()
            } else {
                let k = st.sha.len();
                (0..32).map(|j| V::S(g.a.var(&format!("sha.{}.{}", k, j), 8))).collect()
            };
            let recs = st.sha.clone();
            let symbolic = inp.iter().any(|v| matches!(v, V::S(_)));
            // Equal inputs <=> equal outputs, for blocks at the same place of their messages and between
            // last blocks: by induction from the end, that makes the whole hash injective.
            for r in recs.iter() {
                if !(r.depth == depth || r.last && last) { continue; }
                if !symbolic && !r.inp.iter().any(|v| matches!(v, V::S(_))) { continue; }
                let qi = g.eq_bytes(&r.inp, &inp);
                let qo = g.eq_bytes(&r.out, &out);
                let q = g.a.bin(Op::Eq, qi, qo);
                match g.s.check(&mut g.a, &st.pc, q) {
                    R::Sat(m) => g.s.add(&mut g.a, &mut st.pc, q, m),
                    R::Unsat => return err("sha model inconsistent"),
                    R::Unknown => return err("solver gave up on the hash model"),
                }
            }
            Rc::make_mut(&mut st.sha).push(ShaRec { inp: Rc::new(inp), out: Rc::new(out.clone()), depth, last });
            out
        };
        g.write_bytes(st, &a[0], &Obj::from_bytes(&out))?;
    }
    ok(0)
}

// ---- harness intrinsics -----------------------------------------------------------------------
fn pstr(g: &mut Engine, st: &mut State, p: &V, n: &V) -> X<String> {
    let k = c(n)?;
    let o = g.read_bytes(st, p, k)?;
    Ok(String::from_utf8_lossy(&o.b).into_owned())
}
fn fresh_name(st: &mut State, base: &str) -> String {
    let n = st.pr().counters.get(base).copied().unwrap_or(0);
    Rc::make_mut(&mut st.p().counters).insert(base.to_string(), n + 1);
    format!("p{}.{}.{}", st.cur, base, n)
}
/// verif_sym(name, nlen, buf, n)
fn v_sym(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let nm = pstr(g, st, &a[0], &a[1])?;
    let n = c(&a[3])?;
    let full = fresh_name(st, &nm);
    let mut vs = vec![];
    let mut o = Obj::new(n as usize);
    for i in 0..n {
        let e = g.a.var(&format!("{}.{}", full, i), 8);
        if let Op::Var = g.a.n[e as usize].op { vs.push(g.a.n[e as usize].c); }
        o.set(i as usize, &V::S(e));
    }
    Rc::make_mut(&mut st.syms).push((full, vs));
    g.write_bytes(st, &a[2], &o)?;
    ok(0)
}
/// verif_choice(name, nlen, n) -> u64: forks over 0..n
fn v_choice(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let nm = pstr(g, st, &a[0], &a[1])?;
    let n = c(&a[2])?;
    if n <= 1 { return ok(0); }
    let k = st.pr().counters.get(&nm).copied().unwrap_or(0);
    let full = format!("p{}.{}.{}", st.cur, nm, k);
    let w = if n <= 256 { 8 } else { 16 };
    let e = if w == 8 { g.a.var(&format!("{}.0", full), 8) } else { let lo = g.a.var(&format!("{}.0", full), 8); let hi = g.a.var(&format!("{}.1", full), 8); g.a.concat(hi, lo) };
    if n < (1 << w) { let l = g.a.c(w, n as u128); let q = g.a.bin(Op::Ult, e, l); g.assume(st, q)?; }
    let v = g.pin(st, e)?;
    Rc::make_mut(&mut st.p().counters).insert(nm, k + 1);
    ok(v)
}
fn v_assume(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let b = g.e(&a[0], g_w(&a[0], g)); let q = nz(g, b); g.assume(st, q)?; ok(0) }
fn g_w(v: &V, g: &Engine) -> u16 { match v { V::S(e) => g.a.w(*e), _ => 32 } }
fn nz(g: &mut Engine, e: E) -> E { let w = g.a.w(e); if w == 1 { return e; } let z = g.a.c(w, 0); let q = g.a.bin(Op::Eq, e, z); g.a.not(q) }
/// verif_assert(cond, msg, len)
fn v_assert(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    g.asserts += 1;
    let w = g_w(&a[0], g);
    let b = g.e(&a[0], w);
    let q = nz(g, b);
    let n = g.a.not(q);
    match g.s.check(&mut g.a, &st.pc, n) {
        R::Unsat => {}
        R::Unknown => return err("solver gave up on an assertion"),
        R::Sat(m) => {
            let msg = pstr(g, st, &a[1], &a[2])?;
            g.s.add(&mut g.a, &mut st.pc, n, m);
            return Err(Stop::Viol(msg));
        }
    }
    if g.a.cv(q).is_none() { g.assume(st, q)?; }
    ok(0)
}
fn v_reach(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let s = pstr(g, st, &a[0], &a[1])?; Rc::make_mut(&mut st.labels).insert(s); ok(0) }
fn v_sched(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = c(&a[0])?; let p = st.p(); p.sched_on = k != 0; ok(0) }
fn v_crash(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = c(&a[0])?; st.p().crash_on = k != 0; ok(0) }
fn v_fault(_g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let k = c(&a[0])?; st.p().fault_on = k as u32; ok(0) }
/// verif_guard(path, len): from now on this process may only use paths that lead into this directory
fn v_guard(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let k = c(&a[1])?;
    st.p().guard = 0;
    if k == 0 { return ok(0); }
    let p = g.read_bytes(st, &a[0], k)?.bytes();
    match g.walk(st, 1, &p, true)? { Ok(Walk { ino: Some(i), .. }) => st.p().guard = i, _ => return err("no such directory to guard") }
    ok(0)
}
fn v_shared(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let n = c(&a[0])?;
    let _ = g;
    let id = st.shared.alloc(Obj::new(n as usize)) - HEAP_BASE + SHARED_BASE;
    ok((id as u64) << 32)
}
fn v_param(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let s = pstr(g, st, &a[0], &a[1])?;
    let d = a[2].clone();
    match g.cfg.params.get(&s) { Some(v) => ok(v.parse().map_err(|_| Stop::Err(format!("parameter {}", s)))?), None => Ok(d) }
}
/// verif_scratch(buf, cap) -> len of an existing empty directory's absolute path
fn v_scratch(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    g.write_bytes(st, &a[0], &Obj::from(b"/scratch".to_vec()))?;
    ok(8)
}
fn v_clock(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { let _ = g; st.clock = Rc::new(vec![a[0].clone()]); ok(0) }
/// verif_args(argc, argv): the command line as the standard library sees it
fn v_args(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let (n, p) = (c(&a[0])?, c(&a[1])?);
    for (nm, v) in [("3std3sys4args4unix3imp4ARGC.0", n), ("3std3sys4args4unix3imp4ARGV.0", p)] {
        let at = g.prog.global_ending(nm).ok_or(Stop::Err(format!("no global {}", nm)))?;
        g.write_int(st, at, 8, v)?;
    }
    ok(0)
}
/// zlib's checksum is taken to be right (in the executor objects carry this value)
fn adler(_g: &mut Engine, _st: &mut State, _a: &[V]) -> X<V> { ok(1) }
fn v_pin(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> { ok(g.pinv(st, &a[0])?) }
fn v_note(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let k = c(&a[1])?;
    let o = g.read_bytes(st, &a[0], k)?;
    Rc::make_mut(&mut st.trace).push(format!("note: {}", show(&o.bytes())));
    ok(0)
}
/// verif_spawned / posix_spawn recording is done by harness-side stubs
fn b_puts_dbg(g: &mut Engine, st: &mut State, a: &[V]) -> X<V> {
    let s = pstr(g, st, &a[0], &a[1])?;
    if g.cfg.verbose { eprintln!("[p{}] {}", st.cur, s); }
    ok(0)
}

/// Functions of the standard library for which harness/vrt has another of the same effect, which takes one
/// path where the original takes many: a table instead of comparisons, a memset instead of a loop.
pub fn std_model(name: &str) -> Option<&'static str> {
    if !name.starts_with("_RNv") { return None; }
    if name.starts_with("_RNvX") && name.ends_with("3fmt3numhNtB7_8LowerHex3fmt") { return Some("verif_lowerhex_u8"); }
    if name.contains("5alloc3vecINtB") && name.contains("_3VechE6resize") && !name.contains("E6resize_") { return Some("verif_vec_resize_u8"); }
    if name.contains("5alloc3vecINtB") && name.contains("_3VechE11extend_with") { return Some("verif_vec_extend_with_u8"); }
    None
}
/// Functions which change nothing before they fork.
pub fn pure_memory(name: &str) -> bool {
    matches!(name, "malloc" | "calloc" | "free" | "realloc" | "posix_memalign" | "aligned_alloc" | "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "strcmp" | "memchr" | "__errno_location"
        | "verif_assert" | "verif_reach" | "verif_note" | "verif_assume")
}
pub fn override_for(name: &str) -> Option<Builtin> {
    if !name.starts_with("_R") { return None; }
    let ends = |s: &str| name.ends_with(s);
    Some(if ends("7___rustc12___rust_alloc") || ends("7___rustc19___rust_alloc_zeroed") || ends("7___rustc11___rdl_alloc") { b_malloc }
    else if ends("7___rustc14___rust_dealloc") { rust_dealloc }
    else if ends("7___rustc14___rust_realloc") { rust_realloc }
    else if ends("35___rust_no_alloc_shim_is_unstable_v2") || name.contains("___rust_no_alloc_shim_is_unstable") { zero0 }
    else if ends("9panicking9panic_fmt") || ends("9panicking18panic_nounwind_fmt") || ends("7___rustc17rust_begin_unwind") || ends("9panicking20rust_panic_with_hook") || ends("9panicking15panic_with_hook") { b_panic }
    else if ends("18handle_alloc_error") { b_abort }
    else if ends("5slice6memchr14memchr_aligned") { core_memchr }
    else if ends("5slice6memchr15memrchr_aligned") { core_memrchr }
    else if name.contains("4sha26sha256") && (ends("8compress") || ends("11compress256")) { sha_compress }
    else { return None })
}

pub fn table() -> HashMap<&'static str, Builtin> {
    let l: &[(&'static str, Builtin)] = &[
        ("open64", b_open), ("open", b_open), ("openat64", b_openat), ("openat", b_openat), ("close", b_close), ("read", b_read), ("write", b_write), ("writev", b_writev), ("pread64", b_pread), ("pwrite64", b_pwrite), ("pwrite", b_pwrite), ("readv", b_readv),
        ("lseek64", b_lseek), ("lseek", b_lseek), ("stat64", b_stat), ("lstat64", b_lstat), ("fstat64", b_fstat), ("fstatat64", b_fstatat), ("stat", b_stat), ("lstat", b_lstat), ("fstat", b_fstat), ("statx", b_statx),
        ("mkdir", b_mkdir), ("mkdirat", b_mkdirat), ("rmdir", b_rmdir), ("unlink", b_unlink), ("unlinkat", b_unlinkat), ("rename", b_rename), ("renameat", b_renameat), ("renameat2", b_renameat),
        ("link", b_link), ("linkat", b_linkat), ("symlink", b_symlink), ("readlink", b_readlink), ("realpath", b_realpath), ("chmod", b_chmod), ("fchmod", b_fchmod), ("fchmodat", b_fchmodat),
        ("access", b_access), ("faccessat", b_faccessat), ("umask", b_umask), ("ftruncate64", b_ftruncate), ("ftruncate", b_ftruncate), ("fsync", b_fsync), ("fdatasync", b_fsync), ("futimens", b_futimens), ("utimensat", b_utimensat),
        ("opendir", b_opendir), ("fdopendir", b_fdopendir), ("dirfd", b_dirfd), ("readdir64", b_readdir), ("readdir", b_readdir), ("closedir", b_closedir), ("dup", b_dup), ("dup2", b_dup2), ("fcntl", b_fcntl), ("fcntl64", b_fcntl),
        ("chdir", b_chdir), ("getcwd", b_getcwd), ("isatty", b_isatty), ("ioctl", b_ioctl),
        ("malloc", b_malloc), ("calloc", b_calloc), ("free", b_free), ("realloc", b_realloc), ("posix_memalign", b_memalign), ("aligned_alloc", b_aligned_alloc),
        ("memcpy", b_memcpy), ("memmove", b_memcpy), ("memset", b_memset), ("memcmp", b_memcmp), ("bcmp", b_bcmp), ("strlen", b_strlen), ("strcmp", b_strcmp), ("memchr", b_memchr),
        ("abort", b_abort), ("exit", b_exit), ("_exit", b_exit), ("fork", b_fork), ("waitpid", b_waitpid), ("getpid", b_getpid), ("getuid", b_getuid), ("geteuid", b_getuid), ("setuid", b_setuid), ("gettid", b_getpid), ("getppid", one1), ("clock_nanosleep", zero0), ("nanosleep", zero0),
        ("__errno_location", b_errno), ("getenv", b_getenv), ("secure_getenv", b_getenv), ("setenv", b_setenv), ("unsetenv", b_unsetenv), ("kill", b_kill), ("pipe", b_pipe), ("pipe2", b_pipe2), ("verif_tty", v_tty), ("verif_settle", v_settle), ("verif_heap", v_heap), ("sysconf", b_sysconf), ("clock_gettime", b_clock), ("getrandom", b_getrandom), ("syscall", b_syscall),
        ("pthread_key_create", b_key_create), ("pthread_key_delete", zero0), ("pthread_getspecific", b_getspecific), ("pthread_setspecific", b_setspecific), ("pthread_self", one1), ("__cxa_thread_atexit_impl", zero0), ("sched_yield", zero0),
        ("__xpg_strerror_r", b_strerror_r), ("getpwuid_r", b_getpwuid_r), ("getpwuid", b_getpwuid), ("dlsym", zero0), ("copy_file_range", enosys64), ("sendfile64", enosys64), ("splice", enosys64), ("signal", b_signal), ("sigaction", b_sigaction), ("fchown", zero0), ("chown", zero0), ("flock", zero0), ("fallocate64", enosys), ("rust_eh_personality", zero0), ("poll", zero0),
        ("verif_sym", v_sym), ("verif_choice", v_choice), ("verif_assume", v_assume), ("verif_assert", v_assert), ("verif_reach", v_reach), ("verif_sched", v_sched), ("verif_crash", v_crash), ("verif_fault", v_fault), ("verif_guard", v_guard), ("verif_shared", v_shared),
        ("verif_param", v_param), ("verif_scratch", v_scratch), ("verif_clock", v_clock), ("verif_pin", v_pin), ("verif_args", v_args), ("adler32", adler), ("adler32_z", adler), ("pread", b_pread), ("verif_note", v_note), ("verif_debug", b_puts_dbg), ("verif_fork", b_fork), ("verif_uid", b_setuid),
    ];
    l.iter().cloned().collect()
}
