//! POSIX file-system model: inodes, directories, hard and symbolic links, open file descriptions.
//! Names and contents may contain symbolic bytes; comparisons fork on equality.
use crate::exec::*;
use crate::expr::*;
use crate::ir::V;
use crate::mem::Obj;
use std::rc::Rc;

pub type Name = Rc<Vec<V>>;
#[derive(Clone)]
pub enum Kind { File(Rc<Obj>), Dir(Rc<Vec<(Name, u32)>>), Link(Name), Null, Pipe(Rc<Vec<V>>, usize) }
#[derive(Clone)]
pub struct Inode { pub kind: Kind, pub mode: V, pub nlink: u32, pub uid: u32, pub mtime: (V, V), pub parent: u32,
    /// how many zero bytes follow the contents of a (large) file
    pub hole: u64 }
#[derive(Clone)]
pub struct Ofd { pub ino: u32, pub pos: u64, pub flags: u32, pub refs: u32, pub special: u8, pub list: Option<Rc<Vec<(Name, u32)>>> }
#[derive(Clone)]
pub struct Fs { pub inodes: Vec<Rc<Inode>>, pub ofds: Vec<Option<Ofd>>, pub tick: u64 }

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const EPIPE: i32 = 32;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSPC: i32 = 28;

pub type Er<T> = X<Result<T, i32>>;

pub struct Walk { pub parent: u32, pub name: Name, pub ino: Option<u32>, pub trailing: bool }

impl Fs {
    pub fn new() -> Fs {
        let t = (V::C(1_600_000_000), V::C(0));
        let root = Inode { kind: Kind::Dir(Default::default()), mode: V::C(0o755), nlink: 2, uid: 0, mtime: t.clone(), parent: 1, hole: 0 };
        let mut f = Fs { inodes: vec![Rc::new(root.clone()), Rc::new(root)], ofds: vec![], tick: 0 };
        let null = f.add(Inode { kind: Kind::Null, mode: V::C(0o666), nlink: 1, uid: 0, mtime: t, parent: 0, hole: 0 });
        for _ in 0..3 { f.ofds.push(Some(Ofd { ino: null, pos: 0, flags: 2, refs: 1, special: 1, list: None })); }
        f
    }
    pub fn add(&mut self, i: Inode) -> u32 { self.inodes.push(Rc::new(i)); self.inodes.len() as u32 - 1 }
    pub fn node(&self, i: u32) -> &Inode { &self.inodes[i as usize] }
    pub fn node_mut(&mut self, i: u32) -> &mut Inode { Rc::make_mut(&mut self.inodes[i as usize]) }
    pub fn new_ofd(&mut self, o: Ofd) -> usize { self.ofds.push(Some(o)); self.ofds.len() - 1 }
    pub fn link(&mut self, dir: u32, name: Name, ino: u32) {
        let isdir = matches!(self.node(ino).kind, Kind::Dir(_));
        if let Kind::Dir(e) = &mut self.node_mut(dir).kind { Rc::make_mut(e).push((name, ino)); }
        if isdir { self.node_mut(ino).parent = dir; self.node_mut(dir).nlink += 1; }
    }
    pub fn remove(&mut self, dir: u32, name: &Name) {
        if let Kind::Dir(e) = &mut self.node_mut(dir).kind { let l = Rc::make_mut(e); if let Some(p) = l.iter().position(|x| Rc::ptr_eq(&x.0, name) || same(&x.0, name)) { l.remove(p); } }
    }
}
pub fn same(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) { (V::C(p), V::C(q)) => p == q, (V::S(p), V::S(q)) => p == q, _ => false })
}
pub fn show(n: &[V]) -> String { n.iter().map(|b| match b { V::C(k) if *k >= 32 && *k < 127 => (*k as u8) as char, V::C(_) => '.', _ => '?' }).collect() }

impl Engine {
    pub fn eq_bytes(&mut self, a: &[V], b: &[V]) -> E {
        if a.len() != b.len() { return self.a.ff; }
        let mut l: Vec<E> = vec![];
        for (x, y) in a.iter().zip(b) {
            let (x, y) = (self.e(x, 8), self.e(y, 8));
            let mut q = self.a.bin(Op::Eq, x, y);
            if q == self.a.ff { return q; }
            if let Some(&p) = l.last() { if let Some(j) = self.a.join_halves(p, q) { l.pop(); q = j; } }
            l.push(q);
        }
        let mut c = self.a.tt;
        for q in l { c = self.a.bin(Op::And, c, q); }
        c
    }
    fn is_byte(&mut self, st: &mut State, b: &V, k: u8) -> X<bool> {
        match b { V::C(x) => Ok(*x == k as u64), V::S(e) => { let kc = self.a.byte(k); let c = self.a.bin(Op::Eq, *e, kc); self.fork(st, c) } _ => err("byte") }
    }
    pub fn lookup(&mut self, st: &mut State, dir: u32, name: &[V]) -> X<Option<(Name, u32)>> {
        let l = match &st.fs.node(dir).kind { Kind::Dir(l) => l.clone(), _ => return Ok(None) };
        for (n, i) in l.iter() { if same(n, name) { return Ok(Some((n.clone(), *i))); } }
        for (n, i) in l.iter() {
            if n.len() != name.len() { continue; }
            let c = self.eq_bytes(n, name);
            if c == self.a.ff { continue; }
            if self.fork(st, c)? { return Ok(Some((n.clone(), *i))); }
        }
        Ok(None)
    }
    pub fn walk(&mut self, st: &mut State, base: u32, path: &[V], follow: bool) -> Er<Walk> {
        let r = self.walk_d(st, base, path, follow, 0)?;
        let g = st.pr().guard;
        if g != 0 {
            // every path must lead into the guarded directory
            let mut d = match &r { Ok(w) => if w.ino == Some(g) { g } else { w.parent }, Err(_) => self.reached };
            while d != g && d != 1 { d = st.fs.node(d).parent; }
            if d != g { return Err(Stop::Viol(format!("a path outside the guarded directory is used: {}", show(path)))); }
        }
        Ok(r)
    }
    fn walk_d(&mut self, st: &mut State, base: u32, path: &[V], follow: bool, depth: u32) -> Er<Walk> {
        if depth > 8 { return Ok(Err(ELOOP)); }
        if path.is_empty() { self.reached = base; return Ok(Err(ENOENT)); }
        if path.len() > 4095 { self.reached = 1; return Ok(Err(ENAMETOOLONG)); }
        // split into components
        let mut comps: Vec<Vec<V>> = vec![];
        let mut cur: Vec<V> = vec![];
        let mut trailing = false;
        let absolute = self.is_byte(st, &path[0], b'/')?;
        for b in path {
            if self.is_byte(st, b, b'/')? { if !cur.is_empty() { comps.push(std::mem::take(&mut cur)); } trailing = true; }
            else { cur.push(b.clone()); trailing = false; }
        }
        if !cur.is_empty() { comps.push(cur); }
        let mut dir = if absolute { 1 } else { base };
        if comps.is_empty() { return Ok(Ok(Walk { parent: dir, name: Rc::new(vec![V::C(b'.' as u64)]), ino: Some(dir), trailing: true })); }
        let n = comps.len();
        let dots = [V::C(46), V::C(46)];
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == n;
            self.reached = dir;
            if !matches!(st.fs.node(dir).kind, Kind::Dir(_)) { return Ok(Err(ENOTDIR)); }
            if c.len() > 255 { return Ok(Err(ENAMETOOLONG)); }
            let isdot = c.len() == 1 && self.is_byte(st, &c[0], b'.')?;
            let isdd = c.len() == 2 && { let q = self.eq_bytes(c, &dots); self.fork(st, q)? };
            if isdot || isdd {
                if isdd { dir = st.fs.node(dir).parent; }
                if last { return Ok(Ok(Walk { parent: dir, name: Rc::new(vec![V::C(46)]), ino: Some(dir), trailing: true })); }
                continue;
            }
            let found = self.lookup(st, dir, c)?;
            match found {
                None => {
                    if !last { return Ok(Err(ENOENT)); }
                    return Ok(Ok(Walk { parent: dir, name: Rc::new(c.clone()), ino: None, trailing }));
                }
                Some((nm, ino)) => {
                    let k = st.fs.node(ino).kind.clone();
                    if let Kind::Link(t) = k {
                        if !last || follow || trailing {
                            let mut p: Vec<V> = (*t).clone();
                            for r in &comps[i + 1..] { p.push(V::C(b'/' as u64)); p.extend(r.iter().cloned()); }
                            if trailing { p.push(V::C(b'/' as u64)); }
                            return self.walk_d(st, dir, &p, follow, depth + 1);
                        }
                    }
                    if last {
                        if trailing && !matches!(st.fs.node(ino).kind, Kind::Dir(_)) { return Ok(Err(ENOTDIR)); }
                        return Ok(Ok(Walk { parent: dir, name: nm, ino: Some(ino), trailing }));
                    }
                    dir = ino;
                }
            }
        }
        unreachable!()
    }
    /// absolute concrete-ish path of a directory inode
    pub fn dir_path(&self, fs: &Fs, mut d: u32) -> Vec<V> {
        let mut parts: Vec<Name> = vec![];
        while d != 1 {
            let p = fs.node(d).parent;
            if let Kind::Dir(l) = &fs.node(p).kind { if let Some(x) = l.iter().find(|x| x.1 == d) { parts.push(x.0.clone()); } }
            d = p;
        }
        if parts.is_empty() { return vec![V::C(47)]; }
        let mut out = vec![];
        for p in parts.iter().rev() { out.push(V::C(47)); out.extend(p.iter().cloned()); }
        out
    }
    pub fn now(&mut self, st: &mut State) -> (V, V) {
        let t = Rc::make_mut(&mut st.fs);
        t.tick += 1;
        (V::C(1_700_000_000 + t.tick), V::C(0))
    }
}
