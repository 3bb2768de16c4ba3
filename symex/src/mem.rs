//! Copy-on-write byte-addressed objects with a sparse symbolic overlay.
use crate::expr::{Arena, FxMap, E};
use crate::ir::{V, HEAP_BASE};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub b: Vec<u8>,
    pub sym: Option<Box<FxMap<u32, E>>>,
}
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { b: vec![0; n], sym: None } }
    pub fn from(b: Vec<u8>) -> Obj { Obj { b, sym: None } }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(m) => if n <= m.len() { (off..off + n).any(|i| m.contains_key(&(i as u32))) } else { m.keys().any(|&k| (k as usize) >= off && (k as usize) < off + n) },
        }
    }
    #[inline]
    pub fn get(&self, off: usize) -> V {
        if let Some(m) = &self.sym { if let Some(&e) = m.get(&(off as u32)) { return V::S(e); } }
        V::C(self.b[off] as u64)
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.sym {
            if n <= 16 { for i in off..off + n { m.remove(&(i as u32)); } }
            else { m.retain(|&k, _| (k as usize) < off || (k as usize) >= off + n); }
            if m.is_empty() { self.sym = None; }
        }
    }
    #[inline]
    pub fn set(&mut self, off: usize, v: &V) {
        match v {
            V::C(x) => { self.clear_sym(off, 1); self.b[off] = *x as u8; }
            V::S(e) => { self.sym.get_or_insert_with(Default::default).insert(off as u32, *e); }
            V::A(_) => unreachable!(),
        }
    }
    pub fn read_c(&self, off: usize, n: usize) -> u64 {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(&self.b[off..off + n]);
        u64::from_le_bytes(x)
    }
    pub fn write_c(&mut self, off: usize, n: usize, v: u64) {
        self.clear_sym(off, n);
        self.b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }
    /// slice copy out
    pub fn slice(&self, off: usize, n: usize) -> Obj {
        let mut o = Obj::from(self.b[off..off + n].to_vec());
        if let Some(m) = &self.sym {
            let mut t: FxMap<u32, E> = Default::default();
            if n < m.len() { for i in off..off + n { if let Some(&e) = m.get(&(i as u32)) { t.insert((i - off) as u32, e); } } }
            else { for (&k, &e) in m.iter() { if (k as usize) >= off && (k as usize) < off + n { t.insert(k - off as u32, e); } } }
            if !t.is_empty() { o.sym = Some(Box::new(t)); }
        }
        o
    }
    pub fn write_slice(&mut self, off: usize, s: &Obj) {
        let n = s.b.len();
        self.clear_sym(off, n);
        self.b[off..off + n].copy_from_slice(&s.b);
        if let Some(m) = &s.sym {
            let d = self.sym.get_or_insert_with(Default::default);
            for (&k, &e) in m.iter() { d.insert(k + off as u32, e); }
        }
    }
    pub fn bytes(&self) -> Vec<V> { (0..self.b.len()).map(|i| self.get(i)).collect() }
    pub fn from_bytes(v: &[V]) -> Obj { let mut o = Obj::new(v.len()); for (i, x) in v.iter().enumerate() { o.set(i, x); } o }
    pub fn resize(&mut self, n: usize) {
        if n < self.b.len() { let l = self.b.len(); self.clear_sym(n, l - n); }
        self.b.resize(n, 0);
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone)]
pub struct Mem {
    chunks: Rc<Vec<Rc<Chunk>>>,
    pub next: u32,
    /// bytes allocated with malloc and not freed
    pub heap: u64,
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
}
impl Mem {
    pub fn new() -> Mem { Mem { chunks: Rc::new(vec![]), next: HEAP_BASE, heap: 0, globals: Default::default() } }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let i = (id - HEAP_BASE) as usize;
        let ch = Rc::make_mut(&mut self.chunks);
        if i / CH >= ch.len() { ch.push(Rc::new(std::array::from_fn(|_| None))); }
        Rc::make_mut(&mut ch[i / CH])[i % CH] = Some(Rc::new(o));
        id
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id < HEAP_BASE { return self.globals.get(&id); }
        let i = (id - HEAP_BASE) as usize;
        self.chunks.get(i / CH)?[i % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id < HEAP_BASE { return Rc::make_mut(&mut self.globals).get_mut(&id).map(Rc::make_mut); }
        let i = (id - HEAP_BASE) as usize;
        if i / CH >= self.chunks.len() { return None; }
        let ch = Rc::make_mut(&mut self.chunks);
        Rc::make_mut(&mut ch[i / CH])[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) -> bool {
        if id < HEAP_BASE { return false; }
        let i = (id - HEAP_BASE) as usize;
        if i / CH >= self.chunks.len() || self.chunks[i / CH][i % CH].is_none() { return false; }
        let ch = Rc::make_mut(&mut self.chunks);
        Rc::make_mut(&mut ch[i / CH])[i % CH] = None;
        true
    }
}

/// little-endian bytes of a scalar value of `n` bytes
pub fn split(a: &mut Arena, e: E, n: usize) -> Vec<V> {
    let w = a.w(e);
    let e = if (w as usize) < n * 8 { a.zext(e, (n * 8) as u16) } else { e };
    (0..n).map(|i| { let x = a.extract(e, (i * 8) as u16, 8); match a.cv(x) { Some(k) => V::C(k as u64), None => V::S(x) } }).collect()
}
pub fn join(a: &mut Arena, bytes: &[V]) -> E {
    let mut acc = 0;
    for b in bytes.iter() {
        let e = match b { V::C(k) => a.byte(*k as u8), V::S(e) => *e, _ => unreachable!() };
        acc = if acc == 0 { e } else { a.concat(e, acc) };
    }
    acc
}
