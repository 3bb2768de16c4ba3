//! The symbolic interpreter.
use crate::expr::*;
use crate::fs::Fs;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Pc, R, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Debug)]
pub enum Stop {
    Kill,                // the path is infeasible or assumed away
    Viol(String),
    Err(String),         // engine limitation: the run is inconclusive
    Yield,               // park the process, re-execute the instruction when rescheduled
    Exit(i32),           // process exit (wait status)
}
pub type X<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub varargs: Vec<V>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status { Run, Parked, WaitChild(i32), WaitPipe(u32), WaitRoom(u32), Settle, Dead(i32) }

#[derive(Clone, Debug)]
pub struct Fd { pub ofd: usize, pub cloexec: bool }

#[derive(Clone)]
pub struct Proc {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pid: i32,
    pub ppid: i32,
    pub status: Status,
    pub reaped: bool,
    pub go: bool,
    pub nvis: u32,
    pub sched_on: bool,
    pub crash_on: bool,
    pub fault_on: u32,
    pub guard: u32,
    pub short: bool,
    /// the operation concerns this standard stream; how many there were; which of them have failed for good
    pub stdio: Option<u8>,
    pub nstdio: u32,
    pub badstd: u8,
    pub fds: Rc<Vec<Option<Fd>>>,
    pub cwd: u32,
    pub umask: V,
    pub uid: u32,
    pub errno: u64,
    pub env: u64,
    pub keys: Rc<Vec<u64>>,
    pub counters: Rc<BTreeMap<String, u32>>,
    pub natcnt: u32,
    pub tty: u64,
    pub settled: bool,
    /// how much of the current write to a pipe has been written
    pub sent: usize,
    /// SIGPIPE is ignored
    pub nopipe: bool,
}

#[derive(Clone)]
/// One SHA-256 compression: which block of its message it was, and whether it may have been the last.
pub struct ShaRec { pub inp: Rc<Vec<V>>, pub out: Rc<Vec<V>>, pub depth: u32, pub last: bool }

#[derive(Clone)]
pub struct State {
    pub procs: Vec<Proc>,
    pub cur: usize,
    pub fs: Rc<Fs>,
    pub shared: Mem,
    pub pc: Pc,
    pub sha: Rc<Vec<ShaRec>>,
    pub trace: Rc<Vec<String>>,
    pub nsched: u32,
    pub nord: u32,
    pub labels: Rc<BTreeSet<String>>,
    pub syms: Rc<Vec<(String, Vec<u32>)>>,   // name, variable numbers (replay inputs)
    pub steps: u64,
    pub switches: u32,
    pub lastp: usize,
    pub crashed: bool,
    pub faults: u32,
    pub clock: Rc<Vec<V>>,
    pub nsym: u32,
}
impl State {
    #[inline]
    pub fn p(&mut self) -> &mut Proc { let c = self.cur; &mut self.procs[c] }
    #[inline]
    pub fn pr(&self) -> &Proc { &self.procs[self.cur] }
}

pub type Builtin = fn(&mut Engine, &mut State, &[V]) -> X<V>;
#[derive(Clone, Copy)]
pub enum FnKind { Unknown, Interp(&'static Func), Built(Builtin, bool) }

pub struct Config {
    pub max_switches: u32,
    pub max_faults: u32,
    pub max_steps: u64,
    pub params: BTreeMap<String, String>,
    pub verbose: bool,
    pub timeout_s: u64,
}

pub struct Engine {
    pub maxhint: HashMap<E, u64>,
    pub regions: FxMap<(u32, u32), Option<Rc<(Vec<u32>, u32)>>>,
    pub merged: u64,
    pub prog: Program,
    pub a: Arena,
    pub s: Solver,
    pub base: FxMap<u32, Rc<Obj>>,
    pub kinds: Vec<FnKind>,
    pub work: Vec<State>,
    /// the state in which the current model of a library function was called
    pub start: Option<State>,
    pub cfg: Config,
    pub covered: BTreeMap<u32, u64>,
    pub used_builtins: BTreeSet<String>,
    pub forks: u64,
    pub instrs: u64,
    pub builtins: HashMap<&'static str, Builtin>,
    pub hot: FxMap<(u32, u32, u32), u64>,
    pub slow: BTreeMap<String, (u64, u64)>,
    pub asserts: u64,
    pub cov_branches: FxMap<(u32, u32, u8), u64>,
    pub reached: u32,
}

pub const SHARED_BASE: u32 = 0x3f00_0000;

impl Engine {
    pub fn func(&mut self, id: u32) -> &'static Func {
        let f = self.prog.func(id);
        // functions live as long as the engine
        unsafe { &*Rc::as_ptr(&f) }
    }
    // ---- values ---------------------------------------------------------------------------
    #[inline]
    pub fn e(&mut self, v: &V, w: u16) -> E {
        match v { V::C(k) => self.a.c(w, *k as u128), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    #[inline]
    pub fn v(&self, e: E) -> V {
        if self.a.w(e) <= 64 { if let Some(k) = self.a.cv(e) { return V::C(k as u64); } }
        V::S(e)
    }
    pub fn bool_e(&mut self, v: &V) -> E { self.e(v, 1) }

    // ---- forking --------------------------------------------------------------------------
    /// Decide a boolean; when both outcomes are possible the current state continues with `true` and a copy
    /// that re-executes the current instruction is queued with `false`.
    pub fn fork(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.a.cv(c) { return Ok(k == 1); }
        let n = self.a.not(c);
        let t = self.s.check(&mut self.a, &st.pc, c);
        let f = match t { R::Unsat => None, _ => Some(self.s.check(&mut self.a, &st.pc, n)) };
        match (t, f) {
            (R::Unknown, _) | (_, Some(R::Unknown)) => err("solver gave up on a branch condition"),
            (R::Unsat, _) => { Ok(false) }
            (R::Sat(_), Some(R::Unsat)) => Ok(true),
            (R::Sat(mt), Some(R::Sat(mf))) => {
                // what a model has done to the state before it came here must not be done twice
                let mut o = match &self.start { Some(s) => { let mut o = s.clone(); o.pc = st.pc.clone(); o } None => st.clone() };
                self.s.add(&mut self.a, &mut o.pc, n, mf);
                self.work.push(o);
                self.forks += 1;
                if self.cfg.verbose {
                    let fr = st.pr().frames.last().unwrap();
                    *self.hot.entry((fr.f.id, fr.bb, fr.ip)).or_insert(0) += 1;
                }
                self.s.add(&mut self.a, &mut st.pc, c, mt);
                Ok(true)
            }
            _ => unreachable!(),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        match self.s.check(&mut self.a, &st.pc, c) {
            R::Sat(m) => { self.s.add(&mut self.a, &mut st.pc, c, m); Ok(()) }
            R::Unsat => Err(Stop::Kill),
            R::Unknown => err("solver gave up on an assumption"),
        }
    }
    /// Pin `e` to one value, forking over the others.
    pub fn pin(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(k) = self.a.cv(e) { return Ok(k as u64); }
        let mut memo = Default::default();
        let k = self.a.eval(e, &st.pc.model, &mut memo);
        let kc = self.a.c(self.a.w(e), k);
        let c = self.a.bin(Op::Eq, e, kc);
        if self.fork(st, c)? { Ok(k as u64) } else { err("pin: model value infeasible") }
    }
    pub fn pinv(&mut self, st: &mut State, v: &V) -> X<u64> { match v { V::C(k) => Ok(*k), V::S(e) => self.pin(st, *e), _ => err("pin aggregate") } }
    /// Largest feasible value of e (binary search with the solver)
    pub fn max_of(&mut self, st: &State, e: E) -> X<u64> {
        if let Some(k) = self.a.cv(e) { return Ok(k as u64); }
        let w = self.a.w(e);
        let (mut lo, mut hi) = (0u64, mask(w.min(64)) as u64);
        let mut memo = Default::default();
        lo = lo.max(self.a.eval(e, &st.pc.model, &mut memo) as u64);
        // first what it was on another path, then ever larger steps from a known value, then halving
        let hint = self.maxhint.get(&e).copied();
        let (mut k, mut step) = (0, 256u64);
        while lo < hi {
            let half = lo + (hi - lo - 1) / 2;
            let mid = match (hint, k) {
                (Some(h), 0) if h >= lo && h < hi => h,
                (Some(h), 0 | 1) if h > lo && h - 1 < hi => h - 1,
                _ => { step = step.saturating_mul(4); half.min(lo.saturating_add(step)) }
            };
            k += 1;
            let mc = self.a.c(w, mid as u128);
            let c = self.a.bin(Op::Ult, mc, e);
            match self.s.check(&mut self.a, &st.pc, c) {
                R::Sat(m) => { let mut memo = Default::default(); lo = self.a.eval(e, &m, &mut memo) as u64; }
                R::Unsat => hi = mid,
                R::Unknown => return err("solver gave up"),
            }
        }
        self.maxhint.insert(e, lo);
        Ok(lo)
    }
    /// A superset of the feasible values up to max of a function of one byte
    fn table_values(&mut self, st: &State, e: E, max: u64) -> Option<Vec<u64>> {
        let v = match self.a.sup[e as usize] { Sup::One(v) => v, _ => return None };
        let t = self.a.table(e)?;
        let d = st.pc.dom.get(&v).copied().unwrap_or_else(|| crate::solver::full(self.a.vars[v as usize].w));
        let mut o = BTreeSet::new();
        for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 && t[i] <= max { o.insert(t[i]); } }
        if o.is_empty() || o.len() > 256 { None } else { Some(o.into_iter().collect()) }
    }
    /// All feasible values up to a limit; None when more
    pub fn values(&mut self, st: &State, e: E, lim: usize) -> X<Option<Vec<u64>>> {
        if let Some(k) = self.a.cv(e) { return Ok(Some(vec![k as u64])); }
        let w = self.a.w(e);
        if let Sup::One(v) = self.a.sup[e as usize] {
            if !st.pc.relvars.contains_key(&v) {
                if let Some(t) = self.a.table(e) {
                    let d = st.pc.dom.get(&v).copied().unwrap_or_else(|| crate::solver::full(self.a.vars[v as usize].w));
                    let mut o = BTreeSet::new();
                    for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { o.insert(t[i]); } }
                    return Ok(if o.len() > lim { None } else { Some(o.into_iter().collect()) });
                }
            }
        }
        let mut out = vec![];
        let mut ex = self.a.tt;
        loop {
            match self.s.check(&mut self.a, &st.pc, ex) {
                R::Unsat => return Ok(Some(out)),
                R::Unknown => return err("solver gave up"),
                R::Sat(m) => {
                    let mut memo = Default::default();
                    let k = self.a.eval(e, &m, &mut memo);
                    out.push(k as u64);
                    if out.len() > lim { return Ok(None); }
                    let kc = self.a.c(w, k);
                    let q = self.a.bin(Op::Eq, e, kc);
                    let q = self.a.not(q);
                    ex = self.a.bin(Op::And, ex, q);
                }
            }
        }
    }

    // ---- memory ---------------------------------------------------------------------------
    fn materialise(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.base.get(&id) { return Ok(o.clone()); }
        if id as usize >= self.prog.globs.len() { return err(format!("access to unknown global object {:x}", id)); }
        if id == 0 { return Err(Stop::Viol("null pointer dereference".into())); }
        let o = if self.prog.globs[id as usize].external {
            Rc::new(Obj::new(64))
        } else {
            let (ty, init) = self.prog.global_init(id);
            let mut o = Obj::new(self.prog.size(ty).max(1) as usize);
            if let Some(i) = init {
                let v = match i { O::C(k) => V::C(k), O::V(v) => v, _ => return err("global init") };
                self.store_into(&mut o, 0, ty, &v);
            }
            Rc::new(o)
        };
        self.base.insert(id, o.clone());
        Ok(o)
    }
    pub fn obj(&mut self, st: &State, id: u32) -> X<Rc<Obj>> {
        if id >= SHARED_BASE && id < FN_BASE { return st.shared.get(id - SHARED_BASE + HEAP_BASE).cloned().ok_or(Stop::Err("bad shared object".into())); }
        if let Some(o) = st.pr().mem.get(id) { return Ok(o.clone()); }
        if id < HEAP_BASE { return self.materialise(id); }
        Err(Stop::Viol(format!("invalid memory access (object {:x})", id)))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> X<&'a mut Obj> {
        if id >= SHARED_BASE && id < FN_BASE { return st.shared.get_mut(id - SHARED_BASE + HEAP_BASE).ok_or(Stop::Err("bad shared object".into())); }
        if id < HEAP_BASE && st.pr().mem.get(id).is_none() {
            let o = self.materialise(id)?;
            Rc::make_mut(&mut st.p().mem.globals).insert(id, o);
        }
        st.p().mem.get_mut(id).ok_or_else(|| Stop::Viol(format!("invalid memory write (object {:x})", id)))
    }
    fn store_into(&mut self, o: &mut Obj, off: usize, ty: TyId, v: &V) {
        match self.prog.tys[ty as usize].clone() {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = self.prog.width(ty);
                let n = (w as usize + 7) / 8;
                match v {
                    V::C(k) => if n <= 8 { o.write_c(off, n, *k) } else { o.write_c(off, 8, *k); for i in 8..n { o.set(off + i, &V::C(0)); } },
                    V::S(e) => { let b = split(&mut self.a, *e, n); for (i, x) in b.iter().enumerate() { o.set(off + i, x); } }
                    V::A(_) => panic!("aggregate stored as scalar"),
                }
            }
            Ty::Arr(n, e) => {
                let s = self.prog.size(e) as usize;
                if let V::A(l) = v { for i in 0..n as usize { self.store_into(o, off + i * s, e, &l[i]); } }
            }
            Ty::Vec(n, e) => {
                let w = self.prog.width(e);
                if w % 8 != 0 { let x = self.vec_to_int(v, w); let tw = (w as u32 * n) as u16; let t = self.prog.ty(Ty::Int(tw)); self.store_into(o, off, t, &x); return; }
                let s = w as usize / 8;
                if let V::A(l) = v { for i in 0..n as usize { self.store_into(o, off + i * s, e, &l[i]); } }
            }
            Ty::Struct(f, _) => {
                let offs = self.prog.offs(ty);
                if let V::A(l) = v { for i in 0..f.len() { self.store_into(o, off + offs[i] as usize, f[i], &l[i]); } }
            }
            _ => {}
        }
    }
    pub fn load_from(&mut self, o: &Obj, off: usize, ty: TyId) -> V {
        match self.prog.tys[ty as usize].clone() {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = self.prog.width(ty);
                let n = (w as usize + 7) / 8;
                if o.sym.is_none() || !o.has_sym(off, n) {
                    if n <= 8 { let k = o.read_c(off, n); return V::C(if w < 64 { k & (mask(w) as u64) } else { k }); }
                }
                let b: Vec<V> = (off..off + n).map(|i| o.get(i)).collect();
                let e = join(&mut self.a, &b);
                let e = if (w as usize) < n * 8 { self.a.extract(e, 0, w) } else { e };
                self.v(e)
            }
            Ty::Arr(n, e) => { let s = self.prog.size(e) as usize; V::A(Rc::new((0..n as usize).map(|i| self.load_from(o, off + i * s, e)).collect())) }
            Ty::Vec(n, e) => {
                let w = self.prog.width(e);
                if w % 8 != 0 { let tw = (w as u32 * n) as u16; let t = self.prog.ty(Ty::Int(tw)); let x = self.load_from(o, off, t); return self.int_to_vec(&x, tw, w); }
                let s = w as usize / 8;
                V::A(Rc::new((0..n as usize).map(|i| self.load_from(o, off + i * s, e)).collect()))
            }
            Ty::Struct(f, _) => { let offs = self.prog.offs(ty); V::A(Rc::new((0..f.len()).map(|i| self.load_from(o, off + offs[i] as usize, f[i])).collect())) }
            _ => V::C(0),
        }
    }
    fn store_size(&self, ty: TyId) -> u64 {
        match &self.prog.tys[ty as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, e) => (self.prog.width(*e) as u64 * *n as u64 + 7) / 8,
            _ => self.prog.size(ty),
        }
    }
    /// Resolve an address for an access of n bytes: (object, concrete offset) or (object, symbolic offset)
    pub fn resolve(&mut self, st: &mut State, p: &V, n: u64) -> X<(u32, Result<u64, E>)> {
        match p {
            V::C(a) => {
                let id = (*a >> 32) as u32;
                let off = *a & 0xffff_ffff;
                if n > 0 || id != 0 {
                    if n == 0 { return Ok((id, Ok(off))); }
                    let sz = self.obj(st, id)?.b.len() as u64;
                    if off + n > sz { return Err(Stop::Viol(format!("out-of-bounds access: offset {} size {} in object of {} bytes", off, n, sz))); }
                }
                Ok((id, Ok(off)))
            }
            V::S(e) => {
                let mut memo = Default::default();
                let a = self.a.eval(*e, &st.pc.model, &mut memo) as u64;
                let id = (a >> 32) as u32;
                let sz = self.obj(st, id)?.b.len() as u64;
                if (a & 0xffff_ffff) + n > sz { return Err(Stop::Viol(format!("out-of-bounds access through a symbolic address: offset {} size {} in object of {} bytes", a & 0xffff_ffff, n, sz))); }
                let b = self.a.c(64, (id as u128) << 32);
                let off = self.a.bin(Op::Sub, *e, b);
                let l = self.a.c(64, (sz - n + 1) as u128);
                let c = self.a.bin(Op::Ult, off, l);
                if !self.fork(st, c)? { return err("resolve"); }
                Ok((id, Err(off)))
            }
            _ => err("aggregate address"),
        }
    }
    pub fn load(&mut self, st: &mut State, p: &V, ty: TyId) -> X<V> {
        let n = self.store_size(ty);
        if n == 0 { return Ok(zero(&self.prog, ty)); }
        if let V::C(a) = p {
            let id = (*a >> 32) as u32;
            let off = (*a & 0xffff_ffff) as usize;
            let o = self.obj(st, id)?;
            if off as u64 + n > o.b.len() as u64 { return Err(Stop::Viol(format!("out-of-bounds read: offset {} size {} in object of {} bytes", off, n, o.b.len()))); }
            return Ok(self.load_from(&o, off, ty));
        }
        let (id, off) = self.resolve(st, p, n)?;
        let o = self.obj(st, id)?;
        match off {
            Ok(k) => Ok(self.load_from(&o, k as usize, ty)),
            Err(e) => {
                let scalar = matches!(self.prog.tys[ty as usize], Ty::Int(_) | Ty::Ptr | Ty::Float(_));
                // a superset of the feasible offsets will do
                let vals = if !scalar { None } else if let Some(v) = self.table_values(st, e, o.b.len() as u64 - n) { Some(v) } else { self.values(st, e, 300)? };
                match vals {
                    None => { let k = self.pin(st, e)?; Ok(self.load_from(&o, k as usize, ty)) }
                    Some(vs) => {
                        let w = self.prog.width(ty);
                        // group equal results to keep the expression small
                        let mut groups: Vec<(E, Vec<u64>)> = vec![];
                        let mut idx: FxMap<E, usize> = Default::default();
                        for k in vs {
                            let v = self.load_from(&o, k as usize, ty);
                            let x = self.e(&v, w);
                            match idx.get(&x) { Some(&i) => groups[i].1.push(k), None => { idx.insert(x, groups.len()); groups.push((x, vec![k])); } }
                        }
                        groups.sort_by_key(|g| g.1.len());
                        let mut acc = groups.pop().unwrap().0;
                        for (x, ks) in groups.into_iter().rev() {
                            let mut c = self.a.ff;
                            for k in ks { let kc = self.a.c(64, k as u128); let q = self.a.bin(Op::Eq, e, kc); c = self.a.bin(Op::Or, c, q); }
                            acc = self.a.ite(c, x, acc);
                        }
                        Ok(self.v(acc))
                    }
                }
            }
        }
    }
    pub fn store(&mut self, st: &mut State, p: &V, ty: TyId, v: &V) -> X<()> {
        let n = self.store_size(ty);
        if n == 0 { return Ok(()); }
        let (id, off) = self.resolve(st, p, n)?;
        let off = match off { Ok(k) => k, Err(e) => self.pin(st, e)? } as usize;
        if let (V::C(k), true) = (v, n <= 8) {
            let o = self.obj_mut(st, id)?;
            o.write_c(off, n as usize, *k);
            return Ok(());
        }
        // take the object out, store, put back (store_into needs the arena)
        let mut tmp = std::mem::take(self.obj_mut(st, id)?);
        self.store_into(&mut tmp, off, ty, v);
        *self.obj_mut(st, id)? = tmp;
        Ok(())
    }
    /// concrete pointer (forking when symbolic)
    pub fn ptr(&mut self, st: &mut State, p: &V, n: u64) -> X<(u32, usize)> {
        let (id, off) = self.resolve(st, p, n)?;
        Ok((id, match off { Ok(k) => k, Err(e) => self.pin(st, e)? } as usize))
    }
    pub fn read_bytes(&mut self, st: &mut State, p: &V, n: u64) -> X<Obj> {
        if n == 0 { return Ok(Obj::new(0)); }
        let (id, off) = self.ptr(st, p, n)?;
        Ok(self.obj(st, id)?.slice(off, n as usize))
    }
    pub fn write_bytes(&mut self, st: &mut State, p: &V, o: &Obj) -> X<()> {
        if o.b.is_empty() { return Ok(()); }
        let (id, off) = self.ptr(st, p, o.b.len() as u64)?;
        self.obj_mut(st, id)?.write_slice(off, o);
        Ok(())
    }
    /// Length of a block operation: concrete, or symbolic with its maximum when it has many values.
    fn block_len(&mut self, st: &mut State, n: &V) -> X<Result<u64, (E, u64)>> {
        match n {
            V::C(k) => Ok(Ok(*k)),
            V::S(e) => {
                if let Some(_) = self.values(st, *e, 12)? { return Ok(Ok(self.pin(st, *e)?)); }
                let m = self.max_of(st, *e)?;
                if m > 80_000 { return Ok(Ok(self.pin(st, *e)?)); }
                Ok(Err((*e, m)))
            }
            _ => err("block length"),
        }
    }
    /// Write `src` over the destination, byte i only when i < n.
    fn write_cond(&mut self, st: &mut State, p: &V, src: &Obj, n: E, max: u64) -> X<()> {
        let (id, off) = self.ptr(st, p, 0)?;
        let o = self.obj(st, id)?;
        let w = self.a.w(n);
        let mut out = o.slice(off, max as usize);
        for i in 0..max as usize {
            let (new, old) = (src.get(i), out.get(i));
            if let (V::C(x), V::C(y)) = (&new, &old) { if x == y { continue; } }
            let ic = self.a.c(w, i as u128);
            let c = self.a.bin(Op::Ult, ic, n);
            let (x, y) = (self.e(&new, 8), self.e(&old, 8));
            let r = self.a.ite(c, x, y);
            let v = self.v(r);
            out.set(i, &v);
        }
        self.obj_mut(st, id)?.write_slice(off, &out);
        Ok(())
    }
    /// room from p to the end of its object, as a bound on a symbolic length
    fn room(&mut self, st: &mut State, p: &V, n: E, max: u64) -> X<u64> {
        let (id, off) = self.ptr(st, p, 0)?;
        let sz = self.obj(st, id)?.b.len() as u64;
        let room = sz.saturating_sub(off as u64);
        if room < max {
            let w = self.a.w(n);
            let k = self.a.c(w, room as u128);
            let c = self.a.bin(Op::Ule, n, k);
            if !self.fork(st, c)? { return Err(Stop::Viol(format!("out-of-bounds block operation in an object of {} bytes", sz))); }
            return Ok(room);
        }
        Ok(max)
    }
    pub fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> X<()> {
        match self.block_len(st, n)? {
            Ok(0) => Ok(()),
            Ok(n) => { let o = self.read_bytes(st, s, n)?; self.write_bytes(st, d, &o) }
            Err((e, max)) => {
                let max = self.room(st, s, e, max)?;
                let max = self.room(st, d, e, max)?;
                let o = self.read_bytes(st, s, max)?;
                self.write_cond(st, d, &o, e, max)
            }
        }
    }
    pub fn memset(&mut self, st: &mut State, d: &V, v: &V, n: &V) -> X<()> {
        let v = match v { V::S(e) if self.a.w(*e) > 8 => { let x = self.a.extract(*e, 0, 8); self.v(x) } V::C(k) => V::C(k & 255), v => v.clone() };
        let fill = |n: u64| { let mut o = Obj::new(n as usize); match &v { V::C(k) => o.b.fill(*k as u8), v => for i in 0..n as usize { o.set(i, v); } } o };
        match self.block_len(st, n)? {
            Ok(0) => Ok(()),
            Ok(n) => { let o = fill(n); self.write_bytes(st, d, &o) }
            Err((e, max)) => { let max = self.room(st, d, e, max)?; let o = fill(max); self.write_cond(st, d, &o, e, max) }
        }
    }
    pub fn write_int(&mut self, st: &mut State, addr: u64, n: usize, v: u64) -> X<()> {
        let (id, off) = self.ptr(st, &V::C(addr), n as u64)?;
        self.obj_mut(st, id)?.write_c(off, n, v);
        Ok(())
    }
    pub fn write_val(&mut self, st: &mut State, addr: u64, w: u16, v: &V) -> X<()> { let t = self.prog.ty(Ty::Int(w)); self.store(st, &V::C(addr), t, v) }
    pub fn read_int(&mut self, st: &mut State, addr: u64, n: usize) -> X<u64> {
        let t = self.prog.ty(Ty::Int(n as u16 * 8));
        let v = self.load(st, &V::C(addr), t)?;
        self.pinv(st, &v)
    }
    /// NUL-terminated string; forks on whether symbolic bytes are NUL
    pub fn cstr(&mut self, st: &mut State, p: &V) -> X<Vec<V>> {
        let (id, off) = self.ptr(st, p, 1)?;
        let o = self.obj(st, id)?;
        let mut out = vec![];
        for i in off..o.b.len() {
            let b = o.get(i);
            match &b {
                V::C(0) => return Ok(out),
                V::C(_) => {}
                V::S(e) => { let z = self.a.c(8, 0); let c = self.a.bin(Op::Eq, *e, z); if self.fork(st, c)? { return Ok(out); } }
                _ => unreachable!(),
            }
            out.push(b);
        }
        Err(Stop::Viol("unterminated C string".into()))
    }
    pub fn cstr_c(&mut self, st: &mut State, p: &V) -> X<String> {
        let v = self.cstr(st, p)?;
        let mut s = vec![];
        for b in v { match b { V::C(k) => s.push(k as u8), V::S(e) => s.push(self.pin(st, e)? as u8), _ => {} } }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    pub fn malloc(&mut self, st: &mut State, n: &V) -> X<u64> {
        let n = match n { V::C(k) => *k, V::S(e) => self.max_of(st, *e)?, _ => return err("malloc") };
        if n > 1 << 31 { return Ok(0); }
        let id = st.p().mem.alloc(Obj::new(n as usize));
        st.p().mem.heap += n;
        Ok((id as u64) << 32)
    }

    // ---- vectors --------------------------------------------------------------------------
    fn vec_to_int(&mut self, v: &V, ew: u16) -> V {
        if let V::A(l) = v {
            let mut acc = None;
            for x in l.iter() {
                let e = self.e(x, ew);
                acc = Some(match acc { None => e, Some(p) => self.a.concat(e, p) });
            }
            let e = acc.unwrap();
            return self.v(e);
        }
        v.clone()
    }
    fn int_to_vec(&mut self, v: &V, tw: u16, ew: u16) -> V {
        let e = self.e(v, tw);
        V::A(Rc::new((0..tw / ew).map(|i| { let x = self.a.extract(e, i * ew, ew); self.v(x) }).collect()))
    }

    // ---- scalar operations ----------------------------------------------------------------
    pub fn binop(&mut self, st: &mut State, op: BinOp, w: u16, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let sx = |v: u64| sext(v as u128, w) as i64;
            return Ok(V::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::UDiv => { if y == 0 { return Err(Stop::Viol("division by zero".into())); } x / y }
                BinOp::URem => { if y == 0 { return Err(Stop::Viol("division by zero".into())); } x % y }
                BinOp::SDiv => { if y == 0 { return Err(Stop::Viol("division by zero".into())); } sx(x).wrapping_div(sx(y)) as u64 & m }
                BinOp::SRem => { if y == 0 { return Err(Stop::Viol("division by zero".into())); } sx(x).wrapping_rem(sx(y)) as u64 & m }
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => { let s = y.min(w as u64 - 1); (sx(x) >> s) as u64 & m }
                _ => self.fbin(op, w, x, y)?,
            }));
        }
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            _ => {
                let x = self.pinv(st, a)?;
                let y = self.pinv(st, b)?;
                return Ok(V::C(self.fbin(op, w, x, y)?));
            }
        };
        let (x, y) = (self.e(a, w), self.e(b, w));
        if w > 128 && !matches!(o, Op::Shl | Op::LShr | Op::And | Op::Or | Op::Xor) && (self.a.cv(x).is_none() || self.a.cv(y).is_none()) { return err("arithmetic on a symbolic value of more than 128 bits"); }
        let r = self.a.bin(o, x, y);
        Ok(self.v(r))
    }
    fn fbin(&mut self, op: BinOp, w: u16, x: u64, y: u64) -> X<u64> {
        if w == 32 {
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            return Ok(match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b }.to_bits() as u64);
        }
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        Ok(match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b }.to_bits())
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext(v as u128, w);
            return V::C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y),
            } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.a.bin(Op::Eq, x, y),
            Pred::Ne => { let q = self.a.bin(Op::Eq, x, y); self.a.not(q) }
            Pred::Ult => self.a.bin(Op::Ult, x, y),
            Pred::Ugt => self.a.bin(Op::Ult, y, x),
            Pred::Ule => self.a.bin(Op::Ule, x, y),
            Pred::Uge => self.a.bin(Op::Ule, y, x),
            Pred::Slt => self.a.bin(Op::Slt, x, y),
            Pred::Sgt => self.a.bin(Op::Slt, y, x),
            Pred::Sle => self.a.bin(Op::Sle, x, y),
            Pred::Sge => self.a.bin(Op::Sle, y, x),
        };
        self.v(r)
    }
    fn cast1(&mut self, st: &mut State, c: Cast, fw: u16, tw: u16, v: &V) -> X<V> {
        Ok(match c {
            Cast::Trunc | Cast::ZExt | Cast::PtrInt => {
                match v {
                    V::C(k) if tw <= 64 => V::C(*k & mask(tw) as u64),
                    _ => { let e = self.e(v, fw); let r = self.a.trunc_or_zext(e, tw); self.v(r) }
                }
            }
            Cast::SExt => match v {
                V::C(k) if tw <= 64 => V::C(sext(*k as u128, fw) as u64 & mask(tw) as u64),
                _ => { let e = self.e(v, fw); let r = self.a.sext(e, tw); self.v(r) }
            },
            Cast::Bit => v.clone(),
            _ => {
                let k = self.pinv(st, v)?;
                let f = |x: u64, w: u16| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let t = |d: f64, w: u16| if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                V::C(match c {
                    Cast::FpTrunc | Cast::FpExt => t(f(k, fw), tw),
                    Cast::FpToUi => f(k, fw) as u64 & mask(tw.min(64)) as u64,
                    Cast::FpToSi => f(k, fw) as i64 as u64 & mask(tw.min(64)) as u64,
                    Cast::UiToFp => t(k as f64, tw),
                    Cast::SiToFp => t(sext(k as u128, fw) as f64, tw),
                    _ => unreachable!(),
                })
            }
        })
    }
    pub fn select(&mut self, st: &mut State, c: &V, a: &V, b: &V, ty: TyId) -> X<V> {
        match c {
            V::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => {
                match (a, b) {
                    (V::A(_), _) | (_, V::A(_)) => { if self.fork(st, *e)? { Ok(a.clone()) } else { Ok(b.clone()) } }
                    _ => {
                        let w = self.prog.width(ty);
                        // pointers to different objects: fork rather than build an ite of addresses
                        if let Ty::Ptr = self.prog.tys[ty as usize] { return if self.fork(st, *e)? { Ok(a.clone()) } else { Ok(b.clone()) }; }
                        let (x, y) = (self.e(a, w), self.e(b, w));
                        let r = self.a.ite(*e, x, y);
                        Ok(self.v(r))
                    }
                }
            }
            _ => err("select condition"),
        }
    }

    // ---- main loop ------------------------------------------------------------------------
    #[inline]
    fn op(fr: &Frame, o: &O) -> V { match o { O::R(r) => fr.regs[*r as usize].clone(), O::C(k) => V::C(*k), O::V(v) => v.clone() } }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.p().frames.last_mut().unwrap());
        let from = fr.bb;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, _, l) in &b.phis {
                let o = &l.iter().find(|(p, _)| *p == from).expect("phi predecessor").1;
                vals.push((*d, Self::op(fr, o)));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
    }
    /// The blocks without side effects between a branch and the block where its two ways meet, in order.
    fn region(&mut self, f: &'static Func, bb: u32) -> Option<Rc<(Vec<u32>, u32)>> {
        if let Some(r) = self.regions.get(&(f.id, bb)) { return r.clone(); }
        let r = self.find_region(f, bb).map(Rc::new);
        self.regions.insert((f.id, bb), r.clone());
        r
    }
    fn find_region(&mut self, f: &'static Func, bb: u32) -> Option<(Vec<u32>, u32)> {
        fn succ(b: &crate::ir::Block) -> Vec<u32> { match b.ins.last() { Some(I::Br(t)) => vec![*t], Some(I::CondBr(_, t, e)) => vec![*t, *e], _ => vec![] } }
        let int = |t: &TyId| matches!(self.prog.tys[*t as usize], Ty::Int(_));
        let pure = |b: &crate::ir::Block| b.ins.iter().all(|i| match i {
            I::Bin { op, ty, .. } => int(ty) && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr),
            I::ICmp { ty, .. } => int(ty),
            I::Select { cv, ty, .. } => !*cv && int(ty),
            I::Cast { from, to, .. } => int(from) && int(to),
            I::Freeze { .. } | I::Nop | I::Br(_) | I::CondBr(..) => true,
            _ => false,
        }) && b.phis.iter().all(|p| int(&p.1));
        let mut front: Vec<u32> = succ(&f.blocks[bb as usize]);
        front.dedup();
        let (mut reg, mut size): (Vec<u32>, usize) = (vec![], 0);
        while front.len() > 1 {
            let k = front.iter().position(|&b| {
                b != bb && pure(&f.blocks[b as usize]) && f.blocks.iter().enumerate().all(|(p, x)| {
                    let p = p as u32;
                    p == bb || reg.contains(&p) || !goes_to(x, b)
                })
            })?;
            let b = front.remove(k);
            reg.push(b);
            size += f.blocks[b as usize].ins.len();
            if reg.len() > 10 || size > 60 { return None; }
            for t in succ(&f.blocks[b as usize]) { if t == bb || reg.contains(&t) { return None; } if !front.contains(&t) { front.push(t); } }
        }
        fn goes_to(x: &crate::ir::Block, b: u32) -> bool {
            match x.ins.last() {
                Some(I::Br(t)) => *t == b,
                Some(I::CondBr(_, t, e)) => *t == b || *e == b,
                Some(I::Switch { def, cases, .. }) => *def == b || cases.iter().any(|c| c.1 == b),
                Some(I::Call(c)) => c.normal == Some(b),
                _ => false,
            }
        }
        let j = match front[..] { [j] if j != bb => j, _ => return None };
        // what differs in the end must be small integers
        let same = |l: &Vec<(u32, O)>| {
            let mut k = l.iter().filter(|x| x.0 == bb || reg.contains(&x.0)).map(|x| &x.1);
            let a = match k.next() { Some(a) => a, None => return true };
            k.all(|b| match (a, b) { (O::R(x), O::R(y)) => x == y, (O::C(x), O::C(y)) => x == y, _ => false })
        };
        for b in reg.iter().chain([&j]) { for (_, ty, l) in &f.blocks[*b as usize].phis { if !same(l) && !(int(ty) && self.prog.width(*ty) <= 32) { return None; } } }
        Some((reg, j))
    }
    /// Both ways of a branch up to the block where they meet, when they only compute small integers.
    fn merge(&mut self, st: &mut State, f: &'static Func, c: E) -> X<bool> {
        let (bb, ip) = { let fr = st.pr().frames.last().unwrap(); (fr.bb, fr.ip) };
        let r = match self.region(f, bb) { Some(r) => r, None => return Ok(false) };
        let n = self.a.not(c);
        if !matches!(self.s.check(&mut self.a, &st.pc, c), R::Sat(_)) || !matches!(self.s.check(&mut self.a, &st.pc, n), R::Sat(_)) { return Ok(false); }
        let (t, e) = match f.blocks[bb as usize].ins[ip as usize] { I::CondBr(_, t, e) => (t, e), _ => return Ok(false) };
        let mut edges: Vec<(u32, u32, E)> = vec![(bb, t, c), (bb, e, n)];
        let mut todo: Vec<u32> = r.0.clone();
        todo.push(r.1);
        for &b in &todo {
            let last = b == r.1;
            let inc: Vec<(u32, E)> = edges.iter().filter(|x| x.1 == b).map(|x| (x.0, x.2)).collect();
            let mut cond = self.a.c(1, 0);
            for x in &inc { cond = self.a.bin(Op::Or, cond, x.1); }
            let mut vals = vec![];
            for (d, ty, l) in &f.blocks[b as usize].phis {
                let w = self.prog.width(*ty);
                let mut acc: Option<V> = None;
                for (p, q) in &inc {
                    let v = { let fr = st.pr().frames.last().unwrap(); Self::op(fr, &l.iter().find(|x| x.0 == *p).expect("phi predecessor").1) };
                    acc = Some(match (acc, v) {
                        (None, v) => v,
                        (Some(V::C(x)), V::C(y)) if x == y => V::C(x),
                        (Some(V::S(x)), V::S(y)) if x == y => V::S(x),
                        (Some(x @ (V::C(_) | V::S(_))), y @ (V::C(_) | V::S(_))) if matches!(self.prog.tys[*ty as usize], Ty::Int(_)) && w <= 32 => {
                            let (x, y) = (self.e(&x, w), self.e(&y, w));
                            let z = self.a.ite(*q, y, x);
                            self.v(z)
                        }
                        _ => { let fr = Rc::make_mut(st.p().frames.last_mut().unwrap()); fr.bb = bb; fr.ip = ip; return Ok(false); }
                    });
                }
                if let Some(v) = acc { vals.push((*d, v)); }
            }
            let fr = Rc::make_mut(st.p().frames.last_mut().unwrap());
            for (d, v) in vals { fr.regs[d as usize] = v; }
            fr.bb = b;
            fr.ip = 0;
            if last { break; }
            let k = f.blocks[b as usize].ins.len();
            for i in 0..k - 1 {
                if let I::Nop = f.blocks[b as usize].ins[i] { Rc::make_mut(st.p().frames.last_mut().unwrap()).ip += 1; continue; }
                self.step(st)?;
            }
            match &f.blocks[b as usize].ins[k - 1] {
                I::Br(t) => edges.push((b, *t, cond)),
                I::CondBr(q, t, e) => {
                    let q = { let fr = st.pr().frames.last().unwrap(); Self::op(fr, q) };
                    let q = self.e(&q, 1);
                    let nq = self.a.not(q);
                    let (x, y) = (self.a.bin(Op::And, cond, q), self.a.bin(Op::And, cond, nq));
                    edges.push((b, *t, x));
                    edges.push((b, *e, y));
                }
                _ => return err("merge"),
            }
        }
        if f.scut { for (from, to, _) in &edges { if let I::CondBr(_, t, _) = f.blocks[*from as usize].ins.last().unwrap() { *self.cov_branches.entry((f.id, *from, (to == t) as u8)).or_insert(0) += 1; } } }
        self.merged += 1;
        Ok(true)
    }
    pub fn push_call(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> X<()> {
        if st.pr().frames.len() > 4000 { return err("call stack too deep"); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        let np = f.params.len();
        let mut varargs = vec![];
        for (i, a) in args.into_iter().enumerate() { if i < np { regs[f.params[i] as usize] = a; } else { varargs.push(a); } }
        *self.covered.entry(f.id).or_insert(0) += 1;
        st.p().frames.push(Rc::new(Frame { f, bb: 0, ip: 0, regs, allocas: vec![], varargs, dst, normal }));
        Ok(())
    }
    fn set(st: &mut State, d: u32, v: V) {
        if d != u32::MAX { Rc::make_mut(st.p().frames.last_mut().unwrap()).regs[d as usize] = v; }
    }
    fn finish(st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.p().frames.last_mut().unwrap());
        if d != u32::MAX { fr.regs[d as usize] = v; }
        fr.ip += 1;
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let fr = st.p().frames.pop().unwrap();
        for &a in &fr.allocas { st.p().mem.free(a); }
        if st.pr().frames.is_empty() {
            let code = match v { Some(V::C(k)) => k as i32, _ => 0 };
            return Err(Stop::Exit((code & 0xff) << 8));
        }
        if let (Some(d), Some(v)) = (fr.dst, v) { Self::set(st, d, v); }
        if let Some(n) = fr.normal { self.jump(st, n); }
        Ok(())
    }
    fn kind(&mut self, id: u32) -> X<FnKind> {
        while self.kinds.len() <= id as usize { self.kinds.push(FnKind::Unknown); }
        match self.kinds[id as usize] {
            FnKind::Unknown => {
                let name = self.prog.fns[id as usize].name.clone();
                let k = if let Some(b) = self.builtins.get(&*name) { FnKind::Built(*b, !crate::libc::pure_memory(&name)) }
                    else if let Some(b) = crate::libc::override_for(&name) { FnKind::Built(b, false) }
                    else if let FnBody::Defined(..) = self.prog.fns[id as usize].body {
                        let to = match crate::libc::std_model(&name) { Some(n) => self.prog.lookup_fn(n), None => None };
                        FnKind::Interp(self.func(to.unwrap_or(id)))
                    }
                    else { return err(format!("call to unmodelled external function {}", name)); };
                self.kinds[id as usize] = k;
                Ok(k)
            }
            k => Ok(k),
        }
    }
    pub fn where_am_i(&self, st: &State) -> String {
        st.pr().frames.iter().rev().take(10).map(|f| pretty(&f.f.name)).collect::<Vec<_>>().join(" < ")
    }

    /// Execute one instruction of the current process.
    pub fn step(&mut self, st: &mut State) -> X<()> {
        self.instrs += 1;
        // The frame is only read before the instruction changes it.
        let fr: &Frame = unsafe { &*Rc::as_ptr(st.pr().frames.last().unwrap()) };
        let f = fr.f;
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        match ins {
            I::Bin { op, ty, w, a, b, d } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = if *w == 0 {
                    let ew = match self.prog.tys[*ty as usize] { Ty::Vec(_, e) => self.prog.width(e), _ => return err("bin type") };
                    match (x, y) {
                        (V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..x.len() { o.push(self.binop(st, *op, ew, &x[i], &y[i])?); } V::A(Rc::new(o)) }
                        _ => return err("vector operand"),
                    }
                } else { self.binop(st, *op, *w, &x, &y)? };
                Self::finish(st, *d, r);
            }
            I::ICmp { p, ty, w, a, b, d } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = if *w == 0 {
                    let ew = match self.prog.tys[*ty as usize] { Ty::Vec(_, e) => self.prog.width(e), _ => return err("icmp type") };
                    match (x, y) {
                        (V::A(x), V::A(y)) => V::A(Rc::new((0..x.len()).map(|i| self.icmp(*p, ew, &x[i], &y[i])).collect())),
                        _ => return err("vector operand"),
                    }
                } else { self.icmp(*p, *w, &x, &y) };
                Self::finish(st, *d, r);
            }
            I::Load { ty, p, d } => {
                let pv = Self::op(fr, p);
                let v = self.load(st, &pv, *ty)?;
                Self::finish(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let (vv, pv) = (Self::op(fr, v), Self::op(fr, p));
                self.store(st, &pv, *ty, &vv)?;
                Self::finish(st, u32::MAX, V::C(0));
            }
            I::Gep { base, off, terms, d } => {
                let b = Self::op(fr, base);
                let mut k = *off;
                let mut sym: Option<E> = None;
                if let V::A(_) = b { return err("vector gep"); }
                for (o, w, sc) in terms {
                    match Self::op(fr, o) {
                        V::C(x) => { let x = if *w < 64 { sext(x as u128, *w) as i64 as u64 } else { x }; k = k.wrapping_add(x.wrapping_mul(*sc)); }
                        V::S(e) => {
                            let e = if *w < 64 { self.a.sext(e, 64) } else { e };
                            let s = self.a.c(64, *sc as u128);
                            let e = self.a.bin(Op::Mul, e, s);
                            sym = Some(match sym { None => e, Some(p) => self.a.bin(Op::Add, p, e) });
                        }
                        _ => return err("gep index"),
                    }
                }
                let r = match (b, sym) {
                    (V::C(x), None) => V::C(x.wrapping_add(k)),
                    (b, sym) => {
                        let mut e = self.e(&b, 64);
                        if let Some(s) = sym { e = self.a.bin(Op::Add, e, s); }
                        let kc = self.a.c(64, k as u128);
                        e = self.a.bin(Op::Add, e, kc);
                        self.v(e)
                    }
                };
                Self::finish(st, *d, r);
            }
            I::Br(l) => self.jump(st, *l),
            I::CondBr(c, t, e) => {
                match Self::op(fr, c) {
                    V::C(k) => { let to = if k & 1 == 1 { *t } else { *e }; if f.scut { *self.cov_branches.entry((f.id, fr.bb, (k & 1) as u8)).or_insert(0) += 1; } self.jump(st, to) }
                    V::S(x) => {
                        if self.merge(st, f, x)? { return Ok(()); }
                        let bb = fr.bb; let r = self.fork(st, x)?; if f.scut { *self.cov_branches.entry((f.id, bb, r as u8)).or_insert(0) += 1; } self.jump(st, if r { *t } else { *e }) }
                    _ => return err("branch condition"),
                }
            }
            I::Switch { w, v, def, cases } => {
                match Self::op(fr, v) {
                    V::C(k) => { let to = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1); self.jump(st, to) }
                    V::S(e) => {
                        // group by target
                        let mut tgt: Vec<(u32, E)> = vec![];
                        for (k, l) in cases {
                            let kc = self.a.c(*w, *k as u128);
                            let q = self.a.bin(Op::Eq, e, kc);
                            match tgt.iter_mut().find(|x| x.0 == *l) { Some(x) => x.1 = self.a.bin(Op::Or, x.1, q), None => tgt.push((*l, q)) }
                        }
                        for (l, q) in tgt {
                            if l == *def { continue; }
                            if self.fork(st, q)? { self.jump(st, l); return Ok(()); }
                        }
                        // cases that share the default's target go there too
                        self.jump(st, *def)
                    }
                    _ => return err("switch operand"),
                }
            }
            I::Select { cv, ty, c, a, b, d } => {
                let (c, x, y) = (Self::op(fr, c), Self::op(fr, a), Self::op(fr, b));
                let r = if *cv {
                    let et = match self.prog.tys[*ty as usize] { Ty::Vec(_, e) => e, _ => return err("select type") };
                    match (c, x, y) {
                        (V::A(c), V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..c.len() { o.push(self.select(st, &c[i], &x[i], &y[i], et)?); } V::A(Rc::new(o)) }
                        _ => return err("vector select"),
                    }
                } else { self.select(st, &c, &x, &y, *ty)? };
                Self::finish(st, *d, r);
            }
            I::Cast { c, from, to, a, d } => {
                let v = Self::op(fr, a);
                let (ft, tt) = (self.prog.tys[*from as usize].clone(), self.prog.tys[*to as usize].clone());
                let r = match (&ft, &tt) {
                    (Ty::Vec(_, fe), Ty::Vec(_, te)) => {
                        let (fw, tw) = (self.prog.width(*fe), self.prog.width(*te));
                        if *c == Cast::Bit {
                            if fw == tw { v } else {
                                let n = match ft { Ty::Vec(n, _) => n as u16, _ => 0 };
                                let i = self.vec_to_int(&v, fw);
                                self.int_to_vec(&i, fw * n, tw)
                            }
                        } else {
                            match v { V::A(l) => { let mut o = vec![]; for x in l.iter() { o.push(self.cast1(st, *c, fw, tw, x)?); } V::A(Rc::new(o)) } _ => return err("vector cast") }
                        }
                    }
                    (Ty::Vec(_, fe), _) => { let fw = self.prog.width(*fe); self.vec_to_int(&v, fw) }
                    (_, Ty::Vec(_, te)) => { let tw = self.prog.width(*te); let fw = self.prog.width(*from); self.int_to_vec(&v, fw, tw) }
                    _ => { let (fw, tw) = (self.prog.width(*from), self.prog.width(*to)); self.cast1(st, *c, fw, tw, &v)? }
                };
                Self::finish(st, *d, r);
            }
            I::Alloca { size, n, d } => {
                let n = match Self::op(fr, n) { V::C(k) => k, _ => return err("symbolic alloca") };
                let id = st.p().mem.alloc(Obj::new((*size * n).max(1) as usize));
                let fr = Rc::make_mut(st.p().frames.last_mut().unwrap());
                fr.allocas.push(id);
                fr.regs[*d as usize] = V::C((id as u64) << 32);
                fr.ip += 1;
            }
            I::ExtractValue { a, idx, d } => {
                let mut v = Self::op(fr, a);
                for i in idx { v = match v { V::A(l) => l[*i as usize].clone(), _ => return err("extractvalue") }; }
                Self::finish(st, *d, v);
            }
            I::InsertValue { a, v, idx, d, .. } => {
                fn ins(a: &V, v: V, idx: &[u32]) -> V {
                    if idx.is_empty() { return v; }
                    match a { V::A(l) => { let mut n = (**l).clone(); n[idx[0] as usize] = ins(&l[idx[0] as usize], v, &idx[1..]); V::A(Rc::new(n)) } _ => panic!("insertvalue") }
                }
                let (av, vv) = (Self::op(fr, a), Self::op(fr, v));
                let r = ins(&av, vv, idx);
                Self::finish(st, *d, r);
            }
            I::ExtractElement { a, i, d } => {
                let (av, iv) = (Self::op(fr, a), Self::op(fr, i));
                let k = self.pinv(st, &iv)?;
                let r = match av { V::A(l) => l[k as usize].clone(), _ => return err("extractelement") };
                Self::finish(st, *d, r);
            }
            I::InsertElement { a, v, i, d, .. } => {
                let (av, vv, iv) = (Self::op(fr, a), Self::op(fr, v), Self::op(fr, i));
                let k = self.pinv(st, &iv)?;
                let r = match av { V::A(l) => { let mut n = (*l).clone(); n[k as usize] = vv; V::A(Rc::new(n)) } _ => return err("insertelement") };
                Self::finish(st, *d, r);
            }
            I::Shuffle { a, b, mask, d, .. } => {
                let (av, bv) = (Self::op(fr, a), Self::op(fr, b));
                let r = match (av, bv) {
                    (V::A(x), V::A(y)) => V::A(Rc::new(mask.iter().map(|&m| { let m = m.max(0) as usize; if m < x.len() { x[m].clone() } else { y[m - x.len()].clone() } }).collect())),
                    _ => return err("shuffle"),
                };
                Self::finish(st, *d, r);
            }
            I::Freeze { a, d } => { let v = Self::op(fr, a); Self::finish(st, *d, v); }
            I::Ret(_, v) => { let v = v.as_ref().map(|o| Self::op(fr, o)); self.ret(st, v)?; }
            I::Unreachable => return Err(Stop::Viol(format!("reached an unreachable instruction in {}", pretty(&f.name)))),
            I::Nop => Self::finish(st, u32::MAX, V::C(0)),
            I::LandingPad { d } => Self::finish(st, *d, V::A(Rc::new(vec![V::C(0), V::C(0)]))),
            I::Rmw { op, ty, p, v, d } => {
                let (pv, vv) = (Self::op(fr, p), Self::op(fr, v));
                let old = self.load(st, &pv, *ty)?;
                let w = self.prog.width(*ty);
                let new = match &op[..] {
                    "xchg" => vv,
                    "add" => self.binop(st, BinOp::Add, w, &old, &vv)?,
                    "sub" => self.binop(st, BinOp::Sub, w, &old, &vv)?,
                    "and" => self.binop(st, BinOp::And, w, &old, &vv)?,
                    "or" => self.binop(st, BinOp::Or, w, &old, &vv)?,
                    "xor" => self.binop(st, BinOp::Xor, w, &old, &vv)?,
                    "umax" | "umin" => { let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &vv); self.select(st, &c, &old, &vv, *ty)? }
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store(st, &pv, *ty, &new)?;
                Self::finish(st, *d, old);
            }
            I::CmpXchg { ty, p, a, b, d } => {
                let (pv, av, bv) = (Self::op(fr, p), Self::op(fr, a), Self::op(fr, b));
                let old = self.load(st, &pv, *ty)?;
                let w = self.prog.width(*ty);
                let c = self.icmp(Pred::Eq, w, &old, &av);
                let ok = match c { V::C(k) => k == 1, V::S(e) => self.fork(st, e)?, _ => false };
                if ok { self.store(st, &pv, *ty, &bv)?; }
                Self::finish(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::FCmp { p, ty, a, b, d } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let (x, y) = (self.pinv(st, &x)?, self.pinv(st, &y)?);
                let w = self.prog.width(*ty);
                let g = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let (u, q) = (p.starts_with('u'), &p[1..]);
                let r = match (&p[..], q) {
                    ("ord", _) => !un, ("uno", _) => un, ("true", _) => true, ("false", _) => false,
                    (_, "eq") => x == y, (_, "ne") => x != y && !un, (_, "gt") => x > y, (_, "ge") => x >= y, (_, "lt") => x < y, (_, "le") => x <= y,
                    _ => return err("fcmp"),
                } || (u && un && p != "uno");
                Self::finish(st, *d, V::C(r as u64));
            }
            I::FNeg { ty, a, d } => {
                let x = Self::op(fr, a);
                let x = self.pinv(st, &x)?;
                let w = self.prog.width(*ty);
                Self::finish(st, *d, V::C(x ^ (1u64 << (w - 1))));
            }
            I::Call(c) => {
                let d = c.dst.unwrap_or(u32::MAX);
                let id = match &c.callee {
                    Callee::Func(id) => *id,
                    Callee::Reg(o) => {
                        let v = Self::op(fr, o);
                        let k = self.pinv(st, &v)?;
                        if (k >> 32) < FN_BASE as u64 { return Err(Stop::Viol(format!("call through a bad function pointer {:x}", k))); }
                        (k >> 32) as u32 - FN_BASE
                    }
                    Callee::Intr(n) => {
                        let args: Vec<V> = c.args.iter().map(|(_, o)| Self::op(fr, o)).collect();
                        let r = self.intrinsic(st, n, c, &args)?;
                        Self::finish(st, d, r);
                        if let Some(n) = c.normal { self.jump(st, n); }
                        return Ok(());
                    }
                    Callee::Asm(t) => {
                        let r = if t.is_empty() { if c.ret == self.prog.ty_void { V::C(0) } else if c.args.len() == 1 { Self::op(fr, &c.args[0].1) } else { zero(&self.prog, c.ret) } }
                            else if t.contains("cpuid") { zero(&self.prog, c.ret) }
                            else { return err(format!("inline asm '{}'", t)); };
                        Self::finish(st, d, r);
                        if let Some(n) = c.normal { self.jump(st, n); }
                        return Ok(());
                    }
                };
                let kind = match self.kinds.get(id as usize) { Some(FnKind::Unknown) | None => self.kind(id)?, Some(k) => *k };
                match kind {
                    FnKind::Interp(g) => {
                        let mut args: Vec<V> = c.args.iter().map(|(_, o)| Self::op(fr, o)).collect();
                        let mut bv = vec![];
                        for (i, b) in c.byval.iter().enumerate() {
                            if let Some(t) = b {
                                let n = self.prog.size(*t);
                                let o = self.read_bytes(st, &args[i].clone(), n)?;
                                let id = st.p().mem.alloc(o);
                                bv.push(id);
                                args[i] = V::C((id as u64) << 32);
                            }
                        }
                        let (normal, dst) = (c.normal, c.dst);
                        Rc::make_mut(st.p().frames.last_mut().unwrap()).ip += 1;
                        self.push_call(st, g, args, dst, normal)?;
                        Rc::make_mut(st.p().frames.last_mut().unwrap()).allocas.extend(bv);
                    }
                    FnKind::Built(b, undo) => {
                        let args: Vec<V> = c.args.iter().map(|(_, o)| Self::op(fr, o)).collect();
                        let depth = st.pr().frames.len();
                        if undo { self.start = Some(st.clone()); }
                        let r = b(self, st, &args);
                        self.start = None;
                        let r = r?;
                        if self.cfg.verbose { let n = self.prog.fns[id as usize].name.to_string(); self.used_builtins.insert(n); }
                        if st.pr().frames.len() > depth {
                            // the builtin pushed a call (e.g. a callback): it already advanced ip
                            return Ok(());
                        }
                        Self::finish(st, d, r);
                        if let Some(n) = c.normal { self.jump(st, n); }
                    }
                    FnKind::Unknown => unreachable!(),
                }
            }
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, c: &Call, a: &[V]) -> X<V> {
        let b = &n[5..];
        let (w0, et) = match a.first() {
            Some(_) => { let t = c.args[0].0; match self.prog.tys[t as usize] { Ty::Vec(_, e) => (self.prog.width(e), Some(e)), _ => (self.prog.width(t), None) } }
            None => (0, None),
        };
        let starts = |p: &str| b.starts_with(p);
        if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("dbg") || starts("prefetch") || starts("sideeffect") || starts("donothing") || starts("x86.sse2.pause") || starts("va_end") || starts("invariant") || starts("instrprof") || starts("fake.use") { return Ok(V::C(0)); }
        if starts("memcpy") || starts("memmove") {
            self.memcpy(st, &a[0], &a[1], &a[2])?;
            return Ok(V::C(0));
        }
        if starts("fmuladd") || starts("fma.") {
            return match (&a[0], &a[1], &a[2]) {
                (V::C(x), V::C(y), V::C(z)) if w0 == 64 => { let p = f64::from_bits(*x) * f64::from_bits(*y); Ok(V::C((p + f64::from_bits(*z)).to_bits())) }
                _ => err("fmuladd"),
            };
        }
        if starts("load.relative") {
            let off = self.pinv(st, &a[1])?;
            let base = self.pinv(st, &a[0])?;
            let t = self.prog.ty_i32;
            let k = self.load(st, &V::C(base.wrapping_add(off)), t)?;
            let k = self.pinv(st, &k)?;
            return Ok(V::C(base.wrapping_add(far(k))));
        }
        if starts("va_copy") { self.memcpy(st, &a[0], &a[1], &V::C(24))?; return Ok(V::C(0)); }
        if starts("memset") {
            self.memset(st, &a[0], &a[1], &a[2])?;
            return Ok(V::C(0));
        }
        for (k, op, sg) in [("uadd", BinOp::Add, false), ("usub", BinOp::Sub, false), ("umul", BinOp::Mul, false), ("sadd", BinOp::Add, true), ("ssub", BinOp::Sub, true), ("smul", BinOp::Mul, true)] {
            if !b.starts_with(k) { continue; }
            if b[k.len()..].starts_with(".with.overflow") {
                let r = self.binop(st, op, w0, &a[0], &a[1])?;
                let o = self.overflow(op, sg, w0, &a[0], &a[1]);
                return Ok(V::A(Rc::new(vec![r, o])));
            }
            if b[k.len()..].starts_with(".sat") {
                let mut one = |s: &mut Self, st: &mut State, x: &V, y: &V, t: TyId| -> X<V> {
                    let r = s.binop(st, op, w0, x, y)?;
                    let o = s.overflow(op, sg, w0, x, y);
                    let lim = if sg {
                        let z = V::C(0);
                        let neg = s.icmp(Pred::Slt, w0, x, &z);
                        let (mn, mx) = (V::C(1u64 << (w0 - 1)), V::C((mask(w0) >> 1) as u64));
                        s.select(st, &neg, &mn, &mx, t)?
                    } else if op == BinOp::Sub { V::C(0) } else { V::C(mask(w0) as u64) };
                    s.select(st, &o, &lim, &r, t)
                };
                if let Some(et) = et {
                    if let (V::A(x), V::A(y)) = (&a[0], &a[1]) { let mut o = vec![]; for i in 0..x.len() { o.push(one(self, st, &x[i], &y[i], et)?); } return Ok(V::A(Rc::new(o))); }
                }
                return one(self, st, &a[0], &a[1], c.args[0].0);
            }
        }
        for (k, p) in [("umin", Pred::Ult), ("umax", Pred::Ugt), ("smin", Pred::Slt), ("smax", Pred::Sgt)] {
            if b.starts_with(k) {
                if let Some(et) = et {
                    if let (V::A(x), V::A(y)) = (&a[0], &a[1]) { let mut o = vec![]; for i in 0..x.len() { let cc = self.icmp(p, w0, &x[i], &y[i]); o.push(self.select(st, &cc, &x[i], &y[i], et)?); } return Ok(V::A(Rc::new(o))); }
                }
                let cc = self.icmp(p, w0, &a[0], &a[1]);
                return self.select(st, &cc, &a[0], &a[1], c.args[0].0);
            }
        }
        if starts("ucmp") || starts("scmp") {
            let rw = self.prog.width(c.ret);
            let (lt, gt) = if starts("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(lt, w0, &a[0], &a[1]);
            let g = self.icmp(gt, w0, &a[0], &a[1]);
            let m1 = V::C(mask(rw) as u64);
            let x = self.select(st, &g, &V::C(1), &V::C(0), c.ret)?;
            return self.select(st, &l, &m1, &x, c.ret);
        }
        if starts("expect") || starts("is.constant") || starts("ssa.copy") || starts("launder") || starts("strip") || starts("ptr.annotation") { return Ok(if starts("is.constant") { V::C(0) } else { a[0].clone() }); }
        if starts("ptrmask") { return self.binop(st, BinOp::And, 64, &a[0], &a[1]); }
        if starts("threadlocal.address") { return Ok(a[0].clone()); }
        if starts("objectsize") { return Ok(V::C(mask(self.prog.width(c.ret)) as u64)); }
        if starts("trap") || starts("ubsantrap") { return Err(Stop::Viol(format!("trap in {}", pretty(&st.pr().frames.last().unwrap().f.name)))); }
        if starts("ctpop") || starts("ctlz") || starts("cttz") {
            let kind = &b[..4];
            let f = |s: &mut Self, v: &V| -> V {
                match v {
                    V::C(k) => V::C(match kind { "ctpo" => k.count_ones() as u64, "ctlz" => (k.leading_zeros() as u64).wrapping_sub(64 - w0 as u64), _ => (k.trailing_zeros() as u64).min(w0 as u64) }),
                    V::S(e) => {
                        let mut acc = s.a.c(w0, if kind == "ctpo" { 0 } else { w0 as u128 });
                        if kind == "ctpo" {
                            for i in 0..w0 { let x = s.a.extract(*e, i, 1); let x = s.a.zext(x, w0); acc = s.a.bin(Op::Add, acc, x); }
                        } else if kind == "ctlz" {
                            for i in 0..w0 { let x = s.a.extract(*e, i, 1); let k = s.a.c(w0, (w0 - 1 - i) as u128); acc = s.a.ite(x, k, acc); }
                        } else {
                            for i in (0..w0).rev() { let x = s.a.extract(*e, i, 1); let k = s.a.c(w0, i as u128); acc = s.a.ite(x, k, acc); }
                        }
                        s.v(acc)
                    }
                    _ => V::C(0),
                }
            };
            return Ok(match &a[0] { V::A(l) => V::A(Rc::new(l.iter().map(|x| f(self, x)).collect())), v => f(self, v) });
        }
        if starts("bswap") {
            let e = self.e(&a[0], w0);
            let n = w0 / 8;
            let mut acc = None;
            for i in 0..n { let x = self.a.extract(e, i * 8, 8); acc = Some(match acc { None => x, Some(p) => self.a.concat(p, x) }); }
            return Ok(self.v(acc.unwrap()));
        }
        if starts("bitreverse") {
            let e = self.e(&a[0], w0);
            let mut acc = None;
            for i in 0..w0 { let x = self.a.extract(e, i, 1); acc = Some(match acc { None => x, Some(p) => self.a.concat(p, x) }); }
            return Ok(self.v(acc.unwrap()));
        }
        if starts("fshl") || starts("fshr") {
            let l = starts("fshl");
            let f = |s: &mut Self, x: &V, y: &V, z: &V| -> V {
                if let (V::C(x), V::C(y), V::C(z)) = (x, y, z) {
                    let k = *z % w0 as u64;
                    let cat = ((*x as u128) << w0) | *y as u128;
                    let r = if l { (cat << k) >> w0 } else { cat >> k };
                    return V::C(r as u64 & mask(w0) as u64);
                }
                let (x, y, z) = (s.e(x, w0), s.e(y, w0), s.e(z, w0));
                let wc = s.a.c(w0, w0 as u128);
                let k = s.a.bin(Op::URem, z, wc);
                let cat = s.a.concat(x, y);
                let kz = s.a.zext(k, 2 * w0);
                let r = if l { let q = s.a.bin(Op::Shl, cat, kz); s.a.extract(q, w0, w0) } else { let q = s.a.bin(Op::LShr, cat, kz); s.a.extract(q, 0, w0) };
                s.v(r)
            };
            return Ok(match (&a[0], &a[1], &a[2]) { (V::A(x), V::A(y), V::A(z)) => V::A(Rc::new((0..x.len()).map(|i| f(self, &x[i], &y[i], &z[i])).collect())), _ => f(self, &a[0], &a[1], &a[2]) });
        }
        if starts("abs") {
            let neg = self.icmp(Pred::Slt, w0, &a[0], &V::C(0));
            let m = self.binop(st, BinOp::Sub, w0, &V::C(0), &a[0])?;
            return self.select(st, &neg, &m, &a[0], c.args[0].0);
        }
        if starts("vector.reduce") {
            let l = match &a[0] { V::A(l) => l.clone(), _ => return err("reduce") };
            let mut acc = l[0].clone();
            for x in l[1..].iter() {
                acc = if b.contains("reduce.add") { self.binop(st, BinOp::Add, w0, &acc, x)? } else if b.contains("reduce.or") { self.binop(st, BinOp::Or, w0, &acc, x)? } else if b.contains("reduce.and") { self.binop(st, BinOp::And, w0, &acc, x)? } else if b.contains("reduce.xor") { self.binop(st, BinOp::Xor, w0, &acc, x)? }
                    else { let p = if b.contains("umax") { Pred::Ugt } else if b.contains("umin") { Pred::Ult } else { return err(format!("intrinsic {}", n)); }; let q = self.icmp(p, w0, &acc, x); let t = self.prog.ty(Ty::Int(w0)); self.select(st, &q, &acc, x, t)? };
            }
            return Ok(acc);
        }
        if starts("va_start") {
            // lay the variadic arguments out in memory as the SysV overflow area
            let va = st.pr().frames.last().unwrap().varargs.clone();
            let mut o = Obj::new(va.len().max(1) * 8);
            for (i, v) in va.iter().enumerate() { match v { V::C(k) => o.write_c(i * 8, 8, *k), V::S(e) => { let bs = split(&mut self.a, *e, 8); for (j, x) in bs.iter().enumerate() { o.set(i * 8 + j, x); } } _ => return err("vararg") } }
            let id = st.p().mem.alloc(o);
            let p = self.pinv(st, &a[0])?;
            self.write_int(st, p, 4, 48)?;
            self.write_int(st, p + 4, 4, 304)?;
            self.write_int(st, p + 8, 8, (id as u64) << 32)?;
            return Ok(V::C(0));
        }
        if starts("stacksave") || starts("stackrestore") { return Ok(V::C(0)); }
        if starts("floor") || starts("ceil") || starts("trunc.f") || starts("fabs") {
            let k = self.pinv(st, &a[0])?;
            if w0 == 64 { let x = f64::from_bits(k); return Ok(V::C((if starts("floor") { x.floor() } else if starts("ceil") { x.ceil() } else if starts("fabs") { x.abs() } else { x.trunc() }).to_bits())); }
            let x = f32::from_bits(k as u32);
            return Ok(V::C((if starts("floor") { x.floor() } else if starts("ceil") { x.ceil() } else if starts("fabs") { x.abs() } else { x.trunc() }).to_bits() as u64));
        }
        if starts("fptosi.sat") || starts("fptoui.sat") {
            let k = self.pinv(st, &a[0])?;
            let x = if w0 == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
            let rw = self.prog.width(c.ret);
            return Ok(V::C(if starts("fptoui") { (x as u64).min(mask(rw) as u64) } else { x as i64 as u64 & mask(rw) as u64 }));
        }
        err(format!("unmodelled intrinsic {}", n))
    }
    fn overflow(&mut self, op: BinOp, sg: bool, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x as u128, *y as u128);
            let o = if sg {
                let (p, q) = (sext(x, w), sext(y, w));
                let r = match op { BinOp::Add => p + q, BinOp::Sub => p - q, _ => p * q };
                r != sext(r as u128 & mask(w), w)
            } else { match op { BinOp::Add => x + y > mask(w), BinOp::Sub => x < y, _ => x * y > mask(w) } };
            return V::C(o as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let o = match (op, sg) {
            (BinOp::Add, false) => { let r = self.a.bin(Op::Add, x, y); self.a.bin(Op::Ult, r, x) }
            (BinOp::Sub, false) => self.a.bin(Op::Ult, x, y),
            _ => {
                let ww = if op == BinOp::Mul { w * 2 } else { w + 1 };
                let (xe, ye) = if sg { (self.a.sext(x, ww), self.a.sext(y, ww)) } else { (self.a.zext(x, ww), self.a.zext(y, ww)) };
                let r = self.a.bin(match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, _ => Op::Mul }, xe, ye);
                let t = self.a.extract(r, 0, w);
                let t = if sg { self.a.sext(t, ww) } else { self.a.zext(t, ww) };
                let q = self.a.bin(Op::Eq, r, t);
                self.a.not(q)
            }
        };
        self.v(o)
    }
}
