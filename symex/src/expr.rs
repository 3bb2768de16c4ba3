//! Hash-consed bit-vector expressions with construction-time simplification.
//! Width-1 expressions are booleans.  Every rewrite is an equivalence over bit-vectors.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,      // third child, or low bit of Extract, or variable number
    pub k: u128,   // constant value
}

/// variable support of a node
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup { None, One(u32), Many }

pub struct VarInfo { pub name: Rc<str>, pub w: u16, pub node: E }

pub struct Arena {
    pub n: Vec<Node>,
    pub sup: Vec<Sup>,
    map: FxMap<Node, E>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<(Rc<str>, u16), E>,
    varsets: FxMap<E, Rc<Vec<u32>>>,
    tables: FxMap<E, Rc<[u64; 256]>>,
    extracts: FxMap<u64, E>,
    canon: FxMap<(u32, u16, u64, u64), Vec<(E, Rc<[u64; 256]>)>>,
    consts8: Vec<E>,
    pub tt: E,
    pub ff: E,
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }], sup: vec![Sup::None],
            map: Default::default(), vars: vec![], varmap: HashMap::new(), varsets: Default::default(),
            tables: Default::default(), extracts: Default::default(), canon: Default::default(), consts8: vec![], tt: 0, ff: 0,
        };
        a.ff = a.c(1, 0);
        a.tt = a.c(1, 1);
        a.consts8 = (0..256).map(|i| a.c(8, i)).collect();
        a
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) { return e; }
        let id = self.n.len() as E;
        let sup = match nd.op {
            Op::Const => Sup::None,
            Op::Var => Sup::One(nd.c),
            Op::Extract | Op::ZExt | Op::SExt => self.sup[nd.a as usize],
            Op::Ite => self.join(self.join(self.sup[nd.a as usize], self.sup[nd.b as usize]), self.sup[nd.c as usize]),
            _ => self.join(self.sup[nd.a as usize], self.sup[nd.b as usize]),
        };
        self.n.push(nd);
        self.sup.push(sup);
        self.map.insert(nd, id);
        id
    }
    fn join(&self, a: Sup, b: Sup) -> Sup {
        match (a, b) {
            (Sup::None, x) | (x, Sup::None) => x,
            (Sup::One(x), Sup::One(y)) if x == y => a,
            _ => Sup::Many,
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    #[inline]
    pub fn byte(&self, b: u8) -> E { self.consts8[b as usize] }
    pub fn c(&mut self, w: u16, k: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn b(&self, v: bool) -> E { if v { self.tt } else { self.ff } }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let nm: Rc<str> = Rc::from(name);
        if let Some(&e) = self.varmap.get(&(nm.clone(), w)) { return e; }
        let id = self.vars.len() as u32;
        let e = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: id, k: 0 });
        self.vars.push(VarInfo { name: nm.clone(), w, node: e });
        self.varmap.insert((nm, w), e);
        e
    }
    pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) { return v.clone(); }
        // iterative post-order over distinct nodes
        let mut seen: FxMap<E, ()> = Default::default();
        let mut out: Vec<u32> = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() { continue; }
            match self.sup[x as usize] {
                Sup::None => continue,
                Sup::One(v) => { out.push(v); continue; }
                Sup::Many => {}
            }
            if let Some(v) = self.varsets.get(&x) { out.extend(v.iter()); continue; }
            let n = self.n[x as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                _ => { st.push(n.a); st.push(n.b); }
            }
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }

    fn calc(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
            Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let s = sext(a, w); let sh = if b >= w as u128 { (w - 1).min(127) as u32 } else { b as u32 }; ((s >> sh) as u128) & m }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
            Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
            Op::Ite => if a & 1 == 1 { b } else { c },
            _ => unreachable!(),
        }
    }

    // ---- unary value tables --------------------------------------------------------------
    pub fn table(&mut self, e: E) -> Option<Rc<[u64; 256]>> {
        let v = match self.sup[e as usize] { Sup::One(v) => v, _ => return None };
        if self.vars[v as usize].w > 8 || self.w(e) > 64 { return None; }
        if let Some(t) = self.tables.get(&e) { return Some(t.clone()); }
        let n = self.n[e as usize];
        let mut t = [0u64; 256];
        let lim = 1usize << self.vars[v as usize].w;
        macro_rules! ch { ($x:expr) => {{ match self.cv($x) { Some(k) => { if self.w($x) > 64 { return None; } let mut q = [0u64; 256]; for i in 0..lim { q[i] = k as u64; } Rc::new(q) } None => self.table($x)? } }} }
        match n.op {
            Op::Var => for i in 0..lim { t[i] = i as u64; },
            Op::Const => unreachable!(),
            Op::Extract => { let x = ch!(n.a); let m = mask(n.w) as u64; for i in 0..lim { t[i] = (x[i] >> n.c) & m; } }
            Op::ZExt => { let x = ch!(n.a); t = *x; }
            Op::SExt => { let x = ch!(n.a); let aw = self.w(n.a); let m = mask(n.w); for i in 0..lim { t[i] = ((sext(x[i] as u128, aw) as u128) & m) as u64; } }
            Op::Concat => { let x = ch!(n.a); let y = ch!(n.b); let bw = self.w(n.b); for i in 0..lim { t[i] = (x[i] << bw) | y[i]; } }
            Op::Ite => { let x = ch!(n.a); let y = ch!(n.b); let z = ch!(n.c); for i in 0..lim { t[i] = if x[i] & 1 == 1 { y[i] } else { z[i] }; } }
            op => { let x = ch!(n.a); let y = ch!(n.b); let aw = self.w(n.a); for i in 0..lim { t[i] = Self::calc(op, n.w, aw, x[i] as u128, y[i] as u128, 0) as u64; } }
        }
        let r = Rc::new(t);
        if self.tables.len() > 60000 { self.tables.clear(); }
        self.tables.insert(e, r.clone());
        Some(r)
    }
    /// bit set of the values of the (single, at most 8-bit) variable that make boolean `e` true
    pub fn truth(&mut self, e: E) -> Option<[u64; 4]> {
        let t = self.table(e)?;
        let v = match self.sup[e as usize] { Sup::One(v) => v, _ => return None };
        let lim = 1usize << self.vars[v as usize].w;
        let mut r = [0u64; 4];
        for i in 0..lim { if t[i] & 1 == 1 { r[i >> 6] |= 1 << (i & 63); } }
        Some(r)
    }
    /// Replace a freshly made unary node by a constant or by an older equal node.
    fn fold(&mut self, e: E) -> E {
        let v = match self.sup[e as usize] { Sup::One(v) => v, _ => return e };
        let n = self.n[e as usize];
        if n.op == Op::Var || n.op == Op::Const { return e; }
        let t = match self.table(e) { Some(t) => t, None => return e };
        let lim = 1usize << self.vars[v as usize].w;
        let (mut h1, mut h2) = (0u64, 0u64);
        let mut same = true;
        for i in 0..lim {
            if t[i] != t[0] { same = false; }
            h1 = (h1.rotate_left(5) ^ t[i]).wrapping_mul(0x517cc1b727220a95);
            h2 = (h2 ^ t[i]).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        }
        if same { return self.c(n.w, t[0] as u128); }
        let l = self.canon.entry((v, n.w, h1, h2)).or_default();
        for (o, ot) in l.iter() { if ot[..lim] == t[..lim] { return *o; } }
        l.push((e, t));
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        let before = self.n.len();
        let e = self.intern(Node { op, w, a, b, c, k: 0 });
        if self.sup[e as usize] == Sup::None && w <= 128 && self.w(a) <= 128 {
            // all constant: should have been folded by callers, do it here
            if let Some(k) = self.eval_const(e) { return self.c(w, k); }
        }
        let _ = before;
        self.fold(e)
    }
    fn eval_const(&self, e: E) -> Option<u128> {
        let n = self.n[e as usize];
        let g = |x: E| self.cv(x);
        Some(match n.op {
            Op::Const => n.k,
            Op::Var => return None,
            Op::Extract => (g(n.a)? >> n.c) & mask(n.w),
            Op::ZExt => g(n.a)?,
            Op::SExt => (sext(g(n.a)?, self.w(n.a)) as u128) & mask(n.w),
            Op::Concat => (g(n.a)? << self.w(n.b)) | g(n.b)?,
            Op::Ite => Self::calc(Op::Ite, n.w, 1, g(n.a)?, g(n.b)?, g(n.c)?),
            op => Self::calc(op, n.w, self.w(n.a), g(n.a)?, g(n.b)?, 0),
        })
    }

    // ---- constructors ---------------------------------------------------------------------
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n[e as usize];
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if lo == 0 && w == n.w { return e; }
        match n.op {
            Op::Const => return self.c(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.c as u16 + lo, w),
            Op::Var => {}
            _ => {
                // (shared subterms would be visited again and again)
                let key = ((e as u64) << 32) | ((lo as u64) << 16) | w as u64;
                if let Some(r) = self.extracts.get(&key) { return *r; }
                let r = self.extract_of(e, lo, w);
                self.extracts.insert(key, r);
                return r;
            }
        }
        self.mk(Op::Extract, w, e, 0, lo as E)
    }
    fn extract_of(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n[e as usize];
        match n.op {
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - bw);
                let l = self.extract(n.b, lo, bw - lo);
                return self.concat(h, l);
            }
            Op::ZExt | Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw { return self.extract(n.a, lo, w); }
                if n.op == Op::ZExt {
                    if lo >= aw { return self.c(w, 0); }
                    let x = self.extract(n.a, lo, aw - lo);
                    return self.zext(x, w);
                }
                if lo < aw { let x = self.extract(n.a, lo, aw - lo); return self.sext(x, w); }
                let s = self.extract(n.a, aw - 1, 1);
                return self.sext(s, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Op::Ite => {
                if (self.cv(n.b).is_some() || self.cv(n.c).is_some()) || w <= 8 {
                    let b = self.extract(n.b, lo, w);
                    let c = self.extract(n.c, lo, w);
                    return self.ite(n.a, b, c);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, e, 0, lo as E)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if hw == 0 { return l; }
        if lw == 0 { return h; }
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { if w <= 128 { return self.c(w, (x << lw) | y); } }
        if w <= 128 && self.cv(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c as u16 == nl.c as u16 + nl.w {
            return self.extract(nh.a, nl.c as u16, w);
        }
        // concat(h, concat(x, y)) with h,x adjacent extracts
        if nl.op == Op::Concat {
            let x = self.n[nl.a as usize];
            if nh.op == Op::Extract && x.op == Op::Extract && nh.a == x.a && nh.c as u16 == x.c as u16 + x.w {
                let hh = self.extract(nh.a, x.c as u16, nh.w + x.w);
                return self.concat(hh, nl.b);
            }
            if let (Some(p), Some(q)) = (self.cv(h), self.cv(nl.a)) {
                let k = self.c(hw + x.w, (p << x.w) | q);
                return self.concat(k, nl.b);
            }
        }
        // right-associate
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt && w <= 128 {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        if let Op::Extract = nh.op {
            // extract(x, k..) above x's own low part: concat(extract(x,lw..), x') where x' == extract(x,0,lw) handled above;
            if self.w(nh.a) == lw + nh.w && nh.c as u16 == lw && self.n[l as usize].op == Op::Extract && nl.a == nh.a { return nh.a; }
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n[e as usize];
        if n.w == w { return e; }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => return self.c(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Op::ZExt, w, e, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n[e as usize];
        if n.w == w { return e; }
        match n.op {
            Op::Const => return self.c(w, sext(n.k, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Op::SExt, w, e, 0, 0)
    }
    pub fn trunc_or_zext(&mut self, e: E, w: u16) -> E {
        if self.w(e) >= w { self.extract(e, 0, w) } else { self.zext(e, w) }
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.c(w, mask(w));
        self.bin(Op::Xor, e, m)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        // zext hoisting keeps byte-like values narrow
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    /// low-to-high list of (piece, width); None piece is a zero constant
    fn parts(&mut self, e: E, out: &mut Vec<(Option<E>, u16)>) {
        let n = self.n[e as usize];
        match n.op {
            Op::Concat => { self.parts(n.b, out); self.parts(n.a, out); }
            Op::ZExt => { self.parts(n.a, out); let d = n.w - self.w(n.a); out.push((None, d)); }
            Op::Const if n.k == 0 => out.push((None, n.w)),
            Op::Const => {
                // split off zero runs at both ends
                let tz = n.k.trailing_zeros() as u16;
                let top = 128 - n.k.leading_zeros() as u16;
                if tz > 0 { out.push((None, tz)); }
                let x = self.c(top - tz, n.k >> tz);
                out.push((Some(x), top - tz));
                if top < n.w { out.push((None, n.w - top)); }
            }
            _ => out.push((Some(e), n.w)),
        }
    }
    /// a|b (== a+b) when at every bit position one of them is known zero
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize].op, self.n[b as usize].op);
        let ok = |o| matches!(o, Op::Concat | Op::ZExt | Op::Const);
        if !ok(na) && !ok(nb) { return None; }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.parts(a, &mut pa);
        self.parts(b, &mut pb);
        if pa.iter().all(|x| x.0.is_some()) && pb.iter().all(|x| x.0.is_some()) { return None; }
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u16, 0u16);
        let mut segs: Vec<(Option<E>, u16, u16)> = vec![];
        while i < pa.len() && j < pb.len() {
            let l = (pa[i].1 - oi).min(pb[j].1 - oj);
            match (pa[i].0, pb[j].0) {
                (Some(_), Some(_)) => return None,
                (Some(x), None) => segs.push((Some(x), oi, l)),
                (None, Some(y)) => segs.push((Some(y), oj, l)),
                (None, None) => segs.push((None, 0, l)),
            }
            oi += l; oj += l;
            if oi == pa[i].1 { i += 1; oi = 0; }
            if oj == pb[j].1 { j += 1; oj = 0; }
        }
        let mut acc: Option<E> = None;
        for (x, o, l) in segs {
            let p = match x { Some(x) => self.extract(x, o, l), None => self.c(l, 0) };
            acc = Some(match acc { None => p, Some(lo) => self.concat(p, lo) });
        }
        acc
    }
    fn low_ones(k: u128) -> Option<u16> { if k != 0 && (k & k.wrapping_add(1)) == 0 { Some((128 - k.leading_zeros()) as u16) } else { None } }

    /// When a and b are the same injective (or increasing) function of the same half of two different byte
    /// variables, such as hexadecimal digits of them: those halves.
    fn same_digit(&mut self, a: E, b: E, increasing: bool) -> Option<(E, E)> {
        let (va, vb) = match (self.sup[a as usize], self.sup[b as usize]) { (Sup::One(x), Sup::One(y)) if x != y => (x, y), _ => return None };
        if self.vars[va as usize].w != 8 || self.vars[vb as usize].w != 8 { return None; }
        if matches!(self.n[a as usize].op, Op::Var | Op::Extract) && matches!(self.n[b as usize].op, Op::Var | Op::Extract) { return None; }
        let (ta, tb) = (self.table(a)?, self.table(b)?);
        if ta != tb { return None; }
        for (lo, w) in [(4u16, 4u16), (0, 4), (0, 8)] {
            let key = |i: usize| (i >> lo) & ((1 << w) - 1);
            let mut val = [None; 256];
            if !(0..256).all(|i| match val[key(i)] { None => { val[key(i)] = Some(ta[i]); true } Some(v) => v == ta[i] }) { continue; }
            let l: Vec<u64> = val.iter().take(1 << w).map(|x| x.unwrap()).collect();
            let ok = if increasing { l.windows(2).all(|p| p[0] < p[1]) } else { let mut m = l.clone(); m.sort(); m.dedup(); m.len() == l.len() };
            if !ok { return None; }
            let (xa, xb) = (self.vars[va as usize].node, self.vars[vb as usize].node);
            return Some((self.extract(xa, lo, w), self.extract(xb, lo, w)));
        }
        None
    }
    /// If p and q say that the two halves of a pair of bytes are equal: that the bytes are.
    pub fn join_halves(&mut self, p: E, q: E) -> Option<E> {
        let (np, nq) = (self.n[p as usize], self.n[q as usize]);
        if np.op != Op::Eq || nq.op != Op::Eq { return None; }
        let half = |e: E| { let n = self.n[e as usize]; if n.op == Op::Extract && n.w == 4 && self.w(n.a) == 8 { Some((n.a, n.c)) } else { None } };
        let (a, b, c, d) = (half(np.a)?, half(np.b)?, half(nq.a)?, half(nq.b)?);
        if a.1 != b.1 || c.1 != d.1 || a.1 == c.1 { return None; }
        if (a.0 == c.0 && b.0 == d.0) || (a.0 == d.0 && b.0 == c.0) { Some(self.bin(Op::Eq, a.0, b.0)) } else { None }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let aw = self.w(a);
        debug_assert!(aw == self.w(b), "{:?} width {} vs {}", op, aw, self.w(b));
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => aw };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            // (a constant has 128 bits at most: a wider product is a pair of them)
            if aw > 128 && op == Op::Mul {
                let (x0, x1, y0, y1) = (x as u64 as u128, x >> 64, y as u64 as u128, y >> 64);
                let (m00, m01, m10, m11) = (x0 * y0, x0 * y1, x1 * y0, x1 * y1);
                let mid = (m00 >> 64) + (m01 as u64 as u128) + (m10 as u64 as u128);
                let lo = (mid << 64) | (m00 as u64 as u128);
                let hi = m11 + (m01 >> 64) + (m10 >> 64) + (mid >> 64);
                if hi == 0 { return self.c(w, lo); }
                let (h, l) = (self.c(aw - 128, hi), self.c(128, lo));
                return self.mk(Op::Concat, w, h, l, 0);
            }
            if aw <= 128 || !matches!(op, Op::Shl | Op::LShr | Op::AShr | Op::Sub | Op::Slt | Op::Sle | Op::SDiv | Op::SRem) { return self.c(w, Self::calc(op, w, aw, x, y, 0)); }
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let kb = self.cv(b);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = kb {
                    if na.op == Op::Add { if let Some(k2) = self.cv(na.b) { let kk = self.c(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, kk); } }
                }
                // no carry comes from the low part
                if let (Some(k), Op::Concat) = (kb, na.op) {
                    let lw = self.w(na.b);
                    if w <= 128 && k & mask(lw) == 0 { let kk = self.c(w - lw, k >> lw); let h = self.bin(Op::Add, na.a, kk); return self.concat(h, na.b); }
                }
                if let Some(e) = self.disjoint(a, b) { return e; }
            }
            Op::Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.c(w, 0); }
                if let Some(k) = kb { let m = self.c(w, k.wrapping_neg()); return self.bin(Op::Add, a, m); }
                // (x + k) - x
                if na.op == Op::Add && na.a == b { return na.b; }
                if na.op == Op::Add && na.b == b { return na.a; }
            }
            Op::Mul => match kb {
                Some(0) => return b,
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); }
                _ => {}
            },
            Op::UDiv => match kb {
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); }
                _ => {}
            },
            Op::URem => match kb {
                Some(1) => return self.c(w, 0),
                Some(k) if k.is_power_of_two() => { let s = self.c(w, k - 1); return self.bin(Op::And, a, s); }
                _ => {}
            },
            Op::And => {
                if a == b { return a; }
                match kb {
                    Some(0) => return b,
                    Some(k) if k == mask(w) => return a,
                    Some(k) => {
                        if let Some(n) = Self::low_ones(k) { let x = self.extract(a, 0, n); return self.zext(x, w); }
                        if na.op == Op::Concat {
                            let lw = self.w(na.b);
                            let (kh, kl) = (self.c(w - lw, k >> lw), self.c(lw, k));
                            let h = self.bin(Op::And, na.a, kh);
                            let l = self.bin(Op::And, na.b, kl);
                            return self.concat(h, l);
                        }
                        if na.op == Op::ZExt {
                            let lw = self.w(na.a);
                            let kl = self.c(lw, k);
                            let l = self.bin(Op::And, na.a, kl);
                            return self.zext(l, w);
                        }
                        // mask of contiguous ones in the middle: extract and pad
                        let tz = k.trailing_zeros() as u16;
                        if tz > 0 {
                            if let Some(n) = Self::low_ones(k >> tz) {
                                let x = self.extract(a, tz, n);
                                let z = self.c(tz, 0);
                                let y = self.concat(x, z);
                                return self.zext(y, w);
                            }
                        }
                        if na.op == Op::And { if let Some(k2) = self.cv(na.b) { let kk = self.c(w, k & k2); return self.bin(Op::And, na.a, kk); } }
                    }
                    None => {
                        if w == 1 {
                            // a & !a
                            if na.op == Op::Xor && na.a == b && self.cv(na.b) == Some(1) { return self.ff; }
                            if nb.op == Op::Xor && nb.a == a && self.cv(nb.b) == Some(1) { return self.ff; }
                            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                        }
                    }
                }
            }
            Op::Or => {
                if a == b { return a; }
                match kb {
                    Some(0) => return a,
                    Some(k) if k == mask(w) => return b,
                    _ => {}
                }
                if w == 1 {
                    if na.op == Op::Xor && na.a == b && self.cv(na.b) == Some(1) { return self.tt; }
                    if nb.op == Op::Xor && nb.a == a && self.cv(nb.b) == Some(1) { return self.tt; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                } else if let Some(e) = self.disjoint(a, b) { return e; }
                // byte-wise split of two aligned concats
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(Op::Or, na.a, nb.a);
                    let l = self.bin(Op::Or, na.b, nb.b);
                    return self.concat(h, l);
                }
            }
            Op::Xor => {
                if a == b { return self.c(w, 0); }
                match kb {
                    Some(0) => return a,
                    Some(k) => {
                        if na.op == Op::Xor { if let Some(k2) = self.cv(na.b) { let kk = self.c(w, k ^ k2); return self.bin(Op::Xor, na.a, kk); } }
                        if na.op == Op::Concat {
                            let lw = self.w(na.b);
                            let (kh, kl) = (self.c(w - lw, k >> lw), self.c(lw, k));
                            let h = self.bin(Op::Xor, na.a, kh);
                            let l = self.bin(Op::Xor, na.b, kl);
                            return self.concat(h, l);
                        }
                        if na.op == Op::ZExt {
                            let lw = self.w(na.a);
                            let (kh, kl) = (self.c(w - lw, k >> lw), self.c(lw, k));
                            let l = self.bin(Op::Xor, na.a, kl);
                            return self.concat(kh, l);
                        }
                        if w == 1 && na.op == Op::Ite { let x = self.not(na.b); let y = self.not(na.c); return self.ite(na.a, x, y); }
                        // !(x < y) is y <= x
                        if w == 1 {
                            match na.op {
                                Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                                Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                                Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                                Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                                _ => {}
                            }
                        }
                    }
                    None => {
                        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                            let h = self.bin(Op::Xor, na.a, nb.a);
                            let l = self.bin(Op::Xor, na.b, nb.b);
                            return self.concat(h, l);
                        }
                    }
                }
            }
            Op::Shl => match kb {
                Some(0) => return a,
                Some(k) if k >= w as u128 => return self.c(w, 0),
                Some(k) => { let x = self.extract(a, 0, w - k as u16); let z = self.c(k as u16, 0); return self.concat(x, z); }
                None => {}
            },
            Op::LShr => match kb {
                Some(0) => return a,
                Some(k) if k >= w as u128 => return self.c(w, 0),
                Some(k) => { let x = self.extract(a, k as u16, w - k as u16); return self.zext(x, w); }
                None => {}
            },
            Op::AShr => match kb {
                Some(0) => return a,
                Some(k) => { let k = (k.min(w as u128 - 1)) as u16; let x = self.extract(a, k, w - k); return self.sext(x, w); }
                None => {}
            },
            Op::Eq => {
                if a == b { return self.tt; }
                if aw == 1 {
                    if kb == Some(1) { return a; }
                    if kb == Some(0) { return self.not(a); }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let (kh, kl) = (self.c(aw - lw, k >> lw), self.c(lw, k));
                            let h = self.bin(Op::Eq, na.a, kh);
                            if h == self.ff { return h; }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::ZExt => {
                            let lw = self.w(na.a);
                            if k >> lw != 0 { return self.ff; }
                            let kl = self.c(lw, k);
                            return self.bin(Op::Eq, na.a, kl);
                        }
                        Op::SExt => {
                            let lw = self.w(na.a);
                            let kl = k & mask(lw);
                            if (sext(kl, lw) as u128) & mask(aw) != k { return self.ff; }
                            let kl = self.c(lw, kl);
                            return self.bin(Op::Eq, na.a, kl);
                        }
                        Op::Ite => {
                            let (kx, ky) = (self.cv(na.b), self.cv(na.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Add => if let Some(k2) = self.cv(na.b) { let kk = self.c(aw, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, kk); },
                        Op::Xor => if let Some(k2) = self.cv(na.b) { let kk = self.c(aw, k ^ k2); return self.bin(Op::Eq, na.a, kk); } else if k == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Or if k == 0 => { let x = self.bin(Op::Eq, na.a, b); let y = self.bin(Op::Eq, na.b, b); return self.bin(Op::And, x, y); }
                        _ => {}
                    }
                } else {
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        if h == self.ff { return h; }
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                    if let Some((x, y)) = self.same_digit(a, b, false) { return self.bin(Op::Eq, x, y); }
                }
            }
            Op::Ult => {
                if a == b { return self.ff; }
                if kb == Some(0) { return self.ff; }
                if kb == Some(1) { let z = self.c(aw, 0); return self.bin(Op::Eq, a, z); }
                if self.cv(a) == Some(0) { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                if self.cv(a) == Some(mask(aw)) { return self.ff; }
                if let Some(k) = kb {
                    if na.op == Op::ZExt { let lw = self.w(na.a); if k > mask(lw) { return self.tt; } let kl = self.c(lw, k); return self.bin(Op::Ult, na.a, kl); }
                }
                if let Some(k) = self.cv(a) {
                    if nb.op == Op::ZExt { let lw = self.w(nb.a); if k >= mask(lw) { return self.ff; } let kl = self.c(lw, k); return self.bin(Op::Ult, kl, nb.a); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
                if let Some((x, y)) = self.same_digit(a, b, true) { return self.bin(Op::Ult, x, y); }
            }
            Op::Ule => {
                if a == b { return self.tt; }
                if kb == Some(mask(aw)) { return self.tt; }
                if kb == Some(0) { return self.bin(Op::Eq, a, b); }
                if self.cv(a) == Some(0) { return self.tt; }
                if let Some(k) = kb {
                    if na.op == Op::ZExt { let lw = self.w(na.a); if k >= mask(lw) { return self.tt; } let kl = self.c(lw, k); return self.bin(Op::Ule, na.a, kl); }
                }
                if let Some(k) = self.cv(a) {
                    if nb.op == Op::ZExt { let lw = self.w(nb.a); if k > mask(lw) { return self.ff; } let kl = self.c(lw, k); return self.bin(Op::Ule, kl, nb.a); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.b(op == Op::Sle); }
                // both known non-negative: unsigned compare
                if (na.op == Op::ZExt || self.cv(a).map_or(false, |k| k >> (aw - 1) == 0)) && (nb.op == Op::ZExt || kb.map_or(false, |k| k >> (aw - 1) == 0)) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // zext(x) < negative
                if na.op == Op::ZExt { if let Some(k) = kb { if k >> (aw - 1) == 1 { return self.ff; } } }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0)
    }

    pub fn eval(&self, e: E, asg: &FxMap<u32, u64>, memo: &mut FxMap<E, u128>) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *asg.get(&n.c).unwrap_or(&0) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let v = match n.op {
            Op::Extract => (self.eval(n.a, asg, memo) >> n.c) & mask(n.w),
            Op::ZExt => self.eval(n.a, asg, memo),
            Op::SExt => (sext(self.eval(n.a, asg, memo), self.w(n.a)) as u128) & mask(n.w),
            Op::Concat => (self.eval(n.a, asg, memo) << self.w(n.b)) | self.eval(n.b, asg, memo),
            Op::Ite => if self.eval(n.a, asg, memo) & 1 == 1 { self.eval(n.b, asg, memo) } else { self.eval(n.c, asg, memo) },
            op => { let x = self.eval(n.a, asg, memo); let y = self.eval(n.b, asg, memo); Self::calc(op, n.w, self.w(n.a), x, y, 0) }
        };
        memo.insert(e, v);
        v
    }
}
