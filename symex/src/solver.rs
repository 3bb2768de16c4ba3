//! Path conditions and satisfiability.  Unary constraints over 8-bit variables are decided exactly on
//! value sets, and each distinct verdict "unsatisfiable" found so is put to Z3 as well;
//! everything else goes to Z3 over the independent slice of the path condition.
use crate::expr::*;
use crate::z3::*;
use std::rc::Rc;
use std::time::Instant;

pub type Model = FxMap<u32, u64>;
#[derive(Clone)]
pub struct Pc {
    pub rel: Rc<Vec<E>>,
    pub dom: Rc<FxMap<u32, [u64; 4]>>,
    pub relvars: Rc<FxMap<u32, ()>>,
    pub model: Rc<Model>,
}
impl Pc { pub fn new() -> Pc { Pc { rel: Default::default(), dom: Default::default(), relvars: Default::default(), model: Default::default() } } }

pub enum R { Sat(Rc<Model>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub z3: u64, pub z3_sat: u64, pub z3_unsat: u64, pub unary: u64, pub cached: u64, pub z3_us: u64, pub max_us: u64, pub unknown: u64 }

pub struct Solver {
    ctx: Ctx,
    solver: crate::z3::Solver,
    asts: FxMap<E, Ast>,
    cache: FxMap<Vec<u64>, Option<Rc<Vec<(u32, u64)>>>>,
    confirmed: FxMap<(E, [u64; 4]), ()>,
    pub st: Stats,
}

fn dom_min(d: &[u64; 4]) -> Option<u64> { for i in 0..4 { if d[i] != 0 { return Some(i as u64 * 64 + d[i].trailing_zeros() as u64); } } None }
fn and4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn full(w: u16) -> [u64; 4] { let mut d = [0u64; 4]; for i in 0..(1usize << w) { d[i >> 6] |= 1 << (i & 63); } d }

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let ctx = new_ctx();
            let solver = Z3_mk_solver_for_logic(ctx, sym(ctx, "QF_BV"));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, sym(ctx, "rlimit"), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            Solver { ctx, solver, asts: Default::default(), cache: Default::default(), confirmed: Default::default(), st: Default::default() }
        }
    }
    fn num(&self, w: u16, k: u128) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as u32);
            if k <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, k as u64, s) } else {
                let c = std::ffi::CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), s)
            }
        }
    }
    fn as_bv(&self, a: &Arena, e: E, x: Ast) -> Ast { if a.w(e) == 1 { unsafe { Z3_mk_ite(self.ctx, x, self.num(1, 1), self.num(1, 0)) } } else { x } }
    fn ast(&mut self, a: &Arena, e: E) -> Ast {
        if let Some(&x) = self.asts.get(&e) { return x; }
        // explicit stack to survive deep expressions
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.asts.contains_key(&x) { continue; }
            let n = a.n[x as usize];
            if !done {
                st.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Extract | Op::ZExt | Op::SExt => st.push((n.a, false)),
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let c = self.ctx;
            let g = |s: &Self, y: E| s.asts[&y];
            let r = unsafe {
                match n.op {
                    Op::Const => if n.w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.w, n.k) },
                    Op::Var => {
                        let so = Z3_mk_bv_sort(c, n.w as u32);
                        let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.c as i32), so);
                        if n.w == 1 { Z3_mk_eq(c, v, self.num(1, 1)) } else { v }
                    }
                    Op::Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                    Op::Extract => {
                        let x = Z3_mk_extract(c, n.c + n.w as u32 - 1, n.c, g(self, n.a));
                        if n.w == 1 { Z3_mk_eq(c, x, self.num(1, 1)) } else { x }
                    }
                    Op::ZExt => { let k = g(self, n.a); let k = self.as_bv(a, n.a, k); Z3_mk_zero_ext(c, (n.w - a.w(n.a)) as u32, k) }
                    Op::SExt => { let k = g(self, n.a); let k = self.as_bv(a, n.a, k); Z3_mk_sign_ext(c, (n.w - a.w(n.a)) as u32, k) }
                    Op::Concat => { let x = g(self, n.a); let y = g(self, n.b); let x = self.as_bv(a, n.a, x); let y = self.as_bv(a, n.b, y); Z3_mk_concat(c, x, y) }
                    op => {
                        let (x, y) = (g(self, n.a), g(self, n.b));
                        let b1 = a.w(n.a) == 1;
                        match op {
                            Op::And => if b1 { let v = [x, y]; Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_bvand(c, x, y) },
                            Op::Or => if b1 { let v = [x, y]; Z3_mk_or(c, 2, v.as_ptr()) } else { Z3_mk_bvor(c, x, y) },
                            Op::Xor => if b1 { if a.cv(n.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) } } else { Z3_mk_bvxor(c, x, y) },
                            Op::Eq => Z3_mk_eq(c, x, y),
                            _ => {
                                let x = self.as_bv(a, n.a, x);
                                let y = self.as_bv(a, n.b, y);
                                let r = match op {
                                    Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                                    Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                                    Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                                    Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
                                    _ => unreachable!(),
                                };
                                if n.w == 1 && !matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) { Z3_mk_eq(c, r, self.num(1, 1)) } else { r }
                            }
                        }
                    }
                }
            };
            self.asts.insert(x, r);
        }
        self.asts[&e]
    }
    fn dom_ast(&mut self, a: &mut Arena, v: u32, d: &[u64; 4]) -> Option<E> {
        let w = a.vars[v as usize].w;
        let ve = a.vars[v as usize].node;
        if w > 8 || *d == full(w) { return None; }
        let lim = 1u64 << w;
        let mut acc = a.ff;
        let mut i = 0u64;
        let bit = |i: u64| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        // Build with interval tests; wrap in raw nodes would be folded by the unary canonicaliser, which is fine
        while i < lim {
            if !bit(i) { i += 1; continue; }
            let lo = i;
            while i < lim && bit(i) { i += 1; }
            let hi = i - 1;
            let (l, h) = (a.c(w, lo as u128), a.c(w, hi as u128));
            let t = if lo == hi { a.bin(Op::Eq, ve, l) } else { let x = a.bin(Op::Ule, l, ve); let y = a.bin(Op::Ule, ve, h); a.bin(Op::And, x, y) };
            acc = a.bin(Op::Or, acc, t);
        }
        Some(acc)
    }
    /// Have Z3 confirm that no value of the set satisfies the condition.
    fn confirm(&mut self, a: &mut Arena, v: u32, cond: E, d: &[u64; 4]) {
        if self.confirmed.insert((cond, *d), ()).is_some() { return; }
        let mut cons = vec![cond];
        if let Some(e) = self.dom_ast(a, v, d) { cons.push(e); }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &e in &cons { let x = self.ast(a, e); Z3_solver_assert(self.ctx, self.solver, x); }
            Z3_solver_check(self.ctx, self.solver)
        };
        self.st.z3 += 1;
        self.st.z3_unsat += 1;
        self.st.z3_us += t0.elapsed().as_micros() as u64;
        if r != -1 { eprintln!("symex: internal error: Z3 does not confirm that a query is unsatisfiable"); std::process::exit(3); }
    }
    /// Is pc /\ cond satisfiable?
    pub fn check(&mut self, a: &mut Arena, pc: &Pc, cond: E) -> R {
        self.st.queries += 1;
        match a.cv(cond) { Some(1) => return R::Sat(pc.model.clone()), Some(_) => return R::Unsat, None => {} }
        if let Sup::One(v) = a.sup[cond as usize] {
            if let Some(t) = a.truth(cond) {
                let w = a.vars[v as usize].w;
                let d = pc.dom.get(&v).copied().unwrap_or_else(|| full(w));
                let x = and4(&d, &t);
                match dom_min(&x) {
                    None => { self.st.unary += 1; self.confirm(a, v, cond, &d); return R::Unsat; }
                    Some(m) => if !pc.relvars.contains_key(&v) {
                        self.st.unary += 1;
                        let cur = pc.model.get(&v).copied().unwrap_or(0);
                        if x[(cur >> 6) as usize] >> (cur & 63) & 1 == 1 { return R::Sat(pc.model.clone()); }
                        let mut md = (*pc.model).clone();
                        md.insert(v, m);
                        return R::Sat(Rc::new(md));
                    }
                }
            }
        }
        let mut memo = Default::default();
        if a.eval(cond, &pc.model, &mut memo) == 1 { self.st.cached += 1; return R::Sat(pc.model.clone()); }
        // slice
        let mut vars: FxMap<u32, ()> = Default::default();
        for &v in a.varset(cond).iter() { vars.insert(v, ()); }
        let mut used = vec![false; pc.rel.len()];
        let mut cons = vec![cond];
        loop {
            let mut ch = false;
            for (i, &r) in pc.rel.iter().enumerate() {
                if used[i] { continue; }
                let vs = a.varset(r);
                if vs.iter().any(|v| vars.contains_key(v)) {
                    used[i] = true;
                    ch = true;
                    for &v in vs.iter() { vars.insert(v, ()); }
                    cons.push(r);
                }
            }
            if !ch { break; }
        }
        let mut vl: Vec<u32> = vars.keys().copied().collect();
        vl.sort();
        for &v in &vl { if let Some(d) = pc.dom.get(&v) { let d = *d; if let Some(e) = self.dom_ast(a, v, &d) { cons.push(e); } } }
        let mut key: Vec<u64> = cons.iter().map(|&e| e as u64).collect();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return match r { None => R::Unsat, Some(m) => { let mut md = (*pc.model).clone(); for (v, k) in m.iter() { md.insert(*v, *k); } R::Sat(Rc::new(md)) } };
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &e in &cons { let x = self.ast(a, e); Z3_solver_assert(self.ctx, self.solver, x); }
            Z3_solver_check(self.ctx, self.solver)
        };
        self.st.z3 += 1;
        let out = match r {
            -1 => { self.st.z3_unsat += 1; self.cache.insert(key, None); R::Unsat }
            1 => unsafe {
                self.st.z3_sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut upd = vec![];
                for &v in &vl {
                    let w = a.vars[v as usize].w;
                    let so = Z3_mk_bv_sort(self.ctx, w as u32);
                    let x = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as i32), so);
                    let mut o = std::ptr::null_mut();
                    let mut k = 0u64;
                    if Z3_model_eval(self.ctx, m, x, true, &mut o) { Z3_get_numeral_uint64(self.ctx, o, &mut k); }
                    upd.push((v, k));
                }
                Z3_model_dec_ref(self.ctx, m);
                let mut md = (*pc.model).clone();
                for (v, k) in &upd { md.insert(*v, *k); }
                let mut memo = Default::default();
                for &e in &cons { if a.eval(e, &md, &mut memo) != 1 { eprintln!("symex: internal error: model does not satisfy the query"); std::process::exit(3); } }
                self.cache.insert(key, Some(Rc::new(upd)));
                R::Sat(Rc::new(md))
            },
            _ => { self.st.unknown += 1; R::Unknown }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.z3_us += us;
        self.st.max_us = self.st.max_us.max(us);
        out
    }
    /// add a constraint known to be satisfiable with `model`
    pub fn add(&mut self, a: &mut Arena, pc: &mut Pc, cond: E, model: Rc<Model>) {
        if a.cv(cond) == Some(1) { return; }
        pc.model = model;
        // split conjunctions
        let n = a.n[cond as usize];
        if n.op == Op::And { let m = pc.model.clone(); self.add(a, pc, n.a, m.clone()); self.add(a, pc, n.b, m); return; }
        if let Sup::One(v) = a.sup[cond as usize] {
            if let Some(t) = a.truth(cond) {
                let w = a.vars[v as usize].w;
                let d = pc.dom.get(&v).copied().unwrap_or_else(|| full(w));
                let x = and4(&d, &t);
                Rc::make_mut(&mut pc.dom).insert(v, x);
                return;
            }
        }
        if pc.rel.contains(&cond) { return; }
        for &v in a.varset(cond).iter() { if !pc.relvars.contains_key(&v) { Rc::make_mut(&mut pc.relvars).insert(v, ()); } }
        Rc::make_mut(&mut pc.rel).push(cond);
    }
    /// value of the domain if the variable is pinned
    pub fn pinned(a: &Arena, pc: &Pc, e: E) -> Option<u64> {
        if let Op::Var = a.n[e as usize].op {
            let d = pc.dom.get(&a.n[e as usize].c)?;
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 { return dom_min(d); }
        }
        None
    }
}
