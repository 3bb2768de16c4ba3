//! LLVM textual IR: lazy module index, linker and function parser.
use crate::expr::{mask, E};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Float(u16),
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Opaque,
    Func,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
}
impl V {
    #[inline]
    pub fn c(&self) -> Option<u64> { if let V::C(x) = self { Some(*x) } else { None } }
}

#[derive(Clone, Debug)]
pub enum O { R(u32), C(u64), V(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, PtrInt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Reg(O), Asm(String), Intr(Rc<str>) }

#[derive(Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, O)>,
    pub byval: Vec<Option<TyId>>,
    pub normal: Option<u32>,
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, ty: TyId, w: u16, a: O, b: O, d: u32 },
    ICmp { p: Pred, ty: TyId, w: u16, a: O, b: O, d: u32 },
    FCmp { p: String, ty: TyId, a: O, b: O, d: u32 },
    FNeg { ty: TyId, a: O, d: u32 },
    Cast { c: Cast, from: TyId, to: TyId, a: O, d: u32 },
    Alloca { size: u64, n: O, d: u32 },
    Load { ty: TyId, p: O, d: u32 },
    Store { ty: TyId, v: O, p: O },
    Gep { base: O, off: u64, terms: Vec<(O, u16, u64)>, d: u32 },
    Select { cv: bool, ty: TyId, c: O, a: O, b: O, d: u32 },
    ExtractValue { a: O, idx: Vec<u32>, d: u32 },
    InsertValue { ty: TyId, a: O, v: O, idx: Vec<u32>, d: u32 },
    ExtractElement { a: O, i: O, d: u32 },
    InsertElement { ty: TyId, a: O, v: O, i: O, d: u32 },
    Shuffle { ty: TyId, a: O, b: O, mask: Vec<i32>, d: u32 },
    Freeze { a: O, d: u32 },
    Call(Box<Call>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch { w: u16, v: O, def: u32, cases: Vec<(u64, u32)> },
    Ret(TyId, Option<O>),
    Unreachable,
    Rmw { op: String, ty: TyId, p: O, v: O, d: u32 },
    CmpXchg { ty: TyId, p: O, a: O, b: O, d: u32 },
    Nop,
    LandingPad { d: u32 },
}

pub struct Block { pub phis: Vec<(u32, TyId, Vec<(u32, O)>)>, pub ins: Vec<I> }
pub struct Func { pub id: u32, pub name: Rc<str>, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub ret: TyId, pub vararg: bool, pub scut: bool }

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Def { Func(usize), Global(usize), Alias(usize), }
struct LocalSym { def: Def, internal: bool }
pub struct Module { pub path: String, text: &'static [u8], syms: HashMap<&'static [u8], LocalSym>, types: HashMap<&'static [u8], usize>, weak_decl: HashMap<&'static [u8], ()>, tcache: HashMap<&'static [u8], TyId> }

#[derive(Clone)]
pub enum FnBody { Defined(usize, usize), External }
pub struct FnInfo { pub name: Rc<str>, pub body: FnBody }
pub struct GlobInfo { pub name: Rc<str>, pub module: usize, pub pos: usize, pub external: bool, pub tls: bool }

pub const FN_BASE: u32 = 0x4000_0000;
pub const HEAP_BASE: u32 = 0x0100_0000;

pub struct Program {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    tysize: Vec<(u64, u64)>,
    tyoffs: Vec<Rc<Vec<u64>>>,
    pub mods: Vec<Module>,
    gsyms: HashMap<&'static [u8], usize>,
    pub fns: Vec<FnInfo>,
    fnids: HashMap<(usize, &'static [u8]), u32>,
    pub globs: Vec<GlobInfo>,
    globids: HashMap<(usize, &'static [u8]), u32>,
    pub parsed: HashMap<u32, Rc<Func>>,
    pub ext_ok: Box<dyn Fn(&str) -> bool>,
    pub ty_void: TyId, pub ty_ptr: TyId, pub ty_i8: TyId, pub ty_i32: TyId, pub ty_i64: TyId, pub ty_i1: TyId,
}

const EXTMOD: usize = usize::MAX;

fn is_ident(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

/// name after '@' or '%' : returns (name bytes, next pos)
fn sym_at(t: &'static [u8], mut p: usize) -> (&'static [u8], usize) {
    if t[p] == b'"' {
        let s = p + 1;
        p = s;
        while t[p] != b'"' { p += 1; }
        (&t[s..p], p + 1)
    } else {
        let s = p;
        while is_ident(t[p]) { p += 1; }
        (&t[s..p], p)
    }
}

impl Program {
    pub fn new(ext_ok: Box<dyn Fn(&str) -> bool>) -> Program {
        let mut p = Program {
            tys: vec![], tymap: HashMap::new(), tysize: vec![], tyoffs: vec![], mods: vec![], gsyms: HashMap::new(), fns: vec![],
            fnids: HashMap::new(), globs: vec![], globids: HashMap::new(), parsed: HashMap::new(), ext_ok,
            ty_void: 0, ty_ptr: 0, ty_i8: 0, ty_i32: 0, ty_i64: 0, ty_i1: 0,
        };
        p.ty_void = p.ty(Ty::Void);
        p.ty_ptr = p.ty(Ty::Ptr);
        p.ty_i1 = p.ty(Ty::Int(1));
        p.ty_i8 = p.ty(Ty::Int(8));
        p.ty_i32 = p.ty(Ty::Int(32));
        p.ty_i64 = p.ty(Ty::Int(64));
        // id 0 is the null object, id 0 of globs unused
        p.globs.push(GlobInfo { name: Rc::from("null"), module: EXTMOD, pos: 0, external: true, tls: false });
        p
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let mut offs = vec![];
        let (sz, al) = match &t {
            Ty::Void | Ty::Opaque | Ty::Func => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Float(w) => if *w == 80 { (16, 16) } else { (*w as u64 / 8, *w as u64 / 8) },
            Ty::Ptr => (8, 8),
            Ty::Arr(n, e) => { let (s, a) = self.tysize[*e as usize]; (s * n, a) }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] { Ty::Int(w) => w as u64, Ty::Float(w) => w as u64, _ => 64 };
                let s = ((bits * *n as u64) + 7) / 8;
                let a = s.next_power_of_two();
                (a, a)
            }
            Ty::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for x in f {
                    let (s, a) = self.tysize[*x as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tymap.insert(t, id);
        self.tysize.push((sz, al));
        self.tyoffs.push(Rc::new(offs));
        id
    }
    pub fn size(&self, t: TyId) -> u64 { self.tysize[t as usize].0 }
    pub fn offs(&self, t: TyId) -> Rc<Vec<u64>> { self.tyoffs[t as usize].clone() }
    pub fn width(&self, t: TyId) -> u16 {
        match &self.tys[t as usize] { Ty::Int(w) => *w, Ty::Float(w) => *w, Ty::Ptr => 64, _ => 0 }
    }

    pub fn load(&mut self, path: &str) {
        let data = std::fs::read(path).unwrap_or_else(|e| { eprintln!("symex: cannot read {}: {}", path, e); std::process::exit(3) });
        let mut data = data;
        data.push(b'\n');
        let t: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mi = self.mods.len();
        let mut m = Module { path: path.to_string(), text: t, syms: HashMap::new(), types: HashMap::new(), weak_decl: HashMap::new(), tcache: HashMap::new() };
        let mut p = 0;
        while p < t.len() {
            let eol = p + t[p..].iter().position(|&c| c == b'\n').unwrap();
            match t[p] {
                b'@' => {
                    let (nm, q) = sym_at(t, p + 1);
                    let line = &t[q..eol.min(q + 160)];
                    let s = std::str::from_utf8(&line[..line.len().min(120)]).unwrap_or("");
                    // tokens between '=' and global/constant/alias
                    let mut internal = false;
                    let mut ext = false;
                    let mut alias = false;
                    for w in s.split_whitespace() {
                        match w {
                            "internal" | "private" => internal = true,
                            "external" | "extern_weak" => ext = true,
                            "global" | "constant" => break,
                            "alias" | "ifunc" => { alias = true; break; }
                            _ => {}
                        }
                    }
                    if s.contains("extern_weak") { m.weak_decl.insert(nm, ()); }
                    if !ext {
                        let def = if alias { Def::Alias(q) } else { Def::Global(q) };
                        m.syms.insert(nm, LocalSym { def, internal });
                        if !internal { self.gsyms.entry(nm).or_insert(mi); }
                    }
                }
                b'd' if t[p..].starts_with(b"define ") => {
                    let at = p + t[p..eol].iter().position(|&c| c == b'@').unwrap();
                    let (nm, _) = sym_at(t, at + 1);
                    let head = std::str::from_utf8(&t[p..at]).unwrap();
                    let internal = head.contains(" internal ") || head.contains(" private ");
                    if head.contains(" available_externally ") {
                        // only a copy for inlining; keep if nothing else defines it
                    }
                    m.syms.insert(nm, LocalSym { def: Def::Func(p), internal });
                    if !internal { self.gsyms.entry(nm).or_insert(mi); }
                    // skip the body
                    p = eol + 1;
                    loop {
                        let e = p + t[p..].iter().position(|&c| c == b'\n').unwrap();
                        if t[p] == b'}' { p = e + 1; break; }
                        p = e + 1;
                    }
                    continue;
                }
                b'd' if t[p..].starts_with(b"declare extern_weak") => {
                    let at = p + t[p..eol].iter().position(|&c| c == b'@').unwrap();
                    let (nm, _) = sym_at(t, at + 1);
                    m.weak_decl.insert(nm, ());
                }
                b'%' => {
                    let (nm, q) = sym_at(t, p + 1);
                    m.types.insert(nm, q);
                }
                _ => {}
            }
            p = eol + 1;
        }
        self.mods.push(m);
    }

    fn resolve(&self, m: usize, nm: &'static [u8]) -> Option<(usize, Def)> {
        if m != EXTMOD {
            if let Some(s) = self.mods[m].syms.get(nm) {
                if s.internal { return Some((m, s.def.clone())); }
            }
        }
        let g = *self.gsyms.get(nm)?;
        Some((g, self.mods[g].syms[nm].def.clone()))
    }
    fn leak(s: &str) -> &'static [u8] { Box::leak(s.as_bytes().to_vec().into_boxed_slice()) }
    pub fn lookup_fn(&mut self, name: &str) -> Option<u32> {
        let nm = Self::leak(name);
        match self.resolve(EXTMOD, nm) { Some((m, Def::Func(p))) => Some(self.fnid(m, nm, Some(p))), _ => None }
    }
    fn fnid(&mut self, m: usize, nm: &'static [u8], pos: Option<usize>) -> u32 {
        let key = if pos.is_some() { (m, nm) } else { (EXTMOD, nm) };
        if let Some(&i) = self.fnids.get(&key) { return i; }
        let id = self.fns.len() as u32;
        let body = match pos { Some(p) => FnBody::Defined(m, p), None => FnBody::External };
        self.fns.push(FnInfo { name: Rc::from(std::str::from_utf8(nm).unwrap()), body });
        self.fnids.insert(key, id);
        id
    }
    pub fn ext_fn(&mut self, name: &str) -> u32 { let nm = Self::leak(name); self.fnid(EXTMOD, nm, None) }
    /// Address of symbol `nm` referenced from module `m`; `isfn` when used as callee
    pub fn addr(&mut self, m: usize, nm: &'static [u8], callee: bool) -> u64 {
        match self.resolve(m, nm) {
            Some((dm, Def::Func(p))) => ((FN_BASE + self.fnid(dm, nm, Some(p))) as u64) << 32,
            Some((dm, Def::Global(p))) => (self.globid(dm, nm, p, false) as u64) << 32,
            Some((dm, Def::Alias(p))) => {
                let mut c = Cur { t: self.mods[dm].text, p, m: dm };
                // = [linkage] alias <ty>, ptr @target
                loop {
                    let w = c.word();
                    if w == b"alias" { break; }
                    if w.is_empty() { c.p += 1; }
                }
                c.ty(self);
                c.expect(b',');
                let t = c.ty(self);
                match c.value(self, t, &mut None) { O::C(a) => a, _ => panic!("alias") }
            }
            None => {
                let s = std::str::from_utf8(nm).unwrap().to_string();
                if !callee && m != EXTMOD && self.mods[m].weak_decl.contains_key(nm) && !(self.ext_ok)(&s) { return 0; }
                if !callee && !(self.ext_ok)(&s) && is_ext_global(&s) { return (self.globid(EXTMOD, nm, 0, true) as u64) << 32; }
                ((FN_BASE + self.fnid(EXTMOD, nm, None)) as u64) << 32
            }
        }
    }
    /// Address of the global whose name ends like this
    pub fn global_ending(&mut self, end: &str) -> Option<u64> {
        for m in 0..self.mods.len() {
            let hit = self.mods[m].syms.iter().find(|(n, s)| n.ends_with(end.as_bytes()) && matches!(s.def, Def::Global(_))).map(|(n, _)| *n);
            if let Some(n) = hit { return Some(self.addr(m, n, false)); }
        }
        None
    }
    pub fn ext_glob(&mut self, name: &str) -> u64 { let nm = Self::leak(name); (self.globid(EXTMOD, nm, 0, true) as u64) << 32 }
    fn globid(&mut self, m: usize, nm: &'static [u8], pos: usize, external: bool) -> u32 {
        if let Some(&i) = self.globids.get(&(m, nm)) { return i; }
        let id = self.globs.len() as u32;
        self.globs.push(GlobInfo { name: Rc::from(std::str::from_utf8(nm).unwrap()), module: m, pos, external, tls: false });
        self.globids.insert((m, nm), id);
        id
    }
    /// Type and initial value of a defined global
    pub fn global_init(&mut self, id: u32) -> (TyId, Option<O>) {
        let g = &self.globs[id as usize];
        let (m, pos) = (g.module, g.pos);
        let mut c = Cur { t: self.mods[m].text, p: pos, m };
        c.expect(b'=');
        loop {
            let w = c.word();
            if w == b"global" || w == b"constant" { break; }
            if w.is_empty() { c.skip_paren_or_char(); }
        }
        let ty = c.ty(self);
        c.ws();
        if c.t[c.p] == b',' || c.t[c.p] == b'\n' { return (ty, None); }
        let v = c.value(self, ty, &mut None);
        (ty, Some(v))
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.get(&id) { return f.clone(); }
        let (m, pos) = match self.fns[id as usize].body { FnBody::Defined(m, p) => (m, p), _ => panic!("external {}", self.fns[id as usize].name) };
        let name = self.fns[id as usize].name.clone();
        let c = Cur { t: self.mods[m].text, p: pos, m };
        let f = Rc::new(parse_fn(self, c, id, name));
        self.parsed.insert(id, f.clone());
        f
    }
}

fn is_ext_global(s: &str) -> bool { matches!(s, "environ" | "stdin" | "stdout" | "stderr" | "__dso_handle" | "optarg" | "optind" | "__environ" | "program_invocation_short_name" | "program_invocation_name") }

// ---------------------------------------------------------------------------------------------
struct Cur { t: &'static [u8], p: usize, m: usize }
struct Regs { map: HashMap<&'static [u8], u32>, n: u32 }
impl Regs {
    fn get(&mut self, n: &'static [u8]) -> u32 {
        if let Some(&i) = self.map.get(n) { return i; }
        let i = self.n;
        self.n += 1;
        self.map.insert(n, i);
        i
    }
}

impl Cur {
    fn err(&self, msg: &str) -> ! {
        let s = self.p.saturating_sub(80);
        let e = (self.p + 120).min(self.t.len());
        let ls = self.t[..self.p].iter().rposition(|&c| c == b'\n').map_or(0, |x| x + 1).max(s);
        eprintln!("symex: IR parse error: {} at: {} >>> {}", msg, String::from_utf8_lossy(&self.t[ls..self.p]), String::from_utf8_lossy(&self.t[self.p..e]));
        std::process::exit(3)
    }
    fn ws(&mut self) { while self.t[self.p] == b' ' || self.t[self.p] == b'\t' { self.p += 1; } }
    fn wsnl(&mut self) {
        loop {
            match self.t[self.p] {
                b' ' | b'\t' | b'\n' => self.p += 1,
                b';' => { while self.t[self.p] != b'\n' { self.p += 1; } }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); self.t[self.p] }
    fn expect(&mut self, c: u8) { if self.peek() != c { self.err(&format!("expected '{}'", c as char)); } self.p += 1; }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let s = self.p;
        while is_ident(self.t[self.p]) { self.p += 1; }
        &self.t[s..self.p]
    }
    fn peek_word(&mut self) -> &'static [u8] { let p = { self.ws(); self.p }; let w = self.word(); self.p = p; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w.as_bytes() { self.word(); true } else { false } }
    fn skip_paren(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.t[self.p] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.p += 1; while self.t[self.p] != b'"' { self.p += 1; } } _ => {} }
            self.p += 1;
        }
    }
    fn skip_paren_or_char(&mut self) { if self.peek() == b'(' { self.skip_paren() } else { self.p += 1 } }
    fn num(&mut self) -> u64 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| self.err("number"))
    }
    fn is_type_start(w: &[u8], c: u8) -> bool {
        match c { b'[' | b'{' | b'<' | b'%' => return true, _ => {} }
        if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) { return true; }
        matches!(w, b"void" | b"ptr" | b"float" | b"double" | b"half" | b"bfloat" | b"x86_fp80" | b"fp128" | b"metadata" | b"token" | b"label")
    }
    fn ty(&mut self, pr: &mut Program) -> TyId {
        let c = self.peek();
        match c {
            b'[' => {
                self.p += 1;
                let n = self.num();
                if !self.eat_word("x") { self.err("x"); }
                let e = self.ty(pr);
                self.expect(b']');
                pr.ty(Ty::Arr(n, e))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let f = self.fields(pr);
                    self.expect(b'>');
                    return pr.ty(Ty::Struct(f, true));
                }
                let n = self.num();
                if !self.eat_word("x") { self.err("x"); }
                let e = self.ty(pr);
                self.expect(b'>');
                pr.ty(Ty::Vec(n as u32, e))
            }
            b'{' => { let f = self.fields(pr); pr.ty(Ty::Struct(f, false)) }
            b'%' => {
                let (nm, q) = sym_at(self.t, self.p + 1);
                self.p = q;
                if let Some(&t) = pr.mods[self.m].tcache.get(nm) { return t; }
                let pos = match pr.mods[self.m].types.get(nm) { Some(p) => *p, None => self.err("unknown type") };
                let mut c2 = Cur { t: self.t, p: pos, m: self.m };
                c2.expect(b'=');
                if !c2.eat_word("type") { c2.err("type"); }
                let t = if c2.eat_word("opaque") { pr.ty(Ty::Opaque) } else { c2.ty(pr) };
                pr.mods[self.m].tcache.insert(nm, t);
                t
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => pr.ty_void,
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" { self.word(); self.skip_paren(); }
                        pr.ty_ptr
                    }
                    b"half" | b"bfloat" => pr.ty(Ty::Float(16)),
                    b"float" => pr.ty(Ty::Float(32)),
                    b"double" => pr.ty(Ty::Float(64)),
                    b"x86_fp80" => pr.ty(Ty::Float(80)),
                    b"fp128" => pr.ty(Ty::Float(128)),
                    b"metadata" | b"token" | b"label" => pr.ty(Ty::Opaque),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n: u16 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| self.err("type"));
                        pr.ty(Ty::Int(n))
                    }
                    _ => self.err("type"),
                }
            }
        }
    }
    fn fields(&mut self, pr: &mut Program) -> Vec<TyId> {
        self.expect(b'{');
        let mut f = vec![];
        if self.eat(b'}') { return f; }
        loop {
            f.push(self.ty(pr));
            if self.eat(b'}') { return f; }
            self.expect(b',');
        }
    }
    fn skip_attrs_before_type(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { // string attribute
                self.p += 1;
                while self.t[self.p] != b'"' { self.p += 1; }
                self.p += 1;
                if self.t[self.p] == b'=' { self.p += 2; while self.t[self.p] != b'"' { self.p += 1; } self.p += 1; }
                continue;
            }
            let w = self.peek_word();
            if Self::is_type_start(w, c) { return; }
            if w.is_empty() { return; }
            self.word();
            if w == b"align" || w == b"cc" { if self.peek() == b'(' { self.skip_paren() } else { self.num(); } continue; }
            if self.t[self.p] == b'(' { self.skip_paren(); }
        }
    }
    /// parameter attributes between a type and a value; returns byval type
    fn skip_param_attrs(&mut self, pr: &mut Program) -> Option<TyId> {
        let mut bv = None;
        loop {
            let c = self.peek();
            match c {
                b'%' | b'@' | b'<' | b'[' | b'{' | b'-' | b',' | b')' | b'!' => return bv,
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' { self.p += 1; }
                    self.p += 1;
                    if self.t[self.p] == b'=' { self.p += 2; while self.t[self.p] != b'"' { self.p += 1; } self.p += 1; }
                    continue;
                }
                _ => {}
            }
            if c.is_ascii_digit() { return bv; }
            let w = self.peek_word();
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"add" | b"sub" | b"trunc" | b"c" | b"splat" | b"none" | b"asm" | b"xor" | b"blockaddress" | b"ptrtoaddr" | b"addrspacecast" => return bv,
                b"byval" => { self.word(); self.expect(b'('); bv = Some(self.ty(pr)); self.expect(b')'); continue; }
                b"" => self.err("param attr"),
                _ => {}
            }
            self.word();
            if w == b"align" { if self.peek() == b'(' { self.skip_paren() } else { self.num(); } continue; }
            if self.t[self.p] == b'(' { self.skip_paren(); }
        }
    }
    fn parse_int(&mut self, w: u16) -> V {
        // decimal, possibly negative and possibly wide
        self.ws();
        let neg = self.t[self.p] == b'-';
        if neg { self.p += 1; }
        let s = self.p;
        while self.t[self.p].is_ascii_digit() { self.p += 1; }
        let mut v: u128 = 0;
        for &d in &self.t[s..self.p] { v = v.wrapping_mul(10).wrapping_add((d - b'0') as u128); }
        if neg { v = v.wrapping_neg(); }
        v &= mask(w);
        if w <= 64 { V::C(v as u64) } else { wide_const(w, v) }
    }
    fn value(&mut self, pr: &mut Program, ty: TyId, regs: &mut Option<&mut Regs>) -> O {
        let c = self.peek();
        match c {
            b'%' => {
                let (nm, q) = sym_at(self.t, self.p + 1);
                self.p = q;
                match regs { Some(r) => O::R(r.get(nm)), None => self.err("register in constant") }
            }
            b'@' => {
                let (nm, q) = sym_at(self.t, self.p + 1);
                self.p = q;
                O::C(pr.addr(self.m, nm, false))
            }
            b'c' if self.t[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.t[self.p] != b'"' {
                    if self.t[self.p] == b'\\' && self.t[self.p + 1] == b'\\' { v.push(V::C(92)); self.p += 2; }
                    else if self.t[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.t[self.p + 1..self.p + 3]).unwrap();
                        v.push(V::C(u64::from_str_radix(h, 16).unwrap()));
                        self.p += 3;
                    } else { v.push(V::C(self.t[self.p] as u64)); self.p += 1; }
                }
                self.p += 1;
                O::V(V::A(Rc::new(v)))
            }
            b'[' | b'{' | b'<' => {
                let mut close = match c { b'[' => b']', b'{' => b'}', _ => b'>' };
                self.p += 1;
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' { self.p += 1; close = b'}'; packed = true; }
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty(pr);
                        v.push(self.value(pr, t, regs));
                        if self.eat(close) { break; }
                        self.expect(b',');
                    }
                }
                if packed { self.expect(b'>'); }
                O::V(V::A(Rc::new(v.into_iter().map(|o| match o { O::C(k) => V::C(k), O::V(v) => v, O::R(_) => self.err("register in aggregate") }).collect())))
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' || (c == b'f' && self.t[self.p + 1..].starts_with(b"0x")) => {
                match pr.tys[ty as usize] {
                    Ty::Float(w) => O::C(self.float(w)),
                    Ty::Int(w) => match self.parse_int(w) { V::C(k) => O::C(k), v => O::V(v) },
                    _ => self.err("numeric constant of odd type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => O::C(1),
                    b"false" | b"null" => O::C(0),
                    b"undef" | b"poison" | b"zeroinitializer" | b"none" => match zero(pr, ty) { V::C(k) => O::C(k), v => O::V(v) },
                    b"splat" => {
                        self.expect(b'(');
                        let t = self.ty(pr);
                        let e = self.value(pr, t, regs);
                        self.expect(b')');
                        let n = match pr.tys[ty as usize] { Ty::Vec(n, _) => n as usize, _ => self.err("splat") };
                        let e = match e { O::C(k) => V::C(k), O::V(v) => v, _ => self.err("splat") };
                        O::V(V::A(Rc::new(vec![e; n])))
                    }
                    b"getelementptr" => {
                        while self.peek() != b'(' { if self.word().is_empty() { self.err("gep flags"); } if self.t[self.p] == b'(' && self.t[self.p - 1] == b'e' { self.skip_paren(); } }
                        self.expect(b'(');
                        let st = self.ty(pr);
                        self.expect(b',');
                        let pt = self.ty(pr);
                        let base = self.value(pr, pt, regs);
                        let (mut off, mut terms) = (0u64, vec![]);
                        self.gep_indices(pr, st, regs, &mut off, &mut terms);
                        self.expect(b')');
                        if !terms.is_empty() { self.err("constant gep"); }
                        match base { O::C(k) => O::C(k.wrapping_add(off)), _ => self.err("constant gep base") }
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"ptrtoaddr" | b"addrspacecast" | b"zext" | b"sext" => {
                        self.expect(b'(');
                        let t = self.ty(pr);
                        let v = self.value(pr, t, regs);
                        if !self.eat_word("to") { self.err("to"); }
                        let t2 = self.ty(pr);
                        self.expect(b')');
                        let m = pr.width(t2);
                        match v {
                            // the distance of two objects, as a table of offsets has it
                            O::C(k) if w == b"trunc" && m == 32 && k as i64 != k as i32 as i64 && k >> 32 != 0 && pr.width(t) == 64 => O::C(distance(k)),
                            O::C(k) => O::C(k & mask(m.min(64)) as u64),
                            _ => self.err("constant cast"),
                        }
                    }
                    b"add" | b"sub" | b"xor" | b"mul" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect(b'(');
                        let t = self.ty(pr);
                        let a = self.value(pr, t, regs);
                        self.expect(b',');
                        let t2 = self.ty(pr);
                        let b = self.value(pr, t2, regs);
                        self.expect(b')');
                        let m = mask(pr.width(t)) as u64;
                        match (a, b) { (O::C(x), O::C(y)) => O::C(match w { b"add" => x.wrapping_add(y), b"sub" => x.wrapping_sub(y), b"mul" => x.wrapping_mul(y), _ => x ^ y } & m), _ => self.err("constant binop") }
                    }
                    b"asm" => self.err("asm value"),
                    b"blockaddress" => self.err("blockaddress"),
                    _ => self.err(&format!("value '{}'", String::from_utf8_lossy(w))),
                }
            }
        }
    }
    fn float(&mut self, w: u16) -> u64 {
        self.ws();
        let s = self.p;
        while is_ident(self.t[self.p]) || self.t[self.p] == b'+' { self.p += 1; }
        if self.t[self.p] == b'(' && self.t[s..self.p].ends_with(b"nan") { while self.t[self.p] != b')' { self.p += 1; } self.p += 1; }
        let txt = std::str::from_utf8(&self.t[s..self.p]).unwrap();
        if let Some(h) = txt.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap_or_else(|_| self.err("float")); }
        let (neg, u) = (txt.starts_with('-'), txt.trim_start_matches(|c| c == '+' || c == '-'));
        if u.starts_with(|c: char| c.is_ascii_alphabetic()) {
            let payload = u.find("0x").map_or(0, |i| u64::from_str_radix(u[i + 2..].trim_end_matches(')'), 16).unwrap_or(0));
            let (sign, exp, q) = if w == 32 { (1u64 << 31, 0xffu64 << 23, 1u64 << 22) } else { (1 << 63, 0x7ff << 52, 1 << 51) };
            let m = if u == "inf" { 0 } else if u.starts_with("snan") { payload } else { q | payload };
            return exp | m | if neg { sign } else { 0 };
        }
        let d = if let Some(h) = txt.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h.trim_start_matches(|c| matches!(c, 'K' | 'H' | 'R' | 'L')), 16).unwrap_or(0)) } else { txt.parse::<f64>().unwrap_or_else(|_| self.err("float")) };
        if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() }
    }
    fn gep_indices(&mut self, pr: &mut Program, st: TyId, regs: &mut Option<&mut Regs>, off: &mut u64, terms: &mut Vec<(O, u16, u64)>) {
        let mut cur = st;
        let mut first = true;
        while self.peek() == b',' {
            // metadata after a comma ends the list
            let save = self.p;
            self.p += 1;
            if self.peek() == b'!' { self.p = save; break; }
            let it = self.ty(pr);
            let iw = pr.width(it);
            let v = self.value(pr, it, regs);
            let scale;
            if first { scale = pr.size(cur); first = false; } else {
                match pr.tys[cur as usize].clone() {
                    Ty::Struct(f, _) => {
                        let k = match v { O::C(k) => k, _ => self.err("struct gep index") };
                        *off = off.wrapping_add(pr.offs(cur)[k as usize]);
                        cur = f[k as usize];
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = pr.size(e); cur = e; }
                    _ => self.err("gep type"),
                }
            }
            match v {
                O::C(k) => { let k = if iw < 64 { crate::expr::sext(k as u128, iw) as i64 as u64 } else { k }; *off = off.wrapping_add(k.wrapping_mul(scale)); }
                v => if scale != 0 { terms.push((v, iw, scale)) },
            }
        }
    }
    fn skip_line(&mut self) { while self.t[self.p] != b'\n' { self.p += 1; } self.p += 1; }
}

thread_local! { pub static WIDE: std::cell::RefCell<HashMap<(u16, u128), E>> = Default::default(); pub static MKWIDE: std::cell::RefCell<Option<Box<dyn Fn(u16, u128) -> E>>> = Default::default(); }
fn wide_const(w: u16, v: u128) -> V { MKWIDE.with(|f| V::S((f.borrow().as_ref().expect("wide hook"))(w, v))) }

thread_local! { static DISTANCE: std::cell::RefCell<Vec<u64>> = Default::default(); }
/// Objects are too far apart for 32 bits: a number that stands for the distance.
fn distance(k: u64) -> u64 { DISTANCE.with(|d| { let mut d = d.borrow_mut(); let i = d.iter().position(|x| *x == k).unwrap_or_else(|| { d.push(k); d.len() - 1 }); 0x4000_0000 + i as u64 }) }
/// What such a number stands for.
pub fn far(k: u64) -> u64 { let k = k as u32; if k >= 0x4000_0000 && k < 0x8000_0000 { DISTANCE.with(|d| d.borrow().get((k - 0x4000_0000) as usize).copied()).unwrap_or(k as u64) } else { k as i32 as i64 as u64 } }

pub fn zero(pr: &Program, ty: TyId) -> V {
    match &pr.tys[ty as usize] {
        Ty::Int(w) if *w > 64 => wide_const(*w, 0),
        Ty::Arr(n, e) => { let z = zero(pr, *e); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Vec(n, e) => { let z = zero(pr, *e); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| zero(pr, *t)).collect())),
        _ => V::C(0),
    }
}

fn parse_fn(pr: &mut Program, mut c: Cur, id: u32, name: Rc<str>) -> Func {
    // define ... <ty> @name(params) ... {
    let mut regs = Regs { map: HashMap::new(), n: 0 };
    c.word(); // define
    c.skip_attrs_before_type();
    let ret = c.ty(pr);
    c.skip_param_attrs(pr);
    c.expect(b'@');
    let (_, q) = sym_at(c.t, c.p);
    c.p = q;
    c.expect(b'(');
    let mut params = vec![];
    let mut vararg = false;
    let mut unnamed = 0;
    if !c.eat(b')') {
        loop {
            if c.peek() == b'.' { c.p += 3; vararg = true; c.expect(b')'); break; }
            let _t = c.ty(pr);
            c.skip_param_attrs(pr);
            if c.peek() == b'%' {
                let (nm, q) = sym_at(c.t, c.p + 1);
                c.p = q;
                if nm.iter().all(|x| x.is_ascii_digit()) { unnamed += 1; }
                params.push(regs.get(nm));
            } else { // unnamed parameter without a printed name
                let nm: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                unnamed += 1;
                params.push(regs.get(nm));
            }
            if c.eat(b')') { break; }
            c.expect(b',');
        }
    }
    c.skip_line();
    // body
    let mut labels: HashMap<&'static [u8], u32> = HashMap::new();
    let mut nl = 0u32;
    let mut lab = |n: &'static [u8], labels: &mut HashMap<&'static [u8], u32>| -> u32 { *labels.entry(n).or_insert_with(|| { nl += 1; nl - 1 }) };
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    let mut cur: Option<u32> = None;
    let mut order = vec![];
    loop {
        // at line start
        let p0 = c.p;
        let ch = c.t[c.p];
        if ch == b'}' { break; }
        if ch == b'\n' { c.p += 1; continue; }
        if ch == b';' { c.skip_line(); continue; }
        if ch != b' ' && ch != b'\t' {
            // label
            let (nm, q) = sym_at(c.t, p0);
            if c.t[q] != b':' { c.err("label"); }
            let l = lab(nm, &mut labels);
            cur = Some(l);
            order.push(l);
            blocks.insert(l, Block { phis: vec![], ins: vec![] });
            c.skip_line();
            continue;
        }
        if cur.is_none() {
            let nm: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
            let l = lab(nm, &mut labels);
            cur = Some(l);
            order.push(l);
            blocks.insert(l, Block { phis: vec![], ins: vec![] });
        }
        c.ws();
        if c.t[c.p] == b'#' || c.t[c.p] == b'\n' || c.t[c.p] == b';' { c.skip_line(); continue; }
        let mut dst = None;
        if c.t[c.p] == b'%' {
            let (nm, q) = sym_at(c.t, c.p + 1);
            c.p = q;
            c.expect(b'=');
            dst = Some(regs.get(nm));
        }
        let mut op = c.word();
        while matches!(op, b"tail" | b"musttail" | b"notail") { op = c.word(); }
        let d = dst.unwrap_or(u32::MAX);
        let b = blocks.get_mut(&cur.unwrap()).unwrap();
        macro_rules! flags { () => { while matches!(c.peek_word(), b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"inbounds" | b"nusw") { c.word(); } } }
        macro_rules! val { ($t:expr) => { c.value(pr, $t, &mut Some(&mut regs)) } }
        macro_rules! label { () => {{ if !c.eat_word("label") { c.err("label"); } c.expect(b'%'); let (nm, q) = sym_at(c.t, c.p); c.p = q; lab(nm, &mut labels) }} }
        let bop = |o: &[u8]| Some(match o {
            b"add" => BinOp::Add, b"sub" => BinOp::Sub, b"mul" => BinOp::Mul, b"udiv" => BinOp::UDiv, b"sdiv" => BinOp::SDiv, b"urem" => BinOp::URem, b"srem" => BinOp::SRem,
            b"and" => BinOp::And, b"or" => BinOp::Or, b"xor" => BinOp::Xor, b"shl" => BinOp::Shl, b"lshr" => BinOp::LShr, b"ashr" => BinOp::AShr,
            b"fadd" => BinOp::FAdd, b"fsub" => BinOp::FSub, b"fmul" => BinOp::FMul, b"fdiv" => BinOp::FDiv, b"frem" => BinOp::FRem, _ => return None });
        if let Some(o) = bop(op) {
            flags!();
            let t = c.ty(pr);
            let a = val!(t);
            c.expect(b',');
            let bb = val!(t);
            let w = pr.width(t);
            b.ins.push(I::Bin { op: o, ty: t, w, a, b: bb, d });
            c.skip_line();
            continue;
        }
        match op {
            b"icmp" => {
                flags!();
                let p = match c.word() { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => c.err("pred") };
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let bb = val!(t);
                let w = pr.width(t);
                b.ins.push(I::ICmp { p, ty: t, w, a, b: bb, d });
            }
            b"fcmp" => {
                flags!();
                let p = String::from_utf8_lossy(c.word()).to_string();
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let bb = val!(t);
                b.ins.push(I::FCmp { p, ty: t, a, b: bb, d });
            }
            b"fneg" => { flags!(); let t = c.ty(pr); let a = val!(t); b.ins.push(I::FNeg { ty: t, a, d }); }
            b"trunc" | b"zext" | b"sext" | b"bitcast" | b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"addrspacecast" | b"fptrunc" | b"fpext" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" => {
                flags!();
                let from = c.ty(pr);
                let a = val!(from);
                if !c.eat_word("to") { c.err("to"); }
                let to = c.ty(pr);
                let k = match op { b"trunc" => Cast::Trunc, b"zext" => Cast::ZExt, b"sext" => Cast::SExt, b"bitcast" | b"addrspacecast" => Cast::Bit, b"fptrunc" => Cast::FpTrunc, b"fpext" => Cast::FpExt, b"fptoui" => Cast::FpToUi, b"fptosi" => Cast::FpToSi, b"uitofp" => Cast::UiToFp, b"sitofp" => Cast::SiToFp, _ => Cast::PtrInt };
                b.ins.push(I::Cast { c: k, from, to, a, d });
            }
            b"alloca" => {
                c.eat_word("inalloca");
                let t = c.ty(pr);
                let size = pr.size(t);
                let mut n = O::C(1);
                if c.eat(b',') {
                    let w = c.peek_word();
                    if w != b"align" && w != b"addrspace" { let nt = c.ty(pr); n = val!(nt); }
                }
                b.ins.push(I::Alloca { size, n, d });
            }
            b"load" => {
                while matches!(c.peek_word(), b"atomic" | b"volatile") { c.word(); }
                let t = c.ty(pr);
                c.expect(b',');
                let pt = c.ty(pr);
                let p = val!(pt);
                b.ins.push(I::Load { ty: t, p, d });
            }
            b"store" => {
                while matches!(c.peek_word(), b"atomic" | b"volatile") { c.word(); }
                let t = c.ty(pr);
                let v = val!(t);
                c.expect(b',');
                let pt = c.ty(pr);
                let p = val!(pt);
                b.ins.push(I::Store { ty: t, v, p });
            }
            b"getelementptr" => {
                flags!();
                if c.peek_word() == b"inrange" { c.word(); c.skip_paren(); }
                let st = c.ty(pr);
                c.expect(b',');
                let pt = c.ty(pr);
                let base = val!(pt);
                let (mut off, mut terms) = (0u64, vec![]);
                c.gep_indices(pr, st, &mut Some(&mut regs), &mut off, &mut terms);
                b.ins.push(I::Gep { base, off, terms, d });
            }
            b"select" => {
                flags!();
                let ct = c.ty(pr);
                let cc = val!(ct);
                c.expect(b',');
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let t2 = c.ty(pr);
                let bb = val!(t2);
                b.ins.push(I::Select { cv: matches!(pr.tys[ct as usize], Ty::Vec(..)), ty: t, c: cc, a, b: bb, d });
            }
            b"phi" => {
                flags!();
                let t = c.ty(pr);
                let mut l = vec![];
                loop {
                    c.expect(b'[');
                    let v = val!(t);
                    c.expect(b',');
                    c.expect(b'%');
                    let (nm, q) = sym_at(c.t, c.p);
                    c.p = q;
                    c.expect(b']');
                    l.push((lab(nm, &mut labels), v));
                    let save = c.p;
                    if !c.eat(b',') { break; }
                    if c.peek() != b'[' { c.p = save; break; }
                }
                b.phis.push((d, t, l));
            }
            b"extractvalue" => {
                let t = c.ty(pr);
                let a = val!(t);
                let mut idx = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } idx.push(c.num() as u32); }
                b.ins.push(I::ExtractValue { a, idx, d });
            }
            b"insertvalue" => {
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let vt = c.ty(pr);
                let v = val!(vt);
                let mut idx = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } idx.push(c.num() as u32); }
                b.ins.push(I::InsertValue { ty: t, a, v, idx, d });
            }
            b"extractelement" => {
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let it = c.ty(pr);
                let i = val!(it);
                b.ins.push(I::ExtractElement { a, i, d });
            }
            b"insertelement" => {
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let vt = c.ty(pr);
                let v = val!(vt);
                c.expect(b',');
                let it = c.ty(pr);
                let i = val!(it);
                b.ins.push(I::InsertElement { ty: t, a, v, i, d });
            }
            b"shufflevector" => {
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let t2 = c.ty(pr);
                let bb = val!(t2);
                c.expect(b',');
                let mt = c.ty(pr);
                let m = val!(mt);
                let mask = match m { O::V(V::A(x)) => x.iter().map(|v| v.c().unwrap() as i32).collect(), _ => c.err("shuffle mask") };
                b.ins.push(I::Shuffle { ty: t, a, b: bb, mask, d });
            }
            b"freeze" => { let t = c.ty(pr); let a = val!(t); b.ins.push(I::Freeze { a, d }); }
            b"br" => {
                if c.peek_word() == b"label" { let l = label!(); b.ins.push(I::Br(l)); }
                else {
                    let t = c.ty(pr);
                    let v = val!(t);
                    c.expect(b',');
                    let l1 = label!();
                    c.expect(b',');
                    let l2 = label!();
                    b.ins.push(I::CondBr(v, l1, l2));
                }
            }
            b"switch" => {
                let t = c.ty(pr);
                let v = val!(t);
                c.expect(b',');
                let def = label!();
                c.expect(b'[');
                let mut cases = vec![];
                loop {
                    c.wsnl();
                    if c.eat(b']') { break; }
                    let ct = c.ty(pr);
                    let k = match val!(ct) { O::C(k) => k, _ => c.err("switch case") };
                    c.expect(b',');
                    let l = label!();
                    cases.push((k, l));
                }
                let w = pr.width(t);
                b.ins.push(I::Switch { w, v, def, cases });
            }
            b"ret" => {
                let t = c.ty(pr);
                if t == pr.ty_void { b.ins.push(I::Ret(t, None)); } else { let v = val!(t); b.ins.push(I::Ret(t, Some(v))); }
            }
            b"unreachable" => b.ins.push(I::Unreachable),
            b"resume" => b.ins.push(I::Unreachable),
            b"fence" => b.ins.push(I::Nop),
            b"landingpad" => {
                b.ins.push(I::LandingPad { d });
                c.skip_line();
                loop {
                    let save = c.p;
                    let w = { c.ws(); c.peek_word() };
                    if matches!(w, b"cleanup" | b"catch" | b"filter") { c.skip_line(); } else { c.p = save; break; }
                }
                continue;
            }
            b"atomicrmw" => {
                c.eat_word("volatile");
                let o = String::from_utf8_lossy(c.word()).to_string();
                let pt = c.ty(pr);
                let p = val!(pt);
                c.expect(b',');
                let t = c.ty(pr);
                let v = val!(t);
                b.ins.push(I::Rmw { op: o, ty: t, p, v, d });
            }
            b"cmpxchg" => {
                while matches!(c.peek_word(), b"weak" | b"volatile") { c.word(); }
                let pt = c.ty(pr);
                let p = val!(pt);
                c.expect(b',');
                let t = c.ty(pr);
                let a = val!(t);
                c.expect(b',');
                let t2 = c.ty(pr);
                let bb = val!(t2);
                b.ins.push(I::CmpXchg { ty: t, p, a, b: bb, d });
            }
            b"call" | b"invoke" => {
                c.skip_attrs_before_type();
                let rt = c.ty(pr);
                if c.peek() == b'(' { c.skip_paren(); }
                let callee;
                if c.peek() == b'@' {
                    let (nm, q) = sym_at(c.t, c.p + 1);
                    c.p = q;
                    if nm.starts_with(b"llvm.") { callee = Callee::Intr(Rc::from(std::str::from_utf8(nm).unwrap())); }
                    else {
                        let a = pr.addr(c.m, nm, true);
                        callee = if (a >> 32) as u32 >= FN_BASE { Callee::Func((a >> 32) as u32 - FN_BASE) } else { Callee::Reg(O::C(a)) };
                    }
                } else if c.peek_word() == b"asm" {
                    c.word();
                    while c.peek() != b'"' { c.word(); }
                    c.p += 1;
                    let s = c.p;
                    while c.t[c.p] != b'"' { c.p += 1; }
                    let txt = String::from_utf8_lossy(&c.t[s..c.p]).to_string();
                    c.p += 1;
                    c.expect(b',');
                    c.ws();
                    c.p += 1;
                    while c.t[c.p] != b'"' { c.p += 1; }
                    c.p += 1;
                    callee = Callee::Asm(txt);
                } else {
                    let pt = pr.ty_ptr;
                    callee = Callee::Reg(val!(pt));
                }
                c.expect(b'(');
                let mut args = vec![];
                let mut byval = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = c.ty(pr);
                        if t == pr.ty(Ty::Opaque) && c.peek() != b'%' {
                            // metadata operand
                            let mut dpt = 0;
                            loop {
                                match c.t[c.p] { b'(' => dpt += 1, b')' if dpt == 0 => break, b')' => dpt -= 1, b',' if dpt == 0 => break, _ => {} }
                                c.p += 1;
                            }
                            args.push((t, O::C(0)));
                            byval.push(None);
                        } else {
                            byval.push(c.skip_param_attrs(pr));
                            let v = val!(t);
                            args.push((t, v));
                        }
                        if c.eat(b')') { break; }
                        c.expect(b',');
                    }
                }
                let mut normal = None;
                if op == b"invoke" {
                    // attributes, then newline, then: to label %x unwind label %y
                    loop {
                        c.wsnl();
                        if c.eat_word("to") { break; }
                        if c.t[c.p] == b'#' || c.t[c.p] == b'"' || c.t[c.p] == b'[' || c.t[c.p] == b']' || c.t[c.p] == b',' || c.t[c.p] == b'=' { c.p += 1; continue; }
                        let w = c.word();
                        if w.is_empty() { c.skip_paren_or_char(); }
                    }
                    normal = Some(label!());
                    c.wsnl();
                    if !c.eat_word("unwind") { c.err("unwind"); }
                    let _ = label!();
                }
                b.ins.push(I::Call(Box::new(Call { dst, ret: rt, callee, args, byval, normal })));
            }
            _ => c.err(&format!("instruction '{}'", String::from_utf8_lossy(op))),
        }
        c.skip_line();
    }
    let entry = order[0];
    // renumber so that the entry is block 0
    let n = labels.len() as u32;
    let swap = |l: u32| if l == entry { 0 } else if l == 0 { entry } else { l };
    let mut out: Vec<Block> = (0..n).map(|_| Block { phis: vec![], ins: vec![] }).collect();
    for (l, mut bl) in blocks {
        for (_, _, ps) in bl.phis.iter_mut() { for (p, _) in ps.iter_mut() { *p = swap(*p); } }
        for i in bl.ins.iter_mut() {
            match i {
                I::Br(x) => *x = swap(*x),
                I::CondBr(_, x, y) => { *x = swap(*x); *y = swap(*y); }
                I::Switch { def, cases, .. } => { *def = swap(*def); for (_, x) in cases.iter_mut() { *x = swap(*x); } }
                I::Call(k) => if let Some(x) = k.normal.as_mut() { *x = swap(*x) },
                _ => {}
            }
        }
        out[swap(l) as usize] = bl;
    }
    let scut = is_scut(&name);
    Func { id, name, nregs: regs.n, params, blocks: out, ret, vararg, scut }
}

/// Is this a function of the code under test (used only for the coverage report)?
pub fn is_scut(n: &str) -> bool { n.contains("scutiger") || n.contains("git_lfs_transfer") || n.contains("git_at") || n.contains("git_recent_refs") || n.contains("7harness") }

/// Short readable path of a (v0-mangled) Rust symbol: the identifiers in order, hashes dropped.
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if j + k <= b.len() && k < 80 { out.push(n[j..j + k].to_string()); i = j + k; continue; }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'K' {
            // disambiguator / back reference: base-62 until '_'
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() && j - i < 14 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    out.join("::")
}
