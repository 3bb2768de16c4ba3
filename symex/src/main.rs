//! symex: a symbolic executor for LLVM IR (see DESIGN.md).
//!   symex --entry F --out DIR [options] a.ll b.ll ...
mod exec;
mod expr;
mod fs;
mod ir;
mod libc;
mod mem;
mod solver;
mod z3;
use exec::*;
use expr::*;
use fs::*;
use ir::*;
use mem::*;
use solver::{Pc, Solver};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::rc::Rc;
use std::time::Instant;

mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(p: *mut i32) -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn fcntl(fd: i32, c: i32, v: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn getpid() -> i32;
        pub fn signal(s: i32, h: usize) -> usize;
    }
}

struct Run {
    out: String,
    paths: u64, killed: u64, exits: u64,
    labels: BTreeMap<String, u64>,
    viols: Vec<String>,
    errors: Vec<String>,
    maxdepth: usize,
    vis: u64,
    sample: Vec<String>,
    max_viol: usize,
    t0: Instant,
    tokens: (i32, i32),
    done_w: i32,
}

fn schedule(g: &mut Engine, st: &mut State) -> X<bool> {
    // returns false when there is nothing left to run
    loop {
        if let Some(i) = st.procs.iter().position(|p| p.status == Status::Run) { st.cur = i; return Ok(true); }
        let mut woke = false;
        for i in 0..st.procs.len() {
            if let Status::WaitChild(pid) = st.procs[i].status {
                let me = st.procs[i].pid;
                if st.procs.iter().any(|c| c.ppid == me && !c.reaped && (pid == -1 || c.pid == pid) && matches!(c.status, Status::Dead(_))) { st.procs[i].status = Status::Run; woke = true; break; }
            }
        }
        for i in 0..st.procs.len() {
            let ready = match st.procs[i].status { Status::WaitPipe(ino) => crate::libc::pipe_ready(st, ino), Status::WaitRoom(ino) => crate::libc::pipe_room(st, ino), _ => false };
            if ready { st.procs[i].status = Status::Run; woke = true; break; }
        }
        if woke { continue; }
        let parked: Vec<usize> = (0..st.procs.len()).filter(|&i| st.procs[i].status == Status::Parked).collect();
        if parked.is_empty() {
            // everybody else has come to rest
            if let Some(i) = st.procs.iter().position(|p| p.status == Status::Settle) { st.procs[i].status = Status::Run; continue; }
            return Ok(false);
        }
        let pick = if parked.len() == 1 { parked[0] } else {
            let last = st.lastp;
            let cont = parked.contains(&last);
            if cont && st.switches >= g.cfg.max_switches { last } else {
                // the choice of the next process is a symbolic variable
                let v = g.a.var(&format!("sched.{}", st.nsched), 8);
                let mut ok = g.a.ff;
                for &i in &parked { let k = g.a.byte(i as u8); let q = g.a.bin(Op::Eq, v, k); ok = g.a.bin(Op::Or, ok, q); }
                g.assume(st, ok)?;
                let k = g.pin(st, v)? as usize;
                if cont && k != last { st.switches += 1; }
                k
            }
        };
        if parked.len() > 1 {
            // decisions without alternatives are recorded too, so that a replay can follow the schedule
            let v = g.a.var(&format!("sched.{}", st.nsched), 8);
            let k = g.a.byte(pick as u8);
            let q = g.a.bin(Op::Eq, v, k);
            g.assume(st, q)?;
            st.nsched += 1;
        }
        let seq = g.a.var(&format!("order.{}", st.nord), 8);
        let k = g.a.byte(pick as u8 + 1);
        let q = g.a.bin(Op::Eq, seq, k);
        g.assume(st, q)?;
        st.nord += 1;
        st.lastp = pick;
        let p = &mut st.procs[pick];
        p.status = Status::Run;
        p.go = true;
        st.cur = pick;
        return Ok(true);
    }
}

/// Run the current state to the end of its path.
fn run_path(g: &mut Engine, st: &mut State, r: &mut Run) {
    let mut lim = 0u64;
    let res: X<()> = (|| {
        loop {
            if !schedule(g, st)? { return Err(Stop::Viol("no end in sight: every process waits for another".into())); }
            let e = loop {
                let (n0, t0) = (g.s.st.z3, g.s.st.z3_us);
                let at = if g.cfg.verbose { st.pr().frames.last().map_or(String::new(), |f| format!("bb{}:{} ", f.bb, f.ip)) + &g.where_am_i(st) } else { String::new() };
                let e = g.step(st);
                if g.cfg.verbose && g.s.st.z3 != n0 { let w = g.slow.entry(at).or_insert((0, 0)); w.0 += g.s.st.z3 - n0; w.1 += g.s.st.z3_us - t0; }
                if let Err(e) = e { break e; }
                st.steps += 1;
                lim += 1;
                if st.steps > g.cfg.max_steps { break Stop::Viol(format!("no end in sight after {} instructions", st.steps - 1)); }
                if lim & 0xffff == 0 && r.t0.elapsed().as_secs() > g.cfg.timeout_s { break Stop::Err("time limit".into()); }
            };
            match e {
                Stop::Yield => {}
                Stop::Exit(code) => {
                    crate::libc::close_all(st);
                    st.p().status = Status::Dead(code);
                    st.p().frames.clear();
                    st.p().mem = Mem::new();
                    if st.cur == 0 {
                        if code != 0 { return Err(Stop::Viol(format!("the process ended with status {}", code))); }
                        return Ok(());
                    }
                }
                e => return Err(e),
            }
        }
    })();
    r.vis += st.procs.iter().map(|p| p.nvis as u64).sum::<u64>();
    match res {
        Ok(()) => {
            r.paths += 1;
            for l in st.labels.iter() { *r.labels.entry(l.clone()).or_insert(0) += 1; }
            if r.sample.len() < 3 { let s = describe(g, st); let n = r.sample.len(); write_replay(g, st, r, "completed", "", &format!("ok.{}.{}", unsafe { sys::getpid() }, n)); r.sample.push(s); }
        }
        Err(Stop::Kill) => r.killed += 1,
        Err(Stop::Viol(m)) => {
            r.paths += 1;
            for l in st.labels.iter() { *r.labels.entry(l.clone()).or_insert(0) += 1; }
            let at = if st.pr().frames.is_empty() { String::new() } else { g.where_am_i(st) };
            if !r.viols.contains(&m) {
                write_replay(g, st, r, &m, &at, &format!("viol.{}.{}", unsafe { sys::getpid() }, r.viols.len()));
                r.viols.push(m);
            }
        }
        Err(Stop::Err(m)) => { let at = if st.pr().frames.is_empty() { String::new() } else { g.where_am_i(st) }; let m = format!("{} [p{} {}]", m, st.cur, at); if !r.errors.contains(&m) { r.errors.push(m); } }
        Err(e) => { r.errors.push(format!("unexpected stop {:?}", e)); }
    }
}

/// The concrete inputs of one path, compactly (used as evidence samples).
fn describe(g: &Engine, st: &State) -> String {
    let mut parts = vec![];
    for (name, vs) in st.syms.iter() {
        let b: Vec<u8> = vs.iter().map(|v| st.pc.model.get(v).copied().unwrap_or(0) as u8).collect();
        let mut s = String::new();
        for x in b.iter().take(24) { if *x >= 32 && *x < 127 && *x != b'"' && *x != b'\\' { s.push(*x as char) } else { s.push_str(&format!("\\x{:02x}", x)) } }
        if b.len() > 24 { s.push_str(".."); }
        parts.push(format!("{}='{}'", name, s));
    }
    let mut l: Vec<String> = st.trace.iter().take(12).cloned().collect();
    if st.trace.len() > 12 { l.push(format!("... {} more", st.trace.len() - 12)); }
    let mut ch: Vec<String> = st.pc.model.iter().filter_map(|(v, k)| { let n = &g.a.vars[*v as usize].name; if n.starts_with("sched") || n.starts_with("order") || n.starts_with("sha") || st.syms.iter().any(|s| s.1.contains(v)) || *k == 0 { None } else { Some(format!("{}={}", n, k)) } }).collect();
    ch.sort();
    parts.extend(ch);
    format!("{} | {}", parts.join(" "), l.join("; "))
}

fn write_replay(g: &Engine, st: &State, r: &Run, m: &str, at: &str, name: &str) {
    let p = format!("{}/{}", r.out, name);
    let mut o = String::new();
    o.push_str(&format!("# {}\n# at {}\n", m.replace('\n', " "), at));
    for t in st.trace.iter() { o.push_str(&format!("# {}\n", t)); }
    let mut l: Vec<(String, u64)> = st.pc.model.iter().map(|(v, k)| (g.a.vars[*v as usize].name.to_string(), *k)).collect();
    l.sort();
    for (k, v) in g.cfg.params.iter() { o.push_str(&format!("param.{} {}\n", k, v)); }
    for (n, k) in l { if !n.starts_with("sched.") { o.push_str(&format!("{} {}\n", n, k)); } }
    std::fs::write(&p, o).unwrap();
}

fn report(g: &Engine, r: &Run) {
    let pid = unsafe { sys::getpid() };
    let mut o = String::new();
    let s = &g.s.st;
    for (k, v) in [("paths", r.paths), ("killed", r.killed), ("exits", r.exits), ("forks", g.forks), ("instructions", g.instrs), ("queries", s.queries), ("z3_queries", s.z3), ("z3_sat", s.z3_sat), ("z3_unsat", s.z3_unsat), ("unary_queries", s.unary), ("cached_queries", s.cached), ("z3_us", s.z3_us), ("z3_unknown", s.unknown), ("asserts", g.asserts), ("visible_ops", r.vis), ("sched_steps", 0)] { o.push_str(&format!("stat {} {}\n", k, v)); }
    o.push_str(&format!("max z3_max_us {}\nmax wall_ms {}\n", s.max_us, r.t0.elapsed().as_millis()));
    for (k, v) in &r.labels { o.push_str(&format!("label {} {}\n", v, k)); }
    for (id, n) in &g.covered { let nm = &g.prog.fns[*id as usize].name; if is_scut(nm) { o.push_str(&format!("func {} {}\n", n, pretty(nm))); } }
    for ((f, bb, k), n) in &g.cov_branches { o.push_str(&format!("branch {} {} {} {}\n", n, g.prog.fns[*f as usize].name, bb, k)); }
    for (id, f) in &g.prog.parsed { if f.scut { let nb = f.blocks.iter().filter(|b| matches!(b.ins.last(), Some(I::CondBr(..)))).count(); o.push_str(&format!("nbranch {} {}\n", nb, g.prog.fns[*id as usize].name)); } }
    for e in &r.errors { o.push_str(&format!("error {}\n", e.replace('\n', " "))); }
    for e in &r.viols { o.push_str(&format!("viol {}\n", e.replace('\n', " "))); }
    for e in &r.sample { o.push_str(&format!("sample {}\n", e.replace('\n', " "))); }
    if g.cfg.verbose {
        let mut h: Vec<_> = g.slow.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
        for (k, (n, us)) in h.into_iter().take(12) { eprintln!("z3 {} queries {:.1}s {}", n, *us as f64 / 1e6, k); }
        let mut h: Vec<_> = g.hot.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, bb, ip), n) in h.into_iter().take(40) { eprintln!("fork {} {} bb{} ip{}", n, pretty(&g.prog.fns[*f as usize].name), bb, ip); }
        let mut h: Vec<_> = g.covered.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in h.into_iter().take(20) { eprintln!("calls {} {}", n, pretty(&g.prog.fns[*f as usize].name)); }
    }
    let p = format!("{}/part.{}", r.out, pid);
    std::fs::write(&p, o).unwrap();
}

fn explore(g: &mut Engine, r: &mut Run) {
    let stopf = format!("{}/stop", r.out);
    let mut k = 0u64;
    while let Some(mut st) = g.work.pop() {
        run_path(g, &mut st, r);
        drop(st);
        k += 1;
        if r.viols.len() >= r.max_viol || !r.errors.is_empty() { let _ = std::fs::write(&stopf, b""); }
        if k % 16 == 0 || !r.viols.is_empty() { if std::path::Path::new(&stopf).exists() { g.work.clear(); break; } }
        if r.t0.elapsed().as_secs() > g.cfg.timeout_s { if !g.work.is_empty() { r.errors.push(format!("time limit with {} states left", g.work.len())); let _ = std::fs::write(&stopf, b""); } break; }
        // hand half of the pending states to an idle core
        if g.work.len() >= 2 {
            let mut b = 0u8;
            if unsafe { sys::read(r.tokens.0, &mut b, 1) } == 1 {
                let _ = std::io::stdout().flush();
                let pid = unsafe { sys::fork() };
                if pid == 0 {
                    let mut w = std::mem::take(&mut g.work);
                    let n = w.len() / 2;
                    w.truncate(n.max(1));
                    g.work = w;
                    g.forks = 0; g.instrs = 0; g.asserts = 0;
                    g.covered.clear(); g.cov_branches.clear(); g.hot.clear();
                    g.s.st = Default::default();
                    r.paths = 0; r.killed = 0; r.exits = 0; r.vis = 0;
                    r.labels.clear(); r.viols.clear(); r.errors.clear(); r.sample.clear();
                } else if pid > 0 {
                    let n = (g.work.len() / 2).max(1);
                    g.work.drain(..n);
                } else { unsafe { sys::write(r.tokens.1, &b, 1); } }
            }
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let _ = h.join();
    std::process::exit(3);
}

fn real_main() {
    let t0 = Instant::now();
    let mut entry = String::new();
    let mut out = String::new();
    let mut files = vec![];
    let mut envs: Vec<String> = vec![];
    let mut cfg = Config { max_switches: 2, max_faults: 0, max_steps: 100_000_000, params: BTreeMap::new(), verbose: false, timeout_s: 600 };
    let mut jobs = 8usize;
    let mut max_viol = 1usize;
    let mut rlimit = 0u32;
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut nx = || it.next().expect("argument");
        match &x[..] {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--param" => { let p = nx(); let (k, v) = p.split_once('=').unwrap(); cfg.params.insert(k.into(), v.into()); }
            "--env" => envs.push(nx()),
            "--max-switches" => cfg.max_switches = nx().parse().unwrap(),
            "--max-faults" => cfg.max_faults = nx().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--timeout" => cfg.timeout_s = nx().parse().unwrap(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--verbose" => cfg.verbose = true,
            _ => files.push(x),
        }
    }
    unsafe { sys::signal(17, 1); } // ignore SIGCHLD: children are reaped by the kernel
    let _ = std::fs::create_dir_all(&out);
    let builtins = crate::libc::table();
    let names: BTreeSet<String> = builtins.keys().map(|s| s.to_string()).collect();
    let mut prog = Program::new(Box::new(move |s| names.contains(s)));
    for f in &files { prog.load(f); }
    let mut g = Engine { maxhint: Default::default(), regions: Default::default(), merged: 0, prog, a: Arena::new(), s: Solver::new(if rlimit == 0 { 400_000_000 } else { rlimit }), base: Default::default(), kinds: vec![], work: vec![], start: None, cfg, covered: BTreeMap::new(), used_builtins: BTreeSet::new(), forks: 0, instrs: 0, builtins, hot: Default::default(), slow: Default::default(), asserts: 0, cov_branches: Default::default(), reached: 1 };
    // the parser creates constants wider than 64 bits through the arena
    let ap: *mut Arena = &mut g.a;
    ir::MKWIDE.with(|f| *f.borrow_mut() = Some(Box::new(move |w, v| unsafe { (*ap).c(w, v) })));
    let id = match g.prog.lookup_fn(&entry) { Some(i) => i, None => { eprintln!("symex: no function {}", entry); std::process::exit(3) } };
    if g.cfg.verbose { eprintln!("loaded in {:?}", t0.elapsed()); }
    let mut st = initial(&mut g, &envs);
    let f = g.func(id);
    st.cur = 0;
    if g.push_call(&mut st, f, vec![], None, None).is_err() { std::process::exit(3); }
    g.work.push(st);
    let mut tk = [0i32; 2];
    let mut dn = [0i32; 2];
    unsafe {
        sys::pipe(tk.as_mut_ptr());
        sys::pipe(dn.as_mut_ptr());
        sys::fcntl(tk[0], 4, 0o4000);
        for _ in 1..jobs.max(1) { sys::write(tk[1], b"t".as_ptr(), 1); }
    }
    let mut r = Run { out, paths: 0, killed: 0, exits: 0, labels: BTreeMap::new(), viols: vec![], errors: vec![], maxdepth: 0, vis: 0, sample: vec![], max_viol, t0, tokens: (tk[0], tk[1]), done_w: dn[1] };
    let root = unsafe { sys::getpid() };
    explore(&mut g, &mut r);
    report(&g, &r);
    unsafe {
        sys::write(r.tokens.1, b"t".as_ptr(), 1);
        sys::close(r.done_w);
        if sys::getpid() != root { sys::_exit(0); }
        let mut b = 0u8;
        while sys::read(dn[0], &mut b, 1) > 0 {}
        sys::_exit(0);
    }
}

fn initial(g: &mut Engine, envs: &[String]) -> State {
    let mut fs = Fs::new();
    let t = (V::C(1_600_000_000), V::C(0));
    for (d, m) in [("scratch", 0o755u64), ("tmp", 0o1777)] {
        let i = fs.add(Inode { kind: Kind::Dir(Default::default()), mode: V::C(m), nlink: 2, uid: 0, mtime: t.clone(), parent: 1, hole: 0 });
        fs.link(1, Rc::new(d.bytes().map(|b| V::C(b as u64)).collect()), i);
    }
    let dev = fs.add(Inode { kind: Kind::Dir(Default::default()), mode: V::C(0o755), nlink: 2, uid: 0, mtime: t.clone(), parent: 1, hole: 0 });
    fs.link(1, Rc::new(b"dev".iter().map(|b| V::C(*b as u64)).collect()), dev);
    fs.link(dev, Rc::new(b"null".iter().map(|b| V::C(*b as u64)).collect()), 2);
    let mut mem = Mem::new();
    let errno = (mem.alloc(Obj::new(4)) as u64) << 32;
    let mut arr = vec![];
    for e in envs { let mut b = e.clone().into_bytes(); b.push(0); arr.push((mem.alloc(Obj::from(b)) as u64) << 32); }
    arr.push(0);
    let mut o = Obj::new(arr.len() * 8);
    for (i, a) in arr.iter().enumerate() { o.write_c(i * 8, 8, *a); }
    let env = (mem.alloc(o) as u64) << 32;
    let eg = (g.prog.ext_glob("environ") >> 32) as u32;
    let mut o = Obj::new(64);
    o.write_c(0, 8, env);
    g.base.insert(eg, Rc::new(o));
    let fds = vec![Some(Fd { ofd: 0, cloexec: false }), Some(Fd { ofd: 1, cloexec: false }), Some(Fd { ofd: 2, cloexec: false })];
    let p = Proc { frames: vec![], mem, pid: 1000, ppid: 1, status: Status::Run, reaped: false, go: false, nvis: 0, sched_on: false, crash_on: false, fault_on: 0, guard: 0, short: false, stdio: None, nstdio: 0, badstd: 0, fds: Rc::new(fds), cwd: 1, umask: V::C(0o022), uid: 0, errno, env, keys: Default::default(), counters: Default::default(), natcnt: 0, tty: 0, settled: false, sent: 0, nopipe: false };
    State { procs: vec![p], cur: 0, fs: Rc::new(fs), shared: Mem::new(), pc: Pc::new(), sha: Default::default(), trace: Default::default(), nsched: 0, nord: 0, labels: Default::default(), syms: Default::default(), steps: 0, switches: 0, lastp: 0, crashed: false, faults: 0, clock: Default::default(), nsym: 0 }
}
