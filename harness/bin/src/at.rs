//! git-at
use crate::repo::*;
use vrt::*;

const AT: fn() -> i32 = scutiger_at_bin::verif_main;

fn subst(m: &[u8], f: impl Fn(&[u8]) -> bool) -> bool { let mut r = false; for i in 0..m.len() + 1 { r |= f(&m[i..]); } r }
fn at(m: &[u8], i: usize, c: u8) -> bool { i < m.len() && m[i] == c }
fn is_space(c: u8) -> bool { (c == 32) | ((c >= 9) & (c <= 13)) }

type Matcher = fn(&[u8]) -> bool;
/// Patterns, and what they mean.
const PATTERNS: [(&[u8], Matcher); 18] = [
    (b"ab", |m| subst(m, |s| at(s, 0, b'a') & at(s, 1, b'b'))),
    (b"^a", |m| at(m, 0, b'a')),
    (b"a$", |m| m.len() >= 1 && m[m.len() - 1] == b'a' || m.len() >= 2 && m[m.len() - 1] == b'\n' && m[m.len() - 2] == b'a'),
    (b"a.b", |m| subst(m, |s| at(s, 0, b'a') & at(s, 2, b'b') & (s.len() > 1 && s[1] != b'\n'))),
    (b"a|b", |m| subst(m, |s| at(s, 0, b'a') | at(s, 0, b'b'))),
    (b"a\\z", |m| m.len() >= 1 && m[m.len() - 1] == b'a'),
    (b"(?i)aB", |m| subst(m, |s| (at(s, 0, b'a') | at(s, 0, b'A')) & (at(s, 1, b'b') | at(s, 1, b'B')))),
    (b"[^a]", |m| subst(m, |s| s.len() > 0 && s[0] != b'a')),
    (b"a\\s+b", |m| subst(m, |s| { let mut r = false; let mut sp = true; for i in 1..s.len() { r |= at(s, 0, b'a') & sp & (i > 1) & (s[i] == b'b'); sp &= is_space(s[i]); } r })),
    (b"(?m)^b", |m| { let mut r = at(m, 0, b'b'); for i in 1..m.len() { r |= (m[i - 1] == b'\n') & (m[i] == b'b'); } r }),
    (b"a{2}", |m| subst(m, |s| at(s, 0, b'a') & at(s, 1, b'a'))),
    (b"^$", |m| m.is_empty() || m.len() == 1 && m[0] == b'\n'),
    (b"", |_| true),
    (b"\\bb", |m| { let w = |c: u8| (c >= b'0' && c <= b'9') | (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z') | (c == b'_'); let mut r = at(m, 0, b'b'); for i in 1..m.len() { r |= !w(m[i - 1]) & (m[i] == b'b'); } r }),
    (b"\\Aa|b\\z", |m| at(m, 0, b'a') || m.len() >= 1 && m[m.len() - 1] == b'b'),
    (b"(?s)a.b", |m| subst(m, |s| at(s, 0, b'a') & at(s, 2, b'b'))),
    (b"(?<!a)b", |m| { let mut r = at(m, 0, b'b'); for i in 1..m.len() { r |= (m[i - 1] != b'a') & (m[i] == b'b'); } r }),
    (b"\\xff", |m| subst(m, |s| at(s, 0, 0xff))),
];
/// A message: no NUL (Git has no such messages).
fn message(n: usize) -> Vec<u8> {
    let m = sym_vec("message", n);
    for i in 0..n { assume(m[i] != 0); }
    m
}
/// Empty lines in front are no part of it.
fn body(m: &[u8]) -> &[u8] { let mut i = 0; while i < m.len() && m[i] == b'\n' { i += 1; } &m[i..] }
fn line(n: usize) -> Vec<u8> { format!("{}\n", id(n)).into_bytes() }
fn found(o: &Outcome, n: usize) { check(o.status == 0, "a commit that matches is not found"); check(o.out == line(n), "not the commit that was to be found is printed"); check(o.err.is_empty(), "a message is printed although a commit is found"); }
fn none(o: &Outcome, quiet: bool) {
    check(o.status == 1, "the status is not 1 when nothing is found");
    check(o.out.is_empty(), "something is printed when nothing is found");
    check(o.err.is_empty() == quiet, "a message is missing, or printed in spite of --quiet");
}
fn failed(o: &Outcome) {
    check(o.status == 2, "the status of a failure is not 2");
    check(o.out.is_empty(), "something is printed by a failure");
    check(!o.err.is_empty(), "a failure is not reported");
}

extern "C" { fn verif_on_spawn(f: extern "C" fn(*const libc::c_char, *const *const libc::c_char) -> i32) -> u64; }
/// Stands in for git: it writes how it was called and how it is going to end.
extern "C" fn git(file: *const libc::c_char, argv: *const *const libc::c_char) -> i32 {
    use std::io::Write;
    let mut a = argv;
    let mut call = vec![];
    unsafe {
        call.extend_from_slice(std::ffi::CStr::from_ptr(file).to_bytes_with_nul());
        while !(*a).is_null() { call.extend_from_slice(std::ffi::CStr::from_ptr(*a).to_bytes_with_nul()); a = a.add(1); }
    }
    let k = sym_u8("result");
    call.push(k);
    std::io::stdout().write_all(&call).unwrap();
    std::io::stdout().flush().unwrap();
    if k == 255 { unsafe { libc::kill(libc::getpid(), libc::SIGTERM); } }
    k as i32
}
fn none_(o: &Outcome, quiet: bool) -> i32 { none(o, quiet); 0 }

harness! {
/// Which of several commits: histories of every shape, times, starting points, and matches.
fn h_c22_order() {
    let r = Repo::new();
    let n = param("commits", 3) as usize;
    let mut parents: Vec<Vec<usize>> = vec![];
    let mut times: Vec<u64> = vec![];
    let mut skewed = false;
    for i in 0..n {
        let mut p = vec![];
        if i > 0 {
            // any one or two of the earlier commits, or none
            let a = choice("parent", i as u64 + 1) as usize;
            if a < i { p.push(a); let b = choice("other", a as u64 + 1) as usize; if b < a { if choice("swap", 2) == 0 { p.push(b) } else { p.insert(0, b) } } }
        }
        // a commit can be older than its parents
        let t = choice("time", 3);
        if p.iter().any(|x| times[*x] > t) { skewed = true; }
        times.push(t);
        parents.push(p);
    }
    let head = n - 1;
    for i in 0..n { r.file(&format!("refs/heads/b{}", i), &line(i)); }
    r.file("refs/heads/main", &line(head));
    let (rev, start): (Option<Vec<u8>>, usize) = match choice("start", if param("starts", 0) > 0 { 8 } else { 2 }) {
        0 => (None, head),
        1 => { let k = choice("branch", n as u64) as usize; (Some(format!("b{}", k).into_bytes()), k) }
        2 => (Some(id(0).into_bytes()), 0),
        3 => (Some(id(1)[..7].as_bytes().to_vec()), 1),
        4 => { assume(!parents[head].is_empty()); (Some(b"HEAD~1".to_vec()), parents[head][0]) }
        5 => { r.object(&id(50), "tag", format!("object {}\ntype commit\ntag v1\ntagger T <t@example.org> 1 +0000\n\nmessage\n", id(1)).as_bytes()); r.file("refs/tags/v1", &line(50)); (Some(b"v1".to_vec()), 1) }
        6 => { r.file("packed-refs", format!("# pack-refs with: peeled fully-peeled sorted \n{} refs/heads/old\n", id(0)).as_bytes()); (Some(b"refs/heads/old".to_vec()), 0) }
        _ => (Some(b"@".to_vec()), head),
    };
    let mut hit = vec![];
    for i in 0..n {
        let c = sym_u8("letter");
        assume(c != 0 && c != b'\n');
        let t = format!("100000000{}", times[i]);
        r.commit(i, &parents[i], format!("20000000{:02}", n - i).as_bytes(), t.as_bytes(), &[c]);
        hit.push(c == b'x');
    }
    let quiet = choice("quiet", 2) == 1;
    let mut args: Vec<&[u8]> = vec![b"git-at"];
    if quiet { args.push(if times[0] == 0 { b"-q" } else { b"--quiet" }); }
    if let Some(v) = &rev { args.push(v); }
    args.push(b"x");
    let o = run(&r.dir, AT, &args, b"");
    // the commits reachable from the starting point
    let mut seen = vec![false; n];
    seen[start] = true;
    for i in (0..n).rev() { if seen[i] { for p in &parents[i] { seen[*p] = true; } } }
    let any = (0..n).any(|i| seen[i] && hit[i]);
    if !any { reach("none"); none(&o, quiet); return 0; }
    reach("found");
    check(o.status == 0 && o.err.is_empty(), "a commit that matches is not found");
    let got = (0..n).find(|i| o.out == line(*i));
    check(got.is_some(), "no id is printed");
    let got = got.unwrap();
    check(seen[got], "the commit that is printed cannot be reached");
    check(hit[got], "the commit that is printed does not match");
    if skewed { reach("skewed"); }
    check((0..n).all(|i| !(seen[i] && hit[i] && times[i] > times[got])), "a newer commit matches");
}
/// A long history, with branches that are merged.
fn h_c22_deep() {
    let r = Repo::new();
    let n = [param("commits", 40), 110, 300, 1100][choice("commits", param("lengths", 3)) as usize] as usize;
    // one of the commits may match; the ids do not follow the dates
    let at = [0, 1, n / 2, n - 3, n - 1][choice("at", 5) as usize];
    let c = sym_u8("letter");
    assume(c != 0 && c != b'\n');
    for i in 0..n {
        let mut p = vec![];
        if i > 0 { p.push(i - 1); }
        if i > 9 && i % 9 == 0 { p.push(i - 5); }
        // every other pair has one date
        r.commit(i, &p, format!("13{:08}", 99999999 - i).as_bytes(), format!("12{:08}", i / 2 * 2).as_bytes(), if i == at { std::slice::from_ref(&c) } else { b"text\n" });
    }
    r.file("refs/heads/main", &line(n - 1));
    let o = run(&r.dir, AT, &[b"git-at", b"z"], b"");
    if c == b'z' { reach("found"); found(&o, at) } else { reach("none"); none(&o, false) }
}
/// What it means to match.
fn h_c22_match() {
    let r = Repo::new();
    let n = param("len", 3);
    let m = message(choice("length", n + 1) as usize);
    let k = choice("pattern", PATTERNS.len() as u64) as usize;
    r.commit(0, &[], b"1000000000", b"1000000000", &m);
    r.file("refs/heads/main", &line(0));
    let o = run(&r.dir, AT, &[b"git-at", PATTERNS[k].0], b"");
    let b = body(&m);
    if b.len() < m.len() { reach("empty lines"); }
    if PATTERNS[k].1(b) { reach("match"); found(&o, 0) } else { reach("no match"); none(&o, false) }
}
/// Patterns of arbitrary literal characters and dots.
fn h_c22_pattern() {
    let r = Repo::new();
    let p = sym_vec("pattern", 2);
    for c in &p { assume((*c == b'.') | (*c == b' ') | (*c == b'%') | (*c >= b'a' && *c <= b'z') | (*c >= b'0' && *c <= b'9') | (*c >= b'A' && *c <= b'Z')); }
    let m = message(param("len", 3) as usize);
    assume(m[0] != b'\n');
    r.commit(0, &[], b"1000000000", b"1000000000", &m);
    r.file("refs/heads/main", &line(0));
    let o = run(&r.dir, AT, &[b"git-at", &p], b"");
    let one = |c: u8, x: u8| if c == b'.' { x != b'\n' } else { c == x };
    let hit = subst(&m, |s| s.len() >= 2 && one(p[0], s[0]) && one(p[1], s[1]));
    if hit { reach("match"); found(&o, 0) } else { reach("no match"); none(&o, false) }
}
/// Revisions that do not exist, and failures.
fn h_c22_status() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.object(&id(1), "blob", b"text\n");
    r.object(&id(2), "tree", b"");
    r.file("refs/tags/blob", &line(1));
    r.file("refs/tags/tree", &line(2));
    r.file("refs/heads/text", &line(0));
    let quiet = choice("quiet", 2) == 1;
    let mut args: Vec<Vec<u8>> = vec![b"git-at".to_vec()];
    if quiet { args.push(b"--quiet".to_vec()); }
    for (n, f) in [("summary", "-s"), ("fixup", "--no-fixup")] { if choice(n, 2) == 1 { args.push(f.into()); } }
    let bad: [&[u8]; 8] = [b"(", b"[", b"*a", b"a{2,1}", b"(?<n", b"\\", b"a)", b"(?z)"];
    let kind = choice("kind", 9);
    if kind != 0 { r.file("refs/heads/main", &line(0)); }
    let mut short = false;
    match kind {
        // no commit yet
        0 => args.push(b"t".to_vec()),
        // no such revision: a name of any two letters, an id that is not there
        1 => { let v = sym_vec("name", 2); for c in &v { assume((*c >= b'a' && *c <= b'z') | (*c >= b'0' && *c <= b'9')); }
            // two hexadecimal digits are an abbreviation that is too short to be looked up: ambiguous
            if v.iter().all(|c| *c <= b'f') { short = true; }
            args.push(v); args.push(b"t".to_vec()); }
        2 => { args.push(id(7).into_bytes()); args.push(b"t".to_vec()); }
        3 => { args.push(b"main~1".to_vec()); args.push(b"t".to_vec()); }
        // nothing matches
        4 => args.push(b"nothing".to_vec()),
        // an invalid pattern
        5 => args.push(bad[choice("bad", 8) as usize].to_vec()),
        6 => { args.push(b"text".to_vec()); args.push(bad[choice("bad", 8) as usize].to_vec()); }
        // not a commit
        7 => { args.push(if choice("object", 2) == 0 { b"blob".to_vec() } else { b"tree".to_vec() }); args.push(b"t".to_vec()); }
        // a broken object
        _ => { r.object(&id(0), "commit", [&b"tree"[..], b"tree 12\n", b"parent"][choice("broken", 3) as usize]); args.push(b"t".to_vec()); }
    }
    let l: Vec<&[u8]> = args.iter().map(|a| &a[..]).collect();
    let o = run(&r.dir, AT, &l, b"");
    if kind < 5 && !short { reach("nothing"); none(&o, quiet) } else { reach("failure"); failed(&o) }
}
/// With --show: git show is run for the commit, and its status is passed on.
fn h_c22_show() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000000", b"first\n");
    r.commit(1, &[0], b"1000000001", b"1000000001", b"second\n");
    r.file("refs/heads/main", &line(1));
    let v = sym_vec("pattern", 1);
    assume(v[0] >= b'a' && v[0] <= b'z');
    let quiet = choice("quiet", 2) == 1;
    let mut args: Vec<&[u8]> = vec![b"git-at", b"--show"];
    if quiet { args.push(b"-q"); }
    args.push(&v);
    let o = run_with(&r.dir, AT, &args, b"", || unsafe { verif_on_spawn(git); });
    let n = if b"second".contains(&v[0]) { 1 } else if b"first".contains(&v[0]) { 0 } else { reach("nothing"); return none_(&o, quiet) };
    reach("shown");
    check(o.err.is_empty(), "something is reported");
    let l = o.out.len().saturating_sub(1);
    check(o.out[..l] == [&b"git\0git\0show\0"[..], id(n).as_bytes(), b"\0"].concat()[..], "something else than git show is run");
    let k = o.out[l];
    check(o.status == if k == 255 { 3 } else { k as i32 }, "the status is not that of git show");
}
/// With --summary.
fn h_c23() {
    let r = Repo::new();
    let n = param("len", 4);
    let m = message(choice("length", n + 1) as usize);
    let k = choice("pattern", PATTERNS.len() as u64) as usize;
    r.commit(0, &[], b"1000000000", b"1000000000", &m);
    r.file("refs/heads/main", &line(0));
    let o = run(&r.dir, AT, &[b"git-at", if choice("short", 2) == 1 { b"-s" } else { b"--summary" }, PATTERNS[k].0], b"");
    let m = body(&m);
    let end = m.iter().position(|c| *c == b'\n').unwrap_or(m.len());
    if end < m.len() { reach("more lines"); }
    if PATTERNS[k].1(&m[..end]) { reach("match"); found(&o, 0) } else { reach("no match"); none(&o, false) }
}
/// With and without --no-fixup.
fn h_c24() {
    let r = Repo::new();
    // something in front, the word with one arbitrary byte, and something behind
    let mut m = sym_vec("front", choice("before", param("front", 2) + 1) as usize);
    let k = choice("word", 6) as usize;
    let word: &[u8] = [&b"fixup!"[..], b"squash!", b"amend!", b"reword!", b"fix!", b"fixup:"][k];
    let mut w = word.to_vec();
    let at = if k < 2 { choice("byte", w.len() as u64 + 1) as usize } else { w.len() };
    if at < w.len() { w[at] = sym_u8("other"); }
    m.extend_from_slice(&w);
    m.extend_from_slice(&sym_vec("behind", choice("after", 2) as usize));
    for c in &m { assume(*c != 0); }
    let space = |c: u8| is_space(c);
    let mut i = 0;
    while i < m.len() && space(m[i]) { i += 1; }
    let is = m[i..].starts_with(b"fixup!") || m[i..].starts_with(b"squash!");
    r.commit(0, &[], b"1000000000", b"1000000000", b"older\n");
    r.commit(1, &[0], b"1000000001", b"1000000001", &m);
    r.file("refs/heads/main", &line(1));
    let skip = choice("skip", 2) == 1;
    let summary = choice("summary", 2) == 1;
    let mut args: Vec<&[u8]> = vec![b"git-at"];
    if skip { args.push(b"--no-fixup"); }
    if summary { args.push(b"--summary"); }
    args.push(b"");
    let o = run(&r.dir, AT, &args, b"");
    if skip && is { reach("skipped"); found(&o, 0) } else { reach("considered"); found(&o, 1) }
}
/// No other commit to be found.
fn h_c24_all() {
    let r = Repo::new();
    let a = choice("first", 4) as usize;
    let b = choice("second", 4) as usize;
    let m: [&[u8]; 4] = [b"fixup! a\n", b" \tsquash! b\n", b"fixup a!\n", b"a\n\nfixup! b\n"];
    r.commit(0, &[], b"1000000000", b"1000000000", m[a]);
    r.commit(1, &[0], b"1000000001", b"1000000001", m[b]);
    r.file("refs/heads/main", &line(1));
    let skip = choice("skip", 2) == 1;
    let quiet = choice("quiet", 2) == 1;
    let mut args: Vec<&[u8]> = vec![b"git-at"];
    if quiet { args.push(b"--quiet"); }
    if skip { args.push(b"--no-fixup"); }
    args.push(b"a|b");
    let o = run(&r.dir, AT, &args, b"");
    if !skip || b >= 2 { reach("newest"); found(&o, 1) } else if a >= 2 { reach("older"); found(&o, 0) } else { reach("none"); none(&o, quiet) }
}
}
