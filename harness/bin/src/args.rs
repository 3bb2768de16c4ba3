//! Arguments.
use crate::repo::*;
use vrt::*;

const XFER: fn() -> i32 = scutiger_xfer_bin::verif_main;
const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;
const AT: fn() -> i32 = scutiger_at_bin::verif_main;

fn repo() -> Repo {
    let r = Repo::new();
    r.commit(2, &[], b"1000000000", b"1000000000", b"xa\n");
    r.commit(1, &[2], b"1000000001", b"1000000001", b"zz\n\nxa\n");
    r.commit(0, &[1], b"1000000002", b"1000000002", b"fixup! xa\n");
    r.commit(4, &[], b"1000000000", b"1000000000", b"xa\n");
    r.commit(3, &[4], b"1000000001", b"1000000001", b"squash! xa\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    r.file("refs/heads/side", format!("{}\n", id(3)).as_bytes());
    r
}
/// Bytes of an argument.
fn bytes(name: &str, n: usize) -> Vec<u8> { let v = sym_vec(name, n); for c in &v { assume(*c != 0); } v }
/// An arbitrary argument.
fn argument(name: &str, known: &[&[u8]], max: u64) -> Vec<u8> {
    let k = choice(name, known.len() as u64 + 2) as usize;
    if k < known.len() { return known[k].to_vec(); }
    // one of these with another byte in one place, or any short one
    if k == known.len() {
        let mut v = known[choice(name, known.len() as u64) as usize].to_vec();
        let i = choice(name, v.len() as u64) as usize;
        v[i] = bytes(name, 1)[0];
        return v;
    }
    let n = choice(name, max + 1) as usize;
    bytes(name, n)
}

harness! {
/// Options may be given in any order and in either spelling.
/// (Not between the revision and the pattern, where they are refused.)
fn h_c32_at() {
    let r = repo();
    let (summary, nofixup, quiet) = (choice("summary", 3), choice("nofixup", 2), choice("quiet", 3));
    let rev = choice("revision", 2) == 1;
    let found = choice("pattern", 2) == 0;
    let mut slots: [Vec<&[u8]>; 2] = [vec![], vec![]];
    if summary == 1 && quiet == 1 && choice("joined", 2) == 1 { slots[choice("where", 2) as usize].push(b"-sq"); }
    else {
        if summary > 0 { slots[choice("where", 2) as usize].push(if summary == 1 { b"-s" } else { b"--summary" }); }
        if quiet > 0 { slots[choice("where", 2) as usize].push(if quiet == 1 { b"-q" } else { b"--quiet" }); }
    }
    if nofixup > 0 { let s = &mut slots[choice("where", 2) as usize]; if choice("front", 2) == 1 { s.insert(0, b"--no-fixup"); } else { s.push(b"--no-fixup"); } }
    let mut a: Vec<&[u8]> = vec![b"git-at"];
    a.extend(&slots[0]);
    // the end of the options
    if !rev && slots[1].is_empty() && choice("end", 2) == 1 { a.push(b"--"); }
    if rev { a.push(b"side"); }
    a.push(if found { b"xa" } else { b"nothing like it" });
    a.extend(&slots[1]);
    let o = run(&r.dir, AT, &a, b"");
    if found {
        reach("found");
        let n = match (rev, summary > 0, nofixup > 0) { (false, _, false) => 0, (false, false, true) => 1, (false, true, true) => 2, (true, _, false) => 3, (true, _, true) => 4 };
        check(o.status == 0 && o.err.is_empty(), "the tool failed");
        check(o.out == format!("{}\n", id(n)).as_bytes(), "another commit is found");
    } else {
        reach("none");
        check(o.status == 1 && o.out.is_empty(), "the status without a match is not 1");
        check(o.err.is_empty() == (quiet > 0), "the lack of a match is reported or not against the option");
    }
}
/// The kind of order.
fn h_c32_refs() {
    let r = Repo::new();
    r.commit(0, &[], b"1000000000", b"1000000001", b"text\n");
    r.commit(1, &[], b"1000000001", b"1000000000", b"text\n");
    r.file("refs/heads/main", format!("{}\n", id(0)).as_bytes());
    r.file("refs/heads/side", format!("{}\n", id(1)).as_bytes());
    r.file("logs/HEAD", b"");
    let k = choice("sort", 5) as usize;
    let v: &[u8] = [&b"visitdate"[..], b"committerdate", b"authordate", b"visitdat", b"authordatex"][k];
    let o = match choice("form", 4) {
        0 => run(&r.dir, REFS, &[b"git-recent-refs", &[b"--sort=", v].concat()], b""),
        1 => run(&r.dir, REFS, &[b"git-recent-refs", b"--sort", v], b""),
        2 => { assume(k < 3); run(&r.dir, REFS, &[b"git-recent-refs", b"--sort", v, b"--"], b"") }
        _ => { assume(k == 0); run(&r.dir, REFS, &[b"git-recent-refs"], b"") }
    };
    if k > 2 { reach("unknown"); check(o.status == 1 && o.out.is_empty() && !o.err.is_empty(), "an unknown kind of order is accepted"); return 0; }
    reach("known");
    check(o.status == 0 && o.err.is_empty(), "the tool failed");
    check(o.out == [&b"refs/heads/main\n"[..], b"refs/heads/main\nrefs/heads/side\n", b"refs/heads/side\nrefs/heads/main\n"][k], "the order is another one");
}
/// Long options that do not exist.
fn h_c32_unknown() {
    let r = repo();
    let (main, zero): (fn() -> i32, &[u8]) = [(AT, &b"git-at"[..]), (REFS, b"git-recent-refs"), (XFER, b"git-lfs-transfer")][choice("tool", 3) as usize];
    let o = match choice("text", 3) {
        0 => { let v = [&b"--x"[..], &bytes("option", 1)].concat(); assume(v[2] != b'='); run(&r.dir, main, &[zero, &v], b"") }
        1 => { let v = bytes("argument", 1); run(&r.dir, main, &[zero, b"--x", &v], b"") }
        _ => { let v = [&b"--"[..], &bytes("option", 1)].concat(); run(&r.dir, main, &[zero, b".", &v, b"y"], b"") }
    };
    reach("refused");
    check(o.status == 1 && o.out.is_empty() && !o.err.is_empty(), "an unknown option is accepted");
}
/// No arguments make a tool panic.
fn h_c32_any() {
    let r = repo();
    let tool = param("tool", 0);
    let known: &[&[u8]] = match tool { 0 => &[b"xa", b"--summary", b"-q", b"--", b"--no-fixup", b"-"], 1 => &[b"--sort", b"--sort=visitdate", b"authordate", b"--"], _ => &[b".", b"upload", b"--help", b"--"] };
    let (main, zero): (fn() -> i32, &[u8]) = [(AT, &b"git-at"[..]), (REFS, b"git-recent-refs"), (XFER, b"git-lfs-transfer")][tool as usize];
    let n = choice("arguments", param("arguments", 2) + 1) as usize;
    let mut a: Vec<Vec<u8>> = vec![zero.to_vec()];
    for i in 0..n { a.push(argument("argument", known, if i == 0 { param("len", 2) } else { 1 })); }
    let l: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    // (unknown long options together with arguments that are not UTF-8: h_c32_unknown)
    let names: &[&[u8]] = match tool { 0 => &[b"--summary", b"--no-fixup"], 1 => &[b"--sort"], _ => &[b"--help"] };
    let odd = |x: &[u8]| x.len() > 2 && x.starts_with(b"--") && !names.contains(&x.split(|c| *c == b'=').next().unwrap());
    if a.iter().any(|x| odd(x)) { for x in &a { assume(std::str::from_utf8(x).is_ok()); } }
    let o = run(&r.dir, main, &l, b"");
    match o.status {
        0 => { reach("done"); check(o.err.is_empty(), "something is reported by success"); }
        1 | 2 | 4 => { reach("refused"); check(!o.err.is_empty() || tool == 0, "a failure is not reported"); check(o.out.is_empty() || tool == 2, "something is printed by a failure"); }
        _ => fail("there is no such status"),
    }
}
}
