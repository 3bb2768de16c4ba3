//! git-recent-refs
use crate::repo::*;
use std::os::unix::ffi::OsStrExt;
use vrt::*;

const REFS: fn() -> i32 = scutiger_refs_bin::verif_main;

fn lines(o: &[u8]) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = o.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
    check(l.pop().map_or(false, |x| x.is_empty()), "the last line is not ended");
    l
}
fn text(n: usize) -> Vec<u8> { format!("{}\n", id(n)).into_bytes() }
fn tag(r: &Repo, n: usize, target: usize, kind: &str) { r.object(&id(n), "tag", format!("object {}\ntype {}\ntag v\ntagger T <t@example.org> {} +0000\n\nmessage\n", id(target), kind, 1999999999 - n).as_bytes()); }
fn sorted(r: &Repo, author: bool) -> Outcome {
    if author { run(&r.dir, REFS, &[b"git-recent-refs", b"--sort=authordate"], b"") } else { run(&r.dir, REFS, &[b"git-recent-refs", b"--sort", b"committerdate"], b"") }
}
/// A commit of its own with a date of symbolic digits: (author's, committer's).
fn dated(r: &Repo, n: usize, digits: usize, zone: bool) -> (Vec<u8>, Vec<u8>) {
    let mut a = b"1000000000"[..10 - digits].to_vec();
    let mut c = b"1300000000"[..10 - digits].to_vec();
    for d in [&mut a, &mut c] { d.extend(sym_vec("digit", digits)); for x in &d[10 - digits..] { assume(*x >= b'0' && *x <= b'9'); } }
    let (mut az, mut cz) = (a.clone(), c.clone());
    let zones: [&[u8]; 3] = [b" +0000", b" +1300", b" -0930"];
    let k = if zone { choice("zone", 3) as usize } else { 0 };
    az.extend_from_slice(zones[k]);
    cz.extend_from_slice(zones[(k + n) % 3]);
    r.commit_tz(n, &[], &az, &cz, b"text\n");
    (a, c)
}
/// The names, each once, in an order of non-increasing dates.
fn ordered(o: &Outcome, expect: &[(Vec<u8>, Vec<u8>)]) {
    check(o.status == 0, "the references are not listed");
    check(o.err.is_empty(), "something is reported");
    let l = lines(&o.out);
    for (name, _) in expect {
        let n = l.iter().filter(|x| *x == name).count();
        check(n != 0, "a reference is not listed");
        check(n == 1, "a reference is listed twice");
    }
    check(l.len() == expect.len(), "something is listed that should not be");
    for i in 1..l.len() {
        let d = |x: &Vec<u8>| &expect.iter().find(|e| e.0 == *x).unwrap().1;
        check(d(&l[i - 1]) >= d(&l[i]), "an older reference is listed before a newer one");
    }
}

harness! {
/// The order: direct references to commits with arbitrary dates.
fn h_c25_order() {
    let r = Repo::new();
    let n = param("refs", 3) as usize;
    let author = choice("author", 2) == 1;
    let mut expect = vec![];
    let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    for i in 0..n {
        let (a, c) = dated(&r, i, param("digits", 2) as usize, true);
        let name = match choice("place", 3) { 0 => format!("refs/heads/b{}", i), 1 => format!("refs/tags/t{}", i), _ => { let s = format!("refs/heads/p{}", i); packed += &format!("{} {}\n", id(i), s); s } };
        if !name.starts_with("refs/heads/p") { r.file(&name, &text(i)); }
        expect.push((name.into_bytes(), if author { a } else { c }));
    }
    r.file("packed-refs", packed.as_bytes());
    let o = sorted(&r, author);
    reach("listed");
    ordered(&o, &expect);
}
/// Dates of any magnitude.
fn h_c25_dates() {
    let r = Repo::new();
    let author = choice("author", 2) == 1;
    let forms: [&[u8]; 7] = [b"", b"9", b"99999999", b"214748364", b"429496729", b"1000000000", b"99999999999"];
    let mut expect: Vec<(Vec<u8>, u64)> = vec![];
    for i in 0..2 {
        let mut l = vec![];
        for who in 0..2 {
            let mut d = forms[if who == author as usize { (choice("form", 7)) as usize } else { 2 + i }].to_vec();
            let c = sym_u8("digit");
            assume(c >= b'0' && c <= b'9');
            d.push(c);
            l.push(d);
        }
        r.commit(i, &[], &l[0], &l[1], b"text\n");
        let name = format!("refs/heads/b{}", i);
        r.file(&name, &text(i));
        let d = &l[1 - author as usize];
        expect.push((name.into_bytes(), d.iter().fold(0, |n, c| n * 10 + (*c - b'0') as u64)));
    }
    let o = sorted(&r, author);
    check(o.status == 0 && o.err.is_empty(), "the references are not listed");
    let l = lines(&o.out);
    check(l.len() == 2 && l[0] != l[1], "not each reference is listed once");
    let d = |x: &Vec<u8>| match expect.iter().find(|e| e.0 == *x) { Some(e) => e.1, None => fail("something is listed that should not be") };
    check(d(&l[0]) >= d(&l[1]), "an older reference is listed before a newer one");
    reach("listed");
}
/// More of them, in directories and packed.
fn h_c25_many() {
    let r = Repo::new();
    let n = [param("refs", 40), 130, 600][choice("refs", param("lengths", 2)) as usize] as usize;
    let author = choice("author", 2) == 1;
    // one in any place has any date
    let odd = [0, n / 2, n - 1][choice("odd", 3) as usize];
    let mut expect = vec![];
    let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    let mut l = vec![];
    for i in 0..n {
        let mut d: Vec<Vec<u8>> = vec![format!("12000000{:02}", i * 7 % 100).into_bytes(), format!("13000000{:02}", i * 13 % 100).into_bytes()];
        if i == odd { let mut c = sym_vec("digits", 2); if n > 40 { c[0] = b'5'; } for x in &c { assume(*x >= b'0' && *x <= b'9'); } for x in &mut d { x.truncate(8); x.extend_from_slice(&c); } }
        r.commit(i, &[], &d[0], &d[1], b"text\n");
        let name = match i % 4 { 0 => format!("refs/heads/b{}", i), 1 => format!("refs/tags/t{}", i), 2 => format!("refs/heads/topic/{}/x", i), _ => format!("refs/remotes/r/p{}", i) };
        if i % 8 >= 4 { l.push((name.clone(), i)); } else { r.file(&name, &text(i)); }
        expect.push((name.into_bytes(), d[1 - author as usize].clone()));
    }
    l.sort();
    for (name, i) in l { packed += &format!("{} {}\n", id(i), name); }
    r.file("packed-refs", packed.as_bytes());
    let o = sorted(&r, author);
    reach("listed");
    ordered(&o, &expect);
}
/// Which references: every kind of them, a few at a time, beside an ordinary one.
fn h_c25_kinds() {
    let r = Repo::new();
    let n = param("refs", 2) as usize;
    let author = choice("author", 2) == 1;
    let mut expect = vec![];
    let (a, c) = dated(&r, 0, 1, false);
    let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    r.file("refs/heads/main", &text(0));
    expect.push((b"refs/heads/main".to_vec(), if author { a } else { c }));
    r.object(&id(60), "blob", b"text\n");
    r.object(&id(61), "tree", b"");
    for i in 1..n + 1 {
        let kind = choice("kind", 21);
        let has = matches!(kind, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 15 | 17 | 18);
        let (a, c) = if has { dated(&r, i, 1, false) } else { (vec![], vec![]) };
        let mut put = |name: String| { expect.push((name.into_bytes(), if author { a.clone() } else { c.clone() })) };
        match kind {
            0 => { let s = format!("refs/heads/a/b/{}", i); r.file(&s, &text(i)); put(s) }
            1 => { let s = format!("refs/remotes/origin/r{}", i); r.file(&s, &text(i)); put(s) }
            2 => { let s = format!("refs/notes/n{}", i); r.file(&s, &text(i)); put(s) }
            // annotated tags, also of tags
            3 => { let s = format!("refs/tags/a{}", i); tag(&r, 20 + i, i, "commit"); r.file(&s, &text(20 + i)); put(s) }
            4 => { let s = format!("refs/tags/aa{}", i); tag(&r, 20 + i, i, "commit"); tag(&r, 30 + i, 20 + i, "tag"); r.file(&s, &text(30 + i)); put(s) }
            // packed, also with a peeled tag, or with an older value than the loose one
            5 => { let s = format!("refs/heads/k{}", i); packed += &format!("{} {}\n", id(i), s); put(s) }
            6 => { let s = format!("refs/tags/p{}", i); tag(&r, 20 + i, i, "commit"); packed += &format!("{} {}\n^{}\n", id(20 + i), s, id(i)); put(s) }
            7 => { let s = format!("refs/heads/old{}", i); packed += &format!("{} {}\n", id(0), s); r.file(&s, &text(i)); put(s) }
            // not to a commit
            8 => r.file(&format!("refs/tags/blob{}", i), &text(60)),
            9 => r.file(&format!("refs/tags/tree{}", i), &text(61)),
            10 => { tag(&r, 20 + i, 60, "blob"); r.file(&format!("refs/tags/tb{}", i), &text(20 + i)) }
            // symbolic, to something or nothing
            11 => r.file(&format!("refs/heads/sym{}", i), b"ref: refs/heads/main\n"),
            12 => r.file(&format!("refs/remotes/o{}/HEAD", i), b"ref: refs/heads/none\n"),
            // an object that is missing, no id at all, an empty file
            13 => r.file(&format!("refs/heads/missing{}", i), &text(70)),
            14 => r.file(&format!("refs/heads/bad{}", i), [&b"garbage\n"[..], b"", b"12345\n", b"ref: "][choice("bad", 4) as usize]),
            // names in UTF-8, and not
            15 => { let s = format!("refs/heads/\u{e9}{}", i); r.file(&s, &text(i)); put(s) }
            16 => { let s = [&b"\xff"[..], b"a\xe9", b"\xe9\xc3"][choice("name", 3) as usize]; let p = r.git.join("refs/heads").join(std::ffi::OsStr::from_bytes(s)); std::fs::write(p, text(0)).unwrap(); }
            // several references to one commit
            17 => { for p in ["refs/heads/x", "refs/heads/y", "refs/tags/x"] { let s = format!("{}{}", p, i); r.file(&s, &text(i)); put(s) } }
            18 => { let s = format!("refs/stash{}", i); r.file(&s, &text(i)); put(s) }
            // broken objects
            19 => { r.object(&id(i), "commit", b"tree 12\n"); r.file(&format!("refs/heads/broken{}", i), &text(i)); }
            _ => { r.file(&format!("refs/heads/mangled{}", i), &text(i)); r.file(&format!("objects/{}/{}", &id(i)[..2], &id(i)[2..]), b"no object"); }
        }
    }
    r.file("packed-refs", packed.as_bytes());
    match choice("head", 3) { 0 => {} 1 => r.file("HEAD", &text(0)), _ => r.file("HEAD", b"ref: refs/heads/unborn\n") }
    let o = sorted(&r, author);
    reach("listed");
    ordered(&o, &expect);
}
/// The history of checkouts.
fn h_c26() {
    let r = Repo::new();
    let n = param("entries", 3) as usize;
    for i in 0..3 { r.commit(i, &[], b"1000000000", b"1000000000", b"text\n"); }
    for (s, k) in [("main", 0), ("dev", 1), ("feature/x-1", 2)] { r.file(&format!("refs/heads/{}", s), &text(k)); }
    let head = choice("head", 3);
    let mut expect: Vec<Vec<u8>> = vec![];
    match head {
        0 => { r.file("HEAD", b"ref: refs/heads/dev\n"); expect.push(b"refs/heads/dev".to_vec()) }
        1 => { r.file("HEAD", &text(2)); expect.push(b"HEAD".to_vec()) }
        _ => r.file("HEAD", b"ref: refs/heads/unborn\n"),
    }
    // the oldest entry is in front
    let mut log = vec![];
    let mut visits: Vec<Option<Vec<u8>>> = vec![];
    for i in 0..n {
        log.extend_from_slice(format!("{} {} N <n@example.org> 100000000{} +0000\t", id(i % 3), id((i + 1) % 3), i).as_bytes());
        let kind = choice("kind", 9);
        let from: Vec<u8> = match kind { 0 => b"main".to_vec(), 1 => b"dev".to_vec(), 2 => b"feature/x-1".to_vec(), 3 => id(1).into_bytes(), 4 => b"gone".to_vec(), 5 => id(40).into_bytes(), _ => vec![] };
        match kind {
            6 => log.extend_from_slice(b"commit: checkout of main"),
            7 => log.extend_from_slice(b"reset: moving to main"),
            8 => log.extend_from_slice(b"pull --rebase: checkout of moving from main to dev"),
            _ => { log.extend_from_slice(b"checkout: moving from "); log.extend_from_slice(&from); log.extend_from_slice([&b" to main"[..], b" to v1", b" to HEAD@{1}"][i % 3]); }
        }
        log.push(b'\n');
        match kind {
            0 | 1 | 2 => { let mut s = b"refs/heads/".to_vec(); s.extend_from_slice(&from); visits.push(Some(s)) }
            3 => visits.push(Some(from)),
            4 | 5 => visits.push(None),
            _ => {}
        }
    }
    if n > 0 && choice("log", 2) == 0 { r.file("logs/HEAD", &log); } else { visits.clear(); }
    if head != 2 { for v in visits.into_iter().rev() { match v { Some(v) => expect.push(v), None => { reach("gone"); break } } } }
    let o = match choice("option", 3) { 0 => run(&r.dir, REFS, &[b"git-recent-refs"], b""), 1 => run(&r.dir, REFS, &[b"git-recent-refs", b"--sort=visitdate"], b""), _ => run(&r.dir, REFS, &[b"git-recent-refs", b"--sort", b"visitdate"], b"") };
    reach("listed");
    check(o.status == 0, "the revisions are not listed");
    check(o.err.is_empty(), "something is reported");
    let l = if o.out.is_empty() { vec![] } else { lines(&o.out) };
    check(l == expect, "not the visited revisions in their order are listed");
}
/// A long history.
fn h_c26_long() {
    let r = Repo::new();
    let n = [param("entries", 40), 105, 260][choice("entries", param("lengths", 2)) as usize] as usize;
    for i in 0..3 { r.commit(i, &[], b"1000000000", b"1000000000", b"text\n"); }
    for (s, k) in [("main", 0), ("dev", 1), ("feature/x-1", 2)] { r.file(&format!("refs/heads/{}", s), &text(k)); }
    r.file("HEAD", b"ref: refs/heads/dev\n");
    // where the history ends early, and where something else is recorded, counted from the newest entry
    let gone = [n, n - 1, 15, 33][choice("gone", 4) as usize];
    let other = [n, n - 1, 2, 34][choice("other", 4) as usize];
    let mut expect: Vec<Vec<u8>> = vec![b"refs/heads/dev".to_vec()];
    let mut log = vec![];
    for i in (0..n).rev() {
        log.extend_from_slice(format!("{} {} N <n@example.org> 1000000000 +0000\t", id(i % 3), id((i + 1) % 3)).as_bytes());
        if i == other { log.extend_from_slice(b"commit: more\n"); continue; }
        log.extend_from_slice(b"checkout: moving from ");
        log.extend_from_slice(if i == gone { b"gone" } else if i % 7 == 5 { b"feature/x-1" } else if i % 2 == 0 { b"main" } else { b"dev" });
        log.extend_from_slice(b" to main\n");
    }
    for i in 0..n {
        if i == other { continue; }
        if i == gone { reach("gone"); break; }
        expect.push([&b"refs/heads/"[..], if i % 7 == 5 { b"feature/x-1" } else if i % 2 == 0 { b"main" } else { b"dev" }].concat());
    }
    r.file("logs/HEAD", &log);
    let o = run(&r.dir, REFS, &[b"git-recent-refs"], b"");
    reach("listed");
    check(o.status == 0 && o.err.is_empty(), "the revisions are not listed");
    check(lines(&o.out) == expect, "not the visited revisions in their order are listed");
}
/// Names of branches of arbitrary letters.
fn h_c26_names() {
    let r = Repo::new();
    let n = param("len", 3) as usize;
    r.commit(0, &[], b"1000000000", b"1000000000", b"text\n");
    r.file("refs/heads/main", &text(0));
    r.file("refs/heads/to", &text(0));
    let v = sym_vec("name", choice("length", n as u64) as usize + 1);
    for c in &v { assume((*c >= b'a' && *c <= b'z') | (*c >= b'0' && *c <= b'9') | (*c == b'-') | (*c == b'_') | (*c == b'+')); }
    assume(v[0] != b'-');
    let mut log = format!("{} {} N <n@example.org> 1000000000 +0000\tcheckout: moving from ", id(0), id(0)).into_bytes();
    log.extend_from_slice(&v);
    log.extend_from_slice(b" to main\n");
    r.file("logs/HEAD", &log);
    let exists = choice("exists", 2) == 1;
    let mut full = b"refs/heads/".to_vec();
    full.extend_from_slice(&v);
    if exists { std::fs::write(r.git.join(std::ffi::OsStr::from_bytes(&full)), text(0)).unwrap(); } else {
        assume(v != b"to" && v != b"main");
        // a name that ends in hexadecimal digits can be taken for an id
        assume(v.len() < 4 || v[v.len() - 4..].iter().any(|c| !(*c >= b'a' && *c <= b'f' || *c >= b'0' && *c <= b'9')));
    }
    let o = run(&r.dir, REFS, &[b"git-recent-refs"], b"");
    check(o.status == 0 && o.err.is_empty(), "the revisions are not listed");
    let mut want = b"refs/heads/main\n".to_vec();
    if exists { reach("there"); want.extend_from_slice(&full); want.push(b'\n'); } else { reach("gone"); }
    check(o.out == want, "not the visited revisions in their order are listed");
}
}
