//! A test of the executor, not of /repo: to run it, add this file to harness/lfs/src with `mod selfstd;`
//! and `tempfile = "3"`, `chrono = "0.4"` to its dependencies.
//! What code under test may come to use of the standard library.
use std::collections::*;
use std::fs;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::*;
use std::time::*;
use vrt::*;

fn get(n: u64, d: &std::path::Path) {
    let f = d.join("f");
    match n {
        0 => { let mut m = HashMap::new(); for i in 0..100 { m.insert(i, i * 2); } check(m[&7] == 14, "hashmap"); let s: HashSet<&str> = ["a", "b", "a"].iter().cloned().collect(); check(s.len() == 2, "hashset"); }
        1 => { let mut m = BTreeMap::new(); for i in 0..100 { m.insert(100 - i, i); } check(m.iter().next() == Some((&1, &99)), "btree"); let mut h = BinaryHeap::new(); h.push(1); h.push(3); check(h.pop() == Some(3), "heap"); let mut q = VecDeque::new(); q.push_front(1); q.push_back(2); check(q.len() == 2, "deque"); }
        2 => { fs::write(&f, b"hello").unwrap(); check(fs::copy(&f, d.join("g")).unwrap() == 5, "copy"); check(fs::read(d.join("g")).unwrap() == b"hello", "copy"); }
        3 => { fs::write(&f, b"hello").unwrap(); fs::rename(&f, d.join("g")).unwrap(); fs::hard_link(d.join("g"), d.join("h")).unwrap(); check(fs::metadata(d.join("h")).unwrap().nlink() == 2, "nlink"); fs::remove_file(d.join("g")).unwrap(); check(fs::read_to_string(d.join("h")).unwrap() == "hello", "link"); }
        4 => { fs::write(&f, b"hello").unwrap(); let p = fs::canonicalize(&f).unwrap(); check(p.ends_with("f"), "canonicalize"); check(f.exists() && f.is_file() && !f.is_dir(), "exists"); check(f.try_exists().unwrap(), "try_exists"); }
        5 => { let mut g = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).mode(0o640).open(&f).unwrap(); g.write_all(b"hello world").unwrap(); g.seek(SeekFrom::Start(6)).unwrap(); let mut s = String::new(); g.read_to_string(&mut s).unwrap(); check(s == "world", "seek"); g.set_len(3).unwrap(); g.sync_all().unwrap(); g.sync_data().unwrap(); check(g.metadata().unwrap().len() == 3, "set_len"); g.rewind().unwrap(); check(g.stream_position().unwrap() == 0, "pos"); }
        6 => { fs::write(&f, b"a\nb\r\nc").unwrap(); let r = io::BufReader::new(fs::File::open(&f).unwrap()); let l: Vec<String> = r.lines().map(|x| x.unwrap()).collect(); check(l == ["a", "b", "c"], "lines"); let mut w = io::BufWriter::with_capacity(4, fs::File::create(&f).unwrap()); for i in 0..10 { write!(w, "{} ", i).unwrap(); } w.flush().unwrap(); check(fs::read(&f).unwrap().len() == 20, "bufwriter"); let mut w = io::LineWriter::new(fs::File::create(&f).unwrap()); w.write_all(b"x\ny").unwrap(); drop(w); }
        7 => { fs::write(&f, b"hello").unwrap(); fs::set_permissions(&f, fs::Permissions::from_mode(0o600)).unwrap(); check(fs::metadata(&f).unwrap().permissions().mode() & 0o777 == 0o600, "chmod"); let g = fs::File::open(&f).unwrap(); g.set_permissions(fs::Permissions::from_mode(0o644)).unwrap(); check(fs::metadata(&f).unwrap().mode() & 0o777 == 0o644, "fchmod"); let mut p = fs::metadata(&f).unwrap().permissions(); p.set_readonly(true); fs::set_permissions(&f, p).unwrap(); }
        8 => { fs::create_dir_all(d.join("a/b/c")).unwrap(); fs::DirBuilder::new().mode(0o700).recursive(true).create(d.join("x/y")).unwrap(); fs::write(d.join("a/f"), b"").unwrap(); let mut n: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name()).collect(); n.sort(); check(n.len() == 2, "read_dir"); for e in fs::read_dir(d.join("a")).unwrap() { let e = e.unwrap(); let t = e.file_type().unwrap(); check(t.is_dir() || t.is_file(), "type"); e.metadata().unwrap(); } fs::remove_dir_all(d.join("a")).unwrap(); check(!d.join("a").exists(), "remove_dir_all"); fs::remove_dir(d.join("x/y")).unwrap(); }
        9 => { symlink("f", d.join("l")).unwrap(); check(fs::symlink_metadata(d.join("l")).unwrap().file_type().is_symlink(), "symlink"); check(fs::read_link(d.join("l")).unwrap() == std::path::Path::new("f"), "read_link"); check(!d.join("l").exists(), "dangling"); }
        10 => { let t = Instant::now(); let s = SystemTime::now(); check(t.elapsed() >= Duration::from_secs(0), "instant"); check(s.duration_since(UNIX_EPOCH).unwrap().as_secs() > 1000, "time"); std::thread::sleep(Duration::from_millis(1)); fs::write(&f, b"").unwrap(); let m = fs::metadata(&f).unwrap(); m.modified().unwrap(); m.accessed().unwrap(); let _ = m.created(); }
        11 => { check(std::process::id() > 0, "pid"); std::env::var("NOPE").unwrap_err(); std::env::var_os("PATH"); std::env::current_dir().unwrap(); std::env::temp_dir(); let _ = std::env::args_os().count(); for _ in std::env::vars_os() {} }
        12 => { let a = Arc::new(Mutex::new(1)); *a.lock().unwrap() += 1; check(*a.lock().unwrap() == 2, "mutex"); let r = RwLock::new(1); check(*r.read().unwrap() == 1, "rwlock"); *r.write().unwrap() = 2; static N: AtomicUsize = AtomicUsize::new(0); N.fetch_add(1, Ordering::SeqCst); static O: Once = Once::new(); O.call_once(|| { N.fetch_add(1, Ordering::SeqCst); }); static L: OnceLock<String> = OnceLock::new(); check(L.get_or_init(|| "x".into()) == "x", "once"); thread_local!(static T: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![])); T.with(|t| t.borrow_mut().push(1)); }
        13 => { check(format!("{:.2} {:e} {}", 1.5f64, 1500.0f64, 0.1f32) == "1.50 1.5e3 0.1", "float"); check("2.5".parse::<f64>().unwrap() * 2.0 == 5.0, "parse float"); check(format!("{:>5}|{:<5}|{:^5}|{:#x}|{:08b}|{:?}", 1, "a", 'c', 255, 5u8, Some("q\n")) == "    1|a    |  c  |0xff|00000101|Some(\"q\\n\")", "format"); check(i128::MAX.to_string().len() == 39, "i128"); }
        15 => { let h = std::thread::spawn(|| 5); check(h.join().unwrap() == 5, "thread"); }
        16 => { let mut v: Vec<u32> = (0..300).map(|x| x * 7919 % 1000).collect(); v.sort(); v.dedup(); check(v.binary_search(&7).is_ok() || true, "sort"); let mut w: Vec<String> = v.iter().map(|x| x.to_string()).collect(); w.sort_unstable_by(|a, b| b.cmp(a)); w.sort_by_key(|x| x.len()); w.retain(|x| x.len() > 1); w.reverse(); check(w.join(",").len() > 100, "join"); w.sort_by_cached_key(|x| x.clone()); v.rotate_left(3); v.chunks(7).count(); v.windows(2).count(); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().partition(|x| **x > 500); check(a.len() + b.len() == v.len(), "partition"); v.select_nth_unstable(3); }
        17 => { let s = "h\u{e9}llo w\u{f6}rld"; check(s.to_uppercase() == "H\u{c9}LLO W\u{d6}RLD", "upper"); check(s.chars().rev().count() == 11, "chars"); check(s.split_whitespace().count() == 2, "split"); check(s.find("w\u{f6}") == Some(7), "find"); check(s.replace('l', "L").matches('L').count() == 3, "replace"); check(String::from_utf8_lossy(b"a\xffb") == "a\u{fffd}b", "lossy"); check(s.escape_debug().to_string().len() > 5, "escape"); check("  x ".trim() == "x" && "a=b=c".splitn(2, '=').nth(1) == Some("b=c") && "a=b".split_once('=') == Some(("a", "b")) && "abc".strip_prefix("a") == Some("bc") && "a,b".rsplit(',').next() == Some("b"), "str"); check(s.char_indices().nth(2).unwrap().0 == 3, "ci"); check(s.to_ascii_lowercase().eq_ignore_ascii_case(&s.to_ascii_uppercase()), "case"); check("\u{1F600}".encode_utf16().count() == 2, "utf16"); check("x".repeat(5) == "xxxxx", "repeat"); check("12".parse::<u8>().is_ok() && "300".parse::<u8>().is_err() && u64::from_str_radix("ff", 16) == Ok(255), "parse"); }
        18 => { let mut c = io::Cursor::new(vec![1u8, 2, 3]); let mut b = [0; 2]; c.read_exact(&mut b).unwrap(); let mut t = c.take(1); let mut v = vec![]; t.read_to_end(&mut v).unwrap(); check(v == [3], "take"); let mut ch = (&b"ab"[..]).chain(&b"cd"[..]); let mut s = String::new(); ch.read_to_string(&mut s).unwrap(); check(s == "abcd", "chain"); check(io::copy(&mut &b"xyz"[..], &mut io::sink()).unwrap() == 3, "copy"); check((&b"xyz"[..]).bytes().count() == 3, "bytes"); let mut w = vec![]; w.write_vectored(&[io::IoSlice::new(b"ab"), io::IoSlice::new(b"c")]).unwrap(); check(w == b"abc", "vectored"); let mut u = vec![]; (&b"a:b"[..]).read_until(b':', &mut u).unwrap(); check(u == b"a:", "until"); }
        19 => { let g = fs::File::create(&f).unwrap(); let g2 = g.try_clone().unwrap(); (&g).write_all(b"a").unwrap(); (&g2).write_all(b"b").unwrap(); check(fs::read(&f).unwrap() == b"ab", "clone"); g.write_at(b"z", 0).unwrap(); let h = fs::File::open(&f).unwrap(); let mut b = [0; 2]; h.read_at(&mut b, 0).unwrap(); check(&b == b"zb", "pread"); let mut o = fs::OpenOptions::new().append(true).open(&f).unwrap(); o.write_all(b"c").unwrap(); check(fs::read(&f).unwrap() == b"zbc", "append"); }
        20 => { let mut t = tempfile::NamedTempFile::new_in(d).unwrap(); t.write_all(b"x").unwrap(); check(t.as_file().metadata().unwrap().len() == 1, "temp"); t.persist(&f).unwrap(); check(fs::read(&f).unwrap() == b"x", "persist"); let t = tempfile::tempdir_in(d).unwrap(); check(t.path().exists(), "tempdir"); let b = tempfile::Builder::new().prefix("p").suffix(".s").rand_bytes(5).tempfile_in(d).unwrap(); let p = b.into_temp_path(); check(p.exists(), "temppath"); let _ = tempfile::NamedTempFile::new_in(d).unwrap().persist_noclobber(&f).is_err(); }
        21 => { let e = io::Error::new(io::ErrorKind::Other, "x"); check(e.to_string() == "x", "error"); let e = fs::File::open(d.join("no")).unwrap_err(); check(e.raw_os_error() == Some(2) && e.to_string().contains("No such file"), "oserror"); let b: Box<dyn std::error::Error + Send + Sync> = "s".into(); check(b.to_string() == "s", "box"); check(fs::create_dir(d).unwrap_err().kind() == io::ErrorKind::AlreadyExists, "exists"); fs::create_dir(d.join("q")).unwrap(); fs::write(d.join("q/x"), b"").unwrap(); let _ = fs::remove_dir(d.join("q")).unwrap_err(); }
        22 => { let r: Result<(), fmt::Error> = Ok(()); r.unwrap(); let mut s = String::new(); use std::fmt::Write; write!(s, "{:?} {:#?}", vec![(1, 'a')], Some(3)).unwrap(); check(s.len() > 10, "debug"); let x: Box<dyn Fn(i32) -> i32> = Box::new(|a| a + 1); check(x(1) == 2, "box"); let it = (1..5).zip("abcd".chars()).map(|(a, b)| format!("{}{}", a, b)).collect::<Vec<_>>().concat(); check(it == "1a2b3c4d", "iter"); check((1..=10).step_by(3).sum::<i32>() == 22, "sum"); check([3, 1, 2].iter().max() == Some(&3) && (0..3).fold(0, |a, b| a + b) == 3, "fold"); let mut p = [1, 2, 3].iter().peekable(); check(p.peek() == Some(&&1), "peek"); check((0..10).scan(0, |a, b| { *a += b; Some(*a) }).take_while(|x| *x < 20).last() == Some(15), "scan"); }
        23 => { let p = std::path::PathBuf::from("/a/b/c.txt"); check(p.extension().unwrap() == "txt" && p.file_stem().unwrap() == "c" && p.parent().unwrap().to_str() == Some("/a/b") && p.components().count() == 4 && p.with_extension("x").display().to_string() == "/a/b/c.x" && p.strip_prefix("/a").unwrap().to_string_lossy() == "b/c.txt" && p.starts_with("/a") && p.is_absolute(), "path"); check(p.join("../d").ancestors().count() == 6, "ancestors"); }
        24 => { let mut c = std::process::Command::new("true"); c.arg("x"); check(format!("{:?}", c).contains("true"), "command"); let rc = std::rc::Rc::new(std::cell::Cell::new(1)); rc.set(2); let w = std::rc::Rc::downgrade(&rc); check(w.upgrade().unwrap().get() == 2, "rc"); let c = std::borrow::Cow::Borrowed("x"); check(c.into_owned() == "x", "cow"); }
        25 => { let (tx, rx) = mpsc::channel(); tx.send(1).unwrap(); check(rx.recv().unwrap() == 1 && rx.try_recv().is_err(), "channel"); let p = Condvar::new(); p.notify_all(); }
        26 => { let t = chrono::Utc::now(); check(t.to_rfc3339().len() > 10 && t.timestamp() > 1000, "chrono"); check(t.format("%Y-%m-%d %H:%M:%S").to_string().len() == 19, "strftime"); use chrono::TimeZone; let u = chrono::Utc.timestamp_opt(1000000000, 0).unwrap(); check(u.to_string() == "2001-09-09 01:46:40 UTC", "chrono"); check(chrono::DateTime::parse_from_rfc3339("2001-09-09T01:46:40+00:00").unwrap().timestamp() == 1000000000, "parse"); }
        27 => { let g = fs::File::create(&f).unwrap(); unsafe { check(libc::flock(std::os::unix::io::AsRawFd::as_raw_fd(&g), libc::LOCK_EX) == 0, "flock"); libc::fsync(std::os::unix::io::AsRawFd::as_raw_fd(&g)); } let dd = fs::File::open(d).unwrap(); dd.sync_all().unwrap(); let _ = g.set_modified(SystemTime::now()); }
        29 => { fs::write(&f, b"hello").unwrap(); let mut a = [0; 2]; let mut b = [0; 3]; let mut h = fs::File::open(&f).unwrap(); let n = h.read_vectored(&mut [io::IoSliceMut::new(&mut a), io::IoSliceMut::new(&mut b)]).unwrap(); check(n >= 2 && &a == b"he", "readv"); use std::os::unix::ffi::OsStrExt; check(std::ffi::OsStr::from_bytes(b"\xff").to_string_lossy() == "\u{fffd}", "os"); let c = std::ffi::CString::new("x").unwrap(); check(c.as_bytes_with_nul().len() == 2, "c"); check(std::panic::catch_unwind(|| 1).unwrap() == 1, "catch"); let a: std::sync::Arc<str> = "x".into(); check(&*a == "x", "arc"); let l = std::sync::LazyLock::new(|| 5); check(*l == 5, "lazy"); let v: Vec<u8> = (0..=255u8).collect(); check(v.iter().map(|x| format!("{:02x}", x)).collect::<String>().len() == 512, "hex"); check(v.iter().map(|x| *x as u64).sum::<u64>() == 32640, "sum"); }
        _ => { eprintln!("x"); let e = io::stderr(); let mut l = e.lock(); writeln!(l, "y").unwrap(); let _ = io::stdout().lock().flush(); let s = io::stdin(); let _ = s.lock(); }
    }
}
use std::fmt;
#[no_mangle]
pub extern "C" fn h_self_std() -> i32 {
    let d = scratch().join("self");
    fs::create_dir(&d).unwrap();
    let n = choice("what", 30);
    assume(param("only", 99) == 99 || n == param("only", 99));
    get(n, &d);
    reach("end");
    0
}
