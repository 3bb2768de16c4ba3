PKT = 'scutiger-core/src/pktline.rs'
PROC = 'scutiger-lfs/src/processor.rs'
LOCAL = 'scutiger-lfs/src/backend/local.rs'

PRELOAD = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
static int is(const char *v, const char *w) { const char *e = getenv(v); return e && !strcmp(e, w); }
/* Waits until the file named by GATE exists, having said so by creating GATE.waiting. */
static void gate(void) {
    const char *g = getenv("GATE"); char b[4096];
    snprintf(b, sizeof b, "%s.waiting", g);
    close(REAL(open)(b, O_CREAT | O_WRONLY, 0600));
    for (int i = 0; i < 3000 && access(g, F_OK); i++) usleep(10000);
}
'''

BUGS = [
dict(id='c01-length-cap', property='C01', kind='rs',
  needs='a packet header just above the largest one allowed (fff1 to ffff), read through the stream interface',
  breaks='The stream reader accepts a malformed header and takes its bytes for data, unlike the packet reader.',
  edits=[(PKT, '''    fn read_one(rdr: &mut R, buf: &mut [u8]) -> Result<PacketType, Error> {
        let mut hdr = [0u8; 4];
        rdr.read_exact(&mut hdr)?;
        let size = Self::parse_header(hdr)? as usize;
        match size {
            0 => Ok(PacketType::Flush),
            1 => Ok(PacketType::Delim),
            2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
            n if n > Self::MAX_PACKET_LEN + 4 => {
                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
            }
''', '''    fn read_one(rdr: &mut R, buf: &mut [u8]) -> Result<PacketType, Error> {
        let mut hdr = [0u8; 4];
        rdr.read_exact(&mut hdr)?;
        let size = Self::parse_header(hdr)? as usize;
        match size {
            0 => Ok(PacketType::Flush),
            1 => Ok(PacketType::Delim),
            2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
            n if n > buf.len() => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
''')],
  demo='''
use scutiger_core::pktline::Reader;
use std::io::Read;

fn main() {
    let mut data = b"fff3".to_vec();
    data.resize(100000, b'x');
    let mut buf = vec![0u8; 10];
    let r = Reader::new(&data[..]).read(&mut buf);
    std::process::exit(r.is_ok() as i32);
}
'''),
dict(id='c02-short-write', property='C02', kind='rs',
  needs='a transport which accepts only a part of a packet in one write',
  breaks='The rest of the payload is dropped, so the output no longer decodes to what was written.',
  edits=[(PKT, '        writer.write_all(header.as_bytes())?;\n        writer.write_all(buf)?;\n        Ok(buf.len())\n',
          '        writer.write_all(header.as_bytes())?;\n        Ok(writer.write(buf)?)\n')],
  demo='''
use scutiger_core::pktline::Writer;
use std::io::{self, Write};

struct Slow(Vec<u8>);

impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(5);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn main() {
    let mut out = Slow(vec![]);
    Writer::new(&mut out).write_all(b"hello, world").unwrap();
    // Any framing will do, as long as it decodes to the data.
    let (mut d, mut i) = (Vec::<u8>::new(), 0usize);
    while i < out.0.len() {
        let n = usize::from_str_radix(std::str::from_utf8(&out.0[i..i + 4]).unwrap_or("x"), 16).unwrap_or(0);
        if n < 4 || i + n > out.0.len() {
            std::process::exit(1);
        }
        d.extend(&out.0[i + 4..i + n]);
        i += n;
    }
    std::process::exit((d != b"hello, world") as i32);
}
'''),
dict(id='c03-direct-threshold', property='C03', kind='rs',
  needs='a read into a buffer of 65512 to 65515 bytes when a packet of more bytes than that comes next',
  breaks='The reader reads the packet into a buffer too small for it and panics.',
  edits=[(PKT, 'let (r, copy) = if buf.len() >= Self::MAX_PACKET_LEN {', 'let (r, copy) = if buf.len() >= Self::MAX_PACKET_LEN - 4 {')],
  demo='''
use scutiger_core::pktline::Reader;
use std::io::Read;

fn main() {
    let mut data = b"fff0".to_vec();
    data.resize(65520, b'x');
    data.extend(b"0000");
    let mut buf = vec![0u8; 65513];
    let mut r = Reader::new(&data[..]);
    let a = r.read(&mut buf).unwrap();
    let b = r.read(&mut buf).unwrap();
    std::process::exit((a + b != 65516) as i32);
}
'''),
dict(id='c04-prefix-oid', property='C04',
  needs='content whose hash agrees with the requested id only up to a point',
  breaks='Content with the wrong hash is stored.',
  edits=[(PROC, '        if actual_oid != oid {', '        if actual_oid.value()[..2] != oid.value()[..2] {')],
  demo='''
from lfs import *
r = Repo()
wrong = sha(b'a')[:2] + 'f' * 62
reply = r.run('upload', put(b'a', oid=wrong))[0]
check(code(reply) >= 400 and r.read(wrong) is None, 'content with another hash was stored')
'''),
dict(id='c04-known-object', property='C04',
  needs='a second upload of an object which is already there, with content or a size that does not match',
  breaks='Success is reported although the bytes received match neither the size nor the id.',
  edits=[(PROC, '''        let mut rdr = HashingReader::new(&mut self.handler.rdr, Sha256::new());
        let state = self.backend.start_upload(&oid, &mut rdr, &args)?;
        let actual_size = rdr.size();
''', '''        let mut rdr = HashingReader::new(&mut self.handler.rdr, Sha256::new());
        // If we have the object already, there's no need to receive it again.
        let known = self.backend.batch(Mode::Upload, &[(oid.clone(), expected_size)])?;
        if known.iter().all(|item| item.present) {
            io::copy(&mut rdr, &mut io::sink())?;
            return Ok(Status::success());
        }
        let state = self.backend.start_upload(&oid, &mut rdr, &args)?;
        let actual_size = rdr.size();
''')],
  demo='''
from lfs import *
r = Repo()
oid = r.store(b'content')
reply = r.run('upload', put(b'other', oid=oid, size=5))[0]
check(code(reply) >= 400, 'success was reported for the wrong content')
'''),
dict(id='c05-copy', property='C05',
  needs='a crash after the object was created and before all of its content was copied',
  breaks='An empty or partial object is left under the final name.',
  edits=[(LOCAL, '            .persist(&dest_path)\n            .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;\n        Ok(())\n',
          '            .persist_noclobber(&dest_path)\n            .or_else(|e| fs::copy(&e.path, &dest_path).map(|_| ()))?;\n        Ok(())\n'.replace('            .persist_noclobber(&dest_path)\n            .or_else(|e| fs::copy(&e.path, &dest_path).map(|_| ()))?;', '            .keep()\n            .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))\n            .and_then(|p| {\n                fs::copy(&p, &dest_path)?;\n                fs::remove_file(&p)?;\n                Ok(())\n            })?;'))],
  files={'preload.c': PRELOAD + r'''
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) { _exit(9); }
ssize_t sendfile(int a, int b, off_t *c, size_t n) { _exit(9); }
'''},
  demo='''
from lfs import *
r = Repo()
content = b'x' * 20000
r.run('upload', put(content), env=preload('preload.c'))
check(r.read(sha(content)) in (None, content), 'a partial object was left behind')
'''),
dict(id='c06-fixed-temp', property='C06',
  needs='two uploads of the same object at the same time',
  breaks='The second upload fails because of the temporary file of the first.',
  edits=[(LOCAL, '            .rand_bytes(12)\n', '            .suffix(".part")\n            .rand_bytes(0)\n')],
  demo='''
import time
from lfs import *
r = Repo()
content = b'y' * 20000
data = put(content)
p = r.start('upload')
p.stdin.write(data[:10000])
p.stdin.flush()
for _ in range(1000):
    d = os.path.join(r.path, 'lfs', 'incomplete')
    if os.path.isdir(d) and os.listdir(d):
        break
    time.sleep(0.01)
second = code(r.run('upload', data)[0])
out, _ = p.communicate(data[10000:])
first = code(parse(out)[1])
check((first, second) == (200, 200), f'the uploads got {first} and {second}')
'''),
dict(id='c07-stat-size', property='C07',
  needs='an object of which a part is a hole, or whose last block is not full',
  breaks='The size sent with the content is the space used on disk, rounded, whenever the file is larger than one block.',
  edits=[(LOCAL, '        Ok((Box::new(file), Some(metadata.len())))\n', '''        // Small objects are read in one go, so that their content belongs to the size we report.
        if metadata.len() < 8192 {
            let mut v = vec![0u8; metadata.len() as usize];
            let mut file = file;
            let n = file.read(&mut v)?;
            v.truncate(n);
            return Ok((Box::new(io::Cursor::new(v)), Some(n as u64)));
        }
        Ok((Box::new(file.take(metadata.len() & !511)), Some(metadata.len())))
''')],
  demo='''
from lfs import *
r = Repo()
content = b'z' * 9000
oid = r.store(content)
reply = r.run('download', req(f'get-object {oid}\\n'))[0]
i = reply.index(None)
check(code(reply) == 200 and b'size=9000\\n' in reply[:i] and b''.join(reply[i + 1:]) == content, 'the content differs')
'''),
dict(id='c08-sorted', property='C08',
  needs='a batch whose objects are not in the order of their ids, or which names one twice',
  breaks='The replies come in the order of the ids and each object once.',
  edits=[(LOCAL, '        oids.iter()\n            .map(|(oid, batch_size)| {', '        let oids: BTreeMap<&Oid, &u64> = oids.iter().map(|(oid, size)| (oid, size)).collect();\n        oids.into_iter()\n            .map(|(oid, batch_size)| {')],
  demo='''
from lfs import *
r = Repo()
ids = ['f' * 64, '0' * 64, 'f' * 64]
reply = r.run('upload', req('batch\\n', ['hash-algo=sha256\\n', 'transfer=basic\\n'], [f'{i} 7\\n' for i in ids]))[0]
check(reply[reply.index(None) + 1:] == [f'{i} 7 upload\\n'.encode() for i in ids], 'the order differs')
'''),
dict(id='c09-truncated-size', property='C09',
  needs='a stated size which differs from the true one by a multiple of 4 GiB',
  breaks='Verify succeeds although the sizes differ.',
  edits=[(LOCAL, '        if actual_size == expected_size {', '        if actual_size as u32 == expected_size as u32 {')],
  demo='''
from lfs import *
r = Repo()
oid = r.store(b'content')
reply = r.run('upload', req(f'verify-object {oid}\\n', [f'size={7 + (1 << 32)}\\n']))[0]
check(code(reply) == 409, f'verify replied {code(reply)}')
'''),
dict(id='c10-long-oid', property='C10',
  needs='an object id of 64 valid digits followed by a path',
  breaks='Files outside of the object store can be read.',
  edits=[(PROC, '''        b.len() == 64
            && b.iter()
                .all(|&x| x.is_ascii_digit() || (b'a'..=b'f').contains(&x))
''', '''        let digits = b.iter()
            .take_while(|&&x| x.is_ascii_digit() || (b'a'..=b'f').contains(&x));
        digits.count() >= 64
''')],
  demo='''
from lfs import *
r = Repo()
r.write('secret', b'secret')
d = os.path.join(r.path, 'lfs/objects/00/00')
os.makedirs(os.path.join(d, '0' * 64))
reply = r.run('download', req('get-object ' + '0' * 64 + '/../../../../../secret\\n'))[0]
check(code(reply) >= 400 and b'secret' not in reply, 'a file outside of the store was read')
'''),
dict(id='c11-unlock', property='C11',
  needs='an unlock request in a session for downloads, while the lock exists',
  breaks='A download session removes a lock.',
  edits=[(PROC, '(b"unlock", Some(id), Mode::Upload) => self.unlock(id),', '(b"unlock", Some(id), _) => self.unlock(id),')],
  demo='''
from lfs import *
r = Repo()
check(code(r.run('upload', lock(b'foo'))[0]) == 201, 'lock')
reply = r.run('download', req(f'unlock {lock_id(b"foo")}\\n'))[0]
check(code(reply) >= 400 and len(r.locks()) == 1, 'a download session removed a lock')
'''),
dict(id='c12-version', property='C12',
  needs='an unsupported version request with another request behind it',
  breaks='Later requests get no reply.',
  edits=[(PROC, '(b"version", _, _) => self.error(400, "unknown version"),', '''(b"version", _, _) => {
                    // We cannot understand anything that follows.
                    return self.handler.send_error(400, "unknown version");
                }''')],
  demo='''
from lfs import *
r = Repo()
replies = r.run('upload', req('version 2\\n') + req('version 1\\n') + req('quit\\n'))
check([code(x) for x in replies] == [400, 200, 200], 'a reply is missing')
'''),
dict(id='c13-lock-record', property='C13',
  needs='a file in the lock directory, with the name of a lock, which has fewer than two colons',
  breaks='Listing the locks makes the server panic.',
  edits=[(LOCAL, '        if v.len() != 3 || v[0] != Self::VERSION.as_bytes() {', '        if v[0] != Self::VERSION.as_bytes() {')],
  demo='''
from lfs import *
r = Repo()
r.write('lfs/locks/' + '1' * 64, b'v1')
replies = r.run('upload', req('list-lock\\n'))
check(len(replies) == 1 and r.status == 0, f'status {r.status}: {r.err}')
'''),
dict(id='c14-unlock', property='C14',
  needs='an unlock request whose flush packet never arrives',
  breaks='The lock is removed by an incomplete request.',
  edits=[(PROC, '        self.handler.read_to_flush()?;\n        let s = match std::str::from_utf8(id) {', '        let rest = self.handler.read_to_flush();\n        let s = match std::str::from_utf8(id) {'),
         (PROC, '''                match lock_backend.unlock(l) {
                    Ok(()) => Ok(Status::new_success_with_code(200, args)),
''', '''                match lock_backend.unlock(l) {
                    Ok(()) => rest.map(|_| Status::new_success_with_code(200, args)),
''')],
  demo='''
from lfs import *
r = Repo()
check(code(r.run('upload', lock(b'foo'))[0]) == 201, 'lock')
r.run('upload', req(f'unlock {lock_id(b"foo")}\\n')[:-4])
check(len(r.locks()) == 1, 'the lock is gone')
'''),
dict(id='c15-last-equals', property='C15',
  needs='a value with an equals sign in it',
  breaks='A part of the value is taken as part of the key.',
  edits=[(PROC, 'let equals = match item.iter().position(|&x| x == b\'=\') {', 'let equals = match item.iter().rposition(|&x| x == b\'=\') {')],
  demo='''
from lfs import *
r = Repo()
reply = r.run('upload', lock(b'a=b'))[0]
check(code(reply) == 201 and b'path=a=b\\n' in reply, f'{reply}')
'''),
dict(id='c15-no-newline', property='C15',
  needs='an argument without a newline at its end',
  breaks='An argument without a newline is taken, or loses its last byte.',
  edits=[(PROC, '''            if item[item.len() - 1] != b'\\n' {
                return Err(Error::from_message(
                    ErrorKind::ParseError,
                    "unexpected value parsing argument (missing newline)",
                ));
            }
''', '''            let end = match item.last() {
                Some(b'\\n') => item.len() - 1,
                _ => item.len(),
            };
'''), (PROC, 'item[equals + 1..item.len() - 1].into(),', 'item[equals + 1..end].into(),')],
  demo='''
from lfs import *
r = Repo()
reply = r.run('upload', req('lock\\n', ['path=foo', 'refname=main\\n']))[0]
check(code(reply) >= 400 and r.locks() == [], f'{reply}')
'''),
dict(id='c16-conflict', property='C16',
  needs='two sessions locking one path, where the first lock is created after the second session looked for it',
  breaks='The second session replaces the lock of the first, and both are told that they have it.',
  edits=[(LOCAL, '''            Ok(()) => Ok(()),
            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                Err(Error::new_simple(ErrorKind::Conflict))
            }
            Err(e) => Err(e.into()),
        }
    }
}

struct LocalBackendLock {''', '''            Ok(()) => Ok(()),
            // Not all file systems have hard links.
            Err(_) if !self.path.exists() => Ok(fs::rename(self.temp.path(), &self.path)?),
            Err(_) => Err(Error::new_simple(ErrorKind::Conflict)),
        }
    }
}

struct LocalBackendLock {''')],
  files={'preload.c': PRELOAD + r'''
/* A file system without hard links; another session gets in before the fallback. */
int rename(const char *a, const char *b) { if (strstr(b, "/locks/") && getenv("GATE")) gate(); return REAL(rename)(a, b); }
int linkat(int a, const char *b, int c, const char *d, int e) { errno = EPERM; return -1; }
int link(const char *a, const char *b) { errno = EPERM; return -1; }
'''},
  demo='''
import time
from lfs import *
r = Repo()
env = preload('preload.c')
gate = os.path.join(SCRATCH, 'gate')
p = r.start('upload', {**env, 'GATE': gate})
p.stdin.write(lock(b'foo'))
p.stdin.flush()
for _ in range(300):
    if os.path.exists(gate + '.waiting'):
        break
    time.sleep(0.01)
second = code(r.run('upload', lock(b'foo'), env)[0])
open(gate, 'w').close()
out, _ = p.communicate()
first = code(parse(out)[1])
check((first, second) != (201, 201), f'both sessions hold the lock')
'''),
dict(id='c18-lossy-path', property='C18',
  needs='a lock path which is not valid UTF-8',
  breaks='The path is reported with replacement characters by listings.',
  edits=[(LOCAL, '''            ([b"path ", id.as_bytes(), b" ", self.path(), b"\\n"])
                .join(b"" as &[u8])
                .into(),
''', '''            format!("path {} {}\\n", id, String::from_utf8_lossy(self.path()))
                .as_bytes()
                .into(),
''')],
  demo='''
from lfs import *
r = Repo()
reply = r.run('upload', lock(b'f\\xffoo') + req('list-lock\\n'))[1]
check(b'path ' + lock_id(b'f\\xffoo').encode() + b' f\\xffoo\\n' in reply, f'{reply}')
'''),
dict(id='c19-unsorted', property='C19',
  needs='more locks than fit on a page, in a directory whose entries are not read in the order of their names',
  breaks='Locks are listed in the order of the directory, so a cursor skips some and repeats others.',
  edits=[(LOCAL, '            Ok(mut v) => {\n                v.sort_by_key(fs::DirEntry::file_name);\n                (v, None)\n            }\n', '            Ok(v) => (v, None),\n')],
  demo='''
from lfs import *
r = Repo()
paths = [b'path%d' % i for i in range(30)]
r.run('upload', b''.join(map(lock, paths)))
seen, cursor = [], None
for _ in range(40):
    reply = r.run('upload', req('list-lock\\n', ['limit=4\\n'] + ([cursor] if cursor else [])))[0]
    seen += [x.split()[1] for x in reply if x and x.startswith(b'lock ')]
    nxt = [x for x in reply if x and x.startswith(b'next-cursor=')]
    if not nxt:
        break
    cursor = b'cursor=' + nxt[0][len(b'next-cursor='):]
check(seen == sorted(lock_id(p).encode() for p in paths), 'some locks were skipped or repeated')
'''),
dict(id='c19-limit-cap', property='C19',
  needs='more than 100 locks, and a limit above 100',
  breaks='Pages may hold more than 100 locks.',
  edits=[(PROC, '''            // Let's prevent the user from trying to DoS us.
            limit = 100
''', '''            // Let's prevent the user from trying to DoS us.
            limit = limit.min(128)
''')],
  demo='''
from lfs import *
r = Repo()
paths = [b'path%d' % i for i in range(110)]
r.run('upload', b''.join(map(lock, paths)))
reply = r.run('upload', req('list-lock\\n', ['limit=105\\n']))[0]
n = sum(1 for x in reply if x and x.startswith(b'lock '))
check(n <= 100, f'{n} locks on a page')
'''),
dict(id='c20-absent-cursor', property='C20',
  needs='a query for a path which is not locked, with a cursor',
  breaks='Success without any lock is reported instead of not-found.',
  edits=[(PROC, '''            (Ok(None), _) => self.error(404, "not found"),
            (Ok(Some(l)), Some(id)) if''', '''            (Ok(None), None) => self.error(404, "not found"),
            (Ok(None), Some(_)) => Ok(Status::new_success(vec![])),
            (Ok(Some(l)), Some(id)) if''')],
  demo='''
from lfs import *
r = Repo()
reply = r.run('upload', req('list-lock\\n', ['path=foo\\n', 'cursor=0\\n']))[0]
check(code(reply) == 404, f'the reply is {code(reply)}')
'''),
dict(id='c27-extra-data', property='C27',
  needs='a request with a repeated argument, or an upload with more data than stated',
  breaks='The mistake of the client is reported as an internal error.',
  edits=[(PROC, '                    | ErrorKind::ExtraData\n', '')],
  demo='''
from lfs import *
r = Repo()
reply = r.run('upload', put(b'abc', size=2))[0]
check(code(reply) == 400, f'the reply is {code(reply)}')
'''),
dict(id='c27-storage-hidden', property='C27',
  needs='a failure of the storage when an object is looked up for download, other than it not being there',
  breaks='Failures of the storage are reported as the object not being there.',
  edits=[(PROC, '''            Err(e) if e.io_kind() == io::ErrorKind::NotFound => {
                return Ok(Status::new_failure(404, "not found\\n".as_bytes()))
            }
            Err(e) => return Err(e),
        };
        let args = match size {''', '''            Err(e) if e.kind() == ErrorKind::IOError => {
                return Ok(Status::new_failure(404, "not found\\n".as_bytes()))
            }
            Err(e) => return Err(e),
        };
        let args = match size {''')],
  demo='''
from lfs import *
r = Repo()
oid = '1' * 64
# A plain file in place of a directory makes looking up the object fail.
r.write('lfs/objects/11', b'')
reply = r.run('download', req(f'get-object {oid}\\n'))[0]
check(code(reply) == 500, f'the reply is {code(reply)}')
'''),
]
