import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs_1 import PKT, PROC, LOCAL, PRELOAD
from bugs_2 import AT, REFS, PAGER, ERR, XFER

BUGS = [
dict(id='c18-local-time', property='C18',
  needs='a server whose time zone is not UTC and a lock made where the clocks of that zone were set back',
  breaks='The time of a lock is reported in the local zone, without saying so.',
  edits=[(LOCAL, 'use chrono::{TimeZone, Utc};', 'use chrono::{Local, TimeZone, Utc};'),
         (LOCAL, '''        Utc.timestamp_opt(self.time, 0).unwrap().to_rfc3339()
''', '''        // The clients expect the form with a numeric offset.
        let time = Local.timestamp_opt(self.time, 0).unwrap();
        time.format("%Y-%m-%dT%H:%M:%S+00:00").to_string()
''')],
  demo='''
from lfs import *
r = Repo()
r.write('lfs/locks/' + lock_id(b'foo'), b'v1:1000684800:foo')
got = r.run('upload', lock(b'foo'), env={'TZ': 'AAA-3'})[0]
check(b'locked-at=2001-09-17T00:00:00+00:00\\n' in got, got)
'''),
dict(id='c28-user-config', property='C28', kind='cli',
  needs='a pager set in the configuration of the user rather than of the repository, and a terminal',
  breaks='It is not used.',
  edits=[(PAGER, '''            .config()
''', '''            .config()
            .and_then(|config| config.open_level(git2::ConfigLevel::Local))
'''.replace('()\n            .and', '().and'))],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
out = os.path.join(SCRATCH, 'out')
with open(os.path.join(SCRATCH, '.gitconfig'), 'w') as f:
    f.write('[core]\\n\\tpager = cat > ' + out + '\\n')
for k in ('GIT_PAGER', 'PAGER'):
    os.environ.pop(k, None)
st, got = r.terminal('git-recent-refs', '--sort=committerdate', env={'PAGER': 'cat'})
check(st == 0 and os.path.exists(out), (st, got))
check(open(out).read() == 'refs/heads/main\\n', open(out).read())
'''),
dict(id='c33-buffered', property='C33', kind='cli',
  needs='a listing shorter than a buffer and an output that refuses it',
  breaks='The failure is taken for success.',
  edits=[(PAGER, '.unwrap_or_else(|| Box::new(io::stdout()))', '.unwrap_or_else(|| Box::new(io::BufWriter::new(io::stdout())))')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
st, out = r.run('git-recent-refs', '--sort=committerdate')
check(st == 0 and out == 'refs/heads/main\\n', (st, out))
with open('/dev/full', 'w') as f:
    p = subprocess.run([os.path.join(BIN, 'git-recent-refs'), '--sort=committerdate'], cwd=r.path, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE)
check(p.returncode not in (0, 101) and p.stderr, (p.returncode, p.stderr))
'''),
dict(id='c33-read-eof', property='C33',
  needs='a failure to read the requests',
  breaks='The session ends as if the client had finished.',
  edits=[(PROC, '''                Err(e) if e.io_kind() == io::ErrorKind::UnexpectedEof => return Ok(()),
                Err(e) => return Err(e),
''', '''                Err(e) if e.kind() == ErrorKind::IOError => return Ok(()),
                Err(e) => return Err(e),
''')],
  demo='''
from lfs import *
r = Repo()
# standard input is a directory, which can be opened but not read
d = os.open(SCRATCH, os.O_RDONLY)
p = subprocess.run([BIN, r.path, 'upload'], stdin=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode not in (0, 101) and p.stderr, (p.returncode, p.stderr))
'''),
dict(id='c34-memory', property='C34',
  needs='an object larger than the memory the server may use',
  breaks='A download fails, or takes the memory of the whole object.',
  edits=[(LOCAL, '''        let file = fs::File::open(path)?;
        let metadata = file.metadata()?;
        Ok((Box::new(file), Some(metadata.len())))
''', '''        let mut file = fs::File::open(path)?;
        let mut data = Vec::new();
        file.read_to_end(&mut data)?;
        let size = data.len() as u64;
        Ok((Box::new(io::Cursor::new(data)), Some(size)))
''')],
  demo='''
from lfs import *
import resource
r = Repo()
oid = sha(b'')
size = 1 << 30
r.write(r.object_path(oid), b'')
os.truncate(r.object_path(oid), size)
def less():
    resource.setrlimit(resource.RLIMIT_AS, (1 << 29, 1 << 29))
p = subprocess.Popen([BIN, r.path, 'download'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=less)
p.stdin.write(req(f'get-object {oid}\\n'))
p.stdin.close()
n = 0
while True:
    d = p.stdout.read(1 << 20)
    if not d:
        break
    n += len(d)
check(p.wait(60) == 0 and n > size, (p.returncode, n, p.stderr.read()))
'''),
dict(id='c34-files', property='C34',
  needs='a session which meets the lock of a user more often than there may be open files',
  breaks='Every look at the owner of a lock leaves a file open; the names of owners, and in the end the locks, get lost.',
  edits=[(LOCAL, '''        use std::os::unix::fs::MetadataExt;
        let st = fs::metadata(path)?;
        match passwd''', '''        use std::os::unix::fs::MetadataExt;
        use std::os::unix::io::IntoRawFd;
        // Look at the file itself, so that we don't see another one which replaces it.
        let file = fs::File::open(path)?;
        let st = file.metadata()?;
        let _ = file.into_raw_fd();
        match passwd''')],
  demo='''
from lfs import *
import resource
r = Repo()
r.write('lfs/locks/' + lock_id(b'foo'), b'v1:1000684800:foo')
resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
got = r.run('upload', req('list-lock\\n') * 100)
check(len(got) == 100 and all(g == got[0] for g in got), got[-1])
'''),
dict(id='c18-short-lock', property='C18',
  needs='a lock record of which the storage takes only a part at first, as near a quota',
  breaks='The lock is granted with what was written, so that it has another path.',
  edits=[(LOCAL, '''        f.write_all(data)?;
        f.flush()?;
''', '''        // This is less than a block, so it is written all at once.
        if f.write(data)? == 0 {
            return Err(Error::from_message(ErrorKind::IOError, "no space for the lock"));
        }
        f.flush()?;
''')],
  demo='''
from lfs import *
import resource, signal
r = Repo()
path = b'p' * 1500
def less():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1024, 1024))
p = subprocess.Popen([BIN, r.path, 'upload'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=less)
out, err = p.communicate(lock(path), 60)
# (there is no room for the record of it)
check(b'status 201' not in out, 'granted')
'''),
dict(id='c07-four-gigabytes', property='C07',
  needs='an object of 4 GiB or more',
  breaks='Only the rest of its size by 4 GiB is sent.',
  edits=[(LOCAL, '''        Ok((Box::new(file), Some(metadata.len())))
''', '''        // Don't send more than we announce if somebody appends to the file.
        let remaining = metadata.len() as u32;
        Ok((
            Box::new(io::Read::take(file, remaining.into())),
            Some(metadata.len()),
        ))
''')],
  demo='''
from lfs import *
r = Repo()
size = (1 << 32) + 5
oid = '709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5'
r.write(r.object_path(oid), b'')
os.truncate(r.object_path(oid), size)
p = subprocess.Popen([BIN, r.path, 'download'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write(req(f'get-object {oid}\\n'))
p.stdin.close()
n = 0
while n < 1 << 22:
    d = p.stdout.read(1 << 20)
    if not d:
        break
    n += len(d)
p.kill()
check(n >= 1 << 22, n)
'''),
dict(id='c35-version-prefix', property='C35',
  needs='a request for a version of which the name begins with a 1',
  breaks='Versions 10, 1.1 and so on are agreed to.',
  edits=[(PROC, '''                (b"version", Some(&b"1"), _) => self.version(),
''', '''                // A later revision of this version is compatible.
                (b"version", Some(version), _) if version.starts_with(b"1") => self.version(),
''')],
  demo='''
from lfs import *
r = Repo()
for v in ('1', '10', '1.1', '2'):
    got = code(r.run('upload', req(f'version {v}\\n'))[0])
    check(got == (200 if v == '1' else 400), (v, got))
'''),
dict(id='c35-case', property='C35',
  needs='a command with an upper-case letter',
  breaks='It is taken for the command in lower case, and carried out.',
  edits=[(PROC, '''            let resp = match (msgs[0], msgs.get(1), mode) {
''', '''            let command = msgs[0].to_ascii_lowercase();
            let resp = match (&command[..], msgs.get(1), mode) {
''')],
  demo='''
from lfs import *
r = Repo()
r.write('lfs/locks/' + lock_id(b'foo'), b'v1:1000684800:foo')
got = code(r.run('upload', req('Unlock ' + lock_id(b'foo') + '\\n'))[0])
check(got == 400 and r.locks(), got)
'''),
]
