import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs_1 import PKT, PROC, LOCAL, PRELOAD
from bugs_2 import AT, REFS, PAGER, ERR, XFER

CLIENT = '''
from lfs import *
import select
r = Repo()
p = subprocess.Popen([BIN, r.path, 'upload'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
def reply():
    got = b''
    while not got.endswith(b'0000'):
        if not select.select([p.stdout], [], [], 20)[0]:
            p.kill()
            check(False, f'nothing follows {got}')
        d = os.read(p.stdout.fileno(), 65536)
        check(d, f'the server ended after {got}')
        got += d
    return got
check(reply() == b'000eversion=1\\n0000', 'greeting')
'''
BUGS = [
dict(id='c29-late-flush', property='C29',
  needs='a client that waits for a reply before it goes on',
  breaks='The end of a reply remains in the buffer of standard output until the next one.',
  edits=[(PKT, '''                self.writer.write_all(b"0000")?;
                self.writer.flush()?;
''', '''                self.writer.flush()?;
                self.writer.write_all(b"0000")?;
''')],
  demo=CLIENT + '''
p.stdin.write(req('version 1\\n'))
check(b'status 200' in reply(), 'version')
p.stdin.close()
check(p.wait(20) == 0, 'status')
'''),
dict(id='c29-partial', property='C29',
  needs='a packet whose bytes arrive in more than one piece',
  breaks='What has arrived is taken for the packet.',
  edits=[(PKT, '''                self.rdr.read_exact(&mut v)?;
''', '''                let n = self.rdr.read(&mut v)?;
                v.truncate(n);
''')],
  demo=CLIENT + '''
import time
b = req('version 1\\n')
p.stdin.write(b[:8])
time.sleep(1)
p.stdin.write(b[8:])
check(b'status 200' in reply(), 'version')
p.stdin.close()
check(p.wait(20) == 0, 'status')
'''),
dict(id='c30-server', property='C30',
  needs='a client that goes away before it has read the reply',
  breaks='The server complains about a client that is gone.',
  edits=[(XFER, 'libc::signal(libc::SIGPIPE, libc::SIG_DFL);', 'libc::signal(libc::SIGHUP, libc::SIG_DFL);')],
  demo='''
from lfs import *
r = Repo()
p = subprocess.Popen([BIN, r.path, 'upload'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
got = b''
while len(got) < 18:
    got += p.stdout.read(1)
p.stdout.close()
p.stdin.write(req('version 1\\n'))
p.stdin.close()
err = p.stderr.read()
check(err == b'', err)
check(p.wait(20) in (0, -13), p.returncode)
'''),
dict(id='c30-terminal', property='C30', kind='cli',
  needs='a reader of the listing that goes away, on a pipe rather than through the pager',
  breaks='The program panics.',
  edits=[(REFS, '''    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
    }
''', '''    unsafe {
        if libc::isatty(libc::STDOUT_FILENO) == 1 {
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
        }
    }
''')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
a, b = os.pipe()
os.close(a)
p = subprocess.Popen([os.path.join(BIN, 'git-recent-refs'), '--sort=authordate'], cwd=r.path, stdin=subprocess.DEVNULL, stdout=b, stderr=subprocess.PIPE)
err = p.stderr.read()
check(err == b'' and p.wait(20) in (0, -13), (p.wait(20), err))
'''),
dict(id='c31-worktree', property='C31',
  needs='a repository whose .git is a file that leads to the Git directory',
  breaks='The objects are looked for within that file.',
  edits=[(XFER, '''        let mut lfs_path = repo.path().to_path_buf();
''', '''        let mut lfs_path = match repo.workdir() {
            Some(dir) => dir.join(".git"),
            None => repo.path().to_path_buf(),
        };
''')],
  demo='''
from lfs import *
r = Repo()
r.write('config', b'[core]\\n\\trepositoryformatversion = 0\\n\\tbare = false\\n')
w = tempfile.mkdtemp(dir=SCRATCH)
with open(os.path.join(w, '.git'), 'w') as f:
    f.write('gitdir: ' + r.path + '\\n')
g, r.path = r.path, w
check(code(r.run('upload', put(b'foo'))[0]) == 200, 'upload')
r.path = g
check(os.path.exists(r.object_path(sha(b'foo'))), 'the object is not in the Git directory')
'''),
dict(id='c31-lossy', property='C31',
  needs='a repository in a directory whose name is not UTF-8',
  breaks='The repository is not found.',
  edits=[(XFER, '''    let path = matches.value_of_os("path").unwrap();
    let r = repo(path);
''', '''    let path = matches.value_of_lossy("path").unwrap();
    let r = repo(path.as_ref());
''')],
  demo='''
from lfs import *
r = Repo()
os.rename(r.path, r.path + '\\udcff')
r.path += '\\udcff'
check(code(r.run('upload', put(b'foo'))[0]) == 200, 'upload')
'''),
dict(id='c32-values', property='C32', kind='cli',
  needs='a kind of order that does not exist',
  breaks='The program panics.',
  edits=[(REFS, '''                .possible_values(&["visitdate", "committerdate", "authordate"])
''', '')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
s, out = r.run('git-recent-refs', '--sort=refname')
check(s in (1, 2), s)
'''),
dict(id='c32-override', property='C32', kind='cli',
  needs='--quiet before --summary',
  breaks='The former option is undone by the latter.',
  edits=[(AT, '''                .short("s")
''', '''                .short("s")
                .overrides_with("quiet")
''')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
s, out = r.run('git-at', '-q', '-s', 'nothing')
check((s, out, r.err) == (1, '', ''), (s, out, r.err))
'''),
]
