import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs_1 import PKT, PROC, LOCAL, PRELOAD

AT = 'scutiger-bin/src/bin/git-at.rs'
REFS = 'scutiger-bin/src/bin/git-recent-refs.rs'
PAGER = 'scutiger-bin/src/bin/pager/mod.rs'
ERR = 'scutiger-core/src/errors.rs'
XFER = 'scutiger-lfs/src/bin/git-lfs-transfer.rs'

BUGS = [
dict(id='c17-truncated', property='C17',
  needs='an unlock request killed between two operations on the record',
  breaks='The record is emptied before it is removed, so that a crash leaves a lock which is neither held nor free.',
  edits=[(LOCAL, '        fs::remove_file(&filename)?;\n', '        fs::File::create(&filename)?;\n        fs::remove_file(&filename)?;\n')],
  files={'preload.c': PRELOAD + r'''
int unlink(const char *p) { if (getenv("GATE") && strstr(p, "/locks/")) _exit(9); return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { if (getenv("GATE") && strstr(p, "/locks/")) _exit(9); return REAL(unlinkat)(d, p, f); }
'''},
  demo='''
from lfs import *
r = Repo()
check(code(r.run('upload', lock(b'foo'))[0]) == 201, 'lock')
r.run('upload', req(f'unlock {lock_id(b"foo")}\\n'), env={**preload('preload.c'), 'GATE': '/nonexistent/gate'})
again = code(r.run('upload', lock(b'foo'))[0])
check(again in (201, 409), f'locking again got {again}')
check(code(r.run('upload', req(f'unlock {lock_id(b"foo")}\\n'))[0]) == 200, 'unlocking fails')
'''),
dict(id='c21-search', property='C21',
  needs='a setting which lets others read',
  breaks='Others may read what is created but not search its directories.',
  edits=[(XFER, 'let value = value | (value & 0o444) >> 2;', 'let value = value | (value & 0o440) >> 2;')],
  demo='''
from lfs import *
r = Repo()
r.write('config', b'[core]\\n\\trepositoryformatversion = 0\\n\\tbare = true\\n\\tsharedRepository = all\\n')
check(code(r.run('upload', put(b'foo'))[0]) == 200, 'upload')
d = os.path.dirname(r.object_path(sha(b'foo')))
check(os.stat(d).st_mode & 0o777 == 0o775, oct(os.stat(d).st_mode))
'''),
dict(id='c22-topological', property='C22', kind='cli',
  needs='a merge with a commit and its parent, which is the younger one',
  breaks='The commits are not visited by date any more.',
  edits=[(AT, 'const SORT_TIME: u32 = 1 << 1;', 'const SORT_TIME: u32 = 1 << 0 | 1 << 1;')],
  demo='''
from cli import *
r = Repo()
p = r.commit('match p', date='1000000060 +0000')
a = r.commit('match a', p, date='1000000050 +0000')
r.ref('refs/heads/main', r.commit('merge', a, p, date='1000000100 +0000'))
check(r.run('git-at', 'match') == (0, p + '\\n'), 'an older commit comes first')
'''),
dict(id='c22-bad-spec', property='C22', kind='cli',
  needs='a revision which is no valid expression, or leads to no commit',
  breaks='A failure other than a missing revision is taken for one: status 1 and no message.',
  edits=[(ERR, '            git2::ErrorCode::NotFound => ErrorKind::NoSuchRevision,\n', '            git2::ErrorCode::NotFound | git2::ErrorCode::InvalidSpec | git2::ErrorCode::Peel => {\n                ErrorKind::NoSuchRevision\n            }\n')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
r.ref('refs/tags/tree', r.tree)
for rev in ('tree', 'main^{tree}', 'main^{bogus}'):
    s, out = r.run('git-at', '--quiet', rev, 'text')
    check(s == 2 and r.err != '', f'{rev}: status {s}, message {r.err!r}')
'''),
dict(id='c23-folded', property='C23', kind='cli',
  needs='a message whose first paragraph has several lines',
  breaks='The lines of the first paragraph are joined, and so the pattern can match in, or because of, the second line.',
  edits=[(AT, '            let message = commit.message_bytes();\n', '''            let message = match (self.summary, commit.summary_bytes()) {
                (true, Some(summary)) => summary,
                _ => commit.message_bytes(),
            };
''')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('first line\\nsecond line\\n\\nbody\\n'))
check(r.run('git-at', '--summary', 'second')[0] == 1, 'the second line is matched')
'''),
dict(id='c24-space', property='C24', kind='cli',
  needs='a fixup commit without white space after the exclamation mark',
  breaks='Such a commit is not skipped.',
  edits=[(AT, r'self.pattern("\\A\\s*(?:fixup|squash)!")?', r'self.pattern("\\A\\s*(?:fixup|squash)!\\s")?')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('fixup!text'))
check(r.run('git-at', '--no-fixup', 'text')[0] == 1, 'the commit is not skipped')
'''),
dict(id='c25-local-time', property='C25', kind='cli',
  needs='two commits whose order by local time differs from that by time',
  breaks='References are sorted by the local time of the commits.',
  edits=[(REFS, '''        let time = commit.author().when();
        Some(time)
''', '''        let time = commit.author().when();
        Some(Time::new(
            time.seconds() + i64::from(time.offset_minutes()) * 60,
            time.offset_minutes(),
        ))
''')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('east', date='1000000000 +1200'))
r.ref('refs/heads/west', r.commit('west', date='1000000100 -0800'))
check(r.run('git-recent-refs', '--sort=authordate') == (0, 'refs/heads/west\\nrefs/heads/main\\n'), 'the order')
'''),
dict(id='c25-tagger', property='C25', kind='cli',
  needs='an annotated tag',
  breaks='It is sorted by its own date, not that of its commit, and listed even if it leads to no commit.',
  edits=[(REFS, '''        let commit = r.peel_to_commit().ok()?;
        let time = commit.committer().when();
        Some(time)
''', '''        if let Ok(Some(tagger)) = r.peel_to_tag().map(|t| t.tagger().map(|s| s.when())) {
            return Some(tagger);
        }
        let commit = r.peel_to_commit().ok()?;
        let time = commit.committer().when();
        Some(time)
''')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('old', date='1000000000 +0000'))
r.ref('refs/heads/new', r.commit('new', date='1000000100 +0000'))
r.git('tag', '-a', '-m', 'tag', 'tag', 'main', env={'GIT_COMMITTER_DATE': '1000000200 +0000'})
s, out = r.run('git-recent-refs', '--sort=committerdate')
check(out.startswith('refs/heads/new\\n'), out)
'''),
dict(id='c26-consecutive', property='C26', kind='cli',
  needs='a history in which the same branch comes twice in a row',
  breaks='It is listed only once.',
  edits=[(REFS, '''                Ok(Box::new(
                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
                        .take_while(Option::is_some)
                        .map(Option::unwrap),
                ))
''', '''                let mut last: Option<String> = None;
                Ok(Box::new(
                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
                        .take_while(Option::is_some)
                        .map(Option::unwrap)
                        .filter(move |s| {
                            let same = last.as_ref() == Some(s);
                            last = Some(s.clone());
                            !same
                        }),
                ))
''')],
  demo='''
from cli import *
r = Repo()
r.git('checkout', '-q', '-b', 'main2', r.commit('text'))
r.git('update-ref', 'refs/heads/main', 'HEAD')
for n in ('main', 'main2', 'main2', 'main'):
    r.git('checkout', '-q', n)
s, out = r.run('git-recent-refs')
want = ['HEAD'] + ['@{-%d}' % i for i in range(1, 9)]
want = [subprocess.run(['git', 'rev-parse', '--symbolic-full-name', w], cwd=r.path, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip() for w in want]
want = [w for w in want if w.startswith('refs/')]
check(out.split()[:len(want)] == want, f'{out.split()} instead of {want}')
'''),
dict(id='c26-limit', property='C26', kind='cli',
  needs='a history of more than ninety-nine checkouts',
  breaks='The listing ends after the ninety-ninth.',
  edits=[(REFS, 'let range = 1..;', 'let range = 1..100;')],
  demo='''
from cli import *
r = Repo()
c = r.commit('text')
r.ref('refs/heads/main', c)
r.ref('refs/heads/other', c)
z = '0' * 40
with open(os.path.join(r.path, '.git/logs/HEAD'), 'w') as f:
    for i in range(60):
        f.write(f'{c} {c} C <c@example.org> 1000000000 +0000\\tcheckout: moving from main to other\\n')
        f.write(f'{c} {c} C <c@example.org> 1000000000 +0000\\tcheckout: moving from other to main\\n')
check(r.run('git-recent-refs') == (0, 'refs/heads/main\\n' + 'refs/heads/other\\nrefs/heads/main\\n' * 60), 'the listing is cut short')
'''),
dict(id='c28-precedence', property='C28', kind='cli',
  needs='both PAGER and core.pager set, and GIT_PAGER not',
  breaks='PAGER wins over core.pager.',
  edits=[(PAGER, '            .or(core_pager)\n            .or_else(|| env::var_os("PAGER"))\n', '            .or_else(|| env::var_os("PAGER"))\n            .or(core_pager)\n')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
r.git('config', 'core.pager', 'sed s/^/config:/')
os.environ.pop('GIT_PAGER', None)
s, out = r.terminal('git-recent-refs', '--sort=authordate', env={'PAGER': 'sed s/^/env:/'})
check(out == 'config:refs/heads/main\\n', out)
'''),
dict(id='c28-stream', property='C28', kind='cli',
  needs='standard output and another standard stream of which only one is a terminal',
  breaks='The wrong stream decides about paging.',
  edits=[(PAGER, 'if unsafe { libc::isatty(io::stdout().as_raw_fd()) } != 1 {', 'if unsafe { libc::isatty(io::stderr().as_raw_fd()) } != 1 {')],
  demo='''
from cli import *
r = Repo()
r.ref('refs/heads/main', r.commit('text'))
s, out = r.terminal('git-recent-refs', '--sort=authordate', env={'GIT_PAGER': 'sed s/^/paged:/'})
check(out == 'paged:refs/heads/main\\n', out)
'''),
]
