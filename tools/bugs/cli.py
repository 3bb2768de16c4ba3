"""Runs the command-line tools (built in the current directory) on scratch repositories."""
import atexit, os, pty, shutil, subprocess, sys, tempfile

BIN = os.path.abspath('target/debug')
SCRATCH = tempfile.mkdtemp(prefix='demo.')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ.update(HOME=SCRATCH, GIT_CONFIG_NOSYSTEM='1', GIT_AUTHOR_NAME='A', GIT_AUTHOR_EMAIL='a@example.org',
                  GIT_COMMITTER_NAME='C', GIT_COMMITTER_EMAIL='c@example.org')


class Repo:
    def __init__(self):
        self.path = tempfile.mkdtemp(dir=SCRATCH)
        self.git('init', '-q', '.')
        self.git('symbolic-ref', 'HEAD', 'refs/heads/main')
        self.tree = self.git('write-tree')

    def git(self, *args, **kw):
        p = subprocess.run(['git', *args], cwd=self.path, stdout=subprocess.PIPE, check=True,
                           input=kw.get('input', '').encode(), env={**os.environ, **kw.get('env', {})})
        return p.stdout.decode().strip()

    def commit(self, message, *parents, date='1000000000 +0000', author=None):
        args = [x for p in parents for x in ('-p', p)]
        env = {'GIT_COMMITTER_DATE': date, 'GIT_AUTHOR_DATE': author or date}
        return self.git('commit-tree', self.tree, *args, input=message, env=env)

    def ref(self, name, target):
        self.git('update-ref', name, target)

    def run(self, tool, *args, env=None):
        p = subprocess.run([os.path.join(BIN, tool), *args], cwd=self.path, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, **(env or {})}, timeout=60)
        self.err = p.stderr.decode()
        return p.returncode, p.stdout.decode()

    def terminal(self, tool, *args, env=None, stderr=None):
        """The same with a terminal for its standard output."""
        a, b = pty.openpty()
        p = subprocess.Popen([os.path.join(BIN, tool), *args], cwd=self.path, stdin=subprocess.DEVNULL, stdout=b,
                             stderr=stderr or subprocess.DEVNULL, env={**os.environ, **(env or {})})
        os.close(b)
        out = b''
        while True:
            try:
                d = os.read(a, 4096)
            except OSError:
                d = b''
            if not d:
                break
            out += d
        os.close(a)
        return p.wait(60), out.decode().replace('\r\n', '\n')


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)
