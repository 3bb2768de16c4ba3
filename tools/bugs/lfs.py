"""Runs git-lfs-transfer (built in the current directory) on scratch repositories."""
import atexit, hashlib, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.abspath('target/debug/git-lfs-transfer')
SCRATCH = tempfile.mkdtemp(prefix='demo.')
atexit.register(shutil.rmtree, SCRATCH, True)
os.umask(0o022)


def sha(data):
    return hashlib.sha256(data).hexdigest()


def lock_id(path):
    return sha(b'v1:' + path)


def pkt(data):
    if isinstance(data, str):
        data = data.encode()
    return b'%04x' % (len(data) + 4) + data


def req(command, args=(), data=None):
    """A request: command, arguments, and (after a delimiter) data packets."""
    out = pkt(command) + b''.join(map(pkt, args))
    if data is not None:
        out += b'0001' + b''.join(map(pkt, data))
    return out + b'0000'


def put(content, oid=None, size=None):
    return req(f'put-object {oid or sha(content)}\n',
               [f'size={len(content) if size is None else size}\n'],
               [content[i:i + 65516] for i in range(0, len(content), 65516)])


def lock(path):
    return req('lock\n', [b'path=' + path + b'\n', b'refname=refs/heads/main\n'])


class Repo:
    def __init__(self):
        self.path = tempfile.mkdtemp(dir=SCRATCH)
        for d in ('objects', 'refs'):
            os.mkdir(os.path.join(self.path, d))
        self.write('HEAD', b'ref: refs/heads/main\n')
        self.write('config', b'[core]\n\trepositoryformatversion = 0\n\tbare = true\n')

    def write(self, name, data):
        name = os.path.join(self.path, name)
        os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'wb') as f:
            f.write(data)

    def object_path(self, oid):
        return os.path.join(self.path, 'lfs', 'objects', oid[:2], oid[2:4], oid)

    def store(self, content):
        self.write(self.object_path(sha(content)), content)
        return sha(content)

    def read(self, oid):
        try:
            with open(self.object_path(oid), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def locks(self):
        return sorted(os.listdir(os.path.join(self.path, 'lfs', 'locks')))

    def start(self, operation, env=None):
        return subprocess.Popen([BIN, self.path, operation], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env={**os.environ, **(env or {})})

    def run(self, operation, data, env=None, timeout=60):
        p = self.start(operation, env)
        out, err = p.communicate(data, timeout=timeout)
        self.status, self.err = p.returncode, err
        return parse(out)[1:]


def parse(out):
    """The replies: lists of packets, with None for a delimiter."""
    replies, cur, i = [], [], 0
    while i < len(out):
        n = int(out[i:i + 4], 16)
        if n == 0:
            replies.append(cur)
            cur = []
        elif n == 1:
            cur.append(None)
        else:
            cur.append(out[i + 4:i + n])
        i += max(n, 4)
    if cur:
        replies.append(cur + ['unterminated'])
    return replies


def code(reply):
    return int(reply[0].split()[1])


def preload(source):
    """Compiles a library to be preloaded, which makes system calls fail or wait."""
    lib = os.path.join(SCRATCH, 'preload.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-o', lib, os.path.join(HERE, source), '-ldl'], check=True)
    return {'LD_PRELOAD': lib}


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)
