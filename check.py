#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

usage: check.py ID quick|thorough | check.py setup | check.py list

Everything is rebuilt from /repo's working tree: the harness crates are compiled against it to LLVM
IR, which the executor in symex/ runs symbolically (see DESIGN.md).  A counterexample is replayed
against the natively compiled code, and only one which fails there too is reported.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
TRIPLE = 'x86_64-unknown-linux-gnu'
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)
FLAGS = '--emit=llvm-ir --cfg rustix_use_libc -C opt-level=1 -C no-vectorize-loops -C no-vectorize-slp'


class Broken(Exception):
    pass


def run(cmd, cwd=None, env=None, what=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Broken('%s failed:\n%s' % (what or ' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    with Lock('engine'):
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'symex'))
        run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(V, 'symex'), env=e, what='building the executor')
    return os.path.join(B, 'symex', 'release', 'symex')


def stdir():
    d = os.path.join(B, 'std')
    with Lock('std'):
        if not os.path.exists(os.path.join(d, 'done')):
            if os.path.exists(d):
                shutil.rmtree(d)
            run([os.path.join(V, 'tools', 'stdir.sh'), d], what='disassembling the standard library')
    return sorted(glob.glob(os.path.join(d, '*.ll')))


def clibs():
    """The C libraries of the command-line tools: a directory with IR and archives."""
    d = os.path.join(B, 'clibs')
    with Lock('clibs'):
        h = tree_hash([os.path.join(V, 'tools', 'clibs.sh'), os.path.join(V, 'symex', 'libc'), os.path.join(V, 'harness', 'native', 'spawn.c')])
        if not os.path.exists(d + '/done') or open(d + '/done').read() != h:
            if os.path.exists(d):
                shutil.rmtree(d)
            run([os.path.join(V, 'tools', 'clibs.sh'), d], what='compiling the C libraries')
            open(d + '/done', 'w').write(h)
    return d


def libs_ir(crate):
    return sorted(glob.glob(clibs() + '/ll/*.ll')) if crate == 'bin' else []


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for r, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'fixtures'))
                for f in sorted(fs):
                    h.update(os.path.join(r, f).encode())
                    h.update(open(os.path.join(r, f), 'rb').read())
        elif os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def crate_files(crate):
    """The generated crate: a dict of relative path to contents."""
    src = os.path.join(V, 'harness', crate)
    out = {}
    for r, ds, fs in os.walk(src):
        ds[:] = [d for d in ds if d != 'target']
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, src)] = open(p).read()
    gen = os.path.join(src, 'gen.py')
    if os.path.exists(gen):
        g = {}
        exec(compile(open(gen).read(), gen, 'exec'), g)
        out.update(g['generate'](REPO))
        out.pop('gen.py', None)
    out['Cargo.toml'] = out['Cargo.toml'].replace('@VERIF@', V).replace('@REPO@', REPO)
    out['Cargo.lock'] = open(os.path.join(REPO, 'Cargo.lock')).read()
    links = ''.join('[target.%s.%s]\nrustc-link-lib = ["%s"]\n' % (TRIPLE, a, b) for a, b in (('git2', 'git2'), ('z', 'z'), ('pcre2-8', 'pcre2-8')))
    out['.cargo/config.toml'] = links
    return out


def harness_text(crate):
    return '\n'.join(open(f).read() for f in glob.glob(os.path.join(V, 'harness', crate, '**', '*.rs'), recursive=True))


def crate_ir(crate):
    d = os.path.join(B, 'crates', crate)
    t = os.path.join(B, 't-' + crate)
    deps = os.path.join(t, TRIPLE, 'release', 'deps')
    with Lock('crate-' + crate):
        files = crate_files(crate)
        base = hashlib.sha256((FLAGS + files['Cargo.lock'] + files['Cargo.toml'] + run(['rustc', '-vV']) + tree_hash([os.path.join(REPO, x) for x in ('Cargo.toml', 'scutiger-core/Cargo.toml', 'scutiger-lfs/Cargo.toml', 'scutiger-bin/Cargo.toml')])).encode()).hexdigest()
        own = tree_hash([os.path.join(REPO, x) for x in ('scutiger-core', 'scutiger-lfs', 'scutiger-bin')] + [os.path.join(V, 'harness')])
        bs, os_ = os.path.join(t, 'base'), os.path.join(t, 'own')
        rd = lambda p: open(p).read() if os.path.exists(p) else ''
        if rd(bs) != base and os.path.exists(t):
            shutil.rmtree(t)
        if rd(os_) != own or not os.path.exists(deps):
            os.makedirs(t, exist_ok=True)
            # never trust time stamps for the code under test
            for p in glob.glob(os.path.join(t, TRIPLE, 'release', '.fingerprint', '*')) + glob.glob(deps + '/*'):
                n = re.sub(r'^lib', '', os.path.basename(p))
                if re.match(r'(scutiger|vrt|v' + crate + ')', n):
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            if os.path.exists(d):
                shutil.rmtree(d)
            for n, c in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(c)
            e = dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS=FLAGS)
            if os.path.exists(os_):
                os.remove(os_)
            run(['cargo', 'build', '--lib', '--release', '--offline', '--target', TRIPLE], cwd=d, env=e, what='compiling the code under test')
            open(bs, 'w').write(base)
            open(os_, 'w').write(own)
    return sorted(glob.glob(deps + '/*.ll'))


def native(crate, entry):
    """Build the native replay program for one harness; its path."""
    out = os.path.join(B, 'replay-%s-%s' % (crate, entry))
    deps = os.path.join(B, 't-' + crate, TRIPLE, 'release', 'deps')
    with Lock('native-' + crate):
        stamp = tree_hash([os.path.join(B, 't-' + crate, 'own'), os.path.join(V, 'harness'), os.path.join(V, 'check.py')])
        if os.path.exists(out) and os.path.exists(out + '.own') and open(out + '.own').read() == stamp:
            return out
        w = tempfile.mkdtemp(prefix='native-', dir=B)
        try:
            run(['gcc', '-O1', '-w', '-c', '-DVERIF_ENTRY=' + entry, os.path.join(V, 'harness', 'native', 'shim.c'), '-o', w + '/shim.o'], what='compiling the replay shim')
            und = set()
            for f in [] if crate == 'bin' else glob.glob(deps + '/*.ll'):
                und |= set(re.findall(r'^declare [^@\n]*@((?:git|pcre2|giterr)_\w+)', open(f).read(), re.M))
            open(w + '/stubs.c', 'w').write('void abort(void);\n' + ''.join('__attribute__((weak)) void %s(void) { abort(); }\n' % n for n in sorted(und)))
            run(['gcc', '-O1', '-w', '-c', w + '/stubs.c', '-o', w + '/stubs.o'], what='compiling the replay stubs')
            for l in ('git2', 'z', 'pcre2-8'):
                if crate == 'bin':
                    shutil.copy('%s/lib%s.a' % (clibs(), l), w)
                else:
                    run(['ar', 'cr', '%s/lib%s.a' % (w, l)])
            open(w + '/m.rs', 'w').write('#![no_main]\nextern crate v%s;\n#[used] static K: extern "C" fn() -> i32 = k; extern "C" { fn %s() -> i32; }\nextern "C" fn k() -> i32 { unsafe { %s() } }\n' % (crate, entry, entry))
            rlib = glob.glob(deps + '/libv%s-*.rlib' % crate)[0]
            run(['rustc', '--edition', '2021', '-C', 'panic=abort', '-C', 'overflow-checks=on', '--target', TRIPLE, '-L', 'dependency=' + deps, '-L', w, '--extern', 'v%s=%s' % (crate, rlib), w + '/m.rs', '-o', out,
                 '-C', 'link-arg=' + w + '/shim.o', '-C', 'link-arg=' + w + '/stubs.o', '-C', 'link-arg=-rdynamic', '-C', 'link-arg=-ldl'], what='linking the replay program')
            open(out + '.own', 'w').write(stamp)
        finally:
            shutil.rmtree(w)
    return out


def replay(prog, path, env, limit=25):
    """Run a counterexample natively: (outcome, message, log)."""
    w = tempfile.mkdtemp(prefix='verif-replay-')
    os.mkdir(w + '/scratch')
    res = w + '/result'
    e = {'PATH': '/usr/bin:/bin', 'VERIF_REPLAY': path, 'VERIF_RESULT': res, 'VERIF_SCRATCH': w + '/scratch', 'RUST_BACKTRACE': '0'}
    e.update(env)
    log = open(w + '/log', 'wb')
    p = subprocess.Popen([prog], cwd=w, env=e, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
        late = False
    except subprocess.TimeoutExpired:
        late, rc = True, None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    txt = open(w + '/log', 'rb').read()[-4000:].decode('utf-8', 'replace')
    r = open(res).read().split('\n')[0] if os.path.exists(res) else ''
    shutil.rmtree(w)
    if r:
        k, _, m = r.partition(' ')
        return k, m, txt
    if late:
        return 'HANG', 'no end after %d s' % limit, txt
    if rc is not None and rc < 0:
        return 'PANIC', 'signal %d' % -rc, txt
    return 'EXIT', str(rc), txt


def same(msg, k, m):
    """Does the native outcome confirm the symbolic violation?"""
    if k == 'FAIL':
        return True
    if msg.startswith('no end in sight'):
        return k in ('HANG', 'PANIC')
    if msg.startswith('panic') or msg.startswith('abort'):
        return k == 'PANIC'
    if k == 'PANIC':
        return True
    if msg.startswith('the process ended'):
        return k == 'EXIT' and m != '0' or k == 'DONE' and m != '0'
    return False


def labels_of(crate, entry):
    t = harness_text(crate)
    m = re.search(r'\bfn %s\(\)(.*?)(?=\n(?:harness! )?\{?\s*(?:/// [^\n]*\n)*fn h_|\Z)' % entry, t, re.S)
    body = m.group(1) if m else ''
    return set(re.findall(r'\breach\("([^"]+)"\)', body))


def read_parts(out):
    r = dict(stat={}, max={}, label={}, func={}, branch={}, nbranch={}, error=[], viol=[], sample=[])
    for f in glob.glob(out + '/part.*'):
        for line in open(f, errors='replace'):
            k, _, rest = line.rstrip('\n').partition(' ')
            if k == 'stat':
                a, b = rest.split(); r['stat'][a] = r['stat'].get(a, 0) + int(b)
            elif k == 'max':
                a, b = rest.split(); r['max'][a] = max(r['max'].get(a, 0), int(b))
            elif k in ('label', 'func'):
                n, _, a = rest.partition(' '); r[k][a] = r[k].get(a, 0) + int(n)
            elif k == 'branch':
                n, _, a = rest.partition(' '); r[k][a] = r[k].get(a, 0) + int(n)
            elif k == 'nbranch':
                n, _, a = rest.partition(' '); r[k][a] = int(n)
            elif k in ('error', 'viol', 'sample'):
                if rest not in r[k]:
                    r[k].append(rest)
    return r


def known_findings(pid):
    f = os.path.join(V, 'known-findings.txt')
    l = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r'known: property=(\S+) entry=(\S+) input=(\S+) failure="([^"]*)" (.*)', line)
            if m and m.group(1) == pid:
                l.append(dict(entry=m.group(2), input=m.group(3), failure=m.group(4), what=m.group(5)))
    return l


def fits(inp, f):
    """Are the values of a counterexample those of a listed finding?"""
    if inp == '-':
        return True
    have = dict(l.split() for l in open(f, errors='replace').read().split('\n') if len(l.split()) == 2 and not l.startswith('#'))
    return all(have.get(k, '0') == v for k, _, v in (x.partition('=') for x in inp.split(',')))


def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    ev = os.path.join(V, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    exe = engine()
    std = stdir()
    budget = 780 if tier == 'quick' else 6 * 3600
    tot = dict(stat={}, max={}, label={}, func={}, sample=[])
    br, nbr = {}, {}
    validated, diverged = 0, []
    runs, viols, errors = [], [], []
    known, found = known_findings(pid), set()
    work = os.path.join(B, 'out', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    for i, r in enumerate(spec['runs']):
        o = dict(r)
        if tier == 'thorough':
            o.update(r.get('thorough', {}))
        elif r.get('only_thorough'):
            continue
        ir = crate_ir(o['crate'])
        out = '%s/%d' % (work, i)
        os.makedirs(out)
        left = budget - (time.time() - t0)
        lim = int(max(30, min(left - 20, o.get('timeout', 100000))))
        cmd = [exe, '--entry', o['entry'], '--out', out, '--jobs', str(o.get('jobs', 8)), '--timeout', str(lim)]
        for k, v in o.get('params', {}).items():
            cmd += ['--param', '%s=%s' % (k, v)]
        for k, v in o.get('env', {}).items():
            cmd += ['--env', '%s=%s' % (k, v)]
        if 'switches' in o:
            cmd += ['--max-switches', str(o['switches'])]
        if 'faults' in o:
            cmd += ['--max-faults', str(o['faults'])]
        if 'steps' in o:
            cmd += ['--max-steps', str(o['steps'])]
        if any(x['entry'] == o['entry'] for x in known):
            # look on behind a listed finding
            cmd += ['--max-viol', '50']
        tr = time.time()
        p = subprocess.run(cmd + std + ir + libs_ir(o['crate']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        parts = read_parts(out)
        wall = time.time() - tr
        for k in ('stat', 'label', 'func'):
            for a, n in parts[k].items():
                tot[k][a] = tot[k].get(a, 0) + n
        for a, n in parts['max'].items():
            tot['max'][a] = max(tot['max'].get(a, 0), n)
        br.update(parts['branch']); nbr.update(parts['nbranch'])
        if p.returncode != 0 or not parts['stat']:
            errors.append('%s: executor ended with status %s: %s' % (o['entry'], p.returncode, p.stdout[-2000:]))
        for e in parts['error']:
            errors.append('%s: %s' % (o['entry'], e))
        need = labels_of(o['crate'], o['entry']) - set(o.get('unreached', []))
        missing = sorted(need - set(parts['label']))
        if missing and not parts['viol'] and not parts['error']:
            if need - set(missing):
                print('%s: not reached this time: %s' % (o['entry'], ', '.join(missing)))
            else:
                errors.append('%s: vacuous: never reached: %s' % (o['entry'], ', '.join(missing)))
        tot['sample'] += [o['entry'] + ': ' + s for s in parts['sample'][:3]]
        prog = None
        for f in sorted(glob.glob(out + '/viol.*')):
            msg = open(f, errors='replace').readline()[2:].strip()
            prog = prog or native(o['crate'], o['entry'])
            k, m, log = replay(prog, f, o.get('env', {}))
            if same(msg, k, m):
                kf = [x for x in known if x['entry'] == o['entry'] and (x['failure'] == m if k == 'FAIL' else x['failure'] in msg) and fits(x['input'], f)]
                if kf:
                    found.add(kf[0]['what'])
                    continue
                viols.append(dict(entry=o['entry'], crate=o['crate'], msg=msg if k != 'FAIL' else m, file=f, log=log, env=o.get('env', {})))
                break
            errors.append('%s: counterexample does not reproduce (%s %s): %s [%s]' % (o['entry'], k, m, msg, f))
        if not viols and not parts['error'] and p.returncode == 0:
            oks = sorted(glob.glob(out + '/ok.*'))
            for f in oks[:: max(1, len(oks) // 4)][:o.get('validate', 4)]:
                prog = prog or native(o['crate'], o['entry'])
                k, m, log = replay(prog, f, o.get('env', {}))
                if k in ('DONE', 'EXIT') and m == '0':
                    validated += 1
                elif k in ('FAIL', 'PANIC'):
                    # the real code fails where the model does not: that is a failure all the same
                    viols.append(dict(entry=o['entry'], crate=o['crate'], msg=m + ' (found when validating a path natively)', file=f, log=log, env=o.get('env', {})))
                    break
                else:
                    diverged.append('%s: %s %s' % (o['entry'], k, m))
        runs.append(dict(entry=o['entry'], bounds=o.get('bounds', ''), params=o.get('params', {}), preemptions=o.get('switches'), faults=o.get('faults'), paths=parts['stat'].get('paths', 0), asserts=parts['stat'].get('asserts', 0), instructions=parts['stat'].get('instructions', 0), solver_s=round(parts['stat'].get('z3_us', 0) / 1e6, 3), wall_s=round(wall, 2), labels=parts['label'], labels_not_reached=missing))
        print('%s %s: %d paths, %d assertions, %d queries, %.1f s%s' % (pid, o['entry'], parts['stat'].get('paths', 0), parts['stat'].get('asserts', 0), parts['stat'].get('queries', 0), wall, '' if not parts['viol'] else ', violated: ' + '; '.join(parts['viol'][:2])), flush=True)
        if viols:
            break
    for w in sorted(found):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    st = tot['stat']
    funcs = sorted(f for f in tot['func'] if 'scutiger' in f or '::git' in f or f.startswith('git_') or f.startswith('v'))
    total_br = sum(nbr.values()) * 2
    cov = {
        'states': st.get('forks', 0) + st.get('paths', 0),
        'transitions': st.get('instructions', 0),
        'traces_validated_against_impl': validated,
        'samples': tot['sample'][:12],
        'exhaustive': not errors,
        'paths': st.get('paths', 0),
        'paths_dropped_as_infeasible_by_assumption': st.get('killed', 0),
        'assertions_decided': st.get('asserts', 0),
        'visible_operations': st.get('visible_ops', 0),
        'queries': st.get('queries', 0),
        'queries_answered_by_z3': st.get('z3_queries', 0),
        'z3_sat': st.get('z3_sat', 0), 'z3_unsat': st.get('z3_unsat', 0), 'z3_unknown': st.get('z3_unknown', 0),
        'solver_seconds': round(st.get('z3_us', 0) / 1e6, 3),
        'functions_encoded': funcs,
        'branch_outcomes_of_the_code_under_test': {'taken': len(br), 'of': total_br},
        'bounds': spec['bounds'],
        'runs': runs,
    }
    if diverged:
        cov['validation_differences'] = diverged
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'model_checking'), 'coverage': cov,
               'assumptions': spec.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}, open(ev, 'w'), indent=1)
    if viols:
        v = viols[0]
        rd = os.path.join(V, 'replays')
        os.makedirs(rd, exist_ok=True)
        dst = os.path.join(rd, '%s-%s' % (pid, v['entry']))
        shutil.copy(v['file'], dst)
        open(dst, 'a').write('# harness %s %s\n# native: %s\n' % (v['crate'], v['entry'], v['msg'].replace('\n', ' ')))
        print('%s: %s' % (v['entry'], v['msg']))
        print(open(dst, errors='replace').read()[:3000])
        print(v['log'][-1500:])
        print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 3
    shutil.rmtree(work, ignore_errors=True)
    return 0


COMMON = [
    'LLVM IR of the code under test at opt-level 1 with overflow checks; the standard library as shipped with the toolchain',
    'libc, the allocator and the POSIX file system are modelled by the executor (symex/src/libc.rs, fs.rs): calls are atomic, processes run as root, allocation succeeds',
    'SHA-256 compression of symbolic data is an injective uninterpreted function',
]


def main():
    a = sys.argv[1:]
    if a[:1] == ['list']:
        print(' '.join(CHECKS))
        return 0
    if a[:1] == ['setup']:
        engine(); stdir()
        for c in sorted({r['crate'] for s in CHECKS.values() for r in s['runs']}):
            crate_ir(c)
            libs_ir(c)
        return 0
    if a[:1] == ['replay']:
        prog = native(a[1], a[2])
        print(*replay(prog, os.path.abspath(a[3]), {}))
        return 0
    try:
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except Broken as e:
        print('ERROR', e)
        return 3


sys.exit(main())
