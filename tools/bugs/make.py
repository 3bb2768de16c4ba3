"""Writes /verif/seeded/<id>/ for every bug in bugs_*.py.   usage: make.py [ID...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = '/repo'
out = os.path.join(os.path.dirname(os.path.dirname(here)), 'seeded')
for f in sorted(glob.glob(here + '/bugs_*.py')):
    spec = importlib.util.spec_from_file_location('b', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if sys.argv[1:] and b['id'] not in sys.argv[1:]:
            continue
        d = os.path.join(out, b['id'])
        shutil.rmtree(d, True)
        os.makedirs(d)
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(['git', 'init', '-q', t], check=True)
            files = {e[0] for e in b['edits']}
            for f in files:
                os.makedirs(os.path.dirname(f'{t}/{f}'), exist_ok=True)
                shutil.copy(f'{repo}/{f}', f'{t}/{f}')
            subprocess.run(['git', 'add', '.'], cwd=t, check=True)
            for f, old, new in b['edits']:
                s = open(f'{t}/{f}').read()
                if s.count(old) != 1:
                    sys.exit(f'{b["id"]}: {s.count(old)} matches of {old!r}')
                open(f'{t}/{f}', 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=t, check=True, capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        kind = b.get('kind', 'py')
        shutil.copy(f'{here}/{"rs" if kind == "rs" else "py"}.sh', d + '/demo.sh')
        if kind != 'rs':
            shutil.copy(f'{here}/{"cli" if kind == "cli" else "lfs"}.py', d)
        open(d + ('/demo.py' if kind != 'rs' else '/demo.rs'), 'w').write(b['demo'].lstrip())
        for n, c in b.get('files', {}).items():
            open(f'{d}/{n}', 'w').write(c.lstrip())
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        print(b['id'])
