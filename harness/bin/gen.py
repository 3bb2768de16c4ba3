"""The tools' main programs as libraries: their sources as they are, plus a function that calls main."""
import os, re

TAIL = '''
#[doc(hidden)]
pub fn verif_main() -> i32 { let c: ::std::process::ExitCode = ::std::process::Termination::report(main()); unsafe { ::std::mem::transmute::<_, u8>(c) as i32 } }
'''


def generate(repo):
    out = {}
    for name, crate, main in (('at', 'scutiger-bin', 'git-at.rs'), ('refs', 'scutiger-bin', 'git-recent-refs.rs'), ('xfer', 'scutiger-lfs', 'git-lfs-transfer.rs')):
        src = os.path.join(repo, crate, 'src', 'bin')
        for r, ds, fs in os.walk(src):
            for f in fs:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, src)
                if rel.endswith('.rs') and (os.path.dirname(rel) or not re.match(r'git-.*\.rs$', rel)) or rel == main:
                    out['%s/src/%s' % (name, rel)] = open(p).read() + (TAIL if rel == main else '')
        t = open(os.path.join(repo, crate, 'Cargo.toml')).read()
        edition = re.search(r'^edition *= *"(\d+)"', t, re.M)
        deps = ''
        for m in re.finditer(r'^\[((?:target\.[^\n]*\.)?dependencies)\]\n(.*?)(?=^\[|\Z)', t, re.M | re.S):
            deps += '[%s]\n%s\n' % (m.group(1), re.sub(r'path *= *"([^"]*)"', lambda x: 'path = "%s"' % os.path.normpath(os.path.join(repo, crate, x.group(1))), m.group(2)))
        if crate == 'scutiger-lfs':
            deps += '[dependencies.scutiger-lfs]\npath = "%s/scutiger-lfs"\n' % repo
        out[name + '/Cargo.toml'] = '[package]\nname = "scutiger-%s-bin"\nversion = "0.1.0"\nedition = "%s"\n[lib]\npath = "src/%s"\n%s' % (name, edition.group(1) if edition else '2015', main, deps)
    return out
