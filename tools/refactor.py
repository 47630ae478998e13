"""behaviour-preserving edits the checks have to stay quiet on

refactor.py [name...]: applies each edit set to a scratch copy of /repo, confirms that it builds, and runs the checks of its
properties against the copy (GOWP_REPO)."""
import os
import shutil
import subprocess
import sys
import time

SETS = {}


def refactor(name, props, edits):
    """edits: [(file, old, new)]"""
    SETS[name] = (props.split(), edits)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import refactors  # noqa
    sets = sys.modules['refactor'].SETS
    args = [a for a in sys.argv[1:] if a[0] != '-']
    names = [n for n in sets if not args or any(n.startswith(a) for a in args)]
    for n in names:
        props, edits = sets[n]
        d = '/tmp/gowp-refactor'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        ok = True
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                print('%s: text found %d times in %s: %r' % (n, t.count(old), f, old[:60]))
                ok = False
                continue
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', CGO_ENABLED='1', GOPATH='/root/go',
                   GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
        r = subprocess.run(['go', 'vet', './pf', './pfutil', './pfc', './elasticity', './cmd'] if '--vet' in sys.argv else ['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            print('%s: does not build\n%s' % (n, r.stderr[:1500]))
            continue
        for p in ([] if '--keep' in sys.argv else props):
            t0 = time.time()
            r = subprocess.run(['python3-vt', os.path.join(here, '..', 'check.py'), p, 'quick'], env=dict(os.environ, GOWP_REPO=d), capture_output=True, text=True)
            print('%-28s %s rc=%d %3ds %s' % (n, p, r.returncode, time.time() - t0, '' if r.returncode == 0 else r.stdout[:1200] + r.stderr[-500:]), flush=True)
    if '--keep' not in sys.argv:
        shutil.rmtree('/tmp/gowp-refactor', ignore_errors=True)


if __name__ == '__main__':
    sys.modules['refactor'] = sys.modules['__main__']
    main()
