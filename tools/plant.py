"""plant(id, prop, edits, pkg, demo, needs, breaks): confirm a planted bug in a scratch copy and keep it
under seeded/<id>. edits = [(file, old, new)]; demo = Go test source (package pkg) with TestDemo*."""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the demonstrated behaviour is right; runs in the repository's root
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GODEBUG=randautoseed=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_planted_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestPlantedDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(id, prop, edits, pkg, demo, needs, breaks, test=True):
    w = '/tmp/plant-' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    out = os.path.join(VERIF, 'seeded', id)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'REJECTED: edit matches %d times in %s' % (s.count(old), f))
                return False
            open(p, 'w').write(s.replace(old, new))
            orig = subprocess.run(['git', 'show', '5d83f30:' + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if gone and not all(l in orig for l in gone):
                print(id, 'NOTE: removed lines are not all original', [l for l in gone if l not in orig])
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo_test.go', 'w').write(demo)
        open(out + '/demo.sh', 'w').write(DEMO % {'pkg': pkg})
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, '/repo')
        b = sh('bash %s/demo.sh' % out, w)
        if a.returncode != 0 or b.returncode == 0 or 'build failed' in b.stdout:
            print(id, 'REJECTED: demo clean=%d planted=%d' % (a.returncode, b.returncode), a.stdout[-1500:], b.stdout[-1500:])
            shutil.rmtree(out)
            return False
        if test:
            ok, what = stable(w)
            if not ok:
                print(id, 'REJECTED: tests fail', what)
                shutil.rmtree(out)
                return False
        print(id, 'kept')
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)


def stable(w):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GODEBUG='randautoseed=0', CGO_ENABLED='1')
    env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
    r = subprocess.run('go test -vet=off -count=1 -json ./...', cwd=w, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    got = {}
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('Test') and d.get('Action') in ('pass', 'fail'):
            got[d['Package'] + '/' + d['Test']] = d['Action']
    bad = [b for b in base if got.get(b) != 'pass']
    return not bad and len(got) > 100, bad


def run(id, prop=None):
    """run the check of its property against a scratch copy with the patch"""
    d = os.path.join(VERIF, 'seeded', id)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    w = '/tmp/planted-' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    try:
        subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
        r = sh('python3-vt check.py %s' % prop, VERIF, env=dict(os.environ, GOWP_REPO=w))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print('%s %s rc=%d %s' % (id, prop, r.returncode, 'caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED'))
    print('   ' + '\n   '.join(r.stdout.splitlines()[-6:])[:700], flush=True)
    return r.returncode


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        run(i)
