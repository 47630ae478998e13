"""mutate.py <property> [count] [seed] [function substring]: which small changes of the functions a property covers does its check notice?
P = an obligation fails, H = the bounded harness fails, PH both, -- neither (look at it: equivalent, or too weak a contract).
H alone is the interesting one: a wrong program the contracts accept."""
import json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import goenv
prop = sys.argv[1]
count = int(sys.argv[2]) if len(sys.argv) > 2 else 20
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
sub = sys.argv[4] if len(sys.argv) > 4 else ''
fns = json.load(open(V + '/evidence/%s.json' % prop))['coverage']['functions_verified']
fns = [f.replace('github.com/davidkleiven/gopf/', '').split('$')[0] for f in fns if sub in f]
fns = sorted(set(fns))
exe = '/tmp/mutgen'
subprocess.run(['go', 'build', '-o', exe, '.'], cwd=V + '/tools/mutgen', env=goenv(), check=True)
muts = [json.loads(l) for l in subprocess.run([exe, '/repo'] + fns, stdout=subprocess.PIPE, text=True).stdout.splitlines()]
random.Random(seed).shuffle(muts)
print(prop, len(fns), 'functions', len(muts), 'changes', flush=True)


def one(a):
    i, m = a
    w = '/tmp/mut-%s-%d-%d' % (prop, os.getpid(), i)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    try:
        p = w + '/' + m['File']
        s = open(p, 'rb').read()
        open(p, 'wb').write(s[:m['Off']] + m['New'].encode() + s[m['End']:])
        r = subprocess.run(['go', 'build', './' + m['File'].split('/')[0]], cwd=w, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return None
        e = goenv()
        e.update(GOWP_REPO=w, GOWP_FAST='1', GOWP_EVIDENCE=w + '/ev')
        try:
            r = subprocess.run(['python3-vt', V + '/check.py', prop, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return m, 'T', ''
        o = r.stdout
        k = ('P' if 'obligation not discharged' in o else 'N' if 'no answer' in o or 'fatal:' in o else '-') + ('H' if 'failing input:' in o else '-')
        return m, k, o
    finally:
        shutil.rmtree(w, ignore_errors=True)


done = 0
tot = {}
with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '3'))) as ex:
    it = iter(list(enumerate(muts))[:count * 2])
    for r in ex.map(one, it):
        if r is None or done >= count:
            continue
        done += 1
        m, k, o = r
        tot[k] = tot.get(k, 0) + 1
        if k not in ('PH', 'P-') or os.environ.get('MUT_ALL'):
            print(k, '%s:%d' % (m['File'], m['Line']), m['Func'], '|', ' '.join(m['What'].split())[:150], flush=True)
            if k[0] == 'N':
                print('     ', [l for l in o.splitlines() if 'no answer' in l or 'fatal' in l][:1])
print(prop, tot, flush=True)
