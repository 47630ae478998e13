#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]

Decides one property: extracts the SSA form of /repo's current tree, generates and
discharges every obligation of the property's contracts, replays / searches failing
inputs on the real code, writes evidence/<id>.json and reports."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GOWP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.environ.get('GOWP_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, VERIF)


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', CGO_ENABLED='1',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GODEBUG='randautoseed=0')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    return e


def run(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)


def build_ssadump():
    """the front end, built from tools/ssadump when absent or out of date"""
    os.makedirs(BUILD, exist_ok=True)
    src = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(VERIF + '/tools/ssadump/*')))
    tag = hashlib.sha256(src).hexdigest()[:12]
    exe = os.path.join(BUILD, 'ssadump-' + tag)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = run(['go', 'build', '-o', tmp, '.'], cwd=VERIF + '/tools/ssadump')
        if r.returncode:
            raise RuntimeError('ssadump build failed: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def extract(workdir):
    exe = build_ssadump()
    out = os.path.join(workdir, 'ssa.json')
    r = run([exe, REPO, out, './pf', './pfutil', './pfc', './elasticity', './cmd'])
    if r.returncode:
        raise RuntimeError('extraction failed: ' + r.stderr[-2000:])
    return out


def harness(prop, workdir, tier, seed, res):
    """build the replay/conformance program against /repo's tree and run it"""
    try:
        d = os.path.join(workdir, 'h')
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(VERIF + '/harness/*.go'):
            shutil.copy(f, d)
        mod = open(os.path.join(REPO, 'go.mod')).read().replace('module github.com/davidkleiven/gopf', 'module gopfharness', 1)
        mod += '\nrequire github.com/davidkleiven/gopf v0.0.0\nreplace github.com/davidkleiven/gopf => %s\n' % REPO
        open(d + '/go.mod', 'w').write(mod)
        shutil.copy(os.path.join(REPO, 'go.sum'), d + '/go.sum')
        t0 = time.time()
        r = run(['go', 'build', '-o', 'h', '.'], cwd=d, timeout=700)
        res['build_s'] = round(time.time() - t0, 2)
        if r.returncode:
            res['error'] = 'harness does not build: ' + r.stderr[-1500:]
            return
        budget = {'quick': 20, 'thorough': 240}[tier]
        outf = os.path.join(workdir, 'h.json')
        r = run([d + '/h', '-prop', prop, '-seed', str(seed), '-budget', str(budget), '-tier', tier, '-out', outf, '-scratch', workdir],
                cwd=workdir, timeout=budget * 3 + 60)
        res['out'] = json.load(open(outf)) if os.path.exists(outf) else None
        if res['out'] is None:
            if r.returncode:
                # the code under test ended the process (log.Fatal, a runtime fault) on a valid input
                last = os.path.join(workdir, 'last.txt')
                at = open(last).read() if os.path.exists(last) else ''
                res['out'] = {'cases': 0, 'samples': [], 'fails': [{'what': 'the process ended (exit %d) at: %s' % (r.returncode, at[:300]), 'input': at, 'output': (r.stderr or r.stdout)[-1500:]}]}
            else:
                res['error'] = 'harness gave no result'
    except subprocess.TimeoutExpired:
        last = os.path.join(workdir, 'last.txt')
        at = open(last).read() if os.path.exists(last) else ''
        if at:
            res['out'] = {'cases': 0, 'samples': [], 'fails': [{'what': 'no termination at: %s' % at[:300], 'input': at}]}
        res['error'] = 'harness: time limit'
    except Exception as e:
        res['error'] = 'harness: %s: %s' % (type(e).__name__, e)


_PROG = None


def work(i):
    from gowp.api import CONTRACTS, run_contract
    try:
        return run_contract(_PROG, CONTRACTS[i])
    except BaseException as e:
        return {'contract': CONTRACTS[i].name, 'targets': [], 'obligations': [], 'error': 'engine error: %s' % e, 'models': [],
                'inlined': [], 'used': [], 'externs': [], 'assumptions': [], 'queries': 0, 'solver_s': 0, 'wall_s': 0}


def main():
    global _PROG
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    meta = {}
    for l in open(VERIF + '/properties.jsonl'):
        d = json.loads(l)
        meta[d['id']] = d
    workdir = tempfile.mkdtemp(prefix='gowp-%s-' % prop)
    try:
        return check(prop, tier, seed, workdir, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


BASE_ASSUMPTIONS = [
    'integers are mathematical (no 64-bit overflow); index bounds, nil dereference, division by zero and explicit panics are obligations',
    'float64/complex128 arithmetic is exact real arithmetic (no rounding, NaN or infinity)',
    'slice and pointer parameters of a contract are separate objects unless the contract says otherwise',
    'go/ssa translation of the source and the gowp executor, z3 and cvc5 are trusted',
]


def check(prop, tier, seed, workdir, t0):
    global _PROG
    hres = {}
    th = threading.Thread(target=harness, args=(prop, workdir, tier, seed, hres))
    th.start()
    results, fatal = [], None
    try:
        ssaf = extract(workdir)
        from gowp.ssa import Program
        from gowp import api
        _PROG = Program(ssaf)
        for f in sorted(glob.glob(VERIF + '/contracts/c*.py')):
            importlib.import_module('contracts.' + os.path.basename(f)[:-3])
        idx = [i for i, c in enumerate(api.CONTRACTS) if prop in c.prop and (c.tier == 'quick' or tier == 'thorough')]
        if tier == 'thorough':
            from gowp.interp import Interp
            Interp.timeout = 30000
        ctx = mp.get_context('fork')
        results = parallel(ctx, idx, 420 if tier == 'quick' else 1800)
        th.join()
        again = [i for i, r in zip(idx, results) if r['error'] or any(o['status'] != 'ok' for o in r['obligations'])]
        if again and len(again) <= 8 and not os.environ.get("GOWP_FAST") and not (hres.get('out') or {}).get('fails'):
            # no failing input either: a second attempt with more of everything before reporting
            from gowp import solver
            solver.SCALE[0] = 3
            for i, r in zip(again, parallel(ctx, again, 240 if tier == 'quick' else 900)):
                results[idx.index(i)] = r
    except Exception as e:
        fatal = '%s: %s' % (type(e).__name__, e)
    th.join()

    obls = [o for r in results for o in r['obligations']]
    bad = [(r, o) for r in results for o in r['obligations'] if o['status'] != 'ok']
    errs = [(r['contract'], r['error']) for r in results if r['error']]
    hout = hres.get('out')
    hfails = hout['fails'] if hout else []
    known = load_known(prop)
    hfails_new = []
    for f in hfails:
        k = [x for x in known if x['match'] in f['what']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            hfails_new.append(f)
    vac = [r['contract'] for r in results if not r['obligations'] and not r['error'] and not r.get('absent')]

    violation = bool(bad or errs or fatal or hfails_new or vac or not obls)
    # a harness that cannot run is only an alarm when the deduction fails too
    backends = {}
    for o in obls:
        if o['status'] == 'ok':
            for b in str(o['by']).split('+'):
                backends[b] = backends.get(b, 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obls), 'discharged': len(obls) - len(bad),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
            'trusted_base': ['golang.org/x/tools/go/ssa', 'gowp executor (/verif/gowp)', 'z3 4.x (python3-vt)', 'cvc5 1.1.2'] +
                            sorted({'trusted contract: ' + e for r in results for e in r.get('externs', [])}),
            'contracts': [{'name': r['contract'], 'targets': r['targets'], 'obligations': len(r['obligations']),
                           'discharged': sum(1 for o in r['obligations'] if o['status'] == 'ok'), 'error': r['error'], **({'absent': r['absent']} if r.get('absent') else {}),
                           'wall_s': r['wall_s']} for r in results],
            'functions_verified': sorted({f for r in results for f in r['inlined']}),
            'by_back_end': backends,
            'solver_queries': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'bounded_conformance': {'note': 'bounded (not counted as proved): generated inputs run through the real code',
                                    'cases': hout['cases'] if hout else 0, 'failures': len(hfails), 'error': hres.get('error'),
                                    'samples': hout.get('samples', [])[:3] if hout else []},
        },
        'assumptions': BASE_ASSUMPTIONS + sorted({a for r in results for a in r['assumptions']}),
        'wall_s': round(time.time() - t0, 2), 'violations': int(violation),
    }
    os.makedirs(EVID, exist_ok=True)
    if not violation:
        json.dump(ev, open(EVID + '/%s.json' % prop, 'w'), indent=1)
        print('%s: %d obligations discharged (%s), %d bounded conformance cases, %.1f s' %
              (prop, len(obls), ', '.join('%s %d' % kv for kv in sorted(backends.items())), hout['cases'] if hout else 0, time.time() - t0))
        if hres.get('error'):
            print('note: ' + hres['error'])
        return 0
    rp = EVID + '/replay-%s.json' % prop
    rep = {'property': prop, 'failed_obligations': [{'contract': r['contract'], 'obligation': o['name'], 'status': o['status'],
                                                     'at': o['pos']} for r, o in bad][:200],
           'contracts_without_answer': errs, 'vacuous': vac, 'fatal': fatal,
           'verifier_models': [m for r in results for m in r['models']][:50],
           'failing_inputs': hfails_new, 'harness_error': hres.get('error'),
           'replay_cmd': 'python3-vt /verif/check.py %s %s  (the harness is /verif/harness, -prop %s -seed %d)' % (prop, tier, prop, seed)}
    json.dump(rep, open(rp, 'w'), indent=1, default=str)
    ev['coverage']['failed'] = rep['failed_obligations'][:20]
    json.dump(ev, open(EVID + '/%s.json' % prop, 'w'), indent=1)
    for r, o in bad[:10]:
        print('obligation not discharged: %s (%s) %s' % (o['name'], o['status'], o['pos'] or ''))
    for c, e in errs[:10]:
        print('no answer: %s: %s' % (c, e))
    if fatal:
        print('fatal: ' + fatal)
    for f in hfails_new[:5]:
        print('failing input: %s' % f['what'])
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hfails_new else ' no-failing-input-found'))
    return 1


def parallel(ctx, idx, limit):
    """one process per contract, at most 8 at a time; a contract that runs out of time has no answer"""
    from gowp.api import CONTRACTS
    todo, running, done = list(idx), {}, {}
    t_end = time.time() + limit
    while todo or running:
        while todo and len(running) < 8:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=lambda c, j: (c.send(work(j)), c.close()), args=(b, i))
            p.start()
            b.close()
            running[i] = (p, a)
        for i, (p, a) in list(running.items()):
            if a.poll(0.02):
                try:
                    done[i] = a.recv()
                except EOFError:
                    done[i] = noanswer(CONTRACTS[i], 'engine process died')
                p.join()
                del running[i]
            elif time.time() > t_end:
                p.kill()
                p.join()
                done[i] = noanswer(CONTRACTS[i], 'time limit')
                del running[i]
    return [done[i] for i in idx]


def noanswer(c, why):
    return {'contract': c.name, 'targets': list(c.targets), 'obligations': [], 'error': why, 'models': [], 'inlined': [], 'used': [],
            'externs': [], 'assumptions': [], 'queries': 0, 'solver_s': 0, 'wall_s': 0}


def load_known(prop):
    out = []
    f = VERIF + '/known_findings.jsonl'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('status') == 'known' and d.get('property') == prop:
                    out.append(d)
    return out


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
