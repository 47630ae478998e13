import sys, importlib
sys.path.insert(0,'/verif')
from gowp.api import *
from gowp.ssa import Program
prog=Program('/verif/.build/ssa.json')
import contracts
before=len(CONTRACTS)
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
sel=sys.argv[2] if len(sys.argv)>2 else ''
sub=sys.argv[3] if len(sys.argv)>3 else ''
for c in CONTRACTS:
    if sel and sel not in c.prop: continue
    if sub and sub not in c.name: continue
    r=run_contract(prog,c)
    bad=[(o['name'],o['status'],o['pos']) for o in r['obligations'] if o['status']!='ok']
    by={}
    for o in r['obligations']: by[o['by']]=by.get(o['by'],0)+1
    print(c.prop,c.name,'ERR '+r['error'] if r['error'] else '', len(r['obligations']),'obl', by, 'BAD %d'%len(bad), bad[:6], '%.1fs'%r['wall_s'], str(r['models'])[:400] if bad else '')
    if r['error'] and 'trace' in r: print('\n'.join(r['trace'].splitlines()[-14:]))
