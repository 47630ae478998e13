"""Contract API: a contract sets up a symbolic pre-state, runs the real
function's SSA and states postconditions."""
import json
import sys
import time
import traceback
from fractions import Fraction
import z3
from .num import *
from .vals import *
from .interp import Interp, State, MOD, DBG, emod, poly_eq
from . import solver, ext
from .spec import SpecSum, SpecRec
from . import matmodel, strs

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, targets, tier):
        self.prop, self.name, self.fn, self.targets, self.tier = prop, name, fn, targets, tier


def contract(prop, name, targets=(), tier='quick', alts=1):
    """register; a contract may belong to several properties. alts: number of alternative proofs (F.alt), each complete in itself;
    the first that goes through counts"""
    def d(f):
        c = Contract(prop if isinstance(prop, (list, tuple)) else [prop], name, f, targets, tier)
        c.alts = alts
        CONTRACTS.append(c)
        return f
    return d


def P(s):
    """'pfutil.Foo' / '(*pfutil.T).M' -> full SSA name"""
    for p in ('pfutil.', 'pf.', 'pfc.', 'elasticity.', 'cmd.'):
        if s.startswith(p):
            return MOD + s
        if s.startswith('(*' + p):
            return '(*' + MOD + s[2:]
        if s.startswith('(' + p):
            return '(' + MOD + s[1:]
    return s


class V:
    """one verification run (one symbolic pre-state)"""

    def __init__(self, prog, name):
        self.prog = prog
        self.ip = Interp(prog, name)
        self.st = State()
        self.name = name
        self.inputs = {}
        self.ip.focus(self.st)
        CTX.emod_hooks = []
        self.st.assume(PI_FACT)

    # -- building the pre-state
    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.st.assume(ge(x, lo))
        if hi is not None:
            self.st.assume(le(x, hi))
        self.inputs[name] = x
        return x

    def real(self, name):
        x = z3.Real(name)
        self.inputs[name] = x
        return x

    def cplx(self, name):
        return C(self.real(name + '_re'), self.real(name + '_im'))

    def boolv(self, name):
        return z3.Bool(name)

    def string(self, name):
        return z3.String(name)

    def assume(self, c):
        self.st.assume(c)

    def elem(self, kind, name):
        if kind == 'int':
            return z3.Int(name)
        if kind == 'real':
            return z3.Real(name)
        if kind == 'cplx':
            return C(z3.Real(name + '_re'), z3.Real(name + '_im'))
        if kind == 'bool':
            return z3.Bool(name)
        if kind == 'str':
            return z3.String(name)

    def array(self, kind, name):
        """symbolic array content"""
        if kind == 'cplx':
            a, b = z3.Function(name + '_re', INT, REAL), z3.Function(name + '_im', INT, REAL)
            return BaseArr(lambda k: C(a(zi(k)), b(zi(k))), name)
        s = {'int': INT, 'real': REAL, 'bool': z3.BoolSort(), 'str': z3.StringSort()}[kind]
        f = z3.Function(name, INT, s)
        return BaseArr(lambda k: f(zi(k)), name)

    def slice(self, kind, name, n, content=None):
        """slice parameter of length n (python int -> concrete list)"""
        if content is not None:
            c = content
        elif isinstance(n, int):
            c = ListArr([self.elem(kind, '%s_%d' % (name, i)) for i in range(n)])
            self.inputs[name] = c.xs
        else:
            c = self.array(kind, name)
            self.inputs[name] = (c, n)
        return Slice(self.ip.alloc(self.st, c), 0, n)

    def table(self, kind, name, n, m):
        """slice of n slices of m elements each (n symbolic, m concrete); -> (slice, elem(k, j))"""
        fs = [[z3.Function('%s%d_%s' % (name, j, p), INT, REAL) for p in ('re', 'im')] for j in range(m)]
        fi = [z3.Function('%s%d' % (name, j), INT, REAL) for j in range(m)]
        el = (lambda k, j: C(fs[j][0](zi(k)), fs[j][1](zi(k)))) if kind == 'cplx' else (lambda k, j: fi[j](zi(k)))
        o = self.ip.newoid()
        self.st.mem[o] = Fam(lambda key: ListArr([el(key[0], j) for j in range(m)]))
        return Slice(self.ip.alloc(self.st, LamArr(lambda k: Slice(Ref(o, (zi(k),)), 0, m))), 0, n), el

    def list(self, xs):
        return Slice(self.ip.alloc(self.st, ListArr(xs)), 0, len(xs))

    def obj(self, tname, **fields):
        """pointer to a new struct of the named type with given fields"""
        return Ptr(self.ip.alloc(self.st, self.struct(tname, **fields)))

    def struct(self, tname, **fields):
        t = self.prog.type_by_name(P(tname))
        z0 = self.ip.zero(t)
        f = dict(z0.f)
        for k, v in fields.items():
            if k not in f:
                raise Unsupported('no field %s in %s' % (k, tname))
            f[k] = v
        return StructV(f)

    def dense(self, r, c, name=None, entries=None):
        """*mat.Dense with symbolic (or given) entries -> (pointer, rows)"""
        xs = entries if entries is not None else [self.real('%s_%d%d' % (name, i, j)) for i in range(r) for j in range(c)]
        return matmodel.new_dense(self.ip, self.st, r, c, xs), [[xs[i * c + j] for j in range(c)] for i in range(r)]

    def rows(self, st, p):
        return matmodel.rows(self.ip, st, p)

    def iface(self, tname, value, ptr=True):
        """interface value holding a (pointer to a) named type"""
        nm = ('*' if ptr else '') + P(tname)
        try:
            t = self.prog.type_by_name(nm)
        except KeyError:
            t = -1
        return Iface(nm, t, value)

    def summary(self, fname, handler):
        """use a contract instead of the body, when the function exists"""
        if P(fname) in self.prog.fns:
            self.ip.summaries[P(fname)] = handler
            return True
        return False

    def content(self, sl, st=None):
        return self.ip.read_ref(st or self.st, sl.ref)

    def setcontent(self, sl, c, st=None):
        (st or self.st).mem[sl.ref.oid] = c

    def fact(self, f):
        """a fact valid in every state (proved as an obligation of its own)"""
        self.ip.oblige_closed('%s: lemma instance' % self.name, f)
        self.st.facts.add(f)

    def induct(self, name, P, at, st=None):
        """P(0) and P(t)->P(t+1) are obligations (under the pre-state); P at the given non-negative terms becomes a fact"""
        s = (st or self.st).copy()
        self.ip.focus(s)
        self.ip.oblige(s, '%s: %s (base)' % (self.name, name), P(0))
        self.ip.nfresh += 1
        t = z3.Int('t!%d' % self.ip.nfresh)
        s = (st or self.st).copy()
        self.ip.focus(s)
        s.assume(t >= 0)
        s.assume(P(t))
        self.ip.oblige(s, '%s: %s (step)' % (self.name, name), P(add(t, 1)))
        for a in at:
            s = (st or self.st)
            self.ip.focus(s)
            s.facts.add(imp(ge(a, 0), P(a)))

    # -- running
    def call(self, fname, *args, st=None):
        if st is None:
            st = self.st
        else:
            # arguments built after an earlier call live in the initial state
            for o, c in self.st.mem.items():
                st.mem.setdefault(o, c)
            for f in self.st.facts.d.values():
                st.facts.add(f)
        self.ip.focus(st)
        if P(fname) not in self.prog.fns and fname.rsplit('.', 1)[-1][:1].islower():
            raise Absent(fname)
        outs = self.ip.call(st.copy(), FuncV(P(fname)), list(args))
        if len(outs) == 1:
            self.ip.focus(outs[0][0])
        return outs

    def call1(self, fname, *args, st=None):
        outs = self.call(fname, *args, st=st)
        if len(outs) != 1:
            raise Unsupported('%s: %d outcomes' % (fname, len(outs)))
        return outs[0]

    # -- reading
    def get(self, st, sl, k):
        return self.ip.get(st, sl, k)

    def load(self, st, p, *path):
        return self.ip.load(st, Ptr(p.ref, p.path + tuple(('f', f) for f in path)))

    # -- postconditions
    def ensure(self, name, st, goal, extra=()):
        s = st.copy()
        self.ip.focus(s)
        for e in extra:
            s.assume(e)
        if callable(goal):
            self._split(s, goal, '%s: %s' % (self.name, name))
            return
        self.ip.oblige(s, '%s: %s' % (self.name, name), goal)

    def ensure_all(self, name, st, n, body, lo=0):
        """forall lo <= k < n: body(k)"""
        s = st.copy()
        self.ip.focus(s)
        self.ip.nfresh += 1
        k = z3.Int('k!%d' % self.ip.nfresh)
        s.assume(k >= zi(lo))
        s.assume(k < zi(n))
        self.instantiate(s, k)
        if not (isinstance(lo, int) and lo == 0):
            self.instantiate(s, sub(k, lo))
        self._split(s, lambda: body(k), '%s: %s' % (self.name, name), more=(add(k, 1), sub(k, 1)))

    def _split(self, s, thunk, name, depth=0, more=()):
        self.ip.focus(s)
        try:
            g = thunk()
        except NeedSplit as e:
            if depth > 8:
                raise
            for c in (e.cond, bnot(e.cond)):
                s2 = s.copy()
                s2.assume(c)
                if solver.feasible(s2.hyps()):
                    self._split(s2, thunk, name, depth + 1, more)
            return
        if more and s.foralls and not isinstance(g, bool) and not solver.prove(s.hyps(), zb(g), timeout=4000)[0]:
            # conditions tested one iteration later or earlier
            for k in more:
                self.instantiate(s, k)
        self.ip.oblige(s, name, g)

    def instantiate(self, s, k):
        """use what full loop runs in the history of s established, at index k"""
        for cond, N, fn in s.foralls:
            s.assume(imp(band(cond, ge(k, 0), lt(k, N)), fn(k)))

    def reachable(self, name, st):
        """vacuity guard: the hypotheses must be satisfiable"""
        ok = solver.feasible(st.hyps(), timeout=3000)
        self.ip.results.append(('%s: vacuity %s' % (self.name, name), 'ok' if ok else 'fail', 'z3', None, None))

    def frame_slice(self, name, st, sl, old_st=None):
        """contents of sl unchanged w.r.t. the pre-state"""
        old_st = old_st or self.st
        a = self.ip.read_ref(st, sl.ref)
        b = self.ip.read_ref(old_st, sl.ref)
        if a is b:
            self.ip.results.append(('%s: %s' % (self.name, name), 'ok', 'simplifier', None, None))
            return
        if isinstance(b, ListArr):
            self.ensure(name, st, lambda: band(*[veq(x, y) for x, y in zip(a.xs, b.xs)]))
        else:
            self.ensure_all(name, st, add(sl.off, sl.len), lambda k: veq(a.sel(k), b.sel(k)))


class Absent(Exception):
    pass


def run_contract(prog, c):
    first = None
    for k in range(getattr(c, 'alts', 1)):
        r = run_alt(prog, c, k)
        if not r['error'] and all(o['status'] == 'ok' for o in r['obligations']):
            return r
        first = first or r
    return first


def run_alt(prog, c, alt):
    """-> dict with obligations"""
    t0 = time.time()
    solver.DEFS.clear()
    q0, ts0 = solver.STATS['queries'], solver.STATS['time']
    ext.USED.clear()
    out = {'contract': c.name, 'targets': list(c.targets), 'obligations': [], 'error': None, 'assumptions': [], 'inlined': [], 'used': [], 'models': []}
    vs = []

    class Factory:
        def __init__(self):
            self.prog = prog
            self.alt = alt

        def new(self, name=''):
            v = V(prog, c.name + ('/' + name if name else ''))
            v.ip.deadline = time.process_time() + 240
            vs.append(v)
            return v
    try:
        c.fn(Factory())
    except Absent as e:
        # an unexported helper that is gone: its callers, which are under contract themselves, are verified without it
        out['absent'] = str(e)
    except Unsupported as e:
        out['error'] = 'outside the verifier\'s reach: %s' % e
    except NeedSplit as e:
        out['error'] = 'outside the verifier\'s reach: undecided %s' % e.cond
    except Exception as e:
        out['error'] = 'engine error: %s: %s' % (type(e).__name__, e)
        if DBG:
            traceback.print_exc()
        out['trace'] = traceback.format_exc()
    inl, used, ass = set(), set(), set()
    for v in vs:
        for (name, status, backend, pos, model) in v.ip.results:
            out['obligations'].append({'name': name, 'status': status, 'by': backend, 'pos': pos})
            if status != 'ok' and model is not None:
                out['models'].append({'obligation': name, 'inputs': eval_inputs(v, model)})
        inl |= v.ip.inlined
        used |= v.ip.used_summaries
        ass |= v.ip.assumptions
    out['trivial'] = sum(v.ip.trivial for v in vs)
    out['inlined'] = sorted(inl)
    out['used'] = sorted(used)
    out['externs'] = sorted(ext.USED)
    out['assumptions'] = sorted(ass)
    out['queries'] = solver.STATS['queries'] - q0
    out['solver_s'] = round(solver.STATS['time'] - ts0, 3)
    out['wall_s'] = round(time.time() - t0, 3)
    return out


def eval_inputs(v, model):
    def ev(t):
        if is_conc(t):
            return t if not isinstance(t, Fraction) else float(t)
        if isinstance(t, C):
            return [ev(t.re), ev(t.im)]
        r = model.eval(t, model_completion=True)
        f = from_z(r)
        if isinstance(f, (int, bool)):
            return f
        if isinstance(f, Fraction):
            return float(f)
        return str(f)
    d = {}
    for k, x in v.inputs.items():
        try:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Arr):
                n = ev(x[1])
                if isinstance(n, int) and 0 <= n <= 200:
                    d[k] = [ev(x[0].sel(i)) for i in range(n)]
            elif isinstance(x, (tuple, list)):
                d[k] = [ev(y) for y in x]
            else:
                d[k] = ev(x)
        except Exception:
            pass
    return d
