"""Symbolic executor / VC generator over the SSA form of the real code."""
import os
import sys
import time
from fractions import Fraction
import z3
from .num import *
from .vals import *
from . import solver

MOD = 'github.com/davidkleiven/gopf/'
DBG = os.environ.get('GOWP_DEBUG')
MAXUNROLL = 80


class FactSet:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def add(self, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        self.d[f.get_id()] = f

    def copy(self):
        return FactSet(dict(self.d))

    def list(self):
        return list(self.d.values())


class State:
    __slots__ = ('mem', 'pc', 'facts', 'known', 'ghost', 'defers', 'foralls')

    def __init__(self):
        self.mem, self.pc, self.facts, self.known, self.ghost, self.defers = {}, [], FactSet(), Known(), {}, ()
        self.foralls = ()    # (cond, N, fn): cond -> for all 0<=m<N fn(m)

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = self.facts.copy()
        s.known = Known(self.known)
        s.ghost = dict(self.ghost)
        s.defers = self.defers
        s.foralls = self.foralls
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        if z3.is_and(c):
            for x in c.children():
                self.known.add(x.get_id())
        self.known.add(c.get_id())
        self.known.learn(c)

    def hyps(self):
        return self.pc + self.facts.list()


EXCL = {}


def exclusive(pa, pb, common):
    """two path conditions exclude each other"""
    if not pa or not pb:
        return False
    for x in pa:
        for y in pb:
            k = (x.get_id(), y.get_id())
            if k not in EXCL:
                nx = z3.simplify(z3.Not(x))
                EXCL[k] = (nx.eq(z3.simplify(y)), x, y)
            if EXCL[k][0]:
                return True
    return not solver.feasible(common + pa + pb)


class Obl:
    def __init__(self, name, hyps, goal, pos=None):
        self.name, self.hyps, self.goal, self.pos = name, hyps, goal, pos


class LoopVar:
    """summary of one loop-modified variable"""
    pass


class Interp:
    map_rev = False

    def __init__(self, prog, contract_name=''):
        self.prog = prog
        self.cname = contract_name
        self.obls = []
        self.results = []     # (name, status, backend, pos)
        self.quiet = 0
        self.trivial = 0
        self.sites = [None]
        self.site_ord = 0
        self.fam_sites = {}
        self.alloc_site = {}
        self.nfresh = 0
        self.noid = 0
        self.wlogs = []
        self.iters = []
        self.externs = {}
        self.summaries = {}
        self.inlined = set()
        self.used_summaries = set()
        self.assumptions = set()
        self.div_hints = []
        self.numberings = {}    # opaque numbering of cells -> coordinates of a cell
        self.specsums = []
        self.specfns = []      # [(name, fn(int)->num)] candidate closed forms for scalar loop vars
        self.tabs = []         # fn(index) -> value: what tables filled entry by entry may hold
        self.loop_candidates = []   # generators of candidate invariants
        self.globals = {}
        self.depth = 0
        self.fact_hooks = []
        self.deadline = None
        self.safety = True
        self.unrolled = 0
        self.unroll_cap = 600  # loops of more (concrete) iterations are summarised
        self.loops_inv = 0

    # ---------------------------------------------------------------- util
    def fresh(self, name, sort=INT):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        if self.iters:
            f = z3.Function(nm, *([INT] * len(self.iters) + [sort]))
            return f(*self.iters)
        return z3.Const(nm, sort)

    def newoid(self):
        self.noid += 1
        return self.noid

    def focus(self, st):
        CTX.facts = st.facts
        CTX.known = st.known

    def alloc(self, st, content):
        if self.iters:
            self.site_ord += 1
            site = (tuple(self.sites), self.site_ord)
            f = self.fam_sites.get(site)
            if f is not None and any(f[1] is x for x in self.iters):
                # one object per iteration of an enclosing loop
                fam = st.mem[f[0]]
                if isinstance(fam, FamStore) and fam.key[0] is f[1]:
                    raise Unsupported('several objects of one site per iteration')
                ref = Ref(f[0], (f[1],))
                st.mem[f[0]] = fam.set((f[1],), content)
                for w in self.wlogs:
                    w.append((ref, ()))
                return ref
        o = self.newoid()
        st.mem[o] = content
        if self.iters:
            self.alloc_site[o] = site
        return Ref(o)

    # ---------------------------------------------------------------- memory
    def read_ref(self, st, ref):
        c = st.mem[ref.oid]
        if ref.key:
            c = c.get(ref.key)
        return c

    def write_ref(self, st, ref, content):
        for w in self.wlogs:
            w.append((ref, ()))
        if ref.key:
            st.mem[ref.oid] = st.mem[ref.oid].set(ref.key, content)
        else:
            st.mem[ref.oid] = content

    def load(self, st, p):
        if p.ref is None:
            raise Unsupported('nil deref')
        c = self.read_ref(st, p.ref)
        for kind, x in p.path:
            c = c.f[x] if kind == 'f' else c.sel(x)
        return c

    def _upd(self, c, path, v):
        if not path:
            return v
        kind, x = path[0]
        if kind == 'f':
            return c.set(x, self._upd(c.f[x], path[1:], v))
        if len(path) == 1:
            return arr_store(c, x, v)
        return arr_store(c, x, self._upd(c.sel(x), path[1:], v))

    def store(self, st, p, v):
        if p.ref is None:
            raise Unsupported('nil store')
        for w in self.wlogs:
            w.append((p.ref, p.path))
        c = self.read_ref(st, p.ref)
        c = self._upd(c, p.path, v)
        if p.ref.key:
            st.mem[p.ref.oid] = st.mem[p.ref.oid].set(p.ref.key, c)
        else:
            st.mem[p.ref.oid] = c

    def get(self, st, sl, k):
        """slice element"""
        return self.read_ref(st, sl.ref).sel(add(sl.off, k))

    # ---------------------------------------------------------------- types
    def zero(self, t):
        u = self.prog.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n == 'bool' or n == 'untyped bool':
                return False
            if n == 'string' or n == 'untyped string':
                return ''
            if n.startswith('complex'):
                return CZERO
            if n.startswith('float') or n == 'untyped float':
                return Fraction(0)
            if n == 'unsafe.Pointer':
                return NILPTR
            return 0
        if k == 'ptr':
            return NILPTR
        if k == 'slice':
            return NILSLICE
        if k == 'struct':
            nm = self.prog.types[t]['s']
            if nm in self.opaque_types:
                return self.opaque_types[nm](self)
            return StructV({f: self.zero(ft) for f, ft in u['f'] or ()})
        if k == 'array':
            z0 = self.zero(u['e'])
            return ListArr([z0] * u['n']) if u['n'] <= self.unroll_cap else ConstArr(z0)
        if k == 'map':
            return MapRef(None)
        if k == 'func':
            return NILFUNC
        if k == 'iface':
            return NILIFACE
        if k == 'chan':
            return None
        raise Unsupported('zero of %s' % u)

    opaque_types = {}

    def fresh_of(self, name, t, st=None):
        """fresh symbolic scalar value of basic type t"""
        u = self.prog.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if 'bool' in n:
                return self.fresh(name, z3.BoolSort())
            if 'string' in n:
                return self.fresh(name, z3.StringSort())
            if n.startswith('complex'):
                return C(self.fresh(name + '_re', REAL), self.fresh(name + '_im', REAL))
            if n.startswith('float'):
                return self.fresh(name, REAL)
            return self.fresh(name, INT)
        if k == 'struct':
            return StructV({f: self.fresh_of(name + '.' + f, ft) for f, ft in u['f']})
        raise Unsupported('fresh of %s' % u)

    def fresh_arr(self, name, t):
        """fresh symbolic array content with elements of type t"""
        u = self.prog.u(t)
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        its = list(self.iters)

        def mkleaf(suffix, sort):
            f = z3.Function(nm + suffix, *([INT] * (len(its) + 1) + [sort]))
            return lambda k: f(*(its + [zi(k)]))

        def build(t, suffix):
            u = self.prog.u(t)
            if u['k'] == 'basic':
                n = u['name']
                if 'bool' in n:
                    return mkleaf(suffix, z3.BoolSort())
                if 'string' in n:
                    return mkleaf(suffix, z3.StringSort())
                if n.startswith('complex'):
                    a, b = mkleaf(suffix + '_re', REAL), mkleaf(suffix + '_im', REAL)
                    return lambda k: C(a(k), b(k))
                if n.startswith('float'):
                    return mkleaf(suffix, REAL)
                return mkleaf(suffix, INT)
            if u['k'] == 'struct':
                parts = {f: build(ft, suffix + '.' + f) for f, ft in u['f']}
                return lambda k: StructV({f: p(k) for f, p in parts.items()})
            raise Unsupported('fresh_arr of %s' % u)
        return BaseArr(build(t, ''), nm)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, pos=None):
        """record+discharge an obligation under st, then assume it"""
        if goal is True:
            if not self.quiet:
                if name.startswith(self.cname):
                    self.results.append((name, 'ok', 'simplifier', pos, None))
                else:
                    self.trivial += 1
            return
        if self.quiet:
            st.assume(goal)
            return
        ok, info = solver.prove(st.hyps(), zb(goal) if goal is not False else False, timeout=self.timeout)
        if ok:
            self.results.append((name, 'ok', info, pos, None))
        else:
            self.results.append((name, 'fail' if ok is False else 'unknown', None, pos, info))
            if DBG:
                print('OBL FAIL', name, pos, goal if goal is False else z3.simplify(zb(goal)), file=sys.stderr)
                if DBG == '2':
                    for h in st.hyps():
                        print('    H', h, file=sys.stderr)
                    print('  model', info, file=sys.stderr)
        if goal is not False:
            st.assume(goal)

    def oblige_closed(self, name, goal):
        if goal is True:
            return
        ok, info = solver.prove([], zb(goal), timeout=self.timeout)
        self.results.append((name, 'ok' if ok else 'fail' if ok is False else 'unknown', info if ok else None, None, None if ok else info))

    timeout = 8000

    def feasible(self, st, c):
        if isinstance(c, bool):
            return c
        d = CTX.decided(c)
        if d is not None:
            return d
        return solver.feasible(st.hyps() + [c])

    # ---------------------------------------------------------------- calls
    def call(self, st, fv, args, pos=None):
        """-> list of (st, value)"""
        if self.deadline and time.process_time() > self.deadline:
            raise Unsupported('engine time budget exhausted')
        if isinstance(fv, FuncAbs):
            if fv.handler is None:
                self.oblige(st, 'call of nil func', False, pos)
                return []
            return fv.handler(self, st, args)
        name = fv.name
        if name in self.summaries:
            self.used_summaries.add(name)
            return self.summaries[name](self, st, list(fv.binds) + list(args) if fv.binds else args)
        fn = self.prog.fns.get(name)
        if name in self.externs:
            return self.externs[name](self, st, args)
        if fn is None or fn.blocks is None:
            from . import ext
            h = ext.lookup(name)
            if h is None:
                raise Unsupported('external %s' % name)
            return h(self, st, args)
        return self.run_fn(fn, args, st, fv.binds)

    def invoke(self, st, recv, meth, args, pos=None):
        if isinstance(recv, IfaceAbs):
            h = recv.handlers.get(meth)
            if h is None:
                raise Unsupported('abstract %s.%s' % (recv.tag, meth))
            return h(self, st, [recv] + list(args))
        if isinstance(recv, Opaque):
            from . import ext
            h = ext.lookup('opaque.%s.%s' % (recv.kind, meth))
            if h is None:
                raise Unsupported('opaque %s.%s' % (recv.kind, meth))
            return h(self, st, [recv] + list(args))
        if isinstance(recv, Iface):
            if recv.tid is None:
                self.oblige(st, 'invoke on nil interface', False, pos)
                return []
            fn = self.prog.methods.get(recv.tname, {}).get(meth)
            if fn is None:
                raise Unsupported('method %s.%s' % (recv.tname, meth))
            return self.call(st, FuncV(fn), [recv.v] + list(args), pos)
        raise Unsupported('invoke on %r' % (recv,))

    def run_fn(self, fn, args, st, binds=()):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth (recursion?) at %s' % fn.name)
        self.inlined.add(fn.name)
        regs = {}
        for (n, _), a in zip(fn.params, args):
            regs[n] = a
        for (n, _), a in zip(fn.freevars, binds):
            regs[n] = a
        self.sites.append(None)
        try:
            saved = st.defers
            st.defers = ()
            outs = self.region(fn, 0, [(-1, regs, st)], None)
            res = []
            for s, v in outs['ret']:
                s.defers = saved
                res.append((s, v))
            return self.merge_outcomes(res)
        finally:
            self.depth -= 1
            self.sites.pop()

    def merge_outcomes(self, res):
        out = []
        for s, v in res:
            for i, (s2, v2) in enumerate(out):
                m = self.try_merge(s2, s, [v2], [v])
                if m is not None:
                    out[i] = (m[0], m[1][0])
                    break
            else:
                out.append((s, v))
        return out

    # ---------------------------------------------------------------- merging
    @undecided
    def try_merge(self, a, b, va, vb):
        """merge states a,b with value lists; None if not mergeable"""
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        if n < len(a.pc) and n < len(b.pc):
            while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
                n += 1
        ca = band(*a.pc[n:])
        cb = band(*b.pc[n:])
        if a.defers != b.defers:
            return None
        choice = []
        if not exclusive(a.pc[n:], b.pc[n:], a.pc[:n]):
            # both may hold (outcomes of a loop are told apart by facts about all iterations, not by conditions): an unknown choice
            sel = self.fresh('choice', z3.BoolSort())
            choice = [zb(imp(sel, ca)), zb(imp(bnot(sel), cb))]
            ca, cb = sel, bnot(sel)
        try:
            vals = [vite(ca, x, y) for x, y in zip(va, vb)]
            mem = {}
            for o in set(a.mem) | set(b.mem):
                if o not in a.mem:
                    mem[o] = b.mem[o]
                elif o not in b.mem:
                    mem[o] = a.mem[o]
                elif a.mem[o] is b.mem[o]:
                    mem[o] = a.mem[o]
                else:
                    mem[o] = cite(ca, a.mem[o], b.mem[o])
            ghost = {}
            for g in set(a.ghost) | set(b.ghost):
                x, y = a.ghost.get(g), b.ghost.get(g)
                if x is y:
                    ghost[g] = x
                else:
                    if x is None or y is None:
                        return None
                    ghost[g] = vite(ca, x, y)
        except NeedSplit:
            return None
        s = State()
        s.mem, s.ghost, s.defers = mem, ghost, a.defers
        s.foralls = tuple(x for x in a.foralls if x in b.foralls) + \
            tuple((band(ca, x[0]), x[1], x[2]) for x in a.foralls if x not in b.foralls) + \
            tuple((band(cb, x[0]), x[1], x[2]) for x in b.foralls if x not in a.foralls)
        s.pc = a.pc[:n]
        s.known = a.known.both(b.known)
        s.facts = FactSet({**a.facts.d, **b.facts.d})
        comb = simp(zb(bor(ca, cb))) if not (isinstance(ca, bool) or isinstance(cb, bool)) else True
        if choice:
            s.pc.extend(choice)
        elif comb is not True:
            s.pc.append(zb(bor(ca, cb)))
        return s, vals

    def merge_items(self, fn, items, blk):
        """items at a join: (prev, regs, st) with phis already in regs"""
        if len(items) <= 1:
            return items
        phis = [i['r'] for i in fn.blocks[blk]['i'] if i['op'] == 'phi']
        live = fn.live_in()[blk]
        out = []
        for p, r, s in items:
            for i, (p2, r2, s2) in enumerate(out):
                nr, differ = {}, []
                for k in r2:
                    if k in r and r[k] is r2[k]:
                        nr[k] = r[k]
                    elif k in r and isinstance(r[k], (int, Fraction, bool, str)) and type(r[k]) == type(r2[k]) and r[k] == r2[k]:
                        nr[k] = r[k]
                    elif k in r and k in live and k not in phis:
                        differ.append(k)
                names = phis + differ
                m = self.try_merge(s2, s, [r2.get(x) for x in names], [r.get(x) for x in names])
                if m is None:
                    continue
                for x, v in zip(names, m[1]):
                    nr[x] = v
                out[i] = (p2, nr, m[0])
                break
            else:
                out.append((p, r, s))
        return out

    # ---------------------------------------------------------------- region execution
    def region(self, fn, start, items, loop, header_branch=None):
        """Execute from block `start` (phis already evaluated in regs).
        loop: None or (header, body set).  Returns dict ret/back/exit."""
        rpo = fn.rpo()
        loops = fn.loops()
        pending = {start: list(items)}
        res = {'ret': [], 'back': [], 'exit': []}
        first = True
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            its = pending.pop(b)
            its = self.merge_items(fn, its, b)
            inner = b in loops and not (loop is not None and loop[0] == b)
            for (prev, regs, st) in its:
                if inner:
                    r = self.handle_loop(fn, b, regs, st)
                    res['ret'].extend(r['ret'])
                    edges = r['exit']
                else:
                    edges, rets = self.exec_block(fn, b, regs, st, header_branch if b == start and loop else None)
                    res['ret'].extend(rets)
                for (src, dst, rg, s) in edges:
                    if not inner:       # exits of an inner loop already took their edge
                        rg = self.take_edge(fn, src, dst, rg, s)
                    if loop is not None and dst == loop[0]:
                        res['back'].append((src, rg, s))
                    elif loop is not None and dst not in loop[1]:
                        res['exit'].append((src, dst, rg, s))
                    else:
                        pending.setdefault(dst, []).append((src, rg, s))
        return res

    def take_edge(self, fn, src, dst, regs, st):
        blk = fn.blocks[dst]
        if not blk['i'] or blk['i'][0]['op'] != 'phi':
            return regs
        pi = blk['pred'].index(src)
        self.focus(st)
        new = {}
        for ins in blk['i']:
            if ins['op'] != 'phi':
                break
            new[ins['r']] = self.val(st, regs, ins['edges'][pi])
        r = dict(regs)
        r.update(new)
        return r

    def exec_block(self, fn, b, regs, st, header_branch=None):
        blk = fn.blocks[b]
        edges, rets = [], []
        work = [(0, dict(regs), st)]
        while work:
            i, rg, s = work.pop()
            while True:
                ins = blk['i'][i]
                op = ins['op']
                self.focus(s)
                if op == 'phi':
                    i += 1
                    continue
                if op == 'jump':
                    edges.append((b, blk['succ'][0], rg, s))
                    break
                if op == 'if':
                    c = self.val(s, rg, ins['x'])
                    d = CTX.decided(c)
                    if d is None:
                        c2 = simp(c)
                        if isinstance(c2, bool):
                            d = c2
                    if d is not None:
                        edges.append((b, blk['succ'][0 if d else 1], rg, s))
                        break
                    ft = self.feasible(s, c)
                    ff = self.feasible(s, bnot(c))
                    if ft and ff and header_branch == 'concrete':
                        raise NotConcrete()
                    if ft and ff:
                        s2 = s.copy()
                        s.assume(c)
                        s2.assume(bnot(c))
                        edges.append((b, blk['succ'][0], rg, s))
                        edges.append((b, blk['succ'][1], dict(rg), s2))
                    elif ft:
                        edges.append((b, blk['succ'][0], rg, s))
                    elif ff:
                        edges.append((b, blk['succ'][1], rg, s))
                    break
                if op == 'return':
                    vs = [self.val(s, rg, x) for x in ins['xs']]
                    rets.append((s, None if not vs else vs[0] if len(vs) == 1 else tuple(vs)))
                    break
                if op == 'panic':
                    if self.feasible(s, True):
                        self.on_panic(s, ins.get('pos'))
                    break
                try:
                    outs = self.exec_instr(fn, s, rg, ins)
                except NeedSplit as e:
                    s2 = s.copy()
                    rg2 = dict(rg)
                    if self.feasible(s, e.cond):
                        s1 = s.copy()
                        s1.assume(e.cond)
                        work.append((i, dict(rg), s1))
                    self.focus(s2)
                    if self.feasible(s2, bnot(e.cond)):
                        s2.assume(bnot(e.cond))
                        work.append((i, rg2, s2))
                    break
                if outs is None:
                    i += 1
                    continue
                # call with outcomes
                r = ins.get('r')
                if len(outs) == 1 and True:
                    s, v = outs[0]
                    if r is not None:
                        rg[r] = v
                    i += 1
                    continue
                for s3, v in outs:
                    rg3 = dict(rg)
                    if r is not None:
                        rg3[r] = v
                    work.append((i + 1, rg3, s3))
                break
        return edges, rets

    def on_panic(self, st, pos):
        self.oblige(st, 'no explicit panic', False, pos)

    # ---------------------------------------------------------------- values
    def val(self, st, regs, v):
        k = v['k']
        if k == 'reg':
            return regs[v['name']]
        if k == 'const':
            return self.const(v)
        if k == 'fn':
            return FuncV(v['name'])
        if k == 'global':
            return self.global_ptr(st, v)
        raise Unsupported('value %s' % v)

    def const(self, v):
        if v.get('nil'):
            return self.zero(v['t'])
        u = self.prog.u(v['t'])
        if 'b' in v:
            return v['b']
        if 's' in v:
            return v['s']
        if 're' in v:
            return C(pi_const(Fraction(v['re'])), pi_const(Fraction(v['im'])))
        if u['k'] == 'basic':
            n = u['name']
            if n.startswith('float') or n == 'untyped float':
                return pi_const(Fraction(v['n']))
            if n.startswith('complex'):
                return C(pi_const(Fraction(v['n'])), Fraction(0))
            return int(Fraction(v['n']))
        raise Unsupported('const %s' % v)

    def global_ptr(self, st, v):
        nm = v['name']
        if nm not in self.globals:
            et = self.prog.u(v['t'])['e']
            o = self.newoid()
            self.globals[nm] = (o, et)
        o, et = self.globals[nm]
        if o not in st.mem:
            from . import ext
            g = ext.GLOBALS.get(nm)
            st.mem[o] = g(self) if g else self.zero(et)
        return Ptr(Ref(o))

    # ---------------------------------------------------------------- instructions
    def bounds(self, st, idx, ln, pos, what='index in range'):
        g = band(le(0, idx), lt(idx, ln))
        if g is True:
            return
        if not self.safety:
            st.assume(g)
            return
        self.oblige(st, what, g, pos)

    def exec_instr(self, fn, st, regs, ins):
        op = ins['op']
        self.sites[-1] = id(ins)
        self.site_ord = 0
        r = ins.get('r')
        V = lambda x: self.val(st, regs, x)
        if op == 'alloc':
            ref = self.alloc(st, self.zero(ins['e']))
            regs[r] = Ptr(ref)
        elif op == 'binop':
            regs[r] = self.binop(st, ins['tok'], V(ins['x']), V(ins['y']), ins['xt'], ins.get('pos'))
        elif op == 'unop':
            x = V(ins['x'])
            t = ins['tok']
            if t == '*':
                if isinstance(x, Ptr) and x.ref is None:
                    self.oblige(st, 'nil dereference', False, ins.get('pos'))
                    return []
                regs[r] = self.load(st, x)
            elif t == '-':
                regs[r] = -x if isinstance(x, C) else neg(x)
            elif t == '!':
                regs[r] = bnot(x)
            else:
                raise Unsupported('unop ' + t)
        elif op == 'call':
            return self.do_call(st, regs, ins)
        elif op == 'changetype' or op == 'changeiface':
            regs[r] = V(ins['x'])
        elif op == 'convert':
            regs[r] = self.convert(st, V(ins['x']), ins['xt'], ins['t'])
        elif op == 'makeiface':
            regs[r] = Iface(self.prog.tname(ins['xt']), ins['xt'], V(ins['x']))
        elif op == 'closure':
            regs[r] = FuncV(ins['fn']['name'], tuple(V(b) for b in ins['b']))
        elif op == 'makemap':
            regs[r] = MapRef(self.alloc(st, MapV()))
        elif op == 'makeslice':
            n = V(ins['len'])
            c = V(ins['cap'])
            u = self.prog.u(ins['t'])
            self.oblige(st, 'make: length non-negative', le(0, n), ins.get('pos'))
            self.ntouch = 0
            regs[r] = self.make_slice(st, u['e'], n, c)
        elif op == 'slice':
            regs[r] = self.do_slice(st, regs, ins)
        elif op == 'fieldaddr':
            p = V(ins['x'])
            if isinstance(p, Ptr) and p.ref is None:
                self.oblige(st, 'nil dereference', False, ins.get('pos'))
                return []
            regs[r] = Ptr(p.ref, p.path + (('f', ins['f']),))
        elif op == 'field':
            regs[r] = V(ins['x']).f[ins['f']]
        elif op == 'indexaddr':
            x = V(ins['x'])
            i = V(ins['i'])
            if isinstance(x, Slice):
                self.bounds(st, i, x.len, ins.get('pos'))
                if x.ref is None:
                    return []
                regs[r] = Ptr(x.ref, (('i', add(x.off, i)),))
            else:
                u = self.prog.u(self.prog.u(ins['xt'])['e'])
                self.bounds(st, i, u['n'], ins.get('pos'))
                regs[r] = Ptr(x.ref, x.path + (('i', i),))
        elif op == 'index':
            x = V(ins['x'])
            i = V(ins['i'])
            if isinstance(x, str) or (z3.is_expr(x) and x.sort() == z3.StringSort()):
                regs[r] = self.str_index(st, x, i, ins.get('pos'))
            else:
                u = self.prog.u(ins['xt'])
                self.bounds(st, i, u['n'], ins.get('pos'))
                regs[r] = x.sel(i)
        elif op == 'lookup':
            regs[r] = self.map_lookup(st, V(ins['x']), V(ins['i']), ins)
        elif op == 'mapupdate':
            self.map_update(st, V(ins['m']), V(ins['key']), V(ins['x']))
        elif op == 'range':
            x = V(ins['x'])
            regs[r] = self.mk_range(st, x, ins)
        elif op == 'next':
            regs[r] = self.do_next(st, V(ins['x']), ins)
        elif op == 'extract':
            regs[r] = V(ins['x'])[ins['i']]
        elif op == 'store':
            a = V(ins['a'])
            if a.ref is None:
                self.oblige(st, 'nil dereference', False, ins.get('pos'))
                return []
            self.store(st, a, V(ins['x']))
        elif op == 'typeassert':
            regs[r] = self.type_assert(st, V(ins['x']), ins)
        elif op == 'defer':
            if 'fn' in ins and ins['fn']['k'] != 'builtin':
                st.defers = st.defers + ((V(ins['fn']), tuple(V(a) for a in ins['args'])),)
            elif 'recv' in ins:
                st.defers = st.defers + (((V(ins['recv']), ins['invoke']), tuple(V(a) for a in ins['args'])),)
            else:
                raise Unsupported('defer builtin')
        elif op == 'rundefers':
            outs = [(st, None)]
            for f, a in reversed(st.defers):
                nxt = []
                for s, _ in outs:
                    self.focus(s)
                    if isinstance(f, tuple):
                        nxt.extend(self.invoke(s, f[0], f[1], list(a)))
                    else:
                        nxt.extend(self.call(s, f, list(a)))
                outs = nxt
            for s, _ in outs:
                s.defers = ()
            return outs
        else:
            raise Unsupported('instr %s (%s)' % (op, ins.get('s')))
        return None

    def make_slice(self, st, et, n, cap=None):
        z0 = self.zero(et)
        if isinstance(n, int) and n <= self.unroll_cap:
            content = ListArr([z0] * n)
            if isinstance(cap, int) and cap > n:
                content = ListArr([z0] * cap)
        else:
            content = ConstArr(z0)
        return Slice(self.alloc(st, content), 0, n, cap if cap is not None else n)

    def do_slice(self, st, regs, ins):
        x = self.val(st, regs, ins['x'])
        lo = self.val(st, regs, ins['lo']) if ins['lo'] else 0
        hi = self.val(st, regs, ins['hi']) if ins['hi'] else None
        pos = ins.get('pos')
        if isinstance(x, str) or (z3.is_expr(x) and x.sort() == z3.StringSort()):
            n = len(x) if isinstance(x, str) else z3.Length(x)
            hi = n if hi is None else hi
            self.oblige(st, 'string slice bounds', band(le(0, lo), le(lo, hi), le(hi, n)), pos)
            if isinstance(x, str) and isinstance(lo, int) and isinstance(hi, int):
                return x[lo:hi]
            return z3.SubString(z(x), zi(lo), zi(sub(hi, lo)))
        if isinstance(x, Ptr):
            n = self.prog.u(self.prog.u(ins['xt'])['e'])['n']
            hi = n if hi is None else hi
            self.oblige(st, 'slice bounds', band(le(0, lo), le(lo, hi), le(hi, n)), pos)
            if x.path:
                raise Unsupported('slice of inner array')
            return Slice(x.ref, lo, sub(hi, lo), sub(n, lo))
        hi = x.len if hi is None else hi
        self.oblige(st, 'slice bounds', band(le(0, lo), le(lo, hi), le(hi, x.cap)), pos)
        return Slice(x.ref, add(x.off, lo), sub(hi, lo), sub(x.cap, lo))

    def str_index(self, st, x, i, pos):
        n = len(x) if isinstance(x, str) else z3.Length(x)
        self.bounds(st, i, n, pos)
        if isinstance(x, str) and isinstance(i, int):
            return x.encode()[i]
        return z3.StrToCode(z3.SubString(z(x), zi(i), z3.IntVal(1)))

    # maps
    def map_lookup(self, st, m, key, ins):
        if not isinstance(m, MapRef):
            return self.str_index(st, m, key, ins.get('pos'))
        u = self.prog.u(ins['xt'])
        zero = self.zero(u['e'])
        ok, v = False, zero
        if m.ref is not None:
            c = self.read_ref(st, m.ref)
            done = False
            res = None
            chain = []
            for k, x in reversed(c.items):
                e = self.keyeq(k, key)
                d = CTX.decided(e)
                if d is True:
                    res = (True, x)
                    break
                if d is False:
                    continue
                raise NeedSplit(e)
            if res is None:
                res = c.base(key, zero) if c.base is not None else (False, zero)
            ok, v = res
        return (v, ok) if ins['ok'] else v

    def keyeq(self, a, b):
        return veq(a, b)

    def map_update(self, st, m, key, v):
        c = self.read_ref(st, m.ref)
        items = []
        for k, x in c.items:
            e = self.keyeq(k, key)
            d = CTX.decided(e)
            if d is None:
                raise NeedSplit(e)
            if d is False:
                items.append((k, x))
        self.write_ref(st, m.ref, MapV(items + [(key, v)], c.base))

    def mk_range(self, st, x, ins):
        if isinstance(x, MapRef):
            if x.ref is None:
                items = []
            else:
                c = self.read_ref(st, x.ref)
                if c.base is not None:
                    raise Unsupported('range over symbolic map')
                items = list(c.items)
                if self.map_rev:
                    items.reverse()
                elif len(items) > 1:
                    self.assumptions.add('maps are ranged over in insertion order (the reverse order where a contract says so)')
            return MapRef(self.alloc(st, MapV([(i, kv) for i, kv in enumerate(items)] + [(-1, 0)])))
        if isinstance(x, str):
            items = list(enumerate(x))
            return MapRef(self.alloc(st, MapV([(i, (a, ord(b))) for i, (a, b) in enumerate(items)] + [(-1, 0)])))
        raise Unsupported('range over %r' % (x,))

    def do_next(self, st, it, ins):
        c = self.read_ref(st, it.ref)
        d = dict(c.items)
        p = d[-1]
        if p not in d or p == -1:
            return (False, None, None)
        kv = d[p]
        d[-1] = p + 1
        st.mem[it.ref.oid] = MapV(list(d.items()))
        return (True, kv[0], kv[1])

    def type_assert(self, st, x, ins):
        at = ins['at']
        u = self.prog.u(at)
        if isinstance(x, Iface):
            if u['k'] == 'iface':
                ok = x.tid is not None and all(m in self.prog.methods.get(x.tname, {}) for m in (u['m'] or []))
                v = x if ok else NILIFACE
            else:
                ok = x.tname == self.prog.tname(at)
                v = x.v if ok else self.zero(at)
            if ins['ok']:
                return (v, ok)
            self.oblige(st, 'type assertion holds', ok, ins.get('pos'))
            return v
        if isinstance(x, IfaceAbs):
            ok = False
            if u['k'] == 'iface':
                ok = all(m in x.handlers for m in (u['m'] or []))
            if ins['ok']:
                return (x if ok else self.zero(at), ok)
            if ok:
                return x
        raise Unsupported('type assert %r' % (x,))

    # calls
    def do_call(self, st, regs, ins):
        args = [self.val(st, regs, a) for a in ins['args']]
        if 'invoke' in ins:
            recv = self.val(st, regs, ins['recv'])
            return self.invoke(st, recv, ins['invoke'], args, ins.get('pos'))
        f = ins['fn']
        if f['k'] == 'builtin':
            regs[ins['r']] = self.builtin(st, f['name'], args, ins)
            return None
        fv = self.val(st, regs, f)
        return self.call(st, fv, args, ins.get('pos'))

    def builtin(self, st, name, a, ins):
        if name == 'len':
            x = a[0]
            if isinstance(x, Slice):
                return x.len
            if isinstance(x, str):
                return len(x.encode())
            if isinstance(x, MapRef):
                if x.ref is None:
                    return 0
                c = self.read_ref(st, x.ref)
                if c.base is None:
                    return len(c.items)
                raise Unsupported('len of symbolic map')
            if z3.is_expr(x) and x.sort() == z3.StringSort():
                return z3.Length(x)
            if isinstance(x, ListArr):
                return len(x.xs)
            raise Unsupported('len %r' % (x,))
        if name == 'cap':
            return a[0].cap
        if name == 'real':
            return a[0].re
        if name == 'imag':
            return a[0].im
        if name == 'complex':
            return C(toreal(a[0]), toreal(a[1]))
        if name == 'copy':
            return self.do_copy(st, a[0], a[1])
        if name == 'append':
            return self.do_append(st, a[0], a[1], ins)
        if name == 'delete':
            m = a[0]
            c = self.read_ref(st, m.ref)
            items = []
            for k, x in c.items:
                d = CTX.decided(self.keyeq(k, a[1]))
                if d is None:
                    raise NeedSplit(self.keyeq(k, a[1]))
                if not d:
                    items.append((k, x))
            if c.base is not None:
                raise Unsupported('delete symbolic')
            self.write_ref(st, m.ref, MapV(items))
            return None
        if name in ('min', 'max'):
            r = a[0]
            for x in a[1:]:
                c = lt(x, r) if name == 'min' else lt(r, x)
                r = ite(c, x, r)
            return r
        if name == 'clear':
            raise Unsupported('clear')
        if name in ('print', 'println'):
            return None
        if name == 'ssa:wrapnilchk':
            return a[0]
        raise Unsupported('builtin ' + name)

    def do_copy(self, st, dst, src):
        if isinstance(src, str) or not isinstance(src, Slice):
            raise Unsupported('copy from string')
        c = lt(dst.len, src.len)
        d = CTX.decided(c)
        if d is None:
            c2 = simp(c)
            d = c2 if isinstance(c2, bool) else None
        if d is None and not isinstance(c, bool):
            if not self.feasible(st, c):
                d = False
            elif not self.feasible(st, bnot(c)):
                d = True
        n = ite(c, dst.len, src.len) if d is None else (dst.len if d else src.len)
        if d is False and eq(dst.len, src.len) is not True:
            n = src.len
        if isinstance(n, int) and n == 0:
            return 0
        if dst.ref is None or src.ref is None:
            return 0
        s = self.read_ref(st, src.ref)
        dc = self.read_ref(st, dst.ref)
        do, so = dst.off, src.off
        if isinstance(n, int) and isinstance(dc, ListArr) and isinstance(do, int):
            xs = list(dc.xs)
            vals = [s.sel(add(so, i)) for i in range(n)]
            for i in range(n):
                xs[do + i] = vals[i]
            self.write_ref(st, dst.ref, ListArr(xs))
            return n
        if isinstance(dc, ListArr):
            xs = [vite(band(le(do, i), lt(i, add(do, n))), s.sel(add(so, sub(i, do))) if True else None, x) for i, x in enumerate(dc.xs)]
            self.write_ref(st, dst.ref, ListArr(xs))
            return n

        # the whole destination is overwritten: keep the source array itself
        if same_ref(dst.ref, src.ref) is not True and isinstance(do, int) and do == 0 and isinstance(so, int) and so == 0 \
                and eq(n, dst.len) is True and eq(dst.cap, dst.len) is True and not isinstance(s, ListArr):
            self.write_ref(st, dst.ref, s)
            return n

        def rd(k):
            inside = band(le(do, k), lt(k, add(do, n)))
            dd = CTX.decided(inside)
            if dd is True:
                return s.sel(add(so, sub(k, do)))
            if dd is False:
                return dc.sel(k)
            return vite(inside, s.sel(add(so, sub(k, do))), dc.sel(k))
        self.write_ref(st, dst.ref, LamArr(rd))
        return n

    def do_append(self, st, s, more, ins):
        et = self.prog.u(ins['t'])['e']
        if isinstance(more, str):
            raise Unsupported('append string')
        if isinstance(s.len, int) and isinstance(more.len, int):
            xs = []
            if s.ref is not None:
                c = self.read_ref(st, s.ref)
                xs = [c.sel(add(s.off, i)) for i in range(s.len)]
            mc = self.read_ref(st, more.ref) if more.ref is not None else None
            ys = [mc.sel(add(more.off, i)) for i in range(more.len)]
            if not ys:
                return s
            n = len(xs) + len(ys)
            if s.ref is not None and isinstance(s.cap, int) and s.cap >= n and isinstance(s.off, int):
                # in place
                c = self.read_ref(st, s.ref)
                for i, y in enumerate(ys):
                    c = arr_store(c, s.off + s.len + i, y)
                self.write_ref(st, s.ref, c)
                return Slice(s.ref, s.off, n, s.cap)
            if s.ref is not None and not isinstance(s.cap, int):
                self.assumptions.add('append never writes into spare capacity shared with another slice')
            return Slice(self.alloc(st, ListArr(xs + ys)), 0, n)
        # symbolic length
        self.assumptions.add('append never writes into spare capacity shared with another slice')
        sc = self.read_ref(st, s.ref) if s.ref is not None else None
        mc = self.read_ref(st, more.ref) if more.ref is not None else None
        n1, o1, o2 = s.len, s.off, more.off
        if isinstance(more.len, int) and sc is not None and not isinstance(sc, ListArr) and isinstance(o1, int) and o1 == 0:
            c = sc
            for i in range(more.len):
                c = arr_store(c, add(n1, i), mc.sel(add(o2, i)))
            return Slice(self.alloc(st, c), 0, add(n1, more.len))

        def rd(k):
            if mc is None:
                return sc.sel(add(o1, k))
            if sc is None:
                return mc.sel(add(o2, sub(k, n1)))
            inside = lt(k, n1)
            dd = CTX.decided(inside)
            if dd is True:
                return sc.sel(add(o1, k))
            if dd is False:
                return mc.sel(add(o2, sub(k, n1)))
            return vite(inside, sc.sel(add(o1, k)), mc.sel(add(o2, sub(k, n1))))
        return Slice(self.alloc(st, LamArr(rd)), 0, add(n1, more.len))

    # arithmetic
    def tdivmod(self, st, a, b, pos):
        self.oblige(st, 'division by zero', bnot(eq(b, 0)), pos)
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q, a - q * b
        if not isinstance(b, int):
            az, bz = z3.simplify(zi(a), som=True), z3.simplify(zi(b), som=True)
            for (A, B, Q, R) in self.hints(az, bz):
                A, B, Q, R = zi(A), zi(B), zi(Q), zi(R)
                if poly_eq(bz, B) and poly_eq(az, A) and \
                        solver.prove(st.hyps(), z3.And(B > 0, A >= 0, A == Q * B + R, R >= 0, R < B), timeout=1500, quick=True)[0]:
                    return from_z(Q), from_z(R)
        return divmod_terms(self, a, b)

    def hints(self, az, bz):
        a0, c = poly_strip(az, bz)
        if a0 is not az:
            yield (az, bz, c, a0)
        for h in self.div_hints:
            if callable(h):
                yield from h(az, bz)
            else:
                yield h

    def binop(self, st, tok, x, y, xt, pos):
        u = self.prog.u(xt)
        bn = u.get('name', '')
        if tok in ('==', '!='):
            e = veq(x, y)
            return e if tok == '==' else bnot(e)
        if bn.startswith('complex'):
            if tok == '+':
                return x + y
            if tok == '-':
                return x - y
            if tok == '*':
                return x * y
            if tok == '/':
                return x / y
        if 'string' in bn:
            if tok == '+':
                if isinstance(x, str) and isinstance(y, str):
                    return x + y
                return z3.Concat(z(x), z(y))
            if isinstance(x, str) and isinstance(y, str):
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok]
            if tok == '<':
                return z(x) < z(y)
            if tok == '>':
                return z(y) < z(x)
            if tok == '<=':
                return z(x) <= z(y)
            return z(y) <= z(x)
        if tok in ('<', '<=', '>', '>='):
            return cmp(tok, x, y)
        isf = bn.startswith('float') or bn == 'untyped float'
        if tok == '+':
            return add(x, y)
        if tok == '-':
            return sub(x, y)
        if tok == '*':
            return mul(x, y)
        if tok == '/':
            if isf:
                if is_conc(y) and y == 0:
                    raise Unsupported('float division by constant zero')
                return rdiv(x, y)
            return self.tdivmod(st, x, y, pos)[0]
        if tok == '%':
            return self.tdivmod(st, x, y, pos)[1]
        if tok in ('&', '|', '^', '<<', '>>', '&^'):
            if isinstance(x, int) and isinstance(y, int):
                return {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y, '&^': x & ~y}[tok]
            if tok == '&' and isinstance(y, int) and y > 0 and (y & (y + 1)) == 0:
                return z3.ToInt(z3.ToReal(x)) % (y + 1) if False else zi(x) % (y + 1)
            if tok == '<<' and isinstance(y, int):
                return mul(x, 2 ** y)
            if tok == '>>' and isinstance(y, int):
                return zi(x) / (2 ** y)
        raise Unsupported('binop %s on %s' % (tok, bn))

    def convert(self, st, x, ft, tt):
        fu, tu = self.prog.u(ft), self.prog.u(tt)
        fn, tn = fu.get('name', ''), tu.get('name', '')
        if fu['k'] == 'basic' and tu['k'] == 'basic':
            isint_ = lambda n: n.startswith('int') or n.startswith('uint') or n in ('byte', 'rune', 'untyped int', 'untyped rune')
            if isint_(fn) and isint_(tn):
                if tn in ('uint8', 'byte') and not (isinstance(x, int) and 0 <= x < 256):
                    if fn not in ('uint8', 'byte'):
                        return simp(zi(x) % 256)
                return x
            if isint_(fn) and tn.startswith('float'):
                return toreal(x)
            if fn.startswith('float') and tn.startswith('float'):
                return x
            if fn.startswith('float') and isint_(tn):
                r = self.trunc(x)
                if tn in ('uint8', 'byte'):
                    return simp(zi(r) % 256)
                return r
            if fn.startswith('complex') and tn.startswith('complex'):
                return x
            if 'string' in fn and 'string' in tn:
                return x
            if isint_(fn) and 'string' in tn:
                if isinstance(x, int) and 0 <= x < 128:
                    return chr(x)
                if z3.is_expr(x):
                    return z3.StrFromCode(x)
                raise Unsupported('non-ASCII character')
        if fu['k'] == 'slice' and 'string' in tn or tu['k'] == 'slice' and 'string' in fn:
            raise Unsupported('string/bytes conversion')
        if fu['k'] == tu['k']:
            return x
        raise Unsupported('convert %s -> %s' % (fu, tu))

    def trunc(self, x):
        if isinstance(x, (int, Fraction)):
            return int(x)
        x = zr(x)
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    # ---------------------------------------------------------------- loops
    def handle_loop(self, fn, h, regs, st):
        """returns dict(ret=[], exit=[(src,dst,regs,st)])"""
        body = fn.loops()[h]
        # try concrete unrolling
        r = self.try_unroll(fn, h, body, regs, st)
        if r is not None:
            return r
        from .loops import summarise
        return summarise(self, fn, h, body, regs, st)

    def try_unroll(self, fn, h, body, regs, st):
        nobl, nres = len(self.obls), len(self.results)
        saved = [len(w) for w in self.wlogs]
        frontier = [(-1, dict(regs), st.copy())]
        ret, exits = [], []
        blk = fn.blocks[h]
        has_exit = blk['i'][-1]['op'] == 'if' and any(s not in body for s in blk['succ'])
        cap = MAXUNROLL if has_exit else 12
        forks = 0
        for it in range(self.unroll_cap + 1):
            if not frontier:
                self.unrolled += 1
                return {'ret': ret, 'exit': exits}
            if it == self.unroll_cap or forks >= cap or len(frontier) > 64:
                break
            self.sites.insert(-1, ('u', it))
            try:
                r = self.region(fn, h, frontier, (h, body), 'concrete' if has_exit else None)
            except NotConcrete:
                break
            finally:
                del self.sites[-2]
            ret.extend(r['ret'])
            exits.extend(r['exit'])
            if len(r['back']) != 1 or r['exit'] or r['ret']:
                forks += 1
            frontier = self.merge_items(fn, r['back'], h)
        del self.results[nres:]
        for w, n in zip(self.wlogs, saved):
            del w[n:]
        return None


class NotConcrete(Exception):
    pass


_TDIV = z3.Function('tdiv', INT, INT, INT)
_TMOD = z3.Function('tmod', INT, INT, INT)


def divmod_terms(ip, a, b):
    """Go's truncated division, with defining facts"""
    if isinstance(b, int) and b != 0:
        az = zi(a)
        bb = abs(b)
        q0 = z3.If(az >= 0, az / bb, -((-az) / bb))
        q = q0 if b > 0 else -q0
        q, r = simp(q), simp(az - q * b)
        return q, r
    az, bz = z3.simplify(zi(a), som=True), z3.simplify(zi(b), som=True)
    if z3.is_app_of(az, z3.Z3_OP_ITE):
        q1, r1 = divmod_terms(ip, az.arg(1), bz)
        q2, r2 = divmod_terms(ip, az.arg(2), bz)
        return ite(az.arg(0), q1, q2), ite(az.arg(0), r1, r2)
    q, r = _TDIV(az, bz), _TMOD(az, bz)
    CTX.fact(z3.Implies(bz > 0, az == q * bz + r))
    CTX.fact(z3.Implies(z3.And(bz > 0, az >= 0), z3.And(r >= 0, r < bz, q >= 0, q <= az)))
    CTX.fact(z3.Implies(z3.And(bz > 0, az <= 0), z3.And(r <= 0, r > -bz, q <= 0)))
    CTX.fact(z3.Implies(z3.And(bz > 0, az >= 0, az < bz), z3.And(r == az, q == 0)))
    CTX.fact(z3.Implies(z3.And(bz > 0, az >= bz, az < 2 * bz), z3.And(r == az - bz, q == 1)))
    CTX.fact(z3.Implies(bz < 0, az == q * bz + r))
    CTX.fact(z3.Implies(z3.And(bz < 0, az >= 0), z3.And(r >= 0, r < -bz)))
    CTX.fact(z3.Implies(z3.And(bz < 0, az <= 0), z3.And(r <= 0, r > bz)))
    # uniqueness of Euclidean division, instantiated at the contract's hints
    for (A, B, Q, R) in ip.hints(az, bz):
        A, B, Q, R = zi(A), zi(B), zi(Q), zi(R)
        if poly_eq(bz, B) and poly_eq(az, A):
            CTX.fact(z3.Implies(z3.And(B > 0, A >= 0, A == Q * B + R, R >= 0, R < B), z3.And(q == Q, r == R)))
    # Euclidean remainder of the residue class of a (multiples of b stripped)
    d, e, c = emod_terms(az, bz)
    CTX.fact(z3.Implies(z3.And(bz > 0, az >= 0), z3.And(q == d + c, r == e)))
    CTX.fact(z3.Implies(z3.And(bz > 0, az < 0), z3.If(e == 0, z3.And(r == 0, q == d + c), z3.And(r == e - bz, q == d + c + 1))))
    return q, r


_EDIV = z3.Function('ediv', INT, INT, INT)
_EMOD = z3.Function('emod', INT, INT, INT)


def emod_terms(az, bz):
    """(ediv(a0,b), emod(a0,b), c) with a == a0 + c*b and the defining facts of floor division"""
    a0, c = poly_strip(az, bz)
    d, e = _EDIV(a0, bz), _EMOD(a0, bz)
    CTX.fact(z3.Implies(bz > 0, z3.And(a0 == d * bz + e, e >= 0, e < bz)))
    CTX.fact(z3.Implies(z3.And(bz > 0, a0 >= 0, a0 < bz), z3.And(e == a0, d == 0)))
    for h in CTX.emod_hooks:
        h(e, bz)
    return d, e, c


def emod(a, b):
    """specification: the representative of a in [0,b)"""
    if isinstance(b, int):
        return a % b if isinstance(a, int) else simp(zi(a) % b)
    az, bz = z3.simplify(zi(a), som=True), z3.simplify(zi(b), som=True)
    return emod_terms(az, bz)[1]


def poly_strip(a, b):
    """a == a0 + c*b where no monomial of a0 is divisible by the monomial b"""
    rg = solver.Ring()
    try:
        n, d = rg.norm(a)
        m, d2 = rg.norm(b)
    except solver.TooBig:
        return a, z3.IntVal(0)
    if d or d2 or len(m) != 1:
        return a, z3.IntVal(0)
    (mb, cb), = m.items()
    rest, quo = z3.IntVal(0), z3.IntVal(0)
    hit = False
    for mon, co in n.items():
        e = dict(mon)
        k2 = co / cb
        ok = k2.denominator == 1 and co.denominator == 1
        for x, k in mb:
            if e.get(x, 0) < k:
                ok = False
            else:
                e[x] -= k
        if co.denominator != 1:
            return a, z3.IntVal(0)
        if not ok:
            e = dict(mon)
        t = z3.IntVal(int(k2 if ok else co))
        for x, k in e.items():
            for _ in range(k):
                t = t * rg.atoms[x]
        if ok:
            quo, hit = quo + t, True
        else:
            rest = rest + t
    if not hit:
        return a, z3.IntVal(0)
    return z3.simplify(rest, som=True), z3.simplify(quo, som=True)


def poly_eq(a, b):
    if a.eq(b):
        return True
    try:
        ok, side = solver.ring_zero(a - b)
        return ok and not side
    except Exception:
        return False
