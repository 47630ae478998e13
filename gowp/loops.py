"""Loop summarisation: guess a closed form of every loop-modified variable as a
function of the iteration number, then verify the guess inductively."""
import sys
from fractions import Fraction
import z3
from .num import *
from .vals import *
from . import solver
from .interp import State, NotConcrete, DBG


# ------------------------------------------------------------ flattening

def is_scalar(v):
    return is_conc(v) or isinstance(v, str) or z3.is_expr(v)


def flatten(v, leaves, arrs):
    """append leaves/arrays of v; return a skeleton usable with rebuild()"""
    if is_scalar(v):
        leaves.append(v)
        return ('s',)
    if isinstance(v, C):
        leaves.append(v.re)
        leaves.append(v.im)
        return ('c',)
    if isinstance(v, StructV):
        return ('struct', tuple((k, flatten(v.f[k], leaves, arrs)) for k in sorted(v.f)))
    if isinstance(v, ListArr):
        return ('list', tuple(flatten(x, leaves, arrs) for x in v.xs))
    if isinstance(v, tuple):
        return ('tuple', tuple(flatten(x, leaves, arrs) for x in v))
    if isinstance(v, Slice):
        if v.ref is None:
            return ('nilslice',)
        leaves.extend([v.off, v.len, v.cap])
        leaves.extend(v.ref.key)
        return ('slice', v.ref.oid, len(v.ref.key))
    if isinstance(v, Ptr):
        if v.ref is None:
            return ('nilptr',)
        leaves.extend(v.ref.key)
        p = []
        for k, x in v.path:
            if k == 'f':
                p.append((k, x))
            else:
                p.append((k, None))
                leaves.append(x)
        return ('ptr', v.ref.oid, len(v.ref.key), tuple(p))
    if isinstance(v, Iface) and v.tid is not None:
        return ('iface', v.tname, v.tid, flatten(v.v, leaves, arrs))
    if isinstance(v, Arr):
        arrs.append(v)
        return ('arr',)
    if isinstance(v, Fam):
        arrs.append(v)
        return ('fam',)
    if isinstance(v, FuncV):
        return ('fn', v.name, tuple(flatten(b, leaves, arrs) for b in v.binds))
    if isinstance(v, MapRef):
        return ('mapref', None if v.ref is None else v.ref.oid)
    return ('obj', id(v), v)


def rebuild(sk, li, ai):
    k = sk[0]
    if k == 's':
        return next(li)
    if k == 'c':
        a = next(li)
        return C(a, next(li))
    if k == 'struct':
        return StructV({n: rebuild(x, li, ai) for n, x in sk[1]})
    if k == 'list':
        return ListArr([rebuild(x, li, ai) for x in sk[1]])
    if k == 'tuple':
        return tuple(rebuild(x, li, ai) for x in sk[1])
    if k == 'nilslice':
        return NILSLICE
    if k == 'slice':
        o, l, c = next(li), next(li), next(li)
        key = tuple(next(li) for _ in range(sk[2]))
        return Slice(Ref(sk[1], key), o, l, c)
    if k == 'nilptr':
        return NILPTR
    if k == 'ptr':
        key = tuple(next(li) for _ in range(sk[2]))
        path = tuple((a, x) if a == 'f' else ('i', next(li)) for a, x in sk[3])
        return Ptr(Ref(sk[1], key), path)
    if k == 'iface':
        return Iface(sk[1], sk[2], rebuild(sk[3], li, ai))
    if k in ('arr', 'fam'):
        return next(ai)
    if k == 'fn':
        return FuncV(sk[1], tuple(rebuild(b, li, ai) for b in sk[2]))
    if k == 'mapref':
        return MapRef(None if sk[1] is None else Ref(sk[1]))
    return sk[2]


def skel_eq(a, b):
    if a[0] == 'obj' and b[0] == 'obj':
        return a[2] is b[2]
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isinstance(p, tuple) and p and isinstance(p[0], str) and isinstance(q, tuple):
                    if len(p) == 2 and isinstance(p[1], tuple) and not p[0] in ('s', 'c', 'f', 'i'):
                        if p[0] != q[0] or not skel_eq(p[1] if isinstance(p[1][0], str) else p, q[1] if isinstance(q[1][0], str) else q):
                            return False
                    elif not skel_eq(p, q):
                        return False
                elif p != q:
                    return False
        elif x != y:
            return False
    return True


def leaf_sort(x):
    if isinstance(x, bool):
        return z3.BoolSort()
    if isinstance(x, int):
        return INT
    if isinstance(x, Fraction):
        return REAL
    if isinstance(x, str):
        return z3.StringSort()
    return x.sort()


def vsubst(v, pairs):
    if is_conc(v) or isinstance(v, str):
        return v
    if z3.is_expr(v):
        return subst(v, pairs)
    if isinstance(v, Arr) and not isinstance(v, ListArr):
        return arr_subst(v, pairs)
    leaves, arrs = [], []
    sk = flatten(v, leaves, arrs)
    return rebuild(sk, iter([subst(x, pairs) for x in leaves]), iter([arr_subst(a, pairs) for a in arrs]))


class _Collect:
    def __init__(self):
        self.l = []

    def add(self, f):
        if not isinstance(f, bool):
            self.l.append(f)


def eval_subst(thunk, pairs):
    """evaluate thunk (emits facts mentioning the generic iteration), substitute
    result and facts."""
    saved = CTX.facts
    savedk = CTX.known
    col = _Collect()
    CTX.facts = col
    CTX.known = None
    try:
        v = thunk()
    finally:
        CTX.facts = saved
        CTX.known = savedk
    for f in col.l:
        CTX.fact(subst(f, pairs))
    return vsubst(v, pairs)


def arr_subst(a, pairs):
    if isinstance(a, ListArr):
        return ListArr([vsubst(x, pairs) for x in a.xs])
    return SubstArr(a, pairs)


_SK = [0]


class SubstArr(Arr):
    def __init__(self, a, pairs):
        self.a, self.pairs = a, pairs

    def sel(self, k):
        # k may itself mention the substituted symbols: go through a placeholder
        if is_conc(k):
            return eval_subst(lambda: self.a.sel(k), self.pairs)
        _SK[0] += 1
        ph = z3.Int('ph!%d' % _SK[0])
        v = eval_subst(lambda: self.a.sel(ph), list(self.pairs) + [(ph, k)])
        return v


class ElemArr(Arr):
    """content after t iterations of a loop that writes element beta+alpha*m in iteration m"""

    def __init__(self, base, n, t, writes, extra):
        self.base, self.n, self.t, self.writes, self.extra = base, n, t, writes, extra

    def sel(self, k):
        r = None
        # later writes win: fold from first to last
        def old():
            return self.base.sel(k)
        acc = None
        for (guard, alpha, beta, v) in self.writes:
            m = sub(k, beta) if alpha == 1 else sub(beta, k)
            inr = band(le(0, m), lt(m, self.t))
            d = CTX.decided(inr)
            if d is None:
                s = simp(zb(inr)) if not isinstance(inr, bool) else inr
                if isinstance(s, bool):
                    d = s
            if d is False:
                continue
            if acc is None:
                acc = old()
            pairs = [(self.n, m)]
            for f in self.extra:
                CTX.fact(subst(f, pairs))
            val = eval_subst(lambda: v, pairs) if not callable(v) else eval_subst(v, pairs)
            g = subst(guard, pairs) if not isinstance(guard, bool) else guard
            acc = vite(band(inr if d is None else True, g), val, acc)
        if acc is None:
            acc = old()
        return acc


class RowsArr(Arr):
    """content after t iterations of a loop whose iteration m writes (part of) the block beta+alpha*m .. beta+alpha*(m+1)-1
    (a guess like every other: the induction step decides whether it is right)"""

    def __init__(self, ip, base, n, t, alpha, beta, c):
        self.ip, self.base, self.n, self.t, self.alpha, self.beta, self.c = ip, base, n, t, alpha, beta, c

    def sel(self, k):
        kk = z3.simplify(zi(sub(k, self.beta)), som=True)
        al, t = zi(self.alpha), zi(self.t)
        q = r = None
        for A, B, Q, R in self.ip.hints(kk, al):
            if Q is not kk and not (isinstance(Q, int) and Q == 0) and poly_eq(al, zi(B)) and poly_eq(kk, zi(A)):
                q, r = zi(Q), zi(R)
                break
        if q is None:
            f = z3.Function('row', INT, INT, INT)
            q = f(kk, al)
            r = kk - q * al
            CTX.fact(imp(al > 0, band(le(0, r), lt(r, al))))
        for T in (t, t - 1):
            CTX.fact(imp(band(al > 0, q >= T), q * al >= T * al))
            CTX.fact(imp(band(al > 0, q < T), q * al <= T * al - al))
        inr = band(al > 0, eq(kk, q * al + r), le(0, r), lt(r, al), le(0, q), lt(q, t))
        d = CTX.decided(inr)
        if d is False:
            return self.base.sel(k)
        new = arr_subst(self.c, [(self.n, q)]).sel(k)
        return new if d is True else vite(inr, new, self.base.sel(k))


def poly_eq(a, b):
    from .interp import poly_eq as f
    return f(a, b)


def rows_guess(v, c, base, n):
    if not (isinstance(c, ElemArr) and c.base is base and c.writes):
        return None
    al = None
    for g, a, b, _ in c.writes:
        if a != 1 or is_conc(b):
            return None
        d = z3.simplify(z3.substitute(zi(b), (n, n + 1)) - zi(b), som=True)
        if not z3.substitute(d, (n, n + 1)).eq(d) or (al is not None and not poly_eq(al, d)):
            return None
        al = d
    if z3.is_int_value(al):
        return None
    return al, z3.simplify(z3.substitute(zi(c.writes[0][2]), (n, z3.IntVal(0))), som=True)


class ScatterArr(Arr):
    """content after t iterations of a loop that writes, in iteration m, cells whose coordinate `axis` is beta+m
    (an opaque numbering of cells by coordinates, ip.numberings: numbering function -> coordinates of a cell)"""

    def __init__(self, ip, base, n, t, f, axis, beta, idx, c, extra):
        self.ip, self.base, self.n, self.t, self.f, self.axis, self.beta, self.idx, self.c, self.extra = ip, base, n, t, f, axis, beta, idx, c, extra

    def sel(self, k):
        m = z3.simplify(zi(sub(self.ip.numberings[self.f](k)[self.axis], self.beta)), som=True)
        inr = band(le(0, m), lt(m, self.t))
        d = CTX.decided(inr)
        if d is False:
            return self.base.sel(k)
        pairs = [(self.n, m)]
        for x in self.extra:
            CTX.fact(imp(inr, subst(x, pairs)))
        new = arr_subst(self.c, pairs).sel(k)
        return new if d is True else vite(inr, new, self.base.sel(k))


def scatter_guess(v, c, base, n, t, extra):
    x = c
    while isinstance(x, StoreArr):
        x = x.base
    if isinstance(x, ScatterArr) and x.base is base:
        idx = x.idx
    elif x is base and isinstance(c, StoreArr):
        idx = c.idx
    else:
        return None
    if is_conc(idx) or idx.num_args() == 0 or idx.decl() not in v.ip.numberings:
        return None
    axis = beta = None
    for j in range(idx.num_args()):
        l = linear_in(idx.arg(j), n)
        if l is None or l[0] not in (0, 1):
            return None
        if l[0] == 1:
            if axis is not None:
                return None
            axis, beta = j, l[1]
    if axis is None:
        return None
    f = idx.decl()
    return lambda t: ScatterArr(v.ip, base, n, t, f, axis, beta, idx, c, extra)


class ElemFam(Fam):
    def __init__(self, base, n, t, alpha, beta, content, rest):
        self.base, self.n, self.t, self.alpha, self.beta, self.content, self.rest = base, n, t, alpha, beta, content, rest

    def get(self, key):
        k = key[0]
        m = sub(k, self.beta) if self.alpha == 1 else sub(self.beta, k)
        inr = band(le(0, m), lt(m, self.t))
        d = CTX.decided(inr)
        if d is None and not isinstance(inr, bool):
            s = simp(inr)
            d = s if isinstance(s, bool) else None
        if d is False:
            return self.base.get(key)
        new = eval_subst(lambda: self.content, [(self.n, m)])
        for f in self.rest or ():
            CTX.fact(subst(f, [(self.n, m)]))
        if d is True or isinstance(self.base, UndefFam):
            return new      # only allocated objects can be referred to
        return cite(inr, new, self.base.get(key))


# ------------------------------------------------------------ variables

class Var:
    """a loop-modified variable (phi or memory location)"""

    def __init__(self, ip, kind, ident, entry, seq=False):
        self.ip, self.kind, self.ident, self.seq = ip, kind, ident, seq
        self.cellinfo = []
        self.entry = entry
        self.leaves, self.arrs = [], []
        self.skel = flatten(entry, self.leaves, self.arrs)
        self.lg = [None] * len(self.leaves)     # leaf guesses: callable t -> value
        self.lk = ['sym'] * len(self.leaves)
        self.ag = [None] * len(self.arrs)
        self.ak = ['opt'] * len(self.arrs)
        self.syms = []
        for i, x in enumerate(self.leaves):
            ip.nfresh += 1
            its = list(ip.iters)
            f = z3.Function('L%s!%d' % (str(ident)[:20].replace(' ', ''), ip.nfresh), *([INT] * (len(its) + 1) + [leaf_sort(x)]))
            g = (lambda f, its: lambda t: f(*(its + [zi(t)])))(f, its)
            self.syms.append((f, g))
            self.lg[i] = g
        for i, a in enumerate(self.arrs):
            self.ag[i] = (lambda a: lambda t: a)(a)

    def flat(self, val):
        """flatten a back-edge value the way this variable is tracked"""
        ls, ars = [], []
        sk = flatten(val, ls, ars)
        if sk == self.skel:
            for slot, idxs in self.cellinfo:
                for x in idxs:
                    flatten(ars[slot].sel(x), ls, [])
        return sk, ls, ars

    def at(self, t):
        self.last = [g(t) for g in self.ag]
        return rebuild(self.skel, iter([g(t) for g in self.lg]), iter(self.last))


def loc_get(ip, st, ident):
    ref, fpath = ident
    c = ip.read_ref(st, ref)
    for f in fpath:
        c = c.f[f]
    return c


def loc_set(ip, st, ident, v):
    ref, fpath = ident
    if not fpath:
        if ref.key:
            st.mem[ref.oid] = st.mem[ref.oid].set(ref.key, v)
        else:
            st.mem[ref.oid] = v
        return
    c = ip.read_ref(st, ref)
    c = ip._upd(c, tuple(('f', f) for f in fpath), v)
    if ref.key:
        st.mem[ref.oid] = st.mem[ref.oid].set(ref.key, c)
    else:
        st.mem[ref.oid] = c


class LoopView:
    def __init__(self, ip, st, t, scal, entry, N):
        self.ip, self.st, self.t, self.scal, self.entry, self.N = ip, st, t, scal, entry, N


def header_cond(ip, fn, h, body, regs, st):
    """continue-condition at the header, or None"""
    blk = fn.blocks[h]
    if blk['i'][-1]['op'] != 'if':
        return None
    ins_ok = all(i['op'] in ('phi', 'binop', 'unop', 'if', 'fieldaddr', 'indexaddr', 'call', 'field', 'convert', 'changetype') for i in blk['i'])
    if not ins_ok:
        return None
    st = st.copy()
    rg = dict(regs)
    ip.focus(st)
    for ins in blk['i'][:-1]:
        if ins['op'] == 'phi':
            continue
        try:
            outs = ip.exec_instr(fn, st, rg, ins)
        except NeedSplit:
            return None
        if outs is not None:
            if len(outs) != 1:
                return None
            st, v = outs[0]
            if ins.get('r'):
                rg[ins['r']] = v
    c = ip.val(st, rg, blk['i'][-1]['x'])
    in0, in1 = blk['succ'][0] in body, blk['succ'][1] in body
    if in0 and not in1:
        return c
    if in1 and not in0:
        return bnot(c)
    return None


def trip_count(ip, cond, n, st):
    """closed form of the first n>=0 with not cond(n)"""
    if isinstance(cond, bool) or cond is None:
        return None
    c = cond
    negd = False
    while z3.is_not(c):
        c = c.arg(0)
        negd = not negd
    kind = None
    if z3.is_lt(c):
        a, b, kind = c.arg(0), c.arg(1), '<'
    elif z3.is_le(c):
        a, b, kind = c.arg(0), c.arg(1), '<='
    elif z3.is_gt(c):
        a, b, kind = c.arg(1), c.arg(0), '<'
    elif z3.is_ge(c):
        a, b, kind = c.arg(1), c.arg(0), '<='
    elif z3.is_eq(c):
        a, b, kind = c.arg(0), c.arg(1), '=='
    else:
        return None
    if a.sort() != INT:
        return None
    if kind != '==' and negd:
        a, b = b, a
        kind = '<=' if kind == '<' else '<'
    if kind == '==' and not negd:
        return None
    d = a - b
    al = simp(z3.substitute(d, (n, n + 1)) - d)
    if not isinstance(al, int):
        return None
    d0 = simp(z3.substitute(d, (n, z3.IntVal(0))))
    if kind == '==':
        if al == -1:
            d0, al = neg(d0), 1
        if al != 1:
            return None
        N = neg(d0)
        N = simp(N) if not is_conc(N) else N
        g = ge(N, 0)
        if g is True or (g is not False and solver.prove(st.hyps(), zb(g), timeout=2000)[0]):
            return N
        return None
    if al <= 0:
        return None
    if kind == '<=':
        d0 = sub(d0, 1)
    # while al*n + d0 < 0
    if al == 1:
        N = simp(neg(d0)) if not is_conc(d0) else -d0
    else:
        N = simp((zi(neg(d0)) + (al - 1)) / al)
    g = ge(N, 0)
    if g is True:
        return N
    if g is False:
        return 0
    if solver.prove(st.hyps(), zb(g), timeout=2000)[0]:
        return N
    return z3.If(N > 0, N, z3.IntVal(0))


@undecided
def merged(backs_vals):
    """[(guard, value)] -> ite"""
    r = backs_vals[-1][1]
    for g, v in reversed(backs_vals[:-1]):
        r = vite(g, v, r)
    return r


def write_list(content, base):
    if content is base:
        return []
    if isinstance(content, StoreArr):
        w = write_list(content.base, base)
        if w is None:
            return None
        return w + [(True, content.idx, content.v)]
    if isinstance(content, IteArr):
        a = write_list(content.a, base)
        b = write_list(content.b, base)
        if a is None or b is None:
            return None
        return [(band(content.c, g), i, v) for g, i, v in a] + [(band(bnot(content.c), g), i, v) for g, i, v in b]
    return None


def linear_in(idx, n):
    """idx == alpha*n + beta with alpha int -> (alpha, beta) or None"""
    if is_conc(idx):
        return 0, idx
    d = simp(z3.substitute(idx, (n, n + 1)) - idx)
    if not isinstance(d, int):
        return None
    b = simp(z3.substitute(idx, (n, z3.IntVal(0))))
    return d, b


def summarise(ip, fn, h, body, regs0, st0):
    ip.loops_inv += 1
    where = '%s block %d' % (fn.name, h)
    n = z3.Int('n!%d' % (ip.nfresh + 1))
    ip.nfresh += 1
    nid = {n.get_id()}
    phis = [i['r'] for i in fn.blocks[h]['i'] if i['op'] == 'phi']
    ip.focus(st0)
    vars_ = {}

    def mkvar(kind, ident, entry, seq=False):
        if seq:
            if entry.ref is None:
                if isinstance(entry.len, int):
                    entry = (0, ListArr([]))
                else:
                    entry = (entry.len, ConstArr(0))
            else:
                c = ip.read_ref(st0, entry.ref)
                off = entry.off
                if not (isinstance(off, int) and off == 0):
                    c0 = c
                    c = LamArr(lambda k: c0.sel(add(off, k)))
                if isinstance(c, ListArr):
                    c1 = c
                    c = LamArr(lambda k: c1.sel(k) if c1.xs else (_ for _ in ()).throw(Unsupported('empty seq')))
                entry = (entry.len, c)
            if isinstance(entry[1], ListArr):
                entry = (entry[0], EmptyArr())
        return Var(ip, kind, ident, entry, seq)

    for r in phis:
        vars_[('phi', r)] = mkvar('phi', r, regs0[r])

    N = [None]

    def build(t, extra=True):
        s = st0.copy()
        rg = dict(regs0)
        if extra:
            s.assume(ge(t, 0))
            if N[0] is not None and not is_conc(t):
                s.assume(le(t, N[0]))
        ip.focus(s)
        for (k, ident), v in vars_.items():
            val = v.at(t)
            if v.seq:
                val = Slice(ip.alloc(s, val[1]), 0, val[0])
            if k == 'phi':
                rg[ident] = val
            else:
                loc_set(ip, s, v.ident, val)
        return rg, s

    def run(final=False, assume=()):
        rg, s = build(n)
        head_pc = len(s.pc)
        if N[0] is not None:
            pass
        hp = s.copy()
        for a in assume:
            s.assume(a)
            hp.assume(a)
        head_pc = len(s.pc)
        ip.iters.append(n)
        wl = []
        ip.wlogs.append(wl)
        if not final:
            ip.quiet += 1
        try:
            r = ip.region(fn, h, [(-1, rg, s)], (h, body))
        finally:
            if not final:
                ip.quiet -= 1
            ip.wlogs.pop()
            ip.iters.pop()
        return r, wl, head_pc, hp

    def back_info(r, head_pc):
        """per back edge: (guard, regs, st)"""
        out = []
        for (src, rg, s) in r['back']:
            out.append((band(*s.pc[head_pc:]), rg, s))
        return out

    def var_back(v, rg, s):
        val = rg[v.ident] if v.kind == 'phi' else loc_get(ip, s, v.ident)
        if v.seq:
            c = ip.read_ref(s, val.ref) if val.ref is not None else EmptyArr()
            off = val.off
            if not (isinstance(off, int) and off == 0):
                c0 = c
                c = LamArr(lambda k: c0.sel(add(off, k)))
            val = (val.len, c)
        return val

    preoids = set(st0.mem)

    def discover(wl):
        new = False
        cand = []
        for (ref, path) in wl:
            if ref.oid not in preoids:
                continue
            if ref.key and any(contains(k, nid) for k in ref.key):
                cand.append((Ref(ref.oid), ()))
                continue
            if ref.key and any(isinstance(k, z3.ExprRef) and any(nm.startswith('L') or nm.startswith('n!') for nm in solver.syms(k) - presyms) for k in ref.key):
                cand.append((Ref(ref.oid), ()))
                continue
            fp = []
            for k, x in path:
                if k != 'f':
                    break
                fp.append(x)
            cand.append((ref, tuple(fp)))
        for (ref, fp) in cand:
            dup = False
            for (k, _), v in list(vars_.items()):
                if k != 'mem':
                    continue
                r2, fp2 = v.ident
                if r2.oid != ref.oid:
                    continue
                sr = same_ref(r2, ref)
                if (not r2.key) and ref.key:
                    dup = True      # whole family already tracked
                    break
                if r2.key and not ref.key:
                    del vars_[('mem', vid(v.ident))]
                    continue
                if sr is False:
                    continue
                if sr is not True:
                    # possibly aliasing keys: widen to whole family
                    del vars_[('mem', vid(v.ident))]
                    ref = Ref(ref.oid)
                    fp = ()
                    continue
                if fp2 == fp[:len(fp2)]:
                    dup = True
                    break
                if fp == fp2[:len(fp)]:
                    del vars_[('mem', vid(v.ident))]
            if dup:
                continue
            ip.focus(st0)
            ident = (ref, fp)
            vars_[('mem', vid(ident))] = mkvar('mem', ident, loc_get(ip, st0, ident))
            new = True
        return new

    def register_escapes(backs):
        """objects allocated in the body and stored where they outlive the iteration become families"""
        found = False

        def scan(val, seen):
            nonlocal found
            ref = val.ref if isinstance(val, (Slice, Ptr, MapRef)) else None
            if ref is not None:
                if ref.oid not in preoids and ref.oid not in seen and ref.oid in cur.mem:
                    seen.add(ref.oid)
                    site = ip.alloc_site.get(ref.oid)
                    if site is not None and (site not in ip.fam_sites or ip.fam_sites[site][1] is not n):
                        o = ip.newoid()
                        ip.fam_sites[site] = (o, n)
                        st0.mem[o] = UndefFam()
                        preoids.add(o)
                        found = True
                    scan(cur.mem[ref.oid], seen)
            elif isinstance(val, StructV):
                for x in val.f.values():
                    scan(x, seen)
            elif isinstance(val, ListArr):
                for x in val.xs:
                    scan(x, seen)
            elif isinstance(val, tuple):
                for x in val:
                    scan(x, seen)
            elif isinstance(val, Iface) and val.tid is not None:
                scan(val.v, seen)
        for v in vars_.values():
            if v.kind != 'mem':
                continue
            for g, rg, s in backs:
                cur = s
                ip.focus(s)
                sk, ls, ars = v.flat(var_back(v, rg, s))
                for a, b in zip(ars, v.arrs):
                    if isinstance(b, Fam):
                        for _, c in fam_stores(a, v.last[v.arrs.index(b)]) or ():
                            scan(c, set())
                    else:
                        for _, idx, val in write_list(a, b) or ():
                            scan(val, set())
        return found

    def vid(ident):
        ref, fp = ident
        return (ref.oid, tuple(str(k) for k in ref.key), fp)

    presyms = set()
    for p in st0.hyps():
        presyms |= solver.syms(p)

    # ---- phase 1: discover written locations and linear variables
    r = hp = None
    for rnd in range(12):
        r, wl, head_pc, hp = run()
        if discover(wl):
            continue
        # skeleton check
        backs = back_info(r, head_pc)
        changed = False
        for key, v in list(vars_.items()):
            for g, rg, s in backs:
                ip.focus(s)
                val = var_back(v, rg, s)
                sk, ls, ars = v.flat(val)
                if sk != v.skel:
                    if isinstance(val, Slice) and not v.seq:
                        ent = regs0[v.ident] if v.kind == 'phi' else loc_get(ip, st0, v.ident)
                        vars_[key] = mkvar(v.kind, v.ident, ent, True)
                        changed = True
                        break
                    raise Unsupported('loop-carried reference in %s (%s: %s vs %s)' % (where, v.ident, sk, v.skel))
        if not changed and register_escapes(backs):
            changed = True
        if changed:
            continue
        if not backs:
            break
        # classify scalars: invariant / linear
        for v in vars_.values():
            for i in range(len(v.leaves)):
                if v.lk[i] != 'sym':
                    continue
                A = v.lg[i](n)
                bl = []
                for g, rg, s in backs:
                    ip.focus(s)
                    _, ls, ars = v.flat(var_back(v, rg, s))
                    bl.append((g, ls[i]))
                if all(z3.is_expr(x) and x.eq(A) for _, x in bl):
                    e = v.leaves[i]
                    v.lg[i] = (lambda e: lambda t: e)(e)
                    v.lk[i] = 'inv'
                    changed = True
                    continue
                if A.sort() in (INT, REAL):
                    ds = [simp(sub(x, A)) for _, x in bl]
                    d0 = ds[0]
                    if all(is_conc(d) and d == d0 for d in ds):
                        e = v.leaves[i]
                        if A.sort() == INT:
                            v.lg[i] = (lambda e, d: lambda t: add(e, mul(d, t)))(e, d0)
                        else:
                            v.lg[i] = (lambda e, d: lambda t: add(e, mul(d, toreal(t))))(e, d0)
                        v.lk[i] = 'lin'
                        changed = True
        if not changed:
            break
    # trip count
    rg, s = build(n)
    ip.quiet += 1
    try:
        cond = header_cond(ip, fn, h, body, rg, s)
    finally:
        ip.quiet -= 1
    rg1, s1 = build(0, False)
    N[0] = trip_count(ip, cond, n, s1)
    if DBG:
        print('loop', where, 'N=', N[0], {str(v.ident): (v.lk, v.ak) for v in vars_.values()}, file=sys.stderr)

    symkinds = ('sym',)

    # ---- phase 2: accumulators, recursions, arrays
    settled = False
    for rnd in range(8):
        r, wl, head_pc, hp = run()
        if discover(wl):
            continue
        backs = back_info(r, head_pc)
        if not backs:
            break
        changed = False
        headfacts = set(hp.facts.d)
        extra = []
        for g, rg, s in backs:
            for i, f in s.facts.d.items():
                if i not in headfacts and contains(f, nid):
                    extra.append(f)
        for v in vars_.values():
            bvals = []
            for g, rg, s in backs:
                ip.focus(s)
                sk, ls, ars = v.flat(var_back(v, rg, s))
                if sk != v.skel:
                    raise Unsupported('loop-carried reference in %s' % where)
                bvals.append((g, ls, ars, s))
            for i in range(len(v.leaves)):
                if v.lk[i] in ('inv', 'lin') or i >= len(bvals[0][1]):
                    continue
                step = merged([(g, ls[i]) for g, ls, _, _ in bvals])
                if v.lk[i] == 'sym':
                    define_leaf(ip, v, i, step, n, extra, st0, N[0])
                    changed = True
                else:
                    # verify the definition against this run
                    ok = True
                    for g, ls, _, s in bvals:
                        ip.focus(s)
                        goal = eq(ls[i], v.lg[i](add(n, 1)))
                        if goal is True:
                            continue
                        if not solver.prove(s.hyps(), zb(goal), timeout=4000)[0]:
                            ok = False
                            break
                    if not ok:
                        v.lk[i] = 'sym'
                        v.lg[i] = v.syms[i][1]
                        define_leaf(ip, v, i, step, n, extra, st0, N[0], force_rec=True)
                        changed = True
            for i in range(len(v.arrs)):
                k = v.ak[i]
                base = v.arrs[i]
                if k == 'opt':
                    g2 = infer_array(ip, v, i, [(g, ars[i]) for g, _, ars, _ in bvals], n, extra)
                    if g2 is None:
                        havoc_array(ip, v, i, fn)
                    changed = True
                elif k == 'havoc':
                    pass
                elif k == 'cells' and any(x == 'sym' for x in v.lk):
                    changed = True
                else:
                    ok = True
                    for g, _, ars, s in bvals:
                        ip.focus(s)
                        if isinstance(base, UndefFam) and ars[i] is v.last[i]:
                            continue
                        if not arr_equal(ip, s, ars[i], v.ag[i](add(n, 1))):
                            ok = False
                            break
                    if not ok:
                        if DBG:
                            print('  array guess refuted', v.ident, k, file=sys.stderr)
                        if k == 'cells':
                            v.cellinfo = [ci for ci in v.cellinfo if ci[0] != i]
                            if v.cellinfo:
                                raise Unsupported('cells')
                            havoc_array(ip, v, i, fn)
                        elif k == 'tab':
                            v.tabs = getattr(v, 'tabs', 0) + 1
                            if infer_array(ip, v, i, [(g, ars[i]) for g, _, ars, _ in bvals], n, extra) is None:
                                havoc_array(ip, v, i, fn)
                        elif k == 'elem':
                            # maybe fully overwritten every iteration
                            lag_array(ip, v, i, [(g, ars[i]) for g, _, ars, _ in bvals], n)
                        else:
                            havoc_array(ip, v, i, fn)
                        changed = True
        if not changed:
            settled = True
            break
    if not settled and r['back']:
        raise Unsupported('loop summary did not stabilise in %s' % where)

    # ---- phase 3: candidate invariants (Houdini)
    invs = []
    cands = candidates(ip, vars_, n, N[0], st0, where)
    if cands:
        # initiation
        def view(t, rgs, s, lv):
            return LoopView(ip, s, t, lv, {v.ident: v for v in vars_.values()}, N[0])

        def leaves_at(t):
            d = {}
            for v in vars_.values():
                for i in range(len(v.leaves)):
                    d[(v.ident if v.kind == 'phi' else vid(v.ident), i)] = v.lg[i](t)
            return d
        alive = []
        rg_, s_ = build(0, False)
        for c in cands:
            ip.focus(s_)
            try:
                g = c(view(0, rg_, s_, entry_leaves(vars_, vid)))
            except Unsupported:
                continue
            if g is True or (g is not False and solver.prove(s_.hyps(), zb(g), timeout=1500)[0]):
                alive.append(c)
        while alive:
            rg_, s_ = build(n)
            ip.focus(s_)
            hv = [c(view(n, rg_, s_, leaves_at(n))) for c in alive]
            hv = hv + s_.facts.list()
            r, wl, head_pc, hp = run(assume=[x for x in hv if x is not True])
            bad = set()
            for (src, rgb, sb) in r['back']:
                ip.focus(sb)
                lv = {}
                for v in vars_.values():
                    _, ls, ars = v.flat(var_back(v, rgb, sb))
                    for i, x in enumerate(ls):
                        lv[(v.ident if v.kind == 'phi' else vid(v.ident), i)] = x
                for c in alive:
                    if c in bad:
                        continue
                    g = c(view(add(n, 1), rgb, sb, lv))
                    if g is True:
                        continue
                    if g is False or not solver.prove(sb.hyps(), zb(g), timeout=3000)[0]:
                        bad.add(c)
            if not bad:
                break
            alive = [c for c in alive if c not in bad]
        invs = alive
        if DBG:
            print('  houdini kept %d of %d' % (len(alive), len(cands)), file=sys.stderr)

    def inv_at(t):
        if not invs:
            return []
        rg_, s_ = build(t)
        ip.focus(s_)
        lv = {}
        for v in vars_.values():
            for i in range(len(v.leaves)):
                lv[(v.ident if v.kind == 'phi' else vid(v.ident), i)] = v.lg[i](t)
        out = [c(LoopView(ip, s_, t, lv, {v.ident: v for v in vars_.values()}, N[0])) for c in invs]
        return [x for x in out if x is not True] + s_.facts.list()

    # ---- final run with obligations
    r, wl, head_pc, hp = run(final=True, assume=inv_at(n))
    for v in vars_.values():
        for w in ip.wlogs:
            if v.kind == 'mem':
                ref, fp = v.ident
                w.append((ref, tuple(('f', x) for x in fp)))
    exits = []
    hdr_exit = N[0] is not None
    # what holds in every iteration that neither left the loop nor returned
    gd, fx = True, []
    if r['back'] and (r['ret'] or any(src != h or not hdr_exit for src, _, _, _ in r['exit'])):
        gd = bor(*[band(*sb.pc[head_pc:]) for (_, _, sb) in r['back']])
        fx = list({f.get_id(): f for (_, _, sb) in r['back'] for f in sb.facts.list() if contains(f, nid)}.values())
    went_on = lambda m: band(subst(gd, [(n, m)]), *[subst(f, [(n, m)]) for f in fx])

    def earlier(s):
        if gd is not True:
            s.foralls = s.foralls + ((True, n, went_on),)
    for x in r['ret']:
        earlier(x[0])
    for (src, dst, rg, s) in r['exit']:
        if src == h and hdr_exit:
            continue
        earlier(s)
        exits.append((src, dst, rg, s))
    if hdr_exit:
        ex_inv = inv_at(N[0])
        # leaves proved equal to a specification function leave the loop as that function
        for c in invs:
            dfn = getattr(c, 'defines', None)
            if dfn is not None:
                dfn[0].lg[dfn[1]] = dfn[2]
        rg, s = build(N[0], False)
        s.assume(ge(N[0], 0))
        for a in ex_inv:
            s.assume(a)
        ip.quiet += 1
        try:
            edges, rets = ip.exec_block(fn, h, rg, s)
        finally:
            ip.quiet -= 1
        if (exits or r['ret']) and gd is not True:
            # the loop ran to its end: no iteration left it early
            s.foralls = s.foralls + ((True, N[0], went_on),)
        for (src, dst, rg2, s2) in edges:
            if dst not in body:
                exits.append((src, dst, ip.take_edge(fn, src, dst, rg2, s2), s2))
        if not any(d not in body for _, d, _, _ in edges):
            raise Unsupported('no header exit in %s' % where)
    # take_edge is applied by the caller; region() already applied it to r['exit'] entries
    return {'ret': r['ret'], 'exit': exits}


class EmptyArr(Arr):
    def sel(self, k):
        raise Unsupported('element of empty sequence')


def entry_leaves(vars_, vid):
    d = {}
    for v in vars_.values():
        for i, x in enumerate(v.leaves):
            d[(v.ident if v.kind == 'phi' else vid(v.ident), i)] = x
    return d


def split_holds(ip, s, thunk, depth=0, timeout=4000, quick=False):
    """the condition built by thunk holds in s; undecided merges become cases"""
    ip.focus(s)
    try:
        g = thunk()
    except NeedSplit as e:
        if depth > 5:
            return False
        for c in (e.cond, bnot(e.cond)):
            s2 = s.copy()
            s2.assume(c)
            if solver.feasible(s2.hyps()) and not split_holds(ip, s2, thunk, depth + 1, timeout, quick):
                return False
        return True
    if isinstance(g, bool):
        return g or not solver.feasible(s.hyps())
    a = opaque_values(s.hyps(), zb(g)) if ip.numberings else None
    if a and solver.prove(a[0], a[1], timeout=1500, quick=True)[0]:
        return True
    return bool(solver.prove(s.hyps(), zb(g), timeout=timeout, quick=quick)[0])


def real_terms(e, seen, out):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app(e) and e.sort() == REAL and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.append(e)
        return
    for x in e.children():
        real_terms(x, seen, out)


def opaque_values(hyps, g):
    """a stronger statement: every real value that is looked up is arbitrary, and only the facts about integers are known"""
    ts = []
    g = z3.simplify(g, som=True)
    real_terms(g, set(), ts)
    if not ts:
        return None
    g = z3.substitute(g, [(t, z3.Real('opq!%d' % i)) for i, t in enumerate(ts)])
    hs = []
    for h in hyps:
        out, st, seen, real = [], [h], set(), False
        while st and not real:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            real = z3.is_quantifier(e) or e.sort() == REAL
            st.extend(e.children())
        if not real:
            hs.append(h)
    return hs, g


def arr_equal(ip, s, a, b):
    if a is b:
        return True
    ip.nfresh += 1
    if isinstance(a, Fam):
        # at the stored keys, and at any other key
        s = s.copy()
        j = z3.Int('fk!%d' % ip.nfresh)
        while isinstance(a, FamStore):
            if not fam_equal(ip, s, lambda: a.content, lambda: b.get(a.key)):
                return False
            s.assume(bnot(eq(j, a.key[0])))
            a = a.base
        ip.focus(s)
        if isinstance(a, ElemFam) and isinstance(b, ElemFam) and a.base is b.base and isinstance(a.base, UndefFam) and a.content is b.content and eq(a.beta, b.beta) is True and a.alpha == b.alpha:
            return True     # same definition at every allocated key
        return fam_equal(ip, s, lambda: a.get((j,)), lambda: b.get((j,)))
    k = z3.Int('k!%d' % ip.nfresh)
    s = s.copy()
    # one case per written element, one for the rest
    while isinstance(a, StoreArr):
        if not split_holds(ip, s, lambda: veq(a.v, b.sel(a.idx))):
            return False
        s.assume(bnot(eq(k, a.idx)))
        a = a.base
    return split_holds(ip, s, lambda: veq(a.sel(k), b.sel(k)))


def fam_equal(ip, s, fa, fb, depth=0):
    ip.focus(s)
    try:
        return content_equal(ip, s, fa(), fb())
    except NeedSplit as e:
        if depth > 5:
            return False
        for c in (e.cond, bnot(e.cond)):
            s2 = s.copy()
            s2.assume(c)
            if solver.feasible(s2.hyps()) and not fam_equal(ip, s2, fa, fb, depth + 1):
                return False
        return True


def content_equal(ip, s, a, b):
    if isinstance(a, Arr) and not isinstance(a, ListArr):
        return arr_equal(ip, s, a, b)
    g = band(*[veq(x, y) for x, y in zip(a.xs, b.xs)]) if isinstance(a, ListArr) else veq(a, b)
    if isinstance(g, bool):
        return g
    return bool(solver.prove(s.hyps(), zb(g), timeout=4000)[0])


def define_leaf(ip, v, i, step, n, extra, st0, N, force_rec=False):
    """give leaf i of v a definition by recursion over the iteration number"""
    f, g = v.syms[i]
    A = g(n)
    e = v.leaves[i]
    aid = {A.get_id()}
    name = f.name()
    if DBG:
        print('   define', name, 'step', str(step)[:200], file=sys.stderr)
    if not contains(step, aid):
        # value does not depend on its previous value: lag
        prev = lambda t: subst(step, [(n, sub(t, 1))])

        def at(t):
            if isinstance(t, int):
                return e if t == 0 else prev(t)
            ex = [(n, sub(t, 1))]
            for x in extra:
                CTX.fact(subst(x, ex))
            if simp(zi(t) - n) == 1:
                c = False
                # t = n+1 >= 1
                return subst(step, ex)
            return ite(eq(t, 0), e, prev(t))
        v.lg[i] = at
        v.lk[i] = 'lag'
        return
    if A.sort() in (INT, REAL) and not force_rec:
        d = ring_sub(step, A)
        if d is not None and not contains(d, aid):
            S = make_sum(ip, d, n, extra, st0, N)
            v.lg[i] = lambda t: add(e, S(t))
            v.lk[i] = 'sum'
            return
        R = reversed_product(ip, A, step, n, extra, st0, N, e)
        if R is not None:
            v.lg[i] = R
            v.lk[i] = 'rec'
            return
    # generic recursion
    its = f.arity() - 1

    def unfold(args):
        t = args[-1]
        outer = list(args[:-1])
        pairs = [(n, t - 1)]
        # outer iteration symbols
        cur = [c for c in A.children()[:-1]]
        pairs += [(a, b) for a, b in zip(cur, outer) if not a.eq(b)]
        app = f(*args)
        fs = [z3.Implies(t <= 0, app == z3.substitute(z(e), *pairs[1:]) if len(pairs) > 1 else app == z(e)),
              z3.Implies(t >= 1, app == z3.substitute(z(step), *pairs))]
        for x in extra:
            fs.append(z3.substitute(x, *pairs))
        return fs
    solver.register_def(f, unfold)
    v.lg[i] = g
    v.lk[i] = 'rec'


def reversed_product(ip, A, step, n, extra, st0, N, e):
    """a running product over the factors of a specified product in reverse order: its last value is the same product"""
    sps = [sp for sp in ip.specfns if getattr(sp, 'prod', None) and not sp.np and sp.sort == A.sort()]
    if not sps or N is None:
        return None
    one = z3.IntVal(1) if A.sort() == INT else z3.RealVal(1)
    d = z3.substitute(z(step), (A, one))
    ok, dens = solver.ring_zero(z(step) - A * d)
    if not ok or dens or contains(d, {A.get_id()}):
        return None
    for sp in sps:
        ip.nfresh += 1
        m = z3.Int('m!%d' % ip.nfresh)
        s = st0.copy()
        ip.focus(s)
        s.assume(m >= 0)
        s.assume(m < zi(N))
        for x in extra:
            CTX.fact(subst(x, [(n, m)]))
        if not solver.prove(s.hyps(), zb(eq(subst(d, [(n, m)]), sp.prod(sub(sub(N, m), 1)))), timeout=2500)[0]:
            continue
        F = z3.Function('PROD!%d' % ip.nfresh, INT, A.sort())

        def unfold(args):
            t = args[0]
            return [z3.Implies(t <= 0, F(t) == one), z3.Implies(t >= 1, F(t) == F(z3.simplify(t - 1)) * z3.substitute(d, (n, t - 1))),
                    F(zi(N)) == z(sp.at(N))]
        solver.register_def(F, unfold)
        return lambda t: mul(e, F(zi(t)))
    return None


def ring_sub(step, A):
    """step - A when A cancels linearly (looks through ites)"""
    if is_conc(step):
        return None
    if z3.is_app_of(step, z3.Z3_OP_ITE):
        a = ring_sub(step.arg(1), A)
        b = ring_sub(step.arg(2), A)
        if a is None or b is None:
            return None
        return ite(step.arg(0), a, b)
    z0 = z3.IntVal(0) if A.sort() == INT else z3.RealVal(0)
    one = z3.IntVal(1) if A.sort() == INT else z3.RealVal(1)
    # quotients that do not depend on A are atoms (no condition on their divisors)
    qs, stack, seen = [], [step], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_div(x) and not contains(x, {A.get_id()}):
            qs.append(x)
        else:
            stack.extend(x.children())
    d0 = z3.substitute(step, (A, z0))
    if qs:
        sub_ = [(x, z3.Real('quot!%d' % j)) for j, x in enumerate(qs)]
        t = z3.substitute(step, *sub_)
        ok, dens = solver.ring_zero(t - A - z3.substitute(t, (A, z0)))
        return d0 if ok and not dens else None
    # check step == A + d0 by ring normalisation
    ok, dens = solver.ring_zero(step - A - d0)
    if ok and not dens:
        return from_z(z3.simplify(d0)) if False else d0
    return None


_SUMS = []


def make_sum(ip, d, n, extra, st0, N):
    """returns callable t -> sum_{m<t} d[n:=m]"""
    if not contains(d, {n.get_id()}):
        return lambda t: mul(d, t if z3.is_expr(d) and d.sort() == INT or isinstance(d, int) else toreal(t))
    # match specification sums: by ring normalisation first, then as a linear combination, then with the solver
    cands = []
    for sp in ip.specsums:
        if sp.sort != (REAL if not isint(d) else INT):
            continue
        m = z3.Int('m!%d' % (ip.nfresh + 1))
        ip.nfresh += 1
        s = st0.copy()
        ip.focus(s)
        dm = subst(d, [(n, m)])
        for x in extra:
            CTX.fact(subst(x, [(n, m)]))
        s.assume(m >= 0)
        if N is not None:
            s.assume(m < zi(N))
        for par in sp.instances(ip):
            fwd = (lambda sp, par: lambda t: sp.at(*par, t))(sp, par)
            cands.append((s, dm, sp.f(*par, m), fwd))
            if N is not None:
                rev = (lambda sp, par: lambda t: sub(sp.at(*par, N), sp.at(*par, sub(N, t))))(sp, par)
                cands.append((s, dm, sp.f(*par, sub(sub(N, m), 1)), rev))
    for s, dm, f, r in cands:
        ip.focus(s)
        g = eq(dm, f)
        if g is True or (g is not False and sort_of(dm) and solver.ring_cases(s.hyps(), z(dm), z(f))):
            return r
    L = linear_sum(ip, d, n, extra, st0, N)
    if L is not None:
        return L
    for s, dm, f, r in cands:
        ip.focus(s)
        g = eq(dm, f)
        if g is not False and solver.prove(s.hyps(), zb(g), timeout=2500)[0]:
            return r
    its = list(ip.iters)
    params = [c for c in its if contains(d, {c.get_id()})]
    sort = INT if isint(d) else REAL
    # the same sum met again (a loop body is run several times) keeps its symbol
    ph = z3.Int('sum!index')
    canon = [z3.simplify(subst(x, [(n, ph)])) for x in [z(d)] + list(extra)]
    key = (tuple(c.get_id() for c in params), canon[0].get_id(), frozenset(c.get_id() for c in canon[1:]))
    known = ip.__dict__.setdefault('known_sums', {})
    if key in known:
        F = known[key][0]
        return lambda t: F(*(params + [zi(t)]))
    ip.nfresh += 1
    F = z3.Function('SUM!%d' % ip.nfresh, *([INT] * (len(params) + 1) + [sort]))
    known[key] = (F, canon, params)

    def unfold(args):
        t = args[-1]
        pairs = [(n, t - 1)] + list(zip(params, args[:-1]))
        app = F(*args)
        prev = F(*(list(args[:-1]) + [z3.simplify(t - 1)]))
        zero = z3.IntVal(0) if sort == INT else z3.RealVal(0)
        fs = [z3.Implies(t <= 0, app == zero), z3.Implies(t >= 1, app == prev + z3.substitute(z(d), *pairs))]
        for x in extra:
            fs.append(z3.substitute(x, *pairs))
        return fs
    solver.register_def(F, unfold)
    return lambda t: F(*(params + [zi(t)]))


def sort_of(t):
    return not z3.is_expr(t) or t.sort() in (INT, REAL)


def linear_sum(ip, d, n, extra, st0, N):
    """d(m) = sum_i c_i f_i(m) with coefficients that do not depend on m, over the specified sums: the sum is sum_i c_i S_i
    (linearity of finite sums; the summands are shown equal for every index)"""
    if isint(d) or not ip.specsums:
        return None
    ip.nfresh += 1
    m = z3.Int('m!%d' % ip.nfresh)
    s = st0.copy()
    ip.focus(s)
    s.assume(m >= 0)
    if N is not None:
        s.assume(m < zi(N))
    R = solver.Ring(True)
    mid = {m.get_id()}

    def dec(t):
        """index-dependent part -> polynomial of the others"""
        num, den = R.norm(z(t))
        if any(contains(R.atoms[x], mid) for k, _ in den for mm in R.fac[k] for x, _ in mm if x in R.atoms):
            raise solver.TooBig()
        out = {}
        for mm, c in num.items():
            a = tuple((x, e) for x, e in mm if x in R.atoms and contains(R.atoms[x], mid))
            b = tuple((x, e) for x, e in mm if not (x in R.atoms and contains(R.atoms[x], mid)))
            out.setdefault(a, {})[b] = c
        dz = z3.RealVal(1)
        for k, e in den:
            for _ in range(e):
                dz = dz * term(R.fac[k])
        return out, dz

    def term(p):
        t = z3.RealVal(0)
        for mm, c in p.items():
            u = zr(c)
            for x, e in mm:
                a = R.atoms[x]
                for _ in range(e):
                    u = u * (z3.ToReal(a) if a.sort() == INT else a)
            t = t + u
        return z3.simplify(t)
    try:
        dm = z(subst(d, [(n, m)]))
        for x in extra:
            CTX.fact(subst(x, [(n, m)]))
        hy = s.hyps()

        def plain(t):
            cs = solver.find_ites(t)
            return solver.decide_ites(hy, t, cs)[0] if cs else t
        dm = plain(dm)
        fs = []
        for sp in ip.specsums:
            if sp.sort != REAL:
                continue
            for par in sp.instances(ip):
                f = plain(z(sp.f(*par, m)))
                if not contains(f, mid):
                    continue
                try:
                    fs.append((sp, par, f, dec(f)))
                except solver.TooBig:
                    continue
        rem, parts = dm, []
        for _ in range(3):
            dd, dz = dec(rem)
            if not dd:
                break
            found = None
            for sp, par, f, (df, fz) in fs:
                if any(sp is p[1] and par == p[2] for p in parts):
                    continue
                keys = [k for k in df if k in dd and not any(k in o[3][0] for o in fs if o[2] is not f and not any(o[0] is p[1] and o[1] == p[2] for p in parts))]
                keys = keys or [k for k in df if k in dd]
                if not keys:
                    continue
                key = keys[0]
                ratio = None
                if set(dd[key]) == set(df[key]):
                    q = {dd[key][x] / df[key][x] for x in df[key]}
                    ratio = q.pop() if len(q) == 1 else None
                c = ratio if ratio is not None and fz.eq(dz) else z3.simplify(term(dd[key]) * fz / (dz * term(df[key])))
                found = (c, sp, par, f, z3.RealVal(1) if is_conc(c) else term(df[key]))
                break
            if found is None:
                return None
            parts.append(found)
            rem = z3.simplify(rem - z(found[0]) * found[3])
        ok, dens = solver.ring_zero(rem, True)
        if not ok:
            ok, dens = solver.ring_zero(rem)
    except solver.TooBig:
        return None
    if not ok or not parts:
        return None
    for cond in dens + [z3.simplify(p[4] == 0) for p in parts]:
        if not solver.prove(s.hyps(), z3.Not(cond), timeout=1500)[0]:
            return None

    def at(t):
        r = Fraction(0)
        for c, sp, par, _, _ in parts:
            r = add(r, mul(c, sp.at(*par, t)))
        return r
    return at


@undecided
def infer_array(ip, v, i, contents, n, extra):
    base = v.arrs[i]
    if isinstance(base, Fam):
        return infer_fam(ip, v, i, contents, n, extra)
    writes = []
    multi = len(contents) > 1
    for g, c in contents:
        w = write_list(c, base)
        if w is None:
            rg = rows_guess(v, c, base, n) if len(contents) == 1 else None
            if rg:
                v.ag[i] = lambda t: RowsArr(v.ip, base, n, t, rg[0], rg[1], c)
                v.ak[i] = 'elem'
                return True
        if len(contents) == 1 and ip.numberings and (w is None or any(linear_in(x[1], n) is None for x in w)):
            sg = scatter_guess(v, c, base, n, None, extra)
            if sg:
                v.ag[i] = sg
                v.ak[i] = 'elem'
                return True
        if w is None:
            return lag_array(ip, v, i, contents, n)
        for g2, idx, val in w:
            writes.append((band(g, g2) if multi else g2, idx, val))
    if not writes:
        v.ag[i] = lambda t: base
        v.ak[i] = 'elem'
        return True
    lin = [linear_in(idx, n) for _, idx, _ in writes]
    if all(l is not None and l[0] in (1, -1) for l in lin):
        ws = [(g, l[0], l[1], val) for (g, _, val), l in zip(writes, lin)]
        if len(ws) == 1 and ws[0][1] == 1 and getattr(v, 'tabs', 0) < len(ip.tabs):
            # a table filled from its previous entries: the specified one?
            f, off = ip.tabs[getattr(v, 'tabs', 0)], ws[0][2]
            v.ag[i] = lambda t: LamArr(lambda k: ite(band(ge(k, off), lt(k, add(off, t))), f(k), base.sel(k)))
            v.ak[i] = 'tab'
            return True
        v.ag[i] = lambda t: ElemArr(base, n, t, ws, extra)
        v.ak[i] = 'elem'
        return True
    if all(l is not None and l[0] == 0 for l in lin):
        # fixed cells: track each cell as a scalar
        idxs = []
        for l in lin:
            if not any(eq(l[1], x) is True for x in idxs):
                idxs.append(l[1])
        for a in range(len(idxs)):
            for b in range(a):
                if eq(idxs[a], idxs[b]) is not False:
                    return None
        cells(ip, v, i, idxs, base)
        return True
    return None


def cells(ip, v, i, idxs, base):
    """turn fixed cells of array slot i into scalar leaves of v (appended)"""
    start = len(v.leaves)
    sk_cells = []
    for x in idxs:
        ls, ars = [], []
        sk = flatten(base.sel(x), ls, ars)
        if ars:
            raise Unsupported('cell of arrays')
        sk_cells.append((sk, len(v.leaves), len(ls)))
        for y in ls:
            v.leaves.append(y)
            ip.nfresh += 1
            its = list(ip.iters)
            f = z3.Function('cell!%d' % ip.nfresh, *([INT] * (len(its) + 1) + [leaf_sort(y)]))
            g = (lambda f, its: lambda t: f(*(its + [zi(t)])))(f, its)
            v.syms.append((f, g))
            v.lg.append(g)
            v.lk.append('sym')
    slot = i

    def content(t):
        c = base
        for x, (sk, st, ln) in zip(idxs, sk_cells):
            c = StoreArr(c, x, rebuild(sk, iter([v.lg[q](t) for q in range(st, st + ln)]), iter([])))
        return c
    v.ag[i] = content
    v.ak[i] = 'cells'
    v.cellinfo.append((slot, idxs))


@undecided
def lag_array(ip, v, i, contents, n):
    base = v.arrs[i]
    c = contents[-1][1]
    for g, x in reversed(contents[:-1]):
        c = cite(g, x, c)

    def at(t):
        if isinstance(t, int):
            return base if t == 0 else arr_subst(c, [(n, sub(t, 1))])
        if simp(zi(t) - n) == 1:
            return arr_subst(c, [(n, sub(t, 1))])
        if isinstance(base, Fam):
            raise Unsupported('lag fam')
        return IteArr(eq(t, 0), base, arr_subst(c, [(n, sub(t, 1))]))
    if isinstance(base, Fam):
        return None
    v.ag[i] = at
    v.ak[i] = 'lag'
    return True


class UndefFam(Fam):
    """objects not yet allocated"""

    def __init__(self):
        pass

    def get(self, key):
        raise Unsupported('read of an object before its allocation')


def fam_stores(c, base):
    """[(key, content)] of the stores on base, oldest first; None when not of that form"""
    if c is base:
        return []
    if isinstance(c, FamStore):
        w = fam_stores(c.base, base)
        return None if w is None else w + [(c.key, c.content)]
    return None


@undecided
def infer_fam(ip, v, i, contents, n, extra):
    base = v.arrs[i]
    ws = [(g, fam_stores(c, base)) for g, c in contents]
    if any(w is None for _, w in ws):
        return None
    alloc = isinstance(base, UndefFam)
    if alloc:
        ws = [(g, w) for g, w in ws if w]
        if not ws:
            v.ag[i] = lambda t: base
            v.ak[i] = 'elem'
            return True
    if any(len(w) != 1 or len(w[0][0]) != 1 for _, w in ws):
        return None
    ls = [linear_in(w[0][0][0], n) for _, w in ws]
    if any(l is None or l[0] not in (1, -1) for l in ls):
        return None
    for l in ls[1:]:
        if l[0] != ls[0][0] or eq(l[1], ls[0][1]) is not True:
            return None
    try:
        content = ws[-1][1][0][1]
        for g, w in reversed(ws[:-1]):
            content = cite(g, w[0][1], content)
    except NeedSplit:
        return None
    v.ag[i] = lambda t: ElemFam(base, n, t, ls[0][0], ls[0][1], content, extra)
    v.ak[i] = 'elem'
    return True


def havoc_array(ip, v, i, fn):
    base = v.arrs[i]
    if isinstance(base, Fam):
        raise Unsupported('cannot summarise writes to object family in loop (%s)' % fn.name)
    # element shape from a sample
    ip.nfresh += 1
    kk = z3.Int('hk!%d' % ip.nfresh)
    saved = CTX.facts
    CTX.facts = None
    try:
        sample = base.sel(kk)
    finally:
        CTX.facts = saved
    ls, ars = [], []
    sk = flatten(sample, ls, ars)
    if ars:
        raise Unsupported('havoc nested arrays')
    its = list(ip.iters)
    fs = []
    for x in ls:
        ip.nfresh += 1
        fs.append(z3.Function('H!%d' % ip.nfresh, *([INT] * (len(its) + 2) + [leaf_sort(x)])))

    def at(t):
        if isinstance(t, int) and t == 0:
            return base
        return LamArr(lambda k: rebuild(sk, iter([f(*(its + [zi(t), zi(k)])) for f in fs]), iter([])))
    v.ag[i] = at
    v.ak[i] = 'havoc'


def candidates(ip, vars_, n, N, st0, where):
    """candidate invariants over recursively defined / havocked variables"""
    out = []
    recs = []
    hav = []
    for v in vars_.values():
        for i, k in enumerate(v.lk):
            if k in ('rec', 'sum', 'lag'):
                recs.append((v, i))
        for i, k in enumerate(v.ak):
            if k == 'havoc':
                hav.append((v, i))
    if not recs and not hav:
        return []

    def ident(v):
        if v.kind == 'phi':
            return v.ident
        ref, fp = v.ident
        return (ref.oid, tuple(str(k) for k in ref.key), fp)
    for gen in ip.loop_candidates:
        out.extend(gen(ip, vars_, n, N, st0, recs, hav, ident))
    # spec functions: leaf == F(n + c)
    for v, i in recs:
        if v.lk[i] != 'rec':
            continue
        for sp in ip.specfns:
            if sp.sort != v.syms[i][0].range():
                continue
            for par in sp.instances(ip):
                key = (ident(v), i)

                def mk(key, sp, par, c, rev):
                    at = (lambda t: sp.at(*par, add(sub(N, t), c))) if rev else (lambda t: sp.at(*par, add(t, c)))
                    f = lambda lv: eq(lv.scal[key], at(lv.t))
                    f.defines = (v, i, at)
                    return f
                for c in (0, 1, -1):
                    out.append(mk(key, sp, par, c, False))
                if N is not None:
                    for c in (0, 1, -1):
                        out.append(mk(key, sp, par, c, True))
    return out
