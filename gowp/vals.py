from fractions import Fraction
import z3
from .num import *


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    """raised while evaluating an instruction when a condition has to be decided"""

    def __init__(self, cond):
        self.cond = cond


class Ref:
    """an object: oid plus, for members of an object family, the index key"""
    __slots__ = ('oid', 'key')

    def __init__(self, oid, key=()):
        self.oid = oid
        self.key = key

    def __repr__(self):
        return 'o%s%s' % (self.oid, list(self.key) if self.key else '')


def same_ref(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if a.oid != b.oid or len(a.key) != len(b.key):
        return False
    return band(*[eq(x, y) for x, y in zip(a.key, b.key)])


class Slice:
    __slots__ = ('ref', 'off', 'len', 'cap')

    def __init__(self, ref, off, ln, cap=None):
        self.ref, self.off, self.len = ref, off, ln
        self.cap = ln if cap is None else cap

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.ref, self.off, self.len)


NILSLICE = Slice(None, 0, 0, 0)


class Ptr:
    """pointer: object ref and a path of ('f',name) / ('i',index); ref None = nil"""
    __slots__ = ('ref', 'path')

    def __init__(self, ref, path=()):
        self.ref, self.path = ref, path

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.ref, self.path)


NILPTR = Ptr(None)


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def set(self, name, v):
        g = dict(self.f)
        g[name] = v
        return StructV(g)

    def __repr__(self):
        return 'S%s' % (self.f,)


class FuncV:
    """known function value: SSA function name and bound free variables"""
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, binds

    def __repr__(self):
        return 'Fn(%s)' % self.name


class FuncAbs:
    """abstract function value; handler(interp, st, args) -> [(st, result)]"""
    __slots__ = ('tag', 'handler')

    def __init__(self, tag, handler):
        self.tag, self.handler = tag, handler


NILFUNC = FuncAbs('nil', None)


class Iface:
    __slots__ = ('tname', 'tid', 'v')

    def __init__(self, tname, tid, v):
        self.tname, self.tid, self.v = tname, tid, v

    def __repr__(self):
        return 'I(%s,%s)' % (self.tname, self.v)


class IfaceAbs:
    """abstract interface value; handlers: method name -> handler(interp, st, args)"""
    __slots__ = ('tag', 'handlers', 'data')

    def __init__(self, tag, handlers, data=None):
        self.tag, self.handlers, self.data = tag, handlers, data

    def __repr__(self):
        return 'IAbs(%s)' % self.tag


NILIFACE = Iface(None, None, None)


class MapV:
    """map content: list of (key, value) newest last; base: key -> (present, value) or None"""
    __slots__ = ('items', 'base')

    def __init__(self, items=(), base=None):
        self.items, self.base = tuple(items), base


class MapRef:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class Opaque:
    """a value of an external type, with python attributes"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.kind, self.a)


# ------------------------------------------------------------------ arrays

class Arr:
    def sel(self, k):
        raise NotImplementedError


class BaseArr(Arr):
    """mk(k) builds the element; memoised on k"""

    def __init__(self, mk, name='arr'):
        self.mk, self.name, self.memo = mk, name, {}

    def sel(self, k):
        return self.mk(k)


class ConstArr(Arr):
    def __init__(self, v):
        self.v = v

    def sel(self, k):
        return self.v


class StoreArr(Arr):
    def __init__(self, base, idx, v):
        self.base, self.idx, self.v = base, idx, v

    def sel(self, k):
        c = eq(k, self.idx)
        if c is True:
            return self.v
        if c is False:
            return self.base.sel(k)
        d = CTX.decided(c)
        if d is True:
            return self.v
        if d is False:
            return self.base.sel(k)
        return vite(c, self.v, self.base.sel(k))


class LamArr(Arr):
    def __init__(self, fn):
        self.fn = fn

    def sel(self, k):
        return self.fn(k)


class IteArr(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def sel(self, k):
        d = CTX.decided(self.c)
        if d is True:
            return self.a.sel(k)
        if d is False:
            return self.b.sel(k)
        return vite(self.c, self.a.sel(k), self.b.sel(k))


class ListArr(Arr):
    """concrete-length array"""

    def __init__(self, xs):
        self.xs = tuple(xs)

    def sel(self, k):
        if isinstance(k, int):
            if not 0 <= k < len(self.xs):
                raise Unsupported('list index %d of %d' % (k, len(self.xs)))
            return self.xs[k]
        if not self.xs:
            raise Unsupported('index into empty list')
        r = self.xs[-1]
        for i in range(len(self.xs) - 2, -1, -1):
            r = vite(eq(k, i), self.xs[i], r)
        return r

    def store(self, k, v):
        if isinstance(k, int):
            if not 0 <= k < len(self.xs):
                raise Unsupported('list store %d of %d' % (k, len(self.xs)))
            xs = list(self.xs)
            xs[k] = v
            return ListArr(xs)
        return ListArr([vite(eq(k, i), v, x) for i, x in enumerate(self.xs)])


def arr_store(a, k, v):
    if isinstance(a, ListArr):
        return a.store(k, v)
    if isinstance(a, StoreArr):
        c = eq(a.idx, k)
        if c is True:
            return StoreArr(a.base, k, v)
    return StoreArr(a, k, v)


class Fam:
    """family of object contents indexed by a key tuple; get(key)->content"""

    def __init__(self, fn):
        self.fn = fn

    def get(self, key):
        return self.fn(key)

    def set(self, key, content):
        if isinstance(self, FamStore):
            c = band(*[eq(a, b) for a, b in zip(key, self.key)])
            if c is True:
                return FamStore(self.base, key, content)
        return FamStore(self, key, content)


class FamStore(Fam):
    def __init__(self, base, key, content):
        self.base, self.key, self.content = base, key, content

    def get(self, k2):
        c = band(*[eq(a, b) for a, b in zip(self.key, k2)])
        if c is True:
            return self.content
        if c is False:
            return self.base.get(k2)
        d = CTX.decided(c)
        if d is True:
            return self.content
        if d is False:
            return self.base.get(k2)
        return cite(c, self.content, self.base.get(k2))


def linear(c, budget=60):
    """a linear integer comparison over constants and atoms"""
    n = 0
    stack = [c]
    while stack:
        u = stack.pop()
        n += 1
        if n > budget:
            return False
        k = u.decl().kind()
        if z3.is_bool(u):
            if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                return False
            stack.extend(u.children())
            continue
        if u.sort() != INT:
            return False
        if z3.is_int_value(u) or (k == z3.Z3_OP_UNINTERPRETED and u.num_args() == 0):
            continue
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            stack.extend(u.children())
        elif k == z3.Z3_OP_MUL:
            ch = u.children()
            if sum(1 for x in ch if not z3.is_int_value(x)) > 1:
                return False
            stack.extend(ch)
        else:
            return False
    return True


class Known(set):
    """ids of the conditions of a path, with its linear integer conditions at hand for a solver"""

    def __init__(self, src=()):
        set.__init__(self, src)
        if isinstance(src, Known):
            self.lin, self.memo = src.lin, dict(src.memo)
        else:
            self.lin, self.memo = (), {}
        self.solver = None

    def learn(self, c):
        if linear(c):
            self.lin += (c,)
            self.memo = {i: x for i, x in self.memo.items() if x[1] is not None}
            if self.solver is not None:
                self.solver.add(c)

    def both(self, o):
        k = Known(set(self) & set(o))
        k.lin = tuple(c for c in self.lin if c.get_id() in k)
        return k

    def consult(self, c):
        i = c.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = None
        if z3.is_bool(c) and linear(c):
            if self.solver is None:
                self.solver = z3.SolverFor('QF_LIA')
                self.solver.set('rlimit', 300000)
                self.solver.set('timeout', 1000)
                for x in self.lin:
                    self.solver.add(x)
            if self.solver.check(z3.Not(c)) == z3.unsat:
                r = True
            elif self.solver.check(c) == z3.unsat:
                r = False
        self.memo[i] = (c, r)
        return r


class Context:
    """dynamic context: where facts go, and what is decided on the current path"""

    def __init__(self):
        self.facts = None
        self.known = None
        self.emod_hooks = []

    def decided(self, c):
        if isinstance(c, bool):
            return c
        if self.known is not None:
            i = c.get_id()
            if i in self.known:
                return True
            n = bnot(c)
            if not isinstance(n, bool) and n.get_id() in self.known:
                return False
            if z3.is_and(c):
                ds = [self.decided(x) for x in c.children()]
                if all(d is True for d in ds):
                    return True
                if any(d is False for d in ds):
                    return False
            elif isinstance(self.known, Known):
                return self.known.consult(c)
        return None

    def fact(self, f):
        if f is True:
            return
        if self.facts is not None:
            self.facts.add(f)


CTX = Context()


def undecided(f):
    """run f without using what is decided on the current path (joins of several paths)"""
    def g(*a, **k):
        saved = CTX.known
        CTX.known = None
        try:
            return f(*a, **k)
        finally:
            CTX.known = saved
    return g


def cite(c, a, b):
    """ite over object contents"""
    if a is b:
        return a
    d = CTX.decided(c)
    if d is not None:
        return a if d else b
    if isinstance(a, Arr) and isinstance(b, Arr):
        if isinstance(a, ListArr) and isinstance(b, ListArr) and len(a.xs) == len(b.xs):
            return ListArr([vite(c, x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, ListArr) != isinstance(b, ListArr) or isinstance(a, ListArr):
            raise NeedSplit(c)
        return IteArr(c, a, b)
    if isinstance(a, Fam) and isinstance(b, Fam):
        return Fam(lambda k: cite(c, a.get(k), b.get(k)))
    return vite(c, a, b)


def vite(c, a, b):
    """ite over values; NeedSplit when not mergeable"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if not (isinstance(a, C) or z3.is_expr(a) or is_conc(a)):
        d = CTX.decided(c)
        if d is not None:
            return a if d else b
    if isinstance(a, C) and isinstance(b, C):
        return C(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return StructV({k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Slice) and isinstance(b, Slice):
        r = same_ref(a.ref, b.ref)
        if r is True or (a.ref is None and b.ref is None):
            return Slice(a.ref, ite(c, a.off, b.off), ite(c, a.len, b.len), ite(c, a.cap, b.cap))
        if a.ref is not None and b.ref is not None and a.ref.oid == b.ref.oid and len(a.ref.key) == len(b.ref.key):
            return Slice(Ref(a.ref.oid, tuple(ite(c, x, y) for x, y in zip(a.ref.key, b.ref.key))),
                         ite(c, a.off, b.off), ite(c, a.len, b.len), ite(c, a.cap, b.cap))
        raise NeedSplit(c)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same_ref(a.ref, b.ref) is True and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]:
                    raise NeedSplit(c)
                if x[0] == 'f':
                    if x[1] != y[1]:
                        raise NeedSplit(c)
                    p.append(x)
                else:
                    p.append(('i', ite(c, x[1], y[1])))
            return Ptr(a.ref, tuple(p))
        if a.ref is None and b.ref is None:
            return a
        if a.ref is not None and b.ref is not None and a.ref.oid == b.ref.oid and len(a.ref.key) == len(b.ref.key) and a.path == b.path:
            return Ptr(Ref(a.ref.oid, tuple(ite(c, x, y) for x, y in zip(a.ref.key, b.ref.key))), a.path)
        raise NeedSplit(c)
    if isinstance(a, Iface) and isinstance(b, Iface) and a.tid == b.tid:
        if a.tid is None:
            return a
        return Iface(a.tname, a.tid, vite(c, a.v, b.v))
    if isinstance(a, IfaceAbs) and isinstance(b, IfaceAbs) and a.tag == b.tag and a.data is None and b.data is None:
        return a
    if isinstance(a, MapRef) and isinstance(b, MapRef) and same_ref(a.ref, b.ref) is True:
        return a
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base is b.base and len(a.items) == len(b.items):
            its = []
            for (k1, v1), (k2, v2) in zip(a.items, b.items):
                if eq(k1, k2) is not True:
                    raise NeedSplit(c)
                its.append((k1, vite(c, v1, v2)))
            return MapV(its, a.base)
        raise NeedSplit(c)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, FuncV) and isinstance(b, FuncV) and a.name == b.name and len(a.binds) == len(b.binds):
        return FuncV(a.name, tuple(vite(c, x, y) for x, y in zip(a.binds, b.binds)))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return cite(c, a, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and a.a.keys() == b.a.keys():
        try:
            return Opaque(a.kind, **{k: vite(c, a.a[k], b.a[k]) for k in a.a})
        except (Unsupported, TypeError):
            raise NeedSplit(c)
    if (is_conc(a) or isinstance(a, str) or z3.is_expr(a)) and (is_conc(b) or isinstance(b, str) or z3.is_expr(b)):
        return ite(c, a, b)
    if a is None and b is None:
        return None
    raise NeedSplit(c)


def veq(a, b):
    """structural equality as a condition"""
    if isinstance(a, C):
        return ceq(a, b)
    if isinstance(a, StructV):
        return band(*[veq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Slice):
        if a.ref is None or b.ref is None:
            return a.ref is None and b.ref is None
        return band(same_ref(a.ref, b.ref), eq(a.off, b.off), eq(a.len, b.len))
    if isinstance(a, Ptr):
        if a.ref is None or b.ref is None:
            return a.ref is None and b.ref is None
        if len(a.path) != len(b.path):
            return False
        cs = [same_ref(a.ref, b.ref)]
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                return False
            cs.append(x[1] == y[1] if x[0] == 'f' else eq(x[1], y[1]))
        return band(*cs)
    if isinstance(a, (Iface, IfaceAbs)) or isinstance(b, (Iface, IfaceAbs)):
        na = isinstance(a, Iface) and a.tid is None
        nb = isinstance(b, Iface) and b.tid is None
        if na or nb:
            return na and nb
        if isinstance(a, Iface) and isinstance(b, Iface):
            if a.tname != b.tname:
                return False
            return veq(a.v, b.v)
        if isinstance(a, IfaceAbs) and isinstance(b, IfaceAbs):
            if a is b:
                return True
        raise Unsupported('iface compare')
    if isinstance(a, (FuncV, FuncAbs)):
        return (a is NILFUNC) == (b is NILFUNC) and (a is NILFUNC or a is b)
    if isinstance(a, MapRef) or isinstance(b, MapRef):
        if a.ref is None or b.ref is None:
            return a.ref is None and b.ref is None
        return same_ref(a.ref, b.ref)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a is b:
            return True
        if a.kind == 'err' and b.kind == 'err':
            return a.a.get('nil') == b.a.get('nil')
    if a is None and b is None:
        return True
    return eq(a, b)
