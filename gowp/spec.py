"""Specification functions: recursively defined sums and folds over an index."""
import z3
from .num import *
from . import solver

_N = [0]


class SpecSum:
    """S(p.., t) = sum_{0<=m<t} f(p.., m)"""

    def __init__(self, name, f, sort=REAL, nparams=0, inst=None):
        _N[0] += 1
        self.name, self.f, self.sort, self.np = name, f, sort, nparams
        self.F = z3.Function('%s!s%d' % (name, _N[0]), *([INT] * (nparams + 1) + [sort]))
        self.inst = inst
        solver.register_def(self.F, self.unfold)

    def instances(self, ip):
        return self.inst(ip) if self.inst else [()]

    def at(self, *a):
        par, t = a[:-1], a[-1]
        if isinstance(t, int):
            r = 0 if self.sort == INT else Fraction(0)
            for m in range(t):
                r = add(r, self.f(*par, m))
            return r
        return self.F(*[zi(x) for x in a])

    def unfold(self, args):
        par, t = list(args[:-1]), args[-1]
        app = self.F(*args)
        prev = simp(t - 1)
        zero = z3.IntVal(0) if self.sort == INT else z3.RealVal(0)
        return [z3.Implies(t <= 0, app == zero),
                z3.Implies(t >= 1, app == z(add(self.at(*par, prev), self.f(*par, prev))))]


class SpecRec:
    """R(p.., 0) = init(p..); R(p.., t+1) = step(p.., t, R(p.., t))"""

    def __init__(self, name, init, step, sort=REAL, nparams=0, inst=None, prod=None):
        _N[0] += 1
        self.name, self.init, self.step, self.sort, self.np = name, init, step, sort, nparams
        self.prod = prod        # factor of the index, when this is a product
        self.F = z3.Function('%s!r%d' % (name, _N[0]), *([INT] * (nparams + 1) + [sort]))
        self.inst = inst
        solver.register_def(self.F, self.unfold)

    def instances(self, ip):
        return self.inst(ip) if self.inst else [()]

    def at(self, *a):
        par, t = a[:-1], a[-1]
        if isinstance(t, int):
            r = self.init(*par)
            for m in range(t):
                r = self.step(*par, m, r)
            return r
        return self.F(*[zi(x) for x in a])

    def unfold(self, args):
        par, t = list(args[:-1]), args[-1]
        app = self.F(*args)
        prev = simp(t - 1)
        return [z3.Implies(t <= 0, app == z(self.init(*par))),
                z3.Implies(t >= 1, app == z(self.step(*par, prev, self.at(*par, prev))))]
