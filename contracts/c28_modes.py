"""C28: the mode expansion of the density, its integrals and the energy that is minimised"""
import itertools
from math import factorial
from contracts.common import *
from contracts.c19_model import get

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)
LEG = '(gonum.org/v1/gonum/integrate/quad.Legendre).FixedLocationSingle'
MIN = 'gonum.org/v1/gonum/optimize.Minimize'


@contract('C28', 'ModeDensity: the cosines of all equivalent planes', ['(*pfc.ModeSolver).ModeDensity'])
def density(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        n, nm, mode = v.int('n', 0), v.int('modes', 1), v.int('mode', 0)
        v.assume(lt(mode, nm))
        f = {c: z3.Function('plane_' + c, INT, INT) for c in 'HKL'}
        g = {c: z3.Function('mode_' + c, INT, INT) for c in 'HKL'}
        plane = lambda h: lambda k: v.struct('pfc.Miller', **{c: h[c](zi(k)) for c in 'HKL'})
        modes = Slice(v.ip.alloc(v.st, LamArr(plane(g))), 0, nm)

        def equiv(ip, st, a):
            ip.oblige(st, 'the equivalent planes of the mode', veq(a[0], plane(g)(mode)))
            return [(st, Slice(ip.alloc(st, LamArr(plane(f))), 0, n))]
        if not v.summary('pfc.EquivalentMiller', equiv):
            raise Unsupported('EquivalentMiller is gone')
        xs = [v.real('x%d' % i) for i in range(d)]

        def wave(k):
            k = zi(k)
            arg = ZERO
            for c, x in zip('HKL', xs):
                arg = add(arg, mul(toreal(f[c](k)), x))
            w = ext.cos(mul(mul(TWO, PI), arg))
            return ite(eq(f['L'](k), 0), w, ZERO) if d == 2 else w
        S = SpecSum('density', wave)
        v.ip.specsums.append(S)
        ms = v.obj('pfc.ModeSolver', Miller=modes)
        pos = v.list(xs)
        for s, r in v.call('(*pfc.ModeSolver).ModeDensity', ms, mode, pos):
            v.ensure('sum over the planes', s, lambda: eq(r, S.at(n)))
            v.frame_slice('position unchanged', s, pos)


class Rule:
    """nodes and weights of the quadrature of order n on [0, 1]"""

    def __init__(self, v, n):
        self.X, self.W = z3.Function('node', INT, REAL), z3.Function('weight', INT, REAL)

        def h(ip, st, a):
            ip.oblige(st, 'rule of the given order on the unit interval', band(eq(a[1], n), eq(a[3], ZERO), eq(a[4], ONE)))
            ip.oblige(st, 'number of the node', band(ge(a[2], 0), lt(a[2], n)))
            return [(st, (self.X(zi(a[2])), self.W(zi(a[2]))))]
        v.ip.summaries[LEG] = h
        ext.USED.add(LEG)

    def x(self, i):
        return self.X(zi(i))

    def w(self, i):
        return self.W(zi(i))


@contract('C28', 'QuadSquare, QuadCube: the tensor product rule', ['pfc.QuadSquare', 'pfc.QuadCube'])
def quadrature(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        n = v.int('n', 0)
        r = Rule(v, n)
        G = z3.Function('f', *([REAL] * (d + 1)))
        v.ip.summaries['spec.f'] = lambda ip, st, a: [(st, G(*[zr(x) for x in a]))]
        it = lambda j: (lambda ip: [tuple(ip.iters[:j])] if len(ip.iters) >= j else [])
        val = lambda *ij: (mul(prod([r.w(i) for i in ij]), G(*[r.x(i) for i in ij])))
        if d == 2:
            a = SpecSum('row', val, REAL, 1, it(1))
            b = SpecSum('all', lambda i: a.at(i, n))
            v.ip.specsums += [a, b]
            tot = b
        else:
            c = SpecSum('line', val, REAL, 2, it(2))
            a = SpecSum('row', lambda i, j: c.at(i, j, n), REAL, 1, it(1))
            b = SpecSum('all', lambda i: a.at(i, n))
            v.ip.specsums += [c, a, b]
            tot = b
        for s, x in v.call('pfc.Quad' + ('Square' if d == 2 else 'Cube'), FuncV('spec.f'), n):
            v.ensure('weighted sum over all nodes', s, lambda: eq(x, tot.at(n)))


def prod(xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def pw(x, p):
    """x^p"""
    return ite(eq(p, 0), ONE, ext.powf(x, toreal(p)))


@contract('C28', 'UnitcellIntegral: integral of the product of the powers of the modes', ['(*pfc.ModeSolver).UnitcellIntegral'])
def integral(F):
    for d in (2, 3):
        for m in (1, 2, 3):
            v = F.new('%d modes in %dD' % (m, d))
            order = v.int('order', 1)
            D = z3.Function('modedensity', *([INT] + [REAL] * (d + 1)))
            p, _ = v.dense(d, d, 'c')
            cell = v.struct('pfc.ReciprocalCell', CellVec=p)
            ps = [v.int('p%d' % i, 0) for i in range(m)]
            ms = v.obj('pfc.ModeSolver', ReciprocalCell=cell, Miller=v.list([v.struct('pfc.Miller', H=v.int('h%d' % i)) for i in range(m)]))

            def h_density(ip, st, a):
                ip.oblige(st, 'the same modes', eq(a[0].ref.oid, ms.ref.oid))
                ip.oblige(st, 'coordinates', eq(a[2].len, d))
                return [(st, D(zi(a[1]), *[zr(ip.get(st, a[2], i)) for i in range(d)]))]
            if not v.summary('(*pfc.ModeSolver).ModeDensity', h_density):
                raise Unsupported('ModeDensity is gone')
            I = v.real('integral')
            seen = []

            def h_quad(ip, st, a):
                seen.append(1)
                ip.oblige(st, 'order of the rule', eq(a[1], order))
                X = [v.real('s%d' % i) for i in range(d)]
                for s2, x in ip.call(st.copy(), a[0], X):
                    v.ensure('integrand', s2, lambda: eq(x, prod([pw(D(zi(i), *X), ps[i]) for i in range(m)])))
                return [(st, I)]
            nothere = lambda ip, st, a: (ip.oblige(st, 'the rule of the dimension', False), [])[1]
            for k, nm in ((2, 'Square'), (3, 'Cube')):
                if not v.summary('pfc.Quad' + nm, h_quad if k == d else nothere):
                    raise Unsupported('Quad%s is gone' % nm)
            pl = v.list(ps)
            for s, x in v.call('(*pfc.ModeSolver).UnitcellIntegral', ms, pl, order):
                v.ensure('integral of the integrand', s, eq(x, I))
                v.ensure('integrated once', s, len(seen) == 1)
                v.frame_slice('powers unchanged', s, pl)
    v = F.new('wrong number of powers')
    p, _ = v.dense(2, 2, 'c')
    ms = v.obj('pfc.ModeSolver', ReciprocalCell=v.struct('pfc.ReciprocalCell', CellVec=p), Miller=v.list([v.struct('pfc.Miller', H=1)]))
    hit = []
    v.ip.on_panic = lambda st, why, *a: hit.append(why)
    out = v.call('(*pfc.ModeSolver).UnitcellIntegral', ms, v.list([1, 2]), 4)
    v.ensure('refused', v.st, len(out) == 0 and len(hit) >= 1)


def tuples(m, power):
    return [t for t in itertools.product(range(power + 1), repeat=m) if sum(t) == power]


def multinomial(t):
    r = factorial(sum(t))
    for x in t:
        r //= factorial(x)
    return r


class Integrals:
    def __init__(self, v, m):
        self.t = {}
        self.v = v

        def h(ip, st, a):
            ps = [ip.get(st, a[1], i) for i in range(a[1].len)]
            if not all(isinstance(x, int) for x in ps):
                raise Unsupported('integral with symbolic powers')
            ip.oblige(st, 'one power per mode', len(ps) == m)
            ip.oblige(st, 'order of the rule', ge(a[2], 1))
            return [(st, self.of(tuple(ps)))]
        if not v.summary('(*pfc.ModeSolver).UnitcellIntegral', h):
            raise Unsupported('UnitcellIntegral is gone')

    def of(self, t):
        if t not in self.t:
            self.t[t] = self.v.real('I_' + '_'.join(str(x) for x in t))
        return self.t[t]


def solver_of(v, m, **kw):
    return v.obj('pfc.ModeSolver', Miller=v.list([v.struct('pfc.Miller', H=v.int('h%d' % i)) for i in range(m)]), **kw)


@contract('C28', 'build: the multinomial expansion of a power of the density', ['(*pfc.ModeSolver).build', 'pfc.power2key'])
def expansion(F):
    for m, power in ((1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3)):
        v = F.new('%d modes, power %d' % (m, power))
        I = Integrals(v, m)
        ms = solver_of(v, m)
        order = v.int('order', 1)
        for s, r in v.call('(*pfc.ModeSolver).build', ms, power, order):
            got = v.ip.read_ref(s, r.ref).items
            keys = {}
            for k, x in got:
                keys[k] = x
            terms = {}
            for k, x in keys.items():
                t = tuple(v.get(s, x.f['ModePowers'], i) for i in range(m))
                v.ensure('each product once', s, t not in terms)
                terms[t] = x.f['Coeff']
            want = tuples(m, power)
            v.ensure('all products of the power', s, sorted(terms) == sorted(want))
            for t in want:
                if t in terms:
                    v.ensure('coefficient of %s' % (t,), s, lambda: eq(terms[t], mul(multinomial(t), I.of(t))))


class Ghost:
    """a counter that belongs to the state"""

    def __init__(self, v):
        self.v, self.p = v, Ptr(v.ip.alloc(v.st, StructV({'k': 0})))

    def get(self, st):
        return self.v.ip.load(st, self.p).f['k']

    def inc(self, st):
        self.v.ip.store(st, self.p, StructV({'k': self.get(st) + 1}))


def explorer(v, starts, given, done):
    """initial guesses from a list, one after the other"""
    def nxt(ip, st, a):
        k = given.get(st)
        if k >= len(starts):
            return [(st, NILSLICE)]
        given.inc(st)
        return [(st, Slice(ip.alloc(st, ListArr(starts[k])), 0, len(starts[k])))]

    def fin(ip, st, a):
        done.inc(st)
        return [(st, None)]
    return IfaceAbs('explorer', {'Next': nxt, 'OnMinimizationFinished': fin})


class SymDense:
    """writes to a symmetric matrix"""

    def __init__(self, v, n):
        self.n = n
        self.p = Ptr(v.ip.alloc(v.st, ListArr([v.real('h%d%d' % (i, j)) for i in range(n) for j in range(n)])))

        def h(ip, st, a):
            i, j = a[1], a[2]
            for x, y in {(i, j), (j, i)}:
                ip.store(st, Ptr(self.p.ref, (('i', x * n + y),)), a[3])
            return [(st, None)]
        nm = '(*gonum.org/v1/gonum/mat.SymDense).SetSym'
        v.ip.summaries[nm] = h
        ext.USED.add(nm)

    def at(self, v, st, i, j):
        return v.ip.read_ref(st, self.p.ref).sel(i * self.n + j)


def mono(A, t):
    return prod([ext.powf(a, x) for a, x in zip(A, t)])


def partial(A, t, dirs):
    """derivative of a monomial"""
    t, c = list(t), 1
    for d in dirs:
        c *= t[d]
        t[d] -= 1
        if c == 0:
            return ZERO
    return mul(c, mono(A, t))


def mksolve(m, what):
    @contract('C28', 'Solve: the energy of the amplitudes, its gradient and its Hessian (%d modes, %s)' % (m, what), ['(*pfc.ModeSolver).Solve', '(*pfc.ModeSolver).build', 'pfc.mergeTerms',
              '(*pfc.IdealMix).ThirdOrderPrefactor', '(*pfc.IdealMix).FourthOrderPrefactor'])
    def solve(F):
        v = F.new('%d modes, %s' % (m, what))
        I = Integrals(v, m)
        c3, c4 = (v.real('C3'), v.real('C4')) if m == 1 else (Fraction(1, 2), Fraction(1, 3))
        ms = solver_of(v, m, IdealMix=v.struct('pfc.IdealMix', C3=c3, C4=c4))
        coef = {}
        if what == 'some negligible':
            for n_, t in enumerate(tuples(m, 3) + tuples(m, 4)):
                I.t[t] = [Fraction(5, 2), ZERO, Fraction(1, 10**6), -Fraction(7, 3), ONE][n_ % 5]
        for pwr, pre in ((3, neg(rdiv(c3, Fraction(6)))), (4, rdiv(c4, Fraction(12)))):
            for t in tuples(m, pwr):
                coef[t] = mul(pre, mul(multinomial(t), I.of(t)))
        big = lambda x: band(ge(absv(x), Fraction(1)), le(absv(x), Fraction(100)))
        if what == 'no negligible term':
            for t in coef:
                v.assume(big(coef[t]))
            keep = {t: True for t in coef}
        else:
            top = ZERO
            for t in coef:
                top = ite(gt(absv(coef[t]), top), absv(coef[t]), top)
            keep = {t: gt(absv(coef[t]), mul(Fraction(1, 10**4), top)) for t in coef}
        H = SymDense(v, m)
        starts = [[v.real('a%d_%d' % (k, i)) for i in range(m)] for k in range(2)]
        found = [([v.real('x%d_%d' % (k, i)) for i in range(m)], v.real('E%d' % k)) for k in range(2)]
        given, done, calls = [Ghost(v) for _ in range(3)]
        A = [v.real('amp%d' % i) for i in range(m)]
        nloc = v.prog.type_by_name('gonum.org/v1/gonum/optimize.Result')

        def h_min(ip, st, a):
            k = calls.get(st)
            calls.inc(st)
            v.ensure('started at the guess %d' % k, st, lambda: band(eq(a[1].len, m), *[eq(v.get(st, a[1], i), starts[k][i]) for i in range(m)]))
            P_ = a[0].f
            if k == 0:
                amp = lambda s: Slice(ip.alloc(s, ListArr(A)), 0, m)
                W = lambda t, x: ite(keep[t], x, ZERO)
                tot = lambda f: sumr([W(t, mul(coef[t], f(t))) for t in coef])
                s0 = st.copy()
                for s, e in ip.call(s0, P_['Func'], [amp(s0)]):
                    v.ensure('energy', s, lambda: eq(e, tot(lambda t: mono(A, t))))
                s0 = st.copy()
                g = Slice(ip.alloc(s0, ListArr([v.real('g%d' % i) for i in range(m)])), 0, m)
                for s, _ in ip.call(s0, P_['Grad'], [g, amp(s0)]):
                    for i in range(m):
                        v.ensure('gradient, component %d' % i, s, lambda: eq(v.get(s, g, i), tot(lambda t: partial(A, t, [i]))))
                s0 = st.copy()
                for s, _ in ip.call(s0, P_['Hess'], [H.p, amp(s0)]):
                    for i in range(m):
                        for j in range(m):
                            v.ensure('Hessian, component (%d,%d)' % (i, j), s, lambda: eq(H.at(v, s, i, j), tot(lambda t: partial(A, t, [i, j]))))
            X, E = found[k]
            z = ip.zero(nloc)
            loc = z.f['Location'].set('F', E).set('X', Slice(ip.alloc(st, ListArr(X)), 0, m))
            return [(st, (Ptr(ip.alloc(st, z.set('Location', loc))), NILIFACE))]
        v.ip.summaries[MIN] = h_min
        ext.USED.add(MIN)
        for s, r in v.call('(*pfc.ModeSolver).Solve', ms, explorer(v, starts, given, done)):
            v.ensure('every guess is minimised and reported', s, done.get(s) == calls.get(s) == 2)
            E0, E1 = found[0][1], found[1][1]
            best = ite(lt(E0, E1), E0, E1)
            v.ensure('lowest energy found, zero for the uniform density', s, lambda: eq(r.f['Energy'], ite(lt(best, ZERO), best, ZERO)))
            for i in range(m):
                x = ite(lt(best, ZERO), ite(le(E0, E1), found[0][0][i], found[1][0][i]), ZERO)
                v.ensure('its amplitudes', s, lambda: eq(v.get(s, r.f['Amplitudes'], i), x))


def sumr(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


for m_, w_ in ((1, 'no negligible term'), (1, 'any'), (2, 'no negligible term'), (2, 'some negligible'), (3, 'some negligible')):
    mksolve(m_, w_)


@contract('C28', 'default guesses of Solve: every sign of 0.1 per mode', ['(*pfc.ModeSolver).Solve', '(*pfc.HyperOctantExplorer).Next'])
def default_guess(F):
    for m in (1, 2):
        v = F.new('%d modes' % m)
        I = Integrals(v, m)
        for pwr in (3, 4):
            for t in tuples(m, pwr):
                I.t[t] = ONE
        ms = solver_of(v, m, IdealMix=v.struct('pfc.IdealMix', C3=ONE, C4=ONE))
        n = Ghost(v)
        got = []

        def h_min(ip, st, a):
            n.inc(st)
            got.append([v.get(st, a[1], i) for i in range(a[1].len)])
            z = ip.zero(v.prog.type_by_name('gonum.org/v1/gonum/optimize.Result'))
            loc = z.f['Location'].set('F', ONE).set('X', Slice(ip.alloc(st, ListArr([ONE] * m)), 0, m))
            return [(st, (Ptr(ip.alloc(st, z.set('Location', loc))), NILIFACE))]
        v.ip.summaries[MIN] = h_min
        ext.USED.add(MIN)
        tenth = Fraction(1, 10)
        for s, r in v.call('(*pfc.ModeSolver).Solve', ms, NILIFACE):
            want = sorted(list(x) for x in itertools.product([-tenth, tenth], repeat=m))
            v.ensure('each sign once', s, len(got) == 2 ** m and all(len(g) == m for g in got) and sorted([Fraction(x).limit_denominator(10**6) for x in g] for g in got) == want)
            v.ensure('uniform density when nothing lowers the energy', s, band(eq(r.f['Energy'], ZERO), *[eq(v.get(s, r.f['Amplitudes'], i), ZERO) for i in range(m)]))


@contract('C28', 'explorers: every combination of signs once, a single point once', ['(*pfc.HyperOctantExplorer).Next', '(*pfc.SinglePointExplorer).Next'])
def explorers(F):
    for m in (1, 2, 3):
        v = F.new('%d coordinates' % m)
        xs = [v.real('x%d' % i) for i in range(m)]
        X0 = v.list(xs)
        o = v.obj('pfc.HyperOctantExplorer', X0=X0)
        signs, st, pts = set(), v.st, []
        for k in range(2 ** m):
            st, r = v.call1('(*pfc.HyperOctantExplorer).Next', o, st=st)
            v.ensure('guess %d has a value per coordinate' % k, st, eq(r.len, m))
            sg = []
            for i in range(m):
                x = v.get(st, r, i)
                p = [c for c in (1, -1) if (lambda e: e is True or (not isinstance(e, bool) and z3.is_true(z3.simplify(e))))(eq(x, mul(c, xs[i])))]
                v.ensure('guess %d is a signed start' % k, st, bool(p))
                sg.append(p[0] if p else 0)
            signs.add(tuple(sg))
            pts.append(r)
        v.ensure('all signs', st, len(signs) == 2 ** m)
        st, r = v.call1('(*pfc.HyperOctantExplorer).Next', o, st=st)
        v.ensure('then none', st, r is NILSLICE or r.ref is None)
        v.ensure('start unchanged', st, band(*[eq(v.get(st, X0, i), xs[i]) for i in range(m)]))
        o = v.obj('pfc.SinglePointExplorer', X0=X0)
        st, r = v.call1('(*pfc.SinglePointExplorer).Next', o, st=st)
        v.ensure('the point', st, band(eq(r.len, m), *[eq(v.get(st, r, i), xs[i]) for i in range(m)]))
        for k in range(2):
            st, r = v.call1('(*pfc.SinglePointExplorer).Next', o, st=st)
            v.ensure('once', st, r is NILSLICE or r.ref is None)


@contract('C28', 'ideal mixing energy and its derivative', ['(*pfc.IdealMix).Eval', '(*pfc.IdealMix).Deriv'])
def ideal(F):
    v = F.new()
    c3, c4, n = [v.real(x) for x in ('C3', 'C4', 'n')]
    o = v.obj('pfc.IdealMix', C3=c3, C4=c4)
    for s, r in v.call('(*pfc.IdealMix).Eval', o, n):
        v.ensure('energy', s, lambda: eq(r, add(mul(Fraction(1, 2), mul(n, n)), add(neg(mul(rdiv(c3, Fraction(6)), mono([n], [3]))), mul(rdiv(c4, Fraction(12)), mono([n], [4]))))))
    for s, r in v.call('(*pfc.IdealMix).Deriv', o, n):
        v.ensure('derivative', s, lambda: eq(r, add(n, add(neg(mul(rdiv(c3, TWO), mul(n, n))), mul(rdiv(c4, Fraction(3)), mono([n], [3]))))))
