"""C25: the fully implicit stepper"""
from contracts.common import *
from contracts.c12_steppers import World, euler_spec

ZERO, ONE, HALF = Fraction(0), Fraction(1), Fraction(1, 2)
R = lambda x: C(x, ZERO)
cexp = lambda z: ext.TABLE['math/cmplx.Exp'](None, None, [z])[0][1]
cabs = lambda z: ext.TABLE['math/cmplx.Abs'](None, None, [z])[0][1]


class Timeless(World):
    """terms that do not depend on time explicitly"""

    def term(self, i):
        def h(ip, st, a):
            ip.oblige(st, 'term has room for the field', eq(a[2].len, self.N))
            ip.write_ref(st, a[2].ref, self.op(st, 'rhs%d' % i, self.cur(st, self.fields + self.derived)))
            return [(st, None)]
        return h

    def rhs(self, s, y, d, t):
        return [self.op(s, 'rhs%d' % i, y + d) for i in range(self.nF)]

    def A(self, i, t):
        if not self.implicit:
            return ConstArr(CZERO)
        a, b = [z3.Function('A%d_%s' % (i, p), INT, REAL) for p in ('re', 'im')]
        return LamArr(lambda k: C(a(zi(k)), b(zi(k))))


def integral(dt, A, new, old):
    """integral of exp(A (dt - s)) times the line from old at s = 0 to new at s = dt; the trapezoidal rule for |A| < 1e-5"""
    f = cexp(A * R(dt))
    one = R(ONE)
    b = (new - old) / R(dt)
    closed = old * (f - one) / A + b * (f - A * R(dt) - one) / (A * A)
    trap = R(HALF) * R(dt) * (new + old * f)
    c = lt(cabs(A), Fraction(1, 10**5))
    return C(ite(c, trap.re, closed.re), ite(c, trap.im, closed.im))


@contract('C25', 'nonlinearIntegral: the exponential integral of the linear interpolant', ['(*pf.ImplicitEuler).nonlinearIntegral'])
def nonlinear(F):
    v = F.new()
    dt = v.real('dt')
    v.assume(gt(dt, 0))
    A, new, old = v.cplx('A'), v.cplx('new'), v.cplx('old')
    for s, r in v.call('(*pf.ImplicitEuler).nonlinearIntegral', v.obj('pf.ImplicitEuler', Dt=dt), A, new, old):
        v.ensure('value', s, veq(r, integral(dt, A, new, old)))


def step(nF, nD, impl, filt):
    def run(F):
        v = F.new('%d fields, %d derived' % (nF, nD))
        w = Timeless(v, nF, nD, impl, filt)
        v.assume(gt(w.dt, 0))
        for m, k in (('FFT', 1), ('IFFT', -1)):
            v.summary('(*pfutil.FFTWWrapper).' + m, w.ft.handler(k))
        v.summary('(*pfutil.FFTWWrapper).Freq', lambda ip, st, a: w.fn.handler(ip, st, a[1:]))
        y0 = [v.content(x) for x in w.fields]
        solved = []
        # by its contract above: a function of A, new and old (and the step size, which is kept)
        I = [z3.Function('integral_' + p, *([REAL] * 7)) for p in ('re', 'im')]
        opaque = lambda dt, A, new, old: C(*[f(zr(A.re), zr(A.im), zr(new.re), zr(new.im), zr(old.re), zr(old.im)) for f in I])

        def h_integral(ip, st, a):
            ip.oblige(st, 'integral over the step size', eq(v.load(st, a[0], 'Dt'), w.dt))
            return [(st, opaque(w.dt, a[1], a[2], a[3]))]
        integ = opaque if v.summary('(*pf.ImplicitEuler).nonlinearIntegral', h_integral) else integral

        def part(arr, i):
            return LamArr(lambda k: R(arr.sel(add(mul(i, w.N), k)).re if isinstance(arr.sel(0), C) else arr.sel(add(mul(i, w.N), k))))

        def h_solve(ip, st, a):
            problem, x0 = a[1], a[2]
            n = mul(nF, w.N)
            v.ensure('start of the iteration: one number per node and field', st, eq(x0.len, n))
            eu = euler_spec(w, st)
            for i in range(nF):
                v.ensure_all('start of the iteration: an Euler step (field %d)' % i, st, w.N, lambda k: eq(v.get(st, x0, add(mul(i, w.N), k)), eu[i].sel(k).re))
            # the residual, asked twice with arbitrary states in between
            s = st
            y = w.fwd(s, y0)
            old = w.rhs(s, y, w.fwd(s, w.derive(s, y0)), None)
            for turn in ('first', 'later'):
                s = s.copy()
                for sl in w.fields + w.derived:
                    ip.write_ref(s, sl.ref, v.array('cplx', 'junk%d_%s' % (sl.ref.oid, turn)))
                xs = v.array('real', 'x_' + turn)
                x = Slice(ip.alloc(s, xs), 0, n)
                out = Slice(ip.alloc(s, v.array('real', 'out_' + turn)), 0, n)
                ip.focus(s)
                before = dict(s.mem)
                res = ip.call(s, problem.f['F'], [out, x])
                for s2, _ in res:
                    X = [part(xs, i) for i in range(nF)]
                    Y = w.fwd(s2, X)
                    new = w.rhs(s2, Y, w.fwd(s2, w.derive(s2, X)), None)
                    want = []
                    for i in range(nF):
                        def r(k, i=i):
                            Ak = w.A(i, None).sel(k)
                            return Y[i].sel(k) - (y[i].sel(k) * cexp(Ak * R(w.dt)) + integ(w.dt, Ak, new[i].sel(k), old[i].sel(k)))
                        want.append(LamArr(r))
                    want = w.back(s2, want)
                    for i in range(nF):
                        v.ensure_all('residual of field %d (%s call)' % (i, turn), s2, w.N, lambda k: eq(v.get(s2, out, add(mul(i, w.N), k)), want[i].sel(k).re))
                    may = {sl.ref.oid for sl in w.fields + w.derived + [out]}
                    v.ensure('the residual changes nothing but fields and derived fields', s2, band(*[o in may for o in before if s2.mem.get(o) is not before[o]]))
                if len(res) != 1:
                    raise Unsupported('residual with %d outcomes' % len(res))
                s = res[0][0]
            X = v.array('real', 'solution')
            solved.append(X)
            s = s.copy()
            for sl in w.fields + w.derived:
                ip.write_ref(s, sl.ref, v.array('cplx', 'left%d' % sl.ref.oid))
            t = v.prog.type_by_name('github.com/davidkleiven/gononlin/nonlin.Result')
            z0 = ip.zero(t)
            f = dict(z0.f)
            f.update(X=Slice(ip.alloc(s, X), 0, n), Converged=v.boolv('converged'))
            return [(s, StructV(f))]
        v.ip.summaries['(*github.com/davidkleiven/gononlin/nonlin.NewtonKrylov).Solve'] = h_solve
        ext.USED.add('(*nonlin.NewtonKrylov).Solve: some vector of the length of the guess, after any number of calls of the residual')
        ie = v.obj('pf.ImplicitEuler', Dt=w.dt, FT=Ptr(v.ip.alloc(v.st, Opaque('fftw'))), Filter=w.filter, CurrentStep=w.step0,
                   NonlinSolver=Ptr(v.ip.alloc(v.st, Opaque('newton'))))
        for s, _ in v.call('(*pf.ImplicitEuler).Step', ie, w.model):
            v.ensure('solved once', s, len(solved) == 1)
            for i in range(nF):
                v.ensure_all('new field %d is the solution, real' % i, s, w.N, lambda k: veq(v.get(s, w.fields[i], k), R(solved[0].sel(add(mul(i, w.N), k)))))
            v.ensure('one step further', s, eq(v.load(s, ie, 'CurrentStep'), add(w.step0, 1)))
            fs = v.load(s, w.model, 'Fields')
            v.ensure('same fields', s, band(eq(fs.len, nF), *[veq(v.get(s, fs, i).f['Data'], w.fields[i]) for i in range(nF)]))
            v.ensure('same step size', s, eq(v.load(s, ie, 'Dt'), w.dt))
        v.reachable('pre', v.st)
    return run


for _c in [(1, 0, True, False), (1, 1, True, True), (2, 1, True, False), (2, 1, False, False)]:
    contract('C25', 'ImplicitEuler.Step: guess, residual and result (%d fields, %d derived%s%s)' % (_c[0], _c[1], '' if _c[2] else ', no implicit terms', ', filter' if _c[3] else ''),
             ['(*pf.ImplicitEuler).Step', '(*pf.ImplicitEuler).updateEquation', '(*pf.ImplicitEuler).fields2vec', '(*pf.ImplicitEuler).vec2fields'])(step(*_c))
