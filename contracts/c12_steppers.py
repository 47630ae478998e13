"""C12 (Euler), C13 (RK4), C14 (time)"""
from contracts.common import *
from contracts.c11_equilibrium import freqfn

ZERO, ONE = Fraction(0), Fraction(1)


class World:
    """a model with nF fields, nD derived fields, one explicit and one implicit term per equation,
    all abstract: a derived field and an explicit term are arbitrary functions of the contents of the
    fields (and the time); an implicit term is an arbitrary function of node and time"""

    def __init__(self, v, nF, nD, implicit=True, filt=False, d=2):
        self.v, self.nF, self.nD, self.implicit, self.filt = v, nF, nD, implicit, filt
        self.N = v.int('N', 1)
        self.fn, self.fq = freqfn(v, d)
        self.d = d
        self.ft = FTOp(v, self.N, self.fn)
        self.dt = v.real('dt')
        self.step0 = v.int('step0', 0)
        self.calls = []
        st = v.st
        self.fields = [v.slice('cplx', 'y%d' % i, self.N) for i in range(nF)]
        self.derived = [v.slice('cplx', 'd%d' % i, self.N) for i in range(nD)]
        self.ops = {}
        self.den = [z3.Function('A%d_%s' % (i, p), INT, REAL, REAL) for i in range(nF) for p in ('re', 'im')]
        self.fil = z3.Function('filt', REAL, REAL)
        F = [v.struct('pf.Field', Data=s, Name='y%d' % i) for i, s in enumerate(self.fields)]
        D = [v.struct('pf.DerivedField', Data=s, Name='d%d' % i, Calc=FuncAbs('calc%d' % i, self.calc(i))) for i, s in enumerate(self.derived)]
        R = [v.struct('pf.RHS', Terms=v.list([FuncAbs('term%d' % i, self.term(i))]),
                      Denum=v.list([FuncAbs('den%d' % i, self.denom(i))]) if implicit else NILSLICE) for i in range(nF)]
        self.model = v.obj('pf.Model', Fields=v.list(F), DerivedFields=v.list(D) if D else NILSLICE, RHS=v.list(R),
                           AllSources=v.list([NILSLICE] * nF))
        self.filter = IfaceAbs('filter', {'Eval': lambda ip, st, a: [(st, self.fil(zr(a[1])))]}) if filt else NILIFACE
        self.ftif = self.ft.iface()

    # uninterpreted operators with congruence
    def op(self, st, key, contents, t=None):
        for t2, cs, r in self.ops.setdefault(key, []):
            if (t is None or solver_eq(st, t, t2)) and all(self.ft.same(st, a, b) for a, b in zip(contents, cs)):
                return r
        r = self.v.array('cplx', '%s_%d' % (key, len(self.ops[key])))
        self.ops[key].append((t, contents, r))
        return r

    def cur(self, st, sls):
        return [self.v.ip.read_ref(st, s.ref) for s in sls]

    def calc(self, i):
        def h(ip, st, a):
            ip.oblige(st, 'derived field is updated in place', eq(a[0].len, self.N))
            ip.write_ref(st, a[0].ref, self.op(st, 'calc%d' % i, self.cur(st, self.fields)))
            return [(st, None)]
        return h

    def term(self, i):
        def h(ip, st, a):
            ip.oblige(st, 'term has room for the field', eq(a[2].len, self.N))
            ip.write_ref(st, a[2].ref, self.op(st, 'rhs%d' % i, self.cur(st, self.fields + self.derived), a[1]))
            return [(st, None)]
        return h

    def A(self, i, t):
        if not self.implicit:
            return ConstArr(CZERO)
        a, b = self.den[2 * i], self.den[2 * i + 1]
        return LamArr(lambda k: C(a(zi(k), zr(t)), b(zi(k), zr(t))))

    def denom(self, i):
        def h(ip, st, a):
            ip.oblige(st, 'term has room for the field', eq(a[2].len, self.N))
            ip.write_ref(st, a[2].ref, self.A(i, a[1]))
            return [(st, None)]
        return h

    def regular(self, ks):
        """1 - c dt A is not zero (precondition of the scheme)"""

    # specification
    def fwd(self, s, arrs):
        return [self.ft.transform(s, 1, a) for a in arrs]

    def back(self, s, arrs):
        n = toreal(self.N)
        out = []
        for a in arrs:
            r = self.ft.transform(s, -1, a)
            out.append((lambda r: LamArr(lambda k: C(rdiv(r.sel(k).re, n), rdiv(r.sel(k).im, n))))(r))
        return out

    def rhs(self, s, y, d, t):
        return [self.op(s, 'rhs%d' % i, y + d, t) for i in range(self.nF)]

    def derive(self, s, y):
        return [self.op(s, 'calc%d' % i, y) for i in range(self.nD)]

    def sigma(self, k):
        if not self.filt:
            return ONE
        f2 = ZERO
        for a in range(self.d):
            f2 = add(f2, mul(self.fq(k, a), self.fq(k, a)))
        return self.fil(zr(rdiv(mul(ext.sqrt(f2), Fraction(2)), PI)))

    def update(self, y, k, c, t, filt=False):
        """(y_i + c dt k_i) / (1 - c dt A_i), times the filter"""
        out = []
        for i in range(self.nF):
            A = self.A(i, t)

            def f(n, i=i, A=A):
                cdt = C(mul(c, self.dt), ZERO)
                x = (y[i].sel(n) + cdt * k[i].sel(n)) / (C(ONE, ZERO) - cdt * A.sel(n))
                if filt and self.filt:
                    x = x * C(self.sigma(n), ZERO)
                return x
            out.append(LamArr(f))
        return out


def solver_eq(st, a, b):
    g = eq(a, b)
    if isinstance(g, bool):
        return g
    return bool(solver.prove(st.hyps(), zb(g), timeout=2000)[0])


def euler_spec(w, s):
    y0 = [w.v.content(x) for x in w.fields]
    t = mul(toreal(w.step0), w.dt)
    y = w.fwd(s, y0)
    d = w.fwd(s, w.derive(s, y0))
    k = w.rhs(s, y, d, t)
    return w.back(s, w.update(y, k, ONE, t, True))


def rk4_spec(w, s):
    y0 = [w.v.content(x) for x in w.fields]
    t = mul(toreal(w.step0), w.dt)
    y = w.fwd(s, y0)
    d = w.fwd(s, w.derive(s, y0))
    ks = [w.rhs(s, y, d, t)]
    for c in (Fraction(1, 2), Fraction(1, 2), ONE):
        z = w.back(s, w.update(y, ks[-1], c, t))
        yz = w.fwd(s, z)
        dz = w.fwd(s, w.derive(s, z))
        ks.append(w.rhs(s, yz, dz, add(t, mul(c, w.dt))))
    comb = []
    for i in range(w.nF):
        def f(n, i=i):
            a, b, c, e = [q[i].sel(n) for q in ks]
            x = a + b + b + c + c + e
            return C(rdiv(x.re, Fraction(6)), rdiv(x.im, Fraction(6)))
        comb.append(LamArr(f))
    return w.back(s, w.update(y, comb, ONE, t, True))


def stepper(v, w, tname):
    return v.obj('pf.' + tname, Dt=w.dt, FT=w.ftif, Filter=w.filter, CurrentStep=w.step0)


def step_contract(tname, spec, cases):
    def run(F):
        for nF, nD, impl, filt in cases:
            v = F.new('%d fields, %d derived%s%s' % (nF, nD, '' if impl else ', no implicit terms', ', filter' if filt else ''))
            w = World(v, nF, nD, impl, filt)
            eu = stepper(v, w, tname)
            for s, _ in v.call('(*pf.%s).Step' % tname, eu, w.model):
                want = spec(w, s)
                for i in range(nF):
                    v.ensure_all('new field %d' % i, s, w.N, lambda k: veq(v.get(s, w.fields[i], k), want[i].sel(k)))
                v.ensure('one step further', s, eq(v.load(s, eu, 'CurrentStep'), add(w.step0, 1)))
                fs = v.load(s, w.model, 'Fields')
                v.ensure('same fields', s, band(eq(fs.len, nF), *[veq(v.get(s, fs, i).f['Data'], w.fields[i]) for i in range(nF)]))
                v.ensure('same step size', s, eq(v.load(s, eu, 'Dt'), w.dt))
            v.reachable('pre', v.st)
    return run


for _c in [(1, 0, True, False), (1, 1, True, True), (2, 1, True, False), (2, 2, False, True), (3, 1, True, True), (1, 4, True, False), (2, 3, False, False), (4, 0, False, False)]:
    contract('C12', 'Euler.Step: y <- (y + dt N(y,t)) / (1 - dt A) per mode, all fields from the old state (%d fields, %d derived)' % _c[:2] + (' (filter)' if _c[3] else ''),
             ['(*pf.Euler).Step', '(*pf.Model).GetRHS', '(*pf.Model).GetDenum', '(*pf.Model).SyncDerivedFields', 'pf.ApplyModalFilter'])(step_contract('Euler', euler_spec, [_c]))
for _c in [(1, 0, True, False), (1, 1, True, True), (2, 1, True, False), (2, 1, False, True), (1, 4, True, False), (2, 3, False, False)]:
    contract('C13', 'RK4.Step: four stages with backward implicit parts (%d fields, %d derived)' % (_c[0], _c[1]) + (' (filter)' if _c[3] else ''),
             ['(*pf.RK4).Step', '(*pf.RK4).PrepareNextCorrection'])(step_contract('RK4', rk4_spec, [_c]))


# ---------------------------------------------------------------- C14

@contract('C14', 'the clock is the number of steps times the step size', ['(*pf.Euler).GetTime', '(*pf.RK4).GetTime', '(*pf.ImplicitEuler).GetTime'])
def clock(F):
    for t in ('Euler', 'RK4', 'ImplicitEuler'):
        v = F.new(t)
        dt, n = v.real('dt'), v.int('n', 0)
        o = v.obj('pf.' + t, Dt=dt, CurrentStep=n)
        for s, r in v.call('(*pf.%s).GetTime' % t, o):
            v.ensure('time = steps * dt', s, eq(r, mul(toreal(n), dt)))


def counted(v, name):
    """a counter cell in memory"""
    return v.ip.alloc(v.st, 0)


@contract('C14', 'Propagate takes exactly the requested number of steps', ['(*pf.Euler).Propagate', '(*pf.RK4).Propagate'])
def propagate(F):
    for t in ('Euler', 'RK4'):
        v = F.new(t)
        n, n0 = v.int('n'), v.int('n0', 0)
        o = v.obj('pf.' + t, Dt=v.real('dt'), CurrentStep=n0)
        m = v.obj('pf.Model')

        def step(ip, st, a):
            ip.oblige(st, 'steps the given model', band(veq(a[0], o), veq(a[1], m)))
            p = Ptr(a[0].ref, (('f', 'CurrentStep'),))
            ip.store(st, p, add(ip.load(st, p), 1))
            return [(st, None)]
        if not v.summary('(*pf.%s).Step' % t, step):
            raise Unsupported('no Step method')
        for s, _ in v.call('(*pf.%s).Propagate' % t, o, n, m):
            v.ensure('n steps', s, eq(v.load(s, o, 'CurrentStep'), add(n0, ite(ge(n, 0), n, 0))))


@contract('C14', 'terms and sources are evaluated at the given time', ['(*pf.Model).GetRHS', '(*pf.Model).GetDenum', '(*pf.Source).Eval'])
def at_time(F):
    for meth in ('GetRHS', 'GetDenum'):
        v = F.new(meth)
        N = v.int('N', 1)
        t = v.real('t')
        fn, fq = freqfn(v, 2)
        T = [z3.Function('T%d_%s' % (i, p), INT, REAL, REAL) for i in range(2) for p in ('re', 'im')]

        def term(i):
            def h(ip, st, a):
                ip.write_ref(st, a[2].ref, LamArr(lambda k: C(T[2 * i](zi(k), zr(a[1])), T[2 * i + 1](zi(k), zr(a[1])))))
                return [(st, None)]
            return FuncAbs('term%d' % i, h)
        g = z3.Function('g', REAL, REAL)
        px, py = v.real('px'), v.real('py')
        src = v.struct('pf.Source', Pos=v.list([px, py]), f=FuncAbs('src', lambda ip, st, a: [(st, g(zr(a[0])))]))
        rhs = v.struct('pf.RHS', Terms=v.list([term(0)]), Denum=v.list([term(1)]))
        m = v.obj('pf.Model', Fields=v.list([v.struct('pf.Field', Data=v.slice('cplx', 'y', N), Name='y')]), RHS=v.list([rhs]), AllSources=v.list([v.list([src])]))
        for s, r in v.call('(*pf.Model).' + meth, m, 0, fn, t):
            v.ensure('length', s, eq(r.len, N))

            def post(k):
                w = C(T[0 if meth == 'GetRHS' else 2](zi(k), t), T[1 if meth == 'GetRHS' else 3](zi(k), t))
                if meth == 'GetRHS':
                    ph = neg(mul(mul(Fraction(2), PI), add(mul(fq(k, 0), px), mul(fq(k, 1), py))))
                    w = w + C(mul(g(zr(t)), ext.cos(ph)), mul(g(zr(t)), ext.sin(ph)))
                return veq(v.get(s, r, k), w)
            v.ensure_all('value at time t', s, N, post)


# ---------------------------------------------------------------- C15

def mean_contract(t, c):
    contract('C15', 'one step keeps the mean of every field without zero-frequency driving (%s, %d fields, %d derived)' % (t, c[0], c[1]),
             ['(*pf.%s).Step' % t])(lambda F: mean(F, t, c))


def mean(F, t, c):
    v = F.new('%s %d fields%s' % (t, c[0], ', filter' if c[3] else ''))
    w = World(v, *c)
    v.assume(band(*[eq(w.fq(0, a), 0) for a in range(w.d)]))
    op, A = w.op, w.A

    def op0(st, key, contents, tt=None):
        r = op(st, key, contents, tt)
        if key.startswith('rhs'):
            CTX.fact(veq(r.sel(0), CZERO))
        return r
    w.op = op0

    def A0(i, tt):
        r = A(i, tt)
        CTX.fact(veq(r.sel(0), CZERO))
        return r
    w.A = A0
    v.assume(eq(w.fil(z3.RealVal(0)), 1))
    o = stepper(v, w, t)
    for s, _ in v.call('(*pf.%s).Step' % t, o, w.model):
        for i in range(c[0]):
            a = w.ft.transform(s, 1, v.content(w.fields[i])).sel(0)
            b = w.ft.transform(s, 1, v.content(w.fields[i], s)).sel(0)
            v.ensure('zero-frequency amplitude of field %d unchanged' % i, s, veq(b, a))


for _t, _c in [('Euler', (1, 1, True, True)), ('Euler', (2, 1, True, False)), ('RK4', (1, 1, True, True)), ('RK4', (2, 0, True, False))]:
    mean_contract(_t, _c)
