"""C16: differential operator terms"""
from contracts.common import *
from contracts.c11_equilibrium import freqfn
from contracts.c19_model import brick, get

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)
HALF = Fraction(1, 2)
FAR = Fraction(1, 10**7)


def grid_freq(fs):
    """a frequency of a grid with fewer than 5 million nodes per axis: in (-1/2, 1/2], exactly or clearly not 1/2"""
    return band(*[band(gt(f, neg(HALF)), le(f, HALF), bor(eq(f, HALF), le(f, sub(HALF, FAR))), ge(f, add(neg(HALF), FAR))) for f in fs])


class Op:
    def __init__(self, v, d, N=None):
        self.v, self.d = v, d
        self.N = v.int('N', 1) if N is None else N
        self.fn, self.fq = freqfn(v, d, grid_freq)
        self.ft = FTOp(v, self.N, self.fn)
        self.FT = self.ft.iface()

    def F(self, st, a):
        return self.ft.transform(st, 1, a)

    def I(self, st, a):
        """normalised inverse"""
        r = self.ft.transform(st, -1, a)
        n = toreal(self.N)
        return LamArr(lambda k: C(rdiv(r.sel(k).re, n), rdiv(r.sel(k).im, n)))

    def f2(self, k):
        r = ZERO
        for a in range(self.d):
            r = add(r, mul(self.fq(k, a), self.fq(k, a)))
        return r

    def fnyq(self, k, a):
        f = self.fq(k, a)
        CTX.fact(grid_freq([f]))
        return ite(eq(f, HALF), ZERO, f)

    def lap(self, k):
        return neg(mul(mul(Fraction(4), mul(PI, PI)), self.f2(k)))

    def ik(self, f):
        return C(ZERO, mul(mul(TWO, PI), f))

    def grad(self, st, arr, a, nyq=False):
        """real-space derivative along axis a of a real-space array; odd derivative dropped at the Nyquist frequency"""
        A = self.F(st, arr)
        return self.I(st, LamArr(lambda k: A.sel(k) * self.ik(self.fq(k, a) if nyq else self.fnyq(k, a))))

    def brick(self, arr):
        return IfaceAbs('brick', {'Get': lambda ip, st, a: (ip.oblige(st, 'node of the domain', band(ge(a[1], 0), lt(a[1], self.N))), [(st, arr.sel(a[1]))])[1]})

    def bricks(self, **kw):
        return MapRef(self.v.ip.alloc(self.v.st, MapV([(k, self.brick(x)) for k, x in kw.items()])))

    def run(self, term, st, t=None):
        """evaluate a term into a field of arbitrary old content"""
        v = self.v
        out = v.slice('cplx', 'old', self.N)
        st.mem[out.ref.oid] = v.st.mem[out.ref.oid]
        v.ip.focus(st)
        return [(s, out) for s, _ in v.ip.call(st.copy(), term, [self.fn, t if t is not None else v.real('t'), out])]


def one(outs):
    if len(outs) != 1:
        raise Unsupported('%d outcomes' % len(outs))
    return outs[0]


@contract('C16', 'the laplacian of order n multiplies with (-4 pi^2 f^2)^n', ['(pf.LaplacianN).Eval'])
def laplacian(F):
    for d in (2, 3):
        for p in (0, 1, 2, 3, 4):
            v = F.new('%dD, power %d' % (d, p))
            o = Op(v, d)
            y = v.slice('cplx', 'y', o.N)
            for s, r in v.call('(pf.LaplacianN).Eval', v.struct('pf.LaplacianN', Power=p), o.fn, y):
                def want(k):
                    w = ONE
                    for _ in range(p):
                        w = mul(w, o.lap(k))
                    return v.get(v.st, y, k) * C(w, ZERO)
                v.ensure('returns the passed data', s, veq(r, y))
                v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), want(k)))


@contract('C16', 'gradients are spectral derivatives, without the odd Nyquist part unless asked for', ['(*pf.GradientCalculator).Calculate', '(*pf.GradientCalculator).ToDerivedField'])
def gradient(F):
    for d in (2, 3):
        for keep in (False, True):
            for same in (False, True):
                v = F.new('%dD%s%s' % (d, ', with Nyquist' if keep else '', ', in place' if same else ''))
                o = Op(v, d)
                y = v.slice('cplx', 'y', o.N)
                x = y if same else v.slice('cplx', 'x', o.N)
                for c in range(d):
                    g = v.obj('pf.GradientCalculator', FT=o.FT, Comp=c, KeepNyquist=keep)
                    for s, _ in v.call('(*pf.GradientCalculator).Calculate', g, y, x):
                        w = o.grad(s, v.content(y), c, keep)
                        v.ensure_all('derivative along axis %d' % c, s, o.N, lambda k: veq(v.get(s, x, k), w.sel(k)))
                        if not same:
                            v.frame_slice('input unchanged', s, y)
    v = F.new('as a derived field')
    o = Op(v, 2)
    a = v.array('cplx', 'y')
    g = v.obj('pf.GradientCalculator', FT=o.FT, Comp=1, KeepNyquist=False)
    for s, r in v.call('(*pf.GradientCalculator).ToDerivedField', g, 'name', o.N, o.brick(a)):
        v.ensure('name and size', s, band(r.f['Name'] == 'name', eq(r.f['Data'].len, o.N)))
        for s2, _ in v.ip.call(s.copy(), r.f['Calc'], [r.f['Data']]):
            w = o.grad(s2, a, 1)
            v.ensure_all('derivative of the brick', s2, o.N, lambda k: veq(v.get(s2, r.f['Data'], k), w.sel(k)))


@contract('C16', 'TensorialHessian is K_jk times the second derivatives', ['(*pf.TensorialHessian).Construct', '(*pf.TensorialHessian).GetCoeff'])
def hessian(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        o = Op(v, d)
        K = v.slice('real', 'K', d * d)
        th = v.obj('pf.TensorialHessian', Field='y', K=K)
        st, term = v.call1('(*pf.TensorialHessian).Construct', th, o.bricks())
        for s, y in o.run(term, st):
            def want(k):
                r = ZERO
                for i in range(d):
                    for j in range(d):
                        r = add(r, mul(v.get(v.st, K, i * d + j), mul(o.fq(k, i), o.fq(k, j))))
                return C(neg(mul(mul(Fraction(4), mul(PI, PI)), r)), ZERO)
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), want(k)))


@contract('C16', 'WeightedLaplacian is the transform of F times the laplacian', ['(*pf.WeightedLaplacian).Construct'])
def weighted(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        o = Op(v, d)
        c, p = v.array('cplx', 'c'), v.array('cplx', 'p')
        w = v.obj('pf.WeightedLaplacian', Field='conc', PreFactor='mob', FT=o.FT)
        st, term = v.call1('(*pf.WeightedLaplacian).Construct', w, o.bricks(mob=p, conc=c))
        for s, y in o.run(term, st):
            L = o.I(s, LamArr(lambda k: c.sel(k) * C(o.lap(k), ZERO)))
            M = o.I(s, p)
            R = o.F(s, LamArr(lambda k: L.sel(k) * M.sel(k)))
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), R.sel(k)))


@contract('C16', 'SquaredGradient is the transform of the squared gradient', ['(*pf.SquaredGradient).Construct'])
def squared(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        o = Op(v, d)
        c, fac = v.array('cplx', 'c'), v.real('factor')
        w = v.obj('pf.SquaredGradient', Field='u', Factor=fac, FT=o.FT)
        st, term = v.call1('(*pf.SquaredGradient).Construct', w, o.bricks(u=c))
        for s, y in o.run(term, st):
            gs = [o.I(s, (lambda a: LamArr(lambda k: c.sel(k) * o.ik(o.fnyq(k, a))))(a)) for a in range(d)]
            R = [o.F(s, (lambda g: LamArr(lambda k: g.sel(k) * g.sel(k)))(g)) for g in gs]

            def want(k):
                r = C(ZERO, ZERO)
                for x in R:
                    r = r + x.sel(k) * C(fac, ZERO)
                return r
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), want(k)))


class Mod:
    """a real model with fields holding arbitrary data"""

    def __init__(self, v, o, names):
        self.v, self.o, self.names = v, o, names
        st, m0 = v.call1('pf.NewModel')
        self.m = Ptr(v.ip.alloc(st, m0))
        self.y = {}
        for f in names:
            self.y[f] = v.slice('cplx', f, o.N)
            st, x = v.call1('pf.NewField', f, o.N, self.y[f], st=st)
            st, _ = v.call1('(*pf.Model).AddField', self.m, x, st=st)
        self.st = st

    def sync(self, st):
        """new arbitrary data, derived fields synchronised, everything transformed"""
        v, o = self.v, self.o
        new = {f: v.array('cplx', 'z_' + f) for f in self.names}
        for f in self.names:
            v.ip.write_ref(st, self.y[f].ref, new[f])
        st, _ = v.call1('(*pf.Model).SyncDerivedFields', self.m, st=st)
        for f in self.names:
            v.ensure_all('field %s not changed by the update' % f, st, o.N, lambda k: veq(v.get(st, self.y[f], k), new[f].sel(k)))
            v.ip.write_ref(st, self.y[f].ref, o.F(st, new[f]))
        ds = v.load(st, self.m, 'DerivedFields')
        for i in range(ds.len):
            sl = v.get(st, ds, i).f['Data']
            v.ip.write_ref(st, sl.ref, o.F(st, v.ip.read_ref(st, sl.ref)))
        return st, new

    def term(self, st, typ, obj):
        v = self.v
        return v.call1('(*pf.%s).Construct' % typ, obj, v.load(st, self.m, 'Bricks'), st=st)


def adv(d):
    @contract('C16', 'Advection is minus the velocity times the gradient (%dD)' % d, ['(*pf.Advection).PrepareModel', '(*pf.Advection).Construct', '(*pf.Model).RegisterDerivedField'])
    def run(F):
        v = F.new()
        o = Op(v, d)
        vel = ['vx', 'vy', 'vz'][:d]
        M = Mod(v, o, ['conc'] + vel)
        ad = v.obj('pf.Advection', Field='conc', VelocityFields=v.list(vel))
        st, _ = v.call1('(*pf.Advection).PrepareModel', ad, o.N, M.m, o.FT, st=M.st)
        st, new = M.sync(st)
        st, term = M.term(st, 'Advection', ad)
        for s, y in o.run(term, st):
            gs = [o.grad(s, new['conc'], a) for a in range(d)]

            def prod(k):
                r = C(ZERO, ZERO)
                for a in range(d):
                    r = r + new[vel[a]].sel(k) * gs[a].sel(k)
                return r
            R = o.F(s, LamArr(prod))
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), C(ZERO, ZERO) - R.sel(k)))


def divgrad(d):
    @contract('C16', 'DivGrad is the divergence of F times the gradient (%dD)' % d, ['(*pf.DivGrad).PrepareModel', '(*pf.DivGrad).Construct'])
    def run(F):
        v = F.new()
        o = Op(v, d)
        M = Mod(v, o, ['conc', 'eta'])
        G = [z3.Function('G_%s' % p, INT, REAL, REAL, REAL, REAL, REAL) for p in ('re', 'im')]
        g = lambda k, a, b: C(*[h(zi(k), zr(a.re), zr(a.im), zr(b.re), zr(b.im)) for h in G])

        def fn(ip, st, a):
            ip.oblige(st, 'function gets the bricks of the model', veq(a[1], v.load(st, M.m, 'Bricks')))
            return [(st, g(a[0], get(v, st, brick(v, st, M.m, 'conc'), a[0], o.N), get(v, st, brick(v, st, M.m, 'eta'), a[0], o.N)))]
        dg = v.obj('pf.DivGrad', Field='eta', F=FuncAbs('F', fn))
        st, _ = v.call1('(*pf.DivGrad).PrepareModel', dg, o.N, M.m, o.FT, st=M.st)
        st, new = M.sync(st)
        st, term = M.term(st, 'DivGrad', dg)
        for s, y in o.run(term, st):
            gs = [o.grad(s, new['eta'], a) for a in range(d)]
            R = [o.F(s, (lambda x: LamArr(lambda k: g(k, new['conc'].sel(k), new['eta'].sel(k)) * x.sel(k)))(x)) for x in gs]

            def want(k):
                r = C(ZERO, ZERO)
                for a in range(d):
                    r = r + o.ik(o.fq(k, a)) * R[a].sel(k)
                return r
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), want(k)))


for _d in (2, 3):
    adv(_d)
    divgrad(_d)
