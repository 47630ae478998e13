"""C17: terms that are derivatives of an energy"""
from contracts.common import *
from contracts.c09_elastic import tensor, T, I3
from contracts.c11_equilibrium import freqfn
from contracts.c16_operators import Op, grid_freq
from contracts.c19_model import brick, get

ZERO, ONE, TWO, HALF = Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2)


def peak(v, i):
    p = {n: v.real('%s%d' % (n, i)) for n in ('density', 'location', 'width')}
    n = v.int('planes%d' % i, 1)
    v.assume(band(gt(p['density'], ZERO), gt(p['width'], ZERO)))
    return v.struct('pfc.Peak', PlaneDensity=p['density'], Location=p['location'], Width=p['width'], NumPlanes=n), p, n


@contract('C17', 'the pair correlation is the largest damped peak', ['(pfc.ReciprocalSpacePairCorrelation).Eval'])
def correlation(F):
    for n in range(4):
        v = F.new('%d peaks' % n)
        ps = [peak(v, i) for i in range(n)]
        T0, k = v.real('T'), v.real('k')
        o = v.struct('pfc.ReciprocalSpacePairCorrelation', EffTemp=T0, Peaks=v.list([p[0] for p in ps]) if n else NILSLICE)
        vals = []
        for _, p, m in ps:
            a = neg(rdiv(mul(mul(T0, T0), mul(k, k)), mul(mul(TWO, p['density']), toreal(m))))
            z = rdiv(sub(k, p['location']), p['width'])
            vals.append(mul(ext.exp(a), ext.exp(neg(mul(HALF, mul(z, z))))))
        for s, r in v.call('(pfc.ReciprocalSpacePairCorrelation).Eval', o, k):
            v.ensure('not below a peak', s, band(ge(r, ZERO), *[ge(r, x) for x in vals]))
            v.ensure('a peak or zero', s, bor(eq(r, ZERO) if not n else False, *[eq(r, x) for x in vals]))
    # any number of peaks
    v = F.new('any number of peaks')
    n = v.int('n', 0)
    g = [z3.Function('p_%s' % x, INT, REAL) for x in ('density', 'location', 'width')]
    npl = z3.Function('p_planes', INT, INT)
    T0, k = v.real('T'), v.real('k')

    def pk(i):
        i = zi(i)
        CTX.fact(band(gt(g[0](i), ZERO), gt(g[2](i), ZERO), ge(npl(i), 1)))
        return v.struct('pfc.Peak', PlaneDensity=g[0](i), Location=g[1](i), Width=g[2](i), NumPlanes=npl(i))
    peaks = Slice(v.ip.alloc(v.st, LamArr(pk)), 0, n)

    def val(i):
        i = zi(i)
        CTX.fact(band(gt(g[0](i), ZERO), gt(g[2](i), ZERO), ge(npl(i), 1)))
        a = neg(rdiv(mul(mul(T0, T0), mul(k, k)), mul(mul(TWO, g[0](i)), toreal(npl(i)))))
        z = rdiv(sub(k, g[1](i)), g[2](i))
        return mul(ext.exp(a), ext.exp(neg(mul(HALF, mul(z, z)))))
    top = SpecRec('top', lambda: ZERO, lambda t, r: ite(gt(val(t), r), val(t), r), REAL, 0, lambda ip: [()])
    v.ip.specfns += [top]
    o = v.struct('pfc.ReciprocalSpacePairCorrelation', EffTemp=T0, Peaks=peaks)
    j = v.int('j', 0)
    for s, r in v.call('(pfc.ReciprocalSpacePairCorrelation).Eval', o, k):
        v.ensure('running maximum', s, lambda: eq(r, top.at(n)))
        v.induct('maximum', lambda t: band(ge(top.at(t), ZERO), imp(band(le(t, n), ge(j, 0), lt(j, t)), ge(top.at(t), val(j)))), [n], st=s)
        v.ensure('not below a peak', s, lambda: band(ge(r, ZERO), imp(lt(j, n), ge(r, val(j)))))
    # a running maximum of any sequence is zero or one of its members
    v = F.new('running maximum (lemma)')
    n = v.int('n', 0)
    X = z3.Function('X', INT, REAL)
    x = lambda i: X(zi(i))
    top = SpecRec('top', lambda: ZERO, lambda t, r: ite(gt(x(t), r), x(t), r), REAL, 0, lambda ip: [()])
    where = SpecRec('where', lambda: -1, lambda t, q: ite(gt(x(t), top.at(t)), t, q), INT, 0, lambda ip: [()])
    v.induct('attained', lambda t: ite(lt(where.at(t), 0), eq(top.at(t), ZERO), band(lt(where.at(t), t), eq(top.at(t), x(where.at(t))))), [n])
    v.ensure('a member or zero', v.st, lambda: bor(eq(top.at(n), ZERO), band(ge(where.at(n), 0), lt(where.at(n), n), eq(top.at(n), x(where.at(n))))))


class Pair:
    def __init__(self, v, d, N=None):
        self.v, self.o = v, Op(v, d, N)
        CORR = z3.Function('corr', REAL, REAL)
        pcf = v.struct('pfc.ReciprocalSpacePairCorrelation', EffTemp=v.real('T'), Peaks=NILSLICE)
        self.P = v.real('P')
        self.pcf = pcf

        def ev(ip, st, a):
            ip.oblige(st, 'the pair correlation of the term', veq(a[0], pcf))
            return [(st, CORR(CTX_canon(a[1])))]
        if not v.summary('(pfc.ReciprocalSpacePairCorrelation).Eval', ev):
            raise Unsupported('ReciprocalSpacePairCorrelation.Eval is gone')
        self.CORR = CORR

    def corr(self, k):
        return self.CORR(CTX_canon(mul(mul(TWO, PI), ext.sqrt(self.o.f2(k)))))

    def obj(self, lap):
        f = dict(PairCorrFunc=self.pcf, Field='y', Prefactor=self.P, Laplacian=lap)
        return self.v.struct('pf.PairCorrlationTerm', **f)

    def factor(self, k, lap):
        w = neg(mul(self.P, self.corr(k)))
        return mul(w, self.o.lap(k)) if lap else w


def CTX_canon(x):
    return z3.simplify(zr(x), som=True)


@contract('C17', 'the pair correlation terms multiply with -P C(2 pi |f|), with the laplacian if asked for',
          ['(*pf.PairCorrlationTerm).Construct', '(*pf.ExplicitPairCorrelationTerm).Construct'])
def pairterm(F):
    for d in (2, 3):
        for lap in (False, True):
            v = F.new('%dD%s' % (d, ', laplacian' if lap else ''))
            p = Pair(v, d)
            o = p.o
            y = v.array('cplx', 'y')
            obj = Ptr(v.ip.alloc(v.st, p.obj(lap)))
            st, term = v.call1('(*pf.PairCorrlationTerm).Construct', obj, o.bricks(y=y))
            for s, x in o.run(term, st):
                v.ensure_all('implicit', s, o.N, lambda k: veq(v.get(s, x, k), C(p.factor(k, lap), ZERO)))
            ex = Ptr(v.ip.alloc(st, v.struct('pf.ExplicitPairCorrelationTerm', PairCorrlationTerm=p.obj(lap))))
            st, term = v.call1('(*pf.ExplicitPairCorrelationTerm).Construct', ex, o.bricks(y=y), st=st)
            for s, x in o.run(term, st):
                v.ensure_all('explicit', s, o.N, lambda k: veq(v.get(s, x, k), y.sel(k) * C(p.factor(k, lap), ZERO)))


@contract('C17', 'the pair correlation energy is minus half the sum of y times P C * y', ['(*pf.PairCorrlationTerm).GetEnergy'])
def pairenergy(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        dom = Domain(v, d)
        D = dom.D
        p = Pair(v, d, dom.N)
        o = p.o
        y = v.array('cplx', 'y')
        obj = Ptr(v.ip.alloc(v.st, p.obj(False)))
        for s, r in v.call('(*pf.PairCorrlationTerm).GetEnergy', obj, o.bricks(y=y), o.FT, v.list(D)):
            A = o.F(s, y)
            B = o.I(s, LamArr(lambda k: A.sel(k) * C(mul(p.P, p.corr(k)), ZERO)))
            e = SpecSum('e', lambda t: (B.sel(t) * y.sel(t)).re)
            v.ip.specsums += [e]
        for s, r in v.call('(*pf.PairCorrlationTerm).GetEnergy', obj, o.bricks(y=y), o.FT, v.list(D)):
            v.ensure('energy', s, lambda: eq(r, neg(mul(HALF, e.at(o.N)))))


@contract('C17', 'ideal mixture: the term is the derivative of the energy', ['(*pfc.IdealMix).Eval', '(*pfc.IdealMix).Deriv', '(*pf.IdealMixtureTerm).Eval',
          '(*pf.IdealMixtureTerm).ConstructLinear', '(*pf.IdealMixtureTerm).ConstructNonLinear', '(*pf.IdealMixtureTerm).DerivedField', '(*pf.IdealMixtureTerm).GetEnergy'])
def ideal(F):
    v = F.new('polynomial')
    c3, c4, n = v.real('C3'), v.real('C4'), v.real('n')
    p2 = mul(n, n)
    p3, p4 = mul(p2, n), mul(p2, p2)
    E = lambda n: add(sub(mul(HALF, mul(n, n)), mul(rdiv(c3, Fraction(6)), mul(n, mul(n, n)))), mul(rdiv(c4, Fraction(12)), mul(mul(n, n), mul(n, n))))
    D = lambda n: add(sub(n, mul(mul(HALF, c3), mul(n, n))), mul(rdiv(c4, Fraction(3)), mul(n, mul(n, n))))
    im = v.obj('pfc.IdealMix', C3=c3, C4=c4)
    for s, r in v.call('(*pfc.IdealMix).Eval', im, n):
        v.ensure('n^2/2 - C3 n^3/6 + C4 n^4/12', s, eq(r, E(n)))
    for s, r in v.call('(*pfc.IdealMix).Deriv', im, n):
        v.ensure('its derivative', s, eq(r, D(n)))
    for d in (2, 3):
        for lap in (False, True):
            v = F.new('%dD term%s' % (d, ', laplacian' if lap else ''))
            o = Op(v, d)
            k = v.int('node', 0)
            c3, c4, P0 = v.real('C3'), v.real('C4'), v.real('P')
            term = v.obj('pf.IdealMixtureTerm', IdealMix=v.struct('pfc.IdealMix', C3=c3, C4=c4), Field='y', Prefactor=P0, Laplacian=lap)
            st, m0 = v.call1('pf.NewModel')
            m = Ptr(v.ip.alloc(st, m0))
            y = v.slice('cplx', 'y', o.N)
            y0 = v.content(y)
            st, x = v.call1('pf.NewField', 'y', o.N, y, st=st)
            st, _ = v.call1('(*pf.Model).AddField', m, x, st=st)
            bricks = v.load(st, m, 'Bricks')
            v.ip.focus(st)
            st0 = st.copy()
            st0.assume(lt(k, o.N))
            for s, r in v.call('(*pf.IdealMixtureTerm).Eval', term, k, bricks, st=st0):
                v.ensure('function value: derivative of the energy', s, veq(r, C(mul(P0, D(y0.sel(k).re)), ZERO)))
            e, e1 = SpecSum('e', lambda t: mul(P0, E(y0.sel(t).re))), SpecSum('e1', lambda t: E(y0.sel(t).re))
            v.ip.specsums += [e, e1]
            v.induct('constant factor', lambda t: eq(e.at(t), mul(P0, e1.at(t))), [o.N], st=st)
            for s, r in v.call('(*pf.IdealMixtureTerm).GetEnergy', term, bricks, o.N, st=st.copy()):
                v.ensure('energy: sum over the nodes', s, lambda: eq(r, e.at(o.N)))
            st, df = v.call1('(*pf.IdealMixtureTerm).DerivedField', term, o.N, bricks, st=st)
            st, _ = v.call1('(*pf.Model).RegisterDerivedField', m, df, st=st)
            st, _ = v.call1('(*pf.Model).SyncDerivedFields', m, st=st)
            ds = v.load(st, m, 'DerivedFields')
            v.ensure('one derived field', st, eq(ds.len, 1))
            dd = v.get(st, ds, 0).f['Data']
            v.ensure_all('derived field: the derivative without its linear part', st, o.N,
                         lambda k: veq(v.get(st, dd, k), C(sub(D(y0.sel(k).re), y0.sel(k).re), ZERO)))
            v.frame_slice('field unchanged', st, y)
            Z = v.array('cplx', 'Z')
            v.ip.write_ref(st, dd.ref, Z)
            mult = lambda k: C(mul(P0, o.lap(k)) if lap else P0, ZERO)
            st, t1 = v.call1('(*pf.IdealMixtureTerm).ConstructLinear', term, bricks, st=st)
            for s, x in o.run(t1, st):
                v.ensure_all('linear part', s, o.N, lambda k: veq(v.get(s, x, k), mult(k)))
            st, t2 = v.call1('(*pf.IdealMixtureTerm).ConstructNonLinear', term, v.load(st, m, 'Bricks'), st=st)
            for s, x in o.run(t2, st):
                v.ensure_all('non-linear part', s, o.N, lambda k: veq(v.get(s, x, k), Z.sel(k) * mult(k)))


@contract('C17', 'interpolation 3x^2 - 2x^3 and its derivative', ['pf.Indicator', 'pf.IndicatorDeriv'])
def indicator(F):
    v = F.new()
    x = v.real('x')
    for s, r in v.call('pf.Indicator', x):
        v.ensure('3x^2 - 2x^3', s, eq(r, sub(mul(Fraction(3), mul(x, x)), mul(TWO, mul(x, mul(x, x))))))
    for s, r in v.call('pf.IndicatorDeriv', x):
        v.ensure('6x - 6x^2', s, eq(r, mul(Fraction(6), sub(x, mul(x, x)))))


def elast(d):
    @contract('C17', 'the elastic driving force is A:strain H\' - 2 e0 H H\' (%dD)' % d,
              ['(*pf.HomogeneousModulusLinElast).Construct', '(*pf.HomogeneousModulusLinElast).Freq', '(*pf.HomogeneousModulusLinElast).Force', '(*pf.HomogeneousModulusLinElast).OnStepFinished'])
    def run(F):
        v = F.new()
        N = v.int('N', 1)
        fn, fq = freqfn(v, d)
        fr = lambda k, a: fq(k, a) if a < d else ZERO
        ft = FTOp(v, N, fn)
        idx = lambda i, j, a, b: 'C_%d%d%d%d' % (min(i, j), max(i, j), min(a, b), max(a, b))
        data = v.slice('real', 'C', 81, content=ListArr([v.real(idx(i, j, a, b)) for i in I3 for j in I3 for a in I3 for b in I3]))
        C0 = T(v, v.st, data)
        m, E = v.dense(3, 3, entries=[v.real('e_%d%d' % (min(i, j), max(i, j))) for i in I3 for j in I3])
        y = v.slice('real', 'phi', N)
        Y = v.array('cplx', 'Y')
        U = [v.array('cplx', 'u%d' % c) for c in I3]
        FE = [v.array('cplx', 'b%d' % c) for c in I3]
        def sig(i, j):
            w = ZERO
            for a in I3:
                for b in I3:
                    w = add(w, mul(C0(i, j, a, b), E[a][b]))
            return w
        S = [[sig(i, j) for j in I3] for i in I3]
        e0 = ZERO
        for i in I3:
            for j in I3:
                e0 = add(e0, mul(mul(HALF, E[i][j]), S[i][j]))
        st, ef = v.call1('elasticity.NewEffectiveForceFromMisfit', v.struct('elasticity.Rank4', Data=data), m)
        disp, U = v.table('cplx', 'u', N, 3)
        H = lambda k: sub(mul(Fraction(3), mul(p(k), p(k))), mul(TWO, mul(p(k), mul(p(k), p(k)))))
        dH = lambda k: mul(Fraction(6), sub(p(k), mul(p(k), p(k))))
        p = lambda k: v.get(v.st, y, k)

        def disps(ip, s, a):
            ip.oblige(s, 'elastic tensor of the term', veq(ip.load(s, a[2].v).f['Data'], data))
            ip.oblige(s, 'one force per node', eq(a[0].len, N))
            FH = ft.transform(s, 1, LamArr(lambda k: C(H(k), ZERO)))
            for c in I3:
                def force(k):
                    w = ZERO
                    for j in range(d):
                        w = sub(w, mul(mul(mul(TWO, PI), fr(k, j)), S[c][j]))
                    return veq(v.get(s, v.get(s, a[0], k), c), C(ZERO, w) * FH.sel(k) if c < d else CZERO)
                v.ensure_all('effective force [%d]' % c, s, N, force)
            k = ip.fresh('k', INT)
            (s2, f), = ip.call(s.copy(), a[1], [k])
            ip.focus(s)
            ip.oblige(s, 'frequencies of the grid', band(eq(f.len, 3), *[eq(ip.get(s2, f, c), fr(k, c)) for c in I3]))
            return [(s, disp)]
        h = v.struct('pf.HomogeneousModulusLinElast', FieldName='y', Field=y, Misfit=m, EffForce=ef, MatProp=v.struct('elasticity.Rank4', Data=data),
                     Disps=FuncAbs('disps', disps), FT=ft.iface(), Dim=d, N=N)
        hp = Ptr(v.ip.alloc(st, h))
        st, term = v.call1('(*pf.HomogeneousModulusLinElast).Construct', hp, MapRef(v.ip.alloc(st, MapV([]))), st=st)
        out = v.slice('cplx', 'old', N)
        st.mem[out.ref.oid] = v.st.mem[out.ref.oid]
        v.ip.focus(st)
        for s, _ in v.ip.call(st, term, [fn, v.real('t'), out]):
            nyq = lambda x: ite(lt(absv(sub(absv(x), HALF)), Fraction(1, 10**10)), ZERO, x)

            def part(i, j):
                a = LamArr(lambda k: C(ZERO, mul(PI, nyq(fr(k, j)))) * U(k, i) + C(ZERO, mul(PI, nyq(fr(k, i)))) * U(k, j))
                x = ft.transform(s, -1, a)
                n = toreal(N)
                z = LamArr(lambda k: C(mul(rdiv(x.sel(k).re, n), dH(k)), mul(rdiv(x.sel(k).im, n), dH(k))))
                return ft.transform(s, 1, z)
            G = {(i, j): part(i, j) for i in range(d) for j in range(i, d)}
            HH = ft.transform(s, 1, LamArr(lambda k: C(mul(H(k), dH(k)), ZERO)))

            def want(k):
                w = C(ZERO, ZERO)
                for i in range(d):
                    for j in range(d):
                        w = w + G[min(i, j), max(i, j)].sel(k) * C(S[i][j], ZERO)
                return w - HH.sel(k) * C(mul(TWO, e0), ZERO)
            v.ensure_all('driving force', s, N, lambda k: veq(v.get(s, out, k), want(k)))
            v.frame_slice('field copy unchanged', s, y)
        for s, _ in v.call('(*pf.HomogeneousModulusLinElast).OnStepFinished', hp, v.real('t2'), MapRef(v.ip.alloc(st, MapV([('y', IfaceAbs('brick', {'Get': lambda ip, s, a: [(s, Y.sel(a[1]))]}))]))), st=st.copy()):
            v.ensure_all('copy of the field', s, N, lambda k: eq(v.get(s, y, k), Y.sel(k).re))


for _d in (2, 3):
    elast(_d)
