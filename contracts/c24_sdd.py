"""C24: shrinking dimer dynamics"""
from contracts.common import *
from contracts.c12_steppers import World

ZERO, ONE, TWO, HALF = Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2)
CZ = C(ZERO, ZERO)


def conj(z):
    return C(z.re, neg(z.im))


def R(x):
    return C(x, ZERO)


class CSum:
    """complex sum of f over the indices below t"""

    def __init__(self, v, name, f):
        self.s = [SpecSum(name + p, g) for p, g in (('re', lambda k: f(k).re), ('im', lambda k: f(k).im))]
        v.ip.specsums += self.s
        self.f = f

    def at(self, t):
        return C(self.s[0].at(t), self.s[1].at(t))


def neg_(z):
    return C(neg(z.re), neg(z.im))


def linear(v, what, c, parts, N):
    """sum of sum_i coef_i f_i(k) == sum_i coef_i (sum of f_i): the summands are shown equal for an arbitrary index,
    the step from there to the sums is the linearity of finite sums (the coefficients do not depend on the index)"""
    k = v.int('k', 0)

    def tot(g):
        t = CZ
        for a, f in parts:
            t = t + a * g(f)
        return t
    v.ensure(what + ': summands', v.st, lambda: veq(c.f(k), tot(lambda f: f.f(k))))
    v.assume(veq(c.at(N), tot(lambda f: f.at(N))))


def sdd(v, dt=None, **kw):
    return v.obj('pf.SDD', Dt=v.real('dt') if dt is None else dt, **kw)


@contract('C24', 'householder: data minus sigma times its part along the orientation', ['(*pf.SDD).householder'])
def householder(F):
    v = F.new()
    N, n = v.int('N', 1), v.int('nodes', 1)
    sg = v.real('sigma')
    x, o = v.slice('cplx', 'x', N), v.slice('cplx', 'v', N)
    g = CSum(v, 'g', lambda k: v.get(v.st, x, k) * conj(v.get(v.st, o, k)))
    for s, _ in v.call('(*pf.SDD).householder', sdd(v), x, o, sg, n):
        v.ensure_all('value', s, N, lambda k: veq(v.get(s, x, k), v.get(v.st, x, k) - v.get(v.st, o, k) * R(rdiv(sg, toreal(n))) * g.at(N)))
        v.frame_slice('orientation unchanged', s, o)
    # with a normalised orientation (sum |v|^2 = nodes): sigma 1 projects on the orthogonal complement, sigma 2 reflects
    v = F.new('orthogonality')
    N = v.int('N', 1)
    x, o = v.array('cplx', 'x'), v.array('cplx', 'v')
    n = toreal(N)
    for sg in (ONE, TWO):
        dot = lambda k: x.sel(k) * conj(o.sel(k))
        a = CSum(v, 'a%s' % sg, dot)
        b = CSum(v, 'b%s' % sg, lambda k: o.sel(k) * conj(o.sel(k)))
        A = a.at(N)
        h = lambda k: x.sel(k) - o.sel(k) * R(rdiv(sg, n)) * A
        c = CSum(v, 'c%s' % sg, lambda k: h(k) * conj(o.sel(k)))
        linear(v, 'linear %s' % sg, c, [(C(ONE, ZERO), a), (neg_(R(rdiv(sg, n)) * A), b)], N)
        s = v.st.copy()
        s.assume(veq(b.at(N), R(n)))
        v.ensure('component along the orientation, sigma %s' % sg, s, lambda: veq(c.at(N), A * R(sub(ONE, sg))))


def sherman(v, N, dt, A, V, b):
    """the solution x of (I - dt (I - 2 V V^H / N) A) x = b, by the Sherman-Morrison formula"""
    n = toreal(N)
    inv = lambda k: C(ONE, ZERO) / (C(ONE, ZERO) - R(dt) * A.sel(k))
    w = lambda k: R(TWO) * A.sel(k) * R(dt) * conj(V.sel(k)) / R(n)
    d = CSum(v, 'sd', lambda k: V.sel(k) * inv(k) * w(k))
    s = CSum(v, 'ss', lambda k: w(k) * inv(k) * b.sel(k))
    x = LamArr(lambda k: inv(k) * b.sel(k) - inv(k) * V.sel(k) * s.at(N) / (C(ONE, ZERO) + d.at(N)))
    return x, inv, w, d, s


@contract('C24', 'the linear part is inverted exactly', ['(*pf.SDD).householderDenum', '(*pf.diagonalShermannMorrison).dot'])
def denominator(F):
    v = F.new('formula')
    N, dt, sg = v.int('N', 1), v.real('dt'), TWO
    A, V, b = v.slice('cplx', 'A', N), v.slice('cplx', 'v', N), v.slice('cplx', 'b', N)
    st, r = v.call1('(*pf.SDD).householderDenum', sdd(v, dt), A, V, sg)
    x, inv, w, d, s_ = sherman(v, N, dt, v.content(A), v.content(V), v.content(b))
    p = Ptr(v.ip.alloc(st, r))
    v.ip.focus(st)
    for s, _ in v.call('(*pf.diagonalShermannMorrison).dot', p, b, st=st):
        v.ensure_all('solution', s, N, lambda k: veq(v.get(s, b, k), x.sel(k)))
    # that formula solves the equation: x - dt A x + 2 V (V^H A x) dt / N = b
    v = F.new('it solves the equation')
    N, dt = v.int('N', 1), v.real('dt')
    A, V, b = v.array('cplx', 'A'), v.array('cplx', 'v'), v.array('cplx', 'b')
    x, inv, w, d, s_ = sherman(v, N, dt, A, V, b)
    nz = lambda z: bor(bnot(eq(z.re, ZERO)), bnot(eq(z.im, ZERO)))
    e = CSum(v, 'e', lambda k: w(k) * x.sel(k))
    den = C(ONE, ZERO) + d.at(N)
    v.assume(nz(den))
    Q = v.cplx('Q')  # the quotient
    v.assume(veq(Q * den, s_.at(N)))
    xq = lambda k: inv(k) * b.sel(k) - inv(k) * V.sel(k) * Q
    eq_ = CSum(v, 'eq', lambda k: w(k) * xq(k))
    linear(v, 'w.x', eq_, [(C(ONE, ZERO), s_), (neg_(Q), d)], N)
    v.ensure('w.x is the quotient', v.st, lambda: veq(eq_.at(N), Q))
    k = v.int('k', 0)
    st = v.st.copy()
    one = C(ONE, ZERO) - R(dt) * A.sel(k)
    st.assume(nz(one))
    st.assume(lt(k, N))
    st.assume(veq(eq_.at(N), Q))
    v.ensure('inverse', st, lambda: veq(inv(k) * one, C(ONE, ZERO)))
    q = v.cplx('q')
    xx = q * b.sel(k) - q * V.sel(k) * Q
    at = lambda p_: p_ * b.sel(k) - p_ * V.sel(k) * Q + V.sel(k) * Q
    v.ensure('equation, terms', st, lambda: veq(one * xx + V.sel(k) * Q, at(q * one)))
    v.ensure('equation, with q one = 1', st, lambda: veq(at(C(ONE, ZERO)), b.sel(k)))
    D = v.cplx('D')
    st.assume(nz(D))
    v.ensure('the quotient is unique', st, lambda: veq(Q * D / D, Q))


@contract('C24', 'initial orientation: unit vector along the change, its length the dimer length', ['(*pf.SDD).Init', '(*pf.SDD).SetInitialOrientation'])
def init(F):
    for kind in ('Init, one field', 'Init, two fields', 'SetInitialOrientation'):
        v = F.new(kind)
        if kind == 'SetInitialOrientation':
            N = v.int('N', 1)
            src = v.slice('real', 'w', N)
            d = lambda k: v.get(v.st, src, k)
            fn, args = '(*pf.SDD).SetInitialOrientation', [src]
        elif kind == 'Init, one field':
            N = v.int('N', 1)
            a, b = v.slice('cplx', 'a', N), v.slice('cplx', 'b', N)
            d = lambda k: sub(v.get(v.st, b, k).re, v.get(v.st, a, k).re)
            fs = lambda x: v.list([v.struct('pf.Field', Data=x, Name='y')])
            fn, args = '(*pf.SDD).Init', [fs(a), fs(b)]
        else:
            N = 6
            xs = [[v.slice('cplx', '%s%d' % (c, i), 3) for i in (0, 1)] for c in 'ab']
            d = lambda k: sub(v.get(v.st, xs[1][k // 3], k % 3).re, v.get(v.st, xs[0][k // 3], k % 3).re)
            fs = lambda x: v.list([v.struct('pf.Field', Data=y, Name='y') for y in x])
            fn, args = '(*pf.SDD).Init', [fs(xs[0]), fs(xs[1])]
        o = v.slice('real', 'old', N)
        q = SpecSum('q', lambda k: mul(d(k), d(k)))
        if isinstance(N, int):
            Q = q.at(N)
        else:
            v.ip.specsums += [q]
            Q = q.at(N)
        v.assume(gt(Q, ZERO))
        p = sdd(v, orientation=o, InitDimerLength=v.real('oldlen'))
        for s, _ in v.call(fn, p, *args):
            L = v.load(s, p, 'InitDimerLength')
            v.ensure('length', s, band(ge(L, ZERO), eq(mul(L, L), Q)))
            v.ensure('ready', s, eq(v.load(s, p, 'initialized'), True))
            r = v.load(s, p, 'orientation')
            v.ensure('size', s, eq(r.len, N))
            if isinstance(N, int):
                for k in range(N):
                    v.ensure('component %d' % k, s, lambda: eq(mul(v.get(s, r, k), L), d(k)))
            else:
                v.ensure_all('orientation', s, N, lambda k: eq(mul(v.get(s, r, k), L), d(k)))


@contract('C24', 'dimer length and time', ['(*pf.SDD).DimerLength', '(*pf.SDD).GetTime', '(*pf.SDD).RequiredDimerLengthTime'])
def length(F):
    v = F.new()
    L0, Lm, tau, t, dt = [v.real(x) for x in ('L0', 'Lmin', 'tau', 't', 'dt')]
    n = v.int('n', 0)
    v.assume(gt(L0, ZERO))
    v.assume(gt(tau, ZERO))
    p = v.obj('pf.SDD', InitDimerLength=L0, MinDimerLength=Lm, CurrentStep=n, Dt=dt, TimeConstants=v.struct('pf.SDDTimeConstants', Orientation=v.real('o'), DimerLength=tau))
    for s, r in v.call('(*pf.SDD).DimerLength', p, t):
        e = mul(L0, ext.exp(neg(rdiv(t, tau))))
        v.ensure('length', s, eq(r, ite(lt(e, Lm), Lm, e)))
    for s, r in v.call('(*pf.SDD).GetTime', p):
        v.ensure('time', s, eq(r, mul(toreal(n), dt)))
    L = v.real('L')
    v.assume(gt(L, ZERO))
    v.assume(lt(Lm, L))
    v.assume(le(L, L0))
    for s, r in v.call('(*pf.SDD).RequiredDimerLengthTime', p, L):
        for s2, l in v.call('(*pf.SDD).DimerLength', p, r, st=s):
            v.ensure('the length is reached at the required time', s2, lambda: eq(l, L))


@contract('C24', 'shifting the fields along the dimer', ['(*pf.SDD).ShiftFieldsAlongDimer'])
def shift(F):
    v = F.new('one field')
    N, sc = v.int('N', 1), v.real('scale')
    y, o = v.slice('cplx', 'y', N), v.slice('real', 'o', N)
    fs = v.list([v.struct('pf.Field', Data=y, Name='y')])
    p = sdd(v, orientation=o)
    for s, _ in v.call('(*pf.SDD).ShiftFieldsAlongDimer', p, fs, sc):
        v.ensure_all('shifted', s, N, lambda k: veq(v.get(s, y, k), v.get(v.st, y, k) + R(mul(sc, v.get(v.st, o, k)))))
        v.frame_slice('orientation unchanged', s, o)
    v = F.new('two fields')
    sc = v.real('scale')
    ys, o = [v.slice('cplx', 'y%d' % i, 3) for i in (0, 1)], v.slice('real', 'o', 6)
    fs = v.list([v.struct('pf.Field', Data=y, Name='y') for y in ys])
    p = sdd(v, orientation=o)
    for s, _ in v.call('(*pf.SDD).ShiftFieldsAlongDimer', p, fs, sc):
        for i in (0, 1):
            for k in range(3):
                v.ensure('field %d node %d' % (i, k), s, veq(v.get(s, ys[i], k), v.get(v.st, ys[i], k) + R(mul(sc, v.get(v.st, o, 3 * i + k)))))


@contract('C24', 'norm of the fields', ['(*pf.SDD).FieldNorm'])
def fieldnorm(F):
    sq = lambda z: add(mul(z.re, z.re), mul(z.im, z.im))
    v = F.new('one field')
    N = v.int('N', 0)
    y = v.slice('cplx', 'y', N)
    q = SpecSum('q', lambda k: sq(v.get(v.st, y, k)))
    v.ip.specsums += [q]
    for s, r in v.call('(*pf.SDD).FieldNorm', sdd(v), v.list([v.struct('pf.Field', Data=y, Name='y')])):
        v.ensure('sum of the squares', s, lambda: eq(r, q.at(N)))
        v.frame_slice('field unchanged', s, y)
    v = F.new('two fields')
    ys = [v.slice('cplx', 'y%d' % i, 3) for i in (0, 1)]
    for s, r in v.call('(*pf.SDD).FieldNorm', sdd(v), v.list([v.struct('pf.Field', Data=y, Name='y') for y in ys])):
        t = ZERO
        for y in ys:
            for k in range(3):
                t = add(t, sq(v.get(v.st, y, k)))
        v.ensure('sum of the squares', s, lambda: eq(r, t))


STEPFNS = ['(*pf.SDD).Step', '(*pf.SDD).extractRHS', '(*pf.SDD).fft', '(*pf.SDD).ifft', '(*pf.Model).GetRHS', '(*pf.Model).GetDenum', '(*pf.Model).NumNodes']


def mkstep(nD, implicit):
    @contract('C24', 'one step (single field, %d derived fields, %s)' % (nD, 'implicit part' if implicit else 'explicit'), STEPFNS)
    def step(F):
        v = F.new('%d derived fields, %s' % (nD, 'implicit part' if implicit else 'explicit'))
        w = World(v, 1, nD, implicit)
        N, dt = w.N, w.dt
        v.assume(ge(dt, Fraction(1, 10**6)))
        al, L0, Lm, tl, to = [v.real(x) for x in ('alpha', 'L0', 'Lmin', 'tauL', 'tauO')]
        for x in (L0, tl, to):
            v.assume(gt(x, ZERO))
        for nm, h in (('FFT', w.ft.handler(1)), ('IFFT', w.ft.handler(-1)), ('Freq', lambda ip, st, a: w.fn.handler(ip, st, a))):
            v.summary('(*pfutil.FFTWWrapper).' + nm, h)
        # contracts of the callees, proved above: each is a function of the contents it is given
        def func(key, contents, mk):
            for cs, r in ops.setdefault(key, []):
                if all(w.ft.same(cur[0], a, b) for a, b in zip(contents, cs)):
                    return r
            r = mk('%s_%d' % (key, len(ops[key])))
            ops[key].append((contents, r))
            return r
        ops, cur = {}, [v.st]
        dotf = lambda st, x, o_: (cur.__setitem__(0, st), func('inner', [x, o_], v.cplx))[1]
        smf = lambda st, i_, u_, v_, b_: (cur.__setitem__(0, st), func('sm', [i_, u_, v_, b_], lambda nm: v.array('cplx', nm)))[1]
        ndf = lambda st, x: (cur.__setitem__(0, st), func('norm', [x], v.real))[1]
        house = lambda x, o_, sg, n, g: LamArr(lambda k: x.sel(k) - o_.sel(k) * R(rdiv(sg, n)) * g)

        def h_house(ip, st, a):
            x, o_ = ip.read_ref(st, a[1].ref), ip.read_ref(st, a[2].ref)
            ip.oblige(st, 'householder: sizes', eq(a[1].len, N))
            ip.oblige(st, 'householder: sizes', eq(a[2].len, N))
            ip.write_ref(st, a[1].ref, house(x, o_, a[3], toreal(a[4]), dotf(st, x, o_)))
            return [(st, None)]

        def h_dot(ip, st, a):
            fs = [v.load(st, a[0], f) for f in ('invDiagonal', 'u', 'v')] + [a[1]]
            for f in fs:
                ip.oblige(st, 'dot: sizes', eq(f.len, N))
            ip.write_ref(st, a[1].ref, smf(st, *[ip.read_ref(st, f.ref) for f in fs]))
            return [(st, None)]

        def h_pdot(ip, st, a):
            ip.oblige(st, 'Dot: sizes', eq(a[0].len, a[1].len))
            x, y = ip.read_ref(st, a[0].ref), ip.read_ref(st, a[1].ref)
            ip.oblige(st, 'Dot: of the orientation with itself', w.ft.same(st, x, y))
            return [(st, ndf(st, x))]
        v.summary('(*pf.SDD).householder', h_house)
        v.summary('(*pf.diagonalShermannMorrison).dot', h_dot)
        v.summary('pfutil.Dot', h_pdot)
        v.summary('(*pf.SDD).FieldNorm', lambda ip, st, a: [(st, v.real('fieldnorm'))])
        o = v.slice('real', 'o', N)
        p = v.obj('pf.SDD', Dt=dt, CurrentStep=w.step0, Alpha=al, InitDimerLength=L0, MinDimerLength=Lm, orientation=o, initialized=True,
                  TimeConstants=v.struct('pf.SDDTimeConstants', Orientation=to, DimerLength=tl), ft=v.obj('pfutil.FFTWWrapper'))
        t = mul(toreal(w.step0), dt)
        s0 = v.st.copy()
        v.ip.focus(s0)
        e = mul(L0, ext.exp(neg(rdiv(t, tl))))
        l = ite(lt(e, Lm), Lm, e)
        n = toreal(N)
        y0, oa = v.content(w.fields[0]), v.content(o)
        f1 = lambda a: w.fwd(s0, [a])[0]
        V = f1(LamArr(lambda k: R(oa.sel(k))))
        Yc = f1(y0)
        ends = []
        for sg in (neg(HALF), HALF):
            y = [LamArr((lambda sg: lambda k: y0.sel(k) + R(mul(mul(sg, l), oa.sel(k))))(sg))]
            d = w.derive(s0, y)
            ends.append(w.rhs(s0, w.fwd(s0, y), w.fwd(s0, d), t)[0])
        N1, N2 = ends
        A = w.A(0, t)
        wk = LamArr(lambda k: R(al) * N1.sel(k) + R(sub(ONE, al)) * N2.sel(k))
        H = house(wk, V, TWO, n, dotf(s0, wk, V))
        b = LamArr(lambda k: Yc.sel(k) + R(dt) * H.sel(k))
        inv = LamArr(lambda k: C(ONE, ZERO) / (C(ONE, ZERO) - R(dt) * A.sel(k)))
        vv = LamArr(lambda k: R(TWO) * A.sel(k) * R(dt) * conj(V.sel(k)) / R(n))
        y1 = w.back(s0, [smf(s0, inv, V, vv, b)])[0]
        tq = LamArr(lambda k: N1.sel(k) - N2.sel(k) - A.sel(k) * V.sel(k) * R(l))
        T = w.back(s0, [house(tq, V, ONE, n, dotf(s0, tq, V))])[0]
        u = LamArr(lambda k: sub(oa.sel(k), rdiv(mul(dt, T.sel(k).re), mul(l, to))))
        nn = ndf(s0, u)
        for s, _ in v.call('(*pf.SDD).Step', p, w.model):
            v.ensure_all('field', s, N, lambda k: veq(v.get(s, w.fields[0], k), y1.sel(k)))
            r = v.load(s, p, 'orientation')
            v.ensure('size of the orientation', s, eq(r.len, N))
            v.ensure_all('orientation', s, N, lambda k: eq(v.get(s, r, k), rdiv(u.sel(k), ext.sqrt(nn))))
            v.ensure('time advances by one step', s, eq(v.load(s, p, 'CurrentStep'), add(w.step0, 1)))


for nD, implicit in ((0, False), (0, True), (1, True)):
    mkstep(nD, implicit)
