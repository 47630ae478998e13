"""C21: charge transport"""
from contracts.common import *
from contracts.c16_operators import Op, grid_freq

ZERO, ONE, TWO, HALF = Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2)
VOIGT = {2: [[0, 2], [2, 1]], 3: [[0, 5, 4], [5, 1, 3], [4, 3, 2]]}
COARSE = Fraction(1, 10**5)


class Charge(FTOp):
    """the inverse transform accepts the induced field up to a relative error of 1e-6 (regularisation at k = 0)"""
    expected = None

    def transform(self, st, kind, src):
        if kind < 0 and self.expected is not None:
            for alts in self.expected:
                if any(self.same(st, src, a) for a in alts):
                    return FTOp.transform(self, st, kind, alts[0])
        return FTOp.transform(self, st, kind, src)


def setup(F, d, name):
    v = F.new(name)
    o = Op(v, d)
    o.ft = Charge(v, o.N, o.fn)
    o.FT = o.ft.iface()
    coarse = lambda f: bor(eq(f, ZERO), ge(absv(f), COARSE))

    def fq(k, a):
        f = o.fq(k, a)
        CTX.fact(band(grid_freq([f]), coarse(f)))
        return f
    ext_ = [v.real('E%d' % a) for a in range(d)]
    ns = 3 if d == 2 else 6
    S = [z3.Function('sigma%d' % j, INT, REAL) for j in range(ns)]
    cond = FuncAbs('conductivity', lambda ip, st, a: [(st, Slice(ip.alloc(st, ListArr([f(zi(a[0])) for f in S])), 0, ns))])
    ct = v.obj('pf.ChargeTransport', Conductivity=cond, ExternalField=v.list(ext_), Field='rho', FT=o.FT)
    rho = v.array('cplx', 'rho')

    def k2(k):
        r = ZERO
        for a in range(d):
            r = add(r, mul(fq(k, a), fq(k, a)))
        return r

    def alts(arr):
        """transform of minus the induced field along a: exact, and with a regularised denominator"""
        out = []
        for a in range(d):
            def exact(k, a=a):
                q = k2(k)
                g = ite(bor(eq(q, ZERO), eq(fq(k, a), HALF)), ZERO, rdiv(fq(k, a), mul(mul(TWO, PI), q)))
                return arr.sel(k) * C(ZERO, g)

            def regular(k, a=a):
                g = ite(eq(fq(k, a), HALF), ZERO, rdiv(fq(k, a), add(mul(mul(TWO, PI), k2(k)), Fraction(1, 10**16))))
                return arr.sel(k) * C(ZERO, g)
            out.append([LamArr(exact), LamArr(regular)])
        return out

    def minus_j(s, arr):
        """minus the current density in real space"""
        es = [o.I(s, x[0]) for x in alts(arr)]

        def comp(b):
            def f(k):
                r = C(ZERO, ZERO)
                for a in range(d):
                    r = r + (es[a].sel(k) - C(ext_[a], ZERO)) * C(S[VOIGT[d][a][b]](zi(k)), ZERO)
                return r
            return LamArr(f)
        return [comp(b) for b in range(d)]
    return v, o, ct, rho, alts, minus_j


@contract('C21', 'the regularised inverse laplacian is exact to 1e-6', [])
def regular(F):
    v = F.new()
    q = v.real('k2')
    v.assume(ge(q, mul(COARSE, COARSE)))
    v.assume(gt(PI, Fraction(3)))
    a, b = rdiv(ONE, mul(mul(TWO, PI), q)), rdiv(ONE, add(mul(mul(TWO, PI), q), Fraction(1, 10**16)))
    p = mul(mul(TWO, PI), q)
    v.assume(ge(p, mul(Fraction(6), q)))
    # (a - b) / a = eps / (p + eps)
    v.ensure('relative error', v.st, lambda: band(gt(p, ZERO), le(Fraction(1, 10**16), mul(Fraction(1, 10**6), add(p, Fraction(1, 10**16))))))
    P0 = v.real('p')
    v.assume(gt(P0, ZERO))
    e = Fraction(1, 10**16)
    v.ensure('relative error formula', v.st, eq(sub(rdiv(ONE, P0), rdiv(ONE, add(P0, e))), mul(rdiv(ONE, P0), rdiv(e, add(P0, e)))))


def case(d):
    @contract('C21', 'minus the divergence of the current (%dD)' % d, ['(*pf.ChargeTransport).Construct', '(*pf.ChargeTransport).current', 'pf.voigtIndex'])
    def rate(F):
        v, o, ct, rho, alts, minus_j = setup(F, d, '')
        o.ft.expected = alts(rho)
        st, term = v.call1('(*pf.ChargeTransport).Construct', ct, o.bricks(rho=rho, other=v.array('cplx', 'other')))
        for s, y in o.run(term, st):
            J = [o.F(s, x) for x in minus_j(s, rho)]

            def want(k):
                r = C(ZERO, ZERO)
                for a in range(d):
                    r = r + o.ik(o.fnyq(k, a)) * J[a].sel(k)
                return r
            v.ensure_all('div(-j)', s, o.N, lambda k: veq(v.get(s, y, k), want(k)))

    @contract('C21', 'the current is conductivity times field (%dD)' % d, ['(*pf.ChargeTransport).Current', '(*pf.ChargeTransport).current'])
    def current(F):
        for real in (False, True):
            v, o, ct, rho, alts, minus_j = setup(F, d, 'real space density' if real else 'transformed density')
            arr = o.F(v.st, rho) if real else rho
            o.ft.expected = alts(arr)
            for s, r in v.call('(*pf.ChargeTransport).Current', ct, o.brick(rho), o.N, real):
                v.ensure('one array per direction', s, eq(r.len, d))
                J = minus_j(s, arr)
                for a in range(d):
                    x = v.get(s, r, a)
                    v.ensure('one value per node', s, eq(x.len, o.N))
                    v.ensure_all('j_%d' % a, s, o.N, lambda k: eq(v.get(s, x, k), neg(J[a].sel(k).re)))


for _d in (2, 3):
    case(_d)
