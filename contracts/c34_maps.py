"""C34: maps of one variable: bound transform, penalty, spectral filter, peaks of a lattice"""
from contracts.common import *

ZERO, ONE, TWO, HALF = Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2)
TAN, ATAN = ext._tan, ext._atan


def trig(v):
    """arctan maps the line onto (-pi/2, pi/2), increasing; tan is its inverse there"""
    seen = []

    def atan(ip, st, a):
        t = zr(a[0])
        r = ATAN(t)
        st.assume(band(gt(r, neg(rdiv(PI, TWO))), lt(r, rdiv(PI, TWO)), TAN(r) == t))
        for u in seen:
            st.assume(band(imp(lt(t, u), lt(r, ATAN(u))), imp(lt(u, t), lt(ATAN(u), r))))
        st.assume(band(imp(eq(t, ZERO), eq(r, ZERO)), imp(eq(t, ONE), eq(r, rdiv(PI, Fraction(4)))), imp(eq(t, neg(ONE)), eq(r, neg(rdiv(PI, Fraction(4)))))))
        seen.append(t)
        return [(st, r)]

    def tan(ip, st, a):
        z = zr(a[0])
        r = TAN(z)
        st.assume(imp(band(gt(z, neg(rdiv(PI, TWO))), lt(z, rdiv(PI, TWO))), ATAN(r) == z))
        return [(st, r)]
    v.ip.summaries['math.Atan'] = atan
    v.ip.summaries['math.Tan'] = tan
    ext.USED.update(['math.Atan', 'math.Tan'])


def bounds(v):
    lo, hi = v.real('min'), v.real('max')
    v.assume(lt(lo, hi))
    return lo, hi, v.obj('pf.BoundTransform', Min=lo, Max=hi)


@contract('C34', 'BoundTransform maps the line onto (Min, Max), and back', ['(*pf.BoundTransform).Forward', '(*pf.BoundTransform).Backward'])
def bound(F):
    FW, BW = '(*pf.BoundTransform).Forward', '(*pf.BoundTransform).Backward'
    v = F.new('inside, centred')
    trig(v)
    lo, hi, p = bounds(v)
    x = v.real('x')
    for s, y in v.call(FW, p, x):
        v.ensure('inside the bounds', s, band(lt(lo, y), lt(y, hi)))
        v.ensure('arctangent scaled to the interval', s, eq(mul(PI, sub(sub(y, lo), mul(HALF, sub(hi, lo)))), mul(sub(hi, lo), ATAN(x))))
    v = F.new('increasing')
    trig(v)
    lo, hi, p = bounds(v)
    x, x2 = v.real('x'), v.real('x2')
    v.assume(lt(x, x2))
    for s, y in v.call(FW, p, x):
        for s2, y2 in v.call(FW, p, x2, st=s):
            v.ensure('increasing', s2, lt(y, y2))
    v = F.new('there and back')
    trig(v)
    lo, hi, p = bounds(v)
    x = v.real('x')
    for s, y in v.call(FW, p, x):
        for s2, r in v.call(BW, p, y, st=s):
            v.ensure('Backward undoes Forward', s2, eq(r, x))
    v = F.new('back and there')
    trig(v)
    lo, hi, p = bounds(v)
    y = v.real('y')
    v.assume(band(lt(lo, y), lt(y, hi)))
    for s, x in v.call(BW, p, y):
        for s2, r in v.call(FW, p, x, st=s):
            v.ensure('Forward undoes Backward', s2, eq(r, y))


@contract('C34', 'the penalty vanishes for positive values and is the derivative for negative ones',
          ['(*pf.NegativeValuePenalty).Penalty', '(*pf.NegativeValuePenalty).Evaluate', 'pf.NewDefaultNegativeValuePenalty'])
def penalty(F):
    def want(P, n, x):
        # derivative of P (|x|^n - x^n) for odd n
        w = mul(mul(Fraction(-2), P), Fraction(n))
        for _ in range(n - 1):
            w = mul(w, x)
        return ite(ge(x, ZERO), ZERO, w)
    for n in (3, 5, 7):
        v = F.new('exponent %d' % n)
        P, x = v.real('P'), v.real('x')
        for s, r in v.call('(*pf.NegativeValuePenalty).Penalty', v.obj('pf.NegativeValuePenalty', Prefactor=P, Exponent=n, Field='y'), x):
            v.ensure('penalty', s, eq(r, want(P, n, x)))
    v = F.new('as a function of the fields')
    n = v.int('n', 1)
    a, b = v.slice('cplx', 'a', n), v.slice('cplx', 'b', n)
    P, i = v.real('P'), v.int('i', 0)
    v.assume(lt(i, n))
    fld = lambda d: IfaceAbs('brick', {'Get': lambda ip, s, x: [(s, v.get(v.st, d, x[1]))]})
    o = v.obj('pf.NegativeValuePenalty', Prefactor=P, Exponent=3, Field='b')
    for s, r in v.call('(*pf.NegativeValuePenalty).Evaluate', o, i, MapRef(v.ip.alloc(v.st, MapV([('a', fld(a)), ('b', fld(b))])))):
        v.ensure('real part of the field at the node', s, veq(r, C(want(P, 3, v.get(v.st, b, i).re), ZERO)))
    v = F.new('defaults of Chan, Goldenfeld and Dantzig')
    for s, r in v.call('pf.NewDefaultNegativeValuePenalty', 'density'):
        v.ensure('cubic, 1500, on the field', s, band(eq(r.f['Prefactor'], Fraction(1500)), eq(r.f['Exponent'], 3), eq(r.f['Field'], 'density')))


@contract('C34', 'Vandeven.Eval interpolates its table linearly', ['(*pf.Vandeven).Eval'])
def vandeven(F):
    v = F.new()
    n = v.int('intervals', 1)
    t = v.slice('real', 't', add(n, 1))
    k, x = v.int('k', 0), v.real('x')
    z = mul(x, toreal(n))
    v.assume(band(le(toreal(k), z), lt(z, add(toreal(k), ONE))))
    for s, r in v.call('(*pf.Vandeven).Eval', v.obj('pf.Vandeven', Data=t), x):
        a = lambda j: v.get(v.st, t, j)
        v.ensure('beyond the table', s, imp(ge(k, n), eq(r, a(n))))
        v.ensure('between two entries', s, imp(lt(k, n), eq(r, add(a(k), mul(sub(z, toreal(k)), sub(a(add(k, 1)), a(k)))))))
        v.frame_slice('table unchanged', s, t)


@contract('C34', 'NewVandeven tabulates the integral of (t(1-t))^(p-1)', ['pf.NewVandeven'])
def newvandeven(F):
    v = F.new()
    p = v.int('order', 1)
    G = z3.Function('Gamma', REAL, REAL)
    v.ip.summaries['math.Gamma'] = lambda ip, st, a: [(st, G(zr(a[0])))]
    ext.USED.add('math.Gamma')
    h = Fraction(1, 999)
    w = lambda i: ext.powf(mul(mul(toreal(i), h), sub(ONE, mul(toreal(i), h))), sub(toreal(p), ONE))
    c = rdiv(G(zr(mul(TWO, toreal(p)))), mul(G(zr(toreal(p))), G(zr(toreal(p)))))
    S = SpecSum('area', lambda m: mul(mul(c, HALF), mul(h, add(w(m), w(add(m, 1))))))
    v.ip.specsums.append(S)
    v.ip.tabs.append(lambda k: sub(ONE, S.at(k)))
    v.ip.unroll_cap = 20
    for s, r in v.call('pf.NewVandeven', p):
        d = r.f['Data']
        v.ensure('1000 entries', s, eq(d.len, 1000))
        v.ensure_all('trapezoidal rule', s, 1000, lambda k: eq(v.get(s, d, k), sub(ONE, S.at(k))))


@contract('C34', 'the peaks of the square and the triangular lattice', ['pfc.SquareLattice2D', 'pfc.TriangularLattice2D'])
def peaks(F):
    for fn, rad in (('SquareLattice2D', (ONE, TWO)), ('TriangularLattice2D', (ONE,))):
        v = F.new(fn)
        w, a = v.real('width'), v.real('a')
        v.assume(band(gt(w, ZERO), gt(a, ZERO)))
        for s, r in v.call('pfc.' + fn, w, a):
            if not v.ensure('number of peaks', s, eq(r.len, len(rad))) and not isinstance(r.len, int):
                continue
            for i, q in enumerate(rad):
                p = v.get(s, r, i)
                loc = p.f['Location']
                # |k| = 2 pi sqrt(h^2 + k^2) / a
                v.ensure('position of peak %d' % i, s, band(gt(loc, ZERO), eq(mul(mul(loc, a), mul(loc, a)), mul(mul(Fraction(4), q), mul(PI, PI)))))
                v.ensure('width of peak %d' % i, s, eq(p.f['Width'], w))
                if fn[0] == 'S':
                    v.ensure('planes of peak %d' % i, s, band(eq(p.f['NumPlanes'], 4), gt(p.f['PlaneDensity'], ZERO), eq(mul(q, mul(p.f['PlaneDensity'], p.f['PlaneDensity'])), ONE)))
