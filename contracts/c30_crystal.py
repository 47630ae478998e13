"""C30: rotated grids, tilt boundaries, corners of the domain in a crystal's coordinates, atomic kernels"""
import itertools
from contracts.common import *
from contracts.c27_lattice import matmul, det
from gowp import ext

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)
HALF = Fraction(1, 2)


def roundings(v):
    """ways to choose a pixel less than one pixel away from a point"""
    return [v.ip.trunc, lambda x: v.ip.trunc(ext.floor(x)), lambda x: v.ip.trunc(ext.floor(add(x, HALF)))]


def source(v, dom, k, ang, rnd):
    """node whose old value node k receives when the grid is rotated by ang about the centre"""
    H = [v.ip.tdivmod(v.st, n, 2, None)[0] for n in dom.D]
    X = [toreal(sub(x, h)) for x, h in zip(dom.pos(k), H)]
    c, s = ext.cos(ang), ext.sin(ang)
    Y = [sub(mul(c, X[0]), mul(s, X[1])), add(mul(s, X[0]), mul(c, X[1]))]
    return dom.idx([dom.wrapped(add(rnd(y), h), i) for i, (y, h) in enumerate(zip(Y, H))])


def grid(v, dom):
    data = v.slice('real', 'data', dom.N)
    return v.obj('pfutil.Grid', Dims=dom.list(), Data=data), data


def refuses(F, fn, *args):
    for d in (1, 3):
        v = F.new('%d dimensions' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        n = v.int('N', 1)
        g = v.obj('pfutil.Grid', Dims=v.list(D), Data=v.slice('real', 'data', n))
        hit = []
        v.ip.on_panic = lambda st, why, *a: hit.append(why)
        out = v.call(fn, g, v.real('angle'))
        v.ensure('refused', v.st, not out and len(hit) >= 1)


@contract('C30', 'Rotate2D: every node receives the value at the rotated position', ['(*pfutil.Grid).Rotate2D'])
def rotate(F):
    v = F.new()
    dom = Domain(v, 2).use_contracts()
    g, data = grid(v, dom)
    ang = v.real('angle')
    for s, _ in v.call('(*pfutil.Grid).Rotate2D', g, ang):
        def post(k):
            r = []
            for rnd in roundings(v):
                r.append(eq(v.get(s, data, k), v.get(v.st, data, source(v, dom, k, ang, rnd))))
            return bor(*r)
        v.ensure_all('value at the rotated position', s, dom.N, post)
        o = v.ip.load(s, g)
        v.ensure('sides unchanged', s, band(*[eq(v.get(s, o.f['Dims'], i), dom.D[i]) for i in range(2)]))
    v.reachable('pre', v.st)


@contract('C30', 'Rotate2D refuses grids that are not 2D', ['(*pfutil.Grid).Rotate2D'])
def rotate_refuses(F):
    refuses(F, '(*pfutil.Grid).Rotate2D')


@contract('C30', 'TiltGB: one half rotated by half the angle, the other half the opposite way', ['pfc.TiltGB', '(pfutil.Grid).Copy', '(*pfutil.Grid).Set', '(pfutil.Grid).Get'])
def tilt(F):
    v = F.new()
    dom = Domain(v, 2)
    g, data = grid(v, dom)
    ang = v.real('angle')
    SRC = z3.Function('source', INT, REAL, INT)
    H = v.ip.tdivmod(v.st, dom.D[0], 2, None)[0]

    def src(k, a):
        t = SRC(zi(k), z3.simplify(zr(a), som=True))
        CTX.fact(imp(band(ge(k, 0), lt(k, dom.N)), band(ge(t, 0), lt(t, dom.N))))
        return t

    def h_rot(ip, st, a):
        o = ip.load(st, a[0])
        ds = o.f['Dims']
        ip.oblige(st, 'Rotate2D: a grid of the domain', band(eq(ds.len, 2), eq(o.f['Data'].len, dom.N)))
        for i in range(2):
            ip.oblige(st, 'Rotate2D: a grid of the domain', eq(ip.get(st, ds, i), dom.D[i]))
        old = ip.read_ref(st, o.f['Data'].ref)
        ip.write_ref(st, o.f['Data'].ref, LamArr(lambda k: old.sel(src(k, a[1]))))
        return [(st, None)]
    if not v.summary('(*pfutil.Grid).Rotate2D', h_rot):
        raise Unsupported('Rotate2D is gone')
    for s, _ in v.call('pfc.TiltGB', g, ang):
        def post(k):
            X = dom.coord(k)
            return eq(v.get(s, data, k), ite(lt(X[0], H), v.get(v.st, data, src(k, mul(HALF, ang))), v.get(v.st, data, src(k, mul(-HALF, ang)))))
        v.ensure_all('value', s, dom.N, post)
    v.reachable('pre', v.st)


@contract('C30', 'TiltGB refuses grids that are not 2D', ['pfc.TiltGB'])
def tilt_refuses(F):
    refuses(F, 'pfc.TiltGB')


@contract('C30', 'CornersScaledCrd: the corners of the box in the coordinates of the cell', ['pfc.CornersScaledCrd'])
def corners(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        p, M = v.dense(d, d, 'c')
        v.assume(bnot(eq(det(M), ZERO)))
        D = [v.int('n%d' % i, 1) for i in range(d)]
        cell = v.struct('pfc.Cell', CellVec=p)
        for s, r in v.call('pfc.CornersScaledCrd', cell, v.list(D)):
            R = v.rows(s, r)
            v.ensure('number of corners', s, len(R) == d and len(R[0]) == 2 ** d)
            E = matmul(M, R)
            for j, c in enumerate(itertools.product((0, 1), repeat=d)):
                for i in range(d):
                    v.ensure('coordinate %d of corner %s' % (i, c), s, lambda: eq(E[i][j], toreal(mul(c[i], D[i]))))
        v.reachable('pre', v.st)


@contract('C30', 'atomic kernels', ['(*pfc.GaussianKernel).Eval', '(*pfc.GaussianKernel).Cutoff', '(*pfc.CircleKernel).Eval', '(*pfc.CircleKernel).Cutoff', '(*pfc.CircleKernel).Area'])
def kernels(F):
    v = F.new('Gaussian')
    w, x = v.real('w'), v.real('x')
    v.assume(gt(w, ZERO))
    k = v.obj('pfc.GaussianKernel', Width=w)
    for s, r in v.call('(*pfc.GaussianKernel).Eval', k, x):
        q = rdiv(x, w)
        v.ensure('value', s, lambda: eq(r, ext.exp(mul(-HALF, mul(q, q)))))
    for s, r in v.call('(*pfc.GaussianKernel).Cutoff', k):
        v.ensure('three widths', s, eq(r, mul(Fraction(3), w)))
    v = F.new('circle')
    R, x = v.real('R'), v.real('x')
    v.assume(ge(R, ZERO))
    k = v.obj('pfc.CircleKernel', Radius=R)
    for s, r in v.call('(*pfc.CircleKernel).Eval', k, x):
        v.ensure('one up to one pixel beyond the radius, zero elsewhere', s, eq(r, ite(band(ge(x, ZERO), lt(x, add(R, ONE))), ONE, ZERO)))
    for s, r in v.call('(*pfc.CircleKernel).Cutoff', k):
        v.ensure('radius', s, eq(r, R))
    for s, r in v.call('(*pfc.CircleKernel).Area', k):
        v.ensure('area', s, eq(r, mul(PI, mul(R, R))))


@contract('C30', 'Indicator: smooth step from 0 to 1, with its derivative', ['pfc.Indicator', 'pfc.IndicatorDeriv'])
def indicator(F):
    v = F.new()
    x = v.real('x')
    w = ite(lt(x, ZERO), ZERO, ite(gt(x, ONE), ONE, sub(mul(Fraction(3), mul(x, x)), mul(TWO, mul(x, mul(x, x))))))
    d = ite(lt(x, ZERO), ZERO, ite(gt(x, ONE), ZERO, sub(mul(Fraction(6), x), mul(Fraction(6), mul(x, x)))))
    for s, r in v.call('pfc.Indicator', x):
        v.ensure('value', s, eq(r, w))
        v.ensure('between 0 and 1', s, band(ge(r, ZERO), le(r, ONE)))
    for s, r in v.call('pfc.IndicatorDeriv', x):
        v.ensure('derivative', s, eq(r, d))
