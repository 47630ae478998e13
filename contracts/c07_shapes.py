"""C07: shapes, affine maps and drawing"""
from contracts.common import *
from gowp.ext import sin, cos


def apply4(M, x):
    """first components of M (x,1) for x padded to three dimensions"""
    p = list(x) + [Fraction(0)] * (3 - len(x)) + [Fraction(1)]
    out = []
    for i in range(len(x)):
        t = Fraction(0)
        for k in range(4):
            t = add(t, mul(M[i][k], p[k]))
        out.append(t)
    return out


@contract('C07', 'Affine.Apply multiplies the homogeneous vector', ['(*pfutil.Affine).Apply'])
def apply(F):
    for d in (1, 2, 3):
        v = F.new('len%d' % d)
        m, M = v.dense(4, 4, 'm')
        a = v.obj('pfutil.Affine', Mat=m)
        X = [v.real('x%d' % k) for k in range(d)]
        pos = v.list(X)
        for s, _ in v.call('(*pfutil.Affine).Apply', a, pos):
            W = apply4(M, X)
            for k in range(d):
                v.ensure('component %d' % k, s, eq(v.get(s, pos, k), W[k]))
            R = v.rows(s, m)
            v.ensure('transformation unchanged', s, band(*[eq(R[i][j], M[i][j]) for i in range(4) for j in range(4)]))


@contract('C07', 'Affine.Append composes', ['(*pfutil.Affine).Append', '(*pfutil.Affine).Apply'])
def append(F):
    v = F.new()
    m, M = v.dense(4, 4, 'm')
    k_, K = v.dense(4, 4, 'k')
    # affine: last row (0,0,0,1)
    for A in (M, K):
        for j in range(4):
            v.assume(eq(A[3][j], Fraction(1 if j == 3 else 0)))
    a = v.obj('pfutil.Affine', Mat=m)
    X = [v.real('x%d' % i) for i in range(3)]
    for s, _ in v.call('(*pfutil.Affine).Append', a, v.struct('pfutil.Affine', Mat=k_)):
        p = v.list(X)
        for s2, _ in v.call('(*pfutil.Affine).Apply', a, p, st=s):
            W = apply4(K, apply4(M, X))
            for i in range(3):
                # M, K written with their last rows substituted
                v.ensure('first the old map, then the appended one [%d]' % i, s2, lambda: eq(subs(v.get(s2, p, i), M, K), subs(W[i], M, K)))
        R = v.rows(s, k_)
        v.ensure('appended map unchanged', s, band(*[eq(R[i][j], K[i][j]) for i in range(4) for j in range(4)]))


def subs(t, *Ms):
    ps = [(M[3][j], z3.RealVal(1 if j == 3 else 0)) for M in Ms for j in range(4)]
    return z3.substitute(zr(t), *ps)


def rows_are(v, s, p, W, what):
    R = v.rows(s, v.load(s, p) if False else p)
    for i in range(len(W)):
        for j in range(len(W[0])):
            v.ensure('%s (%d,%d)' % (what, i, j), s, eq(R[i][j], W[i][j]))


@contract('C07', 'elementary maps', ['pfutil.Identity', 'pfutil.Translation', 'pfutil.Scaling', 'pfutil.RotX', 'pfutil.RotY', 'pfutil.RotZ'])
def elementary(F):
    one, zero = Fraction(1), Fraction(0)

    def act(v, s, A, X):
        p = v.list(X)
        a = Ptr(v.ip.alloc(s, A))
        (s2, _), = v.call('(*pfutil.Affine).Apply', a, p, st=s)
        return s2, [v.get(s2, p, k) for k in range(len(X))]
    for d in (2, 3):
        v = F.new('%dD' % d)
        X = [v.real('x%d' % k) for k in range(d)]
        T = [v.real('t%d' % k) for k in range(d)]
        for s, A in v.call('pfutil.Identity'):
            s2, Y = act(v, s, A, X)
            for k in range(d):
                v.ensure('identity', s2, eq(Y[k], X[k]))
        for s, A in v.call('pfutil.Translation', v.list(T)):
            s2, Y = act(v, s, A, X)
            for k in range(d):
                v.ensure('translation', s2, eq(Y[k], add(X[k], T[k])))
        for s, A in v.call('pfutil.Scaling', v.list(T)):
            s2, Y = act(v, s, A, X)
            for k in range(d):
                v.ensure('scaling', s2, eq(Y[k], mul(X[k], T[k])))
    v = F.new('rotations')
    X = [v.real('x%d' % k) for k in range(3)]
    th = v.real('th')
    c, sn = cos(th), sin(th)
    for fn, ax in (('RotX', 0), ('RotY', 1), ('RotZ', 2)):
        i, j = (ax + 1) % 3, (ax + 2) % 3
        W = [None] * 3
        W[ax] = X[ax]
        W[i] = sub(mul(c, X[i]), mul(sn, X[j]))
        W[j] = add(mul(sn, X[i]), mul(c, X[j]))
        for s, A in v.call('pfutil.' + fn, th):
            s2, Y = act(v, s, A, X)
            for k in range(3):
                v.ensure('%s is the right-handed rotation [%d]' % (fn, k), s2, eq(Y[k], W[k]))


@contract('C07', 'Box and Ball interiors', ['(*pfutil.Box).InteriorPoint', '(*pfutil.Ball).InteriorPoint'])
def interiors(F):
    for d in (1, 2, 3):
        v = F.new('box %dD' % d)
        Dg = [v.real('d%d' % k) for k in range(d)]
        X = [v.real('x%d' % k) for k in range(d)]
        b = v.obj('pfutil.Box', Diagonal=v.list(Dg))
        for s, r in v.call('(*pfutil.Box).InteriorPoint', b, v.list(X)):
            ins = band(*[le(absv(mul(2, X[k])), Dg[k]) for k in range(d)])
            v.ensure('inside exactly when every |2x| <= side', s, eqb(r, ins))
        v = F.new('ball %dD' % d)
        X = [v.real('x%d' % k) for k in range(d)]
        R = v.real('R')
        b = v.obj('pfutil.Ball', Radius=R)
        r2 = Fraction(0)
        for x in X:
            r2 = add(r2, mul(x, x))
        for s, r in v.call('(*pfutil.Ball).InteriorPoint', b, v.list(X)):
            v.ensure('inside exactly when |x|^2 < R^2', s, eqb(r, lt(r2, mul(R, R))))


def eqb(a, b):
    return band(imp(a, b), imp(b, a))


@contract('C07', 'bounding boxes contain the shapes', ['(*pfutil.Box).BBox', '(*pfutil.Ball).BBox'])
def bboxes(F):
    for d in (2, 3):
        v = F.new('box %dD' % d)
        Dg = [v.real('d%d' % k) for k in range(d)]
        X = [v.real('x%d' % k) for k in range(d)]
        b = v.obj('pfutil.Box', Diagonal=v.list(Dg))
        for k in range(d):
            v.assume(ge(Dg[k], 0))
        for s, bb in v.call('(*pfutil.Box).BBox', b):
            for s2, r in v.call('(*pfutil.Box).InteriorPoint', b, v.list(X), st=s):
                for k in range(d):
                    v.ensure('contains the interior', s2, lambda: imp(r, band(le(toreal(v.get(s2, bb.f['Min'], k)), X[k]), le(X[k], toreal(v.get(s2, bb.f['Max'], k))))))
            v.ensure('three dimensional', s, band(eq(bb.f['Min'].len, 3), eq(bb.f['Max'].len, 3)))
    v = F.new('ball')
    X = [v.real('x%d' % k) for k in range(3)]
    R = v.real('R')
    v.assume(gt(R, 0))
    b = v.obj('pfutil.Ball', Radius=R)
    for k in range(3):
        v.fact(imp(band(ge(X[k], R), ge(R, 0)), ge(mul(X[k], X[k]), mul(R, R))))
        v.fact(imp(band(le(X[k], neg(R)), ge(R, 0)), ge(mul(X[k], X[k]), mul(R, R))))
        v.fact(ge(mul(X[k], X[k]), 0))
    for s, bb in v.call('(*pfutil.Ball).BBox', b):
        for s2, r in v.call('(*pfutil.Ball).InteriorPoint', b, v.list(X), st=s):
            for k in range(3):
                v.ensure('contains the interior', s2, lambda: imp(r, band(le(toreal(v.get(s2, bb.f['Min'], k)), X[k]), le(X[k], toreal(v.get(s2, bb.f['Max'], k))))))


@contract('C07', 'Draw sets exactly the interior nodes', ['pfutil.Draw'])
def draw(F):
    for d in (2, 3):
        for ident in (True, False):
            v = F.new('%dD %s' % (d, 'identity' if ident else 'affine'))
            dom = Domain(v, d).use_contracts()
            data = v.slice('real', 'data', dom.N)
            g = v.obj('pfutil.Grid', Dims=dom.list(), Data=data)
            val = v.real('val')
            INS = z3.Function('interior', *([REAL] * d + [z3.BoolSort()]))
            mn, mx = v.list([-1, -1, -1]), v.list([1, 1, 1])

            def interior(ip, st, a):
                ip.oblige(st, 'shape sees one coordinate per dimension', eq(a[1].len, d))
                return [(st, INS(*[z3.simplify(zr(ip.get(st, a[1], k)), som=True) for k in range(d)]))]

            def bbox(ip, st, a):
                return [(st, v.struct('pfutil.BoundingBox', Min=mn, Max=mx))]
            shape = IfaceAbs('shape', {'InteriorPoint': interior, 'BBox': bbox})
            if ident:
                tr, M = NILPTR, [[Fraction(int(i == j)) for j in range(4)] for i in range(4)]
            else:
                m, M = v.dense(4, 4, 'm')
                tr = v.obj('pfutil.Affine', Mat=m)
            for s, _ in v.call('pfutil.Draw', shape, g, tr, val):
                def post(k):
                    X = [toreal(x) for x in dom.pos(k)]
                    Y = apply4(M, X)
                    ins = INS(*[z3.simplify(zr(y), som=True) for y in Y])
                    return eq(v.get(s, data, k), ite(ins, val, v.get(v.st, data, k)))
                v.ensure_all('value at interior nodes, unchanged elsewhere', s, dom.N, post)
            v.reachable('pre', v.st)
