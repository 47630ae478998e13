"""C08: element-wise arithmetic on fields"""
from contracts.common import *


def two(v, kind='cplx'):
    n = v.int('n', 0)
    return n, v.slice(kind, 'a', n), v.slice(kind, 'b', n)


@contract('C08', 'ElemwiseAdd / ElemwiseMul', ['pfutil.ElemwiseAdd', 'pfutil.ElemwiseMul'])
def elemwise(F):
    for fn, op in (('ElemwiseAdd', lambda x, y: x + y), ('ElemwiseMul', lambda x, y: x * y)):
        v = F.new(fn)
        n, a, b = two(v)
        for s, _ in v.call('pfutil.' + fn, a, b):
            v.ensure_all('element by element', s, n, lambda k: veq(v.get(s, a, k), op(v.get(v.st, a, k), v.get(v.st, b, k))))
            v.frame_slice('second operand unchanged', s, b)
        v = F.new(fn + ' on itself')
        n, a, _ = two(v)
        for s, _ in v.call('pfutil.' + fn, a, a):
            v.ensure_all('element by element', s, n, lambda k: veq(v.get(s, a, k), op(v.get(v.st, a, k), v.get(v.st, a, k))))


@contract('C08', 'DivRealScalar', ['pfutil.DivRealScalar'])
def divscalar(F):
    v = F.new()
    n, a, _ = two(v)
    f = v.real('f')
    v.assume(bnot(eq(f, 0)))
    for s, r in v.call('pfutil.DivRealScalar', a, f):
        v.ensure_all('element divided', s, n, lambda k: veq(v.get(s, a, k), C(rdiv(v.get(v.st, a, k).re, f), rdiv(v.get(v.st, a, k).im, f))))
        v.ensure('returns the data', s, veq(r, a))


@contract('C08', 'Clear', ['pfutil.Clear'])
def clear(F):
    v = F.new()
    n, a, _ = two(v)
    for s, _ in v.call('pfutil.Clear', a):
        v.ensure_all('zero', s, n, lambda k: veq(v.get(s, a, k), CZERO))


@contract('C08', 'Dot is the sum of products', ['pfutil.Dot', 'pfc.Dot'])
def dot(F):
    for fn in ('pfutil.Dot', 'pfc.Dot'):
        v = F.new(fn)
        n, a, b = two(v, 'real')
        S = SpecSum('dot', lambda m: mul(v.get(v.st, a, m), v.get(v.st, b, m)))
        v.ip.specsums.append(S)
        for s, r in v.call(fn, a, b):
            v.ensure('sum of products', s, eq(r, S.at(n)))
            v.frame_slice('a unchanged', s, a)
            v.frame_slice('b unchanged', s, b)
        for d in (0, 1, 2, 3, 4):
            v = F.new('%s len%d' % (fn, d))
            a, b = v.slice('real', 'a', d), v.slice('real', 'b', d)
            w = Fraction(0)
            for k in range(d):
                w = add(w, mul(v.get(v.st, a, k), v.get(v.st, b, k)))
            for s, r in v.call(fn, a, b):
                v.ensure('sum of products', s, eq(r, w))


@contract('C08', 'ProdInt is the product', ['pfutil.ProdInt'])
def prodint(F):
    for d in (0, 1, 2, 3, 4):
        v = F.new('len%d' % d)
        a = v.slice('int', 'a', d)
        w = 1
        for k in range(d):
            w = mul(w, v.get(v.st, a, k))
        for s, r in v.call('pfutil.ProdInt', a):
            v.ensure('product', s, eq(r, w))
            v.frame_slice('argument unchanged', s, a)
    v = F.new('any length')
    n = v.int('n', 0)
    a = v.slice('int', 'a', n)
    R = SpecRec('prod', lambda: 1, lambda t, r: mul(r, v.get(v.st, a, t)), INT, prod=lambda t: v.get(v.st, a, t))
    v.ip.specfns.append(R)
    for s, r in v.call('pfutil.ProdInt', a):
        v.ensure('product', s, eq(r, R.at(n)))


@contract('C08', 'MaxReal / MinReal are the extreme real parts', ['pfutil.MaxReal', 'pfutil.MinReal'])
def extremes(F):
    for fn, better, noworse in (('MaxReal', lt, le), ('MinReal', gt, ge)):
        v = F.new(fn)
        n = v.int('n', 1)
        a = v.slice('cplx', 'a', n)
        el = lambda k: v.get(v.st, a, k).re
        R = SpecRec('ext', lambda: el(0), lambda t, r: ite(better(r, el(t)), el(t), r), REAL)
        A = SpecRec('arg', lambda: 0, lambda t, r: ite(better(R.at(t), el(t)), t, r), INT)
        v.ip.specfns.append(R)
        for s, r in v.call('pfutil.' + fn, a):
            v.ensure('running extreme', s, eq(r, R.at(n)))
            j = z3.Int('j')
            s.assume(band(ge(j, 0), lt(j, n)))
            v.induct('bounds every element', lambda t: imp(le(t, n), imp(lt(j, t), noworse(el(j), R.at(t)))), [n], st=s)
            v.induct('is one of the elements', lambda t: imp(le(t, n), band(ge(A.at(t), 0), lt(A.at(t), n), eq(R.at(t), el(A.at(t))))), [n], st=s)
            v.ensure('no element is beyond it', s, noworse(el(j), r))
            v.ensure('it is an element', s, band(ge(A.at(n), 0), lt(A.at(n), n), eq(r, el(A.at(n)))))
            v.frame_slice('data unchanged', s, a)


@contract('C08', 'CmplxEqualApprox', ['pfutil.CmplxEqualApprox'])
def equalapprox(F):
    v = F.new()
    n, m = v.int('n', 0), v.int('m', 0)
    a, b = v.slice('cplx', 'a', n), v.slice('cplx', 'b', m)
    tol = v.real('tol')
    close = lambda k: band(le(absv(sub(v.get(v.st, a, k).re, v.get(v.st, b, k).re)), tol), le(absv(sub(v.get(v.st, a, k).im, v.get(v.st, b, k).im)), tol))
    j = z3.Int('j')
    for s, r in v.call('pfutil.CmplxEqualApprox', a, b, tol):
        v.ensure('only equal lengths are equal', s, imp(r, eq(n, m)))
        v.ensure_all('equal means every element is within the tolerance', s, n, lambda k: imp(r, close(k)))
        v.ensure('different means some element is outside the tolerance', s, imp(band(bnot(r), eq(n, m)), z3.Exists([j], zb(band(ge(j, 0), lt(j, n), bnot(close(j)))))))


@contract('C08', 'slice wrappers', ['(*pfutil.RealSlice).Get', '(*pfutil.RealSlice).Set', '(*pfutil.RealPartSlice).Get', '(*pfutil.RealPartSlice).Set'])
def wrappers(F):
    for kind in ('RealSlice', 'RealPartSlice'):
        v = F.new(kind)
        n = v.int('n', 1)
        i = v.int('i', 0)
        v.assume(lt(i, n))
        cp = kind == 'RealPartSlice'
        a = v.slice('cplx' if cp else 'real', 'a', n)
        w = v.obj('pfutil.' + kind, Data=a)
        x = v.real('x')
        re = (lambda z0: z0.re) if cp else (lambda z0: z0)
        for s, r in v.call('(*pfutil.%s).Len' % kind, w):
            v.ensure('Len', s, eq(r, n))
        for s, r in v.call('(*pfutil.%s).Get' % kind, w, i):
            v.ensure('Get', s, eq(r, re(v.get(v.st, a, i))))
        for s, r in v.call('(*pfutil.%s).Set' % kind, w, i, x):
            def post(k):
                old = v.get(v.st, a, k)
                new = C(x, old.im) if cp else x
                return veq(v.get(s, a, k), vite(eq(k, i), new, old))
            v.ensure_all('Set', s, n, post)


@contract('C08', 'Grid conversion and copy', ['(pfutil.Grid).ToComplex', '(*pfutil.Grid).FromComplex', '(pfutil.Grid).Copy'])
def grid(F):
    v = F.new()
    n = v.int('n', 0)
    data = v.slice('real', 'data', n)
    dims = v.slice('int', 'dims', 2)
    g = v.struct('pfutil.Grid', Dims=dims, Data=data)
    pg = Ptr(v.ip.alloc(v.st, g))
    for s, r in v.call('(pfutil.Grid).ToComplex', g):
        v.ensure('length', s, eq(r.len, n))
        v.ensure_all('real parts', s, n, lambda k: veq(v.get(s, r, k), C(v.get(v.st, data, k), Fraction(0))))
        v.frame_slice('grid unchanged', s, data)
        for s2, _ in v.call('(*pfutil.Grid).FromComplex', pg, r, st=s):
            v.ensure_all('round trip', s2, n, lambda k: veq(v.get(s2, data, k), v.get(v.st, data, k)))
    ca = v.slice('cplx', 'ca', n)
    for s, _ in v.call('(*pfutil.Grid).FromComplex', pg, ca):
        v.ensure_all('takes the real parts', s, n, lambda k: eq(v.get(s, data, k), v.get(v.st, ca, k).re))
    for s, c in v.call('(pfutil.Grid).Copy', g):
        v.ensure('copy has its own storage', s, c.f['Data'].ref.oid != data.ref.oid and c.f['Dims'].ref.oid != dims.ref.oid)
        v.ensure('copied length', s, band(eq(c.f['Data'].len, n), eq(c.f['Dims'].len, 2)))
        v.ensure_all('copied data', s, n, lambda k: eq(v.get(s, c.f['Data'], k), v.get(v.st, data, k)))
        for k in range(2):
            v.ensure('copied dims', s, eq(v.get(s, c.f['Dims'], k), v.get(v.st, dims, k)))
