"""C06: periodic blurring"""
import itertools
from contracts.common import *

KF = {2: z3.Function('K2', INT, INT, REAL), 3: z3.Function('K3', INT, INT, INT, REAL)}


def kernel(v, c, d):
    def value(ip, st, a):
        x = a[1]
        return [(st, KF[d](*[zi(ip.get(st, x, k)) for k in range(d)]))]
    return IfaceAbs('kernel', {'Value': value, 'Cutoff': lambda ip, st, a: [(st, c)]})


def blur_contract(cases):
    def run(F):
        for d, c, kind in cases:
            v = F.new('%dD cutoff %d %s' % (d, c, kind))
            dom = Domain(v, d).use_contracts()
            data = v.slice('real' if kind == 'RealSlice' else 'cplx', 'data', dom.N)
            old = v.content(data)
            ws = v.obj('pfutil.' + kind, Data=data)
            K = KF[d]
            offs = list(itertools.product(range(-c, c + 1), repeat=d))
            tot = Fraction(0)
            for o in offs:
                tot = add(tot, K(*[z3.IntVal(x) for x in o]))
            v.assume(bnot(eq(tot, 0)))
            dl = dom.list()
            for s, _ in v.call('pfutil.Blur', v.iface('pfutil.' + kind, ws), dl, kernel(v, c, d)):
                def want(k):
                    X = dom.pos(k)
                    num = Fraction(0)
                    for o in offs:
                        Y = [dom.wrapped(add(X[a], o[a]), a) for a in range(d)]
                        x = old.sel(dom.idx(Y))
                        num = add(num, mul(x.re if kind != 'RealSlice' else x, K(*[z3.IntVal(q) for q in o])))
                    return num

                def post(k):
                    x = v.get(s, data, k)
                    if kind == 'RealSlice':
                        return eq(x, rdiv(want(k), tot))
                    return band(eq(x.re, rdiv(want(k), tot)), eq(x.im, old.sel(k).im))
                v.ensure_all('kernel weighted mean over the periodic stencil of the old values', s, dom.N, post)
                v.frame_slice('domain size unchanged', s, dl)
            v.reachable('pre', v.st)
    return run


contract('C06', 'Blur: kernel average over periodic neighbours (cutoff 0 and 1, 2D)', ['pfutil.Blur'])(blur_contract([(2, 0, 'RealSlice'), (2, 1, 'RealSlice'), (2, 1, 'RealPartSlice')]))
contract('C06', 'Blur: kernel average over periodic neighbours (cutoff 2, 2D)', ['pfutil.Blur'])(blur_contract([(2, 2, 'RealSlice')]))
contract('C06', 'Blur: kernel average over periodic neighbours (cutoff 0 and 1, 3D)', ['pfutil.Blur'])(blur_contract([(3, 0, 'RealSlice'), (3, 1, 'RealSlice')]))


@contract('C06', 'BoxKernel is the indicator of a box', ['(*pfutil.BoxKernel).Value', '(*pfutil.BoxKernel).Cutoff'])
def box(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        w = v.int('w', 0)
        bk = v.obj('pfutil.BoxKernel', Width=w)
        X = [v.int('x%d' % k) for k in range(d)]
        ins = band(*[band(le(x, w), ge(x, neg(w))) for x in X])
        for s, r in v.call('(*pfutil.BoxKernel).Value', bk, v.list(X)):
            v.ensure('one inside, zero outside', s, eq(r, ite(ins, Fraction(1), Fraction(0))))
        for s, r in v.call('(*pfutil.BoxKernel).Cutoff', bk):
            v.ensure('cutoff covers half the width', s, band(ge(mul(2, r), w), ge(r, 1), le(mul(2, r), add(w, 2))))


@contract('C06', 'a weighted mean preserves constants (lemma)', [])
def const(F):
    v = F.new()
    a, b, x = v.real('a'), v.real('b'), v.real('x')
    v.assume(bnot(eq(add(a, b), 0)))
    v.ensure('constant', v.st, eq(rdiv(add(mul(x, a), mul(x, b)), add(a, b)), x))
