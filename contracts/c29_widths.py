"""C29: elastic properties of a mode expansion and the peak widths that match them"""
import itertools
from contracts.common import *
from contracts.c27_lattice import matmul, T
from contracts.c28_modes import prod, sumr, MIN, Ghost

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)


def sym(v, d):
    q = {(i, j): v.real('q%d%d' % (i, j)) for i in range(d) for j in range(i, d)}
    Q = [[q[min(i, j), max(i, j)] for j in range(d)] for i in range(d)]
    p, _ = v.dense(d, d, entries=[x for r in Q for x in r])
    return p, Q


def miller(v, i=''):
    m = [v.int(c + str(i)) for c in 'hkl']
    return v.struct('pfc.Miller', H=m[0], K=m[1], L=m[2]), [toreal(x) for x in m]


def stiff(m, Q):
    """C_stuv = m_t Q_su m_v"""
    return lambda s, t, u, w: mul(mul(m[t], Q[s][u]), m[w])


def weight(name, m, Q):
    c = stiff(m, Q)
    d = len(Q)
    R = range(d)
    P_ = [(i, j) for i in R for j in range(i + 1, d)]
    if name == 'bulk':
        return rdiv(sumr([c(i, i, j, j) for i in R for j in R]), Fraction(9))
    if name == 'area':
        return rdiv(sumr([c(i, i, j, j) for i in range(2) for j in range(2)]), Fraction(4))
    if name == 'shear':
        return rdiv(sumr([c(i, i, i, i) for i in R] + [neg(c(i, i, j, j)) for i, j in P_] + [mul(Fraction(3), c(i, j, i, j)) for i, j in P_]), Fraction(15))
    return rdiv(sumr([c(0, 0, 0, 0), c(1, 1, 1, 1), neg(mul(TWO, c(0, 0, 1, 1))), mul(Fraction(4), c(1, 0, 1, 0))]), Fraction(8))


FN = {'bulk': 'BulkModWeight', 'shear': 'ShearModWeight', 'area': 'AreaModulusWeight', 'xyshear': 'XYPlaneShearWeight'}


@contract('C29', 'weights: isotropic averages of the stiffness of a mode', ['pfc.' + f for f in FN.values()] + ['(*pfc.Miller).At'])
def weights(F):
    for nm, f in FN.items():
        for d in ((2,) if nm in ('area', 'xyshear') else (3,)):
            v = F.new('%s in %dD' % (nm, d))
            p, Q = sym(v, d)
            m, mm = miller(v)
            for s, r in v.call('pfc.' + f, m, p):
                v.ensure('weight', s, lambda: eq(r, weight(nm, mm, Q)))
                v.ensure('matrix unchanged', s, band(*[eq(a, b) for x, y in zip(v.rows(s, p), Q) for a, b in zip(x, y)]))


def uf(nm):
    return z3.Function('weight_' + nm, INT, INT, INT, REAL)


def opaque_weights(v, Qwant):
    """by their contract, the weights are functions of the plane and of Q"""
    for nm, f in FN.items():
        def h(ip, st, a, nm=nm):
            M = v.rows(st, a[1])
            v.ensure('weights of Q = C^T C', st, lambda: band(*[eq(x, y) for r1, r2 in zip(M, Qwant) for x, y in zip(r1, r2)]))
            return [(st, uf(nm)(*[zi(a[0].f[c]) for c in 'HKL']))]
        if not v.summary('pfc.' + f, h):
            raise Unsupported('%s is gone' % f)


def mkmatch(d, m, names):
    @contract('C29', 'MatchElasticProp: squared deviation of %s, its gradient and the fit (%d modes, %dD)' % (', '.join(names), m, d), ['(*pfc.ModeSolver).MatchElasticProp'])
    def match(F):
        v = F.new('%s, %d modes, %dD' % (','.join(names), m, d))
        p, M = v.dense(d, d, 'c')
        Q = matmul(T(M), M)
        opaque_weights(v, Q)
        ml = [v.struct('pfc.Miller', **{c: v.int(c.lower() + str(i)) for c in 'HKL'}) for i in range(m)]
        modes = v.list(ml)
        ms = v.obj('pfc.ModeSolver', Miller=modes, ReciprocalCell=v.struct('pfc.ReciprocalCell', CellVec=p))
        tgt = {n: v.real('target_' + n) for n in names}
        props = MapRef(v.ip.alloc(v.st, MapV(list(tgt.items()))))
        pen = Fraction(1, 10**6) if len(names) < m else ZERO
        W = lambda n, i: uf(n)(*[zi(ml[i].f[c]) for c in 'HKL'])
        pred = lambda n, x: sumr([mul(mul(x[i], x[i]), W(n, i)) for i in range(m)])
        X, out = [v.real('x%d' % i) for i in range(m)], [v.real('r%d' % i) for i in range(m)]
        n = Ghost(v)

        def value(x):
            dev = lambda k: sub(tgt[k], pred(k, x))
            return add(sumr([mul(dev(k), dev(k)) for k in names]), mul(pen, sumr([prod([y] * 4) for y in x])))

        def grad(x, j):
            return add(sumr([neg(mul(Fraction(4), prod([sub(tgt[k], pred(k, x)), x[j], W(k, j)]))) for k in names]), mul(mul(Fraction(4), pen), prod([x[j]] * 3)))

        def h_min(ip, st, a):
            n.inc(st)
            P_ = a[0].f
            v.ensure('one number per mode to start from', st, eq(a[1].len, m))
            # nothing but a stationary start would keep it from moving
            s0 = st.copy()
            for s, e in ip.call(s0, P_['Func'], [Slice(ip.alloc(s0, ListArr(X)), 0, m)]):
                v.ensure('objective', s, lambda: eq(e, value(X)))
            s0 = st.copy()
            g = Slice(ip.alloc(s0, ListArr([v.real('g%d' % i) for i in range(m)])), 0, m)
            for s, _ in ip.call(s0, P_['Grad'], [g, Slice(ip.alloc(s0, ListArr(X)), 0, m)]):
                for i in range(m):
                    v.ensure('gradient, component %d' % i, s, lambda: eq(v.get(s, g, i), grad(X, i)))
            z = ip.zero(v.prog.type_by_name('gonum.org/v1/gonum/optimize.Result'))
            loc = z.f['Location'].set('F', v.real('fbest')).set('X', Slice(ip.alloc(st, ListArr(out)), 0, m))
            return [(st, (Ptr(ip.alloc(st, z.set('Location', loc))), NILIFACE))]
        v.ip.summaries[MIN] = h_min
        ext.USED.add(MIN)
        for s, r in v.call('(*pfc.ModeSolver).MatchElasticProp', ms, props):
            v.ensure('minimised once', s, n.get(s) == 1)
            amp = r.f['Amp']
            v.ensure('amplitudes found', s, lambda: band(eq(amp.len, m), *[eq(v.get(s, amp, i), out[i]) for i in range(m)]))
            fit = dict(v.ip.read_ref(s, r.f['Fit'].ref).items)
            v.ensure('a fitted value for every property', s, sorted(fit) == sorted(names))
            for k in names:
                if k in fit:
                    v.ensure('fitted %s' % k, s, lambda: eq(fit[k], pred(k, out)))
            v.ensure('cell unchanged', s, band(*[eq(a, b) for x, y in zip(v.rows(s, p), M) for a, b in zip(x, y)]))


for a_ in ((3, 1, ('bulk',)), (3, 2, ('bulk', 'shear')), (3, 3, ('bulk', 'shear')), (2, 2, ('area', 'xyshear')), (2, 2, ('area',)), (2, 1, ('area', 'xyshear'))):
    mkmatch(*a_)


@contract('C29', 'MatchElasticProp refuses unknown properties', ['(*pfc.ModeSolver).MatchElasticProp'])
def unknown(F):
    v = F.new()
    p, M = v.dense(3, 3, 'c')
    ms = v.obj('pfc.ModeSolver', Miller=v.list([v.struct('pfc.Miller', H=1)] * 2), ReciprocalCell=v.struct('pfc.ReciprocalCell', CellVec=p))
    hit = []
    v.ip.on_panic = lambda st, why, *a: hit.append(why)
    props = MapRef(v.ip.alloc(v.st, MapV([('bulk', v.real('b')), ('young', v.real('y'))])))
    out = v.call('(*pfc.ModeSolver).MatchElasticProp', ms, props)
    v.ensure('refused', v.st, not out and len(hit) >= 1)


@contract('C29', 'PeakWidths: width^2 = number of equivalent planes / 2 times (amplitude / fitted factor)^2', ['(*pfc.ModeSolver).PeakWidths'])
def widths(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        n = v.int('n', 1)
        p, M = v.dense(d, d, 'c')
        pl = {c: z3.Function('mode_' + c, INT, INT) for c in 'HKL'}
        plane = lambda k: v.struct('pfc.Miller', **{c: pl[c](zi(k)) for c in 'HKL'})
        ms = v.obj('pfc.ModeSolver', Miller=Slice(v.ip.alloc(v.st, LamArr(plane)), 0, n), ReciprocalCell=v.struct('pfc.ReciprocalCell', CellVec=p))
        E = z3.Function('number', INT, INT, INT, INT)

        def num(m):
            t = E(*[zi(m.f[c]) for c in 'HKL'])
            CTX.fact(t >= 1)
            return t

        def h_num(ip, st, a):
            ip.oblige(st, 'number of planes in the dimension of the cell', eq(a[1], d))
            return [(st, num(a[0]))]
        if not v.summary('pfc.NumEquivalent', h_num):
            raise Unsupported('NumEquivalent is gone')
        props = MapRef(v.ip.alloc(v.st, MapV([('bulk', v.real('b'))])))
        fit = MapRef(v.ip.alloc(v.st, MapV([('bulk', v.real('f'))])))
        h = v.array('real', 'factor')
        hs = Slice(v.ip.alloc(v.st, h), 0, n)

        def h_match(ip, st, a):
            ip.oblige(st, 'matched to the target', band(a[0].ref.oid == ms.ref.oid, a[1].ref.oid == props.ref.oid))
            return [(st, v.struct('pfc.ElasticPropResult', Amp=hs, Fit=fit))]
        if not v.summary('(*pfc.ModeSolver).MatchElasticProp', h_match):
            raise Unsupported('MatchElasticProp is gone')
        a = v.slice('real', 'a', n)
        for s, r in v.call('(*pfc.ModeSolver).PeakWidths', ms, props, a):
            w = r.f['Widths']
            v.ensure('one width per mode', s, eq(w.len, n))
            v.ensure('the fit is passed on', s, r.f['Fit'].ref.oid == fit.ref.oid)
            half = Fraction(1, 2)
            v.ensure_all('width', s, n, lambda k: eq(v.get(s, w, k), mul(ext.sqrt(mul(half, toreal(num(plane(k))))), absv(rdiv(v.get(v.st, a, k), h.sel(k))))))
            v.ensure_all('not negative', s, n, lambda k: ge(v.get(s, w, k), ZERO))
            v.frame_slice('amplitudes unchanged', s, a)
