"""C05: Voronoi assignment"""
from contracts.common import *

MAXINT = 2 ** 63 - 1


def periodic_dist2(dom, i, j):
    """squared minimum-image distance of nodes i, j"""
    X, Y = (dom.coord(i), dom.coord(j)) if dom.IDX is None else (dom.pos(i), dom.pos(j))
    r = 0
    for k in range(dom.d):
        a = absv(sub(X[k], Y[k]))
        m = ite(le(a, sub(dom.D[k], a)), a, sub(dom.D[k], a))
        r = add(r, mul(m, m))
    return r


@contract('C05', 'Voronoi: nearest generating point, lowest number on ties', ['pfutil.Voronoi'])
def voronoi(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        dom = Domain(v, d)
        if P('pfutil.pointDistSq') in F.prog.fns:
            dom.use_contracts()
        npts = v.int('npts', 1)
        n = v.int('ndata', 0)
        v.assume(le(n, dom.N))
        data = v.slice('int', 'data', n)
        pf = z3.Function('pts', INT, INT)

        def pt(k):
            k = zi(k)
            CTX.fact(imp(band(ge(k, 0), lt(k, npts)), band(ge(pf(k), 0), lt(pf(k), dom.N))))
            return pf(k)
        pts = v.slice('int', 'pts', npts, content=LamArr(pt))
        v.inputs['npts_'] = npts
        # the distance of two nodes: opaque here, specified by the contract of pointDistSq when the
        # code has that helper, and by the formula itself otherwise
        DF = z3.Function('dist2', INT, INT, INT)

        def d2(a, b):
            a, b = zi(a), zi(b)
            t = DF(a, b)
            CTX.fact(imp(band(ge(a, 0), lt(a, dom.N), ge(b, 0), lt(b, dom.N)), band(ge(t, 0), lt(t, MAXINT), eq(t, DF(b, a)))))
            if not opaque:
                CTX.fact(imp(band(ge(a, 0), lt(a, dom.N), ge(b, 0), lt(b, dom.N)), eq(t, periodic_dist2(dom, a, b))))
            return t

        def helper(ip, st, args):
            i, j, ds = args
            ip.oblige(st, 'pointDistSq: nodes of the domain', band(ge(i, 0), lt(i, dom.N), ge(j, 0), lt(j, dom.N)))
            for k in range(d):
                ip.oblige(st, 'pointDistSq: domain size', eq(ip.get(st, ds, k), dom.D[k]))
            return [(st, d2(i, j))]
        opaque = v.summary('pfutil.pointDistSq', helper)

        def dist(m, node):
            return d2(pt(m), node)
        v.ip.assumptions.add('squared distances on the domain are below 2^63-1')
        mind = SpecRec('mind', lambda p: MAXINT, lambda p, t, r: ite(lt(dist(t, p), r), dist(t, p), r), INT, 1, lambda ip: [(x,) for x in ip.iters])
        best = SpecRec('best', lambda p: 0, lambda p, t, r: ite(lt(dist(t, p), mind.at(p, t)), t, r), INT, 1, lambda ip: [(x,) for x in ip.iters])
        v.ip.specfns += [mind, best]
        for s, _ in v.call('pfutil.Voronoi', pts, data, dom.list()):
            k, j = z3.Ints('k j')
            s.assume(band(ge(k, 0), lt(k, n), ge(j, 0), lt(j, npts)))
            v.ip.focus(s)
            r = v.get(s, data, k)
            v.ensure('assigned by the running minimum', s, lambda: eq(r, best.at(k, npts)))
            # the running minimum finds the minimum (induction over the points)
            inv = lambda t: imp(le(t, npts), band(
                imp(ge(t, 1), band(ge(best.at(k, t), 0), lt(best.at(k, t), t), lt(mind.at(k, t), MAXINT), eq(mind.at(k, t), dist(best.at(k, t), k)))),
                imp(le(t, 0), eq(mind.at(k, t), MAXINT)),
                imp(lt(j, t), le(mind.at(k, t), dist(j, k))),
                imp(band(lt(j, t), lt(j, best.at(k, t))), lt(mind.at(k, t), dist(j, k)))))
            v.induct('running minimum', inv, [npts], st=s)
            v.ensure('names a point', s, lambda: band(ge(r, 0), lt(r, npts)))
            v.ensure('no point is closer', s, lambda: le(dist(r, k), dist(j, k)))
            v.ensure('lowest number among the closest', s, lambda: imp(eq(dist(j, k), dist(r, k)), le(r, j)))
            v.frame_slice('points unchanged', s, pts)
        v.reachable('pre', v.st)


@contract('C05', 'pointDistSq: squared minimum image distance', ['pfutil.pointDistSq'])
def distance(F):
    if P('pfutil.pointDistSq') not in F.prog.fns:
        F.new().ensure('inlined into Voronoi', State(), True)
        return
    for d in (2, 3):
        v = F.new('%dD' % d)
        dom = Domain(v, d).use_contracts()
        i, j = dom.node('i'), dom.node('j')
        dl = dom.list()
        for s, r in v.call('pfutil.pointDistSq', i, j, dl):
            v.ensure('distance', s, lambda: eq(r, periodic_dist2(dom, i, j)))
            v.frame_slice('domain size unchanged', s, dl)


@contract('C05', 'minimum image distance (lemma)', [])
def minimage(F):
    """|a| or n-|a| is the smallest |a + m n| over all whole m, for |a| < n"""
    v = F.new()
    n, a, m = v.int('n', 1), v.int('a'), v.int('m')
    v.assume(band(lt(a, n), gt(a, neg(n))))
    b = absv(a)
    best = ite(le(b, sub(n, b)), b, sub(n, b))
    mn = z3.Int('mn')
    v.assume(eq(mn, mul(m, n)))
    for f in (imp(band(ge(m, 1), ge(n, 0)), ge(mul(m, n), n)), imp(band(le(m, -1), ge(n, 0)), le(mul(m, n), neg(n))), imp(eq(m, 0), eq(mul(m, n), 0))):
        v.fact(f)
    v.ensure('no image is closer', v.st, le(best, absv(add(a, mul(m, n)))))
