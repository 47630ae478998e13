"""C01 node index <-> position, C02 periodic wrap, C03 product iterator"""
from contracts.common import *


def dims_pos(v, d, posname='x'):
    D = [v.int('n%d' % i, 1) for i in range(d)]
    X = [v.int('%s%d' % (posname, i), 0) for i in range(d)]
    for i in range(d):
        v.assume(lt(X[i], D[i]))
    return D, X


def pos_hints(v, D, X):
    """uniqueness of division for the index of position X"""
    i = layout(D, X)
    low = add(mul(X[0], D[1]), X[1])
    h = [(i, D[1], X[0] if len(D) == 2 else add(mul(X[2], D[0]), X[0]), X[1])]
    if len(D) == 3:
        h += [(i, mul(D[0], D[1]), X[2], low), (add(mul(X[2], D[0]), X[0]), D[0], X[2], X[0]), (low, D[1], X[0], X[1])]
    else:
        h += [(X[0], D[0], 0, X[0])]
    return h


@contract('C01', 'NodeIdx: layout and range', ['pfutil.NodeIdx'])
def nodeidx(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D, X = dims_pos(v, d)
        for f in mono_facts(D, X):
            v.fact(f)
        dl, xl = v.list(D), v.list(X)
        for s, r in v.call('pfutil.NodeIdx', dl, xl):
            v.frame_slice('domain size unchanged', s, dl)
            v.frame_slice('position unchanged', s, xl)
            v.ensure('index is x*ny+y (+ z*nx*ny)', s, eq(r, layout(D, X)))
            v.ensure('index in [0,N)', s, band(ge(r, 0), lt(r, nnodes(D))))
        v.reachable('pre', v.st)


@contract('C01', 'Pos after NodeIdx is the identity', ['pfutil.NodeIdx', 'pfutil.Pos'])
def pos_of_nodeidx(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D, X = dims_pos(v, d)
        for f in mono_facts(D, X):
            v.fact(f)
        v.ip.div_hints += pos_hints(v, D, X)
        for s, i in v.call('pfutil.NodeIdx', v.list(D), v.list(X)):
            for s2, p in v.call('pfutil.Pos', v.list(D), i, st=s):
                v.ensure('dimension', s2, eq(p.len, d))
                for k in range(d):
                    v.ensure('Pos(NodeIdx(x))[%d]=x[%d]' % (k, k), s2, eq(v.get(s2, p, k), X[k]))


def node_coords(v, D, i):
    """spec coordinates of node i: fresh ints with their (unique) defining property"""
    d = len(D)
    X = [z3.Int('c%d' % k) for k in range(d)]
    v.assume(eq(i, layout(D, X)))
    for k in range(d):
        v.assume(ge(X[k], 0))
        v.assume(lt(X[k], D[k]))
    for f in mono_facts(D, X):
        v.fact(f)
    v.ip.div_hints += pos_hints(v, D, X)
    w = list(pos_hints(v, D, X))
    v.ip.div_hints += [(i, B, Q, R) for (A, B, Q, R) in w if A is w[0][0] or poly_same(A, w[0][0])]
    return X


def poly_same(a, b):
    return poly_eq(zi(a), zi(b))


@contract('C01', 'NodeIdx after Pos is the identity', ['pfutil.NodeIdx', 'pfutil.Pos'])
def nodeidx_of_pos(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        i = v.int('i', 0)
        v.assume(lt(i, nnodes(D)))
        X = node_coords(v, D, i)
        for s, p in v.call('pfutil.Pos', v.list(D), i):
            for k in range(d):
                v.ensure('Pos(i)[%d] in range' % k, s, band(ge(v.get(s, p, k), 0), lt(v.get(s, p, k), D[k])))
            for s2, j in v.call('pfutil.NodeIdx', v.list(D), p, st=s):
                v.ensure('NodeIdx(Pos(i))=i', s2, eq(j, i))
        v.reachable('pre', v.st)


@contract('C01', 'every node has coordinates (lemma)', [])
def coords_exist(F):
    """for 0<=i<N the coordinates assumed by node_coords exist: i%ny, (i/ny)%nx, i/ny/nx"""
    for d in (2, 3):
        v = F.new('%dD' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        i = v.int('i', 0)
        v.assume(lt(i, nnodes(D)))
        q, c, q2, r = z3.Ints('q c q2 r')
        v.assume(band(eq(i, add(mul(q, D[1]), c)), ge(c, 0), lt(c, D[1]), ge(q, 0)))
        if d == 2:
            v.fact(imp(band(ge(q, D[0]), ge(D[1], 0)), ge(mul(q, D[1]), mul(D[0], D[1]))))
            v.ensure('row in range', v.st, lt(q, D[0]))
            v.ensure('layout', v.st, eq(i, layout(D, [q, c])))
        else:
            v.assume(band(eq(q, add(mul(q2, D[0]), r)), ge(r, 0), lt(r, D[0]), ge(q2, 0)))
            n2 = mul(D[0], D[1])
            v.fact(imp(band(ge(r, 0), ge(D[1], 0)), ge(mul(r, D[1]), 0)))
            v.fact(imp(band(ge(D[0], 0), ge(D[1], 0)), ge(n2, 0)))
            v.fact(imp(band(ge(q2, D[2]), ge(n2, 0)), ge(mul(q2, n2), mul(D[2], n2))))
            v.ensure('layout', v.st, eq(i, layout(D, [r, c, q2])))
            v.ensure('depth in range', v.st, lt(q2, D[2]))


@contract('C01', 'distinct positions have distinct indices', ['pfutil.NodeIdx'])
def injective(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D, X = dims_pos(v, d)
        Y = [v.int('y%d' % i, 0) for i in range(d)]
        for i in range(d):
            v.assume(lt(Y[i], D[i]))
        for f in mono_facts(D, X) + mono_facts(D, Y):
            v.fact(f)
        v.ip.div_hints += pos_hints(v, D, X) + pos_hints(v, D, Y)
        for s, i in v.call('pfutil.NodeIdx', v.list(D), v.list(X)):
            for s2, j in v.call('pfutil.NodeIdx', v.list(D), v.list(Y), st=s):
                for s3, p in v.call('pfutil.Pos', v.list(D), i, st=s2):
                    for s4, q in v.call('pfutil.Pos', v.list(D), j, st=s3):
                        # equal indices have equal positions (Pos is a function of the index)
                        for k in range(d):
                            v.ensure('x[%d]=y[%d]' % (k, k), s4, imp(veq(v.get(s4, p, k), v.get(s4, q, k)), eq(X[k], Y[k])))


def grid(v, D, n, name='data'):
    data = v.slice('real', name, n)
    return v.struct('pfutil.Grid', Dims=v.list(D), Data=data), data


@contract('C01', 'Grid.Get/Set/Index/Pos use the same layout', ['pfutil.Grid.Get', 'pfutil.Grid.Set', 'pfutil.Grid.Index', 'pfutil.Grid.Pos'])
def grid_get(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D, X = dims_pos(v, d)
        Y = [v.int('y%d' % i, 0) for i in range(d)]
        for i in range(d):
            v.assume(lt(Y[i], D[i]))
        for f in mono_facts(D, X) + mono_facts(D, Y):
            v.fact(f)
        v.ip.div_hints += pos_hints(v, D, X)
        n = v.int('n')
        v.assume(eq(n, nnodes(D)))
        g, data = grid(v, D, n)
        pg = Ptr(v.ip.alloc(v.st, g))
        val = v.real('val')
        for s, i in v.call('(pfutil.Grid).Index', g, v.list(X)):
            v.ensure('Index', s, eq(i, layout(D, X)))
            for s2, p in v.call('(pfutil.Grid).Pos', g, i, st=s):
                for k in range(d):
                    v.ensure('Pos[%d]' % k, s2, eq(v.get(s2, p, k), X[k]))
        for s, r in v.call('(pfutil.Grid).Get', g, v.list(X)):
            v.ensure('Get reads the node', s, lambda: veq(r, v.get(s, data, layout(D, X))))
        for s, _ in v.call('(*pfutil.Grid).Set', pg, v.list(X), val):
            v.ensure_all('Set changes exactly the node', s, n,
                         lambda k: veq(v.get(s, data, k), ite(eq(k, layout(D, X)), val, v.get(v.st, data, k))))
            for s2, r in v.call('(pfutil.Grid).Get', g, v.list(X), st=s):
                v.ensure('Get after Set', s2, lambda: veq(r, val))


@contract('C01', 'NewGrid allocates one value per node', ['pfutil.NewGrid'])
def newgrid(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        v.fact(imp(band(ge(D[0], 1), ge(D[1], 1)), ge(mul(D[0], D[1]), 1)))
        if d == 3:
            n2 = mul(D[0], D[1])
            v.fact(imp(band(ge(n2, 1), ge(D[2], 1)), ge(mul(n2, D[2]), 1)))
        for s, g in v.call('pfutil.NewGrid', v.list(D)):
            v.ensure('size', s, eq(g.f['Data'].len, nnodes(D)))
            v.ensure_all('zero', s, nnodes(D), lambda k: eq(v.get(s, g.f['Data'], k), 0))
            for k in range(d):
                v.ensure('dims', s, eq(v.get(s, g.f['Dims'], k), D[k]))


# ------------------------------------------------------------------ C02
@contract('C02', 'Wrap: periodic image inside the box, any dimension', ['pfutil.Wrap'])
def wrap(F):
    v = F.new()
    n = v.int('n', 0)
    dims = v.slice('int', 'dims', n)
    pos = v.slice('int', 'pos', n)
    dbase, pbase = v.content(dims), v.content(pos)

    def posdim(k):
        CTX.fact(imp(band(le(0, k), lt(k, n)), ge(dbase.sel(k), 1)))
        return dbase.sel(k)
    v.setcontent(dims, LamArr(posdim))
    for s, _ in v.call('pfutil.Wrap', pos, dims):
        v.ensure_all('inside the box', s, n, lambda k: band(ge(v.get(s, pos, k), 0), lt(v.get(s, pos, k), v.get(s, dims, k))))
        v.ensure_all('congruent to the original coordinate', s, n, lambda k: eq(v.get(s, pos, k), emod(pbase.sel(k), posdim(k))))
        v.ensure_all('identity inside the box', s, n, lambda k: imp(band(ge(v.get(v.st, pos, k), 0), lt(v.get(v.st, pos, k), v.get(s, dims, k))), eq(v.get(s, pos, k), v.get(v.st, pos, k))))
        v.frame_slice('box unchanged', s, dims)
    v.reachable('pre', v.st)


@contract('C02', 'Wrap: shifting by whole periods changes nothing', ['pfutil.Wrap'])
def wrap_shift(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        X = [v.int('x%d' % i) for i in range(d)]
        M = [v.int('m%d' % i) for i in range(d)]
        a = v.list(X)
        b = v.list([add(X[i], mul(M[i], D[i])) for i in range(d)])
        for s, _ in v.call('pfutil.Wrap', a, v.list(D)):
            for s2, _ in v.call('pfutil.Wrap', b, v.list(D), st=s):
                for i in range(d):
                    v.ensure('same image [%d]' % i, s2, eq(v.get(s2, a, i), v.get(s2, b, i)))


# ------------------------------------------------------------------ C03
def rank(D, X):
    r = 0
    for n, x in zip(D, X):
        r = add(mul(r, n), x)
    return r


def total(D):
    r = 1
    for n in D:
        r = mul(r, n)
    return r


@contract('C03', 'Product.Next: lexicographic successor, nil after the last tuple', ['pfutil.NewProduct', '(*pfutil.Product).Next'])
def product(F):
    for d in (1, 2, 3, 4):
        v = F.new('len%d' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        for s, p in v.call('pfutil.NewProduct', v.list(D)):
            pp = Ptr(v.ip.alloc(s, p))
            for s1, r in v.call('(*pfutil.Product).Next', pp, st=s):
                v.ensure('first result is a tuple', s1, bnot(eq(r.len, 0)))
                for k in range(d):
                    v.ensure('first tuple is zero', s1, eq(v.get(s1, r, k), 0))
                # an arbitrary later point of the enumeration: Current holds any tuple
                X = [v.int('x%d' % i, 0) for i in range(d)]
                s2 = s1.copy()
                for i in range(d):
                    s2.assume(ge(X[i], 0))
                    s2.assume(lt(X[i], D[i]))
                cur = v.load(s2, pp, 'Current')
                v.setcontent(cur, ListArr(X), st=s2)
                v.reachable('mid enumeration', s2)
                last = band(*[eq(X[i], sub(D[i], 1)) for i in range(d)])
                # successor in lexicographic order
                S = list(X)
                carry = True
                for i in range(d - 1, -1, -1):
                    S[i] = ite(carry, ite(eq(add(X[i], 1), D[i]), 0, add(X[i], 1)), X[i])
                    carry = band(carry, eq(add(X[i], 1), D[i]))
                for s3, r in v.call('(*pfutil.Product).Next', pp, st=s2):
                    isnil = r.ref is None
                    v.ensure('nil exactly after the last tuple', s3, last if isnil else bnot(last))
                    if not isnil:
                        v.ensure('tuple length', s3, eq(r.len, d))
                        for k in range(d):
                            v.ensure('lexicographic successor [%d]' % k, s3, lambda: eq(v.get(s3, r, k), S[k]))
                        for k in range(d):
                            v.ensure('Current is the returned tuple', s3, lambda: eq(v.get(s3, v.load(s3, pp, 'Current'), k), S[k]))
                    for k in range(d):
                        v.ensure('End unchanged', s3, lambda: eq(v.get(s3, v.load(s3, pp, 'End'), k), D[k]))


@contract('C03', 'the successor enumerates every tuple once (lemma)', [])
def product_rank(F):
    for d in (1, 2, 3, 4):
        v = F.new('len%d' % d)
        D = [v.int('n%d' % i, 1) for i in range(d)]
        X = [v.int('x%d' % i, 0) for i in range(d)]
        for i in range(d):
            v.assume(lt(X[i], D[i]))
        S = list(X)
        carry = True
        for i in range(d - 1, -1, -1):
            S[i] = ite(carry, ite(eq(add(X[i], 1), D[i]), 0, add(X[i], 1)), X[i])
            carry = band(carry, eq(add(X[i], 1), D[i]))
        v.ensure('rank grows by one', v.st, imp(bnot(carry), eq(rank(D, S), add(rank(D, X), 1))))
        v.ensure('rank of the last tuple is N-1', v.st, imp(carry, eq(rank(D, X), sub(total(D), 1))))
