"""C27: unit cells and reciprocal cells"""
from contracts.common import *

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)


def matmul(A, B):
    return [[sum2([mul(A[i][k], B[k][j]) for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def sum2(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def T(A):
    return [list(r) for r in zip(*A)]


def det(M):
    if len(M) == 1:
        return M[0][0]
    r = ZERO
    for j in range(len(M)):
        m = [row[:j] + row[j + 1:] for row in M[1:]]
        r = add(r, mul(mul((-1) ** j, M[0][j]), det(m)))
    return r


@contract('C27', 'named cells: the columns are the cell vectors', ['pfc.FCC', 'pfc.BCC', 'pfc.SC3D', 'pfc.SC2D', '(*pfc.Cell).Volume'])
def named(F):
    h = Fraction(1, 2)
    for nm, vec, vol in (('FCC', [(h, h, 0), (0, h, h), (h, 0, h)], Fraction(1, 4)), ('BCC', [(h, h, h), (-h, h, h), (h, -h, h)], h),
                         ('SC3D', [(1, 0, 0), (0, 1, 0), (0, 0, 1)], ONE), ('SC2D', [(1, 0), (0, 1)], ONE)):
        v = F.new(nm)
        a = v.real('a')
        d = len(vec)
        for s, c in v.call('pfc.' + nm, a):
            M = v.rows(s, c.f['CellVec'])
            v.ensure('size', s, len(M) == d and len(M[0]) == d)
            for i in range(d):
                for j in range(d):
                    v.ensure('component %d of vector %d' % (i, j), s, eq(M[i][j], mul(Fraction(vec[j][i]), a)))
            p = Ptr(v.ip.alloc(s, c))
            for s2, r in v.call('(*pfc.Cell).Volume', p, st=s):
                x = mul(Fraction(vol), a)
                for _ in range(d - 1):
                    x = mul(x, a)
                v.ensure('volume', s2, eq(r, x))


def cells(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        p, C0 = v.dense(d, d, 'c')
        v.assume(bnot(eq(det(C0), ZERO)))
        yield v, d, p, C0


@contract('C27', 'Reciprocal: reciprocal and real vectors have products 2 pi delta', ['(*pfc.Cell).Reciprocal', '(*pfc.Cell).Volume'])
def reciprocal(F):
    for v, d, p, C0 in cells(F):
        cell = v.obj('pfc.Cell', CellVec=p)
        for s, r in v.call('(*pfc.Cell).Reciprocal', cell):
            M = v.rows(s, r.f['CellVec'])
            P = matmul(T(M), C0)
            for i in range(d):
                for j in range(d):
                    v.ensure('product of reciprocal vector %d and real vector %d' % (i, j), s, lambda: eq(P[i][j], mul(TWO, PI) if i == j else ZERO))
            C1 = v.rows(s, p)
            v.ensure('cell unchanged', s, band(*[eq(C1[i][j], C0[i][j]) for i in range(d) for j in range(d)]))
        for s, r in v.call('(*pfc.Cell).Volume', cell):
            v.ensure('volume', s, eq(r, det(C0)))
        v.reachable('pre', v.st)


@contract('C27', 'HKLVector, CellChange, ChangeHKLVector', ['(*pfc.ReciprocalCell).HKLVector', '(*pfc.ReciprocalCell).CellChange', '(*pfc.ReciprocalCell).ChangeHKLVector'])
def change(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        p, M = v.dense(d, d, 'm')
        q, D = v.dense(d, d, 'd')
        h = [v.int(n) for n in 'hkl']
        mi = v.struct('pfc.Miller', H=h[0], K=h[1], L=h[2])
        rc = v.obj('pfc.ReciprocalCell', CellVec=p)
        comb = lambda A, i: sum2([mul(toreal(h[j]), A[i][j]) for j in range(d)])
        dM = [[neg(rdiv(x, mul(TWO, PI))) for x in r] for r in matmul(matmul(M, T(D)), M)]
        for s, r in v.call('(*pfc.ReciprocalCell).HKLVector', rc, mi):
            v.ensure('length', s, eq(r.len, d))
            for i in range(d):
                v.ensure('hkl component %d' % i, s, eq(v.get(s, r, i), comb(M, i)))
        for s, r in v.call('(*pfc.ReciprocalCell).CellChange', rc, q):
            R = v.rows(s, r)
            for i in range(d):
                for j in range(d):
                    v.ensure('change of component %d of vector %d' % (i, j), s, eq(R[i][j], dM[i][j]))
            v.ensure('arguments unchanged', s, band(*[eq(a, b) for X, Y in ((v.rows(s, p), M), (v.rows(s, q), D)) for x, y in zip(X, Y) for a, b in zip(x, y)]))
        for s, r in v.call('(*pfc.ReciprocalCell).ChangeHKLVector', rc, mi, q):
            v.ensure('length', s, eq(r.len, d))
            for i in range(d):
                v.ensure('change of hkl component %d' % i, s, eq(v.get(s, r, i), comb(dM, i)))


@contract('C27', 'CellChange is the first-order change of the reciprocal cell', ['(*pfc.ReciprocalCell).CellChange', '(*pfc.Cell).Reciprocal'])
def first_order(F):
    # M^T C = 2 pi I at first order: dM^T C + M^T dC = 0
    for v, d, p, C0 in cells(F):
        q, D = v.dense(d, d, 'd')
        for s, rec in v.call('(*pfc.Cell).Reciprocal', v.obj('pfc.Cell', CellVec=p)):
            M = v.rows(s, rec.f['CellVec'])
            rc = Ptr(v.ip.alloc(s, rec))
            for s2, r in v.call('(*pfc.ReciprocalCell).CellChange', rc, q, st=s):
                R = v.rows(s2, r)
                A, B = matmul(T(R), C0), matmul(T(M), D)
                for i in range(d):
                    for j in range(d):
                        v.ensure('entry (%d,%d)' % (i, j), s2, lambda: eq(add(A[i][j], B[i][j]), ZERO))
