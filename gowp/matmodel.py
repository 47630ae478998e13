"""Trusted contracts of gonum's dense matrices (concrete sizes, symbolic entries).

A *mat.Dense is a pointer to the library's own struct; entry (i,j) is Data[i*Stride+j]."""
from fractions import Fraction
import z3
from .num import *
from .vals import *
from .ext import TABLE, ext

G = 'gonum.org/v1/gonum/mat.'
D = '(*' + G + 'Dense).'
VD = '(*' + G + 'VecDense).'


def _cint(x, what):
    if isinstance(x, int):
        return x
    raise Unsupported('matrix with symbolic %s' % what)


def new_dense(ip, st, r, c, entries=None, data=None):
    t = ip.prog.type_by_name(G + 'Dense')
    s = ip.zero(t)
    if data is None:
        ref = ip.alloc(st, ListArr(entries if entries is not None else [Fraction(0)] * (r * c)))
        data = Slice(ref, 0, r * c)
    g = s.f['mat'].set('Rows', r).set('Cols', c).set('Stride', c).set('Data', data)
    return Ptr(ip.alloc(st, s.set('mat', g).set('capRows', r).set('capCols', c)))


def dims(ip, st, p):
    if isinstance(p, Iface):
        p = p.v
    if isinstance(p, Opaque) and p.kind == 'transpose':
        r, c = dims(ip, st, p.a['of'])
        return c, r
    s = ip.load(st, p).f['mat'].f
    if 'Rows' in s:
        return _cint(s['Rows'], 'size'), _cint(s['Cols'], 'size')
    return _cint(s['N'], 'size'), 1


def at(ip, st, p, i, j=0):
    if isinstance(p, Iface):
        p = p.v
    if isinstance(p, Opaque) and p.kind == 'transpose':
        return at(ip, st, p.a['of'], j, i)
    s = ip.load(st, p).f['mat'].f
    if 'Rows' in s:
        return ip.get(st, s['Data'], add(mul(i, s['Stride']), j))
    return ip.get(st, s['Data'], mul(i, s['Inc']))


def rows(ip, st, p):
    r, c = dims(ip, st, p)
    return [[at(ip, st, p, i, j) for j in range(c)] for i in range(r)]


def setall(ip, st, p, M):
    """overwrite a receiver of the right size, or size an empty one"""
    s = ip.load(st, p)
    if 'Rows' in s.f['mat'].f:
        r, c = len(M), len(M[0])
        if s.f['mat'].f['Rows'] == 0:
            ref = ip.alloc(st, ListArr([x for row in M for x in row]))
            g = s.f['mat'].set('Rows', r).set('Cols', c).set('Stride', c).set('Data', Slice(ref, 0, r * c))
            ip.store(st, p, s.set('mat', g).set('capRows', r).set('capCols', c))
            return
        ip.oblige(st, 'mat: receiver has the size of the result', dims(ip, st, p) == (r, c))
        d = s.f['mat'].f['Data']
        for i in range(r):
            for j in range(c):
                ip.store(st, Ptr(d.ref, (('i', add(d.off, i * s.f['mat'].f['Stride'] + j)),)), M[i][j])
    else:
        d = s.f['mat'].f['Data']
        if s.f['mat'].f['N'] == 0:
            ref = ip.alloc(st, ListArr([row[0] for row in M]))
            ip.store(st, p, s.set('mat', s.f['mat'].set('N', len(M)).set('Inc', 1).set('Data', Slice(ref, 0, len(M)))))
            return
        ip.oblige(st, 'mat: receiver has the size of the result', dims(ip, st, p)[0] == len(M))
        for i in range(len(M)):
            ip.store(st, Ptr(d.ref, (('i', add(d.off, i * s.f['mat'].f['Inc'])),)), M[i][0])


def inrange(ip, st, i, n, what):
    ip.oblige(st, 'mat: %s index in range' % what, band(le(0, i), lt(i, n)))


@ext(G + 'NewDense')
def _newdense(ip, st, a):
    r, c = _cint(a[0], 'rows'), _cint(a[1], 'cols')
    if a[2].ref is None:
        return [(st, new_dense(ip, st, r, c))]
    ip.oblige(st, 'mat.NewDense: data has r*c elements', eq(a[2].len, r * c))
    return [(st, new_dense(ip, st, r, c, data=a[2]))]


@ext(G + 'NewVecDense')
def _newvec(ip, st, a):
    n = _cint(a[0], 'length')
    t = ip.prog.type_by_name(G + 'VecDense')
    s = ip.zero(t)
    data = a[1]
    if data.ref is None:
        data = Slice(ip.alloc(st, ListArr([Fraction(0)] * n)), 0, n)
    else:
        ip.oblige(st, 'mat.NewVecDense: data has n elements', eq(data.len, n))
    return [(st, Ptr(ip.alloc(st, s.set('mat', s.f['mat'].set('N', n).set('Inc', 1).set('Data', data)))))]


@ext(D + 'Dims')
def _dims(ip, st, a):
    return [(st, dims(ip, st, a[0]))]


@ext(D + 'At', G + 'Dense.At')
def _at(ip, st, a):
    r, c = dims(ip, st, a[0])
    inrange(ip, st, a[1], r, 'row')
    inrange(ip, st, a[2], c, 'column')
    return [(st, at(ip, st, a[0], a[1], a[2]))]


@ext(D + 'Set')
def _set(ip, st, a):
    p, i, j, x = a
    r, c = dims(ip, st, p)
    inrange(ip, st, i, r, 'row')
    inrange(ip, st, j, c, 'column')
    s = ip.load(st, p).f['mat'].f
    ip.store(st, Ptr(s['Data'].ref, (('i', add(s['Data'].off, add(mul(i, s['Stride']), j))),)), x)
    return [(st, None)]


@ext(D + 'RawMatrix')
def _raw(ip, st, a):
    return [(st, ip.load(st, a[0]).f['mat'])]


@ext(D + 'T')
def _t(ip, st, a):
    return [(st, Opaque('transpose', of=a[0]))]


TABLE['opaque.transpose.At'] = lambda ip, st, a: [(st, at(ip, st, a[0], a[1], a[2]))]
TABLE['opaque.transpose.Dims'] = lambda ip, st, a: [(st, dims(ip, st, a[0]))]


def matmul(A, B):
    out = []
    for i in range(len(A)):
        row = []
        for j in range(len(B[0])):
            x = Fraction(0)
            for k in range(len(B)):
                x = add(x, mul(A[i][k], B[k][j]))
            row.append(x)
        out.append(row)
    return out


@ext(D + 'Mul')
def _mul(ip, st, a):
    A, B = rows(ip, st, a[1]), rows(ip, st, a[2])
    ip.oblige(st, 'mat.Mul: shapes agree', len(A[0]) == len(B))
    setall(ip, st, a[0], matmul(A, B))
    return [(st, None)]


@ext(VD + 'MulVec')
def _mulvec(ip, st, a):
    A, B = rows(ip, st, a[1]), rows(ip, st, a[2])
    ip.oblige(st, 'mat.MulVec: shapes agree', len(A[0]) == len(B))
    setall(ip, st, a[0], matmul(A, B))
    return [(st, None)]


@ext(D + 'Product')
def _product(ip, st, a):
    fs = [ip.get(st, a[1], k) for k in range(_cint(a[1].len, 'factors'))]
    M = rows(ip, st, fs[0])
    for f in fs[1:]:
        M = matmul(M, rows(ip, st, f))
    setall(ip, st, a[0], M)
    return [(st, None)]


@ext(D + 'Scale')
def _scale(ip, st, a):
    setall(ip, st, a[0], [[mul(a[1], x) for x in r] for r in rows(ip, st, a[2])])
    return [(st, None)]


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return sub(mul(M[0][0], M[1][1]), mul(M[0][1], M[1][0]))
    x = Fraction(0)
    for j in range(n):
        m = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = mul(M[0][j], det(m))
        x = add(x, t) if j % 2 == 0 else sub(x, t)
    return x


def adjugate(M):
    n = len(M)
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = [[M[p][q] for q in range(n) if q != j] for p in range(n) if p != i]
            c = det(m) if n > 1 else Fraction(1)
            A[j][i] = c if (i + j) % 2 == 0 else neg(c)
    return A


@ext(G + 'Det')
def _det(ip, st, a):
    return [(st, det(rows(ip, st, a[0])))]


def _singular_split(ip, st, M, what):
    d = det(M)
    c = eq(d, 0)
    dd = CTX.decided(c)
    if dd is None and not isinstance(c, bool):
        if not ip.feasible(st, c):
            dd = False
    if dd is None and not isinstance(c, bool):
        raise NeedSplit(c)
    return d, (c if isinstance(c, bool) else dd)


@ext(D + 'Inverse')
def _inverse(ip, st, a):
    M = rows(ip, st, a[1])
    d, sing = _singular_split(ip, st, M, 'Inverse')
    if sing:
        return [(st, IfaceAbs('error', {}, 'singular'))]
    setall(ip, st, a[0], [[rdiv(x, d) for x in r] for r in adjugate(M)])
    return [(st, NILIFACE)]


@ext(D + 'Solve')
def _solve(ip, st, a):
    A, B = rows(ip, st, a[1]), rows(ip, st, a[2])
    d, sing = _singular_split(ip, st, A, 'Solve')
    if sing:
        return [(st, IfaceAbs('error', {}, 'singular'))]
    X = matmul(adjugate(A), B)
    setall(ip, st, a[0], [[rdiv(x, d) for x in r] for r in X])
    return [(st, NILIFACE)]


@ext(VD + 'AtVec')
def _atvec(ip, st, a):
    inrange(ip, st, a[1], dims(ip, st, a[0])[0], 'vector')
    return [(st, at(ip, st, a[0], a[1]))]


@ext(VD + 'SetVec')
def _setvec(ip, st, a):
    p, i, x = a
    inrange(ip, st, i, dims(ip, st, p)[0], 'vector')
    s = ip.load(st, p).f['mat'].f
    ip.store(st, Ptr(s['Data'].ref, (('i', add(s['Data'].off, mul(i, s['Inc']))),)), x)
    return [(st, None)]


@ext(VD + 'Len')
def _len(ip, st, a):
    return [(st, dims(ip, st, a[0])[0])]
