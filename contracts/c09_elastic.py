"""C09/C10: elastic tensors and tensor algebra"""
import itertools
from contracts.common import *
from gowp.ext import sin, cos

I3 = range(3)
IDX4 = list(itertools.product(I3, repeat=4))


def kd(a, b):
    return Fraction(1 if a == b else 0)


def at4(v, s, t, i, j, k, l):
    return v.get(s, t.f['Data'], 27 * i + 9 * j + 3 * k + l)


def tensor(v, name='C'):
    data = v.slice('real', name, 81)
    return v.obj('elasticity.Rank4', Data=data), data


def T(v, st, data):
    xs = [v.get(st, data, n) for n in range(81)]
    return lambda i, j, k, l: xs[27 * i + 9 * j + 3 * k + l]


def all4(v, what, s, f, idx=IDX4):
    for q in idx:
        v.ensure('%s %s' % (what, ''.join(map(str, q))), s, f(*q))


def iso(K, G, i, j, k, l):
    r = mul(sub(K, rdiv(mul(Fraction(2), G), Fraction(3))), kd(i, j) * kd(k, l))
    return add(r, mul(G, kd(i, k) * kd(j, l) + kd(i, l) * kd(j, k)))


def cubic(c11, c12, c44, i, j, k, l):
    if i == j == k == l:
        return c11
    if i == j and k == l:
        return c12
    if i != j and {i, j} == {k, l}:
        return c44
    return Fraction(0)


@contract('C09', 'At/Set address distinct components', ['(*elasticity.Rank4).At', '(*elasticity.Rank4).Set', 'elasticity.NewRank4'])
def atset(F):
    v = F.new()
    t, data = tensor(v)
    I = [v.int(n, 0, 2) for n in 'ijkl']
    J = [v.int(n, 0, 2) for n in 'mnpq']
    x = v.real('x')
    for s, _ in v.call('(*elasticity.Rank4).Set', t, *(I + [x])):
        for s2, r in v.call('(*elasticity.Rank4).At', t, *J, st=s):
            for s3, o in v.call('(*elasticity.Rank4).At', t, *J):
                v.ensure('only the named component changes', s2, eq(r, ite(band(*[eq(a, b) for a, b in zip(I, J)]), x, o)))
    for s, r in v.call('elasticity.NewRank4'):
        v.ensure('81 components', s, eq(r.f['Data'].len, 81))
        for n in range(81):
            v.ensure('zero', s, eq(v.get(s, r.f['Data'], n), Fraction(0)))


@contract('C09', 'Isotropic tensor', ['elasticity.Isotropic', 'elasticity.Shear'])
def isotropic(F):
    v = F.new()
    K, nu = v.real('K'), v.real('nu')
    v.assume(bnot(eq(add(nu, 1), 0)))
    G = rdiv(mul(mul(3, K), sub(1, mul(2, nu))), mul(2, add(1, nu)))
    for s, r in v.call('elasticity.Shear', K, nu):
        v.ensure('shear modulus', s, eq(r, G))
    for s, r in v.call('elasticity.Isotropic', K, nu):
        all4(v, 'component', s, lambda *q: eq(at4(v, s, r, *q), iso(K, G, *q)))


@contract('C09', 'Cubic tensor', ['elasticity.CubicMaterial'])
def cubic_c(F):
    v = F.new()
    c = [v.real('c11'), v.real('c12'), v.real('c44')]
    for s, r in v.call('elasticity.CubicMaterial', *c):
        all4(v, 'component', s, lambda *q: eq(at4(v, s, r, *q), cubic(*c, *q)))


VOIGT = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (0, 2): 4, (0, 1): 5}


@contract('C09', 'Voigt representation', ['elasticity.FromFlatVoigt'])
def voigt(F):
    v = F.new()
    a = v.slice('real', 'voigt', 36)
    V = [v.get(v.st, a, n) for n in range(36)]
    vi = lambda i, j: VOIGT[tuple(sorted((i, j)))]
    for s, r in v.call('elasticity.FromFlatVoigt', a):
        all4(v, 'component', s, lambda i, j, k, l: eq(at4(v, s, r, i, j, k, l), V[6 * vi(i, j) + vi(k, l)]))
        v.frame_slice('argument unchanged', s, a)
        all4(v, 'minor symmetries', s, lambda i, j, k, l: band(eq(at4(v, s, r, i, j, k, l), at4(v, s, r, j, i, k, l)), eq(at4(v, s, r, i, j, k, l), at4(v, s, r, i, j, l, k))))
        sym = [eq(V[6 * p + q], V[6 * q + p]) for p in range(6) for q in range(p)]
        s3 = s.copy()
        for f in sym:
            s3.assume(f)
        all4(v, 'major symmetry for symmetric matrices', s3, lambda i, j, k, l: eq(at4(v, s, r, i, j, k, l), at4(v, s, r, k, l, i, j)))


@contract('C09', 'isotropic and cubic tensors have all symmetries (lemma)', [])
def symm(F):
    v = F.new()
    K, G, c11, c12, c44 = [v.real(n) for n in ('K', 'G', 'c11', 'c12', 'c44')]
    for nm, f in (('isotropic', lambda *q: iso(K, G, *q)), ('cubic', lambda *q: cubic(c11, c12, c44, *q))):
        all4(v, nm, v.st, lambda i, j, k, l: band(eq(f(i, j, k, l), f(j, i, k, l)), eq(f(i, j, k, l), f(i, j, l, k)), eq(f(i, j, k, l), f(k, l, i, j))))


@contract('C09', 'cubic tensors are invariant under quarter turns', ['elasticity.CubicMaterial', '(*elasticity.Rank4).Rotate'])
def cubic_inv(F):
    one, zero = Fraction(1), Fraction(0)
    for ax in I3:
        v = F.new('axis %d' % ax)
        c = [v.real('c11'), v.real('c12'), v.real('c44')]
        i, j = (ax + 1) % 3, (ax + 2) % 3
        M = [[zero] * 3 for _ in I3]
        M[ax][ax], M[i][j], M[j][i] = one, one, -one
        for s, r in v.call('elasticity.CubicMaterial', *c):
            m, _ = v.dense(3, 3, entries=[x for row in M for x in row])
            p = Ptr(v.ip.alloc(s, r))
            for s2, _ in v.call('(*elasticity.Rank4).Rotate', p, v.iface('gonum.org/v1/gonum/mat.Dense', m), st=s):
                r2 = v.load(s2, p)
                all4(v, 'component', s2, lambda *q: eq(at4(v, s2, r2, *q), cubic(*c, *q)))


@contract('C09', 'isotropic tensors are invariant under rotations', ['elasticity.Isotropic', 'elasticity.RotationMatrix', '(*elasticity.Rank4).Rotate'])
def iso_inv(F):
    """sum_mnpq R_im R_jn R_kp R_lq C_mnpq = C_ijkl for C = a dd + G(dd+dd) reduces to R R^T = 1"""
    v = F.new('lemma')
    R = [[v.real('r%d%d' % (i, j)) for j in I3] for i in I3]
    K, G = v.real('K'), v.real('G')
    dotr = lambda i, j: add(add(mul(R[i][0], R[j][0]), mul(R[i][1], R[j][1])), mul(R[i][2], R[j][2]))
    a = sub(K, rdiv(mul(Fraction(2), G), Fraction(3)))
    for q in [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 0, 1), (0, 1, 1, 2), (0, 0, 1, 2)]:
        i, j, k, l = q
        tot = Fraction(0)
        for m, n, p, u in IDX4:
            c = iso(K, G, m, n, p, u)
            if is_conc(c) and c == 0:
                continue
            tot = add(tot, mul(mul(mul(mul(R[i][m], R[j][n]), R[k][p]), R[l][u]), c))
        w = add(mul(a, mul(dotr(i, j), dotr(k, l))), mul(G, add(mul(dotr(i, k), dotr(j, l)), mul(dotr(i, l), dotr(j, k)))))
        v.ensure('rotated component %s in terms of R R^T' % (q,), v.st, eq(tot, w))


@contract('C10', 'Rotate: C_ijkl = R_im R_jn R_kp R_lq C_mnpq', ['(*elasticity.Rank4).Rotate'])
def rotate(F):
    v = F.new()
    t, data = tensor(v)
    m, R = v.dense(3, 3, 'R')
    C0 = T(v, v.st, data)
    for s, _ in v.call('(*elasticity.Rank4).Rotate', t, v.iface('gonum.org/v1/gonum/mat.Dense', m)):
        r = v.load(s, t)

        def want(i, j, k, l):
            tot = Fraction(0)
            for a, b, c, d in IDX4:
                tot = add(tot, mul(mul(mul(mul(R[i][a], R[j][b]), R[k][c]), R[l][d]), C0(a, b, c, d)))
            return tot
        all4(v, 'component', s, lambda *q: eq(at4(v, s, r, *q), want(*q)))
        M = v.rows(s, m)
        v.ensure('rotation unchanged', s, band(*[eq(M[i][j], R[i][j]) for i in I3 for j in I3]))


@contract('C10', 'ContractLast: s_ij = C_ijkl e_kl', ['(*elasticity.Rank4).ContractLast'])
def contract_last(F):
    v = F.new()
    t, data = tensor(v)
    m, E = v.dense(3, 3, 'e')
    C0 = T(v, v.st, data)
    for s, r in v.call('(*elasticity.Rank4).ContractLast', t, m):
        M = v.rows(s, r)
        for i in I3:
            for j in I3:
                w = Fraction(0)
                for k in I3:
                    for l in I3:
                        w = add(w, mul(C0(i, j, k, l), E[k][l]))
                v.ensure('component %d%d' % (i, j), s, eq(M[i][j], w))
        v.frame_slice('tensor unchanged', s, data)
        N = v.rows(s, m)
        v.ensure('matrix unchanged', s, band(*[eq(N[i][j], E[i][j]) for i in I3 for j in I3]))


@contract('C10', 'EnergyDensity: half of e_ij C_ijkl e_kl', ['elasticity.EnergyDensity'])
def energy(F):
    v = F.new()
    t, data = tensor(v)
    m, E = v.dense(3, 3, 'e')
    C0 = T(v, v.st, data)
    w = Fraction(0)
    for i, j, k, l in IDX4:
        w = add(w, mul(mul(E[i][j], E[k][l]), C0(i, j, k, l)))
    for s, r in v.call('elasticity.EnergyDensity', v.iface('elasticity.Rank4', t), m):
        v.ensure('energy', s, eq(r, rdiv(w, Fraction(2))))


@contract('C10', 'RotationMatrix is a proper rotation about the axis by the angle', ['elasticity.RotationMatrix'])
def rotmat(F):
    for ax in I3:
        v = F.new('axis %d' % ax)
        th = v.real('th')
        c, sn = cos(th), sin(th)
        for s, r in v.call('elasticity.RotationMatrix', th, ax):
            M = v.rows(s, r)
            for i in I3:
                for j in I3:
                    w = Fraction(0)
                    for k in I3:
                        w = add(w, mul(M[i][k], M[j][k]))
                    v.ensure('orthogonal %d%d' % (i, j), s, eq(w, kd(i, j)))
            from gowp.matmodel import det
            v.ensure('determinant one', s, eq(det(M), Fraction(1)))
            for i in I3:
                v.ensure('keeps the axis', s, band(eq(M[i][ax], kd(i, ax)), eq(M[ax][i], kd(i, ax))))
            v.ensure('by the angle', s, eq(add(add(M[0][0], M[1][1]), M[2][2]), add(Fraction(1), mul(2, c))))
            a, b = [q for q in I3 if q != ax]
            v.ensure('sine on the off-diagonal', s, eq(M[a][b], sn))
