"""C11: mechanical equilibrium in Fourier space"""
from contracts.common import *
from contracts.c09_elastic import tensor, T, I3
from gowp.matmodel import det
from contracts.c04_fft import plan_extern

ZERO = Fraction(0)
TOL = Fraction(1, 10**10)
DENSE = 'gonum.org/v1/gonum/mat.Dense'


def freqfn(v, n, extra=None):
    """abstract frequency function with n components"""
    fs = [z3.Function('f%d' % a, INT, REAL) for a in range(n)]
    f = lambda i, a: fs[a](zi(i))

    def handler(ip, st, args):
        i = args[-1]
        if extra is not None:
            CTX.fact(extra([f(i, a) for a in range(n)]))
        return [(st, Slice(ip.alloc(st, ListArr([f(i, a) for a in range(n)])), 0, n))]
    return FuncAbs('freq', handler), f


@contract('C11', 'stiffness matrix in Fourier space', ['elasticity.DisplacementMatrixElement'])
def stiffness(F):
    v = F.new()
    t, data = tensor(v)
    C0 = T(v, v.st, data)
    fr = v.slice('real', 'f', 3)
    f = [v.get(v.st, fr, a) for a in I3]
    for m in I3:
        for n in I3:
            w = ZERO
            for j in I3:
                for l in I3:
                    w = add(w, mul(C0(m, j, n, l), mul(f[j], f[l])))
            w = mul(w, mul(mul(Fraction(4), PI), PI))
            for s, r in v.call('elasticity.DisplacementMatrixElement', m, n, fr, v.iface('elasticity.Rank4', t)):
                v.ensure('K_%d%d = 4 pi^2 C_mjnl f_j f_l' % (m, n), s, eq(r, w))


def dense_iface(v, p):
    return v.iface(DENSE, p)


@contract('C11', 'Displacements solve the equilibrium equation', ['elasticity.Displacements'])
def displacements(F):
    v = F.new()
    N = v.int('N', 0)
    KE = [[z3.Function('K%d%d' % (m, n), REAL, REAL, REAL, REAL) for n in I3] for m in I3]
    K = lambda f: [[KE[m][n](*[zr(x) for x in f]) for n in I3] for m in I3]
    small = lambda f: band(*[lt(absv(x), TOL) for x in f])
    fn, fq = freqfn(v, 3, lambda f: bor(small(f), bnot(eq(det(K(f)), 0))))
    force, B = v.table('cplx', 'b', N, 3)
    mp = IfaceAbs('tensor', {})

    def elem(ip, st, a):
        ip.oblige(st, 'stiffness of the passed tensor', a[3] is mp)
        f = [ip.get(st, a[2], k) for k in I3]
        if not (isinstance(a[0], int) and isinstance(a[1], int)):
            raise Unsupported('symbolic matrix element')
        return [(st, KE[a[0]][a[1]](*[zr(x) for x in f]))]
    if not v.summary('elasticity.DisplacementMatrixElement', elem):
        raise Unsupported('DisplacementMatrixElement is gone')
    v.ip.assumptions.add('the stiffness matrix of every non-zero frequency is regular (positive definite elastic tensor)')
    for s, r in v.call('elasticity.Displacements', force, fn, mp):
        v.ensure('one displacement per node', s, eq(r.len, N))

        def post(k):
            f = [fq(k, a) for a in I3]
            CTX.fact(bor(small(f), bnot(eq(det(K(f)), 0))))
            u = v.get(s, r, k)
            U = [v.get(s, u, a) for a in I3]
            M = K(f)
            eqs = []
            for m in I3:
                lhs = CZERO
                for n in I3:
                    lhs = lhs + C(mul(M[m][n], U[n].re), mul(M[m][n], U[n].im))
                eqs.append(veq(lhs, B(k, m)))
            return eqs, U, f, u

        def solves(m):
            def g(k):
                eqs, U, f, u = post(k)
                return imp(bnot(small(f)), eqs[m])
            return g
        for m in I3:
            v.ensure_all('K u = f at every non-zero frequency [%d]' % m, s, N, solves(m))

        def zero(k):
            eqs, U, f, u = post(k)
            return imp(small(f), band(*[veq(x, CZERO) for x in U]))
        v.ensure_all('no displacement at zero frequency', s, N, zero)
        v.ensure_all('three components', s, N, lambda k: eq(post(k)[3].len, 3))
    v.reachable('pre', v.st)


def nyq(x):
    return ite(lt(absv(sub(absv(x), Fraction(1, 2))), TOL), ZERO, x)


@contract('C11', 'Strain is the symmetrised gradient', ['elasticity.Strain'])
def strain(F):
    for m, n in [(a, b) for a in I3 for b in range(a, 3)] + [(1, 0)]:
        v = F.new('%d%d' % (m, n))
        N = v.int('N', 0)
        fn, fq = freqfn(v, 3)
        disp, U = v.table('cplx', 'u', N, 3)
        for s, r in v.call('elasticity.Strain', disp, fn, m, n):
            v.ensure('one value per node', s, eq(r.len, N))

            def post(k):
                fm, fnn = nyq(fq(k, m)), nyq(fq(k, n))
                a = C(ZERO, mul(PI, fnn)) * U(k, m) + C(ZERO, mul(PI, fm)) * U(k, n)
                return veq(v.get(s, r, k), a)
            v.ensure_all('i pi (f_n u_m + f_m u_n), no odd derivative at the Nyquist frequency', s, N, post)


@contract('C11', 'EffectiveForce is minus the divergence of the misfit stress', ['(*elasticity.EffectiveForce).Get', 'elasticity.NewEffectiveForceFromMisfit'])
def force(F):
    for d in (2, 3):
        for comp in range(3):
            v = F.new('%dD component %d' % (d, comp))
            N = v.int('N', 0)
            fn, fq = freqfn(v, d)
            ind = v.slice('cplx', 'ind', N)
            data = v.slice('real', 'C', 81)
            C0 = T(v, v.st, data)
            m, E = v.dense(3, 3, 'e')
            for s, ef in v.call('elasticity.NewEffectiveForceFromMisfit', v.struct('elasticity.Rank4', Data=data), m):
                p = Ptr(v.ip.alloc(s, ef))
                for s2, r in v.call('(*elasticity.EffectiveForce).Get', p, comp, fn, ind, st=s):
                    v.ensure('one value per node', s2, eq(r.len, N))

                    def post(k):
                        w = ZERO
                        for j in range(d):
                            sg = ZERO
                            for a in I3:
                                for b in I3:
                                    sg = add(sg, mul(C0(comp, j, a, b), E[a][b]))
                            w = sub(w, mul(mul(mul(Fraction(2), PI), fq(k, j)), sg))
                        return veq(v.get(s2, r, k), C(ZERO, w) * v.get(v.st, ind, k))
                    v.ensure_all('-i 2 pi f_j C_cjkl e_kl times the indicator', s2, N, post)
                    v.frame_slice('indicator unchanged', s2, ind)


@contract('C11', 'PerturbedForce is minus the divergence of the stress of the strain mismatch', ['elasticity.PerturbedForce'])
def perturbed(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        N = v.int('N', 1)
        fn, fq = freqfn(v, d)
        ft = FTOp(v, N, fn)
        disp, U = v.table('cplx', 'u', N, 3)
        m, E = v.dense(3, 3, 'e')
        for a in range(3):
            for b in range(a):
                v.assume(eq(E[a][b], E[b][a]))
        sh = z3.Function('shape', INT, REAL)
        shape = FuncAbs('shape', lambda ip, st, a: [(st, sh(zi(a[0])))])
        CE = z3.Function('C', INT, INT, INT, INT, REAL)
        for a in range(3):
            for b in range(3):
                for c in range(3):
                    for e in range(c):
                        v.assume(eq(CE(a, b, c, e), CE(a, b, e, c)))
        mp = IfaceAbs('tensor', {'At': lambda ip, st, a: [(st, CE(*[zi(x) for x in a[1:]]))]})
        for s, r in v.call('elasticity.PerturbedForce', ft.iface(), m, disp, shape, mp):
            v.ensure('one force per node', s, eq(r.len, N))

            def eps(p, q):
                a = LamArr(lambda k: C(ZERO, mul(PI, nyq(fq(k, q)))) * U(k, p) + C(ZERO, mul(PI, nyq(fq(k, p)))) * U(k, q))
                x = ft.transform(s, -1, a)
                y = LamArr(lambda k: C(mul(sub(E[p][q], rdiv(x.sel(k).re, toreal(N))), sh(zi(k))), ZERO))
                return ft.transform(s, 1, y)
            G = {(p, q): eps(p, q) for p in range(d) for q in range(p, d)}

            def post(comp):
                def f(k):
                    w = CZERO
                    for q in range(d):
                        for p1 in range(d):
                            for p2 in range(d):
                                g = G[min(p1, p2), max(p1, p2)]
                                w = w - C(ZERO, mul(mul(mul(Fraction(2), PI), CE(comp, q, p1, p2)), fq(k, q))) * g.sel(k)
                    u = v.get(s, r, k)
                    return veq(v.get(s, u, comp), w)
                return f
            for comp in range(d):
                v.ensure_all('-i 2 pi f_q C_cqij FT[(e_ij - strain_ij) shape] [%d]' % comp, s, N, post(comp))
