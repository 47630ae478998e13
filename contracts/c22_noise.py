"""C22: noise and volume conservation"""
from contracts.common import *
import itertools
from contracts.c16_operators import Op, grid_freq
from contracts.c18_solver import cell
from gowp import ext

ZERO, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)
Z = z3.Function('normal', INT, REAL)
HALF, FAR = Fraction(1, 2), Fraction(1, 10**5)


def grid(f):
    """a frequency of a grid with fewer than 50 000 nodes per axis"""
    return band(grid_freq([f]), bor(eq(f, HALF), band(le(f, sub(HALF, FAR)), ge(f, sub(FAR, HALF)))))


def randoms(v):
    """rand.NormFloat64 returns the next element of a sequence of independent standard normal numbers"""
    c = cell(v, v.int('draws', 0))

    def h(ip, st, a):
        k = ip.load(st, c)
        ip.store(st, c, add(k, 1))
        return [(st, Z(zi(k)))]
    v.ip.summaries['math/rand.NormFloat64'] = h
    ext.USED.add('math/rand.NormFloat64')
    return c


@contract('C22', 'white noise is a normal number with variance twice the strength', ['(*pf.WhiteNoise).Generate'])
def white(F):
    v = F.new()
    S = v.real('strength')
    v.assume(ge(S, ZERO))
    c = randoms(v)
    k0 = v.ip.load(v.st, c)
    w = v.obj('pf.WhiteNoise', Strength=S)
    for s, r in v.call('(*pf.WhiteNoise).Generate', w, v.int('node', 0), MapRef(v.ip.alloc(v.st, MapV([])))):
        v.ensure('real', s, eq(r.im, ZERO))
        v.ensure('amplitude times a standard normal number', s, lambda: eq(r.re, mul(ext.sqrt(mul(TWO, S)), Z(zi(k0)))))
        v.ensure('variance', s, lambda: eq(mul(r.re, r.re), mul(mul(TWO, S), mul(Z(zi(k0)), Z(zi(k0))))))
        v.ensure('a new number is drawn', s, eq(v.ip.load(s, c), add(k0, 1)))


@contract('C22', 'conservative noise: independent normal currents', ['(*pf.ConservativeNoise).RequiredDerivedFields', '(*pf.ConservativeNoise).GetCurrentName',
          '(*pf.ConservativeNoise).CurrentFieldsAreRegistered'])
def currents(F):
    for d in (1, 2, 3):
        for pre in (0, 7, 4294967295):
            v = F.new('%dD, prefix %d' % (d, pre))
            S, N = v.real('strength'), v.int('N', 1)
            v.assume(ge(S, ZERO))
            c = randoms(v)
            cn = v.obj('pf.ConservativeNoise', UniquePrefix=pre, Strength=S, Dim=d)
            other = v.obj('pf.ConservativeNoise', UniquePrefix=pre + 1, Strength=S, Dim=d)
            st = v.st.copy()
            names = []
            for x in (cn, other):
                for k in range(d):
                    st, nm = v.call1('(*pf.ConservativeNoise).GetCurrentName', x, k, st=st)
                    names.append(nm)
            v.ensure('names of the currents differ', st, len({str(n) for n in names}) == 2 * d)
            for s, fs in v.call('(*pf.ConservativeNoise).RequiredDerivedFields', cn, N, st=st):
                v.ensure('one current per direction', s, eq(fs.len, d))
                refs = []
                for a in range(d):
                    x = v.get(s, fs, a)
                    v.ensure('name', s, veq(x.f['Name'], names[a]))
                    v.ensure('one value per node', s, eq(x.f['Data'].len, N))
                    refs.append(x.f['Data'].ref)
                v.ensure('separate storage', s, len({r.oid for r in refs}) == d)
                k0 = v.ip.load(s, c)
                for rep in (0, 1):
                    for a in range(d):
                        x = v.get(s, fs, a)
                        s, _ = outcome(v.ip.call(s.copy(), x.f['Calc'], [x.f['Data']]))
                k1 = v.ip.load(s, c)
                v.ensure('one number per node, direction and update', s, lambda: eq(k1, add(k0, mul(2 * d, N))))
                for a in range(d):
                    x = v.get(s, fs, a)
                    v.ensure_all('current %d' % a, s, N, lambda k: veq(v.get(s, x.f['Data'], k), C(
                        mul(ext.sqrt(mul(TWO, S)), Z(zi(add(add(k0, mul(d + a, N)), k)))), ZERO)))
            reg = lambda ns: MapRef(v.ip.alloc(v.st, MapV([(n, IfaceAbs('b', {})) for n in ns])))
            full = reg(['a'] + names[:d])
            st, r = v.call1('(*pf.ConservativeNoise).CurrentFieldsAreRegistered', cn, full)
            v.ensure('all currents registered', st, eq(r, True))
            for miss in range(d):
                part = reg(names[:miss] + names[miss + 1:])
                st, r = v.call1('(*pf.ConservativeNoise).CurrentFieldsAreRegistered', cn, part)
                v.ensure('a missing current is noticed', st, eq(r, False))


def outcome(outs):
    if len(outs) != 1:
        raise Unsupported('%d outcomes' % len(outs))
    return outs[0]


@contract('C22', 'conservative noise is a discrete divergence: zero at zero frequency, real in real space', ['(*pf.ConservativeNoise).Construct'])
def divergence(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        o = Op(v, d)
        cn = v.obj('pf.ConservativeNoise', UniquePrefix=12, Strength=v.real('strength'), Dim=d)
        st = v.st.copy()
        names, J = [], []
        for a in range(d):
            st, nm = v.call1('(*pf.ConservativeNoise).GetCurrentName', cn, a, st=st)
            names.append(nm)
            J.append(v.array('cplx', 'j%d' % a))
        bks = o.bricks(**dict(zip(names, J)))
        st, term = v.call1('(*pf.ConservativeNoise).Construct', cn, bks, st=st)

        def want(fs, js):
            r = C(ZERO, ZERO)
            for f, j in zip(fs, js):
                CTX.fact(grid(f))
                r = r + C(ZERO, ite(eq(f, HALF), ZERO, mul(TWO, ext.sin(mul(PI, f))))) * j
            return r
        for s, y in o.run(term, st):
            v.ensure_all('value', s, o.N, lambda k: veq(v.get(s, y, k), want([o.fq(k, a) for a in range(d)], [x.sel(k) for x in J])))
        # consequences of the value
        js = [v.cplx('q%d' % a) for a in range(d)]
        v.ensure('the mean is not changed', v.st, lambda: veq(want([ZERO] * d, js), C(ZERO, ZERO)))
        f = [v.real('f%d' % a) for a in range(d)]
        s = v.st.copy()
        for x in f:
            s.assume(grid(x))
        conj = lambda z: C(z.re, neg(z.im))
        for self_conj in itertools.product((False, True), repeat=d):
            s1 = s.copy()
            for x, b in zip(f, self_conj):
                s1.assume(eq(x, HALF) if b else bnot(eq(x, HALF)))
            opp = [x if b else neg(x) for x, b in zip(f, self_conj)]
            v.ensure('conjugate at the opposite frequency', s1, lambda: veq(want(opp, [conj(j) for j in js]), conj(want(f, js))))
    v = F.new('currents not registered')
    cn = v.obj('pf.ConservativeNoise', UniquePrefix=12, Strength=v.real('strength'), Dim=2)
    hit = []
    v.ip.on_panic = lambda st, what='': hit.append(1)
    r = v.call('(*pf.ConservativeNoise).Construct', cn, MapRef(v.ip.alloc(v.st, MapV([]))))
    v.ensure('refused', v.st, not r and bool(hit))


@contract('C22', 'volume conservation: multiplier times indicator, corrected by the change of the integral', ['(*pf.VolumeConservingLP).Construct', '(*pf.VolumeConservingLP).OnStepFinished', 'pf.NewVolumeConservingLP'])
def volume(F):
    v = F.new('term')
    o = Op(v, 2)
    lam = v.real('multiplier')
    ind, y = v.array('cplx', 'ind'), v.array('cplx', 'y')
    vc = v.obj('pf.VolumeConservingLP', Multiplier=v.real('earlier'), Indicator='ind', Field='y', Dt=v.real('dt'), NumNodes=o.N)
    st, term = v.call1('(*pf.VolumeConservingLP).Construct', vc, o.bricks(y=y, ind=ind))
    v.ip.store(st, Ptr(vc.ref, vc.path + (('f', 'Multiplier'),)), lam)
    for s, r in o.run(term, st):
        v.ensure_all('current multiplier times indicator', s, o.N, lambda k: veq(v.get(s, r, k), ind.sel(k) * C(lam, ZERO)))

    v = F.new('update')
    o = Op(v, 2)
    dt = v.real('dt')
    v.assume(gt(dt, ZERO))
    st, x = v.call1('pf.NewVolumeConservingLP', 'y', 'ind', dt, o.N)
    v.ensure('initial state', st, band(eq(x.f['Multiplier'], ZERO), x.f['Field'] == 'y', x.f['Indicator'] == 'ind', eq(x.f['Dt'], dt), eq(x.f['NumNodes'], o.N), eq(x.f['IsFirstUpdate'], True)))
    vc = Ptr(v.ip.alloc(st, x))
    ys = [v.array('cplx', 'y%d' % i) for i in range(3)]
    inds = [v.array('cplx', 'ind%d' % i) for i in range(3)]
    for i in inds:
        st.assume(bnot(eq(i.sel(0).re, ZERO)))
    I = [SpecSum('I%d' % i, (lambda a: lambda k: a.sel(k).re)(a)) for i, a in enumerate(ys)]
    v.ip.specsums += I
    M = [ZERO]
    for i in range(3):
        b = o.bricks(y=ys[i], ind=inds[i])
        st.mem[b.ref.oid] = v.st.mem[b.ref.oid]
        st, _ = v.call1('(*pf.VolumeConservingLP).OnStepFinished', vc, v.real('t'), b, st=st)
        m = v.load(st, vc, 'Multiplier')
        if i == 0:
            v.ensure('first step: nothing to correct', st, eq(m, ZERO))
        else:
            d = sub(I[i].at(o.N), I[i - 1].at(o.N))
            v.ensure('step %d: correction' % (i + 1), st, eq(m, sub(M[-1], rdiv(d, mul(dt, inds[i].sel(0).re)))))
        M.append(m)
    # consequence: with a constant rate of change r of the integral by the other terms and a constant integral of
    # the indicator the next step leaves the integral where it is
    v = F.new('consequence')
    r, i0, dt, m, c = v.real('r'), v.real('i0'), v.real('dt'), v.real('m'), v.real('I')
    v.assume(gt(dt, ZERO))
    v.assume(bnot(eq(i0, ZERO)))
    step = lambda I, m: add(I, mul(dt, add(r, mul(m, i0))))
    I1 = step(c, m)
    m1 = sub(m, rdiv(sub(I1, c), mul(dt, i0)))
    v.ensure('the integral stays', v.st, eq(step(I1, m1), I1))
