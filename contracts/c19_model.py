"""C19: assembling a model"""
from contracts.common import *
from contracts.c11_equilibrium import freqfn

ZERO, ONE = Fraction(0), Fraction(1)


def cfun(name):
    f, g = z3.Function(name + '_re', INT, REAL, REAL), z3.Function(name + '_im', INT, REAL, REAL)
    return lambda k, t: C(f(zi(k), zr(t)), g(zi(k), zr(t)))


def term_of(A, N):
    def h(ip, st, a):
        ip.oblige(st, 'term gets room for one value per node', eq(a[2].len, N))
        ip.write_ref(st, a[2].ref, LamArr(lambda k: A(k, a[1])))
        return [(st, None)]
    return h


def counts_contract(nT, nS, nM):
    @contract('C19', 'right-hand side = terms + sources, then modifiers in order (%d terms, %d sources, %d modifiers)' % (nT, nS, nM),
              ['(*pf.Model).GetRHS', '(*pf.Model).GetDenum', '(*pf.Model).AddSource', '(*pf.Model).RegisterRHSModifier', '(*pf.Source).Eval'])
    def run(F):
        for eqno in (0, 1):
            v = F.new('equation %d' % eqno)
            N, t = v.int('N', 1), v.real('t')
            fn, fq = freqfn(v, 2)
            expl = [[cfun('T%d%d' % (e, i)) for i in range(nT)] for e in (0, 1)]
            impl = [[cfun('A%d%d' % (e, i)) for i in range(nT)] for e in (0, 1)]
            rhs = [v.struct('pf.RHS', Terms=v.list([FuncAbs('t', term_of(A, N)) for A in expl[e]]) if nT else NILSLICE,
                            Denum=v.list([FuncAbs('d', term_of(A, N)) for A in impl[e]]) if nT else NILSLICE) for e in (0, 1)]
            old = [v.slice('cplx', 'y%d' % i, N) for i in (0, 1)]
            m = v.obj('pf.Model', Fields=v.list([v.struct('pf.Field', Data=x, Name='y%d' % i) for i, x in enumerate(old)]),
                      RHS=v.list(rhs), AllSources=v.list([NILSLICE, NILSLICE]))
            st = v.st
            srcs, mods = [], []
            for q in range(nS):
                e = v.int('srceq%d' % q, 0, 1) if q < 2 else q % 2
                g = z3.Function('g%d' % q, REAL, REAL)
                p = [v.real('p%d%d' % (q, a)) for a in (0, 1)]
                s = v.struct('pf.Source', Pos=v.list(p), f=FuncAbs('src', (lambda g: lambda ip, st, a: [(st, g(zr(a[0])))])(g)))
                srcs.append((e, g, p, s))
            for q in range(nM):
                e = v.int('modeq%d' % q)
                a, b = v.cplx('ma%d' % q), v.cplx('mb%d' % q)

                def h(ip, st, args, a=a, b=b):
                    c = ip.read_ref(st, args[0].ref)
                    ip.oblige(st, 'modifier gets the whole right-hand side', eq(args[0].len, N))
                    ip.write_ref(st, args[0].ref, LamArr(lambda k: c.sel(k) * a + b))
                    return [(st, None)]
                mods.append((e, a, b, FuncAbs('mod', h)))

            def seq(states, f):
                out = []
                for s in states:
                    v.ip.focus(s)
                    out += [x for x, _ in f(s)]
                return out
            states = [st]
            # interleaved registration
            for q in range(max(nS, nM)):
                if q < nS:
                    states = seq(states, lambda s: v.call('(*pf.Model).AddSource', m, srcs[q][0], srcs[q][3], st=s))
                if q < nM:
                    states = seq(states, lambda s: v.call('(*pf.Model).RegisterRHSModifier', m, mods[q][0], mods[q][3], st=s))

            def want(k):
                r = C(ZERO, ZERO)
                for A in expl[eqno]:
                    r = r + A(k, t)
                for e, g, p, _ in srcs:
                    ph = neg(mul(mul(Fraction(2), PI), add(mul(fq(k, 0), p[0]), mul(fq(k, 1), p[1]))))
                    x = C(mul(g(zr(t)), ext.cos(ph)), mul(g(zr(t)), ext.sin(ph)))
                    r = r + C(ite(eq(e, eqno), x.re, ZERO), ite(eq(e, eqno), x.im, ZERO))
                for e, a, b, _ in mods:
                    x = r * a + b
                    r = C(ite(eq(e, eqno), x.re, r.re), ite(eq(e, eqno), x.im, r.im))
                return r

            def wantd(k):
                r = C(ZERO, ZERO)
                for A in impl[eqno]:
                    r = r + A(k, t)
                return r
            for s in states:
                for s2, r in v.call('(*pf.Model).GetRHS', m, eqno, fn, t, st=s):
                    v.ensure('one value per node', s2, eq(r.len, N))
                    v.ensure_all('GetRHS', s2, N, lambda k: veq(v.get(s2, r, k), want(k)))
                    for x in old:
                        v.frame_slice('fields unchanged', s2, x)
                for s2, r in v.call('(*pf.Model).GetDenum', m, eqno, fn, t, st=s):
                    v.ensure('one value per node', s2, eq(r.len, N))
                    v.ensure_all('GetDenum', s2, N, lambda k: veq(v.get(s2, r, k), wantd(k)))


for _c in [(0, 0, 0), (1, 1, 1), (3, 0, 0), (2, 2, 0), (1, 0, 2), (2, 1, 1)]:
    counts_contract(*_c)


def get(v, st, ifc, k, N=None):
    """the value a brick gives at node k (of N)"""
    s = st.copy()
    if N is not None:
        s.assume(band(ge(k, 0), lt(k, N)))
    out = v.ip.invoke(s, ifc, 'Get', [k])
    v.ip.focus(st)
    if len(out) != 1:
        raise Unsupported('brick with several outcomes')
    return out[0][1]


def brick(v, st, m, name):
    mp = v.load(st, m, 'Bricks')
    mv = v.ip.load(st, Ptr(mp.ref))
    for k, x in mv.items:
        if k == name:
            return x
    return None


@contract('C19', 'fields and scalars are reachable by their own name and share storage with the model', ['(*pf.Model).AddField', '(*pf.Model).AddScalar', 'pf.NewField', 'pf.NewScalar', '(pf.Field).Copy', 'pf.NewModel', '(*pf.Model).NumNodes'])
def fields(F):
    for nF in (1, 2, 3):
        v = F.new('%d fields' % nF)
        N = v.int('N', 1)
        st, m0 = v.call1('pf.NewModel')
        m = Ptr(v.ip.alloc(st, m0))
        data = [v.slice('cplx', 'y%d' % i, N) for i in range(nF)]
        sc = [v.cplx('s%d' % i) for i in range(2)]
        for i in range(nF):
            st, f = v.call1('pf.NewField', 'y%d' % i, N, data[i], st=st)
            v.ensure('field holds the passed data', st, band(veq(f.f['Data'], data[i]), f.f['Name'] == 'y%d' % i))
            st, _ = v.call1('(*pf.Model).AddField', m, f, st=st)
            if i < 2:
                st, s = v.call1('pf.NewScalar', 'kappa%d' % i, sc[i], st=st)
                st, _ = v.call1('(*pf.Model).AddScalar', m, s, st=st)
        fs = v.load(st, m, 'Fields')
        v.ensure('fields in the order of registration', st, band(eq(fs.len, nF), *[band(v.get(st, fs, i).f['Name'] == 'y%d' % i, veq(v.get(st, fs, i).f['Data'], data[i])) for i in range(nF)]))
        st2, nn = v.call1('(*pf.Model).NumNodes', m, st=st)
        v.ensure('number of nodes', st2, eq(nn, N))
        new = [v.array('cplx', 'z%d' % i) for i in range(nF)]
        for i in range(nF):
            v.ip.write_ref(st, data[i].ref, new[i])
        for i in range(nF):
            b = brick(v, st, m, 'y%d' % i)
            v.ensure_all('brick of field %d follows the data' % i, st, N, lambda k: veq(get(v, st, b, k, N), new[i].sel(k)))
        for i in range(min(nF, 2)):
            b = brick(v, st, m, 'kappa%d' % i)
            v.ensure_all('scalar %d everywhere' % i, st, N, lambda k: veq(get(v, st, b, k, N), sc[i]))
    v = F.new('new field without data')
    N = v.int('N', 0)
    for s, f in v.call('pf.NewField', 'y', N, NILSLICE):
        v.ensure('length', s, eq(f.f['Data'].len, N))
        v.ensure_all('zero', s, N, lambda k: veq(v.get(s, f.f['Data'], k), CZERO))
    v = F.new('copy')
    N = v.int('N', 0)
    d = v.slice('cplx', 'y', N)
    for s, f in v.call('(pf.Field).Copy', v.struct('pf.Field', Data=d, Name='conc')):
        x = f.f['Data']
        v.ensure('name and length', s, band(f.f['Name'] == 'conc', eq(x.len, N)))
        v.ensure_all('same values', s, N, lambda k: veq(v.get(s, x, k), v.get(v.st, d, k)))
        v.ip.write_ref(s, x.ref, v.array('cplx', 'other'))
        v.frame_slice('original independent of the copy', s, d)


@contract('C19', 'functions and derived fields are reachable under their own name and recomputed by SyncDerivedFields', ['(*pf.Model).RegisterFunction', '(*pf.Model).RegisterDerivedField', '(*pf.Model).registerDerivedFields', '(*pf.Model).SyncDerivedFields', '(*pf.DerivedField).Update'])
def functions(F):
    for nG in (1, 2, 3):
        v = F.new('%d functions' % nG)
        N = v.int('N', 1)
        st, m0 = v.call1('pf.NewModel')
        m = Ptr(v.ip.alloc(st, m0))
        y = v.slice('cplx', 'y', N)
        st, f = v.call1('pf.NewField', 'y', N, y, st=st)
        st, _ = v.call1('(*pf.Model).AddField', m, f, st=st)
        G = [[z3.Function('G%d_%s' % (j, p), INT, REAL, REAL, REAL) for p in ('re', 'im')] for j in range(nG)]

        def fn(j):
            def h(ip, st, a):
                b = brick(v, st, m, 'y')
                ip.oblige(st, 'function gets the bricks of the model', veq(a[1], v.load(st, m, 'Bricks')))
                x = get(v, st, b, a[0], N)
                return [(st, C(*[g(zi(a[0]), zr(x.re), zr(x.im)) for g in G[j]]))]
            return FuncAbs('G%d' % j, h)
        for j in range(nG):
            st, _ = v.call1('(*pf.Model).RegisterFunction', m, 'FN%d' % j, fn(j), st=st)
        new = v.array('cplx', 'z')
        v.ip.write_ref(st, y.ref, new)
        for s, _ in v.call('(*pf.Model).SyncDerivedFields', m, st=st):
            for j in range(nG):
                b = brick(v, s, m, 'FN%d' % j)
                v.ensure_all('function %d' % j, s, N, lambda k: veq(get(v, s, b, k, N), C(*[g(zi(k), zr(new.sel(k).re), zr(new.sel(k).im)) for g in G[j]])))
            ds = v.load(s, m, 'DerivedFields')
            v.ensure('one derived field per function, in order', s, band(eq(ds.len, nG), *[v.get(s, ds, j).f['Name'] == 'FN%d' % j for j in range(nG)]))
            v.ensure_all('fields unchanged', s, N, lambda k: veq(v.get(s, y, k), new.sel(k)))
    for kind in ('Explicit', 'Implicit', 'Mixed'):
        v = F.new('derived fields of an %s term' % kind.lower())
        N = v.int('N', 1)
        st, m0 = v.call1('pf.NewModel')
        m = Ptr(v.ip.alloc(st, m0))
        dat = [v.slice('cplx', 'd%d' % i, N) for i in range(3)]
        ops = [v.array('cplx', 'new%d' % i) for i in range(3)]

        def upd(i):
            return FuncAbs('calc%d' % i, lambda ip, st, a: (ip.oblige(st, 'calculates into its own data', veq(a[0], dat[i])), ip.write_ref(st, a[0].ref, ops[i]), [(st, None)])[2])
        ds = v.list([v.struct('pf.DerivedField', Data=dat[i], Name='d%d' % i, Calc=upd(i)) for i in range(3)])
        st, _ = v.call1('(*pf.Model).Register%sTerm' % kind, m, 'TERM', IfaceAbs('term', {}), ds, st=st)
        for s, _ in v.call('(*pf.Model).SyncDerivedFields', m, st=st):
            for j in range(3):
                b = brick(v, s, m, 'd%d' % j)
                if b is None:
                    raise Unsupported('derived field is not reachable by name')
                v.ensure_all('derived field %d under its own name' % j, s, N, lambda k: veq(get(v, s, b, k, N), ops[j].sel(k)))
            x = v.load(s, m, 'DerivedFields')
            v.ensure('all registered once', s, eq(x.len, 3))


@contract('C19', 'Init builds one right-hand side per equation, also when called again', ['(*pf.Model).Init', '(*pf.Model).AddEquation', '(*pf.Model).EqNumber'])
def init(F):
    for nE in (1, 2, 3):
        v = F.new('%d equations' % nE)
        N = v.int('N', 1)
        st, m0 = v.call1('pf.NewModel')
        m = Ptr(v.ip.alloc(st, m0))
        names = ['conc', 'eta', 'phi'][:nE]
        for f in names:
            st, x = v.call1('pf.NewField', f, N, NILSLICE, st=st)
            st, _ = v.call1('(*pf.Model).AddField', m, x, st=st)
        order = names[1:] + names[:1]
        built = []

        def build(ip, st, a):
            r = v.struct('pf.RHS', Terms=Slice(ip.alloc(st, ListArr([FuncAbs('T_' + a[0].replace(' ', ''), None)])), 0, 1))
            ip.oblige(st, 'built for the model', veq(a[1], m))
            return [(st, r)]
        v.summary('pf.Build', build)
        for f in order:
            st, _ = v.call1('(*pf.Model).AddEquation', m, 'd%s/dt = %s' % (f, f), st=st)
        for rep in (1, 2):
            st, _ = v.call1('(*pf.Model).Init', m, st=st)
            rs = v.load(st, m, 'RHS')
            eqs = v.load(st, m, 'Equations')
            v.ensure('Init call %d: one right-hand side per equation' % rep, st, band(eq(rs.len, nE), eq(eqs.len, nE)))
            for i, f in enumerate(order):
                ts = v.get(st, rs, i).f['Terms']
                v.ensure('Init call %d: equation %d' % (rep, i), st, v.get(st, ts, 0).tag == 'T_d%s/dt=%s' % (f, f))
        for i, f in enumerate(order):
            st, r = v.call1('(*pf.Model).EqNumber', m, f, st=st)
            v.ensure('equation number of ' + f, st, eq(r, i))


@contract('C19', 'implicit terms that vary with the fields are refused', ['(*pf.Model).Init', 'pf.isImplicit', 'pfutil.CmplxEqualApprox'])
def implicit(F):
    for dep in (False, True):
        v = F.new('depends on a field' if dep else 'independent of the fields')
        N = v.int('N', 1)
        st, m0 = v.call1('pf.NewModel')
        m = Ptr(v.ip.alloc(st, m0))
        y = [v.slice('cplx', 'y%d' % i, N) for i in (0, 1)]
        for i in (0, 1):
            st, x = v.call1('pf.NewField', 'y%d' % i, N, y[i], st=st)
            st, _ = v.call1('(*pf.Model).AddField', m, x, st=st)
        A, b = cfun('A'), v.real('b')
        v.assume(gt(absv(b), Fraction(1, 10**8)))
        st.assume(gt(absv(b), Fraction(1, 10**8)))
        fn, _ = freqfn(v, 2)

        def construct(ip, st, a):
            bks = a[1]

            def h(ip, st, args):
                mv = ip.load(st, Ptr(bks.ref))
                br = [x for k, x in mv.items if k == 'y1'][0]

                def val(k):
                    r = A(k, args[1])
                    if dep:
                        r = r + C(b, ZERO) * get(v, st, br, k, N)
                    return r
                ip.write_ref(st, args[2].ref, LamArr(val))
                return [(st, None)]
            return [(st, FuncAbs('term', h))]
        st, _ = v.call1('(*pf.Model).RegisterImplicitTerm', m, 'TERM', IfaceAbs('term', {'Construct': construct}), NILSLICE, st=st)
        st, _ = v.call1('(*pf.Model).AddEquation', m, 'dy0/dt = TERM', st=st)
        if dep:
            refused = []
            v.ip.on_panic = lambda s, pos: refused.append(s)
            outs = v.call('(*pf.Model).Init', m, st=st)
            for s, _ in outs:
                v.ensure('refused', s, False)
            if not outs:
                v.ip.results.append((v.name + ': refused', 'ok', 'z3', None, None))
        else:
            outs = v.call('(*pf.Model).Init', m, st=st)
            if not outs:
                v.ensure('accepted', st, False)
