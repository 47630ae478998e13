"""C20: equation strings mean what they say"""
from contracts.common import *
from contracts.c11_equilibrium import freqfn


class Eqs:
    """a model built by the real constructors from equation strings.
    terms of an equation: (sign, {scalar: power}, LAP power or 0, {field: power})"""

    def __init__(self, v, fields, scalars, eqs, fill=None, d=2):
        self.v, self.fields, self.d = v, fields, d
        self.N = v.int('N', 1)
        self.fn, self.fq = freqfn(v, d)
        self.ft = FTOp(v, self.N, self.fn)
        self.sc = {s: v.cplx('s_' + s) for s in scalars}
        st, m = self.call(v.st, 'pf.NewModel')
        self.m = Ptr(v.ip.alloc(st, m))
        self.y0 = {f: v.slice('cplx', f, self.N) for f in fields}
        for f, sl in self.y0.items():
            st.mem.setdefault(sl.ref.oid, v.st.mem[sl.ref.oid])
        for f in fields:
            st, fl = self.call(st, 'pf.NewField', f, self.N, self.y0[f])
            st, _ = self.call(st, '(*pf.Model).AddField', self.m, fl)
        for s in scalars:
            st, x = self.call(st, 'pf.NewScalar', s, self.sc[s])
            st, _ = self.call(st, '(*pf.Model).AddScalar', self.m, x)
        if fill:
            st = fill(self, st)
        for e in eqs:
            st, _ = self.call(st, '(*pf.Model).AddEquation', self.m, e)
        st, _ = self.call(st, '(*pf.Model).Init', self.m)
        self.st = st

    def call(self, st, f, *a):
        outs = self.v.call(f, *a, st=st)
        if len(outs) != 1:
            raise Unsupported('%s: %d outcomes' % (f, len(outs)))
        return outs[0]

    def derived(self, st):
        ds = self.v.load(st, self.m, 'DerivedFields')
        if not isinstance(ds.len, int):
            raise Unsupported('unknown number of derived fields')
        return [self.v.get(st, ds, i) for i in range(ds.len)]

    def product(self, fs, arrs):
        def at(k):
            r = C(Fraction(1), Fraction(0))
            for f, p in sorted(fs.items()):
                r = r * ext.cpow(None, arrs[f].sel(k), C(Fraction(p), Fraction(0)))
            return r
        return LamArr(at)

    def transformed(self):
        """state in which all fields hold new arbitrary data, derived fields are synchronised and everything is
        transformed; -> (state, transform of an array)"""
        v = self.v
        st = self.st.copy()
        self.new = {f: v.array('cplx', 'z_' + f) for f in self.fields}
        for f in self.fields:
            v.ip.write_ref(st, self.y0[f].ref, self.new[f])
        st, _ = self.call(st, '(*pf.Model).SyncDerivedFields', self.m)
        for f in self.fields:
            v.ip.write_ref(st, self.y0[f].ref, self.ft.transform(st, 1, self.new[f]))
        for d in self.derived(st):
            sl = d.f['Data']
            v.ensure('derived field has one value per node', st, eq(sl.len, self.N))
            v.ip.write_ref(st, sl.ref, self.ft.transform(st, 1, v.ip.read_ref(st, sl.ref)))
        return st

    def lap(self, k, n):
        f2 = Fraction(0)
        for a in range(self.d):
            f2 = add(f2, mul(self.fq(k, a), self.fq(k, a)))
        r, b = Fraction(1), neg(mul(mul(Fraction(4), mul(PI, PI)), f2))
        for _ in range(n):
            r = mul(r, b)
        return r

    def value(self, st, terms, own):
        """(explicit sum, implicit factor) as functions of the node"""
        parts = []
        for sign, sc, n, fs in terms:
            implicit = fs == {own: 1}
            arr = None if implicit else self.ft.transform(st, 1, self.product(fs, self.new) if fs != {list(fs)[0]: 1} else self.new[list(fs)[0]])
            parts.append((sign, sc, n, arr))

        def total(k, want):
            r = CZERO
            for sign, sc, n, arr in parts:
                if (arr is None) != want:
                    continue
                x = C(Fraction(sign), Fraction(0))
                for s, p in sc.items():
                    x = x * ext.cpow(None, self.sc[s], C(Fraction(p), Fraction(0)))
                x = x * C(self.lap(k, n), Fraction(0))
                if arr is not None:
                    x = x * arr.sel(k)
                r = r + x
            return r
        return lambda k: total(k, False), lambda k: total(k, True)


T1 = lambda *t: list(t)
SYSTEMS = [
    ('Cahn-Hilliard', ['conc'], ['m1', 'gamma'], ['dconc/dt = LAP conc^3 + m1*LAP conc + m1*gamma*LAP^2 conc'],
     [T1((1, {}, 1, {'conc': 3}), (1, {'m1': 1}, 1, {'conc': 1}), (1, {'m1': 1, 'gamma': 1}, 2, {'conc': 1}))]),
    ('reactions', ['concA', 'concB', 'concC'], ['kf', 'kr'],
     ['dconcA/dt = LAP concA - kf*concA^2*concB^3 + kr*concC', 'dconcB/dt = LAP concB - kf*concA^2*concB^3 + kr*concC', 'dconcC/dt = LAP concC - kr*concC + kf*concA^2*concB^3'],
     [T1((1, {}, 1, {'concA': 1}), (-1, {'kf': 1}, 0, {'concA': 2, 'concB': 3}), (1, {'kr': 1}, 0, {'concC': 1})),
      T1((1, {}, 1, {'concB': 1}), (-1, {'kf': 1}, 0, {'concA': 2, 'concB': 3}), (1, {'kr': 1}, 0, {'concC': 1})),
      T1((1, {}, 1, {'concC': 1}), (-1, {'kr': 1}, 0, {'concC': 1}), (1, {'kf': 1}, 0, {'concA': 2, 'concB': 3}))]),
    ('order of factors', ['conc', 'phi'], ['alpha', 'm', 'zz'],
     ['dconc/dt = phi*m^2*conc + zz*phi^2*alpha*LAP - conc*zz', 'dphi/dt = -conc^2*alpha^3*phi*m + LAP^3*phi - LAP*conc*m*phi^2 + phi^2'],
     [T1((1, {'m': 2}, 0, {'phi': 1, 'conc': 1}), (1, {'zz': 1, 'alpha': 1}, 1, {'phi': 2}), (-1, {'zz': 1}, 0, {'conc': 1})),
      T1((-1, {'alpha': 3, 'm': 1}, 0, {'conc': 2, 'phi': 1}), (1, {}, 3, {'phi': 1}), (-1, {'m': 1}, 1, {'conc': 1, 'phi': 2}), (1, {}, 0, {'phi': 2}))]),
    ('laplacian first', ['conc', 'eta'], ['beta', 'k'],
     ['dconc/dt = -LAP eta*conc + LAP k*conc - LAP^2 beta^2*eta', 'deta/dt = k*LAP^2 eta^2*conc^3 - beta*conc + eta - conc^2 + k*LAP conc^2'],
     [T1((-1, {}, 1, {'eta': 1, 'conc': 1}), (1, {'k': 1}, 1, {'conc': 1}), (-1, {'beta': 2}, 2, {'eta': 1})),
      T1((1, {'k': 1}, 2, {'eta': 2, 'conc': 3}), (-1, {'beta': 1}, 0, {'conc': 1}), (1, {}, 0, {'eta': 1}), (-1, {}, 0, {'conc': 2}), (1, {'k': 1}, 1, {'conc': 2}))]),
]


def equation_contract(sy, tier='quick'):
    name, fields, scalars, eqs, terms = sy

    @contract('C20', 'equation strings: ' + name, ['(*pf.Model).AddEquation', '(*pf.Model).Init', 'pf.Build', 'pf.ConcreteTerm', '(*pf.Model).GetRHS', '(*pf.Model).GetDenum',
                                                  '(*pf.Model).SyncDerivedFields', 'pf.DerivedFieldCalcFromDesc', 'pf.SplitOnMany', '(pf.LaplacianN).Eval'], tier)
    def run(F):
        v = F.new()
        q = Eqs(v, fields, scalars, eqs)
        st = q.transformed()
        t = v.real('t')
        for i in range(len(eqs)):
            want, wantd = q.value(st, terms[i], eqs[i][1:eqs[i].index('/dt')])
            for meth, w in (('GetRHS', want), ('GetDenum', wantd)):
                for s, r in v.call('(*pf.Model).' + meth, q.m, i, q.fn, t, st=st):
                    v.ensure('length', s, eq(r.len, q.N))
                    v.ensure_all('%s of %s' % (meth, eqs[i]), s, q.N, lambda k: veq(v.get(s, r, k), w(k)))
        v.reachable('pre', st)


SYSTEMS += [
    ('short names', ['c', 'y'], ['k', 'a'], ['dc/dt = c - c^3 + k*LAP c - LAP^2 c', 'dy/dt = -a*y + k^2*c^2*y - a*y^4 + k^2*y*LAP'],
     [T1((1, {}, 0, {'c': 1}), (-1, {}, 0, {'c': 3}), (1, {'k': 1}, 1, {'c': 1}), (-1, {}, 2, {'c': 1})),
      T1((-1, {'a': 1}, 0, {'y': 1}), (1, {'k': 2}, 0, {'c': 2, 'y': 1}), (-1, {'a': 1}, 0, {'y': 4}), (1, {'k': 2}, 1, {'y': 1}))]),
    ('one-letter names and derived fields', ['K', 'Q'], ['b'], ['dK/dt = -b*K*Q + K', 'dQ/dt = Q*b + K^2*Q - LAP Q'],
     [T1((-1, {'b': 1}, 0, {'K': 1, 'Q': 1}), (1, {}, 0, {'K': 1})), T1((1, {'b': 1}, 0, {'Q': 1}), (1, {}, 0, {'K': 2, 'Q': 1}), (-1, {}, 1, {'Q': 1}))]),
    ('powers of two digits', ['conc', 'phi'], ['q'], ['dconc/dt = q^11*conc*LAP^5 - phi^10*conc^12', 'dphi/dt = LAP^4 q*conc - q^10*phi + phi^21'],
     [T1((1, {'q': 11}, 5, {'conc': 1}), (-1, {}, 0, {'phi': 10, 'conc': 12})), T1((1, {'q': 1}, 4, {'conc': 1}), (-1, {'q': 10}, 0, {'phi': 1}), (1, {}, 0, {'phi': 21}))]),
    ('signs', ['conc', 'phi'], ['q'], ['dconc/dt = -conc', 'dphi/dt = -phi^2 - conc - q*phi + phi^3 - LAP conc'],
     [T1((-1, {}, 0, {'conc': 1})), T1((-1, {}, 0, {'phi': 2}), (-1, {}, 0, {'conc': 1}), (-1, {'q': 1}, 0, {'phi': 1}), (1, {}, 0, {'phi': 3}), (-1, {}, 1, {'conc': 1}))]),
]


def generated(seed, nF, nT):
    """a random system in the supported grammar; no name is part of another"""
    import random
    r = random.Random(seed)
    fields = r.sample(['conc', 'phi', 'w', 'temp', 'eta'], nF)
    scalars = r.sample(['kappa', 'B', 'zz', 'gam', 'm1'], 3)
    eqs, terms = [], []
    for f in fields:
        txt, ts = '', []
        for k in range(nT):
            sign = r.choice([1, 1, -1])
            sc = {s: r.choice([1, 1, 2]) for s in r.sample(scalars, r.choice([0, 0, 1, 2]))}
            n = r.choice([0, 0, 1, 2])
            fs = {g: r.choice([1, 1, 2, 3]) for g in r.sample(fields, r.choice([1, 1, 2]) if nF > 1 else 1)}
            fac = [a if p == 1 else '%s^%d' % (a, p) for a, p in list(sc.items()) + list(fs.items())]
            r.shuffle(fac)
            if n:
                lap = 'LAP' if n == 1 else 'LAP^%d' % n
                i = r.randrange(len(fac) + 1)
                if i < len(fac) and r.random() < 0.5:
                    fac[i] = lap + ' ' + fac[i]
                else:
                    fac.insert(i, lap)
            txt += (('-' if sign < 0 else '') if k == 0 else (' - ' if sign < 0 else ' + ')) + '*'.join(fac)
            ts.append((sign, sc, n, fs))
        eqs.append('d%s/dt = %s' % (f, txt))
        terms.append(ts)
    return ('generated %d: ' % seed + '; '.join(eqs), fields, scalars, eqs, terms)


for _s in SYSTEMS:
    equation_contract(_s)
for _i in range(3):
    equation_contract(generated(_i, 1 + _i % 3, 2))
for _i in range(10, 40):
    equation_contract(generated(_i, 1 + _i % 3, 1 + _i % 4), tier='thorough')


@contract('C20', 'user-defined terms and functions in equations: prefixes, signs, implicit and explicit parts', ['pf.Build', '(*pf.Model).RegisterFunction'])
def user_terms(F):
    v = F.new()
    box = {}

    def arr(nm, const=False):
        f, g = [z3.Function(nm + x, INT, REAL, REAL) for x in ('_re', '_im')]
        return lambda k, t: C(f(zi(k), zr(t)), g(zi(k), zr(t)))

    def mkterm(nm):
        A = arr(nm)
        return A, FuncAbs(nm, lambda ip, st, a: (ip.write_ref(st, a[2].ref, LamArr(lambda k: A(k, a[1]))), [(st, None)])[1])

    def pure(nm):
        A, f = mkterm(nm)
        return A, IfaceAbs(nm, {'Construct': lambda ip, st, a: [(st, f)]})
    E, et = pure('EXPL')
    I, it = pure('IMPL')
    ML, ml = mkterm('MIXL')
    MN, mn = mkterm('MIXN')
    mt = IfaceAbs('MIX', {'ConstructLinear': lambda ip, st, a: [(st, ml)], 'ConstructNonLinear': lambda ip, st, a: [(st, mn)]})
    G = z3.Function('G', INT, REAL), z3.Function('Gi', INT, REAL)

    def fill(q, st):
        st, _ = q.call(st, '(*pf.Model).RegisterExplicitTerm', q.m, 'EXPL', et, NILSLICE)
        st, _ = q.call(st, '(*pf.Model).RegisterImplicitTerm', q.m, 'IMPL', it, NILSLICE)
        st, _ = q.call(st, '(*pf.Model).RegisterMixedTerm', q.m, 'MIX', mt, NILSLICE)
        st, _ = q.call(st, '(*pf.Model).RegisterFunction', q.m, 'INTERP', FuncAbs('F', lambda ip, st, a: [(st, C(G[0](zi(a[0])), G[1](zi(a[0]))))]))
        return st
    eqs = ['dconc/dt = LAP*EXPL - IMPL + MIX - gam*INTERP + conc', 'dphi/dt = -LAP^2*MIX + LAP INTERP - LAP EXPL + LAP^4*IMPL']
    q = Eqs(v, ['conc', 'phi'], ['gam'], eqs, fill)
    st = q.transformed()
    t = v.real('t')
    ds = q.derived(st)
    v.ensure('the function is a derived field under its own name', st, band(len(ds) == 1, ds[0].f['Name'] == 'INTERP'))
    J = q.ft.transform(st, 1, LamArr(lambda k: C(G[0](zi(k)), G[1](zi(k)))))
    L = lambda k, n: C(q.lap(k, n), Fraction(0))
    want = {
        ('GetRHS', 0): lambda k: L(k, 1) * E(k, t) + MN(k, t) - q.sc['gam'] * J.sel(k),
        ('GetDenum', 0): lambda k: ML(k, t) - I(k, t) + C(Fraction(1), Fraction(0)),
        ('GetRHS', 1): lambda k: L(k, 1) * J.sel(k) - L(k, 2) * MN(k, t) - L(k, 1) * E(k, t),
        ('GetDenum', 1): lambda k: L(k, 4) * I(k, t) - L(k, 2) * ML(k, t)}
    for (meth, i), w in want.items():
        for s, r in v.call('(*pf.Model).' + meth, q.m, i, q.fn, t, st=st):
            v.ensure_all('%s of %s' % (meth, eqs[i]), s, q.N, lambda k: veq(v.get(s, r, k), w(k)))


@contract('C20', 'powers of factors: the number after the caret, one without', ['pf.GetPower'])
def powers(F):
    v = F.new()
    names = ['c', 'conc', 'phi2', 'a_b']
    nums = [str(n) for n in list(range(0, 40)) + [64, 99, 100, 101, 128, 999, 1000, 65536, 123456]] + \
        ['-%d' % n for n in (1, 2, 9, 10, 35, 100, 2048)] + ['0.5', '2.5', '1.25', '12.75', '100.125', '3.0', '-0.5', '-1.75', '-10.0625']
    for i, x in enumerate(nums):
        for s, r in v.call('pf.GetPower', names[i % len(names)] + '^' + x):
            v.ensure('power of ' + x, s, eq(r, Fraction(x)))
    for n in names + ['']:
        for s, r in v.call('pf.GetPower', n):
            v.ensure('no caret', s, eq(r, Fraction(1)))
