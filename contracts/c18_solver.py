"""C18: orchestration by the solver"""
from contracts.common import *


def cell(v, x=0):
    return Ptr(v.ip.alloc(v.st, x))


def bump(ip, st, p, by=1):
    ip.store(st, p, add(ip.load(st, p), by))


def bricks(v, **kw):
    return MapRef(v.ip.alloc(v.st, MapV(list(kw.items()))))


@contract('C18', 'Propagate: n steps of the model, every term told once after each step', ['(*pf.Solver).Propagate'])
def propagate(F):
    for nI, nE, nM, rev in ((0, 0, 0, 0), (1, 2, 1, 0), (2, 1, 2, 1), (0, 1, 0, 0)):
        v = F.new('%d implicit, %d explicit, %d mixed%s' % (nI, nE, nM, ', reversed maps' if rev else ''))
        v.ip.map_rev = bool(rev)
        n = v.int('nsteps', 0)
        T = z3.Function('T', INT, REAL)
        steps = cell(v)
        bks = bricks(v)
        done = []

        def term():
            d = cell(v)
            done.append(d)

            def fin(ip, st, a):
                k = ip.load(st, steps)
                ip.oblige(st, 'term is told after the step', eq(ip.load(st, d), sub(k, 1)))
                ip.oblige(st, 'term is told the time of the stepper', eq(a[1], T(zi(k))))
                ip.oblige(st, 'term gets the bricks of the model', veq(a[2], bks))
                bump(ip, st, d)
                return [(st, None)]
            return IfaceAbs('term%d' % len(done), {'OnStepFinished': fin})

        def reg(c, k):
            return MapRef(v.ip.alloc(v.st, MapV([('%s%d' % (c, i), term()) for i in range(k)])))
        m = v.obj('pf.Model', Bricks=bks, ImplicitTerms=reg('i', nI), ExplicitTerms=reg('e', nE), MixedTerms=reg('m', nM))

        def step(ip, st, a):
            ip.oblige(st, 'steps its own model', veq(a[1], m))
            for d in done:
                ip.oblige(st, 'every term was told about the previous step', eq(ip.load(st, d), ip.load(st, steps)))
            bump(ip, st, steps)
            return [(st, None)]
        stp = IfaceAbs('stepper', {'Step': step, 'GetTime': lambda ip, st, a: [(st, T(zi(ip.load(st, steps))))]})
        o = v.obj('pf.Solver', Model=m, Stepper=stp)
        for s, _ in v.call('(*pf.Solver).Propagate', o, n):
            v.ensure('n steps', s, eq(v.ip.load(s, steps), n))
            for i, d in enumerate(done):
                v.ensure('term %d told after every step' % i, s, eq(v.ip.load(s, d), n))


@contract('C18', 'Solve: epochs of nsteps steps, then every callback, then every monitor', ['(*pf.Solver).Solve'])
def solve(F):
    for nC, nM in ((0, 0), (1, 0), (2, 1), (1, 2)):
        v = F.new('%d callbacks, %d monitors' % (nC, nM))
        E, n, e0 = v.int('nepochs', 0), v.int('nsteps', 0), v.int('start')
        steps, calls = cell(v), [cell(v) for _ in range(nC)]
        adds = [cell(v) for _ in range(nM)]
        bks = bricks(v)
        m = v.obj('pf.Model', Bricks=bks)
        box = []

        def cb(j):
            def h(ip, st, a):
                ip.oblige(st, 'callback gets the solver', veq(a[0], box[0]))
                k = ip.load(st, calls[j])
                ip.oblige(st, 'callback %d gets its epoch' % j, eq(a[1], add(e0, k)))
                for i in range(nC):
                    ip.oblige(st, 'callbacks run in the order of registration', eq(ip.load(st, calls[i]), add(k, 1) if i < j else k))
                for i in range(nM):
                    ip.oblige(st, 'callbacks run before the monitors', eq(ip.load(st, adds[i]), k))
                bump(ip, st, calls[j])
                return [(st, None)]
            return FuncAbs('cb%d' % j, h)

        def mon(j):
            def h(ip, st, a):
                ip.oblige(st, 'monitor gets the bricks', veq(a[1], bks))
                k = ip.load(st, adds[j])
                for i in range(nC):
                    ip.oblige(st, 'monitors run after the callbacks of the epoch', eq(ip.load(st, calls[i]), add(k, 1)))
                bump(ip, st, adds[j])
                return [(st, None)]
            return IfaceAbs('monitor%d' % j, {'Add': h})

        def prop(ip, st, a):
            ip.oblige(st, 'propagates itself by the number of steps', band(veq(a[0], box[0]), eq(a[1], n)))
            k = ip.load(st, steps)
            for c in calls + adds:
                ip.oblige(st, 'callbacks and monitors saw all previous epochs', eq(ip.load(st, c), k))
            bump(ip, st, steps)
            return [(st, None)]
        if not v.summary('(*pf.Solver).Propagate', prop):
            raise Unsupported('no Propagate')
        o = v.obj('pf.Solver', Model=m, StartEpoch=e0, Callbacks=v.list([cb(j) for j in range(nC)]), Monitors=v.list([mon(j) for j in range(nM)]))
        box.append(o)
        for s, _ in v.call('(*pf.Solver).Solve', o, E, n):
            v.ensure('one propagation per epoch', s, eq(v.ip.load(s, steps), E))
            for i, c in enumerate(calls + adds):
                v.ensure('callback/monitor %d once per epoch' % i, s, eq(v.ip.load(s, c), E))


@contract('C18', 'steppers get the step size and the transform of the solver', ['(*pf.Solver).SetStepper', 'pf.NewSolver'])
def steppers(F):
    for name, t in (('euler', 'Euler'), ('rk4', 'RK4')):
        v = F.new(name)
        dt = v.real('dt')
        ft = IfaceAbs('ft', {})
        o = v.obj('pf.Solver', Dt=dt, FT=ft, Stepper=IfaceAbs('old', {}))
        for s, _ in v.call('(*pf.Solver).SetStepper', o, name):
            x = v.load(s, o, 'Stepper')
            v.ensure('type', s, isinstance(x, Iface) and x.tname == '*' + P('pf.' + t))
            v.ensure('step size', s, eq(v.load(s, x.v, 'Dt'), dt))
            v.ensure('transform', s, veq(v.load(s, x.v, 'FT'), ft))
            v.ensure('starts at time zero', s, eq(v.load(s, x.v, 'CurrentStep'), 0))
            v.ensure('same solver', s, band(eq(v.load(s, o, 'Dt'), dt), veq(v.load(s, o, 'FT'), ft)))
    v = F.new('NewSolver')
    D = Domain(v, 2)
    dt = v.real('dt')
    ds = D.list()
    mem = [v.slice('cplx', 'y%d' % i, D.N) for i in range(2)]
    init = cell(v)
    m = v.obj('pf.Model', Fields=v.list([v.struct('pf.Field', Data=x, Name='y%d' % i) for i, x in enumerate(mem)]))
    v.summary('(*pf.Model).Init', lambda ip, st, a: (ip.oblige(st, 'initialises the model', veq(a[0], m)), bump(ip, st, init), [(st, None)])[2])
    w = Ptr(v.ip.alloc(v.st, 0))

    def newft(ip, st, a):
        ip.oblige(st, 'transform of the domain', band(eq(a[0].len, 2), *[eq(ip.get(st, a[0], k), D.D[k]) for k in range(2)]))
        return [(st, w)]
    v.summary('pfutil.NewFFTW', newft)
    for s, o in v.call('pf.NewSolver', m, ds, dt):
        v.ensure('model initialised once', s, eq(v.ip.load(s, init), 1))
        x = v.load(s, o, 'Stepper')
        v.ensure('Euler by default', s, isinstance(x, Iface) and x.tname == '*' + P('pf.Euler'))
        v.ensure('step size', s, band(eq(v.load(s, x.v, 'Dt'), dt), eq(v.load(s, o, 'Dt'), dt), eq(v.load(s, x.v, 'CurrentStep'), 0)))
        f1, f2 = v.load(s, x.v, 'FT'), v.load(s, o, 'FT')
        v.ensure('transform', s, band(isinstance(f1, Iface) and isinstance(f2, Iface), veq(f1.v, w), veq(f2.v, w)))
        v.ensure('model', s, veq(v.load(s, o, 'Model'), m))
        v.ensure('nothing registered', s, band(eq(v.load(s, o, 'Callbacks').len, 0), eq(v.load(s, o, 'Monitors').len, 0), eq(v.load(s, o, 'StartEpoch'), 0)))


@contract('C18', 'registration appends', ['(*pf.Solver).AddCallback', '(*pf.Solver).AddMonitor'])
def register(F):
    for k in (0, 1, 2):
        v = F.new('%d before' % k)
        cbs = [FuncAbs('cb%d' % i, None) for i in range(k + 1)]
        mons = [IfaceAbs('m%d' % i, {}) for i in range(k + 1)]
        o = v.obj('pf.Solver', Callbacks=v.list(cbs[:k]), Monitors=v.list(mons[:k]))
        for s, _ in v.call('(*pf.Solver).AddCallback', o, cbs[k]):
            for s2, _ in v.call('(*pf.Solver).AddMonitor', o, mons[k], st=s):
                for nm, xs in (('Callbacks', cbs), ('Monitors', mons)):
                    sl = v.load(s2, o, nm)
                    v.ensure(nm, s2, band(eq(sl.len, k + 1), *[v.get(s2, sl, i) is x for i, x in enumerate(xs)]))


@contract('C18', 'a point monitor appends the real part at its site', ['(*pf.PointMonitor).Add', 'pf.NewPointMonitor'])
def monitor(F):
    v = F.new()
    n, N, site = v.int('n', 0), v.int('N', 1), v.int('site', 0)
    v.assume(lt(site, N))
    old = v.slice('real', 'old', n)
    y = v.slice('cplx', 'y', N)
    z = v.slice('cplx', 'z', N)
    b = bricks(v, z=v.iface('pf.Field', v.obj('pf.Field', Data=z, Name='z')), y=v.iface('pf.Field', v.obj('pf.Field', Data=y, Name='y')))
    o = v.obj('pf.PointMonitor', Data=old, Site=site, Field='y')
    for s, _ in v.call('(*pf.PointMonitor).Add', o, b):
        d = v.load(s, o, 'Data')
        v.ensure('one more value', s, eq(d.len, add(n, 1)))
        v.ensure('the value', s, eq(v.get(s, d, n), v.get(v.st, y, site).re))
        v.ensure_all('history kept', s, n, lambda k: eq(v.get(s, d, k), v.get(v.st, old, k)))
        v.frame_slice('field', s, y)
    v2 = F.new('new')
    st = v2.int('site')
    for s, r in v2.call('pf.NewPointMonitor', st, 'conc'):
        v2.ensure('empty', s, band(eq(r.f['Data'].len, 0), eq(r.f['Site'], st), r.f['Field'] == 'conc'))
