"""C31: heat maps and line plots of CSV files"""
import itertools
from contracts.common import *
from contracts import c32_files
from contracts.c32_files import Disk, FD, FF
from gowp import ext

ERR = Iface('*errors.errorString', -1, Opaque('error'))


def rows_of(v, xs):
    return v.list([v.struct('cmd.DataRow', X=x, Y=y, Z=z, Value=w) for x, y, z, w in xs])


class Table:
    """N rows that hold every node of an Nx x Ny domain once, in any order"""

    def __init__(self, v):
        self.v = v
        self.D = [v.int('Nx', 1), v.int('Ny', 1)]
        self.N = v.int('N', 1)
        self.X, self.Y, self.VAL = z3.Function('X', INT, INT), z3.Function('Y', INT, INT), z3.Function('Value', INT, REAL)
        self.P, self.I = z3.Function('number', INT, INT), z3.Function('place', INT, INT)    # y*Nx + x of a row and the row with it
        self.ROW = z3.Function('row', INT, INT, INT)
        v.ip.numberings[self.P] = lambda p: [self.place(p)]
        self.rows = v.slice('struct', 'rows', self.N, content=LamArr(self.at))

    def place(self, p):
        p = zi(p)
        if p.num_args() and p.decl().eq(self.P):
            k = p.arg(0)
            if CTX.decided(band(ge(k, 0), lt(k, self.N))) is True:
                return k
        t = self.I(p)
        CTX.fact(imp(band(ge(p, 0), lt(p, self.N)), band(ge(t, 0), lt(t, self.N), eq(self.P(t), p))))
        return t

    def known(self, k):
        k = zi(k)
        CTX.fact(imp(band(ge(k, 0), lt(k, self.N)), band(ge(self.X(k), 0), lt(self.X(k), self.D[0]), ge(self.Y(k), 0), lt(self.Y(k), self.D[1]),
                                                         ge(self.P(k), 0), lt(self.P(k), self.N), eq(self.I(self.P(k)), k), eq(self.ROW(self.X(k), self.Y(k)), k))))
        return k

    def at(self, k):
        k = self.known(k)
        return self.v.struct('cmd.DataRow', X=self.X(k), Y=self.Y(k), Z=z3.Function('Z', INT, INT)(k), Value=self.VAL(k))

    def row(self, x, y):
        x, y = zi(x), zi(y)
        t = self.ROW(x, y)
        CTX.fact(imp(band(ge(x, 0), lt(x, self.D[0]), ge(y, 0), lt(y, self.D[1])), band(ge(t, 0), lt(t, self.N), eq(self.X(t), x), eq(self.Y(t), y))))
        return t

    def index(self, ip, st, a):
        """contract of index: different nodes have different numbers in 0..Nx*Ny-1"""
        x, y, n = zi(a[0]), zi(a[1]), a[2]
        ip.oblige(st, 'index: width of the table', eq(n, self.D[0]))
        ip.oblige(st, 'index: node of the table', band(ge(x, 0), lt(x, self.D[0]), ge(y, 0), lt(y, self.D[1])))
        if x.num_args() and x.decl().eq(self.X) and y.num_args() and y.decl().eq(self.Y) and x.arg(0).eq(y.arg(0)):
            k = x.arg(0)
        else:
            k = self.row(x, y)
        self.known(k)
        return [(st, self.P(k))]


@contract('C31', 'index numbers the nodes of a table', ['cmd.index'])
def index(F):
    v = F.new()
    n, m = v.int('Nx', 1), v.int('Ny', 1)
    X, Y = [[v.int('%s%d' % (c, i), 0) for i in range(2)] for c in 'xy']
    for i in range(2):
        v.assume(band(lt(X[i], n), lt(Y[i], m)))
    v.fact(imp(band(ge(n, 1), le(add(Y[0], 1), m)), le(mul(n, add(Y[0], 1)), mul(n, m))))
    v.fact(imp(band(ge(n, 1), lt(Y[0], Y[1])), le(mul(n, add(Y[0], 1)), mul(n, Y[1]))))
    v.fact(imp(band(ge(n, 1), lt(Y[1], Y[0])), le(mul(n, add(Y[1], 1)), mul(n, Y[0]))))
    v.fact(imp(band(ge(n, 1), ge(Y[0], 0)), ge(mul(n, Y[0]), 0)))
    for s, r in v.call('cmd.index', X[0], Y[0], n):
        v.ensure('within the table', s, band(ge(r, 0), lt(r, mul(n, m))))
        for s2, q in v.call('cmd.index', X[1], Y[1], n, st=s):
            v.ensure('different nodes have different numbers', s2, imp(eq(r, q), band(eq(X[0], X[1]), eq(Y[0], Y[1]))))
    v.reachable('pre', v.st)


@contract('C31', 'NewHeatMapData, Dims, X, Y, Z: the value of every node, rows in any order', ['cmd.NewHeatMapData', '(cmd.HeatMapData).Z', '(cmd.HeatMapData).Dims', '(cmd.HeatMapData).X', '(cmd.HeatMapData).Y'])
def heatmap(F):
    v = F.new()
    T = Table(v)
    if not v.summary('cmd.index', T.index):
        raise Absent('cmd.index')
    D, N = T.D, T.N
    for G, j in ((T.X, 0), (T.Y, 1)):
        R = SpecRec('largest%d' % j, lambda: 0, lambda t, r, G=G: (T.known(t), ite(gt(G(zi(t)), r), G(zi(t)), r))[1], INT)
        v.ip.specfns.append(R)
        k = T.row(sub(D[0], 1) if j == 0 else 0, sub(D[1], 1) if j == 1 else 0)
        T.known(k)
        T.row(0, 0)
        v.induct('no side is larger', lambda t: (T.known(t), imp(le(t, N), band(ge(R.at(t), 0), lt(R.at(t), D[j]))))[1], [N])
        v.induct('every row counts', lambda t: imp(band(le(t, N), lt(k, t)), ge(R.at(t), G(k))), [N])
    for s, h in v.call('cmd.NewHeatMapData', T.rows):
        for s2, (c, r) in v.call('(cmd.HeatMapData).Dims', h, st=s):
            v.ensure('columns', s2, eq(c, D[0]))
            v.ensure('rows', s2, eq(r, D[1]))
        c, r = v.int('c', 0), v.int('r', 0)
        s.assume(band(ge(c, 0), ge(r, 0), lt(c, D[0]), lt(r, D[1])))
        for s2, x in v.call('(cmd.HeatMapData).Z', h, c, r, st=s):
            v.ensure('value', s2, eq(x, T.VAL(T.row(c, r))))
        for f, y in (('X', c), ('Y', r)):
            for s2, x in v.call('(cmd.HeatMapData).' + f, h, y, st=s):
                v.ensure('position', s2, eq(x, toreal(y)))
    v.reachable('pre', v.st)


@contract('C31', 'NewHeatMapData, fillImage: pixel (x, y) has the colour of node (x, y) (small tables)', ['cmd.NewHeatMapData', 'cmd.fillImage'])
def image(F):
    for nx, ny, seed in ((1, 1, 1), (2, 3, 1), (3, 2, 5), (1, 4, 3), (3, 3, 2)):
        v = F.new('%d x %d' % (nx, ny))
        val = {(x, y): v.real('v%d_%d' % (x, y)) for x in range(nx) for y in range(ny)}
        nodes = sorted(val, key=lambda p: (p[0] * 7 * seed + p[1] * 5 + p[0] * p[1] * seed) % 11)
        rows = rows_of(v, [(x, y, 0, val[x, y]) for x, y in nodes])
        img = {}
        S = v.ip.summaries

        def new(ip, st, a):
            r = a[0].f
            ip.oblige(st, 'size of the image', band(*[eq(r[m].f[c], w) for m, c, w in (('Min', 'X', 0), ('Min', 'Y', 0), ('Max', 'X', nx), ('Max', 'Y', ny))]))
            return [(st, Opaque('img'))]

        def put(ip, st, a):
            img.setdefault((a[1], a[2]), []).append(a[3])
            return [(st, None)]
        for n, h in (('image.NewRGBA64', new), ('(*image.RGBA64).Set', put)):
            S[n] = h
            ext.USED.add(n)
        cmap = IfaceAbs('cmap', {'At': lambda ip, st, a: [(st, (Iface('color', -1, Opaque('color', of=a[1])), NILIFACE))]})
        for s, h in v.call('cmd.NewHeatMapData', rows):
            for s2, _ in v.call('cmd.fillImage', h, cmap, st=s):
                v.ensure('every pixel once', s2, sorted(img) == sorted(val) and all(len(x) == 1 for x in img.values()))
                for p, w in val.items():
                    if p in img:
                        v.ensure('colour of pixel %s' % (p,), s2, lambda: eq(img[p][0].v.a['of'], w))
        v.reachable('pre', v.st)


@contract('C31', 'dataRange: smallest and largest value', ['cmd.dataRange'])
def datarange(F):
    v = F.new()
    n = v.int('n', 1)
    VAL = z3.Function('Value', INT, REAL)
    el = lambda k: VAL(zi(k))
    rows = v.slice('struct', 'rows', n, content=LamArr(lambda k: v.struct('cmd.DataRow', X=0, Y=0, Z=0, Value=el(k))))
    Rs = []
    for better in (lt, gt):
        Rs.append((SpecRec('ext', lambda: el(0), lambda t, r, better=better: ite(better(el(t), r), el(t), r), REAL),
                   le if better is lt else ge))
        v.ip.specfns.append(Rs[-1][0])
    args = [SpecRec('arg', lambda: 0, lambda t, r, better=better, R=R: ite(better(el(t), R.at(t)), t, r), INT) for better, (R, _) in zip((lt, gt), Rs)]
    for s, r in v.call('cmd.dataRange', rows):
        j = z3.Int('j')
        s.assume(band(ge(j, 0), lt(j, n)))
        for x, (R, o), A in zip(r, Rs, args):
            v.ensure('running extreme', s, eq(x, R.at(n)))
            v.induct('bounds every value', lambda t: imp(le(t, n), imp(lt(j, t), o(R.at(t), el(j)))), [n], st=s)
            v.induct('is one of the values', lambda t: imp(le(t, n), band(ge(A.at(t), 0), lt(A.at(t), n), eq(R.at(t), el(A.at(t))))), [n], st=s)
            v.ensure('no value is beyond it', s, o(x, el(j)))
            v.ensure('it is a value', s, eq(x, el(A.at(n))))
    v.reachable('pre', v.st)


class PlotDisk(Disk):
    def __init__(self, v):
        Disk.__init__(self, v)
        v.ip.summaries['strconv.Atoi'] = self.atoi
        ext.USED.add('strconv.Atoi')

    def atoi(self, ip, st, a):
        x = a[0]
        if not isinstance(x, str) and z3.is_app(x) and x.decl().eq(FD):
            return [(st, (x.arg(0), NILIFACE))]
        raise Unsupported('Atoi of %s' % x)


def csv_file(v, d, name, names, R):
    pos = [[v.int('p%d_%d' % (i, j), 0) for j in range(3)] for i in range(R)]
    val = [[v.real('v%d_%d' % (i, j)) for j in range(len(names))] for i in range(R)]
    d.rows_in[name] = [['X', 'Y', 'Z'] + names] + [[FD(zi(x)) for x in p] + [FF(x) for x in r] for p, r in zip(pos, val)]
    return pos, val


@contract('C31', 'readHeader, getColIndex, readData: positions and the values of the chosen column (files of 0..3 rows)', ['cmd.readHeader', 'cmd.getColIndex', 'cmd.readData'])
def readdata(F):
    for names, R in ((['conc'], 2), (['conc', 'eta'], 0), (['a', 'b', 'c'], 3)):
        for col in [''] + names:
            v = F.new('%s, %d rows, column %s' % (names, R, col))
            d = PlotDisk(v)
            pos, val = csv_file(v, d, 'in.csv', names, R)
            j = names.index(col) if col else 0
            for s, h in v.call('cmd.readHeader', 'in.csv'):
                v.ensure('header', s, h.len == 3 + len(names) and [v.get(s, h, k) for k in range(h.len)] == ['X', 'Y', 'Z'] + names)
                for s2, i in v.call('cmd.getColIndex', h, col, st=s):
                    v.ensure('column', s2, eq(i, 3 + j))
            for s, r in v.call('cmd.readData', 'in.csv', col):
                v.ensure('number of rows', s, eq(r.len, R))
                for i in range(R if r.len == R else 0):
                    f = v.get(s, r, i).f
                    v.ensure('position', s, band(*[eq(f[c], p) for c, p in zip('XYZ', pos[i])]))
                    v.ensure('value', s, eq(f['Value'], val[i][j]))
            v.reachable('pre', v.st)


UNSET = [('x', [-1, None, None]), ('y', [None, -1, None]), ('z', [None, None, -1])]


def lineof(v, s, xys, pos, val, at, axis, what):
    """the points of the rows on the line, each once (in either direction)"""
    R = len(pos)
    on = [band(*[eq(p[k], at[k]) for k in range(3) if k != axis]) for p in pos]
    n = 0
    for o in on:
        n = add(n, ite(o, 1, 0))
    v.ensure(what + ': number of points', s, eq(xys.len, n))
    if not isinstance(xys.len, int):
        raise Unsupported('points of the line')
    got = [v.get(s, xys, k).f for k in range(xys.len)]

    def ordered(seq):
        # the k-th row on the line is point k
        c, out = 0, []
        for i in seq:
            for k, g in enumerate(got):
                out.append(imp(band(on[i], eq(c, k)), band(eq(g['X'], toreal(pos[i][axis])), eq(g['Y'], val[i]))))
            c = add(c, ite(on[i], 1, 0))
        return band(*out)
    v.ensure(what + ': points in the order of the file', s, bor(ordered(range(R)), ordered(range(R - 1, -1, -1))))


@contract('C31', 'lineData: the points on the line, along the free axis (tables of 0..3 rows)', ['cmd.lineData', 'cmd.includeRow', 'cmd.absissaIndex', 'cmd.numSet'])
def linedata(F):
    for axis in range(3):
        for R in (0, 1, 2, 3):
            v = F.new('along %s, %d rows' % ('xyz'[axis], R))
            at = [-1 if k == axis else v.int('at%d' % k, 0) for k in range(3)]
            pos = [[v.int('p%d_%d' % (i, j), 0) for j in range(3)] for i in range(R)]
            val = [v.real('v%d' % i) for i in range(R)]
            for s, r in v.call('cmd.lineData', rows_of(v, [p + [w] for p, w in zip(pos, val)]), *at):
                lineof(v, s, r, pos, val, at, axis, 'line')
            v.reachable('pre', v.st)


@contract('C31', 'numSet: how many of the coordinates of the line are given', ['cmd.numSet'])
def numset(F):
    for which in itertools.product((0, 1), repeat=3):
        v = F.new(str(which))
        xs = [v.int('x%d' % i, 0) if w else -1 for i, w in enumerate(which)]
        for s, r in v.call('cmd.numSet', *xs):
            v.ensure('number', s, eq(r, sum(which)))
        v.reachable('pre', v.st)


def inits(v, name):
    """the init functions that set the command up"""
    return sorted(n for n, f in v.prog.fns.items() if n.startswith(P('cmd.init#')) and '$' not in n and any(P('cmd.' + name) in str(i) for b in f.blocks for i in b['i']))


def command(v, name):
    """the function that a cobra command runs: the Run field of the literal that initialises the variable"""
    ins = [i for b in v.prog.fns[P('cmd.init')].blocks for i in b['i']]
    obj = [i['x']['name'] for i in ins if i['op'] == 'store' and i['a'].get('k') == 'global' and i['a']['name'] == P('cmd.' + name)]
    fld = [i['r'] for i in ins if i['op'] == 'fieldaddr' and i['f'] == 'Run' and obj and i['x'].get('name') == obj[0]]
    fn = [i['x']['name'] for i in ins if i['op'] == 'store' and fld and i['a'].get('name') == fld[0]]
    if len(fn) != 1:
        raise Unsupported('function of %s' % name)
    return fn[0]


@contract('C31', 'lineplot: one line per field given with -d, all fields without it (files of 2 rows)', ['cmd.lineData', 'cmd.readData', 'cmd.readHeader'])
def lineplot(F):
    names = ['conc', 'eta', 'pot', 'temp']
    for axis, data in ((0, ''), (1, 'eta'), (2, 'conc,pot'), (0, 'temp,eta,conc'), (1, 'conc,eta,pot,temp')):
        v = F.new('along %s, -d %s' % ('xyz'[axis], data))
        d = PlotDisk(v)
        pos, val = csv_file(v, d, 'in.csv', names, 2)
        for p in pos:
            for k in range(3):
                if k != axis:
                    v.assume(eq(p[k], 3))
        given = {'f': 'in.csv', 'd': data, 'o': 'plot.png'}
        given.update({c: 3 for k, c in enumerate('xyz') if k != axis})
        if not data:
            del given['d']
        at = [-1 if k == axis else 3 for k in range(3)]
        lines, legend, saved = [], [], []
        S = v.ip.summaries

        # -- flags as they are registered
        registered, added = {}, []
        this = Opaque('cmd', name='lineplot')

        def register(kind):
            def h(ip, st, a):
                if a[0].a['of'] is this:
                    ip.oblige(st, 'flag -%s' % a[2], a[1] not in registered)
                    registered[a[1]] = (kind, given.get(a[2], a[3]))
                return [(st, None)]
            return h

        def flag(kind):
            def h(ip, st, a):
                r = registered.get(a[1])
                if r is None or r[0] != kind or a[0].a['of'] is not this:
                    return [(st, ('' if kind == 'String' else 0, ERR))]
                return [(st, (r[1], NILIFACE))]
            return h

        def addcmd(ip, st, a):
            added.extend(ip.get(st, a[1], k) for k in range(a[1].len))
            return [(st, None)]
        ext.GLOBALS[P('cmd.lineplotCmd')] = lambda ip: this
        ext.GLOBALS[P('cmd.rootCmd')] = lambda ip: Opaque('cmd', name='root')

        def split(ip, st, a):
            xs = a[0].split(a[1])
            return [(st, v.ip and Slice(ip.alloc(st, ListArr(xs)), 0, len(xs)))]
        plt = Ptr(v.ip.alloc(v.st, v.ip.zero(v.prog.type_by_name('gonum.org/v1/plot.Plot'))))
        line_t = v.prog.type_by_name('gonum.org/v1/plot/plotter.Line')

        def newline(ip, st, a):
            z0 = ip.zero(line_t)
            p = Ptr(ip.alloc(st, z0))
            lines.append((p, a[0].v))
            return [(st, (p, NILIFACE))]

        def addline(ip, st, a):
            return [(st, None)]

        def addlegend(ip, st, a):
            legend.append((a[1], [ip.get(st, a[2], k).v for k in range(a[2].len)]))
            return [(st, None)]

        def save(ip, st, a):
            saved.append(a[3])
            return [(st, NILIFACE)]
        fl = '(*github.com/spf13/pflag.FlagSet).'
        H = {'(*github.com/spf13/cobra.Command).Flags': lambda ip, st, a: [(st, Opaque('flags', of=a[0]))], '(*github.com/spf13/cobra.Command).AddCommand': addcmd,
             fl + 'StringP': register('String'), fl + 'IntP': register('Int'), fl + 'GetString': flag('String'), fl + 'GetInt': flag('Int'), 'strings.Split': split,
             'gonum.org/v1/plot.New': lambda ip, st, a: [(st, plt)], '(*gonum.org/v1/plot.Plot).Add': addline, '(*gonum.org/v1/plot.Legend).Add': addlegend,
             'gonum.org/v1/plot/plotter.NewLine': newline, 'gonum.org/v1/plot/plotutil.Color': lambda ip, st, a: [(st, Iface('color', -1, Opaque('color', of=a[0])))],
             '(*gonum.org/v1/plot.Plot).Save': save}
        for k, h in H.items():
            S[k] = h
            ext.USED.add(k)
        want = data.split(',') if data else names
        n = 0
        st = v.st.copy()
        for f in inits(v, 'lineplotCmd'):
            (st, _), = v.ip.call(st, FuncV(f), [])
        v.ensure('part of the program', st, any(x is this for x in added))
        for s, _ in v.ip.call(st, FuncV(command(v, 'lineplotCmd')), [this, NILSLICE]):
            n += 1
            v.ensure('one line per field, in order', s, [x for x, _ in legend] == want and len(lines) == len(want))
            v.ensure('saved once', s, saved == ['plot.png'])
            if len(lines) == len(want):
                for (p, xys), f in zip(lines, want):
                    lineof(v, s, xys, pos, [r[names.index(f)] for r in val], at, axis, f)
        v.ensure('one outcome', v.st, n == 1)
        v.reachable('pre', v.st)
