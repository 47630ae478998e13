"""C32: files that fields are stored in"""
import re
from contracts.common import *
from gowp import ext
from gowp.strs import sprintf

ZERO, ONE = Fraction(0), Fraction(1)
FD = z3.Function('decimal', INT, z3.StringSort())
FF = z3.Function('fixed', REAL, z3.StringSort())
EOF = Iface('*errors.errorString', -1, Opaque('EOF'))


class Disk:
    """trusted contract of os, encoding/binary and encoding/csv: a file is the values written to it (with type and byte order),
    in order, before it was closed; a csv file is the records flushed to it before it was closed"""

    def __init__(self, v):
        self.v = v
        self.files = {}     # name -> {'chunks': [...]}: single path only
        self.open_ = {}
        S = v.ip.summaries
        E = {'os.Create': self.create, 'os.Open': self.open, '(*os.File).Close': self.close, '(*os.File).Stat': self.stat, 'encoding/binary.Write': self.write,
             'encoding/binary.Read': self.read, 'encoding/csv.NewWriter': self.writer, '(*encoding/csv.Writer).Write': self.record, '(*encoding/csv.Writer).Flush': self.flush,
             'encoding/csv.NewReader': self.reader, '(*encoding/csv.Reader).Read': self.next, 'strconv.ParseFloat': self.parse, 'fmt.Sprintf': self.sprintf, 'strconv.Itoa': self.itoa, 'strconv.FormatFloat': self.format,
             '(*encoding/csv.Reader).ReadAll': self.all}
        for k, h in E.items():
            S[k] = h
            ext.USED.add(k)
        ext.GLOBALS.setdefault('io.EOF', lambda ip: EOF)
        self.tables = {}
        self.rows_in = {}

    def name(self, x):
        if not isinstance(x, str):
            raise Unsupported('file name %s' % x)
        return x

    def create(self, ip, st, a):
        n = self.name(a[0])
        f = Opaque('file', name=n, open=Ptr(ip.alloc(st, True)), mode='w')
        self.files[n] = []
        return [(st, (f, NILIFACE))]

    def open(self, ip, st, a):
        n = self.name(a[0])
        if n not in self.files and n not in self.rows_in:
            ip.oblige(st, 'open an existing file: %s' % n, False)
            return []
        return [(st, (Opaque('file', name=n, open=Ptr(ip.alloc(st, True)), mode='r'), NILIFACE))]

    def close(self, ip, st, a):
        ip.store(st, a[0].a['open'], False)
        return [(st, NILIFACE)]

    def isopen(self, ip, st, f, what):
        ip.oblige(st, what + ': the file is open', ip.load(st, f.a['open']))

    def stat(self, ip, st, a):
        self.isopen(ip, st, a[0], 'Stat')
        size = add(0, 0)
        for kind, order, c, n in self.files[a[0].a['name']]:
            size = add(size, mul(8 if kind == '[]float64' else 1, n))
        return [(st, (IfaceAbs('stat', {'Size': lambda ip, st, a: [(st, size)]}), NILIFACE))]

    def order(self, x):
        return 'big' if 'big' in (x.tname or '') else 'little'

    def write(self, ip, st, a):
        f, d = a[0].v, a[2]
        self.isopen(ip, st, f, 'Write')
        s = d.v
        if isinstance(s, Slice):
            c = ip.read_ref(st, s.ref)
            self.files[f.a['name']].append((d.tname, self.order(a[1]), (lambda c, o: lambda k: c.sel(add(o, k)))(c, s.off), s.len))
        else:
            raise Unsupported('binary.Write of %s' % d.tname)
        return [(st, NILIFACE)]

    def read(self, ip, st, a):
        f, d = a[0].v, a[2]
        self.isopen(ip, st, f, 'Read')
        ch = self.files[f.a['name']]
        if len(ch) != 1:
            raise Unsupported('file of several values')
        kind, order, c, n = ch[0]
        ip.oblige(st, 'read as it was written', kind == d.tname and order == self.order(a[1]))
        ip.oblige(st, 'all of the file is read', eq(d.v.len, n))
        off = d.v.off
        ip.write_ref(st, d.v.ref, LamArr(lambda k: c(sub(k, off))))
        return [(st, NILIFACE)]

    # -- csv
    def writer(self, ip, st, a):
        f = a[0].v
        t = {'count': Ptr(ip.alloc(st, 0)), 'cols': {}, 'header': None, 'flushed': Ptr(ip.alloc(st, True)), 'file': f}
        self.tables[f.a['name']] = t
        return [(st, Opaque('csv', t=t))]

    def record(self, ip, st, a):
        t = a[0].a['t']
        c = ip.load(st, t['count'])
        n = a[1].len
        if not isinstance(n, int):
            raise Unsupported('record of unknown length')
        xs = [ip.get(st, a[1], k) for k in range(n)]
        if isinstance(c, int) and c == 0:
            t['header'] = xs
            t['cols'] = [ip.alloc(st, LamArr(lambda k: z3.StringVal(''))) for _ in range(n)]
        else:
            ip.oblige(st, 'record as long as the header', n == len(t['cols']))
            for k in range(min(n, len(t['cols']))):
                ip.store(st, Ptr(t['cols'][k], (('i', sub(c, 1)),)), self.cell(xs[k]))
        ip.store(st, t['count'], add(c, 1))
        ip.store(st, t['flushed'], False)
        return [(st, NILIFACE)]

    def flush(self, ip, st, a):
        t = a[0].a['t']
        self.isopen(ip, st, t['file'], 'Flush')
        ip.store(st, t['flushed'], True)
        return [(st, None)]

    def reader(self, ip, st, a):
        return [(st, Opaque('csvr', f=a[0].v, pos=Ptr(ip.alloc(st, 0))))]

    def next(self, ip, st, a):
        r = a[0].a
        self.isopen(ip, st, r['f'], 'Read')
        rows = self.rows_in[r['f'].a['name']]
        p = ip.load(st, r['pos'])
        if not isinstance(p, int):
            raise Unsupported('position in the file')
        ip.store(st, r['pos'], p + 1)
        if p < len(rows):
            return [(st, (Slice(ip.alloc(st, ListArr(rows[p])), 0, len(rows[p])), NILIFACE))]
        return [(st, (NILSLICE, EOF))]

    def all(self, ip, st, a):
        out = []
        while True:
            r, e = self.next(ip, st, a)[0][1]
            if e is EOF:
                return [(st, (Slice(ip.alloc(st, ListArr(out)), 0, len(out)), NILIFACE))]
            out.append(r)

    def parse(self, ip, st, a):
        x = a[0]
        if not isinstance(x, str) and z3.is_app(x) and x.decl().eq(FF):
            return [(st, (x.arg(0), NILIFACE))]
        raise Unsupported('ParseFloat of %s' % x)

    def itoa(self, ip, st, a):
        return [(st, str(a[0]) if isinstance(a[0], int) else FD(zi(a[0])))]

    def format(self, ip, st, a):
        if a[1:] == [ord('f'), 6, 64] and not isinstance(a[0], str):
            return [(st, FF(zr(a[0])))]
        raise Unsupported('FormatFloat %s' % (a[1:],))

    def cell(self, x):
        if isinstance(x, str):
            return FD(z3.IntVal(int(x))) if re.fullmatch('-?[0-9]+', x) else z3.StringVal(x)
        return x

    def sprintf(self, ip, st, a):
        r = sprintf(ip, st, a[0], a[1])
        if r is None and a[0] in ('%d', '%f', '%v') and a[1].len == 1:
            x = ip.get(st, a[1], 0).v
            if not isinstance(x, (str, bool, C)):
                try:
                    r = FF(zr(x)) if a[0] == '%f' else FD(zi(x))
                except Exception:
                    r = None
        return [(st, r if r is not None else ip.fresh('str', z3.StringSort()))]


def one_chunk(d, n):
    return len(d.files.get(n, ())) == 1


@contract('C32', 'SaveFloat64, LoadFloat64: what was saved is loaded', ['pf.SaveFloat64', 'pf.LoadFloat64'])
def roundtrip(F):
    v = F.new()
    d = Disk(v)
    n = v.int('n', 0)
    x = v.slice('real', 'x', n)
    for s, _ in v.call('pf.SaveFloat64', 'a.bin', x):
        v.ensure('one chunk of big endian float64', s, one_chunk(d, 'a.bin') and d.files['a.bin'][0][:2] == ('[]float64', 'big'))
        v.frame_slice('data unchanged', s, x)
        if not one_chunk(d, 'a.bin'):
            continue
        v.ensure('all of it', s, eq(d.files['a.bin'][0][3], n))
        v.ensure_all('values', s, n, lambda k: eq(d.files['a.bin'][0][2](k), v.get(v.st, x, k)))
        for s2, y in v.call('pf.LoadFloat64', 'a.bin', st=s):
            v.ensure('loaded length', s2, eq(y.len, n))
            v.ensure_all('loaded values', s2, n, lambda k: eq(v.get(s2, y, k), v.get(v.st, x, k)))
    v.reachable('pre', v.st)


def solver_with(v, names, N):
    ys = [v.slice('cplx', 'y%d' % i, N) for i in range(len(names))]
    M = v.obj('pf.Model', Fields=v.list([v.struct('pf.Field', Data=y, Name=n) for y, n in zip(ys, names)]))
    return v.obj('pf.Solver', Model=M), ys


@contract('C32', 'Float64IO: one file per field and epoch, holding the real parts', ['pf.NewFloat64IO', '(*pf.Float64IO).SaveFields', '(pf.Field).SaveReal'])
def float64io(F):
    for names, epoch in ((['conc'], 0), (['conc', 'eta'], 7), (['a', 'eta1', 'eta2'], 12)):
        v = F.new('%d fields' % len(names))
        d = Disk(v)
        N = v.int('N', 1)
        S, ys = solver_with(v, names, N)
        st, io = v.call1('pf.NewFloat64IO', '/tmp/run')
        p = Ptr(v.ip.alloc(st, io))
        for s, _ in v.call('(*pf.Float64IO).SaveFields', p, S, epoch, st=st):
            want = ['/tmp/run_%s_%d.bin' % (n, epoch) for n in names]
            v.ensure('names of the files', s, sorted(d.files) == sorted(want))
            for f, y in zip(want, ys):
                v.ensure('one chunk of big endian float64', s, one_chunk(d, f) and d.files[f][0][:2] == ('[]float64', 'big'))
                if one_chunk(d, f):
                    v.ensure('length', s, eq(d.files[f][0][3], N))
                    v.ensure_all('real parts', s, N, lambda k: eq(d.files[f][0][2](k), v.get(v.st, y, k).re))
                v.frame_slice('field unchanged', s, y)
        v.reachable('pre', v.st)


@contract('C32', 'Uint8IO: one file per field and epoch, from 0 at the smallest value to 255 at the largest', ['pf.NewUint8IO', '(*pf.Uint8IO).SaveFields', 'pf.RealPartAsUint8'])
def uint8io(F):
    v = F.new()
    d = Disk(v)
    N = v.int('N', 1)
    names, epoch = ['conc', 'eta'], 4
    S, ys = solver_with(v, names, N)
    lim = {}
    # the limits have their own contract (C08): a bound of all values
    for w, o in (('Min', le), ('Max', ge)):
        def h(ip, st, a, w=w, o=o):
            ks = [k for k, y in enumerate(ys) if v.ip.read_ref(st, y.ref) is v.ip.read_ref(st, a[0].ref)]
            if len(ks) != 1:
                raise Unsupported('limits of something else')
            return [(st, lim.setdefault((w, ks[0]), v.ip.fresh('%s%d' % (w, ks[0]), REAL)))]
        v.summary('pfutil.%sReal' % w, h)
    st, io = v.call1('pf.NewUint8IO', '/tmp/run')
    p = Ptr(v.ip.alloc(st, io))
    for s, _ in v.call('(*pf.Uint8IO).SaveFields', p, S, epoch, st=st):
        want = ['/tmp/run_%s_%d.bin' % (n, epoch) for n in names]
        v.ensure('names of the files', s, sorted(d.files) == sorted(want))
        for i, (f, y) in enumerate(zip(want, ys)):
            v.ensure('one chunk of bytes', s, one_chunk(d, f) and d.files[f][0][0] == '[]uint8')
            v.frame_slice('field unchanged', s, y)
            if not one_chunk(d, f) or ('Min', i) not in lim or ('Max', i) not in lim:
                v.ensure('scaled by the limits of the field', s, False)
                continue
            lo, hi = lim['Min', i], lim['Max', i]
            v.ensure('length', s, eq(d.files[f][0][3], N))

            def post(k):
                x = v.get(v.st, y, k).re
                z = rdiv(mul(Fraction(255), sub(x, lo)), ite(lt(sub(hi, lo), Fraction(1, 10**10)), ONE, sub(hi, lo)))
                g = d.files[f][0][2](k)
                return imp(band(le(lo, x), le(x, hi)), band(le(toreal(g), z), lt(z, toreal(add(g, 1)))))
            v.ensure_all('bytes', s, N, post)
    v.reachable('pre', v.st)


@contract('C32', 'RealPartAsUint8: the range maps linearly to 0..255', ['pf.RealPartAsUint8'])
def uint8(F):
    v = F.new()
    n = v.int('n', 0)
    x = v.slice('cplx', 'x', n)
    lo, hi = v.real('lo'), v.real('hi')
    v.assume(le(lo, hi))
    w = sub(hi, lo)
    for s, r in v.call('pf.RealPartAsUint8', x, lo, hi):
        v.ensure('length', s, eq(r.len, n))

        def post(k):
            y = v.get(v.st, x, k).re
            inside = band(le(lo, y), le(y, hi))
            z = rdiv(mul(Fraction(255), sub(y, lo)), ite(lt(w, Fraction(1, 10**10)), ONE, w))
            g = v.get(s, r, k)
            return imp(inside, band(le(toreal(g), z), lt(z, toreal(add(g, 1)))))
        v.ensure_all('value', s, n, post)
    v.reachable('pre', v.st)


@contract('C32', 'SaveCsv, CsvIO: header, position and values of every node', ['pf.SaveCsv', '(*pf.CsvIO).SaveFields'])
def csv(F):
    for dim, names in ((2, ['conc']), (3, ['conc', 'eta']), (2, ['a', 'b', 'c'])):
        v = F.new('%dD, %d fields' % (dim, len(names)))
        d = Disk(v)
        dom = Domain(v, dim)
        S, ys = solver_with(v, names, dom.N)
        io = v.obj('pf.CsvIO', Prefix='out', DomainSize=dom.list())
        for s, _ in v.call('(*pf.CsvIO).SaveFields', io, S, 3):
            v.ensure('name of the file', s, list(d.tables) == ['out_3.csv'])
            t = d.tables.get('out_3.csv')
            if not t:
                continue
            v.ensure('header', s, t['header'] == ['X', 'Y', 'Z'] + names)
            v.ensure('one row per node', s, eq(v.ip.load(s, t['count']), add(dom.N, 1)))
            v.ensure('written before the file is closed', s, v.ip.load(s, t['flushed']))
            if t['header'] != ['X', 'Y', 'Z'] + names:
                continue

            def at(k, j):
                return v.ip.read_ref(s, t['cols'][j]).sel(k)
            for j in range(3):
                v.ensure_all('coordinate %d' % j, s, dom.N, lambda k: eq(at(k, j), FD(zi(dom.coord(k)[j] if j < dim else 0))))
            for i, y in enumerate(ys):
                v.ensure_all('value of %s' % names[i], s, dom.N, lambda k: eq(at(k, 3 + i), FF(zr(v.get(v.st, y, k).re))))
        v.reachable('pre', v.st)


@contract('C32', 'SaveCsv refuses data that does not fit the domain', ['pf.SaveCsv'])
def csv_refuses(F):
    for what in ('none', 'other'):
        v = F.new(what)
        d = Disk(v)
        n = v.int('n', 1)
        D = [v.int('n%d' % i, 1) for i in range(2)]
        v.assume(bnot(eq(n, mul(D[0], D[1]))))
        x = v.slice('real', 'x', n)
        hit = []
        v.ip.on_panic = lambda st, why, *a: hit.append(why)
        data = v.struct('pf.CsvData', Name='a', Data=IfaceAbs('data', {'Len': lambda ip, st, a: [(st, n)], 'Get': lambda ip, st, a: [(st, ip.get(st, x, a[1]))]}))
        out = v.call('pf.SaveCsv', 'f.csv', v.list([data]), v.list(D) if what == 'other' else NILSLICE)
        v.ensure('refused', v.st, not out and len(hit) >= 1 and not d.files)


@contract('C32', 'LoadCSV: one field per column, in order (files of 0..3 rows)', ['pf.LoadCSV'])
def loadcsv(F):
    for names, R in ((['conc'], 0), (['conc', 'eta'], 1), (['a', 'b', 'c'], 3)):
        v = F.new('%d columns, %d rows' % (len(names), R))
        d = Disk(v)
        val = [[v.real('v%d_%d' % (i, j)) for j in range(len(names))] for i in range(R)]
        d.rows_in['in.csv'] = [['X', 'Y', 'Z'] + names] + [[FD(z3.IntVal(0))] * 3 + [FF(x) for x in r] for r in val]
        for s, r in v.call('pf.LoadCSV', 'in.csv'):
            v.ensure('number of fields', s, eq(r.len, len(names)))
            for j, n in enumerate(names):
                f = v.get(s, r, j)
                v.ensure('name', s, f.f['Name'] == n)
                v.ensure('length', s, eq(f.f['Data'].len, R))
                for i in range(R if f.f['Data'].len == R else 0):
                    v.ensure('value', s, lambda: band(eq(v.get(s, f.f['Data'], i).re, val[i][j]), eq(v.get(s, f.f['Data'], i).im, ZERO)))
        v.reachable('pre', v.st)


@contract('C32', 'CreateXDMF: names the files of Float64IO, step by step', ['pf.CreateXDMF'])
def xdmf(F):
    for names, num, D in ((['conc'], 1, [4, 6]), (['conc', 'eta'], 3, [2, 3, 5]), (['a', 'b', 'c'], 2, [7, 7])):
        v = F.new('%d fields, %d steps' % (len(names), num))
        for s, r in v.call('pf.CreateXDMF', v.list(names), 'pre', num, v.list(D)):
            G = r.f['Domain'].f['Grid'].f['Grids']
            dims = ' '.join(map(str, D))
            v.ensure('mesh', s, r.f['Domain'].f['Topology'].f['Dimensions'] == dims and r.f['Domain'].f['Topology'].f['Type'] == '%dDCoRectMesh' % len(D))
            v.ensure('steps', s, eq(G.len, num))
            for i in range(num):
                A = v.get(s, G, i).f['Attributes']
                v.ensure('fields', s, eq(A.len, len(names)))
                for j, n in enumerate(names):
                    a = v.get(s, A, j).f
                    it = a['DataItem'].f
                    v.ensure('file of field %s at step %d' % (n, i), s, a['Name'] == n and it['Value'] == 'pre_%s_%d.bin' % (n, i) and it['Dimensions'] == dims
                             and it['Precision'] == 8 and it['Endian'] == 'Big' and it['DataType'] == 'Float' and it['Format'] == 'Binary')
