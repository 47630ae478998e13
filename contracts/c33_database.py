"""C33: fields, attributes and time series in the database"""
import re
from contracts.common import *
from contracts.c32_files import Disk, FD, FF, solver_with
from gowp import ext

ZERO = Fraction(0)
SCHEMA = {'simids': ['simid', 'creationtime'], 'positions': ['id', 'x', 'y', 'z'], 'fields': ['id', 'name', 'value', 'positionid', 'timestep', 'simid'],
          'simattributes': ['key', 'value', 'simid'], 'comments': ['simid', 'value'], 'simtextattributes': ['key', 'value', 'simid'],
          'timeseries': ['key', 'value', 'timestep', 'simid']}


class Sql:
    """trusted contract of database/sql with sqlite: ghost tables. A statement is parsed from its text; rows inserted through a transaction
    count when it is committed. rows: concrete rows; bulk: row families of unknown length, one per table (and field name)"""

    def __init__(self, v, created=True):
        self.v = v
        self.rows = {t: [] for t in SCHEMA}
        self.created = set(SCHEMA) if created else set()
        self.bulk = {}
        self.answer = {}        # (table, columns) -> handler(where) -> (n, row function) for queries over row families
        self.pending = []
        E = {'(*database/sql.DB).Prepare': self.prepare, '(*database/sql.Tx).Prepare': self.prepare, '(*database/sql.DB).Begin': self.begin,
             '(*database/sql.Tx).Commit': self.commit, '(*database/sql.Tx).Rollback': self.rollback, '(*database/sql.Stmt).Exec': self.stexec,
             '(*database/sql.Stmt).Close': self.noerr, '(*database/sql.DB).Exec': self.exec, '(*database/sql.Tx).Exec': self.exec,
             '(*database/sql.DB).Query': self.query, '(*database/sql.Tx).Query': self.query, '(*database/sql.DB).QueryRow': self.queryrow, '(*database/sql.Rows).Next': self.next, '(*database/sql.Rows).Scan': self.scan,
             '(*database/sql.Row).Scan': self.scan1, '(*database/sql.Rows).Close': self.noerr, '(*database/sql.Rows).Err': self.noerr,
             'math/rand.NewSource': lambda ip, st, a: [(st, Opaque('source'))], 'math/rand.New': lambda ip, st, a: [(st, Opaque('rng'))],
             '(*math/rand.Rand).Int31': self.number, 'math/rand.Int31': self.number,
             'time.Now': lambda ip, st, a: [(st, Opaque('time'))], '(time.Time).UnixNano': lambda ip, st, a: [(st, ip.fresh('nano', INT))]}
        for k, h in E.items():
            v.ip.summaries[k] = h
            ext.USED.add(k)
        self.ids = []
        self.db = Opaque('db', tx=None)

    def number(self, ip, st, a):
        x = ip.fresh('rnd', INT)
        CTX.fact(ge(x, 0))
        self.ids.append(x)
        return [(st, x)]

    def noerr(self, ip, st, a):
        return [(st, NILIFACE)]

    def family(self, table, n=0, key=None, cols=None):
        """a family of n rows of a table (with the given name, for fields)"""
        ip, st = self.v.ip, self.v.st
        c = {}
        for x in SCHEMA[table]:
            if x != 'id':
                c[x] = ip.alloc(st, (cols or {}).get(x) or LamArr(lambda k, x=x: ip_default(x)))
        self.bulk[table, key] = {'n': Ptr(ip.alloc(st, n)), 'cols': c, 'done': Ptr(ip.alloc(st, True))}
        return self.bulk[table, key]

    # -- statements
    def begin(self, ip, st, a):
        return [(st, (Opaque('tx', tx=True), NILIFACE))]

    def settle(self, ip, st):
        for b in self.bulk.values():
            ip.store(st, b['done'], True)
        self.pending = []

    def commit(self, ip, st, a):
        self.settle(ip, st)
        return [(st, NILIFACE)]

    def rollback(self, ip, st, a):
        ip.oblige(st, 'the transaction is kept', False)
        return []

    def prepare(self, ip, st, a):
        if not isinstance(a[1], str):
            raise Unsupported('statement that is not known')
        return [(st, (Opaque('stmt', text=a[1], tx=a[0].kind == 'tx'), NILIFACE))]

    def args(self, ip, st, sl):
        return [ip.get(st, sl, k).v for k in range(sl.len)] if isinstance(sl, Slice) and sl.len else []

    def stexec(self, ip, st, a):
        self.do(ip, st, a[0].a['text'], self.args(ip, st, a[1]), a[0].a['tx'])
        return [(st, (NILIFACE, NILIFACE))]

    def exec(self, ip, st, a):
        self.do(ip, st, a[1], self.args(ip, st, a[2]), a[0].kind == 'tx')
        return [(st, (NILIFACE, NILIFACE))]

    def do(self, ip, st, text, args, tx):
        t = ' '.join(text.split())
        m = re.fullmatch(r'create table if not exists (\w+) ?\((.*)\);?', t, re.I)
        if m:
            name = m.group(1).lower()
            depth = re.sub(r'\([^()]*\)', '', m.group(2))
            cols = [c.split()[0].lower() for c in depth.split(',') if c.split() and c.split()[0].lower() not in ('foreign', 'primary', 'unique')]
            ip.oblige(st, 'columns of table %s' % name, cols == SCHEMA.get(name))
            self.created.add(name)
            return
        m = re.fullmatch(r'insert into (\w+) ?\(([\w, ]*)\) values ?\((.*)\);?', t, re.I)
        if not m:
            raise Unsupported('statement %s' % t)
        name, cols = m.group(1).lower(), [c.strip().lower() for c in m.group(2).split(',')]
        vals = [x.strip() for x in re.sub(r'\([^()]*\)', '()', m.group(3)).split(',')]
        ip.oblige(st, 'insert into a table that exists: %s' % name, name in self.created)
        ip.oblige(st, 'insert into %s: columns and values' % name, set(cols) <= set(SCHEMA.get(name, ())) and len(cols) == len(vals) and vals.count('?') == len(args))
        row, it = {}, iter(args)
        for c, x in zip(cols, vals):
            row[c] = next(it, None) if x == '?' else x
        for c, x in row.items():
            if x is None or c == 'creationtime':
                continue
            text = c in ('key', 'name') or (c == 'value' and name in ('simtextattributes', 'comments'))
            ok = isinstance(x, str) if text else not isinstance(x, str) and not (z3.is_expr(x) and x.sort().kind() == z3.Z3_SEQ_SORT) and (
                c == 'value' or isinstance(x, int) or (z3.is_expr(x) and x.sort() == INT))
            ip.oblige(st, 'insert into %s: type of %s' % (name, c), ok)
            if not ok:
                raise Unsupported('value of another type')
        key = row.get('name') if name == 'fields' else None
        b = self.bulk.get((name, key))
        if b is not None:
            n = ip.load(st, b['n'])
            for c, r in b['cols'].items():
                x = row.get(c)
                if x is None:
                    ip.oblige(st, 'insert into %s: no value for %s' % (name, c), False)
                    return
                ip.store(st, Ptr(r, (('i', n),)), z3.StringVal(x) if isinstance(x, str) else x)
            ip.store(st, b['n'], add(n, 1))
            if tx:
                ip.store(st, b['done'], False)
            return
        if any(t == name for t, _ in self.bulk):
            ip.oblige(st, 'insert into %s: row of a field' % name, False)
            return
        self.rows[name].append(row)
        if tx:
            self.pending.append(row)

    # -- queries
    def select(self, ip, st, text, args):
        t = ' '.join(text.split()).rstrip(';')
        m = re.fullmatch(r'select (distinct )?(.*?) from (\w+)(?: where (.*?))?(?: order by (\w+)( desc| asc)?)?(?: limit (\d+))?', t, re.I)
        if not m:
            raise Unsupported('query %s' % t)
        dist, cols, name, where, order, desc, limit = m.groups()
        name = name.lower()
        cols = [re.sub(r'\s', '', c.lower()) for c in cols.split(',')]
        ip.oblige(st, 'query of a table that exists: %s' % name, name in self.created)
        cond, it = {}, iter(args)
        for w in re.split(' and ', where, flags=re.I) if where else []:
            w = re.fullmatch(r'(\w+) ?= ?(\?|\d+)', w.strip())
            if not w:
                raise Unsupported('query %s' % t)
            cond[w.group(1).lower()] = next(it, None) if w.group(2) == '?' else int(w.group(2))
        ip.oblige(st, 'as many arguments as the query has', where.count('?') == len(args) if where else not args)
        h = self.answer.get(name)
        if h:
            return h(ip, st, bool(dist), cols, cond, order)
        b = self.bulk.get((name, None))
        if b is not None:
            if cols == ['count(*)'] and not cond:
                n = ip.load(st, b['n'])
                return 1, lambda k: [n]
            m = re.fullmatch(r'max\((\w+)\)', cols[0])
            if m and len(cols) == 1 and not cond and m.group(1) in self.largest:
                return 1, lambda k: [self.largest[m.group(1)](ip, st, b)]
            raise Unsupported('query %s' % t)
        rows = [r for r in self.rows[name] if r not in self.pending]
        for c, x in cond.items():
            rows = [r for r in rows if eq(r[c], x) is True or not self.undecided(eq(r[c], x))]
        if order and order.lower() != 'id':
            rows.sort(key=lambda r: r[order.lower()], reverse=bool(desc and 'desc' in desc.lower()))
        if cols[0].startswith('count('):
            out = [[len(rows)]]
        elif cols[0].startswith('max('):
            c = cols[0][4:-1]
            out = [[max(r[c] for r in rows)]] if rows else []
        else:
            out = [[r[c] for c in cols] for r in rows]
        if dist:
            out = [r for k, r in enumerate(out) if r not in out[:k]]
        if limit:
            out = out[:int(limit)]
        return len(out), lambda k: out[k]

    def undecided(self, c):
        if c is False:
            return True
        raise Unsupported('condition %s of a query' % c)

    def query(self, ip, st, a):
        n, f = self.select(ip, st, a[1], self.args(ip, st, a[2]))
        return [(st, (Opaque('rows', pos=Ptr(ip.alloc(st, 0)), n=n, f=f), NILIFACE))]

    def queryrow(self, ip, st, a):
        n, f = self.select(ip, st, a[1], self.args(ip, st, a[2]))
        return [(st, Opaque('row', n=n, f=f))]

    def next(self, ip, st, a):
        r = a[0].a
        p = ip.load(st, r['pos'])
        ip.store(st, r['pos'], add(p, 1))
        return [(st, lt(p, r['n']))]

    def fill(self, ip, st, row, sl):
        dst = [ip.get(st, sl, k).v for k in range(sl.len)]
        ip.oblige(st, 'Scan: one target per column', len(dst) == len(row))
        for p, x in zip(dst, row):
            ip.store(st, p, x)
        return [(st, NILIFACE)]

    def scan(self, ip, st, a):
        r = a[0].a
        k = sub(ip.load(st, r['pos']), 1)
        return self.fill(ip, st, r['f'](k), a[1])

    def scan1(self, ip, st, a):
        if a[0].a['n'] == 0:
            return [(st, Iface('*errors.errorString', -1, Opaque('no rows')))]
        return self.fill(ip, st, a[0].a['f'](0), a[1])


def ip_default(c):
    return z3.StringVal('') if c in ('name', 'key') else Fraction(0) if c == 'value' else z3.IntVal(0)


def strof(x):
    return z3.StringVal(x) if isinstance(x, str) else x


@contract('C33', 'SaveFields: one row per field and node, positions once', ['(*pf.FieldDB).SaveFields', '(*pf.FieldDB).initialize', '(*pf.FieldDB).positionTableIsPopulated',
                                                                         '(*pf.FieldDB).populatePositionsTable', '(*pf.FieldDB).insertRealPart', '(*pf.FieldDB).domainSizeOk'])
def savefields(F):
    for dim, names, fresh, known in ((2, ['conc'], True, False), (2, ['conc', 'eta'], False, True), (3, ['conc', 'eta'], True, True), (3, ['a', 'b', 'c'], False, False)):
        v = F.new('%dD, %d fields, %s' % (dim, len(names), 'new database' if fresh else 'positions known'))
        q = Sql(v, created=known)
        dom = Domain(v, dim)
        v.assume(gt(dom.N, 1))
        pos = {c: LamArr(lambda k, j=j: dom.coord(k)[j] if j < dim else z3.IntVal(0)) for j, c in enumerate('xyz')}
        P_ = q.family('positions', 0 if fresh else dom.N, cols=None if fresh else pos)
        bs = [q.family('fields', 0, key=n) for n in names]

        def largest(j):
            def h(ip, st, b):
                # the largest coordinate of all nodes is the side less one, when the positions are those of the domain
                st = st.copy()
                ip.oblige(st, 'positions of the domain', eq(ip.load(st, b['n']), dom.N))
                return sub(dom.D[j], 1)
            return h
        q.largest = {c: largest(j) for j, c in enumerate('xyz'[:dim])}
        S, ys = solver_with(v, names, dom.N)
        epoch = v.int('epoch', 0)
        sim = v.int('simID', 1) if known else 0
        db = v.obj('pf.FieldDB', DB=q.db, DomainSize=dom.list(), initialized=known, simID=sim)
        outs = v.call('(*pf.FieldDB).SaveFields', db, S, epoch)
        for s, _ in outs:
            v.ensure('number of positions', s, eq(v.ip.load(s, P_['n']), dom.N))
            for c in 'xyz':
                v.ensure_all('position %s' % c, s, dom.N, lambda k: eq(v.ip.read_ref(s, P_['cols'][c]).sel(k), pos[c].sel(k)))
            for b, n, y in zip(bs, names, ys):
                v.ensure('committed', s, v.ip.load(s, b['done']))
                v.ensure('rows of %s' % n, s, eq(v.ip.load(s, b['n']), dom.N))
                at = lambda c, k: v.ip.read_ref(s, b['cols'][c]).sel(k)
                v.ensure_all('value', s, dom.N, lambda k: eq(at('value', k), v.get(v.st, y, k).re))
                v.ensure_all('node', s, dom.N, lambda k: eq(at('positionid', k), k))
                v.ensure_all('name', s, dom.N, lambda k: eq(at('name', k), z3.StringVal(n)))
                v.ensure_all('timestep', s, dom.N, lambda k: eq(at('timestep', k), epoch))
                idn = v.ip.load(s, db).f['simID']
                v.ensure_all('simulation', s, dom.N, lambda k: eq(at('simid', k), idn))
                v.frame_slice('field unchanged', s, y)
            v.ensure('all tables exist', s, q.created == set(SCHEMA))
            idn = v.ip.load(s, db).f['simID']
            if known:
                v.ensure('the same simulation', s, eq(idn, sim))
                v.ensure('registered once', s, not q.rows['simids'])
            else:
                v.ensure('registered', s, len(q.rows['simids']) == 1 and len(q.ids) == 1)
                if q.rows['simids'] and q.ids:
                    v.ensure('its number', s, band(eq(q.rows['simids'][0]['simid'], idn), eq(idn, q.ids[0])))
        v.ensure('one outcome', v.st, len(outs) == 1)
        v.reachable('pre', v.st)


@contract('C33', 'SaveFields refuses a domain that is not the one of the database', ['(*pf.FieldDB).SaveFields', '(*pf.FieldDB).domainSizeOk'])
def refuses(F):
    for axis in range(2):
        v = F.new('axis %d' % axis)
        q = Sql(v)
        dom = Domain(v, 2)
        v.assume(gt(dom.N, 1))
        q.family('positions', v.int('M', 2))
        b = q.family('fields', 0, key='conc')
        other = v.int('other', 0)
        v.assume(bnot(eq(other, sub(dom.D[axis], 1))))
        q.largest = {c: (lambda ip, st, b, j=j: other if j == axis else sub(dom.D[j], 1)) for j, c in enumerate('xy')}
        S, ys = solver_with(v, ['conc'], dom.N)
        db = v.obj('pf.FieldDB', DB=q.db, DomainSize=dom.list(), initialized=True, simID=3)
        hit = []
        v.ip.on_panic = lambda st, why, *a: hit.append(v.ip.load(st, b['n']))
        outs = v.call('(*pf.FieldDB).SaveFields', db, S, 0)
        v.ensure('refused, nothing written', v.st, not outs and hit == [0])


@contract('C33', 'Load: the values of every node, rows in any order', ['(*pf.FieldDB).Load'])
def load(F):
    v = F.new()
    q = Sql(v)
    N = v.int('N', 1)
    sim, ts = v.int('simID', 0), v.int('timestep', 0)
    W, I = z3.Function('node', INT, INT), z3.Function('place', INT, INT)
    VAL = z3.Function('value', INT, REAL)

    def place(p):
        p = zi(p)
        if p.num_args() and p.decl().eq(W):
            k = p.arg(0)
            if CTX.decided(band(ge(k, 0), lt(k, N))) is True:
                return k
        t = I(p)
        CTX.fact(imp(band(ge(p, 0), lt(p, N)), band(ge(t, 0), lt(t, N), eq(W(t), p))))
        return t

    def node(k):
        k = zi(k)
        CTX.fact(imp(band(ge(k, 0), lt(k, N)), band(ge(W(k), 0), lt(W(k), N), eq(I(W(k)), k))))
        return W(k)
    v.ip.numberings[W] = lambda p: [place(p)]

    def fields(ip, st, dist, cols, cond, order):
        ip.oblige(st, 'rows of the simulation and the timestep', set(cond) == {'simid', 'timestep'})
        ip.oblige(st, 'rows of the simulation and the timestep', band(*[eq(cond.get(c, 0), x) for c, x in (('simid', sim), ('timestep', ts))]))
        if dist and cols == ['name']:
            return 1, lambda k: ['conc']
        if set(cols) <= {'name', 'value', 'positionid'} and not dist:
            return N, lambda k: [{'name': 'conc', 'value': VAL(zi(k)), 'positionid': node(k)}[c] for c in cols]
        raise Unsupported('query of %s' % cols)

    def positions(ip, st, dist, cols, cond, order):
        if cols == ['count(*)'] and not cond:
            return 1, lambda k: [N]
        raise Unsupported('query of positions')
    q.answer = {'fields': fields, 'positions': positions}
    db = v.obj('pf.FieldDB', DB=q.db)
    outs = v.call('(*pf.FieldDB).Load', db, sim, ts)
    for s, r in outs:
        v.ensure('number of fields', s, eq(r.len, 1))
        f = v.get(s, r, 0).f
        v.ensure('name', s, f['Name'] == 'conc')
        v.ensure('length', s, eq(f['Data'].len, N))
        v.ensure_all('value', s, N, lambda k: band(eq(v.get(s, f['Data'], k).re, VAL(place(k))), eq(v.get(s, f['Data'], k).im, ZERO)))
    v.ensure('one outcome', v.st, len(outs) == 1)
    v.reachable('pre', v.st)


def stored(v, q, names, N, steps, sims=(5, 9)):
    """a small database: two simulations, rows in a mixed order"""
    val, rows = {}, []
    for sim in sims:
        for ts in steps[sim]:
            for n in names[sim]:
                for k in range(N):
                    val[sim, ts, n, k] = v.real('v_%s_%d_%d_%d' % (n, sim, ts, k))
                    rows.append({'name': n, 'value': val[sim, ts, n, k], 'positionid': k, 'timestep': ts, 'simid': sim})
    q.rows['fields'] = sorted(rows, key=lambda r: (r['positionid'] * 7 + len(r['name']) * 5 + ord(r['name'][0]) * 3 + r['timestep'] * 2 + r['simid']) % 11)
    return val


@contract('C33', 'Load, LoadLast: every field of the simulation, by name (small databases)', ['(*pf.FieldDB).Load', '(*pf.FieldDB).LoadLast'])
def loadmany(F):
    names = {5: ['eta', 'conc'], 9: ['pot', 'conc', 'a']}
    steps = {5: [0, 10, 4], 9: [3]}
    for sim, ts in ((5, 10), (5, 4), (9, 3), (5, None), (9, None)):
        v = F.new('simulation %d, timestep %s' % (sim, ts))
        q = Sql(v)
        val = stored(v, q, names, 4, steps)
        q.rows['positions'] = [{'x': k // 2, 'y': k % 2, 'z': 0, 'id': k + 1} for k in range(4)]
        db = v.obj('pf.FieldDB', DB=q.db)
        outs = v.call('(*pf.FieldDB).Load', db, sim, ts) if ts is not None else v.call('(*pf.FieldDB).LoadLast', db, sim)
        t = ts if ts is not None else max(steps[sim])
        for s, r in outs:
            v.ensure('number of fields', s, eq(r.len, len(names[sim])))
            for j, n in enumerate(sorted(names[sim])):
                f = v.get(s, r, j).f
                v.ensure('name', s, f['Name'] == n)
                v.ensure('length', s, eq(f['Data'].len, 4))
                for k in range(4):
                    v.ensure('value', s, lambda: band(eq(v.get(s, f['Data'], k).re, val[sim, t, n, k]), eq(v.get(s, f['Data'], k).im, ZERO)))
        v.ensure('one outcome', v.st, len(outs) == 1)


@contract('C33', 'SetAttr, SetTextAttr, TimeSeries, Comment: one row per entry, of this simulation', ['(*pf.FieldDB).SetAttr', '(*pf.FieldDB).SetTextAttr', '(*pf.FieldDB).TimeSeries', '(*pf.FieldDB).Comment'])
def attributes(F):
    for known in (True, False):
        for what, table, n in (('SetAttr', 'simattributes', 0), ('SetAttr', 'simattributes', 3), ('SetTextAttr', 'simtextattributes', 2), ('TimeSeries', 'timeseries', 2), ('TimeSeries', 'timeseries', 1), ('Comment', 'comments', 1)):
            v = F.new('%s, %d entries, %s' % (what, n, 'known' if known else 'new'))
            q = Sql(v, created=known)
            sim = v.int('simID', 1) if known else 0
            db = v.obj('pf.FieldDB', DB=q.db, initialized=known, simID=sim)
            text = what in ('SetTextAttr', 'Comment')
            want = [('key%d' % i, 'text %d' % i if text else v.real('x%d' % i)) for i in range(n)]
            m = MapRef(v.ip.alloc(v.st, MapV(want)))
            step = v.int('timestep', 0)
            args = [m, step] if what == 'TimeSeries' else ['two\nlines'] if what == 'Comment' else [m]
            outs = v.call('(*pf.FieldDB).' + what, db, *args)
            for s, _ in outs:
                idn = v.ip.load(s, db).f['simID']
                R = q.rows[table]
                v.ensure('number of rows', s, len(R) == n)
                v.ensure('committed', s, not q.pending)
                for r in R:
                    v.ensure('simulation', s, eq(r['simid'], idn))
                if what == 'Comment':
                    v.ensure('comment', s, [r['value'] for r in R] == ['two lines'])
                else:
                    for k, x in want:
                        g = [r for r in R if r['key'] == k]
                        v.ensure('one row of %s' % k, s, len(g) == 1)
                        if len(g) == 1:
                            v.ensure('value of %s' % k, s, g[0]['value'] == x if text else eq(g[0]['value'], x))
                            if what == 'TimeSeries':
                                v.ensure('timestep', s, eq(g[0]['timestep'], step))
            v.ensure('one outcome', v.st, len(outs) == 1)


def sheet(v, s, d, name):
    """header and rows of a csv file"""
    t = d.tables.get(name)
    if not t:
        return None, None
    n = v.ip.load(s, t['count'])
    v.ensure('written before the file is closed', s, v.ip.load(s, t['flushed']))
    return t['header'], [[v.ip.read_ref(s, c).sel(zi(k)) for c in t['cols']] for k in range(n - 1)]


@contract('C33', 'exportFieldData: positions and values of every node (small databases)', ['cmd.exportFieldData', 'cmd.largestTimestep'])
def exportfields(F):
    names = {5: ['eta', 'conc'], 9: ['pot', 'conc', 'a']}
    steps = {5: [0, 10, 4], 9: [3]}
    for sim, ts in ((5, 0), (5, 4), (9, 3), (5, -1)):
        v = F.new('simulation %d, timestep %d' % (sim, ts))
        q, d = Sql(v), Disk(v)
        val = stored(v, q, names, 4, steps)
        crd = [(v.int('x%d' % k, 0), v.int('y%d' % k, 0), v.int('z%d' % k, 0)) for k in range(4)]
        q.rows['positions'] = [{'x': x, 'y': y, 'z': z, 'id': k + 1} for k, (x, y, z) in enumerate(crd)]
        outs = v.call('cmd.exportFieldData', q.db, ts, sim, 'out.csv')
        t = ts if ts >= 0 else max(steps[sim])
        for s, _ in outs:
            h, rows = sheet(v, s, d, 'out.csv')
            v.ensure('header', s, h is not None and h[:3] == ['X', 'Y', 'Z'] and sorted(h[3:]) == sorted(names[sim]))
            v.ensure('one row per node', s, rows is not None and len(rows) == 4)
            for k, r in enumerate(rows or []):
                v.ensure('position', s, band(*[eq(r[j], FD(zi(crd[k][j]))) for j in range(3)]))
                for j, n in enumerate(h[3:]):
                    v.ensure('value of %s' % n, s, eq(r[3 + j], FF(zr(val[sim, t, n, k]))))
        v.ensure('one outcome', v.st, len(outs) == 1)


@contract('C33', 'exportTimeseries: the values of every step, in order (small databases)', ['cmd.exportTimeseries'])
def exportseries(F):
    for sim in (5, 9):
        v = F.new('simulation %d' % sim)
        q, d = Sql(v), Disk(v)
        data = [(5, 'peak', 0), (5, 'mean', 0), (9, 'mean', 0), (5, 'mean', 2), (9, 'width', 1), (5, 'peak', 2), (5, 'peak', 1), (9, 'mean', 1), (9, 'width', 0), (5, 'mean', 1)]
        val = {r: v.real('v_%d_%s_%d' % r) for r in data}
        q.rows['timeseries'] = [{'key': k, 'value': val[s, k, t], 'timestep': t, 'simid': s} for s, k, t in data]
        keys = sorted({k for s, k, _ in data if s == sim})
        last = max(t for s, _, t in data if s == sim)
        outs = v.call('cmd.exportTimeseries', q.db, 'ts.csv', sim)
        for s, _ in outs:
            h, rows = sheet(v, s, d, 'ts.csv')
            # the help promises a column with the timestep, the example shows none: either will do
            lead = 0 if h is not None and h and h[0] in keys else 1
            v.ensure('header', s, h is not None and sorted(h[lead:]) == keys)
            v.ensure('one row per step', s, rows is not None and len(rows) == last + 1)
            for t, r in enumerate(rows or []):
                if lead:
                    v.ensure('timestep', s, eq(r[0], FD(z3.IntVal(t))))
                for j, k in enumerate(h[lead:]):
                    v.ensure('value of %s' % k, s, eq(r[lead + j], FF(zr(val[sim, k, t]))))
        v.ensure('one outcome', v.st, len(outs) == 1)
