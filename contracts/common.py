"""shared specification vocabulary"""
from gowp.api import *
from gowp.loops import split_holds


def layout(D, X):
    """node number of a position: row*ny + col (+ depth*nx*ny)"""
    r = add(mul(X[0], D[1]), X[1])
    if len(D) == 3:
        r = add(mul(mul(X[2], D[0]), D[1]), r)
    return r


def nnodes(D):
    r = mul(D[0], D[1])
    return mul(r, D[2]) if len(D) == 3 else r


def mono_facts(D, X):
    """instances of monotonicity of multiplication for an in-range position X (each is valid for all integers)"""
    f = [imp(band(le(add(X[0], 1), D[0]), ge(D[1], 0)), le(mul(add(X[0], 1), D[1]), mul(D[0], D[1]))),
         imp(band(ge(X[0], 0), ge(D[1], 0)), ge(mul(X[0], D[1]), 0))]
    if len(D) == 3:
        n2 = mul(D[0], D[1])
        f += [imp(band(ge(D[0], 0), ge(D[1], 0)), ge(n2, 0)),
              imp(band(le(add(X[2], 1), D[2]), ge(n2, 0)), le(mul(add(X[2], 1), n2), mul(D[2], n2))),
              imp(band(ge(X[2], 0), ge(n2, 0)), ge(mul(X[2], n2), 0)),
              imp(band(ge(X[2], 0), ge(D[0], 0)), ge(mul(X[2], D[0]), 0))]
    return f


class Domain:
    """a periodic domain of d dimensions with symbolic sides >= lo; coordinates of every node.

    coord(i) are the coordinates of node i, specified by i = layout(coord(i)) with
    0 <= coord < side; C01's 'every node has coordinates' shows that they exist."""

    def __init__(self, v, d, lo=1, sizes=None):
        self.v, self.d, self.IDX = v, d, None
        self.D = sizes or [v.int('n%d' % i, lo) for i in range(d)]
        self.N = nnodes(self.D)
        self.F = [z3.Function('coord%d' % k, INT, INT) for k in range(d)]
        v.fact(imp(band(*[ge(x, 1) for x in self.D]), ge(self.N, 1)))
        if d == 3:
            v.fact(imp(band(ge(self.D[0], 1), ge(self.D[1], 1)), ge(mul(self.D[0], self.D[1]), 1)))
        v.ip.div_hints.append(self.hint)
        if not sizes or not all(isinstance(x, int) for x in sizes):
            CTX.emod_hooks.append(self.emod_hook)

    def list(self):
        return self.v.list(self.D)

    def coord(self, i):
        i = zi(i)
        X = [f(i) for f in self.F]
        CTX.fact(imp(band(ge(i, 0), lt(i, self.N)),
                     band(eq(i, layout(self.D, X)), *[band(ge(X[k], 0), lt(X[k], self.D[k])) for k in range(self.d)])))
        for f in mono_facts(self.D, X):
            CTX.fact(f)
        return X

    def hint(self, az, bz):
        D = self.D
        if poly_eq(bz, zi(D[1])) and z3.is_app(az) and az.decl().name() not in [f.name() for f in self.F]:
            X = self.coord(az)
            yield (az, bz, X[0] if self.d == 2 else add(mul(X[2], D[0]), X[0]), X[1])
        if self.d == 3 and poly_eq(bz, zi(mul(D[0], D[1]))):
            X = self.coord(az)
            yield (az, bz, X[2], add(mul(X[0], D[1]), X[1]))
        for n in D:
            if poly_eq(bz, zi(n)):
                yield (az, bz, 0, az)

    def emod_hook(self, e, b):
        D = self.D
        if b.eq(zi(D[0])):
            CTX.fact(imp(band(le(add(e, 1), D[0]), ge(D[1], 0)), le(mul(add(e, 1), D[1]), mul(D[0], D[1]))))
            CTX.fact(imp(band(ge(e, 0), ge(D[1], 0)), ge(mul(e, D[1]), 0)))
        if self.d == 3 and b.eq(zi(D[2])):
            n2 = mul(D[0], D[1])
            CTX.fact(imp(band(ge(D[0], 0), ge(D[1], 0)), ge(n2, 0)))
            CTX.fact(imp(band(le(add(e, 1), D[2]), ge(n2, 0)), le(mul(add(e, 1), n2), mul(D[2], n2))))
            CTX.fact(imp(band(ge(e, 0), ge(n2, 0)), ge(mul(e, n2), 0)))

    def node(self, name='i'):
        i = self.v.int(name, 0)
        self.v.assume(lt(i, self.N))
        return i

    def freq(self, i, k):
        """frequency k of node i in units of the sampling frequency, in (-1/2, 1/2]"""
        x = self.coord(i)[k]
        f = rdiv(toreal(x), toreal(self.D[k]))
        return ite(gt(mul(2, x), self.D[k]), sub(f, Fraction(1)), f)

    # -- contracts of the index functions (C01, C02), used instead of their bodies
    def idx(self, X):
        """opaque node number of an in-range position"""
        if self.IDX is None:
            for f in mono_facts(self.D, X):
                CTX.fact(f)
            return layout(self.D, X)
        t = self.IDX(*[zi(x) for x in X])
        inside = band(*[band(ge(X[k], 0), lt(X[k], self.D[k])) for k in range(self.d)])
        CTX.fact(imp(inside, band(ge(t, 0), lt(t, self.N), *[eq(f(t), X[k]) for k, f in enumerate(self.F)])))
        return t

    def pos(self, i):
        """opaque coordinates of node i"""
        if self.IDX is None:
            return self.coord(i)
        i = zi(i)
        if i.num_args() and i.decl().eq(self.IDX):
            X = i.children()
            if CTX.decided(band(*[band(ge(X[k], 0), lt(X[k], self.D[k])) for k in range(self.d)])) is True:
                return X
        X = [f(i) for f in self.F]
        CTX.fact(imp(band(ge(i, 0), lt(i, self.N)), band(*[band(ge(X[k], 0), lt(X[k], self.D[k])) for k in range(self.d)], eq(self.IDX(*X), i))))
        return X

    def wrapped(self, x, k):
        """opaque periodic image of coordinate x of axis k"""
        t = z3.Function('image', INT, INT, INT)(z3.simplify(zi(x), som=True), zi(self.D[k]))
        CTX.fact(imp(ge(self.D[k], 1), band(ge(t, 0), lt(t, self.D[k]))))
        return t

    def use_contracts(self, opaque=True):
        """Pos, NodeIdx and Wrap by contract; opaque: with an opaque numbering of the nodes, else the layout of C01"""
        v, d = self.v, self.d
        if opaque:
            self.IDX = z3.Function('nodeidx', *([INT] * (d + 1)))
            self.N = v.int('N', 1)
            v.ip.numberings[self.IDX] = self.pos

        def same(ip, st, ds, what):
            ip.oblige(st, what + ': domain size', eq(ds.len, d))
            for k in range(d):
                ip.oblige(st, what + ': domain size', eq(ip.get(st, ds, k), self.D[k]))

        def h_pos(ip, st, a):
            same(ip, st, a[0], 'Pos')
            ip.oblige(st, 'Pos: node of the domain', band(ge(a[1], 0), lt(a[1], self.N)))
            return [(st, Slice(ip.alloc(st, ListArr(self.pos(a[1]))), 0, d))]

        def h_idx(ip, st, a):
            same(ip, st, a[0], 'NodeIdx')
            ip.oblige(st, 'NodeIdx: dimension', eq(a[1].len, d))
            X = [ip.get(st, a[1], k) for k in range(d)]
            for k in range(d):
                ip.oblige(st, 'NodeIdx: position inside the domain', band(ge(X[k], 0), lt(X[k], self.D[k])))
            return [(st, self.idx(X))]

        def h_wrap(ip, st, a):
            same(ip, st, a[1], 'Wrap')
            ip.oblige(st, 'Wrap: dimension', eq(a[0].len, d))
            for k in range(d):
                ip.store(st, Ptr(a[0].ref, (('i', add(a[0].off, k)),)), self.wrapped(ip.get(st, a[0], k), k))
            return [(st, None)]
        v.summary('pfutil.Pos', h_pos)
        v.summary('pfutil.NodeIdx', h_idx)
        v.summary('pfutil.Wrap', h_wrap)
        return self


class FTOp:
    """a Fourier transform as an uninterpreted operator on arrays: equal arrays have equal
    transforms (congruence), and the inverse of a transform is the array times the number of nodes.
    Trusted: this is what the FFT library provides (C04 covers the wrapper)."""

    def __init__(self, v, N, freq=None):
        self.v, self.N, self.log = v, N, []
        self.freq = freq

    def same(self, st, a, b):
        ip = self.v.ip
        if a is b:
            return True
        ip.nfresh += 1
        k = z3.Int('ft!%d' % ip.nfresh)
        s = st.copy()
        s.assume(k >= 0)
        s.assume(k < zi(self.N))
        for cond, n, fn in s.foralls:
            s.assume(imp(band(cond, ge(k, 0), lt(k, n)), fn(k)))
        r = split_holds(ip, s, lambda: veq(a.sel(k), b.sel(k)), timeout=800, quick=True)
        ip.focus(st)
        return r

    def transform(self, st, kind, src):
        """array of the transform (kind +1: forward, -1: unnormalised inverse) of the array src"""
        for kd, a, r in self.log:
            if kd == kind and self.same(st, a, src):
                return r
        n = toreal(self.N)
        scaled = lambda a: LamArr(lambda k: C(mul(n, a.sel(k).re), mul(n, a.sel(k).im)))
        for kd, a, r in self.log:
            if kd == -kind and self.same(st, r, src):
                return scaled(a)
            if kd == -kind and self.same(st, r, scaled(src)):
                return a
        name = 'F%s%d' % ('' if kind > 0 else 'i', len(self.log))
        r = self.v.array('cplx', name)
        self.log.append((kind, src, r))
        return r

    def handler(self, kind):
        def h(ip, st, a):
            data = a[-1]
            ip.oblige(st, 'transform of a full field', eq(data.len, self.N))
            src = ip.read_ref(st, data.ref)
            if eq(data.off, 0) is True and eq(data.cap, self.N) is True:
                ip.write_ref(st, data.ref, self.transform(st, kind, src))
                return [(st, data)]
            off, n = data.off, self.N
            r = self.transform(st, kind, LamArr(lambda k: src.sel(add(off, k))))

            def content(j):
                a, b, c = r.sel(sub(j, off)), src.sel(j), band(ge(j, off), lt(j, add(off, n)))
                return C(ite(c, a.re, b.re), ite(c, a.im, b.im))
            ip.write_ref(st, data.ref, LamArr(content))
            return [(st, data)]
        return h

    def iface(self, extra=None):
        h = {'FFT': self.handler(1), 'IFFT': self.handler(-1)}
        if self.freq is not None:
            h['Freq'] = lambda ip, st, a: self.freq.handler(ip, st, a)
        h.update(extra or {})
        return IfaceAbs('fourier', h)
