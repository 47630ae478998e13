"""C04: Fourier transform conventions"""
from contracts.common import *

PLANS = '''github.com/barnex/fftw.PlanZ2Z'''


def plan_extern(log):
    """trusted contract of fftw.PlanZ2Z: Execute performs the unnormalised multi-dimensional
    DFT of the given sign, in row-major order of the given dimensions, from `in` to `out`"""
    def mk(ip, st, a):
        n, inp, out, sign, _ = a
        dims = [ip.get(st, n, k) for k in range(n.len)]
        p = {'dims': dims, 'in': inp, 'out': out, 'sign': sign}

        def execute(ip, st, args):
            src = ip.read_ref(st, inp.ref)
            res = ip.fresh_arr('dft', [t for t in range(len(ip.prog.types)) if ip.prog.types[t]['s'] == 'complex128'][0])
            ip.write_ref(st, out.ref, res)
            st.ghost['dft'] = st.ghost.get('dft', ()) + ((p, src, res),)
            return [(st, None)]
        log.append(p)
        return [(st, IfaceAbs('plan', {'Execute': execute, 'Destroy': lambda ip, st, a: [(st, None)]}, p))]
    return mk


def wrapper(v, dom):
    """the FFT wrapper built by the real constructor"""
    log = []
    v.ip.externs[PLANS] = plan_extern(log)
    outs = v.call('pfutil.NewFFTW', dom.list())
    return outs, log


@contract('C04', 'NewFFTW plans the transform in the node order', ['pfutil.NewFFTW', '(*pfutil.FFTWWrapper).FFT', '(*pfutil.FFTWWrapper).IFFT'])
def fft(F):
    for d in (2, 3):
        for meth, sign in (('FFT', -1), ('IFFT', 1)):
            v = F.new('%dD %s' % (d, meth))
            dom = Domain(v, d)
            data = v.slice('cplx', 'data', dom.N)
            outs, log = wrapper(v, dom)
            for s, w in outs:
                old = v.content(data)
                s.mem.setdefault(data.ref.oid, old)
                for s2, r in v.call('(*pfutil.FFTWWrapper).' + meth, w, data, st=s):
                    ev = s2.ghost.get('dft', ())
                    v.ensure('one transform', s2, len(ev) == 1)
                    p, src, res = ev[0]
                    v.ensure('sign', s2, eq(p['sign'], sign))
                    D = dom.D
                    want = D if d == 2 else [D[2], D[0], D[1]]
                    v.ensure('rank', s2, len(p['dims']) == d)
                    for k in range(d):
                        v.ensure('row-major dimensions of the node order', s2, eq(p['dims'][k], want[k]))
                    v.ensure_all('transforms the whole data', s2, dom.N, lambda k: veq(src.sel(add(p['in'].off, k)), old.sel(k)))
                    v.ensure('length of the transformed array', s2, band(eq(p['in'].len, dom.N), eq(p['out'].len, dom.N)))
                    v.ensure_all('result in place', s2, dom.N, lambda k: veq(v.get(s2, data, k), res.sel(add(p['out'].off, k))))
                    v.ensure('returns the data', s2, eq(r.len, dom.N))
                    v.ensure_all('returned values', s2, dom.N, lambda k: veq(v.get(s2, r, k), res.sel(add(p['out'].off, k))))
            v.reachable('pre', v.st)


@contract('C04', 'row-major order of the plan is the node order (lemma)', [])
def order(F):
    v = F.new()
    x, y, w, n0, n1, n2 = z3.Ints('x y w n0 n1 n2')
    v.ensure('2D', v.st, eq(add(mul(x, n1), y), layout([n0, n1], [x, y])))
    v.ensure('3D', v.st, eq(add(mul(add(mul(w, n0), x), n1), y), layout([n0, n1, n2], [x, y, w])))


@contract('C04', 'Freq: frequency of a node', ['(*pfutil.FFTWWrapper).Freq'])
def freq(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        dom = Domain(v, d)
        i = dom.node()
        outs, _ = wrapper(v, dom)
        for s, w in outs:
            for s2, f in v.call('(*pfutil.FFTWWrapper).Freq', w, i, st=s):
                v.ensure('one frequency per dimension', s2, eq(f.len, d))
                for k in range(d):
                    v.ensure('frequency of axis %d' % k, s2, lambda: eq(v.get(s2, f, k), dom.freq(i, k)))
                    x = dom.coord(i)[k]
                    q = rdiv(toreal(x), toreal(dom.D[k]))
                    hint = [ge(mul(q, toreal(dom.D[k])), 0), lt(mul(q, toreal(dom.D[k])), toreal(dom.D[k]))]
                    v.ensure('inside (-1/2,1/2]', s2, lambda: band(gt(v.get(s2, f, k), Fraction(-1, 2)), le(v.get(s2, f, k), Fraction(1, 2))))
        v.reachable('pre', v.st)


@contract('C04', 'ConjugateNode: the node of the opposite frequency', ['(*pfutil.FFTWWrapper).ConjugateNode'])
def conj(F):
    for d in (2, 3):
        v = F.new('%dD' % d)
        dom = Domain(v, d)
        i = dom.node()
        outs, _ = wrapper(v, dom)
        for s, w in outs:
            for s2, j in v.call('(*pfutil.FFTWWrapper).ConjugateNode', w, i, st=s):
                X = dom.coord(i)
                Y = [ite(eq(X[k], 0), 0, sub(dom.D[k], X[k])) for k in range(d)]
                v.ensure('opposite frequency modulo the sampling frequency', s2, lambda: eq(j, layout(dom.D, Y)))
                v.ensure('in range', s2, lambda: (mono(v, dom, Y), band(ge(j, 0), lt(j, dom.N)))[1])


def mono(v, dom, Y):
    for f in mono_facts(dom.D, Y):
        CTX.fact(f)


@contract('C04', 'opposite frequencies (lemma)', [])
def conj_lemma(F):
    """(n-x) mod n is an involution on [0,n) and negates the frequency except at 1/2"""
    v = F.new()
    n, x = v.int('n', 1), v.int('x', 0)
    v.assume(lt(x, n))
    c = lambda t: ite(eq(t, 0), 0, sub(n, t))

    def fr(t):
        f = rdiv(toreal(t), toreal(n))
        return ite(gt(mul(2, t), n), sub(f, Fraction(1)), f)
    v.ensure('involution', v.st, eq(c(c(x)), x))
    v.ensure('in range', v.st, band(ge(c(x), 0), lt(c(x), n)))
    v.ensure('negated', v.st, bor(eq(mul(2, x), n), eq(fr(c(x)), neg(fr(x)))))
    v.ensure('self-conjugate at 1/2', v.st, imp(eq(mul(2, x), n), eq(c(x), x)))
