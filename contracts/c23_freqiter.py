"""C23: iterators over independent Fourier amplitudes"""
from contracts.common import *
from contracts.c11_equilibrium import freqfn
from contracts.c16_operators import grid_freq

ZERO, HALF = Fraction(0), Fraction(1, 2)
COARSE = Fraction(1, 10**7)


def grid(fs):
    """frequencies of a grid with fewer than 5 million nodes per axis"""
    return band(grid_freq(fs), *[bor(eq(f, ZERO), ge(absv(f), COARSE)) for f in fs])


def selfconj(fs):
    """the opposite frequency is the same node"""
    return band(*[bor(eq(f, ZERO), eq(f, HALF)) for f in fs])


def upper(fs):
    """the last component that is neither zero nor Nyquist is positive; true without one"""
    r = True
    for f in fs:
        r = ite(bor(eq(f, ZERO), eq(f, HALF)), r, gt(f, ZERO))
    return r


def step(v, typ, d, chosen):
    fn, fq = freqfn(v, d, grid)
    end, nx = v.int('End', 0), v.int('next', 0)
    it = v.obj(typ, Freq=fn, End=end, next=nx)
    F = lambda k: [fq(k, a) for a in range(d)]

    def sel(k):
        fs = F(k)
        CTX.fact(grid(fs))
        return chosen(fs)
    for s, r in v.call('(*%s).Next' % typ, it):
        n2 = v.load(s, it, 'next')
        v.ensure('a later node, or the end', s, bor(eq(r, -1), band(ge(r, nx), lt(r, end))))
        v.ensure('continues after it', s, imp(bnot(eq(r, -1)), eq(n2, add(r, 1))))
        v.ensure('the end is final', s, imp(eq(r, -1), ge(n2, nx)))     # nothing is chosen from next on (below)
        s2 = s.copy()
        s2.assume(bnot(eq(r, -1)))
        v.ip.focus(s2)
        v.ensure('chosen', s2, lambda: sel(r))
        v.ensure_all('none is skipped', s, ite(eq(r, -1), end, r), lambda k: bnot(sel(k)), lo=nx)
        v.ensure('frequency function and range kept', s, eq(v.load(s, it, 'End'), end))


@contract('C23', 'UniqueFreqIterator: the next node of the half space', ['(*pf.UniqueFreqIterator).Next', 'pf.includeFreq'])
def unique(F):
    for d in (1, 2, 3):
        step(F.new('%dD' % d), 'pf.UniqueFreqIterator', d, upper)


@contract('C23', 'RealAmplitudeIterator: the next self-conjugate node', ['(*pf.RealAmplitudeIterator).Next'])
def realamp(F):
    for d in (1, 2, 3):
        step(F.new('%dD' % d), 'pf.RealAmplitudeIterator', d, selfconj)


@contract('C23', 'the half space holds one of every pair of opposite frequencies', [])
def pairs(F):
    for d in (1, 2, 3):
        v = F.new('%dD' % d)
        f = [v.real('f%d' % a) for a in range(d)]
        v.assume(grid(f))
        opp = [ite(eq(x, HALF), x, neg(x)) for x in f]
        v.ensure('exactly one of two', v.st, imp(bnot(selfconj(f)), bnot(eqb(upper(f), upper(opp)))))
        v.ensure('self-conjugate frequencies are in', v.st, imp(selfconj(f), upper(f)))
        v.ensure('self-conjugate: the opposite frequency is the same', v.st, lambda: band(*[imp(selfconj(f), eq(a, b)) for a, b in zip(f, opp)]))
        v.ensure('not self-conjugate: it is another', v.st, imp(band(*[eq(a, b) for a, b in zip(f, opp)]), selfconj(f)))


def eqb(a, b):
    return z3.simplify(zb(a) == zb(b))
