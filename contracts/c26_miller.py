"""C26: equivalent Miller indices"""
import itertools
from contracts.common import *


def patterns():
    """every way in which indices vanish or agree up to a sign: (name, numbers of the classes (0: zero), signs)"""
    out = []
    for cl in [(1, 2, 3), (1, 1, 2), (1, 2, 1), (1, 2, 2), (1, 1, 1), (0, 1, 2), (1, 0, 2), (1, 2, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)]:
        free = [i for i in range(3) if cl[i] and cl[i] in cl[:i]]      # indices tied to an earlier one
        for sg in itertools.product([1, -1], repeat=len(free)):
            s = [1, 1, 1]
            for i, x in zip(free, sg):
                s[i] = x
            out.append((cl, tuple(s)))
    return out


def setup(v, cl, sg):
    xs = {c: v.int('x%d' % c) for c in sorted(set(cl)) if c}
    for c in xs:
        v.assume(bnot(eq(xs[c], 0)))
        for d in xs:
            if d < c:
                v.assume(bnot(eq(xs[c], xs[d])))
                v.assume(bnot(eq(xs[c], neg(xs[d]))))
    hkl = [mul(s, xs[c]) if c else 0 for c, s in zip(cl, sg)]
    return hkl, xs


def orbit(cl, sg):
    """the distinct signed permutations, as (sign, class) triples"""
    base = list(zip(sg, cl))
    res = set()
    for p in itertools.permutations(base):
        for s in itertools.product([1, -1], repeat=3):
            res.add(tuple((a * b if c else 1, c) for a, (b, c) in zip(s, p)))
    return sorted(res)


def check_list(v, s, r, want, xs, what):
    v.ensure(what + ': number', s, eq(r.len, len(want)))
    if r.len != len(want):
        return
    got = [v.get(s, r, i) for i in range(r.len)]
    val = lambda t: [mul(a, xs[c]) if c else 0 for a, c in t]
    left = [val(t) for t in want]
    same = lambda g, t: band(eq(g.f['H'], t[0]), eq(g.f['K'], t[1]), eq(g.f['L'], t[2]))
    # the expected ones are pairwise different, so a matching one by one is a bijection
    for i, g in enumerate(got):
        hit = None
        for j, t in enumerate(left):
            c = same(g, t)
            if c is True or (not isinstance(c, bool) and z3.is_true(z3.simplify(c))):
                hit = j
                break
        if hit is None:
            for j, t in enumerate(left):
                if solver.prove(s.hyps(), zb(same(g, t)), timeout=500)[0]:
                    hit = j
                    break
        if hit is None:
            v.ensure('%s: entry %d is a signed permutation not listed before' % (what, i), s, False)
            return
        v.ensure('%s: entry %d is a signed permutation not listed before' % (what, i), s, same(g, left.pop(hit)))


def pat_name(cl, sg):
    return '(%s)' % ','.join('0' if not c else ('-' if s < 0 else '') + 'xyz'[c - 1] for c, s in zip(cl, sg))


def miller_contract(pats):
    @contract('C26', 'equivalent indices of ' + ' '.join(pat_name(*p) for p in pats), ['pfc.EquivalentMiller', 'pfc.EquivalentMillerNoPermutations', 'pfc.NumEquivalent3D', 'pfc.NumEquivalent2D', 'pfc.NumEquivalent'])
    def run(F):
        for cl, sg in pats:
            v = F.new(pat_name(cl, sg))
            (h, k, l), xs = setup(v, cl, sg)
            m = v.struct('pfc.Miller', H=h, K=k, L=l)
            want = orbit(cl, sg)
            for s, r in v.call('pfc.EquivalentMiller', m):
                check_list(v, s, r, want, xs, 'all')
            signs = sorted({tuple((a * b if c else 1, c) for a, b, c in zip(t, sg, cl)) for t in itertools.product([1, -1], repeat=3)})
            for s, r in v.call('pfc.EquivalentMillerNoPermutations', m):
                check_list(v, s, r, signs, xs, 'signs only')
            flat = sum(1 for t in want if not t[2][1])
            for f, n in (('NumEquivalent3D', len(want)), ('NumEquivalent2D', flat)):
                for s, r in v.call('pfc.' + f, m):
                    v.ensure(f, s, eq(r, n))
            for d, n in ((3, len(want)), (2, flat)):
                for s, r in v.call('pfc.NumEquivalent', m, d):
                    v.ensure('NumEquivalent in %dD' % d, s, eq(r, n))
            v.reachable('pre', v.st)


PATS = patterns()
for _k in range(0, len(PATS), 3):
    miller_contract(PATS[_k:_k + 3])


@contract('C26', 'the patterns cover all indices; index access and equality', ['(*pfc.Miller).Equal', '(*pfc.Miller).At'])
def basic(F):
    v = F.new()
    h = [v.int(n) for n in 'hkl']
    alts = []
    for cl, sg in PATS:
        c = True
        for i in range(3):
            c = band(c, eq(h[i], 0) if not cl[i] else bnot(eq(h[i], 0)))
            for j in range(i):
                if cl[i] and cl[j]:
                    c = band(c, eq(h[i], mul(sg[i] * sg[j], h[j])) if cl[i] == cl[j] else band(bnot(eq(h[i], h[j])), bnot(eq(h[i], neg(h[j])))))
        alts.append(c)
    v.ensure('every triple has a pattern', v.st, bor(*alts))
    m = v.obj('pfc.Miller', H=h[0], K=h[1], L=h[2])
    for i in range(3):
        for s, r in v.call('(*pfc.Miller).At', m, i):
            v.ensure('At(%d)' % i, s, eq(r, h[i]))
    g = [v.int(n) for n in 'abc']
    for s, r in v.call('(*pfc.Miller).Equal', m, v.struct('pfc.Miller', H=g[0], K=g[1], L=g[2])):
        v.ensure('Equal', s, zb(r) == zb(band(*[eq(a, b) for a, b in zip(h, g)])))
