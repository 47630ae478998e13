import time
from fractions import Fraction
import z3
from .num import *

STATS = {'queries': 0, 'time': 0.0, 'by': {}}
DEFS = {}   # func decl name -> unfold callback(args) -> list of facts


def register_def(decl, unfold):
    DEFS[decl.name()] = unfold


def _apps(terms, names):
    seen, out = set(), []
    stack = [t for t in terms if z3.is_expr(t)]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            out.append(t)
        stack.extend(t.children())
    return out


def unfold_defs(terms, depth=2):
    if not DEFS:
        return []
    facts, done = [], set()
    frontier = list(terms)
    for _ in range(depth):
        new = []
        for a in _apps(frontier, DEFS):
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            for f in DEFS[a.decl().name()](a.children()):
                if z3.is_expr(f):
                    new.append(f)
        if not new:
            break
        facts.extend(new)
        frontier = new
    return facts


# ------------------------------------------------------------------ ring

class TooBig(Exception):
    pass


class Poly:
    """rational function: numerator poly / denominator poly over atoms"""


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b):
    if len(a) * len(b) > 60000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


ONE = {(): Fraction(1)}


class Ring:
    """meadow: x/y is x times an inverse of y that is one symbol per divisor, and x/0 = 0, so no side conditions arise"""

    def __init__(self, meadow=False):
        self.meadow = meadow
        self.memo = {}
        self.dens = []      # z3 terms assumed nonzero
        self.nonneg = []    # z3 terms assumed non-negative
        self.keep = []
        self.atoms = {}

    def atom(self, t):
        self.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}, {}

    def norm(self, t):
        """-> (num poly, den: dict factor-key -> exponent). factor-key -> poly in self.fac"""
        if is_conc(t):
            return ({(): Fraction(t)} if t != 0 else {}), ()
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._norm(t)
        self.memo[k] = (t, r)
        return r

    def _den_mul(self, d1, d2):
        d = dict(d1)
        for x, e in d2:
            d[x] = d.get(x, 0) + e
        return tuple(sorted(d.items()))

    def _den_poly(self, d):
        p = ONE
        for x, e in d:
            for _ in range(e):
                p = pmul(p, self.fac[x])
        return p

    fac = None

    def _add(self, a, b, s=1):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return padd(n1, n2, s), d1
        D1, D2 = dict(d1), dict(d2)
        # lcm
        L = {x: max(D1.get(x, 0), D2.get(x, 0)) for x in set(D1) | set(D2)}
        m1 = tuple(sorted((x, L[x] - D1.get(x, 0)) for x in L if L[x] > D1.get(x, 0)))
        m2 = tuple(sorted((x, L[x] - D2.get(x, 0)) for x in L if L[x] > D2.get(x, 0)))
        return padd(pmul(n1, self._den_poly(m1)), pmul(n2, self._den_poly(m2)), s), tuple(sorted(L.items()))

    def _norm(self, t):
        if self.fac is None:
            self.fac = {}
        if z3.is_int_value(t) or z3.is_rational_value(t):
            v = from_z(t)
            return ({(): Fraction(v)} if v != 0 else {}), ()
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                r = self.norm(ch[0])
                for c in ch[1:]:
                    r = self._add(r, self.norm(c))
                return r
            if k == z3.Z3_OP_SUB:
                r = self.norm(ch[0])
                for c in ch[1:]:
                    r = self._add(r, self.norm(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                n, d = self.norm(ch[0])
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                n, d = self.norm(ch[0])
                for c in ch[1:]:
                    n2, d2 = self.norm(c)
                    n, d = pmul(n, n2), self._den_mul(d, d2)
                return n, d
            if k == z3.Z3_OP_DIV:
                n, d = self.norm(ch[0])
                n2, d2 = self.norm(ch[1])
                if len(n2) == 1 and () in n2:
                    c = n2[()]
                    return pmul({m: v / c for m, v in n.items()}, self._den_poly(d2)), d
                if not n2:
                    nn = z3.simplify(t)
                    self.atoms[t.get_id()] = t
                    return {((t.get_id(), 1),): Fraction(1)}, ()
                if self.meadow:
                    key, lead = self.factor_key(n2)
                    key = -abs(key) - 1
                    if key not in self.atoms:
                        self.atoms[key] = z3.RealVal(1) / (ch[1] / z(lead)) if lead != 1 else z3.RealVal(1) / ch[1]
                    return pmul({m: v / lead for m, v in n.items()}, {((key, 1),): Fraction(1)}), ()
                self.dens.append(ch[1])
                key, lead = self.factor_key(n2)
                n = pmul(n, self._den_poly(d2))
                n = {m: v / lead for m, v in n.items()}
                return n, self._den_mul(d, ((key, 1),))
            if k == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]):
                # push ToReal through integer arithmetic
                c = ch[0]
                kk = c.decl().kind()
                if kk in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or z3.is_int_value(c):
                    return self.norm(c)
                self.atoms[c.get_id()] = c
                return {((c.get_id(), 1),): Fraction(1)}, ()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 or k == z3.Z3_OP_SELECT:
                t2 = self.canon(t)
                self.atoms[t2.get_id()] = t2
                return {((t2.get_id(), 1),): Fraction(1)}, ()
        self.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}, ()

    def factor_key(self, p):
        lead_m = min(p)
        lead = p[lead_m]
        q = {m: v / lead for m, v in p.items()}
        key = tuple(sorted(q.items()))
        key = hash(key)
        self.fac[key] = q
        return key, lead

    def canon(self, t):
        """canonicalise args of a UF application with z3 simplify (som)"""
        return z3.simplify(t, som=True)

    def is_zero(self, t):
        n, _ = self.norm(t)
        return not n or not self.reduce(n)

    def reduce(self, n):
        """sqrt(x)^2 = x (x >= 0 becomes a side condition), sin(x)^2 = 1 - cos(x)^2"""
        for _ in range(12):
            out, changed = {}, False
            for m, c in n.items():
                for x, e in m:
                    t = self.atoms.get(x)
                    nm = t.decl().name() if t is not None and z3.is_app(t) and t.num_args() == 1 else ''
                    if e >= 2 and nm in ('sqrt', 'sin'):
                        break
                else:
                    out = padd(out, {m: c})
                    continue
                changed = True
                d = dict(m)
                d[x] -= 2
                rest = {tuple(sorted((y, k) for y, k in d.items() if k)): c}
                if nm == 'sqrt':
                    self.nonneg.append(t.arg(0))
                    q, den = self.norm(t.arg(0))
                    if den:
                        raise TooBig()
                else:
                    u = z3.Function('cos', z3.RealSort(), z3.RealSort())(t.arg(0))
                    self.atoms[u.get_id()] = u
                    self.keep.append(u)
                    q = {(): Fraction(1), ((u.get_id(), 2),): Fraction(-1)}
                out = padd(out, pmul(rest, q))
            n = out
            if not changed or not n:
                break
        return n


def ring_zero(t, meadow=False):
    """is real/int term t identically zero as a rational function?  Returns (bool, dens)"""
    r = Ring(meadow)
    try:
        return r.is_zero(t), [x == 0 for x in r.dens] + [x < 0 for x in r.nonneg]
    except TooBig:
        return False, []


_MATHFN = {'exp', 'sqrt', 'sin', 'cos', 'log', 'erf'}


def uf_facts(terms, limit=14):
    """instances of congruence and of exp(a) exp(b) = exp(a + b) for arguments that agree as rational functions"""
    apps = {}
    for a in _apps(terms, _MATHFN):
        apps.setdefault(a.get_id(), a)
    by = {}
    for a in apps.values():
        by.setdefault(a.decl().name(), []).append(a)
    out = []

    def same(x, y):
        r = Ring()
        try:
            if not r.is_zero(x - y):
                return None
        except TooBig:
            return None
        return [d != 0 for d in r.dens] + [d >= 0 for d in r.nonneg]
    for fn, xs in by.items():
        if len(xs) < 2 or len(xs) > limit:
            continue
        for i in range(len(xs)):
            for j in range(i):
                c = same(xs[i].arg(0), xs[j].arg(0))
                if c is not None:
                    out.append(z3.Implies(z3.And(c) if c else z3.BoolVal(True), xs[i] == xs[j]))
        if fn == 'exp':
            # exp(a) exp(b) = 1 for opposite arguments
            for i in range(len(xs)):
                for j in range(i):
                    c = same(xs[i].arg(0), -xs[j].arg(0))
                    if c is not None:
                        out.append(z3.Implies(z3.And(c) if c else z3.BoolVal(True), xs[i] * xs[j] == 1))
        if fn == 'exp' and len(xs) >= 3:
            for k in range(len(xs)):
                for i in range(len(xs)):
                    for j in range(i + 1):
                        if k in (i, j):
                            continue
                        c = same(xs[k].arg(0), xs[i].arg(0) + xs[j].arg(0))
                        if c is not None:
                            out.append(z3.Implies(z3.And(c) if c else z3.BoolVal(True), xs[k] == xs[i] * xs[j]))
    return out


# ------------------------------------------------------------------ prove

SCALE = [1]


def bound(s, ms):
    """bounds by the solver's own resource count, so that the outcome does not depend on the load of the machine; the
    clock only cuts off queries the count does not grasp"""
    s.set('rlimit', int(ms * 3000 * SCALE[0]))
    s.set('timeout', int(ms * 3 * SCALE[0]))
    return s


def _mk(timeout, logic=None, seed=None):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    bound(s, timeout)
    if seed is not None:
        s.set('random_seed', seed)
    return s


def z3check(asserts, timeout=4000, tactic=None):
    t0 = time.time()
    STATS['queries'] += 1
    if tactic == 'nl':
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
        bound(s, timeout)
    elif tactic:
        s = _mk(timeout, tactic)
    else:
        s = _mk(timeout)
    for a in asserts:
        s.add(zb(a))
    r = s.check()
    STATS['time'] += time.time() - t0
    return r, s


def find_ites(t, limit=12):
    out, seen, have = [], set(), set()
    stack = [t]
    while stack:
        u = stack.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app_of(u, z3.Z3_OP_ITE) and not z3.is_bool(u):
            c = u.arg(0)
            if c.get_id() not in have:
                have.add(c.get_id())
                out.append(c)
        stack.extend(u.children())
    return out


def feasible(asserts, timeout=400):
    for a in asserts:
        if a is False:
            return False
    r, _ = z3check(asserts, timeout)
    return r != z3.unsat


def prove(hyps, goal, timeout=8000, quick=False):
    """-> (True, backend) or (False/None, model/None)"""
    if goal is True:
        return True, 'simplifier'
    if goal is False:
        r, s = z3check(list(hyps) + unfold_defs([h for h in hyps if z3.is_expr(h)]), timeout)
        if r == z3.unsat:
            return True, 'z3'
        return (False, s.model()) if r == z3.sat else (None, None)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True, 'simplifier'
    hyps = [h for h in hyps if h is not True]
    if z3.is_implies(goal):
        h2 = hyps + [goal.arg(0)]
        r, _ = z3check(h2, 400)
        if r == z3.unsat:
            return True, 'z3'
        return prove(h2, goal.arg(1), timeout, quick)
    if z3.is_and(goal):
        g = goal
    # conjunctions: split
    if z3.is_and(g):
        be = set()
        for c in g.children():
            ok, b = prove(hyps, c, timeout, quick)
            if not ok:
                return ok, b
            be.add(b)
        return True, '+'.join(sorted(be))
    # equalities: ring normalisation with case split on ites
    if z3.is_eq(goal) and goal.arg(0).sort() in (INT, REAL):
        ok = ring_cases(hyps, goal.arg(0), goal.arg(1))
        if ok:
            return True, 'ring'
        g2 = one_step(hyps, goal)
        if g2 is not None and z3.is_eq(g2) and ring_cases(hyps, g2.arg(0), g2.arg(1)):
            return True, 'ring'
    neg_g = z3.Not(goal)
    facts = unfold_defs([goal] + [h for h in hyps if z3.is_expr(h)])
    base = hyps + facts + [neg_g]
    r, s = z3check(base, min(timeout, 3000))
    if r == z3.unsat:
        return True, 'z3'
    if r == z3.sat:
        # a model of uninterpreted functions: rule it out with instances of their laws
        more = uf_facts(base)
        if not more:
            return False, s.model()
        r2, s4 = z3check(base + more, timeout)
        if r2 == z3.unsat:
            return True, 'z3-uf'
        return (False, s4.model()) if r2 == z3.sat else (None, None)
    if quick:
        return None, None
    r, s2 = z3check(base, timeout, 'nl')
    if r == z3.unsat:
        return True, 'z3-nl'
    if r == z3.sat:
        return False, s2.model()
    # relevance-reduced attempt: only hyps sharing symbols with goal
    more = uf_facts(base)
    if more:
        r, s4 = z3check(base + more, timeout)
        if r == z3.unsat:
            return True, 'z3-uf'
    rel = relevant(hyps + facts, goal)
    if len(rel) < len(hyps) + len(facts):
        r, s3 = z3check(rel + [neg_g], timeout)
        if r == z3.unsat:
            return True, 'z3-rel'
    r = cvc5_check(base, timeout)
    if r:
        return True, 'cvc5'
    return None, None


def one_step(hyps, goal):
    """replace S(t) by its definition where S(t - 1) occurs as well"""
    apps = _apps([goal], DEFS)
    subs = []
    for a in apps:
        if a.num_args() == 0 or a.arg(a.num_args() - 1).sort() != INT:
            continue
        prev = z3.simplify(a.arg(a.num_args() - 1) - 1)
        if not any(b.decl().name() == a.decl().name() and all(x.eq(y) for x, y in zip(b.children()[:-1], a.children()[:-1])) and
                   z3.simplify(b.arg(b.num_args() - 1)).eq(prev) for b in apps):
            continue
        for f in DEFS[a.decl().name()](a.children()):
            if z3.is_implies(f) and z3.is_eq(f.arg(1)) and f.arg(1).arg(0).eq(a) and z3check(list(hyps) + [z3.Not(f.arg(0))], 300)[0] == z3.unsat:
                subs.append((a, f.arg(1).arg(1)))
                break
    return z3.substitute(goal, *subs) if subs else None


def syms(t):
    out, seen = set(), set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(u.decl().name())
        stack.extend(u.children())
    return out


def relevant(hyps, goal, rounds=1):
    S = syms(goal)
    hs = [(h, syms(h)) for h in hyps if z3.is_expr(h)]
    out = []
    for _ in range(rounds):
        out = [h for h, s in hs if s <= S or (s & S and len(s) <= 4)]
    return out


def decide_ites(hyps, t, conds, limit=120):
    """replace if-conditions that the hypotheses decide"""
    s = z3.Solver()
    bound(s, 250)
    for h in hyps:
        s.add(zb(h))
    tried = set()
    n = 0
    t0 = time.time()
    while conds and n < limit:
        todo = [c for c in conds if c.get_id() not in tried]
        if not todo:
            break
        subs = []
        for c in todo:
            tried.add(c.get_id())
            n += 1
            STATS['queries'] += 1
            if s.check(z3.Not(c)) == z3.unsat:
                subs.append((c, z3.BoolVal(True)))
            elif s.check(c) == z3.unsat:
                subs.append((c, z3.BoolVal(False)))
            if n >= limit:
                break
        if not subs:
            break
        t = z3.simplify(z3.substitute(t, *subs), som=False, push_ite_arith=False)
        KEEP.extend(todo)
        conds = find_ites(t)
    STATS['time'] += time.time() - t0
    return t, conds


KEEP = []


def ring_cases(hyps, a, b, maxite=5):
    d = a - b
    try:
        conds = find_ites(d)
    except Exception:
        return False
    if conds:
        d, conds = decide_ites(hyps, d, conds)
    t_end = time.process_time() + 8
    S = z3.Solver()
    bound(S, 300)
    for h in hyps:
        S.add(zb(h))

    def go(t, h, depth):
        if time.process_time() > t_end:
            return False
        cs = find_ites(t)
        if not cs:
            ok, dens = ring_zero(t, True)
            if not ok or dens:
                ok, dens = ring_zero(t)
            if not ok:
                if depth:
                    r, _ = z3check(h, 500)
                    return r == z3.unsat
                return False
            for dd in dens:
                r, _ = z3check(h + [dd], 1500)
                if r != z3.unsat:
                    return False
            return True
        c = cs[0]
        for val in (True, False):
            hc = c if val else z3.Not(c)
            S.push()
            S.add(hc)
            try:
                if depth >= 2 and S.check() == z3.unsat:
                    continue
                t2 = z3.simplify(z3.substitute(t, (c, z3.BoolVal(val))), som=False, push_ite_arith=False)
                if not go(t2, h + [hc], depth + 1):
                    if S.check() != z3.unsat:
                        return False
            finally:
                S.pop()
        return True
    return go(d, list(hyps), 0)


def cvc5_check(asserts, timeout):
    import subprocess
    import tempfile
    import os
    try:
        s = z3.Solver()
        for a in asserts:
            s.add(zb(a))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            fn = f.name
        t0 = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fn], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            r = p.stdout.strip().split('\n')[-1] == 'unsat'
        finally:
            os.unlink(fn)
        STATS['time'] += time.time() - t0
        return r
    except Exception:
        return False
