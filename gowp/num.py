"""Smart constructors over {python int / Fraction / bool} | z3 terms.

Concrete integers are python ints, concrete reals are Fractions, concrete
booleans python bools; everything symbolic is a z3 term."""
from fractions import Fraction
import z3

REAL = z3.RealSort()
INT = z3.IntSort()
_simp_cache = {}
PI = z3.Real('PI')
PIF = Fraction(3141592653589793238462643383279502884197169399375105820974944592307816406286, 10**75)
PI_FACT = z3.And(PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266'))


def pi_const(c):
    """float constant -> q*PI^k when it is such a multiple to within 1 ulp, else itself"""
    if c == 0 or c.denominator < 1000:
        return c
    for k in (1, 2, 3, -1):
        q = c / PIF ** k
        r = q.limit_denominator(360)
        if r != 0 and abs(r.numerator) <= 360 and abs(q / r - 1) < Fraction(3, 10**16):
            t = z3.Q(r.numerator, r.denominator)
            if k > 0:
                for _ in range(k):
                    t = PI if (t.eq(z3.Q(1, 1))) else t * PI
                return t
            return t / PI
    return nice(c)


def nice(c):
    """the rational a float constant stands for: a short decimal or a small fraction that rounds to it"""
    try:
        f = float(c)
    except OverflowError:
        return c
    if Fraction(f) != c:
        return c
    digits = repr(f).split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 12:
        return Fraction(repr(f))
    r = c.limit_denominator(1000)
    if r and float(r) == f:
        return r
    return c



def is_conc(x):
    return isinstance(x, (int, Fraction, bool))


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zr(x):
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x) if isinstance(x, int) else z3.Q(x.numerator, x.denominator)
    if x.sort() == INT:
        return z3.ToReal(x)
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, str):
        return z3.StringVal(x)
    return x


def from_z(t):
    """simplified z3 term -> concrete if numeral"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def simp(t):
    if is_conc(t) or isinstance(t, str):
        return t
    k = t.get_id()
    r = _simp_cache.get(k)
    if r is None:
        r = (t, from_z(z3.simplify(t)))
        _simp_cache[k] = r
    return r[1]


def isint(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    return not isinstance(x, (Fraction, str)) and z3.is_expr(x) and x.sort() == INT


# ---- arithmetic (works for ints and reals; caller keeps sorts consistent)

def _lift2(x, y):
    """bring z3 operands to z3"""
    if isinstance(x, int) and not isinstance(x, bool):
        x = z3.IntVal(x) if (z3.is_expr(y) and y.sort() == INT) else z3.RealVal(x)
    elif isinstance(x, Fraction):
        x = zr(x)
    if isinstance(y, int) and not isinstance(y, bool):
        y = z3.IntVal(y) if x.sort() == INT else z3.RealVal(y)
    elif isinstance(y, Fraction):
        y = zr(y)
    if x.sort() == INT and y.sort() == REAL:
        x = z3.ToReal(x)
    if y.sort() == INT and x.sort() == REAL:
        y = z3.ToReal(y)
    return x, y


def add(x, y):
    if is_conc(x) and is_conc(y):
        return x + y
    if is_conc(x) and x == 0:
        return y
    if is_conc(y) and y == 0:
        return x
    a, b = _lift2(x, y)
    r = a + b
    if r.sort() == INT:
        return simp(r)
    return r


def neg(x):
    if is_conc(x):
        return -x
    if z3.is_app_of(x, z3.Z3_OP_UMINUS):
        return x.arg(0)
    return -x


def sub(x, y):
    if is_conc(x) and is_conc(y):
        return x - y
    if is_conc(y) and y == 0:
        return x
    if is_conc(x) and x == 0:
        return neg(y)
    a, b = _lift2(x, y)
    if a.eq(b):
        return 0 if a.sort() == INT else Fraction(0)
    r = a - b
    if r.sort() == INT:
        return simp(r)
    return r


def mul(x, y):
    if is_conc(x) and is_conc(y):
        return x * y
    for u, v in ((x, y), (y, x)):
        if is_conc(u):
            if u == 0:
                return u
            if u == 1:
                return v
            if u == -1:
                return neg(v)
    a, b = _lift2(x, y)
    r = a * b
    return r


def rdiv(x, y):
    """real division"""
    if is_conc(y) and y != 0:
        if is_conc(x):
            return Fraction(x) / Fraction(y)
        if y == 1:
            return x
        return mul(x, Fraction(1) / Fraction(y))
    if is_conc(x) and x == 0 and not is_conc(y):
        pass
    return zr(x) / zr(y)


def toreal(x):
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if x.sort() == INT:
        return z3.ToReal(x)
    return x


# ---- booleans

def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def band(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def imp(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else bnot(a)
    return z3.Implies(a, b)


def lt(x, y):
    return cmp('<', x, y)


def le(x, y):
    return cmp('<=', x, y)


def gt(x, y):
    return cmp('<', y, x)


def ge(x, y):
    return cmp('<=', y, x)


def cmp(op, x, y):
    if op == '>':
        return cmp('<', y, x)
    if op == '>=':
        return cmp('<=', y, x)
    if is_conc(x) and is_conc(y):
        return x < y if op == '<' else x <= y
    a, b = _lift2(x, y)
    if a.eq(b):
        return op == '<='
    if a.sort() == INT:
        d = simp(a - b)
        if isinstance(d, int):
            return d < 0 if op == '<' else d <= 0
    return a < b if op == '<' else a <= b


def eq(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if is_conc(x) and is_conc(y):
        return x == y
    if isinstance(x, bool):
        return y if x else bnot(y)
    if isinstance(y, bool):
        return x if y else bnot(x)
    if isinstance(x, str):
        x = z3.StringVal(x)
    if isinstance(y, str):
        y = z3.StringVal(y)
    if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
        return True
    if z3.is_expr(x) and x.sort() not in (INT, REAL):
        return x == y
    if z3.is_expr(y) and y.sort() not in (INT, REAL):
        return x == y
    a, b = _lift2(x, y)
    if a.eq(b):
        return True
    if a.sort() == INT:
        d = simp(a - b)
        if isinstance(d, int):
            return d == 0
    return a == b


def ite(c, x, y):
    if isinstance(c, bool):
        return x if c else y
    if x is y:
        return x
    if is_conc(x) and is_conc(y) and type(x) == type(y) and x == y:
        return x
    if isinstance(x, bool) or isinstance(y, bool) or (z3.is_expr(x) and z3.is_bool(x)):
        if isinstance(x, bool) and isinstance(y, bool):
            return c if x else bnot(c)
        if isinstance(x, bool):
            return bor(c, y) if x else band(bnot(c), y)
        if isinstance(y, bool):
            return bor(bnot(c), x) if y else band(c, x)
        if x.eq(y):
            return x
        return z3.If(c, zb(x), zb(y))
    if isinstance(x, str) or isinstance(y, str):
        if x == y and isinstance(x, str) and isinstance(y, str):
            return x
        return z3.If(c, z(x), z(y))
    if is_conc(x) and is_conc(y):
        if isinstance(x, Fraction) or isinstance(y, Fraction):
            return z3.If(c, zr(x), zr(y))
        return z3.If(c, z3.IntVal(x), z3.IntVal(y))
    if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
        return x
    if z3.is_expr(x) and x.sort() not in (INT, REAL):
        return z3.If(c, x, y)
    a, b = _lift2(x, y)
    return z3.If(c, a, b)


def absv(x):
    return ite(ge(x, 0 if isint(x) else Fraction(0)), x, neg(x))


# ---- complex values

class C:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return 'C(%s,%s)' % (self.re, self.im)

    def __add__(s, o):
        return C(add(s.re, o.re), add(s.im, o.im))

    def __sub__(s, o):
        return C(sub(s.re, o.re), sub(s.im, o.im))

    def __neg__(s):
        return C(neg(s.re), neg(s.im))

    def __mul__(s, o):
        return C(sub(mul(s.re, o.re), mul(s.im, o.im)), add(mul(s.re, o.im), mul(s.im, o.re)))

    def __truediv__(s, o):
        if is_conc(o.im) and o.im == 0:
            return C(rdiv(s.re, o.re), rdiv(s.im, o.re))
        d = add(mul(o.re, o.re), mul(o.im, o.im))
        return C(rdiv(add(mul(s.re, o.re), mul(s.im, o.im)), d),
                 rdiv(sub(mul(s.im, o.re), mul(s.re, o.im)), d))


def cre(x):
    return C(toreal(x), Fraction(0))


def ceq(a, b):
    return band(eq(a.re, b.re), eq(a.im, b.im))


CZERO = C(Fraction(0), Fraction(0))


def subst(t, pairs):
    """substitute z3 consts in a python-or-z3 scalar"""
    if is_conc(t) or isinstance(t, str):
        return t
    return from_z(z3.substitute(t, *[(a, z(b)) for a, b in pairs]))


def contains(t, consts):
    """does term t contain any of the given z3 constants (set of ids)"""
    if is_conc(t) or isinstance(t, str):
        return False
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in consts:
            return True
        stack.extend(u.children())
    return False
