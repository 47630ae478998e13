"""Trusted contracts of functions outside the repository."""
from fractions import Fraction
import z3
from .num import *
from .vals import *

TABLE = {}
GLOBALS = {}
USED = set()
PREFIX = []


def lookup(name):
    h = TABLE.get(name)
    if h is None:
        for p, hh in PREFIX:
            if name.startswith(p):
                USED.add(name)
                return hh
        return None
    USED.add(name)
    return h


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pure(f):
    return lambda ip, st, a: [(st, f(ip, *a))]


def uf(name, *sorts):
    return z3.Function(name, *sorts)


_sqrt = uf('sqrt', REAL, REAL)
_sin = uf('sin', REAL, REAL)
_cos = uf('cos', REAL, REAL)
_exp = uf('exp', REAL, REAL)
_log = uf('log', REAL, REAL)
_pow = uf('pow', REAL, REAL, REAL)
_floor = uf('floor', REAL, REAL)
_tan = uf('tan', REAL, REAL)
_atan = uf('atan', REAL, REAL)
_erf = uf('erf', REAL, REAL)
_erfc = uf('erfc', REAL, REAL)


def sqrt(x):
    if is_conc(x) and x >= 0:
        import math
        p, q = Fraction(x).numerator, Fraction(x).denominator
        if math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
            return Fraction(math.isqrt(p), math.isqrt(q))
    t = z3.simplify(zr(x), som=True)
    r = _sqrt(t)
    CTX.fact(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    CTX.fact(z3.Implies(t > 0, r > 0))
    return r


def _canon(x):
    return z3.simplify(zr(x), som=True)


def _negform(t):
    """(sign, |t|) canonical form so that f(-x) and f(x) share a symbol"""
    n = z3.simplify(-t, som=True)
    return (1, t) if str(t) <= str(n) else (-1, n)


def sin(x):
    if is_conc(x) and x == 0:
        return Fraction(0)
    s, t = _negform(_canon(x))
    CTX.fact(_sin(t) * _sin(t) + _cos(t) * _cos(t) == 1)
    CTX.fact(z3.Implies(t == 0, _sin(t) == 0))
    return _sin(t) if s > 0 else -_sin(t)


def cos(x):
    if is_conc(x) and x == 0:
        return Fraction(1)
    s, t = _negform(_canon(x))
    CTX.fact(_sin(t) * _sin(t) + _cos(t) * _cos(t) == 1)
    CTX.fact(z3.Implies(t == 0, _cos(t) == 1))
    return _cos(t)


def exp(x):
    if is_conc(x) and x == 0:
        return Fraction(1)
    t = _canon(x)
    r = _exp(t)
    CTX.fact(r > 0)
    CTX.fact(z3.Implies(t <= 0, r <= 1))
    CTX.fact(z3.Implies(t < 0, r < 1))
    CTX.fact(z3.Implies(t >= 0, r >= 1))
    CTX.fact(_log(r) == t)
    return r


def log(x):
    if is_conc(x) and x == 1:
        return Fraction(0)
    t = _canon(x)
    r = _log(t)
    CTX.fact(z3.Implies(t > 0, _exp(r) == t))
    CTX.fact(z3.Implies(t > 1, r > 0))
    CTX.fact(z3.Implies(z3.And(t > 0, t < 1), r < 0))
    CTX.fact(z3.Implies(t == 1, r == 0))
    return r


def powf(x, y):
    if is_conc(y) and Fraction(y).denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = mul(r, x)
        return r
    if is_conc(y) and y == Fraction(1, 2):
        return sqrt(x)
    if is_conc(y) and Fraction(y).denominator == 1 and -8 <= y < 0:
        return rdiv(Fraction(1), powf(x, -y))
    t, u = _canon(x), _canon(y)
    r = _pow(t, u)
    CTX.fact(z3.Implies(t > 0, r > 0))
    CTX.fact(z3.Implies(u == 0, r == 1))
    CTX.fact(z3.Implies(u == 1, r == t))
    CTX.fact(z3.Implies(u == 2, r == t * t))
    return r


def floor(x):
    if is_conc(x):
        import math
        return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(zr(x)))


def _u1(f):
    return pure(lambda ip, x: f(x))


TABLE['math.Sqrt'] = _u1(sqrt)
TABLE['math.Sin'] = _u1(sin)
TABLE['math.Cos'] = _u1(cos)
TABLE['math.Exp'] = _u1(exp)
TABLE['math.Log'] = _u1(log)
TABLE['math.Abs'] = _u1(absv)
TABLE['math.Floor'] = _u1(floor)
TABLE['math.Erf'] = _u1(lambda x: Fraction(0) if is_conc(x) and x == 0 else _erf(_canon(x)))
TABLE['math.Pow'] = pure(lambda ip, x, y: powf(x, y))
TABLE['math.Max'] = pure(lambda ip, x, y: ite(ge(x, y), x, y))
TABLE['math.Min'] = pure(lambda ip, x, y: ite(le(x, y), x, y))
TABLE['math.Round'] = _u1(lambda x: ite(ge(x, 0), floor(add(x, Fraction(1, 2))), neg(floor(add(neg(x), Fraction(1, 2))))))
TABLE['math.Tan'] = _u1(lambda x: rdiv(sin(x), cos(x)))


def _sincos(ip, st, a):
    return [(st, (sin(a[0]), cos(a[0])))]


TABLE['math.Sincos'] = _sincos


def cabs(c):
    return sqrt(add(mul(c.re, c.re), mul(c.im, c.im)))


TABLE['math/cmplx.Abs'] = pure(lambda ip, c: cabs(c))
TABLE['math/cmplx.Conj'] = pure(lambda ip, c: C(c.re, neg(c.im)))


def cpow(ip, x, y):
    if isinstance(y, C) and is_conc(y.re) and is_conc(y.im) and y.im == 0 and Fraction(y.re).denominator == 1 and 0 <= y.re <= 8:
        r = C(Fraction(1), Fraction(0))
        for _ in range(int(y.re)):
            r = r * x
        return r
    f = uf('cpow_re', REAL, REAL, REAL, REAL, REAL)
    g = uf('cpow_im', REAL, REAL, REAL, REAL, REAL)
    a = [_canon(x.re), _canon(x.im), _canon(y.re), _canon(y.im)]
    return C(f(*a), g(*a))


TABLE['math/cmplx.Pow'] = pure(cpow)

# output that has no effect on the modelled state
for _n in ('fmt.Printf', 'fmt.Println', 'fmt.Print', 'log.Printf', 'log.Println', 'log.Print'):
    TABLE[_n] = lambda ip, st, a: [(st, (0, NILIFACE))]


def _fresh_string(ip, st, a):
    return [(st, ip.fresh('str', z3.StringSort()))]


TABLE['fmt.Sprintf'] = _fresh_string
TABLE['fmt.Sprint'] = _fresh_string


def _fatal(ip, st, a):
    if ip.feasible(st, True):
        ip.on_panic(st, 'log.Fatal')
    return []


for _n in ('log.Fatalf', 'log.Fatal', 'log.Fatalln', 'os.Exit', 'log.Panicf', 'log.Panic'):
    TABLE[_n] = _fatal


def cexp(c):
    e = exp(c.re)
    return C(mul(e, cos(c.im)), mul(e, sin(c.im)))


TABLE['math/cmplx.Exp'] = pure(lambda ip, c: cexp(c))


@ext('math/cmplx.Sqrt')
def _csqrt(ip, st, a):
    """principal root, of real non-negative arguments only"""
    c = a[0]
    if c.im != 0 and not (is_conc(c.im) and c.im == 0):
        raise Unsupported('complex square root')
    ip.oblige(st, 'square root of a non-negative number', ge(c.re, 0))
    return [(st, C(sqrt(c.re), Fraction(0)))]


@ext('gonum.org/v1/gonum/floats.Norm')
def _fnorm(ip, st, a):
    """Euclidean norm of a slice of known length"""
    if not isinstance(a[0].len, int) or a[1] != 2:
        raise Unsupported('floats.Norm of unknown length or other order')
    s = Fraction(0)
    for k in range(a[0].len):
        x = ip.get(st, a[0], k)
        s = add(s, mul(x, x))
    return [(st, sqrt(s))]
