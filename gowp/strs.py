"""Trusted contracts of strings, strconv, regexp and sort on concrete strings, evaluated directly."""
import re
from fractions import Fraction
import z3
from .num import *
from .vals import *
from .ext import TABLE, ext


class NotConc(Exception):
    pass


def S(x):
    if not isinstance(x, str):
        raise Unsupported('string operation on a symbolic string')
    if not x.isascii():
        raise Unsupported('non-ASCII string')
    return x


def strs(ip, st, sl):
    if not isinstance(sl.len, int):
        raise Unsupported('symbolic number of strings')
    return [S(ip.get(st, sl, k)) for k in range(sl.len)]


def mk(ip, st, xs):
    return Slice(ip.alloc(st, ListArr(list(xs))), 0, len(xs))


def fn(name):
    def d(f):
        TABLE[name] = lambda ip, st, a: [(st, f(ip, st, *a))]
        return f
    return d


fn('strings.HasPrefix')(lambda ip, st, a, b: S(a).startswith(S(b)))
fn('strings.HasSuffix')(lambda ip, st, a, b: S(a).endswith(S(b)))
fn('strings.Contains')(lambda ip, st, a, b: S(b) in S(a))
fn('strings.ContainsAny')(lambda ip, st, a, b: any(c in S(a) for c in S(b)))
fn('strings.Index')(lambda ip, st, a, b: S(a).find(S(b)))
fn('strings.LastIndex')(lambda ip, st, a, b: S(a).rfind(S(b)))
fn('strings.Count')(lambda ip, st, a, b: S(a).count(S(b)) if b else len(a) + 1)
fn('strings.ToLower')(lambda ip, st, a: S(a).lower())
fn('strings.ToUpper')(lambda ip, st, a: S(a).upper())
fn('strings.TrimSpace')(lambda ip, st, a: S(a).strip(' \t\n\v\f\r'))
fn('strings.Trim')(lambda ip, st, a, c: S(a).strip(S(c)))
fn('strings.TrimPrefix')(lambda ip, st, a, b: S(a)[len(S(b)):] if a.startswith(b) else a)
fn('strings.TrimSuffix')(lambda ip, st, a, b: S(a)[:len(a) - len(S(b))] if b and a.endswith(b) else a)
fn('strings.TrimLeft')(lambda ip, st, a, c: S(a).lstrip(S(c)))
fn('strings.TrimRight')(lambda ip, st, a, c: S(a).rstrip(S(c)))
fn('strings.Repeat')(lambda ip, st, a, n: S(a) * n)
fn('strings.ReplaceAll')(lambda ip, st, a, b, c: S(a).replace(S(b), S(c)))
fn('strings.Replace')(lambda ip, st, a, b, c, n: S(a).replace(S(b), S(c), n))
fn('strings.EqualFold')(lambda ip, st, a, b: S(a).lower() == S(b).lower())


def split(a, b):
    return list(S(a)) if b == '' else S(a).split(S(b))


fn('strings.Split')(lambda ip, st, a, b: mk(ip, st, split(a, b)))
fn('strings.SplitN')(lambda ip, st, a, b, n: mk(ip, st, split(a, b) if n < 0 else S(a).split(S(b), n - 1) if n else []))
fn('strings.Fields')(lambda ip, st, a: mk(ip, st, S(a).split()))
fn('strings.Join')(lambda ip, st, a, b: S(b).join(strs(ip, st, a)))
fn('strconv.Itoa')(lambda ip, st, a: str(a) if isinstance(a, int) else ip.fresh('itoa', z3.StringSort()))


@ext('sort.Strings')
def _sort(ip, st, a):
    xs = sorted(strs(ip, st, a[0]))
    for k, x in enumerate(xs):
        ip.store(st, Ptr(a[0].ref, (('i', add(a[0].off, k)),)), x)
    return [(st, None)]


@ext('sort.Ints')
def _sorti(ip, st, a):
    sl = a[0]
    xs = [ip.get(st, sl, k) for k in range(sl.len)]
    if not all(isinstance(x, int) for x in xs):
        raise Unsupported('sort of symbolic numbers')
    for k, x in enumerate(sorted(xs)):
        ip.store(st, Ptr(sl.ref, (('i', add(sl.off, k)),)), x)
    return [(st, None)]


ERR = IfaceAbs('error', {'Error': lambda ip, st, a: [(st, 'error')]}, 'parse')


@ext('strconv.Atoi')
def _atoi(ip, st, a):
    s = S(a[0])
    if re.fullmatch(r'[+-]?[0-9]+', s):
        return [(st, (int(s), NILIFACE))]
    return [(st, (0, ERR))]


@ext('strconv.ParseFloat')
def _pf(ip, st, a):
    s = S(a[0])
    if re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', s):
        return [(st, (Fraction(float(s)), NILIFACE))]
    return [(st, (Fraction(0), ERR))]


# ---- regular expressions (RE2 subset on which Python agrees)

@ext('regexp.MustCompile')
def _compile(ip, st, a):
    p = S(a[0])
    if re.search(r'\[:|\(\?P|\\[pPQEC]|\\z', p):
        raise Unsupported('regular expression %s' % p)
    return [(st, Ptr(ip.alloc(st, Opaque('regexp', p=p))))]


def rx(ip, st, p):
    return re.compile(ip.load(st, p).a['p'], re.ASCII)


def matches(r, s):
    """successive matches as in Go: an empty match adjacent to a preceding match is ignored"""
    out, pos, prev = [], 0, -1
    while pos <= len(s):
        m = r.search(s, pos)
        if m is None:
            break
        accept = True
        if m.end() == m.start():
            if m.start() == prev:
                accept = False
            nxt = m.end() + 1
        else:
            nxt = m.end()
        if accept:
            out.append(m)
        prev = m.end()
        pos = nxt
    return out


R = '(*regexp.Regexp).'


def rfn(name):
    def d(f):
        TABLE[R + name] = lambda ip, st, a: [(st, f(ip, st, rx(ip, st, a[0]), *a[1:]))]
        return f
    return d


def groups(m):
    return [m.group(0)] + [g or '' for g in m.groups()]


rfn('MatchString')(lambda ip, st, r, s: r.search(S(s)) is not None)


@rfn('FindString')
def _fs(ip, st, r, s):
    m = r.search(S(s))
    return m.group(0) if m else ''


@rfn('FindStringSubmatch')
def _fss(ip, st, r, s):
    m = r.search(S(s))
    return mk(ip, st, groups(m)) if m else NILSLICE


@rfn('FindStringIndex')
def _fsi(ip, st, r, s):
    m = r.search(S(s))
    return mk(ip, st, [m.start(), m.end()]) if m else NILSLICE


def lim(xs, n):
    return xs if n < 0 else xs[:n]


@rfn('FindAllString')
def _fas(ip, st, r, s, n):
    ms = lim(matches(r, S(s)), n)
    return mk(ip, st, [m.group(0) for m in ms]) if ms else NILSLICE


@rfn('FindAllStringSubmatch')
def _fass(ip, st, r, s, n):
    ms = lim(matches(r, S(s)), n)
    return mk(ip, st, [mk(ip, st, groups(m)) for m in ms]) if ms else NILSLICE


@rfn('FindAllStringIndex')
def _fasi(ip, st, r, s, n):
    ms = lim(matches(r, S(s)), n)
    return mk(ip, st, [mk(ip, st, [m.start(), m.end()]) for m in ms]) if ms else NILSLICE


@rfn('ReplaceAllString')
def _ras(ip, st, r, s, t):
    if '$' in S(t):
        raise Unsupported('regexp template')
    out, last = '', 0
    for m in matches(r, S(s)):
        out += s[last:m.start()] + t
        last = m.end()
    return out + s[last:]


# ---- formatting of concrete values

def sprintf(ip, st, f, args):
    if not isinstance(f, str):
        return None
    vals = []
    for k in range(args.len if isinstance(args.len, int) else 0):
        x = ip.get(st, args, k)
        if not isinstance(x, Iface):
            return None
        vals.append(x.v)
    out, i, k = '', 0, 0
    for part in re.split(r'(%[-+ 0-9.]*[a-zA-Z%])', f):
        if not re.fullmatch(r'%[-+ 0-9.]*[a-zA-Z%]', part):
            out += part
            continue
        if part == '%%':
            out += '%'
            continue
        if k >= len(vals):
            return None
        x = vals[k]
        k += 1
        if isinstance(x, str) and part in ('%s', '%v'):
            out += x
        elif isinstance(x, int) and not isinstance(x, bool) and re.fullmatch(r'%0?[0-9]*[dv]', part):
            out += part.replace('v', 'd') % x
        else:
            return None
    return out


@ext('fmt.Sprintf')
def _sp(ip, st, a):
    r = sprintf(ip, st, a[0], a[1])
    return [(st, r if r is not None else ip.fresh('str', z3.StringSort()))]
