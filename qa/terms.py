"""Terms of the abstract domain.

Integers are linear forms over *atoms*; floats are rational functions identified by a fingerprint
(their value at one fixed pseudo-random point of a large prime field: random interpretation /
global value numbering), so algebraically equal real expressions are the same term.
"""
import hashlib
from fractions import Fraction
from math import gcd

INF = float('inf')
Q = None
# safe prime P = 2*QQ + 1 (QQ prime): exponents live mod QQ, values mod P
P = 0xFFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A63A3620FFFFFFFFFFFFFFFF  # RFC 2409 768-bit MODP prime (safe)
QQ = (P - 1) // 2
G = 4  # generates the subgroup of order QQ


class Unsupported(Exception):
    pass


def _h(*parts, mod):
    m = hashlib.sha512(repr(parts).encode()).digest() + hashlib.sha512(b'x' + repr(parts).encode()).digest()
    return int.from_bytes(m, 'big') % mod


# ------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'prio', 'fp', 'fq', 'base', 'table', 'ev')
    tab = {}
    all = []

    def __repr__(self):
        return akey(self.key)


def akey(k):
    if isinstance(k, tuple):
        return '%s(%s)' % (k[0], ','.join(str(x) if not isinstance(x, tuple) or len(x) < 12 else '<%d>' % len(x) for x in k[1:]))
    return str(k)


PRIO = {'opaque_qbiz': -1, 'opaque_nbiz': -1, 'opaque_period': -2, 'market': 0, 'year': 1, 'tab': 2, 'month': 3, 'day': 4, 'weekday': 5, 'ordinal': 6}


def atom(key, lo=-INF, hi=INF, prio=None):
    a = Atom.tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.all)
        a.key = key
        a.lo, a.hi = lo, hi
        a.prio = PRIO.get(key[0], 9) if prio is None else prio
        a.fp = _h('atom', key_repr(key), mod=P)
        a.fq = _h('atomq', key_repr(key), mod=QQ)
        a.base = None      # for 'tab' atoms: the finite base atom
        a.table = None
        Atom.tab[key] = a
        Atom.all.append(a)
    elif (a.lo, a.hi) != (lo, hi):
        if lo == -INF and hi == INF:
            return a
        raise Unsupported('atom %r reused with another range' % (key,))
    return a


def key_repr(k):
    return repr(k)


# ------------------------------------------------------------------------------------------ linear
class Lin:
    __slots__ = ('c', 'ts', 'id', '_r', '_b')
    tab = {}
    n = 0

    def __repr__(self):
        if not self.ts:
            return str(self.c)
        s = ' + '.join(('%s' % (a,) if k == 1 else '%d*%s' % (k, a)) for a, k in self.ts)
        return s + (' %+d' % self.c if self.c else '')

    def is_const(self):
        return not self.ts


def lin(c, ts=()):
    key = (c, tuple((a.id, k) for a, k in ts))
    r = Lin.tab.get(key)
    if r is None:
        r = Lin()
        r.c = c
        r.ts = tuple(ts)
        r.id = Lin.n
        Lin.n += 1
        r._r = None
        r._b = 0
        Lin.tab[key] = r
    return r


def L(c):
    return lin(int(c))


def LA(a, k=1):
    return lin(0, ((a, k),))


def norm(c, d):
    """d: {atom: coeff}.  Merges tables over the same base."""
    ts = [(a, k) for a, k in d.items() if k]
    tabs = {}
    for a, k in ts:
        if a.table is not None:
            tabs.setdefault(a.base, []).append((a, k))
    for b, l in tabs.items():
        if len(l) > 1 or l[0][1] != 1:
            vals = [sum(k * a.table[i] for a, k in l) for i in range(len(l[0][0].table))]
            for a, k in l:
                del d[a]
            t = tab_of(b, vals)
            c += t.c
            for a, k in t.ts:
                d[a] = d.get(a, 0) + k
            return norm(c, d)
    ts = sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)
    return lin(c, ts)


def tab_of(b, vals):
    """Function of the finite atom b given by its values on lo..hi."""
    lo = int(b.lo)
    v0 = vals[0]
    if all(v == v0 for v in vals):
        return L(v0)
    st = vals[1] - vals[0]
    if all(v == v0 + st * i for i, v in enumerate(vals)):
        return lin(v0 - st * lo, ((b, st),))
    rel = tuple(v - v0 for v in vals)
    a = atom(('tab', b, rel), min(rel), max(rel))
    a.base, a.table = b, rel
    return lin(v0, ((a, 1),))


def add(x, y):
    if not y.ts:
        return lin(x.c + y.c, x.ts) if y.c else x
    if not x.ts:
        return lin(x.c + y.c, y.ts) if x.c else y
    d = dict(x.ts)
    for a, k in y.ts:
        d[a] = d.get(a, 0) + k
    return norm(x.c + y.c, d)


def scale(x, k):
    if k == 1:
        return x
    if k == 0:
        return L(0)
    return norm(x.c * k, {a: q * k for a, q in x.ts})


def sub(x, y):
    return add(x, scale(y, -1))


def rng(x):
    if x._r is None:
        lo = hi = x.c
        for a, k in x.ts:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        b = single_base(x)
        if b is not None and (len(x.ts) > 1):
            vs = values_on(x, b)
            lo, hi = min(vs), max(vs)
        x._r = (lo, hi)
    return x._r


FINITE = 1200


def single_base(x):
    """The finite atom all of x depends on, or None."""
    if x._b != 0:
        return x._b
    b = None
    for a, k in x.ts:
        ab = a.base if a.table is not None else a
        if b is None:
            b = ab
        elif b is not ab:
            b = None
            break
    if b is not None and not (b.hi - b.lo <= FINITE):
        b = None
    x._b = b
    return b


def values_on(x, b):
    out = []
    lo = int(b.lo)
    for i in range(int(b.hi) - lo + 1):
        v = x.c
        for a, k in x.ts:
            v += k * (a.table[i] if a.table is not None else lo + i)
        out.append(v)
    return out


def lin_fp(x):
    fp = x.c
    fq = x.c
    for a, k in x.ts:
        if a.table is not None:
            pass
        fp += k * a.fp
        fq += k * a.fq
    return fp % P, fq % QQ


# ------------------------------------------------------------------------------------------ floats
class F:
    """A float term.  Identity: fp.  `lin`: linear form over float symbols when it is one."""
    __slots__ = ('fp', 'fq', 'lin', 'const', 's', 'id', 'err', 'intlin', 'op')
    tab = {}

    def __repr__(self):
        return self.s if len(self.s) < 400 else self.s[:400] + '...'


def _mkf(fp, fq, lf, const, s, err=None, intlin=None, op=None):
    key = (fp, err)
    r = F.tab.get(key)
    if r is None:
        r = F()
        r.fp, r.fq, r.lin, r.const, r.s, r.err, r.intlin = fp, fq, lf, const, s, err, intlin
        r.op = op
        r.id = len(F.tab)
        F.tab[key] = r
    else:
        if r.lin is None and lf is not None:
            r.lin = lf
        if r.fq is None and fq is not None:
            r.fq = fq
    return r


class Sym:
    """A float input symbol; `rank` (if set) fixes its position in a total order of inputs."""
    __slots__ = ('name', 'rank', 'lo', 'hi')

    def __init__(self, name, rank=None):
        self.name, self.rank = name, rank

    def __repr__(self):
        return self.name


_syms = {}


def fsym(name, rank=None):
    s = _syms.get((name, rank))
    if s is None:
        s = _syms[(name, rank)] = Sym(name, rank)
    fp = _h('fsym', name, rank, mod=P)
    fq = _h('fsymq', name, rank, mod=QQ)
    key = (fp, ('rank', rank) if rank is not None else None)
    r = F.tab.get(key)
    if r is None:
        r = F()
        r.fp, r.fq, r.lin, r.const, r.s, r.err, r.intlin = fp, fq, (Fraction(0), {s: Fraction(1)}), None, name, None, None
        r.op = ('sym', s)
        r.id = len(F.tab)
        F.tab[key] = r
    return r


def fconst(x):
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return fspecial(repr(x))
        f = Fraction(x)
        g = f.limit_denominator(100000)
        if float(g) == x:
            f = g
        x = f
    x = Fraction(x)
    fp = x.numerator * pow(x.denominator, -1, P) % P
    fq = x.numerator * pow(x.denominator, -1, QQ) % QQ
    return _mkf(fp, fq, (x, {}), x, str(x), op=('const', x))


def fspecial(name, *of):
    """A value that is no real number; op[2]: it may be finite all the same (1/(1/0) is 0)."""
    return _mkf(_h('special', name, mod=P), None, None, None, name, err=name, op=('special', name, any(x is None or x.op and x.op[0] == 'special' and x.op[2] for x in of)))


def from_int(x):
    if not x.ts:
        return fconst(Fraction(x.c))
    fp, fq = lin_fp(x)
    s = {}
    for a, k in x.ts:
        s[_isym(a)] = Fraction(k)
    return _mkf(fp, fq, (Fraction(x.c), s), None, '(%r)' % (x,), intlin=x, op=('int', x))


_isyms = {}


def _isym(a):
    s = _isyms.get(a)
    if s is None:
        s = _isyms[a] = Sym(('int', a))
    return s


def _ladd(a, b, k=1):
    if a is None or b is None:
        return None
    d = dict(a[1])
    for s, q in b[1].items():
        d[s] = d.get(s, 0) + k * q
        if d[s] == 0:
            del d[s]
    if len(d) > 12:
        return None
    return (a[0] + k * b[0], d)


def _lscale(a, k):
    if a is None:
        return None
    return (a[0] * k, {s: q * k for s, q in a[1].items()} if k else {})


def _c(l):
    return l[0] if l is not None and not l[1] else None


def _err(a, b):
    return a.err if a.err and not (isinstance(a.err, tuple)) else (b.err if b and b.err and not isinstance(b.err, tuple) else None)


def _q(a, b, f):
    return None if a.fq is None or b.fq is None else f(a.fq, b.fq) % QQ


def fadd(a, b):
    if _err(a, b):
        return fspecial('(%r+%r)' % (a, b), a, b)
    l = _ladd(a.lin, b.lin)
    if a.const == 0:
        return b
    if b.const == 0:
        return a
    return _mkf((a.fp + b.fp) % P, _q(a, b, lambda x, y: x + y), l, _c(l), '(%r + %r)' % (a, b), op=('add', a, b))


def fsub(a, b):
    if _err(a, b):
        return fspecial('(%r-%r)' % (a, b), a, b)
    l = _ladd(a.lin, b.lin, -1)
    if b.const == 0:
        return a
    return _mkf((a.fp - b.fp) % P, _q(a, b, lambda x, y: x - y), l, _c(l), '(%r - %r)' % (a, b), op=('sub', a, b))


def fneg(a):
    if _err(a, None):
        return fspecial('(-%r)' % (a,), a)
    l = _lscale(a.lin, -1)
    return _mkf(-a.fp % P, None if a.fq is None else -a.fq % QQ, l, _c(l), '(-%r)' % (a,), op=('neg', a))


def fmul(a, b):
    if _err(a, b):
        return fspecial('(%r*%r)' % (a, b), a, b)
    l = None
    if a.const is not None:
        l = _lscale(b.lin, a.const)
    elif b.const is not None:
        l = _lscale(a.lin, b.const)
    if a.const == 1:
        return b
    if b.const == 1:
        return a
    return _mkf(a.fp * b.fp % P, _q(a, b, lambda x, y: x * y), l, _c(l) if l else None, '%r*%r' % (a, b), op=('mul', a, b))


def fdiv(a, b):
    if _err(a, b):
        return fspecial('(%r/%r)' % (a, b), a, None if _err(b, None) else b)
    if b.fp == 0:
        return fspecial('(%r/0)' % (a,))
    if b.const == 1:
        return a
    l = _lscale(a.lin, 1 / b.const) if b.const else None
    fq = None
    if a.fq is not None and b.fq:
        fq = a.fq * pow(b.fq, -1, QQ) % QQ
    return _mkf(a.fp * pow(b.fp, -1, P) % P, fq, l, _c(l) if l else None, '%r/%s' % (a, b if not isinstance(b, F) or len(repr(b)) < 2 or repr(b)[0] == '(' else '(%r)' % (b,)), op=('div', a, b))


def fexp(a):
    if a.const == 0:
        return fconst(1)
    if a.err and not isinstance(a.err, tuple):
        return fspecial('exp(%r)' % (a,), None)
    if a.fq is None:
        return _mkf(_h('exp', a.fp, mod=P), None, None, None, 'exp(%r)' % (a,), op=('exp', a))
    return _mkf(pow(G, a.fq, P), None, None, None, 'exp(%r)' % (a,), op=('exp', a))


def ffun(name, *args):
    return _mkf(_h('fun', name, [(x.fp, x.err if not isinstance(x.err, tuple) else None) for x in args], mod=P), None, None, None, '%s(%s)' % (name, ', '.join(map(repr, args))), op=('fun', name, args))


def fsign(t):
    """Sign of the real value of t when it is known from ranks: -1, 0, 1 or None."""
    if t.const is not None:
        return (t.const > 0) - (t.const < 0)
    if t.fp == 0:
        return 0
    l = t.lin
    if l is None:
        return None
    c, d = l
    if not d:
        return (c > 0) - (c < 0)
    if c == 0 and all(isinstance(s, Sym) and s.rank is not None for s in d) and sum(d.values()) == 0:
        # sum c_i x_i with sum c_i = 0: Abel summation over the order of the x_i
        items = sorted(d.items(), key=lambda kv: kv[0].rank)
        acc = Fraction(0)
        pos = neg = False
        for i in range(len(items) - 1, 0, -1):
            acc += items[i][1]
            if items[i][0].rank != items[i - 1][0].rank:
                pos |= acc > 0
                neg |= acc < 0
        if pos and not neg:
            return 1
        if neg and not pos:
            return -1
        if not pos and not neg:
            return 0
    if len(d) == 1:
        # interval information on a single symbol
        (s, k), = d.items()
        lo, hi = POSITIVE.get(s.name, (None, None)) if not isinstance(s.name, tuple) else (_fin(s.name[1].lo), _fin(s.name[1].hi))
        if k < 0:
            lo, hi = hi, lo
        if lo is not None and c + k * lo > 0:
            return 1
        if hi is not None and c + k * hi < 0:
            return -1
    return None


def _fin(x):
    return None if x in (INF, -INF) else x


POSITIVE = {}  # symbol name -> (lo, hi) known bounds
