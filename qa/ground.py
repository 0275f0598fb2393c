"""Evaluation of extracted summaries at one point of the input space.

A differing region found by comparing two summaries is only reported when a point of it has been
exhibited: both summaries are evaluated there, uninterpreted functions being given values
consistently.  Only the extracted terms are evaluated, never the program.
"""
import random
from fractions import Fraction
import mpmath
from . import dates
from .interp import SYMKEY
from .values import *

mpmath.mp.dps = 40
TOL = mpmath.mpf(10) ** -25


class Fail(Exception):
    """The point lies outside the domain of a term."""


class NoValue(Fail):
    """A real expression that divides by zero and is not finite for it."""


def is_opaque(k):
    return isinstance(k, tuple) and len(k) and isinstance(k[0], str) and k[0].startswith('opaque_')


class Ground:
    """One lazily completed assignment.  `pick(atom_or_sym, ground key, lo, hi)` chooses base values."""

    def __init__(self, pick, given=None):
        self.pick = pick
        self.given = given      # (name, arguments) -> known value of an uninterpreted function, or None
        self.base = {}      # ground key -> value
        self.am = {}
        self.fm = {}

    # ---------------------------------------------------------------- keys of uninterpreted functions
    def garg(self, k):
        if isinstance(k, Lin):
            return self.lin(k)
        if isinstance(k, F):
            return self.fkey(k)
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'F':
                return self.fkey(F.tab[(k[1], k[2])] if (k[1], k[2]) in F.tab else _byfp(k[1]))
            if len(k) == 2 and k[0] == 'dd':
                return self.garg_leaf(self.dd(DDS[k[1]]))
            if is_opaque(k):
                return self.gkey(k)
            return tuple(self.garg(x) for x in k)
        return k

    def garg_leaf(self, v):
        if isinstance(v, F):
            return self.fkey(v)
        return v

    def fkey(self, f):
        return mpmath.nstr(self.f(f), 20)

    def gkey(self, k):
        return ('g',) + tuple(self.garg(x) for x in k)

    # ---------------------------------------------------------------- integers
    def lin(self, x):
        r = x.c
        for a, k in x.ts:
            r += k * self.atom(a)
        return r

    def known(self, a):
        if a in self.am:
            return True
        k = a.key
        if is_opaque(k) or k[0] in ('arg', 'market'):
            return self.gkey(k) in self.base
        if k[0] == 'D':
            return self.dkey(k) in self.base
        return None

    def dkey(self, k):
        return ('D', self.garg(k[1]) if isinstance(k[1], tuple) else k[1])

    def choose(self, a, lo, hi, gk):
        v = self.base.get(gk)
        if v is None and self.given is not None and is_opaque(gk[1:]):
            v = self.base[gk] = self.given(self, gk[1:])
        if v is None:
            v = self.base[gk] = self.pick(a, gk, lo, hi)
        return v

    def atom(self, a):
        v = self.am.get(a)
        if v is None:
            v = self.am[a] = self.calc(a)
        return v

    def free(self, a):
        """Ground key of an atom whose value can be chosen here, or None."""
        if a in self.am:
            return None
        k = a.key
        if k[0] == 'D':
            g = self.dkey(k)
        elif is_opaque(k) and self.given is not None:
            return None
        elif is_opaque(k) or k[0] in ('arg', 'market', 'AMok'):
            g = self.gkey(k) if k[0] != 'AMok' else None
        else:
            return None
        return None if g is None or g in self.base else g

    def calc(self, a):
        k = a.key
        h = k[0]
        if a.table is not None:
            return a.table[self.atom(a.base) - int(a.base.lo)]
        if h == 'D':
            return self.choose(a, a.lo, a.hi, self.dkey(k))
        if h in ('year', 'month', 'day', 'ordinal'):
            n = self.lin(k[1])
            if not dates.MIN_D <= n <= dates.MAX_D:
                raise Fail('date')
            y, m, d = dates.civil(n)
            return {'year': y, 'month': m, 'day': d, 'ordinal': n - dates.days_before_year(y)}[h]
        if h == 'weekday':
            return (self.lin(k[1]) + 6) % 7
        if h == 'fdiv':
            return self.lin(k[1]) // k[2]
        if h == 'mod':
            return self.lin(k[1]) % k[2]
        if h == 'leap':
            return int(dates.is_leap(self.lin(k[1])))
        if h == 'first':
            y, m = self.lin(k[1]), self.lin(k[2])
            if not 1 <= m <= 12:
                raise Fail('month')
            return dates.daynum(y, m, 1)
        if h == 'mul':
            return self.lin(k[1]) * self.lin(k[2])
        if h == 'div':
            p, q = self.lin(k[1]), self.lin(k[2])
            if q == 0:
                raise Fail('division by zero')
            return abs(p) // abs(q) * (1 if (p >= 0) == (q > 0) else -1)
        if h == 'BitAnd':
            return self.lin(k[1]) & self.lin(k[2])
        if h == 'BitOr':
            return self.lin(k[1]) | self.lin(k[2])
        if h == 'BitXor':
            return self.lin(k[1]) ^ self.lin(k[2])
        if h in ('AM', 'AMok'):
            n = self.lin(k[1])
            if not dates.MIN_D <= n <= dates.MAX_D:
                raise Fail('date')
            y, m, d = dates.civil(n)
            t = y * 12 + m - 1 + self.lin(k[2])
            y, m = t // 12, t % 12 + 1
            ok = dates.MIN_YEAR <= y <= dates.MAX_YEAR
            if h == 'AMok':
                return int(ok)
            if not ok:
                raise Fail('date')
            return dates.daynum(y, m, min(d, dates.dim_c(y, m)))
        if h == 'WR':
            n = self.lin(k[1])
            w = (n + 6) % 7
            return n + (7 - w if w > 4 else 0)
        if h == 'fcmp':
            v = self.inner(_byfp(k[1]))
            return 0 if abs(v) < TOL else 1 if v > 0 else -1
        if h == 'f2i':
            v = int(self.inner(_byfp(k[1])))
            return max(k[2], min(k[3], v))
        if is_opaque(k) or h in ('arg', 'market'):
            return self.choose(a, a.lo, a.hi, self.gkey(k))
        raise Fail('atom %s' % (h,))

    # ---------------------------------------------------------------- reals
    def f(self, t):
        v = self.fm.get(t)
        if v is None:
            v = self.fm[t] = self.fcalc(t)
        return v

    def fcalc(self, t):
        o = t.op
        if o is None:
            raise Fail('term')
        k = o[0]
        if k == 'const':
            return mpmath.mpf(o[1].numerator) / o[1].denominator
        if k == 'int':
            return mpmath.mpf(self.lin(o[1]))
        if k == 'sym':
            s = o[1]
            key = SYMKEY.get(s.name)
            g = self.gkey(key) if key is not None else ('sym', s.name)
            v = self.base.get(g)
            if v is None:
                v = self.base[g] = self.pick(s, g, None, None)
            return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)
        if k == 'special':
            raise (Fail if o[2] else NoValue)('special')
        if k == 'add':
            return self.f(o[1]) + self.f(o[2])
        if k == 'sub':
            return self.f(o[1]) - self.f(o[2])
        if k == 'neg':
            return -self.f(o[1])
        if k == 'mul':
            return self.f(o[1]) * self.f(o[2])
        if k == 'div':
            b = self.inner(o[2])
            if abs(b) < TOL:
                raise NoValue('division by zero')
            return self.f(o[1]) / b
        if k == 'exp':
            v = self.inner(o[1])
            if abs(v) > 5000:
                raise Fail('exp')
            return mpmath.exp(v)
        if k == 'fun':
            n, args = o[1], [self.inner(x) for x in o[2]]
            g = {'ln': mpmath.log, 'sqrt': mpmath.sqrt, 'floor': mpmath.floor, 'ceil': mpmath.ceil, 'trunc': lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x),
                 'powf': lambda x, y: x ** y, 'powi': lambda x, y: x ** y, 'exp2': lambda x: mpmath.mpf(2) ** x, 'sin': mpmath.sin, 'cos': mpmath.cos,
                 'tan': mpmath.tan, 'cbrt': mpmath.cbrt, 'log10': mpmath.log10, 'ln_1p': lambda x: mpmath.log(1 + x),
                 'round': lambda x: mpmath.floor(abs(x) + mpmath.mpf('0.5')) * (1 if x >= 0 else -1)}.get(n)
            if g is None:
                raise Fail(n)
            try:
                r = g(*args)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Fail(n)
            if isinstance(r, mpmath.mpc):
                raise Fail(n)
            return r
        raise Fail(k)

    def inner(self, x):
        """An operand for which an infinite value may give a finite result."""
        try:
            return self.f(x)
        except NoValue as e:
            raise Fail(*e.args)

    # ---------------------------------------------------------------- diagrams and values
    def dd(self, d):
        while not d.leaf:
            v = self.lin(d.var.form)
            i = 0
            for c in d.cuts:
                if v >= c:
                    i += 1
                else:
                    break
            d = d.kids[i]
        return d.v

    def steer(self, d, rnd):
        """Evaluate a condition, choosing still free values so that it can become true."""
        while not d.leaf:
            fm = d.var.form
            if len(fm.ts) == 1:
                a = fm.ts[0][0]
                g = self.free(a)
                if g is not None:
                    opts = []
                    for i, k in enumerate(d.kids):
                        if k is FALSE:
                            continue
                        lo = d.cuts[i - 1] if i > 0 else d.var.lo
                        hi = d.cuts[i] - 1 if i < len(d.cuts) else d.var.hi
                        opts.append((lo, hi))
                    if opts:
                        lo, hi = rnd.choice(opts)
                        v = self.pick(a, g, lo, hi)
                        if not lo <= v <= hi:
                            v = lo if lo != -INF and rnd.random() < .5 or hi == INF else hi
                        self.base[g] = int(v)
            v = self.lin(fm)
            i = 0
            for c in d.cuts:
                if v >= c:
                    i += 1
                else:
                    break
            d = d.kids[i]
        return d.v

    def value(self, v):
        """Concrete counterpart of an abstract value."""
        if isdd(v):
            x = self.dd(v)
            if isinstance(x, Lin):
                return self.lin(x)
            if isinstance(x, F):
                return self.f(x)
            return x
        if isinstance(v, VecV):
            return [self.value(x) for x in v.fs]
        if isinstance(v, Agg):
            if len(v.fs) == 1:
                return self.value(v.fs[0])
            return tuple(self.value(x) for x in v.fs)
        if isinstance(v, Enum):
            d = self.dd(v.d)
            d = self.lin(d)
            return Var_(d, tuple(self.value(x) for x in v.vs.get(d, ())))
        if isinstance(v, BoxV):
            return self.value(v.v)
        return TEXT


class Text:
    def __repr__(self):
        return '..'


TEXT = Text()


class Var_:
    def __init__(self, d, fs):
        self.d, self.fs = d, fs

    def __repr__(self):
        return '#%d%r' % (self.d, self.fs)


_fp = {}


def _byfp(fp):
    f = F.tab.get((fp, None))
    if f is not None:
        return f
    f = _fp.get(fp)
    if f is None:
        for (p, e), x in F.tab.items():
            if p == fp:
                f = _fp[fp] = x
                break
    if f is None:
        raise Fail('term')
    return f


def same(a, b):
    """Equality of concrete values; text is not compared."""
    if a is TEXT or b is TEXT:
        return True
    if isinstance(a, mpmath.mpf) or isinstance(b, mpmath.mpf):
        if not isinstance(a, (mpmath.mpf, int)) or not isinstance(b, (mpmath.mpf, int)):
            return False
        return abs(a - b) <= mpmath.mpf(10) ** -15 * (1 + max(abs(a), abs(b)))
    if isinstance(a, Var_):
        return isinstance(b, Var_) and a.d == b.d and all(same(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def render(it, t, v):
    """Readable form of a concrete value of type t."""
    d = it.ty(t)
    k = d['k']
    if v is TEXT:
        return '".."'
    if it.is_date(d):
        try:
            return '%04d-%02d-%02d' % dates.civil(v)
        except Exception:
            return 'day %s' % v
    if k == 'adt' and d['kind'] == 'struct':
        fs = d['variants'][0]['fields']
        if len(fs) == 1:
            return render(it, fs[0][1], v)
        if isinstance(v, tuple) and len(v) == len(fs):
            return '%s{%s}' % (d['str'].rsplit('::', 1)[-1], ', '.join('%s: %s' % (n, render(it, ft, x)) for (n, ft), x in zip(fs, v)))
    if k == 'adt' and d['kind'] == 'enum' and isinstance(v, Var_):
        if v.d >= len(d['variants']):
            return repr(v)
        va = d['variants'][v.d]
        n = va['name'].rsplit('::', 1)[-1]
        if not va['fields']:
            return n
        return '%s(%s)' % (n, ', '.join(render(it, ft, x) for (fn, ft), x in zip(va['fields'], v.fs)))
    if k == 'tuple' and isinstance(v, tuple) and len(v) == len(d['elems']):
        return '(%s)' % ', '.join(render(it, ft, x) for ft, x in zip(d['elems'], v))
    if isinstance(v, mpmath.mpf):
        return mpmath.nstr(v, 12)
    if k == 'ref':
        return render(it, d['elem'], v)
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, list):
        e = d.get('args') or [None]
        return '[%s]' % ', '.join(render(it, e[0], x) if e[0] is not None else repr(x) for x in v)
    return str(v)
