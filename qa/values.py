"""Structured abstract values: trees whose leaves are decision diagrams."""
from .dd import *


class Incompat(Exception):
    """Two values have different shapes: the states holding them are kept apart."""


class Split(Exception):
    """The current block must be analysed separately for each leaf of the diagram."""

    def __init__(self, dd):
        self.dd = dd


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('fs', 'ty')

    def __init__(self, fs, ty=None):
        self.fs = tuple(fs)
        self.ty = ty        # closures: type index

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.fs))


class VecV(Agg):
    __slots__ = ()

    def __init__(self, fs):
        self.fs = tuple(fs)
        self.ty = None

    def __repr__(self):
        return 'vec[%s]' % ', '.join(map(repr, self.fs))


class MatV:
    """nalgebra matrix, column major."""
    __slots__ = ('r', 'c', 'fs')

    def __init__(self, r, c, fs):
        self.r, self.c, self.fs = r, c, tuple(fs)

    def __repr__(self):
        return 'mat%dx%d%r' % (self.r, self.c, self.fs)


class Enum:
    __slots__ = ('d', 'vs')

    def __init__(self, d, vs):
        self.d = d
        self.vs = vs

    def __repr__(self):
        return 'enum{%s: %r}' % (show(self.d) if isinstance(self.d, (T, N)) else self.d, self.vs)


class BoxV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ptr:
    __slots__ = ('key', 'path', 'meta')

    def __init__(self, key, path=(), meta=None):
        self.key, self.path, self.meta = key, path, meta

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key == o.key and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.key, self.path, self.meta))

    def __repr__(self):
        return '&%r%r%s' % (self.key, self.path, self.meta or '')


class StrV:
    __slots__ = ('key',)

    def __init__(self, key=None):
        self.key = key

    def __repr__(self):
        return 'str(%s)' % (self.key,)


STR = StrV()


class FnV:
    __slots__ = ('idx',)

    def __init__(self, idx):
        self.idx = idx

    def __eq__(self, o):
        return isinstance(o, FnV) and o.idx == self.idx

    def __hash__(self):
        return hash(('fn', self.idx))


class OpaqueV:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'opaque(%s)' % self.why


class NIter:
    """A native iterator over already computed items."""
    __slots__ = ('items', 'i', 'j')

    def __init__(self, items, i=0, j=None):
        self.items = items
        self.i = i
        self.j = len(items) if j is None else j

    def __repr__(self):
        return 'iter[%d..%d]' % (self.i, self.j)


def isdd(v):
    return isinstance(v, (T, N))


def combine(dd, m):
    """The value that equals m[leaf] wherever dd evaluates to leaf."""
    if dd.leaf:
        return m[dd.v]
    vals = [v for v in m.values() if v is not UNDEF]
    if not vals:
        return UNDEF
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if isdd(v0):
        if not all(isdd(v) for v in vals):
            raise Incompat()
        fill = v0
        return bind(dd, lambda l: fill if m[l] is UNDEF else m[l])
    t = type(v0)
    if not all(type(v) is t for v in vals):
        raise Incompat()
    if isinstance(v0, Agg):
        n = len(v0.fs)
        if any(len(v.fs) != n or v.ty != v0.ty for v in vals):
            if t is VecV or any(v.ty != v0.ty for v in vals):
                raise Incompat()
            n = max(len(v.fs) for v in vals)
        fs = []
        for i in range(n):
            fs.append(combine(dd, {l: (UNDEF if v is UNDEF or i >= len(v.fs) else v.fs[i]) for l, v in m.items()}))
        r = t.__new__(t)
        r.fs, r.ty = tuple(fs), v0.ty
        return r
    if t is MatV:
        if any((v.r, v.c) != (v0.r, v0.c) for v in vals):
            raise Incompat()
        return MatV(v0.r, v0.c, [combine(dd, {l: (UNDEF if v is UNDEF else v.fs[i]) for l, v in m.items()}) for i in range(len(v0.fs))])
    if t is Enum:
        d = combine(dd, {l: (UNDEF if v is UNDEF else v.d) for l, v in m.items()})
        ks = set()
        for v in vals:
            ks.update(v.vs)
        vs = {}
        for k in ks:
            n = max(len(v.vs.get(k, ())) for v in vals)
            fs = []
            for i in range(n):
                fs.append(combine(dd, {l: (v.vs[k][i] if v is not UNDEF and k in v.vs and i < len(v.vs[k]) else UNDEF) for l, v in m.items()}))
            vs[k] = tuple(fs)
        return Enum(d, vs)
    if t is BoxV:
        return BoxV(combine(dd, {l: (UNDEF if v is UNDEF else v.v) for l, v in m.items()}))
    if t is StrV:
        return v0 if all(v.key == v0.key for v in vals) else STR
    if t is OpaqueV:
        return v0
    if t is NIter:
        if any(v.i != v0.i or v.j != v0.j or len(v.items) != len(v0.items) for v in vals):
            raise Incompat()
        if all(v.items is v0.items or v.items == v0.items for v in vals):
            return v0
        return NIter(tuple(combine(dd, {l: (UNDEF if v is UNDEF else v.items[i]) for l, v in m.items()}) for i in range(len(v0.items))), v0.i, v0.j)
    if all(v == v0 for v in vals):
        return v0
    raise Incompat()


def vbind(dd, f):
    if dd.leaf:
        return f(dd.v)
    return combine(dd, {l: f(l) for l in leaves(dd)})


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isdd(a) and isdd(b):
        return ite(c, a, b)
    return combine(c, {True: a, False: b})


DDS = {}        # diagrams that occur in keys


def vkey(v):
    """Hashable identity of a value (used as argument of uninterpreted functions)."""
    if isdd(v):
        if v.leaf:
            x = v.v
            return x if not isinstance(x, F) else ('F', x.fp, x.err if not isinstance(x.err, tuple) else None)
        DDS[v.id] = v
        return ('dd', v.id)
    if isinstance(v, Agg):
        return tuple(vkey(x) for x in v.fs)
    if isinstance(v, Enum):
        return ('enum', vkey(v.d), tuple(sorted((k, tuple(vkey(x) for x in f)) for k, f in v.vs.items())))
    if isinstance(v, StrV):
        return 'str'
    if v is UNDEF:
        return 'undef'
    if isinstance(v, BoxV):
        return vkey(v.v)
    return ('obj', repr(v))


def remainder(x):
    """(r, k, q, c) when x = q*r + c and r is a remainder modulo a small k."""
    for a, p in x.ts:
        if a.key[0] == 'fdiv' and a.table is None and a.key[2] <= 400 and p % a.key[2] == 0:
            k, q = a.key[2], -p // a.key[2]
            r = sub(a.key[1], scale(LA(a), k))
            c = sub(x, scale(r, q))
            if not c.ts:
                return r, k, q, c.c
    return None


def expand(dd, n=0):
    """All leaves constant, when the symbolic ones range over a finite base or are known to lie in 0..n-1."""
    def g(x):
        if isinstance(x, Lin) and x.ts:
            b = single_base(x)
            if b is None:
                m = remainder(x)
                if m is not None:
                    r, k, q, c = m
                    out = term(L(q * (k - 1) + c))
                    for v in range(k - 2, -1, -1):
                        out = ite(eq(r, L(v)), term(L(q * v + c)), out)
                    return out
                if 0 < n <= 64:
                    out = term(L(n - 1))
                    for v in range(n - 2, -1, -1):
                        out = ite(eq(x, L(v)), term(L(v)), out)
                    return out
                raise Unsupported('unbounded value %r used as an index' % (x,))
            return on_base(b, [term(L(v)) for v in values_on(x, b)])
        return term(x)
    if dd.leaf and (not isinstance(dd.v, Lin) or not dd.v.ts):
        return dd
    return bind(dd, g)


# Option / Result / Ordering helpers
def none():
    return Enum(term(L(0)), {0: ()})


def some(v):
    return Enum(term(L(1)), {1: (v,)})


def opt(c, v):
    """Some(v) where c holds, None elsewhere."""
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return none()
    return Enum(ite(c, term(L(1)), term(L(0))), {0: (), 1: (v,)})


def unit():
    return Agg(())


def okv(v):
    return Enum(term(L(0)), {0: (v,)})


def ordering(d):
    """From a diagram with leaves -1/0/1 to core::cmp::Ordering (variants Less, Equal, Greater)."""
    return Enum(bind(d, lambda x: term(add(x, L(1)))), {0: (), 1: (), 2: ()})
