"""Interval decision diagrams over integer-valued linear forms, with arbitrary leaves.

A variable is a primitive linear form without constant (or a single atom, e.g. the four-valued
outcome of a float comparison); a node cuts its range into intervals.  Ordered, reduced and
hash-consed, so equal functions of the variables are the same object.
"""
import time
from math import gcd, floor
from .terms import *


class Var:
    __slots__ = ('form', 'ord', 'lo', 'hi', 'id')
    tab = {}
    all = []

    def __repr__(self):
        return '[%r]' % (self.form,)


def var_of(form):
    v = Var.tab.get(form)
    if v is None:
        v = Var()
        v.form = form
        v.id = len(Var.all)
        v.lo, v.hi = rng(form)
        pr = min(a.prio for a, k in form.ts) if len(form.ts) == 1 else max(a.prio for a, k in form.ts)
        v.ord = (pr, v.id)
        Var.tab[form] = v
        Var.all.append(v)
    return v


class T:
    __slots__ = ('v', 'id')
    leaf = True

    def __repr__(self):
        return '<%r>' % (self.v,)


class N:
    __slots__ = ('var', 'cuts', 'kids', 'id', 'size')
    leaf = False

    def __repr__(self):
        return show(self)


_t = {}
_n = {}
_cnt = [0]


def term(v):
    r = _t.get(v)
    if r is None:
        r = T()
        r.v = v
        _cnt[0] += 1
        r.id = _cnt[0]
        _t[v] = r
    return r


GUARD = [None, None]        # deadline (time.time()) and greatest number of nodes


def guard():
    if GUARD[0] is not None and time.time() > GUARD[0]:
        raise Unsupported('out of time')
    if GUARD[1] is not None and _cnt[0] > GUARD[1]:
        raise Unsupported('diagram too large')


def limited(seconds, nodes=None):
    GUARD[0] = None if seconds is None else time.time() + seconds
    GUARD[1] = None if nodes is None else _cnt[0] + nodes


SUMS = [False]      # write sums of 0/1 atoms as linear terms instead of diagrams


def sums():
    """Keep counts of uninterpreted business days linear (call before anything is analysed)."""
    from . import terms
    SUMS[0] = True
    terms.PRIO['opaque_nbiz'] = 50


def mk(var, cuts, kids):
    """cuts c1<..<cm; kid i covers [c_i, c_{i+1}) with c_0=-inf, c_{m+1}=inf."""
    c2, k2 = [], [kids[0]]
    for c, k in zip(cuts, kids[1:]):
        if k is not k2[-1]:
            if c <= var.lo:
                k2[-1] = k
                continue
            if c > var.hi:
                break
            c2.append(c)
            k2.append(k)
    if len(k2) == 1:
        return k2[0]
    if SUMS[0] and len(k2) == 2 and c2[0] == 1 and k2[0].leaf and k2[1].leaf and isinstance(k2[0].v, Lin) and isinstance(k2[1].v, Lin):
        if len(var.form.ts) == 1 and var.form.ts[0][0].key[0] == 'opaque_nbiz':
            d = sub(k2[1].v, k2[0].v)
            if not d.ts:
                return term(add(k2[0].v, scale(var.form, d.c)))
    key = (var.id, tuple(c2), tuple(k.id for k in k2))
    r = _n.get(key)
    if r is None:
        r = N()
        r.var, r.cuts, r.kids = var, key[1], tuple(k2)
        _cnt[0] += 1
        r.id = _cnt[0]
        _n[key] = r
        if r.id & 4095 == 0:
            guard()
    return r


TRUE = term(True)
FALSE = term(False)


def bterm(b):
    return TRUE if b else FALSE


def cofactor(d, var, point):
    """d at the interval containing point (cuts of d must not split it)."""
    if d.leaf or d.var is not var:
        return d
    i = 0
    for c in d.cuts:
        if point >= c:
            i += 1
        else:
            break
    return d.kids[i]


_mux = {}


def mux(var, cuts, kids):
    """Like mk, but the kids may mention variables above var."""
    top = None
    for k in kids:
        if not k.leaf and (top is None or k.var.ord < top.ord):
            top = k.var
    if top is None or var.ord < top.ord:
        return mk(var, cuts, kids)
    key = (var.id, tuple(cuts), tuple(k.id for k in kids))
    r = _mux.get(key)
    if r is not None:
        return r
    if top is var:
        allc = sorted(set(cuts).union(*[k.cuts for k in kids if not k.leaf and k.var is var]))
        out = []
        for p in [-INF] + allc:
            i = 0
            for c in cuts:
                if p >= c:
                    i += 1
                else:
                    break
            out.append(cofactor(kids[i], var, p))
        r = mk(var, allc, out)
    else:
        allc = sorted(set().union(*[k.cuts for k in kids if not k.leaf and k.var is top]))
        out = [mux(var, cuts, [cofactor(k, top, p) for k in kids]) for p in [-INF] + allc]
        r = mk(top, allc, out)
    _mux[key] = r
    return r


def bind(d, f, memo=None):
    """Replace every leaf v by the diagram f(v)."""
    if memo is None:
        memo = {}
    r = memo.get(d.id)
    if r is not None:
        return r
    if d.leaf:
        r = f(d.v)
    else:
        r = mux(d.var, d.cuts, [bind(k, f, memo) for k in d.kids])
    memo[d.id] = r
    return r


def fmap(d, f):
    return bind(d, lambda v: term(f(v)))


_ap = {}


def bind2(a, b, f, memo=None, under=None):
    """f(va, vb) -> diagram, for every pair of leaves."""
    if memo is None:
        memo = {}
    key = (a.id, b.id)
    r = memo.get(key)
    if r is not None:
        return r
    if a.leaf and b.leaf:
        r = f(a.v, b.v)
    else:
        if a.leaf:
            top = b.var
        elif b.leaf or a.var.ord <= b.var.ord:
            top = a.var
        else:
            top = b.var
        ca = a.cuts if not a.leaf and a.var is top else ()
        cb = b.cuts if not b.leaf and b.var is top else ()
        if not cb:
            allc = ca
        elif not ca:
            allc = cb
        else:
            allc = sorted(set(ca) | set(cb))
        kids = []
        for p in (-INF,) + tuple(allc):
            kids.append(bind2(cofactor(a, top, p), cofactor(b, top, p), f, memo))
        r = mux(top, allc, kids)
    memo[key] = r
    return r


_and = {}


def dand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _and.get(key)
    if r is None:
        r = _and[key] = _step(a, b, dand)
    return r


_or = {}


def dor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _or.get(key)
    if r is None:
        r = _or[key] = _step(a, b, dor)
    return r


def _step(a, b, op):
    top = a.var if (not a.leaf and (b.leaf or a.var.ord <= b.var.ord)) else b.var
    ca = a.cuts if not a.leaf and a.var is top else ()
    cb = b.cuts if not b.leaf and b.var is top else ()
    allc = ca if not cb else cb if not ca else tuple(sorted(set(ca) | set(cb)))
    return mk(top, allc, [op(cofactor(a, top, p), cofactor(b, top, p)) for p in (-INF,) + tuple(allc)])


_not = {}


def dnot(a):
    r = _not.get(a.id)
    if r is None:
        if a.leaf:
            r = bterm(not a.v)
        else:
            r = mk(a.var, a.cuts, [dnot(k) for k in a.kids])
        _not[a.id] = r
    return r


_ite = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _ite.get(key)
    if r is not None:
        return r
    top = c.var
    for x in (a, b):
        if not x.leaf and x.var.ord < top.ord:
            top = x.var
    cs = set()
    for x in (c, a, b):
        if not x.leaf and x.var is top:
            cs.update(x.cuts)
    allc = tuple(sorted(cs))
    r = mk(top, allc, [ite(cofactor(c, top, p), cofactor(a, top, p), cofactor(b, top, p)) for p in (-INF,) + allc])
    _ite[key] = r
    return r


_rs = {}


def restrict(f, care):
    """Some g with g == f wherever care holds, usually smaller."""
    if care is TRUE or f.leaf or care is FALSE:
        return f
    key = (f.id, care.id)
    r = _rs.get(key)
    if r is not None:
        return r
    if care.var.ord < f.var.ord:
        # quantify out the variable of care
        g = FALSE
        for k in care.kids:
            g = dor(g, k)
        r = restrict(f, g)
    else:
        top = f.var
        cb = care.cuts if care.var is top else ()
        allc = tuple(sorted(set(f.cuts) | set(cb)))
        kids = []
        for p in (-INF,) + allc:
            cc = cofactor(care, top, p)
            kids.append(None if cc is FALSE else restrict(cofactor(f, top, p), cc))
        # out-of-care intervals copy a neighbour
        last = None
        for i in range(len(kids)):
            if kids[i] is None:
                kids[i] = last
            else:
                last = kids[i]
        nxt = None
        for i in range(len(kids) - 1, -1, -1):
            if kids[i] is None:
                kids[i] = nxt
            else:
                nxt = kids[i]
        if kids[0] is None:
            r = f
        else:
            r = mk(top, allc, kids)
    _rs[key] = r
    return r


# ---------------------------------------------------------------------------------- conditions
def ge0(x):
    """Diagram of: linear form x >= 0."""
    lo, hi = rng(x)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    b = single_base(x)
    if b is not None:
        return on_base(b, [v >= 0 for v in values_on(x, b)])
    g = 0
    for a, k in x.ts:
        g = gcd(g, abs(k))
    sgn = 1 if x.ts[0][1] > 0 else -1
    form = lin(0, tuple((a, sgn * k // g) for a, k in x.ts))
    v = var_of(form)
    # sgn*g*form + c >= 0
    if sgn > 0:
        return mk(v, (-(x.c // g),), (FALSE, TRUE))
    # form <= c/g
    return mk(v, (x.c // g + 1,), (TRUE, FALSE))


def on_base(b, bits):
    """Diagram on the finite atom b whose value at lo+i is bits[i]."""
    lo = int(b.lo)
    cuts, kids = [], [bterm(bits[0]) if isinstance(bits[0], bool) else bits[0]]
    for i in range(1, len(bits)):
        k = bterm(bits[i]) if isinstance(bits[i], bool) else bits[i]
        if k is not kids[-1]:
            cuts.append(lo + i)
            kids.append(k)
    return mux(var_of(LA(b)), tuple(cuts), kids)


def eq0(x):
    if not x.ts:
        return bterm(x.c == 0)
    lo, hi = rng(x)
    if lo > 0 or hi < 0:
        return FALSE
    b = single_base(x)
    if b is not None:
        return on_base(b, [v == 0 for v in values_on(x, b)])
    g = 0
    for a, k in x.ts:
        g = gcd(g, abs(k))
    if x.c % g:
        return FALSE
    sgn = 1 if x.ts[0][1] > 0 else -1
    form = lin(0, tuple((a, sgn * k // g) for a, k in x.ts))
    p = -x.c // g * sgn if sgn > 0 else x.c // g
    if sgn > 0:
        p = -(x.c // g)
    return mk(var_of(form), (p, p + 1), (FALSE, TRUE, FALSE))


def le(x, y):
    return ge0(sub(y, x))


def lt(x, y):
    return ge0(add(sub(y, x), L(-1)))


def eq(x, y):
    return eq0(sub(x, y))


# ------------------------------------------------------------------------------------ inspection
def leaves(d, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if d.id in seen:
        return acc
    seen.add(d.id)
    if d.leaf:
        acc.add(d.v)
    else:
        for k in d.kids:
            leaves(k, acc, seen)
    return acc


def size(d, seen=None):
    seen = set() if seen is None else seen
    if d.id in seen:
        return 0
    seen.add(d.id)
    return 1 if d.leaf else 1 + sum(size(k, seen) for k in d.kids)


def vars_of(d, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if d.id in seen:
        return acc
    seen.add(d.id)
    if not d.leaf:
        acc.add(d.var)
        for k in d.kids:
            vars_of(k, acc, seen)
    return acc


def iv(var, lo, hi):
    lo = max(lo, var.lo)
    hi = min(hi, var.hi)
    if lo == hi:
        return '%r = %s' % (var.form, lo)
    if lo == var.lo:
        return '%r <= %s' % (var.form, hi)
    if hi == var.hi:
        return '%r >= %s' % (var.form, lo)
    return '%s <= %r <= %s' % (lo, var.form, hi)


def cubes(d, want=TRUE):
    """Paths to the leaf `want`, each a list of (var, lo, hi)."""
    path = []

    def go(d):
        if d.leaf:
            if d is want:
                yield list(path)
            return
        n = len(d.kids)
        for i, k in enumerate(d.kids):
            if k.leaf and k is not want:
                continue
            lo = d.cuts[i - 1] if i > 0 else -INF
            hi = d.cuts[i] - 1 if i < n - 1 else INF
            path.append((d.var, max(lo, d.var.lo), min(hi, d.var.hi)))
            yield from go(k)
            path.pop()
    yield from go(d)


def show(d, limit=6):
    if d.leaf:
        return repr(d.v)
    out = []
    for want in list(leaves(d))[:8]:
        for i, c in enumerate(cubes(d, term(want))):
            if i >= limit:
                out.append('...')
                break
            out.append('%s if %s' % (want, ' and '.join(iv(*x) for x in c)))
    return '; '.join(out)
