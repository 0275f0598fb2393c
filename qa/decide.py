"""Comparison of the summary of a library function with the summary of its reference function."""
import random
import time
from fractions import Fraction
from . import dates, interp, ground, theory
from .ground import Ground, Fail, NoValue, same, render
from .values import *

SPECIAL = [(1, 1), (1, 30), (1, 31), (2, 1), (2, 27), (2, 28), (2, 29), (3, 1), (3, 15), (3, 30), (3, 31), (4, 30), (5, 31), (6, 30), (8, 31), (9, 30), (11, 30), (12, 30), (12, 31)]


class Summary:
    """What a function computes: (condition, value) pairs, the conditions under which it panics, and
    the region left out by the loop bound."""

    def __init__(self, it, name, outs):
        self.name = name
        self.outs = outs
        self.given = None       # values of uninterpreted functions that are known
        self.obl = list(it.obl.values())
        self.cut = list(it.cutoffs)
        self.blocks = len(it.blocks_seen)
        self.functions = len(it.visited)
        self.visited = set(it.visited)
        self.dom = FALSE
        for pc, v in outs:
            self.dom = dor(self.dom, pc)

    def size(self):
        return sum(size(pc) for pc, v in self.outs)


class Inputs:
    """Abstract arguments shared by a library root and its reference."""

    def __init__(self, it, ylo=None, yhi=None):
        self.it = it
        self.over = {}
        self.given = None
        self.names = {}     # function -> names of its arguments, for a function that is not one of the roots
        self.care = TRUE
        self.dates = []
        self.ylo, self.yhi = ylo, yhi

    def arg(self, name, t):
        it = self.it
        if name in self.over:
            return self.over[name]
        d = it.ty(t)
        if it.is_date(d) or d['k'] == 'adt' and d['str'].endswith('date::Date'):
            lo = dates.MIN_YEAR if self.ylo is None else self.ylo
            hi = dates.MAX_YEAR if self.yhi is None else self.yhi
            v = term(dates.date_sym(('arg', name), lo, hi))
            if v.v not in self.dates:
                self.dates.append(v.v)
            return v if it.is_date(d) else Agg([v])
        return it.symbolic(t, ('arg', name, d['str']) if d['k'] in ('int', 'uint') else ('arg', name))

    def slice(self, name, vals, date=False):
        """A slice argument with the given elements (wrapped for the library when they are dates)."""
        self.over[name] = ('slice', vals, date)

    def build(self, root):
        it = self.it
        b = it.p.body(it.p.roots[root])
        frame, args = {}, []
        for i in range(b.argc):
            n, t = b.names.get(i + 1, 'arg%d' % i), b.locals[i + 1]
            if root in self.names:
                n = self.names[root][i]
            o = self.over.get(n)
            if isinstance(o, tuple) and o and o[0] == 'ref':
                frame[i] = o[1]
                args.append(Ptr((0, i)))
            elif isinstance(o, tuple) and o and o[0] == 'slice':
                et = it.ty(it.ty(it.ty(t)['elem'])['elem'])
                vals = o[1]
                if o[2] and not it.is_date(et):
                    vals = [Agg([v]) for v in vals]
                frame[i] = Agg(vals)
                args.append(Ptr((0, i), (), (0, len(vals))))
            else:
                args.append(self.arg(n, t))
        return interp.State(self.care, {0: frame}), args


def summarise(it, inputs, root):
    it.reset()
    st, args = inputs.build(root)
    outs = it.call(st, it.p.roots[root], args)
    S = Summary(it, root, [(s.pc, v) for s, v in outs])
    S.given = inputs.given
    return S


# ---------------------------------------------------------------------------------- difference
class Unknown(Exception):
    pass


def unwrap(v):
    while True:
        if isinstance(v, BoxV):
            v = v.v
        elif isinstance(v, Agg) and not isinstance(v, VecV) and len(v.fs) == 1:
            v = v.fs[0]
        else:
            return v


def differ(cond, a, b):
    """Condition (within cond) under which the two values may differ."""
    if cond is FALSE:
        return FALSE
    a, b = unwrap(a), unwrap(b)
    if a is UNDEF or b is UNDEF:
        if a is b:
            return FALSE
        raise Unknown('undefined value')
    if isinstance(a, (StrV,)) or isinstance(b, (StrV,)):
        return FALSE
    if isdd(a) and isdd(b):
        a, b = restrict(a, cond), restrict(b, cond)
        if a is b:
            return FALSE
        return dand(cond, bind2(a, b, NORMAL[0]))
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = dand(cond, bind2(restrict(a.d, cond), restrict(b.d, cond), NORMAL[0]))
        for k in set(a.vs) & set(b.vs):
            fa, fb = a.vs[k], b.vs[k]
            ck = dand(cond, dand(bind(a.d, lambda x: eq(x, L(k))), bind(b.d, lambda x: eq(x, L(k)))))
            if ck is FALSE:
                continue
            for x, y in zip(fa, fb):
                r = dor(r, differ(ck, x, y))
        return r
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.fs) != len(b.fs):
            if isinstance(a, VecV) and isinstance(b, VecV):
                return cond
            raise Unknown('values of different shapes')
        r = FALSE
        for x, y in zip(a.fs, b.fs):
            r = dor(r, differ(cond, x, y))
        return r
    if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
        return FALSE
    raise Unknown('%s compared with %s' % (type(a).__name__, type(b).__name__))


def leafdiff(x, y):
    if x is y:
        return FALSE
    if isinstance(x, Lin) and isinstance(y, Lin):
        return dnot(eq(x, y))
    if isinstance(x, F) and isinstance(y, F):
        if x.fp == y.fp:
            return FALSE
        return TRUE
    if isinstance(x, bool) and isinstance(y, bool):
        return bterm(x != y)
    return TRUE


NORMAL = [leafdiff]
SMALL = 31


def small_atoms(x):
    return [a for a, k in x.ts if a.table is None and a.hi - a.lo <= SMALL or a.table is not None and a.base.hi - a.base.lo <= SMALL]


def datepair(x):
    if len(x.ts) == 2:
        (a, p), (b, q) = x.ts
        return {p, q} == {1, -1} and a in dates.DATES and b in dates.DATES
    return False


_ge = {}


def ge0x(x):
    """x >= 0, decided separately for every value of the small finite atoms of x."""
    r = _ge.get(x)
    if r is None:
        if x.c in (0, -1) and datepair(x):
            (a, p), (b, q) = x.ts
            if True:
                # order of two dates, field by field
                if p < 0:
                    a, b = b, a
                out = bterm(x.c == 0)
                for k in ('day', 'month', 'year'):
                    df = sub(dates.field(k, LA(a)).v, dates.field(k, LA(b)).v)
                    g = ge0x(df)
                    out = ite(dand(g, ge0x(scale(df, -1))), out, g)
                _ge[x] = out
                return out
        s = small_atoms(x) if len(x.ts) > 1 and single_base(x) is None else []
        if not s:
            r = ge0(x)
        else:
            a = s[0]
            b = a.base if a.table is not None else a
            mine = [(q, k) for q, k in x.ts if q is b or q.table is not None and q.base is b]
            rest = x
            for q, k in mine:
                rest = sub(rest, LA(q, k))
            kids = []
            for i in range(int(b.hi) - int(b.lo) + 1):
                v = sum(k * (q.table[i] if q.table is not None else int(b.lo) + i) for q, k in mine)
                kids.append(ge0x(add(rest, L(v))))
            r = on_base(b, kids)
        _ge[x] = r
    return r


def normal(d, memo=None):
    """The same function with every condition and linear leaf spelled out over small finite atoms."""
    memo = {} if memo is None else memo
    r = memo.get(d.id)
    if r is not None:
        return r
    if d.leaf:
        r = d
        if isinstance(d.v, Lin) and len(d.v.ts) > 1:
            r = spread(d.v)
    else:
        kids = [normal(k, memo) for k in d.kids]
        fm = d.var.form
        if len(fm.ts) > 1 and (small_atoms(fm) or datepair(fm)) and single_base(fm) is None:
            r = kids[0]
            for c, k in zip(d.cuts, kids[1:]):
                r = ite(ge0x(add(fm, L(-c))), k, r)
        else:
            r = mux(d.var, d.cuts, kids)
    memo[d.id] = r
    return r


_spread = {}


def spread(x):
    r = _spread.get(x)
    if r is None:
        s = small_atoms(x) if len(x.ts) > 1 else []
        if not s:
            r = term(x)
        else:
            a = s[0]
            b = a.base if a.table is not None else a
            mine = [(q, k) for q, k in x.ts if q is b or q.table is not None and q.base is b]
            rest = x
            for q, k in mine:
                rest = sub(rest, LA(q, k))
            kids = [spread(add(rest, L(sum(k * (q.table[i] if q.table is not None else int(b.lo) + i) for q, k in mine)))) for i in range(int(b.hi) - int(b.lo) + 1)]
            r = on_base(b, kids)
        _spread[x] = r
    return r


def leafdiffn(cond):
    memo = {}

    def f(x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = sub(x, y)
            g = dor(ge0x(add(d, L(-1))), ge0x(add(scale(d, -1), L(-1))))
            return g
        return leafdiff(x, y)
    return f


# ---------------------------------------------------------------------------------- witnesses
class Picker:
    def __init__(self, rnd, ylo, yhi, ranks=(), seed=None):
        self.rnd = rnd
        self.ylo, self.yhi = ylo, yhi
        self.chosen = []
        x = Fraction(rnd.choice([-3, 0, 1, 2]))
        self.rank = {}
        for r in sorted(ranks):
            self.rank[r] = x
            x += Fraction(rnd.choice([1, 2, 3, 5, 7]), rnd.choice([1, 2, 3]))

    def __call__(self, a, g, lo, hi):
        rnd = self.rnd
        if isinstance(a, Sym):
            if a.rank is not None:
                return self.rank[a.rank]
            if g[1] == 'opaque_yield':
                return Fraction(rnd.choice([-1, 0, 1, 2, 3, 5]), 100)     # times are long where this one is used
            return Fraction(rnd.choice([-7, -3, -2, -1, 0, 1, 2, 3, 5, 11, 17]), rnd.choice([1, 1, 2, 3, 10]))
        if g[0] == 'D':
            v = self.date(lo, hi)
            self.chosen.append(v)
            return v
        c = [int(v) for v in (lo, hi, 0, 1, 2, 3, 5, 12, 29, 30, 31, 365, 2024, -1, -12, lo + 1, hi - 1) if v not in (INF, -INF) and lo <= v <= hi]
        if hi - lo <= 64:
            return rnd.randint(int(lo), int(hi))
        if rnd.random() < .5:
            return max(int(lo) if lo != -INF else -1000, min(int(hi) if hi != INF else 1000, rnd.randint(-40, 40)))
        return rnd.choice(c) if c else 0

    def date(self, lo, hi):
        rnd = self.rnd
        r = rnd.random()
        if self.chosen and r < .65:
            x = rnd.choice(self.chosen)
            k = rnd.random()
            if k < .3:
                v = x + rnd.randint(-3, 3)
            elif k < .5:
                v = x + rnd.randint(-70, 70)
            elif k < .65:
                v = x + rnd.randint(-800, 800)
            else:
                y, m, d = dates.civil(max(dates.MIN_D, min(dates.MAX_D, x)))
                t = y * 12 + m - 1 + rnd.choice([-12, -6, -3, -1, 1, 2, 3, 6, 7, 9, 12, 13, 18, 24])
                y, m = t // 12, t % 12 + 1
                d = rnd.choice([d, d, 28, 30, 31, 1, 15])
                v = dates.daynum(y, m, min(d, dates.dim_c(y, m)))
        elif r < .02 + .65 and lo != -INF:
            v = rnd.choice([lo, hi, lo + 1, hi - 1])
        else:
            y = rnd.choice([1900, 1999, 2000, 2023, 2024, 2024, 2025, 2100, rnd.randint(self.ylo, self.yhi)])
            m, d = rnd.choice(SPECIAL) if rnd.random() < .7 else (rnd.randint(1, 12), rnd.randint(1, 28))
            v = dates.daynum(y, m, min(d, dates.dim_c(y, m)))
        return int(max(lo, min(hi, v)))


class Witness:
    pass


def evaluate(g, S):
    """Outcome of the summary at the point: ('value', v), ('panic', obligation), ('cut', None) or None."""
    for pc, v in S.outs:
        if g.dd(pc):
            return 'value', g.value(v)
    for o in S.obl:
        if g.dd(o.pc):
            return 'panic', o
    for c in S.cut:
        if g.dd(c[2]):
            return 'cut', None
    return None, None


def search(region, I, S, budget, ylo, yhi, ranks=(), seed=None, salt=''):
    """A point of region at which the two summaries have different outcomes."""
    rnd = random.Random('w' + I.name + salt)
    t0 = time.time()
    n = hits = defined = infinite = 0
    why = None
    while time.time() - t0 < budget:
        n += 1
        p = Picker(rnd, ylo, yhi, ranks)
        g = Ground(p, I.given)
        if seed is not None:
            for k, v in seed(rnd).items():
                g.base[k] = v
                if k[0] == 'D':
                    p.chosen.append(v)
        try:
            if not g.steer(region, rnd):
                continue
            hits += 1
            ks, vs = evaluate(g, S)
            if ks != 'value':
                continue
            try:
                ki, vi = evaluate(g, I)
                defined += 1
            except NoValue as e:
                infinite += 1
                if infinite < 60 or defined:
                    why = e
                    continue
                ki, vi = 'infinite', None
        except Fail as e:
            why = e
            continue
        if ki in ('panic', 'infinite') or ki == 'value' and not same(vi, vs):
            w = Witness()
            w.g, w.ki, w.vi, w.vs = g, ki, vi, vs
            return w, n, hits
    return None, n, hits


def point(g):
    """The inputs and values of uninterpreted functions of a point, spelled out."""
    parts = []
    for k, v in sorted(g.base.items(), key=lambda kv: str(kv[0])):
        t = v
        if k[0] == 'D':
            v = '%04d-%02d-%02d' % dates.civil(v)
            k = k[1]
        if isinstance(k, tuple) and k and k[0] == 'g':
            k = k[1:]
        if isinstance(k, tuple) and k and k[0] == 'arg':
            lab = ''.join(str(x) if str(x).startswith('.') or str(x).startswith('[') or i == 0 else '.' + str(x) for i, x in enumerate(k[1:2]))
        elif isinstance(k, tuple) and k and k[0] == 'sym':
            lab = k[1]
        elif isinstance(k, tuple) and k and str(k[0]).startswith('opaque_'):
            lab = OPAQUE.get(k[0], k[0]) + '(%s)' % ', '.join(garg(x) for x in k[1:] if not (isinstance(x, str) and (x.startswith('Some') or x.startswith('Ok') or x.startswith('.') or x in ('variant',))))
            if k[-1] == 'variant':
                lab += ' outcome'
        else:
            lab = str(k)
        parts.append('%s = %s' % (lab, v))
    return ', '.join(parts) or 'every input'


def panic_point(pc, I, budget, ylo, yhi, ranks=(), seed=None, failing=()):
    """A point at which the condition of a panic site holds and the given date steps leave the supported range."""
    rnd = random.Random('p' + I.name)
    t0 = time.time()
    while time.time() - t0 < budget:
        p = Picker(rnd, ylo, yhi, ranks)
        g = Ground(p, I.given)
        if seed is not None:
            for k, v in seed(rnd).items():
                g.base[k] = v
                if k[0] == 'D':
                    p.chosen.append(v)
        try:
            if g.steer(pc, rnd) and evaluate(g, I)[0] == 'panic' and all(leaves(g, k) for k in failing):
                return g
        except Fail:
            continue
    return None


def leaves(g, key):
    """The date step has no result in the supported range."""
    try:
        x = g.lin(key[1])
        if key[0] == 'WR':
            w = (x + 6) % 7
            return x + (7 - w if w > 4 else 0) > dates.MAX_D
        y, m, d = dates.civil(x)
        t = y * 12 + m - 1 + g.lin(key[2])
        return not dates.MIN_YEAR <= t // 12 <= dates.MAX_YEAR
    except Fail:
        return False


def fails(o):
    return ('never returns (%s at %s)' if o.kind == 'endless loop' else 'panics (%s at %s)') % (o.kind, o.span)


def describe(it, I, w, ret, names):
    imp = 'divides by zero and has no finite value' if w.ki == 'infinite' else fails(w.vi) if w.ki == 'panic' else 'gives %s' % render(it, ret, w.vi)
    return 'for %s it %s where the property demands %s' % (point(w.g), imp, names)


SPELL = {False: 60, True: 300}      # seconds for spelling a condition out
PHASE = {False: 90, True: 600}      # seconds for each other phase
NODES = 5000000


class limit:
    def __init__(self, seconds, nodes):
        self.args = seconds, nodes

    def __enter__(self):
        limited(*self.args)

    def __exit__(self, *a):
        limited(None)


def difference(I, S):
    """Condition under which the library panics or its result differs, where the reference is defined."""
    region = FALSE
    for o in I.obl:
        region = dor(region, dand(o.pc, S.dom))
    for pi, vi in I.outs:
        for ps, vs in S.outs:
            cnd = dand(pi, ps)
            if cnd is not FALSE:
                region = dor(region, differ(cnd, vi, vs))
    return region


OPAQUE = {'opaque_qbiz': 'business_day', 'opaque_nbiz': 'business_day', 'opaque_period': 'date_plus_period', 'opaque_dcf': 'year_fraction',
          'opaque_fit': 'fit', 'opaque_value': 'interpolated_yield', 'opaque_yield': 'yield_at'}


def garg(x):
    if isinstance(x, int) and x > 100000:
        try:
            return '%04d-%02d-%02d' % dates.civil(x)
        except Exception:
            return str(x)
    return str(x)


def span_of(it, I):
    """Library functions the summary was extracted from."""
    out = []
    for i in I.visited:
        f = it.p.fns[i]
        if f['crate'] in interp.LOCAL:
            out.append('%s (%s)' % (f['name'], f.get('span', '?')))
    return out


def respell(I, S):
    NORMAL[0] = leafdiffn(None)
    try:
        r = FALSE
        for o in I.obl:
            r = dor(r, dand(normal(o.pc), normal(S.dom)))
        for pi, vi in I.outs:
            for ps, vs in S.outs:
                cnd = normal(dand(pi, ps))
                if cnd is not FALSE:
                    r = dor(r, normal(differ(cnd, vi, vs)))
    finally:
        NORMAL[0] = leafdiff
    return r


def compare(c, it, inputs, root, spec, what, ylo=1900, yhi=2200, ranks=(), seed=None, budget=None, known=None, panics=True, key=None, quiet=False):
    """Decide one obligation: root computes what spec computes wherever spec is defined.
    `known`: (spec root, finding key) of a recorded deviation."""
    key = key or root
    budget = budget if budget is not None else (20 if c.thorough else 6)
    I = S = None
    region = None
    side = 'library'
    try:
        with limit(PHASE[c.thorough], NODES):
            I = summarise(it, inputs, root)
        side = 'reference'
        with limit(PHASE[c.thorough], NODES):
            S = summarise(it, inputs, spec)
        side = 'comparison'
        with limit(PHASE[c.thorough], NODES):
            region = difference(I, S)
            region = theory.prune(region)
    except (Unsupported, Incompat, Split, Unknown, RecursionError) as e:
        why = '%s: %s %s' % (side, type(e).__name__, e)
        if S is None or not I.outs and not I.obl:
            c.undecided(what, why)
            return None
    ret = it.p.body(it.p.roots[root]).locals[0]
    rets = it.p.body(it.p.roots[spec]).locals[0]
    w = None
    n = hits = 0
    coarse = region is None
    if coarse:
        # no diagram of the difference: the two terms are only compared point by point
        region = S.dom
    if region is not FALSE:
        w, n, hits = search(region, I, S, 3 * budget if coarse else min(budget, 2), ylo, yhi, ranks, seed)
    if region is not FALSE and w is None and not coarse:
        # decide again with everything spelled out over the small finite atoms
        try:
            with limit(SPELL[c.thorough], NODES):
                r2 = dand(normal(region), respell(I, S))
                if r2 is not FALSE and inputs.dates:
                    r2 = dand(r2, normal(dates.axioms(inputs.dates)))
                region = theory.prune(r2)
        except Unsupported:
            pass
    missing = FALSE
    if region is FALSE:
        try:
            with limit(PHASE[c.thorough], NODES):
                missing = dand(S.dom, dnot(I.dom))
                for o in I.obl:
                    missing = dand(missing, dnot(o.pc))
                for k in I.cut:
                    missing = dand(missing, dnot(k[2]))
                missing = theory.prune(missing)
        except Unsupported:
            missing = TRUE
    stat = dict(root=root, paths=len(I.outs), blocks=I.blocks, functions=I.functions, diagram_nodes=I.size(), open_panics=len(I.obl), loop_bound_reached=bool(I.cut))
    if region is FALSE:
        if missing is not FALSE:
            c.undecided(what, 'no outcome on part of the domain')
            stat['verdict'] = 'undecided'
        else:
            stat['verdict'] = 'equal'
            c.proved += 1
        if not quiet:
            c.unit(what, **stat)
        return stat['verdict']
    import os
    if os.environ.get('DBG'):
        print('REGION', what, show(region)[:1500], [(o, show(dand(o.pc, S.dom))[:200]) for o in I.obl])
    if w is None and not coarse:
        w, n, hits = search(region, I, S, budget, ylo, yhi, ranks, seed, 'second')
    stat['points_tried'] = n
    stat['points_in_region'] = hits
    if w is None:
        stat['verdict'] = 'undecided'
        c.undecided(what, why if coarse else 'the extracted terms differ but none of %d points exhibits it (%d in the region)' % (n, hits))
    else:
        stat['verdict'] = 'differs'
        vkey_ = key
        if known is not None:
            try:
                K = summarise(it, inputs, known[0])
                reg2 = difference(I, K)
                if reg2 is FALSE or search(reg2, I, K, budget, ylo, yhi, ranks, seed, 'k')[0] is None:
                    vkey_ = known[1]
                    stat['verdict'] = 'known deviation'
            except (Unsupported, Incompat, Split, Unknown):
                pass
        fns = span_of(it, I)
        c.violation(vkey_, '%s [%s]: %s. Functions on the path: %s' % (what, root[2:], describe(it, I, w, ret, render(it, rets, w.vs)), '; '.join(sorted(fns)[:6])))
    if not quiet:
        c.unit(what, **stat)
    return stat['verdict']
