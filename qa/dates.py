"""Abstract model of proleptic Gregorian dates (the documented behaviour of chrono::NaiveDate).

A date is a linear form: its day number (1 = 0001-01-01).  Calendar fields of a symbolic date are
atoms; building a date from fields yields the day number relative to the date the fields came from,
so the same date reached in different ways is the same term.
"""
from .dd import *
import datetime

MIN_YEAR, MAX_YEAR = -262143, 262142
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim_c(y, m):
    return (29 if is_leap(y) else 28) if m == 2 else 30 if m in (4, 6, 9, 11) else 31


def daynum(y, m, d):
    return days_before_year(y) + CUM[m - 1] + (1 if m > 2 and is_leap(y) else 0) + d


def civil(n):
    y = (n * 400) // 146097 + 1
    while days_before_year(y) >= n:
        y -= 1
    while days_before_year(y + 1) < n:
        y += 1
    o = n - days_before_year(y)
    m = 1
    while o > dim_c(y, m):
        o -= dim_c(y, m)
        m += 1
    return y, m, o


MIN_D = daynum(MIN_YEAR, 1, 1)
MAX_D = daynum(MAX_YEAR, 12, 31)

DATES = {}       # atom -> (ylo, yhi)
LEX = set()      # date atoms compared field by field


def date_sym(name, ylo=MIN_YEAR, yhi=MAX_YEAR, lex=False):
    a = atom(('D', name, ylo, yhi), daynum(ylo, 1, 1), daynum(yhi, 12, 31))
    DATES[a] = (ylo, yhi)
    if lex:
        LEX.add(a)
    return LA(a)


def yrange(x):
    lo, hi = rng(x)
    if lo == -INF or hi == INF:
        return MIN_YEAR, MAX_YEAR
    return max(civil(int(max(lo, MIN_D)))[0], MIN_YEAR), min(civil(int(min(hi, MAX_D)))[0], MAX_YEAR)


def split_const(x):
    return lin(0, x.ts), x.c


def field(kind, x):
    """Diagram for a calendar field of the date with day number x (a linear form)."""
    if not x.ts:
        y, m, d = civil(x.c)
        return term(L({'year': y, 'month': m, 'day': d, 'ordinal': x.c - days_before_year(y), 'weekday': (x.c + 6) % 7}[kind]))
    if kind == 'weekday':
        b, c = split_const(x)
        # day number n: weekday from Monday = (n + 6) % 7 ; remove multiples of 7 of atoms
        b2 = lin(0, tuple((a, k) for a, k in b.ts if k % 7))
        if not b2.ts:
            return term(L((c + 6) % 7))
        a = atom(('weekday', b2), 0, 6)
        if c % 7 == 0:
            return term(LA(a))
        v = var_of(LA(a))
        return mk(v, tuple(range(1, 7)), [term(L((w + c) % 7)) for w in range(7)])
    p = in_month(x)
    if p is not None and kind in ('year', 'month', 'day'):
        return p[('year', 'month', 'day').index(kind)]
    p = parts(x)
    if p is not None:
        if kind in ('year', 'month', 'day'):
            return p[('year', 'month', 'day').index(kind)]
    if kind == 'year':
        lo, hi = yrange(x)
        return term(LA(atom(('year', x), lo, hi)))
    lo, hi = {'month': (1, 12), 'day': (1, 31), 'ordinal': (1, 366)}[kind]
    return term(LA(atom((kind, x), lo, hi)))


def in_month(x):
    """Fields of b - day(b) + c, the c-th day of the month of the date b."""
    for a, k in x.ts:
        if k == -1 and a.key[0] == 'day':
            b = a.key[1]
            c = add(sub(x, b), LA(a))
            if c.ts or not 1 <= c.c <= 31:
                continue
            y, m = field('year', b), field('month', b)
            d = term(c)
            if c.c <= 28:
                return y, m, d

            def split(f, g):
                return bind(y, lambda yv: bind(m, lambda mv: bind(dim(yv, mv), lambda n: ite(le(c, n), f(yv, mv), g(yv, mv, n)))))
            last = lambda mv: eq(mv, L(12))
            return (split(lambda yv, mv: term(yv), lambda yv, mv, n: term(yv)),      # a month shorter than c is never December
                    split(lambda yv, mv: term(mv), lambda yv, mv, n: term(add(mv, L(1)))),
                    split(lambda yv, mv: term(c), lambda yv, mv, n: term(sub(c, n))))
    return None


_ord = {}


def civil_ord(lp, o):
    """(year offset, month, day) of day o of a year that is or is not a leap year (-365 < o < 731)."""
    y = 2000 if lp else 2001
    n = 366 if lp else 365
    if 1 <= o <= n:
        q, m, d = civil(days_before_year(y) + o)
        return 0, m, d
    if o < 1:
        q, m, d = civil(daynum(2001 if lp else 2001, 12, 31) + o)     # the year before a leap year is not one; the tail after February is the same
        return (-1, m, d) if o > -306 else None
    q, m, d = civil(daynum(2001, 1, 1) + o - n - 1)
    return (1, m, d) if o - n <= 59 else None


def parts(x):
    """(year, month, day) diagrams of a date whose day number is relative to the first day of a year."""
    r = _ord.get(x, 0)
    if r != 0:
        return r
    r = None
    for a, k in x.ts:
        if k == 1 and a.key[0] == 'first':
            y = a.key[1]
            o = add(sub(x, LA(a)), L(1))
            lo, hi = rng(o)
            if lo <= -306 or hi > 365 + 59:
                continue
            b = single_base(o)
            if o.ts and (b is None or b.hi - b.lo > 400):
                continue

            def tab(lp, i, f):
                if not o.ts:
                    return f(civil_ord(lp, o.c))
                return on_base(b, [f(civil_ord(lp, v)) for v in values_on(o, b)])

            def both(f):
                return ite(leap(y), tab(True, 0, f), tab(False, 0, f))
            r = (both(lambda p: term(add(y, L(p[0])))), both(lambda p: term(L(p[1]))), _day(x, y, o, b))
            break
    _ord[x] = r
    return r


def _day(x, y, o, b):
    def f(lp):
        if not o.ts:
            return term(L(civil_ord(lp, o.c)[2]))
        # keep the linear form wherever the month does not change
        return on_base(b, [term(_lin_day(o, b, lp, i)) for i in range(int(b.hi - b.lo) + 1)])
    return ite(leap(y), f(True), f(False))


def _lin_day(o, b, lp, i):
    """Day of month as o minus the days before its month (a term constant over the month)."""
    v = values_on(o, b)[i]
    q, m, d = civil_ord(lp, v)
    return add(o, L(d - v))


def leap(y):
    """Diagram (bool) of: year y is a leap year."""
    if not y.ts:
        return bterm(is_leap(y.c))
    b = single_base(y)
    if b is not None:
        return on_base(b, [is_leap(v) for v in values_on(y, b)])
    from .ints import mod400
    b, sg, c = mod400(y)
    return on_base(b, [is_leap(sg * (v + c)) for v in range(400)])


def dim(y, m):
    """Diagram: number of days of month m of year y."""
    out = term(L(31))
    for k in (4, 6, 9, 11):
        out = ite(eq(m, L(k)), term(L(30)), out)
    feb = ite(leap(y), term(L(29)), term(L(28)))
    return ite(eq(m, L(2)), feb, out)


def origin(y, m):
    """The date x such that y - year(x) and m are expressible from its fields: (x, j, mbase)."""
    for a, k in y.ts:
        if a.key[0] == 'year' and k == 1:
            x = a.key[1]
            rest = sub(y, LA(a))
            mb = field('month', x)
            if not mb.leaf:
                continue
            ma = mb.v.ts[0][0] if mb.v.ts else None
            ok = lambda t: not t.ts or single_base(t) is ma
            if ok(rest) and ok(m):
                return x, rest, ma
    return None


def first(y, m):
    """Diagram: day number of the first day of month m of year y (m assumed in 1..12)."""
    if not y.ts and not m.ts:
        return term(L(daynum(y.c, min(max(m.c, 1), 12), 1)))
    o = origin(y, m)
    if o is not None:
        x, rest, ma = o
        base = add(sub(x, field('day', x).v), L(1))     # first of x's own month
        yx = field('year', x).v
        rv = values_on(rest, ma) if rest.ts else [rest.c] * 12
        mv = values_on(m, ma) if m.ts else [m.c] * 12
        if max(abs(r) for r in rv) <= 2:
            kids = []
            for i in range(12):
                m0 = i + 1
                m1 = min(max(mv[i], 1), 12)
                delta = 12 * rv[i] + m1 - m0
                d = term(base)
                if delta >= 0:
                    rngm, sg = range(0, delta), 1
                else:
                    rngm, sg = range(delta, 0), -1
                for t in rngm:
                    yy, mm = divmod(m0 - 1 + t, 12)
                    dd = dim(add(yx, L(yy)), L(mm + 1))
                    d = bind2(d, dd, lambda p, q: term(add(p, scale(q, sg))))
                kids.append(d)
            return mux(var_of(LA(ma)), tuple(range(2, 13)), kids)
    a = atom(('first', y, L(1)), MIN_D, MAX_D)
    base = LA(a)
    lp = leap(y)

    def at(k):
        v = term(add(base, L(CUM[k - 1])))
        return v if k <= 2 else ite(lp, term(add(base, L(CUM[k - 1] + 1))), v)
    if not m.ts:
        return at(min(max(m.c, 1), 12))
    out = at(12)
    for k in range(11, 0, -1):
        out = ite(le(m, L(k)), at(k), out)
    return out


def build(y, m, d):
    """Day number diagram for valid fields."""
    def g(v):
        x = add(v, sub(d, L(1)))
        return term(x)
    if m.ts and origin(y, m) is None:
        # one term per month
        out = None
        for k in range(12, 0, -1):
            t = build(y, L(k), d)
            out = t if out is None else ite(le(m, L(k)), t, out)
        return out
    return bind(first(y, m), g)


def valid_ymd(y, m, d):
    c = dand(le(L(MIN_YEAR), y), le(y, L(MAX_YEAR)))
    c = dand(c, dand(le(L(1), m), le(m, L(12))))
    c = dand(c, le(L(1), d))
    lo, hi = rng(d)
    if hi <= 28:
        return c
    # the day of an existing date fits its own month
    for a, k in d.ts:
        if a.key[0] == 'day' and k == 1 and len(d.ts) == 1 and d.c <= 0:
            x = a.key[1]
            mx = field('month', x)
            if mx.leaf and mx.v is m:
                if field('year', x).v is y:
                    return c
                if d.c == 0:
                    bad = dand(dand(eq(m, L(2)), eq(d, L(29))), dnot(leap(y)))
                    return dand(c, dnot(bad))
    return dand(c, bind(dim(y, m), lambda k: le(d, k)))


def add_months(x, n):
    """(ok, day number diagram) of moving x by n months, clamping the day."""
    y, m, d = field('year', x), field('month', x), field('day', x)
    ok = bind(y, lambda p: bind(m, lambda q: bind(d, lambda r: _add_months(p, q, r, n)[0])))
    v = bind(y, lambda p: bind(m, lambda q: bind(d, lambda r: _add_months(p, q, r, n)[1])))
    return ok, v


def _add_months(y, m, d, n):
    from .ints import fdiv_c, mod_c
    t = add(add(m, L(-1)), n)
    y2 = add(y, fdiv_c(t, 12))
    m2 = add(mod_c(t, 12), L(1))
    ok = dand(le(L(MIN_YEAR), y2), le(y2, L(MAX_YEAR)))
    kd = bind(dim(y2, m2), lambda k: ite(le(d, k), term(d), term(k)))
    return ok, bind(kd, lambda dd: build(y2, m2, dd))


def cmp_dates(x, y):
    """Diagram with leaves -1/0/1."""
    d = sub(x, y)
    if len(x.ts) == 1 and len(y.ts) == 1 and not x.c and not y.c and x is not y:
        a, b = x.ts[0][0], y.ts[0][0]
        if a in LEX and b in LEX:
            out = term(L(0))
            for k in ('day', 'month', 'year'):
                df = sub(field(k, x).v, field(k, y).v)
                out = ite(eq0(df), out, ite(ge0(df), term(L(1)), term(L(-1))))
            return out
    return ite(eq0(d), term(L(0)), ite(ge0(d), term(L(1)), term(L(-1))))


def axioms(dates):
    """Facts about the fields of a date symbol."""
    c = TRUE
    for x in dates:
        y, m, d = (field(k, x).v for k in ('year', 'month', 'day'))
        c = dand(c, bind(dim(y, m), lambda k: le(d, k)))
        w = field('weekday', x).v
        lo, hi = rng(x)
        if lo == -INF or hi == INF:
            continue
        # the ends of the range
        for n in [int(lo) + i for i in range(8)] + [int(hi) - i for i in range(8)]:
            c = dand(c, dor(dnot(eq(x, L(n))), eq(w, L((n + 6) % 7))))
    return c
