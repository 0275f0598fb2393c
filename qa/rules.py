"""Checks that compare a root of the library with its reference function."""
import numpy as np
from . import interp, mir, decide, dd, dates, ev, cals, calref
from .decide import Inputs, compare
from .values import *


def each_root(c, it, table, ylo=1900, yhi=2200, **kw):
    for root, what in table:
        compare(c, it, Inputs(it), 'r_' + root, 's_' + root, what, ylo, yhi, **kw)


def deepen(c, table, limits, ylo=1900, yhi=2200, prepare=None, **kw):
    """Compare at growing loop bounds; stop at the first difference.  A deeper bound that is not decided in
    its time leaves the verdict of the bound before."""
    for row in table:
        root, what = row[:2]
        best = None
        for n in limits:
            it = interp.Interp(c.prog, n)
            inp = Inputs(it, ylo, yhi) if prepare is not None else Inputs(it)
            if prepare is not None:
                prepare(inp, row)
            keep = list(c.undec)
            w = '%s, up to %d days away' % (what, n - 2)
            v = compare(c, it, inp, 'r_' + root, 's_' + root, w, ylo, yhi, **kw)
            if v == 'equal':
                best = n - 2
                continue
            if v in (None, 'undecided') and best is not None:
                c.undec[:] = keep
                c.unit('%s beyond %d days' % (what, best), verdict='not explored further')
            break
        c.cov.setdefault('days_away', {})[what] = best


# ---------------------------------------------------------------------------------- dates
def construct(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [
        ('from_ymd', 'construction from year, month, day'), ('date_from_naive', 'conversion from a calendar date'),
        ('year', 'year of a date'), ('month', 'month of a date'), ('day', 'day of a date'), ('serial', 'serial number of a date'),
        ('leap', 'leap-year predicate'), ('sub', 'difference of two dates'), ('lt', 'a < b'), ('le', 'a <= b'), ('gt', 'a > b'),
        ('ge', 'a >= b'), ('eq', 'a == b'), ('ne', 'a != b'), ('cmp', 'total order'), ('partial_cmp', 'partial order')])
    c.floor('obligations', len(c.units) + len(c.undec), 16)


def day_steps(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('add_days', 'date plus days'), ('sub_days', 'date minus days'), ('succ', 'next day'), ('pred', 'previous day')])
    c.floor('obligations', len(c.units) + len(c.undec), 4)


def month_steps(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('add_months', 'date plus months'), ('sub_months', 'date minus months'), ('add_years', 'date plus years')])
    c.floor('obligations', len(c.units) + len(c.undec), 3)


def weekend_roll(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('weekend_roll', 'weekend roll')])


def rolling(c):
    full = (4, 10, 20, 40)
    deepen(c, [('roll_unadjusted', 'unadjusted'), ('roll_following', 'following'), ('roll_preceding', 'preceding')], full)
    deepen(c, [('roll_modfollowing', 'modified following'), ('roll_modpreceding', 'modified preceding')], full if c.thorough else full[:3])
    deepen(c, [('roll', 'convention given at run time')], (4, 8, 14) if c.thorough else (4, 10))
    c.floor('obligations', len(c.units) + len(c.undec), 6)


def periods(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('period_days', 'a period of days'), ('period_months', 'a period of months'), ('period_years', 'a period of years')])
    it = interp.Interp(c.prog, 10)
    each_root(c, it, [('roll_days', 'rolled by a period of days')])
    c.floor('obligations', len(c.units) + len(c.undec), 4)


def actual(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('act360', 'Actual/360'), ('act365', 'Actual/365'), ('act360_f32', 'Actual/360, single precision'), ('act365_f32', 'Actual/365, single precision')])
    c.floor('obligations', len(c.units) + len(c.undec), 4)


def thirty(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('thirty360', '30/360'), ('thirty360_f32', '30/360, single precision')])
    c.floor('obligations', len(c.units) + len(c.undec), 2)


# ---------------------------------------------------------------------------------- calendars
LO, HI = 1901, 2199


def defaults(c, method, joined=True):
    """Calendars that replace a provided method of the trait."""
    out = []
    n = 0
    for cal in cals.all_cals(c.prog, joined):
        i = cal.methods.get(method)
        if i is None:
            continue
        n += 1
        f = c.prog.fns[i]
        if not (f['def'].endswith('Calendar::' + method) and not f['def'].startswith('<')):
            out.append(cal)
    c.cov['calendars_inheriting_' + method] = n - len(out)
    return out


def complement(c):
    it = interp.Interp(c.prog, 12)
    for r, w in [('cal_is_holiday', 'holiday is the complement of business day'), ('q_default_hol', 'the same for the calendars of the date library'),
                 ('q_biz', 'business day through the date library'), ('q_hol', 'holiday through the date library'),
                 ('cal_is_weekend', 'the weekend predicate'), ('cal_dkmy', 'the calendar fields of a date')]:
        compare(c, it, Inputs(it), 'r_' + r, 's_' + r, w)
    it = interp.Interp(c.prog, 400)
    for cal in defaults(c, 'is_holiday', False):
        try:
            D, a = cals.summary(it, cal, 'is_business_day')
            D, b = cals.summary(it, cal, 'is_holiday')
        except (Unsupported, Incompat, Split) as e:
            c.undecided(cal.name, e)
            continue
        ds = cals.days()
        for cfg in cal.configs():
            va, ca = cals.table(D, a, cal, cfg, ds.rd)
            vb, cb = cals.table(D, b, cal, cfg, ds.rd)
            bad = np.nonzero(ca & cb & (va == vb))[0]
            lab = cal.name + (':' + cfg if cfg else ' (default)')
            c.unit(lab, function=cal.mod + '::is_holiday', differing=int(len(bad)))
            if len(bad):
                c.violation(lab, '%s::is_holiday (%s): %s gives the same answer as is_business_day on %d date(s): %s' % (
                    cal.mod, cal.file(), lab, len(bad), cals.runs(bad)))
    c.floor('obligations', len(c.units) + len(c.undec), 6)


def joint(c):
    it = interp.Interp(c.prog, 12)
    each_root(c, it, [('joint', 'business day of a joint calendar'), ('joint_holiday', 'holiday of a joint calendar')])
    c.floor('obligations', len(c.units) + len(c.undec), 2)


def western(y):
    """Ordinal of Easter Monday (anonymous Gregorian computus)."""
    a, b, d = y % 19, y // 100, y % 100
    e, f = b // 4, b % 4
    g = (8 * b + 13) // 25
    h = (19 * a + b - e - g + 15) % 30
    i, k = d // 4, d % 4
    l = (32 + 2 * f + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    n = h + l - 7 * m + 114
    return dates.daynum(y, n // 31, n % 31 + 1) - dates.daynum(y, 1, 1) + 2


def orthodox(y):
    """Ordinal of Orthodox Easter Monday (Meeus' Julian computus, moved to the Gregorian calendar)."""
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    m, dd_ = (d + e + 114) // 31, (d + e + 114) % 31 + 1
    shift = y // 100 - y // 400 - 2
    return dates.daynum(y, m, dd_) + shift - dates.daynum(y, 1, 1) + 2


def easter(c):
    it = interp.Interp(c.prog, 400)
    for root, f, what in (('r_cal_easter', western, 'Western'), ('r_cal_orthodox', orthodox, 'Orthodox')):
        bad = []
        n = 0
        try:
            for y in range(LO, HI + 1):
                it.reset()
                inp = Inputs(it)
                inp.over['y'] = term(L(y))
                st, args = inp.build(root)
                outs = it.call(st, it.p.roots[root], args)
                want = f(y)
                got = None
                for s, v in outs:
                    if s.pc is TRUE and isdd(v) and v.leaf:
                        got = v.v.c if not v.v.ts else None
                if it.obl:
                    o = list(it.obl.values())[0]
                    bad.append('%d: %s' % (y, decide.fails(o)))
                elif got is None:
                    raise Unsupported('no constant value for %d' % y)
                elif got != want:
                    bad.append('%d: day %d of the year instead of %d' % (y, got, want))
                n += 1
        except (Unsupported, Incompat, Split) as e:
            c.undecided(what, e)
            continue
        c.unit(what + ' Easter Monday', root=root, years=n, differing=len(bad))
        if bad:
            c.violation(root, '%s Easter Monday (%s) is wrong for %d year(s): %s' % (what, '; '.join(decide.span_of(it, it)[:3]), len(bad), ', '.join(bad[:6])))
    for m, f in (('easter_monday', western), ('orthodox_easter_monday', orthodox)):
        for cal in defaults(c, m):
            own_easter(c, it, cal, m, f)
    c.floor('obligations', len(c.units) + len(c.undec), 2)


def own_easter(c, it, cal, method, f):
    """An Easter function of one calendar alone, in every market of it."""
    bad = []
    n = 0
    try:
        for y in range(LO, HI + 1):
            it.reset()
            st = interp.State(TRUE, {0: {0: it.symbolic(cal.ty, cal.key(), prio=0)}})
            outs = it.call(st, cal.methods[method], [Ptr((0, 0)), term(L(y))])
            for cfg in cal.configs():
                g = decide.Ground(None)
                for k, v in cal.env(cfg).items():
                    g.base[g.gkey(k)] = v
                got = None
                for s, v in outs:
                    if g.dd(s.pc):
                        got = g.value(v)
                for o in it.obl.values():
                    if got is None and g.dd(o.pc):
                        got = decide.fails(o)
                if got is None:
                    raise Unsupported('no value for %d' % y)
                if got != f(y):
                    bad.append('%d%s: %s instead of %d' % (y, ' (%s)' % cfg if cfg else '', got, f(y)))
                n += 1
    except (Unsupported, Incompat, Split, decide.Fail) as e:
        c.undecided('%s::%s' % (cal.name, method), '%s: %s' % (type(e).__name__, e))
        return
    c.unit('%s::%s' % (cal.name, method), years=n, differing=len(bad))
    if bad:
        c.violation('%s:%s' % (cal.name, method), '%s::%s (%s) is wrong for %d year(s): %s' % (cal.mod, method, cal.file(), len(bad), ', '.join(bad[:6])))


def replaced(c, cal, method, spec, names, what, limits, **over):
    """A provided method of the trait that one calendar replaces, against the reference of the provided one.
    Where the two agree for any set of business days, nothing else is needed; a difference is looked for
    under the business days of that calendar."""
    from . import models
    idx = cal.methods[method]
    biz = cal.methods['is_business_day']
    root = 'r_%s::%s' % (cal.name, method)
    c.prog.roots[root] = idx
    c.prog.roots['s_' + root[2:]] = c.prog.roots[spec]
    spans = []

    def opaque(it, st, f, args, span):
        d = args[1]
        return models.bindpc(st, models.scalar(it, st, d), lambda x: it.symbolic(c.prog.body(biz).locals[0], ('opaque_nbiz', vkey(term(L(1))), vkey(term(x)))))

    both = [i for i, f in enumerate(c.prog.fns) if f['def'].endswith('spec::opaque_nbiz')][0]

    def common(it, st, f, args, span):
        t = c.prog.body(biz).locals[0]
        return models.bindpc(st, models.scalar(it, st, args[1]), lambda x: dand(*[it.symbolic(t, ('opaque_nbiz', vkey(term(L(k))), vkey(term(x)))) for k in (1, 2)]))

    tabs = {}

    def table(cfg):
        if not tabs:
            it = interp.Interp(c.prog, 400)
            D, outs = cals.summary(it, cal)
            for k in cal.configs():
                tabs[k] = cals.table(D, outs, cal, k, cals.days().rd)
        return tabs[cfg]

    def config(g):
        for cfg in cal.configs():
            if all(g.base.get(g.gkey(k)) == v for k, v in cal.env(cfg).items()):
                return cfg
        raise decide.Fail('market')

    def given(g, k):
        if k[0] != 'opaque_nbiz':
            return None
        val, cov = table(config(g))
        i = k[2] - int(cals.days().rd[0])
        if not 0 <= i < len(val) or not cov[i]:
            raise decide.Fail('date')
        return int(val[i])

    def seed(rnd):
        return {('g',) + k: v for k, v in cal.env(rnd.choice(cal.configs())).items()}

    def prepare(inp, row):
        inp.over['self'] = ('ref', inp.it.symbolic(cal.ty, cal.key(), prio=0))
        inp.over.update(over)
        inp.names[root] = names
        if cal.name != 'JointCalendar':
            inp.it.nat[biz] = opaque
            inp.given = given
        else:
            # the reference asks for the joint calendar's business days: those common to both
            inp.it.nat[both] = common
    for cfg in cal.configs() if cal.name != 'JointCalendar' else ():
        done = direct(c, cal, method, cfg, names, table, what, **over)
        if done is False:
            return
    if cal.name != 'JointCalendar' and done:
        return
    deepen(c, [(root[2:], '%s of %s' % (what, cal.name))], limits, LO, HI, prepare, seed=seed, key='%s:%s' % (cal.name, method))


def direct(c, cal, method, cfg, names, table, what, **over):
    """The method of one calendar evaluated on dates, from its summary without any uninterpreted function:
    True when every date is decided and right, False when one is wrong, None when nothing is decided."""
    ds = cals.days()
    n = ds.n
    it = interp.Interp(c.prog, 40)
    args = []
    syms = {}
    try:
        with decide.limit(30, decide.NODES):
            for x in names:
                if x == 'self':
                    args.append(Ptr((0, 0)))
                elif x in over:
                    args.append(over[x])
                else:
                    syms[x] = term(dates.date_sym(('arg', x), LO, HI))
                    args.append(syms[x])
            st = interp.State(TRUE, {0: {0: it.symbolic(cal.ty, cal.key(), prio=0)}})
            outs = [(s.pc, v) for s, v in it.call(st, cal.methods[method], args)]
        obl = list(it.obl.values())
        val, cov = table(cfg)

        def ev_at(points):
            k = len(points[0])
            env = {key: np.full(k, v) for key, v in cal.env(cfg).items()}
            for x, a in zip(syms, points):
                env[syms[x].v.ts[0][0].key] = a
            e = ev.Vec(env, k)
            got = np.zeros(k, dtype=np.int64)
            have = np.zeros(k, dtype=bool)
            for pc, v in outs:
                m = e.dd(pc) != 0
                got[m] = e.dd(decide.unwrap(v))[m]
                have |= m
            lost = np.zeros(k, dtype=bool)
            for o in obl:
                lost |= e.dd(o.pc) != 0
            return got, have, lost

        def wrong(points, got, want, lost, i):
            at = ', '.join(cals.date(int(a[i] - ds.rd[0])) for a in points)
            say = (lambda x: cals.date(int(x - ds.rd[0])) if 0 <= x - ds.rd[0] < n else str(int(x))) if method != 'business_days_between' else str
            c.violation('%s:%s' % (cal.name, method), '%s::%s (%s), %s%s: for %s it %s where the property demands %s' % (
                cal.mod, method, cal.file(), what, ' in market ' + cfg if cfg else '', at, 'panics' if lost[i] else 'gives %s' % say(got[i]), say(want[i])))
            return False

        if method != 'business_days_between':
            want = ds.rd + ds.left - 1
            if method == 'end_of_month':
                last = np.maximum.accumulate(np.where(val == 1, ds.rd, 0))
                want = last[want - ds.rd[0]]
            got, have, lost = ev_at([ds.rd])
            bad = np.nonzero((have & (got != want) | lost) & (want > ds.rd[0]) & cov.all())[0]
            c.unit('%s of %s%s' % (what, cal.name, ':' + cfg if cfg else ''), dates=n, differing=int(len(bad)))
            if len(bad):
                return wrong([ds.rd], got, want, lost, bad[0])
            return True if (have | lost).all() and not it.cutoffs and cov.all() else None
        cum = np.concatenate([[0], np.cumsum(val == 1)])
        f0 = over['f'].vs.get(1, (TRUE,))[0] is FALSE      # first date excluded
        l0 = over['l'].vs.get(1, (FALSE,))[0] is TRUE      # last date included
        few = np.arange(0, n, 13)
        some_ = np.arange(36000, 36000 + 1500)
        for offs, base in (((0, 1, 2, 5, 7, 30, 366, 5000, 40000), few), (range(0, 3001, 1 if c.thorough else 17), some_), (range(-3, 40), some_)):
            for o in offs:
                for sg in (1, -1):
                    a = base
                    b = a + sg * o
                    a = a[(b >= 0) & (b < n)]
                    b = a + sg * o
                    if not len(a):
                        continue
                    lo, hi = np.minimum(a, b), np.maximum(a, b)
                    fx, lx = (not f0, l0) if sg * o >= 0 else (l0, not f0)
                    want = np.maximum(cum[np.minimum(hi + int(lx), n)] - cum[np.minimum(lo + int(not fx), n)], 0)
                    if sg * o < 0:
                        want = -want
                    got, have, lost = ev_at([ds.rd[a], ds.rd[b]])
                    bad = np.nonzero(have & (got != want) | lost)[0]
                    if len(bad):
                        return wrong([ds.rd[a], ds.rd[b]], got, want, lost, bad[0])
                    if not have.any():
                        return None
    except (Unsupported, Incompat, Split, decide.Fail) as e:
        return None
    return None


def month_end(c):
    it = interp.Interp(c.prog, 40)
    compare(c, it, Inputs(it, LO, HI), 'r_cal_last_day', 's_cal_last_day', 'last day of the month', LO, HI)
    deepen(c, [('cal_end_of_month', 'last business day of the month')], (4, 10, 20, 40), LO, HI, prepare=lambda i, row: None)
    for cal in defaults(c, 'last_day_of_month'):
        replaced(c, cal, 'last_day_of_month', 's_cal_last_day', ['self', 'd'], 'last day of the month', (4,))
    for cal in defaults(c, 'end_of_month'):
        replaced(c, cal, 'end_of_month', 's_cal_end_of_month', ['self', 'd'], 'last business day of the month', (4, 10, 20))
    c.floor('obligations', len(c.units) + len(c.undec), 2)


def between(c):
    dd.sums()
    O = [('not given', none()), ('true', some(TRUE)), ('false', some(FALSE))]

    def prepare(inp, row):
        inp.over['f'], inp.over['l'] = row[2:]
    deepen(c, [('cal_bdb', 'business days between, include first %s, include last %s' % (fn, ln), f, l) for fn, f in O for ln, l in O],
           (4, 10, 30, 100, 400) if c.thorough else (4, 10, 30, 100), LO, HI, prepare)
    from . import models
    start = dates.daynum(2020, 2, 27)
    nbiz = [i for i, f in enumerate(c.prog.fns) if f['def'].endswith('opaque_nbiz')]
    free = set()

    def mostly(it, st, f, args, span):
        x = models.scalar(it, st, args[1])
        fixed = models.bindpc(st, x, lambda d: FALSE if not d.is_const() or d.c in free else TRUE)
        return TRUE if fixed is TRUE else models.m_opaque(it, st, f, args, span)

    for fn, f in O:
        for ln, l in O:
            seen = {}
            for n in sorted({130, 200, 260, 366, 400, 740} | {k + d for k in marks(c, 'r_cal_bdb') if k < 3000 for d in (0, 1, 3)} | ({3000} if c.thorough else set())):
                for a, b in ((start, start + n), (start + n, start)):
                    free.clear()
                    free.update(x + d for x in (a, b) for d in (-1, 0, 1))
                    free.add(start + n // 2)
                    it = interp.Interp(c.prog, n + 20)
                    it.nat.update((i, mostly) for i in nbiz)
                    inp = Inputs(it, 1900, 2200)
                    inp.over.update(a=term(L(a)), b=term(L(b)), f=f, l=l)
                    v = compare(c, it, inp, 'r_cal_bdb', 's_cal_bdb', 'business days between dates %d days apart, all open but perhaps the ends and the middle, include first %s, include last %s' % (b - a, fn, ln),
                                1900, 2200, quiet=True, key='r_cal_bdb')
                    seen[v] = seen.get(v, 0) + 1
            c.unit('business days of long intervals, include first %s, include last %s' % (fn, ln), root='r_cal_bdb', cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
    for cal in defaults(c, 'business_days_between'):
        for fn, f in O:
            for ln, l in O:
                replaced(c, cal, 'business_days_between', 's_cal_bdb', ['self', 'a', 'b', 'f', 'l'],
                         'business days between, include first %s, include last %s' % (fn, ln), (4, 10, 30), f=f, l=l)
    c.floor('obligations', len(c.units) + len(c.undec), 9)


# ---------------------------------------------------------------------------------- interpolation
KINDS = [('linear', 2, 2, 'linear interpolation'), ('catmull', 3, 2, 'Catmull-Rom spline'), ('natural', 3, 2, 'natural cubic spline'), ('hermite', 3, 3, 'Hermite spline')]


def node_vals(ranks, width, tag=''):
    from .terms import fsym
    return [Agg([term(fsym('%sx%d' % (tag, i), r))] + [term(fsym('%s%s%d' % (tag, 'yd'[k], i))) for k in range(width - 1)]) for i, r in enumerate(ranks)]


def weak_orders(n):
    """Every weak order of n items as a tuple of ranks 0..k-1, all used."""
    if n == 0:
        yield ()
        return
    import itertools
    for k in range(1, n + 1):
        for t in itertools.product(range(k), repeat=n):
            if len(set(t)) == k:
                yield t


def positions(n):
    """(label, name, rank) of an evaluation point relative to n increasing abscissae."""
    yield 'below all nodes', 't', -1
    for i in range(n):
        yield 'at node %d' % i, 'x%d' % i, 2 * i
        yield ('between nodes %d and %d' % (i, i + 1) if i + 1 < n else 'above all nodes'), 't', 2 * i + 1


def spoiled(n):
    """Increasing abscissae with one inversion or tie, somewhere."""
    up = list(range(n))
    yield tuple(up)
    yield tuple(reversed(up))
    for i in range(n - 1):
        yield tuple(up[:i] + [i + 1, i] + up[i + 2:])
        yield tuple(min(j, i) if j <= i else max(j - 1, i) for j in up)
    if n > 2:
        yield tuple(up[-1:] + up[1:-1] + up[:1])
        yield tuple(up[-1:] + up[:-1])
        yield tuple(up[1:] + up[:1])


LONG = (130, 300)


def marks(c, *roots):
    """Integers in the code the roots reach that could be a threshold, and the ranges of the narrow
    types it converts to."""
    ks, seen, todo = set(), set(), [c.prog.roots[r] for r in roots]

    def walk(j):
        if isinstance(j, list):
            if j and j[0] == 'switch':
                ks.update(int(v) for v, _ in j[2] if v.isdigit())
            elif j and j[0] == 'cast' and j[1] == 'IntToInt':
                k = {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}.get(c.prog.tys[j[3]]['str'])
                if k:
                    ks.add(k)
            for x in j:
                walk(x)
        elif isinstance(j, dict):
            v = j.get('v')
            if v and v[0] == 'int' and str(v[1]).isdigit():
                ks.add(int(v[1]))
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        b = c.prog.body(i)
        if b is None:
            continue
        if c.prog.fns[i]['crate'] in interp.LOCAL:
            walk(c.prog.fns[i]['body'])
        todo += mir.callees(b)
    return sorted(k for k in ks if 40 < k < 70000)


def long_sizes(c, *roots):
    """Great numbers of nodes: fixed ones, and those just past each mark of the code."""
    ms = marks(c, *roots)
    done = set()
    for n in LONG + ((1100,) if c.thorough else ()) + tuple(k + d for k in ms if k <= 5000 for d in (1, 2)):
        if n not in done and c.within(400):
            done.add(n)
            yield n, near(n, [255] + ms)


def near(n, around):
    """A few of n places: both ends, the middle, and around the given ones."""
    s = {0, n // 2, n - 2, n - 1}
    for k in around:
        s |= {k, k + 1}
    return sorted(i for i in s if 0 <= i < n)


def fit_rule(c):
    it = interp.Interp(c.prog, 90)
    most = 5 if c.thorough else 4
    for kind, least, width, what in KINDS:
        for n in range(most + 1):
            seen = {}
            for o in weak_orders(n):
                inp = Inputs(it)
                inp.slice('p', node_vals(o, width))
                v = compare(c, it, inp, 'r_%s_fit' % kind, 's_%s_fit' % kind, '%s fitted to %d points ordered like %s' % (what, n, list(o)), ranks=set(o), quiet=True, key='r_%s_fit' % kind)
                seen[v] = seen.get(v, 0) + 1
            c.unit('%s, %d points' % (what, n), orders=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
        for n in (5, 6, 7, 8, 9, 10, 12, 16, 24, 40) if kind != 'natural' else (5, 6, 7, 8, 9, 10, 12, 16):
            if not c.within(300):
                break
            seen = {}
            for o in spoiled(n):
                inp = Inputs(it)
                inp.slice('p', node_vals(o, width))
                v = compare(c, it, inp, 'r_%s_fit' % kind, 's_%s_fit' % kind, '%s fitted to %d points ordered like %s' % (what, n, list(o)), ranks=set(o), quiet=True, key='r_%s_fit' % kind)
                seen[v] = seen.get(v, 0) + 1
            c.unit('%s, %d points in the order of their abscissae but for one' % (what, n), orders=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
        for n, at in long_sizes(c, 'r_%s_fit' % kind):
            seen = {}
            it.loop_limit = max(90, n + 20)
            up = list(range(n))
            for o in [up, up[1:] + up[:1], up[-1:] + up[:-1]] + [up[:i] + [i + 1, i] + up[i + 2:] for i in at if i + 1 < n]:
                inp = Inputs(it)
                inp.slice('p', node_vals(o, width))
                j = next((i for i in range(n - 1) if o[i] > o[i + 1]), None)
                v = compare(c, it, inp, 'r_%s_fit' % kind, 's_%s_fit' % kind, '%s fitted to %d points %s' % (what, n, 'in order' if j is None else 'out of order after point %d' % j),
                            ranks=set(o), quiet=True, key='r_%s_fit' % kind)
                seen[v] = seen.get(v, 0) + 1
            c.unit('%s, %d points in the order of their abscissae but for one' % (what, n), orders=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
        it.loop_limit = 90
    c.floor('obligations', len(c.units), 4 * (most + 1))


def evaluations(c, it, kind, width, n, suffix, spec, what, where, known=None, node=False, at=None):
    from .terms import fsym
    xs = [2 * i for i in range(n)]
    seen = {}
    it.loop_limit = max(90, n + 20)
    cases = list(positions(n)) if not node else [('at node %d' % i, i, None) for i in range(n)]
    if at is None and n > 16 and kind == 'natural':
        at = set(near(n, (7, 15, 16, n // 3)))
    if at is not None:
        cases = [x for x in cases if node and x[1] in at or not node and (x[2] < 0 or x[2] // 2 in at)]
    for lab, name, rank in cases:
        if where is not None and not where(lab):
            continue
        inp = Inputs(it)
        inp.slice('p', node_vals(xs, width))
        if node:
            inp.over['i'] = term(L(name))
        else:
            inp.over['t'] = term(fsym(name, rank))
        rs = set(xs) | ({rank} if rank is not None else set())
        v = compare(c, it, inp, 'r_%s%s' % (kind, suffix), spec, '%s through %d points, %s' % (what, n, lab), ranks=rs, quiet=True, key='r_%s%s' % (kind, suffix), known=known)
        seen[v] = seen.get(v, 0) + 1
    c.unit('%s, %d points' % (what, n), root='r_%s%s' % (kind, suffix), positions=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})


def sizes(c, least, kind, seconds=100):
    """Numbers of nodes; the greater ones only while there is time."""
    for n in range(least, 7):
        yield n
    for n in (7, 8, 9, 10, 12, 16, 24, 40, 64):
        if c.within(seconds):
            yield n


def range_rule(c):
    it = interp.Interp(c.prog, 90)
    for kind, least, width, what in KINDS:
        for n in sizes(c, least, kind):
            evaluations(c, it, kind, width, n, '_range', 's_range3' if width == 3 else 's_range', what, None)
        for n, at in long_sizes(c, 'r_%s_range' % kind):
            evaluations(c, it, kind, width, n, '_range', 's_range3' if width == 3 else 's_range', what, None, at=at)
    for root in ('linear_empty', 'linear_new_empty', 'catmull_empty', 'natural_empty'):
        inp = Inputs(it)
        compare(c, it, inp, 'r_' + root, 's_empty', 'evaluation before any fit (%s)' % root)
    c.floor('obligations', len(c.units), 16)


def node_rule(c):
    it = interp.Interp(c.prog, 90)
    for kind, least, width, what in KINDS:
        for n in sizes(c, least, kind):
            evaluations(c, it, kind, width, n, '_node', 's_node3' if width == 3 else 's_node', what, None, node=True)
        for n, at in long_sizes(c, 'r_%s_node' % kind):
            evaluations(c, it, kind, width, n, '_node', 's_node3' if width == 3 else 's_node', what, None, node=True, at=at)
    c.floor('obligations', len(c.units), 16)


def value_rule(kind, width, least, spec, what, known=None):
    def f(c):
        it = interp.Interp(c.prog, 90)
        for n in range(least, least + 3):
            evaluations(c, it, kind, width, n, '_f32', spec, what + ' in single precision', lambda l: 'all' not in l, known)
        if kind == 'linear':
            evaluations(c, it, kind, width, 3, '_from_new', spec, what + ' from new()', None)
        for n in sizes(c, least, kind):
            # many unknowns are eliminated by shooting: the dense elimination of the reference is cubic
            evaluations(c, it, kind, width, n, '', 's_natural_long' if kind == 'natural' and n > 9 else spec, what, lambda l: 'all' not in l, known)
        for n, at in long_sizes(c, 'r_' + kind):
            evaluations(c, it, kind, width, n, '', 's_natural_long' if kind == 'natural' else spec, what, lambda l: 'all' not in l, known, at=at)
        c.floor('obligations', len(c.units), 6)
    return f


def refit_rule(c):
    """Fit, fit again, evaluate: as if the first fit had not been."""
    from .terms import fsym
    it = interp.Interp(c.prog, 90)
    most = 6 if c.thorough else 4
    for kind, least, width, what in KINDS[:3]:
        for n in range(least, most + 1):
            for m in range(least, most + 1):
                seen = {}
                p = [10 + 2 * i for i in range(m)]
                for where, q in (('below', [i - 10 for i in range(n)]), ('above', [i + 30 for i in range(n)]), ('the same as', [10 + 2 * i for i in range(n)]),
                                 ('among', [9 + 2 * i for i in range(n)]), ('around', [i for i in range(n - 1)] + [40])):
                    for order in (p, p[:-2] + [p[-1], p[-2]]):
                        for lab, name, rank in positions(m):
                            if order is not p and lab != 'at node 1':
                                continue
                            inp = Inputs(it)
                            inp.slice('q', node_vals(q, width, 'q'))
                            inp.slice('p', node_vals(order, width))
                            if rank is not None:
                                rank += 10
                            inp.over['t'] = term(fsym(name if order is p else 't', rank))
                            v = compare(c, it, inp, 'r_%s_refit' % kind, 's_%s_refit' % kind, '%s of %d points %s %d points it is fitted to again, %s' % (what, n, where, m, lab),
                                        ranks=set(q) | set(p) | {rank}, quiet=True, key='r_%s_refit' % kind)
                            seen[v] = seen.get(v, 0) + 1
                c.unit('%s of %d points fitted again to %d points' % (what, n, m), root='r_%s_refit' % kind, cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
        for n, m in ((130, 5), (300, 3)) + (((5, 130), (130, 130)) if kind != 'natural' else ()):
            it.loop_limit = max(n, m) + 20
            seen = {}
            for at in sorted({0, m // 2, m - 1}):
                inp = Inputs(it)
                q, p = [2 * i for i in range(n)], [2 * i + 1 for i in range(m)]
                inp.slice('q', node_vals(q, width, 'q'))
                inp.slice('p', node_vals(p, width))
                inp.over['t'] = term(fsym('t', 2 * at))
                v = compare(c, it, inp, 'r_%s_refit' % kind, 's_%s_refit' % kind, '%s of %d points among %d points it is fitted to again, before node %d' % (what, n, m, at),
                            ranks=set(q) | set(p), quiet=True, key='r_%s_refit' % kind)
                seen[v] = seen.get(v, 0) + 1
            c.unit('%s of %d points fitted again to %d points' % (what, n, m), root='r_%s_refit' % kind, cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
        it.loop_limit = 90
    c.floor('obligations', len(c.units), 17)


linear_rule = value_rule('linear', 2, 2, 's_linear', 'linear interpolation')
natural_rule = value_rule('natural', 2, 3, 's_natural', 'natural cubic spline')
hermite_rule = value_rule('hermite', 3, 3, 's_hermite', 'Hermite spline')
catmull_rule = value_rule('catmull', 2, 3, 's_catmull', 'Catmull-Rom spline', ('s_catmull_known', 'r_catmull:left-slope'))


# ---------------------------------------------------------------------------------- curves
def curve_inputs(it, n, k):
    from .terms import fsym
    inp = Inputs(it)
    ms = [term(dates.date_sym(('arg', 'm%d' % i), dates.MIN_YEAR, dates.MAX_YEAR)) for i in range(n)]
    inp.dates += [m.v for m in ms]
    inp.slice('m', ms, True)
    inp.slice('y', [term(fsym('yield%d' % i)) for i in range(k)])
    return inp


def curve_new(c):
    it = interp.Interp(c.prog, 90)
    most = 8 if c.thorough else 6
    for n in range(most + 1):
        for k in range(most + 1):
            compare(c, it, curve_inputs(it, n, k), 'r_curve_new', 's_curve_new', 'curve of %d maturities and %d yields' % (n, k), key='r_curve_new')
    for n in (7, 8, 9, 10, 12, 16, 24, 40):
        for k in (n - 1, n, n + 1):
            if c.within(200):
                compare(c, it, curve_inputs(it, n, k), 'r_curve_new', 's_curve_new', 'curve of %d maturities and %d yields' % (n, k), key='r_curve_new')
    for n, at in long_sizes(c, 'r_curve_new'):
        it.loop_limit = n + 20
        seen = {}
        up = [30 + 14 * i for i in range(n)]
        for days in [up] + [up[:i] + [up[i + 1], up[i]] + up[i + 2:] for i in at if i + 1 < n] + [up[:-1] + up[-2:-1]]:
            for k in (n - 1, n, n + 1) if days is up else (n,):
                v = compare(c, it, long_curve(it, days, k), 'r_curve_new_dated', 's_curve_new_dated', 'curve of %d dated maturities%s and %d yields' % (n, '' if days is up else ' out of order', k), quiet=True, key='r_curve_new')
                seen[v] = seen.get(v, 0) + 1
        c.unit('curve of %d dated maturities, in order but for one' % n, root='r_curve_new', cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
    c.floor('obligations', len(c.units) + len(c.undec), (most + 1) ** 2)


def long_curve(it, days, k, dates_at=()):
    """A curve of given maturities, in days after a given settlement date, and symbolic yields."""
    from .terms import fsym
    inp = Inputs(it)
    s = dates.daynum(2020, 2, 28)
    inp.over['s'] = term(L(s))
    for name, d in zip('ab', dates_at):
        inp.over[name] = term(L(s + d))
    inp.slice('m', [term(L(s + d)) for d in days], True)
    inp.slice('y', [term(fsym('yield%d' % i)) for i in range(k)])
    return inp


def discount(c):
    it = interp.Interp(c.prog, 90)
    for n in (0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 40):
        if n < 3 or c.within(200):
            compare(c, it, curve_inputs(it, n, n), 'r_curve_df', 's_curve_df', 'discount factor on a curve of %d maturities' % n, key='r_curve_df')
    for n, at in long_sizes(c, 'r_curve_df'):
        it.loop_limit = n + 20
        seen = {}
        days = [30 + 14 * i for i in range(n)]
        spots = [d for i in at for d in (days[i], days[i] + 5)]
        for a, b in [(x, days[1] + 3) for x in spots] + [(days[0], x) for x in spots] + [(0, days[n // 2]), (days[n // 3] + 1, 0), (days[n - 2] + 3, days[n - 2] + 3)]:
            v = compare(c, it, long_curve(it, days, n, (a, b)), 'r_curve_df_dated', 's_curve_df_dated', 'discount factor between days %d and %d of a curve of %d dated maturities' % (a, b, n), quiet=True, key='r_curve_df')
            seen[v] = seen.get(v, 0) + 1
        c.unit('discount factors on a curve of %d dated maturities' % n, root='r_curve_df', cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
    c.floor('obligations', len(c.units) + len(c.undec), 3)


# ---------------------------------------------------------------------------------- bonds
def shift(y, m, d, n):
    t = y * 12 + m - 1 + n
    y, m = t // 12, t % 12 + 1
    return dates.daynum(y, m, min(d, dates.dim_c(y, m)))


class BondCase:
    """A bond with k regular coupon dates and given kinds of first and last period."""
    years = (LO, HI)

    def __init__(self, it, k, first, last):
        self.it, self.k, self.kinds = it, k, (first, last)
        inp = self.inp = Inputs(it, LO, HI)
        issue, fst, pen, mat = (self.arg(n) for n in ('issue', 'first', 'pen', 'maturity'))
        facts = [lt(issue, fst), le(fst, pen), lt(pen, mat)]
        if k:
            facts += [le(self.am(fst, 6 * (k - 1)), pen), lt(pen, self.am(fst, 6 * k))]
        facts += [self.rel(first, self.am(fst, -6), issue), self.rel(last, mat, self.am(pen, 6))]
        for f in facts:
            inp.care = dand(inp.care, f)

    def arg(self, name):
        x = dates.date_sym(('arg', name), *self.years)
        if x not in self.inp.dates:
            self.inp.dates.append(x)
        return x

    def am(self, x, n):
        from . import models
        return models.opaque_am(self.it, x, L(n))[1].v

    def rel(self, kind, a, b):
        return {'short': lt(a, b), 'regular': eq(a, b), 'long': lt(b, a), None: TRUE}[kind] if kind != 'later' else TRUE

    def label(self):
        return '%d regular coupon date(s), %s first and %s last period' % (self.k, self.kinds[0] or 'any', self.kinds[1] or 'any')


def bond_seed(k, first, last):
    def f(rnd):
        y, m = rnd.randint(1930, 2150), rnd.randint(1, 12)
        d = rnd.choice([1, 15, 28, 29, 30, 31, 31])
        d = min(d, dates.dim_c(y, m))
        fst = dates.daynum(y, m, d)
        n = k or rnd.randint(1, 3)
        pen = shift(y, m, d, 6 * (n - 1))
        if rnd.random() < .3:
            pen = rnd.randint(pen, shift(y, m, d, 6 * n) - 1)
        prior = shift(y, m, d, -6)
        end = shift(*dates.civil(pen), 6)
        a = first or rnd.choice(['short', 'regular', 'long'])
        b = last or rnd.choice(['short', 'regular', 'long'])
        issue = {'regular': prior, 'short': rnd.randint(prior + 1, fst - 1), 'long': prior - rnd.choice([rnd.randint(1, 180), rnd.randint(1, 900)])}[a]
        mat = {'regular': end, 'short': rnd.randint(pen + 1, end - 1), 'long': end + rnd.choice([rnd.randint(1, 180), rnd.randint(1, 900)])}[b]
        g = {('D', ('arg', n_)): v for n_, v in (('issue', issue), ('first', fst), ('pen', pen), ('maturity', mat))}
        x = rnd.random()
        dues = [shift(y, m, d, 6 * i) for i in range(n)] + [mat]
        s = rnd.choice([issue, rnd.choice(dues), rnd.choice(dues) + rnd.randint(-40, 40), rnd.randint(issue, mat + 5)])
        g[('D', ('arg', 'settle'))] = s
        g[('D', ('arg', 'base'))] = s if x < .5 else s - rnd.randint(0, 30) if x < .9 else s + rnd.randint(0, 300)
        return g
    return f


def bond_interp(c, n):
    from . import theory
    it = interp.Interp(c.prog, n)
    it.opaque_months = it.months_total = it.opaque_roll = True
    it.prune = theory.prune
    return it


def bond_case(c, root, k, first, last, what):
    it = bond_interp(c, k + 4)
    b = BondCase(it, k, first, last)
    return compare(c, it, b.inp, 'r_' + root, 's_' + root, '%s, %s' % (what, b.label()), LO, HI, seed=bond_seed(k, first, last), key='r_' + root)


KIND = ('short', 'regular', 'long')


def bond_rule(c, root, ks, kinds, what, budget=400):
    done = {}
    for f, l in kinds:
        best = 0
        for k in ks:
            if k > 4 and not c.within(budget):
                break
            keep = list(c.undec)
            v = bond_case(c, root, k, f, l, what)
            if v == 'equal':
                best = k
                continue
            if best and v in (None, 'undecided'):
                c.undec[:] = keep
            break
        done['%s/%s' % (f, l)] = best
    c.cov['regular_coupons_decided'] = done


def long_bonds(c, kinds, settle=(0,)):
    """Bonds of given dates and a great many coupons, at symbolic terms on any curve."""
    root, what = 'bond_dated', 'value on any curve'
    for k in sorted({130, 300} | {m + d for m in marks(c, 'r_' + root) if m < 390 for d in (1, 2)}):
        seen = {}
        for first, last in kinds:
            for y, m, d in ((1951, 8, 31), (1952, 2, 29)) if k == 130 else ((1951, 3, 15),):
                fst, pen = dates.daynum(y, m, d), shift(y, m, d, 6 * (k - 1))
                prior, end = shift(y, m, d, -6), shift(y, m, d, 6 * k)
                issue = {'regular': prior, 'short': prior + 40, 'long': prior - 40}[first]
                mat = {'regular': shift(*dates.civil(pen), 6), 'short': end - 40, 'long': end + 40}[last]
                for at in settle:
                    it = interp.Interp(c.prog, k + 20)
                    inp = Inputs(it, LO, HI)
                    inp.over.update(issue=term(L(issue)), first=term(L(fst)), pen=term(L(pen)), maturity=term(L(mat)))
                    s = shift(y, m, d, 6 * int(at * k)) + round(at * k % 1 * 180) - (at == 1) if at else issue
                    inp.over.update(settle=term(L(s)))
                    v = compare(c, it, inp, 'r_' + root, 's_' + root, '%s, issued %s with %d coupon dates from %s, %s first and %s last period, settled %s' % (
                        what, decide.garg(issue), k, decide.garg(fst), first, last, decide.garg(s)), LO, HI, quiet=True, key='r_' + root)
                    seen[v] = seen.get(v, 0) + 1
        c.unit('%s, %d coupons on given dates' % (what, k), root='r_' + root, cases=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})


def coupons(c):
    bond_rule(c, 'bond_at_issue', list(range(1, 9)) + [12, 20, 40, 60] + ([80, 100, 120] if c.thorough else []), [('regular', 'regular')], 'value at issue')
    long_bonds(c, [('regular', 'regular')])
    c.floor('obligations', len(c.units) + len(c.undec), 4)


def valuation(c):
    bond_rule(c, 'bond', list(range(1, 9)) + [12, 16] + ([20, 24, 30, 40] if c.thorough else []), [('regular', 'regular')], 'value at any settlement date on any curve')
    long_bonds(c, [('regular', 'regular')], (.1, .25, .5, .9, .99, 1))
    c.floor('obligations', len(c.units) + len(c.undec), 4)


def stubs(c):
    bond_rule(c, 'bond_at_issue', (1, 2, 3, 4, 8, 12, 16) + ((20, 30, 40) if c.thorough else ()), [(f, l) for f in KIND for l in KIND], 'value at issue')
    long_bonds(c, [('short', 'short'), ('long', 'long'), ('short', 'long')])
    bond_rule(c, 'bond_exists', range(1, 5), [(None, None)], 'construction')
    it = bond_interp(c, 6)
    b = BondCase(it, 0, None, None)
    b.inp.care = lt(b.arg('pen'), b.arg('first'))
    compare(c, it, b.inp, 'r_bond_exists', 's_bond_exists', 'construction with the first coupon after the penultimate one', LO, HI, key='r_bond_exists')
    c.floor('obligations', len(c.units) + len(c.undec), 20)


# ---------------------------------------------------------------------------------- errors and panics
def errors(c):
    it = interp.Interp(c.prog, 60)
    for root, what in (('err_from_interp', 'an interpolation error becomes an error of the library'), ('err_from_compute', 'a computation error becomes an error of the library')):
        compare(c, it, Inputs(it), 'r_' + root, 's_' + root, what)
    most = 4 if c.thorough else 3
    for n in range(most + 1):
        compare(c, it, curve_inputs(it, n, n), 'r_curve_new', 's_curve_new', 'errors of fitting a curve of %d maturities' % n, key='r_curve_new')
        compare(c, it, curve_inputs(it, n, n), 'r_curve_df_error', 's_curve_df_error', 'errors of the discount factor on a curve of %d maturities' % n, key='r_curve_df_error')
    bond_rule(c, 'bond_error', range(1, 13 if c.thorough else 7), [('regular', 'regular'), ('long', 'short'), ('short', 'long')], 'errors of the value at any settlement date')
    c.floor('obligations', len(c.units) + len(c.undec), 12)


def no_panic(c, it, inputs, root, what, ylo=1900, yhi=2200, ranks=(), seed=None, quiet=False, failing=()):
    """No panic site of the library has a reachable condition."""
    try:
        with decide.limit(decide.PHASE[c.thorough], decide.NODES):
            I = decide.summarise(it, inputs, 'r_' + root)
    except (Unsupported, Incompat, Split, decide.Unknown, RecursionError) as e:
        c.undecided(what, e)
        return 'undecided'
    bad = None
    sites = 0
    verdict = 'no panic'
    for o in I.obl:
        try:
            with decide.limit(decide.PHASE[c.thorough], decide.NODES):
                pc = decide.theory.prune(dand(o.pc, inputs.care))
        except Unsupported:
            pc = o.pc
        if pc is not FALSE and inputs.dates:
            # decide again with everything spelled out over the small finite atoms
            try:
                with decide.limit(decide.SPELL[c.thorough], decide.NODES):
                    pc = decide.theory.prune(dand(decide.normal(pc), decide.normal(dates.axioms(inputs.dates))))
            except Unsupported:
                pass
        if pc is FALSE:
            continue
        sites += 1
        w = decide.panic_point(pc, I, 20 if c.thorough else 4, ylo, yhi, ranks, seed, failing)
        where = next((s for n, s in reversed(o.stack) if s and s.startswith('/repo')), None)
        where = o.span if o.span and o.span.startswith('/repo') else where or o.span
        if w is None:
            verdict = 'undecided'
            c.undecided(what, 'no point found that reaches the panic "%s" at %s' % (o.kind, where))
        else:
            verdict = 'panics'
            c.violation('panic:%s' % root, '%s %s (%s at %s) for %s' % (what, 'never returns' if o.kind == 'endless loop' else 'panics', o.kind, where, decide.point(w)))
            break
    if not quiet:
        c.unit(what, root='r_' + root, blocks=I.blocks, functions=I.functions, panic_sites_met=len(it.sites), reachable=sites, loop_bound_reached=bool(I.cut), verdict=verdict)
    if verdict == 'no panic':
        c.proved += 1
    return verdict


SAFE = ['from_ymd', 'date_from_naive', 'year', 'month', 'day', 'serial', 'leap', 'sub', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'cmp', 'partial_cmp', 'add_days', 'sub_days', 'succ', 'pred',
        'add_months', 'sub_months', 'add_years', 'weekend_roll', 'period_days', 'period_months', 'period_years', 'roll', 'roll_days',
        'act360', 'act365', 'thirty360', 'act360_f32', 'act365_f32', 'thirty360_f32', 'err_from_interp', 'err_from_compute',
        'linear_empty', 'linear_new_empty', 'catmull_empty', 'natural_empty']


def safe(c):
    from .terms import fsym
    for root in SAFE:
        it = interp.Interp(c.prog, 10)
        no_panic(c, it, Inputs(it), root, root.replace('_', ' '))
    for root, n in (('roll_months', 5), ('roll_years', 1)):     # any period: root roll
        for k in range(n):
            # the moved date is any date (its own arithmetic is that of add_months and add_years)
            it = interp.Interp(c.prog, 6)
            it.opaque_months = it.months_total = True
            inp = Inputs(it)
            inp.over['r'] = Enum(term(L(k)), {i: () for i in range(5)})
            no_panic(c, it, inp, root, '%s, convention %d' % (root.replace('_', ' '), k))
    it = interp.Interp(c.prog, 60)
    most = 4 if c.thorough else 3
    for kind, least, width, what in KINDS:
        for n in range(most + 1):
            for sfx in ('', '_f32') + (('_from_new',) if kind == 'linear' else ()):
                if n == most and sfx:
                    continue
                seen = {}
                for o in weak_orders(n + 1):
                    # every order of the nodes and the point; f32 is the same code
                    inp = Inputs(it)
                    inp.slice('p', node_vals(o[:n], width))
                    inp.over['t'] = term(fsym('t', o[n]))
                    v = no_panic(c, it, inp, kind + sfx, '%s through %d points, orders %s' % (what, n, list(o)), ranks=set(o), quiet=True)
                    seen[v] = seen.get(v, 0) + 1
                c.unit('%s%s, %d points' % (what, sfx, n), orders=sum(seen.values()), **{str(k).replace(' ', '_'): x for k, x in seen.items()})
    for n in range(most + 1):
        for k in range(most + 1):
            no_panic(c, it, curve_inputs(it, n, k), 'curve_new', 'curve of %d maturities and %d yields' % (n, k))
            no_panic(c, it, curve_inputs(it, n, k), 'curve_df', 'discount factor on a curve of %d maturities and %d yields' % (n, k))
    bonds_safe(c)
    c.floor('obligations', len(c.units), 80)


def edge_seed(k, sign):
    """A bond whose dates are at the end of the supported range."""
    def f(rnd):
        t = (dates.MAX_YEAR * 12 + 11 if sign > 0 else dates.MIN_YEAR * 12) - sign * rnd.randint(0, 14)
        if sign > 0:
            t -= 6 * (k - 1)
        y, m = t // 12, t % 12 + 1
        d = min(rnd.choice([1, 15, 28, 29, 30, 31, 31]), dates.dim_c(y, m))
        fst = dates.daynum(y, m, d)
        t += 6 * (k - 1)
        pen = dates.daynum(t // 12, t % 12 + 1, min(d, dates.dim_c(t // 12, t % 12 + 1)))
        if rnd.random() < .6:
            pen += rnd.randint(0, 180)
        pen = min(pen, dates.MAX_D)
        clip = lambda v: max(dates.MIN_D, min(dates.MAX_D, v))
        issue, mat = clip(fst - rnd.randint(-20, 500)), clip(pen + rnd.randint(-20, 500))
        return {('D', ('arg', n_)): v for n_, v in (('issue', issue), ('first', fst), ('pen', pen), ('maturity', mat))}
    return f


def bonds_safe(c):
    """No order of the dates and no date step that leaves the supported range makes a bond panic."""

    def case(k, failing):
        it = bond_interp(c, k + 4)
        it.failing = set(failing)
        b = BondCase.__new__(BondCase)
        b.it, b.inp, b.years = it, Inputs(it), (dates.MIN_YEAR, dates.MAX_YEAR)
        fst, pen = b.arg('first'), b.arg('pen')
        facts = [lt(pen, fst)] if k == 0 else [le(fst, pen), le(b.am(fst, 6 * (k - 1)), pen)]
        if k and ('AM', fst, L(6 * k)) not in it.failing:
            facts.append(lt(pen, b.am(fst, 6 * k)))
        for f in facts:
            b.inp.care = dand(b.inp.care, f)
        it.steps.clear()
        return it, b, fst

    for k in range(0, 25 if c.thorough else 9):
        it, b, fst = case(k, ())
        v = no_panic(c, it, b.inp, 'bond', 'bond with %d regular coupon date(s), other dates in any order' % k, seed=bond_seed(k, None, None))
        if v != 'no panic':
            return
        steps = [s for s in it.steps if not (s[0] == 'AM' and s[1] is fst and s[2].c > 0 and s[2].c < 6 * k)]
        rolls = [s for s in steps if s[0] == 'WR']
        last = rolls[-1:]
        if k > 4 and not c.thorough:
            continue
        seen = {}
        for s in steps:
            if s[0] == 'WR' and s not in last:
                continue
            it, b, fst = case(k, [s])
            sign = 1 if s[0] == 'WR' or s[2].c > 0 else -1
            what = 'bond with %d regular coupon date(s) when %s' % (k, 'the weekend roll has no result' if s[0] == 'WR' else 'a date moved by %d months has no result' % s[2].c)
            v = no_panic(c, it, b.inp, 'bond_exists', what, seed=edge_seed(max(k, 1), sign), failing=[s], quiet=True)
            seen[v] = seen.get(v, 0) + 1
        c.unit('bond with %d regular coupon date(s), a date step fails' % k, steps=sum(seen.values()), **{str(k_).replace(' ', '_'): x for k_, x in seen.items()})
