"""Removal of infeasible paths from a condition: the tests on differences of two integers along a
path are kept as difference constraints, and a path whose constraints have a negative cycle is cut."""
from .values import *

BUDGET = 60000


class Budget(Exception):
    pass


def edge_form(form):
    """(p, q) with form = p - q, for atoms p, q (None for the constant zero); or None."""
    if len(form.ts) == 1:
        (a, k), = form.ts
        if a.table is not None:
            return None
        return (a, None) if k == 1 else (None, a) if k == -1 else None
    if len(form.ts) == 2:
        (a, p), (b, q) = form.ts
        if (p, q) == (1, -1):
            return a, b
        if (p, q) == (-1, 1):
            return b, a
    return None


class Dbm:
    """Upper bounds on differences, kept closed."""

    def __init__(self, n):
        self.n = n
        self.m = [[INF] * n for _ in range(n)]
        for i in range(n):
            self.m[i][i] = 0

    def add(self, i, j, w):
        """x_i - x_j <= w; None when infeasible, self when implied."""
        m = self.m
        if m[i][j] <= w:
            return self
        if m[j][i] + w < 0:
            return None
        r = Dbm.__new__(Dbm)
        r.n = self.n
        r.m = [row[:] for row in m]
        k = r.m
        for a in range(self.n):
            ai = m[a][i]
            if ai == INF:
                continue
            for b in range(self.n):
                v = ai + w + m[j][b]
                if v < k[a][b]:
                    k[a][b] = v
        return r

    def key(self):
        return tuple(map(tuple, self.m))


# ---------------------------------------------------------------------------------- facts about dates
_months = {}
_grid = []


def grid():
    """Month index and day of every day of a 400-year cycle, and the first day of every month."""
    if not _grid:
        import numpy as np
        from . import dates
        start = dates.daynum(2000, 1, 1)
        n = 146097
        f, o, dim = [], [], []
        for k in range(-2400, 7200):
            y, m = (24000 + k) // 12, (24000 + k) % 12 + 1
            f.append(dates.daynum(y, m, 1))
            dim.append(dates.dim_c(y, m))
        f, dim = np.array(f), np.array(dim)
        x = np.arange(start, start + n)
        mi = np.searchsorted(f, x, 'right') - 1
        _grid.append((x, f, dim, mi, x - f[mi]))
    return _grid[0]


def shifted(n):
    import numpy as np
    x, f, dim, mi, d = grid()
    k = mi + n
    return f[k] + np.minimum(d, dim[k] - 1)


def month_gap(n1, n2):
    """Least and greatest difference in days between x + n2 months and x + n1 months."""
    r = _months.get((n1, n2))
    if r is None:
        if max(abs(n1), abs(n2)) > 2300:
            r = (-INF, INF)
        else:
            e = shifted(n2) - shifted(n1)
            r = (int(e.min()), int(e.max()))
        _months[(n1, n2)] = r
    return r


def date_facts(atoms):
    """Bounds (a, b, least, greatest) of a - b for month shifts and weekend rolls among the atoms; the
    atoms they are taken of are included."""
    out, seen, todo = [], set(), list(atoms)
    shifts = {}
    while todo:
        a = todo.pop()
        if a in seen or a is None:
            continue
        seen.add(a)
        k = a.key
        if k[0] not in ('AM', 'WR') or len(k[1].ts) != 1 or k[1].ts[0][1] != 1:
            continue
        b, c = k[1].ts[0][0], k[1].c
        if k[0] == 'WR':
            out.append((a, b, c, c + 2))
            todo.append(b)
        elif not k[2].ts:
            lo, hi = month_gap(0, k[2].c)
            out.append((a, b, lo + c, hi + c))
            shifts.setdefault(k[1], []).append((k[2].c, a))
            todo.append(b)
    for l in shifts.values():
        l.sort(key=lambda p: p[0])
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                lo, hi = month_gap(l[i][0], l[j][0])
                out.append((l[j][1], l[i][1], lo, hi))
    return out, seen


def prune(d):
    """d without the paths that no integers satisfy."""
    if d.leaf:
        return d
    forms = {v: edge_form(v.form) for v in vars_of(d)}
    idx = {None: 0}
    two = set()
    for v, e in forms.items():
        if e is not None and None not in e:
            two.update(e)
    if len(two) < 2:
        return d
    facts, more = date_facts(two)
    for a in sorted(two | more, key=lambda a: a.id):
        idx[a] = len(idx)
    base = Dbm(len(idx))
    for a, b, lo, hi in facts:
        base = base.add(idx[a], idx[b], hi)
        base = base.add(idx[b], idx[a], -lo)
    for a, i in idx.items():
        if a is not None:
            if a.hi != INF:
                base = base.add(i, 0, a.hi)
            if a.lo != -INF:
                base = base.add(0, i, -a.lo)
    count = [0]
    memo = {}
    def walk(n, b):
        if n.leaf:
            return n
        key = (n.id, b.key())
        r = memo.get(key)
        if r is not None:
            return r
        count[0] += 1
        if count[0] > BUDGET:
            raise Budget()
        e = forms[n.var]
        if e is None or any(x is not None and x not in idx for x in e):
            r = mux(n.var, n.cuts, [walk(k, b) for k in n.kids])
        else:
            i, j = idx[e[0]], idx[e[1]]
            bounds = (-INF,) + tuple(n.cuts) + (INF,)
            kids = []
            for q, k in enumerate(n.kids):
                lo, hi = bounds[q], bounds[q + 1] - 1
                b2 = b
                if hi != INF:
                    b2 = b2.add(i, j, hi)
                if b2 is not None and lo != -INF:
                    b2 = b2.add(j, i, -lo)
                kids.append(None if b2 is None else walk(k, b2))
            live = [k for k in kids if k is not None]
            if not live:
                r = FALSE
            else:
                r = live[0] if len(live) == 1 else mux(n.var, n.cuts, [FALSE if k is None else k for k in kids])
        memo[key] = r
        return r
    try:
        return walk(d, base)
    except Budget:
        return d
