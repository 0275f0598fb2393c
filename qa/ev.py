"""Evaluation of extracted tables (decision diagrams) on points of the input space.

`Vec` evaluates a diagram over date fields on numpy arrays; `Point` evaluates diagrams, linear forms
and float terms on one assignment of the inputs (used to turn a differing region into a concrete
witness).  Only extracted summaries are evaluated here, never the program.
"""
import math
import numpy as np
from .dd import *
from . import dates


class Vec:
    """env: {atom key: array}."""

    def __init__(self, env, n):
        self.env, self.n = env, n
        self.memo = {}

    def lin(self, x):
        r = np.full(self.n, x.c, dtype=np.int64)
        for a, k in x.ts:
            r += k * self.atom(a)
        return r

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            v = self.memo[a] = self.calc(a)
        return v

    def calc(self, a):
        k = a.key
        if k in self.env:
            return self.env[k]
        h = k[0]
        if a.table is not None:
            return np.asarray(a.table, dtype=np.int64)[self.atom(a.base) - int(a.base.lo)]
        if h in ('year', 'month', 'day', 'ordinal'):
            return civil_vec(self.lin(k[1]), h)
        if h == 'weekday':
            return (self.lin(k[1]) + 6) % 7
        if h == 'fdiv':
            return self.lin(k[1]) // k[2]
        if h == 'mod':
            return self.lin(k[1]) % k[2]
        if h == 'leap':
            y = self.lin(k[1])
            return ((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))).astype(np.int64)
        if h == 'first':
            return first_vec(self.lin(k[1]), self.lin(k[2]))
        if h == 'mul':
            return self.lin(k[1]) * self.lin(k[2])
        raise Unsupported('evaluation of %r' % (a,))

    def dd(self, d):
        """Array of the (Lin or bool) leaf values as integers."""
        out = np.zeros(self.n, dtype=np.int64)
        order, seen = [], set()

        def go(x):
            if x.id in seen:
                return
            seen.add(x.id)
            if not x.leaf:
                for k in x.kids:
                    go(k)
            order.append(x)
        go(d)
        order.reverse()
        masks = {d.id: [np.arange(self.n)]}
        for x in order:
            idx = masks.get(x.id)
            if not idx:
                continue
            idx = np.concatenate(idx) if len(idx) > 1 else idx[0]
            if x.leaf:
                if isinstance(x.v, bool):
                    out[idx] = int(x.v)
                else:
                    out[idx] = self.lin(x.v)[idx]
                continue
            v = self.lin(x.var.form)[idx]
            s = np.searchsorted(np.asarray(x.cuts), v, side='right')
            for i, k in enumerate(x.kids):
                m = idx[s == i]
                if len(m):
                    masks.setdefault(k.id, []).append(m)
        return out


def civil_vec(n, what):
    d = n.astype('timedelta64[D]') + (np.datetime64('0001-01-01') - np.timedelta64(1, 'D'))
    y = d.astype('datetime64[Y]').astype(np.int64) + 1970
    if what == 'year':
        return y
    if what == 'month':
        return d.astype('datetime64[M]').astype(np.int64) % 12 + 1
    if what == 'day':
        return (d - d.astype('datetime64[M]')).astype(np.int64) + 1
    return (d - d.astype('datetime64[Y]')).astype(np.int64) + 1


def first_vec(y, m):
    mm = (y - 1970) * 12 + m - 1
    return (mm.astype('datetime64[M]').astype('datetime64[D]') - np.datetime64('0001-01-01')).astype(np.int64) + 1
