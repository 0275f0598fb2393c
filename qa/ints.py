"""Non-linear integer operations on linear forms."""
from .dd import *


def tabulate(x, f):
    b = single_base(x)
    if b is not None:
        return tab_of(b, [f(v) for v in values_on(x, b)])
    return None


def fdiv_c(x, k):
    """floor(x / k), k > 0 constant."""
    if not x.ts:
        return L(x.c // k)
    out = L(0)
    rest = {}
    for a, q in x.ts:
        out = add(out, LA(a, q // k))
        if q % k:
            rest[a] = q % k
    r = norm(x.c % k, rest)
    out = add(out, L(x.c // k))
    lo, hi = rng(r)
    if lo != -INF and hi != INF and lo // k == hi // k:
        return add(out, L(int(lo // k)))
    t = tabulate(r, lambda v: v // k)
    if t is not None:
        return add(out, t)
    return add(out, LA(atom(('fdiv', r, k), lo if lo == -INF else lo // k, hi if hi == INF else hi // k)))


def mod_c(x, k):
    """x mod k in 0..k-1."""
    return sub(x, scale(fdiv_c(x, k), k)) if not _needs_atom(x, k) else _modatom(x, k)


def _needs_atom(x, k):
    d = fdiv_c(x, k)
    return any(a.key[0] == 'fdiv' for a, q in d.ts)


def mod400(x):
    """(finite atom, sign): x mod 400 up to sign, so that every test of a year's remainders by a divisor of 400 shares one variable."""
    r = norm(x.c % 400, {a: q % 400 for a, q in x.ts})
    sg = 1
    if r.ts and r.ts[0][1] > 200:
        r = norm(-x.c % 400, {a: -q % 400 for a, q in x.ts})
        sg = -1
    c = r.c
    r0 = norm(0, dict(r.ts))
    return atom(('mod', r0, 400), 0, 399), sg, c


def _modatom(x, k):
    if 400 % k == 0:
        b, sg, c = mod400(x)
        return tab_of(b, [sg * (v + c) % k for v in range(400)])
    r = norm(x.c % k, {a: q % k for a, q in x.ts})
    return LA(atom(('mod', r, k), 0, k - 1))
