"""Abstract models of library functions (chrono, Vec/slice, num-traits, nalgebra, fmt).

Everything not listed here is analysed through its own MIR.
"""
import re
from .values import *
from . import dates
from .dates import field, cmp_dates, add_months, build, valid_ymd, MIN_D, MAX_D
from .ints import fdiv_c

TABLE = []


def model(*pats, name=False):
    def deco(f):
        for p in pats:
            TABLE.append((re.compile(p), f, name))
        return f
    return deco


class natives:
    @staticmethod
    def find(f):
        d, n = f['def'], f['name']
        if n == 'qlab_time::date::Date::weekend_roll':
            return m_weekend_roll
        if f['crate'] in ('calendar', 'qlab_time', 'qlab_math', 'qlab_instrument', 'qlab_error', 'qlab_termstructure'):
            return None
        for p, h, byname in TABLE:
            if p.search(n if byname else d):
                return h
        return None


# ------------------------------------------------------------------------------------ helpers
def deref(it, st, v):
    while isinstance(v, Ptr):
        v = it.read(st, v.key, v.path)
    return v


def scalar(it, st, v):
    v = deref(it, st, v)
    while isinstance(v, Agg) and len(v.fs) == 1:
        v = v.fs[0]
    if not isdd(v):
        raise Unsupported('expected a scalar, found %s' % type(v).__name__)
    return v


def bindpc(st, d, f):
    return bind(restrict(d, st.pc), f)


def seq(it, st, p):
    """Elements of the slice/array/Vec p points to, and their locations."""
    if not isinstance(p, Ptr):
        raise Unsupported('slice %r' % (p,))
    v = it.read(st, p.key, p.path)
    while isinstance(v, Ptr):
        p = v
        v = it.read(st, p.key, p.path)
    if not isinstance(v, (Agg, MatV)):
        raise Unsupported('slice of %s' % type(v).__name__)
    if p.meta is not None:
        s, n = p.meta
    else:
        s, n = 0, len(v.fs)
    return v, p, s, n


def elem_ptrs(it, st, p):
    v, p, s, n = seq(it, st, p)
    return [Ptr(p.key, p.path + (('i', term(L(s + i))),)) for i in range(n)]


def elems(it, st, p):
    v, p, s, n = seq(it, st, p)
    return list(v.fs[s:s + n])


def panic(it, st, cond, kind, span):
    """Record a panic where cond holds and continue elsewhere."""
    it.obligation(kind, dand(st.pc, cond), span, it.stack[-1][0] if it.stack else '?')
    st.pc = dand(st.pc, dnot(cond))


# ------------------------------------------------------------------------------------ noise
@model(r'precondition_check$', r'::forget$', r'intrinsics::assert_', r'intrinsics::cold_path', r'^std::hint::(black_box|spin_loop)')
def m_noop(it, st, f, args, span):
    return unit()


@model(r'^std::hint::must_use$', r'intrinsics::(likely|unlikely)$', r'^core::hint::must_use$')
def m_id(it, st, f, args, span):
    return args[0]


@model(r'drop_glue', r'drop_in_place', r'ops::Drop>::drop$')
def m_drop(it, st, f, args, span):
    return unit()


@model(r'is_val_statically_known')
def m_false(it, st, f, args, span):
    return FALSE


@model(r'^(core|std|alloc)::fmt::', r'^<.* as (std|core)::fmt::', r'fmt::rt::', r'string::ToString', r'^std::string::', r'^alloc::string::',
       r'std::string::String', r'<str as ', r'ToOwned for str', r'^core::str::', r'^std::str::')
def m_str(it, st, f, args, span):
    d = f['def']
    ret = None
    if d.endswith('::fmt') or 'write_' in d or d.endswith('_finish'):
        return okv(unit())
    if re.search(r'PartialEq|PartialOrd|::(len|is_empty|contains|starts_with|eq|ne|cmp)$', d):
        raise Unsupported('inspection of text: ' + d)
    if 'Into' in d or 'From' in d or 'from' in d:
        if 'Cow' in f['name'] or 'Cow' in d:
            return STR
    a = args[0] if args else STR
    a = deref(it, st, a) if isinstance(a, Ptr) else a
    if isinstance(a, StrV) and re.search(r'to_string|to_owned|clone|deref|as_str|into|from', d):
        return a
    return STR


@model(r'ErrString', name=True)
def m_errstring(it, st, f, args, span):
    return STR


@model(r'^std::rt::begin_panic|panicking::|unwrap_failed|expect_failed|slice_.*_fail|panic_')
def m_panic(it, st, f, args, span):
    msg = ''
    for a in args:
        if isinstance(a, StrV) and a.key:
            msg = ' (%s)' % a.key
    it.obligation('panic: ' + f['def'].rsplit('::', 1)[-1] + msg, st.pc, span, it.stack[-1][0] if it.stack else '?')
    return []


# ------------------------------------------------------------------------------------ clone / compare
@model(r'Clone>::clone$', r'clone::Clone for .*::clone$', r'clone::Clone for .*>::clone$')
def m_clone(it, st, f, args, span):
    t = it.ty(f['targs'][0]) if f['targs'] else None
    v = deref1(it, st, args[0])
    if isinstance(v, (Enum, Agg)) and it.p.body(it.p.fns.index(f)) is not None and not isinstance(v, VecV) and not simple(v):
        return NotImplemented
    return v


def simple(v):
    if isinstance(v, Agg):
        return all(simple(x) for x in v.fs)
    if isinstance(v, Enum):
        return all(simple(x) for fs in v.vs.values() for x in fs)
    return True


def deref1(it, st, v):
    return it.read(st, v.key, v.path) if isinstance(v, Ptr) else v


@model(r'(Option|Result)<.*::cloned$', r'Option.*::copied$')
def m_cloned(it, st, f, args, span):
    v = args[0]
    vs = {k: tuple(deref1(it, st, x) for x in fs) for k, fs in v.vs.items()}
    return Enum(v.d, vs)


# ------------------------------------------------------------------------------------ opaque functions
@model(r'^opaque_', r'qroots::opaque_', r'::opaque_\w+$')
def m_opaque(it, st, f, args, span):
    import functools
    name = f['def'].rsplit('::', 1)[-1]
    b = it.p.body(it.p.fns.index(f))
    rt = b.locals[0]
    flat = []
    for a in args:
        a = snapshot(it, st, a)
        flat.append(a)

    def go(i, done):
        if i == len(flat):
            key = (name,) + tuple(done)
            it.opaque_seen.setdefault(name, set()).add(key)
            return it.symbolic(rt, key)
        a = flat[i]
        while isinstance(a, Agg) and len(a.fs) == 1 and not isinstance(a, VecV):
            a = a.fs[0]
        if isdd(a):
            a = restrict(a, st.pc)
            return vbind(a, lambda x: go(i + 1, done + [vkey(term(x))]))
        return go(i + 1, done + [vkey(a)])
    return go(0, [])


def snapshot(it, st, a):
    if isinstance(a, Ptr):
        if a.meta is not None:
            return Agg([snapshot(it, st, x) for x in elems(it, st, a)])
        return snapshot(it, st, it.read(st, a.key, a.path))
    return a


# ------------------------------------------------------------------------------------ chrono
D = r'^<chrono::NaiveDate as chrono::Datelike>::'


@model(D + r'(year|month|day|ordinal)$', r'^chrono::NaiveDate::(year|month|day|ordinal)$', r'^chrono::Datelike::(year|month|day|ordinal)$')
def m_field(it, st, f, args, span):
    k = f['def'].rsplit('::', 1)[-1]
    return bindpc(st, scalar(it, st, args[0]), lambda x: field(k, x))


@model(D + r'(month0|day0|ordinal0)$')
def m_field0(it, st, f, args, span):
    k = f['def'].rsplit('::', 1)[-1][:-1]
    d = bindpc(st, scalar(it, st, args[0]), lambda x: field(k, x))
    return fmap(d, lambda x: add(x, L(-1)))


@model(D + r'weekday$', r'^chrono::NaiveDate::weekday$')
def m_weekday(it, st, f, args, span):
    d = bindpc(st, scalar(it, st, args[0]), lambda x: field('weekday', x))
    return Enum(d, {i: () for i in range(7)})


@model(r'chrono::Weekday::(num_days_from_monday|number_from_monday|num_days_from_sunday|number_from_sunday)$')
def m_wdnum(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    v = deref(it, st, args[0])
    off = {'num_days_from_monday': (0, 0), 'number_from_monday': (0, 1), 'num_days_from_sunday': (1, 0), 'number_from_sunday': (1, 1)}[n]
    from .ints import mod_c
    return bindpc(st, v.d, lambda x: term(add(mod_c(add(x, L(off[0])), 7), L(off[1]))))


@model(D + r'num_days_from_ce$', r'num_days_from_ce$')
def m_ce(it, st, f, args, span):
    return scalar(it, st, args[0])


@model(r'chrono::NaiveDate::from_num_days_from_ce_opt$')
def m_fromce(it, st, f, args, span):
    x = scalar(it, st, args[0])
    c = bind(x, lambda l: dand(le(L(MIN_D), l), le(l, L(MAX_D))))
    return opt(c, x)


@model(r'chrono::NaiveDate::leap_year$')
def m_leap(it, st, f, args, span):
    return bindpc(st, scalar(it, st, args[0]), lambda x: bind(field('year', x), dates.leap))


def bind3(st, a, b, c, f):
    return bindpc(st, a, lambda x: bindpc(st, b, lambda y: bindpc(st, c, lambda z: f(x, y, z))))


@model(r'chrono::NaiveDate::from_ymd_opt$')
def m_ymd(it, st, f, args, span):
    y, m, d = (scalar(it, st, a) for a in args)
    ok = bind3(st, y, m, d, valid_ymd)
    ok = restrict(ok, st.pc)
    v = bind3(st, y, m, d, lambda p, q, r: UNDEFD if valid_ymd(p, q, r) is FALSE else build(p, q, r))
    return opt(ok, restrict(v, dand(st.pc, ok)) if dand(st.pc, ok) is not FALSE else v)


UNDEFD = term(L(0))


@model(r'chrono::NaiveDate::from_ymd$')
def m_ymd_panic(it, st, f, args, span):
    o = m_ymd(it, st, f, args, span)
    return unwrap(it, st, o, 'panic: invalid date', span)


def unwrap(it, st, o, kind, span):
    bad = bind(o.d, lambda x: eq(x, L(0)))
    panic(it, st, bad, kind, span)
    return o.vs.get(1, (UNDEF,))[0]


@model(r'chrono::NaiveDate::from_yo_opt$')
def m_yo(it, st, f, args, span):
    y, o = (scalar(it, st, a) for a in args)

    def ok(yy, oo):
        c = dand(le(L(dates.MIN_YEAR), yy), le(yy, L(dates.MAX_YEAR)))
        c = dand(c, dand(le(L(1), oo), le(oo, L(366))))
        return dand(c, dor(le(oo, L(365)), dates.leap(yy)))
    c = bindpc(st, y, lambda p: bindpc(st, o, lambda q: ok(p, q)))
    v = bindpc(st, y, lambda p: bindpc(st, o, lambda q: bind(dates.first(p, L(1)), lambda z: term(add(z, add(q, L(-1)))))))
    return opt(c, v)


def shift(it, st, x, n, span=None):
    """(in range, day number)"""
    v = bind2(x, n, lambda a, b: term(add(a, b)))
    v = restrict(v, st.pc)
    ok = bind(v, lambda l: dand(le(L(MIN_D), l), le(l, L(MAX_D))))
    return ok, v


@model(r'chrono::NaiveDate::(succ_opt|pred_opt)$')
def m_succ(it, st, f, args, span):
    n = term(L(1 if 'succ' in f['def'] else -1))
    return opt(*shift(it, st, scalar(it, st, args[0]), n))


@model(r'chrono::NaiveDate::(succ|pred)$')
def m_succp(it, st, f, args, span):
    n = term(L(1 if 'succ' in f['def'] else -1))
    return unwrap(it, st, opt(*shift(it, st, scalar(it, st, args[0]), n)), 'panic: date out of range', span)


@model(r'chrono::NaiveDate::(checked_add_days|checked_sub_days|add_days)$')
def m_adddays(it, st, f, args, span):
    sg = 1 if 'add' in f['def'] else -1
    n = fmap(scalar(it, st, args[1]), lambda l: scale(l, sg))
    return opt(*shift(it, st, scalar(it, st, args[0]), n))


@model(r'chrono::NaiveDate::(checked_add_signed|checked_sub_signed)$')
def m_addsigned(it, st, f, args, span):
    sg = 1 if 'add' in f['def'] else -1
    n = fmap(scalar(it, st, args[1]), lambda l: scale(l, sg))
    return opt(*shift(it, st, scalar(it, st, args[0]), n))


@model(r'<chrono::NaiveDate as std::ops::(Add|Sub)<chrono::(TimeDelta|Days)>>::')
def m_addop(it, st, f, args, span):
    sg = 1 if '::Add<' in f['def'] else -1
    n = fmap(scalar(it, st, args[1]), lambda l: scale(l, sg))
    return unwrap(it, st, opt(*shift(it, st, scalar(it, st, args[0]), n)), 'panic: date arithmetic overflow', span)


@model(r'<chrono::NaiveDate as std::ops::(AddAssign|SubAssign)<chrono::(TimeDelta|Days)>>::')
def m_addassign(it, st, f, args, span):
    sg = 1 if '::AddAssign<' in f['def'] else -1
    n = fmap(scalar(it, st, args[1]), lambda l: scale(l, sg))
    v = unwrap(it, st, opt(*shift(it, st, scalar(it, st, args[0]), n)), 'panic: date arithmetic overflow', span)
    p = args[0]
    it.write(st, p.key, p.path, v)
    return unit()


@model(r'<chrono::NaiveDate as std::ops::Sub>::sub$', r'chrono::NaiveDate::signed_duration_since$', r'<chrono::NaiveDate as std::ops::Sub<chrono::NaiveDate>>')
def m_datesub(it, st, f, args, span):
    a, b = scalar(it, st, args[0]), scalar(it, st, args[1])
    return restrict(bind2(a, b, lambda x, y: term(sub(x, y))), st.pc)


@model(r'chrono::TimeDelta::(days|weeks|try_days|try_weeks)$')
def m_days(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    k = 7 if 'weeks' in n else 1
    d = scalar(it, st, args[0])
    v = fmap(d, lambda l: scale(l, k))
    lim = 106751991167
    ok = bind(v, lambda l: dand(le(L(-lim), l), le(l, L(lim))))
    if n.startswith('try'):
        return opt(ok, v)
    panic(it, st, dnot(ok), 'panic: TimeDelta::%s out of bounds' % n, span)
    return v


@model(r'chrono::TimeDelta::num_days$')
def m_numdays(it, st, f, args, span):
    return scalar(it, st, args[0])


@model(r'chrono::TimeDelta::num_weeks$')
def m_numweeks(it, st, f, args, span):
    d = scalar(it, st, args[0])
    return bind(d, lambda x: it.idiv(x, L(7)))


@model(r'chrono::TimeDelta::(zero|num_\w+|abs|\w+)$')
def m_td(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if n == 'zero':
        return term(L(0))
    if n == 'abs':
        return bind(scalar(it, st, args[0]), lambda x: ite(ge0(x), term(x), term(scale(x, -1))))
    if n in ('num_hours', 'num_minutes', 'num_seconds'):
        k = {'num_hours': 24, 'num_minutes': 1440, 'num_seconds': 86400}[n]
        return fmap(scalar(it, st, args[0]), lambda x: scale(x, k))
    k = {'hours': 24, 'minutes': 1440, 'seconds': 86400, 'milliseconds': 86400000}.get(n.removeprefix('try_'))
    if k is not None:
        def whole(l):
            if l.c % k or any(b % k for _, b in l.ts):
                raise Unsupported('TimeDelta of part of a day')
            return Lin_div(l, k)
        v = fmap(scalar(it, st, args[0]), whole)
        lim = 106751991167
        ok = bind(v, lambda l: dand(le(L(-lim), l), le(l, L(lim))))
        if n.startswith('try') or n == 'milliseconds':
            return opt(ok, v) if n.startswith('try') else v
        panic(it, st, dnot(ok), 'panic: TimeDelta::%s out of bounds' % n, span)
        return v
    raise Unsupported('TimeDelta::' + n)


def Lin_div(l, k):
    r = L(l.c // k)
    for a, b in l.ts:
        r = add(r, scale(LA(a), b // k))
    return r


@model(r'<chrono::TimeDelta as std::ops::(Add|Sub|Neg|Mul)')
def m_tdop(it, st, f, args, span):
    a = scalar(it, st, args[0])
    if '::Neg' in f['def']:
        return fmap(a, lambda x: scale(x, -1))
    b = scalar(it, st, args[1])
    if '::Mul' in f['def']:
        return bind2(a, b, it.imul)
    sg = 1 if '::Add' in f['def'] else -1
    return bind2(a, b, lambda x, y: term(add(x, scale(y, sg))))


@model(r'<chrono::(NaiveDate|TimeDelta) as std::cmp::(Ord|PartialOrd|PartialEq|Eq)>::', r'std::cmp::Ord::(max|min|clamp)$', r'^std::cmp::(max|min)$')
def m_datecmp(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if f['targs'] and f['def'].startswith('std::cmp::'):
        d = it.ty(f['targs'][0])
        if not (d['k'] in ('int', 'uint', 'char') or it.is_date(d)):
            return NotImplemented
    a, b = scalar(it, st, args[0]), scalar(it, st, args[1])
    c = restrict(bind2(restrict(a, st.pc), restrict(b, st.pc), lambda x, y: term(L(0)) if x is y else cmp_dates(x, y)), st.pc)
    if n == 'cmp':
        return ordering(c)
    if n == 'partial_cmp':
        return some(ordering(c))
    if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        return it.rel(n.capitalize(), c)
    if n in ('max', 'min'):
        g = it.rel('Ge' if n == 'max' else 'Le', c)
        return ite(g, a, b)
    return NotImplemented


@model(r'std::cmp::PartialOrd::(lt|le|gt|ge)$', r'std::cmp::PartialEq::ne$')
def m_defcmp(it, st, f, args, span):
    d = it.ty(f['targs'][0])
    if it.is_date(d):
        return m_datecmp(it, st, f, args, span)
    return NotImplemented


@model(r'<chrono::Weekday as std::cmp::PartialEq>::(eq|ne)$')
def m_wdeq(it, st, f, args, span):
    a, b = deref(it, st, args[0]), deref(it, st, args[1])
    c = restrict(bind2(restrict(a.d, st.pc), restrict(b.d, st.pc), eq), st.pc)
    return dnot(c) if f['def'].endswith('ne') else c


@model(r'<chrono::Weekday as ')
def m_wd_other(it, st, f, args, span):
    return NotImplemented


@model(r'chrono::Weekday::(succ|pred)$')
def m_wdsucc(it, st, f, args, span):
    from .ints import mod_c
    k = 1 if f['def'].endswith('succ') else 6
    v = deref(it, st, args[0])
    return Enum(bind(v.d, lambda x: term(mod_c(add(x, L(k)), 7))), {i: () for i in range(7)})


def am(it, x, n):
    """Month arithmetic: expanded into fields, or as one uninterpreted date."""
    if it.opaque_months:
        return opaque_am(it, x, n)
    return add_months(x, n)


def opaque_am(it, x, n):
    if not n.ts and n.c == 0:
        return TRUE, term(x)
    if not n.ts and not x.ts:
        ok, d = add_months(x, n)
        return ok, d
    a = atom(('AM', x, n), MIN_D, MAX_D)
    dates.DATES[a] = (dates.MIN_YEAR, dates.MAX_YEAR)
    it.steps[('AM', x, n)] = None
    if any(s[0] == 'AM' and s[2] is n and in_month_of(x, s[1]) for s in it.failing):
        return FALSE, term(LA(a))
    ok = TRUE if it.months_total else mk(var_of(LA(atom(('AMok', x, n), 0, 1))), (1,), (FALSE, TRUE))
    return ok, term(LA(a))


def in_month_of(x, y):
    """The dates are written as days of the same month."""
    if x is y:
        return True
    d = sub(x, y)
    return 1 <= d.c <= 31 and len(d.ts) == 1 and d.ts[0][1] == -1 and LA(d.ts[0][0]) is dates.field('day', y).v


@model(r'(qlab_time::date::Date::weekend_roll|qroots::spec::s_weekend_roll)$')
def m_weekend_roll(it, st, f, args, span):
    if not it.opaque_roll:
        return NotImplemented
    v = args[0]
    wrapped = isinstance(v, Agg)
    x = restrict(v.fs[0] if wrapped else v, st.pc)

    def roll(l):
        a = atom(('WR', l), MIN_D, MAX_D)
        dates.DATES[a] = (dates.MIN_YEAR, dates.MAX_YEAR)
        it.steps[('WR', l)] = None
        return term(LA(a))
    r = bind(x, roll)
    v = some(Agg([r]) if wrapped else r)
    if it.failing:
        bad = bind(x, lambda l: bterm(('WR', l) in it.failing))
        if bad is not FALSE:
            v = Enum(ite(bad, term(L(0)), term(L(1))), {0: (), 1: v.vs[1]})
    return v


@model(r'chrono::NaiveDate::(checked_add_months|checked_sub_months)$')
def m_months(it, st, f, args, span):
    sg = 1 if 'add' in f['def'] else -1
    x, n = scalar(it, st, args[0]), scalar(it, st, args[1])
    x, n = restrict(x, st.pc), restrict(n, st.pc)
    memo = {}

    def both(a, b):
        k = (a, b)
        if k not in memo:
            memo[k] = am(it, a, scale(b, sg))
        return memo[k]
    ok = bind2(x, n, lambda a, b: both(a, b)[0])
    v = bind2(x, n, lambda a, b: both(a, b)[1])
    ok = restrict(ok, st.pc)
    return opt(ok, restrict(v, dand(st.pc, ok)))


@model(D + r'with_(year|month|day|month0|day0|ordinal)$')
def m_with(it, st, f, args, span):
    k = f['def'].rsplit('::', 1)[-1][5:]
    x, n = scalar(it, st, args[0]), scalar(it, st, args[1])
    if k.endswith('0'):
        k = k[:-1]
        n = fmap(n, lambda l: add(l, L(1)))
    def parts3(a, b):
        p = [field(q, a) for q in ('year', 'month', 'day')]
        if k == 'ordinal':
            return None
        p[('year', 'month', 'day').index(k)] = term(b)
        return p

    def ok(a, b):
        p = parts3(a, b)
        return bind3(st, p[0], p[1], p[2], valid_ymd)

    def val(a, b):
        p = parts3(a, b)
        return bind3(st, p[0], p[1], p[2], lambda y, m, d: UNDEFD if valid_ymd(y, m, d) is FALSE else build(y, m, d))
    if k == 'ordinal':
        y = bindpc(st, x, lambda a: field('year', a))
        return m_yo(it, st, f, [y, n], span)
    x, n = restrict(x, st.pc), restrict(n, st.pc)
    c = restrict(bind2(x, n, ok), st.pc)
    v = bind2(x, n, val)
    return opt(c, restrict(v, dand(st.pc, c)) if dand(st.pc, c) is not FALSE else v)


@model(r'chrono::NaiveDate::from_isoywd_opt$')
def m_isoywd(it, st, f, args, span):
    y, w = scalar(it, st, args[0]), scalar(it, st, args[1])
    wd = deref(it, st, args[2]).d

    def val(a, b, c):
        j4 = bind(dates.first(a, L(1)), lambda z: term(add(z, L(3))))
        return bind(j4, lambda z: bind(field('weekday', z), lambda k: term(add(sub(z, k), add(scale(add(b, L(-1)), 7), c)))))
    v = restrict(bind3(st, y, w, wd, val), st.pc)
    th = restrict(bind3(st, y, w, wd, lambda a, b, c: val(a, b, L(3))), st.pc)

    def ok(a, b, c):
        r = dand(le(L(dates.MIN_YEAR), a), le(a, L(dates.MAX_YEAR)))
        r = dand(r, dand(le(L(1), b), le(b, L(53))))
        long = bind(th, lambda t: bind(field('year', t), lambda k: eq(k, a)))
        return dand(r, dor(le(b, L(52)), long))
    c = bind3(st, y, w, wd, ok)
    c = dand(c, bind(v, lambda l: dand(le(L(MIN_D), l), le(l, L(MAX_D)))))
    c = restrict(c, st.pc)
    return opt(c, restrict(v, dand(st.pc, c)) if dand(st.pc, c) is not FALSE else v)


@model(r'chrono::NaiveDate::years_since$')
def m_years(it, st, f, args, span):
    a, b = scalar(it, st, args[0]), scalar(it, st, args[1])

    def parts(x):
        return bindpc(st, x, lambda l: bindpc(st, field('month', l), lambda m: bindpc(st, field('day', l), lambda q: term(add(scale(m, 32), q)))))
    ya, yb = (bindpc(st, x, lambda l: field('year', l)) for x in (a, b))
    before = restrict(bind2(parts(a), parts(b), lt), st.pc)
    dy = restrict(bind2(ya, yb, lambda x, y: term(sub(x, y))), st.pc)
    v = restrict(ite(before, fmap(dy, lambda l: add(l, L(-1))), dy), st.pc)
    return opt(restrict(bind(v, ge0), st.pc), v)


@model(r'chrono::NaiveDate::(iter_days|iter_weeks)$')
def m_iterdays(it, st, f, args, span):
    return Agg([scalar(it, st, args[0])])


@model(r'<chrono::naive::NaiveDate(Days|Weeks)Iterator as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$')
def m_iterdays_next(it, st, f, args, span):
    p = args[0]
    cur = it.read(st, p.key, p.path).fs[0]
    n = 7 if 'Weeks' in f['def'] else 1
    ok, nx = shift(it, st, cur, term(L(-n if f['def'].endswith('back') else n)))
    it.write(st, p.key, p.path, Agg([nx if ok is TRUE else ite(ok, nx, cur)]))
    return opt(ok, cur)


@model(r'chrono::NaiveDate::(and_hms|format|and_time|diff_months|abs_diff)')
def m_nochrono(it, st, f, args, span):
    raise Unsupported(f['def'])


# ------------------------------------------------------------------------------------ num-traits and floats
@model(r'<f(32|64) as num_traits::cast::FromPrimitive>::from_(i|u|f)\w+$')
def m_fromprim(it, st, f, args, span):
    x = scalar(it, st, args[0])
    return some(bind(x, lambda l: term(l if isinstance(l, F) else from_int(l))))


@model(r'as num_traits::cast::ToPrimitive>::to_f(32|64)$')
def m_tof(it, st, f, args, span):
    x = scalar(it, st, args[0])
    return some(bind(x, lambda l: term(l if isinstance(l, F) else from_int(l))))


@model(r'<f(32|64) as num_traits::identities::(Zero|One)>::(zero|one|is_zero|is_one)$')
def m_zero(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if n in ('zero', 'one'):
        return term(fconst(0 if n == 'zero' else 1))
    x = scalar(it, st, args[0])
    c = fconst(0 if n == 'is_zero' else 1)
    return bind(x, lambda l: it.rel('Eq', it.fcmp(l, c)))


@model(r'<f(32|64) as std::ops::(Add|Sub|Mul|Div|Rem|Neg)(Assign)?(<[^>]*>)?>::\w+$', r'ops::arith::<impl std::ops::(Add|Sub|Mul|Div|Rem|Neg)(Assign)?(<[^>]*>)? for &?f(32|64)>')
def m_fop(it, st, f, args, span):
    m = re.search(r'std::ops::(Add|Sub|Mul|Div|Rem|Neg)(Assign)?', f['def'])
    op = m.group(1)
    a = scalar(it, st, args[0])
    if op == 'Neg':
        return bind(a, lambda x: term(fneg(x)))
    b = scalar(it, st, args[1])
    r = restrict(bind2(restrict(a, st.pc), restrict(b, st.pc), lambda x, y: it.leafop(op, x, y, None)), st.pc)
    if m.group(2):
        it.write(st, args[0].key, args[0].path, r)
        return unit()
    return r


FUN1 = r'(exp|recip|ln|sqrt|abs|powi|powf|floor|ceil|round|trunc|max|min|mul_add|signum|exp_m1|ln_1p|is_nan|is_finite|is_infinite|is_sign_negative|is_sign_positive|total_cmp|clamp|abs_sub|exp2|log10|log2|log|sin|cos|tan|cbrt|hypot|fract|copysign)'


@model(r'num_traits::(real::Real|float::Float|float::FloatCore|sign::Signed|pow::Pow)(<[^>]*>)?>?::' + FUN1 + '$', r'^std::f(32|64)::<impl f(32|64)>::' + FUN1 + '$', r'^core::f(32|64)::<impl f(32|64)>::' + FUN1 + '$',
       r'^core::num::f(32|64)::<impl f(32|64)>::' + FUN1 + '$', r'^(std|core)::num::.*<impl f(32|64)>::' + FUN1 + '$', r'^std::intrinsics::(expf|lnf|sqrtf|fabsf|exp|log|sqrt|fabs|powi|powf|fma|floor|ceil|trunc|round)\w*$', r'<impl f(32|64)>::' + FUN1 + '$')
def m_ffun(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    n = re.sub(r'(f32|f64)$', '', n)
    a = restrict(scalar(it, st, args[0]), st.pc)
    if not all(isinstance(x, F) for x in leaves(a)):
        return NotImplemented
    return ffun_apply(it, st, n, a, [scalar(it, st, x) for x in args[1:]])


def ffun_apply(it, st, n, a, rest):
    rest = [restrict(x, st.pc) for x in rest]
    if n == 'exp':
        return bind(a, lambda x: term(fexp(x)))
    if n == 'exp_m1':
        return bind(a, lambda x: term(fsub(fexp(x), fconst(1))))
    if n == 'exp2':
        return bind(a, lambda x: term(ffun('exp2', x)))
    if n == 'recip':
        return bind(a, lambda x: term(fdiv(fconst(1), x)))
    if n in ('abs', 'fabs'):
        z = fconst(0)
        return bind(a, lambda x: ite(it.rel('Ge', it.fcmp(x, z)), term(x), term(fneg(x))))
    if n in ('max', 'min'):
        op = 'Ge' if n == 'max' else 'Le'
        return bind2(a, rest[0], lambda x, y: ite(it.rel(op, it.fcmp(x, y)), term(x), term(y)))
    if n == 'mul_add' or n == 'fma':
        m = bind2(a, rest[0], lambda x, y: term(fmul(x, y)))
        return bind2(m, rest[1], lambda x, y: term(fadd(x, y)))
    if n == 'powi':
        def p(x, k):
            if k.ts or abs(k.c) > 64:
                return term(ffun('powi', x, from_int(k)))
            r = fconst(1)
            for _ in range(abs(k.c)):
                r = fmul(r, x)
            return term(r if k.c >= 0 else fdiv(fconst(1), r))
        return bind2(a, rest[0], p)
    if n == 'ln' or n == 'log' and not rest:
        return bind(a, lambda x: term(ffun('ln', x)))
    if n in ('is_nan', 'is_infinite'):
        return FALSE
    if n == 'is_finite':
        return TRUE
    if n in ('is_sign_negative', 'is_sign_positive', 'total_cmp', 'clamp', 'signum'):
        z = fconst(0)
        if n == 'is_sign_negative':
            return bind(a, lambda x: it.rel('Lt', it.fcmp(x, z)))
        if n == 'is_sign_positive':
            return bind(a, lambda x: it.rel('Ge', it.fcmp(x, z)))
        if n == 'total_cmp':
            return ordering(bind2(a, rest[0], it.fcmp))
        if n == 'signum':
            return bind(a, lambda x: ite(it.rel('Lt', it.fcmp(x, z)), term(fconst(-1)), term(fconst(1))))
        lo, hi = rest
        m = bind2(a, lo, lambda x, y: ite(it.rel('Ge', it.fcmp(x, y)), term(x), term(y)))
        return bind2(m, hi, lambda x, y: ite(it.rel('Le', it.fcmp(x, y)), term(x), term(y)))

    def fun(done, more):
        if not more:
            return term(ffun(n, *done))
        return bind(more[0], lambda y: fun(done + [y if isinstance(y, F) else from_int(y)], more[1:]))
    return fun([], [a] + rest)


@model(r'std::cmp::impls::<impl std::cmp::(PartialOrd|PartialEq|Ord) for (f32|f64|u\d+|i\d+|usize|isize|char|bool)>::(\w+)$')
def m_primcmp(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    a, b = restrict(scalar(it, st, args[0]), st.pc), restrict(scalar(it, st, args[1]), st.pc)
    if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        return it.binop(st, n.capitalize(), a, b, None)
    c = restrict(bind2(a, b, it.cmp3), st.pc)
    if n == 'cmp':
        return ordering(c)
    if n == 'partial_cmp':
        return some(ordering(c))
    if n in ('max', 'min'):
        g = it.rel('Ge' if n == 'max' else 'Le', c)
        return ite(g, b if False else a, b)
    if n == 'clamp':
        lo, hi = b, restrict(scalar(it, st, args[2]), st.pc)
        m = ite(it.rel('Ge', bind2(a, lo, it.cmp3)), a, lo)
        return ite(it.rel('Le', bind2(m, hi, it.cmp3)), m, hi)
    return NotImplemented


# integer helpers and intrinsics
@model(r'^std::intrinsics::(saturating_add|saturating_sub|wrapping_add|wrapping_sub|wrapping_mul|unchecked_add|unchecked_sub|unchecked_mul|add_with_overflow|sub_with_overflow|mul_with_overflow|exact_div|unchecked_div|unchecked_rem)$')
def m_intr(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    a, b = args
    t = f['targs'][0]
    op = 'Add' if 'add' in n else 'Sub' if 'sub' in n else 'Mul' if 'mul' in n else 'Rem' if 'rem' in n else 'Div'
    if op in ('Div', 'Rem'):
        return bind2(a, b, lambda x, y: it.leafop(op, x, y, t))
    v = restrict(bind2(a, b, lambda x, y: it.arith(op, x, y)), st.pc)
    if 'overflow' in n:
        return Agg([it.wrap(v, t), dnot(it.inrange(v, t))])
    if 'saturating' in n:
        lo, hi = it.irange(t)
        return bind(v, lambda x: ite(lt(x, L(lo)), term(L(lo)), ite(lt(L(hi), x), term(L(hi)), term(x))))
    return it.wrap(v, t)


INT = r'(core|std)::num::<impl (u\d+|i\d+|usize|isize)>::'


def int_ty(it, f):
    m = re.search(r'<impl (u\d+|i\d+|usize|isize)>', f['def'])
    return it.p.tyname[m.group(1)]


@model(INT + r'(checked_add|checked_sub|checked_mul|checked_neg|checked_add_signed|checked_sub_unsigned|checked_add_unsigned)$')
def m_ichecked(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    t = int_ty(it, f)
    if n == 'checked_neg':
        v = fmap(args[0], lambda x: scale(x, -1))
    else:
        op = 'Add' if 'add' in n else 'Sub' if 'sub' in n else 'Mul'
        v = restrict(bind2(args[0], args[1], lambda x, y: it.arith(op, x, y)), st.pc)
    return opt(it.inrange(v, t), v)


@model(INT + r'(checked_div|checked_rem|checked_div_euclid|checked_rem_euclid)$')
def m_icheckeddiv(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    ok = dnot(bind(args[1], lambda y: eq0(y)))
    v = idiv_any(it, n.replace('checked_', ''), args[0], args[1])
    return opt(ok, v)


def idiv_any(it, n, a, b):
    def one(x, y):
        if not y.ts and y.c == 0:
            return term(L(0))
        q = it.idiv(x, y)
        if n == 'div':
            return q
        r = bind(q, lambda z: bind(it.imul(z, y), lambda m: term(sub(x, m))))
        if n == 'rem':
            return r
        if y.ts:
            raise Unsupported(n)
        k = abs(y.c)
        from .ints import mod_c
        m = mod_c(x, k)
        if n == 'rem_euclid':
            return term(m)
        return term(scale(fdiv_c(x, k), 1 if y.c > 0 else -1))
    return bind2(a, b, one)


@model(r'^std::intrinsics::integer_(min|max)$')
def m_intminmax(it, st, f, args, span):
    small = f['def'].endswith('min')
    a, b = restrict(args[0], st.pc), restrict(args[1], st.pc)
    return bind2(a, b, lambda x, y: ite(lt(x, y), term(x if small else y), term(y if small else x)))


@model(INT + r'(div_euclid|rem_euclid)$')
def m_euclid(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    panic(it, st, bind(args[1], eq0), 'panic: division by zero', span)
    return idiv_any(it, n, args[0], args[1])


@model(INT + r'(wrapping_add|wrapping_sub|wrapping_mul|saturating_add|saturating_sub|saturating_mul|overflowing_add|overflowing_sub|unchecked_add|unchecked_sub|unchecked_mul|abs|unsigned_abs|abs_diff|pow|signum|is_positive|is_negative|min|max|clamp)$')
def m_imisc(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    t = int_ty(it, f)
    a = restrict(scalar(it, st, args[0]), st.pc)
    if n in ('min', 'max', 'clamp'):
        b = restrict(scalar(it, st, args[1]), st.pc)
        if n == 'clamp':
            panic(it, st, bind2(b, args[2], lambda x, y: lt(y, x)), 'panic: clamp with min > max', span)
            a = bind2(a, b, lambda x, y: ite(lt(x, y), term(y), term(x)))
            return bind2(a, args[2], lambda x, y: ite(lt(y, x), term(y), term(x)))
        return bind2(a, b, lambda x, y: ite(lt(x, y), term(x if n == 'min' else y), term(y if n == 'min' else x)))
    if n == 'abs':
        panic(it, st, bind(a, lambda x: le(x, L(it.irange(t)[0]))), 'attempt to negate with overflow', span)
    if n in ('abs', 'unsigned_abs'):
        return bind(a, lambda x: ite(ge0(x), term(x), term(scale(x, -1))))
    if n in ('is_positive', 'is_negative'):
        return bind(a, lambda x: lt(L(0), x) if n == 'is_positive' else lt(x, L(0)))
    if n == 'signum':
        return bind(a, lambda x: ite(eq0(x), term(L(0)), ite(ge0(x), term(L(1)), term(L(-1)))))
    b = restrict(scalar(it, st, args[1]), st.pc)
    if n == 'abs_diff':
        return bind2(a, b, lambda x, y: ite(le(x, y), term(sub(y, x)), term(sub(x, y))))
    if n == 'pow':
        def p(x, k):
            if k.ts:
                raise Unsupported('pow')
            r = term(L(1))
            for _ in range(k.c):
                r = bind(r, lambda z: it.imul(z, x))
            return r
        return bind2(a, b, p)
    op = 'Add' if 'add' in n else 'Sub' if 'sub' in n else 'Mul'
    v = restrict(bind2(a, b, lambda x, y: it.arith(op, x, y)), st.pc)
    lo, hi = it.irange(t)
    if 'saturating' in n:
        return bind(v, lambda x: ite(lt(x, L(lo)), term(L(lo)), ite(lt(L(hi), x), term(L(hi)), term(x))))
    if 'overflowing' in n:
        return Agg([it.wrap(v, t), dnot(it.inrange(v, t))])
    return it.wrap(v, t)


@model(r'convert::num::.*<impl std::convert::(From|Into)<.*> for (u\d+|i\d+|usize|isize|f32|f64)>::(from|into)$')
def m_from(it, st, f, args, span):
    v = args[0]
    m = re.search(r' for (u\d+|i\d+|usize|isize|f32|f64)>', f['def'])
    tof = m.group(1)[0] == 'f'
    return bind(v, lambda x: term(L(int(x))) if isinstance(x, bool) and not tof else
                term(from_int(L(int(x)))) if isinstance(x, bool) else
                term(from_int(x)) if tof and isinstance(x, Lin) else term(x))


@model(r'convert::num::.*<impl std::convert::TryFrom<.*> for (u\d+|i\d+|usize|isize)>::try_from$')
def m_tryfrom(it, st, f, args, span):
    m = re.search(r' for (u\d+|i\d+|usize|isize)>', f['def'])
    t = it.p.tyname[m.group(1)]
    v = args[0]
    ok = it.inrange(v, t)
    return Enum(ite(ok, term(L(0)), term(L(1))), {0: (v,), 1: (unit(),)})


@model(r'std::intrinsics::(size_of|min_align_of|align_of)')
def m_size(it, st, f, args, span):
    d = it.ty(f['targs'][0])
    return term(L(d.get('layout_size', 8)))


@model(r'std::hint::select_unpredictable|intrinsics::select_unpredictable|bool>::select')
def m_select(it, st, f, args, span):
    return vite(restrict(args[0], st.pc), args[1], args[2])


@model(r'^std::mem::(swap|replace|take)$')
def m_mem(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if n == 'swap':
        a, b = args
        x, y = it.read(st, a.key, a.path), it.read(st, b.key, b.path)
        it.write(st, a.key, a.path, y)
        it.write(st, b.key, b.path, x)
        return unit()
    if n == 'replace':
        a = args[0]
        x = it.read(st, a.key, a.path)
        it.write(st, a.key, a.path, args[1])
        return x
    a = args[0]
    x = it.read(st, a.key, a.path)
    if isinstance(x, VecV):
        it.write(st, a.key, a.path, VecV(()))
        return x
    return NotImplemented


@model(r'^std::intrinsics::(discriminant_value)$')
def m_discrv(it, st, f, args, span):
    return deref(it, st, args[0]).d


@model(r'std::ptr::(read|write)$|ptr::mut_ptr::<impl \*mut T>::(write|read)$|const_ptr::<impl \*const T>::read$|intrinsics::(read_via_copy|write_via_move)')
def m_ptrrw(it, st, f, args, span):
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('raw pointer')
    if len(args) == 2:
        it.write(st, p.key, p.path, args[1])
        return unit()
    return it.read(st, p.key, p.path)


# ------------------------------------------------------------------------------------ Vec and Box
@model(r'^std::vec::Vec::<T(, A)?>::(new|with_capacity|new_in|with_capacity_in)$', r'<std::vec::Vec<T> as std::default::Default>::default$', r'<std::vec::Vec<T> as std::default')
def m_vecnew(it, st, f, args, span):
    return VecV(())


def vec_at(it, st, p):
    v = it.read(st, p.key, p.path)
    while isinstance(v, Ptr):
        p = v
        v = it.read(st, p.key, p.path)
    if not isinstance(v, (VecV, BoxV)):
        if isinstance(v, Agg):
            return p, v
        raise Unsupported('Vec operation on %s' % type(v).__name__)
    return p, v


@model(r'^std::vec::Vec::<T, A>::(push|push_mut)$')
def m_push(it, st, f, args, span):
    p, v = vec_at(it, st, args[0])
    it.write(st, p.key, p.path, VecV(v.fs + (args[1],)))
    return unit()


@model(r'^std::vec::Vec::<T, A>::pop$')
def m_pop(it, st, f, args, span):
    p, v = vec_at(it, st, args[0])
    if not v.fs:
        return none()
    it.write(st, p.key, p.path, VecV(v.fs[:-1]))
    return some(v.fs[-1])


@model(r'^std::vec::Vec::<T, A>::(len|is_empty|capacity)$')
def m_veclen(it, st, f, args, span):
    p, v = vec_at(it, st, args[0])
    n = len(v.fs)
    return bterm(n == 0) if f['def'].endswith('is_empty') else term(L(n))


@model(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$')
def m_reserve(it, st, f, args, span):
    return unit()


@model(r'^std::vec::Vec::<T, A>::(clear|truncate|insert|remove|swap_remove|append|resize|extend_from_slice)$')
def m_vecmod(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    p, v = vec_at(it, st, args[0])
    fs = list(v.fs)
    r = unit()
    if n == 'clear':
        fs = []
    elif n == 'truncate':
        fs = fs[:it.concrete(st, args[1])]
    elif n in ('insert', 'remove', 'swap_remove'):
        i = it.concrete(st, args[1])
        if i > len(fs) or (n != 'insert' and i >= len(fs)):
            it.obligation('panic: Vec::%s index out of bounds' % n, st.pc, span, it.stack[-1][0] if it.stack else '?')
            return []
        if n == 'insert':
            fs.insert(i, args[2])
        elif n == 'remove':
            r = fs.pop(i)
        else:
            r = fs[i]
            fs[i] = fs[-1]
            fs.pop()
    elif n == 'append':
        q, w = vec_at(it, st, args[1])
        fs += w.fs
        it.write(st, q.key, q.path, VecV(()))
    elif n == 'resize':
        k = it.concrete(st, args[1])
        fs = fs[:k] + [args[2]] * (k - len(fs))
    else:
        fs += elems(it, st, args[1])
    it.write(st, p.key, p.path, VecV(fs))
    return r


@model(r'^std::vec::Vec::<T, A>::(as_slice|as_mut_slice|leak)$', r'<std::vec::Vec<T, A> as std::(ops::Deref|ops::DerefMut|convert::AsRef<.*>|convert::AsMut<.*>|borrow::Borrow<.*>)>::', r'<\[T; N\] as std::(convert|borrow)', r'core::array::<impl \[T; N\]>::(as_slice|as_mut_slice)$')
def m_vecslice(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    return Ptr(p.key, p.path, (s, n))


@model(r'^std::vec::from_elem$', r'SpecFromElem>::from_elem$')
def m_fromelem(it, st, f, args, span):
    n = it.concrete(st, args[1])
    if n > 4096:
        raise Unsupported('large vec')
    return VecV([args[0]] * n)


@model(r'slice::<impl \[T\]>::(to_vec|into_vec|to_owned|to_vec_in)$', r'<std::vec::Vec<T> as std::convert::From<.*\[T.*>>::from$', r'ConvertVec>::to_vec', r'<\[T\] as std::borrow::ToOwned>::to_owned', r'slice::.*ToOwned.*::to_owned$')
def m_tovec(it, st, f, args, span):
    a = args[0]
    if isinstance(a, BoxV):
        return VecV(a.v.fs)
    if isinstance(a, Agg):
        return VecV(a.fs)
    return VecV(elems(it, st, a))


@model(r'^std::boxed::box_assume_init_into_vec_unsafe$', r'^std::slice::into_vec$')
def m_boxvec(it, st, f, args, span):
    v = args[0].v
    while isinstance(v, Agg) and len(v.fs) and (v.fs[-1] is not UNDEF) and isinstance(v.fs[-1], Agg) and (len(v.fs) == 2 and v.fs[0] is UNDEF or len(v.fs) == 1):
        v = v.fs[-1]
    return VecV(v.fs)


@model(r'^std::boxed::Box::<T>::new_uninit$', r'^std::boxed::box_new_uninit$')
def m_boxuninit(it, st, f, args, span):
    return BoxV(UNDEF)


@model(r'^std::boxed::Box::<T>::new$', r'^std::boxed::box_new$')
def m_boxnew(it, st, f, args, span):
    return BoxV(args[0])


@model(r'^std::vec::Vec::<T, A>::into_boxed_slice$')
def m_boxed(it, st, f, args, span):
    return BoxV(args[0])


# ------------------------------------------------------------------------------------ slices
@model(r'^core::slice::<impl \[T\]>::(len|is_empty)$')
def m_slen(it, st, f, args, span):
    p = args[0]
    if isinstance(p, StrV):
        raise Unsupported('text length')
    v, p, s, n = seq(it, st, p)
    return bterm(n == 0) if f['def'].endswith('is_empty') else term(L(n))


@model(r'^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$')
def m_first(it, st, f, args, span):
    ps = elem_ptrs(it, st, args[0])
    if not ps:
        return none()
    return some(ps[0 if 'first' in f['def'] else -1])


def subptr(p, s, n):
    return Ptr(p.key, p.path, (s, n))


@model(r'^core::slice::<impl \[T\]>::(split_first|split_last)$')
def m_splitfirst(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    if n == 0:
        return none()
    ps = elem_ptrs(it, st, args[0])
    if f['def'].endswith('split_first'):
        return some(Agg([ps[0], subptr(p, s + 1, n - 1)]))
    return some(Agg([ps[-1], subptr(p, s, n - 1)]))


@model(r'^core::slice::<impl \[T\]>::(split_at|split_at_mut)$')
def m_splitat(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    k = it.concrete(st, args[1])
    if k > n:
        it.obligation('panic: split_at out of bounds', st.pc, span, it.stack[-1][0])
        return []
    return Agg([subptr(p, s, k), subptr(p, s + k, n - k)])


@model(r'^core::slice::<impl \[T\]>::swap$')
def m_swap(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    i, j = it.concrete(st, args[1]), it.concrete(st, args[2])
    if i >= n or j >= n:
        it.obligation('panic: swap out of bounds', st.pc, span, it.stack[-1][0])
        return []
    fs = list(v.fs)
    fs[s + i], fs[s + j] = fs[s + j], fs[s + i]
    r = type(v).__new__(type(v))
    r.fs, r.ty = tuple(fs), v.ty
    it.write(st, p.key, p.path, r)
    return unit()


@model(r'^core::slice::<impl \[T\]>::reverse$')
def m_reverse(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    fs = list(v.fs)
    fs[s:s + n] = fs[s:s + n][::-1]
    r = type(v).__new__(type(v))
    r.fs, r.ty = tuple(fs), v.ty
    it.write(st, p.key, p.path, r)
    return unit()


def range_of(it, st, f, idx, n):
    """(start, end) of a range index value; the kind is taken from the type name."""
    name = f['name']
    if isinstance(idx, Agg):
        fs = [it.concrete(st, x) if isdd(x) and i < 2 and not isinstance(next(iter(leaves(x))), bool) else x for i, x in enumerate(idx.fs)]
    if 'RangeFull' in name:
        return 0, n
    if 'RangeFrom' in name:
        return fs[0], n
    if 'RangeToInclusive' in name:
        return 0, fs[0] + 1
    if 'RangeTo' in name:
        return 0, fs[0]
    if 'RangeInclusive' in name:
        return fs[0], fs[1] + 1
    if 'Range<' in name:
        return fs[0], fs[1]
    raise Unsupported('slice index ' + name)


@model(r'(Index|IndexMut)<I> for \[T\]>::(index|index_mut)$', r'<std::vec::Vec<T, A> as std::ops::(Index|IndexMut)<I>>::', r'array::<impl std::ops::(Index|IndexMut)<I> for \[T; N\]>::')
def m_index(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    i = args[1]
    if isdd(i):
        i = restrict(i, st.pc)
        bad = bind(i, lambda x: dnot(lt(x, L(n))))
        panic(it, st, bad, 'BoundsCheck', span)
        if st.pc is FALSE:
            return []
        i = restrict(i, st.pc)
        return Ptr(p.key, p.path + (('i', bind(i, lambda x: term(add(x, L(s))))),))
    a, b = range_of(it, st, f, i, n)
    if a > b or b > n:
        it.obligation('panic: slice range out of bounds', st.pc, span, it.stack[-1][0] if it.stack else '?')
        return []
    return subptr(p, s + a, b - a)


@model(r'^core::slice::<impl \[T\]>::(get|get_mut)$')
def m_get(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    i = args[1]
    if isdd(i):
        i = restrict(i, st.pc)
        ok = bind(i, lambda x: lt(x, L(n)))
        i = restrict(i, dand(st.pc, ok)) if dand(st.pc, ok) is not FALSE else term(L(0))
        return opt(restrict(ok, st.pc), Ptr(p.key, p.path + (('i', bind(i, lambda x: term(add(x, L(s))))),)))
    a, b = range_of(it, st, f, i, n)
    if a > b or b > n:
        return none()
    return some(subptr(p, s + a, b - a))


@model(r'^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$')
def m_getu(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    return Ptr(p.key, p.path + (('i', bind(args[1], lambda x: term(add(x, L(s))))),))


@model(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$', r'IntoIterator for &.*(\[T\]|\[T; N\])>::into_iter$', r'<&.*std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$', r'^std::slice::Iter::<.*>::new$')
def m_iter(it, st, f, args, span):
    return NIter(tuple(elem_ptrs(it, st, args[0])))


@model(r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$', r'IntoIterator for \[T; N\]>::into_iter$')
def m_intoiter(it, st, f, args, span):
    return NIter(tuple(args[0].fs))


@model(r'^core::slice::<impl \[T\]>::(windows|chunks|chunks_exact|rchunks|array_windows|array_chunks)$')
def m_windows(it, st, f, args, span):
    v, p, s, n = seq(it, st, args[0])
    n0 = f['def'].rsplit('::', 1)[-1]
    if len(args) < 2:
        raise Unsupported(n0)
    k = it.concrete(st, args[1])
    if k == 0:
        it.obligation('panic: window size is zero', st.pc, span, it.stack[-1][0])
        return []
    if n0 == 'windows':
        return NIter(tuple(subptr(p, s + i, k) for i in range(n - k + 1)))
    if n0 == 'chunks':
        return NIter(tuple(subptr(p, s + i, min(k, n - i)) for i in range(0, n, k)))
    if n0 == 'chunks_exact':
        return NIter(tuple(subptr(p, s + i, k) for i in range(0, n - k + 1, k)))
    raise Unsupported(n0)


def calls_bool(it, st, fn, args, span):
    """Call a predicate; returns [(state, bool diagram)]."""
    return it.call_value(st, fn, args, span)


@model(r'^core::slice::<impl \[T\]>::partition_point$')
def m_pp(it, st, f, args, span):
    ps = elem_ptrs(it, st, args[0])
    # the slice is partitioned by the predicate: the result is the first index where it is false
    outs = [(st, [])]
    for p in ps:
        nxt = []
        for s, cs in outs:
            for s2, c in calls_bool(it, s, args[1], [p], span):
                nxt.append((s2, cs + [c]))
        outs = nxt
    res = []
    for s, cs in outs:
        r = term(L(len(cs)))
        for i in range(len(cs) - 1, -1, -1):
            r = ite(restrict(cs[i], s.pc), r, term(L(i)))
        res.append((s, r))
    return res


@model(r'^core::slice::<impl \[T\]>::(binary_search|binary_search_by|binary_search_by_key)$')
def m_bs(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    ps = elem_ptrs(it, st, args[0])
    outs = [(st, [])]
    for p in ps:
        nxt = []
        for s, cs in outs:
            if n == 'binary_search_by':
                o = it.call_value(s, args[1], [p], span)
                nxt += [(s2, cs + [v.d]) for s2, v in o]
            elif n == 'binary_search':
                a, b = scalar(it, s, p), scalar(it, s, args[1])
                c = bind2(a, b, it.cmp3)
                nxt.append((s, cs + [fmap(c, lambda x: add(x, L(1)))]))
            else:
                for s2, k in it.call_value(s, args[2], [p], span):
                    c = bind2(scalar(it, s2, k), scalar(it, s2, args[1]), it.cmp3)
                    nxt.append((s2, cs + [fmap(c, lambda x: add(x, L(1)))]))
        outs = nxt
    res = []
    for s, cs in outs:
        # sorted: Less* Equal? Greater*
        idx = term(L(len(cs)))
        tag = term(L(1))
        for i in range(len(cs) - 1, -1, -1):
            e = bind(cs[i], lambda x: eq(x, L(1)))
            g = bind(cs[i], lambda x: eq(x, L(2)))
            idx = ite(dor(e, g), term(L(i)), idx)
            tag = ite(e, term(L(0)), ite(g, term(L(1)), tag))
        res.append((s, Enum(tag, {0: (idx,), 1: (idx,)})))
    return res


def plaineq(it, t, depth=0):
    """Equality of this type is equality of its parts."""
    d = it.ty(t)
    k = d['k']
    if k in ('int', 'uint', 'bool', 'char', 'float'):
        return True
    if depth > 6:
        return False
    if k == 'tuple':
        return all(plaineq(it, x, depth + 1) for x in d['elems'])
    if k in ('array', 'slice', 'ref'):
        return plaineq(it, d['elem'], depth + 1)
    if k == 'adt':
        if it.is_date(d):
            return True
        if d['crate'] in ('core', 'std', 'chrono') and (d['name'].endswith('::Option') or d['name'].endswith('::Weekday') or d['name'].endswith('::Month')):
            return all(plaineq(it, x[1], depth + 1) for v in d['variants'] for x in v['fields'])
    return False


def veq(it, st, a, b):
    """Condition under which two values of a plain type are equal."""
    a, b = deref(it, st, a), deref(it, st, b)
    if isdd(a) and isdd(b):
        return bind2(restrict(a, st.pc), restrict(b, st.pc), lambda i, j: it.rel('Eq', it.cmp3(i, j)))
    if isinstance(a, Enum) and isinstance(b, Enum):
        c = bind2(restrict(a.d, st.pc), restrict(b.d, st.pc), lambda i, j: eq(i, j))
        for k in set(a.vs) & set(b.vs):
            here = bind(a.d, lambda x: eq(x, L(k)))
            for x, y in zip(a.vs[k], b.vs[k]):
                c = dand(c, dor(dnot(here), veq(it, st, x, y)))
        return c
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
        c = TRUE
        for x, y in zip(a.fs, b.fs):
            if c is not FALSE:
                c = dand(c, veq(it, st, x, y))
        return c
    if isinstance(a, Agg) and len(a.fs) == 1:
        return veq(it, st, a.fs[0], b)
    if isinstance(b, Agg) and len(b.fs) == 1:
        return veq(it, st, a, b.fs[0])
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


@model(r'slice::<impl \[T\]>::(concat|join|rotate_left|rotate_right|fill|copy_from_slice|clone_from_slice|contains)$')
def m_slicemisc(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    v, p, s, m = seq(it, st, args[0])
    if n == 'contains':
        x = args[1]
        c = FALSE
        plain = bool(f['targs']) and plaineq(it, f['targs'][0])
        for q in elem_ptrs(it, st, args[0]):
            if not plain:
                a = scalar(it, st, q)
                b = scalar(it, st, x)
            else:
                c = dor(c, restrict(veq(it, st, q, x), st.pc))
                continue
            c = dor(c, restrict(bind2(restrict(a, st.pc), restrict(b, st.pc), lambda i, j: it.rel('Eq', it.cmp3(i, j))), st.pc))
        return c
    if n in ('fill', 'copy_from_slice', 'clone_from_slice'):
        fs = list(v.fs)
        new = [args[1]] * m if n == 'fill' else elems(it, st, args[1])
        if len(new) != m:
            it.obligation('panic: slice lengths differ', st.pc, span, it.stack[-1][0])
            return []
        fs[s:s + m] = new
        r = type(v).__new__(type(v))
        r.fs, r.ty = tuple(fs), v.ty
        it.write(st, p.key, p.path, r)
        return unit()
    if n in ('rotate_left', 'rotate_right'):
        k = it.concrete(st, args[1])
        if k > m:
            it.obligation('panic: rotation beyond the length', st.pc, span, it.stack[-1][0])
            return []
        k = k if n == 'rotate_left' else m - k
        setelems(it, st, args[0], list(v.fs[s + k:s + m]) + list(v.fs[s:s + k]))
        return unit()
    if n == 'concat':
        out = []
        for q in elem_ptrs(it, st, args[0]):
            x = it.read(st, q.key, q.path)
            out += elems(it, st, x if isinstance(x, Ptr) else q)
        return VecV(tuple(out))
    raise Unsupported(f['def'])


def setelems(it, st, ptr, new):
    """Write the elements of a slice."""
    v, p, s, m = seq(it, st, ptr)
    fs = list(v.fs)
    fs[s:s + m] = new
    r = type(v).__new__(type(v))
    r.fs, r.ty = tuple(fs), v.ty
    it.write(st, p.key, p.path, r)


def with_refs(it, st, vals, call):
    """Call with references to values: [(state, result)]."""
    fid = it.new_frame()
    st.mem[fid] = dict(enumerate(vals))
    st.own.add(fid)
    outs = call([Ptr((fid, i)) for i in range(len(vals))])
    for s, v in outs:
        s.mem.pop(fid, None)
        s.own.discard(fid)
    return outs


def order(it, st, f, a, b, span):
    """How two values of an ordered type compare: [(state, 0 less, 1 equal, 2 greater, None not at all)]."""
    x, y = a, b
    while isinstance(x, Agg) and isinstance(y, Agg) and len(x.fs) == 1 and len(y.fs) == 1 and f.get('pcmp') is None:
        x, y = x.fs[0], y.fs[0]
    if f.get('pcmp') is None:
        if isdd(x) and isdd(y):
            return [(st, fmap(bind2(restrict(x, st.pc), restrict(y, st.pc), it.cmp3), lambda z: add(z, L(1))))]
        raise Unsupported('comparison in ' + f['def'])
    return [(s, o.vs[1][0].d if 1 in o.vs else term(L(2))) for s, o in with_refs(it, st, [a, b], lambda ps: it.call(st, f['pcmp'], ps, span))]


def by_closure(it, h, span):
    return lambda st, a, b: [(s, o.d) for s, o in with_refs(it, st, [a, b], lambda ps: it.call_value(st, h.fn, ps, span))]


def keys_of(it, st, h, vals, span):
    outs = [(st, ())]
    for x in vals:
        nxt = []
        for s, ks in outs:
            nxt += [(s2, ks + (k,)) for s2, k in with_refs(it, s, [x], lambda ps: it.call_value(s, h.fn, ps, span))]
        outs = nxt
    return outs


def insertion(it, st, xs, cmp):
    """Stable sort of a list of values: [(state, list)]."""
    runs = [(st, VecV(tuple(xs)))]
    for i in range(1, len(xs)):
        for j in range(i, 0, -1):
            nxt = []
            for s, v in runs:
                a, b = v.fs[j - 1], v.fs[j]
                for s2, d in cmp(s, a, b):
                    g = restrict(bind(d, lambda z: eq(z, L(2))), s2.pc)
                    if g is FALSE:
                        nxt.append((s2, v))
                        continue
                    try:
                        fs = list(v.fs)
                        fs[j - 1], fs[j] = vite(g, b, a), vite(g, a, b)
                        nxt.append((s2, VecV(tuple(fs))))
                    except Incompat:
                        pg, pn = dand(s2.pc, g), dand(s2.pc, dnot(g))
                        fs = list(v.fs)
                        fs[j - 1], fs[j] = b, a
                        if pn is not FALSE:
                            s3 = s2.fork()
                            s3.pc = pn
                            nxt.append((s3, v))
                        s2.pc = pg
                        nxt.append((s2, VecV(tuple(fs))))
            runs = joinouts(nxt)
    return runs


@model(r'slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$')
def m_sort(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    xs = elems(it, st, args[0])
    h = FnHolder(it, st, args[1]) if len(args) > 1 else None
    res = []
    if n.endswith('_key'):
        for s, ks in keys_of(it, st, h, xs, span):
            pairs = [Agg([k, x]) for k, x in zip(ks, xs)]
            for s2, v in insertion(it, s, pairs, lambda s_, a, b: order(it, s_, f, a.fs[0], b.fs[0], span)):
                setelems(it, s2, args[0], [p.fs[1] for p in v.fs])
                res.append((s2, unit()))
    else:
        cmp = by_closure(it, h, span) if h is not None else lambda s, a, b: order(it, s, f, a, b, span)
        for s2, v in insertion(it, st, xs, cmp):
            setelems(it, s2, args[0], v.fs)
            res.append((s2, unit()))
    res = joinouts(res)
    return h.done(res) if h is not None else res


@model(r'slice::<impl \[T\]>::(is_sorted|is_sorted_by|is_sorted_by_key)$')
def m_issorted(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    ps = elem_ptrs(it, st, args[0])
    h = FnHolder(it, st, args[1]) if len(args) > 1 else None
    runs = [(st, [deref1(it, st, p) for p in ps])]
    if n == 'is_sorted_by_key':
        runs = []
        outs = [(st, ())]
        for p in ps:
            outs = [(s2, ks + (k,)) for s, ks in outs for s2, k in it.call_value(s, h.fn, [p], span)]
        runs = outs
    res = []
    for s, xs in runs:
        todo = [(s, TRUE)]
        for i in range(len(xs) - 1):
            nxt = []
            for s1, c in todo:
                if c is FALSE:
                    nxt.append((s1, c))
                elif n == 'is_sorted_by':
                    nxt += [(s2, dand(c, restrict(r, s2.pc))) for s2, r in it.call_value(s1, h.fn, [ps[i], ps[i + 1]], span)]
                else:
                    nxt += [(s2, dand(c, restrict(bind(d, lambda z: lt(z, L(2))), s2.pc))) for s2, d in order(it, s1, f, xs[i], xs[i + 1], span)]
            todo = joinouts(nxt)
        res += todo
    res = joinouts(res)
    return h.done(res) if h is not None else res


@model(r'<std::vec::Vec<T, A>>::(retain|retain_mut|dedup_by|dedup_by_key)$', r'^std::vec::Vec::<T, A>::(retain|retain_mut|dedup_by|dedup_by_key)$')
def m_retain(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if n == 'dedup_by_key':
        return NotImplemented
    p, v = vec_at(it, st, args[0])
    h = FnHolder(it, st, args[1])
    runs = [(st, VecV(()))]
    for x in v.fs:
        nxt = []
        for s, kept in runs:
            if n == 'dedup_by':
                if not kept.fs:
                    nxt.append((s, VecV((x,))))
                    continue
                outs = with_refs(it, s, [x, kept.fs[-1]], lambda ps: it.call_value(s, h.fn, ps, span))
                outs = [(s2, dnot(c)) for s2, c in outs]
            else:
                outs = with_refs(it, s, [x], lambda ps: it.call_value(s, h.fn, ps, span))
            for s2, c in outs:
                c = restrict(c, s2.pc)
                pk, pd = dand(s2.pc, c), dand(s2.pc, dnot(c))
                if pd is not FALSE:
                    s3 = s2.fork() if pk is not FALSE else s2
                    s3.pc = pd
                    nxt.append((s3, kept))
                if pk is not FALSE:
                    s2.pc = pk
                    nxt.append((s2, VecV(kept.fs + (x,))))
        runs = joinouts(nxt)
    for s, kept in runs:
        it.write(s, p.key, p.path, kept)
    return h.done([(s, unit()) for s, kept in runs])


@model(r'Vec::<T, A>::drain$')
def m_drain(it, st, f, args, span):
    p, v = vec_at(it, st, args[0])
    a, b = range_of(it, st, f, args[1], len(v.fs))
    if a > b or b > len(v.fs):
        it.obligation('panic: drain range out of bounds', st.pc, span, it.stack[-1][0])
        return []
    it.write(st, p.key, p.path, VecV(v.fs[:a] + v.fs[b:]))
    return NIter(tuple(v.fs[a:b]))


@model(r'Vec::<T, A>::split_off$')
def m_splitoff(it, st, f, args, span):
    p, v = vec_at(it, st, args[0])
    k = it.concrete(st, args[1])
    if k > len(v.fs):
        it.obligation('panic: split_off beyond the length', st.pc, span, it.stack[-1][0])
        return []
    it.write(st, p.key, p.path, VecV(v.fs[:k]))
    return VecV(v.fs[k:])


@model(r'<std::vec::Vec<T, A> as std::iter::Extend<.*>>::(extend_one|extend_one_unchecked|extend_reserve)$')
def m_extendone(it, st, f, args, span):
    if f['def'].endswith('extend_reserve'):
        return unit()
    p, v = vec_at(it, st, args[0])
    x = deref1(it, st, args[1]) if 'Extend<&' in f['def'] else args[1]
    it.write(st, p.key, p.path, VecV(v.fs + (x,)))
    return unit()


@model(r'array::<impl \[T; N\]>::map$')
def m_arraymap(it, st, f, args, span):
    h = FnHolder(it, st, args[1])
    runs = [(st, ())]
    for x in args[0].fs:
        runs = [(s2, acc + (y,)) for s, acc in runs for s2, y in it.call_value(s, h.fn, [x], span)]
    return h.done(joinouts([(s, Agg(acc)) for s, acc in runs]))


@model(r'intrinsics::raw_eq$')
def m_raweq(it, st, f, args, span):
    return restrict(veq(it, st, snapshot(it, st, args[0]), snapshot(it, st, args[1])), st.pc)


@model(r'partial_eq::<impl std::cmp::PartialEq<.*> for (std::vec::Vec<T, A1?>|&?\[T\]|\[T; N\])>::(eq|ne)$', r'array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$',
       r'slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$')
def m_seqeq(it, st, f, args, span):
    ts = [t for t in f['targs'] if not it.ty(t)['str'].endswith('Global')]
    if not ts or not all(plaineq(it, t) for t in ts):
        return NotImplemented
    a, b = seq(it, st, args[0]), seq(it, st, args[1])
    a, b = a[0].fs[a[2]:a[2] + a[3]], b[0].fs[b[2]:b[2] + b[3]]
    c = FALSE if len(a) != len(b) else restrict(veq(it, st, Agg(a), Agg(b)), st.pc) if a else TRUE
    return dnot(c) if f['def'].endswith('::ne') else c


@model(r'^std::(cell::(Ref)?Cell::<T>|cell::UnsafeCell::<T>)::(new|get|set|replace|take|borrow|borrow_mut|get_mut|into_inner)$')
def m_cell(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    if n == 'new':
        return Agg([args[0]])
    if n == 'into_inner':
        return args[0].fs[0]
    p = args[0]
    inner = Ptr(p.key, p.path + (('f', 0),))
    if n in ('borrow', 'borrow_mut', 'get_mut') or 'UnsafeCell' in f['def']:
        return inner
    old = it.read(st, inner.key, inner.path)
    if n == 'take':
        raise Unsupported(f['def'])
    if n in ('set', 'replace'):
        it.write(st, inner.key, inner.path, args[1])
    return unit() if n == 'set' else old


@model(r'^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::')
def m_refguard(it, st, f, args, span):
    v = args[0]
    x = it.read(st, v.key, v.path)
    return x if isinstance(x, Ptr) else v


@model(r'^<std::boxed::Box<F, A> as std::ops::Fn(Mut|Once)?<Args>>::call(_mut|_once)?$')
def m_boxcall(it, st, f, args, span):
    b = args[0]
    if isinstance(b, Ptr):
        v = it.read(st, b.key, b.path)
        if isinstance(v, BoxV):
            return it.call_value(st, Ptr(b.key, b.path + (('box',),)), args[1].fs, span)
    elif isinstance(b, BoxV):
        return it.call_value(st, b.v, args[1].fs, span)
    return NotImplemented


# ------------------------------------------------------------------------------------ iterators
ITER = r'<(std::|nalgebra::)(slice::Iter(Mut)?<\'a, T>|vec::IntoIter<T, A>|vec::Drain<\'_, T, A>|array::IntoIter<T, N>|slice::Windows<\'a, T>|slice::Chunks(Exact)?<\'a, T>|[\w:]*MatrixIter(Mut)?<.*>) as std::iter::[\w:]*(<.*>)?>::'


def niter(it, st, a):
    if isinstance(a, Ptr):
        v = it.read(st, a.key, a.path)
        while isinstance(v, Ptr):
            a = v
            v = it.read(st, a.key, a.path)
        return a, v
    return None, a


@model(ITER + r'(next|next_back|nth|nth_back)$')
def m_next(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    p, v = niter(it, st, args[0])
    k = it.concrete(st, args[1]) if n.startswith('nth') else 0
    if v.i + k >= v.j:
        it.write(st, p.key, p.path, NIter(v.items, v.j, v.j))
        return none()
    if n.endswith('back'):
        it.write(st, p.key, p.path, NIter(v.items, v.i, v.j - 1 - k))
        return some(v.items[v.j - 1 - k])
    it.write(st, p.key, p.path, NIter(v.items, v.i + 1 + k, v.j))
    return some(v.items[v.i + k])


@model(ITER + r'(len|size_hint|count|size|is_empty)$')
def m_ilen(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    p, v = niter(it, st, args[0])
    k = term(L(v.j - v.i))
    if n == 'size_hint':
        return Agg([k, some(k)])
    if n == 'is_empty':
        return bterm(v.i == v.j)
    return k


@model(ITER + r'__iterator_get_unchecked$')
def m_igu(it, st, f, args, span):
    p, v = niter(it, st, args[0])
    k = it.concrete(st, args[1])
    return v.items[v.i + k]


@model(ITER + r'(advance_by|advance_back_by)$')
def m_adv(it, st, f, args, span):
    p, v = niter(it, st, args[0])
    k = it.concrete(st, args[1])
    m = min(k, v.j - v.i)
    it.write(st, p.key, p.path, NIter(v.items, v.i + m, v.j) if 'back' not in f['def'] else NIter(v.items, v.i, v.j - m))
    if m == k:
        return Enum(term(L(0)), {0: (unit(),)})
    return Enum(term(L(1)), {1: (term(L(k - m)),)})


@model(ITER + r'last$')
def m_last(it, st, f, args, span):
    p, v = niter(it, st, args[0])
    return some(v.items[v.j - 1]) if v.j > v.i else none()


@model(ITER + r'(fold|rfold)$')
def m_fold(it, st, f, args, span):
    p, v = niter(it, st, args[0])
    items = list(v.items[v.i:v.j])
    if f['def'].endswith('rfold'):
        items.reverse()
    h = FnHolder(it, st, args[2])
    outs = [(st, args[1])]
    for x in items:
        nxt = []
        for s, acc in outs:
            nxt += call_mut(it, s, h.fn, [acc, x], span)
        outs = joinouts(nxt)
    return h.done(outs)


@model(ITER.replace("slice::Iter(Mut)?<\\'a, T>|", '') + r'(try_fold|try_rfold)$')
def m_tryfold(it, st, f, args, span):
    b = it.p.body(it.p.fns.index(f))
    rn = it.ty(b.locals[0])['name'].rsplit('::', 1)[-1] if b is not None and it.ty(b.locals[0])['k'] == 'adt' else None
    go = {'Option': 1, 'Result': 0, 'ControlFlow': 0}.get(rn)
    if go is None:
        return NotImplemented
    p, v = niter(it, st, args[0])
    back = f['def'].endswith('rfold')
    h = FnHolder(it, st, args[2])
    run, done = [(st, args[1])], []
    for n in range(v.j - v.i):
        k = v.j - 1 - n if back else v.i + n
        nxt = []
        for s, acc in run:
            for s2, r in call_mut(it, s, h.fn, [acc, v.items[k]], span):
                c = restrict(bind(r.d, lambda z: eq(z, L(go))), s2.pc)
                pcg, pcs = dand(s2.pc, c), dand(s2.pc, dnot(c))
                if pcs is not FALSE:
                    s3 = s2.fork() if pcg is not FALSE else s2
                    s3.pc = pcs
                    it.write(s3, p.key, p.path, NIter(v.items, v.i, k) if back else NIter(v.items, k + 1, v.j))
                    done.append((s3, Enum(term(L(1 - go)), {1 - go: r.vs[1 - go]})))
                if pcg is not FALSE:
                    s2.pc = pcg
                    nxt.append((s2, r.vs[go][0]))
        run = joinouts(nxt)
    for s, acc in run:
        it.write(s, p.key, p.path, NIter(v.items, v.j, v.j) if not back else NIter(v.items, v.i, v.i))
        done.append((s, Enum(term(L(go)), {go: (acc,)})))
    return h.done(joinouts(done))


def joinouts(outs):
    """Merge (state, value) pairs where shapes allow."""
    from .interp import merge
    res = []
    for s, v in outs:
        if s.pc is FALSE:
            continue
        for i, (s2, v2) in enumerate(res):
            try:
                c = restrict(s2.pc, dor(s2.pc, s.pc))
                nv = vite(c, v2, v)
                ns = merge(s2, s)
                res[i] = (ns, nv)
                break
            except Incompat:
                continue
        else:
            res.append((s, v))
    return res


def call_mut(it, st, fn, args, span):
    return it.call_value(st, fn, args, span)


class FnHolder:
    """Keeps a by-value closure in memory so that its captured state persists between calls."""

    def __init__(self, it, st, fn):
        self.it = it
        if isinstance(fn, Agg) and fn.ty is not None:
            self.fid = it.new_frame()
            st.mem[self.fid] = {0: fn}
            st.own.add(self.fid)
            self.fn = Ptr((self.fid, 0))
        else:
            self.fid = None
            self.fn = fn

    def done(self, outs):
        if self.fid is not None:
            for s, v in outs:
                s.mem.pop(self.fid, None)
                s.own.discard(self.fid)
        return outs


@model(ITER + r'for_each$')
def m_foreach(it, st, f, args, span):
    p, v = niter(it, st, args[0])
    h = FnHolder(it, st, args[1])
    outs = [(st, unit())]
    for x in v.items[v.i:v.j]:
        nxt = []
        for s, _ in outs:
            nxt += it.call_value(s, h.fn, [x], span)
        outs = joinouts([(s, unit()) for s, _ in nxt])
    return h.done(outs)


@model(ITER + r'(all|any|position|rposition|find|find_map)$')
def m_search(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    p, v = niter(it, st, args[0])
    idxs = list(range(v.i, v.j))
    if n == 'rposition':
        idxs.reverse()
    h = FnHolder(it, st, args[1])
    done = []
    run = [st]
    for k in idxs:
        x = v.items[k]
        nxt = []
        for s in run:
            tmp = None
            if n == 'find':
                tmp = it.new_frame()
                s.mem[tmp] = {0: x}
                s.own.add(tmp)
                arg = Ptr((tmp, 0))
            else:
                arg = x
            for s2, c in it.call_value(s, h.fn, [arg], span):
                if tmp is not None:
                    s2.mem.pop(tmp, None)
                    s2.own.discard(tmp)
                val = None
                if n == 'find_map':
                    val = c
                    c = bind(val.d, lambda z: eq(z, L(1)))
                c = restrict(c, s2.pc)
                stop = dnot(c) if n == 'all' else c
                pcs, pcg = dand(s2.pc, stop), dand(s2.pc, dnot(stop))
                if pcs is not FALSE:
                    s3 = s2.fork() if pcg is not FALSE else s2
                    s3.pc = pcs
                    if p is not None:
                        it.write(s3, p.key, p.path, NIter(v.items, k + 1, v.j) if n != 'rposition' else NIter(v.items, v.i, k))
                    r = {'all': FALSE, 'any': TRUE, 'position': some(term(L(k - v.i))), 'rposition': some(term(L(k - v.i))), 'find': some(x), 'find_map': val}[n]
                    done.append((s3, r))
                if pcg is not FALSE:
                    s2.pc = pcg
                    nxt.append(s2)
        run = [s for s, _ in joinouts([(s, unit()) for s in nxt])]
    for s in run:
        if p is not None:
            it.write(s, p.key, p.path, NIter(v.items, v.j, v.j))
        done.append((s, {'all': TRUE, 'any': FALSE}.get(n) or none() if n not in ('any',) else FALSE))
    return h.done(joinouts(done))


def drive(it, st, f, iterval, span, each, init):
    """Run `next` of an arbitrary iterator until it is exhausted: [(state, accumulator)]."""
    nx = f.get('next')
    if isinstance(iterval, NIter):
        acc = init
        for x in iterval.items[iterval.i:iterval.j]:
            acc = each(acc, x)
        return [(st, acc)]
    if nx is None:
        raise Unsupported('iteration in ' + f['name'])
    fid = it.new_frame()
    st.mem[fid] = {0: iterval}
    st.own.add(fid)
    run = [(st, init)]
    done = []
    n = 0
    while run:
        n += 1
        if n > 2000:
            raise Unsupported('unbounded iteration')
        if n > it.loop_limit:
            for s, acc in run:
                it.cutoffs.append((f['name'], span, s.pc))
            break
        nxt = []
        for s, acc in run:
            for s2, o in it.call(s, nx, [Ptr((fid, 0))], span):
                d = restrict(o.d, s2.pc)
                c = bind(d, lambda z: eq(z, L(1)))
                pcs, pce = dand(s2.pc, c), dand(s2.pc, dnot(c))
                if pce is not FALSE:
                    s3 = s2.fork() if pcs is not FALSE else s2
                    s3.pc = pce
                    done.append((s3, acc))
                if pcs is not FALSE:
                    s2.pc = pcs
                    nxt.append((s2, each(acc, o.vs[1][0])))
        run = joinouts(nxt)
    for s, _ in done:
        s.mem.pop(fid, None)
        s.own.discard(fid)
    return done


@model(r'<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$')
def m_fromiter(it, st, f, args, span):
    outs = [(st, args[0])]
    if f.get('into_iter') is not None:
        outs = it.call(st, f['into_iter'], [args[0]], span)
    res = []
    for s, v in outs:
        res += drive(it, s, f, v, span, lambda acc, x: acc + (x,), ())
    return joinouts([(s, VecV(acc)) for s, acc in res])


@model(r'<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$')
def m_extend(it, st, f, args, span):
    p, v0 = vec_at(it, st, args[0])
    outs = [(st, args[1])]
    if f.get('into_iter') is not None:
        outs = it.call(st, f['into_iter'], [args[1]], span)
    res = []
    for s, v in outs:
        for s2, acc in drive(it, s, f, v, span, lambda a, x: a + (x,), ()):
            p2, v2 = vec_at(it, s2, args[0])
            acc = tuple(deref1(it, s2, x) if 'Extend<&' in f['def'] else x for x in acc)
            it.write(s2, p2.key, p2.path, VecV(v2.fs + acc))
            res.append((s2, unit()))
    return joinouts(res)


# ------------------------------------------------------------------------------------ nalgebra
NA = r'nalgebra::'


def mat(it, st, v):
    v = deref(it, st, v)
    if isinstance(v, VecV):
        return MatV(len(v.fs), 1, v.fs)
    if not isinstance(v, MatV):
        raise Unsupported('matrix expected, found %s' % type(v).__name__)
    return v


def dims(it, f):
    ds = re.findall(r'Const<(\d+)>', f['name'])
    return ds


@model(r'nalgebra::base::construction::<impl .*>::(new|zeros|identity|from_element|from_row_slice|from_column_slice|from_vec|from_iterator|from_fn|repeat)$')
def m_matnew(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    m = re.search(r'Matrix<(f64|f32), nalgebra::base::dimension::(Const<(\d+)>|Dyn), nalgebra::base::dimension::(Const<(\d+)>|Dyn)', f['name'])
    r = int(m.group(3)) if m and m.group(3) else None
    c = int(m.group(5)) if m and m.group(5) else None
    if n == 'new' and r and c:
        # arguments are given in row-major order
        return MatV(r, c, [args[i * c + j] for j in range(c) for i in range(r)])
    if n in ('zeros', 'identity', 'from_element', 'repeat'):
        k = 0
        if r is None:
            r = it.concrete(st, args[k])
            k += 1
        if c is None:
            c = it.concrete(st, args[k])
            k += 1
        e = args[k] if n in ('from_element', 'repeat') else term(fconst(0))
        return MatV(r, c, [(term(fconst(1)) if n == 'identity' and i == j else e) for j in range(c) for i in range(r)])
    if n in ('from_row_slice', 'from_column_slice', 'from_vec'):
        k = 0
        if r is None:
            if n == 'from_vec' and c == 1 and isinstance(args[0], VecV):
                r = len(args[0].fs)
            elif c == 1 and isinstance(args[0], Ptr):
                r = len(elems(it, st, args[0]))
            else:
                r = it.concrete(st, args[k])
                k += 1
        if c is None:
            c = it.concrete(st, args[k])
            k += 1
        fs = args[k].fs if isinstance(args[k], Agg) else elems(it, st, args[k])
        if len(fs) != r * c:
            it.obligation('panic: matrix size', st.pc, span, it.stack[-1][0])
            return []
        if n == 'from_row_slice':
            fs = [fs[i * c + j] for j in range(c) for i in range(r)]
        return MatV(r, c, fs)
    if n in ('from_iterator', 'from_fn'):
        k = 0
        if r is None:
            r = it.concrete(st, args[k])
            k += 1
        if c is None:
            c = it.concrete(st, args[k])
            k += 1
        if n == 'from_fn':
            h = FnHolder(it, st, args[k])
            runs = [(st, ())]
            for j in range(c):
                for i in range(r):
                    runs = [(s2, acc + (y,)) for s, acc in runs for s2, y in it.call_value(s, h.fn, [term(L(i)), term(L(j))], span)]
            return h.done(joinouts([(s, MatV(r, c, acc)) for s, acc in runs]))
        outs = [(st, args[k])]
        if f.get('into_iter') is not None:
            outs = it.call(st, f['into_iter'], [args[k]], span)
        res = []
        for s, v in outs:
            for s2, acc in drive(it, s, f, v, span, lambda a, x: a + (x,), ()):
                if len(acc) < r * c:
                    it.obligation('panic: matrix size', s2.pc, span, it.stack[-1][0])
                else:
                    res.append((s2, MatV(r, c, acc[:r * c])))
        return joinouts(res)
    raise Unsupported('nalgebra ' + n)


@model(r'nalgebra::base::conversion::<impl std::convert::From<nalgebra::base::matrix::Matrix<.*for \[T; ')
def m_arrfrommat(it, st, f, args, span):
    return Agg(mat(it, st, args[0]).fs)


@model(r'nalgebra::base::matrix_view::<impl nalgebra::base::matrix::Matrix<T, R, C, S>>::(row|column)$')
def m_matrow(it, st, f, args, span):
    a = mat(it, st, args[0])
    k = it.concrete(st, args[1])
    row = f['def'].endswith('row')
    if k >= (a.r if row else a.c):
        it.obligation('panic: matrix index out of bounds', st.pc, span, it.stack[-1][0])
        return []
    if row:
        return MatV(1, a.c, [a.fs[j * a.r + k] for j in range(a.c)])
    return MatV(a.r, 1, a.fs[k * a.r:(k + 1) * a.r])


@model(r'nalgebra::base::matrix::Matrix::<.*>::map$')
def m_matmap(it, st, f, args, span):
    a = mat(it, st, args[0])
    h = FnHolder(it, st, args[1])
    runs = [(st, ())]
    for x in a.fs:
        runs = [(s2, acc + (y,)) for s, acc in runs for s2, y in it.call_value(s, h.fn, [x], span)]
    return h.done(joinouts([(s, MatV(a.r, a.c, acc)) for s, acc in runs]))


@model(r'nalgebra::base::conversion::<impl std::convert::From<(std::vec::)?Vec<T>>.*::from$', r'nalgebra::base::conversion::.*From<(std::vec::)?Vec<T>>.*::from$')
def m_matfromvec(it, st, f, args, span):
    v = args[0]
    return MatV(len(v.fs), 1, v.fs)


@model(r'nalgebra::base::conversion::.*From<\[.*::from$')
def m_matfromarr(it, st, f, args, span):
    v = args[0]
    if v.fs and isinstance(v.fs[0], Agg):
        return MatV(len(v.fs[0].fs), len(v.fs), [x for col in v.fs for x in col.fs])
    return MatV(len(v.fs), 1, v.fs)


def fsum(it, st, xs):
    r = term(fconst(0))
    for x in xs:
        r = bind2(r, x, lambda a, b: term(fadd(a, b)))
    return restrict(r, st.pc)


def fprod(it, st, a, b):
    return restrict(bind2(restrict(a, st.pc), restrict(b, st.pc), lambda x, y: term(fmul(x, y))), st.pc)


def matmul(it, st, a, b, span):
    if isdd(a) or isdd(b):
        if isdd(a):
            a, b = b, a
        return MatV(a.r, a.c, [fprod(it, st, x, b) for x in a.fs])
    if a.c != b.r:
        it.obligation('panic: matrix dimensions', st.pc, span, it.stack[-1][0])
        return None
    return MatV(a.r, b.c, [fsum(it, st, [fprod(it, st, a.fs[k * a.r + i], b.fs[j * b.r + k]) for k in range(a.c)]) for j in range(b.c) for i in range(a.r)])


@model(r'nalgebra::base::ops::<impl std::ops::(Mul|Add|Sub|Neg|Div)(Assign)?', r'std::ops::(Mul|Add|Sub|Neg|Div).*nalgebra')
def m_matop(it, st, f, args, span):
    op = re.search(r'std::ops::(Mul|Add|Sub|Neg|Div)(Assign)?', f['def'])
    a = deref(it, st, args[0])
    b = deref(it, st, args[1]) if len(args) > 1 else None
    k = op.group(1)
    if k == 'Mul':
        r = matmul(it, st, a, b, span)
        if r is None:
            return []
    elif k == 'Neg':
        r = MatV(a.r, a.c, [bind(x, lambda l: term(fneg(l))) for x in a.fs])
    elif k == 'Div':
        r = MatV(a.r, a.c, [bind2(x, b, lambda p, q: term(fdiv(p, q))) for x in a.fs])
    else:
        if (a.r, a.c) != (b.r, b.c):
            it.obligation('panic: matrix dimensions', st.pc, span, it.stack[-1][0])
            return []
        fn = fadd if k == 'Add' else fsub
        r = MatV(a.r, a.c, [restrict(bind2(x, y, lambda p, q: term(fn(p, q))), st.pc) for x, y in zip(a.fs, b.fs)])
    if op.group(2):
        it.write(st, args[0].key, args[0].path, r)
        return unit()
    return r


@model(r'nalgebra::base::conversion::<impl std::iter::IntoIterator for &.*::(into_iter)$', r'nalgebra::base::properties::.*::(len|is_empty)$', r'nalgebra::base::conversion::<impl std::convert::As(Ref|Mut)<.*::(as_ref|as_mut)$',
       r'nalgebra::base::vec_storage::VecStorage::<.*>::(as_vec|as_slice|len)$', r'nalgebra::base::matrix::Matrix::<T, R, C, S>::(transpose|into_owned|clone_owned|nrows|ncols|shape|len|as_slice|iter|iter_mut|as_mut_slice|data|is_empty)$')
def m_matmeth(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    p = args[0]
    a = mat(it, st, p)
    if n == 'transpose':
        return MatV(a.c, a.r, [a.fs[j * a.r + i] for i in range(a.r) for j in range(a.c)])
    if n in ('into_owned', 'clone_owned'):
        return a
    if n == 'nrows':
        return term(L(a.r))
    if n == 'ncols':
        return term(L(a.c))
    if n == 'len':
        return term(L(len(a.fs)))
    if n == 'is_empty':
        return bterm(not a.fs)
    if n == 'shape':
        return Agg([term(L(a.r)), term(L(a.c))])
    v = it.read(st, p.key, p.path)
    while isinstance(v, Ptr):
        p = v
        v = it.read(st, p.key, p.path)
    if n in ('as_slice', 'as_mut_slice'):
        return Ptr(p.key, p.path, (0, len(a.fs)))
    if n in ('as_ref', 'as_mut') and '[T; ' in f['def'] and a.c == 1:
        return Ptr(p.key, p.path)
    if n in ('as_ref', 'as_mut', 'as_vec'):
        raise Unsupported('nalgebra ' + n)
    return NIter(tuple(Ptr(p.key, p.path + (('i', term(L(i))),)) for i in range(len(a.fs))))


@model(r'nalgebra::base::matrix::Matrix::<.*>::(dot|x|scale|map|sum|norm|norm_squared|component_mul)$', r'nalgebra::.*::(dot|scale|sum|to_scalar|into_scalar|as_scalar|component_mul)$')
def m_matdot(it, st, f, args, span):
    n = f['def'].rsplit('::', 1)[-1]
    a = mat(it, st, args[0])
    if n == 'dot':
        b = mat(it, st, args[1])
        return fsum(it, st, [fprod(it, st, x, y) for x, y in zip(a.fs, b.fs)])
    if n == 'sum':
        return fsum(it, st, a.fs)
    if n == 'scale':
        return MatV(a.r, a.c, [fprod(it, st, x, args[1]) for x in a.fs])
    if n == 'component_mul':
        b = mat(it, st, args[1])
        return MatV(a.r, a.c, [fprod(it, st, x, y) for x, y in zip(a.fs, b.fs)])
    if n in ('to_scalar', 'into_scalar'):
        return a.fs[0]
    raise Unsupported('nalgebra ' + n)


@model(r'nalgebra::base::coordinates::.*Deref', r'nalgebra::.*coordinates')
def m_matcoord(it, st, f, args, span):
    return args[0]


@model(r'nalgebra::.*std::ops::(Index|IndexMut)<', r'nalgebra::base::indexing.*::(index|index_mut)$', r'nalgebra::base::ops::.*Index')
def m_matindex(it, st, f, args, span):
    p = args[0]
    a = mat(it, st, p)
    v = it.read(st, p.key, p.path)
    while isinstance(v, Ptr):
        p = v
        v = it.read(st, p.key, p.path)
    i = args[1]
    if isinstance(i, Agg):
        r, c = it.concrete(st, i.fs[0]), it.concrete(st, i.fs[1])
        if r >= a.r or c >= a.c:
            it.obligation('panic: matrix index out of bounds', st.pc, span, it.stack[-1][0])
            return []
        k = c * a.r + r
    else:
        k = it.concrete(st, i)
        if k >= len(a.fs):
            it.obligation('panic: matrix index out of bounds', st.pc, span, it.stack[-1][0])
            return []
    return Ptr(p.key, p.path + (('i', term(L(k))),))


@model(r'nalgebra::base::vec_storage::.*From<.*VecStorage', r'VecStorage.*(for|From).*Vec')
def m_storage(it, st, f, args, span):
    a = deref(it, st, args[0])
    return VecV(a.fs)


@model(r'^nalgebra::|<nalgebra::|matrixmultiply')
def m_nalg(it, st, f, args, span):
    raise Unsupported('nalgebra function ' + f['def'][:120])
