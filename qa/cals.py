"""Extraction of the holiday calendars: one summary (business day as a function of the market and of
the calendar fields of the date) per implementation of the calendar trait."""
import numpy as np
from . import dates, ev, interp, calref, mir
from .values import *

LO, HI = calref.LO, calref.HI
_days = []


def days():
    if not _days:
        _days.append(calref.Days())
    return _days[0]


class Cal:
    """One implementation of the trait: struct name, file, and its market parameter."""

    def __init__(self, c, prog):
        self.prog = prog
        self.name = c['name'].rsplit('::', 1)[-1]
        self.mod = c['name']
        self.ty = c['ty']
        self.methods = dict((n.rsplit('::', 1)[-1], i) for n, i in c['methods'])
        self.markets = None
        d = prog.tys[c['ty']]
        fs = d['variants'][0]['fields'] if d.get('variants') else []
        self.fields = fs
        for n, t in fs:
            td = prog.tys[t]
            if td['k'] == 'adt' and td['kind'] == 'enum' and td.get('args'):
                inner = prog.tys[td['args'][0]]
                if inner['k'] == 'adt' and inner['kind'] == 'enum':
                    self.markets = [v['name'].rsplit('::', 1)[-1] for v in inner['variants']]
                    self.mfield = n

    def configs(self):
        """Configuration labels: '' for the default, or a market."""
        return [''] + (self.markets or [])

    def key(self):
        return ('market', self.name)

    def env(self, cfg):
        """Values of the market atoms for one configuration."""
        if not self.markets:
            return {}
        b = ('market', self.name, '.' + self.mfield)
        if cfg == '':
            return {b + ('variant',): 0, b + ('Some.0', 'variant'): 0}
        return {b + ('variant',): 1, b + ('Some.0', 'variant'): self.markets.index(cfg)}

    def file(self):
        return self.prog.fns[self.methods['is_business_day']].get('span', '?').rsplit(':', 4)[0]


def joint(prog):
    """The joint calendar of two arbitrary calendars."""
    if 'r_joint_methods' not in prog.roots:
        return None
    b = prog.body(prog.roots['r_joint_methods'])
    ms = []
    for i in mir.callees(b):
        f = prog.fns[i]
        n = f['def'].rsplit('::', 1)[-1]
        ms.append((n, i))
    j = Cal(dict(name='calendar::jointcalendar::JointCalendar', ty=prog.tys[b.locals[1]]['elem'], methods=ms), prog)
    j.markets = None
    return j


def all_cals(prog, joined=False):
    out = []
    if joined:
        j = joint(prog)
        if j is not None:
            out.append(j)
    for c in prog.calendars:
        if c['crate'] == 'calendar' and 'Opaque' not in c['name']:
            if 'JointCalendar' in c['name']:
                continue
            out.append(Cal(c, prog))
    return out


def summary(it, cal, method='is_business_day', lo=LO, hi=HI, dname='d'):
    """[(pc, value)] of cal.method(date) for a symbolic market and date; obligations stay in it.obl."""
    it.reset()
    slf = it.symbolic(cal.ty, cal.key(), prio=0)
    st = interp.State(TRUE, {0: {0: slf}})
    D = term(dates.date_sym(dname, lo, hi))
    outs = it.call(st, cal.methods[method], [Ptr((0, 0)), D])
    return D, [(s.pc, v) for s, v in outs]


def table(D, outs, cal, cfg, dn):
    """Evaluate the summary on all days: (array of 0/1, covered array)."""
    a = D.v.ts[0][0]
    n = len(dn)
    env = {a.key: dn}
    for k, v in cal.env(cfg).items():
        env[k] = np.full(n, v)
    e = ev.Vec(env, n)
    val = np.zeros(n, dtype=np.int64)
    cov = np.zeros(n, dtype=bool)
    for pc, v in outs:
        m = e.dd(pc) != 0
        cov |= m
        val[m] = e.dd(v)[m]
    return val, cov


def holds(D, pc, cal, cfg, dn):
    a = D.v.ts[0][0]
    n = len(dn)
    env = {a.key: dn}
    for k, v in cal.env(cfg).items():
        env[k] = np.full(n, v)
    return ev.Vec(env, n).dd(pc) != 0


EURO = ['Austria', 'CzechRepublic', 'Denmark', 'Finland', 'France', 'Germany', 'Hungary', 'Iceland', 'Italy', 'Norway', 'Poland',
        'Romania', 'Russia', 'Slovakia', 'Sweden', 'Switzerland', 'Target', 'Ukraine', 'UnitedKingdom']
AMAF = ['Argentina', 'Botswana', 'Brazil', 'Canada', 'Chile', 'Mexico', 'SouthAfrica', 'UnitedStates', 'WeekendsOnly']
ASPA = ['Australia', 'China', 'HongKong', 'India', 'Indonesia', 'Israel', 'Japan', 'NewZealand', 'Singapore', 'SouthKorea', 'Taiwan',
        'Thailand', 'Turkey']


def refname(cal, cfg):
    n = cal.name if cfg == '' else '%s:%s' % (cal.name, cfg)
    return n if n in calref.T else None


def date(i):
    return str(days().t[i])


def runs(idx, limit=6):
    return ', '.join(date(i) for i in idx[:limit]) + (' and %d more' % (len(idx) - limit) if len(idx) > limit else '')


def each(c, names, it):
    cs = {x.name: x for x in all_cals(c.prog)}
    for n in names:
        cal = cs.get(n)
        if cal is None:
            c.violation('missing:' + n, 'calendar %s does not exist any more' % n)
            continue
        try:
            D, outs = summary(it, cal)
            yield cal, D, outs
        except (Unsupported, Incompat, Split) as e:
            c.undecided('%s::is_business_day' % cal.name, '%s: %s' % (type(e).__name__, e))


def check_tables(c, names, least):
    """Every configuration of every calendar equals its reference table on every date."""
    it = interp.Interp(c.prog, 400)
    ds = days()
    nconf = ncal = ndates = 0
    for cal, D, outs in each(c, names, it):
        if it.cutoffs:
            c.undecided(cal.name, 'loop bound reached')
            continue
        ncal += 1
        tot = sum(size(v) for pc, v in outs)
        for cfg in cal.configs():
            rn = refname(cal, cfg)
            lab = cal.name + (':' + cfg if cfg else ' (default)')
            if rn is None:
                c.violation('no-reference:' + lab, 'market %s of calendar %s is not known to the reference tables' % (cfg, cal.name))
                continue
            try:
                val, cov = table(D, outs, cal, cfg, ds.rd)
            except Unsupported as e:
                c.undecided(lab, e)
                continue
            ref = calref.Table(calref.T[rn])
            hol, why = ref.holidays(ds)
            nconf += 1
            ndates += ds.n
            if rn in calref.KNOWN and (cov & ((val == 0) != hol)).any():
                # a recorded deviation: anything beyond it is judged against the table that describes it
                key, text = calref.KNOWN[rn]
                alt = calref.Table(text)
                ahol, awhy = alt.holidays(ds)
                dev = np.nonzero(cov & ((val == 0) != hol) & (ahol != hol) & ((val == 0) == ahol))[0]
                if len(dev):
                    c.violation('%s:%s' % (cal.name, key), '%s::is_business_day: %s deviates from the published rules on %d dates as recorded: %s'
                                % (cal.mod, lab, len(dev), runs(dev)))
                    ref, hol, why = alt, ahol, awhy
            # dates on which the function panics are C08's
            extra = np.nonzero(cov & (val == 0) & ~hol)[0]
            miss = np.nonzero(cov & (val == 1) & hol)[0]
            c.unit(lab, function=cal.mod + '::is_business_day', diagram_nodes=tot, dates=int(ds.n), holidays=int(hol.sum()),
                   rules=len(ref.rules), differing=int(len(extra) + len(miss)))
            if len(extra):
                byw = sorted({(int(ds.m[i]), int(ds.d[i])) for i in extra})
                c.violation('%s:extra' % lab, '%s::is_business_day (%s): %s is reported as a holiday on %d date(s) on which no rule of the reference '
                            'table applies: %s' % (cal.mod, cal.file(), lab, len(extra), runs(extra)))
            if len(miss):
                labs = {}
                for i in miss:
                    labs.setdefault(ref.label(int(why[i])), []).append(i)
                for l, ix in labs.items():
                    c.violation('%s:%s' % (lab, l.replace(' ', '_')), '%s::is_business_day (%s): %s is reported as a business day on %d date(s) that the rule "%s" '
                                'makes a holiday: %s' % (cal.mod, cal.file(), lab, len(ix), l, runs(ix)))
    c.cov['configurations'] = nconf
    c.cov['dates_compared'] = ndates
    c.floor('calendars', ncal + sum(1 for w, y in c.undec), least)


def check_weekends(c):
    it = interp.Interp(c.prog, 400)
    ds = days()
    n = 0
    for cal, D, outs in each(c, EURO + AMAF + ASPA, it):
        for cfg in cal.configs():
            lab = cal.name + (':' + cfg if cfg else ' (default)')
            try:
                val, cov = table(D, outs, cal, cfg, ds.rd)
            except Unsupported as e:
                c.undecided(lab, e)
                continue
            rn = refname(cal, cfg) or cal.name
            ref = calref.Table(calref.T[rn])
            hol, why = ref.holidays(ds)
            wk = (why == -1)
            n += 1
            c.unit(lab, weekend=' '.join(ref.weekend), weekend_days=int(wk.sum()))
            bad = np.nonzero(cov & (val == 1) & wk)[0]
            if len(bad):
                c.violation(lab, '%s::is_business_day (%s): %s is open on %d weekend date(s): %s' % (cal.mod, cal.file(), lab, len(bad), runs(bad)))
    c.floor('configurations', n + len(c.undec), 69)


def check_panics(c):
    """No reachable panic for any configuration and date of the supported range."""
    it = interp.Interp(c.prog, 400)
    ds = days()
    n = sites = 0
    for cal, D, outs in each(c, EURO + AMAF + ASPA, it):
        obl = list(it.obl.values())
        sites += len(it.blocks_seen)
        n += 1
        c.unit(cal.name, blocks=len(it.blocks_seen), functions=len(it.visited), open_obligations=len(obl))
        for cfg in cal.configs():
            for o in obl:
                try:
                    bad = np.nonzero(holds(D, o.pc, cal, cfg, ds.rd))[0]
                except Unsupported as e:
                    c.undecided('%s: %s' % (cal.name, o.kind), e)
                    continue
                if len(bad):
                    c.violation('%s:%s:%s' % (cal.name, o.fn.rsplit('::', 1)[-1], o.kind.split('(')[0].strip().replace(' ', '_')[:60]),
                                '%s (%s): %s in %s at %s on %d date(s) of market %r: %s' % (cal.mod, cal.file(), o.kind, o.fn, o.span, len(bad), cfg or 'default', runs(bad)))
            try:
                val, cov = table(D, outs, cal, cfg, ds.rd)
            except Unsupported:
                continue
            if not obl and not cov.all() and not it.cutoffs:
                c.undecided(cal.name, 'no outcome on %d dates' % int((~cov).sum()))
        if it.cutoffs:
            c.undecided(cal.name, 'loop bound reached')
    c.cov['blocks_analysed'] = sites
    c.floor('calendars', n + len(c.undec), 41)
