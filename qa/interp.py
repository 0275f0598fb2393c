"""Abstract interpreter for MIR.

A forward dataflow analysis over the control-flow graph of every function, inlining calls (one
analysis per calling context).  States are joined wherever control flow joins; the abstract domain
keeps, for every scalar, the guarded value it has in terms of the function's inputs (a decision
diagram over linear forms).  There is no enumeration of paths and no solver.
"""
import sys
from fractions import Fraction
from .values import *
from . import dates
from .ints import fdiv_c, mod_c, tabulate

sys.setrecursionlimit(200000)
LOCAL = ('calendar', 'qlab_time', 'qlab_math', 'qlab_instrument', 'qlab_error', 'qlab_termstructure', 'qlab')


SYMKEY = {}     # name of a float symbol -> key


class Frame:
    __slots__ = ('id', 'body')


class State:
    __slots__ = ('pc', 'mem', 'own')

    def __init__(self, pc, mem):
        self.pc, self.mem, self.own = pc, mem, set()

    def fork(self):
        s = State(self.pc, dict(self.mem))
        self.own = set()
        return s

    def get(self, key):
        f = self.mem.get(key[0])
        return UNDEF if f is None else f.get(key[1], UNDEF)

    def set(self, key, v):
        fid = key[0]
        f = self.mem.get(fid)
        if f is None:
            f = self.mem[fid] = {}
            self.own.add(fid)
        elif fid not in self.own:
            f = self.mem[fid] = dict(f)
            self.own.add(fid)
        f[key[1]] = v

    def delete(self, key):
        fid = key[0]
        f = self.mem.get(fid)
        if f is None or key[1] not in f:
            return
        if fid not in self.own:
            f = self.mem[fid] = dict(f)
            self.own.add(fid)
        del f[key[1]]


def merge(a, b):
    """Join of two states at the same program point (raises Incompat)."""
    pc = dor(a.pc, b.pc)
    c = restrict(a.pc, pc)
    mem = {}
    for fid, fa in a.mem.items():
        fb = b.mem.get(fid)
        if fb is fa:
            mem[fid] = fa
            continue
        if fb is None:
            raise Incompat()
        f = {}
        for k, va in fa.items():
            vb = fb.get(k, UNDEF)
            f[k] = va if va is vb else vite(c, va, vb)
        for k, vb in fb.items():
            if k not in fa:
                f[k] = vb
        mem[fid] = f
    if len(b.mem) != len(a.mem):
        raise Incompat()
    return State(pc, mem)


def same(a, b, pc):
    if a is b:
        return True
    if isdd(a) and isdd(b):
        return restrict(a, pc) is restrict(b, pc)
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return len(a.fs) == len(b.fs) and all(same(x, y, pc) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Enum):
        return same(a.d, b.d, pc) and a.vs.keys() == b.vs.keys() and all(len(a.vs[k]) == len(b.vs[k]) and all(same(x, y, pc) for x, y in zip(a.vs[k], b.vs[k])) for k in a.vs)
    return isinstance(a, (Ptr, FnV)) and a == b


def unchanged(a, b):
    """The states hold the same memory wherever they are reached."""
    if a.pc is not b.pc or a.mem.keys() != b.mem.keys():
        return False
    for k, fa in a.mem.items():
        fb = b.mem[k]
        if fa is not fb and (fa.keys() != fb.keys() or not all(same(v, fb[i], a.pc) for i, v in fa.items())):
            return False
    return True


class Obligation:
    __slots__ = ('kind', 'pc', 'span', 'stack', 'fn')

    def __repr__(self):
        return '%s at %s' % (self.kind, self.span)


class Interp:
    def __init__(self, prog, loop_limit=64):
        from .models import natives
        self.p = prog
        self.natives = natives
        self.nat = {}
        self.loop_limit = loop_limit
        self.reset()
        self.consts = {}
        self.constcache = {}
        self.nfid = 0
        self.opaque_months = False      # month arithmetic as uninterpreted dates
        self.months_total = False       # ... that never leaves the supported range
        self.failing = set()            # month steps and weekend rolls taken to leave the supported range
        self.steps = {}                 # those met
        self.opaque_roll = False        # the weekend roll as an uninterpreted date
        self.prune = None               # removes infeasible paths from branch conditions
        self.deadline = None

    def reset(self):
        self.obl = {}
        self.sites = set()
        self.cutoffs = []
        self.visited = set()
        self.blocks_seen = set()
        self.calls = 0
        self.stack = []
        self.fork_limit = 400
        self.opaque_seen = {}
        self.dead = None

    # ------------------------------------------------------------------------------ types
    def ty(self, i):
        return self.p.tys[i]

    def op_ty(self, body, o):
        if o[0] in ('copy', 'move'):
            return self.place_ty(body, o[1])
        if o[0] == 'const':
            return o[1]['ty']
        return None

    def place_ty(self, body, p):
        t = body.locals[p[0]]
        for e in p[1:]:
            k = e[0]
            if k == 'field':
                t = e[2]
            elif k in ('deref', 'index', 'cindex'):
                d = self.ty(t)
                if 'elem' in d:
                    t = d['elem']
                elif d['k'] == 'adt':     # Box
                    t = d['args'][0]
        return t

    def irange(self, t):
        d = self.ty(t)
        k = d['k']
        if k == 'int':
            b = d['bits']
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if k == 'uint':
            return 0, (1 << d['bits']) - 1
        if k == 'char':
            return 0, 0x10ffff
        if k == 'bool':
            return 0, 1
        if k == 'pat':
            return self.irange(d['elem'])
        return None

    def is_date(self, d):
        return d['k'] == 'adt' and d['crate'] == 'chrono' and d['str'] in ('chrono::NaiveDate', 'chrono::naive::date::NaiveDate')

    # ------------------------------------------------------------------------------ constants
    def const(self, c):
        v = self.constcache.get(id(c))
        if v is None:
            v = self.constcache[id(c)] = self.decode(c['v'], c['ty'])
        return v

    def decode(self, v, t):
        d = self.ty(t)
        k = v[0]
        if k == 'int':
            return term(L(int(v[1])))
        if k == 'bool':
            return bterm(v[1])
        if k == 'float':
            import struct
            x = struct.unpack('<d', struct.pack('<Q', int(v[2])))[0]
            if d.get('name') == 'F32':
                pass
            return term(fconst(x))
        if k == 'zst':
            if d['k'] in ('fndef',):
                return FnV(d.get('inst'))
            if d['k'] == 'closure':
                return Agg((), t)
            if d['k'] == 'adt' and d['kind'] == 'enum':
                return Enum(term(L(0)), {0: ()})
            if d['k'] == 'adt' and d['kind'] == 'struct':
                return Agg([self.decode(['zst'], ft) for n, ft in d['variants'][0]['fields']])
            if d['k'] == 'tuple':
                return Agg([self.decode(['zst'], ft) for ft in d['elems']])
            return Agg(())
        if k == 'adt':
            fs = d['variants'][v[1]]['fields']
            if self.is_date(d):
                yof = int(v[2][0][2][0][1]) if v[2][0][0] == 'adt' else int(v[2][0][1])
                x = v[2][0]
                while x[0] != 'int':
                    x = x[2][0] if x[0] == 'adt' else x[1][0]
                yof = int(x[1])
                y, o = yof >> 13, (yof >> 4) & 0x1ff
                return term(L(dates.days_before_year(y) + o))
            vals = [self.decode(x, ft) for x, (n, ft) in zip(v[2], fs)]
            if d['kind'] == 'enum':
                return Enum(term(L(v[1])), {v[1]: tuple(vals)})
            if d['str'].endswith('TimeDelta') and d['crate'] == 'chrono':
                return self.timedelta(vals)
            return Agg(vals)
        if k == 'tuple':
            return Agg([self.decode(x, ft) for x, ft in zip(v[1], d['elems'])])
        if k == 'array':
            return Agg([self.decode(x, d['elem']) for x in v[1]])
        if k == 'strref':
            return StrV(v[1])
        if k in ('ref', 'sliceref'):
            n = len(self.consts)
            key = ('const', n)
            et = d['elem']
            if k == 'ref':
                self.consts[n] = self.decode(v[1], et)
                return Ptr(key, (), None)
            ed = self.ty(et)
            self.consts[n] = Agg([self.decode(x, ed['elem']) for x in v[1]])
            return Ptr(key, (), (0, len(v[1])))
        if k == 'fnref':
            return FnV(v[1])
        if k == 'rawint':
            return OpaqueV('rawint')
        return OpaqueV('const %s' % d['str'])

    def timedelta(self, vals):
        s = vals[0]
        return bind(s, lambda x: term(L(x.c // 86400)))

    def symbolic(self, t, key, depth=0, **kw):
        """A value about which nothing is known but its type."""
        d = self.ty(t)
        k = d['k']
        if k == 'bool':
            return mk(var_of(LA(atom(key, 0, 1, kw.get('prio')))), (1,), (FALSE, TRUE))
        if k in ('int', 'uint', 'char', 'pat'):
            lo, hi = self.irange(t)
            return term(LA(atom(key, lo, hi, kw.get('prio'))))
        if k == 'float':
            SYMKEY[repr(key)] = key
            return term(fsym(repr(key)))
        if self.is_date(d):
            return term(dates.date_sym(key))
        if k == 'tuple':
            return Agg([self.symbolic(ft, (key[0], *key[1:], '.%d' % i), depth + 1) for i, ft in enumerate(d['elems'])])
        if k == 'array':
            return Agg([self.symbolic(d['elem'], (key[0], *key[1:], '[%d]' % i), depth + 1) for i in range(d['len'])])
        if k == 'adt':
            if d['str'].endswith('String') or 'Cow<' in d['str'] or d['name'].endswith('ErrString'):
                return STR
            if depth > 6:
                return OpaqueV('deep')
            if d['kind'] == 'struct' and len(d['variants'][0]['fields']) == 1 and d['variants'][0]['fields'][0][0] == '0':
                # a newtype stands for what it wraps
                return Agg([self.symbolic(d['variants'][0]['fields'][0][1], key, depth + 1)])
            if d['kind'] == 'struct':
                return Agg([self.symbolic(ft, (key[0], *key[1:], '.' + n), depth + 1) for n, ft in d['variants'][0]['fields']])
            if d['kind'] == 'enum':
                vs = {}
                for i, v in enumerate(d['variants']):
                    vs[i] = tuple(self.symbolic(ft, (key[0], *key[1:], '%s.%s' % (v['name'], n)), depth + 1) for n, ft in v['fields'])
                n = len(d['variants'])
                if n == 1:
                    return Enum(term(L(0)), vs)
                return Enum(term(LA(atom((key[0], *key[1:], 'variant'), 0, n - 1, kw.get('prio')))), vs)
        if k == 'ref' and self.ty(d['elem'])['k'] == 'str':
            return STR
        return OpaqueV(d['str'])

    # ------------------------------------------------------------------------------ memory
    def obj(self, st, key):
        if key[0] == 'const':
            return self.consts[key[1]]
        return st.get(key)

    def read(self, st, key, path):
        v = self.obj(st, key)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if v is UNDEF:
            return UNDEF
        k = e[0]
        if k == 'f':
            if isinstance(v, (Agg, MatV)):
                return v.fs[e[1]] if e[1] < len(v.fs) else UNDEF
            if isinstance(v, BoxV):
                return v
            if isinstance(v, (StrV, OpaqueV)):
                return v
            if isdd(v) and e[1] == 0:
                return v
            if isinstance(v, Ptr) and e[1] == 0:
                return v
        elif k == 'vf':
            if isinstance(v, Enum):
                fs = v.vs.get(e[1])
                return UNDEF if fs is None or e[2] >= len(fs) else fs[e[2]]
            if isinstance(v, (StrV, OpaqueV)):
                return v
        elif k == 'i':
            i = e[1]
            if isinstance(v, (Agg, MatV)):
                if i.leaf and isinstance(i.v, Lin) and not i.v.ts:
                    return v.fs[i.v.c] if 0 <= i.v.c < len(v.fs) else UNDEF
                i = restrict(i, st.pc)
                x = expand(i, len(v.fs))
                try:
                    return vbind(x, lambda l: v.fs[l.c] if 0 <= l.c < len(v.fs) else UNDEF)
                except Incompat:
                    raise Split(x)
        elif k == 'box':
            if isinstance(v, BoxV):
                return v.v
        raise Unsupported('projection %r of %s' % (e, type(v).__name__))

    def write(self, st, key, path, new):
        if not path:
            st.set(key, new)
            return
        if key[0] == 'const':
            raise Unsupported('write to a constant')
        st.set(key, self.upd(st, st.get(key), path, new))

    def upd(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = e[0]
        if k == 'f':
            if v is UNDEF:
                v = Agg([UNDEF] * (e[1] + 1))
            if isinstance(v, MatV):
                fs = list(v.fs)
                fs[e[1]] = self.upd(st, fs[e[1]], rest, new)
                return MatV(v.r, v.c, fs)
            if isinstance(v, BoxV):
                return BoxV(self.upd(st, v.v, rest, new))
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.upd(st, fs[e[1]], rest, new)
                r = type(v).__new__(type(v))
                r.fs, r.ty = tuple(fs), v.ty
                return r
        elif k == 'vf':
            if v is UNDEF:
                v = Enum(term(L(e[1])), {})
            if isinstance(v, Enum):
                vs = dict(v.vs)
                fs = list(vs.get(e[1], ()))
                while len(fs) <= e[2]:
                    fs.append(UNDEF)
                fs[e[2]] = self.upd(st, fs[e[2]], rest, new)
                vs[e[1]] = tuple(fs)
                return Enum(v.d, vs)
        elif k == 'i':
            i = e[1]
            if isinstance(v, (Agg, MatV)):
                fs = list(v.fs)
                i = expand(restrict(i, st.pc), len(v.fs))
                if i.leaf:
                    if 0 <= i.v.c < len(fs):
                        fs[i.v.c] = self.upd(st, fs[i.v.c], rest, new)
                else:
                    for l in leaves(i):
                        if 0 <= l.c < len(fs):
                            c = bind(i, lambda x: bterm(x is l))
                            try:
                                fs[l.c] = vite(c, self.upd(st, fs[l.c], rest, new), fs[l.c])
                            except Incompat:
                                raise Split(i)
                if isinstance(v, MatV):
                    return MatV(v.r, v.c, fs)
                r = type(v).__new__(type(v))
                r.fs, r.ty = tuple(fs), v.ty
                return r
        elif k == 'box':
            if isinstance(v, BoxV):
                return BoxV(self.upd(st, v.v, rest, new))
        raise Unsupported('write %r into %s' % (e, type(v).__name__))

    def loc(self, st, fr, place):
        key, path, meta = (fr.id, place[0]), (), None
        var = None
        for e in place[1:]:
            k = e[0]
            if k == 'deref':
                v = self.read(st, key, path)
                if isinstance(v, Ptr):
                    key, path, meta = v.key, v.path, v.meta
                elif isinstance(v, BoxV):
                    path, meta = path + (('box',),), None
                elif isinstance(v, (StrV, OpaqueV)):
                    # text is not tracked: a place holding the same opaque value
                    pass
                elif isinstance(v, Agg) and v.ty == 'ptr':
                    raise Unsupported('deref')
                else:
                    raise Unsupported('deref of %s' % type(v).__name__)
            elif k == 'field':
                path = path + ((('f', e[1]),) if var is None else (('vf', var, e[1]),))
                var = None
                meta = None
            elif k == 'downcast':
                var = e[1]
            elif k == 'index':
                i = st.get((fr.id, e[1]))
                if meta is not None and meta[0]:
                    off = L(meta[0])
                    i = bind(i, lambda x: term(add(x, off)))
                path = path + (('i', i),)
                meta = None
            elif k == 'cindex':
                if e[3]:
                    n = self.seqlen(st, key, path, meta)
                    o = n - e[1]
                else:
                    o = e[1]
                path = path + (('i', term(L(o + (meta[0] if meta else 0)))),)
                meta = None
            elif k == 'subslice':
                n = self.seqlen(st, key, path, meta)
                s = meta[0] if meta else 0
                to = n - e[2] if e[3] else e[2]
                meta = (s + e[1], to - e[1])
            else:
                raise Unsupported(k)
        return key, path, meta

    def seqlen(self, st, key, path, meta):
        if meta is not None:
            return meta[1]
        v = self.read(st, key, path)
        return len(v.fs)

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'const':
            return self.const(o[1])
        if k == 'rtchecks':
            return FALSE
        p = o[1]
        if len(p) == 1:
            key = (fr.id, p[0])
            v = st.get(key)
            if k == 'move' and p[0] not in fr.body.borrowed:
                st.delete(key)
            return v
        key, path, meta = self.loc(st, fr, p)
        return self.read(st, key, path)

    # ------------------------------------------------------------------------------ scalars
    def fcmp(self, a, b):
        """-1/0/1 diagram comparing floats."""
        d = fsub(a, b)
        if a is b:
            return term(L(0))
        s = fsign(d)
        if s is not None:
            return term(L(s))
        if d.intlin is not None:
            x = d.intlin
            return ite(eq0(x), term(L(0)), ite(ge0(x), term(L(1)), term(L(-1))))
        if a.intlin is not None and b.const is not None and b.const.denominator == 1:
            x = sub(a.intlin, L(b.const.numerator))
            return ite(eq0(x), term(L(0)), ite(ge0(x), term(L(1)), term(L(-1))))
        n = fneg(d)
        if d.fp <= n.fp:
            v = var_of(LA(atom(('fcmp', d.fp, d.s[:60]), -1, 1)))
            return mk(v, (0, 1), (term(L(-1)), term(L(0)), term(L(1))))
        v = var_of(LA(atom(('fcmp', n.fp, n.s[:60]), -1, 1)))
        return mk(v, (0, 1), (term(L(1)), term(L(0)), term(L(-1))))

    def cmp3(self, a, b):
        """Three-way comparison of two leaves."""
        if isinstance(a, F) and isinstance(b, F):
            return self.fcmp(a, b)
        if isinstance(a, bool):
            return term(L((a > b) - (a < b)))
        d = sub(a, b)
        return ite(eq0(d), term(L(0)), ite(ge0(d), term(L(1)), term(L(-1))))

    def binop(self, st, op, a, b, t):
        if isdd(a) and isdd(b):
            r = bind2(a, b, lambda x, y: self.leafop(op, x, y, t))
            if not r.leaf:
                r = restrict(r, st.pc)
            if op == 'Cmp':
                return ordering(r)
            return r
        if op == 'Offset':
            raise Unsupported('pointer arithmetic')
        if op in ('Eq', 'Ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
            return bterm((a == b) == (op == 'Eq'))
        if isinstance(a, (OpaqueV, StrV)) or isinstance(b, (OpaqueV, StrV)):
            raise Unsupported('operation %s on untracked data' % op)
        if a is UNDEF or b is UNDEF:
            return UNDEF        # discriminants of zero-sized values: only ever assumed
        raise Unsupported('binop %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def leafop(self, op, x, y, t):
        op = op.replace('Unchecked', '')
        if isinstance(x, F) or isinstance(y, F):
            if op == 'Add':
                return term(fadd(x, y))
            if op == 'Sub':
                return term(fsub(x, y))
            if op == 'Mul':
                return term(fmul(x, y))
            if op == 'Div':
                return term(fdiv(x, y))
            if op == 'Rem':
                return term(ffun('frem', x, y))
            c = self.fcmp(x, y)
            return self.rel(op, c)
        if isinstance(x, bool):
            if op == 'BitAnd':
                return bterm(x and y)
            if op == 'BitOr':
                return bterm(x or y)
            if op in ('BitXor', 'Ne'):
                return bterm(x != y)
            if op == 'Eq':
                return bterm(x == y)
            return self.rel(op, term(L((x > y) - (x < y))))
        if op == 'Eq':
            return eq(x, y)
        if op == 'Ne':
            return dnot(eq(x, y))
        if op == 'Lt':
            return lt(x, y)
        if op == 'Le':
            return le(x, y)
        if op == 'Gt':
            return lt(y, x)
        if op == 'Ge':
            return le(y, x)
        if op == 'Cmp':
            return self.cmp3(x, y)
        if op in ('Add', 'Sub', 'Mul'):
            return self.wrap(self.arith(op, x, y), t)
        if op == 'Div':
            return self.idiv(x, y)
        if op == 'Rem' and not y.ts and y.c:
            k = abs(y.c)
            lo, hi = rng(x)
            if single_base(x) is None and 400 % k == 0:
                if lo >= 0:
                    return term(mod_c(x, k))
                return ite(ge0(x), term(mod_c(x, k)), term(scale(mod_c(scale(x, -1), k), -1)))
        if op == 'Rem':
            return bind(self.idiv(x, y), lambda q: bind(self.imul(q, y), lambda m: term(sub(x, m))))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(op, x, y, t)
        if op in ('Shl', 'Shr'):
            if y.ts:
                e = expand(term(y))
                return bind(e, lambda k: self.leafop(op, x, k, t))
            if op == 'Shl':
                return self.wrap(term(scale(x, 1 << y.c)), t)
            return term(fdiv_c(x, 1 << y.c))
        raise Unsupported('operator ' + op)

    def rel(self, op, c):
        f = {'Eq': lambda s: s == 0, 'Ne': lambda s: s != 0, 'Lt': lambda s: s < 0, 'Le': lambda s: s <= 0,
             'Gt': lambda s: s > 0, 'Ge': lambda s: s >= 0}.get(op)
        if op == 'Cmp':
            return c
        if f is None:
            raise Unsupported(op)
        return bind(c, lambda l: bterm(f(l.c)))

    def arith(self, op, x, y):
        if op == 'Add':
            return term(add(x, y))
        if op == 'Sub':
            return term(sub(x, y))
        return self.imul(x, y)

    def imul(self, x, y):
        if not x.ts:
            return term(scale(y, x.c))
        if not y.ts:
            return term(scale(x, y.c))
        bx, by = single_base(x), single_base(y)
        if bx is not None and bx is by:
            return term(tab_of(bx, [p * q for p, q in zip(values_on(x, bx), values_on(y, bx))]))
        if bx is not None and (by is None or bx.hi - bx.lo <= by.hi - by.lo) and bx.hi - bx.lo <= 64:
            return bind(expand(term(x)), lambda k: term(scale(y, k.c)))
        if by is not None and by.hi - by.lo <= 64:
            return bind(expand(term(y)), lambda k: term(scale(x, k.c)))
        a, b = sorted((x, y), key=lambda l: l.id)
        ra, rb = rng(a), rng(b)
        ps = [p * q for p in ra for q in rb if not (p == 0 or q == 0)] or [0]
        return term(LA(atom(('mul', a, b), min(ps + [0]), max(ps + [0]))))

    def idiv(self, x, y):
        """Division truncating toward zero."""
        if y.ts:
            bx, by = single_base(x), single_base(y)
            if by is not None and (bx is by or not x.ts):
                f = lambda p, q: 0 if q == 0 else (abs(p) // abs(q)) * (1 if (p >= 0) == (q > 0) else -1)
                return term(tab_of(by, [f(p, q) for p, q in zip(values_on(x, by) if x.ts else [x.c] * int(by.hi - by.lo + 1), values_on(y, by))]))
            if by is not None and by.hi - by.lo <= 64:
                return bind(expand(term(y)), lambda k: self.idiv(x, k))
            return term(LA(atom(('div', x, y), -INF, INF)))
        k = y.c
        if k == 0:
            return term(L(0))
        if k < 0:
            return bind(self.idiv(x, L(-k)), lambda q: term(scale(q, -1)))
        if k == 1:
            return term(x)
        lo, hi = rng(x)
        if lo >= 0:
            return term(fdiv_c(x, k))
        t = tabulate(x, lambda v: abs(v) // k * (1 if v >= 0 else -1))
        if t is not None:
            return term(t)
        if hi <= 0:
            return term(scale(fdiv_c(scale(x, -1), k), -1))
        return ite(ge0(x), term(fdiv_c(x, k)), term(scale(fdiv_c(scale(x, -1), k), -1)))

    def bitop(self, op, x, y, t):
        f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
        if not x.ts and not y.ts:
            return term(L(f(x.c, y.c)))
        if not x.ts:
            x, y = y, x
        bx = single_base(x)
        if not y.ts:
            if op == 'BitAnd' and y.c >= 0 and (y.c & (y.c + 1)) == 0:
                return term(mod_c(x, y.c + 1))
            if bx is not None:
                return term(tab_of(bx, [f(v, y.c) for v in values_on(x, bx)]))
        elif bx is not None and single_base(y) is bx:
            return term(tab_of(bx, [f(p, q) for p, q in zip(values_on(x, bx), values_on(y, bx))]))
        a, b = sorted((x, y), key=lambda l: l.id)
        lo, hi = self.irange(t) if t is not None and self.irange(t) else (-INF, INF)
        return term(LA(atom((op, a, b), lo, hi)))

    def wrap(self, d, t):
        r = self.irange(t) if t is not None else None
        if r is None:
            return d
        lo, hi = r
        n = hi - lo + 1

        def g(x):
            l, h = rng(x)
            if l >= lo and h <= hi:
                return term(x)
            if not x.ts:
                return term(L((x.c - lo) % n + lo))
            b = single_base(x)
            if b is not None:
                return term(tab_of(b, [(v - lo) % n + lo for v in values_on(x, b)]))
            inr = dand(le(L(lo), x), le(x, L(hi)))
            w = add(mod_c(sub(x, L(lo)), n), L(lo))
            return ite(inr, term(x), term(w))
        return bind(d, g)

    def inrange(self, d, t):
        lo, hi = self.irange(t)
        return bind(d, lambda x: dand(le(L(lo), x), le(x, L(hi))))

    def checked(self, st, op, a, b, t):
        """(wrapped value, overflowed)"""
        if op in ('Shl', 'Shr'):
            bits = self.ty(t).get('bits', 64)
            v = bind2(a, b, lambda x, y: self.leafop(op, x, y, t))
            return v, dnot(bind(b, lambda y: dand(le(L(0), y), lt(y, L(bits)))))
        v = bind2(a, b, lambda x, y: self.arith(op, x, y))
        if not v.leaf:
            v = restrict(v, st.pc)
        ok = self.inrange(v, t)
        # the value is only used where it did not overflow
        return v, dnot(ok)

    # ------------------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'bin':
            t = self.op_ty(fr.body, r[2])
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, t)
        if k == 'cbin':
            t = self.op_ty(fr.body, r[2])
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return Agg(self.checked(st, r[1], a, b, t))
        if k == 'un':
            t = self.op_ty(fr.body, r[2])
            a = self.operand(st, fr, r[2])
            if r[1] == 'PtrMetadata':
                if isinstance(a, Ptr) and a.meta is not None:
                    return term(L(a.meta[1]))
                raise Unsupported('PtrMetadata')
            if r[1] == 'Not':
                if self.ty(t)['k'] == 'bool':
                    return dnot(a)
                lo, hi = self.irange(t)
                return bind(a, lambda x: term(sub(L(hi + lo), x)))
            if r[1] == 'Neg':
                return bind(a, lambda x: term(fneg(x)) if isinstance(x, F) else self.wrap(term(scale(x, -1)), t))
            raise Unsupported(r[1])
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'agg':
            vals = [self.operand(st, fr, o) for o in r[2]]
            if r[1] == 'tuple' or r[1] == 'array':
                return Agg(vals)
            if r[1] == 'closure':
                return Agg(vals, r[3])
            if r[1] == 'adt':
                d = self.ty(r[3])
                if d['kind'] == 'enum':
                    return Enum(term(L(r[4])), {r[4]: tuple(vals)})
                if d['kind'] == 'union':
                    n = r[5] or 0
                    return Agg([UNDEF] * n + vals)
                if self.is_date(d):
                    raise Unsupported('raw NaiveDate')
                return Agg(vals)
            if r[1] == 'rawptr':
                p = vals[0]
                if isinstance(p, Ptr) and len(vals) > 1 and isdd(vals[1]):
                    n = self.concrete(st, vals[1])
                    return Ptr(p.key, p.path, (0, n))
                return p
            raise Unsupported('aggregate ' + r[1])
        if k in ('ref', 'addrof', 'reborrow'):
            pl = r[1]
            if pl[-1] == ['deref'] and len(pl) > 1:
                v = self.rd(st, fr, pl[:-1])
                if isinstance(v, (StrV, OpaqueV)):
                    return v
            key, path, meta = self.loc(st, fr, pl)
            v = None
            if any(e[0] == 'deref' for e in pl[1:]) or len(path):
                try:
                    v = self.read(st, key, path)
                except Unsupported:
                    v = None
                if isinstance(v, (StrV, OpaqueV)) and self.ty(self.place_ty(fr.body, pl))['k'] == 'str':
                    return v
            return Ptr(key, path, meta)
        if k == 'discr':
            v = self.rd(st, fr, r[1])
            t = self.place_ty(fr.body, r[1])
            d = self.ty(t)
            if isinstance(v, Enum):
                vs = d.get('variants')
                if vs and any(int(x['discr']) != i for i, x in enumerate(vs)):
                    tr = self.irange(d['discr_ty'])
                    def g(x):
                        vals = []
                        for q in vs:
                            n = int(q['discr'])
                            if tr and n > tr[1]:
                                n -= (tr[1] - tr[0] + 1)
                            vals.append(n)
                        if not x.ts:
                            return term(L(vals[x.c]))
                        tb = tabulate(x, lambda i: vals[i])
                        return term(tb)
                    return bind(v.d, g)
                return v.d
            if v is UNDEF:
                return UNDEF
            raise Unsupported('discriminant of %s (%s)' % (type(v).__name__, d['str']))
        if k == 'len':
            key, path, meta = self.loc(st, fr, r[1])
            return term(L(self.seqlen(st, key, path, meta)))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] > 4096:
                raise Unsupported('large array')
            return Agg([v] * r[2])
        raise Unsupported('rvalue ' + k)

    def rd(self, st, fr, place):
        key, path, meta = self.loc(st, fr, place)
        return self.read(st, key, path)

    def cast(self, st, fr, r):
        kind, o, t = r[1], r[2], r[3]
        ft = self.op_ty(fr.body, o)
        v = self.operand(st, fr, o)
        if len(r) > 4 and r[4] is not None:
            return FnV(r[4])
        d = self.ty(t)
        if kind == 'IntToInt':
            if self.ty(ft)['k'] == 'bool':
                v = bind(v, lambda b: term(L(int(b))))
            return self.wrap(v, t)
        if kind == 'IntToFloat':
            return bind(v, lambda x: term(from_int(x)))
        if kind == 'FloatToFloat':
            return v
        if kind == 'FloatToInt':
            lo, hi = self.irange(t)

            def g(x):
                if x.const is not None:
                    n = int(x.const)
                    return term(L(max(lo, min(hi, n))))
                if x.intlin is not None:
                    y = x.intlin
                    return ite(lt(y, L(lo)), term(L(lo)), ite(lt(L(hi), y), term(L(hi)), term(y)))
                return term(LA(atom(('f2i', x.fp, lo, hi), lo, hi)))
            return bind(v, g)
        if 'Unsize' in kind:
            if len(r) > 5:
                if isinstance(v, Ptr):
                    return v if v.meta is not None and v.meta[0] == 'dyn' else Ptr(v.key, v.path, ('dyn', r[5]))
                if isinstance(v, BoxV) and isinstance(v.v, Agg) and v.v.ty is not None:
                    return v    # a boxed closure is called through its own type
                raise Unsupported('owned trait object')
            if isinstance(v, Ptr) and self.ty(ft).get('elem') is not None:
                e = self.ty(self.ty(ft)['elem'])
                if e['k'] == 'array':
                    return Ptr(v.key, v.path, (0, e['len']))
            return v
        if kind == 'BoxDerefTransmute':
            kind = 'Transmute'
        if kind in ('PtrToPtr', 'Transmute', 'Subtype') or 'Pointer' in kind:
            if kind == 'Transmute':
                a, b = self.ty(ft), d
                if a['k'] == 'float' or b['k'] == 'float':
                    if a['k'] != b['k']:
                        raise Unsupported('transmute of floats')
                if isinstance(v, BoxV) and b['k'] == 'ptr':
                    src = o[1]
                    key, path, meta = self.loc(st, fr, [src[0]] + [e for e in src[1:]])
                    while path and path[-1] == ('f', 0):
                        path = path[:-1]
                    return Ptr(key, path + (('box',),), None)
                if b['k'] in ('int', 'uint') and a['k'] == 'adt' and a['str'] == 'std::num::NonZero<%s>' % b['str']:
                    while isinstance(v, Agg) and len(v.fs) == 1:
                        v = v.fs[0]
                if isdd(v) and b['k'] in ('int', 'uint') and a['k'] in ('int', 'uint', 'pat', 'adt'):
                    return self.wrap(v, t)
                if isdd(v) and b['k'] == 'adt' and b['kind'] == 'enum' and a['k'] in ('int', 'uint'):
                    e = (d.get('variants') or [{}])[-1].get('fields')
                    ft2 = e[0][1] if e and len(d['variants']) == 2 and len(e) == 1 else None
                    if ft2 is None or not d['str'].endswith('Option<std::num::NonZero<%s>>' % a['str']):
                        raise Unsupported('transmute to enum')
                    some, k = v, 0
                    while self.ty(ft2)['k'] == 'adt':
                        some = Agg([some], ft2)
                        ft2 = self.ty(ft2)['variants'][0]['fields'][0][1]
                    return Enum(bind(v, lambda l: ite(eq(l, L(0)), term(L(0)), term(L(1)))), {0: (), 1: (some,)})
            return v
        raise Unsupported('cast ' + kind)

    def concrete(self, st, dd):
        """The integer value of dd in this state (splits the state if there are several)."""
        d = restrict(dd, st.pc)
        if d.leaf and isinstance(d.v, Lin) and not d.v.ts:
            return d.v.c
        d = restrict(expand(d), st.pc)
        if d.leaf:
            return d.v.c
        raise Split(d)

    # ------------------------------------------------------------------------------ control
    def obligation(self, kind, pc, span, fn):
        self.sites.add((kind, span))
        if pc is FALSE:
            return
        k = (kind, span, tuple(s for s, _ in self.stack))
        o = self.obl.get(k)
        if o is None:
            o = Obligation()
            o.kind, o.pc, o.span, o.fn = kind, pc, span, fn
            o.stack = list(self.stack)
            self.obl[k] = o
        else:
            o.pc = dor(o.pc, pc)

    def new_frame(self):
        self.nfid += 1
        return self.nfid

    def call(self, st, idx, args, span='?', name=None):
        """Analyse a call.  Returns a list of (state, value)."""
        if self.stack:
            return self.call1(st, idx, args, span, name)
        try:
            return self.call1(st, idx, args, span, name)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError) as e:
            # a value of a kind the operation was not written for
            self.stack.clear()
            raise Unsupported('%s: %s' % (type(e).__name__, e))

    def call1(self, st, idx, args, span='?', name=None):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
        if idx is None:
            raise Unsupported('unresolved call')
        f = self.p.fns[idx]
        self.calls += 1
        h = self.nat.get(idx, 0)
        if h == 0:
            h = self.nat[idx] = self.natives.find(f)
        if h is not None:
            r = h(self, st, f, args, span)
            if r is NotImplemented:
                pass
            else:
                return r if isinstance(r, list) else [(st, r)]
        b = self.p.body(idx)
        if b is None and 'ctor' in f:
            d = self.ty(f['ctor'])
            if d['kind'] == 'enum':
                n = f['def'].rsplit('::', 1)[-1]
                i = [v['name'].rsplit('::', 1)[-1] for v in d['variants']].index(n)
                return [(st, Enum(term(L(i)), {i: tuple(args)}))]
            return [(st, Agg(args))]
        if b is None and f['kind'] == 'virtual' and args and isinstance(args[0], Ptr) and args[0].meta is not None and args[0].meta[0] == 'dyn':
            p = args[0]
            m = self.p.vtable.get((p.meta[1], idx))
            if m is not None:
                return self.call(st, m, [Ptr(p.key, p.path)] + list(args[1:]), span)
        if b is None:
            raise Unsupported('no body for %s' % f['name'])
        if len(self.stack) > 120:
            raise Unsupported('recursion in %s' % f['name'])
        self.visited.add(idx)
        fr = Frame()
        fr.id = self.new_frame()
        fr.body = b
        if f['kind'] == 'item' and '{closure#' in f['def'].rsplit('::', 1)[-1] and len(args) == 2 and b.argc >= 1:
            # rust-call ABI: the arguments are passed as a tuple
            tup = args[1]
            if isinstance(tup, Agg):
                args = [args[0]] + list(tup.fs)
        if b.spread is not None and len(args) > b.argc:
            n = b.spread - 1
            args = args[:n] + [Agg(args[n:])]
        if len(args) != b.argc:
            if len(args) and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].fs) == b.argc:
                args = args[:-1] + list(args[-1].fs)
            else:
                raise Unsupported('arity of %s' % f['name'])
        st.mem[fr.id] = dict((i + 1, a) for i, a in enumerate(args))
        st.own.add(fr.id)
        self.stack.append((f['name'], span))
        try:
            return self.run(fr, st)
        finally:
            self.stack.pop()

    def run(self, fr, st):
        pend = [None] * len(fr.body.blocks)
        pend[0] = [st]
        rets = []
        self._comp(fr, fr.body.wto, pend, rets)
        out = []
        for s in rets:
            v = s.mem[fr.id].get(0, UNDEF)
            del s.mem[fr.id]
            s.own.discard(fr.id)
            out.append((s, v))
        return out

    def _comp(self, fr, elems, pend, rets):
        for e in elems:
            if isinstance(e, int):
                if pend[e]:
                    ss, pend[e] = pend[e], None
                    for s in ss:
                        self.block(fr, e, s, pend, rets)
                continue
            head, body = e
            it = sym = 0
            last = prev = None
            while pend[head]:
                ss, pend[head] = pend[head], None
                pcs = tuple(s.pc.id for s in ss)
                if pcs != last:
                    sym += 1
                elif all(unchanged(a, b) for a, b in zip(prev, ss)):
                    # an iteration that nobody leaves and that changes nothing
                    for s in ss:
                        self.obligation('endless loop', s.pc, fr.body.blocks[head][1][1], fr.body.name)
                    break
                last, prev = pcs, ss
                it += 1
                if sym > self.loop_limit or it > 50000:
                    for s in ss:
                        self.cutoffs.append((fr.body.name, fr.body.blocks[head][1][1], s.pc))
                    break
                for s in ss:
                    self.block(fr, head, s, pend, rets)
                self._comp(fr, body, pend, rets)

    def push(self, fr, bb, st, pend, rets):
        if st.pc is FALSE:
            return
        if bb == 'ret':
            loc = st.mem[fr.id]
            st.mem[fr.id] = {0: loc.get(0, UNDEF)}
            lst = rets
        else:
            live = fr.body.live[bb]
            loc = st.mem[fr.id]
            if any(k not in live for k in loc):
                st.mem[fr.id] = {k: v for k, v in loc.items() if k in live}
                st.own.add(fr.id)
            lst = pend[bb]
            if lst is None:
                lst = pend[bb] = []
        for i, o in enumerate(lst):
            try:
                lst[i] = merge(o, st)
                return
            except Incompat:
                continue
        lst.append(st)
        if len(lst) > self.fork_limit:
            raise Unsupported('too many states at one point of %s' % fr.body.name)

    def block(self, fr, bb, st0, pend, rets):
        work = [st0]
        n = 0
        while work:
            s0 = work.pop()
            st = s0.fork()
            try:
                self.block1(fr, bb, st, pend, rets)
            except Split as e:
                n += 1
                if n > 300:
                    raise Unsupported('too many case splits in %s' % fr.body.name)
                for l in leaves(e.dd):
                    c = dand(s0.pc, bind(e.dd, lambda x: bterm(x is l)))
                    if c is not FALSE:
                        s2 = s0.fork()
                        s2.pc = c
                        work.append(s2)

    def block1(self, fr, bb, st, pend, rets):
        stmts, (t, span) = fr.body.blocks[bb]
        self.blocks_seen.add((fr.body.idx, bb))
        for s in stmts:
            k = s[0]
            if k == 'assign':
                self.cur = s[3]
                v = self.rvalue(st, fr, s[2])
                p = s[1]
                if len(p) == 1:
                    st.set((fr.id, p[0]), v)
                else:
                    key, path, meta = self.loc(st, fr, p)
                    self.write(st, key, path, v)
            elif k == 'setdiscr':
                key, path, meta = self.loc(st, fr, s[1])
                v = self.read(st, key, path)
                vs = v.vs if isinstance(v, Enum) else {}
                self.write(st, key, path, Enum(term(L(s[2])), dict(vs) if s[2] in vs else {**vs, s[2]: ()}))
            elif k == 'assume':
                c = self.operand(st, fr, s[1])
                if isdd(c):
                    st.pc = dand(st.pc, c)
            elif k == 'copy_nonoverlapping':
                n = self.concrete(st, self.operand(st, fr, s[3]))
                if n == 1:
                    a, b = self.operand(st, fr, s[1]), self.operand(st, fr, s[2])
                    self.write(st, b.key, b.path, self.read(st, a.key, a.path))
                elif n:
                    raise Unsupported('memcpy')
        self.cur = span
        k = t[0]
        if k == 'goto':
            self.push(fr, t[1], st, pend, rets)
        elif k == 'return':
            self.push(fr, 'ret', st, pend, rets)
        elif k == 'switch':
            self.switch(fr, st, t, pend, rets)
        elif k == 'drop':
            p = t[1]
            if len(p) == 1:
                st.delete((fr.id, p[0]))
            self.push(fr, t[2], st, pend, rets)
        elif k == 'assert':
            c = self.operand(st, fr, t[1])
            if not isdd(c):
                raise Unsupported('assert on %r' % (c,))
            if not t[2]:
                c = dnot(c)
            self.obligation(t[3], dand(st.pc, dnot(c)), span, fr.body.name)
            st.pc = dand(st.pc, c)
            self.push(fr, t[5], st, pend, rets)
        elif k == 'call':
            args = [self.operand(st, fr, o) for o in t[2]]
            c = t[1]
            if isinstance(c, dict):
                raise Unsupported('unresolved call %s' % c)
            if c is None:
                fv = self.operand(st, fr, t[5])
                outs = self.call_value(st, fv, args, span)
            else:
                if t[4] is None and self.is_panic(c):
                    self.obligation('panic: ' + self.panic_msg(c, args), st.pc, span, fr.body.name)
                    return
                outs = self.call(st, c, args, span)
            if t[4] is None:
                for s, v in outs:
                    self.obligation('call that never returns', s.pc, span, fr.body.name)
                return
            p = t[3]
            for s, v in outs:
                if s.pc is FALSE:
                    continue
                if len(p) == 1:
                    s.set((fr.id, p[0]), v)
                else:
                    key, path, meta = self.loc(s, fr, p)
                    self.write(s, key, path, v)
                self.push(fr, t[4], s, pend, rets)
        elif k == 'unreachable':
            # reached only along branches excluded by the layout of the data (or by `unreachable_unchecked`)
            pass
        elif k in ('resume', 'abort'):
            pass
        else:
            raise Unsupported('terminator ' + k)

    def is_panic(self, idx):
        n = self.p.fns[idx]['def']
        f = self.p.fns[idx]
        if f['crate'] in LOCAL or f['crate'] == 'qroots':
            return False
        return True

    def panic_msg(self, idx, args):
        n = self.p.fns[idx]['def'].rsplit('::', 1)[-1]
        for a in args:
            if isinstance(a, StrV) and a.key:
                n += ' (%s)' % a.key
        return n

    def switch(self, fr, st, t, pend, rets):
        v = self.operand(st, fr, t[1])
        if not isdd(v):
            raise Unsupported('switch on %r' % (v,))
        v = restrict(v, st.pc)
        td = self.ty(t[4])
        bits = td.get('bits', 8)
        signed = td['k'] == 'int'
        rest = st.pc
        targets = {}
        order = []
        for vs, bb in t[2]:
            n = int(vs)
            if signed and n >= 1 << (bits - 1):
                n -= 1 << bits
            c = bind(v, lambda x: bterm(x == bool(n)) if isinstance(x, bool) else eq(x, L(n)))
            if bb in targets:
                targets[bb] = dor(targets[bb], dand(st.pc, c))
            else:
                targets[bb] = dand(st.pc, c)
                order.append(bb)
            rest = dand(rest, dnot(c))
        bb = t[3]
        if bb in targets:
            targets[bb] = dor(targets[bb], rest)
        else:
            targets[bb] = rest
            order.append(bb)
        if self.prune is not None and sum(targets[bb] is not FALSE for bb in order) > 1:
            for bb in order:
                targets[bb] = self.prune(targets[bb])
        live = [(bb, targets[bb]) for bb in order if targets[bb] is not FALSE]
        for bb, pc in live:
            s = st.fork() if len(live) > 1 else st
            s.pc = pc
            self.push(fr, bb, s, pend, rets)

    def call_value(self, st, fv, args, span):
        """Call a function value (closure, function item or pointer)."""
        if isinstance(fv, Ptr):
            inner = self.read(st, fv.key, fv.path)
            if isinstance(inner, Agg) and inner.ty is not None:
                return self.call_closure(st, inner, fv, args, span)
            return self.call_value(st, inner, args, span)
        if isinstance(fv, FnV):
            return self.call(st, fv.idx, args, span)
        if isinstance(fv, Agg) and fv.ty is not None:
            return self.call_closure(st, fv, None, args, span)
        raise Unsupported('call of %r' % (fv,))

    def call_closure(self, st, clos, ptr, args, span):
        idx = self.ty(clos.ty).get('inst')
        b = self.p.body(idx)
        byref = self.ty(b.locals[1])['k'] == 'ref'
        tmp = None
        if byref and ptr is None:
            tmp = self.new_frame()
            st.mem[tmp] = {0: clos}
            st.own.add(tmp)
            env = Ptr((tmp, 0))
        else:
            env = ptr if byref else clos
        outs = self.call(st, idx, [env, Agg(args)], span)
        if tmp is not None:
            for s, v in outs:
                s.mem.pop(tmp, None)
                s.own.discard(tmp)
        return outs
