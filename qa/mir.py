"""Loading of the MIR dump: control-flow graph, weak topological order, liveness, types."""
import json
from collections import defaultdict


class Body:
    pass


def place_locals(p, use, isdef=False):
    if not isdef or len(p) > 1:
        use.add(p[0])
    for e in p[1:]:
        if e[0] == 'index':
            use.add(e[1])


def op_uses(o, use):
    if o[0] in ('copy', 'move'):
        place_locals(o[1], use)


def rv_uses(r, use, borrowed):
    k = r[0]
    if k == 'use':
        op_uses(r[1], use)
    elif k in ('bin', 'cbin'):
        op_uses(r[2], use)
        op_uses(r[3], use)
    elif k == 'un':
        op_uses(r[2], use)
    elif k == 'cast':
        op_uses(r[2], use)
    elif k == 'agg':
        for o in r[2]:
            op_uses(o, use)
    elif k in ('ref', 'addrof'):
        place_locals(r[1], use)
        if not any(e[0] == 'deref' for e in r[1][1:]):
            borrowed.add(r[1][0])
    elif k in ('discr', 'len', 'reborrow'):
        place_locals(r[1], use)
    elif k == 'repeat':
        op_uses(r[1], use)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for v, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


def wto(n, succ, entry):
    """Nested list of vertices and (head, body) components."""
    import sys
    num = [0] * n
    cnt = [0]
    stack = []
    INFTY = 1 << 60

    def component(v):
        part = []
        for s in succ[v]:
            if num[s] == 0:
                visit(s, part)
        return (v, part)

    def visit(v, part):
        stack.append(v)
        cnt[0] += 1
        num[v] = cnt[0]
        head = num[v]
        loop = False
        for s in succ[v]:
            m = visit(s, part) if num[s] == 0 else num[s]
            if m <= head:
                head = m
                loop = True
        if head == num[v]:
            num[v] = INFTY
            e = stack.pop()
            if loop:
                while e != v:
                    num[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head
    out = []
    visit(entry, out)
    return out


def callees(b):
    """Functions a body names in its calls."""
    return [t[1] for st, (t, sp) in b.blocks if t[0] == 'call' and isinstance(t[1], int)]


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = j['fns']
        self.tys = j['tys']
        self.roots = dict(j['roots'])
        self.vtable = {(t, f): m for t, f, m in j['vtable']}
        self.library = j['library']
        self.calendars = j['calendars']
        self.calendar_impls = j['calendar_impls']
        self.bodies = {}
        self.tyname = {}
        for i, t in enumerate(self.tys):
            self.tyname.setdefault(t['str'], i)

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            f = self.fns[i]
            j = f.get('body')
            if j is None:
                return None
            b = Body()
            b.idx = i
            b.name = f['name']
            b.crate = f['crate']
            b.argc = j['argc']
            b.spread = j['spread']
            b.locals = j['locals']
            b.names = dict((l, n) for l, n in j['names'])
            b.blocks = j['blocks']
            n = len(b.blocks)
            b.succ = [succs(bb[1][0]) for bb in b.blocks]
            b.wto = wto(n, b.succ, 0)
            self._live(b)
            self.bodies[i] = b
        return b

    def _live(self, b):
        n = len(b.blocks)
        gen, kill = [], []
        borrowed = set()
        for st, (t, sp) in b.blocks:
            g, k = set(), set()

            def use(u):
                for x in u:
                    if x not in k:
                        g.add(x)
            for s in st:
                u = set()
                if s[0] == 'assign':
                    rv_uses(s[2], u, borrowed)
                    place_locals(s[1], u, True)
                    use(u)
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                elif s[0] == 'setdiscr':
                    place_locals(s[1], u)
                    use(u)
                elif s[0] == 'assume':
                    op_uses(s[1], u)
                    use(u)
                elif s[0] == 'copy_nonoverlapping':
                    for o in s[1:4]:
                        op_uses(o, u)
                    use(u)
            u = set()
            if t[0] == 'switch' or t[0] == 'assert':
                op_uses(t[1], u)
                use(u)
            elif t[0] == 'drop':
                pass
            elif t[0] == 'call':
                for o in t[2]:
                    op_uses(o, u)
                op_uses(t[5], u)
                place_locals(t[3], u, True)
                use(u)
                if len(t[3]) == 1:
                    k.add(t[3][0])
            elif t[0] == 'return':
                use({0})
            gen.append(g)
            kill.append(k)
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in b.succ[i]:
                    o |= live[s]
                new = gen[i] | (o - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        b.borrowed = borrowed
        b.live = [l | borrowed for l in live]
