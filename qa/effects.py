"""Effect analysis: what the library can read besides its arguments, and what it can keep between calls.

The call graph is that of the monomorphic MIR: every root, every calendar method and every function of the library
crates that has no type parameters, closed under direct calls, drops, function pointers, closures, constants and
virtual dispatch.  An effect is a fact about a reached function (its name, the statics it names) or about a type."""
import json
import os
import re
import shutil
import subprocess
from collections import deque

LOCAL = ('calendar', 'qlab_error', 'qlab_instrument', 'qlab_math', 'qlab_termstructure', 'qlab_time', 'qlab')

# what a result must not depend on: pattern on the path of a function -> what it reads
READS = [(re.compile(p), w) for p, w in [
    (r'(^|[<: ])std::time::(SystemTime|Instant|UNIX)', 'the clock'),
    (r'(^|[<: ])chrono::(\w+::)*(Utc|Local)(>|::|$| )', 'the clock'),
    (r'(^|[<: ])(chrono::\w+::)*Local as', 'the clock'),
    (r'(^|[<: ])std::env::', 'the environment'),
    (r'(^|[<: ])std::fs::', 'the file system'),
    (r'(^|[<: ])std::net::', 'the network'),
    (r'(^|[<: ])std::process::(?!abort)', 'other processes'),
    (r'(^|[<: ])std::io::(stdio::)?(stdin|Stdin|read_to_string|_?stdin)', 'standard input'),
    (r'(^|[<: ])std::os::', 'the operating system'),
    (r'(^|[<: ])std::thread::(current|park|available_parallelism|ThreadId|Thread::|sleep)', 'the thread'),
    (r'(^|[<: ])std::random::', 'random numbers'),
    (r'(^|[<: ])(rand|getrandom|fastrand|oorandom)(_\w+)?::', 'random numbers'),
    (r'(^|[<: ])std::backtrace::', 'the call stack'),
    (r'BuildHasher>?::hash_one::<.*RandomState|<std::(collections::)?hash.*RandomState as .*BuildHasher>::hash_one', 'random hash keys'),
]]
# extern functions and externals without analysed bodies that are functions of their arguments (or only write)
PURE = re.compile(r'^(<)?(core|alloc|nalgebra|matrixmultiply|rawpointer|num_traits|chrono|thiserror|simba|typenum|approx)\b')
PURE_NAME = re.compile(r"std::fmt|core::fmt|std::alloc|alloc::|std::intrinsics|core::intrinsics|std::panicking|core::panicking|std::rt::|unwrap_failed|expect_failed|std::io::(stdio::)?_e?print"
                       r"|std::ptr::drop_glue|std::ops::|std::io::|<dyn std::error::Error")
# iteration in an order that depends on random hash keys
HASHED = re.compile(r'std::collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IntoIter|Keys|Values|IterMut|Drain|ValuesMut|IntoKeys|IntoValues)|(HashMap|HashSet)<[^>]*>::(iter|keys|values|drain|into_keys|into_values|retain)')
ORDERED = re.compile(r'::(sum|product)::<f(32|64)>$|::(find|find_map|position|last|nth|reduce|max_by|min_by|max_by_key|min_by_key)(::<|$)')
RANDOM_KEYS = re.compile(r'RandomState')
CELL = 'UnsafeCell'
ONCE = re.compile(r'(^|::)(OnceLock|LazyLock|Once|LazyStorage)$')


def operands(j, out):
    """Every function named in a body."""
    if isinstance(j, list):
        if len(j) == 2 and j[0] == 'fnref' and isinstance(j[1], int):
            out.add(j[1])
            return
        for x in j:
            if isinstance(x, (list, dict)):
                operands(x, out)
    elif isinstance(j, dict):
        for x in j.values():
            if isinstance(x, (list, dict)):
                operands(x, out)


def callees(p, f):
    out = set()
    b = f.get('body')
    for i in f.get('reached') or ():
        out.add(i)
    if b is None:
        # it may call what it is given
        for a in f.get('targs') or ():
            ty = p.tys[a]
            if ty and ty.get('k') in ('fndef', 'closure') and isinstance(ty.get('inst'), int):
                out.add(ty['inst'])
    for k in ('next', 'into_iter'):
        if isinstance(f.get(k), int):
            out.add(f[k])
    if b is None:
        return out
    for st, (t, sp) in b['blocks']:
        for s in st:
            if s[0] == 'assign' and s[2][0] == 'cast' and len(s[2]) > 4 and isinstance(s[2][4], int):
                out.add(s[2][4])
            operands(s, out)
        if t[0] == 'call' and isinstance(t[1], int):
            out.add(t[1])
        if t[0] == 'drop' and isinstance(t[3], int):
            out.add(t[3])
        operands(t, out)
    for l in b['locals']:
        ty = p.tys[l]
        if ty and ty.get('k') in ('fndef', 'closure') and isinstance(ty.get('inst'), int):
            out.add(ty['inst'])
    return out


def virtuals(p):
    m = {}
    for (t, f), i in p.vtable.items():
        m.setdefault(f, set()).add(i)
    return m


class Graph:
    def __init__(self, p):
        self.p = p
        self.parent = {}
        virt = virtuals(p)
        q = deque()

        def push(i, via):
            if i not in self.parent:
                self.parent[i] = via
                q.append(i)
        self.roots = 0
        for name, i in sorted(p.roots.items()):
            if name.startswith('r_'):
                push(i, None)
                self.roots += 1
        for cal in p.calendars:
            if cal['crate'] in LOCAL:
                for n, i in cal['methods'] + cal['inherent']:
                    push(i, None)
                    self.roots += 1
        for n, k, i, sp in p.library:
            if i is not None:
                push(i, None)
                self.roots += 1
        self.edges = 0
        self.succ = {}
        while q:
            i = q.popleft()
            f = p.fns[i]
            cs = callees(p, f) | virt.get(i, set())
            self.succ[i] = cs
            self.edges += len(cs)
            for x in sorted(cs):
                push(x, i)
        self.reached = set(self.parent)

    def name(self, i):
        f = self.p.fns[i]
        return '%s (%s)' % (f['name'], f.get('span') or '?')

    def path(self, i):
        """Calls from a root to i; the first function of the library is where the effect enters."""
        out = [i]
        while self.parent[out[-1]] is not None:
            out.append(self.parent[out[-1]])
        out.reverse()
        return out

    def show(self, i):
        ns = []
        for x in self.path(i):
            f = self.p.fns[x]
            ns.append('%s%s' % (f['name'], ' (%s)' % f['span'].replace('/repo/', '') if f['crate'] in LOCAL else ''))
        return ' -> '.join(ns[-8:])

    def entry(self, i):
        """Innermost library function on the path to i."""
        e = None
        for x in self.path(i):
            if self.p.fns[x]['crate'] in LOCAL:
                e = x
        return e


def cells(p, t, seen=None, path=''):
    """Field path to a cell inside a type, or None.  Cells of a once-initialised table do not count."""
    seen = set() if seen is None else seen
    if t in seen or t is None:
        return None
    seen.add(t)
    d = p.tys[t]
    if d is None:
        return None
    k = d['k']
    if k == 'adt':
        n = d['name']
        if n.split('::')[-1] == CELL:
            return path or 'itself'
        args = d.get('args', [])
        if n.split('::')[-1] in ('Arc', 'Rc') or ONCE.search(n):
            # the counters and the once-flag are not state a result can depend on; the contents are
            for a in args[:1]:
                r = cells(p, a, seen, path + '<content>')
                if r:
                    return r
            return None
        for v in d.get('variants', []):
            for j, f in enumerate(v['fields']):
                ft, fn = (f[1], f[0]) if isinstance(f, list) else (f, j)
                r = cells(p, ft, seen, '%s.%s' % (path, fn))
                if r:
                    return r
        for a in args:
            r = cells(p, a, seen, path + '<of>')
            if r:
                return r
        return None
    for key in ('elem', 'upvars'):
        if isinstance(d.get(key), int):
            r = cells(p, d[key], seen, path + ('[]' if key == 'elem' else '.captured'))
            if r:
                return r
    for e in d.get('elems', []) or []:
        r = cells(p, e, seen, path + '.tuple')
        if r:
            return r
    return None


def accumulates(p, x, nxt):
    """The function adds to a floating-point variable in a loop that is driven by calls of nxt."""
    b = p.body(x)
    if b is None:
        return False

    def reach(a):
        seen, st = set(), [a]
        while st:
            for y in b.succ[st.pop()]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    for n, (st, (t, sp)) in enumerate(b.blocks):
        if t[0] != 'call' or t[1] != nxt:
            continue
        for m in reach(n):
            if n not in reach(m):
                continue
            st2, (t2, sp2) = b.blocks[m]
            if t2[0] == 'call' and isinstance(t2[1], int) and re.search(r'<f(32|64) as std::ops::(Add|Sub|Mul)Assign', p.fns[t2[1]]['name']):
                return True
            for s in st2:
                if s[0] == 'assign' and s[2][0] == 'bin' and s[2][1] in ('Add', 'Sub', 'Mul') and len(s[1]) == 1 and p.tys[b.locals[s[1][0]]]['k'] == 'float' \
                        and any(o[0] in ('copy', 'move') and o[1] == s[1] for o in s[2][2:4]):
                    return True
    return False


def local_value(p, f):
    """Access to a thread-local that holds no cell: its value is computed once per thread by its initialiser."""
    return 'std::thread::LocalKey' in f['def'] and bool(f.get('targs')) and cells(p, f['targs'][0]) is None


def keyed(p, i, f):
    return RANDOM_KEYS.search(f['name']) is not None


def purity(c):
    p = c.prog
    g = Graph(p)
    lib = sorted(i for i in g.reached if p.fns[i]['crate'] in LOCAL)
    c.cov['functions_reached'] = len(g.reached)
    c.cov['library_functions_reached'] = len(lib)
    c.cov['call_edges'] = g.edges
    c.cov['entry_points'] = g.roots
    seen_spans = {p.fns[i].get('span') for i in lib}
    missed = sorted({n for n, k, i, sp in p.library if sp not in seen_spans})
    c.cov['library_functions_not_instantiated'] = missed
    # 1. calls that read the outside world
    told = set()
    callers = {}
    for x, cs in g.succ.items():
        for y in cs:
            callers.setdefault(y, set()).add(x)
    for i in sorted(g.reached):
        f = p.fns[i]
        if f['crate'] in LOCAL:
            continue
        names = {f['name'], f['def']}
        par = g.parent[i]
        if keyed(p, i, f) and not (any('hash_one' in n for n in names) and par is not None and p.fns[par]['crate'] in LOCAL):
            continue
        for n in names:
            hit = next((w for r, w in READS if r.search(n)), None)
            if hit:
                e = g.entry(i)
                if e is None:
                    continue
                # only the first function of the chain outside the library is reported
                if par is not None and p.fns[par]['crate'] not in LOCAL and any(r.search(p.fns[par]['name']) for r, w in READS):
                    break
                c.violation('reads:%s:%s' % (p.fns[e]['def'], hit), '%s reads %s by calling %s; path: %s' % (g.name(e), hit, f['name'], g.show(i)))
                break
        else:
            if 'body' not in f and f['kind'] not in ('intrinsic', 'virtual') and not (PURE.search(f['crate']) or PURE_NAME.search(f['name'])) and not keyed(p, i, f) \
                    and not local_value(p, f) and f['def'] not in told:
                told.add(f['def'])
                c.undecided(f['name'], 'its body is not analysed; path: ' + g.show(i))
            if HASHED.search(f['name']) and any(p.fns[x]['crate'] in LOCAL for x in callers.get(i, ())):
                if ORDERED.search(f['name']):
                    c.violation('order:' + f['def'], '%s takes an element or a floating-point sum in the order of random hash keys: %s; path: %s' % (g.name(g.entry(i)), f['name'], g.show(i)))
                    continue
                acc = [x for x in callers[i] if p.fns[x]['crate'] in LOCAL and accumulates(p, x, i)]
                if acc:
                    c.violation('order:' + p.fns[acc[0]]['def'], '%s adds floating-point numbers in the order of random hash keys (%s)' % (g.name(acc[0]), f['name']))
                elif f['def'] not in told:
                    told.add(f['def'])
                    c.undecided(f['name'], 'iterates in the order of random hash keys; path: ' + g.show(i))
    c.unit('calls', functions=len(g.reached), rule='no reached function reads the clock, environment, files, network, threads or random numbers')
    # 2. statics
    ns = 0
    for i in sorted(g.reached):
        f = p.fns[i]
        for n, t, mut, tl in f.get('statics') or ():
            ns += 1
            e = g.entry(i)
            where = '%s; path: %s' % (n, g.show(i))
            own = n.split('::')[0].lstrip('<') in LOCAL
            if RANDOM_KEYS.search(n) or any(keyed(p, x, p.fns[x]) for x in g.path(i)):
                continue
            d = p.tys[t]
            if mut and own:
                c.violation('static:' + n, 'the library keeps state between calls in the mutable static %s' % where)
                continue
            cell = cells(p, t) if not tl else local_state(p, t)
            if cell:
                if own or f['crate'] in LOCAL:
                    c.violation('static:' + n, 'the library keeps state between calls in the %s %s, whose type %s holds a cell (%s)' % ('thread-local' if tl else 'static', where, d['str'], cell))
                else:
                    c.undecided(n, 'state of a dependency; path: ' + g.show(i))
            elif mut:
                c.undecided(n, 'mutable static of a dependency; path: ' + g.show(i))
    # 2b. what a once-initialised static holds must not come from the first caller
    for i in lib:
        f = p.fns[i]
        once = [n for n, t, mut, tl in f.get('statics') or () if p.tys[t] and p.tys[t]['k'] == 'adt' and ONCE.search(p.tys[t]['name'])]
        if not once or 'body' not in f:
            continue
        for st, (t, sp) in f['body']['blocks']:
            if t[0] != 'call' or not isinstance(t[1], int):
                continue
            h = p.fns[t[1]]
            if not re.search(r'(OnceLock|Once)(::<[^(]*>)?::(get_or_init|get_or_try_init|set|try_insert|take|call_once)', h['name']):
                continue
            cl = [p.tys[a] for a in h['targs'] if p.tys[a] and p.tys[a]['k'] in ('closure', 'fndef', 'fnptr')]
            captured = [a for a in cl if a['k'] == 'fnptr' or a['k'] == 'closure' and (p.tys[a['upvars']] or {}).get('elems') if a['k'] != 'closure' or isinstance(a.get('upvars'), int)]
            if captured or not cl:
                c.violation('once:' + once[0], 'the static %s keeps what the first call of %s puts there (%s)' % (once[0], g.name(i), sp))
    c.unit('statics', statics=ns, rule='every static named by a reached function is immutable and holds no cell; tables initialised once are constants')
    # 3. types of the library
    types = 0
    for t, d in enumerate(p.tys):
        if d and d['k'] == 'adt' and d.get('crate') in LOCAL:
            types += 1
            cell = cells(p, t)
            if cell:
                c.violation('type:' + d['name'], 'the type %s holds a cell (%s): an operation can change an object it receives by shared reference' % (d['str'], cell))
    c.unit('types', types=types, rule='no type of the library holds a cell')
    # 4. writes through shared references
    casts = 0
    for i in lib:
        f = p.fns[i]
        b = f.get('body')
        if b is None:
            continue
        for st, (t, sp) in b['blocks']:
            for s in st:
                if s[0] != 'assign' or s[2][0] != 'cast':
                    continue
                casts += 1
                to = p.tys[s[2][3]]
                frm = opty(p, b, s[2][2])
                if to and frm and to['k'] in ('ref', 'ptr') and frm['k'] in ('ref', 'ptr') and to.get('mut') and not frm.get('mut'):
                    c.undecided('%s:%s' % (f['name'], s[3]), 'a shared pointer becomes a mutable one')
                if 'ExposeProvenance' in s[2][1] or 'PointerExpose' in s[2][1]:
                    c.undecided('%s:%s' % (f['name'], s[3]), 'an address becomes a number')
    c.unit('casts', casts=casts, rule='no shared pointer becomes a mutable one, no address becomes a number')
    # 5. threads
    threads(c)
    c.floor('library_functions', len(lib), 500)


def local_state(p, t):
    d = p.tys[t]
    if d and d['k'] == 'adt' and ('thread::local' in d['name'] or 'thread_local' in d['name'] or d['name'].endswith('LazyStorage') or d['name'].endswith('EagerStorage') or d['name'].endswith('::Storage')):
        for a in d.get('args', [])[:1]:
            return cells(p, a)
        return None
    return cells(p, t)


def opty(p, b, o):
    if o[0] in ('copy', 'move') and len(o[1]) == 1:
        return p.tys[b['locals'][o[1][0]]]
    return None


WITNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build', 'witness')


def threads(c):
    """Every public type can be sent to and shared between threads: a program saying so must compile."""
    from . import build
    p = c.prog
    mono, gen = set(), set()
    for t, d in enumerate(p.tys):
        if d and d['k'] == 'adt' and d.get('crate') in LOCAL:
            mono.add(d['str'])
    lines = []
    for s in sorted(mono):
        if 'qroots::' in s or '{' in s or "'_" in s:
            continue
        lines.append(s)
    lines += ['qlab_termstructure::yield_curve::YieldCurve<qlab_time::day_count::%s, qlab_math::interpolation::%s<f64>>' % (d, i)
              for d in ('act_360::Act360', 'act_365::Act365', 'thirty_360::Thirty360')
              for i in ('linear::Linear', 'spline::natural_cubic::NaturalCubic', 'spline::catmull_rom::CatmullRom')]
    lines += ['calendar::jointcalendar::JointCalendar<calendar::japan::Japan, calendar::argentina::Argentina>', 'qlab_error::QLabResult<()>']
    src = ['#![allow(warnings)]', 'fn both<T: Send + Sync>() {}']
    for k, s in enumerate(lines):
        src.append('fn w%d() { both::<%s>(); }' % (k, s))
    base = len(src) - len(lines)
    os.makedirs(os.path.join(WITNESS, 'src'), exist_ok=True)
    deps = ''.join('%s = { path = "/repo/crates/%s" }\n' % (n.replace('_', '-'), n.replace('_', '-')) for n in LOCAL if n not in ('calendar', 'qlab'))
    with open(os.path.join(WITNESS, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "qwitness"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\n%scalendar = { path = "/repo/third-parties/calendar" }\n[workspace]\n' % deps)
    shutil.copy('/repo/Cargo.lock', os.path.join(WITNESS, 'Cargo.lock'))
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(WITNESS, 'target'))
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    skip = set()
    for attempt in range(4):
        with open(os.path.join(WITNESS, 'src', 'lib.rs'), 'w') as f:
            f.write('\n'.join(l for k, l in enumerate(src) if k - base not in skip or k < base) + '\n')
        order = [k for k in range(len(lines)) if k not in skip]
        r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json'], cwd=WITNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        bad, other, private = {}, [], set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
                continue
            msg = m['message']
            code = (msg.get('code') or {}).get('code')
            ln = next((s['line_start'] for s in msg['spans'] if s['is_primary']), 0)
            k = ln - 1 - base
            if 'qwitness' not in m.get('target', {}).get('name', '') or not 0 <= k < len(order):
                if not msg['message'].startswith('aborting'):
                    other.append(msg['message'])
                continue
            if code == 'E0277' and ('between threads' in msg['message'] or 'Send' in msg['message'] or 'Sync' in msg['message']):
                bad.setdefault(lines[order[k]], []).append(msg['rendered'].strip().splitlines()[0] + ' ' + ' '.join(ch['message'] for ch in msg['children'])[:300])
            else:
                # a type that cannot be named from outside is not public
                private.add(order[k])
        for ty, ms in sorted(bad.items()):
            c.violation('threads:' + ty, '%s cannot be sent to or shared between threads: %s' % (ty, ms[0]))
        if other:
            c.undecided('thread witness', other[0][:300])
            break
        if not private or bad:
            break
        skip |= private
    c.cov['types_not_nameable'] = sorted(lines[k] for k in skip)[:40]
    c.unit('threads', types=len(lines) - len(skip), rule='the program asserting Send + Sync for each public type compiles')
