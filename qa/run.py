"""Command line of the checks: bookkeeping of verdicts, known findings, replay files and evidence."""
import json
import os
import re
import sys
import threading
import time
import traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(V, 'known-findings.txt')


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.undec = []         # (what, why)
        self.cov = {}
        self.notes = []
        self.assume = []
        self.units = []
        self.proved = 0
        self.pointwise = 0
        self._prog = None
        self._it = None

    @property
    def prog(self):
        if self._prog is None:
            from . import build, mir
            path, h = build.mir()
            self._prog = mir.Prog(path)
            self.cov['source_hash'] = h[:16]
        return self._prog

    def within(self, seconds):
        """Whether there is time left to look further (a thorough run takes 8 times as long)."""
        return time.time() - self.t0 < seconds * (8 if self.thorough else 1)

    def violation(self, key, text):
        """key identifies the violated instance without line numbers."""
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, text))

    def undecided(self, what, why):
        self.undec.append((what, str(why)))

    def unit(self, name, **kw):
        self.units.append(dict(unit=name, **kw))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def floor(self, name, n, least):
        """A rule that matches less than what was counted by hand has lost its anchor."""
        self.cov[name] = n
        if n < least and not self.viol and not self.undec:
            self.violation('floor:' + name, 'only %d of at least %d expected instances of "%s" exist in the tree' % (n, least, name))


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def finish(c):
    kn = known(c.pid)
    new = []
    for key, text in c.viol:
        if key in kn:
            print('KNOWN-FINDING: property=%s %s' % (c.pid, kn[key]))
        else:
            new.append((key, text))
    for k in c.notes:
        print(k)
    for what, why in c.undec[:40]:
        print('UNDECIDED: %s: %s' % (what, why))
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(c.cov)
    cov['explanation'] = c.explanation
    cov['units_analysed'] = len(c.units)
    cov['units'] = c.units[:400]
    cov['undecided'] = [{'what': w, 'why': y[:300]} for w, y in c.undec[:60]]
    cov['undecided_count'] = len(c.undec)
    doc = {'property': c.pid, 'tier': c.tier, 'seed': c.seed, 'level': 'other', 'coverage': cov,
           'assumptions': c.assume, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(new)}
    rep = os.path.join(V, 'evidence', 'replay-%s.txt' % c.pid)
    if new:
        with open(rep, 'w') as f:
            f.write('property %s (%s)\nrule: %s\nsource %s\n\n' % (c.pid, c.title, c.explanation, c.cov.get('source_hash')))
            for key, text in new:
                f.write('[%s]\n%s\n\n' % (key, text))
        doc['coverage']['violation_samples'] = [t[:600] for k, t in new[:5]]
    with open(os.path.join(ev, c.pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    print('%s: %d units analysed, %d undecided, %d violations, %.1fs' % (c.pid, len(c.units), len(c.undec), len(new), time.time() - c.t0))
    if new:
        for key, text in new[:12]:
            print('  [%s] %s' % (key, text))
        print('VIOLATION property=%s replay=%s' % (c.pid, rep))
        return 1
    return 0


MEMORY = 22 << 30


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def main(argv):
    from . import props
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    c = Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    fn = props.CHECKS[pid]
    c.title = fn.title
    c.explanation = fn.rule
    c.assume = list(fn.assume)
    res = [3]

    def body():
        try:
            fn(c)
            res[0] = finish(c)
        except SystemExit as e:
            print(e)
        except BaseException:
            traceback.print_exc()
    sys.setrecursionlimit(400000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=body, daemon=True)
    t.start()
    stop = c.t0 + (780 if tier == 'quick' else 7200)
    while t.is_alive() and time.time() < stop and rss() < MEMORY:
        t.join(1)
    if t.is_alive():
        # report what was decided so far
        c.undecided('everything after unit %d' % len(c.units), 'the check ran out of time or memory')
        try:
            res[0] = finish(c)
        except BaseException:
            traceback.print_exc()
    sys.stdout.flush()
    os._exit(res[0])
