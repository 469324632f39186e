"""Shared reporting for the per-property checks."""
import json
import os
import sys
import time

from .load import load, Broken, VERIF
from . import interp
from .interp import Interp, pp, show_trace

EVID = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    """Collects obligations of one property and turns them into a verdict."""

    def __init__(self, pid, rule, assumptions=(), min_obligations=1, program=None):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.min = min_obligations
        self.t0 = time.time()
        self.P = program if program is not None else load()
        self.obl = []          # (key, ok)
        self.bad = {}          # key -> dict
        self.fns = set()
        self.paths = 0
        self.notes = []
        self.unanalysed = []

    # ------------------------------------------------------------------
    def run(self, fn, **kw):
        """Interpret fn, recording what was covered."""
        rk = {k: kw.pop(k) for k in ('this_cls', 'bind', 'init') if k in kw}
        I = Interp(self.P, **kw)
        ps = I.run(fn, **rk)
        self.fns |= {f for f in I.fns_seen}
        self.paths += len(ps)
        self.last = I
        return ps

    def try_run(self, fn, **kw):
        try:
            return self.run(fn, **kw)
        except (Broken, RecursionError) as e:
            self.unanalysed.append('%s: %s' % (fn['q'], str(e)[:120]))
            return None

    def ob(self, ok, key, msg='', where=None, path=None):
        """One obligation.  key identifies the construct (no line numbers)."""
        self.obl.append((key, bool(ok)))
        if not ok and key not in self.bad:
            self.bad[key] = {'msg': msg, 'where': where,
                             'path': path_text(path) if path is not None else ''}
        return ok

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------------
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith('finding: property=%s ' % self.pid):
                    r = l.split(' ', 3)
                    key = r[2].split('=', 1)[1]
                    out[key] = r[3] if len(r) > 3 else ''
        return out

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = self.known()
        new = {k: v for k, v in self.bad.items() if kkey(k) not in known}
        keys = {}
        for k, ok in self.obl:
            keys[k] = keys.get(k, True) and ok
        broken = None
        if len(keys) < self.min:
            broken = 'only %d obligations generated (at least %d expected)' % (len(keys), self.min)
        cov = {
            'explanation': self.rule,
            'obligations': len(self.obl),
            'distinct_obligations': len(keys),
            'discharged': sum(1 for _, ok in self.obl if ok),
            'functions_analysed': len(self.fns),
            'paths_analysed': self.paths,
            'units_parsed': len(self.P.units),
            'functions': sorted({(self.P.fns[k]['q'] if k in self.P.fns else k) for k in self.fns})[:200],
            'samples': [k for k in sorted(keys)][:40],
            'unanalysed': self.unanalysed,
            'notes': self.notes,
            'known_findings': sorted(k for k in self.bad if kkey(k) in known),
        }
        ev = {'property': self.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
              'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k in sorted(self.bad):
            if kkey(k) in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[kkey(k)] or k))
        if new:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.pid, self.rule))
                for k in sorted(new):
                    v = new[k]
                    f.write('violation: %s\n  at %s\n  %s\n' % (k, fmt_where(v['where']), v['msg']))
                    if v['path']:
                        f.write('  path:\n' + v['path'] + '\n')
                    f.write('\n')
            for k in sorted(new):
                v = new[k]
                print('  %s: %s [%s]' % (fmt_where(v['where']), v['msg'], k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if broken:
            print('CHECK-BROKEN property=%s %s' % (self.pid, broken))
            for u in self.unanalysed[:10]:
                print('  unanalysed: ' + u)
            return 3
        print('OK property=%s obligations=%d functions=%d paths=%d%s' % (
            self.pid, len(self.obl), len(self.fns), self.paths,
            ' unanalysed=%d' % len(self.unanalysed) if self.unanalysed else ''))
        return 0


def kkey(k):
    return k.replace(' ', '_')


def fmt_where(w):
    if isinstance(w, tuple) and len(w) == 2:
        return 'cxx/%s:%s' % tuple(w)
    if isinstance(w, dict):
        return 'cxx/%s:%s' % (w.get('file'), w.get('line', 0))
    return str(w) if w else '?'


def path_text(p):
    try:
        lines = ['    decisions: ' + ', '.join(('' if b else 'not ') + pp(a) for a, b in p.decisions)]
        t = show_trace(p.trace, 4)
        return '\n'.join(l[:400] for l in (lines + t.split('\n'))[:120])
    except Exception as e:
        return '    <%s>' % e


# ------------------------------------------------------------ traces -----
def events(trace, loops=(), guards=()):
    """Flatten a trace: yields (event, loop keys, guards)."""
    g = guards
    for ev in trace:
        if ev[0] == 'br':
            g = g + ((ev[1], ev[2]),)
        if ev[0] == 'loop':
            yield ev, loops, g
            for tr, dec, how in ev[2]:
                yield from events(tr, loops + (ev[1],), g)
        else:
            yield ev, loops, g


def rootof(l):
    while l[0] in ('f', 'at', 'elt', 'alt'):
        l = l[1]
    return l


def islocal(l):
    return rootof(l)[0] in ('var', 'tmp', 'list', 'tuple', 'cont', 'new', 'ctor', 'obj', 'fill', 'struct')


STATE_OPS = ('set', 'put', 'ins', 'del', 'push', 'clear', 'pop', 'touch', 'assign', 'resize', 'swap',
             'merge', 'vinsert', 'insrange')


def state_writes(trace):
    for ev, loops, g in events(trace):
        if ev[0] in STATE_OPS and isinstance(ev[1], tuple) and not islocal(ev[1]):
            yield ev, loops, g


def main(pid, fn):
    sys.setrecursionlimit(100000)
    try:
        rc = fn()
    except Broken as e:
        print('CHECK-BROKEN property=%s %s' % (pid, e))
        rc = 3
    sys.exit(rc)


def narrow(k, sizes):
    """A counting loop that provably leaves out some of the positions 0..size-1 (for some size)."""
    if not (isinstance(k, tuple) and k and k[0] == 'idx'):
        return False
    r = k[-1]
    lo, hi = (r[1], r[2]) if r[0] == 'range' else (('n', 0), r)
    if lo[0] == 'n' and lo[1] > 0:
        return True
    if hi[0] == 'n':
        return True
    if hi in sizes:
        return False
    if hi[0] == 'add':
        ts = list(hi[1])
        return any(s in ts for s in sizes) and sum(t[1] for t in ts if t[0] == 'n') < 0 and len(ts) == 2
    return hi[0] == 'fn' and hi[1].split('::')[-1] == 'min' and any(x[0] == 'n' for x in hi[2:] if isinstance(x, tuple) and x)
