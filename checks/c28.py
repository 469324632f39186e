"""C28: log-probabilities are never used where probabilities are expected."""
import os
import re
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.load import load
from sa.place import walk
from sa.interp import pp
from sa.flow import core, subterms, at, repofns, sites

RULE = ('Every number is given a scale: log (what the logp/log functions return), probability (exp of a log, a uniform draw), count (sizes, '
        'customers, concentration, table weights), cost (a negated log) or none. Weighted draws take probabilities or counts, log draws and '
        'logsumexp take logs, functions named for logs return logs, weights are not logs. exp takes a log, not a probability or a cost; log '
        'takes a probability or a count, not a log; a log is not added to or compared with a probability or a count, and logs are not '
        'multiplied or divided by logs.')

LOGNAME = re.compile(r'^(logp($|_)|log_prob|log_norm|.*_logp$|lgamma|lbeta|logZ|logsumexp|log_?weights?$|logps?$)')
LINNAME = ('tables_weights', 'tables_weights_gibbs')
COUNT = ('N', 'alpha', 'counts')
LOG, PROB, COUNTS, NUM, COST, UNK, BAD = 'log', 'probability', 'count', 'number', 'cost', '?', 'bad'
WEAK = 'log of a quantity'  # which may be data, not a probability
LINEAR = (PROB, COUNTS)


def last(q):
    return q.rsplit('::', 1)[-1]


class C28:
    SINKS = {'choice': (0, 'lin'), 'log_choice': (0, LOG), 'sample_from_logps': (0, LOG), 'logsumexp': (0, LOG), 'log_normalize': (0, LOG)}

    def __init__(self):
        self.C = Check('C28', RULE, ['a function or field named for logs (logp…, …_logp, lgamma, lbeta) holds logs; that its value is right is C02\'s and C03\'s concern',
                                     'costs of string alignments are negated logs, as the header says'],
                       min_obligations=40, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.sinks = {}
        self.store = {}
        self.err = None

    # -------------------------------------------------------------------- scales ---
    def bad(self, why, t):
        if self.err is None:
            self.err = '%s: %s' % (why, pp(t)[:120])
        return BAD

    def join(self, ss):
        ss = [s for s in ss if s not in (UNK, NUM)] or [s for s in ss if s == NUM] or [UNK]
        if BAD in ss:
            return BAD
        s = set(ss)
        if len(s) == 1:
            return ss[0]
        if s <= {LOG, WEAK}:
            return LOG
        if s <= set(LINEAR):
            return PROB
        return 'mixed'

    def scale(self, t, env):
        if not isinstance(t, tuple) or not t:
            return UNK
        k = t[0]
        if k == 'n':
            return NUM
        if k == 'p':
            return env.get(t[1], UNK)
        if k == 'f':
            if not isinstance(t[2], str):
                return UNK
            if t[2] == 'cost':
                return COST
            if t[2] in COUNT and self.crpish(t):
                return COUNTS
            if LOGNAME.match(t[2]):
                return LOG
            return UNK
        if k == 'size':
            return COUNTS
        if k == 'call':
            n = last(t[1])
            if n in self.SINKS and n not in ('logsumexp', 'log_normalize'):
                return UNK
            if LOGNAME.match(n):
                return LOG
            if n in LINNAME:
                return COUNTS
            if t[1].startswith('std::uniform_real_distribution'):
                return PROB
            if n == 'log_prob_distance':
                return COST
            return UNK
        if k == 'fn':
            n = t[1]
            if n in ('max', 'min', 'max_element', 'min_element', 'abs', 'fabs'):
                return self.join([self.scale(x, env) if x[0] != 'iter' else self.elements(x[1], env) for x in t[2:] if isinstance(x, tuple)])
            if n in ('exp', 'expm1', 'exp2'):
                s = self.scale(t[2], env)
                if s in LINEAR:
                    return self.bad('exp of a ' + s, t)
                if s == COST:
                    return self.bad('exp of a cost, which is a negated log', t)
                return BAD if s == BAD else PROB
            if n in ('log', 'log1p', 'log2', 'log10'):
                s = self.scale(t[2], env)
                if s == LOG:
                    return self.bad('log of a log', t)
                return BAD if s == BAD else WEAK if s in (UNK, NUM) else LOG
            if LOGNAME.match(last(n)):
                return LOG
            return UNK
        if k == 'add':
            xs = t[1] if t[1] and isinstance(t[1][0], tuple) else t[1:]
            got = []
            for x in xs:
                s = self.scale(x, env)
                neg = x[0] == 'mul' and any(y[0] == 'n' and y[1] < 0 for y in (x[1] if isinstance(x[1][0], tuple) else x[1:]))
                if neg and s == LOG:
                    ys = x[1] if isinstance(x[1][0], tuple) else x[1:]
                    if any(self.scale(y, env) == COST for y in ys):
                        s = COST
                got.append((s, neg))
            ss = {s for s, n in got}
            if BAD in ss:
                return BAD
            if LOG in ss and ss & set(LINEAR):
                return self.bad('a log is added to a ' + (ss & set(LINEAR)).pop(), t)
            if COST in ss and LOG in ss:
                # cost - log is a cost; log - cost is a log
                for s, n in got:
                    if s == COST and not n:
                        return COST if all(m for z, m in got if z == LOG) else self.bad('a log is added to a cost', t)
                return LOG
            if COST in ss and ss & set(LINEAR):
                return self.bad('a cost is added to a ' + (ss & set(LINEAR)).pop(), t)
            if COST in ss:
                pos = [x for x, (s, n) in zip(xs, got) if s == COST and not n]
                neg = [x for x, (s, n) in zip(xs, got) if s == COST and n]
                if pos and neg:
                    # a difference of costs is a log ratio in favour of what is subtracted
                    return COST if self.varies(pos) - self.varies(neg) else LOG
                return COST if pos else LOG
            if WEAK in ss and ss & set(LINEAR):
                return UNK
            return self.join([s for s, n in got])
        if k == 'mul':
            xs = t[1] if t[1] and isinstance(t[1][0], tuple) else t[1:]
            ss = [self.scale(x, env) for x in xs]
            if BAD in ss:
                return BAD
            if LOG in ss and ss.count(LOG) + ss.count(WEAK) > 1:
                return self.bad('two logs are multiplied', t)
            if LOG in ss and PROB in ss:
                return self.bad('a log is multiplied by a probability', t)
            neg = any(x[0] == 'n' and x[1] < 0 for x in xs)
            if COST in ss:
                others = [s for s in ss if s not in (COST, NUM, UNK)]
                if others:
                    return self.bad('a cost is multiplied by a ' + others[0], t)
                return LOG if neg and all(x[0] == 'n' for x, s in zip(xs, ss) if s != COST) else COST
            if LOG in ss:
                return LOG
            if WEAK in ss:
                return WEAK if ss.count(WEAK) == 1 else UNK
            return self.join(ss)
        if k == 'div':
            a, b = (self.scale(x, env) for x in t[1:3])
            if BAD in (a, b):
                return BAD
            if a == LOG and b in (LOG, PROB) or b == LOG and a in (LOG,) + LINEAR:
                return self.bad('a %s is divided by a %s' % (a, b), t)
            if a == COST and b != NUM and b != UNK:
                return self.bad('a cost is divided by a ' + b, t)
            if WEAK in (a, b):
                return UNK
            if a in LINEAR or b in LINEAR:
                return PROB if UNK not in (a, b) or a in LINEAR else UNK
            return a if a != NUM else UNK
        if k in ('cond', 'ite') and len(t) > 3:
            return self.join([self.scale(x, env) for x in t[2:4]])
        if k == 'at':
            return self.elements(t[1], env)
        if k == 'sum':
            return self.join([self.scale(x, env) for x in self.summands(t)])
        if k in ('acc', 'loopout', 'psum'):
            return UNK
        if k in ('cast', 'copy') and len(t) > 1:
            return self.scale(t[-1], env)
        return UNK

    @staticmethod
    def varies(xs):
        """The loop positions that choose the elements whose costs these are."""
        out = set()
        for x in xs:
            for z in ((x,) if x[0] != 'mul' else x[1] if isinstance(x[1][0], tuple) else x[1:]):
                while isinstance(z, tuple) and z and z[0] == 'f':
                    z = z[1]
                while isinstance(z, tuple) and z and z[0] == 'at':
                    out |= {y for y in subterms(z[2]) if y[0] in ('idx', 'key')}
                    z = z[1]
        return out

    def crpish(self, t):
        """A count of customers, or the concentration: not a parameter of a density."""
        return True

    @staticmethod
    def summands(t):
        for b in t[2] if len(t) > 2 and isinstance(t[2], tuple) else ():
            for x in b if isinstance(b, tuple) else ():
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    yield x

    def elements(self, c, env):
        """The scale of the elements of a container."""
        if not isinstance(c, tuple) or not c:
            return UNK
        k = c[0]
        if k == 'cont':
            ss = [self.elements(c[1], env)]
            for op in c[2]:
                ss += self.ops(op, env)
            return self.join(ss)
        if k in ('list',):
            xs = c[1] if c[1] and isinstance(c[1][0], tuple) else c[1:]
            return self.join([self.scale(x, env) for x in xs])
        if k == 'fill':
            return UNK if len(c) < 3 or c[2] == ('n', Fraction(0)) else self.scale(c[2], env)
        if k == 'p':
            return env.get(c[1], UNK)
        if k == 'var' and c in self.store:
            v = self.store.pop(c)
            r = self.elements(core(v), env)
            self.store[c] = v
            return r
        if k in ('call', 'f', 'at', 'fn'):
            return self.scale(c, env)
        return UNK

    def ops(self, op, env):
        if op[0] == 'push':
            return [self.scale(op[1], env)]
        if op[0] == 'put':
            return [self.scale(op[2], env)]
        if op[0] == 'each':
            out = []
            for b in op[2]:
                for o in b[1]:
                    out += self.ops(o, env)
            return out
        return []

    # --------------------------------------------------------------------- rules ---
    def env(self, f):
        """What a function's parameters hold: named for logs, or handed to a draw."""
        e = {}
        for i, p in enumerate(f['params']):
            if (f['key'], i) in self.sinks:
                e[p['name']] = LOG if self.sinks[(f['key'], i)] == LOG else PROB
            elif LOGNAME.match(p['name']) or p['name'] in ('logps', 'log_probs', 'logpx'):
                e[p['name']] = LOG
            elif p['name'] == 'old_cost':
                e[p['name']] = COST
            elif re.match(r'^weights?\d*$', p['name']):
                e[p['name']] = COUNTS
        return e

    def interesting(self, f):
        n = last(f['q'])
        if LOGNAME.match(n) or n in LINNAME:
            return True
        for x in walk(f['body']):
            if isinstance(x, dict) and x.get('k') in ('call', 'ctor') and isinstance(x.get('f'), dict):
                q = x['f'].get('q', '')
                if q in self.SINKS or last(q) in ('exp', 'log', 'log1p') or LOGNAME.match(last(q)) or 'discrete_distribution' in q or 'bernoulli_distribution' in q:
                    return True
                if x['f'].get('key') in {k for k, i in self.sinks}:
                    return True
        return False

    def expect(self, f, what, s, want, tag, where, p):
        C = self.C
        if self.err:
            C.ob(False, tag, '%s: %s' % (what, self.err), where, p)
            self.err = None
            return
        if s == 'mixed':
            C.ob(False, tag, '%s mixes scales' % what, where, p)
        elif want == LOG:
            C.ob(s in (LOG, WEAK, UNK, NUM), tag, '%s should be logs but holds a %s' % (what, s), where, p)
        else:
            C.ob(s in LINEAR + (UNK, NUM), tag, '%s should be weights but holds a %s' % (what, s), where, p)
        self.known += s in (LOG,) + LINEAR

    def function(self, f):
        C = self.C

        def opq(g):
            h = self.P.fns.get(g.get('key'), {})
            return g.get('key') == f['key'] or h.get('file') != f['file'] or bool(LOGNAME.match(last(g.get('q', '')))) or \
                last(g.get('q', '')) in LINNAME or g.get('q') in self.SINKS or '::' in g.get('q', '')
        ps = C.try_run(f, opaque=opq)
        if ps is None:
            return
        env = self.env(f)
        n = last(f['q'])
        rt = self.P.type(f['ret'])['s'] if f.get('ret') is not None else ''
        for p in ps:
            if p.aborted or p.exit[0] == 'abort':
                continue
            self.store = {k: v for k, v in p.store.items() if core(v)[0] in ('cont', 'list', 'fill')}
            for s in sites(p):
                e = s.ev
                tag = 'C28:%s' % f['q']
                self.err = None
                if e[0] == 'call':
                    q = e[1]
                    if q in self.SINKS:
                        i, want = self.SINKS[q]
                        arg = core(e[3][i])
                        self.expect(f, 'what %s gives to %s' % (f['q'], q), self.elements(arg, env), want, tag + ':' + q, at(e), p)
                    for i, a in enumerate(e[3]):
                        want = self.sinks.get((e[5] if len(e) > 5 else None, i))
                        if want and q not in self.SINKS:
                            self.expect(f, 'what %s gives to %s' % (f['q'], q), self.elements(core(a), env), want, tag + ':' + q, at(e), p)
                        elif isinstance(a, tuple) and a and a[0] not in ('cont', 'ctor'):
                            self.scale(core(a), env)
                            if self.err:
                                C.ob(False, tag + ':scale', '%s: %s' % (f['q'], self.err), at(e), p)
                                self.err = None
                    if q.startswith(('std::discrete_distribution::operator()', 'std::bernoulli_distribution::operator()')) and e[2]:
                        init = p.store.get(e[2])
                        v = core(init) if init else None
                        if v and v[0] == 'ctor':
                            x = v[2] if len(v) > 2 else None
                            while isinstance(x, tuple) and x and x[0] in ('iter', 'begin'):
                                x = x[1]
                            if x:
                                s2 = self.elements(x, env) if 'discrete' in q else self.scale(x, env)
                                self.expect(f, 'the distribution drawn from in %s' % f['q'], s2, 'lin', tag + ':draw', at(e), p)
                elif e[0] == 'br':
                    a = core(e[1])
                    if a[0] in ('lt', 'le', 'gt', 'ge') and len(a) == 3:
                        x, y = self.scale(a[1], env), self.scale(a[2], env)
                        if self.err is None and LOG in (x, y) and (x in LINEAR or y in LINEAR):
                            self.err = 'a log is compared with a %s' % (x if x in LINEAR else y)
                        C.ob(self.err is None, tag + ':compare', '%s: %s' % (f['q'], self.err), at(e), p)
                        self.err = None
                elif e[0] in ('set', 'put', 'push'):
                    v = core(e[3] if e[0] == 'put' else e[2])
                    s2 = self.scale(v, env) if v[0] not in ('cont', 'ctor') else UNK
                    C.ob(self.err is None, tag + ':scale', '%s: %s' % (f['q'], self.err), at(e), p)
                    self.err = None
                    # what stays under one name keeps its scale
                    if e[0] == 'set':
                        loc = core(e[1])
                        if loc[0] == 'f' and loc[2] == 'cost' and s2 not in (UNK, NUM):
                            C.ob(s2 == COST or any(x[0] == 'fn' and x[1] == 'exp' for x in subterms(v)), tag + ':cost',
                                 '%s stores a %s as a cost' % (f['q'], s2), at(e), p)
            if p.exit[0] == 'ret' and len(p.exit) > 1 and p.exit[1] is not None:
                self.err = None
                if (LOGNAME.match(n)) and ('double' in rt) and n != 'log_prob_distance':
                    v = core(p.exit[1])
                    s = self.scale(v, env) if rt.strip() == 'double' else self.elements(v, env)
                    self.expect(f, 'what %s returns' % f['q'], s, LOG, 'C28:%s:returns' % f['q'], f, p)
                elif n == 'log_prob_distance':
                    s = self.scale(core(p.exit[1]), env)
                    C.ob(self.err is None and s in (COST, UNK), 'C28:%s:returns' % f['q'], 'log_prob_distance returns a %s instead of a cost%s' % (s, ': ' + self.err if self.err else ''), f, p)
                elif n in LINNAME:
                    s = self.elements(core(p.exit[1]), env)
                    self.expect(f, 'what %s returns' % f['q'], s, 'lin', 'C28:%s:returns' % f['q'], f, p)
                elif rt.strip() == 'double':
                    self.scale(core(p.exit[1]), env)
                    C.ob(self.err is None, 'C28:%s:returns' % f['q'], '%s: %s' % (f['q'], self.err), f, p)
                    self.err = None

    def propagate(self):
        """A parameter handed to a draw as it is makes its function a draw."""
        for k, f in self.fns.items():
            if f['q'] in self.SINKS:
                i, want = self.SINKS[f['q']]
                self.sinks[(k, i)] = want
        for _ in range(2):
            for k, f in self.fns.items():
                names = {p['name']: i for i, p in enumerate(f['params'])}
                for x in walk(f['body']):
                    if not (isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict)):
                        continue
                    for j, a in enumerate(x.get('args') or ()):
                        want = self.sinks.get((x['f'].get('key'), j))
                        while isinstance(a, dict) and a.get('k') in ('cast', 'ctor') and (a.get('e') or a.get('args')):
                            a = a.get('e') or a['args'][0]
                        if want and isinstance(a, dict) and a.get('k') == 'var' and a.get('name') in names:
                            self.sinks.setdefault((k, names[a['name']]), want)

    def all(self):
        self.known = 0
        self.propagate()
        done = set()
        for k, f in self.fns.items():
            if 'typename_playground' in f['file'] or not self.interesting(f):
                continue
            sig = (f['q'], f['file'], f.get('line'))
            if sig in done and '<' in k.split('(')[0]:
                continue    # another instance of the same template
            done.add(sig)
            self.function(f)
        self.C.ob(self.known >= 10, 'C28:known', 'too few scales are known', None)
        self.C.note('scales known at %d draws and returns' % self.known)
        return self.C.finish()


if __name__ == '__main__':
    main('C28', lambda: C28().all())
