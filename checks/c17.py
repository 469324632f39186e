"""C17: malformed input is rejected in every build, and readers stay inside the fields that are present."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.load import load
from sa import bounds as B
from sa.place import walk
from sa.flow import Runner, sites, core, subterms, has, root, at, repofns, flat, tupled

RULE = ('On the program without assertions: every position a reader uses in a token list or line is bounded by a comparison with its size '
        'decided before the access; every definition a reader records is recorded only on paths that decided what makes it well formed '
        '(separators, brackets, token kinds, field counts, known names, numeric tables, no earlier definition of the same name); a line '
        'that is neither blank nor recorded ends the reading with failure; files that do not open, unknown model names and values of '
        'another type end the program or make the reader return false; every exit after an error has a failure status.')

STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
ONE = Fraction(1)


class C17:
    def __init__(self):
        self.C = Check('C17', RULE, ['the standard library throws where it says it does, and an uncaught exception is a failure',
                                     'parameter lists may repeat a parameter (the last one counts)'],
                       min_obligations=60, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.cache = {}
        self.keyed = {}

    def typ(self, t):
        return self.P.type(t)['s'].replace('const ', '')

    def paths(self, f, stay=()):
        """All paths, failing ones too, with the helpers of the same file inlined."""
        if f['key'] not in self.cache:
            def opq(g):
                h = self.P.fns.get(g.get('key'), {})
                if g.get('key') == f['key']:
                    return True
                return h.get('file', '').rsplit('.', 1)[0] != f['file'].rsplit('.', 1)[0] or g.get('q') in stay
            self.cache[f['key']] = self.C.try_run(f, opaque=opq)
        return self.cache[f['key']]

    def find(self, name, pred=lambda f: True):
        r = [f for f in self.fns.values() if f['q'] == name and pred(f)]
        if not r:
            self.C.unanalysed.append('%s not found' % name)
        return r

    @staticmethod
    def failed(p):
        return p.exit[0] == 'abort' or p.exit[0] == 'ret' and core(p.exit[1]) in (('b', False), ('n', Fraction(0)))

    # ----------------------------------------------------------------- tokens ---
    def isseq(self, X, loops, f):
        """1: a list of tokens or other sequence made by the reader, 2: text (the position after the last is readable)."""
        if X[0] == 'out' and X[1].endswith('tokenize'):
            return 1
        if X[0] == 'out' and X[1] == 'std::getline' or X[0] == 'f' and X[2] == 'val' or X[0] == 'fn' and X[1] == 'substr':
            return 2
        if X[0] == 'p':
            t = [self.typ(x['t']) for x in f['params'] if x['name'] == X[1]]
            if t and t[0].rstrip(' &*') == STR:
                return 2
            if t and 'std::vector<' in t[0].split(',')[0]:
                return 1
        if X[0] == 'acc' and any(X[1] == B.plain(l) for l in loops) and self.vars.get(X[2][1:2]) == STR:
            return 2
        return 0

    def inside(self, f, tag):
        """Bounds of every positional access on every path of the reader."""
        C = self.C
        self.vars = {}
        done = {}

        def ask(X, k, facts, w, loops):
            kind = self.isseq(X, loops, f)
            if not kind or not B.position(k):
                return
            g = {('size', X): ONE}
            if k in (('last',), ('first',)):
                ok = B.prove(B.plus(g, {None: -ONE}), facts)
            else:
                g = B.plus(g, B.lin(k), -1)
                if kind == 1:
                    g = B.plus(g, {None: -ONE})
                ok = B.prove(g, facts) and B.unwrapped(k, facts)
            key = (X, k, w)
            done[key] = done.get(key, True) and ok
        for p in self.paths(f) or ():
            B.scan(p.trace, ask)
        for (X, k, w), ok in done.items():
            C.ob(ok, 'C17:%s:bounds' % tag, '%s uses position %s of a sequence without having compared it with the size' % (tag, pp(k)[-60:]), w)
        return len(done)

    @staticmethod
    def put(e):
        """(container, key, value) of a store under a key."""
        if e[0] == 'put':
            return tuple(core(x) for x in e[1:4])
        if e[0] == 'call' and e[1].endswith('operator=') and e[2] and core(e[2])[0] == 'at' and e[3]:
            l = core(e[2])
            return l[1], l[2], core(e[3][0])
        if e[0] == 'set' and core(e[1])[0] == 'at':
            return core(e[1])[1], core(e[1])[2], core(e[2])
        if e[0] == 'ins' and len(tupled(core(e[2]))) == 2:
            return (core(e[1]),) + tuple(tupled(core(e[2])))
        return None

    # ------------------------------------------------------------- conditions ---
    @staticmethod
    def holds(s, c, truth=True):
        return any(t is truth and c(a) for a, t in tuple(s.conds) + tuple(s.alt))

    @staticmethod
    def afterwards(tr, s, v):
        """A later loop of the same round refuses a repeated name: every alternative that goes on found it new."""
        def new(b):
            return b[2] == 'next' and any(core(a)[0] == 'contains' and not t and has(core(a)[2], v) for a, t in b[1])

        def scan(t):
            ready = False
            for e in t:
                if e[0] != 'loop':
                    continue
                if ready and all(new(b) for b in e[2]):
                    return True
                if any(x is s.ev for b in e[2] for x in b[0]):
                    ready = True
                elif any(scan(b[0]) for b in e[2]):
                    return True
            return False
        return scan(tr)

    @staticmethod
    def tok(t):
        """(tokens, position, member) of a token's value or kind."""
        if t[0] == 'f' and t[2] in ('val', 'type') and t[1][0] == 'at':
            return t[1][1], t[1][2], t[2]
        return None

    def lit(self, T, pos, text):
        """The token at the position has the given text."""
        def c(a):
            if a[0] != 'eq' or ('s', text) not in a[1:]:
                return False
            t = self.tok(a[1] if a[2] == ('s', text) else a[2])
            return t is not None and t[2] == 'val' and (T is None or t[0] == T) and (pos is None or self.same(t[1], pos, T))
        return c

    def ident(self, T, pos):
        def c(a):
            if a[0] != 'eq' or ('enum', 'TokenType', 'identifier') not in a[1:]:
                return False
            t = self.tok(a[1] if a[2][0] == 'enum' else a[2])
            return t is not None and t[2] == 'type' and t[0] == T and self.same(t[1], pos, T)
        return c

    @staticmethod
    def same(a, b, T):
        last = ('add', (('size', T), ('n', Fraction(-1))))
        a, b = (last if x == ('last',) else x for x in (a, b))
        if a == ('first',):
            a = ('n', Fraction(0))
        d = B.plus(B.lin(a), B.lin(b), -1)
        return not d

    @staticmethod
    def off(pos, k, T=None):
        if pos == ('last',):
            pos = ('size', T)
            k -= 1
        l = B.plus(B.lin(pos), {None: Fraction(k)})
        ts = [a if c == 1 else ('mul', (('n', c), a)) for a, c in l.items() if a is not None]
        n = ('n', B.const(l))
        if not ts:
            return n
        return ts[0] if len(ts) == 1 and not B.const(l) else ('add', tuple(ts) + ((n,) if B.const(l) else ()))

    def size(self, s, T, rel):
        """The decided conditions imply size(T) rel for rel = ('ge', n) | ('eq', n)."""
        facts = [x for a, t in tuple(s.conds) + tuple(s.alt) for x in B.facts_of(a, t)]
        g = {('size', T): ONE, None: Fraction(-rel[1])}
        ok = B.prove(g, facts)
        if rel[0] == 'eq':
            ok = ok and B.prove({a: -c for a, c in g.items()}, facts)
        return ok

    def new(self, s, cont, key, member=None):
        """The name was looked up and found not to be there (or a set of names took it as new)."""
        def c(a):
            if a[0] == 'contains':
                return (a[1] == cont or member is not None and a[1][0] == 'f' and a[1][2] == member) and a[2] == key
            if a[0] == 'eq' and a[1] == ('n', Fraction(0)) or a[0] == 'eq' and a[2] == ('n', Fraction(0)):
                x = a[2] if a[1][0] == 'n' else a[1]
                return x[0] == 'count' and x[1] == cont and x[2] == key
            return False
        neg = lambda a: a[0] == 'contains' and c(a)
        pos = lambda a: a[0] == 'eq' and c(a)
        return self.holds(s, neg, False) or self.holds(s, pos, True)

    # ------------------------------------------------------------ HIRM schema ---
    def hirm_schema(self):
        C = self.C
        for f in self.find('load_schema'):
            q = f['q']
            n = self.inside(f, q)
            rec = 0
            for p in self.paths(f) or ():
                if self.failed(p):
                    continue
                self.opened(p, q, f)
                ss = list(sites(p))
                for s in ss:
                    if self.put(s.ev):
                        cont, k, v = self.put(s.ev)
                        t = self.tok(k)
                        if t is None:
                            continue
                        T = t[0]
                        w = at(s.ev)
                        if v[0] == 'struct' or self.same(t[1], ('n', Fraction(0)), T):
                            # a relation
                            rec += 1
                            C.ob(self.new(s, cont, k), 'C17:%s:duplicate' % q,
                                 '%s records a relation without having asked whether its name is taken' % q, w, p)
                            C.ob(self.holds(s, self.ident(T, ('n', Fraction(0)))) and self.holds(s, self.ident(T, ('n', Fraction(2)))),
                                 'C17:%s:names' % q, '%s records a relation whose name or model is not an identifier' % q, w, p)
                            C.ob(self.holds(s, self.lit(T, ('n', ONE), '~')), 'C17:%s:~' % q, '%s records a relation without `~` after its name' % q, w, p)
                            C.ob(self.holds(s, self.lit(T, None, '(')), 'C17:%s:(' % q, '%s records a relation without `(` before its domains' % q, w, p)
                        else:
                            self.parameter(s, q, T, t[1], v, (',', ']', ')'), p)
                    if s.ev[0] == 'push' and s.loops and self.tok(core(s.ev[2])) and self.tok(core(s.ev[2]))[2] == 'val':
                        T, pos, _ = self.tok(core(s.ev[2]))
                        C.ob(self.holds(s, self.ident(T, pos)), 'C17:%s:domain' % q, '%s takes a domain that is not an identifier' % q, at(s.ev), p)
                        C.ob(any(self.holds(s, self.lit(T, self.off(pos, 1), x)) for x in (',', ')')), 'C17:%s:separator' % q,
                             '%s takes a domain without `,` or `)` after it' % q, at(s.ev), p)
                self.every_line(p, q, lambda e: self.put(e) is not None and self.tok(self.put(e)[1]) is not None)
                C.ob(any(e[0] == 'loop' for e in p.trace), 'C17:%s:lines' % q, '%s reads no lines' % q, f, p)
            C.ob(rec > 0 and n > 0, 'C17:%s:records' % q, '%s records no relation' % q, f)
        for f in self.find('verify_noisy_relation_domains'):
            bad = ok = 0
            for p in self.paths(f) or ():
                if self.failed(p):
                    bad += 1
                else:
                    ok += 1
                    for body, line in self.inner(p.trace, 0):
                        same = [e for e in body if e[0] == 'br' and core(e[1])[0] == 'eq' and all(x[0] == 'at' for x in core(e[1])[1:])]
                        self.C.ob(any(e[2] is True for e in same) and not any(e[2] is False for e in same), 'C17:%s:prefix' % f['q'],
                                  '%s accepts a noisy relation over other domains than its base' % f['q'], line, p)
            self.C.ob(bad > 0, 'C17:%s:rejects' % f['q'], '%s rejects nothing' % f['q'], f)

    def inner(self, tr, depth):
        """The rounds that go on of the loops inside the loop over relations."""
        for e in tr:
            if e[0] == 'loop':
                for b, dec, how in e[2]:
                    if depth and how in ('next', 'continue'):
                        yield b, (e[3] if len(e) > 3 else None)
                    yield from self.inner(b, depth + 1)

    def parameter(self, s, q, T, pos, v, ends, p):
        C = self.C
        t = self.tok(v)
        C.ob(t is not None and t[0] == T and self.same(t[1], self.off(pos, 2), T), 'C17:%s:value' % q,
             '%s takes a parameter\'s value from another place' % q, at(s.ev), p)
        C.ob(self.holds(s, self.lit(T, self.off(pos, 1), '=')), 'C17:%s:=' % q, '%s takes a parameter without `=` after its name' % q, at(s.ev), p)
        C.ob(any(self.holds(s, self.lit(T, self.off(pos, 3), x)) for x in ends), 'C17:%s:after parameter' % q,
             '%s takes a parameter without `,` or a closing bracket after it' % q, at(s.ev), p)

    def every_line(self, p, q, recorded):
        """A round of the loop over lines that goes on either had a blank line or recorded what the line says."""
        for ev in p.trace:
            if ev[0] != 'loop':
                continue
            for b, dec, how in ev[2]:
                if how not in ('next', 'continue') or not any(e[0] == 'call' and e[1] == 'std::getline' for e in b):
                    continue
                blank = any(e[0] == 'br' and e[2] is True and core(e[1])[0] == 'empty' and
                            core(e[1])[1][0] == 'out' for e in b)
                self.C.ob(blank or any(recorded(e) for e in flat(b)), 'C17:%s:line' % q,
                          '%s goes on after a line that is neither blank nor recorded' % q, ev[3] if len(ev) > 3 else None, p)
                for e in b:
                    if e[0] == 'call' and e[1].endswith('tokenize'):
                        c = core(('call',) + e[1:4])
                        self.C.ob(any(x[0] == 'br' and x[2] is True and core(x[1])[:2] == ('call', e[1]) for x in b), 'C17:%s:tokens' % q,
                                  '%s uses the tokens of a line that has none' % q, at(e), p)

    def opened(self, p, q, f):
        """A reader of a file goes on only if the file could be opened."""
        ok = False
        for a, t in p.decisions:
            a = core(a)
            s = pp(a)
            if t and ('good()' in s or 'is_open()' in s) or t and a[0] == 'fn' and a[1] == 'operator bool' and 'getline' not in s:
                ok = True
            if not t and ('operator!' in s or 'fail()' in s) and 'getline' not in s:
                ok = True
        self.C.ob(ok, 'C17:%s:open' % q, '%s goes on when its file cannot be opened' % q, f, p)

    # ------------------------------------------------------------ observations ---
    def observations(self):
        C = self.C
        for f in self.find('load_observations'):
            q = f['q']
            n = 0
            for p in self.paths(f) or ():
                if self.failed(p):
                    continue
                self.opened(p, q, f)
                for s in sites(p):
                    if s.ev[0] not in ('push', 'ins') or len(s.loops) != 1 or core(s.ev[1])[0] != 'at':
                        continue
                    if s.ev[0] == 'ins' and any(z[0] == 'contains' and z[1] == core(s.ev[1]) for z, t in s.conds):
                        continue    # the set of what was seen
                    n += 1
                    w = at(s.ev)
                    rel = core(s.ev[1])[2]
                    C.ob(self.holds(s, lambda a: a[0] == 'contains' and a[1][0] == 'p' and a[2] == rel), 'C17:%s:relation' % q,
                         '%s takes an observation of a relation that may not be in the schema' % q, w, p)
                    reads = [z for z in self.reads(s.before)]
                    oks = [self.readok(s, z) for z in reads]
                    C.ob(len(reads) >= 3 and all(oks[1:3]), 'C17:%s:columns' % q,
                         '%s takes an observation whose value or relation is missing' % q, w, p)
                    cnt = lambda a: a[0] == 'eq' and all(x[0] == 'size' for x in a[1:]) and any(
                        z[0] == 'f' and z[2] == 'domains' for z in subterms(a))
                    C.ob(self.holds(s, cnt), 'C17:%s:count' % q, '%s takes an observation without counting its items' % q, w, p)
                    dup = lambda a: a[0] == 'contains' and root(a[1])[0] == 'var' and has(a[1], rel)
                    C.ob(self.holds(s, dup, False), 'C17:%s:duplicate' % q, '%s takes the same observation twice' % q, w, p)
                self.every_line(p, q, lambda e: e[0] in ('push', 'ins') and core(e[1])[0] == 'at')
            C.ob(n > 0, 'C17:%s:records' % q, '%s records no observation' % q, f)

    @staticmethod
    def reads(tr):
        return [e for e in tr if e[0] == 'call' and e[1] == 'std::getline']

    def readok(self, s, ev):
        """The result of the read was decided to be good."""
        mine = core(ev[3])
        for a, t in tuple(s.conds) + tuple(s.alt):
            for x in subterms(a):
                if x[0] == 'call' and x[1] == 'std::getline' and mine in x[2:]:
                    neg = 'operator!' in pp(a) or 'fail()' in pp(a)
                    if t is (not neg):
                        return True
        return False

    # ---------------------------------------------------------------- clusters ---
    def clusters(self):
        C = self.C
        for f in self.find('load_clusters_irm') + self.find('load_clusters_hirm'):
            q = f['q']
            n = 0
            for p in self.paths(f, stay=('isnumeric',)) or ():
                if self.failed(p):
                    continue
                self.opened(p, q, f)
                for s in sites(p):
                    if s.ev[0] == 'push' and len(s.loops) == 2:
                        v = core(s.ev[2])
                        if v[0] == 'read':
                            C.ob(self.holds(s, lambda a: a[0] == 'contains' and a[2] == v, False) or self.afterwards(p.trace, s, v), 'C17:%s:once' % q,
                                 '%s lists the same name in two clusters' % q, at(s.ev), p)
                    if not self.put(s.ev) or len(s.loops) != 1:
                        continue
                    n += 1
                    w = at(s.ev)
                    cont, key, val = self.put(s.ev)
                    if val in (('cont', ('empty',), ()), ('empty',)) and root(cont) == cont and q.endswith('hirm'):
                        pass
                    elif val in (('cont', ('empty',), ()), ('empty',)):
                        continue    # room for a domain
                    else:
                        C.ob(self.holds(s, lambda a: a[0] == 'empty', False) and self.nonempty(s, val), 'C17:%s:items' % q,
                             '%s takes a cluster that lists nothing' % q, w, p)
                    C.ob(self.new(s, cont, key) or cont[0] == 'at' and self.new(s, cont[1], cont[2]), 'C17:%s:duplicate' % q, '%s takes a table twice' % q, w, p)
                    C.ob(self.number(s, key), 'C17:%s:table' % q, '%s takes a table that is not a number' % q, w, p)
                    if q.endswith('hirm') and cont[0] == 'at' and cont[1][0] == 'at':
                        I = cont[1]
                        inside = lambda a: a[0] == 'contains' and a[1] == I[1] and a[2] == I[2]
                        low = [x for a, t in tuple(s.conds) + tuple(s.alt) for x in B.facts_of(a, t)]
                        C.ob(self.holds(s, inside) or B.prove({I[2]: ONE}, low), 'C17:%s:view' % q,
                             '%s takes a domain cluster outside any view' % q, w, p)
                self.every_line(p, q, lambda e: self.put(e) is not None)
                if q.endswith('hirm'):
                    cmp = lambda x: x[0] == 'eq' and all(y[0] in ('size', 'loopout', 'acc') for y in x[1:]) or x[0] in ('count', 'contains')
                    C.ob(any(root(a)[0] != 'p' and any(cmp(x) for x in subterms(a)) for a, t in ((core(a), t) for a, t in p.decisions)
                             if not any(x[0] in ('out', 'read') for x in subterms(a)) or a[0] == 'loopout'), 'C17:%s:matching' % q,
                         '%s accepts views that do not match the relation clusters' % q, f, p)
            C.ob(n > 0, 'C17:%s:records' % q, '%s records no cluster' % q, f)
        for f in self.find('isnumeric'):
            for p in self.paths(f) or ():
                if self.failed(p):
                    continue
                for e in p.trace:
                    if e[0] == 'loop':
                        for b, dec, how in e[2]:
                            good = any(x[0] == 'br' and x[2] is True and core(x[1])[0] == 'fn' and core(x[1])[1] == 'isdigit' for x in b)
                            C.ob(good or how not in ('next', 'continue'), 'C17:%s:digits' % f['q'],
                                 '%s accepts text with characters that are not digits' % f['q'], f, p)

    def nonempty(self, s, val):
        return any(a[0] == 'empty' and not t for a, t in tuple(s.conds) + tuple(s.alt)) or \
            any(a[0] == 'lt' and a[2][0] == 'size' and t for a, t in tuple(s.conds) + tuple(s.alt))

    def number(self, s, key):
        """The table was read as a number: tested text, or an extraction that succeeded."""
        for x in subterms(key):
            if x[0] in ('fn', 'call') and str(x[1]).endswith('isnumeric'):
                return True
        src = [x for x in subterms(key) if x[0] in ('fn', 'call') and str(x[1]).split('::')[-1].startswith('sto')]
        if src:
            txt = src[0][2:] if src[0][0] == 'fn' else src[0][-1]
            return any(t and a[0] in ('fn', 'call') and str(a[1]).endswith('isnumeric') and any(y in subterms(a) for y in subterms(txt))
                       for a, t in tuple(s.conds) + tuple(s.alt))
        for a, t in tuple(s.conds) + tuple(s.alt):
            if t and a[0] == 'fn' and a[1] == 'operator bool' and any(x[0] == 'call' and x[1].endswith('operator>>') for x in subterms(a)):
                return True
            if not t and 'operator!' in pp(a) and 'operator>>' in pp(a):
                return True
        return False

    # ----------------------------------------------------------- PClean schema ---
    def pclean(self):
        C = self.C
        kinds = {}
        parts = ('read_schema', 'read_class', 'read_query')
        for q in parts:
            for f in self.find(q, lambda f: len(f['params']) == 2):
                stay = tuple(x for x in parts if x != q)
                self.paths(f, stay)
                n = self.inside(f, q)
                C.ob(n >= 4, 'C17:%s:tokens' % q, '%s uses no tokens' % q, f)
                for p in self.paths(f) or ():
                    if self.failed(p):
                        continue
                    self.records(p, kinds)
                    self.rounds(p, q)
                if q == 'read_schema':
                    for k in parts[1:]:
                        used = any(e[0] == 'call' and e[1] == k for p in self.paths(f) or () for e in flat(p.trace))
                        C.ob(used, 'C17:%s:%s' % (q, k), '%s does not use %s' % (q, k), f)
        for k in ('classes', 'vars', 'fields', 'params', 'from', 'path'):
            C.ob(k in kinds, 'C17:read_schema:%s' % k, 'the schema reader records no %s' % k)
        for f in self.find('read_schema_file'):
            q = f['q']
            for p in self.paths(f, stay=('read_schema',)) or ():
                if self.failed(p):
                    continue
                self.opened(p, q, f)
                r = core(p.exit[1])
                C.ob(r[0] == 'call' and r[1] == 'read_schema' or any(t and core(a)[:2] == ('call', 'read_schema') for a, t in p.decisions),
                     'C17:%s:result' % q, '%s reports success for a schema that was not read' % q, f, p)

    def records(self, p, kinds):
        C = self.C
        for s in sites(p):
            if self.put(s.ev):
                self.definition(s, p, kinds)
            elif s.ev[0] == 'set' and core(s.ev[1])[0] == 'f' and core(s.ev[1])[2] == 'record_class':
                kinds['from'] = 1
                t = self.tok(core(s.ev[2]))
                T = t[0] if t else None
                C.ob(t is not None and self.size(s, T, ('eq', 2)) and self.same(t[1], ('n', ONE), T), 'C17:read_query:from',
                     'a `from` line is not exactly `from` and a class', at(s.ev), p)
                C.ob(self.holds(s, lambda a: a[0] == 'empty' and a[1] == core(s.ev[1])), 'C17:read_query:one from',
                     'a second `from` line replaces the first', at(s.ev), p)
            elif s.ev[0] == 'call' and s.ev[1] == 'read_query':
                C.ob(self.holds(s, lambda a: a[:2] == ('call', 'read_query')), 'C17:read_schema:query body', 'a query is kept that could not be read', at(s.ev), p)
                C.ob(self.holds(s, self.lit(None, ('n', Fraction(0)), 'observe')), 'C17:read_schema:observe', 'a query is read without `observe`', at(s.ev), p)
                C.ob(self.holds(s, lambda a: a[0] == 'empty' and a[1][0] == 'f' and a[1][2] == 'record_class'), 'C17:read_schema:one query',
                     'a second query replaces the first', at(s.ev), p)
            elif s.ev[0] == 'push' and core(s.ev[1])[0] == 'f' and core(s.ev[1])[2] == 'class_path':
                kinds['path'] = 1

    def definition(self, s, p, kinds):
        C = self.C
        (cont, key, val), w = self.put(s.ev), at(s.ev)
        mem = cont[2] if cont[0] == 'f' else None
        t = self.tok(key)
        if mem is None:
            return
        kinds[mem] = 1
        if mem == 'params':
            if t is None:
                return
            self.parameter(s, 'read_class', t[0], t[1], val, (',', ')'), p)
            T = t[0]
            three = ('n', Fraction(3))
            low = [x for a, tt in tuple(s.conds) + tuple(s.alt) for x in B.facts_of(a, tt)]
            C.ob(self.holds(s, self.lit(T, three, '(')) and self.holds(s, self.lit(T, ('last',), ')')) or
                 B.prove({('size', T): -ONE, None: Fraction(3)}, low), 'C17:read_class:brackets',
                 'a parameter list is taken without `(` before it and `)` after it', w, p)
            return
        if mem not in ('classes', 'vars', 'fields'):
            return
        C.ob(self.new(s, cont, key, mem), 'C17:read_schema:duplicate %s' % mem, 'a second definition of the same name in %s replaces the first' % mem, w, p)
        if t is None and mem == 'classes':
            for a, tt in s.conds:
                if tt and self.lit(None, None, 'class')(a):
                    t = self.tok([x for x in a[1:] if x[0] == 'f'][0])
        if t is None:
            C.unanalysed.append('definition in %s: %s' % (mem, pp(key)[:60]))
            return
        T = t[0]
        if mem == 'classes':
            C.ob(self.size(s, T, ('eq', 2)) and self.holds(s, self.lit(T, ('n', Fraction(0)), 'class')) and self.holds(s, self.ident(T, ('n', ONE))),
                 'C17:read_schema:class line', 'a class line is not exactly `class` and an identifier', w, p)
            C.ob(self.holds(s, lambda a: a[:2] == ('call', 'read_class')), 'C17:read_schema:class body', 'a class is recorded that could not be read', w, p)
        if mem == 'vars':
            C.ob(self.size(s, T, ('ge', 3)), 'C17:read_class:count', 'a variable line with fewer than three tokens is taken', w, p)
            C.ob(self.holds(s, self.lit(T, ('n', ONE), '~')), 'C17:read_class:~', 'a variable line without `~` is taken', w, p)
            more = any(a[0] == 'lt' and not t for a, t in s.alt) or self.size(s, T, ('eq', 3))
            br = self.holds(s, self.lit(T, ('n', Fraction(3)), '(')) and self.holds(s, self.lit(T, ('last',), ')'))
            three = [x for a, tt in tuple(s.conds) + tuple(s.alt) for x in B.facts_of(a, tt)]
            C.ob(br or B.prove({('size', T): -ONE, None: Fraction(3)}, three), 'C17:read_class:brackets',
                 'a variable line with more tokens and no brackets is taken', w, p)
        if mem == 'fields':
            C.ob(self.size(s, T, ('ge', 3)), 'C17:read_query:count', 'a query line with fewer than three tokens is taken', w, p)
            C.ob(self.holds(s, self.lit(T, ('add', (('size', T), ('n', Fraction(-2)))), 'as')), 'C17:read_query:as', 'a query line without `as` before the name is taken', w, p)
            par = lambda a: a[0] == 'eq' and any(x[0] == 'op' and x[1] == '%' and ('size', T) in subterms(x) for x in subterms(a))
            C.ob(self.holds(s, par, False) or self.holds(s, par, True), 'C17:read_query:parity', 'a query line whose path ends in `.` is taken', w, p)
            loops = [e for e in s.before if e[0] == 'loop' and any(x[0] == 'push' for b in e[2] for x in flat(b[0]))]
            for e in loops:
                for b, dec, how in e[2]:
                    if how not in ('next', 'continue'):
                        continue
                    dot = any(x[0] == 'br' and x[2] is True and self.lit(T, None, '.')(core(x[1])) for x in flat(b))
                    C.ob(dot or any(x[0] == 'push' for x in flat(b)), 'C17:read_query:dots', 'a query path with something other than `.` between its steps is taken', w, p)

    def rounds(self, p, q):
        """Every line of every reading loop is blank, recorded, or handed to a reader whose success was decided."""
        def go(tr):
            for ev in tr:
                if ev[0] != 'loop':
                    continue
                for b, dec, how in ev[2]:
                    go(b)
                    if how not in ('next', 'continue') or not any(e[0] == 'call' and e[1] == 'std::getline' for e in b):
                        continue
                    blank = any(e[0] == 'br' and e[2] is True and core(e[1])[0] == 'empty' and core(e[1])[1][0] == 'out' for e in b)
                    rec = any(self.put(e) or e[0] == 'set' and core(e[1])[0] == 'f' and core(e[1])[2] == 'record_class' for e in flat(b)) or \
                        any(e[0] == 'br' and e[2] is True and core(e[1])[0] == 'call' and core(e[1])[1] in ('read_class', 'read_query') for e in b)
                    self.C.ob(blank or rec, 'C17:%s:line' % q, '%s goes on after a line that is neither blank nor recorded' % q,
                              ev[3] if len(ev) > 3 else None, p)
                    for e in b:
                        if e[0] == 'call' and e[1].endswith('tokenize'):
                            self.C.ob(any(x[0] == 'br' and x[2] is True and core(x[1])[:2] == ('call', e[1]) for x in b), 'C17:%s:tokens' % q,
                                      '%s uses the tokens of a line that has none' % q, at(e), p)
        go(p.trace)

    # ---------------------------------------------------------------- tokenize ---
    def tokenizer(self):
        C = self.C
        for f in self.find('tokenize'):
            q = f['q']
            n = self.inside(f, q)
            bad = rounds = 0
            for p in self.paths(f) or ():
                if self.failed(p):
                    bad += 1
                    continue
                for ev in p.trace:
                    if ev[0] != 'loop':
                        continue
                    for b, dec, how in ev[2]:
                        if how not in ('next', 'continue'):
                            continue
                        d = [(core(a), t) for a, t in dec]
                        d += [(core(e[1]), e[2]) for e in b if e[0] == 'br']
                        space = any(t and a[0] == 'fn' and a[1] == 'isspace' for a, t in d)
                        outp = [e for e in b if e[0] == 'push' and core(e[1])[0] == 'p']
                        C.ob(space or len(outp) == 1, 'C17:%s:characters' % q, '%s drops a character that is not white space' % q, f, p)
                        if not outp:
                            continue
                        rounds += 1
                        kind = any(t and (a[0] == 'fn' and a[1] in ('isdigit', 'isalnum', 'isalpha', 'isupper', 'islower') or
                                          a[0] == 'eq' and any(x[0] == 'n' for x in a[1:]) or a[0] == 'contains') or
                                   not t and a[0] == 'eq' and ('null',) in a[1:] for a, t in d)
                        C.ob(kind, 'C17:%s:kinds' % q, '%s makes a token of a character that starts none' % q, at(outp[0]), p)
                        quote = any(t and a[0] == 'eq' and any(x in (('n', Fraction(34)), ('n', Fraction(39))) for x in a[1:]) for a, t in d)
                        if quote:
                            closed = any(t and a[0] == 'eq' and not any(x[0] in ('n', 'null') for x in a[1:]) for a, t in d) or any(
                                not t and a[0] == 'eq' and 'npos' in pp(a) for a, t in d) or any(
                                a[0] in ('p', 'var', 'last', 'not', 'b') for a, t in d)
                            C.ob(closed, 'C17:%s:quotes' % q, '%s accepts text without a closing quote' % q, at(outp[0]), p)
            C.ob(bad >= 2 and rounds > 0 and n > 0, 'C17:%s:rejects' % q, '%s rejects fewer than two kinds of lines' % q, f)

    # ------------------------------------------------------------------- names ---
    def specs(self):
        C = self.C
        for cls in ('DistributionSpec', 'EmissionSpec'):
            for f in self.find(cls + '::' + cls):
                if not f['params'] or f['params'][0]['name'] == '' or len(f['params']) < 2:
                    continue
                q = cls
                self.inside(f, q)
                good = 0
                for p in self.paths(f) or ():
                    if self.failed(p):
                        continue
                    good += 1
                    named = any(t and core(a)[0] == 'eq' and any(x[0] == 's' for x in core(a)[1:]) or
                                t and core(a)[0] == 'contains' and core(a)[1][0] in ('g', 'var') for a, t in p.decisions)
                    C.ob(named, 'C17:%s:unknown' % q, '%s accepts a name it does not know' % q, f, p)
                    for s in sites(p):
                        if s.ev[0] == 'put' and s.loops:
                            eq = lambda a: a[0] == 'eq' and 'npos' in pp(a) and any(x[0] == 'fn' and x[1] == 'find' and ('n', Fraction(61)) in x for x in subterms(a))
                            C.ob(self.holds(s, eq, False), 'C17:%s:=' % q, '%s takes an argument without `=`' % q, at(s.ev), p)
                            end = lambda a: a[0] == 'eq' and ('n', Fraction(41)) in a[1:]
                            C.ob(any(t and end(core(a)) for a, t in p.decisions), 'C17:%s:)' % q, '%s takes arguments without `)` after them' % q, at(s.ev), p)
                C.ob(good >= 5, 'C17:%s:names' % q, '%s accepts fewer names than there are models' % q, f)
        for f in self.find('get_distribution_relation') + self.find('get_emission_relation'):
            for p in self.paths(f) or ():
                if not self.failed(p):
                    C.ob(any(t and core(a)[0] == 'contains' for a, t in p.decisions) or '.at(' in pp(p.exit[1] if p.exit[0] == 'ret' else ('n', 0)),
                         'C17:%s:unknown' % f['q'], '%s accepts a joint name it does not know' % f['q'], f, p)

    def values(self):
        C = self.C
        n = 0
        for f in self.fns.values():
            if f['name'] != 'from_string' or 'Relation<' not in f['q'] and 'Relation' != f['q'].split('::')[0]:
                continue
            for p in self.paths(f) or ():
                if self.failed(p) or p.exit[0] != 'ret':
                    continue
                r = core(p.exit[1])
                if r == ('p', f['params'][0]['name']):
                    continue
                n += 1
                ds = [(pp(core(a)), t) for a, t in p.decisions]
                got = any(t and 'operator>>' in a and ('operator bool' in a) for a, t in ds) or any(
                    not t and ('operator!' in a or 'fail()' in a) for a, t in ds)
                end = any(t and ('eof()' in a) for a, t in ds) or any(t and a.startswith('eq(') and ('peek' in a or 'tellg' in a or 'size' in a) for a, t in ds) or any(
                    not t and 'operator bool' in a and 'operator>>' in a for a, t in ds)
                C.ob(got, 'C17:from_string:value', 'a value that cannot be read is accepted', f, p)
                C.ob(end, 'C17:from_string:rest', 'text after a value is ignored', f, p)
        C.ob(n >= 3, 'C17:from_string', 'values of fewer than three types are read', None)

    def exits(self):
        """Ending the program after an error reports failure."""
        C = self.C
        n = 0
        for f in self.fns.values():
            for x in walk(f['body']):
                if isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict) and \
                        x['f'].get('q') in ('exit', 'std::exit', '_exit', 'std::quick_exit', 'quick_exit', '_Exit', 'std::_Exit'):
                    n += 1
                    a = (x.get('args') or [{}])[0]
                    while a.get('k') != 'int' and isinstance(a.get('e'), dict):
                        a = a['e']
                    v = a.get('v') if a.get('k') == 'int' else None
                    C.ob(v is None or int(v) != 0, 'C17:%s:status' % f['q'], '%s ends the program with success after an error' % f['q'], x.get('at') or f)
        C.note('exit calls: %d' % n)
        return n

    def programs(self):
        """A program whose schema could not be read ends with failure."""
        C = self.C
        for f in self.fns.values():
            if f['name'] != 'main' or not any(isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict) and
                                              x['f'].get('name') in ('read_schema_file', 'read_schema') for x in walk(f['body'])):
                continue
            for p in self.paths(f) or ():
                bad = [1 for a, t in p.decisions if not t and core(a)[0] == 'call' and core(a)[1] in ('read_schema_file', 'read_schema')]
                if bad:
                    v = core(p.exit[1]) if p.exit[0] == 'ret' and len(p.exit) > 1 and p.exit[1] else None
                    C.ob(p.exit[0] in ('abort', 'throw') or p.exit[0] == 'ret' and v != ('n', Fraction(0)) and v is not None,
                         'C17:%s:main:schema' % f['file'], 'the program goes on with a schema that could not be read', f, p)

    def tables(self):
        for f in self.find('DataFrame::from_csv', lambda f: 'stream' not in self.typ(f['params'][0]['t'])):
            for p in self.paths(f) or ():
                if not self.failed(p):
                    self.opened(p, f['q'], f)
        for f in self.find('DataFrame::from_csv', lambda f: 'stream' in self.typ(f['params'][0]['t'])):
            for p in self.paths(f) or ():
                if not self.failed(p):
                    some = lambda a: a[0] == 'empty' and a[1][0] in ('f', 'var', 'cont', 'p')
                    self.C.ob(any(not t and some(core(a)) for a, t in p.decisions), 'C17:%s:columns' % f['q'], '%s returns a table without columns' % f['q'], f, p)

    def all(self):
        self.programs()
        self.tokenizer()
        self.hirm_schema()
        self.observations()
        self.clusters()
        self.pclean()
        self.specs()
        self.values()
        self.tables()
        self.exits()
        return self.C.finish()


if __name__ == '__main__':
    main('C17', lambda: C17().all())
