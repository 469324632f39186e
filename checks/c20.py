"""C20: entity names and entity codes correspond one to one per domain."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.flow import Runner, sites, core, subterms, has, root, over, container, covered, at, repofns

RULE = ('Where the two dictionaries are built, every path that gives an entity a code writes both directions with the same domain, '
        'name and code, only for a name the domain does not hold, with the domain\'s own next code (its size, or a counter kept '
        'per domain that starts at zero, is written nowhere else and is advanced by one), for every item of every observation. '
        'Every look-up in either dictionary takes the domain from the position, cluster or object the entity was taken from. '
        'Encoded observations hold the code of every item, in order, and the unchanged value.  All reading and writing of one '
        'model in a program uses one encoding.')

CLASSES = ('Domain', 'CRP', 'Distribution', 'Emission', 'CleanRelation', 'NoisyRelation', 'Relation', 'IRM', 'HIRM', 'GenDB')
ENC = ('calculate_encoding', 'make_dummy_encoding_from_gendb')
OPAQUE = ENC + ('load_schema', 'load_observations', 'load_clusters_irm', 'load_clusters_hirm', 'merge_observations',
                'inference_irm', 'inference_hirm', 'inference_gendb')
SELF = ('encode_observations', 'incorporate_observations', 'incorporate_observations_relation', 'write_observations', 'to_txt', 'from_txt',
        'logp')


def isenc(s):
    s = s.replace('const ', '').rstrip(' &')
    return s.startswith('std::pair<std::map<std::basic_string<') and s.count('std::map<int, ') >= 1 and 'std::map<std::map' not in s


class C20:
    def __init__(self):
        self.C = Check('C20', RULE, ['names of domains differ from one another; standard containers keep what is put into them'],
                       min_obligations=15)
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.run = Runner(self.C, CLASSES, OPAQUE + SELF)

    def typ(self, t):
        return self.P.type(t)['s']

    # ------------------------------------------------------------- build ---
    def builders(self):
        C = self.C
        for k, f in self.fns.items():
            if not isenc(self.typ(f['ret'])):
                continue
            run = Runner(C, CLASSES, ())
            for p in run(f) or ():
                if p.exit[0] != 'ret':
                    continue
                ret = core(p.exit[1])
                two = ret[1:] if ret[0] == 'tuple' else None
                if two and len(two) == 1:
                    two = two[0]
                self.build(f, p, two)

    def build(self, f, p, two):
        C = self.C
        q = f['q']
        ss = list(sites(p))
        puts = [s for s in ss if s.ev[0] in ('put', 'ins') and len(s.ev) >= 5 and core(s.ev[1])[0] == 'at' and root(s.ev[1])[0] == 'var']
        vals = [s for s in puts if core(s.ev[3]) not in (('cont', ('empty',), ()),)]
        fwd, rev, other = [], [], []
        codes = {core(s.ev[2]) for s in vals} & {core(s.ev[3]) for s in vals}
        absurd = lambda c: c[1] is True and c[0][0] == 'contains' and c[0][2] in codes and not self.name(c[0][2])
        vals = [s for s in vals if not any(absurd(c) for c in s.alt)]
        ss = [s for s in ss if not any(absurd(c) for c in s.alt)]
        used = set()
        for i, a in enumerate(vals):
            for j, b in enumerate(vals):
                if i < j and a.tr is b.tr and core(a.ev[2]) == core(b.ev[3]) and core(a.ev[3]) == core(b.ev[2]) and j not in used and i not in used:
                    used |= {i, j}
                    x = core(a.ev[2])
                    # the direction whose key is the name
                    isname = self.name(x)
                    (fwd if isname else rev).append(a)
                    (rev if isname else fwd).append(b)
                    C.ob(core(a.ev[1])[2] == core(b.ev[1])[2], 'C20:%s:domain' % q,
                         '%s records the name and the code of an entity under different domains' % q, at(a.ev), p)
        for i, a in enumerate(vals):
            if i not in used:
                other.append(a)
        takesobs = any('unordered_map<std::basic_string' in self.typ(x['t']) or 'tuple<std::vector' in self.typ(x['t']) for x in f['params'])
        for a in other:
            key, val = core(a.ev[2]), core(a.ev[3])
            if takesobs:
                C.ob(False, 'C20:%s:both' % q, '%s records only one direction of an entity\'s code' % q, at(a.ev), p)
            else:
                # names made up from codes: the name spells out the domain and the code
                d = core(a.ev[1])[2]
                C.ob(has(val, key) and (has(val, d) or len({core(x.ev[1])[2] for x in vals}) == 1), 'C20:%s:made up' % q,
                     '%s makes up a name that does not spell out the domain and the code' % q, at(a.ev), p)
        if not takesobs:
            C.ob(any(any(z[0] == 'f' and z[2] in ('items', 'assignments') for z in subterms(s.loops[-1])) and
                     any(any(z[0] == 'f' and z[2] == 'domains' for z in subterms(l)) for l in s.loops) for s in vals if s.loops),
                 'C20:%s:every entity' % q, '%s does not give a name to every entity of the model\'s domains' % q, f, p)
            return
        C.ob(bool(fwd), 'C20:%s:codes' % q, '%s gives no entity a code' % q, f, p)
        for a in fwd:
            loc, x, c = core(a.ev[1]), core(a.ev[2]), core(a.ev[3])
            d = loc[2]
            new = ('contains', loc, x)
            b = [s for s in rev if s.tr is a.tr and core(s.ev[2]) == c]
            rloc = core(b[0].ev[1]) if b else None
            C.ob((new, False) in a.conds, 'C20:%s:once' % q, '%s gives a code to a name that may have one' % q, at(a.ev), p)
            self.code(q, p, ss, a, loc, rloc, d, c)
            ok = self.paired(d, x)
            C.ob(ok is not False, 'C20:%s:position' % q, '%s takes the domain of an entity from another position' % q, at(a.ev), p)
            # every item of every observation
            items = x[1] if x[0] == 'at' else None
            obs = items
            while isinstance(obs, tuple) and obs[0] in ('f', 'get'):
                obs = obs[1]
            chain = []
            t = x
            while t[0] in ('at', 'f') and t[1][0] in ('at', 'f', 'p'):
                if t[0] == 'at':
                    chain.append((t[2], t[1]))
                t = t[1]
            chain.reverse()
            C.ob(all(over(kk, cc) for kk, cc in chain), 'C20:%s:every item' % q, '%s does not look at every item' % q, at(a.ev), p)
            keys = [(lambda kk: lambda z: z == kk)(kk) for kk, _ in chain]
            pred = lambda e: e[0] in ('put', 'ins') and len(e) >= 5 and core(e[1]) == loc and core(e[2]) == x
            bad = list(covered(p.trace, keys, pred, lambda dec: (new, True) in dec or any(absurd(c) for c in dec)))
            C.ob(not bad, 'C20:%s:all' % q, '%s %s over some items when it assigns codes' % (q, bad[0][0] if bad else ''),
                 (bad[0][1] if bad and isinstance(bad[0][1], tuple) else f), p)
            if two and len(two) == 2:
                C.ob(has(two[0], ('put', x, c)) or not has(two[1], ('put', x, c)), 'C20:%s:order' % q,
                     '%s returns the two directions in the wrong order' % q, f, p)

    @staticmethod
    def name(x):
        return not any(s[0] in ('n', 'size') for s in (x,)) and x[0] in ('at', 'f') and not (root(x)[0] == 'var')

    def code(self, q, p, ss, a, loc, rloc, d, c):
        C = self.C
        pre = [('size', loc)] + ([('size', rloc)] if rloc else [])
        if c in pre or any(s in pre for s in subterms(c)) and c[0] in ('size',):
            C.ob(True, 'C20:%s:next code' % q)
            return
        if c[0] == 'size':
            C.ob(False, 'C20:%s:next code' % q, '%s takes a code from the size of another table' % q, at(a.ev), p)
            return
        if c[0] == 'at' and root(c)[0] == 'var' or c[0] == 'at':
            cnt, dd = c[1], c[2]
            C.ob(dd == d, 'C20:%s:own counter' % q, '%s takes a code from the counter of another domain' % q, at(a.ev), p)
            adv = [s for s in ss if s.ev[0] in ('put', 'set', 'ins') and core(s.ev[1]) == cnt]
            up = [s for s in adv if s.tr is a.tr and core(s.ev[2]) == dd and core(s.ev[3]) == ('add', (c, ('n', one()))) or
                  s.tr is a.tr and core(s.ev[2]) == dd and addsone(core(s.ev[3]), c)]
            C.ob(len(up) == 1, 'C20:%s:advance' % q, '%s does not advance the counter of the domain by one with each code' % q, at(a.ev), p)
            for s in adv:
                if s in up:
                    continue
                zero = core(s.ev[3]) == ('n', 0 * one())
                first = s.loops[:1] != a.loops[:1] and order(p, s) < order(p, a)
                C.ob(zero and first, 'C20:%s:reset' % q, '%s writes the counter of a domain elsewhere while codes are given' % q, at(s.ev), p)
            return
        if root(c)[0] == 'var' or c[0] in ('acc', 'last', 'var', 'add'):
            C.ob(False, 'C20:%s:own counter' % q, '%s takes a code from a counter that is not kept per domain' % q, at(a.ev), p)
            return
        C.unanalysed.append('%s: code %s' % (q, pp(c)[:80]))

    # ------------------------------------------------------------ lookups ---
    def paired(self, d, x):
        """The domain d and the entity x come from the same place; None when that cannot be told."""
        if x[0] == 'at' and d[0] == 'at' and isinstance(d[1], tuple) and d[1][0] == 'f' and d[1][2] == 'domains':
            if x[2] != d[2]:
                return False
            rel = d[1][1]
            r = rel[2] if rel[0] == 'at' else None
            src = x[1]
            keys = [s[2] for s in subterms(src) if s[0] == 'at']
            if r is not None and keys and r not in keys:
                return False
            return True
        for s in [x] + list(subterms(x)):
            # an element or key of something held under d
            if s[0] in ('key', 'at', 'elt'):
                base = s[-1] if s[0] == 'key' else s[1]
                b = base
                while isinstance(b, tuple) and b[0] in ('f', 'at', 'elt'):
                    if b[0] == 'at' and b[2] == d:
                        return True
                    if d[0] == 'f' and d[2] == 'name' and b == d[1]:
                        return True
                    b = b[1]
        if d[0] == 'f' and d[2] == 'name' or d[0] == 'key' or bottom(d) == bottom(x) or \
                d[0] in ('first', 's', 'str', 'n', 'front', 'back'):
            return False
        return None

    def lookups(self):
        C = self.C
        for k, f in self.fns.items():
            if not (any(isenc(self.typ(p['t'])) for p in f['params']) or self.calls(f, ENC)):
                continue
            if isenc(self.typ(f['ret'])):
                continue
            for p in self.run(f) or ():
                seen = set()
                for s in sites(p):
                    if s.ev[0] == 'call' and s.ev[1].startswith('Domain::') and s.ev[3]:
                        o = core(s.ev[2])
                        for a in s.ev[3]:
                            a = core(a)
                            if a[0] == 'at' and a[1][0] == 'at' and self.half(a[1][1], f) and o[0] == 'at':
                                C.ob(o[2] == a[1][2], 'C20:%s:%s' % (f['q'], s.ev[1]),
                                     '%s gives a domain the code an entity has in another domain' % f['q'], at(s.ev), p)
                    ts = [y for y in s.ev[1:] if isinstance(y, tuple)]
                    for t in subterms(core(tuple(ts))):
                        if t[0] == 'at' and len(t) == 3 and isinstance(t[1], tuple) and t[1][0] == 'at' and self.half(t[1][1], f):
                            m, d, x = t[1][1], t[1][2], t[2]
                        elif t[0] == 'contains' and isinstance(t[1], tuple) and t[1][0] == 'at' and self.half(t[1][1], f):
                            m, d, x = t[1][1], t[1][2], t[2]
                        else:
                            continue
                        if (m, d, x) in seen:
                            continue
                        seen.add((m, d, x))
                        ok = self.paired(d, x)
                        if ok is None and root(x)[0] == 'p' and root(d)[0] == 'p' and x[0] == 'p' and d[0] == 'p':
                            continue        # a helper: judged where it is inlined
                        if ok is None:
                            C.unanalysed.append('%s: look-up of %s' % (f['q'], pp(x)[:80]))
                            continue
                        C.ob(ok, 'C20:%s:look up' % f['q'], '%s looks up %s in the codes of another domain (%s)' % (
                            f['q'], pp(x)[:70], pp(d)[:70]), at(s.ev), p)

    def half(self, m, f):
        if m[0] != 'f' or m[2] not in ('first', 'second'):
            return False
        o = m[1]
        if o[0] == 'p':
            return any(x['name'] == o[1] and isenc(self.typ(x['t'])) for x in f['params'])
        return o[0] == 'call' and o[1] in ENC

    def calls(self, f, names):
        from sa.place import walk
        return any(x.get('k') == 'call' and (x.get('f') or {}).get('name') in names for x in walk(f['body']))

    # ------------------------------------------------------------- encode ---
    def encoders(self):
        C = self.C
        for k, f in self.fns.items():
            if f['name'] != 'encode_observations':
                continue
            for p in self.run(f) or ():
                ss = list(sites(p))
                ps = [s for s in ss if s.ev[0] in ('push', 'ins') and core(s.ev[1])[0] == 'at' and root(core(s.ev[1]))[0] == 'var' and
                      core(s.ev[2])[0] in ('tuple', 'ctor', 'struct')]
                C.ob(bool(ps), 'C20:%s:result' % f['q'], '%s returns no encoded observation' % f['q'], f, p)
                for s in ps:
                    r = core(s.ev[1])[2]
                    tup = core(s.ev[2])
                    parts = [z for z in tup[1:] if isinstance(z, tuple)]
                    if len(parts) != 2:
                        parts = list(parts[-1]) if parts else []
                    if len(parts) != 2:
                        C.unanalysed.append('%s: %s' % (f['q'], pp(tup)[:80]))
                        continue
                    items, val = parts
                    src = val[1] if val[0] in ('f', 'get') else None
                    C.ob(src is not None and src[0] == 'at' and val[2] == 'second' and src[1][0] == 'at' and src[1][2] == r, 'C20:%s:value' % f['q'],
                         '%s does not carry over the value of the observation it encodes' % f['q'], at(s.ev), p)
                    ok = src is not None and self.encoded(items, src)
                    C.ob(ok, 'C20:%s:items' % f['q'], '%s does not encode every item of the observation in order' % f['q'], at(s.ev), p)
                    if src is not None and src[0] == 'at' and src[1][0] == 'at':
                        obs = src[1][1]
                        ks = [r, src[2]]
                        bad = list(covered(p.trace, [(lambda kk: lambda z: z == kk)(kk) for kk in ks],
                                           lambda e: e[0] == 'push' and core(e[1]) == core(s.ev[1]) and core(e[2]) == tup, lambda dec: False))
                        C.ob(not bad and over(r, obs) and over(src[2], src[1]), 'C20:%s:all' % f['q'],
                             '%s %s some observations' % (f['q'], bad[0][0] if bad else 'skips'), f, p)

    def encoded(self, items, src):
        if items[0] != 'cont' or items[1][0] not in ('empty',) or len(items[2]) != 1:
            if items[0] == 'cont' and items[1][0] in ('fill', 'sized') or items[0] == 'cont':
                ops = [o for o in items[2] if o[0] == 'each']
                if len(ops) != 1:
                    return False
                op = ops[0]
            else:
                return False
        else:
            op = items[2][0]
        if op[0] != 'each' or len(op[2]) != 1 and not all(isinstance(b, tuple) for b in op[2]):
            return False
        key = op[1]
        first = ('f', src, 'first')
        if not over(key, first):
            return False
        for b in op[2]:
            acts, how = (b[-2], b[-1]) if isinstance(b, tuple) and len(b) >= 2 else (b, '')
            if not isinstance(acts, tuple) or len(acts) != 1 or how not in ('next',):
                return False
            a = acts[0]
            v = a[-1]
            if a[0] == 'put' and a[1] != key:
                return False
            if a[0] not in ('push', 'put'):
                return False
            if not (v[0] == 'at' and v[2] == ('at', first, key)):
                return False
        return True

    # ------------------------------------------------------------ one key ---
    def single(self):
        """One model is read and written with one encoding."""
        C = self.C
        own = set()
        byk = {}
        for k, f in self.fns.items():
            enc = [i for i, x in enumerate(f['params']) if isenc(self.typ(x['t']))]
            mod = [i for i, x in enumerate(f['params']) if 'IRM' in self.typ(x['t'])]
            byk[k] = (enc, mod)
            if not enc and mod and self.calls(f, ('calculate_encoding',)):
                own.add(k)
        for k, f in self.fns.items():
            if isenc(self.typ(f['ret'])) or byk[k][0] and byk[k][1] and False:
                continue
            if not any(x in self.names(f) for x in SELF):
                continue
            run = Runner(C, CLASSES + ('cxxopts',), OPAQUE + SELF + ('load_clusters_irm',))
            for p in run(f) or ():
                used = {}
                for s in sites(p):
                    if s.ev[0] != 'call' or not isinstance(s.ev[-1], str) or s.ev[-1] not in byk:
                        continue
                    enc, mod = byk[s.ev[-1]]
                    args = s.ev[3]
                    if not mod or mod[0] >= len(args):
                        continue
                    m = core(args[mod[0]])
                    if s.ev[-1] in own:
                        used.setdefault(m, {}).setdefault('the one %s makes' % s.ev[1], s)
                    for i in enc:
                        if i < len(args):
                            used.setdefault(m, {}).setdefault(core(args[i]), s)
                            self.covers(f, s, core(args[i]), [core(a) for j, a in enumerate(args) if j != i], p)
                for m, es in used.items():
                    s = list(es.values())[-1]
                    C.ob(len(es) == 1, 'C20:%s:one encoding' % f['q'] if f['q'] != 'main' else 'C20:%s:%s:one encoding' % (f['file'], f['q']),
                         '%s reads and writes one model with two encodings: %s' % (f['q'], '; '.join(
                             (e if isinstance(e, str) else pp(e))[:80] for e in es)), at(s.ev), p)

    def covers(self, f, s, e, args, p):
        """The encoding holds the names of the observations it encodes."""
        if e[0] != 'call' or e[1] != 'calculate_encoding':
            return

        def files(x):
            return {y[3][0] for y in [x] + list(subterms(x)) if y[0] == 'call' and y[1] == 'load_observations' and y[3]}
        got = files(core(e[3][1])) if len(e[3]) > 1 else set()
        for a in args:
            if a[0] == 'call' and a[1] == 'load_observations' and got:
                self.C.ob(files(a) <= got, 'C20:%s:%s:covers' % (f['file'], f['q']),
                          '%s encodes observations of which the encoding was not made' % f['q'], at(s.ev), p)

    def names(self, f):
        from sa.place import walk
        return {(x.get('f') or {}).get('name') for x in walk(f['body']) if x.get('k') == 'call' and isinstance(x.get('f'), dict)}

    def go(self):
        self.builders()
        self.lookups()
        self.encoders()
        self.single()
        return self.C.finish()


def bottom(t):
    while isinstance(t, tuple) and t and t[0] in ('f', 'at', 'elt', 'first', 'begin', 'get') and len(t) > 1:
        t = t[1]
    return t


def one():
    from fractions import Fraction
    return Fraction(1, 1)


def addsone(t, c):
    return t[0] == 'add' and any(x == c for x in (t[1] if isinstance(t[1][0], tuple) else t[1:])) and \
        any(x == ('n', one()) for x in (t[1] if isinstance(t[1][0], tuple) else t[1:])) and len(t[1] if isinstance(t[1][0], tuple) else t[1:]) == 2


def order(p, s):
    """Position of the site's outermost loop (or of itself) on the path."""
    for i, ev in enumerate(p.trace):
        if ev is s.ev or ev[0] == 'loop' and inside(ev, s):
            return i
    return len(p.trace)


def inside(loop, s):
    for b, dec, how in loop[2]:
        if b is s.tr:
            return True
        if any(e[0] == 'loop' and inside(e, s) for e in b):
            return True
    return False


if __name__ == '__main__':
    main('C20', lambda: C20().go())
