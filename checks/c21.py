"""C21: every loaded observation enters the model exactly once, base before noisy."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.flow import Runner, sites, core, subterms, has, root, over, container, covered, at, repofns, thing, tupled, flatten, order

RULE = ('On every path of the loaders, each observation of a relation is incorporated by exactly one call with that relation, that '
        'observation\'s own items and the value parsed from its own text, inside loops over all observations; the base relation is '
        'loaded first whenever there is one; a relation already loaded is not loaded again; items of an unobserved base are collected '
        'from every item of the noisy relation before the base is loaded and sampled only where the relation holds no value; reading '
        'and merging files keeps each record once.')

CLASSES = ('Domain', 'CRP', 'Distribution', 'Emission', 'CleanRelation', 'NoisyRelation', 'Relation', 'IRM', 'HIRM', 'GenDB')
MODEL = ('encode_observations', 'incorporate_observations', 'incorporate_observations_relation', 'load_schema')
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'


class C21:
    def __init__(self):
        self.C = Check('C21', RULE, ['a relation has one base; observation records of one relation name distinct items (see C17)'],
                       min_obligations=25)
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.run = Runner(self.C, CLASSES, MODEL)

    def typ(self, t):
        return self.P.type(t)['s'].replace('const ', '')

    def find(self, name, n=None):
        r = [f for f in self.fns.values() if f['q'] == name and (n is None or len(f['params']) == n)]
        if not r:
            self.C.unanalysed.append('%s not found' % name)
        return r

    def byterm(self, f, pred):
        r = [('p', x['name']) for x in f['params'] if pred(self.typ(x['t']))]
        return r[0] if len(r) == 1 else None

    # ------------------------------------------------- one relation (util_io) ---
    def relation_loader(self):
        C = self.C
        for f in self.find('incorporate_observations_relation'):
            q = f['q']
            R = self.byterm(f, lambda s: s.rstrip(' &') == STR)
            B = self.byterm(f, lambda s: s.startswith('std::unordered_map<%s, %s,' % (STR, STR)))
            I = self.byterm(f, lambda s: s.startswith('std::unordered_map<') and 'std::unordered_set<std::vector<int' in s)
            K = self.byterm(f, lambda s: s.startswith('std::unordered_set<' + STR))
            O = self.byterm(f, lambda s: s.startswith('std::unordered_map<') and 'std::vector<std::pair<std::vector<int' in s or
                            s.startswith('std::unordered_map<') and 'std::vector<std::tuple<std::vector<int' in s)
            if None in (R, B, I, K, O):
                C.unanalysed.append('%s: parameters %s' % (q, [R, B, I, K, O]))
                continue
            base = ('at', B, R)
            isrec = lambda e: e[0] == 'call' and e[1] == q
            isinc = lambda e: e[0] == 'call' and e[1] in ('IRM::incorporate', 'HIRM::incorporate')
            known = lambda d, c: [t for a, t in d if a == c]
            for p in self.run(f) or ():
                if p.exit[0] == 'abort':
                    continue
                ss = list(sites(p))
                alt = tuple((core(a), t) for a, t in p.decisions)
                obs, nobs = (('contains', O, R), True) in alt, (('contains', O, R), False) in alt
                incs = [s for s in ss if isinc(s.ev)]
                recs = [s for s in ss if isrec(s.ev)]
                done = (('contains', K, R), True) in alt
                hasbase, nobase = (('contains', B, R), True) in alt, (('contains', B, R), False) in alt
                # base first
                if incs:
                    C.ob(hasbase or nobase, 'C21:%s:base first' % q, '%s incorporates a relation without asking for its base' % q, at(incs[0].ev), p)
                if hasbase and not done:
                    good = [s for s in recs if core(s.ev[3][1]) == base and not s.loops]
                    C.ob(len(good) >= 1 and all(order(p, g) < min([order(p, i) for i in incs], default=1 << 30) for g in good),
                         'C21:%s:base first' % q, '%s does not load the base relation before the noisy relation' % q, f, p)
                    for g in good:
                        self.same(f, g, q)
                    # the items of an unobserved base
                    if (('contains', O, base), True) not in alt:
                        tgt = ('at', I, base)
                        pred = lambda e: e[0] in ('ins', 'push') and core(e[1]) == tgt and self.baseitems(core(e[2]), ('at', I, R))
                        bad = list(covered(p.trace, [lambda z: over(z, ('at', I, R))], pred, lambda d: False))
                        C.ob(not bad, 'C21:%s:base items' % q, '%s %s over items of a noisy relation when it collects those of its base' % (
                            q, bad[0][0] if bad else ''), f, p)
                        w = [s for s in ss if pred(s.ev)]
                        C.ob(all(order(p, s) < min([order(p, g) for g in good], default=1 << 30) for s in w), 'C21:%s:items first' % q,
                             '%s loads the base before it knows the base\'s items' % q, f, p)
                if not hasbase:
                    C.ob(not recs, 'C21:%s:no base' % q, '%s loads another relation where there is no base' % q, f, p)
                if obs:
                    if done:
                        C.ob(not incs, 'C21:%s:once' % q, '%s incorporates the observations of a relation that is already loaded' % q, f, p)
                        continue
                    C.ob((('contains', K, R), False) in alt or self.guarded(f, q, K, p), 'C21:%s:once' % q,
                         '%s may incorporate the observations of a relation again' % q, f, p)
                    L = ('at', O, R)
                    pred = lambda e: isinc(e) and core(e[3][1]) == R and self.record(core(e[3][2]), core(e[3][3]), L)
                    for s in incs:
                        C.ob(pred(s.ev), 'C21:%s:own values' % q, '%s incorporates an observation that is not the record at hand' % q, at(s.ev), p)
                    bad = list(covered(p.trace, [lambda z: over(z, L)], pred, lambda d: False))
                    C.ob(not bad, 'C21:%s:every observation' % q, '%s %s over observations' % (q, bad[0][0] if bad else ''), f, p)
                    self.owndomain(f, q, incs, p)
                elif nobs:
                    L = ('at', I, R)
                    pred = lambda e: isinc(e) and core(e[3][1]) == R and over(core(e[3][2]), L) and self.sampled(core(e[3][3]), core(e[3][2]))
                    held = lambda d: any(t and self.isheld(c, L) for c, t in d)
                    for s in incs:
                        C.ob(pred(s.ev), 'C21:%s:sampled value' % q, '%s gives a latent value that is not sampled for the item' % q, at(s.ev), p)
                        C.ob(any(not t and self.isheld(c, L) for c, t in s.conds), 'C21:%s:reused' % q,
                             '%s samples a latent value for items that may have one' % q, at(s.ev), p)
                    if not L_absent(alt, I, R):
                        bad = list(covered(p.trace, [lambda z: over(z, L)], pred, held))
                        C.ob(not bad, 'C21:%s:every latent' % q, '%s %s over items that need a latent value' % (q, bad[0][0] if bad else ''), f, p)
                else:
                    C.ob(not incs and not done, 'C21:%s:kind' % q, '%s does not ask whether the relation is observed' % q, f, p)
                    continue
                mark = [s for s in ss if s.ev[0] == 'ins' and core(s.ev[1]) == K]
                C.ob(any(core(s.ev[2]) == R and not s.loops for s in mark) and all(core(s.ev[2]) == R for s in mark) or not obs and not mark,
                     'C21:%s:mark' % q, '%s does not record that the relation is loaded' % q, f, p)

    def same(self, f, g, q):
        """The recursive call passes on the caller's own tables."""
        for x, a in zip(f['params'], g.ev[3]):
            if x['name'] and self.typ(x['t']).rstrip(' &') != STR:
                self.C.ob(root(core(a)) == ('p', x['name']), 'C21:%s:tables' % q, '%s loads the base from other tables' % q, at(g.ev))

    def guarded(self, f, q, K, p):
        """Every call of the function is made only for relations not yet loaded."""
        n = 0
        for k, g in self.fns.items():
            for pp_ in (self.run(g) or ()) if self.calls(g, q) else ():
                for s in sites(pp_):
                    if s.ev[0] == 'call' and s.ev[1] == q:
                        n += 1
                        if not any(c[0] == 'contains' and c[2] == core(s.ev[3][1]) and not t for c, t in s.conds):
                            return False
        return n > 0

    def calls(self, f, name):
        from sa.place import walk
        return any(x.get('k') == 'call' and (x.get('f') or {}).get('name') == name for x in walk(f['body']))

    @staticmethod
    def baseitems(v, items):
        return v[0] == 'call' and v[1] == 'NoisyRelation::get_base_items' and any(over(core(a), items) or a[0] == 'at' and a[1] == items and over(a[2], items)
                                                                              for a in flatten(v[3] if len(v) > 3 else v[2:]))

    @staticmethod
    def record(items, val, L):
        if items[0] != 'f' or items[2] != 'first' or items[1][0] != 'at' or items[1][1] != L or not over(items[1][2], L):
            return False
        txt = ('f', items[1], 'second')
        return val[0] == 'call' and val[1].endswith('::from_string') and any(x == txt for x in flatten(val[2:]))

    @staticmethod
    def sampled(v, k):
        return v[0] == 'call' and v[1].endswith('::sample_at_items') and any(x == k for x in flatten(v[2:]))

    @staticmethod
    def isheld(c, L):
        return c[0] == 'contains' and over(c[2], L) and any(x[0] == 'call' and x[1].endswith('::get_data') for x in subterms(c[1]))

    def owndomain(self, f, q, incs, p):
        """The text is parsed by the relation it belongs to."""
        for s in incs:
            for x in subterms(core(s.ev[3][3])):
                if x[0] == 'call' and x[1].endswith('::get_relation'):
                    a = flatten(x[2:])
                    self.C.ob(core(s.ev[3][1]) in a, 'C21:%s:own type' % q, '%s parses a value with another relation\'s type' % q, at(s.ev), p)

    # ---------------------------------------------------- all relations ---
    def loader(self):
        C = self.C
        for f in self.find('incorporate_observations', 4):
            m = self.byterm(f, lambda s: s.startswith('std::variant<'))
            if m is None:
                continue
            q = f['q']
            for p in self.run(f) or ():
                if p.exit[0] == 'abort':
                    continue
                ss = list(sites(p))
                enc = {core(s.ev) for s in ()}
                calls = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'incorporate_observations_relation']
                C.ob(bool(calls), 'C21:%s:loads' % q, '%s loads no relation' % q, f, p)
                for s in calls:
                    a = [core(x) for x in s.ev[3]]
                    C.ob(len(s.loops) == 1 and a[1] == s.loops[0] and a[1][0] == 'key' and self.encoded(a[1][-1]) and a[3] == a[1][-1] and a[2] == m,
                         'C21:%s:relation' % q, '%s loads a relation from other observations' % q, at(s.ev), p)
                    E = a[3]
                    skip = lambda d: any(t and c[0] == 'contains' and c[2] == a[1] and c[1] != E for c, t in d)
                    bad = list(covered(p.trace, [lambda z: over(z, E)], lambda e: e[0] == 'call' and e[1] == s.ev[1], skip))
                    C.ob(not bad, 'C21:%s:every relation' % q, '%s %s over observed relations' % (q, bad[0][0] if bad else ''), f, p)
                    # which table says what is loaded: it starts empty, and only the loader writes it
                    for c, t in s.conds:
                        if c[0] == 'contains' and c[2] == a[1]:
                            own = [z for z in ss if z.ev[0] in ('ins', 'put', 'push') and core(z.ev[1]) == c[1]]
                            C.ob(not t and c[1] != E and not own, 'C21:%s:loaded' % q, '%s skips relations that are not loaded' % q, at(s.ev), p)
                    b2n = None
                    for x in subterms(a[4]):
                        if x[0] == 'f' and x[2] == 'base_to_noisy_relations':
                            b2n = x
                    C.ob(b2n is not None and b2n[1] == m or a[4][0] == 'var', 'C21:%s:bases' % q, '%s does not say which relations have a base' % q, at(s.ev), p)
                b2n = ('f', m, 'base_to_noisy_relations')
                puts = [s for s in ss if s.ev[0] in ('put', 'ins') and len(s.ev) >= 5 and core(s.ev[2])[0] == 'at' and core(s.ev[2])[1][:1] == ('at',) and core(s.ev[2])[1][1] == b2n]
                C.ob(bool(puts), 'C21:%s:bases' % q, '%s does not say which relations have a base' % q, f, p)
                for s in puts:
                    b = core(s.ev[2])[1][2]
                    pred = lambda e: e[0] == s.ev[0] and len(e) >= 5 and core(e[1]) == core(s.ev[1]) and core(e[2]) == core(s.ev[2])
                    C.ob(core(s.ev[3]) == b, 'C21:%s:own base' % q, '%s records another base' % q, at(s.ev), p)
                    bad = list(covered(p.trace, [lambda z: over(z, b2n), lambda z: over(z, ('at', b2n, b))], pred, lambda d: False))
                    C.ob(not bad, 'C21:%s:every base' % q, '%s %s over noisy relations' % (q, bad[0][0] if bad else ''), f, p)
                    C.ob(all(order(p, s) < order(p, c) for c in calls), 'C21:%s:bases first' % q, '%s loads relations before it knows their bases' % q, at(s.ev), p)
                its = [s for s in ss if s.ev[0] == 'ins' and core(s.ev[1])[0] == 'at' and core(s.ev[2])[0] == 'f' and core(s.ev[2])[2] == 'first']
                C.ob(bool(its), 'C21:%s:items' % q, '%s collects no items' % q, f, p)
                for s in its:
                    v = core(s.ev[2])
                    r = core(s.ev[1])[2]
                    src = v[1]
                    E = src[1][1] if src[0] == 'at' and src[1][0] == 'at' else None
                    ok = E is not None and self.encoded(E) and src[1][2] == r
                    C.ob(ok, 'C21:%s:own items' % q, '%s lists the items of one relation under another' % q, at(s.ev), p)
                    if ok:
                        bad = list(covered(p.trace, [lambda z: over(z, E), lambda z: over(z, ('at', E, r))],
                                           lambda e: e[0] == 'ins' and core(e[1]) == core(s.ev[1]) and core(e[2]) == v, lambda d: False))
                        C.ob(not bad, 'C21:%s:every item' % q, '%s %s over observations when it lists their items' % (q, bad[0][0] if bad else ''), f, p)
                        C.ob(all(order(p, s) < order(p, c) for c in calls), 'C21:%s:items first' % q, '%s loads relations before it knows their items' % q, at(s.ev), p)

    @staticmethod
    def encoded(t):
        return t[0] == 'call' and t[1] == 'encode_observations'

    # ------------------------------------------------------------- database ---
    def database(self):
        C = self.C
        run = Runner(C, CLASSES, MODEL, keep=('GenDB::incorporate',))
        for f in self.find('GenDB::incorporate'):
            q = f['q']
            row = [('p', x['name']) for x in f['params'] if 'pair<int' in self.typ(x['t'])]
            if len(row) != 1:
                C.unanalysed.append('%s: row' % q)
                continue
            vals = ('f', row[0], 'second')
            isq = lambda e: e[0] == 'call' and e[1] == 'GenDB::incorporate_query_relation'
            for p in run(f) or ():
                ss = [s for s in sites(p) if isq(s.ev)]
                for s in ss:
                    a = [core(x) for x in s.ev[3]]
                    C.ob(over(a[1], vals) and a[3] == ('at', vals, a[1]), 'C21:%s:own value' % q, '%s gives a field another field\'s value' % q, at(s.ev), p)
                    used = [x for x in subterms(a[2])]
                    C.ob(a[1] in used and ('f', row[0], 'first') in used, 'C21:%s:own items' % q,
                         '%s does not take the items from the row and field at hand' % q, at(s.ev), p)
                bad = list(covered(p.trace, [lambda z: over(z, vals)], isq, lambda d: False))
                C.ob(not bad, 'C21:%s:every field' % q, '%s %s over fields of the row' % (q, bad[0][0] if bad else ''), f, p)
        run = Runner(C, CLASSES, MODEL, keep=('GenDB::incorporate_query_relation',))
        for f in self.find('GenDB::incorporate_query_relation'):
            q = f['q']
            N, T, V = [('p', x['name']) for x in f['params'][1:4]]
            for p in run(f) or ():
                ss = list(sites(p))
                inc = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'HIRM::incorporate']
                C.ob(len(inc) == 1 and not inc[0].loops, 'C21:%s:once' % q, '%s does not incorporate the value exactly once' % q, f, p)
                for s in inc:
                    a = [core(x) for x in s.ev[3]]
                    C.ob(a[1:] == [N, T, V], 'C21:%s:unchanged' % q, '%s changes what it incorporates' % q, at(s.ev), p)
                self.base_sampled(q, p, ss, inc[:1], N, T)
        run = Runner(C, CLASSES, MODEL, keep=('GenDB::sample_and_incorporate_for_class',))
        for f in self.find('GenDB::sample_and_incorporate_for_class'):
            q = f['q']
            cls, item = [('p', x['name']) for x in f['params'][1:3]]
            rels = ('at', ('f', ('this',), 'class_to_relations'), cls)
            iss = lambda e: e[0] == 'call' and e[1] in ('HIRM::sample_and_incorporate_relation', 'HIRM::incorporate')
            for p in run(f) or ():
                ss = list(sites(p))
                inc = [s for s in ss if iss(s.ev)]
                C.ob(bool(inc), 'C21:%s:samples' % q, '%s creates no value' % q, f, p)
                its = {}
                for s in inc:
                    a = [core(x) for x in s.ev[3]]
                    r = a[1]
                    C.ob(r[0] == 'at' and r[1] == rels and over(r[2], rels) or over(r, rels), 'C21:%s:own relation' % q,
                         '%s creates a value for another relation' % q, at(s.ev), p)
                    isd = lambda c: c[0] == 'contains' and c[2] == a[2] and any(
                        x[0] == 'call' and x[1].endswith('::get_data') for x in subterms(c[1])) and any(
                            x[0] == 'call' and x[1] == 'HIRM::get_relation' and r in flatten(x[2:]) for x in subterms(c[1]))
                    C.ob(any(isd(c) and not t for c, t in s.conds), 'C21:%s:reused' % q,
                         '%s samples a value for items that may have one' % q, at(s.ev), p)
                    C.ob(has(a[2], item) and has(a[2], r), 'C21:%s:own items' % q, '%s creates a value at items that are not those of the entity' % q, at(s.ev), p)
                    bad = list(covered(p.trace, [lambda z: over(z, rels)], iss, lambda d: any(isd(c) and t for c, t in d)))
                    C.ob(not bad, 'C21:%s:every relation' % q, '%s %s over relations of the class' % (q, bad[0][0] if bad else ''), f, p)
                    # HIRM::sample_and_incorporate_relation sees to the base itself (below)
                    C.ob(s.ev[1] == 'HIRM::sample_and_incorporate_relation' or any(
                        e[0] == 'call' and e[1] == q and self.isbase(core(e[3][1]), core(e[3][2]), r, a[2]) for e in s.before),
                         'C21:%s:base first' % q, '%s samples a noisy value before its base exists' % q, at(s.ev), p)
        run = Runner(C, CLASSES, MODEL, keep=('HIRM::sample_and_incorporate_relation',))
        for f in self.find('HIRM::sample_and_incorporate_relation'):
            q = f['q']
            R, T = [('p', x['name']) for x in f['params'][1:3]]
            for p in run(f) or ():
                ss = list(sites(p))
                alt = tuple((core(a), t) for a, t in p.decisions)
                mk = [s for s in ss if s.ev[0] == 'call' and s.ev[1].endswith('::sample_and_incorporate')]
                C.ob(len(mk) == 1 and not mk[0].loops and T in [core(x) for x in mk[0].ev[3]], 'C21:%s:once' % q,
                     '%s does not create exactly one value at the items' % q, f, p)
                noisy = [t for c, t in alt if c[0] == 'altp' and c[1] == 'T_noisy_relation']
                rec = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == q]
                if True in noisy:
                    held = [t for c, t in alt if c[0] == 'contains' and any(x[0] == 'f' and x[2] == 'base_relation' for x in subterms(c[1])) and
                            c[2][0] == 'call' and c[2][1] == 'NoisyRelation::get_base_items' and T in flatten(c[2][2:])]
                    C.ob(bool(held), 'C21:%s:base held' % q, '%s does not ask whether the base value exists' % q, f, p)
                    if False in held:
                        good = [s for s in rec if core(s.ev[3][1])[0] == 'f' and core(s.ev[3][1])[2] == 'base_relation' and
                                has(core(s.ev[3][2]), T) and any(order(p, s) < order(p, m) for m in mk)]
                        C.ob(len(good) == 1, 'C21:%s:base first' % q, '%s creates a noisy value before its base value' % q, f, p)
                    elif True in held:
                        C.ob(not rec, 'C21:%s:base once' % q, '%s creates a base value that exists' % q, f, p)
                else:
                    C.ob(not rec, 'C21:%s:no base' % q, '%s creates a value of another relation' % q, f, p)

    def base_sampled(self, q, p, ss, inc, N, T):
        C = self.C
        alt = tuple((core(a), t) for a, t in p.decisions)
        noisy = [t for c, t in alt if c[0] == 'altp' and c[1] == 'T_noisy_relation' and has(c, N)]
        rec = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'GenDB::sample_and_incorporate_for_class']
        mk = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'HIRM::sample_and_incorporate_relation']
        C.ob(bool(noisy), 'C21:%s:kind' % q, '%s does not ask whether the relation has a base' % q, None, p)
        isrel = lambda t: any(x[0] == 'f' and x[2] == 'base_relation' and has(x, N) for x in subterms(t))
        held = lambda c: c[0] == 'contains' and self.isitems(c[2], T) and isrel(c[1]) and any(
            x[0] == 'call' and x[1].endswith('::get_data') for x in subterms(c[1]))
        for s in mk:
            ok = isrel(core(s.ev[3][1])) and self.isitems(core(s.ev[3][2]), T)
            C.ob(ok, 'C21:%s:other base' % q, '%s samples a value that is not the base of the observed one' % q, at(s.ev), p)
            C.ob(any(held(c) and not t for c, t in s.conds), 'C21:%s:base once' % q, '%s samples a base value that may exist' % q, at(s.ev), p)
        if True in noisy:
            good = [s for s in rec if self.isbase(core(s.ev[3][1]), core(s.ev[3][2]), N, T)] + [s for s in mk if not s.loops]
            C.ob((any(held(c) and t for c, t in alt) or bool(good)) and all(order(p, g) < order(p, i) for g in good for i in inc),
                 'C21:%s:base first' % q, '%s incorporates a noisy value before its base exists' % q, at(inc[0].ev) if inc else None, p)

    @staticmethod
    def isitems(t, T):
        return t[0] == 'call' and t[1] == 'NoisyRelation::get_base_items' and T in flatten(t[2:])

    @staticmethod
    def isbase(dom, it, N, T):
        """The base relation's last domain, and the last of the base items."""
        d = last(dom)
        i = last(it)
        return d is not None and d[0] == 'f' and d[2] == 'domains' and any(
            x[0] == 'f' and x[2] == 'base_relation' and has(x, N) for x in subterms(d)) and \
            i is not None and i[0] == 'call' and i[1] == 'NoisyRelation::get_base_items' and T in flatten(i[2:])

    # ---------------------------------------------------------------- files ---
    def files(self):
        C = self.C
        for f in self.find('load_observations'):
            q = f['q']
            for p in self.run(f) or ():
                if p.exit[0] == 'abort':
                    continue
                lines = [e for e in p.trace if e[0] == 'loop' and any(self.getline(x) and len(x[3]) == 2 for b in e[2] for x in b[0])]
                C.ob(len(lines) == 1, 'C21:%s:lines' % q, '%s does not read all lines in one loop' % q, f, p)
                for e in lines:
                    for b, dec, how in e[2]:
                        if how not in ('next', 'continue'):
                            # the loop ends only where there is no further line
                            g = [x for x in b if self.getline(x)]
                            C.ob(len(g) == 1 and any(x[0] == 'br' and has(core(x[1]), core(('call',) + x[1:1])) or x[0] in ('br', 'loopcond') and x[-2 if x[0] == 'br' else 1] is False
                                                     for x in b), 'C21:%s:stops' % q, '%s stops before the last line' % q, e[3] if len(e) > 3 else f, p)
                            continue
                        ps = [x for x in b if x[0] in ('push', 'ins') and core(x[1])[0] == 'at']
                        # sets of what was seen are no records
                        ps = [x for x in ps if x[0] == 'push'] or ps
                        gl = [x for x in b if self.getline(x)]
                        blank = any(x[0] == 'br' and x[2] is True and core(x[1])[0] == 'empty' for x in b)
                        if blank and not ps:
                            continue
                        C.ob(len(ps) == 1, 'C21:%s:one record' % q, '%s does not make one record of a line' % q, at(ps[1]) if len(ps) > 1 else f, p)
                        if len(ps) != 1 or len(gl) < 3:
                            continue
                        v = core(ps[0][2])
                        parts = tupled(v)
                        out = [core(('out', 'std::getline', 1, x[3])) for x in gl]
                        C.ob(len(parts) == 2 and parts[1] == out[1] or self.isout(parts, 1, gl[1]), 'C21:%s:value' % q,
                             '%s does not take the value from the first column' % q, at(ps[0]), p)
                        C.ob(self.isout([None, core(ps[0][1])[2]], 1, gl[2]), 'C21:%s:relation' % q,
                             '%s does not take the relation from the second column' % q, at(ps[0]), p)
                        C.ob(len(parts) == 2 and self.allitems(parts[0]), 'C21:%s:items' % q,
                             '%s does not take every further column as an item, in order' % q, at(ps[0]), p)
        for f in self.find('merge_observations'):
            q = f['q']
            for p in self.run(f) or ():
                ss = list(sites(p))
                for x in f['params']:
                    S = ('p', x['name'])
                    pred = lambda e: e[0] in ('put', 'vinsert', 'push', 'ins', 'vappend') and any(
                        t[0] == 'at' and t[1] == S for y in e[1:] if isinstance(y, tuple) for t in subterms(core(y)))
                    if p.store is not None and core(p.exit[1]) == S:
                        continue
                    ok = any(has(core(p.exit[1]), S) for _ in (1,)) and p.exit[0] == 'ret'
                    starts = any(z[0] == 'cont' and z[1] == S or z == ('ctor', S) for z in subterms(core(p.exit[1])))
                    bad = [] if starts else list(covered(p.trace, [lambda z: over(z, S)], pred, lambda d: False))
                    if bad and bad[0][0] == 'repeats':
                        each = lambda e: e[0] == 'push' and core(e[1])[0] == 'at' and core(e[2])[0] == 'at' and \
                            core(e[2])[1] == ('at', S, core(e[1])[2]) and over(core(e[2])[2], core(e[2])[1])
                        bad = list(covered(p.trace, [lambda z: over(z, S), lambda z: container(z) is not None and container(z)[0] == 'at' and
                                                     container(z)[1] == S and over(z, container(z))], each, lambda d: False))
                    C.ob(ok and not bad, 'C21:%s:all of %s' % (q, x['name']), '%s %s over relations of one of the two files' % (
                        q, bad[0][0] if bad else 'skips'), f, p)
                for s in ss:
                    if s.ev[0] == 'put':
                        # nothing recorded before is overwritten
                        key = core(s.ev[2])
                        earlier = [z for z in ss if z is not s and z.ev[0] in ('put', 'vinsert') and order(p, z) < order(p, s)]
                        C.ob(not earlier or any(c[0] == 'contains' and c[2] == key and not t for c, t in s.conds), 'C21:%s:keeps' % q,
                             '%s overwrites the records of a relation that is in both files' % q, at(s.ev), p)
                    if s.ev[0] == 'vinsert':
                        a = [core(x) for x in s.ev[1:-1]]
                        tgt, b, e = a[0], a[-2], a[-1]
                        ok = b[0] in ('begin', 'iter') and e[0] == 'end' and b[1] == e[1] and b[1][0] == 'at' and tgt[0] == 'at' and tgt[2] == b[1][2] and \
                            (b[0] == 'begin' or zero(b[2]))
                        C.ob(ok, 'C21:%s:range' % q, '%s adds part of a relation\'s records, or adds them to another relation' % q, at(s.ev), p)
        for f in self.find('logp', 4):
            q = f['q']
            for p in self.run(f) or ():
                calls = [s for s in sites(p) if s.ev[0] == 'call' and s.ev[1] in ('IRM::logp', 'HIRM::logp')]
                C.ob(len(calls) == 1, 'C21:%s:one score' % q, '%s does not score the held-out observations in one call' % q, f, p)
                ps = [s for s in sites(p) if s.ev[0] in ('push', 'ins') and root(core(s.ev[1]))[0] == 'var']
                C.ob(bool(ps), 'C21:%s:scores' % q, '%s scores no observation' % q, f, p)
                for s in ps:
                    v = core(s.ev[2])
                    parts = tupled(v)
                    if len(parts) != 3:
                        C.unanalysed.append('%s: %s' % (q, pp(v)[:80]))
                        continue
                    r, items, val = parts
                    E = r[-1] if r[0] == 'key' else None
                    L = ('at', E, r)

                    def good(e):
                        t = tupled(core(e[2]))
                        return e[0] == s.ev[0] and core(e[1]) == core(s.ev[1]) and len(t) == 3 and t[0] == r and self.record(t[1], t[2], L)
                    ok = E is not None and self.encoded(E) and good(s.ev)
                    C.ob(ok, 'C21:%s:own values' % q, '%s scores an observation that is not the record at hand' % q, at(s.ev), p)
                    if ok:
                        bad = list(covered(p.trace, [lambda z: over(z, E), lambda z: over(z, L)],
                                           lambda e: e[0] == s.ev[0] and good(e), lambda d: False))
                        C.ob(not bad, 'C21:%s:every observation' % q, '%s %s over observations' % (q, bad[0][0] if bad else ''), f, p)

    @staticmethod
    def getline(e):
        return e[0] == 'call' and e[1] == 'std::getline'

    @staticmethod
    def isout(parts, i, gl):
        if len(parts) <= i or parts[i] is None:
            return False
        t = parts[i]
        return t[0] == 'out' and t[1] == 'std::getline' and t[2] == 1 and core(tuple(gl[3])) == core(tuple(t[3]))

    @staticmethod
    def allitems(t):
        if t[0] != 'cont' or t[1] != ('empty',) or len(t[2]) != 1 or t[2][0][0] != 'each':
            return False
        for b in t[2][0][2]:
            acts, how = b[-2], b[-1]
            if how == 'break':
                if acts:
                    return False
                continue
            if len(acts) != 1 or acts[0][0] != 'push' or acts[0][-1][0] != 'out' or acts[0][-1][1] != 'std::getline' or how not in ('next', 'continue'):
                return False
        return True

    # ---------------------------------------------------------------- mains ---
    def programs(self):
        C = self.C
        LOAD = ('incorporate_observations', 'from_txt')
        for k, f in self.fns.items():
            if f['name'] != 'main' or not any(self.calls(f, n) for n in LOAD):
                continue
            run = Runner(C, CLASSES + ('cxxopts', 'PCleanSchemaHelper', 'DataFrame'), MODEL + (
                'from_txt', 'to_txt', 'logp', 'calculate_encoding', 'merge_observations', 'load_observations', 'inference_irm',
                'inference_hirm', 'inference_gendb', 'make_dummy_encoding_from_gendb', 'make_pclean_samples', 'read_schema_file', 'write_observations'))
            n = 0
            for p in run(f) or ():
                if p.exit[0] == 'abort':
                    continue
                per = {}
                inf = [s for s in sites(p) if s.ev[0] == 'call' and s.ev[1].startswith('inference_')]
                for s in sites(p):
                    if s.ev[0] == 'call' and s.ev[1] in LOAD:
                        n += 1
                        per.setdefault(thing(core(s.ev[3][1])), []).append(s)
                        C.ob(not s.loops, 'C21:%s:main:once' % f['file'], 'the program loads its observations in a loop', at(s.ev), p)
                for s in inf:
                    models = {thing(core(a)) for a in s.ev[3]}
                    ld = [x for m in models for x in per.get(m, ())]
                    early = [x for x in ld if order(p, x) < order(p, s)]
                    C.ob(len(early) == 1, 'C21:%s:main:once' % f['file'], 'the program does not load the observations exactly once before inference', at(s.ev), p)
                    late = [x for x in ld if x not in early]
                    for x in late:
                        a = [core(y) for y in x.ev[3]]
                        b = [core(y) for y in early[0].ev[3]] if early else []
                        C.ob(a[2:3] != b[2:3], 'C21:%s:main:twice' % f['file'], 'the program loads the same observations again', at(x.ev), p)
                        C.ob(len(a) > 3 and a[3] not in (('n', 0),) and a[3] != (b[3] if len(b) > 3 else None), 'C21:%s:main:own rows' % f['file'],
                             'the program loads further rows under row numbers already used', at(x.ev), p)
                for s in sites(p):
                    if s.ev[0] != 'call' or s.ev[1] != 'make_pclean_samples' or len(s.ev[3]) < 2:
                        continue
                    a = core(s.ev[3][1])
                    g = {thing(core(x)) for x in s.ev[3]}
                    for m in g:
                        for x in per.get(m, ()):
                            df = core(x.ev[3][2]) if len(x.ev[3]) > 2 else None
                            if order(p, x) > order(p, s) or df is None or df[0] != 'call':
                                continue
                            sizes = [y for y in [a] + list(subterms(a)) if y[0] == 'size' and any(z == df for z in subterms(y))]
                            if not sizes and a[0] not in ('n', 'size', 'add'):
                                continue
                            C.ob(bool(sizes), 'C21:%s:main:new rows' % f['file'],
                                 'the program samples rows under row numbers already used', at(s.ev), p)
            C.ob(n > 0, 'C21:%s:main:loads' % f['file'], 'the program loads no observations', f)

    def go(self):
        self.relation_loader()
        self.loader()
        self.database()
        self.files()
        self.programs()
        return self.C.finish()


def zero(t):
    return t == 0 or isinstance(t, tuple) and t[0] == 'n' and t[1] == 0


def L_absent(alt, I, R):
    return (('contains', I, R), False) in alt


def last(t):
    """The container a term is the last element of."""
    if t[0] == 'at' and len(t) == 3:
        i = t[2]
        if i == ('last',) or i[0] == 'last' and len(i) == 1:
            return t[1]
        if i[0] == 'add' and has(i, ('size', t[1])) and len(list(i[1] if isinstance(i[1][0], tuple) else i[1:])) == 2 and \
                any(x[0] == 'n' and x[1] == -1 for x in (i[1] if isinstance(i[1][0], tuple) else i[1:])):
            return t[1]
    if t[0] == 'back':
        return t[1]
    return None


if __name__ == '__main__':
    main('C21', lambda: C21().go())
