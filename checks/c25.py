"""C25: each sweep of inference updates every part of the model."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.flow import Runner, sites, core, subterms, has, root, over, container, covered, at, repofns, flat, flatten, thing
from sa.place import walk

RULE = ('Interpreting each step of inference with its update moves opaque: every round makes, exactly once for each element of the part\'s '
        'container and for that element, the move of that part - latent values of every relation that is not observed, the cluster of '
        'every relation, every view, the cluster of every entity of every domain, the parameters of every cluster of every relation, '
        'every partition\'s concentration, every reference of the record class and its ancestors - and stops early only on the timeout.')

MOVES = ('single_step_irm_inference', 'inference_hirm', 'inference_irm', 'transition_latent_value', 'transition_latent_values_relation',
         'transition_cluster_assignment_relation', 'transition_cluster_assignment_item', 'transition_cluster_hparams',
         'transition_hyperparameters', 'transition_theta', 'transition_alpha', 'transition_reference',
         'transition_reference_class_and_ancestors', 'logp_score', 'set_alpha')


class C25:
    def __init__(self):
        self.C = Check('C25', RULE, ['what a single move does is C05, C06, C10, C23, C32',
                                     'traversals that are not invalidated by the moves: C31'], min_obligations=20)
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.cache = {}
        self.reach()

    def reach(self):
        """Functions that perform, directly or not, an update move."""
        calls = {}
        for k, f in self.fns.items():
            s = calls.setdefault(k, set())
            for x in walk(f['body']):
                if x.get('k') in ('call', 'mcall', 'ctor') or x.get('f'):
                    g = x.get('f') or {}
                    if isinstance(g, dict) and g.get('name'):
                        s.add((g.get('key'), g['name']))
        self.moves = {k for k, s in calls.items() if any(n in MOVES for _, n in s)}
        while True:
            more = {k for k, s in calls.items() if k not in self.moves and any(g in self.moves for g, _ in s)}
            if not more:
                break
            self.moves |= more

    def run(self, f):
        if f['key'] not in self.cache:
            def opaque(g):
                if g.get('key') == f['key']:
                    return False
                if g.get('name') in MOVES:
                    return True
                if g.get('q', '').startswith('std::'):
                    return False
                h = self.P.fns.get(g.get('key'))
                if h is None or g.get('name') == f['name']:
                    return True
                if '::' not in h['q'] and h['file'] == f['file'] and g['key'] not in self.moves:
                    return False    # a helper of this file
                return g.get('key') in self.fns and g['key'] not in self.moves
            ps = self.C.try_run(f, opaque=opaque)
            self.cache[f['key']] = None if ps is None else [p for p in ps if not p.aborted and p.exit[0] != 'abort']
        return self.cache[f['key']] or []

    def find(self, name, n):
        r = [f for f in self.fns.values() if f['q'] == name]
        if not r:
            self.C.unanalysed.append('%s not found' % name)
        ok = [f for f in r if len(f['params']) == n]
        if r and not ok:
            self.C.unanalysed.append('%s: other parameters' % name)
        return ok

    @staticmethod
    def pars(f):
        return [('p', x['name']) for x in f['params']]

    def each(self, f, label, chain, pred, excuse=lambda d: False, stop=lambda d: False, what=''):
        """The move is made once for each element, on every path."""
        C, q = self.C, f['q']
        for p in self.run(f):
            dec = tuple((core(a), t) for a, t in p.decisions)
            bad = list(covered(p.trace, chain, pred, excuse, dec, ('next', 'continue'), stop))
            if bad and bad[0][0] == 'skips' and any(e[0] == 'loop' and core(e[1])[0] == 'while' for e in self.loops(p.trace)):
                C.unanalysed.append('%s: %s: a loop without a known range' % (q, label))
                continue
            C.ob(not bad, 'C25:%s:%s' % (q, label), '%s %s: %s' % (q, bad[0][0] if bad else '', what or label), bad[0][1] or f if bad else f, p)

    @staticmethod
    def loops(tr):
        for e in tr:
            if e[0] == 'loop':
                yield e
                for b in e[2]:
                    yield from C25.loops(b[0])

    # ------------------------------------------------------------- rounds ---
    @staticmethod
    def timeout(T):
        def stop(d):
            on = any(c == T and t or (c[0] == 'lt' and c[1] == ('n', 0) and c[-1] == T or c[0] == 'ne' and T in c[1:] and ('n', 0) in c[1:]) and t or c[0] == 'eq' and T in c[1:] and not t
                     for c, t in d)
            passed = any(c[0] in ('lt', 'le') and (c[1] == T and t or c[-1] == T and not t) for c, t in d)
            return on and passed
        return stop

    @staticmethod
    def rounds(n):
        def ok(z):
            if z[0] != 'idx':
                return False
            r = z[-1]
            if r[0] == 'range' and r[1][0] == 'n' and r[2][0] == 'add':
                ts = list(r[2][1] if isinstance(r[2][1][0], tuple) else r[2][1:])
                return sorted(map(repr, ts)) == sorted(map(repr, [n, r[1]]))
            return r == n
        return ok

    def inference(self):
        for f in self.find('inference_irm', 5):
            prng, m, it, T, v = self.pars(f)
            pred = self.step(prng, m, True, f)
            self.each(f, 'round', [self.rounds(it)], pred, stop=self.timeout(T), what='the sweep over the model')
        for f in self.find('inference_hirm', 5):
            prng, m, it, T, v = self.pars(f)
            R, stop = self.rounds(it), self.timeout(T)
            self.latents(f, m, prng, 'HIRM', [R], stop)
            K = ('f', m, 'relation_to_code')
            alike = [K, ('f', m, 'schema')]
            pred = lambda e: e[0] == 'call' and e[1] == 'HIRM::transition_cluster_assignment_relation' and core(e[2]) == m and \
                container(core(e[3][1])) in alike
            self.each(f, 'relations', [R, lambda z: container(z) in alike], pred, stop=stop, what='the cluster of every relation')
            I = ('f', m, 'irms')
            pred = self.step(prng, None, False, f)
            view = lambda e: pred(e) and core(e[3][1])[0] == 'at' and core(e[3][1])[1] == I and over(core(e[3][1])[2], I)
            self.each(f, 'views', [R, lambda z: over(z, I)], view, stop=stop, what='every view')
        for f in self.find('inference_gendb', 6):
            prng, m, it, hit, T, v = self.pars(f)
            R, stop = self.rounds(it), self.timeout(T)
            pred = lambda e: e[0] == 'call' and e[1] == 'inference_hirm' and core(e[3][1]) == ('f', m, 'hirm') and core(e[3][2]) == hit and \
                core(e[3][3]) == T
            self.each(f, 'hirm', [R], pred, stop=stop, what='the hierarchical model')
            rc = ('f', ('f', ('f', m, 'schema'), 'query'), 'record_class')
            pred = lambda e: e[0] == 'call' and e[1] == 'GenDB::transition_reference_class_and_ancestors' and core(e[2]) == m and core(e[3][1]) == rc
            self.each(f, 'references', [R], pred, stop=stop, what='the references of the record class')

    def step(self, prng, m, latents, f):
        C = self.C

        def pred(e):
            if e[0] != 'call' or e[1] != 'single_step_irm_inference' or m is not None and core(e[3][1]) != m or len(e[3]) < 6:
                return False
            a = [core(x) for x in e[3]]
            C.ob(a[5] == ('b', latents), 'C25:%s:latents once' % f['q'],
                 '%s %s' % (f['q'], 'does not ask for latent values' if latents else 'asks a view for latent values it sees only part of'), at(e))
            C.ob(not (a[4][0] == 'n' and a[4][1] < 1), 'C25:%s:theta steps' % f['q'], '%s asks for no parameter move' % f['q'], at(e))
            return True
        return pred

    def latents(self, f, m, prng, cls, outer, stop=lambda d: False, off=None):
        B = ('f', m, 'base_to_noisy_relations')

        def pred(e):
            return e[0] == 'call' and e[1] == cls + '::transition_latent_values_relation' and core(e[2]) == m and over(core(e[3][1]), B)

        def excuse(d):
            if off is not None and (off, False) in d:
                return True
            for c, t in d:
                for x in subterms(c):
                    if x[0] == 'f' and x[2] == 'is_observed' and x[1][0] == 'at' and x[1][1] == ('f', m, 'schema') and over(x[1][2], B):
                        return c == x and t or c == ('not', x) and not t
            return False
        self.each(f, 'latent values', outer + [lambda z: over(z, B)], pred, excuse, stop, 'the latent values of every relation that is not observed')

    # -------------------------------------------------------------- views ---
    def view(self):
        C = self.C
        for f in self.find('single_step_irm_inference', 6):
            prng, m, tt, v, n, lat = self.pars(f)
            self.latents(f, m, prng, 'IRM', [], off=lat)
            self.entities(f, m)
            L = ('f', m, 'relations')
            pred = lambda e: e[0] == 'call' and e[1].endswith('::transition_cluster_hparams') and elem(core(e[2]), L) and core(e[3][1]) == n
            self.each(f, 'parameters', [lambda z: over(z, L)], pred, what='the parameters of every relation')
            D = ('f', m, 'domains')
            pred = lambda e: e[0] == 'call' and e[1] == 'CRP::transition_alpha' and core(e[2])[0] == 'f' and core(e[2])[2] == 'crp' and \
                elem(core(e[2])[1], D)
            self.each(f, 'concentrations', [lambda z: over(z, D)], pred, what='the concentration of every domain partition')
        for f in self.find('IRM::transition_cluster_assignments_all', 1):
            self.entities(f, ('this',))
        for f in self.find('IRM::transition_cluster_assignments', 2):
            ds = self.pars(f)[1]
            self.entities(f, ('this',), ds)
        for name, src in (('HIRM::transition_cluster_assignments_all', None), ('HIRM::transition_cluster_assignments', 1)):
            for f in self.find(name, 1 if src is None else 2):
                S = [('f', ('this',), 'relation_to_code'), ('f', ('this',), 'schema')] if src is None else [self.pars(f)[src]]
                pred = lambda e: e[0] == 'call' and e[1] == 'HIRM::transition_cluster_assignment_relation' and name_in(core(e[3][1]), S)
                self.each(f, 'relations', [lambda z: container(z) in S], pred, what='the cluster of every relation')
        for cls in ('IRM', 'HIRM'):
            for f in self.find(cls + '::transition_latent_values_relation', 2):
                self.values(f)

    def entities(self, f, m, ds=None):
        D = ('f', m, 'domains')
        S = ds or D

        def pred(e):
            if e[0] != 'call' or e[1] != 'IRM::transition_cluster_assignment_item' or core(e[2]) != m:
                return False
            d, i = core(e[3][1]), core(e[3][2])
            I = ('f', ('at', D, d), 'items')
            return name_in(d, [S]) and over(i, I)

        def items(z):
            c = container(z)
            return c is not None and c[0] == 'f' and c[2] == 'items' and c[1][0] == 'at' and c[1][1] == D and name_in(c[1][2], [S])
        self.each(f, 'entities', [lambda z: over(z, S), items], pred, what='the cluster of every entity of every domain')

    def values(self, f):
        C, q = self.C, f['q']
        R = self.pars(f)[1]
        B = ('at', ('f', ('this',), 'base_to_noisy_relations'), R)

        def isrel(t, name):
            return any(x[0] == 'at' and x[1] == ('f', ('this',), 'relations') and x[2] == name or
                       x[0] == 'call' and x[1].endswith('::get_relation') and name in flatten(x[2:]) or
                       x[0] == 'at' and x[1][0] == 'f' and x[1][2] == 'relations' and has(x[1], ('f', ('this',), 'irms')) and x[2] == name
                       for x in subterms(t))

        def data(z):
            c = container(z)
            return c is not None and isrel(c, R) and any(x[0] == 'call' and x[1].endswith('::get_data') or x[0] == 'f' and x[2] == 'data' for x in subterms(c))

        def pred(e):
            if e[0] != 'call' or e[1] != 'transition_latent_value':
                return False
            it, base, noisy = core(e[3][1]), core(e[3][2]), core(e[3][3])
            ok = noisy[0] == 'cont' and noisy[1] == ('empty',) and len(noisy[2]) == 1 and noisy[2][0][0] == 'each' and over(core(noisy[2][0][1]), B)
            if ok:
                for b in noisy[2][0][2]:
                    acts, how = b[-2], b[-1]
                    puts = [a for a in acts if a[0] in ('put', 'ins')]
                    ok = ok and how in ('next', 'continue') and len(puts) == 1 and name_in(core(puts[0][1]), [B]) and isrel(core(puts[0][2]), core(puts[0][1]))
            elif not (noisy[0] == 'cont' and noisy[1] == ('empty',)):
                C.unanalysed.append('%s: noisy relations %s' % (q, pp(noisy)[:80]))
                ok = True
            C.ob(ok, 'C25:%s:all copies' % q, '%s leaves out noisy relations of the latent value' % q, at(e))
            return data(it) and isrel(base, R)
        self.each(f, 'every value', [data], pred, what='every latent value of the relation')

    # ---------------------------------------------------------- relations ---
    def relations(self):
        for f in self.find('CleanRelation::transition_cluster_hparams', 2):
            prng, n = self.pars(f)
            L = ('f', ('this',), 'clusters')
            pred = lambda e: e[0] == 'call' and e[1].endswith('::transition_theta') and elem(core(e[2]), L)
            self.each(f, 'parameters', [lambda z: over(z, L), self.rounds(n)], pred, what='the parameters of every cluster')
            pred2 = lambda e: e[0] == 'call' and e[1].endswith('::transition_hyperparameters') and elem(core(e[2]), L)
            self.each(f, 'hyperparameters', [lambda z: over(z, L)], pred2, what='the hyperparameters of every cluster')
        for f in self.find('NoisyRelation::transition_cluster_hparams', 2):
            prng, n = self.pars(f)
            E = ('f', ('this',), 'emission_relation')
            pred = lambda e: e[0] == 'call' and e[1].endswith('::transition_cluster_hparams') and core(e[2]) == E and core(e[3][1]) == n
            self.each(f, 'emissions', [], pred, what='the emission models')

    # ------------------------------------------------------------- models ---
    def models(self):
        """A model made of models passes the move on to each of them."""
        P = self.P
        kinds = {r['q'] for r in P.recs.values() if self.isdist(r)} | {'Distribution', 'Emission'}
        for r in P.recs.values():
            if not self.isdist(r) or r.get('abstract'):
                continue
            parts = []
            for x in r['fields']:
                s = P.type(x['t'])['s'].replace('const ', '')
                base = s.split('<')[0].rstrip(' *&')
                if base in kinds:
                    parts.append((x['name'], False))
                elif s.startswith('std::vector<') and s[12:].split('<')[0].split(',')[0].rstrip(' *>&') in kinds:
                    parts.append((x['name'], True))
            if not parts:
                continue
            for name in ('transition_hyperparameters', 'transition_theta'):
                for m in r['methods']:
                    f = self.fns.get(m['key'])
                    if m['name'] != name or f is None:
                        continue
                    for part, many in parts:
                        X = ('f', ('this',), part)

                        def pred(e, X=X, many=many):
                            return e[0] == 'call' and e[1].endswith('::' + name) and (elem(core(e[2]), X) if many else core(e[2]) == X)
                        if name == 'transition_hyperparameters' and any(
                                e[0] == 'call' and e[1].endswith('::set_alpha') and core(e[2]) == ('this',) for p in self.run(f) for e in flat(p.trace)):
                            self.shared(r, X, many)
                            continue
                        self.each(f, part, [lambda z, X=X: over(z, X)] if many else [], pred, what='its part ' + part)

    def shared(self, r, X, many):
        """A parameter shared by all parts is installed in each of them."""
        for m in r['methods']:
            f = self.fns.get(m['key'])
            if m['name'] != 'set_alpha' or f is None:
                continue
            v = self.pars(f)[0]
            own = ('f', ('this',), 'alpha')

            def pred(e):
                return e[0] == 'set' and core(e[1])[0] == 'f' and core(e[1])[2] == 'alpha' and (elem(core(e[1])[1], X) if many else core(e[1])[1] == X) and \
                    core(e[2]) in (v, own)
            self.each(f, X[2], [lambda z: over(z, X)] if many else [], pred, what='the shared parameter in ' + X[2])

    def isdist(self, r, seen=()):
        P = self.P
        for b in r.get('bases') or ():
            s = P.type(b)['s'] if isinstance(b, int) else str(b)
            n = s.replace('const ', '').split('<')[0]
            if n in ('Distribution', 'Emission', 'NonconjugateDistribution'):
                return True
            for o in P.recs.values():
                if o['q'] == n and o['q'] not in seen and self.isdist(o, seen + (n,)):
                    return True
        return False

    # ----------------------------------------------------------- database ---
    def database(self):
        for f in self.find('GenDB::transition_reference_class_and_ancestors', 2):
            c = self.pars(f)[1]
            V = ('f', ('at', ('f', ('f', ('this',), 'schema'), 'classes'), c), 'vars')

            def ref(z):
                return z[0] == 'altp' and z[1] == 'ClassVar' and z[2][0] == 'f' and z[2][2] == 'spec' and elem(z[2][1], V)

            def pred(e):
                return e[0] == 'call' and e[1] == f['q'] and core(e[2]) == ('this',) and core(e[3][1])[0] == 'f' and \
                    core(e[3][1])[2] == 'class_name' and ref(core(e[3][1])[1])
            self.each(f, 'ancestors', [lambda z: over(z, V)], pred, lambda d: any(ref(x) and not t for x, t in d), what='the references of every ancestor')
            S = ('at', ('f', ('this',), 'reference_values'), c)

            def pred2(e):
                if e[0] != 'call' or e[1] != 'GenDB::transition_reference' or core(e[3][1]) != c:
                    return False
                a, b = core(e[3][2]), core(e[3][3])
                return a[0] == 'f' and b[0] == 'f' and a[2] == 'first' and b[2] == 'second' and a[1] == b[1] and over(a[1], S)
            self.each(f, 'references', [lambda z: over(z, S)], pred2, what='every reference of the class')

    def go(self):
        self.inference()
        self.view()
        self.relations()
        self.models()
        self.database()
        return self.C.finish()


def elem(t, L):
    """An element of the container."""
    if t[0] == 'at' and t[1] == L:
        return over(t[2], L)
    return over(t, L) and t[0] == 'key'


def name_in(t, S):
    """A name of one of the containers: its key, or its element."""
    for c in S:
        if over(t, c) and t[0] == 'key' or t[0] == 'at' and t[1] == c and over(t[2], c):
            return True
    return False


if __name__ == '__main__':
    main('C25', lambda: C25().go())
