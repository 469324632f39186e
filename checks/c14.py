"""C14: model names, model kinds and value types agree everywhere."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.load import load
from sa.place import walk
from sa.flow import core, subterms, at, repofns, flat, sites, tupled

RULE = ('The tables that dispatch on model names, model kinds and value types are read off the paths of the functions that hold them and '
        'compared: each accepted name selects its own kind and declares a value type; each kind is built as its own class, whose value type '
        '(the argument of its Distribution or Emission base) is the declared one; each value type is built as the relation of that type; the '
        'two parts of a joint attribute exist and have the same type; a noisy relation is taken only if its emission has the type of its '
        'base; a text is parsed by the relation under whose name its value is used; text values are taken whole.')

# What the documented names stand for (README and the headers of the models).
CLASS = {'bernoulli': 'BetaBernoulli', 'bigram': 'Bigram', 'categorical': 'DirichletCategorical', 'normal': 'Normal', 'skellam': 'Skellam',
         'stringcat': 'StringCat', 'string_nat': 'StringNat', 'string_normal': ('DistributionAdapter', 'Normal'),
         'string_skellam': ('DistributionAdapter', 'Skellam')}
EMITS = {'bigram': 'BigramStringEmission', 'gaussian': 'GaussianEmission', 'simple_string': 'SimpleStringEmission',
         'sometimes_bitflip': ('Sometimes', 'BitFlip'), 'sometimes_categorical': ('Sometimes', 'CategoricalEmission'),
         'sometimes_gaussian': ('Sometimes', 'GaussianEmission')}
JOINT = {'bool': 'bernoulli', 'categorical': 'categorical', 'real': 'normal', 'string': 'bigram', 'stringcat': 'stringcat',
         'typo_int': 'string_skellam', 'typo_nat': 'string_nat', 'typo_real': 'string_normal'}
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TYPES = {'bool_type': 'bool', 'double_type': 'double', 'int_type': 'int', 'string_type': STR}


def arg(t):
    """The first template argument of a type's spelling."""
    i = t.find('<')
    if i < 0:
        return None
    d, out = 0, ''
    for c in t[i + 1:]:
        if c == '<':
            d += 1
        if c == '>':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            break
        out += c
    return out.strip()


class C14:
    def __init__(self):
        self.C = Check('C14', RULE, ['what each documented name stands for is taken from the README and the headers of the models',
                                     'std::visit and std::get with a type computed from the visited relation are checked by the compiler'],
                       min_obligations=25, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)

    def paths(self, f):
        ps = self.C.try_run(f, opaque=lambda g: self.P.fns.get(g.get('key'), {}).get('file') != f['file'] or g.get('key') == f['key'])
        return [p for p in ps or () if not p.aborted and p.exit[0] != 'abort']

    def valuetype(self, cls):
        """The value type of a model class: the argument of its Distribution or Emission base."""
        r = self.P.recs.get(cls)
        if r is None:
            return None
        for b in [cls] + self.P.bases(r):
            if b.startswith('Emission<'):
                return arg(b)
        for b in [cls] + self.P.bases(r):
            if b.startswith('Distribution<'):
                return arg(b)
        return None

    # -------------------------------------------------------------------- names ---
    def names(self, ctor, known):
        """{name: (kind, value type)} for the accepting paths of a spec's constructor."""
        C = self.C
        table = {}
        for f in self.fns.values():
            if f['q'] != ctor or not f['params']:
                continue
            for p in self.paths(f):
                got = {}
                for loc, v in p.store.items():
                    if loc[0] == 'f' and core(v)[0] == 'enum':
                        got[core(v)[1]] = core(v)[2]
                kind = [v for k, v in got.items() if k != 'ObservationEnum']
                if core(p.exit[1] if len(p.exit) > 1 and p.exit[1] else ('n', 0)) == ('never',):
                    continue
                names = set()
                for a, t in p.decisions:
                    a = core(a)
                    if t and a[0] == 'eq':
                        names |= {x[1] for x in a[1:] if x[0] == 's' and x[1] not in ('(', ')', ',', '=')}
                tag = 'C14:%s:%s' % (ctor, '/'.join(sorted(names)) or '?')
                if not names:
                    if any(e[0] == 'call' and e[1].rsplit('::', 1)[-1] == 'at' for e in flat(p.trace)) or any(
                            core(a)[0] == 'contains' for a, t in p.decisions) and not kind:
                        C.unanalysed.append('%s looks names up in a table' % ctor)
                        continue
                    C.ob(False, tag, '%s accepts a name that is none of its own' % ctor, f, p)
                    continue
                C.ob(len(kind) == 1 and 'ObservationEnum' in got, tag, '%s does not set both the kind and the value type of %s' % (ctor, sorted(names)), f, p)
                if len(kind) == 1 and 'ObservationEnum' in got:
                    for n in names:
                        C.ob(table.get(n, (kind[0], got['ObservationEnum'])) == (kind[0], got['ObservationEnum']), tag,
                             '%s gives %s two meanings' % (ctor, n), f, p)
                        table[n] = (kind[0], got['ObservationEnum'])
            seen = {}
            for n, (k, o) in table.items():
                C.ob(seen.setdefault(k, n) == n, 'C14:%s:%s' % (ctor, n), '%s and %s select the same model' % (n, seen[k]), f)
            if table:
                for n in known:
                    C.ob(n in table, 'C14:%s:%s' % (ctor, n), '%s does not accept %s' % (ctor, n), f)
        if not table:
            C.unanalysed.append('no table of names in %s' % ctor)
        return table

    # -------------------------------------------------------------------- kinds ---
    def kinds(self, table, spec, member, known):
        C = self.C
        kind = {k: (n, o) for n, (k, o) in table.items()}
        built = set()
        for f in self.fns.values():
            if f['q'] != 'get_prior' or not self.P.type(f['params'][0]['t'])['s'].replace('const ', '').startswith(spec):
                continue
            for p in self.paths(f):
                ks = set()
                for a, t in p.decisions:
                    a = core(a)
                    if t and a[0] == 'eq':
                        ks |= {x[2] for x in a[1:] if x[0] == 'enum' and x[1] != 'ObservationEnum'}
                v = core(p.exit[1]) if len(p.exit) > 1 and p.exit[1] else None
                while v and v[0] in ('ctor', 'cast', 'alt') and len(v) > 2:
                    v = v[2]
                if v is None or v[0] != 'new':
                    C.unanalysed.append('get_prior returns %s' % str(v)[:60])
                    continue
                if len(ks) != 1:
                    C.ob(not kind, 'C14:get_prior:%s' % v[1], 'get_prior builds %s without asking for a kind' % v[1], f, p)
                    continue
                k = ks.pop()
                built.add(k)
                if k not in kind:
                    C.note('%s is not selected by any name' % k)
                    continue
                n, o = kind[k]
                tag = 'C14:get_prior:%s' % n
                t = self.valuetype(v[1])
                C.ob(t == TYPES.get(o), tag, '%s is built as %s, whose values are %s and not %s' % (n, v[1], t, TYPES.get(o)), f, p)
                if n in known:
                    want = known[n]
                    inner = [x[1] for a in v[2] for x in subterms(a) if x[0] == 'new']
                    base = v[1].split('<')[0]
                    ok = base == want if isinstance(want, str) else base == want[0] and want[1] in [x.split('<')[0] for x in inner]
                    C.ob(ok, tag, '%s is built as %s%s' % (n, v[1], ' of ' + inner[0] if inner else ''), f, p)
        if built:
            for k, (n, o) in kind.items():
                C.ob(k in built, 'C14:get_prior:%s' % n, '%s is accepted but never built' % n, None)
        else:
            C.unanalysed.append('get_prior of %s' % spec)

    # -------------------------------------------------------------------- types ---
    def types(self):
        """Where a value type is asked for, what is built has that type."""
        C = self.C
        n = 0
        for f in self.fns.values():
            if not any(isinstance(x, dict) and 'ObservationEnum' in str(x.get('q', '')) + str(x.get('s', '')) + str(x.get('name', ''))
                       for x in walk(f['body'])) and 'ObservationEnum' not in str(f['body'])[:20000]:
                continue
            if f['q'] in ('DistributionSpec::DistributionSpec', 'EmissionSpec::EmissionSpec') or f['q'].endswith('operator='):
                continue
            done = set()
            for p in self.paths(f):
                es = {x[2] for a, t in p.decisions if t and core(a)[0] == 'eq' for x in core(a)[1:] if x[0] == 'enum' and x[1] == 'ObservationEnum'}
                for e in flat(p.trace):
                    if e[0] != 'new':
                        continue
                    t = arg(core(e[1])[1])
                    if t is None:
                        continue
                    n += 1
                    tag = 'C14:%s:%s' % (f['q'], '/'.join(sorted(es)) or 'any')
                    if len(es) == 1:
                        x = next(iter(es))
                        done.add(x)
                        C.ob(t == TYPES.get(x) or t == 'std::pair<%s, %s>' % (TYPES.get(x), TYPES.get(x)), tag,
                             '%s builds %s for values of type %s' % (f['q'], core(e[1])[1], x), at(e), p)
                    elif len(es) > 1:
                        C.unanalysed.append('%s asks for two types at once' % f['q'])
                    elif done:
                        C.ob(False, tag, '%s builds %s for values of any type' % (f['q'], core(e[1])[1]), at(e), p)
            if done:
                for x in self.P.enums.get('ObservationEnum', {}).get('names', ()):
                    C.ob(x in done, 'C14:%s:%s' % (f['q'], x), '%s builds nothing for %s' % (f['q'], x), f)
        if not n:
            C.unanalysed.append('nothing is built by value type')

    def models(self):
        """The members of relations that hold models have the relation's type."""
        C = self.C
        for q, r in self.P.recs.items():
            t = arg(q)
            if q.split('<')[0] not in ('CleanRelation', 'NoisyRelation') or t is None:
                continue
            for x in r['fields']:
                s = self.P.type(x['t'])['s']
                if q.startswith('NoisyRelation<') and s.startswith('CleanRelation<'):
                    C.ob(arg(s) == 'std::pair<%s, %s>' % (t, t), 'C14:NoisyRelation:emission', '%s holds emissions of %s' % (q, arg(s)), None)
                if s.startswith('Relation<') and s.endswith('*'):
                    C.ob(arg(s) == t, 'C14:NoisyRelation:base', '%s has a base of %s' % (q, arg(s)), None)

    # ------------------------------------------------------------------- joints ---
    def joints(self, dist, emit):
        C = self.C
        n = 0
        for g in self.P.globals if not isinstance(self.P.globals, dict) else self.P.globals.values():
            if not isinstance(g, dict) or not g.get('init') or 'get_joint_relations' not in g.get('file', ''):
                continue
            entries = []

            def strs(x):
                return [y['v'] for y in walk(x) if isinstance(y, dict) and y.get('k') == 'str']
            for x in walk(g['init']):
                if isinstance(x, dict) and x.get('k') == 'ctor' and isinstance(x.get('f'), dict) and x['f'].get('q') == 'std::pair::pair':
                    s = strs(x)
                    if len(s) == 3:
                        entries.append(s)
            for name, d, e in entries:
                n += 1
                tag = 'C14:joint:%s' % name
                C.ob(d in dist, tag, 'the attribute %s needs the distribution %s, which does not exist' % (name, d), g)
                C.ob(e in emit, tag, 'the attribute %s needs the emission %s, which does not exist' % (name, e), g)
                if d in dist and e in emit:
                    C.ob(dist[d][1] == emit[e][1], tag, 'the attribute %s pairs %s of %s with %s of %s' % (name, d, dist[d][1], e, emit[e][1]), g)
                if name in JOINT:
                    C.ob(d == JOINT[name], tag, 'the attribute %s stands for %s' % (name, d), g)
            if entries:
                for name in JOINT:
                    C.ob(name in [x[0] for x in entries], 'C14:joint:%s' % name, 'the attribute %s is not supported' % name, g)
                C.ob(len({x[0] for x in entries}) == len(entries), 'C14:joint', 'an attribute is given twice', g)
        if not n:
            C.unanalysed.append('no table of joint attributes')
        # the first part makes the clean relation, the second the noisy one
        for fn, spec in (('get_distribution_relation', 'DistributionSpec'), ('get_emission_relation', 'EmissionSpec')):
            for f in self.fns.values():
                if f['q'] != fn:
                    continue
                for p in self.paths(f):
                    for v in [core(y) for e in flat(p.trace) for x in e[1:] if isinstance(x, tuple) and x
                              for y in ((x,) if isinstance(x[0], str) else x) if isinstance(y, tuple) and y]:
                        for x in subterms(v):
                            if x[:2] == ('ctor', spec) and len(x) > 2:
                                want = 'first' if spec == 'DistributionSpec' else 'second'
                                got = [y[2] for y in subterms(x) if y[0] == 'f' and y[2] in ('first', 'second') and y[1][0] == 'at']
                                if got:
                                    C.ob(got[0] == want, 'C14:%s:part' % fn, '%s takes the %s part of the attribute' % (fn, got[0]), f, p)
                                    C.ob(any(y[0] == 'f' and y[2] == 'params' for y in subterms(x)), 'C14:%s:params' % fn,
                                         '%s leaves out the parameters of the attribute' % fn, f, p)

    # -------------------------------------------------------------------- noisy ---
    def noisy(self):
        """A noisy relation's emission has the type of its base."""
        C = self.C
        n = 0
        for f in self.fns.values():
            if f['q'] != 'load_schema':
                continue
            for p in self.C.try_run(f, opaque=lambda g: self.P.fns.get(g.get('key'), {}).get('file') != f['file'] or g.get('key') == f['key'] or
                                    g.get('q', '').endswith('Spec::operator=')) or ():
                if p.aborted or p.exit[0] == 'abort':
                    continue
                n += 1
                ok = False
                for e in flat(p.trace):
                    if e[0] == 'br' and core(e[1])[0] == 'eq' and e[2] is True and all(
                            any(y[0] == 'f' and y[2] == 'observation_type' for y in subterms(x)) for x in core(e[1])[1:]):
                        ok = True
                C.ob(ok, 'C14:load_schema:emission', 'load_schema takes an emission of another type than its base', f, p)
                if ok:
                    break
        if not n:
            C.unanalysed.append('load_schema')

    # ------------------------------------------------------------------ reading ---
    @staticmethod
    def parsed(v):
        """The relation whose parser made this value."""
        v = core(v)
        if v[0] == 'call' and v[1] == 'Relation::from_string' and v[2]:
            return core(v[2])
        return None

    def reading(self):
        C = self.C
        n = 0
        for f in self.fns.values():
            if not any(isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict) and
                       x['f'].get('q') == 'Relation::from_string' for x in walk(f['body'])):
                continue
            ps = self.C.try_run(f, opaque=lambda g: g.get('q', '').split('::')[0] in ('IRM', 'HIRM', 'GenDB', 'Relation', 'CleanRelation', 'NoisyRelation')
                                or g.get('key') == f['key'] or self.P.fns.get(g.get('key'), {}).get('file') != f['file'])
            for p in ps or ():
                if p.aborted:
                    continue
                for s in sites(p):
                    e = s.ev
                    uses = []
                    if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('incorporate', 'update_value', 'logp', 'observe'):
                        uses.append(tuple(e[3]))
                    elif e[0] == 'put':
                        uses.append((e[2], e[3]))
                    elif e[0] == 'set' and core(e[1])[0] == 'at':
                        uses.append((core(e[1])[2], e[2]))
                    elif e[0] == 'push' and core(e[2])[0] == 'tuple':
                        uses.append(core(e[2])[1:])
                    elif e[0] == 'call' and e[1].endswith('::operator=') and e[2] and core(e[2])[0] == 'at':
                        uses.append((core(e[2])[2],) + tuple(e[3]))
                    for u in uses:
                        u = [core(x) for x in u if isinstance(x, tuple) and x]
                        for v in u:
                            r = self.parsed(v)
                            if r is None:
                                continue
                            got = [x for x in subterms(r) if x[0] == 'call' and x[1].rsplit('::', 1)[-1] == 'get_relation']
                            if not got:
                                continue
                            n += 1
                            C.ob(core(got[0][3][-1]) in u, 'C14:%s:parser' % f['q'],
                                 '%s parses a value with another relation than the one it is given to' % f['q'], at(e), p)
        if not n:
            C.unanalysed.append('no parsed value is used')
        for f in self.fns.values():
            if f['q'] == 'Relation::from_string' and STR in f['key'].split('::from_string')[0]:
                for p in self.paths(f):
                    C.ob(core(p.exit[1]) == ('p', f['params'][0]['name']), 'C14:from_string:text', 'a text value is not taken as it is written', f, p)

    def all(self):
        d = self.names('DistributionSpec::DistributionSpec', CLASS)
        e = self.names('EmissionSpec::EmissionSpec', EMITS)
        self.kinds(d, 'DistributionSpec', 'distribution', CLASS)
        self.kinds(e, 'EmissionSpec', 'emission', EMITS)
        self.types()
        self.models()
        self.joints(d, e)
        self.noisy()
        self.reading()
        return self.C.finish()


if __name__ == '__main__':
    main('C14', lambda: C14().all())
