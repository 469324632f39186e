"""C10: a resampled latent value is replaced everywhere at once.

The resampling of one latent value is followed path by path through its
helpers; operations of the relations are opaque (C08, C09)."""
from sa import rule
from sa.interp import subterms, mentions, pp, n, ZERO, ONE
from sa.net import base
from sa.rule import Broken
from sa.rel import strip
from c02 import impossible

RULE = ('On every path of the resampling of a latent value: the base value and every listed noisy observation are taken out, '
        'each candidate is put in, scored over all noisy relations and taken out again, the value put back is the drawn '
        'element of exactly the scored candidates, each noisy observation returns with its own value after the new base '
        'value is in place, and there is always a candidate.  Callers pass every noisy relation of the base.')
OPQ = ('Domain', 'CleanRelation', 'Relation', 'CRP', 'NoisyRelation', 'Distribution', 'Emission')


UPD = ('incorporate', 'unincorporate', 'incorporate_to_cluster', 'unincorporate_from_cluster', 'update_value',
       'cleanup_data', 'set_cluster_assignment_gibbs')


class Odd(Exception):
    pass


def opaque(g):
    return g.get('name') in ('get_prior', 'choice', 'log_choice', 'logsumexp', 'product', 'sample_from_logps') or \
        g.get('q', '').split('::')[0] in OPQ


def main():
    C = rule.Check('C10', RULE, ['operations of clean and noisy relations are the obligations of C08 and C09'],
                   min_obligations=3)
    P = C.P
    fs = [f for f in P.fn('transition_latent_value') if f.get('body')]
    if not fs:
        raise Broken('no transition_latent_value')
    for f in fs[:1]:
        try:
            ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
            for p in ps:
                resample(C, f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    for q in ('IRM::transition_latent_values_relation', 'HIRM::transition_latent_values_relation'):
        for f in [f for f in P.fn(q) if f.get('body')][:1]:
            try:
                ps = [p for p in C.run(f, opaque=lambda g: opaque(g) or g.get('name') == 'transition_latent_value')
                      if not p.aborted]
                for p in ps:
                    caller(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    return C.finish()


def ty(C, p):
    s = C.P.strip(p['t']).get('s', '')
    return s[6:] if s.startswith('const ') else s


class Walk:
    """Follows the in/out state of the base value and of the noisy
    observations through the trace of one path."""

    def __init__(self, C, f, p):
        self.C, self.f, self.p = C, f, p
        self.B = self.M = self.I = None
        for x in f['params']:
            t = ty(C, x)
            if 'NoisyRelation<' in t and 'map' in t:
                self.M = ('p', x['name'])
            elif t.startswith('std::vector<int'):
                self.I = ('p', x['name'])
            elif 'Relation<' in t and '*' in t or t.startswith('Relation<'):
                self.B = ('p', x['name'])
        if None in (self.B, self.M, self.I):
            raise Odd('parameters')
        self.b, self.n = True, True     # in their clusters
        self.val = ('old',)
        self.last = None                # last value stored as the base value
        self.stored = {}                # puts into local maps: location -> [(key, value, loops)]
        self.draw = None
        self.tried = []                 # (loop key, value) of scored candidates
        self.q = f['q']

    def ob(self, ok, key, msg):
        return self.C.ob(ok, self.q + '|' + key, self.q + ' ' + msg, self.f, self.p)

    # noisy relation objects and their items
    def noisy(self, o, loops):
        """The loop key over the noisy relations that o ranges over."""
        if o[0] == 'at' and self.is_rel_key(o[2]) and o[1] == self.M and o[2] in loops:
            return o[2]
        return None

    def is_rel_key(self, k):
        return k[0] == 'key' and (k[2] == self.M or self.like_M(k[2]))

    def like_M(self, c):
        """A local container filled with one entry per noisy relation."""
        if c[0] != 'cont' or c[1] != ('empty',):
            return False
        ops = [o for o in c[2] if o[0] not in ('touch', 'prior')]
        return len(ops) == 1 and ops[0][0] == 'each' and ops[0][1][0] == 'key' and ops[0][1][2] == self.M and \
            all(how in ('next', 'continue') and [s for s in sub if s[0] == 'put' and s[1] == ops[0][1]]
                for dec, sub, how in ops[0][2])

    def is_item_key(self, k, rk):
        """k ranges over the items listed under the base items in relation rk."""
        if k[0] != 'key':
            return False
        c = k[2]
        if c[0] == 'at' and c[1] == ('f', ('at', self.M, rk), 'base_to_noisy_items') and c[2] == self.I:
            return True
        # over the stored observations of that relation
        return c[0] == 'at' and c[2] == rk and (self.like_M(c[1]) or c[1] in self.stored_maps())

    def stored_maps(self):
        return set(self.stored)

    def all_of(self, alts, key):
        """Loop alternatives: every one handles its element (or has nothing to
        handle because nothing is listed)."""
        return alts

    def walk(self, trace, loops=()):
        for ev in trace:
            k = ev[0]
            if k == 'loop':
                self.loop(ev, loops)
            elif k in ('put', 'ins') and len(ev) > 4 and k == 'put':
                o = strip(ev[1])
                if o[0] in ('at', 'var'):
                    self.stored.setdefault(o, []).append((strip(ev[2]), strip(ev[3]), loops))
            elif k == 'call':
                self.call(base(ev[1]), strip(ev[2]) if ev[2] is not None else None, strip(ev[3]), loops, ev)

    def call(self, nm, o, args, loops, ev):
        if nm in ('log_choice', 'choice', 'sample_from_logps') and o is None:
            self.draw = (nm, args)
            return
        if o == self.B:
            if nm == 'unincorporate_from_cluster':
                self.ob(args[0] == self.I, 'base items', 'takes out another base observation')
                self.ob(self.b, 'once out', 'takes the base value out twice')
                self.b = False
            elif nm == 'incorporate_to_cluster':
                self.ob(args[0] == self.I, 'base items', 'puts in another base observation')
                self.ob(not self.b, 'once in', 'puts a base value in twice')
                self.ob(not self.n, 'noisy out', 'changes the base value while noisy observations of it are in')
                self.b, self.val, self.last = True, args[1], args[1]
            elif nm == 'update_value':
                self.ob(args[0] == self.I, 'base items', 're-values another base observation')
                self.ob(self.b, 're-value in', 're-values a base observation that is out')
                self.ob(args[1] == self.val or not self.n, 'noisy out', 'changes the base value while noisy observations of it are in')
                self.val = self.last = args[1]
            elif nm in ('incorporate', 'unincorporate', 'cleanup_data'):
                raise Odd('whole operation')
            return
        if o is not None and mentions(o, self.M) and nm in ('incorporate_to_cluster', 'unincorporate_from_cluster',
                                                            'incorporate', 'unincorporate', 'update_value'):
            raise Odd('noisy update outside a loop over all of them')

    # loops ------------------------------------------------------------
    def loop(self, ev, loops):
        key = strip(ev[1])
        alts = ev[2]
        if self.is_rel_key(key):
            self.over_relations(ev, key, loops)
            return
        st = (self.b, self.n, self.val)
        pushes = []
        for tr, dec, how in alts:
            if how not in ('next', 'continue', 'end'):
                self.b, self.n, self.val = st
            self.b, self.n, self.val = st
            sub = Probe(self)
            self.walk(tr, loops + (key,))
            changed = (self.b, self.n) != (st[0], st[1])
            if changed:
                self.ob(False, 'undone', 'leaves a candidate in (or takes out what it did not put in)')
            if self.last is not None and sub.tried is not None:
                pass
        self.b, self.n = st[0], st[1]

    def over_relations(self, ev, key, loops):
        """A loop over all noisy relations: what does it do to their listed
        observations?"""
        did = set()
        for tr, dec, how in ev[2]:
            here = set()
            for e in flat(tr):
                e, inner = e
                if e[0] == 'put':
                    o = strip(e[1])
                    self.stored.setdefault(o, []).append((strip(e[2]), strip(e[3]), loops + (key,) + inner))
                if e[0] == 'call' and e[2] is None and base(e[1]) in ('log_choice', 'choice'):
                    raise Odd('draw per relation')
                if e[0] != 'call' or e[2] is None:
                    continue
                nm, o, args = base(e[1]), strip(e[2]), strip(e[3])
                if o == self.B and nm in UPD:
                    raise Odd('base update per relation')
                if not mentions(o, self.M):
                    continue
                if nm == 'logp_score':
                    if o == ('at', self.M, key):
                        here.add('score')
                    continue
                if nm not in ('incorporate_to_cluster', 'unincorporate_from_cluster'):
                    if nm in ('incorporate', 'unincorporate', 'update_value', 'cleanup_data'):
                        raise Odd('whole operation')
                    continue
                if o != ('at', self.M, key) or len(inner) != 1:
                    raise Odd('noisy update of ' + pp(o)[:60])
                ik = inner[0]
                if not self.is_item_key(ik, key):
                    raise Odd('noisy update over ' + pp(ik)[:60])
                self.ob(args[0] == ik, 'noisy items', 'moves another noisy observation')
                here.add(nm)
                if nm == 'incorporate_to_cluster':
                    self.own_value(args[1], key, ik, loops)
            empty = any(self.nothing(a, b, key) for a, b in dec)
            if how == 'break' and not empty:
                here.add('partial')
            if not empty or here:
                did.add(frozenset(here & {'score', 'incorporate_to_cluster', 'unincorporate_from_cluster', 'partial'}))
        conds = [d for d in did]
        verbs = set().union(*did) if did else set()
        moves = verbs & {'incorporate_to_cluster', 'unincorporate_from_cluster'}
        if not verbs:
            return
        self.ob('partial' not in verbs, 'every relation', 'stops before every noisy relation is handled')
        if len(did) > 1:
            for v in verbs - {'partial'}:
                self.ob(all(v in d for d in did), 'every relation', 'skips some of the noisy relations')
        if any(not full_items(tr) for tr, dec, how in ev[2]):
            self.ob(False, 'every observation', 'skips some of the listed observations')
        if len(moves) == 2:
            raise Odd('both moves')
        if 'score' in verbs:
            self.scored_here(key, loops)
        if 'unincorporate_from_cluster' in moves:
            self.ob(self.n, 'noisy once out', 'takes the noisy observations out twice')
            self.n = False
        elif 'incorporate_to_cluster' in moves:
            self.ob(not self.n, 'noisy once in', 'puts the noisy observations in twice')
            self.ob(self.b, 'base first', 'puts noisy observations back before the base value is in place')
            self.n = True

    def scored_here(self, key, loops):
        if loops:
            ok = self.b and self.n
            self.ob(ok, 'scored state', 'scores a candidate while part of the observations is out')
            self.tried.append((loops[-1], self.val, key))

    def nothing(self, a, b, key):
        a = strip(a)
        L = ('f', ('at', self.M, key), 'base_to_noisy_items')
        if a[0] == 'contains' and a[1] == L and a[2] == self.I:
            return not b
        if a[0] == 'empty' and mentions(a, L):
            return b
        return False

    def own_value(self, v, key, ik, loops):
        if v[0] == 'call' and base(v[1]) == 'get_value':
            self.ob(v[2] == ('at', self.M, key) and v[3][0] == ik, 'own value', 'puts another value back')
            return
        if v[0] == 'at' and v[1] == ('f', ('at', self.M, key), 'data'):
            self.ob(v[2] == ik, 'own value', 'puts another value back')
            return
        if v[0] == 'at' and v[1][0] == 'at' and (self.like_M(v[1][1]) or v[1][1] in self.stored or v[1] in self.stored):
            self.ob(v[2] == ik and v[1][2] == key, 'own value', 'puts the value of another observation back')
            hit = [(k, x, l) for o, es in self.stored.items() for k, x, l in es
                   if o[0] == 'at' and self.is_rel_key(o[2]) and k[0] == 'key']
            if not hit:
                raise Odd('no stored observations')
            for o, es in self.stored.items():
                for k, x, l in es:
                    if o[0] == 'at' and self.is_rel_key(o[2]) and k[0] == 'key':
                        rk = o[2]
                        good = x[0] == 'call' and base(x[1]) == 'get_value' and x[2] == ('at', self.M, rk) and x[3][0] == k or \
                            x == ('at', ('f', ('at', self.M, rk), 'data'), k)
                        self.ob(good, 'remembered value', 'remembers another value than the observed one')
            return
        raise Odd('value put back: ' + pp(v)[:80])


class Probe:
    def __init__(self, w):
        self.tried = len(w.tried)


def flat(tr, loops=()):
    for ev in tr:
        if ev[0] == 'loop':
            for t, d, h in ev[2]:
                yield from flat(t, loops + (strip(ev[1]),))
        else:
            yield ev, loops


MOVES = ('incorporate_to_cluster', 'unincorporate_from_cluster')


def full_items(tr):
    """Inner loops that move observations do so on every path."""
    for ev in tr:
        if ev[0] != 'loop':
            continue
        kinds = set()
        for t, d, h in ev[2]:
            m = frozenset(base(e[1]) for e, _ in flat(t) if e[0] == 'call' and base(e[1]) in MOVES)
            kinds.add((m, h == 'break'))
        if any(m for m, _ in kinds):
            if len({m for m, _ in kinds}) > 1 or any(b for _, b in kinds):
                return False
    return True


def resample(C, f, p):
    w = Walk(C, f, p)
    w.walk(p.trace)
    w.ob(w.b, 'base back', 'leaves the base value out of its cluster')
    w.ob(w.n, 'noisy back', 'leaves noisy observations out of their clusters')
    if w.draw is None:
        raise Odd('no draw')
    v = w.last
    if v is None:
        raise Odd('no value put back')
    if v[0] != 'at' or v[2][0] != 'call' or base(v[2][1]) not in ('log_choice', 'choice', 'sample_from_logps'):
        w.ob(False, 'drawn value', 'keeps a value that was not drawn from the candidates')
        return
    cand, draw = v[1], v[2]
    w.ob(base(draw[1]) != 'choice', 'log scale', 'draws with probabilities from log scores')
    weights = draw[3][0]
    # one weight per candidate, in order
    ops = [o for o in weights[2] if o[0] not in ('touch', 'prior')] if weights[0] == 'cont' else None
    if not ops or len(ops) != 1 or ops[0][0] != 'each':
        raise Odd('weights')
    k = ops[0][1]
    tried = [t for t in w.tried if t[0] == k]
    if not tried:
        w.ob(False, 'scored', 'draws with weights that do not come from scoring the candidates')
        return
    for lk, val, sk in tried:
        ok = val == ('at', cand, k)
        if k[0] != 'idx':
            raise Odd('candidate loop')
        w.ob(ok, 'same candidates', 'keeps a value from another list than the scored candidates')
    for dec, sub, how in ops[0][2]:
        sub = [o for o in sub if o[0] not in ('touch', 'prior')]
        w.ob(how in ('next', 'continue') and len(sub) == 1, 'one weight each', 'does not give every candidate a weight')
        for o in sub:
            x = o[1] if o[0] == 'push' else o[2]
            w.ob(has_score(x, w, [t[2] for t in tried]), 'weight', 'weighs a candidate by something else than its score')
    # there is a candidate
    some = any(o[0] == 'push' for o in cand[2]) if cand[0] == 'cont' else False
    for a, b in p.decisions:
        a = strip(a)
        if a[0] == 'empty' and b is False and (a[1] == cand or same_list(p.trace, a[1], cand)) or a[0] in ('eq', 'lt') and mentions(a, ('size', cand)):
            some = True
    w.ob(some, 'a candidate', 'draws from a list of candidates that may be empty')


def same_list(trace, var, cand):
    """The local list `var` received the elements of cand."""
    mine = {strip(e[2]) for e, _ in flat(trace) if e[0] == 'push' and strip(e[1]) == var}
    return bool(mine) and mine <= set(pushed(cand))


def pushed(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'push':
            yield t[1]
        for x in t:
            if isinstance(x, tuple):
                yield from pushed(x)


def has_score(x, w, keys):
    """The score of all noisy relations enters with coefficient one."""
    from sa.interp import mk_add
    terms = x[1] if x[0] == 'add' and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], tuple) else None
    parts = list(x[1]) if terms is not None else [x]
    for t in parts:
        if t[0] == 'sum' and t[1] in keys:
            return all(v == ('call', v[1], ('at', w.M, t[1]), ()) and base(v[1]) == 'logp_score' for dec, v in t[2])
    return False


def caller(C, f, p):
    """Every noisy relation of the base, every item of the base."""
    q = f['q']
    r = [('p', x['name']) for x in f['params'] if 'basic_string' in ty(C, x)]
    if len(r) != 1:
        raise Odd('relation parameter')
    r = r[0]
    LST = ('at', ('f', ('this',), 'base_to_noisy_relations'), r)
    hit = 0
    for ev, loops in flat(p.trace):
        if ev[0] != 'call' or base(ev[1]) != 'transition_latent_value':
            continue
        hit += 1
        a = strip(ev[3])
        rel = [x for x in a if x[0] == 'alt' or x[0] == 'at' and mentions(x, ('f', ('this',), 'relations'))]
        k = [x for x in a if x[0] == 'key']
        m = [x for x in a if x[0] == 'cont']
        if len(rel) != 1 or len(k) != 1 or len(m) != 1:
            raise Odd('arguments')
        rel, k, m = rel[0], k[0], m[0]
        C.ob(named_relation(rel) == r, q + '|base', '%s resamples another relation' % q, f, p)
        C.ob(k[2][0] == 'call' and base(k[2][1]) == 'get_data' and k[2][2] == rel or k[2] == ('f', rel, 'data'), q + '|every item',
             '%s does not go through the observations of the base' % q, f, p)
        ops = [o for o in m[2] if o[0] not in ('touch', 'prior')]
        if m[1] != ('empty',) or len(ops) != 1 or ops[0][0] != 'each':
            raise Odd('noisy relations')
        i = ops[0][1]
        el = ('at', LST, i) if i[0] == 'idx' else i
        C.ob(i[0] == 'idx' and i[2] == ('size', LST) or i[0] == 'key' and i[2] == LST, q + '|every noisy relation',
             '%s does not pass every noisy relation of the base' % q, f, p)
        for dec, sub, how in ops[0][2]:
            sub = [o for o in sub if o[0] not in ('touch', 'prior')]
            C.ob(how in ('next', 'continue') and len(sub) == 1 and sub[0][0] == 'put' and
                 named_relation(sub[0][2]) == el, q + '|every noisy relation',
                 '%s leaves a noisy relation of the base out' % q, f, p)
    for ev in p.trace:
        if ev[0] == 'loop':
            kinds = {(any(e[0] == 'call' and base(e[1]) == 'transition_latent_value' for e, _ in flat(t)), h == 'break')
                     for t, d, h in ev[2]}
            if any(c for c, _ in kinds):
                C.ob(kinds == {(True, False)}, q + '|no item skipped', '%s skips some observations' % q, f, p)
    if not hit:
        raise Odd('no call')


def named_relation(t):
    """The name under which a relation was looked up."""
    while t[0] in ('alt', 'cast'):
        t = t[-1]
    if t[0] == 'at' and t[1][0] == 'f' and t[1][2] == 'relations':
        return t[2]
    if t[0] == 'call' and base(t[1]) == 'get_relation':
        return t[3][0]
    return None


if __name__ == '__main__':
    rule.main('C10', main)
