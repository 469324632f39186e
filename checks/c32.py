"""C32: a reassignment scores every destination and applies the chosen one.

Moves of one entity (IRM) and of one relation (HIRM), and the exact Gibbs
scores of a relation, followed path by path; partitions and models are opaque
(C01, C06)."""
from sa import rule
from sa.interp import pp, n, subterms, mentions, ZERO, ONE
from sa.net import base
from sa.rule import Broken
from sa.rel import THIS, strip, fld, cluster_key, unacc, MAKERS
from c02 import impossible

RULE = ('The candidates are the keys of the Gibbs weights of the entity (relation), each paired with the log of its own '
        'weight plus the data score of every relation (of the relation in that view, holding all its data); the '
        'destination applied to every relation, the partition and the views is the candidate at the drawn position.  '
        'The exact score of a table sums, over the clusters the entity\'s observations would fall in, the score gained '
        'by adding exactly those observations to that cluster (or a fresh one) after all of them were taken out.')


class Odd(Exception):
    pass


CLS = ('Domain', 'CleanRelation', 'Relation', 'CRP', 'NoisyRelation', 'Distribution', 'Emission')


DRAWS = ('log_choice', 'sample_from_logps')


def opaque(g):
    return g.get('name') in ('get_prior', 'choice', 'log_choice', 'logsumexp', 'sample_from_logps', 'log_normalize') or \
        g.get('q', '').split('::')[0] in CLS


def main():
    C = rule.Check('C32', RULE, ['the Gibbs weights of a partition are the obligations of C06',
                                 'moving an entity inside one relation or partition is C06 to C08'], min_obligations=3)
    P = C.P
    for q, opq, fun in (
            ('IRM::transition_cluster_assignment_item', opaque, entity),
            ('HIRM::transition_cluster_assignment_relation',
             lambda g: opaque(g) or g.get('q', '').split('::')[0] == 'IRM', relation),
            ('CleanRelation::logp_gibbs_exact',
             lambda g: g.get('name') == 'get_prior' or g.get('q', '').split('::')[0] in ('Domain', 'CRP', 'Distribution'),
             exact)):
        fs = [f for f in P.fn(q) if f.get('body')]
        if not fs:
            C.unanalysed.append('no ' + q)
        for f in fs[:1]:
            try:
                ps = [p for p in C.run(f, opaque=opq) if not p.aborted and not impossible(p.decisions)]
                if not ps:
                    raise Odd('no path')
                for p in ps:
                    fun(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    for f in [f for f in P.fn('NoisyRelation::logp_gibbs_exact') if f.get('body')][:1]:
        try:
            for p in C.run(f, opaque=lambda g: g.get('q', '').startswith('CleanRelation::')):
                if not p.aborted:
                    r = strip(p.ret)
                    if r[0] == 'fill' and calls_in(r, 'logp_gibbs_exact'):
                        C.ob(False, f['q'] + '|forward', '%s gives every destination the same score' % f['q'], f, p)
                        continue
                    if r[0] != 'call' or base(r[1]) != 'logp_gibbs_exact':
                        raise Odd('not forwarded')
                    a = [('p', x['name']) for x in f['params']]
                    C.ob(r[2] == fld(THIS, 'emission_relation') and list(r[3])[:3] == a[:3], f['q'] + '|forward',
                         '%s does not score the same move in the emission relation' % f['q'], f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    return C.finish()


# ---------------------------------------------------------------- drawing --
def ops_of(t):
    return [o for o in t[2] if o[0] not in ('prior', 'touch')]


def feasible(dec):
    return not impossible(dec)


def draw_of(trace):
    """The one draw of the path: (index term, scores term)."""
    ds = [e for e in trace if e[0] == 'call' and e[2] is None and base(e[1]) in ('log_choice', 'sample_from_logps')]
    deep = [e for e, l in flat(trace) if e[0] == 'call' and e[2] is None and
            base(e[1]) in ('log_choice', 'sample_from_logps', 'choice')]
    if len(ds) != 1 or len(deep) != 1:
        raise Odd('%d draws' % len(deep))
    return unnormed(strip(ds[0][3]))


def unnormed(args):
    """A common factor of the weights does not change the draw."""
    if args and args[0][0] == 'call' and base(args[0][1]) == 'log_normalize':
        return (args[0][3][0],) + tuple(args[1:])
    return args


def flat(trace, loops=()):
    for ev in trace:
        if ev[0] == 'loop':
            for tr, dec, how in ev[2]:
                yield from flat(tr, loops + (strip(ev[1]),))
        else:
            yield ev, loops


def candidates(C, f, p, W, T, L, ob):
    """Candidates T and their scores L are filled side by side from W; returns
    the further operations on L and the per-case scores."""
    if T[0] != 'cont' or L[0] != 'cont' or T[1] != ('empty',) or L[1] != ('empty',):
        raise Odd('candidates')
    to, lo = ops_of(T), ops_of(L)
    if len(to) != 1 or to[0][0] != 'each' or not lo or lo[0][0] != 'each':
        raise Odd('candidate list')
    k = to[0][1]
    if k != lo[0][1] or k[0] != 'key':
        raise Odd('candidate loops')
    if not ob(k[2] == W, 'weights', 'takes its destinations from %s, not from the Gibbs weights of what is moved' % pp(k[2])[:80]):
        return None
    ob(not to[0][3] and not lo[0][3], 'every', 'stops before every destination is a candidate')
    tc = [c for c in to[0][2] if feasible(c[0])]
    lc = [c for c in lo[0][2] if feasible(c[0])]
    if len(tc) != len(lc):
        raise Odd('cases')
    out = []
    for (d1, s1, h1), (d2, s2, h2) in zip(tc, lc):
        s1 = [o for o in s1 if o[0] not in ('prior', 'touch')]
        s2 = [o for o in s2 if o[0] not in ('prior', 'touch')]
        if any(o[0] != 'push' for o in s1 + s2):
            raise Odd('candidate operation')
        if not ob(len(s1) == len(s2), 'aligned', 'does not keep destinations and scores aligned'):
            return None
        if not ob(len(s1) == 1, 'every', 'leaves out a possible destination or lists it twice'):
            return None
        ob(s1[0][1] == k, 'key', 'lists %s as the destination of a weight' % pp(s1[0][1])[:60])
        out.append((d2, s2[0][1]))
    return k, lo[1:], out


def terms(v):
    if v[0] == 'add':
        for x in v[1]:
            yield from terms(x)
    elif v[0] == 'sum' and all(not d for d, _ in v[2]):
        yield v
    elif v != ZERO:
        yield v


def prior_ok(W, k, t):
    return t == ('fn', 'log', ('at', W, k))


# ----------------------------------------------------------------- entity --
def entity(C, f, p):
    q = f['q']

    def ob(ok, key, msg):
        return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

    d, item = [('p', x['name']) for x in f['params'][1:3]]
    dom = ('at', fld(THIS, 'domains'), d)
    W = None
    for ev in p.trace:
        if ev[0] == 'call' and ev[2] is not None and base(ev[1]) in ('tables_weights_gibbs', 'tables_weights'):
            if W is not None:
                raise Odd('weights twice')
            W = strip(('call',) + tuple(ev[1:4]))
    if W is None:
        raise Odd('weights')
    good = ('call', 'Domain::tables_weights_gibbs', dom, (item,))
    cur = ('at', fld(fld(dom, 'crp'), 'assignments'), item)
    good2 = ('call', 'CRP::tables_weights_gibbs', fld(dom, 'crp'),
             (('call', 'Domain::get_cluster_assignment', dom, (item,)),))
    good3 = ('call', 'CRP::tables_weights_gibbs', fld(dom, 'crp'), (cur,))
    if not ob(W in (good, good2, good3), 'weights', 'scores its destinations with %s' % pp(W)[:80]):
        return
    args = draw_of(p.trace)
    L = args[0]
    idx = None
    moves = []          # (loops, conditions, object, args)
    T = None
    for ev, loops in flat(p.trace):
        if ev[0] == 'call' and ev[2] is not None and base(ev[1]) == 'set_cluster_assignment_gibbs':
            ch = strip(ev[3])
            c = [x for x in ch if x[0] == 'at' and x[1][0] == 'cont' and x[2][0] == 'call' and base(x[2][1]) in DRAWS]
            if not c:
                bad = [x for x in ch if x[0] == 'at' and x[1][0] == 'cont' or x[0] == 'call' and base(x[1]) in DRAWS]
                ob(not bad, 'chosen', 'moves to %s, not to the drawn destination' % pp(bad[0])[:60] if bad else '')
                if bad:
                    return
                raise Odd('destination')
            T = c[0][1]
            moves.append((loops, strip(ev[2]), ch, c[0], base(ev[1]), ev[1]))
    if T is None:
        # the path on which nothing moves must be the one where the choice is
        # the current destination
        for a, b in p.decisions:
            a = strip(a)
            if a[0] == 'eq' and b and any(current(x, dom, item) for x in a[1:]):
                o = [x for x in a[1:] if not current(x, dom, item)]
                if o and o[0][0] == 'at' and o[0][1][0] == 'cont':
                    T = o[0][1]
        if T is None:
            ob(any(mentions(strip(a), x) for a, b in p.decisions for x in ()), 'applied',
               'drops the drawn destination')
            return
    r = candidates(C, f, p, W, T, L, ob)
    if r is None:
        return
    k, more, cases = r
    for dec, v in cases:
        ts = list(terms(v))
        ob(len(ts) == 1 and prior_ok(W, k, ts[0]), 'prior', 'scores a destination with %s instead of the log of its weight' %
           pp(v)[:80])
    # data scores
    rels = ('at', fld(THIS, 'domain_to_relations'), d)
    added = 0
    for o in more:
        if o[0] != 'each':
            raise Odd('score operation')
        if not scores_relations(o, T, dom, item, rels, ob):
            return
        added += 1
    ob(added == 1, 'data', 'counts the data of the relations %d times' % added)
    # application
    if not moves:
        return
    last = None
    seen = {'rel': 0, 'dom': 0}
    for loops, o, a, c, nm, full in moves:
        ob(c[1] == T and c[2][3][0] == L, 'chosen', 'moves to a destination other than the drawn one')
        if o == dom and not loops:
            seen['dom'] += 1
            ob(a[0] == item, 'moved', 'moves another entity')
            last = 'dom'
        elif len(loops) == 1 and loops[0][0] == 'key' and loops[0][2] == rels:
            x = unalt(o)
            if x != ('at', fld(THIS, 'relations'), loops[0]):
                raise Odd('moved object')
            ob(a[0] == dom and a[1] == item, 'moved', 'moves another entity')
            ob(last != 'dom', 'order', 'moves the entity in its domain before its relations')
            seen['rel'] = 1
        else:
            raise Odd('moved object')
    ob(seen['dom'] == 1, 'applied domain', 'does not apply the destination to the domain exactly once')
    ob(seen['rel'] == 1, 'applied relations', 'does not apply the destination to the relations')
    for ev in p.trace:
        if ev[0] == 'loop' and strip(ev[1])[0] == 'key' and strip(ev[1])[2] == rels:
            everyrel(ev, dom, item, 'set_cluster_assignment_gibbs', 'applied relations', ob)


def unalt(o):
    while o[0] in ('alt', 'cast', 'deref'):
        o = o[-1]
    return o


def current(x, dom, item):
    return x == ('call', 'Domain::get_cluster_assignment', dom, (item,)) or \
        x == ('at', fld(fld(dom, 'crp'), 'assignments'), item)


def has_obs(a, dom, item, rel):
    return a[0] == 'call' and base(a[1]) == 'has_observation' and unalt(a[2]) == rel and a[3] == (dom, item)


def everyrel(ev, dom, item, verb, key, ob):
    """Every relation that observes the entity is moved once."""
    k = strip(ev[1])
    rel = ('at', fld(THIS, 'relations'), k)
    any_ = any(e[0] == 'call' and base(e[1]) == verb for tr, _, _ in ev[2] for e, _ in flat(tr))
    if not any_:
        return
    ob(not ev[4], key, 'stops before every relation is handled')
    for tr, dec, how in ev[2]:
        c = sum(1 for e, l in flat(tr) if e[0] == 'call' and base(e[1]) == verb)
        obs = None
        for a, b in dec:
            if has_obs(strip(a), dom, item, rel):
                obs = b
            elif has_obs_other(strip(a)):
                ob(False, key, 'tests the observations of something else')
        if obs is False:
            continue
        extra = [a for a, b in dec if not has_obs(strip(a), dom, item, rel)]
        if extra and c == 0:
            if any(about_data(strip(a)) for a in extra):
                raise Odd('condition on ' + pp(extra[0])[:60])
            ob(False, key, 'applies the destination to a relation only on a condition on %s' % pp(strip(extra[0]))[:60])
            continue
        ob(c == 1, key, 'applies the destination %d times to a relation that observes the entity' % c)


def about_data(a):
    """The condition may tell whether the relation has observations."""
    for x in subterms(a):
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'call' and isinstance(x[1], str) and \
                base(x[1]) in ('get_data', 'get_data_r', 'find', 'contains', 'count', 'empty'):
            return True
        if x[0] == 'f' and len(x) > 2 and x[2] in ('data', 'data_r') or x[0] in ('in', 'has', 'find'):
            return True
    return False


def has_obs_other(a):
    return a[0] == 'call' and base(a[1]) == 'has_observation'


def scores_relations(o, T, dom, item, rels, ob):
    k = o[1]
    if k[0] != 'key' or k[2] != rels:
        if k[0] == 'key' and k[2][0] == 'at' and k[2][1] == fld(THIS, 'domain_to_relations'):
            return ob(False, 'data', 'scores the relations of another domain')
        raise Odd('scores over ' + pp(k)[:60])
    rel = ('at', fld(THIS, 'relations'), k)
    ob(not o[3], 'data', 'stops before every relation is scored')
    for dec, sub, how in o[2]:
        sub = [x for x in sub if x[0] not in ('prior', 'touch')]
        obs = other = None
        for a, b in dec:
            a = strip(a)
            if has_obs(a, dom, item, rel):
                obs = b
            elif has_obs_other(a):
                return ob(False, 'data', 'tests the observations of something else')
            elif not sub and obs is not False:
                other = a
        if other is not None and obs is not False:
            if about_data(other):
                raise Odd('condition on ' + pp(other)[:60])
            return ob(False, 'data', 'scores a relation only on a condition on %s' % pp(other)[:60])
        if obs is False:
            if not ob(not sub, 'data', 'scores a relation that does not observe the entity'):
                return False
            continue
        if not ob(len(sub) == 1, 'data', 'adds the score of a relation %d times' % len(sub)):
            return False
        e = sub[0]
        if e[0] != 'each' or e[1][0] != 'idx' or len(e[2]) != 1:
            raise Odd('adding the scores')
        if not ob(not e[3], 'data', 'stops before every destination has its data score'):
            return False
        j = e[1]
        ops = [x for x in e[2][0][1] if x[0] not in ('prior', 'touch')]
        if len(ops) != 1 or ops[0][0] != 'put' or e[2][0][0]:
            raise Odd('adding the scores')
        if not ob(ops[0][1] == j, 'aligned', 'adds a data score to another destination'):
            return False
        v = ops[0][2]
        ts = list(terms(v))
        calls = [x for x in ts if calls_in(x, 'logp_gibbs_exact')]
        rest = [x for x in ts if not calls_in(x, 'logp_gibbs_exact')]
        if len(rest) != 1 or not (rest[0][0] == 'at' and rest[0][2] == j) or len(calls) != 1:
            if any(x[0] not in ('at', 'mul') for x in ts):
                raise Odd('score update')
            return ob(False, 'data', 'updates a score with %s' % pp(v)[:80])
        x = calls[0]
        if not ob(x[0] == 'at' and x[1][0] == 'call' and x[2] == j, 'aligned',
                  'adds %s to a destination' % pp(x)[:80]):
            return False
        c = x[1]
        if not ob(unalt(c[2]) == rel, 'data', 'scores another relation'):
            return False
        ob(c[3][0] == dom and c[3][1] == item, 'data', 'scores another entity')
        ob(c[3][2] == T, 'aligned', 'scores another list of destinations')
    return True


def calls_in(t, nm):
    return any(isinstance(x, tuple) and x and x[0] == 'call' and isinstance(x[1], str) and base(x[1]) == nm for x in subterms(t))


# --------------------------------------------------------------- relation --
def relation(C, f, p):
    q = f['q']

    def ob(ok, key, msg):
        return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

    r = ('p', f['params'][1]['name'])
    crp = fld(THIS, 'crp')
    rc = ('at', fld(THIS, 'relation_to_code'), r)
    cur = ('at', fld(crp, 'assignments'), rc)
    irms = fld(THIS, 'irms')
    W = ('call', 'CRP::tables_weights_gibbs', crp, (cur,))
    ws = [strip(('call',) + tuple(ev[1:4])) for ev in p.trace if ev[0] == 'call' and
          base(ev[1]) in ('tables_weights_gibbs', 'tables_weights')]
    if len(ws) != 1:
        raise Odd('weights')
    if not ob(ws[0] == W, 'weights', 'scores its destinations with %s' % pp(ws[0])[:80]):
        return
    L = draw_of(p.trace)[0]
    draw = ('call', 'log_choice')
    # partition update names the choice
    ch = None
    steps = []
    for ev in p.trace:
        if ev[0] == 'call' and ev[2] is not None and strip(ev[2]) == crp and base(ev[1]) in ('incorporate', 'unincorporate'):
            a = strip(ev[3])
            steps.append((base(ev[1]), a))
    if not steps:
        for c, v in p.decisions:
            c = strip(c)
            if v and c[0] == 'eq' and len(c) == 3 and cur in c[1:]:
                x = c[2] if c[1] == cur else c[1]
                if x != cur and any(isinstance(y, tuple) and y and y[0] == 'call' and base(y[1]) in DRAWS for y in subterms(x)):
                    # it stays where it is
                    steps = [('unincorporate', (rc,)), ('incorporate', (rc, x))]
                    break
    ob([s[0] for s in steps] == ['unincorporate', 'incorporate'], 'partition', 'does not move the relation once in the partition')
    for s, a in steps:
        ob(a[0] == rc, 'partition', 'moves another relation in the partition')
    if [s[0] for s in steps] != ['unincorporate', 'incorporate'] or len(steps[1][1]) < 2:
        return
    ch = steps[1][1][1]
    if ch[0] != 'at' or ch[1][0] != 'cont' or ch[2][0] != 'call' or base(ch[2][1]) not in DRAWS:
        bad = ch[0] in ('call', 'p', 'f') or ch == cur or ch[0] == 'at'
        if bad:
            ob(False, 'chosen', 'seats the relation at %s, not at the drawn destination' % pp(ch)[:60])
            return
        raise Odd('destination')
    ob(unnormed(ch[2][3])[0] == L, 'chosen', 'uses another draw')
    T = ch[1]
    res = candidates(C, f, p, W, T, L, ob)
    if res is None:
        return
    k, more, cases = res
    if more:
        raise Odd('later score changes')
    view = ('at', irms, k)
    fresh = []
    for dec, v in cases:
        ts = list(terms(v))
        pri = [t for t in ts if prior_ok(W, k, t)]
        ob(len(pri) == 1, 'prior', 'scores a view without the log of its weight: %s' % pp(v)[:80])
        sc = [t for t in ts if not prior_ok(W, k, t)]
        if not ob(len(sc) == 1 and sc[0][0] == 'call' and base(sc[0][1]) == 'logp_score', 'data',
                  'scores the data of a view with %s' % pp(v)[:80]):
            continue
        o = unalt(sc[0][2])
        if o[0] == 'at' and o[1][0] == 'f' and o[1][2] == 'relations' and o[2] == r:
            vw = o[1][1]
        else:
            ob(False, 'data', 'scores %s instead of the relation in the view' % pp(o)[:80])
            continue
        has = [b for a, b in dec if strip(a) == ('contains', irms, k)]
        if vw[0] == 'new':
            ob(has == [False], 'view', 'scores a fresh view for an existing destination')
            fresh.append(vw)
        else:
            ob(vw == view and has != [False], 'view', 'scores the relation in another view')
    # data of the candidate views
    W1 = [ev for ev in p.trace if ev[0] == 'loop' and strip(ev[1]) == k]
    filled = [ev for ev in W1 if any(e[0] == 'call' and base(e[1]) in ('add_relation', 'add_relation_with_base')
                                     for tr, _, _ in ev[2] for e, l in flat(tr))]
    if len(filled) != 1:
        raise Odd('filling the views')
    for tr, dec, how in filled[0][2]:
        dec = [(strip(a), b) for a, b in dec]
        if not feasible(dec):
            continue
        same = [b for a, b in dec if a[0] == 'eq' and cur in a[1:] and k in a[1:]]
        same = same[0] if same else None
        has = [b for a, b in dec if a == ('contains', irms, k)]
        if has == [False] and same is True:
            continue        # the current destination always has a view
        adds, fills, score = [], [], []
        for i, ev in enumerate(tr):
            if ev[0] == 'call' and ev[2] is not None and base(ev[1]) in ('add_relation', 'add_relation_with_base'):
                adds.append((i, strip(ev[2]), strip(ev[3])))
            elif ev[0] == 'call' and base(ev[1]) == 'logp_score':
                score.append((i, strip(ev[2])))
            elif ev[0] == 'loop':
                for e, l in flat((ev,)):
                    if e[0] == 'call' and base(e[1]) == 'incorporate':
                        fills.append((i, strip(e[2]), strip(e[3]), l, ev))
        if same is True:
            ob(not adds and not fills, 'view data', 'adds the relation to the view it is already in')
            continue
        if same is None and not adds:
            raise Odd('which view is current')
        if not ob(len(adds) == 1, 'view data', 'adds the relation %d times to a candidate view' % len(adds)):
            continue
        i, o, a = adds[0]
        V = view if has != [False] else o
        ob(o == V and (has != [False] or o[0] == 'new'), 'view data', 'adds the relation to another view')
        ob(a[0] == r and unalt(a[1]) == ('at', fld(THIS, 'schema'), r), 'view data', 'adds another relation to a view')
        if not ob(len(fills) == 1, 'view data', 'copies the data of the relation %d times' % len(fills)):
            continue
        j, o2, a2, l, ev = fills[0]
        ob(o2 == o, 'view data', 'copies the data to another view')
        dk = l[0]
        src = dk[2] if dk[0] == 'key' and len(l) == 1 else None
        want = [('at', fld(('at', irms, cur), 'relations'), r)]
        if src is None or src[0] != 'call' or base(src[1]) != 'get_data':
            raise Odd('data copied from ' + pp(dk)[:60])
        ob(unalt(src[2]) in want, 'view data', 'copies the data of another relation')
        ob(a2[1] == r and a2[2] == dk and a2[3] == ('at', src, dk), 'view data', 'copies other data')
        ob(not ev[4] and len([1 for t, d_, h in ev[2] if feasible(d_)]) ==
           len([1 for t, d_, h in ev[2] if feasible(d_) and any(e[0] == 'call' and base(e[1]) == 'incorporate' for e, _ in flat(t))]),
           'view data', 'copies only some of the data')
        ob(all(s[0] > j for s in score) and i < j, 'view data', 'scores the view before the data is in it')
    # views after the draw
    tables = fld(crp, 'tables')
    removed = 0
    for ev in p.trace:
        if ev[0] != 'loop':
            continue
        key = strip(ev[1])
        rm = any(e[0] == 'call' and base(e[1]) == 'remove_relation' for tr, _, _ in ev[2] for e, _ in flat(tr))
        if not rm:
            continue
        removed += 1
        if key[0] != 'key' or key[2] not in (tables, irms):
            raise Odd('views cleaned over ' + pp(key)[:60])
        v = ('at', irms, key)
        ob(not ev[4], 'cleanup', 'stops before every view is cleaned')
        for tr, dec, how in ev[2]:
            dec = [(strip(a), b) for a, b in dec]
            if not feasible(dec):
                continue
            same = [b for a, b in dec if a[0] == 'eq' and key in a[1:] and ch in a[1:]]
            other = [a for a, b in dec if a[0] == 'eq' and key in a[1:] and ch not in a[1:]]
            rms = [(strip(e[2]), strip(e[3])) for e, l in flat(tr) if e[0] == 'call' and base(e[1]) == 'remove_relation']
            if not same:
                if other:
                    ob(False, 'cleanup', 'compares the views with %s instead of the drawn destination' % pp(other[0])[:60])
                    continue
                if not rms:
                    raise Odd('cleanup condition')
                ob(False, 'cleanup', 'removes the relation from the chosen view')
                continue
            if same[0]:
                ob(not rms, 'cleanup', 'removes the relation from the chosen view')
            else:
                ob(rms == [(v, (r,))], 'cleanup', 'leaves the relation in a view that was not chosen')
    ob(removed == 1, 'cleanup', 'does not take the relation out of the other views')
    # the fresh view
    aux = None
    for ev in p.trace:
        for x in (ev[1:4] if ev[0] in ('put', 'delete') else ()):
            if isinstance(x, tuple) and any(isinstance(y, tuple) and y and y[0] == 'new' and y[1] == 'IRM'
                                            for y in subterms(strip(x))):
                aux = True
    kept, gone = [], 0
    for ev in p.trace:
        if ev[0] == 'put' and strip(ev[1]) == irms:
            if holds_new(strip(ev[3])):
                kept.append(strip(ev[2]))
        elif ev[0] == 'delete' and holds_new(strip(ev[1])):
            gone += 1
    if fresh and kept and any(b and strip(a)[0] == 'eq' and ch in strip(a)[1:] and cur in strip(a)[1:] for a, b in p.decisions):
        fresh = []          # the fresh view is never the current one
    if fresh:
        if kept:
            ob(kept == [ch] and not gone, 'fresh view', 'keeps the fresh view under another name, or deletes it as well')
            eq = [b for a, b in p.decisions if strip(a)[0] == 'eq' and ch in strip(a)[1:] and cur not in strip(a)[1:] and not any(x[0] == 'n' for x in strip(a)[1:])]
            con = [b for a, b in p.decisions if strip(a) == ('contains', irms, ch)]
            if not eq and not con and any(mentions(strip(a), ch) for a, b in p.decisions):
                raise Odd('keeping the fresh view')
            ob(eq[-1:] == [True] or con[-1:] == [False], 'fresh view', 'keeps the fresh view when it was not chosen')
        else:
            nul = [b for a, b in p.decisions if strip(a)[0] == 'eq' and ('null',) in strip(a)[1:]]
            if not nul:
                eq = [b for a, b in p.decisions if strip(a)[0] == 'eq' and ch in strip(a)[1:] and cur not in strip(a)[1:] and not any(x[0] == 'n' for x in strip(a)[1:])]
                con = [b for a, b in p.decisions if strip(a) == ('contains', irms, ch)]
                if not eq and not con:
                    raise Odd('dropping the fresh view')
            eq = [b for a, b in p.decisions if strip(a)[0] == 'eq' and ch in strip(a)[1:] and cur not in strip(a)[1:] and not any(x[0] == 'n' for x in strip(a)[1:])]
            con = [b for a, b in p.decisions if strip(a) == ('contains', irms, ch)]
            ob(not (eq[-1:] == [True] and nul[-1:] != [True] and con[-1:] != [True]), 'fresh view', 'drops the fresh view although it was chosen')


def holds_new(t):
    return any(isinstance(y, tuple) and len(y) > 1 and y[0] == 'new' and y[1] == 'IRM' for y in subterms(t))


# ------------------------------------------------------------------ exact --
def keyed(t):
    """Cluster keys by name, call numbering kept."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'acc':
        return keyed(t[2])
    if t and t[0] == 'LOC':
        return keyed(t[1])
    if t and t[0] == 'cont':
        k = cluster_key(t)
        if k is not None:
            return k
    return tuple(keyed(x) if isinstance(x, tuple) else x for x in t)


def exact(C, f, p):
    q = f['q']

    def ob(ok, key, msg):
        return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

    dom, item, tabs = [('p', x['name']) for x in f['params'][:3]]
    data = ('at', ('at', fld(THIS, 'data_r'), fld(dom, 'name')), item)
    r = keyed(p.ret)
    if r[0] != 'cont' or r[1] != ('empty',):
        raise Odd('result')
    ops = ops_of(r)
    if len(ops) != 1 or ops[0][0] != 'each' or ops[0][1] != ('idx', 0, ('size', tabs)) or len(ops[0][2]) != 1:
        raise Odd('result')
    ob(not ops[0][3], 'every', 'stops before every table is scored')
    sub = [o for o in ops[0][2][0][1] if o[0] not in ('prior', 'touch')]
    if not ob(len(sub) == 1 and sub[0][0] == 'push', 'every', 'does not give one score per table'):
        return
    table = ('at', tabs, ops[0][1])
    S = sub[0][1]
    if S[0] == 'last' and calls_in(S, 'logp_score'):
        ob(False, 'gain', 'keeps the score of the last cluster only')
        return
    if S[0] != 'sum':
        raise Odd('score ' + pp(S)[:60])
    g = S[1]
    # groups of observations by destination
    if g[0] != 'key' or g[2][0] != 'cont' or g[2][1] != ('empty',):
        raise Odd('groups')
    go = ops_of(g[2])
    if len(go) != 1 or go[0][0] != 'each':
        raise Odd('groups')
    ik = go[0][1]
    if not ob(ik[0] == 'key' and ik[2] == data, 'observations', 'does not score exactly the observations of the entity'):
        return
    ob(not go[0][3], 'observations', 'scores only some of the observations')
    for dec, o, how in go[0][2]:
        o = [x for x in o if x[0] not in ('prior', 'touch')]
        dec = [d for d in dec if not size_test(d[0])]
        if not o and dec:
            raise Odd('observation condition')
        if not ob(len(o) == 1, 'observations', 'lists an observation %d times' % len(o)):
            return
        o = o[0]
        if o[0] != 'upd' or o[2][0] != 'push':
            raise Odd('grouping')
        ob(o[2][1] == ik, 'observations', 'groups something else than the observation')
        z = o[1]
        if z[0] == 'Z':
            ob(False, 'destination', 'scores an observation in the cluster it is in now')
        elif z[0] in ('ZG', 'badZG'):
            ob(z[0] == 'ZG' and z[2] == ik and z[3] == dom and z[4] == item and z[5] == table, 'destination',
               'scores an observation in another cluster than its destination')
        else:
            raise Odd('group key ' + pp(z)[:60])
    group = ('at', g[2], g)
    there = ('at', fld(THIS, 'clusters'), g)
    for dec, v in S[2]:
        dec = [(keyed(a), b) for a, b in dec]
        if v == ZERO:
            raise Odd('score zero')
        pos, neg = [], []
        for t in terms(v):
            if t[0] == 'call' and base(t[1]) == 'logp_score':
                pos.append(t)
            elif t[0] == 'mul' and t[1][0] == n(-1) and len(t[1]) == 2 and t[1][1][0] == 'call' and \
                    base(t[1][1][1]) == 'logp_score':
                neg.append(t[1][1])
            else:
                raise Odd('score term ' + pp(t)[:60])
        if not ob(len(pos) == 1 and len(neg) == 1 and pos[0][2] == neg[0][2], 'gain', 'does not return the score gained'):
            continue
        ob(ver(pos[0]) > ver(neg[0]), 'gain', 'returns the score lost instead of the score gained')
        o = pos[0][2]
        has = [b for a, b in dec if a == ('contains', fld(THIS, 'clusters'), g)]
        if o == there:
            ob(has != [False], 'cluster', 'scores in a missing cluster')
        elif made(o):
            ob(has == [False], 'cluster', 'scores in a fresh cluster although the destination exists')
        else:
            ob(False, 'cluster', 'scores in %s' % pp(o)[:80])
    # what is in and out while a table is scored
    outs = []
    level = 0
    for ev in p.trace:
        if ev[0] != 'loop':
            continue
        key = keyed(ev[1])
        evs = [(e, l) for e, l in flat2(ev)]
        mv = [(e, l) for e, l in evs if e[0] == 'call' and base(e[1]) in ('incorporate', 'unincorporate') and
              e[1].startswith('Distribution')]
        if not mv:
            continue
        if key == ops[0][1]:
            ob(level == -1, 'taken out', 'scores a table while the observations of the entity are in their clusters')
            for tr, dec, how in ev[2]:
                inside(C, tr, g, group, there, ob)
        else:
            for e, l in mv:
                o, a = keyed(e[2]), keyed(e[3])
                if len(l) != 1 or l[0] != key or key[0] != 'key' or key[2] != data:
                    raise Odd('moved over ' + pp(key)[:60])
                ob(o == ('at', fld(THIS, 'clusters'), ('Z', THIS, key)) and a[0] == ('at', fld(THIS, 'data'), key),
                   'taken out', 'moves something else than an observation of its current cluster')
            level += {'incorporate': 1, 'unincorporate': -1}[base(mv[0][0][1])]
            ob(not ev[4], 'taken out', 'takes out or returns only some of the observations')
    ob(level == 0, 'taken out', 'does not return the observations of the entity')


def size_test(a):
    a = strip(a)
    return a[0] == 'eq' and all(x[0] == 'size' for x in a[1:])


def ver(t):
    return t[4][1] if len(t) > 4 else 0


def made(o):
    o = unalt(o)
    return o[0] == 'call' and base(o[1]) in MAKERS


def flat2(ev, loops=()):
    for tr, dec, how in ev[2]:
        for e in tr:
            if e[0] == 'loop':
                yield from flat2(e, loops + (keyed(ev[1]),))
            else:
                yield e, loops + (keyed(ev[1]),)


def inside(C, tr, g, group, there, ob):
    """One table: for every group the first score is taken with the group out,
    the second with it in, and it is taken out again."""
    for ev in tr:
        if ev[0] != 'loop' or keyed(ev[1]) != g:
            if ev[0] == 'loop' and any(e[0] == 'call' and e[1].startswith('Distribution') for e, _ in flat2(ev)):
                raise Odd('table loop')
            continue
        for t2, dec, how in ev[2]:
            st = []
            for e in t2:
                if e[0] == 'call' and base(e[1]) == 'logp_score':
                    st.append('score')
                elif e[0] == 'loop':
                    for x, l in flat2(e):
                        if x[0] == 'call' and base(x[1]) in ('incorporate', 'unincorporate') and x[1].startswith('Distribution'):
                            o, a = keyed(x[2]), keyed(x[3])
                            ik = l[-1]
                            if len(l) != 1 or ik[0] != 'idx' or ik[2] != ('size', group):
                                raise Odd('group loop')
                            ob((o == there or made(o)) and a[0] == ('at', fld(THIS, 'data'), ('at', group, ik)), 'group',
                               'adds something else than the observations of the group')
                            ob(not e[4], 'group', 'adds only some of the observations of the group')
                            st.append(base(x[1]))
            if 'incorporate' not in st or st.count('score') < 2:
                raise Odd('group steps')
            ob(st[:4] == ['score', 'incorporate', 'score', 'unincorporate'], 'group',
               'does not score a group before and after adding it: %s' % ' '.join(st))


if __name__ == '__main__':
    rule.main('C32', main)
