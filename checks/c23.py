"""C23: moving a reference takes out and puts back exactly the affected observations.

The Gibbs move of a reference and its helpers are followed path by path with
the relations and partitions opaque: which values are taken out, from where,
under which items they are kept, what is scored and what is put back."""
from sa import rule
from sa.flow import core, subterms, has, sites, at, flat, near, order
from sa.load import load
from sa.interp import pp, n, mk_add
from sa.rule import Broken
from sa.db import Odd, fld, plain, tup, THIS, RRI, REF, CLASSES

RULE = ('The relations affected by a reference are those with a recorded position of it; in each, the observations whose '
        'items hold the row at such a position are taken out: kept under their relation and items with their value, '
        'removed, scored in the state without them, with the values they observe once nothing else observes those.  Rows '
        'nobody refers to any more are taken out likewise, and entities without observations leave their clusters, '
        'recorded under them.  Every candidate is put in with all kept values at the items it implies, scored and taken out '
        'again; the weight of a candidate is the log of its table weight and these scores.  The chosen one is put back '
        'with its recorded clusters and all kept values.')

E = fld(THIS, 'entity_crps')
HIRM = fld(THIS, 'hirm')
HS = fld(HIRM, 'schema')
CTR = fld(THIS, 'class_to_relations')

G = 'GenDB::'
U, US, UR, SING = G + 'unincorporate_reference_relation', G + 'unincorporate_reference_relation_singleton', \
    G + 'unincorporate_reference', G + 'unincorporate_singleton'
FROMCRP, FROMDOM = G + 'unincorporate_from_entity_cluster', G + 'unincorporate_from_domain_cluster_relation'
INDS, UPD, INC, INCR, BACK = G + 'get_domain_inds', G + 'update_reference_items', G + 'incorporate_reference', \
    G + 'incorporate_reference_relation', G + 'reincorporate_new_refval'
POPULATE, ITEMS, NOISY, ID = G + 'sample_and_incorporate_for_class', G + 'get_relation_items', G + 'has_noisy_observations', \
    G + 'get_reference_id'
MOVE = G + 'transition_reference'
OPAQUE = {U, US, UR, SING, FROMCRP, FROMDOM, INDS, UPD, INC, INCR, BACK, POPULATE, ITEMS, NOISY, ID, MOVE}
SCORES = {U, US, UR, SING, FROMCRP, FROMDOM, 'CRP::logp', 'CRP::logp_new_table', 'Relation::cluster_or_prior_logp_from_items'}


def main():
    P = load(defs=['-DNDEBUG'])
    C = rule.Check('C23', RULE, ['the recorded reference positions are those of the schema (C24)',
                                 'relations take out and put back what they are told to (C12, C13), a score is that of the '
                                 'state it is asked in (C05, C06)'],
                   min_obligations=20, program=P)
    for q, fun, forget in ((INDS, positions, True), (U, takeout, True), (US, takeout, True), (NOISY, noisy, True),
                           (UR, affected, True), (UPD, renamed, True), (INC, putall, True), (INCR, putin, True),
                           (FROMDOM, leave, True), (SING, rows, True), (MOVE, move, False), (BACK, back, True)):
        fs = [f for f in P.fn(q) if f.get('body')]
        if not fs:
            C.unanalysed.append('no ' + q)
        for f in fs:
            def opaque(g, f=f):
                if g.get('key') == f['key'] or g.get('q', '') in OPAQUE:
                    return True
                h = P.fns.get(g.get('key'))
                return h is None or not near(h['file'], f['file'])
            try:
                ps = C.try_run(f, opaque=opaque, snap=True, sizes=True, forget=forget, asks=True)
                if ps is None:
                    continue
                ps = [p for p in ps if not p.aborted and p.exit[0] != 'abort']
                if not ps:
                    raise Odd('no path')
                for p in ps:
                    fun(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:160]))
    return C.finish()


# ---------------------------------------------------------------- helpers --
def nv(t):
    """Without the count of changes before a value was read."""
    t = plain(t)

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and len(x) > 4:
                x = x[:4]
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return x
    return go(t)


def params(f):
    return [('p', x['name']) for x in f['params']]


def pair(t, k):
    if t[0] == 'tuple':
        return tuple(tup(t))
    return (fld(t, 'first'), fld(t, 'second')) + ((fld(t, 2),) if k == 3 else ())


def target(cls, field):
    return fld(fld(('at', fld(('at', CLASSES, cls), 'vars'), field), 'spec'), 'class_name')


def isval(v, cls, field, item):
    return v[0] == 'at' and v[1] == ('at', REF, cls) and pair(v[2], 2) == (field, item)


def truth(decs, test):
    """What the decisions say on a question (None: not asked)."""
    r = None
    for a, t in decs:
        x = test(nv(a), core(a))
        if x is not None:
            r = (x == t)
    return r


def asked(term):
    return lambda a, raw: True if a == term else None


def isnoisy(rel):
    def go(a, raw):
        if raw[0] == 'altp' and plain(raw[2]) == ('at', HS, rel):
            return 'noisy' in raw[1]
        if raw[0] == 'fn' and 'holds_alternative' in str(raw[1]) and has(a, ('at', HS, rel)):
            return 'noisy' in str(raw)
        return None
    return go


def call(q):
    return lambda e: e[0] == 'call' and e[1] == q


def args(e):
    return [nv(x) for x in e[3]]


def leaves(tr, pred, loops=(), decs=(), hows=()):
    """The innermost rounds of a nest of loops around what pred looks for, and those that do without."""
    ls = [e for e in tr if e[0] == 'loop' and any(pred(x) for b in e[2] for x in flat(b[0]))]
    here = [e for e in tr if e[0] != 'loop' and pred(e)]
    if here or not ls:
        yield here, loops, decs, hows, tr
    for e in ls:
        for b, dec, how in e[2]:
            yield from leaves(b, pred, loops + (nv(e[1]),), decs + tuple(dec), hows + (how,))


def over(k, c):
    return k[0] == 'key' and k[-1] == c or k[0] == 'idx' and k[-1] == ('size', c)


def summed(t):
    """The terms that a sum adds up."""
    t = nv(t)
    if t[0] == 'add':
        for x in t[1]:
            yield from summed(x)
    elif t[0] == 'sum':
        for alt in t[2]:
            v = [x for x in alt[1:] if isinstance(x, tuple)]
            yield from summed(v[0])
    elif t != n(0):
        yield t


def scored(C, f, p, ret, what):
    """Every score taken on the way is added up once, and nothing else."""
    got = list(summed(ret))
    want = [('call',) + (e[1], None if e[2] is None else nv(e[2]), tuple(nv(x) for x in e[3])) for e in flat(p.trace)
            if e[0] == 'call' and e[1] in SCORES]
    for w in want:
        C.ob(got.count(w) >= 1, f['q'] + '|score ' + w[1], '%s does not add %s to %s' % (f['q'], w[1], what), f, path=p)
    for g in got:
        C.ob(g in want, f['q'] + '|other score', '%s adds %s to %s' % (f['q'], pp(g)[:100], what), f, path=p)
    C.ob(len(set(map(str, got))) == len(got) or len(got) <= len(want), f['q'] + '|twice',
         '%s adds a score twice to %s' % (f['q'], what), f, path=p)


def last(c):
    return mk_add(('size', c), n(-1))


# ------------------------------------------------------------------ rules --
def positions(C, f, p):
    """get_domain_inds"""
    cls, field = params(f)
    C.note('positions: ' + f['q'])
    hit = 0

    def pred(e):
        return e[0] == 'push' and nv(e[1])[0] == 'at' and nv(e[2])[0] == 'idx'
    for here, loops, decs, hows, tr in leaves(p.trace, pred):
        C.ob(all(h in ('next', 'continue') for h in hows), f['q'] + '|stop', '%s stops early' % f['q'], f, path=p)
        rel = loops[0] if loops else None
        if rel is None:
            C.ob(False, f['q'] + '|relations', '%s does not go through the relations' % f['q'], f, path=p)
            return
        C.ob(rel[0] == 'key' and rel[-1] in (HS, RRI), f['q'] + '|relations', '%s does not go through all relations' % f['q'], f,
             path=p)
        D = fld(('at', HS, rel), 'domains')
        known = truth(decs, asked(('contains', RRI, rel)))
        i = loops[1] if len(loops) > 1 else None
        is_cls = truth(decs, lambda a, r: True if i and a in (('eq', ('at', D, i), cls), ('eq', cls, ('at', D, i))) else None)
        refers = truth(decs, lambda a, r: True if i and a == ('contains', ('at', ('at', RRI, rel), i), field) else None)
        some = truth(decs, lambda a, r: True if i and a == ('contains', ('at', RRI, rel), i) else None)
        no = known is False or is_cls is False or refers is False or some is False
        if not here:
            C.ob(no, f['q'] + '|left out', '%s leaves out a position of the reference' % f['q'], f, path=p)
            continue
        hit += 1
        C.ob(not no and is_cls and refers, f['q'] + '|others', '%s lists a position of something else' % f['q'], at(here[0]), p)
        C.ob(len(here) == 1 and i is not None and over(i, D) and nv(here[0][2]) == i and nv(here[0][1])[2] == rel,
             f['q'] + '|position', '%s lists another position than that of the row' % f['q'], f, path=p)
    C.ob(hit >= 1, f['q'] + '|none', '%s lists no position' % f['q'], f, path=p)


def noisy(C, f, p):
    rel, items = params(f)
    C.note('observed: ' + f['q'])
    B = fld(HIRM, 'base_to_noisy_relations')
    ret = nv(p.exit[1])
    known = truth(p.decisions, asked(('contains', B, rel)))
    if ret == ('b', True):
        good = [a for a, t in p.decisions if t and nv(a)[0] == 'contains' and nv(a)[1][:1] == ('f',) and
                nv(a)[1][2] == 'base_to_noisy_items']
        ok = False
        for a in good:
            a = nv(a)
            r = a[1][1]
            ok = ok or a[2] == items and r[0] == 'call' and r[1] == 'HIRM::get_relation' and r[3][0][:2] == ('at', ('at', B, rel))
        C.ob(ok, f['q'] + '|yes', '%s says yes without an observation' % f['q'], f, path=p)
        return
    if ret != ('b', False):
        C.ob(not (ret[0] == 'contains' and ret[2] == items), f['q'] + '|no', '%s asks one noisy relation only' % f['q'], f, path=p)
        raise Odd('neither yes nor no')
    if known is False:
        return
    loops = [e for e in p.trace if e[0] == 'loop' and over(nv(e[1]), ('at', B, rel))]
    ok = len(loops) == 1 and all(h in ('next', 'continue') and truth(
        d, lambda a, r: True if a[0] == 'contains' and a[2] == items and a[1][:1] == ('f',) and a[1][2] == 'base_to_noisy_items' and
        a[1][1][0] == 'call' and a[1][1][3][0] == ('at', ('at', B, rel), nv(loops[0][1])) else None) is False
        for b, d, h in loops[0][2])
    C.ob(ok, f['q'] + '|no', '%s says no without asking every noisy relation' % f['q'], f, path=p)


def takeout(C, f, p):
    """unincorporate_reference_relation(_singleton)"""
    ps = params(f)
    single = f['q'] == US
    rel, name, items = ps[:3]
    kept = ps[-1]
    C.note('taken out: ' + f['q'])
    ind = None if single else ps[3]
    D = fld(('at', HS, name), 'domains')
    have = truth(p.decisions, asked(('contains', ('call', 'Relation::get_data', rel, ()), items)))
    watched = truth(p.decisions, asked(('call', NOISY, THIS, (name, items))))
    if single:
        LASTD, LASTI = ('at', D, ('last',)), ('at', items, ('last',))
        stays = truth(p.decisions, asked(('contains', fld(('at', E, LASTD), 'tables'), LASTI)))
    else:
        stays = truth(p.decisions, lambda a, r: True if a == ('lt', ind, ('size', items)) else None)
        stays = None if stays is None else not stays
        if stays is None:
            x = truth(p.decisions, lambda a, r: True if a == ('le', ('size', items), ind) else None)
            stays = x
    acts = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] in (
        'Relation::unincorporate_from_cluster', 'Relation::cleanup_data', 'Relation::cluster_or_prior_logp_from_items', f['q'],
        'Relation::unincorporate', 'Relation::cleanup_clusters', 'Relation::incorporate')]
    puts = [(i, e) for i, e in enumerate(p.trace) if e[0] in ('put', 'ins') and nv(e[1]) == ('at', kept, name)]
    ret = nv(p.exit[1])
    if not acts and not puts:
        C.ob(have is False or watched is True or stays is True, f['q'] + '|left', '%s leaves an affected value in' % f['q'], f, path=p)
        C.ob(ret == n(0), f['q'] + '|score of none', '%s scores a value it leaves in' % f['q'], f, path=p)
        return
    C.ob(have is True, f['q'] + '|have', '%s takes out a value that may not be there' % f['q'], f, path=p)
    C.ob(watched is False, f['q'] + '|watched', '%s takes out a value that others may still observe' % f['q'], f, path=p)
    C.ob(stays is False, f['q'] + '|stays', '%s takes out a value that is not affected' % f['q'], f, path=p)
    VAL = ('call', 'Relation::get_value', rel, (items,))
    C.ob(len(puts) == 1 and nv(puts[0][1][2]) == items and nv(puts[0][1][3]) == VAL, f['q'] + '|kept',
         '%s does not keep the value under its relation and items' % f['q'], f, path=p)
    def one(q, want):
        es = [(i, e) for i, e in acts if e[1] == q]
        C.ob(len(es) == 1 and nv(es[0][1][2]) == rel and args(es[0][1])[-len(want):] == want, f['q'] + '|' + q.split('::')[1],
             '%s does not %s once, with the items' % (f['q'], q.split('::')[1]), f, path=p)
        return es[0][0] if es else None
    a = one('Relation::unincorporate_from_cluster', [items])
    b = one('Relation::cluster_or_prior_logp_from_items', [items, VAL])
    c = one('Relation::cleanup_data', [items])
    if None in (a, b, c):
        return
    C.ob(a < b < c, f['q'] + '|order', '%s does not score the value between taking it out and forgetting it' % f['q'], f, path=p)
    v = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == 'Relation::get_value']
    C.ob(not v or min(v) < c, f['q'] + '|value', '%s reads the value after it is gone' % f['q'], f, path=p)
    nz = truth(p.decisions, isnoisy(name))
    if nz is None:
        raise Odd('whether the relation is noisy')
    rec = [(i, e) for i, e in acts if e[1] == f['q']]
    C.ob(len(rec) == (1 if nz else 0), f['q'] + '|base', '%s %s the value observed' % (
        f['q'], 'does not go on to' if nz else 'takes out twice'), f, path=p)
    for i, e in rec:
        g = args(e)
        BN = fld(('at', HS, name), 'base_relation')
        BI = g[2][0] == 'call' and g[2][1].endswith('::get_base_items') and g[2][2] == rel and g[2][3] == (items,)
        br = g[0] == ('call', 'HIRM::get_relation', HIRM, (BN,)) or g[0] == fld(rel, 'base_relation')
        C.ob(g[1] == BN and BI and br and (single or g[3] == ind) , f['q'] + '|which base',
             '%s goes on to another value than the one observed' % f['q'], at(e), p)
        C.ob(i > c, f['q'] + '|when', '%s goes on before the observation is gone' % f['q'], at(e), p)
    scored(C, f, p, p.exit[1], 'its score')


def affected(C, f, p):
    """unincorporate_reference"""
    inds, cls, field, item, kept, un = params(f)
    C.note('affected: ' + f['q'])
    hit = 0
    for here, loops, decs, hows, tr in leaves(p.trace, call(U)):
        C.ob(all(h in ('next', 'continue') for h in hows), f['q'] + '|stop', '%s stops early' % f['q'], f, path=p)
        if not loops:
            C.ob(False, f['q'] + '|relations', '%s does not go through the affected relations' % f['q'], f, path=p)
            continue
        rel = loops[0]
        C.ob(over(rel, inds), f['q'] + '|relations', '%s does not go through the affected relations' % f['q'], f, path=p)
        R = ('call', 'HIRM::get_relation', HIRM, (rel,))
        DR = ('at', ('call', 'Relation::get_data_r', R, ()), cls)
        ITS = ('at', DR, item)
        i = [k for k in loops[1:] if over(k, ('at', inds, rel))]
        x = [k for k in loops[1:] if over(k, ITS)]
        none = truth(decs, asked(('contains', DR, item))) is False
        if not here:
            pos = ('at', ('at', inds, rel), i[0]) if i else None
            other = bool(i and x) and truth(decs, lambda a, r: True if a in (
                ('eq', ('at', x[0], pos), item), ('eq', item, ('at', x[0], pos))) else None) is False
            C.ob(none or other, f['q'] + '|left out', '%s leaves out an affected observation' % f['q'], f, path=p)
            continue
        hit += 1
        C.ob(len(i) == 1 and len(x) == 1 and len(loops) == 3, f['q'] + '|all', '%s does not go through all observations of the row '
             'and all positions' % f['q'], f, path=p)
        if not (i and x):
            continue
        pos = ('at', ('at', inds, rel), i[0])
        same = truth(decs, lambda a, r: True if a in (('eq', ('at', x[0], pos), item), ('eq', item, ('at', x[0], pos))) else None)
        C.ob(same is True, f['q'] + '|others', '%s takes out observations of other rows' % f['q'], at(here[0]), p)
        C.ob(len(here) == 1 and args(here[0]) == [R, rel, x[0], pos, kept], f['q'] + '|which', '%s takes out something else' % f['q'], at(here[0]), p)
    C.ob(hit > 0, f['q'] + '|none', '%s takes nothing out' % f['q'], f, path=p)
    hit = 0
    for here, loops, decs, hows, tr in leaves(p.trace, call(FROMDOM)):
        ok = len(here) == 1 and len(loops) == 2 and over(loops[0], inds) and over(loops[1], ('at', inds, loops[0])) and \
            all(h in ('next', 'continue') for h in hows)
        C.ob(ok, f['q'] + '|clusters', '%s does not look at the clusters of every affected relation and position' % f['q'], f, path=p)
        if not ok:
            continue
        hit += 1
        pos = ('at', ('at', inds, loops[0]), loops[1])
        g = args(here[0])
        C.ob(g[0] == loops[0] and isval(g[1], cls, field, item) and g[2] == ('at', ('at', ('at', RRI, loops[0]), pos), field) and
             g[3] == un, f['q'] + '|cluster', '%s looks at the cluster of something else' % f['q'], at(here[0]), p)
    out = [i for i, e in enumerate(p.trace) if e[0] == 'loop' and any(call(U)(x) for b in e[2] for x in flat(b[0]))]
    dom = [i for i, e in enumerate(p.trace) if e[0] == 'loop' and any(call(FROMDOM)(x) for b in e[2] for x in flat(b[0]))]
    C.ob(bool(out and dom) and max(out) < min(dom), f['q'] + '|order',
         '%s looks at clusters before the observations are out' % f['q'], f, path=p)
    scored(C, f, p, p.exit[1], 'its score')


def renamed(C, f, p):
    """update_reference_items"""
    kept, cls, field, item, val = params(f)
    C.note('items: ' + f['q'])
    hit = 0
    where = set()

    def pred(e):
        return e[0] in ('put', 'ins') and nv(e[1])[0] == 'at' and nv(e[1])[1] != REF
    for here, loops, decs, hows, tr in leaves(p.trace, pred):
        ok = len(here) == 1 and len(loops) == 2 and over(loops[0], kept) and over(loops[1], ('at', kept, loops[0])) and \
            all(h in ('next', 'continue') for h in hows)
        C.ob(ok, f['q'] + '|all', '%s does not go through all kept values' % f['q'], f, path=p)
        if not ok:
            continue
        hit += 1
        rel, its = loops
        e = here[0]
        k = nv(e[2])
        new = k[0] == 'out' and k[1] == ITEMS
        C.ob(new and k[3][0] == rel and k[3][1] == last(its) and k[3][2] in (('at', its, ('last',)), ('at', its, last(its))), f['q'] + '|items',
             '%s keeps a value under %s' % (f['q'], pp(k)[:80]), at(e), p)
        C.ob(nv(e[1])[2] == rel, f['q'] + '|relation', '%s keeps a value under another relation' % f['q'], at(e), p)
        C.ob(nv(e[3]) == ('at', ('at', kept, rel), its), f['q'] + '|value', '%s changes a kept value' % f['q'], at(e), p)
        where.add(nv(e[1])[1])
    C.ob(hit == 1, f['q'] + '|once', '%s does not keep each value once' % f['q'], f, path=p)
    wr = [i for i, e in enumerate(p.trace) if e[0] in ('put', 'ins', 'set') and has(nv(e[1]), REF)]
    lp = [i for i, e in enumerate(p.trace) if e[0] == 'loop']
    first = [nv(p.trace[i][-2]) for i in wr if lp and i < lp[0]]
    C.ob(bool(first) and first[-1] == val, f['q'] + '|value of reference', '%s computes the items with another reference' % f['q'], f,
         path=p)
    ret = nv(p.exit[1])
    C.ob(ret != kept and (ret[0] == 'cont' and ret[1] == ('empty',) or ret in where), f['q'] + '|result',
         '%s does not give back just the renamed values' % f['q'], f, path=p)


def putall(C, f, p):
    rng, kept = params(f)
    C.note('put in: ' + f['q'])
    hit = 0
    for here, loops, decs, hows, tr in leaves(p.trace, call(INCR)):
        ok = len(here) == 1 and len(loops) == 1 and over(loops[0], kept) and all(h in ('next', 'continue') for h in hows)
        C.ob(ok, f['q'] + '|all', '%s does not put in the kept values of every relation' % f['q'], f, path=p)
        if ok:
            hit += 1
            C.ob(args(here[0]) == [rng, ('call', 'HIRM::get_relation', HIRM, (loops[0],)), loops[0], kept], f['q'] + '|which',
                 '%s puts the kept values in another relation' % f['q'], at(here[0]), p)
    C.ob(hit == 1, f['q'] + '|once', '%s does not put the kept values in once' % f['q'], f, path=p)


def putin(C, f, p):
    rng, rel, name, kept = params(f)
    C.note('put in: ' + f['q'])
    M = ('at', kept, name)
    hit = 0
    for here, loops, decs, hows, tr in leaves(p.trace, call('Relation::incorporate')):
        if not loops:
            C.ob(False, f['q'] + '|all', '%s does not put all kept values in' % f['q'], f, path=p)
            continue
        k = loops[0]
        C.ob(len(loops) == 1 and over(k, M) and all(h in ('next', 'continue') for h in hows), f['q'] + '|all',
             '%s does not put all kept values in' % f['q'], f, path=p)
        there = truth(decs, asked(('contains', ('call', 'Relation::get_data', rel, ()), k)))
        if not here:
            C.ob(there is True, f['q'] + '|left out', '%s leaves out a kept value' % f['q'], f, path=p)
            continue
        hit += 1
        C.ob(there is False, f['q'] + '|again', '%s may put a value in twice' % f['q'], at(here[0]), p)
        C.ob(len(here) == 1 and nv(here[0][2]) == rel and args(here[0])[1:] == [k, ('at', M, k)], f['q'] + '|value',
             '%s puts in another value than was kept' % f['q'], at(here[0]), p)
    C.ob(hit >= 1, f['q'] + '|none', '%s puts nothing in' % f['q'], f, path=p)
    nz = truth(p.decisions, isnoisy(name))
    if nz is None:
        raise Odd('whether the relation is noisy')
    BN = fld(('at', HS, name), 'base_relation')
    some = truth(p.decisions, asked(('contains', kept, BN)))
    rec = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == f['q']]
    lp = [i for i, e in enumerate(p.trace) if e[0] == 'loop']
    if not rec:
        C.ob(nz is False or some is False, f['q'] + '|base', '%s puts observations in before what they observe' % f['q'], f, path=p)
    for i, e in rec:
        g = args(e)
        C.ob(nz is True and g[2] == BN and g[3] == kept and (g[1] == fld(rel, 'base_relation') or
                                                             g[1] == ('call', 'HIRM::get_relation', HIRM, (BN,))),
             f['q'] + '|which base', '%s puts in something else first' % f['q'], at(e), p)
        C.ob(not lp or i < min(lp), f['q'] + '|order', '%s puts observations in before what they observe' % f['q'], at(e), p)


def leave(C, f, p):
    """unincorporate_from_domain_cluster_relation"""
    r, item, ind, un = params(f)
    C.note('clusters: ' + f['q'])
    code = ('call', 'HIRM::relation_to_table', HIRM, (r,))
    IRM_ = ('at', fld(HIRM, 'irms'), code)
    CLS = ('at', fld(('at', HS, r), 'domains'), ind)
    DOM = ('at', fld(IRM_, 'domains'), CLS)
    CRP_ = fld(DOM, 'crp')
    done = truth(p.decisions, lambda a, x: True if a[0] == 'contains' and a[1] == un and pair(a[2], 3) == (code, CLS, item) else None)
    seen = truth(p.decisions, asked(('call', 'IRM::has_observation', IRM_, (CLS, item))))
    there = truth(p.decisions, asked(('contains', fld(DOM, 'items'), item)))
    out = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == 'Domain::unincorporate']
    rec = [(i, e) for i, e in enumerate(p.trace) if e[0] in ('put', 'ins') and nv(e[1]) == un]
    if not out:
        C.ob(done is True or seen is True or there is False, f['q'] + '|left', '%s leaves an entity without observations in its '
             'cluster' % f['q'], f, path=p)
        C.ob(not rec and nv(p.exit[1]) == n(0), f['q'] + '|none', '%s records an entity it leaves' % f['q'], f, path=p)
        return
    C.ob(seen is False, f['q'] + '|seen', '%s takes out an entity that is still observed' % f['q'], f, path=p)
    C.ob(there is True, f['q'] + '|there', '%s takes out an entity that may not be in a cluster' % f['q'], f, path=p)
    C.ob(len(out) == 1 and nv(out[0][1][2]) == DOM and args(out[0][1]) == [item], f['q'] + '|out', '%s takes out another entity' % f['q'],
         f, path=p)
    OLD = ('at', fld(CRP_, 'assignments'), item)
    C.ob(len(rec) == 1 and pair(nv(rec[0][1][2]), 3) == (code, CLS, item) and nv(rec[0][1][3]) == OLD, f['q'] + '|record',
         '%s does not record the cluster the entity was in' % f['q'], f, path=p)
    alone = truth(p.decisions, asked(('contains', fld(CRP_, 'tables'), OLD)))
    sc = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] in ('CRP::logp', 'CRP::logp_new_table')]
    if alone is None:
        n1 = ('size', ('at', fld(CRP_, 'tables'), OLD))
        one = truth(p.decisions, lambda a, x: True if a in (('eq', n(1), n1), ('eq', n1, n(1)), ('lt', n1, n(2)), ('le', n1, n(1)))
                    else False if a in (('lt', n(1), n1), ('le', n(2), n1)) else None)
        if one is None:
            C.ob(not any(has(nv(a), n1) or has(nv(a), n1[1]) and nv(a)[0] == 'empty' for a, t in p.decisions), f['q'] + '|shared', '%s does not find out whether others are in the '
                 'cluster' % f['q'], f, path=p)
            raise Odd('whether the cluster is still there')
        alone = not one
    q = 'CRP::logp' if alone else 'CRP::logp_new_table'
    C.ob(len(sc) == 1 and sc[0][1][1] == q and nv(sc[0][1][2]) == CRP_ and args(sc[0][1]) == ([OLD] if alone else []),
         f['q'] + '|score', '%s does not score the cluster of the entity without it' % f['q'], f, path=p)
    C.ob(not sc or sc[0][0] > out[0][0], f['q'] + '|when', '%s scores the entity while it is there' % f['q'], f, path=p)
    ask = [i for i, e in enumerate(p.trace) if e[0] == 'ask' and nv(e[1]) == fld(CRP_, 'tables')]
    C.ob(not ask or min(ask) > out[0][0], f['q'] + '|asked', '%s asks for the cluster while the entity is there' % f['q'], f, path=p)
    has_r = truth(p.decisions, asked(('contains', RRI, r)))
    has_i = truth(p.decisions, asked(('contains', ('at', RRI, r), ind)))
    ls = [e for e in p.trace if e[0] == 'loop' and any(call(f['q'])(x) for b in e[2] for x in flat(b[0]))]
    if not ls:
        C.ob(has_r is False or has_i is False, f['q'] + '|ancestors', '%s does not go on to what the entity refers to' % f['q'], f, path=p)
    for e in ls:
        k = nv(e[1])
        C.ob(over(k, ('at', ('at', RRI, r), ind)), f['q'] + '|ancestors', '%s does not go on to all that the entity refers to' % f['q'],
             f, path=p)
        for b, dec, how in e[2]:
            cs = [x for x in b if call(f['q'])(x)]
            C.ob(len(cs) == 1 and how in ('next', 'continue'), f['q'] + '|each', '%s does not go on to all that the entity refers to' % f['q'],
                 f, path=p)
            for x in cs:
                g = args(x)
                C.ob(g[0] == r and isval(g[1], CLS, k, item) and g[2] == ('at', ('at', ('at', RRI, r), ind), k) and
                     (g[3] == un or g[3][0] == 'cont' and g[3][1] == un or g[3][0] in ('out', 'var')), f['q'] + '|which',
                     '%s goes on to something else than the entity refers to' % f['q'], at(x), p)
    scored(C, f, p, p.exit[1], 'its score')


def rows(C, f, p):
    """unincorporate_singleton"""
    cls, field, item, T, kept, un, gone = params(f)
    C.note('rows taken out: ' + f['q'])
    first = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == FROMCRP]
    if len(first) != 1:
        raise Odd('where the references of the row are taken away')
    seen = {}
    for q in (US, FROMDOM):
        for here, loops, decs, hows, tr in leaves(p.trace, call(q)):
            ok = len(here) == 1 and len(loops) == 2 and all(h in ('next', 'continue') for h in hows) and not [
                1 for a, t in decs if True]
            if len(loops) != 2:
                raise Odd('the loops over rows and relations')
            C.ob(ok, f['q'] + '|all ' + q, '%s does not go through all relations of all rows' % f['q'], f, path=p)
            if not here:
                continue
            rel = args(here[0])[1] if q == US else args(here[0])[0]
            # rel = class_to_relations[row.first][idx]
            if rel[0] != 'at' or rel[1][:2] != ('at', CTR) or not over(loops[1], rel[1]) or rel[2] != loops[1]:
                C.ob(False, f['q'] + '|relations ' + q, '%s does not go through the relations of the row' % f['q'], at(here[0]), p)
                continue
            rc = rel[1][2]
            if rc[0] != 'f' or rc[2] != 'first' or rc[1][0] != 'at' or rc[1][2] != loops[0]:
                raise Odd('the class of a row')
            row = fld(rc[1], 'second')
            listed(C, f, p, rc[1][1], cls, field, item, T, gone)
            D = fld(('at', HS, rel), 'domains')
            g = args(here[0])
            seen[q] = seen.get(q, 0) + 1
            if q == US:
                its = g[2]
                C.ob(g[0] == ('call', 'HIRM::get_relation', HIRM, (rel,)) and its[0] == 'out' and its[1] == ITEMS and
                     its[3][0] == rel and its[3][1] == last(D) and its[3][2] == row and g[3] == kept, f['q'] + '|row',
                     '%s takes the value of another row out' % f['q'], at(here[0]), p)
            else:
                C.ob(g[1] == row and g[2] == last(D) and g[3] == un, f['q'] + '|cluster',
                     '%s takes another entity out of its cluster' % f['q'], at(here[0]), p)
    C.ob(seen.get(US) == 1 and seen.get(FROMDOM) == 1, f['q'] + '|both', '%s does not take out values and clusters of the rows' % f['q'], f,
         path=p)
    i = [k for k, e in enumerate(p.trace) if e[0] == 'loop' and any(call(US)(x) for b in e[2] for x in flat(b[0]))]
    j = [k for k, e in enumerate(p.trace) if e[0] == 'loop' and any(call(FROMDOM)(x) for b in e[2] for x in flat(b[0]))]
    C.ob(bool(i and j) and first[0] < min(i) and max(i) < min(j), f['q'] + '|order',
         '%s does not take out references, values and clusters in that order' % f['q'], f, path=p)
    scored(C, f, p, p.exit[1], 'its score')


def listed(C, f, p, c, cls, field, item, T, gone):
    """The list of rows: the one referred to, and those that lost their last reference with it."""
    if c[0] == 'list':
        c = ('cont', c, ())
    if c[0] != 'cont':
        raise Odd('the list of rows')
    ops = list(c[2])
    start = list(c[1][1]) if c[1][0] == 'list' else []
    while ops and ops[0][0] == 'push':
        start.append(ops.pop(0)[1])
    each = [o for o in ops if o[0] == 'each']
    ok = len(start) == 1 and start[0][0] == 'tuple' and tup(start[0])[0] == T and isval(tup(start[0])[1], cls, field, item)
    C.ob(ok, f['q'] + '|own row', '%s does not take out the row referred to' % f['q'], f, path=p)
    C.ob(len(each) == 1 and len(ops) == 1 and over(each[0][1], gone), f['q'] + '|other rows',
         '%s does not take out the rows that were only referred to by those' % f['q'], f, path=p)
    if len(each) != 1:
        return
    k = each[0][1]
    V = ('at', gone, k)
    TT = target(fld(k, 'first'), fld(k, 'second'))
    for alt in each[0][2]:
        dec, op = alt[0], alt[1]
        still = truth(dec, asked(('contains', fld(('at', E, TT), 'tables'), V)))
        if not op:
            C.ob(still is True, f['q'] + '|row left', '%s leaves in a row that nobody refers to' % f['q'], f, path=p)
        else:
            C.ob(still is False and len(op) == 1 and op[0][0] == 'push' and op[0][1][0] == 'tuple' and tup(op[0][1]) == [TT, V],
                 f['q'] + '|row', '%s takes out a row that is still referred to' % f['q'], f, path=p)


def initial(C, key, var):
    """What a variable holds when the loop is entered."""
    for (k, v), runs in C.last.carries.items():
        if nv(k) == key and nv(v) == var:
            for alts, init in runs:
                if init is not None:
                    return nv(init)
    return None


def move(C, f, p):
    """transition_reference"""
    rng, cls, field, item = params(f)
    C.note('move: ' + f['q'])
    T = target(cls, field)
    CR = ('at', E, T)
    INIT = ('at', ('at', REF, cls), ('tuple', field, item))
    W = ('call', 'CRP::tables_weights_gibbs', CR, (INIT,))
    top = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'call']
    moves = [e for e in flat(p.trace) if e[0] == 'call' and e[1] in OPAQUE - {ID, INDS} | {'CRP::unincorporate'}]
    if not moves:
        ok = any(t and nv(a) in (('eq', n(1), ('size', W)), ('eq', ('size', W), n(1)), ('lt', ('size', W), n(2))) for a, t in p.decisions)
        C.ob(ok, f['q'] + '|no move', '%s does not move a reference that has candidates' % f['q'], f, path=p)
        return
    # what was there
    DI = ('call', INDS, THIS, (cls, field))
    ur = [(i, e) for i, e in top if e[1] == UR]
    C.ob(len(ur) == 1 and args(ur[0][1])[:4] == [DI, cls, field, item] and args(ur[0][1])[4] == ('empty',) and
         args(ur[0][1])[5][0] == 'at' and args(ur[0][1])[5][2] == INIT, f['q'] + '|out',
         '%s does not take the affected observations out once, first' % f['q'], f, path=p)
    if len(ur) != 1:
        return
    un = [i for i, e in top if e[1] == 'CRP::unincorporate']
    w = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == 'CRP::tables_weights_gibbs']
    C.ob(bool(un and w) and w[0] < un[0], f['q'] + '|weights', '%s takes the table weights after the reference is out' % f['q'], f, path=p)
    early = [i for i, e in top if e[1] == SING or e[1] == UPD]
    C.ob(bool(un) and (not early or un[0] < early[0]), f['q'] + '|reference out',
         '%s takes rows out while the reference is there' % f['q'], f, path=p)
    loops = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'loop' and over(nv(e[1]), W)]
    loops = [(i, e) for i, e in loops if any(call(UR)(x) for b in e[2] for x in flat(b[0]))]
    C.ob(len(loops) == 1, f['q'] + '|candidates', '%s does not go through the candidates' % f['q'], f, path=p)
    if len(loops) != 1:
        return
    li, loop = loops[0]
    K = nv(loop[1])
    # the singleton
    S = None
    for b, dec, how in loop[2]:
        for a, t in dec:
            a = nv(a)
            if a[0] == 'eq' and K in a[1:] and INIT not in a[1:]:
                S = a[1] if a[2] == K else a[2]
    if S is None or S[0] != 'last':
        raise Odd('which candidate is new')
    lastof(C, f, p, S, K, CR, INIT)
    own = truth(p.decisions, lambda a, r: True if a in (('eq', INIT, S), ('eq', S, INIT)) else None)
    sing = [(i, e) for i, e in top if e[1] == SING and i < li]
    if own is None:
        raise Odd('whether the current row is referred to by others')
    C.ob(len(sing) == (1 if own else 0), f['q'] + '|singleton', '%s %s' % (
        f['q'], 'leaves in a row that nobody refers to' if own else 'takes out a row that others refer to'), f, path=p)
    for i, e in sing:
        g = args(e)
        C.ob(g[:4] == [cls, field, item, T] and g[5][0] == 'at' and g[5][2] == INIT and i > ur[0][0], f['q'] + '|singleton row',
             '%s takes another row out' % f['q'], at(e), p)
    outer = {('call', e[1], nv(e[2]), tuple(args(e))) for i, e in ur + sing}
    kept = None
    finals = []
    for b, dec, how in loop[2]:
        C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s leaves out candidates' % f['q'], f, path=p)
        isinit = truth(dec, lambda a, r: True if a in (('eq', INIT, K), ('eq', K, INIT)) else None)
        isnew = truth(dec, lambda a, r: True if a in (('eq', S, K), ('eq', K, S)) else None)
        mv = [(i, e) for i, e in enumerate(b) if e[0] == 'call' and e[1] in OPAQUE - {ID}]
        if any(e[0] == 'loop' for e in b):
            raise Odd('a loop inside the loop over candidates')
        got = final_score(b, dec)
        finals.append(got)
        inner = set()
        if isinit is None:
            raise Odd('whether the candidate is the current one')
        if isinit:
            C.ob(not mv, f['q'] + '|current', '%s moves things for the current value' % f['q'], f, path=p)
            inner = set(outer)
        else:
            if isnew is None:
                raise Odd('whether the candidate is new')
            names = [e[1] for i, e in mv]
            want = ([POPULATE] if isnew else []) + [UPD, INC, UR] + ([SING] if isnew else [])
            C.ob(names == want, f['q'] + '|steps', '%s does %s for a %s candidate' % (
                f['q'], ', '.join(x.split('::')[1] for x in names), 'new' if isnew else 'known'), f, path=p)
            if names != want:
                continue
            st = {e[1]: (i, e) for i, e in mv}
            wr = [(i, e) for i, e in enumerate(b) if e[0] in ('put', 'set', 'ins') and has(nv(e[1]), REF)]
            C.ob(bool(wr) and wr[0][0] < st[UR][0] and nv(wr[0][1][-2]) == K, f['q'] + '|value',
                 '%s scores a candidate with another reference' % f['q'], f, path=p)
            if isnew:
                C.ob(args(st[POPULATE][1])[1:] == [T, K], f['q'] + '|new row', '%s makes another row than the candidate' % f['q'], f, path=p)
            g = args(st[UPD][1])
            C.ob(g[1:] == [cls, field, item, K], f['q'] + '|items', '%s computes items for something else' % f['q'], f, path=p)
            init = initial(C, K, g[0])
            C.ob(g[0][0] != 'var' or init is None or init[0] == 'out' and init[1] == UR and init[2] == 4, f['q'] + '|kept',
                 '%s puts in other values than were taken out' % f['q'], f, path=p)
            kept = g[0]
            NEW = ('call', UPD, THIS, tuple(g))
            g = args(st[INC][1])
            C.ob(g[1] == NEW, f['q'] + '|in', '%s does not put the kept values in' % f['q'], f, path=p)
            g = args(st[UR][1])
            C.ob(g[:4] == [DI, cls, field, item] and g[4] in (NEW, ('out', INC, 1, tuple(args(st[INC][1])))) and g[5][0] == 'at' and
                 g[5][2] == K, f['q'] + '|out again', '%s does not take out what it put in' % f['q'], f, path=p)
            inner = {('call', UR, THIS, tuple(g))}
            if isnew:
                g = args(st[SING][1])
                C.ob(g[:4] == [cls, field, item, T] and g[5][0] == 'at' and g[5][2] == K, f['q'] + '|row again',
                     '%s does not take out the row it made' % f['q'], f, path=p)
                inner.add(('call', SING, THIS, tuple(g)))
        if got is None:
            raise Odd('the score of a candidate')
        leavesof = [x for x in summed(got) if not (x[0] == 'at' and x[1][0] == 'var')]
        LOG = ('fn', 'log', ('at', W, K))
        logs = [x for x in leavesof if x[0] in ('fn', 'call') and 'log' == str(x[1]).split('::')[-1]]
        C.ob(len(logs) == 1 and has(logs[0], ('at', W, K)), f['q'] + '|weight', '%s does not add the log of the table weight once' % f['q'],
             f, path=p)
        rest = [x for x in leavesof if x not in logs]
        C.ob(set(rest) == inner and len(rest) == len(inner), f['q'] + '|score',
             '%s scores a candidate with %s' % (f['q'], ', '.join(pp(x)[:50] for x in set(rest) ^ inner)), f, path=p)
    # the choice
    after = [(i, e) for i, e in top if i > li and e[1] in OPAQUE - {ID}]
    draw = [e for i, e in top if i > li and e[1] == 'sample_from_logps']
    C.ob([e[1] for i, e in after] == [UPD, BACK] and len(draw) == 1, f['q'] + '|choice',
         '%s does not put the chosen candidate back' % f['q'], f, path=p)
    if [e[1] for i, e in after] != [UPD, BACK] or len(draw) != 1:
        return
    g = args(after[0][1])
    CH = g[4]
    C.ob(g[1:4] == [cls, field, item], f['q'] + '|chosen items', '%s computes items for something else' % f['q'], f, path=p)
    C.ob(g[0] == kept or g[0][0] == 'loopout' and g[0][2] == kept, f['q'] + '|chosen kept',
         '%s puts back other values than were taken out' % f['q'], f, path=p)
    pick = CH[0] == 'at' and CH[2][0] == 'call' and CH[2][1] == 'sample_from_logps'
    if not pick:
        C.ob(CH[0] != 'call', f['q'] + '|pick', '%s takes the position drawn for the candidate' % f['q'], f, path=p)
        raise Odd('the chosen candidate')
    entries = stored(CH[1], K)
    C.ob(entries is not None and all(x == K for x in entries), f['q'] + '|entries', '%s does not list the candidates' % f['q'], f, path=p)
    sc = stored(CH[2][3][0], K)
    C.ob(sc is not None and set(map(str, sc)) == set(str(nv(x)) for x in finals), f['q'] + '|draw',
         '%s does not draw with the scores of the candidates' % f['q'], f, path=p)
    newchosen = truth(p.decisions, lambda a, r: True if a in (('eq', CH, S), ('eq', S, CH)) else None)
    merges = [e for e in p.trace if e[0] == 'merge']
    g = args(after[1][1])
    v = g[5]
    NEW = ('call', UPD, THIS, tuple(args(after[0][1])))
    if newchosen is None:
        t = truth(p.decisions, asked(('contains', fld(CR, 'tables'), CH)))
        newchosen = None if t is None else not t
    if newchosen is None:
        C.ob(any(has(nv(a), CH) for a, t in p.decisions), f['q'] + '|row asked', '%s does not find out whether the chosen candidate is '
             'new' % f['q'], f, path=p)
        raise Odd('whether the chosen candidate is new')
    base = v[1] if v[0] == 'cont' else v
    C.ob(base == NEW, f['q'] + '|back', '%s does not put the kept values back' % f['q'], f, path=p)
    C.ob(bool(merges) == newchosen and (v[0] == 'cont') == newchosen, f['q'] + '|row back',
         '%s %s' % (f['q'], 'loses the values of the new row' if newchosen else 'puts back a row that nobody refers to'), f, path=p)
    C.ob(g[:5] == [cls, field, item, CH, T] and g[6][0] == 'at' and g[6][2] == CH, f['q'] + '|chosen',
         '%s puts back another candidate' % f['q'], at(after[1][1]), p)


def lastof(C, f, p, S, K, CR, INIT):
    """The candidate that is no table, or else the current value."""
    alts = S[2]
    ok = nv(S[1])[:1] == K[:1] and nv(S[1])[-1] == K[-1] and len(alts) == 1 and S[3] == INIT
    if ok:
        dec, v = alts[0][0], alts[0][1]
        ok = truth(dec, lambda a, r: True if a == ('contains', fld(CR, 'tables'), S[1]) else None) is False and v == S[1]
        C.ob(not any(has(nv(a), ('call', 'CRP::tables_weights_gibbs', CR, (INIT,))) and nv(a)[0] in ('lt', 'le', 'eq') and
                     not INIT in nv(a)[1:] for a, t in dec), f['q'] + '|any weight',
             '%s finds the candidate that is no table only at some weights' % f['q'], f, path=p)
    C.ob(ok, f['q'] + '|new candidate', '%s does not find the candidate that is no table' % f['q'], f, path=p)


def final_score(b, dec):
    """The value last stored for the candidate in this round."""
    got = None
    for e in b:
        if e[0] == 'put' and nv(e[2])[0] == 'pos' or e[0] == 'push':
            v = nv(e[3] if e[0] == 'put' else e[2])
            if any(x[0] == 'call' and x[1] == 'CRP::tables_weights_gibbs' for x in subterms(v)) and v[0] != 'key':
                got = e[3] if e[0] == 'put' else e[2]
    return got


def stored(c, K):
    """The value stored per candidate in a list filled by the loop."""
    if c[0] != 'cont':
        return None
    each = [o for o in c[2] if o[0] == 'each']
    if len(each) != 1 or nv(each[0][1]) != K:
        return None
    out = []
    for alt in each[0][2]:
        ops = [o for o in alt[1] if o[0] in ('put', 'push')]
        if not ops:
            return None
        o = ops[-1]
        if o[0] == 'put' and nv(o[1]) != ('pos', K):
            return None
        out.append(nv(o[-1]))
    return out


def back(C, f, p):
    """reincorporate_new_refval"""
    cls, field, item, val, T, kept, un, gone = params(f)[:8]
    C.note('put back: ' + f['q'])
    hit = 0
    for here, loops, decs, hows, tr in leaves(p.trace, call('Domain::incorporate')):
        if not loops:
            C.ob(False, f['q'] + '|clusters', '%s does not put the entities back in their clusters' % f['q'], f, path=p)
            continue
        k = loops[0]
        DOM = ('at', fld(('at', fld(HIRM, 'irms'), fld(k, 'first')), 'domains'), fld(k, 'second'))
        C.ob(over(k, un) and len(loops) == 1 and all(h in ('next', 'continue') for h in hows), f['q'] + '|clusters',
             '%s does not put all entities back in their clusters' % f['q'], f, path=p)
        there = truth(decs, asked(('contains', fld(DOM, 'items'), fld(k, 2))))
        if not here:
            C.ob(there is True, f['q'] + '|left out', '%s leaves an entity out of its cluster' % f['q'], f, path=p)
            continue
        hit += 1
        g = args(here[0])
        C.ob(len(here) == 1 and nv(here[0][2]) == DOM and g[1:] == [fld(k, 2), ('at', un, k)] and there is not True, f['q'] + '|cluster',
             '%s puts an entity in another cluster than it was in' % f['q'], at(here[0]), p)
    C.ob(hit == 1, f['q'] + '|entities', '%s does not put the entities back in their clusters' % f['q'], f, path=p)
    inc = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == INC]
    C.ob(len(inc) == 1 and args(p.trace[inc[0]])[1] == kept, f['q'] + '|values', '%s does not put the kept values back once' % f['q'], f,
         path=p)
    dom = [i for i, e in enumerate(p.trace) if e[0] == 'loop' and any(call('Domain::incorporate')(x) for b in e[2] for x in flat(b[0]))]
    cl = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == 'HIRM::cleanup_relation_clusters']
    if inc and dom:
        C.ob(max(dom) < inc[0], f['q'] + '|order', '%s puts values back before the entities they are of' % f['q'], f, path=p)
    C.ob(bool(cl) and bool(inc) and cl[-1] > inc[0], f['q'] + '|cleanup', '%s leaves empty clusters' % f['q'], f, path=p)


if __name__ == '__main__':
    rule.main('C23', main)
