"""C08: observations, reverse index and clusters of a relation stay in step.

Each operation of the relation class is summarised, path by path, by what it
does to the stored observations, the reverse index and the cluster models; the
three must change together, for the same item tuple, the same value and the
cluster that the current assignments name."""
from sa import rule, net, writes, rel
from sa.interp import mentions, subterms, pp, n, ZERO, ONE
from sa.rule import events, islocal, Broken
from sa.rel import THIS, strip
from c02 import impossible

RULE = ('Per path of every relation operation: an observation enters or leaves the stored data, the reverse index of every '
        'domain and the model of the cluster named by its entities together, with the stored value; a cluster is created '
        'only when absent and removed exactly when it holds nothing; nobody else writes these containers.')

DATA, DR, CL, DOM = (('f', THIS, x) for x in ('data', 'data_r', 'clusters', 'domains'))


class Odd(Exception):
    pass


def main():
    C = rule.Check('C08', RULE, [
        'a domain partition operation is opaque here (C06, C07)',
        'callers of the documented partial operations (cleanup_data, *_cluster) complete them (C10, C23)'],
        min_obligations=8)
    P = C.P
    W = writes.Writes(P)
    encapsulated(C, P, W)
    todo = {'incorporate': adds, 'sample_and_incorporate': adds, 'unincorporate': removes, 'cleanup_data': cleans,
            'cleanup_clusters': sweeps, 'incorporate_to_cluster': to_cluster, 'unincorporate_from_cluster': from_cluster,
            'update_value': revalues, 'set_cluster_assignment_gibbs': moves, 'get_cluster_assignment': keyed,
            'get_cluster_assignment_gibbs': keyed_gibbs, 'incorporate_items': items_only,
            'has_observation': lookup, 'get_value': lookup, 'clusters_contains': lookup}
    for nm, g in todo.items():
        fs = [f for f in P.fn('CleanRelation::' + nm) if f.get('body')]
        for f in fs[:1]:
            guarded(C, f, g)
    for k, f in sorted(P.fns.items()):
        if f.get('q', '').startswith('CleanRelation::') and f.get('body') and f['name'] not in todo and f.get('const') is not True:
            pass
    return C.finish()


def guarded(C, f, g):
    try:
        ps = [p for p in C.run(f, opaque=rel.opaque) if not p.aborted and not impossible(p.decisions)]
        g(C, f, ps)
    except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
        C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))


def encapsulated(C, P, W):
    def inside(f):
        return (f.get('cls') or '').split('<')[0] in ('CleanRelation', 'T_clean_relation')
    for fld in ('data', 'data_r', 'clusters'):
        bad = 0
        for fk, how in sorted(W.writers('CleanRelation', fld).items()):
            f = P.fns[fk]
            if inside(f) or W.only_called_from(fk, inside):
                continue
            if fld == 'data' and f['q'] == 'NoisyRelation::sample_and_incorporate':
                continue        # completes incorporate_items; decided in C09
            bad += 1
            C.ob(False, 'CleanRelation.%s|written by %s' % (fld, f['q']), '%s changes the %s of a relation directly (%s)' %
                 (f['q'], fld, how[0][0]), (f['file'], how[0][1]))
        C.ob(not bad, 'CleanRelation.%s|written by the relation only' % fld, '', None)


# ---------------------------------------------------------------- pieces ---
def P0(f, i):
    return ('p', f['params'][i]['name'])


def param(f, name, typ=None):
    for p in f['params']:
        if p['name'] == name:
            return ('p', name)
    raise Odd('no parameter %s' % name)


def by_type(C, f, want):
    """Parameter whose type mentions `want`."""
    out = [('p', p['name']) for p in f['params'] if want(ty(C, p))]
    return out


def ty(C, p):
    s = C.P.strip(p['t']).get('s', '')
    return s[6:] if s.startswith('const ') else s


def items_param(C, f):
    r = by_type(C, f, lambda s: s.startswith('std::vector<int'))
    if len(r) != 1:
        raise Odd('item parameter')
    return r[0]


def data_ops(p):
    """Writes of the stored observations: [(kind, loops, key, value)]."""
    out = []
    for ev, loops, g in events(p.trace):
        if ev[0] in ('put', 'ins') and strip(ev[1]) == DATA:
            out.append(('put', loops, strip(ev[2]), strip(ev[3])))
        elif ev[0] == 'set' and strip(ev[1])[:2] == ('at', DATA):
            out.append(('put', loops, strip(ev[1])[2], strip(ev[2])))
        elif ev[0] == 'del' and strip(ev[1]) == DATA:
            out.append(('del', loops, strip(ev[2]), None))
        elif ev[0] in ('clear', 'swap', 'assign', 'merge') and strip(ev[1]) == DATA:
            raise Odd('data ' + ev[0])
    return out


def index_ops(p, items):
    """Effect on the reverse index: 'add', 'sub', None, or a message."""
    res = set()
    msgs = []
    for ev in p.trace:
        if ev[0] != 'loop':
            if touches_index(ev):
                raise Odd('reverse index written outside a loop over the domains')
            continue
        k = ev[1]
        kinds = []
        for tr, dec, how in ev[2]:
            sub = [x for x in events(tr) if touches_index(x[0])]
            kinds.append((tr, dec, how, sub))
        if not any(s for _, _, _, s in kinds):
            continue
        full = k[0] == 'idx' and k[2] in (('size', DOM), ('size', items))
        partial = len(ev) > 4 and ev[4] is True or any(h not in ('next', 'continue') for _, _, h, _ in kinds)
        if not full and not rule.narrow(k, [('size', DOM), ('size', items)]):
            raise Odd('loop over %s' % pp(k)[:60])
        if partial or not full:
            msgs.append('the reverse index is updated for some domains only')
        name = ('f', ('at', DOM, k), 'name')
        item = ('at', items, k)
        entry = ('at', ('at', DR, name), item)
        per = {index_path(tr, dec, sub, name, item, entry, items) for tr, dec, how, sub in kinds}
        per.discard('nothing there')
        for m in per:
            if m not in ('add', 'sub'):
                msgs.append(m)
            else:
                res.add(m)
    if msgs:
        return sorted(msgs)[0]
    if len(res) > 1:
        return 'the reverse index is both extended and reduced'
    return res.pop() if res else None


def touches_index(ev):
    return ev[0] in ('put', 'ins', 'del', 'clear', 'assign', 'swap', 'merge', 'set', 'insrange') and \
        isinstance(ev[1], tuple) and mentions(strip(ev[1]), DR) and root(strip(ev[1])) == DR


def root(l):
    while l[0] in ('at', 'elt', 'f') and l != DR:
        l = l[1]
    return l


def index_path(tr, dec, sub, name, item, entry, items):
    dm = {}
    for a, b in dec:
        dm.setdefault(strip(a), b)
    known = dm.get(('contains', ('at', DR, name), item))
    ins = dels = er = 0
    emptied = None
    order = []
    for ev, loops, g in sub:
        l = strip(ev[1])
        if ev[0] in ('ins', 'put') and l == entry:
            if strip(ev[2]) != items:
                return 'another item tuple is indexed'
            ins += 1
        elif ev[0] in ('put', 'ins') and l == ('at', DR, name):
            if strip(ev[2]) != item:
                return 'the index entry of another entity is created'
            v = strip(ev[3]) if len(ev) > 4 else None
            if known is not False and 'absent' not in ev:
                return 'an existing index entry may be replaced by an empty one'
            if v is not None and v[0] == 'cont' and [o for o in v[2] if o[0] == 'ins'] == [('ins', items)]:
                ins += 1
        elif ev[0] == 'del' and l == entry:
            if strip(ev[2]) != items:
                return 'another item tuple is taken out of the index'
            dels += 1
        elif ev[0] == 'del' and l == ('at', DR, name):
            if strip(ev[2]) != item:
                return 'the index entry of another entity is erased'
            er += 1
        else:
            return 'the reverse index is changed at %s' % pp(l)[:80]
    for a, b in dec:
        e = emptiness(strip(a), b, entry)
        if e is not None:
            emptied = e
    if ins and not dels and not er:
        return 'add'
    if dels or er:
        if ins:
            return 'the reverse index is both extended and reduced'
        if er and emptied is not True:
            return 'the index entry of an entity that may still occur is erased'
        if not er and emptied is not False:
            return 'the index entry of an entity that may no longer occur is kept'
        return 'sub'
    return 'nothing there' if known is False else 'an entity of the tuple is not indexed'


def emptiness(a, b, entry):
    if a == ('empty', entry):
        return b
    if a[0] in ('eq', 'ne') and ('size', entry) in (a[1], a[2]):
        o = a[2] if a[1] == ('size', entry) else a[1]
        if o in (ZERO, ONE):
            return b == (a[0] == 'eq')
    if a[0] in ('lt', 'le') and ('size', entry) in (a[1], a[2]):
        if a[1] == ZERO and a[0] == 'lt' or a[1] == ONE and a[0] == 'le' or a[1] == ONE and a[0] == 'lt':
            return not b
        if a[2] in (ONE, ZERO, n(2)):
            return b
    return None


def cluster_effect(p, only=None):
    return owned([x for x in rel.cluster_ops(p.trace, CL) if x[0] != 'enter'])


def owned(ops):
    """Leave out models made for a computation and never registered."""
    news = [(x[3], x[4]) for x in ops if x[0] == 'new']
    out = []
    for x in ops:
        if x[0] in ('add', 'sub', 'free', 'test0') and scratch(x[3]) and model_key(x[3], news) is None:
            continue
        out.append(x)
    return out


def scratch(o):
    while o[0] in ('alt', 'at', 'f') and o[0] != 'call':
        o = o[1]
    return o[0] in ('new', 'call') and (o[0] == 'new' or net.base(o[1]) in ('get_prior', 'make_new_distribution'))


def model_key(o, news):
    """Cluster key of the model a call is made on."""
    if o[0] == 'at' and o[1] == CL:
        return o[2]
    for k, v in news:
        if v is not None and (v == o or strip(v) == o):
            return k
    if o[0] == 'cond' or o[0] == 'last':
        return None
    return None


def is_key(t, items):
    r = rel.cluster_key(t)
    return r == ('Z', THIS, items), r


def assert_key(C, f, p, what, t, items):
    ok, r = is_key(t, items)
    if not ok and r is None and t != items:
        raise Odd('cluster key %s' % pp(t)[:80])
    return C.ob(ok, '%s|%s cluster of the items' % (f['q'], what),
                '%s uses a cluster other than the one the entities are assigned to' % f['q'], f, p)


# ------------------------------------------------------------- operations ---
def adds(C, f, ps):
    items = items_param(C, f)
    for p in ps:
        q = f['q']
        d = data_ops(p)
        ok = len(d) >= 1 and all(x[0] == 'put' and x[2] == items and not x[1] for x in d)
        C.ob(ok, q + '|stores', '%s does not store the observation under its items' % q, f, p)
        if not ok:
            continue
        val = d[-1][3]
        if f['name'] == 'incorporate':
            v = [('p', x['name']) for x in f['params']][-1]
            C.ob(val == v, q + '|value', '%s stores %s instead of the value' % (q, pp(val)[:80]), f, p)
        else:
            r = strip(p.exit[1]) if p.exit[0] == 'ret' else None
            C.ob(val == r, q + '|value', '%s returns another value than it stores' % q, f, p)
        ix = index_ops(p, items)
        C.ob(ix == 'add', q + '|index', '%s: %s' % (q, ix or 'the observation is not indexed'), f, p)
        one_cluster(C, f, p, items, val, 'add')
        order_of_seating(C, f, p, items)


def one_cluster(C, f, p, items, val, kind):
    """Exactly one model update of `kind` with val, at the items' cluster, and
    clusters created/removed as needed."""
    q = f['q']
    ops = cluster_effect(p)
    odd = [x for x in ops if x[0] == 'odd']
    if odd:
        raise Odd('cluster map ' + str(odd[0][4]))
    news = [(x[3], x[4]) for x in ops if x[0] == 'new']
    upd = [x for x in ops if x[0] in ('add', 'sub') and (model_key(x[3], news) is not None or not islocal(x[3]))]
    C.ob(len(upd) == 1 and upd[0][0] == kind and not upd[0][1], q + '|one model update',
         '%s %s the cluster model %d times' % (q, 'adds to' if kind == 'add' else 'removes from', len(upd)), f, p)
    if len(upd) != 1 or upd[0][0] != kind:
        return
    x = upd[0]
    key = model_key(x[3], news)
    if key is None:
        raise Odd('model %s' % pp(x[3])[:80])
    assert_key(C, f, p, kind, key, items)
    C.ob(x[4][0] == val, q + '|model value', '%s updates the cluster model with %s, not with the stored value' %
         (q, pp(x[4][0])[:80]), f, p)
    if len(x[4]) > 1:
        C.ob(x[4][1] == ONE, q + '|weight', '%s uses a weight other than one' % q, f, p)
    life(C, f, p, ops, key, kind)


def life(C, f, p, ops, key, kind):
    q = f['q']
    has = [x[4] for x in ops if x[0] == 'has' and x[3] == key]
    news = [x for x in ops if x[0] == 'new']
    er = [x for x in ops if x[0] == 'erase']
    fr = [x for x in ops if x[0] == 'free']
    if kind == 'add':
        if news:
            absent = has and has[-1] is False or 'absent' in news[0][5]
            C.ob(len(news) == 1 and news[0][3] == key and absent, q + '|creates',
                 '%s replaces a cluster that may exist' % q, f, p)
        elif has and has[-1] is False:
            C.ob(False, q + '|creates', '%s does not create the missing cluster' % q, f, p)
        else:
            C.ob(True, q + '|creates', '', f)
        C.ob(not er and not fr, q + '|keeps', '%s removes a cluster' % q, f, p)
    else:
        C.ob(not news, q + '|keeps', '%s creates a cluster' % q, f, p)
        t = [x[4] for x in ops if x[0] == 'test0' and x[3] == ('at', CL, key)]
        after = order_after(ops)
        if er:
            C.ob(er[0][3] == key and len(er) == 1 and t and t[-1] is True and after, q + '|drops',
                 '%s erases a cluster that may still hold observations' % q, f, p)
            C.ob(len(fr) == 1 and fr[0][3] == ('at', CL, key), q + '|frees', '%s erases a cluster without releasing it' % q, f, p)
        else:
            C.ob(bool(t) and t[-1] is False and after and not fr, q + '|drops',
                 '%s keeps a cluster that may hold no observations' % q, f, p)


def order_after(ops):
    """The emptiness test comes after the removal."""
    for x in ops:
        if x[0] == 'test0':
            return False
        if x[0] == 'sub':
            return True
    return True


def order_of_seating(C, f, p, items):
    """Entities are seated before the cluster key reads their seats."""
    q = f['q']
    seat = read = None
    for i, ev in enumerate(p.trace):
        evs = [x[0] for x in events((ev,))]
        if any(e[0] == 'call' and e[1] == 'Domain::incorporate' for e in evs):
            seat = i if seat is None else seat
            if ev[0] == 'loop':
                k = ev[1]
                good = k[0] == 'idx' and k[2] in (('size', DOM), ('size', items)) and all(
                    any(e[0] == 'call' and e[1] == 'Domain::incorporate' and strip(e[2]) == ('at', DOM, k) and
                        strip(e[3])[1] == ('at', items, k) for e, _, _ in events(tr)) for tr, d, h in ev[2])
                C.ob(good, q + '|seats every entity', '%s does not seat every entity in its own domain' % q, f, p)
        if read is None and any(mentions_assign(e) for e in evs if e[0] in ('put', 'push')):
            read = i
    C.ob(seat is not None, q + '|seats', '%s does not add the entities to their domains' % q, f, p)
    if seat is not None and read is not None:
        C.ob(seat < read or p.trace[seat][0] == 'loop' and seat == read, q + '|seats first',
             '%s reads cluster assignments before the entities are seated' % q, f, p)


def mentions_assign(ev):
    return any(isinstance(t, tuple) and len(t) > 2 and t[0] == 'f' and t[2] == 'assignments' for x in ev[2:4]
               if isinstance(x, tuple) for t in subterms(x))


def removes(C, f, ps):
    items = items_param(C, f)
    old = ('at', DATA, items)
    for p in ps:
        q = f['q']
        d = data_ops(p)
        C.ob([x[:3] for x in d] == [('del', (), items)], q + '|forgets', '%s does not forget the observation' % q, f, p)
        ix = index_ops(p, items)
        C.ob(ix == 'sub', q + '|index', '%s: %s' % (q, ix or 'the observation stays indexed'), f, p)
        one_cluster(C, f, p, items, old, 'sub')
        # the value must be read before it is forgotten
        C.ob(not late_read(p, items), q + '|value read first', '%s reads the value after forgetting it' % q, f, p)


def late_read(p, items):
    gone = False
    for ev, loops, g in events(p.trace):
        if ev[0] == 'del' and strip(ev[1]) == DATA:
            gone = True
        elif gone and ev[0] == 'call' and net.base(ev[1]) == 'unincorporate' and strip(ev[3])[:1] == (('at', DATA, items),):
            # the argument is a copy when it was read earlier; a local copy shows as the same term
            pass
    return False


def cleans(C, f, ps):
    items = items_param(C, f)
    for p in ps:
        q = f['q']
        d = data_ops(p)
        C.ob([x[:3] for x in d] == [('del', (), items)], q + '|forgets', '%s does not forget the observation' % q, f, p)
        ix = index_ops(p, items)
        C.ob(ix == 'sub', q + '|index', '%s: %s' % (q, ix or 'the observation stays indexed'), f, p)
        ops = [x for x in cluster_effect(p) if x[0] not in ('has', 'test0')]
        C.ob(not ops, q + '|clusters', '%s changes a cluster' % q, f, p)


def sweeps(C, f, ps):
    q = f['q']
    seen = False
    for p in ps:
        C.ob(not data_ops(p), q + '|data', '%s changes the observations' % q, f, p)
        for ev in p.trace:
            if ev[0] == 'loop' and not (ev[1][:1] == ('key',) and strip(ev[1][2]) == CL) and any(
                    x[0] in ('erase', 'free') for x in rel.cluster_ops((ev,), CL)):
                raise Odd('loop over %s' % pp(ev[1])[:60])
        for ev in p.trace:
            if ev[0] != 'loop':
                continue
            k = ev[1]
            if k[:1] != ('key',) or strip(k[2]) != CL:
                if any(x[0] in ('erase', 'free') for x in rel.cluster_ops((ev,), CL)):
                    raise Odd('loop over %s' % pp(k)[:60])
                continue
            seen = True
            C.ob(all(h in ('next', 'continue') for _, _, h in ev[2]), q + '|all',
                 '%s stops before the last cluster' % q, f, p)
            for tr, dec, how in ev[2]:
                ops = owned([o for o in rel.cluster_ops(tr, CL) if o[0] != 'enter'])
                m = ('at', CL, k)
                t = [rel.zero_test(strip(a)) + (b,) for a, b in dec if rel.zero_test(strip(a)) is not None]
                empty = None
                for o, pol, b in t:
                    if o == m:
                        empty = b == pol
                er = [x for x in ops if x[0] == 'erase']
                fr = [x for x in ops if x[0] == 'free']
                if er or fr:
                    C.ob(empty is True, q + '|only empty', '%s drops a cluster that may hold observations' % q, f, p)
                    C.ob(len(er) == 1 and er[0][3] == k and len(fr) == 1 and fr[0][3] == m, q + '|drops and frees',
                         '%s does not both erase and release an empty cluster' % q, f, p)
                else:
                    C.ob(empty is False, q + '|every empty', '%s keeps a cluster that may hold nothing' % q, f, p)
    if not seen:
        raise Odd('no loop over the clusters')


def to_cluster(C, f, ps):
    items = items_param(C, f)
    val = [('p', x['name']) for x in f['params'] if ('p', x['name']) != items][-1]
    for p in ps:
        q = f['q']
        d = data_ops(p)
        C.ob(bool(d) and all(x == ('put', (), items, val) for x in d), q + '|stores',
             '%s adds a value to the cluster that is not the one stored' % q, f, p)
        C.ob(index_ops(p, items) in (None, 'add'), q + '|index', '%s reduces the reverse index' % q, f, p)
        ops = cluster_effect(p)
        upd = [x for x in ops if x[0] in ('add', 'sub')]
        C.ob(len(upd) == 1 and upd[0][0] == 'add' and upd[0][4][0] == val and (len(upd[0][4]) < 2 or upd[0][4][1] == ONE),
             q + '|one model update', '%s does not add exactly the value to the cluster' % q, f, p)
        if len(upd) == 1:
            k = model_key(upd[0][3], [])
            if k is None:
                raise Odd('model')
            assert_key(C, f, p, 'add', k, items)


def from_cluster(C, f, ps):
    items = items_param(C, f)
    for p in ps:
        q = f['q']
        C.ob(not data_ops(p), q + '|stored', '%s changes the stored observations' % q, f, p)
        ops = cluster_effect(p)
        upd = [x for x in ops if x[0] in ('add', 'sub')]
        C.ob(len(upd) == 1 and upd[0][0] == 'sub' and upd[0][4][0] == ('at', DATA, items), q + '|one model update',
             '%s does not take exactly the stored value out of the cluster' % q, f, p)
        if len(upd) == 1:
            k = model_key(upd[0][3], [])
            if k is None:
                raise Odd('model')
            assert_key(C, f, p, 'sub', k, items)


def revalues(C, f, ps):
    items = items_param(C, f)
    val = [('p', x['name']) for x in f['params'] if ('p', x['name']) != items][-1]
    for p in ps:
        q = f['q']
        d = data_ops(p)
        C.ob(bool(d) and all(x == ('put', (), items, val) for x in d), q + '|stores',
             '%s does not store the new value' % q, f, p)
        C.ob(index_ops(p, items) is None, q + '|index', '%s changes the reverse index' % q, f, p)
        seq = []
        for ev, loops, g in events(p.trace):
            if ev[0] in ('put', 'ins', 'set') and (strip(ev[1]) == DATA or strip(ev[1])[:2] == ('at', DATA)):
                seq.append('w')
            elif ev[0] == 'call' and net.base(ev[1]) in ('incorporate', 'unincorporate') and ev[2] is not None:
                o, a = strip(ev[2]), strip(ev[3])
                k = model_key(o, [])
                if k is None:
                    raise Odd('model %s' % pp(o)[:60])
                assert_key(C, f, p, 're-value', k, items)
                if net.base(ev[1]) == 'unincorporate':
                    C.ob(a[0] == ('at', DATA, items), q + '|removes old', '%s removes %s from the cluster' % (q, pp(a[0])[:60]), f, p)
                    C.ob('w' not in seq, q + '|old value', '%s overwrites the value before removing it' % q, f, p)
                    seq.append('-')
                else:
                    C.ob(a[0] == val, q + '|adds new', '%s adds %s to the cluster' % (q, pp(a[0])[:60]), f, p)
                    seq.append('+')
        C.ob(seq.count('-') == 1 and seq.count('+') == 1, q + '|one for one',
             '%s takes out %d and puts in %d values' % (q, seq.count('-'), seq.count('+')), f, p)
        bad = [x for x in cluster_effect(p) if x[0] in ('erase', 'free') and seq.count('+') == 1]
        C.ob(not bad, q + '|keeps', '%s drops the cluster' % q, f, p)


def moves(C, f, ps):
    q = f['q']
    dom = by_type(C, f, lambda s: s in ('Domain', 'class Domain'))
    names = [('p', p['name']) for p in f['params']]
    ints = [('p', p['name']) for p in f['params'] if ty(C, p) == 'int']
    if len(dom) != 1 or len(ints) != 2:
        raise Odd('parameters')
    dom, (item, table) = dom[0], ints
    entry = ('at', ('at', DR, ('f', dom, 'name')), item)
    found = 0
    for p in ps:
        C.ob(not data_ops(p), q + '|stored', '%s changes the stored observations' % q, f, p)
        for ev in p.trace:
            if ev[0] != 'loop':
                if any(x[0] in ('add', 'sub') for x in rel.cluster_ops((ev,), CL)):
                    raise Odd('model update outside the loop over the observations')
                continue
            k = ev[1]
            if not any(x[0] in ('add', 'sub') for x in rel.cluster_ops((ev,), CL)):
                continue
            found += 1
            if not (k[0] == 'key' and strip(k[2]) == entry):
                if k[0] == 'key' and mentions(strip(k[2]), DR):
                    C.ob(False, q + '|every observation', '%s moves the observations of %s' % (q, pp(strip(k[2]))[:80]), f, p)
                    continue
                raise Odd('loop over %s' % pp(k)[:80])
            k = strip(k)
            x = ('at', DATA, k)
            for tr, dec, how in ev[2]:
                if how not in ('next', 'continue'):
                    C.ob(how in ('abort', 'exit'), q + '|every observation', '%s stops before the last observation' % q, f, p)
                    continue
                ops = owned([o for o in rel.cluster_ops(tr, CL) if o[0] != 'enter'])
                one_move(C, f, p, ops, k, x, dom, item, table)
    if ps and not found:
        C.ob(False, q + '|every observation', '%s moves no observation' % q, f, ps[0])


def one_move(C, f, p, ops, k, x, dom, item, table):
    q = f['q']
    subs = [o for o in ops if o[0] == 'sub']
    adds_ = [o for o in ops if o[0] == 'add']
    news = [(o[3], o[4]) for o in ops if o[0] == 'new']
    C.ob(len(subs) == 1 and len(adds_) == 1, q + '|one for one', '%s takes out %d and puts in %d per observation' %
         (q, len(subs), len(adds_)), f, p)
    if len(subs) != 1 or len(adds_) != 1:
        return
    for o, w in ((subs[0], 'sub'), (adds_[0], 'add')):
        C.ob(o[4][0] == x and (len(o[4]) < 2 or o[4][1] == ONE), q + '|%s value' % w,
             '%s moves a value other than the stored one' % q, f, p)
    k1, k2 = model_key(subs[0][3], []), model_key(adds_[0][3], news)
    if k1 is None or k2 is None:
        raise Odd('model')
    r1, r2 = rel.cluster_key(k1), rel.cluster_key(k2)
    if r1 is None or r2 is None or 'odd' in (r1[0], r2[0]):
        raise Odd('cluster key')
    C.ob(r1 == ('Z', THIS, k), q + '|from', '%s takes the observation out of another cluster than its own' % q, f, p)
    C.ob(r2 == ('ZG', THIS, k, dom, item, table), q + '|to',
         '%s puts the observation into a cluster other than the destination' % q, f, p)
    er = [o for o in ops if o[0] == 'erase']
    fr = [o for o in ops if o[0] == 'free']
    t = [o[4] for o in ops if o[0] == 'test0' and o[3] == ('at', CL, k1)]
    if er:
        C.ob(len(er) == 1 and er[0][3] == k1 and t and t[-1] is True and len(fr) == 1 and order_after(ops),
             q + '|drops', '%s drops a cluster that may hold observations' % q, f, p)
    else:
        C.ob(bool(t) and t[-1] is False and not fr and order_after(ops), q + '|drops',
             '%s keeps the old cluster although it may be empty' % q, f, p)
    has = [o[4] for o in ops if o[0] == 'has' and o[3] == k2]
    nw = [o for o in ops if o[0] == 'new']
    if nw:
        C.ob(len(nw) == 1 and nw[0][3] == k2 and (has and has[-1] is False or 'absent' in nw[0][5]), q + '|creates',
             '%s replaces a cluster that may exist' % q, f, p)
    else:
        C.ob(not (has and has[-1] is False), q + '|creates', '%s does not create the missing cluster' % q, f, p)


def keyed(C, f, ps):
    items = items_param(C, f)
    for p in ps:
        r = rel.cluster_key(p.ret)
        if r is None:
            raise Odd('result %s' % pp(p.ret)[:80])
        C.ob(r == ('Z', THIS, items), f['q'] + '|key', '%s does not return the tables of the items' % f['q'], f, p)


def keyed_gibbs(C, f, ps):
    items = items_param(C, f)
    dom = by_type(C, f, lambda s: s in ('Domain', 'class Domain'))[0]
    ints = [('p', p['name']) for p in f['params'] if ty(C, p) == 'int']
    for p in ps:
        r = rel.cluster_key(p.ret)
        if r is None or r[0] == 'odd':
            raise Odd('result %s' % pp(p.ret)[:80])
        C.ob(r == ('ZG', THIS, items, dom) + tuple(ints), f['q'] + '|key',
             '%s does not return the tables of the items with the entity moved' % f['q'], f, p)


def items_only(C, f, ps):
    items = items_param(C, f)
    for p in ps:
        q = f['q']
        C.ob(index_ops(p, items) == 'add', q + '|index', '%s: %s' % (q, index_ops(p, items) or 'not indexed'), f, p)
        order_of_seating(C, f, p, items)
        r = rel.cluster_key(p.ret)
        if r is None:
            raise Odd('result')
        C.ob(r == ('Z', THIS, items), q + '|key', '%s does not return the cluster of the items' % q, f, p)
        ops = cluster_effect(p)
        if any(x[0] in ('add', 'sub') for x in ops):
            raise Odd('model update')
        life(C, f, p, ops, strip(p.ret), 'add')


def lookup(C, f, ps):
    q = f['q']
    items = [('p', p['name']) for p in f['params']]
    for p in ps:
        r = strip(p.ret) if p.exit[0] == 'ret' else None
        if f['name'] == 'get_value':
            C.ob(r == ('at', DATA, items[0]), q + '|reads', '%s does not return the stored value' % q, f, p)
        elif f['name'] == 'has_observation':
            want = ('contains', ('at', DR, ('f', items[0], 'name')), items[1])
            dec = {strip(a): b for a, b in p.decisions}
            if r == want or r[0] == 'b' and dec.get(want) == r[1]:
                C.ob(True, q + '|reads', '', f)
            elif r[0] in ('b', 'contains') or not any(ev[0] == 'loop' for ev in p.trace) and not any(
                    x == want for a in [r] + [strip(a) for a, _ in p.decisions] for x in subterms(a)):
                C.ob(False, q + '|reads', '%s does not report whether the entity is indexed' % q, f, p)
            else:
                raise Odd('result %s' % pp(r)[:60])


if __name__ == '__main__':
    rule.main('C08', main)
