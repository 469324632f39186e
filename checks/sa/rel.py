"""Shared vocabulary for the relation classes: cluster keys, reverse index and
cluster updates as seen in the paths of their methods."""
from .interp import subst, mentions, pp, n, ZERO, ONE
from .net import base

THIS = ('this',)
MAKERS = ('get_prior', 'make_new_distribution')


def fld(o, x):
    return ('f', o, x)


def unacc(t):
    while isinstance(t, tuple) and t and t[0] == 'acc':
        t = t[2]
    return t


def strip(t):
    """Drop loop-carried wrappers and call numbering everywhere."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'acc':
        return strip(t[2])
    if t and t[0] == 'LOC':
        return strip(t[1])
    if t and t[0] == 'call' and len(t) > 4 and base(t[1]) not in MAKERS:
        t = t[:4]
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


def opaque(g):
    """Model construction and the partition are separate obligations."""
    q = g.get('q', '')
    return g.get('name') in ('get_prior', 'choice', 'log_choice', 'product', 'logsumexp') or \
        (q.startswith('Domain::') and g.get('name') in ('incorporate', 'unincorporate', 'set_cluster_assignment_gibbs',
                                                        'tables_weights', 'tables_weights_gibbs'))


class KeyTerm:
    """An index vector built elementwise over the domains of an owner."""

    def __init__(self, owner, doms, cases, loopkey):
        self.owner, self.doms, self.cases, self.key = owner, doms, cases, loopkey


def elementwise(t):
    """(loop key, [(decisions, element value)]) for a vector filled one element
    per iteration, or None."""
    t = strip(t)
    if t[0] != 'cont':
        return None
    b, ops = t[1], [o for o in t[2] if o[0] not in ('prior', 'touch')]
    if len(ops) != 1 or ops[0][0] != 'each':
        return None
    k = ops[0][1]
    if k[0] != 'idx':
        return None
    out = []
    for dec, sub, how in ops[0][2]:
        if how not in ('next', 'continue'):
            return None
        sub = [o for o in sub if o[0] not in ('prior', 'touch')]
        if len(sub) != 1:
            return None
        o = sub[0]
        if b[0] == 'fill' and o[0] == 'put' and o[1] == k and b[1] == k[2]:
            out.append((dec, o[2]))
        elif b == ('empty',) and o[0] == 'push':
            out.append((dec, o[1]))
        else:
            return None
    return k, out


def assigned(dom, item):
    return ('at', ('f', ('f', dom, 'crp'), 'assignments'), item)


def cluster_key(t):
    """('Z', owner, items): current cluster of items; ('ZG', owner, items,
    domain, item, table): cluster with one entity reassigned; None otherwise."""
    r = elementwise(t)
    if r is None:
        t2 = strip(t)
        return None
    k, cases = r
    doms = k[2][1] if k[2][0] == 'size' else None
    if doms is None or doms[0] != 'f' or doms[2] != 'domains':
        # the loop may run over the items, whose number is the same
        doms = None
    owner = None
    items = None
    table = None
    spec = []
    for dec, v in cases:
        a = read_assignment(v, k)
        if a is not None:
            d, it = a
            if d[1][0] != 'f' or d[1][2] != 'domains' or it[1] is None:
                return None
            if owner not in (None, d[1][1]) or items not in (None, it[1]):
                return None
            owner, items = d[1][1], it[1]
            spec.append((dec, 'a'))
        else:
            if table not in (None, v):
                return None
            table = v
            spec.append((dec, 't'))
    if owner is None:
        return None
    if doms is None:
        if k[2] != ('size', items):
            return None
    elif doms != ('f', owner, 'domains'):
        return None
    if table is None:
        return ('Z', owner, items) if all(s == 'a' for _, s in spec) else None
    # the condition: the entity of this domain is the one moved
    dn = ('f', ('at', ('f', owner, 'domains'), k), 'name')
    el = ('at', items, k)
    name = item = None
    for dec, s in spec:
        for a, b in dec:
            if a[0] == 'eq' and dn in (a[1], a[2]):
                o = a[2] if a[1] == dn else a[1]
                if name not in (None, o):
                    return None
                name = o
            elif a[0] == 'eq' and el in (a[1], a[2]):
                o = a[2] if a[1] == el else a[1]
                if item not in (None, o):
                    return None
                item = o
    good = True
    for v1 in (True, False):
        for v2 in (True, False):
            hit = []
            for dec, s in spec:
                ok = True
                for a, b in dec:
                    if a[0] != 'eq' or not (dn in a[1:] or el in a[1:]):
                        continue
                    val = v1 if dn in (a[1], a[2]) else v2
                    if val != b:
                        ok = False
                if ok:
                    hit.append(s)
            want = 't' if v1 and v2 else 'a'
            if not hit or any(h != want for h in hit):
                good = False
    if name is None or item is None:
        good = False
    if not good:
        return ('badZG', owner, items, name, item, table)
    dom = name[1] if name[0] == 'f' and name[2] == 'name' else name
    return ('ZG', owner, items, dom, item, table)


def read_assignment(v, k):
    """(domain loc, items element) when v reads a domain's partition at the
    matching element."""
    if v[0] == 'at' and v[1][0] == 'f' and v[1][2] == 'assignments' and v[1][1][0] == 'f' and v[1][1][2] == 'crp':
        d, it = v[1][1][1], v[2]
    elif v[0] == 'call' and base(v[1]) == 'get_cluster_assignment' and v[1].startswith('Domain'):
        d, it = v[2], v[3][0]
    else:
        return None
    if d[0] != 'at' or d[2] != k:
        return None
    if it[0] != 'at' or it[2] != k:
        return (d, (None, None))
    return d, ('at', it[1])


def cluster_ops(trace, clusters, loops=(), conds=()):
    """Events on the cluster map and the cluster models, in order:
    (kind, loops, conds, key term, extra, event).  kinds: add, sub, new, erase,
    free, clear, test0 (N == 0 test with outcome), has (contains test)."""
    for ev in trace:
        e = ev[0]
        if e == 'loop':
            yield ('enter', loops, ev)
            for tr, dec, how in ev[2]:
                yield from cluster_ops(tr, clusters, loops + (ev[1],), conds + ((tuple(dec), how),))
            continue
        if e == 'call':
            nm = base(ev[1])
            o = strip(ev[2]) if ev[2] is not None else None
            if o is not None and nm in ('incorporate', 'unincorporate') and not ev[1].startswith('Domain'):
                yield ('add' if nm == 'incorporate' else 'sub', loops, conds, o, strip(ev[3]), ev)
        elif e in ('put', 'ins', 'del', 'touch', 'clear', 'assign', 'swap', 'merge') and strip(ev[1]) == clusters:
            kind = {'put': 'new', 'ins': 'new', 'del': 'erase'}.get(e)
            if e == 'touch':
                continue
            if kind is None:
                yield ('odd', loops, conds, None, e, ev)
            else:
                yield (kind, loops, conds, strip(ev[2]), strip(ev[3]) if kind == 'new' and len(ev) > 4 else None, ev)
        elif e == 'delete':
            yield ('free', loops, conds, strip(ev[1]), None, ev)
        elif e == 'br':
            a = strip(ev[1])
            z = zero_test(a)
            if z is not None:
                yield ('test0', loops, conds, z[0], ev[2] == z[1], ev)
            elif a[0] == 'contains' and a[1] == clusters:
                yield ('has', loops, conds, a[2], ev[2], ev)


def zero_test(a):
    """(model, polarity): the atom tests that the model holds no data."""
    if a[0] in ('eq', 'ne'):
        x, y = a[1], a[2]
        if x[0] == 'n':
            x, y = y, x
        if y == ZERO and x[0] == 'f' and x[2] == 'N':
            return x[1], a[0] == 'eq'
    return None
