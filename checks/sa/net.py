"""Net effect of a path on state that outlives the call."""
from .interp import mk_add, mk_mul, mk_sub, n, ONE, ZERO, pp, mentions, subterms
from .rule import events, islocal, rootof, STATE_OPS

NESTED = ('incorporate', 'unincorporate')


def base(name):
    return name.split('::')[-1].split('<')[0]


def canon(t, store, depth=0):
    """Strip call numbering and name local containers by content, so that two
    evaluations of the same thing are the same term."""
    if not isinstance(t, tuple) or depth > 40:
        return t
    if t and t[0] == 'var' and t in store and store[t] != t and store[t][0] in ('cont', 'list', 'fill', 'call'):
        return canon(store[t], {}, depth + 1)
    if t and t[0] == 'call' and len(t) > 4:
        t = t[:4]
    return tuple(canon(x, store, depth + 1) if isinstance(x, tuple) else x for x in t)


def calls(p):
    """(event, loops, conds) for every opaque call of the path.  conds is None
    when the call happens on every iteration of its loops, else the
    distinguishing decisions."""
    yield from _calls(p.trace, (), ())


def _calls(trace, loops, conds):
    for ev in trace:
        if ev[0] == 'call':
            yield ev, loops, conds
        elif ev[0] == 'loop':
            for tr, dec, how in ev[2]:
                yield from _calls(tr, loops + (ev[1],), conds + ((dec, how),))


def additive(p, kinds=NESTED):
    """Net number of times each (object, value) is added to a nested model.

    Returns {(loops, obj, args): {cond: weight}} with cancelling entries
    removed.  A call made on all iteration paths of a loop has cond ()."""
    acc = {}
    for ev, loops, conds in _iter(p.trace, (), ()):
        nm = base(ev[1])
        if ev[2] is None or islocal(ev[2]):
            continue
        a = ev[3]
        x = a[0] if a else ()
        if nm in ('incorporate', 'unincorporate') and nm in kinds:
            w = (a[1] if len(a) > 1 else ONE) if nm == 'incorporate' else n(-1)
        elif nm in ('incorporate_to_cluster', 'unincorporate_from_cluster') and nm in kinds:
            w = ONE if nm == 'incorporate_to_cluster' else n(-1)
        elif nm in kinds and a:
            # any other weighted update: the last argument is the weight
            w, x = a[-1], (nm,) + tuple(a[:-1])
        else:
            continue
        k = canon((loops, ev[2], x), p.store)
        acc.setdefault(k, {})
        acc[k][conds] = mk_add(acc[k].get(conds, ZERO), w)
    out = {}
    for k, d in acc.items():
        r = {c: w for c, w in d.items() if w != ZERO}
        if r:
            out[k] = r
    return out


def _iter(trace, loops, conds):
    for ev in trace:
        if ev[0] == 'call':
            yield ev, loops, conds
        elif ev[0] == 'loop':
            # a call common to every body path carries no condition
            per = []
            for tr, dec, how in ev[2]:
                per.append(([(c, l, x) for c, l, x in _iter(tr, (), ())], dec, how))
            if not per:
                continue
            sigs = []
            for lst, dec, how in per:
                cnt = {}
                for c, l, x in lst:
                    s = (c[1], c[2], c[3], l, x)
                    cnt[s] = cnt.get(s, 0) + 1
                sigs.append(cnt)
            common = {}
            for s in sigs[0]:
                m = min(d.get(s, 0) for d in sigs)
                if m:
                    common[s] = m
            used = dict(common)
            for c, l, x in per[0][0]:
                s = (c[1], c[2], c[3], l, x)
                if used.get(s, 0):
                    used[s] -= 1
                    yield c, loops + (ev[1],) + l, conds + x
            for (lst, dec, how) in per:
                used = dict(common)
                for c, l, x in lst:
                    s = (c[1], c[2], c[3], l, x)
                    if used.get(s, 0):
                        used[s] -= 1
                        continue
                    yield c, loops + (ev[1],) + l, conds + ((frozenset(dec), how),) + x


def changed(p):
    """Non-local locations whose final value differs from the initial one."""
    out = {}
    for l, v in p.store.items():
        if islocal(l) or v == l:
            continue
        if l[0] in ('p', 'g'):
            pass
        if v[0] == 'cont':
            ops = [o for o in v[2] if o[0] != 'prior']
            ops = cancel(ops, l)
            if v[1] == l and not ops:
                continue
        out[l] = v
    return out


def cancel(ops, l):
    """Drop put;del pairs of the same key and puts of the value already held."""
    out = []
    for o in ops:
        if o[0] == 'put' and o[2] == ('at', l, o[1]):
            continue
        if o[0] == 'each' and all(not [q for q in b if not (q[0] == 'put' and q[2] == ('at', l, q[1]))]
                                  for _, b, _ in o[2]):
            continue
        out.append(o)
    return out
