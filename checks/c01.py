"""C01: removing an observation exactly undoes adding it.

For every concrete model class, each path of incorporate(x, w) is summarised;
every statistic update must be old + w*g with g (and the branch taken, and the
key touched) independent of w and of the statistics, or else the composition
incorporate(x,w);incorporate(x,-w) must be the identity as a rational
function.  unincorporate must be incorporate with weight -1."""
import sys
from sa import rule, models, algebra
from sa.interp import mk_sub, mk_mul, mentions, subterms, n, pp, is_num, coef, Interp
from sa.rule import events, islocal, rootof, STATE_OPS

RULE = ('For every concrete Distribution/Emission: on every path of incorporate(x,w) each statistic update is '
        'linear in w with a coefficient, key and branch that depend on x only (or the add/remove composition is the '
        'identity as a rational function), nested models receive w times such a coefficient, the total weight changes '
        'by exactly w, nothing is converted to an integer type, and unincorporate(x) is incorporate(x,-1).')


def linear(t, W):
    """Coefficient g with t == W*g, or None."""
    if is_num(t):
        return n(0) if t[1] == 0 else None
    if not mentions(t, W):
        return None
    k = t[0]
    if t == W:
        return n(1)
    if k == 'add':
        gs = [linear(x, W) for x in t[1]]
        if any(g is None for g in gs):
            return None
        from sa.interp import mk_add
        return mk_add(*gs)
    if k == 'mul':
        hit = [x for x in t[1] if mentions(x, W)]
        if len(hit) != 1:
            return None
        g = linear(hit[0], W)
        if g is None:
            return None
        return mk_mul(g, *[x for x in t[1] if x is not hit[0]])
    if k == 'div':
        if mentions(t[2], W):
            return None
        g = linear(t[1], W)
        return None if g is None else ('div', g, t[2])
    if k == 'cond' and len(t) == 4 and not mentions(t[1], W):
        a, b = linear(t[2], W), linear(t[3], W)
        return None if a is None or b is None else ('cond', t[1], a, b)
    if k == 'sum':
        gs = []
        for dec, v in t[2]:
            g = linear(v, W)
            if g is None and v != n(0):
                return None
            gs.append((dec, g or n(0)))
        return ('sum', t[1], tuple(gs))
    return None


def written(paths):
    w = set()
    for p in paths:
        for ev, loops, g in events(p.trace):
            if ev[0] in STATE_OPS and isinstance(ev[1], tuple) and not islocal(ev[1]):
                w.add(ev[1])
    return w


def mutable_roots(paths, cls, P):
    """Locations whose value incorporate may change: written ones and nested
    model objects that receive calls."""
    w = written(paths)
    for p in paths:
        for ev, loops, g in events(p.trace):
            if ev[0] == 'call' and ev[2] and is_state(ev[2]):
                f = P.fns.get(ev[5])
                if f is not None and f.get('const'):
                    continue
                if f is None and (ev[1].startswith('std::') or ev[1].startswith('?')):
                    continue
                w.add(ev[2])
    return w


def is_state(l):
    return l[0] in ('f', 'at', 'alt') and rootof(l) == ('this',)


def dep(t, mut):
    """Does term t depend on mutable state?  Returns the offending location."""
    for s in subterms(t):
        if s in mut:
            return s
        if mut and s and s[0] == 'lambda' and len(s) > 2 and s[2] == ('this',):
            return ('f', ('this',), '<captured model>')
        if s and s[0] in ('f', 'at') and any(under(m, s) for m in mut) and s[0] == 'at':
            return s
        if s and s[0] == 'call' and s[2] and isinstance(s[2], tuple) and s[2] in mut:
            return s[2]
    return None


def under(l, root):
    while l[0] in ('f', 'at', 'elt'):
        l = l[1]
        if l == root:
            return True
    return False


def main():
    C = rule.Check('C01', RULE, [
        'real arithmetic stands for floating point (rounding is ignored)',
        'a pointer member such as the wrapped model of an adapter is owned and distinct from the other statistics'],
        min_obligations=40)
    P = C.P
    cl = models.concrete(P)
    nested_inc = {}
    for cls, r in sorted(cl.items()):
        check_class(C, P, cls)
    check_base(C, P, cl)
    return C.finish()


def check_base(C, P, cl):
    for cls in sorted(cl):
        sc = models.template(cls)
        f = models.method(P, cls, 'unincorporate')
        if f is None:
            C.unanalysed.append(sc + '::unincorporate not found')
            continue
        inc = models.method(P, cls, 'incorporate')
        x = f['params'][0]['name']
        key = '%s::unincorporate' % sc
        ps = C.try_run(f, this_cls=cls, opaque=lambda g: g.get('name') == 'incorporate')
        if ps is None:
            continue
        ok, why = True, ''
        simple = True
        for p in ps:
            if p.aborted:
                continue
            calls = [(ev, l) for ev, l, g in events(p.trace) if ev[0] == 'call' and ev[1].endswith('::incorporate')]
            writes = [ev for ev, l, g in events(p.trace) if ev[0] in STATE_OPS and not islocal(ev[1])]
            other = [ev for ev, l, g in events(p.trace) if ev[0] == 'call' and ev[2] and is_state(ev[2]) and
                     not ev[1].endswith('::incorporate')]
            if len(calls) == 1 and not calls[0][1] and calls[0][0][2] == ('this',) and not writes and not other:
                args = calls[0][0][3]
                if args[0] != ('p', x) or len(args) < 2 or args[1] != n(-1):
                    ok, why = False, 'removes %s with weight %s' % (pp(args[0]), pp(args[1]) if len(args) > 1 else '?')
            else:
                simple = False
        if simple:
            C.ob(ok, key + '|inverse', 'does not call incorporate(x, -1): ' + why, f)
            continue
        # overridden: compare its effects with those of incorporate(x, -1)
        try:
            a = {frozenset(p.decisions): effects(p) for p in C.run(f, this_cls=cls, bind={x: ('p', 'x')})
                 if not p.aborted}
            b = {frozenset(p.decisions): effects(p) for p in
                 C.run(inc, this_cls=cls, bind={inc['params'][0]['name']: ('p', 'x'),
                                                inc['params'][1]['name']: n(-1)}) if not p.aborted}
        except rule.Broken as e:
            C.unanalysed.append(str(e))
            continue
        C.ob(a == b, key + '|inverse', 'overridden unincorporate does not have the effects of incorporate(x, -1)', f)


def effects(p):
    out = []
    for ev, loops, g in events(p.trace):
        if ev[0] in ('put', 'set', 'ins', 'del', 'push', 'clear') and not islocal(ev[1]):
            out.append((loops,) + ev[:-1])
        elif ev[0] == 'call':
            out.append((loops,) + ev[:4])
    return sorted(map(repr, out))


def check_class(C, P, cls):
    sc = models.template(cls)
    f = models.method(P, cls, 'incorporate')
    if f is None or len(f['params']) < 2:
        C.unanalysed.append(sc + '::incorporate not found')
        return
    x, w = f['params'][0]['name'], f['params'][1]['name']
    pt = P.type(f['params'][1]['t'])
    C.ob(pt['k'] == 'float', '%s::incorporate|weight-type' % sc, 'weight parameter has type %s' % pt['s'], f)
    todo = [(f, w, 'incorporate')]
    done = set()
    ncall = 0
    while todo:
        g, wn, label = todo.pop()
        if g['key'] in done:
            continue
        done.add(g['key'])
        # do not descend into recursion twice; nested value models are inlined
        bind = {pr['name']: ('p', 'weight' if pr['name'] == wn else 'x%d' % i)
                for i, pr in enumerate(g['params'])}
        ps = C.try_run(g, this_cls=cls, maxpaths=2000, bind=bind,
                       opaque=lambda f: f['q'] in ('topk_alignments',))
        if ps is None:
            continue
        check_paths(C, P, cls, sc, g, wn, label, ps, todo, is_root=(g is f))


def check_paths(C, P, cls, sc, fn, wn, label, ps, todo, is_root):
    W = ('p', 'weight')
    base = '%s::%s' % (sc, label)
    live = [p for p in ps if not p.aborted]
    mut = mutable_roots(live, cls, P)
    N = ('f', ('this',), 'N')
    # 1. branches independent of weight and statistics
    nonlin = None
    for p in live:
        for ev, loops, g in events(p.trace):
            if ev[0] == 'br':
                if mentions(ev[1], W):
                    nonlin = nonlin or ('branch on the weight: %s' % pp(ev[1])[:120], ev[3], p)
                else:
                    d = dep(ev[1], mut)
                    if d is not None:
                        nonlin = nonlin or ('branch on a statistic: %s' % pp(ev[1])[:120], ev[3], p)
    bad = []     # (target, message, where, path)
    good = set()
    for p in live:
        seen_fields = set()
        for ev, loops, g in events(p.trace):
            if ev[0] in STATE_OPS and isinstance(ev[1], tuple) and not islocal(ev[1]):
                if ev[0] == 'touch':
                    continue
                loc = ev[1]
                if ev[0] == 'set':
                    seen_fields.add(loc)
                elif ev[0] == 'put':
                    tgt = name(loc)
                    d = mk_sub(ev[3], ('at', loc, ev[2])) if ev[3][0] not in ('cont', 'tuple', 'list', 's') else None
                    if d is None:
                        bad.append((tgt, 'entry replaced instead of adjusted by the weight', ev[-1], p))
                        continue
                    judge(bad, good, tgt, d, W, mut, ev[-1], p)
                    for t in (ev[2],):
                        if mentions(t, W) or dep(t, mut):
                            bad.append((tgt, 'which entry is adjusted depends on the weight or on statistics: %s'
                                        % pp(t)[:100], ev[-1], p))
                else:
                    bad.append((name(loc), '%s on a statistic' % ev[0], ev[-1], p))
            elif ev[0] == 'call' and ev[2] is not None and (is_state(ev[2]) or ev[2] == ('this',)):
                cf = P.fns.get(ev[5])
                if cf is not None and cf.get('const'):
                    continue
                if cf is None and not str(ev[5] or '').startswith(tuple(['?'])) and ev[1].startswith('std::'):
                    continue
                nm = ev[1].split('::')[-1]
                if cf is None and nm in ('logp', 'logp_score', 'nearest', 'store_latents'):
                    continue
                tgt = name(ev[2]) + '.' + nm
                ws = [i for i, a in enumerate(ev[3]) if mentions(a, W)]
                if not ws:
                    bad.append((tgt, 'nested update does not receive the weight', ev[4], p))
                    continue
                for i in ws:
                    judge(bad, good, tgt, ev[3][i], W, mut, ev[4], p)
                for i, a in enumerate(ev[3]):
                    if i not in ws:
                        d = dep(a, mut)
                        if d is not None:
                            good.add(tgt)
                            bad.append((tgt + '|state-dependent' + when(p), 'nested value depends on a statistic: %s' % pp(a)[:80], ev[4], p))
                if ev[2] == ('this',) and cf is not None and nm != 'incorporate' and len(ws) == 1 and \
                        ws[0] < len(cf['params']):
                    todo.append((cf, cf['params'][ws[0]]['name'], nm))
        for loc in sorted(seen_fields, key=repr):
            v = p.store.get(loc, loc)
            tgt = name(loc)
            if any(s[0] == 'trunc' for s in subterms(v) if s):
                bad.append((tgt + '|truncated', 'statistic %s is kept in an integer: fractional weights are lost' % tgt,
                            fn, p))
                v = strip_trunc(v)
            d = mk_sub(v, loc)
            if loc == N and is_root:
                C.ob(d == W, base + '|N', 'total weight changes by %s, not by the weight' % pp(d)[:100], fn, p)
            judge(bad, good, tgt, d, W, mut, fn, p)
        if is_root and N not in seen_fields:
            C.ob(False, base + '|N', 'total weight is not updated on this path', fn, p)
    if is_root:
        for fld in narrow_fields(P, cls, mut):
            bad.append((fld + '|truncated', 'statistic %s has an integer type: fractional weights are lost' % fld, fn, None))
    trunc = [b for b in bad if b[0].endswith('|truncated')]
    rest = [b for b in bad if not b[0].endswith('|truncated')]
    for b in trunc:
        C.ob(False, base + '|' + b[0], b[1], b[2], b[3])
    for t in sorted(good):
        C.ob(not any(b[0] == t for b in rest) or compose(C, P, cls, fn, wn) is True, base + '|linear|' + t,
             '; '.join(b[1] for b in rest if b[0] == t)[:300],
             next((b[2] for b in rest if b[0] == t), fn), next((b[3] for b in rest if b[0] == t), None))
    extra = [b for b in rest if b[0] not in good]
    if nonlin or extra:
        r = compose(C, P, cls, fn, wn)
        if r is True:
            C.ob(True, base + '|composition')
        else:
            if nonlin:
                C.ob(False, base + '|state-dependent', '%s (%s)' % (nonlin[0], r), nonlin[1], nonlin[2])
            for b in extra:
                kind = b[0] if 'state-dependent' in b[0] else 'linear|' + b[0]
                C.ob(False, base + '|' + kind, b[1], b[2], b[3])
    else:
        C.ob(True, base + '|branches')


def when(p):
    if p is None or not p.decisions:
        return ''
    return '|when ' + ' & '.join(sorted(('' if b else 'not ') + pp(a) for a, b in p.decisions))


def strip_trunc(v):
    if isinstance(v, tuple):
        if v and v[0] == 'trunc':
            return strip_trunc(v[1])
        return tuple(strip_trunc(x) if isinstance(x, tuple) else x for x in v)
    return v


def judge(bad, good, tgt, d, W, mut, where, p):
    if d == n(0):
        return
    if any(s and s[0] == 'trunc' and mentions(s, W) for s in subterms(d)):
        bad.append((tgt + '|truncated', 'weight is truncated before it reaches %s' % tgt, where, p))
        d = strip_trunc(d)
    g = linear(d, W)
    if g is None:
        bad.append((tgt, 'change of %s is not proportional to the weight: %s' % (tgt, pp(d)[:160]), where, p))
        return
    x = dep(g, mut)
    if x is not None:
        good.add(tgt)
        tgt = tgt + '|state-dependent' + when(p)
        bad.append((tgt, 'amount added to %s depends on a statistic (%s)' % (tgt, pp(x)[:60]), where, p))
        return
    if g == n(0):
        return
    good.add(tgt)


def narrow_fields(P, cls, mut):
    """Written scalar statistics, or element types of written containers, that
    are integral."""
    out = []
    for m in mut:
        if m[0] == 'f' and m[1] == ('this',):
            for r in chain(P, cls):
                for fd in r['fields']:
                    if fd['name'] == m[2]:
                        t = P.type(fd['t'])
                        a = t
                        if t['k'] == 'rec' and t.get('rec') in ('std::vector', 'std::map', 'std::unordered_map'):
                            args = [x for x in t.get('args', []) if isinstance(x, int)]
                            i = 0 if t['rec'] == 'std::vector' else 1
                            if len(args) > i:
                                a = P.type(args[i])
                        if a['k'] in ('int', 'uint', 'bool'):
                            out.append(m[2])
    return out


def chain(P, cls):
    r = P.recs.get(cls)
    if r is None:
        return
    yield r
    for b in r.get('bases', []):
        yield from chain(P, P.type(b)['s'])


def name(l):
    if l[0] == 'f':
        return (name(l[1]) + '.' if l[1] != ('this',) else '') + str(l[2])
    if l[0] == 'at':
        return name(l[1]) + '[]'
    if l[0] == 'this':
        return 'this'
    return l[0]


def compose(C, P, cls, fn, wn):
    """Is incorporate(x,w);incorporate(x,-w) the identity on scalar statistics?
    True or a reason string."""
    try:
        first = C.run(fn, this_cls=cls)
    except rule.Broken as e:
        return str(e)
    N = ('f', ('this',), 'N')
    n_ok = 0
    for p in first:
        if p.aborted:
            continue
        for ev, loops, g in events(p.trace):
            if loops or (ev[0] in STATE_OPS and ev[0] not in ('set',) and not islocal(ev[1])) or \
                    (ev[0] == 'call' and ev[2] and is_state(ev[2])):
                return 'not a closed-form scalar update'
        st = {l: v for l, v in p.store.items() if not islocal(l)}

        def init(s, st=st):
            for l, v in st.items():
                s.store[l] = v
        second = Interp(P).run(fn, this_cls=cls, bind={wn: mk_mul(n(-1), ('p', wn))}, init=init)
        for q in second:
            if q.aborted:
                continue
            if contradictory(p.decisions, q.decisions):
                continue
            for l in set(st) | {k for k in q.store if not islocal(k)}:
                v = q.store.get(l, l)
                cv = algebra.Conv()
                # when the path says that a total is zero, statistics must be
                # back at their declared initial values
                zero = [a for a, b in q.decisions if b and a[0] == 'eq' and n(0) in a[1:]]
                if l[0] == 'f' and l[2] != 'N' and zero:
                    ini = initial(P, cls, l)
                    if ini is None or not algebra.is_zero_rational(cv.conv(mk_sub(v, ini))):
                        return 'with no observations left %s is %s' % (name(l), pp(v)[:60])
                    continue
                zero1 = [a for a, b in p.decisions if b and a[0] == 'eq' and n(0) in a[1:]]
                if zero1:
                    continue
                if not algebra.is_zero_rational(cv.conv(mk_sub(v, l))):
                    return 'adding and removing leaves %s changed' % name(l)
            n_ok += 1
    return True if n_ok else 'no completed path'


def contradictory(a, b):
    fa = dict(a)
    return any(fa.get(x, v) != v for x, v in b)


def initial(P, cls, l):
    if l[0] != 'f':
        return None
    path = []
    while l[0] == 'f':
        path.insert(0, l[2])
        l = l[1]
    if l != ('this',):
        return None
    while path:
        fd = next((fd for r in chain(P, cls) for fd in r['fields'] if fd['name'] == path[0]), None)
        if fd is None:
            return None
        path.pop(0)
        if not path:
            if not fd.get('init'):
                return None
            from sa.interp import State
            return Interp(P).ev(fd['init'], State())[0][1]
        cls = P.strip(fd['t'])['s'].replace('const ', '')
    return None


if __name__ == '__main__':
    rule.main('C01', main)
