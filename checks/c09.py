"""C09: a noisy relation mirrors its clean base relation.

Each operation of the noisy relation is summarised, path by path, by what it
does to its stored values, to the emission relation that holds the pairs and
to the listing under base items."""
from sa import rule, writes
from sa.interp import subterms, mentions, pp, n, ZERO, ONE
from sa.net import base
from sa.rule import events, Broken
from sa.rel import THIS, strip, elementwise, opaque as relopaque
from c02 import impossible

RULE = ('Per path of every noisy-relation operation: an observation enters or leaves the stored values, the emission '
        'relation and the listing under its base items together; every pair handed to the emission model is the current '
        'base value at the base items with the observed value; the base items are the leading items; other operations are '
        'forwarded to the emission relation unchanged; nobody else writes these containers.')
DATA, LIST, EM, BASE, DOM = (('f', THIS, x) for x in
                             ('data', 'base_to_noisy_items', 'emission_relation', 'base_relation', 'domains'))
FORWARD = ('set_cluster_assignment_gibbs', 'logp_gibbs_approx', 'logp_gibbs_exact', 'has_observation',
           'clusters_contains', 'get_data_r', 'get_cluster_assignment', 'transition_cluster_hparams', 'logp_score',
           'cleanup_clusters', 'unincorporate_from_cluster')


class Odd(Exception):
    pass


def main():
    C = rule.Check('C09', RULE, ['operations of the emission relation are the obligations of C08',
                                 'callers of the documented partial operations complete them (C10)'], min_obligations=6)
    P = C.P
    W = writes.Writes(P)
    encapsulated(C, P, W)
    names = sorted({f['name'] for f in P.fns.values() if f.get('q', '').startswith('NoisyRelation::') and f.get('body')})
    if not names:
        raise Broken('no noisy relation operations')
    for nm in names:
        fs = [f for f in P.fn('NoisyRelation::' + nm) if f.get('body')]
        if nm in ('NoisyRelation', '~NoisyRelation', 'operator='):
            continue
        for f in fs[:1]:
            if not f.get('virtual') and W.callers(f['key']) and W.only_called_from(f['key'], inside):
                continue        # a helper, analysed in its callers
            try:
                ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
                for p in ps:
                    operation(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    try:
        built(C, P)
    except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
        C.unanalysed.append('constructor: %s %s' % (type(e).__name__, str(e)[:140]))
    return C.finish()


def opaque(g):
    return relopaque(g) or g.get('q', '').split('::')[0] in ('CleanRelation', 'Relation', 'Domain', 'CRP')


def inside(f):
    return (f.get('cls') or '').split('<')[0] == 'NoisyRelation'


def encapsulated(C, P, W):
    for fld in ('data', 'base_to_noisy_items', 'emission_relation'):
        bad = 0
        for fk, how in sorted(W.writers('NoisyRelation', fld).items()):
            f = P.fns[fk]
            if inside(f) or W.only_called_from(fk, inside):
                continue
            if fld == 'base_to_noisy_items' and all(h[0] == 'touch' for h in how):
                continue        # looking up an unlisted base item leaves an empty list
            bad += 1
            C.ob(False, 'NoisyRelation.%s|written by %s' % (fld, f['q']), '%s changes the %s of a noisy relation directly (%s)'
                 % (f['q'], fld, how[0][0]), (f['file'], how[0][1]))
        C.ob(not bad, 'NoisyRelation.%s|written by the relation only' % fld)


# --------------------------------------------------------------- terms -----
def is_arity(t):
    """Number of domains of the base relation."""
    if t[0] != 'size':
        return False
    d = t[1]
    if d[0] == 'call' and base(d[1]) == 'get_domains':
        return d[2] == BASE
    return d == ('f', BASE, 'domains')


def base_key(t, items):
    """True: the leading base-arity items; False: something else made of the
    items; None: not understood."""
    t = strip(t)
    if t[0] == 'prefix':
        if t[1] == items and t[2][:2] == ('f', THIS):
            return None         # a remembered arity
        return t[1] == items and is_arity(t[2])
    if t[0] == 'cont' and t[1] == items and [o[0] for o in t[2]] == ['resize']:
        return is_arity(t[2][0][1])
    if t[0] == 'call' and base(t[1]) == 'get_base_items' and t[2] == THIS:
        return t[3][0] == items
    if t[0] in ('fill', 'ctor'):
        beg = t[1] if t[0] == 'fill' else t[2]
        if any(x[0] == 'end' for x in subterms(beg) if isinstance(x, tuple) and x) or \
                beg[0] == 'iter' and beg[1] == items and beg[2] not in (('first',), ZERO):
            return False        # does not start at the first item
        return None
    r = elementwise(t)
    if r is not None:
        k, cases = r
        if not all(v == ('at', items, k) for _, v in cases):
            return False
        return is_arity(k[2])
    if t == items:
        return False
    return None


def base_value(t, items):
    if t[0] == 'call' and base(t[1]) == 'get_value' and t[2] == BASE:
        return base_key(t[3][0], items)
    if t[0] == 'at' and t[1][0] == 'call' and base(t[1][1]) == 'get_data' and t[1][2] == BASE:
        return base_key(t[2], items)
    if t[0] == 'call' and base(t[1]) == 'get_base_value' and t[2] == THIS:
        return t[3][0] == items
    return False


def sure(v):
    if v is None:
        raise Odd('base items')
    return v


def tuples(args):
    return [a for a in args if a[0] == 'tuple' and len(a) == 3]


# ---------------------------------------------------------------- rules ----
def operation(C, f, p):
    q, nm = f['q'], f['name']
    D, E, L = {}, {}, {}
    emp = {}
    direct = []
    whole = []
    calls = []
    evs = list(events(p.trace))
    for ev, loops, g in evs:
        k = ev[0]
        o = strip(ev[1]) if k in ('put', 'ins', 'del', 'set', 'clear', 'swap', 'assign', 'merge') else None
        if k in ('put', 'ins') and o == DATA:
            flat(loops)
            D.setdefault(strip(ev[2]), []).append(('put', strip(ev[3])))
        elif k == 'set' and o[:2] == ('at', DATA):
            flat(loops)
            D.setdefault(o[2], []).append(('put', strip(ev[2])))
        elif k == 'del' and o == DATA:
            flat(loops)
            D.setdefault(strip(ev[2]), []).append(('del', None))
        elif k in ('ins', 'put') and o[:2] == ('at', LIST):
            flat(loops)
            L.setdefault(strip(ev[2]), []).append(('ins', o[2]))
        elif k == 'del' and o[:2] == ('at', LIST):
            flat(loops)
            L.setdefault(strip(ev[2]), []).append(('del', o[2]))
        elif k == 'del' and o == LIST:
            flat(loops)
            whole.append((strip(ev[2]), L_now(L)))
        elif k in ('put', 'ins') and o == ('f', EM, 'data'):
            flat(loops)
            E.setdefault(strip(ev[2]), []).append(('store', strip(ev[3])))
        elif k in ('clear', 'swap', 'assign', 'merge') and o in (DATA, LIST) or k in ('put', 'assign') and o == LIST:
            raise Odd(k)
        elif k == 'br':
            a = strip(ev[1])
            for x, b in ((a, ev[2]),):
                e = emptiness(x)
                if e is not None:
                    emp.setdefault(e[0], []).append((ev[2] == e[1], e[2], L_now(L)))
        elif k == 'call':
            nmc, ob = base(ev[1]), strip(ev[2]) if ev[2] is not None else None
            args = strip(ev[3])
            if ob == EM:
                calls.append((nmc, args))
                if nmc in ('incorporate', 'unincorporate', 'incorporate_to_cluster', 'unincorporate_from_cluster',
                           'cleanup_data', 'update_value', 'incorporate_items'):
                    flat(loops)
                    it = [a for a in args if a != ('p', 'prng') and a[0] != 'tuple']
                    E.setdefault(it[0], []).append((nmc, (tuples(args) or [None])[0]))
            elif ob is not None and nmc in ('incorporate', 'unincorporate') and mentions(ob, ('f', EM, 'clusters')):
                flat(loops)
                direct.append((nmc, ob, args))
    items = the_items(C, f)
    # every pair is (base value, observed value)
    for ev, loops, g in evs:
        if ev[0] != 'call' or ev[2] is None:
            continue
        ob, args = strip(ev[2]), strip(ev[3])
        if not (ob == EM or mentions(ob, EM)):
            continue
        for t in tuples(args):
            if items is None:
                continue
            C.ob(sure(base_value(t[1], items)), q + '|pair', '%s scores or stores a pair whose clean part is not the base value' % q,
                 f, p)
            vs = value_params(C, f)
            if len(vs) == 1:
                C.ob(t[2] == vs[0], q + '|pair value', '%s pairs another value than the observed one' % q, f, p)
        if base(ev[1]) == 'sample_corrupted' and items is not None:
            C.ob(sure(base_value(args[0], items)), q + '|corrupts', '%s corrupts another value than the base value' % q, f, p)
    # values, pairs and listing in step
    for it in sorted(set(D) | set(E) | set(L), key=repr):
        d, e, l = D.get(it, []), E.get(it, []), L.get(it, [])
        for _, b in l:
            r = base_key(b, it)
            if r is None:
                raise Odd('base key')
            C.ob(r, q + '|listed under base', '%s lists an observation under other items than its base items' % q, f, p)
        new = sum(1 for x in e if x[0] in ('incorporate', 'store'))
        gone = sum(1 for x in e if x[0] in ('unincorporate', 'cleanup_data'))
        reval = sum(1 for x in e if x[0] in ('incorporate_to_cluster', 'update_value'))
        dput = [v for k2, v in d if k2 == 'put']
        ddel = [1 for k2, v in d if k2 == 'del']
        lins = sum(1 for x in l if x[0] == 'ins')
        ldel = sum(1 for x in l if x[0] == 'del') + sum(1 for b, _ in whole if base_key(b, it) and not l)
        whole_bad = [1 for b, _ in whole if not cleared(b, emp, it, L)]
        C.ob(not whole_bad, q + '|siblings', '%s drops the listing of other observations of the same base value' % q, f, p)
        if new - gone == 1:
            C.ob(len(dput) >= 1 and not ddel and lins >= 1 and not ldel, q + '|enters',
                 '%s adds an observation to the emission relation but not to the values and the listing' % q, f, p)
        elif new - gone == -1:
            C.ob(len(ddel) >= 1 and not dput and ldel >= 1 and not lins, q + '|leaves',
                 '%s removes an observation from the emission relation but not from the values and the listing' % q, f, p)
        elif new == gone:
            C.ob(not ddel and lins == 0 and ldel == 0 or len(ddel) == len(dput) and lins == ldel, q + '|stays',
                 '%s changes the values or the listing but not the emission relation' % q, f, p)
            C.ob(bool(dput) == bool(reval) or new > 0, q + '|revalues', '%s re-values only one of the value and the pair' % q, f, p)
        else:
            C.ob(False, q + '|enters', '%s adds or removes an observation more than once' % q, f, p)
        pairs = [x[1] for x in e if x[1] is not None]
        if dput and pairs:
            C.ob(dput[-1] == pairs[-1][2], q + '|same value', '%s stores another value than it pairs' % q, f, p)
    if direct or any(x[0] == 'store' for e in E.values() for x in e):
        stored = {it: x[1] for it, e in E.items() for x in e if x[0] == 'store'}
        only = [it for it in stored]
        ok = len(direct) == 1 and len(only) == 1 and direct[0][0] == 'incorporate' and tuples(direct[0][2]) == [stored[only[0]]]
        C.ob(ok, q + '|completes', '%s stores a pair its cluster model did not receive' % q, f, p)
        if ok:
            z = direct[0][1]
            C.ob(z[0] == 'at' and z[1] == ('f', EM, 'clusters') and z[2][0] == 'call' and
                 base(z[2][1]) in ('incorporate_items', 'get_cluster_assignment') and z[2][2] == EM and only[0] in z[2][3],
                 q + '|completes in cluster', '%s adds the pair to another cluster than the one of its items' % q, f, p)
            C.ob(any(x[0] == 'incorporate_items' for x in E[only[0]]), q + '|completes seating',
                 '%s does not seat the items it stores' % q, f, p)
    named(C, f, p, items, D, E, L, calls)


def named(C, f, p, items, D, E, L, calls):
    """Operations with a fixed meaning."""
    q, nm = f['q'], f['name']
    ps = [('p', x['name']) for x in f['params']]
    if nm in FORWARD:
        hit = [a for m, a in calls if m == nm]
        C.ob(len(hit) == 1 and list(hit[0]) == ps, q + '|forwarded',
             '%s does not pass its request on to the emission relation unchanged' % q, f, p)
        r = strip(p.ret) if p.exit[0] == 'ret' else ('none',)
        if r != ('none',):
            C.ob(r[0] == 'call' and base(r[1]) == nm and r[2] == EM or
                 r[0] == 'f' and r[1] == EM and nm == 'get_' + r[2], q + '|forwards result',
                 '%s returns something else than the emission relation says' % q, f, p)
    elif nm in ('incorporate', 'sample_and_incorporate'):
        C.ob(any(x[0] in ('incorporate', 'store') for x in E.get(items, [])), q + '|adds', '%s does not add its items' % q, f, p)
    elif nm in ('unincorporate', 'cleanup_data'):
        C.ob(any(x[0] in ('unincorporate', 'cleanup_data') for x in E.get(items, [])), q + '|removes',
             '%s does not remove its items' % q, f, p)
        if nm == 'unincorporate':
            C.ob(any(x[0] == 'unincorporate' for x in E.get(items, [])), q + '|removes from cluster',
                 '%s leaves the pair in its cluster' % q, f, p)
    elif nm in ('update_value', 'incorporate_to_cluster'):
        C.ob(any(x[0] in ('update_value', 'incorporate_to_cluster') for x in E.get(items, [])), q + '|revalues items',
             '%s does not re-value its items' % q, f, p)
        if nm == 'update_value':
            C.ob(any(x[0] == 'update_value' for x in E.get(items, [])), q + '|revalues pair',
                 '%s does not replace the pair' % q, f, p)
    elif nm == 'get_value':
        C.ob(strip(p.ret) == ('at', DATA, items), q + '|reads', '%s does not return the stored value' % q, f, p)
    elif nm == 'get_data':
        C.ob(strip(p.ret) == DATA, q + '|reads', '%s does not return the stored values' % q, f, p)
    elif nm == 'get_domains':
        C.ob(strip(p.ret) == DOM, q + '|reads', '%s does not return the domains' % q, f, p)
    elif nm == 'get_base_items':
        r = base_key(strip(p.ret), items)
        if r is None:
            raise Odd('base items')
        C.ob(r, q + '|reads', '%s does not return the leading items' % q, f, p)
    elif nm == 'get_base_value':
        C.ob(sure(base_value(strip(p.ret), items)), q + '|reads', '%s does not return the base value' % q, f, p)
    elif nm == 'get_emission_clusters':
        r = strip(p.ret)
        ECL = ('f', EM, 'clusters')
        if r[0] == 'cont' and r[1] == ('empty',):
            ops = [o for o in r[2] if o[0] not in ('touch', 'prior')]
            if len(ops) == 1 and ops[0][0] == 'each' and ops[0][1][0] == 'key' and ops[0][1][2] == ECL:
                k = ops[0][1]
                good = True
                for dec, sub, how in ops[0][2]:
                    sub = [o for o in sub if o[0] not in ('touch', 'prior')]
                    good &= how in ('next', 'continue') and len(sub) == 1 and sub[0][0] == 'put' and \
                        sub[0][1] == k and sub[0][2] == ('at', ECL, k)
                C.ob(good, q + '|reads', '%s does not list each emission model under its own cluster' % q, f, p)


def flat(loops):
    if loops:
        raise Odd('update in a loop')


def L_now(L):
    return {k: tuple(v) for k, v in L.items()}


def emptiness(a):
    """(base key, polarity, threshold) for a test that the listing under a base key is
    empty (threshold 0) or holds one element (threshold 1)."""
    if a[0] == 'empty' and a[1][:2] == ('at', LIST):
        return a[1][2], True, 0
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x[0] == 'size' and x[1][:2] == ('at', LIST) and y in (ZERO, ONE):
                return x[1][2], True, 0 if y == ZERO else 1
    return None


def cleared(b, emp, it, L):
    """The listing under b is dropped only when it lists nothing else."""
    for hit, thr, then in emp.get(b, []):
        gone = any(x == ('del', b) for v in then.values() for x in v)
        if hit and (thr == 0 and gone or thr == 1 and not gone):
            return True
    return False


def the_items(C, f):
    r = [('p', x['name']) for x in f['params'] if ty(C, x).startswith('std::vector<int')]
    r = [x for x in r if x not in (('p', 'tables'), ('p', 'z'))]
    return r[0] if len(r) == 1 else None


def value_params(C, f):
    vt = None
    for x in f['params']:
        s = ty(C, x)
        if x['name'] == 'value':
            return [('p', 'value')]
    skip = ('std::vector<', 'std::mersenne_twister', 'Domain')
    return [('p', x['name']) for x in f['params']
            if not ty(C, x).startswith(skip) and 'mersenne' not in ty(C, x) and f['name'] in
            ('incorporate', 'incorporate_to_cluster', 'logp', 'update_value', 'cluster_or_prior_logp_from_items')]


def ty(C, p):
    s = C.P.strip(p['t']).get('s', '')
    s = s[6:] if s.startswith('const ') else s
    return s


def built(C, P):
    """The emission relation is built over the same domains."""
    for f in [f for f in P.fn('NoisyRelation::NoisyRelation') if f.get('body')][:1]:
        inits = {i.get('f'): i for i in f.get('inits', []) if isinstance(i, dict)}
        for p in C.run(f, opaque=opaque)[:1]:
            for fld, want in (('domains', DOM), ('base_relation', BASE)):
                v = p.store.get(want)
                if v is not None:
                    v = strip(v)
                    C.ob(v[0] == 'p' and v[1] == fld or v[0] == 'p', f['q'] + '|' + fld,
                         'the %s of a noisy relation are not the ones given' % fld, f, p)
            e, d = p.store.get(EM), p.store.get(DOM)
            if e is not None and e[0] == 'struct' and d is not None:
                for x in strip(e)[2:]:
                    for y in (x if x and isinstance(x[0], tuple) else (x,)):
                        if isinstance(y, tuple) and len(y) == 2 and y[0] == 'domains':
                            C.ob(y[1] == strip(d), f['q'] + '|emission domains',
                                 'the emission relation ranges over other domains than the noisy relation', f, p)


if __name__ == '__main__':
    rule.main('C09', main)
