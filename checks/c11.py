"""C11: a single-view model's schema, relations and domain links agree.

Effects of every registry operation of IRM per path: each adds or removes the
relation in every registry together; nobody else writes the registries."""
from sa import rule, writes
from sa.interp import pp, n, subterms, mentions
from sa.net import base
from sa.rule import Broken
from sa.rel import THIS, strip, fld
from sa.reg import effects, alternatives, unalt, truth, has, Eff
from c02 import impossible

RULE = ('Every path that adds a relation creates the missing domains, links the relation to each of its domains, builds it '
        'over those domains in order (a noisy one on its registered base, listed there once) and records relation and '
        'schema under its name; every path that removes one undoes each of these for the same name, frees it, drops domains '
        'without relations and entities nobody else observes.  Data operations reach the addressed relation once, and an '
        'entity leaves a domain exactly when no relation of the domain observes it.  Only IRM writes the registries.')
REG = ('schema', 'relations', 'domains', 'domain_to_relations', 'base_to_noisy_relations')
SCH, REL, DOM, D2R, B2N = [fld(THIS, x) for x in REG]
CLS = ('Domain', 'CleanRelation', 'Relation', 'CRP', 'NoisyRelation', 'Distribution', 'Emission')


class Odd(Exception):
    pass


def opaque(g):
    return g.get('q', '').split('::')[0] in CLS


def main():
    C = rule.Check('C11', RULE, ['operations of one relation or domain are the obligations of C07 to C09'],
                   min_obligations=5)
    P = C.P
    W = writes.Writes(P)

    def inside(f):
        return (f.get('cls') or '') == 'IRM'
    for x in REG:
        bad = 0
        for fk, how in sorted(W.writers('IRM', x).items()):
            f = P.fns[fk]
            if not inside(f) and not W.only_called_from(fk, inside) and not f['q'].startswith('IRM::'):
                bad += 1
                C.ob(False, 'IRM.%s|written by %s' % (x, f['q']), '%s changes a registry of a view directly' % f['q'],
                     (f['file'], how[0][1]))
        C.ob(not bad, 'IRM.%s|written by the view only' % x)
    todo = [('add_relation', add), ('add_relation_with_base', add), ('remove_relation', remove),
            ('unincorporate', leave), ('incorporate', enter), ('has_observation', observed)]
    for nm, fun in todo:
        fs = sorted([f for f in P.fn('IRM::' + nm) if f.get('body')], key=lambda f: f['key'])
        if not fs:
            C.unanalysed.append('no IRM::' + nm)
        for f in fs:
            try:
                ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
                if not ps:
                    raise Odd('no path')
                fun(C, f, ps)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    for f in [f for f in P.fn('IRM::IRM') if f.get('body') and f['params']][:1]:
        try:
            ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
            if not ps:
                raise Odd('no path')
            for p in ps:
                build(C, f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    return C.finish()


def decs(p):
    return tuple((strip(a), b) for a, b in p.decisions)


# ------------------------------------------------------------------- adding --
def add(C, f, ps):
    q = f['q']
    nm = ('p', f['params'][0]['name'])
    sp = ('p', f['params'][1]['name'])
    noisy = 'noisy' in C.P.strip(f['params'][1]['t']).get('s', '')
    RD = fld(sp, 'domains')
    bn = fld(sp, 'base_relation')
    tag = q + (' (noisy)' if noisy else '')
    for p in ps:
        D = decs(p)
        if noisy and len(f['params']) == 2 and has(D, REL, bn) is False:
            continue        # schema lookup of an absent base throws

        def ob(ok, key, msg):
            return C.ob(ok, tag + '|' + key, tag + ' ' + msg, f, p)

        seen = {}
        es = list(effects(p.trace))
        for e in es:
            if e.kind == 'call' or e.kind == 'touch':
                if e.kind == 'call' and e.loc is None and e.args and e.args[0] in (SCH, REL, DOM, D2R, B2N):
                    raise Odd('algorithm on a registry')
                continue
            k = kind(e)
            if k is None:
                continue
            if k == 'odd':
                raise Odd(repr(e))
            seen.setdefault(k, []).append(e)
        # records
        for k, loc in (('relations', REL), ('schema', SCH)):
            l = [e for e in seen.pop(('put', loc), []) if not e.loops]
            ob(len(l) == 1 and l[0].args[0] == nm, k, 'does not record the relation once under its name in ' + k)
            if len(l) != 1:
                continue
            v = l[0].args[1]
            if loc == SCH:
                ob(unalt(v) == sp, 'schema value', 'records another description')
            else:
                built(C, f, p, v, nm, sp, RD, noisy, ob)
        # domains
        over = [(k, ev, alts) for k, ev, alts in alternatives(p.trace, lambda k: dom_of(k, RD) is not None)]
        linked = [x for x in over if any(e.kind == 'ins' and e.loc[0] == 'at' and e.loc[1] == D2R
                                         for tr, d, h in x[2] for e in effects(tr))]
        if ob(len(linked) == 1, 'linked', 'does not link the relation to its domains'):
            k, ev, alts = linked[0]
            d = dom_of(k, RD)
            ob(not ev[4], 'linked', 'stops before every domain is linked')
            for tr, dec, how in alts:
                l = [e for e in effects(tr) if e.kind == 'ins' and e.loc[0] == 'at' and e.loc[1] == D2R]
                ob(len(l) == 1 and l[0].loc[2] == d and l[0].args[0] == nm, 'linked', 'links the relation to other domains')
        created = [x for x in over if any(e.kind in ('put', 'ins') and e.loc == DOM for tr, d, h in x[2] for e in effects(tr))]
        if ob(len(created) == 1, 'created', 'does not create missing domains'):
            k, ev, alts = created[0]
            d = dom_of(k, RD)
            ob(not ev[4], 'created', 'stops before every domain exists')
            for tr, dec, how in alts:
                l = [e for e in effects(tr) if e.kind == 'put' and e.loc == DOM]
                h = has(dec, DOM, d)
                if h is None:
                    h = has(dec, D2R, d)
                if h is True:
                    ob(not l, 'created', 'replaces a domain that exists')
                elif h is False:
                    ob(len(l) == 1 and l[0].args[0] == d and l[0].args[1][:2] == ('new', 'Domain') and
                       l[0].args[1][2][:1] == (d,), 'created', 'does not create a missing domain under its name')
                    lk = [e for e in effects(tr) if e.kind in ('put', 'touch') and e.loc == D2R and e.args[0] == d]
                    ob(lk, 'created', 'creates a domain without a list of relations')
                elif l:
                    ob(False, 'created', 'replaces a domain that may exist')
                elif dec:
                    raise Odd('domain condition')
        for k in (('ins', 'D2R'), ('put', DOM), ('put', D2R)):
            for e in seen.pop(k, []):
                if not any(dom_of(x, RD) is not None for x in e.loops):
                    ob(False, 'others', 'changes the links of other domains')
        # base listing
        l = seen.pop(('push', 'B2N'), [])
        if noisy:
            ob(len(l) == 1 and not l[0].loops and l[0].loc[2] == bn and l[0].args[0] == nm, 'base',
               'does not list the noisy relation once under its base')
        else:
            ob(not l, 'base', 'lists a clean relation under a base')
        for k, l in seen.items():
            if k == ('put', B2N) and all(e.args[0] == bn for e in l):
                continue
            ob(False, 'others', 'also changes the registries by %s' % (k,) if False else 'changes other registry entries: %r' % l[0])


def kind(e):
    """Registry effect class, None when no registry is touched."""
    for x in (SCH, REL, DOM, D2R, B2N):
        if e.loc == x:
            return (e.kind, x) if e.kind in ('put', 'ins', 'del') else 'odd'
    if e.loc is not None and e.loc[0] == 'at' and e.loc[1] == D2R:
        return (e.kind, 'D2R') if e.kind in ('ins', 'del') else 'odd'
    if e.loc is not None and e.loc[0] == 'at' and e.loc[1] == B2N:
        return (e.kind, 'B2N') if e.kind in ('push', 'del', 'pop') else 'odd'
    return None


def dom_of(k, RD):
    if k[0] == 'idx' and k[2] == ('size', RD):
        return ('at', RD, k)
    if k[0] == 'key' and (k[2] == RD or k[2][0] == 'as' and k[2][-1] == RD):
        return k
    return None


def built(C, f, p, v, nm, sp, RD, noisy, ob):
    v = unalt(v)
    while v[0] in ('ctor', 'as') and len(v) > 2 and v[-1][0] in ('new', 'alt'):
        v = unalt(v[-1])
    if v[0] != 'new':
        raise Odd('relation ' + pp(v)[:60])
    cls = v[1].split('<')[0]
    ob(cls == ('NoisyRelation' if noisy else 'CleanRelation'), 'built', 'builds a %s' % cls)
    a = v[2]
    ob(a[0] == nm, 'built name', 'builds the relation under another name')
    ob(a[1] == fld(sp, 'emission_spec' if noisy else 'distribution_spec'), 'built spec', 'builds the relation from another specification')
    d = a[2]
    if d[0] == 'cont' and d[1] == ('empty',):
        ops = [o for o in d[2] if o[0] not in ('prior', 'touch')]
        if len(ops) == 1 and ops[0][0] == 'each' and dom_of(ops[0][1], RD) is not None:
            k = ops[0][1]
            e = dom_of(k, RD)
            ob(not ops[0][3] and k[0] == 'idx', 'built domains', 'builds the relation over some of its domains, or in another order')
            for dec, o, how in ops[0][2]:
                o = [x for x in o if x[0] not in ('prior', 'touch')]
                if ob(len(o) == 1 and o[0][0] == 'push', 'built domains', 'does not pass one domain per position'):
                    t = o[0][1]
                    ob(t == ('at', DOM, e) or t[:2] == ('new', 'Domain') and t[2][:1] == (e,), 'built domains',
                       'builds the relation over other domains')
        else:
            raise Odd('domains')
    else:
        raise Odd('domains ' + pp(d)[:60])
    if noisy:
        b = unalt(a[3])
        bp = [('p', x['name']) for x in f['params'][2:]]
        ob(b in bp or b == ('at', REL, fld(sp, 'base_relation')), 'built base', 'builds the noisy relation on another base')


# ----------------------------------------------------------------- removing --
def remove(C, f, ps):
    q = f['q']
    nm = ('p', f['params'][0]['name'])
    sp = ('at', SCH, nm)
    RDs = (fld(('alt', sp), 'domains'), fld(sp, 'domains'))
    told = set()
    for p in ps:
        D = decs(p)

        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

        es = list(effects(p.trace))
        dele = [e for e in es if e.kind == 'delete' and unalt(e.loc) == ('at', REL, nm)]
        if not ob(len(dele) == 1, 'freed', 'frees the relation %d times' % len(dele)):
            continue
        for x, l in ((REL, 'relations'), (SCH, 'schema')):
            d = [e for e in es if e.kind == 'del' and e.loc == x]
            ob(len(d) == 1 and d[0].args[0] == nm and not d[0].loops, l, 'does not take exactly the named relation out of ' + l)
            other = [e for e in es if e.loc == x and e.kind in ('put', 'ins', 'clear', 'assign', 'swap')]
            ob(not other, l, 'also changes ' + l)
        # links
        RD = None
        loops = []
        for RD in RDs:
            loops = [x for x in alternatives(p.trace, lambda k: dom_of(k, RD) is not None) if any(
                e.kind == 'del' and e.loc[0] == 'at' and e.loc[1] == D2R for tr, d_, h in x[2] for e in effects(tr))]
            if loops:
                break
        if not loops and any(e.kind == 'del' and e.loc[0] == 'at' and e.loc[1] == D2R and e.loops for e in es):
            raise Odd('unlinked in a loop over something else')
        if not ob(len(loops) == 1, 'unlinked', 'does not unlink the relation from its domains'):
            continue
        k, ev, alts = loops[0]
        d = dom_of(k, RD)
        ob(not ev[4], 'unlinked', 'stops before the relation is unlinked from every domain')
        for tr, dec, how in alts:
            sub = list(effects(tr))
            l = [e for e in sub if e.kind == 'del' and e.loc[0] == 'at' and e.loc[1] == D2R]
            if not l and (has(dec, D2R, d) is False or has(dec, DOM, d) is False or has(dec, ('at', D2R, d), nm) is False):
                continue
            ob(len(l) == 1 and l[0].loc[2] == d and l[0].args[0] == nm, 'unlinked', 'does not unlink the relation from each of its domains')
            gone = truth(dec, ('empty', ('at', D2R, d)))
            if gone is None:
                gone = sized(dec, ('at', D2R, d))
            drop = [[e for e in sub if e.kind == 'del' and e.loc == D2R], [e for e in sub if e.kind == 'del' and e.loc == DOM],
                    [e for e in sub if e.kind == 'delete' and e.loc == ('at', DOM, d)]]
            if gone is None and any(drop):
                raise Odd('when a domain is dropped')
            if gone:
                ob(all(len(x) == 1 for x in drop) and all(e.args[0] == d for x in drop[:2] for e in x), 'domain dropped',
                   'does not drop a domain without relations from both registries and free it')
                if all(len(x) == 1 for x in drop):
                    ob(drop[2][0].pos < drop[1][0].pos, 'domain dropped', 'frees a domain after forgetting it')
            else:
                ob(not any(drop), 'domain dropped', 'drops a domain that other relations use')
                if gone is None:
                    ob(False, 'domain dropped', 'never drops a domain without relations')
        # base listing
        isn = noisy_test(D, sp)
        rm = [e for e in es if e.kind == 'call' and e.loc is None and base(e.ev[1]) in ('erase', 'erase_if', 'remove') and e.args and
              e.args[0][0] == 'at' and e.args[0][1] == B2N or
              e.kind in ('del', 'pop') and e.loc is not None and e.loc[0] == 'at' and e.loc[1] == B2N]
        if isn is True:
            told.add(True)
            bn = [x for x in (e.args[0][2] if e.kind == 'call' else e.loc[2] for e in rm)]
            ob(len(rm) == 1 and base_name(bn[0], sp), 'base', 'does not take the noisy relation off the list of its base')
            if any(e.kind == 'pop' for e in rm):
                if any(e.loc is not None and mentions(e.loc, B2N) and e.kind in ('put', 'set', 'swap') or e.kind == 'call' and
                       any(mentions(a, B2N) for a in e.args) for e in es):
                    raise Odd('base listing')
                ob(False, 'base', 'takes whichever relation is last off the list of a base')
            if len(rm) == 1:
                a = rm[0].args
                if rm[0].kind == 'call':
                    ob(a[1] == nm, 'base', 'takes another relation off the list of a base')
        elif isn is False:
            told.add(False)
            ob(not rm, 'base', 'changes a base listing for a clean relation')
        elif rm:
            raise Odd('base listing')
        else:
            told.add(None)
        # order
        ob(all(e.pos < dele[0].pos for e in es if e.kind == 'call' and e.loc is not None and unalt(e.loc) == ('at', REL, nm)),
           'freed', 'uses the relation after freeing it')
        # entities
        ent = [e for e in es if e.kind == 'call' and e.ev[1] == 'Domain::unincorporate']
        if not ob(ent, 'entities', 'leaves entities in their domains that only the removed relation observed'):
            continue
        for e in ent:
            dk = [x for x in e.loops if x[0] == 'key' and x[2][0] == 'call' and base(x[2][1]) == 'get_data' and
                  unalt(x[2][2]) == ('at', REL, nm)]
            if not dk:
                raise Odd('entities of ' + pp(e.loops[0])[:60] if e.loops else 'entities')
            it = dk[0]
            i = e.args[0]
            if not (i[0] == 'at' and i[1] == it):
                raise Odd('entity')
            j = i[2]
            ob(e.loc[0] == 'at' and e.loc[1] == DOM and e.loc[2] in [('at', x, j) for x in RDs], 'entities',
               'removes an entity from another domain')
            ob(e.pos > first_unlink(es), 'entities', 'asks who observes an entity before the relation is unlinked')
        guard(C, f, p, DOM, ob)
    if told and True not in told:
        C.ob(False, q + '|base', q + ' never takes a noisy relation off the list of its base', f, ps[0])


def first_unlink(es):
    l = [e.pos for e in es if e.kind == 'del' and e.loc[0] == 'at' and e.loc[1] == D2R]
    return l[0] if l else ()


def sized(dec, loc):
    for a, b in dec:
        if a[0] == 'eq' and ('size', loc) in a[1:] and n(0) in a[1:]:
            return b
    return None


def noisy_test(D, sp):
    for a, b in D:
        if a[0] == 'altp' and unalt(a) == sp or a[0] in ('altp', 'holds', 'is') and mentions(a, sp):
            return b
        if a[0] == 'eq' and any(x[0] == 'altp' and unalt(x) == sp for x in a[1:] if isinstance(x, tuple) and x):
            return not b
    return None


def base_name(t, sp):
    return t[0] == 'f' and t[2] == 'base_relation' and unalt(t[1]) == sp


def guard(C, f, p, DOM, ob):
    """An entity leaves exactly when no relation of its domain observes it."""
    for key, ev, alts in alternatives(p.trace, lambda k: True):
        mine = [(tr, dec) for tr, dec, how in alts if any(
            e[0] == 'call' and e[1] == 'Domain::unincorporate' for e in tr)]
        if not mine:
            continue
        dom, item = [(strip(e[2]), strip(e[3])[0]) for e in mine[0][0] if e[0] == 'call' and e[1] == 'Domain::unincorporate'][0]
        if dom[0] != 'at':
            raise Odd('domain')
        d = dom[2]
        for tr, dec, how in alts:
            out = [e for e in tr if e[0] == 'call' and e[1] == 'Domain::unincorporate']
            obs = observes(tr, dec, d, item)
            if obs is None and flagged(p, dec, d, item) is not None:
                obs = flagged(p, dec, d, item)
            if out:
                if obs is None:
                    ob(False, 'guard', 'removes an entity without asking whether another relation observes it')
                else:
                    ob(obs is False, 'guard', 'removes an entity that a relation observes')
            elif obs is False:
                absent = has(dec, fld(dom, 'items'), item) is False or has(dec, fld(fld(dom, 'crp'), 'assignments'), item) is False
                ob(absent, 'guard', 'keeps an entity that no relation observes')
            elif obs is None:
                skip = has(dec, DOM, d) is False or has(dec, fld(dom, 'items'), item) is False
                if not skip and dec:
                    raise Odd('why an entity stays')
                ob(skip, 'guard', 'keeps entities without asking who observes them')
        # once: a repeated position must not remove the entity again
        for tr, dec in mine:
            again = has(dec, fld(dom, 'items'), item) is True or any(
                e[0] == 'put' and strip(e[3]) == ('b', True) for e in tr if len(e) > 4) or repeated(p, key)
            ob(again, 'once', 'removes an entity twice when it appears in two positions')


def repeated(p, key):
    return key[0] == 'key'      # a set of entities has no duplicates


def observes(tr, dec, d, item):
    """Outcome of asking all relations of domain d whether they observe item:
    True, False, or None when the alternative does not ask."""
    for e in tr:
        if e[0] != 'loop':
            continue
        k = strip(e[1])
        if not (k[0] == 'key' and k[2] == ('at', D2R, d)):
            continue
        rel = ('at', REL, k)
        asked = set()
        for t2, d2, how in e[2]:
            for a, b in d2:
                a = strip(a)
                if a[0] == 'call' and base(a[1]) == 'has_observation' and unalt(a[2]) == rel:
                    if not addressed(a, d, item):
                        return 'other'
                    asked.add((b, how))
        esc = any(x[0] == 'inloop' and strip(x[1]) == k for x in tr)
        if esc:
            return True
        if asked == {(False, 'next')}:
            return False
        if asked:
            # a flag or break inside the loop
            if ('break' in [h for b, h in asked]):
                return None
    return None


def addressed(a, d, item):
    dom = a[3][0]
    return (dom == ('at', DOM, d) or dom[0] == 'ctor' and d in dom or dom == ('ctor', 'Domain', d)) and a[3][1] == item


def flagged(p, dec, d, item):
    """The decision reads a local flag that collects the answers of all
    relations of domain d about item."""
    key = ('tuple', d, item)
    for a, b in dec:
        neg = False
        if a[0] == 'not':
            a, neg = a[1], True
        while a[0] in ('loopout', 'acc'):
            a = a[2]
        if a[0] == 'at' and a[1][0] == 'var':
            V = a[1]
            idx = a[2]
            ok = False
            for e in effects(p.trace):
                if e.kind == 'put' and e.loc == V:
                    v = e.args[1]
                    if v[0] == 'b':
                        continue
                    parts = list(v[1:]) if v[0] == 'or' else [v]
                    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0] and isinstance(parts[0][0], tuple):
                        parts = list(parts[0])
                    for x in parts:
                        if x[0] == 'call' and base(x[1]) == 'has_observation':
                            k = e.loops[-1]
                            if k[0] != 'key' or k[2][0] != 'at' or k[2][1] != D2R:
                                return 'other'
                            dd = k[2][2]
                            if unalt(x[2]) != ('at', REL, k) or e.args[0] != ('tuple', dd, x[3][1]) or \
                                    not addressed(x, dd, x[3][1]):
                                return 'other'
                            if v[0] != 'or' or not any(y == ('at', V, e.args[0]) for y in parts):
                                return 'other'
                            if not allasked(p.trace, V, e.args[0]):
                                return 'other'
                            ok = True
            if ok and shape(idx) == shape(key):
                return b != neg
            if ok:
                return 'other'
    return None


def allasked(tr, V, key):
    """Every round of the loops that collect answers in V collects one, unless the answer is yes already."""
    def yes(dec):
        for a, b in dec:
            a = strip(a)
            while a[0] == 'not':
                a, b = a[1], not b
            parts = list(a[1:]) if a[0] == 'or' else [a]
            if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0] and isinstance(parts[0][0], tuple):
                parts = list(parts[0])
            if b and all(x[0] == 'call' and base(x[1]) == 'has_observation' or x[0] == 'at' and x[1] == V for x in parts):
                return True
        return False

    def asks(t2):
        return any(e.kind == 'put' and e.loc == V and e.args[1][0] != 'b' for e in effects(t2))

    for e in tr:
        if e[0] != 'loop' or not any(asks(b[0]) for b in e[2]):
            continue
        if rule.narrow(strip(e[1]), [strip(e[1])[-1]]):
            return False
        for t2, dec, how in e[2]:
            if how in ('abort', 'exit'):
                continue
            if not yes(dec) and (how not in ('next', 'continue') or not asks(t2)):
                return False
            if not allasked(t2, V, key):
                return False
    return True


def shape(t):
    """Terms equal up to the depth of their loop variables."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('idx', 'key') and len(t) == 3:
        return (t[0], 0, shape(t[2]))
    return tuple(shape(x) for x in t)


# --------------------------------------------------------------------- data --
def leave(C, f, ps):
    q = f['q']
    r, items = [('p', x['name']) for x in f['params'][:2]]
    for p in ps:
        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

        es = list(effects(p.trace))
        u = [e for e in es if e.kind == 'call' and base(e.ev[1]) == 'unincorporate' and not e.ev[1].startswith('Domain')]
        if not ob(len(u) == 1 and not u[0].loops and unalt(u[0].loc) == ('at', REL, r) and u[0].args[0] == items, 'addressed',
                  'does not take the observation out of the addressed relation once'):
            continue
        ent = [e for e in es if e.kind == 'call' and e.ev[1] == 'Domain::unincorporate']
        if not ob(ent, 'entities', 'never removes an entity'):
            continue
        asks = [e for e in es if e.kind == 'call' and base(e.ev[1]) == 'has_observation']
        ob(all(e.pos > u[0].pos for e in asks), 'entities', 'asks who observes an entity while the observation is still there')
        for e in ent:
            j = e.args[0][2] if e.args[0][0] == 'at' and e.args[0][1] == items else None
            if j is None:
                raise Odd('entity')
            full = [x for x in e.loops if x == j]
            ob(full and e.loc[0] == 'at' and e.loc[1] == DOM and e.loc[2][0] == 'at' and e.loc[2][2] == j and
               e.loc[2][1][0] == 'f' and e.loc[2][1][2] == 'domains' and unalt(e.loc[2][1][1]) == ('at', SCH, r), 'entities',
               'removes an entity from another domain')
        for k, ev, alts in alternatives(p.trace, lambda k: k == ent[0].loops[0]):
            if any(e[0] == 'call' and e[1] == 'Domain::unincorporate' for tr, _, _ in alts for e in tr):
                ob(not ev[4], 'entities', 'stops before every entity of the observation is considered')
        guard(C, f, p, DOM, ob)


def enter(C, f, ps):
    q = f['q']
    pr = {x['name']: ('p', x['name']) for x in f['params']}
    prm = [('p', x['name']) for x in f['params']]
    r, items, value = prm[1:4]
    for p in ps:
        es = [e for e in effects(p.trace) if e.kind == 'call' and base(e.ev[1]) in ('incorporate', 'unincorporate', 'update_value')]
        ok = len(es) == 1 and not es[0].loops and base(es[0].ev[1]) == 'incorporate' and unalt(es[0].loc) == ('at', REL, r)
        C.ob(ok, q + '|addressed', q + ' does not add the observation to the addressed relation once', f, p)
        if ok:
            C.ob(es[0].args[1] == items and unalt(es[0].args[2]) == value, q + '|passed', q + ' passes on another observation', f, p)


def observed(C, f, ps):
    q = f['q']
    d, item = [('p', x['name']) for x in f['params'][:2]]
    for p in ps:
        if p.exit[0] != 'ret':
            raise Odd('no result')
        v = strip(p.ret)
        o = observes(p.trace, (), d, item)
        if v[0] != 'b':
            raise Odd('result ' + pp(v)[:60])
        if o is None:
            raise Odd('who is asked')
        C.ob(o == v[1], q + '|answer', q + ' does not answer whether any relation of the domain observes the entity', f, p)


# -------------------------------------------------------------------- schema --
def build(C, f, p):
    q = f['q']
    S = ('p', f['params'][0]['name'])
    adds = [e for e in effects(p.trace) if e.kind == 'put' and e.loc == SCH]
    if not adds:
        C.ob(False, q + '|every relation', q + ' does not add the relations of the schema', f, p)
        return
    for e in adds:
        if e.args[0][0] == 'f' and e.args[0][2] == 'base_relation' and any(has(d, REL, e.args[0]) is False for _, d, _ in e.conds):
            continue            # a base that is in the schema is registered
        k = [x for x in e.loops if x[0] == 'key' and x[2] == S]
        if not k:
            raise Odd('schema loop')
        C.ob(e.args[0] == k[0] and unalt(e.args[1]) == ('at', S, k[0]), q + '|every relation',
             q + ' adds a relation under another name or description', f, p)
    # a relation is only left for later when it is present or its base is missing
    for k, ev, alts in alternatives(p.trace, lambda k: k[0] == 'key' and k[2] == S):
        for tr, dec, how in alts:
            if how not in ('next', 'continue'):
                C.ob(False, q + '|every relation', q + ' stops before every relation of the schema is considered', f, p)
            if any(e.kind == 'put' and e.loc == SCH for e in effects(tr)):
                continue
            late = has(dec, SCH, k) is True or any(
                a[0] == 'contains' and a[1] == SCH and a[2][0] == 'f' and a[2][2] == 'base_relation' and not b for a, b in dec)
            C.ob(late, q + '|every relation', q + ' leaves out a relation that could be added', f, p)


if __name__ == '__main__':
    rule.main('C11', main)
