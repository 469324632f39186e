"""C22: the references recorded for rows and the partitions of the classes they refer to stay in step.

Every function of the database that writes a reference or seats one is
followed path by path; both writes have to name the same reference, the same
class and the same row."""
from sa import rule
from sa.flow import core, subterms, has, sites, at, flat, near, order
from sa.load import load
from sa.interp import pp, n
from sa.rule import Broken
from sa.db import Odd, fld, plain, isclassvar, tup, THIS, RRI, REF, CLASSES, SCH

RULE = ('A reference (class, field, row) gets a value and is seated in the partition of the class that the field refers to '
        'together, at that value, under the identifier of this class, field and row; identifiers are numbered per (class, '
        'field, row).  A temporary value is put back.  Taking the last reference to a row away takes away the references '
        'of that row, each recorded; they are seated again at the recorded values or erased, depending on whether the row '
        'comes back.  A row that gets a reference, or is observed, has the rows it refers to and values for all its '
        'relations.')

E = fld(THIS, 'entity_crps')
IDS = fld(THIS, 'reference_ids')
HIRM = fld(THIS, 'hirm')

SINGLETON, FROMCRP = 'GenDB::unincorporate_singleton', 'GenDB::unincorporate_from_entity_cluster'
POPULATE, ANCESTORS, SEAT = ('GenDB::sample_and_incorporate_for_class', 'GenDB::sample_class_ancestors',
                             'GenDB::sample_and_incorporate_reference')
TRANSITION, REINCORPORATE, UPDATE = 'GenDB::transition_reference', 'GenDB::reincorporate_new_refval', 'GenDB::update_reference_items'
OPAQUE = {SINGLETON, FROMCRP, POPULATE, ANCESTORS, SEAT, TRANSITION, REINCORPORATE, UPDATE} | {'GenDB::' + x for x in (
    'get_reference_id', 'get_unique_entities_relation', 'sample_entities_relation', 'get_relation_items', 'incorporate',
    'incorporate_query_relation', 'unincorporate_reference', 'unincorporate_reference_relation', 'get_domain_inds',
    'unincorporate_reference_relation_singleton', 'incorporate_reference', 'incorporate_reference_relation',
    'unincorporate_from_domain_cluster_relation', 'transition_reference_class_and_ancestors')}


def main():
    P = load(defs=['-DNDEBUG'])
    C = rule.Check('C22', RULE, ['the recorded reference positions are those of the schema (C24)',
                                 'each partition seats and unseats what it is told to (C05, C13)'],
                   min_obligations=10, program=P)
    special = {REINCORPORATE: reincorporate, TRANSITION: transition, UPDATE: temporary, FROMCRP: ancestors,
               SINGLETON: singleton, POPULATE: populate, 'GenDB::get_reference_id': identifiers,
               'GenDB::incorporate_query_relation': observed, 'GenDB::incorporate': row}
    seen = set()
    for f in sorted(P.fns.values(), key=lambda g: (g['q'], g['key'])):
        if not f.get('body') or not f['q'].startswith('GenDB::') or f['q'] in seen or 'gendb' not in f['file'] or \
                '_test' in f['file']:
            continue
        seen.add(f['q'])

        def opaque(g, f=f):
            if g.get('key') == f['key'] or g.get('q', '') in OPAQUE:
                return True
            h = P.fns.get(g.get('key'))
            return h is None or not near(h['file'], f['file'])
        try:
            ps = C.try_run(f, opaque=opaque, snap=True, sizes=True, forget=True, asks=True)
            if ps is None:
                continue
            ps = [p for p in ps if not p.aborted and p.exit[0] != 'abort']
            if not ps and f['q'] in special:
                raise Odd('no path')
            for p in ps:
                used(C, f, p)
                if f['q'] in special:
                    special[f['q']](C, f, p)
                else:
                    paired(C, f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:160]))
    for q in special:
        if q not in seen:
            C.unanalysed.append('no ' + q)
    return C.finish()


# ---------------------------------------------------------------- helpers --
def params(f):
    return [('p', x['name']) for x in f['params']]


def pair(t, k):
    t = plain(t)
    if t[0] == 'tuple':
        return tuple(tup(t))
    return (fld(t, 'first'), fld(t, 'second')) + ((fld(t, 2),) if k == 3 else ())


def ident(t):
    """(class, field, row) of an identifier."""
    t = plain(t)
    if t[0] == 'call' and t[1] == 'GenDB::get_reference_id' and t[2] == THIS:
        return tuple(t[3])
    return None


def target(cls, field):
    return fld(fld(('at', fld(('at', CLASSES, cls), 'vars'), field), 'spec'), 'class_name')


def seats(s):
    """(partition's class, identifier, value) when the event seats a reference."""
    e = s.ev if hasattr(s, 'ev') else s
    if e[0] == 'call' and e[1] == 'CRP::incorporate' and plain(e[2])[:2] == ('at', E):
        return plain(e[2])[2], e[3][0], plain(e[3][1])
    return None


def unseats(e):
    if e[0] == 'call' and e[1] == 'CRP::unincorporate' and plain(e[2])[:2] == ('at', E):
        return plain(e[2])[2], e[3][0]
    return None


def writes(e):
    """(class, (field, row), value) when the event writes a reference."""
    if e[0] in ('put', 'ins') and plain(e[1])[:2] == ('at', REF):
        return plain(e[1])[2], pair(e[2], 2), plain(e[3])
    if e[0] == 'set' and plain(e[1])[:1] == ('at',) and plain(e[1])[1][:2] == ('at', REF):
        return plain(e[1])[1][2], pair(plain(e[1])[2], 2), plain(e[2])
    return None


def erases(e):
    if e[0] == 'del' and plain(e[1])[:2] == ('at', REF):
        return plain(e[1])[2], pair(e[2], 2)
    return None


def right(f, cls, field, T):
    """The class T is the one that the field of cls refers to."""
    if T == target(cls, field):
        return True
    ps = params(f)
    if T in ps and cls in ps:
        return True  # the callers are held to it (used)
    # a recorded reference: the class at its position
    if T[0] == 'at' and T[1][:1] == ('f',) and T[1][2] == 'domains' and cls[0] == 'at' and cls[1] == T[1]:
        p = T[2]
        return p[0] == 'at' and p[2] == field and p[1][0] == 'at' and p[1][2] == cls[2] and p[1][1][:2] == ('at', RRI)
    return False


def show(x):
    return '.'.join(pp(y)[:40] for y in x)


def used(C, f, p):
    """Calls name the class that the field refers to, and the row's own reference."""
    for s in sites(p):
        e = s.ev
        if e[0] != 'call' or e[1] not in (SEAT, SINGLETON, REINCORPORATE):
            continue
        a = [plain(x) for x in e[3]]
        if e[1] == SEAT:
            cls, (field, item), T = a[1], pair(e[3][2], 2), a[3]
            C.ob(right(f, cls, field, T), f['q'] + '|class', '%s samples a reference from the partition of another class' % f['q'], at(e), p)
            known = [t for x, t in s.alt + tuple((core(x), t) for x, t in p.decisions) if plain(x)[0] == 'contains' and
                     plain(x)[1] == ('at', REF, cls) and pair(plain(x)[2], 2) == (field, item)]
            C.ob(bool(known) and not known[-1], f['q'] + '|again', '%s samples a reference that may exist already' % f['q'], at(e), p)
        else:
            T = a[3] if e[1] == SINGLETON else a[4]
            C.ob(right(f, a[0], a[1], T), f['q'] + '|class', '%s passes a class that the field does not refer to' % f['q'], at(e), p)


# ------------------------------------------------------------------ rules --
def paired(C, f, p):
    """A reference is written and seated together."""
    ss = list(sites(p))
    wr = [(s, writes(s.ev)) for s in ss if writes(s.ev)]
    se = [(s, seats(s)) for s in ss if seats(s)]
    if not wr and not se:
        for s in ss:
            if unseats(s.ev) or erases(s.ev):
                C.ob(False, f['q'] + '|removes', '%s removes a reference from only one of the two' % f['q'], at(s.ev), p)
        return
    C.note('written and seated: ' + f['q'])
    for s, (cls, (field, item), v) in wr:
        mine = [(t, x) for t, x in se if t.tr is s.tr and ident(x[1]) == (cls, field, item)]
        C.ob(len(mine) == 1, f['q'] + '|seated', '%s writes the reference %s without seating it once under its identifier' % (
            f['q'], show((cls, field, item))), at(s.ev), p)
        if len(mine) != 1:
            continue
        T, _, w = mine[0][1]
        C.ob(w == v, f['q'] + '|value', '%s seats a reference at another value than it writes' % f['q'], at(s.ev), p)
        C.ob(right(f, cls, field, T), f['q'] + '|partition', '%s seats a reference in the partition of another class' % f['q'], at(s.ev), p)
        fresh = v[0] == 'call' and v[1] in ('CRP::sample', 'CRP::max_table')
        new = v[0] == 'add' and any(x[0] == 'call' and x[1] == 'CRP::max_table' and x[2] == ('at', E, T) for x in v[1]) and \
            all(x[0] == 'call' or x[0] == 'n' and x[1] >= 1 for x in v[1])
        C.ob(new or fresh and v[1] == 'CRP::sample' and v[2] == ('at', E, T), f['q'] + '|new',
             '%s gives a reference the value %s' % (f['q'], pp(v)[:80]), at(s.ev), p)
        if s.loops or f['q'] != SEAT:
            known = [t for x, t in s.alt + tuple((core(x), t) for x, t in p.decisions) if plain(x)[0] == 'contains' and
                     plain(x)[1] == ('at', REF, cls) and pair(plain(x)[2], 2) == (field, item)]
            C.ob(bool(known) and not known[-1], f['q'] + '|again', '%s writes a reference that may exist already' % f['q'], at(s.ev), p)
    for s, (T, i, v) in se:
        C.ob(any(t.tr is s.tr and ident(i) == (c, k[0], k[1]) for t, (c, k, w) in wr), f['q'] + '|written',
             '%s seats a reference that it does not write' % f['q'], at(s.ev), p)


def identifiers(C, f, p):
    ps = tuple(params(f))
    C.note('identifiers: ' + f['q'])
    ret = plain(p.exit[1])
    puts = [e for e in flat(p.trace) if e[0] in ('put', 'ins')]
    known = [(plain(a), t) for a, t in p.decisions if plain(a)[0] == 'contains' and plain(a)[1][:2] == ('f', THIS)]
    if not puts:
        ok = ret[0] == 'at' and ret[1][:2] == ('f', THIS) and any(t and a[1] == ret[1] and a[2] == ret[2] for a, t in known)
        C.ob(ok and tuple(sorted(map(str, tup(ret[2])))) == tuple(sorted(map(str, ps))), f['q'] + '|key',
             '%s does not identify a reference by its class, field and row' % f['q'], f, path=p)
        return
    C.ob(len(puts) == 1, f['q'] + '|one', '%s numbers more than one reference' % f['q'], f, path=p)
    M, k, v = plain(puts[0][1]), plain(puts[0][2]), plain(puts[0][3])
    C.ob(k[0] == 'tuple' and sorted(map(str, tup(k))) == sorted(map(str, ps)) and M[:2] == ('f', THIS), f['q'] + '|key',
         '%s does not identify a reference by its class, field and row' % f['q'], f, path=p)
    C.ob(v == ('size', M) and ret in (v, ('at', M, k)), f['q'] + '|number', '%s may give two references one identifier' % f['q'], f,
         path=p)
    C.ob(any(not t and a == ('contains', M, k) for a, t in known), f['q'] + '|again',
         '%s numbers a reference again' % f['q'], f, path=p)
    for g in C.P.fns.values():
        if g.get('body') and g['q'].startswith('GenDB::') and g['key'] != f['key']:
            hit = [x for x in ast(g['body']) if x.get('k') == 'member' and x.get('name') == M[2]]
            C.ob(not hit, g['q'] + '|numbers', '%s uses the identifiers' % g['q'], g)


def ast(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from ast(v)
    elif isinstance(x, list):
        for v in x:
            yield from ast(v)


def temporary(C, f, p):
    """A temporary value of the reference is there while items are computed, and put back."""
    sv, cls, field, item, val = params(f)
    C.note('temporary value: ' + f['q'])
    wr = [(s, writes(s.ev)) for s in sites(p) if writes(s.ev)]
    old = ('at', ('at', REF, cls), ('tuple', field, item))
    for s, w in wr:
        C.ob(w[0] == cls and w[1] == (field, item) and not s.loops, f['q'] + '|other', '%s changes another reference' % f['q'], at(s.ev), p)
    if wr:
        v = wr[-1][1][2]
        C.ob(v[0] == 'at' and v[1] == ('at', REF, cls) and pair(v[2], 2) == (field, item) and order(p, wr[-1][0]) > max(
            [i for i, e in enumerate(p.trace) if e[0] == 'loop'] or [-1]), f['q'] + '|restored',
             '%s does not put back the reference it changes' % f['q'], f, path=p)
    for s in sites(p):
        C.ob(not seats(s) and not unseats(s.ev) and not erases(s.ev), f['q'] + '|seats', '%s changes a partition' % f['q'], at(s.ev), p)


def ancestors(C, f, p):
    """Taking a reference to a row away."""
    cls, field, item, un, isanc = params(f)
    C.note('taken away: ' + f['q'])
    T = target(cls, field)
    val = [x for x in (('at', ('at', REF, cls), ('tuple', field, item)),)][0]
    anc = [t for a, t in p.decisions if plain(a) == isanc]
    if not anc:
        raise Odd('whether the reference itself is taken away')
    gone = [(i, plain(a), t) for i, (a, t) in enumerate(p.decisions) if plain(a)[0] == 'contains' and
            plain(a)[1] == fld(('at', E, T), 'tables')]
    un_seen = [(s, unseats(s.ev)) for s in sites(p) if unseats(s.ev)]
    rec = [s for s in sites(p) if s.ev[0] in ('put', 'ins') and plain(s.ev[1]) == un]
    C.ob(not any(seats(s) or writes(s.ev) or erases(s.ev) for s in sites(p)), f['q'] + '|writes',
         '%s writes a reference' % f['q'], f, path=p)
    if anc[0]:
        C.ob(len(un_seen) == 1 and un_seen[0][1][0] == T and ident(un_seen[0][1][1]) == (cls, field, item), f['q'] + '|unseated',
             '%s does not take the reference out of its partition once' % f['q'], f, path=p)
        C.ob(len(rec) == 1 and pair(rec[0].ev[2], 3) == (cls, field, item) and isval(plain(rec[0].ev[3]), cls, field, item),
             f['q'] + '|recorded', '%s does not record the value of a reference it takes away' % f['q'], f, path=p)
    else:
        C.ob(not un_seen and not rec, f['q'] + '|own', '%s takes away the reference that its caller takes away' % f['q'], f, path=p)
    C.ob(len(gone) >= 1 and all(isval(a[2], cls, field, item) for i, a, t in gone), f['q'] + '|last',
         '%s does not ask whether the row it refers to is still there' % f['q'], f, path=p)
    if not gone:
        return
    loops = [e for e in p.trace if e[0] == 'loop' and any(x[0] == 'call' and x[1] == f['q'] for b in e[2] for x in flat(b[0]))]
    outside = [e for e in p.trace if e[0] == 'call' and e[1] == f['q']]
    if gone[0][2]:
        C.ob(not loops and not outside, f['q'] + '|kept', '%s takes away references of a row that is still referred to' % f['q'],
             f, path=p)
        return
    # the question is asked after the reference is gone
    if anc[0] and un_seen:
        asked = [i for i, e in enumerate(p.trace) if e[0] == 'ask' and plain(e[1]) == gone[0][1][1]]
        C.ob(not asked or order(p, un_seen[0][0]) < asked[0], f['q'] + '|when',
             '%s asks whether a row is still referred to before taking the reference away' % f['q'], f, path=p)
    C.ob(len(loops) == 1 and plain(loops[0][1])[0] == 'key' and plain(loops[0][1])[-1] == fld(('at', CLASSES, T), 'vars'),
         f['q'] + '|fields', '%s does not go through the fields of the class referred to' % f['q'], f, path=p)
    if len(loops) != 1:
        return
    k = plain(loops[0][1])
    for b, dec, how in loops[0][2]:
        own, spec = isclassvar(dec)
        if own is None:
            raise Odd('cannot tell the fields apart')
        cs = [e for e in flat(b) if e[0] == 'call' and e[1] == f['q']]
        C.ob(how in ('next', 'continue') and len(cs) == (1 if own else 0), f['q'] + '|each',
             '%s does not take away every reference of a row that is gone' % f['q'], f, path=p)
        for e in cs:
            a = [plain(x) for x in e[3]]
            C.ob(a[0] == T and a[1] == k and isval(a[2], cls, field, item) and (len(a) < 5 or a[4] == ('b', True)),
                 f['q'] + '|row', '%s goes on at %s' % (f['q'], show(a[:3])), at(e), p)


def isval(v, cls, field, item):
    return v[0] == 'at' and v[1] == ('at', REF, cls) and pair(v[2], 2) == (field, item)


def singleton(C, f, p):
    """The references of a row are taken away with it."""
    cls, field, item, T = params(f)[:4]
    C.note('row taken away: ' + f['q'])
    cs = [s for s in sites(p) if s.ev[0] == 'call' and s.ev[1] == FROMCRP]
    C.ob(len(cs) == 1 and not cs[0].loops, f['q'] + '|once', '%s does not take the references of the row away once' % f['q'], f,
         path=p)
    for s in cs:
        a = [plain(x) for x in s.ev[3]]
        C.ob(a[:3] == [cls, field, item] and a[4] == ('b', False), f['q'] + '|which',
             '%s takes away %s' % (f['q'], show(a[:3] + a[4:])), at(s.ev), p)
        C.ob(a[3] == params(f)[6], f['q'] + '|recorded', '%s does not record the references it takes away' % f['q'], at(s.ev), p)
    for s in sites(p):
        C.ob(not seats(s) and not unseats(s.ev) and not erases(s.ev) and not writes(s.ev), f['q'] + '|else',
             '%s changes a reference itself' % f['q'], at(s.ev), p)


def reincorporate(C, f, p):
    cls, field, item, val, T, sv, ud, ue = params(f)[:8]
    C.note('put back: ' + f['q'])
    ss = list(sites(p))
    single = None
    for s in ss + [None]:
        for a, t in (s.alt if s else ()) + tuple((core(a), t) for a, t in p.decisions):
            a = plain(a)
            if a == ('contains', fld(('at', E, T), 'tables'), val):
                single = not t if single in (None, not t) else 'both'
    if single in (None, 'both'):
        raise Odd('whether the row is new')
    wr = [(s, writes(s.ev)) for s in ss if writes(s.ev)]
    own = [w for s, w in wr if w == (cls, (field, item), val) and not s.loops]
    C.ob(len(own) == 1 and len(wr) == 1, f['q'] + '|written', '%s does not write the chosen reference' % f['q'], f, path=p)
    se = [(s, seats(s)) for s in ss if seats(s)]
    mine = [x for s, x in se if not s.loops]
    C.ob(len(mine) == 1 and mine[0][0] == T and ident(mine[0][1]) == (cls, field, item) and mine[0][2] == val, f['q'] + '|seated',
         '%s does not seat the chosen reference once, under its identifier' % f['q'], f, path=p)
    # whether the row is new is asked before the reference is seated
    asked = [i for i, e in enumerate(p.trace) if e[0] == 'ask' and plain(e[1]) == fld(('at', E, T), 'tables') and
             plain(e[2]) == val]
    if asked and mine:
        C.ob(min(asked) < min(order(p, s) for s, x in se if not s.loops), f['q'] + '|when',
             '%s asks whether the row is new after seating the reference' % f['q'], f, path=p)
    rounds = 0
    for e in p.trace:
        if e[0] != 'loop' or plain(e[1]) != ('key', plain(e[1])[1], ue):
            continue
        k = plain(e[1])
        key = (fld(k, 'first'), fld(k, 'second'), fld(k, 2))
        rounds += 1
        for b, dec, how in e[2]:
            got = [seats(x) for x in flat(b) if seats(x)]
            dele = [erases(x) for x in flat(b) if erases(x)]
            if any(x[0] == 'loop' and any(erases(y) for y in flat((x,))) for x in b):
                raise Odd('erases in a search')
            C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s stops at a reference of the row' % f['q'], f, path=p)
            if single:
                C.ob(not dele and len(got) == 1 and got[0][0] == target(key[0], key[1]) and ident(got[0][1]) == key and
                     got[0][2] == ('at', ue, k), f['q'] + '|seats',
                     '%s does not seat the references of a row that comes back as they were' % f['q'], f, path=p)
            else:
                C.ob(not got and len(dele) == 1 and dele[0] == (key[0], (key[1], key[2])), f['q'] + '|erases',
                     '%s does not erase the references of a row that is gone' % f['q'], f, path=p)
    C.ob(rounds == 1, f['q'] + '|all', '%s does not go through the references of the row once' % f['q'], f, path=p)


def transition(C, f, p):
    rng, cls, field, item = params(f)
    C.note('moved: ' + f['q'])
    T = target(cls, field)
    ss = list(sites(p))
    un = [(s, unseats(s.ev)) for s in ss if unseats(s.ev)]
    back = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == REINCORPORATE]
    wr = [(s, writes(s.ev)) for s in ss if writes(s.ev)]
    inline = [s for s in ss if seats(s)]
    if not un and not back and not wr:
        moved = [s for s in ss if s.ev[0] == 'call' and s.ev[1] in (SINGLETON, POPULATE, 'GenDB::unincorporate_reference')]
        C.ob(not moved, f['q'] + '|left', '%s leaves a reference taken away' % f['q'], f, path=p)
        return
    C.ob(len(un) == 1 and not un[0][0].loops and un[0][1][0] == T and ident(un[0][1][1]) == (cls, field, item), f['q'] + '|unseated',
         '%s does not take the reference out of its partition once, under its identifier' % f['q'], f, path=p)
    if inline:
        raise Odd('seats a reference itself')
    C.ob(len(back) == 1 and not back[0].loops, f['q'] + '|back', '%s does not put the reference back on every path' % f['q'], f,
         path=p)
    for s, w in wr:
        C.ob(w[0] == cls and w[1] == (field, item), f['q'] + '|other', '%s changes another reference' % f['q'], at(s.ev), p)
    for s in back:
        a = [plain(x) for x in s.ev[3]]
        C.ob(a[:3] == [cls, field, item] and a[4] == T, f['q'] + '|which', '%s puts back another reference' % f['q'], at(s.ev), p)
        C.ob(order(p, s) >= max(order(p, x) for x, w in wr + un), f['q'] + '|order',
             '%s changes the reference after it is put back' % f['q'], f, path=p)
    for s in ss:
        if s.ev[0] == 'call' and s.ev[1] == SINGLETON and un:
            C.ob(order(p, un[0][0]) < order(p, s), f['q'] + '|first',
                 '%s takes the row away before the reference to it' % f['q'], at(s.ev), p)


def populate(C, f, p):
    """A row has the rows it refers to, and values for all its relations."""
    rng, cls, item = params(f)
    C.note('row made: ' + f['q'])
    first = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == ANCESTORS]
    seated = [s for s in sites(p) if s.ev[0] == 'call' and s.ev[1] == SEAT]
    if first:
        a = [plain(x) for x in p.trace[first[0]][3]]
        C.ob(a[1:] == [cls, item], f['q'] + '|references', '%s gives another row its references' % f['q'], f, path=p)
    else:
        C.ob(bool(seated), f['q'] + '|references', '%s does not give the row its references' % f['q'], f, path=p)
    fields = relations = 0
    for i, e in enumerate(p.trace):
        if e[0] != 'loop':
            continue
        k = plain(e[1])
        if k[0] == 'key' and k[-1] == fld(('at', CLASSES, cls), 'vars'):
            bodies = [(isclassvar(dec), b, how) for b, dec, how in e[2]]
            if not any(x[0] == 'call' and x[1] == f['q'] for o, b, how in bodies for x in flat(b)):
                continue
            fields += 1
            C.ob(bool(seated) or bool(first) and first[0] < i, f['q'] + '|order', '%s uses references before they exist' % f['q'], f,
                 path=p)
            for (own, spec), b, how in bodies:
                if own is None:
                    raise Odd('cannot tell the fields apart')
                cs = [x for x in flat(b) if x[0] == 'call' and x[1] == f['q']]
                C.ob(how in ('next', 'continue') and len(cs) == (1 if own else 0), f['q'] + '|rows',
                     '%s does not make every row that the row refers to' % f['q'], f, path=p)
                for x in cs:
                    a = [plain(y) for y in x[3]]
                    C.ob(a[1] == target(cls, k) and isval(a[2], cls, k, item), f['q'] + '|row',
                         '%s makes another row than the one referred to' % f['q'], at(x), p)
        CR = ('at', fld(THIS, 'class_to_relations'), cls)
        if k[0] == 'idx' and k[-1] == ('size', CR):
            if not any(x[0] == 'call' and x[1] == 'HIRM::sample_and_incorporate_relation' for b in e[2] for x in flat(b[0])):
                continue
            relations += 1
            R = ('at', CR, k)
            D = fld(('at', fld(HIRM, 'schema'), R), 'domains')
            for b, dec, how in e[2]:
                cs = [x for x in flat(b) if x[0] == 'call' and x[1] == 'HIRM::sample_and_incorporate_relation']
                have = [(plain(a), t) for a, t in dec if plain(a)[0] == 'contains' and plain(a)[1][:2] == ('call', 'Relation::get_data')]
                C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s stops at a relation of the row' % f['q'], f, path=p)
                if not cs:
                    C.ob(any(t for a, t in have), f['q'] + '|value', '%s leaves out a relation of the row' % f['q'], f, path=p)
                for x in cs:
                    a = [plain(y) for y in x[3]]
                    got = a[2]
                    ok = got[0] == 'out' and got[1] == 'GenDB::get_relation_items' and got[3][0] == R and got[3][2] == item and \
                        got[3][1] == lastpos(D)
                    C.ob(a[1] == R and ok, f['q'] + '|items', '%s samples a relation at other items than those of the row' % f['q'], at(x), p)
                    C.ob(len(cs) == 1 and any(not t for a, t in have), f['q'] + '|held',
                         '%s may sample a value that is already there' % f['q'], at(x), p)
                for a, t in have:
                    r = a[1][2]
                    same = r[0] == 'call' and r[1] == 'HIRM::get_relation' and r[3][0] == R
                    C.ob(same and a[2][0] == 'out' and a[2][1] == 'GenDB::get_relation_items' and a[2][3][0] == R and
                         a[2][3][2] == item and a[2][3][1] == lastpos(D), f['q'] + '|asked',
                         '%s looks for the value of another row' % f['q'], f, path=p)
    C.ob(fields == 1, f['q'] + '|rows', '%s does not make the rows that the row refers to' % f['q'], f, path=p)
    C.ob(relations == 1, f['q'] + '|values', '%s does not give the row its values' % f['q'], f, path=p)


def lastpos(D):
    from sa.interp import mk_add
    return mk_add(('size', D), n(-1))


def observed(C, f, p):
    """The rows that an observed one refers to are there, and the value it observes."""
    rng, rel, items, value = params(f)
    C.note('row observed: ' + f['q'])
    rec = fld(fld(SCH, 'query'), 'record_class')
    item = ('at', items, ('last',))
    rounds = 0
    for e in p.trace:
        if e[0] != 'loop':
            continue
        k = plain(e[1])
        if k[0] != 'key' or k[-1] != fld(('at', CLASSES, rec), 'vars'):
            continue
        rounds += 1
        for b, dec, how in e[2]:
            own, spec = isclassvar(dec)
            if own is None:
                raise Odd('cannot tell the fields apart')
            cs = [x for x in flat(b) if x[0] == 'call' and x[1] == POPULATE]
            none = any(plain(a)[0] == 'contains' and plain(a)[1] == ('at', REF, rec) and
                       pair(plain(a)[2], 2) == (k, item) and not t for a, t in dec)
            C.ob(how in ('next', 'continue') and len(cs) == (1 if own and not none else 0), f['q'] + '|rows',
                 '%s does not make every row that the observed one refers to' % f['q'], f, path=p)
            for x in cs:
                a = [plain(y) for y in x[3]]
                C.ob(a[1] == target(rec, k) and isval(a[2], rec, k, item), f['q'] + '|row',
                     '%s makes another row than the one referred to' % f['q'], at(x), p)
    C.ob(rounds == 1, f['q'] + '|rows', '%s does not make the rows that the observed one refers to' % f['q'], f, path=p)
    inc = [i for i, e in enumerate(p.trace) if e[0] == 'call' and e[1] == 'HIRM::incorporate']
    C.ob(len(inc) == 1 and [plain(x) for x in p.trace[inc[0]][3]][1:] == [rel, items, value], f['q'] + '|value',
         '%s does not incorporate the observed value at its items' % f['q'], f, path=p)
    noisy = [t for a, t in p.decisions if plain(a)[0] == 'at' and plain(a)[1] == fld(HIRM, 'schema') or
             core(a)[0] == 'altp' and 'noisy' in core(a)[1]]
    if not noisy:
        raise Odd('whether the relation is noisy')
    base = [e for e in p.trace[:inc[0] if inc else None] if e[0] == 'call' and e[1] == 'HIRM::sample_and_incorporate_relation']
    B = fld(('at', fld(HIRM, 'schema'), rel), 'base_relation')
    bi = [x for e in p.trace if e[0] == 'call' for y in e[3] for x in subterms(plain(y)) if x[0] == 'call' and x[1].endswith('get_base_items')]
    have = [(plain(a), t) for a, t in p.decisions if plain(a)[0] == 'contains' and plain(a)[1][:2] == ('call', 'Relation::get_data')]
    if not noisy[0]:
        C.ob(not base, f['q'] + '|base', '%s samples a base of a clean relation' % f['q'], f, path=p)
        return
    for a, t in have:
        r = a[1][2]
        C.ob(r[0] == 'call' and r[1] == 'HIRM::get_relation' and r[3][0] == B and a[2][0] == 'call' and
             a[2][1].endswith('get_base_items') and a[2][3] == (items,), f['q'] + '|asked',
             '%s looks for another value than the one observed' % f['q'], f, path=p)
    if not base:
        C.ob(any(t for a, t in have), f['q'] + '|base', '%s observes a value that is not there' % f['q'], f, path=p)
    for e in base:
        a = [plain(x) for x in e[3]]
        C.ob(a[1] == B and a[2][0] == 'call' and a[2][1].endswith('get_base_items') and a[2][3] == (items,), f['q'] + '|base',
             '%s samples another value than the one observed' % f['q'], at(e), p)
        C.ob(any(not t for a, t in have), f['q'] + '|held', '%s may sample a value that is already there' % f['q'], at(e), p)


def row(C, f, p):
    """Every observed field of a row is incorporated at the items of the row."""
    rng, r, uniq = params(f)
    C.note('row: ' + f['q'])
    vals, item = fld(r, 'second'), fld(r, 'first')
    loops = [e for e in p.trace if e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1] == vals]
    C.ob(len(loops) == 1, f['q'] + '|fields', '%s does not go through the fields of the row' % f['q'], f, path=p)
    for e in loops:
        k = plain(e[1])
        D = fld(('at', fld(HIRM, 'schema'), k), 'domains')
        for b, dec, how in e[2]:
            cs = [x for x in flat(b) if x[0] == 'call' and x[1] == 'GenDB::incorporate_query_relation']
            C.ob(how in ('next', 'continue') and len(cs) == 1, f['q'] + '|each', '%s does not incorporate every field once' % f['q'], f,
                 path=p)
            for x in cs:
                a = [plain(y) for y in x[3]]
                C.ob(a[1] == k and a[3] == ('at', vals, k), f['q'] + '|value', '%s incorporates another value' % f['q'], at(x), p)
                g = a[2]
                if g[0] == 'out' and g[1] == 'GenDB::get_unique_entities_relation':
                    l = g[3][3]
                    size = [o[1] for o in l[2] if o[0] == 'resize'] if l[0] == 'cont' else [l[1]] if l[0] == 'fill' else []
                    ok = g[3][0] == k and g[3][2] == item and size == [('size', D)]
                    pos = g[3][1]
                    ok = ok and (pos == lastpos(D) or pos[0] == 'add' and n(-1) in pos[1] and len(pos[1]) == 2 and
                                 pos[1][0][0] == 'size' and pos[1][0][1][0] == 'var')
                elif g[0] == 'call' and g[1] == 'GenDB::sample_entities_relation':
                    path = fld(('at', fld(fld(SCH, 'query'), 'fields'), k), 'class_path')
                    ok = g[3][1] == fld(fld(SCH, 'query'), 'record_class') and g[3][4] == item and \
                        g[3][2][:2] == ('iter', path) and g[3][2][2] in (n(0), ('first',)) and g[3][3] == ('end', path)
                else:
                    raise Odd('items of a field')
                C.ob(ok, f['q'] + '|items', '%s incorporates a field at other items than those of its row' % f['q'], at(x), p)


if __name__ == '__main__':
    rule.main('C22', main)
