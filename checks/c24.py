"""C24: the relations generated from a database schema index the right entities.

The helpers of the GenDB constructor are followed path by path; positions are
linear terms over the sizes of the lists of domains."""
from sa import rule
from sa.flow import core, subterms, has, sites, at, flat, near, order, carried
from sa.load import load
from sa.interp import pp, mk_add, mk_mul, n
from sa.rule import Broken
from sa.db import Odd, fld, plain, isclassvar, carries, tup, renorm, THIS, DOM, CRI, RRI, REF, SCH, CLASSES

RULE = ('The domains of a class are those of the classes it refers to, in the order of its fields, and then the class; '
        'the reference positions of those classes are shifted by the number of domains before them, each reference of '
        'the class itself is at the last domain of its target.  A relation of an attribute has the domains and the '
        'positions of its class; a noisy relation appends one domain per step of the path towards the record, whose '
        'reference is the position before it, keeps the positions of its base and names it.  Items are collected by '
        'the recorded positions, and the row of a class is listed after the rows it refers to.')

def main():
    P = load(defs=['-DNDEBUG'])
    C = rule.Check('C24', RULE, ['the schema is well formed: paths name existing fields (C17)',
                                 'get_distribution_relation and get_emission_relation keep the domains they are given'],
                   min_obligations=6, program=P)
    for q, fun in (('GenDB::compute_domains_for', domains), ('GenDB::compute_reference_indices_for', refindices),
                   ('GenDB::make_hirm_schema', schema), ('GenDB::make_relations_for_queryfield', queryfield),
                   ('GenDB::get_relation_items', collect), ('GenDB::get_unique_entities_relation', collect),
                   ('GenDB::sample_class_ancestors', ancestors), ('GenDB::sample_entities_relation', entities),
                   ('get_distribution_relation', passed), ('get_emission_relation', passed)):
        fs = [f for f in P.fn(q) if f.get('body')]
        if not fs:
            C.unanalysed.append('no ' + q)
        for f in fs[:1]:
            def opaque(g, f=f):
                if g.get('key') == f['key'] or g.get('q', '') in ANCHORS:
                    return True
                h = P.fns.get(g.get('key'))
                return h is None or not near(h['file'], f['file'])
            try:
                ps = C.try_run(f, opaque=opaque, snap=True, sizes=True, forget=True)
                if ps is None:
                    continue
                ps = [p for p in ps if not p.aborted and p.exit[0] != 'abort']
                if not ps:
                    raise Odd('no path')
                for p in ps:
                    fun(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:160]))
    return C.finish()


ANCHORS = {'GenDB::' + x for x in (
    'compute_domains_for', 'compute_reference_indices_for', 'make_hirm_schema', 'make_relations_for_queryfield',
    'get_relation_items', 'get_unique_entities_relation', 'sample_class_ancestors', 'sample_entities_relation',
    'sample_and_incorporate_reference', 'sample_and_incorporate_for_class', 'get_reference_id', 'incorporate',
    'incorporate_query_relation')} | {'get_distribution_relation', 'get_emission_relation'}


# ---------------------------------------------------------------- helpers --
def varsloop(tr, who):
    """The loop over the fields of a class, and the events of this level."""
    ls = [(i, e) for i, e in enumerate(tr) if e[0] == 'loop']
    ls = [(i, e) for i, e in ls if plain(e[1])[0] == 'key' and plain(e[1])[-1][:1] == ('f',) and
          plain(e[1])[-1][2] == 'vars']
    if len(ls) != 1:
        raise Odd('%d loops over the fields of a class' % len(ls))
    i, e = ls[0]
    if plain(e[1])[-1][1] != ('at', CLASSES, who):
        raise Odd('the loop is not over the fields of the class')
    return i, e


def appends(tr):
    """What is appended to lists, in order: (list, 'one'|'all', value, event)."""
    for ev in tr:
        if ev[0] == 'push':
            yield plain(ev[1]), 'one', plain(ev[2]), ev
        elif ev[0] in ('vinsert', 'insrange'):
            v = [plain(x) for x in ev[2:-1]]
            if ev[0] == 'vinsert' and len(v) == 3 and v[0][:1] == ('end',) and v[1][:1] == ('iter',) and \
                    v[1][2] in (n(0), ('first',)) and v[2] == ('end', v[1][1]):
                yield plain(ev[1]), 'all', v[1][1], ev
            elif ev[0] == 'vinsert' and len(v) == 2 and v[0][:1] == ('end',):
                yield plain(ev[1]), 'one', v[1], ev
            elif ev[0] == 'vinsert':
                yield plain(ev[1]), 'elsewhere', tuple(v), ev
        elif ev[0] == 'loop':
            bodies = [list(appends(b[0])) for b in ev[2]]
            if not any(bodies):
                continue
            k = plain(ev[1])
            if len(ev[2]) == 1 and len(bodies[0]) == 1 and k[0] == 'idx' and k[-1][0] == 'size' and \
                    bodies[0][0][1] == 'one' and bodies[0][0][2] == ('at', k[-1][1], k):
                yield bodies[0][0][0], 'reversed' if 'down' in ev[5:] else 'all', k[-1][1], ev
            else:
                for b in bodies:
                    for x in b:
                        yield x[0], 'loop', x[2], ev
        elif ev[0] == 'pop':
            yield plain(ev[1]), 'pop', None, ev


def residue(t, what):
    return mk_add(t, mk_mul(n(-1), what))


# ------------------------------------------------------------------ rules --
def domains(C, f, p):
    name = ('p', f['params'][0]['name'])
    i, loop = varsloop(p.trace, name)
    final = [e for e in p.trace if e[0] in ('put', 'set') and
             (plain(e[1]) == DOM and plain(e[2]) == name or plain(e[1]) == ('at', DOM, name))]
    lists = {a[0] for b in loop[2] for a in appends(b[0])}
    if len(lists) != 1:
        raise Odd('%d lists of domains' % len(lists))
    L = lists.pop()
    C.note('domains: ' + f['q'])
    for b, dec, how in loop[2]:
        own, spec = isclassvar(dec)
        if own is None:
            raise Odd('cannot tell the fields apart')
        got = [a for a in appends(b) if a[0] == L]
        if not own:
            C.ob(not got, f['q'] + '|scalar', '%s adds domains for a field that refers to no class' % f['q'], f,
                 path=p)
            continue
        T = fld(spec, 'class_name')
        known = [t for a, t in dec if plain(a) == ('contains', DOM, T)]
        asked = [j for j, e in enumerate(b) if e[0] == 'call' and e[1] == f['q'] and plain(e[3][0]) == T]
        C.ob(len(got) == 1 and got[0][1] == 'all' and got[0][2] == ('at', DOM, T), f['q'] + '|target',
             '%s does not list the domains of the class a field refers to, in order' % f['q'], f, path=p)
        if got:
            j = [k for k, e in enumerate(b) if e is got[0][3]]
            C.ob(bool(known and known[0]) or bool(asked) and (not j or asked[0] < j[0]), f['q'] + '|computed',
                 '%s uses the domains of a class before they are computed' % f['q'], f, path=p)
        if how not in ('next', 'continue'):
            C.ob(False, f['q'] + '|stop', '%s stops at the first reference' % f['q'], f, path=p)
    rest = [a for a in appends(p.trace[i + 1:]) if a[0] == L]
    early = [a for a in appends(p.trace[:i]) if a[0] == L]
    C.ob(len(rest) == 1 and rest[0][1] == 'one' and rest[0][2] == name and not early, f['q'] + '|own',
         '%s does not list the class itself once, last' % f['q'], f, path=p)
    if L != ('at', DOM, name):
        C.ob(len(final) == 1 and (final[0][0] == 'set' or True) and not (rest and order_of(p, rest[0][3]) >
                                                                        order_of(p, final[0])), f['q'] + '|kept',
             '%s does not keep the domains of the class' % f['q'], f, path=p)


def order_of(p, ev):
    for i, e in enumerate(p.trace):
        if e is ev:
            return i
    return len(p.trace)


def refindices(C, f, p):
    name = ('p', f['params'][0]['name'])
    i, loop = varsloop(p.trace, name)
    key = loop[1]
    C.note('reference positions: ' + f['q'])
    field = plain(key)
    puts = [(e, b, dec) for b, dec, how in loop[2] for e in flat(b) if e[0] == 'put']
    mine = None
    offs = set()
    for b, dec, how in loop[2]:
        own, spec = isclassvar(dec)
        if own is None:
            raise Odd('cannot tell the fields apart')
        ev = [e for e in b if e[0] in ('put', 'loop')]
        if how not in ('next', 'continue'):
            C.ob(False, f['q'] + '|stop', '%s stops at the first reference' % f['q'], f, path=p)
        if not own:
            C.ob(not any(e[0] == 'put' for e in flat(b)), f['q'] + '|scalar',
                 '%s records a position for a field that refers to no class' % f['q'], f, path=p)
            continue
        T = fld(spec, 'class_name')
        size = ('size', ('at', DOM, T))
        own = [e for e in b if e[0] == 'put' and plain(e[2]) == field]
        C.ob(len(own) == 1, f['q'] + '|field', '%s records no position for a reference of the class' % f['q'], f, path=p)
        if not own:
            continue
        mine = plain(own[0][1])
        O = residue(plain(own[0][3]), mk_add(size, n(-1)))
        ok = has(plain(own[0][3]), size) and isvar(O)
        C.ob(ok, f['q'] + '|last', '%s does not point a reference at the last domain of its class' % f['q'], f, path=p)
        if not ok:
            continue
        offs.add(O)
        S = ('at', CRI, T)
        loops = [e for e in b if e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1] == S]
        known = [t for a, t in dec if plain(a) == ('contains', CRI, T)]
        if not loops:
            C.ob(bool(known) and not known[-1], f['q'] + '|inherited',
                 '%s leaves out the positions of the class a field refers to' % f['q'], f, path=p)
            continue
        asked = [j for j, e in enumerate(b) if e[0] == 'call' and e[1] == f['q'] and plain(e[3][0]) == T]
        C.ob(len(known) < 2 or bool(asked), f['q'] + '|computed', '%s uses positions before they are computed' % f['q'], f, path=p)
        if len(loops) != 1 or len(loops[0][2]) != 1:
            raise Odd('the copy of the inherited positions')
        k1 = plain(loops[0][1])
        inner = loops[0][2][0][0]
        l2 = [e for e in inner if e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1] == ('at', S, k1)]
        if len(l2) != 1 or len(l2[0][2]) != 1:
            raise Odd('the copy of the inherited references')
        k2 = plain(l2[0][1])
        cp = [e for e in l2[0][2][0][0] if e[0] in ('put', 'ins')]
        if len(cp) != 1:
            raise Odd('the copy of one inherited reference')
        v = residue(plain(cp[0][3]), ('at', ('at', S, k1), k2))
        C.ob(plain(cp[0][2]) == k2 and v == O, f['q'] + '|shift',
             '%s shifts the inherited positions by %s, the references of the class by %s' % (
                 f['q'], pp(v)[:60], pp(O)[:60]), f, path=p)
        M = plain(cp[0][1])
        top = [e for e in inner if e[0] in ('put', 'ins')]
        if M[0] == 'at':
            C.ob(residue(M[2], k1) == O, f['q'] + '|row', '%s records inherited positions under a position shifted by '
                 'something else' % f['q'], f, path=p)
        else:
            if len(top) != 1:
                raise Odd('the entry of one inherited class')
            C.ob(residue(plain(top[0][2]), k1) == O, f['q'] + '|row',
                 '%s records inherited positions under a position shifted by something else' % f['q'], f, path=p)
            val = core(top[0][3])
            ok = val[0] == 'cont' and not carried(top[0][3]) and sum(1 for o in val[2] if o[0] == 'each') == 1
            C.ob(ok, f['q'] + '|mixed', '%s mixes the references of one ancestor with those of another' % f['q'], f, path=p)
    # the offset runs over the domains of the targets
    for (k, v), alts, init in carries(C):
        if plain(k) == plain(key) and v in offs:
            C.ob(plain(init) == n(0), f['q'] + '|start', '%s starts at another position than 0' % f['q'], f, path=p)
            for dec, val, how in alts:
                own, spec = isclassvar(dec)
                want = mk_add(v, ('size', ('at', DOM, fld(spec, 'class_name')))) if own else v
                C.ob(plain(val) == want, f['q'] + '|advance',
                     '%s does not advance by the number of domains of a reference' % f['q'], f, path=p)
    if len(offs) > 1:
        C.ob(False, f['q'] + '|offset', '%s shifts by different offsets' % f['q'], f, path=p)
    out = [e for e in p.trace if e[0] in ('put', 'ins') and plain(e[1]) == CRI]
    last = [e for e in p.trace[i + 1:] if e[0] in ('put', 'ins') and plain(e[1]) not in (CRI,)]
    if mine is None:
        raise Odd('no references')
    if not out:
        C.ob(any(plain(a) == ('empty', mine) and t for a, t in p.decisions), f['q'] + '|kept',
             '%s does not keep the positions of a class with references' % f['q'], f, path=p)
        return
    C.ob(plain(out[0][2]) == name, f['q'] + '|kept', '%s keeps the positions of another class' % f['q'], f, path=p)
    if mine[0] != 'at':
        ok = any(plain(e[2])[0] == 'sum' and plain(e[2])[1] == plain(key) or
                 plain(e[2]) == mk_add(('size', ('at', DOM, name)), n(-1)) for e in last)
        C.ob(ok, f['q'] + '|own', '%s does not keep the references of the class under its own position' % f['q'], f,
             path=p)


def isvar(t):
    return t[0] == 'var'


def schema(C, f, p):
    C.note('schema: ' + f['q'])
    n1 = n2 = 0
    for ev in p.trace:
        if ev[0] != 'loop':
            continue
        k = plain(ev[1])
        if k == ('key', k[1], CLASSES):
            for b, dec, how in ev[2]:
                for e in b:
                    if e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1] == fld(('at', CLASSES, k), 'vars'):
                        n1 += 1
                        scalars(C, f, p, k, e)
                    elif e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1][:1] == ('f',):
                        raise Odd('a loop over something else')
                C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s stops at a class' % f['q'], f, path=p)
        if k[0] == 'key' and k[-1] == fld(fld(SCH, 'query'), 'fields'):
            for b, dec, how in ev[2]:
                cs = [e for e in b if e[0] == 'call' and e[1] == 'GenDB::make_relations_for_queryfield']
                if not cs and not any(e[0] in ('put', 'ins') for e in flat(b)) and how in ('next', 'continue'):
                    C.ob(False, f['q'] + '|query', '%s makes no relation for some query fields' % f['q'], f, path=p)
                    continue
                if len(cs) != 1:
                    raise Odd('the relations of a query field')
                n2 += 1
                a = [plain(x) for x in cs[0][3]]
                C.ob(a[0] == ('at', k[-1], k) and a[1] == ('at', CLASSES, fld(fld(SCH, 'query'), 'record_class')) and
                     how in ('next', 'continue'), f['q'] + '|query',
                     '%s does not make the relations of every query field from the record class' % f['q'], f, path=p)
    if not n1 or not n2:
        raise Odd('no loop over the attributes or the query fields')


def colon(t):
    """The parts of a relation's name."""
    if t[0] != 'cat':
        return None
    out = []
    for x in t[1]:
        if x[0] == 'n' and x[1] == 58:
            x = ('s', ':')
        if x[0] == 'ch':
            x = ('s', x[1])
        if x[0] == 's' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def scalars(C, f, p, cls, loop):
    var = plain(loop[1])
    V = ('at', fld(('at', CLASSES, cls), 'vars'), var)
    for b, dec, how in loop[2]:
        own, spec = isclassvar(dec)
        if own is None:
            raise Odd('cannot tell the fields apart')
        made = [e for e in b if e[0] in ('put', 'ins') and any(
            x[0] == 'call' and x[1] == 'get_distribution_relation' for x in subterms(plain(e[3])))]
        C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s stops at an attribute' % f['q'], f, path=p)
        if own:
            C.ob(not made, f['q'] + '|scalar', '%s makes a relation for a reference' % f['q'], f, path=p)
            continue
        C.ob(len(made) == 1, f['q'] + '|scalar', '%s does not make one relation per attribute' % f['q'], f, path=p)
        if len(made) != 1:
            continue
        m = made[0]
        R = plain(m[2])
        g = [x for x in subterms(plain(m[3])) if x[0] == 'call' and x[1] == 'get_distribution_relation'][0]
        C.ob(g[3][0] == spec and g[3][1] == ('at', DOM, cls), f['q'] + '|domains',
             '%s gives an attribute other domains than those of its class' % f['q'], f, path=p)
        c = colon(R)
        if c is None:
            raise Odd('name of a clean relation')
        C.ob(c == [cls, ('s', ':'), var] or c == [cls, ('s', ':'), fld(V, 'name')], f['q'] + '|name',
             '%s names an attribute %s' % (f['q'], pp(R)[:80]), f, path=p)
        recorded(C, f, p, b, dec, R, cls)


def recorded(C, f, p, tr, dec, R, cls):
    """The relation R of class cls gets the positions of its class."""
    ws = [e for e in tr if e[0] in ('put', 'ins', 'insrange', 'merge', 'set') and (
        plain(e[1]) == RRI and plain(e[2]) == R or plain(e[1]) == ('at', RRI, R))]
    known = [t for a, t in dec if plain(a) == ('contains', CRI, cls)]
    if not ws:
        C.ob(bool(known) and not known[-1], f['q'] + '|positions',
             '%s does not record the reference positions of %s' % (f['q'], pp(R)[:80]), f, path=p)
        return
    vals = [plain(e[3] if e[0] in ('put', 'ins') and plain(e[1]) == RRI else e[2]) for e in ws]
    good = {('at', CRI, cls)}
    C.ob(any(v in good or v[0] == 'iter' and v[1] in good or v[0] == 'at' and v[1] == RRI for v in vals),
         f['q'] + '|positions', '%s records other positions than those of the class for %s' % (f['q'], pp(R)[:80]), f, path=p)


# ------------------------------------------------------------ query fields --
def symbols(f, p):
    """Recognises the lists of classes and of fields along the path, and the attribute at its end."""
    path = fld(('p', f['params'][0]['name']), 'class_path')
    rec = ('p', f['params'][1]['name'])
    size = ('size', path)
    idx = None
    names = {}

    def step(t, k):
        """get<ClassVar>(last_class.vars[path[k]].spec).class_name, or the field."""
        return t[0] == 'at' and t[1][:1] == ('f',) and t[1][2] == 'vars' and t[2] == ('at', path, k) and t[1][1][0] == 'var'

    def classify(t):
        if t[0] == 'cont' and t[1] == ('empty',):
            each = [o for o in t[2] if o[0] == 'each']
            if len(each) != 1 or each[0][1][0] != 'idx' or each[0][1][-1] not in (size, mk_add(size, n(-1))):
                return None
            k = each[0][1]
            whole = k[-1] == size
            pre = [o for o in t[2][:t[2].index(each[0])]]
            post = [o for o in t[2][t[2].index(each[0]) + 1:]]
            vals = set()
            for dec, ops, how in each[0][2]:
                inner = inside(dec, k, size)
                last = bool(inner) and not inner[-1]
                for o in ops:
                    if o[0] != 'push':
                        return None
                    vals.add((o[1], 'last' if last else 'inner' if inner or not whole else 'any'))
                if not ops:
                    vals.add((None, 'last' if last else 'inner' if inner or not whole else 'any'))
            if pre == [('push', fld(rec, 'name'))] and not post:
                real = {v for v in vals if v[0] is not None}
                if len(real) == 1:
                    (v, w), = real
                    if w == 'inner' and v[0] == 'f' and v[2] == 'class_name' and v[1][:1] == ('f',) and \
                            v[1][2] == 'spec' and step(v[1][1], k):
                        return ('CN',)
                return None
            if not pre:
                real = {v[0] for v in vals if v[0] is not None}
                if len(real) == 1:
                    v, = real
                    # the last name may or may not have been taken off again
                    if v == ('at', path, k) or v[0] == 'f' and v[2] == 'name' and step(v[1], k):
                        if post in ([], [('pop',)]):
                            return ('VN',)
        if t[0] == 'last' and len(t) > 2 and t[1][0] == 'idx' and t[1][-1] == size:
            vals = {v for d, v in t[2]}
            if len(vals) == 1:
                v, = vals
                if step(v, t[1]):
                    return ('LV',)
        return None
    memo = {}

    def go(t):
        if not isinstance(t, tuple):
            return t
        if t in memo:
            return memo[t]
        r = classify(t) if t and t[0] in ('cont', 'last') else None
        if r is None:
            r = tuple(go(x) for x in t)
            if r[:1] == ('size',) and len(r) == 2 and r[1] == ('CN',):
                r = size
        memo[t] = r
        return r
    return lambda t: go(plain(t)), size, rec, path


def inside(dec, k, size):
    """What the decisions say on whether step k is before the last."""
    out = []
    end = mk_add(size, n(-1))
    for a, t in dec:
        a = plain(a)
        if a[0] in ('lt', 'le', 'eq', 'ne') and len(a) == 3:
            d = renorm(mk_add(a[2], mk_mul(n(-1), a[1])))
            w = renorm(mk_add(end, mk_mul(n(-1), k)))
            if a[0] == 'lt' and d == w:
                out.append(t)
            elif a[0] == 'le' and d == renorm(mk_mul(n(-1), w)):
                out.append(not t)
            elif a[0] in ('eq', 'ne') and d in (w, renorm(mk_mul(n(-1), w))):
                out.append(t if a[0] == 'ne' else not t)
    return out


def queryfield(C, f, p):
    sym, size, rec, path = symbols(f, p)
    fname = fld(('p', f['params'][0]['name']), 'name')
    recname = fld(rec, 'name')
    TS = ('p', f['params'][2]['name'])
    # the walk along the path
    walk = [e for e in p.trace if e[0] == 'loop' and plain(e[1])[0] == 'idx' and plain(e[1])[-1] in (size, mk_add(size, n(-1)))]
    CNV = None
    for ev in flat(p.trace):
        if ev[0] == 'push' and plain(ev[2]) == recname and CNV is None and plain(ev[1])[0] == 'var':
            CNV = plain(ev[1])
    if CNV is None:
        raise Odd('no list of classes')
    walked(C, f, p, path, size, rec)

    def S(t):
        t = sym(t)
        for x in subterms(t):
            if x[0] == 'cont' and x[1] == ('empty',) and any(o[0] == 'each' and has(o[1], path) for o in x[2]) or \
                    x[0] == 'last' and len(x) > 2 and has(x[1], path):
                raise Odd('the walk along the path: %s' % pp(x)[:100])

        def go(x):
            if isinstance(x, tuple):
                if x == ('size', CNV):
                    return size
                if x == CNV:
                    return ('CN',)
                return tuple(go(y) for y in x)
            return x
        t = go(t)
        return renorm(t)
    one = [t for a, t in p.decisions if S(a) in (('eq', n(1), size), ('eq', size, n(1)))]
    made = []

    def scan(tr, loop, dec):
        for e in tr:
            if e[0] == 'loop':
                for b in e[2]:
                    scan(b[0], e, b[1])
            elif e[0] in ('put', 'ins') and plain(e[1]) == TS:
                made.append((e, loop, dec, tr))
    scan(p.trace, None, p.decisions)
    if not made:
        raise Odd('no relation made')
    BASE = [('at', ('CN',), ('last',)), ('s', ':'), fld(('LV',), 'name')]
    for e, loop, dec, tr in made:
        name, val = S(e[2]), S(e[3])
        C.note('relation: ' + '%s %s' % (f['q'], pp(name)[:60]))
        observed(C, f, p, e, name, val, fname, loop, dec, S)
        calls = [x for x in subterms(val) if x[0] == 'call' and x[1] == 'get_emission_relation']
        if not calls:
            x = [t for t in subterms(val) if t[0] == 'at' and t[1] == TS]
            if len(x) != 1 or loop is not None or not (one and one[0]):
                raise Odd('a relation of unknown make')
            C.ob(colon(x[0][2]) == BASE, f['q'] + '|base', '%s renames another relation' % f['q'], f, path=p)
            gone = [i for i, ev in enumerate(tr) if ev[0] == 'del' and plain(ev[1]) == TS and S(ev[2]) == x[0][2]]
            C.ob(bool(gone), f['q'] + '|renamed', '%s leaves a renamed relation under its old name' % f['q'], f, path=p)
            recorded(C, f, p, tr, dec, plain(e[2]), recname)
            continue
        if len(calls) != 1:
            raise Odd('an emission of an emission')
        spec, doms, base = calls[0][3][:3]
        C.ob(spec == fld(('LV',), 'spec'), f['q'] + '|spec', '%s makes a noisy relation of another attribute' % f['q'], f, path=p)
        if one and one[0]:
            C.ob(doms in (('at', DOM, recname), ('at', DOM, ('at', ('CN',), ('last',)))), f['q'] + '|record',
                 '%s gives a noisy attribute of the record other domains' % f['q'], f, path=p)
            C.ob(colon(base) == BASE, f['q'] + '|base', '%s gives it another base' % f['q'], f, path=p)
            recorded(C, f, p, tr, dec, plain(e[2]), recname)
            continue
        if loop is None:
            # one emission over the whole path
            if doms[0] != 'cont':
                raise Odd('domains of a final emission')
            each = [o for o in doms[2] if o[0] == 'each']
            if len(each) != 1 or len(doms[2]) != 1:
                raise Odd('domains of a final emission')
            C.ob(doms[1] == ('at', DOM, ('at', ('CN',), ('last',))), f['q'] + '|extends',
                 '%s does not extend the domains of the class of the attribute' % f['q'], f, path=p)
            C.ob(colon(base) == BASE, f['q'] + '|base', '%s gives it another base' % f['q'], f, path=p)
            L = [x for x in p.trace if x[0] == 'loop' and S(x[1]) == each[0][1]]
            L = [x for x in L if any(y[0] == 'push' for b in x[2] for y in b[0])]
            if len(L) != 1:
                raise Odd('the loop that extends the domains')
            for b, d, how in L[0][2]:
                extend(C, f, p, L[0], b, S, size, ('at', RRI, S(e[2])))
            final(C, f, p, tr, S, S(e[2]), base, dec)
        else:
            # one emission per step
            if doms[0] != 'cont' or doms[1][0] != 'var' or len(doms[2]) != 1 or doms[2][0][0] != 'push':
                raise Odd('domains of an emission of one step')
            init = [(al, i0) for (k, v), al, i0 in carries(C) if S(k) == S(loop[1]) and plain(v) == doms[1]]
            C.ob(bool(init) and S(init[0][1]) == ('at', DOM, ('at', ('CN',), ('last',))), f['q'] + '|extends',
                 '%s does not extend the domains of the class of the attribute' % f['q'], f, path=p)
            extend(C, f, p, loop, tr, S, size, None)
            # the base is the relation made before
            if base[0] != 'var':
                C.ob(False, f['q'] + '|base', '%s does not observe the relation made in the step before' % f['q'], f, path=p)
                continue
            bs = [(al, i0) for (k, v), al, i0 in carries(C) if S(k) == S(loop[1]) and plain(v) == base]
            if not bs:
                C.ob(False, f['q'] + '|base', '%s does not observe the relation made in the step before' % f['q'], f, path=p)
                continue
            C.ob(colon(S(bs[0][1])) == BASE, f['q'] + '|first', '%s does not start at the clean relation' % f['q'], f, path=p)
            for d, v, how in bs[0][0]:
                if norm_dec(d, S) == norm_dec(dec, S):
                    C.ob(S(v) == name, f['q'] + '|chain', '%s does not chain the steps of the path' % f['q'], f, path=p)
            stepwise(C, f, p, tr, S, name, base, dec)


def norm_dec(d, S):
    return frozenset((S(a), t) for a, t in d)


def walked(C, f, p, path, size, rec):
    """Every step of the path goes to the class that the field refers to."""
    for (k, v), alts, init in carries(C):
        k2 = plain(k)
        if k2[0] != 'idx' or k2[-1] not in (size, mk_add(size, n(-1))):
            continue
        if v[0] == 'var' and plain(init) == rec:
            for dec, val, how in alts:
                val = plain(val)
                inner = inside(dec, k2, size)
                if inner and not inner[-1]:
                    continue
                want = ('at', CLASSES, fld(fld(('at', fld(plain(v), 'vars'), ('at', path, k2)), 'spec'), 'class_name'))
                if val[0] == 'at' and val[1] == CLASSES and val[2][0] == 'at' and val[2][2] == ('last',):
                    continue
                C.ob(val == want, f['q'] + '|walk', '%s does not go on at the class that a field refers to' % f['q'], f, path=p)


def observed(C, f, p, e, name, val, fname, loop, dec, S):
    flags = dict(val[2]) if val[0] == 'with' else {}
    if 'is_observed' not in flags:
        raise Odd('whether a relation is observed')
    fl = flags['is_observed']
    if fl[0] != 'b':
        return
    C.ob(fl[1] == (name == fname), f['q'] + '|observed',
         '%s marks %s as %sobserved' % (f['q'], pp(name)[:60], '' if fl[1] else 'not '), f, path=p)
    if loop is not None:
        k = S(loop[1])
        final = [t for a, t in dec if S(a) in (('eq', k, n(0)), ('eq', n(0), k))]
        if 'down' in loop[5:] and final:
            C.ob(final[-1] == (name == fname), f['q'] + '|final',
                 '%s gives the name of the query field to another step than the last' % f['q'], f, path=p)
        if name != fname:
            c = colon(name)
            if c is not None:
                C.ob(('at', ('CN',), k) in c and fname in c or not any(x[:2] == ('at', ('CN',)) for x in c),
                     f['q'] + '|name', '%s names an intermediate relation %s' % (f['q'], pp(name)[:80]), f, path=p)


def extend(C, f, p, loop, body, S, size, RR):
    """One round appends one domain and records the position before it."""
    k = S(loop[1])
    down = 'down' in loop[5:]
    push = [e for e in body if e[0] == 'push' and S(e[2])[:2] == ('at', ('CN',))]
    C.ob(len(push) == 1, f['q'] + '|append', '%s does not append one domain per step' % f['q'], f, path=p)
    if len(push) != 1:
        return
    i = S(push[0][2])[2]
    if k[0] != 'idx':
        raise Odd('the loop over the steps')
    right = down and i == k or not down and i == renorm(mk_add(mk_add(size, n(-2)), mk_mul(n(-1), k)))
    C.ob(right, f['q'] + '|order', '%s does not append the classes from the attribute towards the record' % f['q'], f, path=p)
    C.ob(k[-1] == mk_add(size, n(-1)), f['q'] + '|steps', '%s appends the classes of another part of the path' % f['q'], f, path=p)
    D = plain(push[0][1])
    ref = [e for e in body if e[0] in ('put', 'ins') and S(e[2])[:2] == ('at', ('VN',))]
    C.ob(len(ref) == 1, f['q'] + '|reference', '%s does not record the reference of a step' % f['q'], f, path=p)
    if len(ref) != 1:
        return
    C.ob(S(ref[0][2])[2] == i, f['q'] + '|which', '%s records the reference of another step' % f['q'], f, path=p)
    loc = S(ref[0][1])
    if loc[0] != 'at':
        raise Odd('where the reference of a step is recorded')
    j = [x for x, e in enumerate(body) if e is ref[0]][0]
    pj = [x for x, e in enumerate(body) if e is push[0]][0]
    C.ob(loc[2] == ('size', D), f['q'] + '|position',
         '%s records the reference of a step at position %s of its domains' % (f['q'], pp(loc[2])[:60]), f, path=p)
    C.ob(renorm(mk_add(loc[2], mk_mul(n(-1), S(ref[0][3])))) == n(1), f['q'] + '|before',
         '%s does not point the reference of a step at the domain before' % f['q'], f, path=p)
    if RR is not None:
        C.ob(loc[1] == RR or loc[1][0] == 'var', f['q'] + '|relation', '%s records the references under another relation' % f['q'], f,
             path=p)


def final(C, f, p, tr, S, name, base, dec):
    """The positions of the base are kept beside those of the path."""
    known = [t for a, t in dec if S(a) == ('contains', RRI, base)]
    took = [(i, e) for i, e in enumerate(tr) if e[0] in ('put', 'ins', 'insrange', 'merge', 'set') and
            (S(e[1]) == ('at', RRI, name) and (S(e[2])[:2] == ('iter', ('at', RRI, base)) or S(e[2]) == ('at', RRI, base)) or
             S(e[1]) == RRI and S(e[2]) == name)]
    if not took:
        C.ob(bool(known) and not known[-1], f['q'] + '|kept', '%s leaves out the positions of the base' % f['q'], f, path=p)
    for i, e in took:
        if e[0] in ('put', 'set') and S(e[1]) == RRI:
            early = any(x[0] == 'loop' and any(y[0] in ('put', 'ins') and has(S(y[1]), ('at', RRI, name))
                                               for b in x[2] for y in flat(b[0])) for x in tr[:i])
            C.ob(not early, f['q'] + '|overwrites', '%s overwrites the positions of the path' % f['q'], f, path=p)


def stepwise(C, f, p, tr, S, name, base, dec):
    known = [t for a, t in dec if S(a) == ('contains', RRI, base)]
    took = [(i, e) for i, e in enumerate(tr) if e[0] in ('put', 'ins', 'insrange', 'merge', 'set') and (
        S(e[1]) == RRI and S(e[2]) == name and S(e[3]) == ('at', RRI, base) or
        S(e[1]) == ('at', RRI, name) and (S(e[2]) == ('at', RRI, base) or S(e[2])[:2] == ('iter', ('at', RRI, base))))]
    if not took:
        C.ob(bool(known) and not known[-1], f['q'] + '|kept', '%s leaves out the positions of the base' % f['q'], f, path=p)
    mine = [(i, e) for i, e in enumerate(tr) if e[0] in ('merge', 'put', 'ins', 'insrange') and (
        has(S(e[1]), ('at', RRI, name)) and (e[0] == 'merge' or S(e[2])[:2] == ('at', ('VN',)) or
                                             e[0] == 'insrange' and S(e[2])[1][0] == 'var'))]
    C.ob(bool(mine), f['q'] + '|own', '%s does not keep the reference of the step itself' % f['q'], f, path=p)
    for i, e in took:
        if e[0] in ('put', 'set') and S(e[1]) == RRI:
            C.ob(all(i < j for j, x in mine), f['q'] + '|overwrites', '%s overwrites the positions of the path' % f['q'], f, path=p)


# ------------------------------------------------------------------- items --
def collect(C, f, p):
    rel, ind, item, items = [('p', x['name']) for x in f['params']]
    C.note('items: ' + f['q'])
    here = [e for e in p.trace if e[0] in ('put', 'set') and plain(e[1]) in (items, ('at', items, ind))]
    ok = [e for e in here if e[0] == 'put' and plain(e[2]) == ind and plain(e[3]) == item or
          e[0] == 'set' and plain(e[2]) == item]
    C.ob(bool(ok), f['q'] + '|item', '%s does not fill in the item at its position' % f['q'], f, path=p)
    AT = ('at', ('at', RRI, rel), ind)
    loops = [e for e in p.trace if e[0] == 'loop' and plain(e[1])[0] == 'key' and plain(e[1])[-1] == AT]
    known = [t for a, t in p.decisions if plain(a) in (('contains', RRI, rel), ('contains', ('at', RRI, rel), ind))]
    if not loops:
        C.ob(bool(known) and not all(known), f['q'] + '|references', '%s does not follow the recorded references' % f['q'], f,
             path=p)
        return
    for b, dec, how in loops[0][2]:
        k = plain(loops[0][1])
        cs = [e for e in b if e[0] == 'call' and e[1] == f['q']]
        C.ob(how in ('next', 'continue') and len(cs) == 1, f['q'] + '|each', '%s does not follow every recorded reference' % f['q'], f,
             path=p)
        if len(cs) != 1:
            continue
        a = [plain(x) for x in cs[0][3]]
        C.ob(a[0] == rel and a[1] == ('at', AT, k), f['q'] + '|where', '%s follows a reference at another position than recorded' % f['q'],
             f, path=p)
        v = a[2]
        put = [e for e in b if e[0] in ('put', 'ins') and plain(e[1])[:2] == ('at', REF) and plain(e[3]) == v]
        doms = None
        if v[0] == 'at' and v[1][:2] == ('at', REF):
            doms, kk = v[1][2], v[2]
        elif put:
            doms, kk = plain(put[0][1])[2], plain(put[0][2])
        else:
            C.ob(False, f['q'] + '|value', '%s follows another value than that of the reference' % f['q'], f, path=p)
            continue
        dl = doms[1] if doms[0] == 'at' else None
        C.ob(dl is not None and dl[:1] == ('f',) and dl[2] == 'domains' and doms[2] == ind and
             kk[0] == 'tuple' and tup(kk) == [k, item], f['q'] + '|value',
             '%s looks the reference up as %s of %s' % (f['q'], pp(kk)[:60], pp(doms)[:80]), f, path=p)


def ancestors(C, f, p):
    rng, cname, item = [('p', x['name']) for x in f['params']]
    i, loop = varsloop(p.trace, cname)
    C.note('rows: ' + f['q'])
    ret = plain(p.exit[1])
    L = None
    for b, dec, how in loop[2]:
        own, spec = isclassvar(dec)
        if own is None:
            raise Odd('cannot tell the fields apart')
        got = list(appends(b))
        C.ob(how in ('next', 'continue'), f['q'] + '|stop', '%s stops at a reference' % f['q'], f, path=p)
        if not own:
            C.ob(not got, f['q'] + '|scalar', '%s adds items for an attribute' % f['q'], f, path=p)
            continue
        k = plain(loop[1])
        T = fld(spec, 'class_name')
        val = ('at', ('at', REF, cname), ('tuple', k, item))
        cs = [e for e in b if e[0] == 'call' and e[1] == f['q']]
        C.ob(len(got) == 1 and got[0][1] == 'all' and len(cs) == 1, f['q'] + '|each',
             '%s does not list the rows of every reference once, in order' % f['q'], f, path=p)
        if len(cs) == 1:
            a = [plain(x) for x in cs[0][3]]
            C.ob(a[1] == T and a[2][0] == 'at' and a[2][1] == ('at', REF, cname) and tup(a[2][2]) == [k, item],
                 f['q'] + '|value', '%s lists the rows of another reference' % f['q'], f, path=p)
            j = b.index(cs[0])
            filled(C, f, p, b[:j], dec, cname, k, item, T)
        if got:
            L = got[0][0]
    rest = [a for a in appends(p.trace[i + 1:])]
    C.ob(len(rest) == 1 and rest[0][1] == 'one' and rest[0][2] == item and not list(appends(p.trace[:i])),
         f['q'] + '|own', '%s does not list the row itself once, last' % f['q'], f, path=p)


def filled(C, f, p, before, dec, cname, k, item, T):
    """The reference exists when it is read."""
    known = [t for a, t in dec if plain(a)[0] == 'contains' and plain(a)[1] == ('at', REF, cname)]
    new = [e for e in before if e[0] == 'call' and e[1] == 'GenDB::sample_and_incorporate_reference']
    if known and not known[0]:
        C.ob(len(new) == 1 and plain(new[0][3][1]) == cname and tup(plain(new[0][3][2])) == [k, item] and
             plain(new[0][3][3]) == T, f['q'] + '|sampled', '%s does not sample a missing reference of the row' % f['q'], f, path=p)
    elif known:
        C.ob(not new, f['q'] + '|resampled', '%s samples a reference that the row already has' % f['q'], f, path=p)


def entities(C, f, p):
    rng, cname, start, end, item = [('p', x['name']) for x in f['params']]
    C.note('rows: ' + f['q'])
    ret = plain(p.exit[1])
    if ret[0] == 'call':
        C.ob(ret[1] == 'GenDB::sample_class_ancestors' and ret[3][1:] == (cname, item), f['q'] + '|end',
             '%s does not list the rows of the class at the end of the path' % f['q'], f, path=p)
        return
    V = None
    cs = [e for e in p.trace if e[0] == 'call' and e[1] == f['q']]
    if len(cs) != 1 or ret[0] != 'cont':
        raise Odd('the rest of the path')
    C.ob(ret[1][0] == 'call' and ret[1][1] == f['q'] and list(ret[2]) == [('push', item)], f['q'] + '|own',
         '%s does not list the row of a step after those of the rest of the path' % f['q'], f, path=p)
    a = [plain(x) for x in cs[0][3]]
    v = a[4]
    fieldkey = tup(v[2])[0] if v[0] == 'at' and v[1] == ('at', REF, cname) else None
    C.ob(fieldkey is not None and tup(v[2])[1] == item, f['q'] + '|value', '%s follows another reference' % f['q'], f, path=p)
    spec = [x for x in subterms(a[1]) if x[0] == 'f' and x[-1] == 'spec']
    C.ob(fieldkey is not None and a[1] == fld(fld(('at', fld(('at', CLASSES, cname), 'vars'), fieldkey), 'spec'), 'class_name'),
         f['q'] + '|class', '%s goes on in another class than the one referred to' % f['q'], f, path=p)
    raw = cs[0][3][2]
    C.ob(plain(raw) != start or raw != ('p', start[1]) , f['q'] + '|next', '%s does not go on with the next step' % f['q'], f, path=p)
    if fieldkey is not None:
        filled(C, f, p, p.trace[:p.trace.index(cs[0])], p.decisions, cname, fieldkey, item, a[1])


def passed(C, f, p):
    ds = [x for x in f['params'] if 'vector' in C.P.type(x['t'])['s']]
    if not ds:
        raise Odd('no list of domains')
    d = ('p', ds[0]['name'])
    C.note('relation: ' + f['q'])
    v = plain(p.exit[1])
    if v[0] == 'with':
        got = dict(v[2])
    elif v[0] == 'struct':
        got = dict(v[2])
    else:
        raise Odd('a relation of unknown make')
    C.ob(got.get('domains') == d, f['q'] + '|domains', '%s does not keep the domains it is given' % f['q'], f, path=p)
    bs = [('p', x['name']) for x in f['params'] if 'base' in x['name'] or f['params'].index(x) == 2]
    if bs and 'base_relation' in got:
        C.ob(got['base_relation'] == bs[0], f['q'] + '|base', '%s does not keep the base it is given' % f['q'], f, path=p)


if __name__ == '__main__':
    rule.main('C24', main)
