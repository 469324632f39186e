"""C07: the entities of a domain are the members of its partition.

Per path of every domain operation, the entities entering or leaving the set
are the ones seated or unseated; partition operations are opaque (C06)."""
from sa import rule, net, writes
from sa.interp import pp, n, ZERO, mk_add, subterms, mentions
from sa.rule import events, Broken
from sa.rel import THIS, strip
from c02 import impossible

RULE = ('On every path of every domain operation the same entities enter (leave) the entity set and the partition, an '
        'entity already present is left alone, a moved entity is unseated once and seated once at the given table; nobody '
        'else writes the set or seats members in a domain\'s partition.')
IT, CRP = ('f', THIS, 'items'), ('f', THIS, 'crp')


class Odd(Exception):
    pass


def main():
    C = rule.Check('C07', RULE, ['CRP::incorporate/unincorporate seat and unseat exactly their argument (C06)'],
                   min_obligations=5)
    P = C.P
    W = writes.Writes(P)

    def inside(f):
        return (f.get('cls') or '') == 'Domain'
    bad = 0
    for fk, how in sorted(W.writers('Domain', 'items').items()):
        f = P.fns[fk]
        if not inside(f) and not W.only_called_from(fk, inside):
            bad += 1
            C.ob(False, 'Domain.items|written by ' + f['q'], '%s changes the entities of a domain directly' % f['q'],
                 (f['file'], how[0][1]))
    C.ob(not bad, 'Domain.items|written by the domain only')
    bad = 0
    for k, f in sorted(P.fns.items()):
        if not f.get('body') or inside(f) or W.only_called_from(k, inside):
            continue
        for c in seatings(f['body']):
            bad += 1
            C.ob(False, 'Domain.crp|%s by %s' % (c['f']['name'], f['q']),
                 '%s seats or unseats an entity without telling its domain' % f['q'], (f['file'], c.get('l', 0)))
    C.ob(not bad, 'Domain.crp|used by the domain only')
    fs = [f for k, f in sorted(P.fns.items()) if f.get('cls') == 'Domain' and f.get('body') and f['name'] != 'Domain']
    if not fs:
        raise Broken('no domain operations')
    for f in fs:
        try:
            ps = [p for p in C.run(f, opaque=lambda g: (g.get('cls') or '') == 'CRP') if not p.aborted and
                  not impossible(p.decisions)]
            for p in ps:
                operation(C, f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s' % (f['q'], str(e)[:140]))
    return C.finish()


def seatings(x):
    if isinstance(x, dict):
        if x.get('k') == 'call' and isinstance(x.get('f'), dict) and x['f'].get('q') in ('CRP::incorporate', 'CRP::unincorporate'):
            o = x.get('obj') or {}
            while o.get('k') in ('cast', 'un'):
                o = o.get('e') or {}
            if o.get('k') == 'member' and (o.get('clsq') or '') == 'Domain':
                yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from seatings(v)
    elif isinstance(x, list):
        for v in x:
            yield from seatings(v)


def operation(C, f, p):
    q = f['q']
    mem, seat = {}, {}
    tables = []
    order = []
    for ev, loops, g in events(p.trace):
        if ev[0] in ('ins', 'put', 'del') and strip(ev[1]) == IT:
            if loops:
                raise Odd('loop')
            mem.setdefault(strip(ev[2]), []).append('+' if ev[0] != 'del' else '-')
        elif ev[0] in ('clear', 'swap', 'assign', 'merge') and strip(ev[1]) == IT:
            raise Odd('items ' + ev[0])
        elif ev[0] == 'call' and ev[1] in ('CRP::incorporate', 'CRP::unincorporate'):
            if strip(ev[2]) != CRP:
                continue
            if loops:
                raise Odd('loop')
            a = strip(ev[3])
            up = ev[1] == 'CRP::incorporate'
            seat.setdefault(a[0], []).append('+' if up else '-')
            if up:
                tables.append((a[0], a[1]))
        elif ev[0] in ('set', 'put', 'ins', 'del') and ev[1][0] == 'f' and strip(ev[1])[:2] == ('f', CRP) and \
                ev[1][2] in ('tables', 'assignments', 'N'):
            C.ob(False, q + '|partition internals', '%s changes the partition behind its back' % q, f, p)
    here = {}
    for a, b in p.decisions:
        a = strip(a)
        if a[0] == 'contains' and a[1] == IT or a[0] == 'contains' and a[1] == ('f', CRP, 'assignments'):
            here[a[2]] = b
    for x in sorted(set(mem) | set(seat), key=repr):
        m, s = mem.get(x, []), seat.get(x, [])
        dm, ds = m.count('+') - m.count('-'), s.count('+') - s.count('-')
        if here.get(x) is True and dm == 1 and m == ['+']:
            dm = 0          # inserting a present entity does nothing
        C.ob(dm == ds, q + '|in step', '%s: an entity %s the set but %s the partition' % (
            q, verb(dm), verb(ds)), f, p)
        if ds == 1 and s[0] == '+' and dm == 1:
            C.ob(here.get(x) is False, q + '|only when absent', '%s seats an entity that may be present already' % q, f, p)
        if s.count('+') and s.count('-'):
            C.ob(s == ['-', '+'], q + '|unseat first', '%s seats an entity before unseating it' % q, f, p)
    nm = f['name']
    ints = [('p', x['name']) for x in f['params'] if ty(C, x) == 'int']
    if nm == 'incorporate' and ints:
        x = ints[0]
        if here.get(x) is True:
            C.ob(not seat, q + '|present', '%s reseats a present entity' % q, f, p)
        else:
            C.ob(seat.get(x) == ['+'], q + '|adds', '%s does not seat a new entity' % q, f, p)
            if tables and len(ints) > 1:
                chosen(C, f, p, tables[0][1], ints[1])
        extra = [y for y in seat if y != x]
        C.ob(not extra, q + '|others', '%s moves another entity' % q, f, p)
    elif nm == 'unincorporate' and ints:
        x = ints[0]
        C.ob(seat.get(x) == ['-'] and mem.get(x) == ['-'] or here.get(x) is False and not seat and not mem,
             q + '|removes', '%s does not remove the entity' % q, f, p)
        C.ob(not [y for y in seat if y != x], q + '|others', '%s moves another entity' % q, f, p)
    elif nm == 'set_cluster_assignment_gibbs' and len(ints) == 2:
        x, t = ints
        same = [b for a, b in p.decisions if strip(a)[0] == 'eq' and t in strip(a)[1:]]
        if same and same[-1] is True and not seat:
            return
        C.ob(seat.get(x) == ['-', '+'] and tables == [(x, t)], q + '|moves',
             '%s does not move the entity to the given table' % q, f, p)
        C.ob(not [y for y in seat if y != x], q + '|others', '%s moves another entity' % q, f, p)
    elif nm == 'get_cluster_assignment' and ints:
        r = strip(p.ret)
        C.ob(r == ('at', ('f', CRP, 'assignments'), ints[0]), q + '|reads',
             '%s does not return the table of the entity' % q, f, p)
    elif nm == 'tables_weights_gibbs' and ints:
        r = strip(p.ret)
        want = ('at', ('f', CRP, 'assignments'), ints[0])
        if r[0] == 'call' and r[1] == 'CRP::tables_weights_gibbs':
            C.ob(r[2] == CRP and r[3][0] == want, q + '|reads', '%s excludes another entity' % q, f, p)
        elif r[0] == 'call':
            C.ob(False, q + '|reads', '%s offers the weights of %s' % (q, r[1]), f, p)
    elif f.get('const'):
        C.ob(not mem and not seat, q + '|query', '%s changes the domain' % q, f, p)


def chosen(C, f, p, t, table):
    """A requested table is used, otherwise one is sampled."""
    sampled = t[0] == 'call' and t[1] == 'CRP::sample' and t[2] == CRP
    dec = [(strip(a), b) for a, b in p.decisions if mentions(strip(a), table)]
    asked = None
    for a, b in dec:
        v = requested(a, table)
        if v is not None:
            asked = v if b else not v
    if t[0] == 'cond':
        v = requested(t[1], table)
        if v is None:
            raise Odd('table choice')
        y, no = (t[2], t[3]) if v else (t[3], t[2])
        C.ob(y == table and no[0] == 'call' and no[1] == 'CRP::sample', f['q'] + '|table',
             '%s does not use the requested table' % f['q'], f, p)
        return
    if asked is None:
        C.ob(False, f['q'] + '|table', '%s ignores whether a table was requested' % f['q'], f, p)
    elif asked:
        C.ob(t == table, f['q'] + '|table', '%s seats the entity at another table than requested' % f['q'], f, p)
    else:
        C.ob(sampled, f['q'] + '|table', '%s does not sample the table from the partition' % f['q'], f, p)


def requested(a, table):
    """Truth of `a` means the caller requested a table (label >= 0, default -1)."""
    if a[0] == 'not':
        v = requested(a[1], table)
        return None if v is None else not v
    if a[0] == 'eq' and n(-1) in a[1:] and table in a[1:]:
        return False
    if a[0] == 'ne' and n(-1) in a[1:] and table in a[1:]:
        return True
    if a == ('le', ZERO, table) or a == ('lt', n(-1), table):
        return True
    if a == ('lt', table, ZERO) or a == ('le', table, n(-1)):
        return False
    return None


def ty(C, p):
    s = C.P.strip(p['t']).get('s', '')
    return s[6:] if s.startswith('const ') else s


def verb(d):
    return {0: 'does not change', 1: 'enters', -1: 'leaves'}.get(d, 'changes %d times in' % d)


if __name__ == '__main__':
    rule.main('C07', main)
