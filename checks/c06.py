"""C06: the partition's tables, assignments and count agree.

Encapsulation: only CRP members (and helpers reachable only from them) write
tables, assignments and N.  Every path of every CRP member then has one of the
three effects {seat one member, unseat one member, none} on all three fields
together.  The weight maps are evaluated abstractly per kind of table (moved,
other occupied, fresh)."""
from sa import rule, net, writes
from sa.interp import mk_add, mk_sub, mk_mul, mentions, subterms, n, pp, ZERO, ONE, Interp
from sa.rule import events, islocal, rootof, Broken
from c02 import impossible

RULE = ('On every path of every partition operation the tables, the assignments and the member count change together by '
        'one member or not at all, an emptied table is erased and an occupied one is kept; no code outside the partition '
        'writes them; the seating weights are the sizes, with the moved member excluded, plus alpha for one fresh label.')

THIS = ('this',)
TB, AS, NN = ('f', THIS, 'tables'), ('f', THIS, 'assignments'), ('f', THIS, 'N')
AL = ('f', THIS, 'alpha')


class Odd(Exception):
    pass


def main():
    C = rule.Check('C06', RULE, [
        'std::map iterates in key order and the reverse begin is the largest key',
        'callers pass a table label that is not negative'], min_obligations=10)
    P = C.P
    W = writes.Writes(P)
    encapsulated(C, P, W)
    roots = [f for k, f in sorted(P.fns.items()) if f.get('cls') == 'CRP' and f.get('body') and not f.get('ctor')
             and f['name'] != 'CRP']
    if not roots:
        raise Broken('no CRP members found')
    for f in roots:
        if f.get('access', 0) not in (0, 'public', None):
            continue
        guarded(C, f, lambda f=f: operation(C, P, f))
    for nm, g in (('tables_weights', weights), ('tables_weights_gibbs', gibbs)):
        for f in P.fn('CRP::' + nm):
            guarded(C, f, lambda f=f, g=g: g(C, P, f))
    callers(C, P)
    t = fieldtype(P, 'CRP', 'tables')
    C.ob(t is None or t.startswith('std::map<'), 'CRP.tables|ordered',
         'the highest table label is read from the end of an unordered container', None)
    return C.finish()


def fieldtype(P, cls, name):
    r = P.recs.get(cls)
    for f in (r or {}).get('fields', ()):
        if f['name'] == name:
            return P.type(f['t'])['s']
    return None


def guarded(C, f, g):
    try:
        g()
    except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
        C.unanalysed.append('%s: %s' % (f['q'], str(e)[:140]))


def encapsulated(C, P, W):
    def inside(f):
        return (f.get('cls') or '') == 'CRP'
    for fld in ('tables', 'assignments', 'N'):
        ws = W.writers('CRP', fld)
        bad = 0
        for fk, how in sorted(ws.items()):
            f = P.fns[fk]
            if inside(f) or W.only_called_from(fk, inside):
                continue
            bad += 1
            C.ob(False, 'CRP.%s|written by %s' % (fld, f['q']), '%s changes the %s of a partition directly (%s)' %
                 (f['q'], fld, how[0][0]), (f['file'], how[0][1]))
        C.ob(not bad, 'CRP.%s|written by the partition only' % fld, '', None)


# ------------------------------------------------------------ operations ---
def operation(C, P, f):
    ps = [p for p in C.run(f) if not p.aborted and not impossible(p.decisions)]
    kinds = {'incorporate': 1, 'unincorporate': -1}
    for p in ps:
        e = effect(p)
        name = f['q']
        if e == 'unknown':
            raise Odd('effect on the partition')
        ok = not isinstance(e, str)
        C.ob(ok, '%s|%s' % (name, e if not ok else 'in step'), '%s: %s' % (name, e), f, p)
        if ok and f['name'] in kinds:
            seen = has_member(p, f)
            C.ob(e == kinds[f['name']] or e == 0 and seen is not None and seen == (f['name'] == 'incorporate'),
                 '%s|effect' % name, '%s %s' % (name, {0: 'changes nothing', 1: 'seats a member', -1: 'unseats a member'}[e]),
                 f, p)
        elif ok and f.get('const'):
            C.ob(e == 0, '%s|effect' % name, '%s changes the partition' % name, f, p)


def has_member(p, f):
    """The decision whether the item was already seated, if the path makes one."""
    for a, b in p.decisions:
        if a[0] == 'contains' and a[1] == AS:
            return b
    return None


def net_ops(ops):
    """Drop an insertion followed by the deletion of the same key and v.v."""
    out = []
    for o in ops:
        if o[0] in ('prior', 'touch'):
            continue
        out.append(o)
    return out


def effect(p):
    """+1, -1 or 0 members, or a string naming the disagreement."""
    d = mk_sub(p.store.get(NN, NN), NN)
    a = p.store.get(AS, AS)
    aops = net_ops(a[2]) if a[0] == 'cont' and a[1] == AS else (None if a != AS else [])
    if aops and len(aops) == 1 and p.store.get(NN) == ('size', AS, ONE):
        d = ONE if aops[0][0] in ('put', 'ins') else n(-1)      # counted again
    if aops is None:
        return 'unknown'
    puts = [o for o in aops if o[0] in ('put', 'ins')]
    dels = [o for o in aops if o[0] == 'del']
    if len(puts) + len(dels) != len(aops):
        return 'unknown'
    sets = {}
    t = p.store.get(TB, TB)
    tops = net_ops(t[2]) if t[0] == 'cont' and t[1] == TB else (None if t != TB else [])
    if tops is None:
        return 'unknown'
    # member-set changes in order of the trace
    ins, rem, created, erased = [], [], [], []
    emptied = {}
    for ev, loops, g in events(p.trace):
        if ev[0] in ('ins', 'put') and under_tables(ev[1]):
            if loops:
                return 'unknown'
            ins.append((key_of(ev[1]), ev[2]))
        elif ev[0] == 'del' and under_tables(ev[1]):
            if loops:
                return 'unknown'
            rem.append((key_of(ev[1]), ev[2]))
        elif ev[0] in ('put', 'ins') and ev[1] == TB:
            v = ev[3] if len(ev) > 3 else None
            members = content_items(v)
            if members is None:
                return 'unknown'
            created.append(ev[2])
            for m in members:
                ins.append((ev[2], m))
        elif ev[0] == 'del' and ev[1] == TB:
            erased.append(ev[2])
        elif ev[0] in ('clear', 'assign', 'swap', 'merge', 'resize') and (ev[1] == TB or under_tables(ev[1])):
            return 'unknown'
        elif ev[0] == 'br':
            k, val = emptiness(ev[1], ev[2], rem)
            if k is not None:
                emptied[k] = val
    n_put = len(puts)
    k = n_put - len(dels)
    if not aops and not ins and not rem and not created and not erased:
        return 0 if d == ZERO else 'the member count changes but no member is seated or unseated'
    if n_put == 1 and not dels:
        item, table = puts[0][1], puts[0][2] if len(puts[0]) > 2 else None
        if d != ONE:
            return 'a member is seated but the member count changes by %s' % pp(d)
        if rem or erased:
            return 'seating a member also removes members or tables'
        if len(ins) != 1:
            return 'a member is assigned a table but listed at %d tables' % len(ins)
        if ins[0][1] != item:
            return 'the member listed is not the member assigned'
        if ins[0][0] != table:
            return 'the member is listed at another table than the one assigned'
        for c in created:
            if c != table:
                return 'a table without members is created'
            # replacing the member set is right only for a table that is not there
            known = [b for a2, b in p.decisions if a2 == ('contains', TB, c)]
            if not (known and known[-1] is False) and not only_if_absent(p, c):
                return 'an existing table may be replaced by an empty one'
        return 1
    if len(dels) == 1 and not n_put:
        item = dels[0][1]
        if d != n(-1):
            return 'a member is unseated but the member count changes by %s' % pp(d)
        if ins or created:
            return 'unseating a member also adds members or tables'
        want = ('at', AS, item)
        if len(rem) > 1 or (not rem and not erased):
            return 'a member loses its table but stays listed'
        for key, m in rem:
            if m != item:
                return 'the member removed from its table is not the member unassigned'
            if key != want:
                return 'the member is removed from another table than its own'
        for e in erased:
            if e != want:
                return 'a table other than the member\'s own is erased'
        st = emptied.get(want)
        if erased:
            if st is False:
                return 'an occupied table is erased'
            if st is None:
                return 'a table is erased without knowing it is empty'
        else:
            if st is True:
                return 'an emptied table is kept'
            if st is None:
                return 'a table is kept that may have become empty'
        return -1
    if n_put == 1 and len(dels) == 1 and puts[0][1] == dels[0][1]:
        return 'unknown'
    return 'unknown'


def only_if_absent(p, c):
    return any(ev[0] in ('put', 'ins') and ev[1] == TB and ev[2] == c and 'absent' in ev for ev in p.trace)


def under_tables(l):
    return l[0] == 'at' and l[1] == TB


def key_of(l):
    return l[2]


def content_items(v):
    if v is None:
        return []
    if v[0] == 'cont' and v[1] == ('empty',):
        out = []
        for o in v[2]:
            if o[0] == 'ins':
                out.append(o[1])
            else:
                return None
        return out
    if v[0] in ('empty',):
        return []
    if v[0] == 'list':
        return list(v[1])
    if v[0] in ('obj', 'ctor', 'tmp') and len(v) <= 2:
        return []
    return None


def emptiness(a, b, rem):
    """Does a branch decide whether the table is empty after the removal?"""
    after = {k for k, _ in rem}
    if a[0] == 'empty' and under_tables(a[1]):
        k = a[1][2]
        if k in after:
            return k, b
        return (k, False) if b else (None, None)
    if a[0] == 'eq' and a[1][0] == 'n':
        a = ('eq', a[2], a[1])
    if a[0] == 'eq' and a[1][0] == 'size' and under_tables(a[1][1]) and a[2][0] == 'n':
        k = a[1][1][2]
        c = a[2][1]
        if k in after and c == 0 or k not in after and c == 1:
            return k, b
    if a[0] in ('lt', 'le'):
        # size < 1, size <= 0 (after); 0 < size; size <= 1 (before)
        x, y = a[1], a[2]
        for s, o, left in ((x, y, True), (y, x, False)):
            if s[0] == 'size' and under_tables(s[1]) and o[0] == 'n':
                k = s[1][2]
                c = o[1]
                lim = 0 if k in after else 1
                if left:
                    top = c - 1 if a[0] == 'lt' else c      # size <= top
                    if top == lim:
                        return k, b
                else:
                    low = c + 1 if a[0] == 'lt' else c      # size >= low
                    if low == lim + 1:
                        return k, not b
    return None, None


# --------------------------------------------------------------- weights ---
class Scene:
    """Sizes: T is the table in question, K any other table."""

    def __init__(self, kind, par, top='T', alone=False):
        self.alone = alone        # T is the only table
        self.kind = kind          # empty, single, multi
        self.par = par
        self.top = top            # which of the two has the largest label

    def key(self, t, m):
        if self.par is not None and t == self.par:
            return 'T'
        if t == ('keyT',):
            return 'T'
        if t == ('keyK',):
            return 'K'
        if t == mk_add(('lastkey', TB), ONE) and self.kind != 'empty':
            return 'F'
        if self.kind == 'empty' and t[0] == 'n':
            return 'F'
        if t[0] == 'lastkey':
            if t[1] == TB:
                if self.kind == 'empty':
                    raise Odd('largest label of no table')
                return self.top
            mm = self.build(t[1]) if t[1][0] == 'cont' else m
            for k in ('F', self.top, 'T', 'K'):
                if k in mm:
                    return k
            raise Odd('largest label of the result')
        if t == ('size', TB) or t[0] == 'add' and ('size', TB) in t[1]:
            return 'S'
        for k, v in (('T', self.label('T')), ('K', self.label('K')), ('F', self.label('F'))):
            if t[0] == 'add' and mk_sub(self.lin(t, m), v) == ZERO and (k != 'F' or 'F' in m or self.kind != 'empty'):
                return k
        if t[0] == 'add':
            return 'X'
        raise Odd('label %s' % pp(t)[:60])

    def label(self, k):
        """The label of a table, relative to that of T."""
        K = ('lT',) if k != 'K' and not (k == 'F' and self.top == 'K') else \
            mk_add(('lT',), ('gap',) if self.top == 'K' else mk_mul(n(-1), ('gap',)))
        return mk_add(K, ONE) if k == 'F' else K

    def lin(self, t, m):
        if t[0] == 'n':
            return t
        if t[0] == 'add':
            return mk_add(*[self.lin(x, m) for x in t[1]])
        if t[0] == 'mul' and t[1][0][0] == 'n' and len(t[1]) == 2:
            return mk_mul(t[1][0], self.lin(t[1][1], m))
        return self.label(self.key(t, m))

    def ordered(self, t):
        return any(self.iskey(x) or x[0] == 'lastkey' for x in subterms(t) if isinstance(x, tuple) and x)

    def num(self, t, m):
        """Value as (coefficients)."""
        if t[0] == 'n':
            return t
        if t == AL:
            return AL
        if t[0] == 'size' and t[1][0] == 'at' and t[1][1] == TB:
            k = self.key(t[1][2], m)
            return {'T': n(1) if self.kind == 'single' else ('sT',), 'K': ('sK',)}.get(k) or self.odd(t)
        if t[0] == 'at' and t[1][0] in ('cont',):
            mm = self.build(t[1])
            k = self.key(t[2], mm)
            if k in mm:
                return mm[k]
            raise Odd('missing entry')
        if t[0] == 'at' and t[1][0] == 'var':
            k = self.key(t[2], m)
            if k in m:
                return m[k]
            raise Odd('missing entry')
        if t[0] == 'acc':
            return self.num(t[2], m)
        if t[0] == 'size' and t[1][0] == 'cont':
            k = self.build(t[1])
            return mk_add(n(len(k)), ('more',)) if 'K' in k else n(len(k))
        if t[0] == 'add':
            return mk_add(*[self.num(x, m) for x in t[1]])
        if t[0] == 'mul':
            return mk_mul(*[self.num(x, m) for x in t[1]])
        if t[0] == 'cond':
            return self.num(t[2] if self.holds(t[1], m) else t[3], m)
        if t[0] in ('eq', 'ne', 'lt', 'le', 'not', 'and', 'or', 'b'):
            return n(1 if self.holds(t, m) else 0)
        if t[0] == 'fn' and len(t) == 3:
            return self.num(t[2], m)
        return self.odd(t)

    def odd(self, t):
        raise Odd('value %s' % pp(t)[:60])

    def holds(self, a, m=None):
        m = m if m is not None else {}
        if a[0] == 'b':
            return a[1]
        if a[0] == 'not':
            return not self.holds(a[1], m)
        if a[0] == 'and':
            return all(self.holds(x, m) for x in a[1:])
        if a[0] == 'or':
            return any(self.holds(x, m) for x in a[1:])
        if a[0] == 'empty' and a[1] == TB:
            return self.kind == 'empty'
        if a[0] == 'contains' and a[1] == TB:
            k = self.key(a[2], m)
            return k in ('T', 'K') and self.kind != 'empty'
        if a[0] == 'contains' and a[1][0] == 'cont':
            return self.key(a[2], m) in self.build(a[1])
        if a[0] in ('lt', 'le', 'eq', 'ne') and (self.ordered(a[1]) or self.ordered(a[2])) and not any(
                x[0] in ('size', 'at') for y in a[1:] for x in subterms(y) if isinstance(x, tuple) and x and x[0] != 'lastkey'
                and not any(x in set(subterms(z)) for z in self.lasts(y))):
            d = mk_sub(self.lin(a[1], m), self.lin(a[2], m))
            return self.decide(a[0], d, a)
        if a[0] in ('eq', 'ne') and self.iskey(a[1]) and self.iskey(a[2]):
            r = self.key(a[1], m) == self.key(a[2], m)
            return r == (a[0] == 'eq')
        if a[0] in ('eq', 'ne', 'lt', 'le'):
            x, y = a[1], a[2]
            if NN in (x, y) or ('size', TB) in (x, y):
                v = 0 if self.kind == 'empty' else None
                o = y if x in (NN, ('size', TB)) else x
                if o == ZERO:
                    big = self.kind != 'empty'
                    if a[0] == 'eq':
                        return not big
                    if a[0] == 'ne':
                        return big
                    if a[0] == 'lt':
                        return big if x == ZERO else False
                    return True if x == ZERO else not big
                if NN not in (x, y):
                    size = ZERO if self.kind == 'empty' else ONE if self.alone else mk_add(n(2), ('more',))
                    return self.decide(a[0], mk_sub(*[size if z == ('size', TB) else self.num(z, m) for z in (x, y)]), a)
                if self.alone:
                    size = n(1) if self.kind == 'single' else ('sT',)
                    return self.decide(a[0], mk_sub(*[size if z == NN else self.num(z, m) for z in (x, y)]), a)
                if o == ONE and a[0] in ('lt', 'le'):
                    if a[0] == 'lt' and y == ONE:
                        return self.kind == 'empty'
                    if a[0] == 'le' and x == ONE:
                        return self.kind != 'empty'
                raise Odd('condition on the count')
            return self.decide(a[0], mk_sub(self.num(x, m), self.num(y, m)), a)
        raise Odd('condition %s' % pp(a)[:60])

    def lasts(self, t):
        return [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'lastkey']

    @staticmethod
    def decide(op, d, a):
        s = sign(d)
        if s is None:
            raise Odd('condition %s' % pp(a)[:60])
        lo, hi = s
        if op in ('eq', 'ne'):
            if lo == hi == 0:
                return op == 'eq'
            if lo > 0 or hi < 0:
                return op == 'ne'
            raise Odd('open: %s' % pp(a)[:60])
        if op == 'lt':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        else:
            if hi <= 0:
                return True
            if lo > 0:
                return False
        raise Odd('open: %s' % pp(a)[:60])

    def iskey(self, t):
        return t in (('keyT',), ('keyK',), ('lastkey', TB), self.par)

    def consistent(self, dec):
        for a, b in dec:
            try:
                if self.holds(a) != b:
                    return False
            except Odd as e:
                if not str(e).startswith('open:'):
                    raise       # both outcomes occur otherwise
        return True

    def build(self, v):
        if v == TB or v[0] not in ('cont', 'list', 'empty'):
            raise Odd('map %s' % pp(v)[:60])
        m = {}
        if v[0] == 'list':
            for x in v[1]:
                if x[0] != 'tuple':
                    raise Odd('map')
                m[self.key(x[1], m)] = self.num(x[2], m)
            return m
        if v[0] == 'cont':
            if v[1] != ('empty',):
                m = self.build(v[1])
            self.apply(v[2], m)
        return m

    def apply(self, ops, m):
        for o in ops:
            if o[0] == 'put':
                m[self.key(o[1], m)] = self.num(o[2], m)
            elif o[0] == 'ins' and len(o) > 2:
                k = self.key(o[1], m)
                if k not in m:
                    m[k] = self.num(o[2], m)
            elif o[0] == 'del':
                m.pop(self.key(o[1], m), None)
            elif o[0] == 'each':
                k = o[1]
                if k[0] != 'key' or k[2] != TB:
                    raise Odd('loop over %s' % pp(k)[:40])
                if self.kind == 'empty':
                    continue
                for c in ('keyT',) if self.alone else ('keyT', 'keyK'):
                    from sa.interp import subst
                    for dec, sub, how in o[2]:
                        dec = [(subst(a, {k: (c,)}), b) for a, b in dec]
                        if not all(self.holds(a, m) == b for a, b in dec):
                            continue
                        if how not in ('next', 'continue'):
                            raise Odd('loop left early')
                        self.apply(subst(tuple(sub), {k: (c,)}), m)
            elif o[0] in ('prior', 'touch'):
                continue
            else:
                raise Odd('map built with %s' % o[0])


def sign(d):
    """Range of a linear form in sT >= 2, sK >= 1, or None."""
    ts = d[1] if d[0] == 'add' else (d,)
    lo, hi = 0, 0
    for t in ts:
        c, a = 1, t
        if t[0] == 'n':
            lo += t[1]
            hi += t[1]
            continue
        if t[0] == 'mul' and t[1][0][0] == 'n' and len(t[1]) == 2:
            c, a = t[1][0][1], t[1][1]
        if a not in (('sT',), ('sK',), ('gap',), ('more',)):
            return None
        m = {'sT': 2, 'more': 0}.get(a[0], 1)
        if c > 0:
            lo += c * m
            hi = float('inf')
        else:
            hi += c * m
            lo = float('-inf')
    return lo, hi


def show(m):
    nm = {'T': 'its table', 'K': 'another table', 'F': 'the fresh table', 'S': 'label = number of tables', 'X': 'a label that may be in use'}
    return ', '.join('%s: %s' % (nm[k], pp(v)) for k, v in sorted(m.items()))


def results(C, f, par, kinds):
    ps = [p for p in C.run(f, local=True) if not p.aborted]
    for kind, top in [(k, t) for k in kinds for t in (('T', 'K', 'alone') if k != 'empty' else ('T',))]:
        sc = Scene(kind, par, 'T' if top == 'alone' else top, top == 'alone')
        got = []
        for p in ps:
            if sc.consistent(p.decisions):
                got.append((p, sc.build(p.ret)))
        if not got:
            raise Odd('no path for the %s case' % kind)
        for p, m in got:
            yield kind, p, m, sc.alone


def weights(C, P, f):
    for kind, p, m, alone in results(C, f, None, ('empty', 'multi')):
        if kind == 'empty':
            want = {'F': AL}
        else:
            want = {'T': ('sT',), 'K': ('sK',), 'F': AL}
            if alone:
                del want['K']
        C.ob(m == want, '%s|%s' % (f['q'], kind), 'offers %s' % show(m), f, p)


def gibbs(C, P, f):
    par = ('p', f['params'][0]['name'])
    for kind, p, m, alone in results(C, f, par, ('single', 'multi')):
        if kind == 'multi':
            wants = [{'T': mk_sub(('sT',), ONE), 'K': ('sK',), 'F': AL}]
        else:
            wants = [{'T': AL, 'K': ('sK',)}, {'F': AL, 'K': ('sK',)}]
        ok = m in [{k: v for k, v in w.items() if k != 'K' or not alone} for w in wants]
        C.ob(ok, '%s|%s' % (f['q'], kind), 'for a member at a %s table it offers %s' %
             ({'single': 'singleton', 'multi': 'shared'}[kind], show(m)), f, p)


# --------------------------------------------------------------- callers ---
def callers(C, P):
    """The excluded member's own table is the one passed."""
    for k in sorted(P.fns):
        f = P.fns[k]
        if f.get('cls') == 'CRP' or not f.get('body') or f.get('dependent'):
            continue
        if not calls_gibbs(f['body']):
            continue
        try:
            ps = C.run(f, opaque=lambda g: g.get('repo', True) and g.get('name') not in
                       ('get_cluster_assignment', 'relation_to_table'))
        except (Broken, RecursionError) as e:
            C.unanalysed.append('%s: %s' % (f['q'], str(e)[:100]))
            continue
        for p in ps:
            for ev, loops, conds in net.calls(p):
                if ev[1] == 'CRP::tables_weights_gibbs' and ev[3]:
                    o, a = ev[2], ev[3][0]
                    good = a[0] == 'at' and a[1] == ('f', o, 'assignments')
                    other = a[0] == 'at' and a[1][0] == 'f' and a[1][2] in ('assignments', 'tables')
                    if not good and not other and a[0] not in ('n', 'p', 'add', 'lastkey'):
                        C.note('%s: the table passed is %s' % (f['q'], pp(a)[:60]))
                        continue
                    if a[0] == 'p' and (f.get('cls') or '') == '':
                        continue
                    C.ob(good, '%s|excludes the moved member' % f['q'],
                         '%s excludes a member from table %s, which is not the table of a member' % (f['q'], pp(a)[:60]),
                         f, p)


def calls_gibbs(x):
    if isinstance(x, dict):
        if x.get('k') == 'call' and isinstance(x.get('f'), dict) and x['f'].get('q') == 'CRP::tables_weights_gibbs':
            return True
        return any(calls_gibbs(v) for v in x.values() if isinstance(v, (dict, list)))
    if isinstance(x, list):
        return any(calls_gibbs(v) for v in x)
    return False


if __name__ == '__main__':
    rule.main('C06', main)
