"""C13: owned objects are released exactly once and never used afterwards."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main, islocal
from sa.interp import Interp, pp
from sa.load import Broken
from sa.place import walk, strip

RULE = ('Owners are the fields whose elements a destructor deletes on every path.  On every path of every function that allocates, '
        'releases, or changes an owner: each fresh object (new, malloc, or the result of a function that returns one) is released '
        'with the matching operation, handed to an owner, or returned, exactly once; an element taken out of an owner is deleted or '
        'kept by another owner on that path, and a deleted element leaves its owner; nothing calls into or reads an object after its '
        'deletion; what is deleted through a base pointer has a virtual destructor; classes that delete in their destructor are never '
        'copied member-wise.')

HALF = ('stays', 'lost', 'overwritten')
BUILTIN = {'malloc': 'free', 'calloc': 'free', 'strdup': 'free'}


def bare(t):
    """A term without alternatives, conversions and versions."""
    while isinstance(t, tuple) and t:
        if t[0] in ('alt', 'altp', 'as', 'addr', 'deref') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'ctor' and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'cast':
            t = t[-1]
        elif t[0] == 'acc' and len(t) == 3:
            t = t[2]
        elif t[0] == 'call' and len(t) > 4:
            t = t[:4]
        else:
            break
    if isinstance(t, tuple):
        return tuple(bare(x) if isinstance(x, tuple) else x for x in t)
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def field(loc):
    """The (last) field a location belongs to, elements stripped."""
    l = bare(loc)
    while isinstance(l, tuple) and l and l[0] in ('at', 'elt', 'alt', 'acc'):
        l = l[1] if l[0] != 'acc' else l[2]
    return l if isinstance(l, tuple) and l and l[0] == 'f' else None


class C13:
    def __init__(self):
        self.C = Check('C13', RULE, ['objects handed to a parameter the callee neither stores nor deletes stay with the caller'],
                       min_obligations=40)
        self.P = self.C.P
        self.fns = {k: f for k, f in self.P.fns.items() if f.get('body') is not None and not f['file'].endswith('_test.cc') and
                    'playground' not in f['file']}
        self.nodes = {k: list(walk([f['body'], [i.get('e') for i in f.get('inits') or ()]])) for k, f in self.fns.items()}
        self.alloc = set()      # qualified names of functions that return fresh objects
        self.takes = {}         # function key -> parameter names it deletes or stores in an owner
        self.cache = {}

    # ------------------------------------------------------------ basics ---
    def names(self, k):
        return {(x.get('f') or {}).get('q') for x in self.nodes[k] if x.get('k') == 'call' and isinstance(x.get('f'), dict)}

    def direct(self, k):
        return any(x.get('k') in ('new', 'delete') or x.get('k') == 'call' and not (x.get('f') or {}).get('repo') and
                   (x.get('f') or {}).get('name') in ('malloc', 'free', 'calloc', 'realloc') for x in self.nodes[k])

    def deletes_param(self, k):
        f = self.fns[k]
        ids = {p['id'] for p in f['params']}
        return any(x.get('k') == 'delete' and strip(x['e']).get('id') in ids for x in self.nodes[k])

    def paths(self, k, inline=frozenset()):
        key = (k, inline)
        if key not in self.cache:
            f = self.fns[k]
            me = f['q']

            def opq(g):
                if g.get('q') == me or g.get('virtual') or g.get('ctor') or g.get('dtor'):
                    return True
                if g.get('key') in inline:
                    return False
                if g.get('q') in self.alloc or g.get('key') not in self.fns:
                    return True
                if self.deletes_param(g['key']):
                    return False
                if self.direct(g['key']) or self.names(g['key']) & self.alloc:
                    return True
                return len(self.nodes[g['key']]) > 60
            try:
                I = Interp(self.P, opaque=opq)
                self.cache[key] = [p for p in I.run(f) if not p.aborted]
            except (Broken, RecursionError) as e:
                self.cache[key] = None
                self.C.unanalysed.append('%s: %s' % (f['q'], str(e)[:120]))
        return self.cache[key]

    # ------------------------------------------------------------ owners ---
    def owners(self):
        """(class, field) deleted by the destructor, with the paths that do not."""
        own = {}
        for k, f in self.fns.items():
            if not f.get('dtor'):
                continue
            cls = f['q'].split('::')[0]
            ps = self.paths(k)
            for p in ps or ():
                for lvl in self.levels(p.trace, (), p.decisions):
                    tr, loops, dec = lvl
                    for ev in tr:
                        if ev[0] == 'delete' and field(ev[1]):
                            own.setdefault((cls, field(ev[1])[2]), {'f': f, 'skip': None})
            # every element, on every path
            for p in ps or ():
                for (c, n), d in own.items():
                    if c == cls and not self.alldel(p.trace, n):
                        d['skip'] = d['skip'] or p
        return own

    def alldel(self, tr, n):
        for ev in tr:
            if ev[0] == 'delete' and field(ev[1]) and field(ev[1])[2] == n:
                return True
            if ev[0] == 'br' and any(s[0] == 'f' and s[2] == n for s in subterms(bare(ev[1])) if len(s) > 2) and self.nulltest(ev[1], n, ev[2]):
                return True
            if ev[0] == 'loop' and ev[2] and any(self.mentions(b[0], n) for b in ev[2]) and \
                    all(self.alldel(b[0], n) for b in ev[2]):
                return True
        return False

    def mentions(self, tr, n):
        return any(ev[0] == 'delete' and field(ev[1]) and field(ev[1])[2] == n or
                   ev[0] == 'loop' and any(self.mentions(b[0], n) for b in ev[2]) for ev in tr)

    @staticmethod
    def nulltest(c, n, truth):
        """The branch taken says the pointer is null."""
        c = bare(c)
        if c[0] == 'eq':
            return truth and any(x[0] in ('null', 'n') for x in c[1:3] if isinstance(x, tuple))
        if c[0] == 'not':
            return C13.nulltest(c[1], n, not truth)
        return not truth and field(c) is not None and c[0] in ('f', 'at')

    def levels(self, trace, loops=(), dec=()):
        """Each straight-line level: the path itself and every loop body path."""
        yield [e for e in trace], loops, dec
        for ev in trace:
            if ev[0] == 'loop':
                for tr, d, how in ev[2]:
                    yield from self.levels(tr, loops + (ev[1],), tuple(dec) + tuple(d))

    # ------------------------------------------------------------- allocs ---
    def fresh(self, ev):
        """The fresh object an event creates."""
        if ev[0] == 'new':
            return bare(ev[1])
        if ev[0] == 'call' and (ev[1] in self.alloc or ev[1] in BUILTIN):
            return bare(('call',) + ev[1:4])
        return None

    def isfresh(self, v):
        v = bare(v)
        return v[:1] == ('new',) or v[:1] == ('call',) and v[1] in self.alloc

    def allocators(self):
        while True:
            n = len(self.alloc)
            for k, f in self.fns.items():
                if f['q'] in self.alloc or f.get('ctor') or f.get('dtor'):
                    continue
                t = self.P.type(f['ret'])
                if t['k'] == 'ptr' or 'Variant' in t['s'] or 'variant' in t['s'] and '*' in t['s']:
                    pass
                else:
                    continue
                if not (self.direct(k) or self.names(k) & self.alloc):
                    continue
                ps = self.paths(k)
                vs = [p.exit[1] for p in ps or () if p.exit[0] == 'ret' and len(p.exit) > 1]
                if vs and all(self.isfresh(v) for v in vs):
                    self.alloc.add(f['q'])
            if len(self.alloc) == n:
                return
            self.cache.clear()

    def handover(self, v, t):
        """v is a constructor argument of the object t, which owns it."""
        if t[:1] != ('new',) or not isinstance(t[2], tuple):
            return False
        cls = t[1].split('<')[0].split('::')[-1]
        for i, a in enumerate(t[2]):
            if bare(a) == v:
                for f in self.fns.values():
                    if f.get('ctor') and f['q'].split('::')[0] == cls and i < len(f['params']):
                        pid = f['params'][i]['id']
                        for z in f.get('inits') or ():
                            e = z.get('e') or {}
                            while e.get('k') in ('cast', 'initlist', 'ctor') and (e.get('e') or len(e.get('args') or e.get('elts') or ()) == 1):
                                e = e.get('e') or (e.get('args') or e.get('elts'))[0]
                            if e.get('id') == pid and (cls, z.get('field') or z.get('name')) in self.own:
                                return True
                        for x in self.nodes[f['key']]:
                            if x.get('k') == 'assign' and strip(x.get('rhs')).get('id') == pid and \
                                    (cls, strip(x['lhs']).get('name')) in self.own:
                                return True
        return False

    # -------------------------------------------------------------- paths ---
    def flat(self, tr):
        """Events of a level and of everything nested in it."""
        for ev in tr:
            if ev[0] == 'loop':
                for b in ev[2]:
                    yield from self.flat(b[0])
            else:
                yield ev

    def judge(self, k, inline=frozenset()):
        """Problems of one function: [(kind, construct, message, where, path)]."""
        f = self.fns[k]
        out = []
        ps = self.paths(k, inline)
        isd = bool(f.get('dtor'))
        for p in ps or ():
            self.level(f, p, p.trace, (), p, isd, out, p.exit)
        return out

    def level(self, f, p, tr, after, path, isd, out, exit):
        for i, ev in enumerate(tr):
            if ev[0] == 'loop':
                for b in ev[2]:
                    self.level(f, p, b[0], tuple(tr[i + 1:]) + tuple(after), path, isd, out, exit)
        made = {}
        for i, ev in enumerate(tr):
            v = self.fresh(ev)
            if v is not None:
                made.setdefault(v, []).append((i, ev))
        for v, evs in made.items():
            self.count += 1
            i = evs[0][0]
            n = 0
            rel = []
            for e in tr[i + 1:]:
                if e[0] == 'loop':
                    # released inside a loop: once only if some round leaves it
                    m = [self.ends(b[0], v, f) for b in e[2]]
                    if any(m):
                        rel.append(('loop', e))
                else:
                    w = self.end(e, v, f)
                    if w:
                        rel.append((w, e))
            if exit[0] == 'ret' and len(exit) > 1 and not after_level(path, tr) and self.within(v, exit[1]):
                rel.append(('return', None))
            # an insertion that finds its key taken keeps nothing
            rel += [('local', e) for e in self.flat(tuple(tr[i + 1:]) + tuple(after))
                    if e[0] == 'br' and e[2] and bare(e[1])[0] == 'contains' and field(bare(e[1])[1]) and
                    (self.fcls(field(bare(e[1])[1]), f), field(bare(e[1])[1])[2]) in self.own and
                    str(e[-1]) in self.inserts(f['key'], path, v)]
            if self.smart(path, v):
                continue
            if not rel:
                # handed on past a loop
                late = []
                for e in self.flat(after):
                    if e[0] == 'delete' and self.holds(e[1], v):
                        late.append(('delete', e))
                    elif e[0] == 'call' and e[1] == 'free' and e[3] and self.holds(e[3][0], v):
                        late.append(('free', e))
                    elif e[0] in ('put', 'set', 'push', 'ins') and any(self.holds(x, v) for x in e[2:-1] if isinstance(x, tuple)) and \
                            not islocal(e[1]):
                        late.append(('store', e))
                    elif e[0] == 'call' and any(self.holds(a, v) for a in e[3]) and self.takenh(e, v):
                        late.append(('store', e))
                    elif e[0] == 'br' and bare(e[1])[0] == 'eq' and any(self.holds(x, v) for x in bare(e[1])[1:]) and e[2] and \
                            any(x == ('null',) for x in bare(e[1])[1:]):
                        late.append(('null', e))
                    elif e[0] in ('push', 'ins', 'put') and any(self.holds(x, v) for x in e[2:-1] if isinstance(x, tuple)):
                        late.append(('local', e))
                if exit[0] == 'ret' and len(exit) > 1 and self.holds(exit[1], v):
                    late.append(('return', None))
                ks = [x[0] for x in late]
                if len([x for x in ks if x in ('delete', 'store', 'return', 'free')]) > 1 and ks.count('delete'):
                    out.append(('kept' if 'store' in ks or 'return' in ks else 'twice', self.label(v),
                                'the %s allocated in %s is %s' % (self.label(v), f['q'], 'deleted and also kept' if 'store' in ks else 'released twice'),
                                [e for w, e in late if w == 'delete'][0][-1], path))
                rel += [('after:' + w, e) for w, e in late]
            name = self.label(v)
            where = evs[0][1][-2] if evs[0][1][0] == 'call' else evs[0][1][-1]
            n = len([r for r in rel if r[0] != 'local'])
            if not rel:
                out.append(('dropped', name, 'the %s allocated in %s is neither released, returned nor given to an owner' % (name, f['q']),
                            where, path))
            elif n < len(evs) and not any(r[0] in ('local', 'loop') or r[0][:6] == 'after:' for r in rel):
                out.append(('dropped', name, '%d of the %s allocated in %s are released' % (n, name, f['q']), where, path))
            kinds = [r[0] for r in rel]
            if kinds.count('delete') + kinds.count('free') > len(evs):
                out.append(('twice', name, 'the %s allocated in %s is released twice' % (name, f['q']), where, path))
            if 'delete' in kinds and ('store' in kinds or 'return' in kinds) and len(evs) == 1 and \
                    not any(e[0] == 'del' for e in tr):
                out.append(('kept', name, 'the %s that %s deletes is also kept' % (name, f['q']), where, path))
            for w, e in rel:
                w = w[6:] if w[:6] == 'after:' else w
                want = 'free' if v[:1] == ('call',) and v[1] in BUILTIN else 'delete'
                if w in ('delete', 'free') and w != want:
                    out.append(('mismatch', name, 'the %s in %s is released with %s' % (name, f['q'], w), e[-1] if w == 'delete' else e[-2], path))
        # releases of what an owner or another object holds
        for i, ev in enumerate(tr):
            if ev[0] == 'call' and ev[1] == 'free' and ev[3]:
                x = bare(ev[3][0])
                if self.isfresh(x) or field(x) and (self.fcls(field(x), f), field(x)[2]) in self.own:
                    if x not in made:
                        out.append(('mismatch', pp(x)[:60], '%s releases an object created by new with free' % f['q'], ev[-2], path))
            if ev[0] != 'delete':
                continue
            x = bare(ev[1])
            self.count += 1
            fl = field(x)
            if fl is not None and not isd and x[0] in ('at', 'f'):
                gone = [e for e in tr if e[0] == 'del' and x[0] == 'at' and bare(e[1]) == x[1] and bare(e[2]) == x[2] or
                        e[0] in ('clear',) and x[0] == 'at' and bare(e[1]) == x[1] or
                        e[0] == 'put' and x[0] == 'at' and bare(e[1]) == x[1] and bare(e[2]) == x[2] or
                        e[0] == 'set' and bare(e[1]) == x]
                gone += [e for e in self.flat(after) if e[0] in ('clear', 'swap', 'set', 'del') and bare(e[1]) == (x[1] if x[0] == 'at' else x)]
                if not gone:
                    out.append(('stays', fl[2], '%s deletes an element of %s and leaves the pointer there' % (f['q'], fl[2]), ev[-1], path))
            # uses afterwards
            for e in tr[i + 1:]:
                if e[0] == 'put' and x[0] == 'at' and bare(e[1]) == x[1] and bare(e[2]) == x[2]:
                    break
                if e[0] == 'set' and bare(e[1]) == x:
                    break
                for g in (self.flat((e,))):
                    if g[0] == 'call' and g[2] is not None and bare(g[2]) == x or \
                            g[0] in ('set', 'put', 'del', 'push', 'ins') and any(s == x for s in owners_of(bare(g[1]))) or \
                            g[0] == 'br' and any(len(s) > 2 and s[0] == 'f' and was(s[1]) == x for s in subterms(bare(g[1]))):
                        out.append(('used', self.label(x), '%s uses %s after deleting it' % (f['q'], self.label(x)), g[-2] if g[0] == 'call' else g[-1], path))
                        break
                    if g[0] == 'delete' and bare(g[1]) == x and x not in made:
                        out.append(('twice', self.label(x), '%s deletes %s twice' % (f['q'], self.label(x)), g[-1], path))
                        break
        # elements taken out of an owner
        for i, ev in enumerate(tr):
            fl = field(ev[1]) if ev[0] in ('del', 'clear') and isinstance(ev[1], tuple) else None
            if fl is None or bare(ev[1]) != fl or (self.fcls(fl, f), fl[2]) not in self.own:
                continue
            self.count += 1
            if ev[0] == 'clear':
                ok = any(e[0] == 'loop' and e[2] and all(any(g[0] == 'delete' and field(g[1]) == fl for g in b[0]) for b in e[2]) for e in tr) or isd
                x = fl
            else:
                x = ('at', fl, bare(ev[2]))
                ok = self.kept(x, fl, tr, after, exit)
                if not ok and tr is not path.trace and (x[2][:1] == ('key',) and islocal(x[2][-1]) or
                                                        x[2][:1] == ('at',) and x[2][1][:1] == ('cont',)) and any(
                        g[0] == 'delete' and field(g[1]) == fl for g in self.flat(path.trace)):
                    continue        # the keys were collected by a loop that releases
            if not ok:
                out.append(('lost', fl[2], '%s takes an element out of %s without releasing it' % (f['q'], fl[2]), ev[-1], path))
        # elements overwritten
        for i, ev in enumerate(tr):
            fl = field(ev[1]) if ev[0] == 'put' and isinstance(ev[1], tuple) else None
            if fl is None or bare(ev[1]) != fl or (self.fcls(fl, f), fl[2]) not in self.own:
                continue
            self.count += 1
            had = [e for e in tr[:i] if e[0] == 'br' and bare(e[1]) == ('contains', fl, bare(ev[2]))]
            out_ = [e for e in tr[:i] if e[0] in ('del', 'delete') and (bare(e[1]) == fl and bare(e[2]) == bare(ev[2]) if e[0] == 'del' else
                                                                       bare(e[1]) == ('at', fl, bare(ev[2])))]
            if had and had[-1][2] is True and not out_ and not self.kept(('at', fl, bare(ev[2])), fl, tr, after, exit):
                out.append(('overwritten', fl[2], '%s overwrites an element of %s that is there, without releasing it' % (f['q'], fl[2]),
                            ev[-1], path))

    def smart(self, path, v):
        """A local smart pointer was given the object."""
        for k, t in path.store.items():
            if k[0] == 'var' and any(s[0] == 'ctor' and s[1] in ('std::unique_ptr', 'std::shared_ptr') and any(
                    isinstance(y, tuple) and self.within(v, y) for y in s[2:]) for s in subterms(t)):
                return True
        return False

    def kept(self, x, fl, tr, after, exit):
        for e in list(self.flat(tr)) + list(self.flat(after)):
            if e[0] == 'delete' and self.same(bare(e[1]), x):
                return True
            if e[0] in ('put', 'set', 'push', 'ins') and any(self.same(s, x) for y in e[2:4] if isinstance(y, tuple) for s in subterms(bare(y))):
                return True
            if e[0] == 'call' and any(self.same(bare(a), x) for a in e[3]) and self.taken(e, x):
                return True
        return exit[0] == 'ret' and len(exit) > 1 and self.within(x, exit[1])

    def same(self, a, b):
        return a == b

    def fcls(self, fl, f):
        """The class that declares the field (by its base object's dynamic name)."""
        n = fl[2]
        base = fl[1]
        if base == ('this',):
            return f['q'].split('::')[0]
        cs = {c for c, m in self.own if m == n}
        return cs.pop() if len(cs) == 1 else None

    def taken(self, e, v):
        g = e[-1] if isinstance(e[-1], str) else None
        for i, a in enumerate(e[3] or ()):
            if bare(a) == v:
                for k in ([g] if g in self.fns else []):
                    ps = self.fns[k]['params']
                    if i < len(ps) and ps[i]['name'] in self.takes.get(k, ()):
                        return True
        return False

    def end(self, e, v, f):
        """How the event e ends the caller's ownership of v."""
        if e[0] == 'delete' and bare(e[1]) == v:
            return 'delete'
        if e[0] == 'call' and e[1] == 'free' and e[3] and bare(e[3][0]) == v:
            return 'free'
        if e[0] in ('put', 'set', 'push', 'ins', 'vinsert') and isinstance(e[1], tuple):
            if any(self.within(v, x) for x in e[2:-1] if isinstance(x, tuple)):
                if islocal(e[1]):
                    return 'local' if e[0] != 'set' else None
                fl = field(e[1])
                if fl and not ((self.fcls(fl, f), fl[2]) in self.own) and bare(e[1])[0] == 'f' and bare(e[1]) == fl:
                    c = self.fcls(fl, f)
                    if c is not None or fl[1] == ('this',):
                        return None
                return 'store'
        if e[0] == 'new' and self.handover(v, bare(e[1])):
            return 'store'
        if e[0] == 'call' and self.taken(e, v):
            return 'store'
        return None

    def inserts(self, k, path, v):
        """Where some path of the function puts v into an owner."""
        m = self.__dict__.setdefault('insm', {})
        if (k, v) not in m:
            got = m[k, v] = set()
            for p in self.paths(k) or ():
                for e in self.flat(p.trace):
                    if e[0] == 'put' and field(e[1]) and bare(e[1]) == field(e[1]) and any(self.holds(x, v) for x in e[2:-1] if isinstance(x, tuple)):
                        got.add(str(e[-1]))
        return m[k, v]

    def holds(self, t, v):
        """t is v, or what a loop left in a variable and may be v."""
        t = bare(t)
        if t == v:
            return True
        if isinstance(t, tuple) and t[:1] == ('last',):
            return any(self.holds(x[-1], v) for x in t[2] if isinstance(x, tuple) and x) or self.holds(t[3], v)
        if isinstance(t, tuple) and t and t[0] in ('tuple', 'struct', 'ctor'):
            return any(self.holds(x, v) for x in t[1:] if isinstance(x, tuple))
        return False

    def takenh(self, e, v):
        return any(self.taken((e[0], e[1], e[2], tuple(v if self.holds(a, v) else a for a in e[3]), e[-2], e[-1]), v) for _ in (0,))

    def ends(self, tr, v, f):
        return any(self.end(e, v, f) for e in self.flat(tr))

    @staticmethod
    def within(v, t):
        t = bare(t)
        if t == v:
            return True
        if isinstance(t, tuple) and t and t[0] in ('tuple', 'struct', 'ctor', 'pair', 'cont'):
            return any(s == v for s in subterms(t))
        return False

    @staticmethod
    def label(v):
        if v[:1] == ('new',):
            return v[1].split('<')[0]
        if v[:1] == ('call',):
            return 'result of ' + v[1]
        fl = field(v)
        return 'an element of %s' % fl[2] if fl and v[0] == 'at' else pp(v)[:60]

    # ---------------------------------------------------------------- run ---
    def params_taken(self):
        for k, f in self.fns.items():
            if f.get('ctor') or not any(self.P.type(p['t'])['k'] == 'ptr' or 'Variant' in self.P.type(p['t'])['s'] for p in f['params']):
                continue
            if not any(x.get('k') == 'delete' or x.get('k') == 'member' and any(x.get('name') == n for _, n in self.own) for x in self.nodes[k]):
                continue
            for p in self.paths(k) or ():
                for e in self.flat(p.trace):
                    if e[0] == 'delete' and bare(e[1])[:1] == ('p',):
                        self.takes.setdefault(k, set()).add(bare(e[1])[1])
                    if e[0] in ('put', 'set') and field(e[1]) and (self.fcls(field(e[1]), f), field(e[1])[2]) in self.own:
                        for x in e[2:-1]:
                            if isinstance(x, tuple) and bare(x)[:1] == ('p',):
                                self.takes.setdefault(k, set()).add(bare(x)[1])

    def go(self):
        C = self.C
        self.count = 0
        self.allocators()
        self.own = self.owners()
        self.params_taken()
        for (c, n), d in sorted(self.own.items()):
            C.ob(d['skip'] is None, 'C13:%s:destroys %s' % (c, n),
                 'the destructor of %s does not delete every element of %s on every path' % (c, n), d['f'], d['skip'])
        fields = {n for _, n in self.own}
        todo = []
        for k, f in self.fns.items():
            if self.direct(k) or self.names(k) & self.alloc or any(x.get('k') == 'member' and x.get('name') in fields for x in self.nodes[k]):
                todo.append(k)
        probs = {}
        for k in todo:
            f = self.fns[k]
            C.fns.add(k)
            r = self.judge(k)
            C.paths += len(self.paths(k) or ())
            if r:
                probs[k] = r
            C.ob(True, 'C13:%s' % f['q'])
        # a helper that does half of an operation is judged where it is used
        half = frozenset(k for k, r in probs.items() if all(x[0] in HALF for x in r) and not self.fns[k].get('virtual') and
                         not self.fns[k].get('dtor') and not self.fns[k].get('ctor'))
        callers = {}
        for k in self.fns:
            for x in self.nodes[k]:
                if x.get('k') == 'call' and (x.get('f') or {}).get('key') in half and k != x['f']['key']:
                    callers.setdefault(x['f']['key'], set()).add(k)
        done = {}
        again = {k: self.judge(k, half - {k}) for k in set(probs) | {c for s in callers.values() for c in s}} if half else {}
        for k, r in (probs if not half else again).items():
            f = self.fns[k]
            if k in half and r and callers.get(k) and all(x[0] in HALF for x in r) and not any(again.get(c) for c in callers[k]):
                C.note('%s judged at its callers' % f['q'])
                continue
            for x in r:
                done.setdefault((f['q'], x[0], x[1]), (f, x))
        for (q, kind, name), (f, x) in sorted(done.items()):
            C.ob(False, 'C13:%s:%s:%s' % (q, kind, name), x[2], x[3], x[4])
        self.fields_released()
        self.virtuals()
        self.copies()
        C.note('%d objects and owner changes followed; owners: %s; functions returning fresh objects: %s' % (
            self.count, ', '.join('%s::%s' % o for o in sorted(self.own)), ', '.join(sorted(self.alloc))))
        return C.finish()

    def fields_released(self):
        """A field that is given fresh objects is released by its class."""
        C = self.C
        for k, f in self.fns.items():
            for p in self.cache.get((k, frozenset())) or ():
                for e in self.flat(p.trace):
                    if e[0] in ('put', 'set', 'push', 'ins') and isinstance(e[1], tuple) and field(e[1]) and not islocal(e[1]):
                        if any(isinstance(x, tuple) and self.isfresh(x) for x in e[2:-1]):
                            fl = field(e[1])
                            c = self.fcls(fl, f)
                            C.ob((c, fl[2]) in self.own, 'C13:%s given to %s' % (f['q'], fl[2]),
                                 '%s puts a new object into %s, which no destructor releases' % (f['q'], fl[2]), e[-1], p)
        for k, f in self.fns.items():
            if f.get('ctor'):
                for z in f.get('inits') or ():
                    e = strip(z.get('e'))
                    n = z.get('field') or z.get('name')
                    if e.get('k') == 'new' and n:
                        c = f['q'].split('::')[0]
                        C.ob((c, n) in self.own, 'C13:%s given to %s' % (f['q'], n),
                             '%s puts a new object into %s, which its destructor does not release' % (f['q'], n), f)

    def virtuals(self):
        C = self.C
        derived = {}
        recs = {}
        for r in self.P.recs.values():
            recs.setdefault(short(r['q']), r)
            for b in r.get('bases') or ():
                derived.setdefault(short(self.P.type(b)['s']), set()).add(short(r['q']))

        def virt(c, d=0):
            r = recs.get(c)
            return r is not None and d < 8 and (any(m['name'].startswith('~') and m.get('virtual') for m in r['methods']) or
                                                any(virt(short(self.P.type(b)['s']), d + 1) for b in r.get('bases') or ()))
        for k, f in self.fns.items():
            for x in self.nodes[k]:
                if x.get('k') != 'delete':
                    continue
                t = self.P.type(strip(x['e']).get('t'))
                t = self.P.type(t['to']) if t['k'] in ('ptr', 'ref') else t
                t = self.P.type(t['to']) if t['k'] in ('ptr',) else t
                c = t['s'].replace('const ', '').split('<')[0].split('::')[-1]
                if c in derived:
                    C.ob(virt(c), 'C13:%s:delete %s' % (f['q'], c),
                         '%s deletes objects of classes derived from %s, whose destructor is not virtual' % (f['q'], c), (f['file'], x.get('l')))

    def copies(self):
        C = self.C
        own = {c for c, _ in self.own}
        for k, f in self.fns.items():
            for x in self.nodes[k]:
                if x.get('k') == 'ctor' and x.get('copy'):
                    t = self.P.type(x.get('t'))['s'].replace('const ', '').split('<')[0].split('::')[-1]
                    if t in own:
                        g = x.get('f') or {}
                        C.ob(bool(g.get('key') in self.P.fns and self.P.fns[g['key']].get('body')), 'C13:%s:copies %s' % (f['q'], t),
                             '%s copies a %s, whose destructor deletes what both copies point to' % (f['q'], t), (f['file'], x.get('l')))


def short(n):
    return n.replace('const ', '').split('<')[0].split('::')[-1]


def was(t):
    """The element a key that was taken out named."""
    return ('at',) + tuple(t[1:3]) if t[:1] == ('absent',) else t


def after_level(path, tr):
    return tr is not path.trace and tuple(tr) != tuple(path.trace)


def owners_of(l):
    """The objects a location lies in."""
    while isinstance(l, tuple) and l and l[0] in ('f', 'at', 'elt'):
        l = l[1]
        yield l


if __name__ == '__main__':
    main('C13', lambda: C13().go())
