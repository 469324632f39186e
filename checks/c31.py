"""C31: no container is traversed, and no element referred to, past its invalidation."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.place import Places, strip, norm, kids

RULE = ('Every range-for, every local of reference, iterator or pointer type that designates an element of a container, and every '
        'reference parameter bound to one, is followed through the structured control flow of its function together with the structural '
        'effects (erase, clear, assign, insert; interprocedural summaries over places) of every call.  A use that some path reaches after '
        'an effect that invalidates it is a violation: erasing its key or its iterator, wholesale change, growth of a vector, rehash of a '
        'hash table under an iterator.  A loop position is used again at the next round, so leaving the loop, taking the iterator erase '
        'returns, or stepping the iterator before erasing all pass.')


class Track:
    """Something that designates an element."""

    def __init__(self, place, what, node, name):
        self.place, self.what, self.node, self.name = place, what, node, name


class Flow:
    """One function: which tracked variables are invalid where."""

    def __init__(self, chk, f):
        self.c, self.L, self.f = chk, chk.L, f
        self.tr = {}           # variable id (or ('loop', n)) -> Track
        self.loops = []        # (break states, continue states)
        self.reported = set()
        self.after = set()     # effects after which parameter n is used: (n, place, kind, key)
        for n, p in enumerate(f['params']):
            t = self.L.P.type(p['t'])
            if t['k'] == 'ref':
                self.tr[p['id']] = Track((('p', n, p['id']), ()), 'param', p, p['name'])

    # ---------------------------------------------------------- hazards ---
    def hit(self, t, q, kd, key):
        """Does the effect (kd on container q, of key) invalidate t?"""
        L = self.L
        p = t.place
        if p is None or t.what == 'param':
            return None
        if L.may(p, q) != 'yes':
            return None
        _, _, sp = L.terminal(p)
        _, _, sq = L.terminal(q)
        rest = sp[len(sq):]
        if not rest or rest[0][0] != '[':
            return None
        for a, b in zip(sp, sq):
            if a != b and a != '[]' and b != '[]' or (a == '[]') != (b == '[]'):
                return None    # another element of the outer container
            if a == b == '[]':
                return None
        ek = rest[0][1:-1]
        last = len(rest) == 1
        if kd == 'eraseall':
            return 'the whole container changes'
        if kd == 'vinsert':
            return 'the vector may move its elements'
        if kd == 'hinsert' and t.what in ('iter', 'loop') and last:
            if t.what == 'loop' and key and key in t.keys:
                return None    # the element the loop stands at
            return 'the hash table may rehash'
        if kd in ('erase', 'serase'):
            if t.ck == 'vector':
                return 'elements after the erased one move'
            if t.what == 'loop' and last:
                return 'the element the loop stands at may be erased'
            if key and key.startswith('it:'):
                return 'its element is erased' if t.what == 'iter' and key[3:] == '$%s;' % t.id else None
            if key and ek and key == ek:
                return 'its element is erased'
            if key and key in t.keys:
                return 'its element is erased'
        return None

    def effect(self, st, x):
        for q, kd, key, n in self.L.direct(x):
            for i, t in self.tr.items():
                if t.what == 'param':
                    if i not in st:
                        st.setdefault(('eff', i), set()).add((q, kd, key))
                    continue
                if i in st:
                    continue
                why = self.hit(t, q, kd, key)
                self.c.count += 1
                if why:
                    st[i] = (why, n.get('l'), kd)

    def use(self, st, i, x):
        if i in self.tr and i in st:
            self.report(i, st[i], x)
        if i in self.tr and self.tr[i].what == 'param':
            for q, kd, key in st.get(('eff', i), ()):
                self.after.add((self.tr[i].place[0][1], q, kd, key))

    def report(self, i, why, x):
        t = self.tr[i]
        if i in self.reported:
            return
        self.reported.add(i)
        self.c.bad_(self.f, t, why, x)

    # -------------------------------------------------------------- flow ---
    def track(self, v, init, iskind=None):
        L = self.L
        ty = L.P.type(v['t'])
        s = strip(init)
        if ty['k'] == 'ref' or os.environ.get('C31_ALL'):
            p, what = L.place(s), 'ref'
        elif L.isiter(v['t']):
            p, what = L.iter(s), 'iter'
        elif ty['k'] == 'ptr':
            p, what = None, 'ref'
            if s.get('k') == 'un' and s.get('op') == '&':
                p = L.place(s['e'])
            elif s.get('k') == 'call' and (s.get('f') or {}).get('name') in ('get_if', 'addressof') and s.get('args'):
                a = strip(s['args'][0])
                p = L.place(a['e']) if a.get('k') == 'un' and a.get('op') == '&' else None
                if p:
                    p = p[0], p[1] + ('.alt',)
        else:
            return
        if p is None or not any(a[0] == '[' for a in p[1]):
            return
        self.add(v['id'], p, what, v, v.get('name'))

    def add(self, i, p, what, node, name, ck=None, keys=()):
        t = Track(p, what, node, name)
        t.id, t.keys = i, set(keys)
        # the kind of the innermost container it stands in
        t.ck = ck
        self.tr[i] = t
        self.c.tracked.append((self.f['key'], what, name))

    def expr(self, st, e):
        """Evaluate e: uses, then its effect, operands first."""
        if isinstance(e, list):
            for y in e:
                self.expr(st, y)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'var':
            self.use(st, e.get('id'), e)
            return
        if k == 'vardecl':
            self.decl(st, e)
            return
        if k == 'lambda':
            sub = []
            for g in (e.get('specs') or [e['fn']]):
                s2 = dict(st)
                sv, self.loops = self.loops, []
                self.rets, rs = [], getattr(self, 'rets', None)
                out = self.stmt(s2, g.get('body'))
                sub += [o for o in [out] + self.rets if o is not None]
                self.loops, self.rets = sv, rs
            self.merge(st, sub)
            return
        if k == 'cond':
            self.expr(st, e.get('c'))
            a, b = dict(st), dict(st)
            self.expr(a, e.get('a'))
            self.expr(b, e.get('b'))
            st.clear()
            self.merge(st, [a, b])
            return
        if k == 'bin' and e.get('op') in ('&&', '||'):
            self.expr(st, e['lhs'])
            a = dict(st)
            self.expr(a, e['rhs'])
            self.merge(st, [a])
            return
        if k == 'assign' and e.get('op') == '':
            self.expr(st, e.get('rhs'))
            l = strip(e['lhs'])
            if l.get('k') == 'var' and l.get('id') in self.tr and self.tr[l['id']].what == 'iter':
                self.rebind(st, l['id'], e['rhs'])
            elif l.get('k') == 'var' and l.get('id') in self.tr and self.L.isptr(l.get('t')):
                self.rebind(st, l['id'], e['rhs'])
            else:
                self.expr(st, e['lhs'])
            self.effect(st, e)
            return
        if k == 'call' and (e.get('op') == '=' or (e.get('f') or {}).get('name') == 'operator='):
            o = ([e['obj']] if e.get('obj') is not None else []) + (e.get('args') or [])
            l = strip(o[0]) if o else {}
            if l.get('k') == 'var' and self.L.isiter(l.get('t')) and len(o) > 1:
                self.expr(st, o[1])
                self.rebind(st, l['id'], o[1])
                return
        for v in kids(e):
            self.expr(st, v)
        if k in ('call', 'assign'):
            self.params(st, e)
            self.effect(st, e)

    def rebind(self, st, i, rhs):
        st.pop(i, None)

    def merge(self, st, outs):
        for o in outs:
            for k, v in o.items():
                if isinstance(k, tuple) and k[0] == 'eff':
                    st[k] = st.get(k, set()) | v
                else:
                    st.setdefault(k, v)

    def params(self, st, e):
        """Arguments that refer into what the callee invalidates before using them."""
        f = e.get('f')
        if not (isinstance(f, dict) and f.get('key')):
            return
        for t in self.L.targets(f):
            for n, q, kd, key in self.c.paruse.get(t, ()):
                args = e.get('args') or []
                if n >= len(args):
                    continue
                a = strip(args[n])
                pa = self.L.place(a)
                qa = self.L.subst(q, e)
                if pa is None or qa is None:
                    continue
                tr = Track(pa, 'ref', a, a.get('name') or 'argument %d' % (n + 1))
                tr.id, tr.keys, tr.ck = None, set(), None
                me = '$%s;' % self.L.fns[t]['params'][n]['id']
                self.c.count += 1
                if kd == 'serase' and key == me:
                    _, _, sp = self.L.terminal(pa)
                    _, _, sq = self.L.terminal(qa)
                    if len(sp) == len(sq) + 1:
                        qa, kd = (qa[0], qa[1]), 'eraseall'
                if pa[1][-1:] == ('.first',):
                    tr.keys = {self.L.canon(a)} if key == me else set()
                    k2 = self.L.canon(a) if key == me else self.L.ksub(key, e)
                else:
                    k2 = self.L.ksub(key, e)
                why = self.hit(tr, qa, kd, k2)
                if why:
                    self.c.bad_(self.f, tr, (why + ' inside %s before its last use there' % f.get('q'), e.get('l'), kd), e)

    def decl(self, st, v):
        self.expr(st, v.get('init'))
        st.pop(v['id'], None)
        if v.get('init') is not None:
            self.track(v, v['init'])
            for b in v.get('bindings') or ():
                p = self.L.place({'k': 'var', 'id': b['id']})
                if p and self.L.P.type(v['t'])['k'] == 'ref' and any(a[0] == '[' for a in p[1]):
                    self.add(b['id'], p, 'ref', v, b.get('name'))
                    st.pop(b['id'], None)

    def stmt(self, st, x):
        """Returns the state after x, or None when control does not get there."""
        if x is None:
            return st
        if isinstance(x, list):
            for y in x:
                st = self.stmt(st, y)
                if st is None:
                    return None
            return st
        k = x.get('k')
        if k == 'seq':
            return self.stmt(st, x.get('b') or [])
        if k == 'decl':
            for v in x['d']:
                self.expr(st, v) if v.get('k') == 'vardecl' else None
            return st
        if k == 'expr':
            self.expr(st, x.get('e'))
            return st if not self.noret(x.get('e')) else None
        if k == 'return':
            self.expr(st, x.get('e'))
            if getattr(self, 'rets', None) is not None:
                self.rets.append(dict(st))
            return None
        if k == 'throw':
            self.expr(st, x.get('e'))
            return None
        if k == 'break':
            if self.loops:
                self.loops[-1][0].append(dict(st))
            return None
        if k == 'continue':
            if self.loops:
                self.loops[-1][1].append(dict(st))
            return None
        if k == 'assert':
            return st
        if k == 'if':
            for z in ('init', 'cv'):
                y = x.get(z)
                if y is not None:
                    if y.get('k') == 'vardecl':
                        self.expr(st, y)
                    else:
                        st = self.stmt(st, y)
            self.expr(st, x.get('c'))
            a = self.stmt(dict(st), x.get('then'))
            b = self.stmt(dict(st), x.get('else'))
            return self.join([a, b])
        if k == 'foreach':
            self.expr(st, x['range'])
            p = self.L.place(x['range'])
            i = ('loop', x.get('l'), x['var']['id'])
            v = x['var']
            st.pop(i, None)
            if p is not None:
                keys = set()
                isref = self.L.P.type(v['t'])['k'] == 'ref' or os.environ.get('C31_ALL')
                ck = self.L.kind(x.get('rt'))
                names = [b['id'] for b in v.get('bindings') or ()]
                m = 'map' in self.L.T(x.get('rt'))['s'].split('<')[0]
                if names:
                    keys = {'$%s;' % names[0]} if m else set()
                elif m:
                    keys = {'$%s;.first' % v['id']}
                else:
                    keys = {'$%s;' % v['id']}
                if ck:
                    self.add(i, (p[0], p[1] + (self.L.each(x),)), 'loop', v, 'the loop over ' + self.label(x['range']), ck, keys)
                    if isref:
                        for n in names or [v['id']]:
                            self.add(n, (p[0], p[1] + (self.L.each(x),)), 'ref', v, dict(
                                [(b['id'], b.get('name')) for b in v.get('bindings') or ()] + [(v['id'], v.get('name'))])[n], ck, keys)
            exits = [dict(st)]
            for rnd in range(2):
                s2 = dict(st)
                for n in [b['id'] for b in v.get('bindings') or ()] + [v['id']]:
                    s2.pop(n, None)
                if rnd and i in s2:
                    self.use(s2, i, x)
                self.loops.append(([], []))
                out = self.stmt(s2, x['body'])
                br, co = self.loops.pop()
                ends = [s for s in [out] + co if s is not None]
                exits += br + ends
                self.merge(st, ends)
                if i in st:
                    self.use(st, i, x)
            return self.clean(self.join(exits), i)
        if k in ('while', 'do', 'for'):
            if x.get('init') is not None:
                y = x['init']
                st = self.stmt(st, y) if y.get('k') in ('decl', 'seq', 'expr') else (self.expr(st, y), st)[1]
            exits = []
            for rnd in range(2):
                if k != 'do' or rnd:
                    if x.get('cv') is not None:
                        self.expr(st, x['cv'])
                    self.expr(st, x.get('c'))
                    exits.append(dict(st))
                self.loops.append(([], []))
                out = self.stmt(dict(st), x.get('body'))
                br, co = self.loops.pop()
                exits += br
                ends = [s for s in [out] + co if s is not None]
                if not ends:
                    break
                e = ends[0]
                self.merge(e, ends[1:])
                if x.get('inc') is not None:
                    self.expr(e, x['inc'])
                if k == 'do':
                    self.expr(e, x.get('c'))
                    exits.append(dict(e))
                self.merge(st, [e])
            return self.join(exits)
        if k == 'try':
            a = self.stmt(dict(st), x.get('body'))
            outs = [a]
            for h in x.get('handlers') or ():
                outs.append(self.stmt(dict(st), h.get('body') if isinstance(h, dict) else h))
            return self.join(outs)
        if k == 'switch':
            self.expr(st, x.get('c'))
            self.loops.append(([], []))
            out = self.stmt(dict(st), x.get('body'))
            br, co = self.loops.pop()
            if self.loops:
                self.loops[-1][1].extend(co)
            return self.join([st, out] + br)
        if k in ('case', 'default', 'label'):
            for z in ('b', 'body', 'e'):
                if x.get(z) is not None and z != 'e':
                    st = self.stmt(st, x[z])
                    if st is None:
                        return None
            return st
        self.expr(st, x)
        return st

    def clean(self, st, i):
        if st is not None:
            st.pop(i, None)
        return st

    def join(self, outs):
        outs = [o for o in outs if o is not None]
        if not outs:
            return None
        st = dict(outs[0])
        self.merge(st, outs[1:])
        return st

    def noret(self, e):
        s = strip(e)
        return s.get('k') == 'call' and (s.get('f') or {}).get('name') in ('exit', 'abort', '_exit', 'terminate', '__assert_fail')

    def label(self, e):
        s = strip(e)
        if s.get('k') in ('member', 'var'):
            return s.get('name') or '?'
        if s.get('k') == 'call':
            o = s.get('obj') if s.get('obj') is not None else (s.get('args') or [{}])[0]
            return '%s of %s' % ((s.get('f') or {}).get('name'), self.label(o)) if o else (s.get('f') or {}).get('name') or '?'
        return s.get('k') or '?'


class C31:
    def __init__(self):
        self.C = Check('C31', RULE, ['objects held through different named pointers are different objects',
                                     'an erase whose key cannot be related to the element referred to leaves it alone'],
                       min_obligations=30)
        self.L = Places(self.C.P)
        self.count = 0
        self.tracked = []
        self.paruse = {}
        self.bads = {}

    def bad_(self, f, t, why, x):
        self.bads.setdefault((f['q'], t.name, why[0]), (f, t, why, x))

    def go(self):
        C = self.C
        for k in list(self.L.fns):
            f = self.L.fns[k]
            if f['params'] and any(self.L.P.type(p['t'])['k'] == 'ref' for p in f['params']):
                fl = Flow(self, f)
                fl.stmt({}, f['body'])
                if fl.after:
                    self.paruse[k] = fl.after
        self.bads, self.tracked, self.count = {}, [], 0
        for k, f in self.L.fns.items():
            C.fns.add(k)
            n = len(self.tracked)
            fl = Flow(self, f)
            fl.stmt({}, f['body'])
            for key, what, name in {a for a in self.tracked[n:]}:
                C.ob(True, 'C31:%s:%s:%s' % (f['q'], what, name))
        for (q, name, w), (f, t, why, x) in sorted(self.bads.items(), key=str):
            C.ob(False, 'C31:%s:%s:%s' % (q, t.what, name),
                 '%s is used in %s after line %s, where %s' % (name, q, why[1], why[0]), (f['file'], x.get('l')))
        C.note('%d element references and loops followed, %d (effect, reference) pairs decided' % (len(self.tracked), self.count))
        return C.finish()


if __name__ == '__main__':
    main('C31', lambda: C31().go())
