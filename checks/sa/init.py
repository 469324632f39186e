"""Definite assignment: reads of scalar locals, and of scalar fields of local
records, that no assignment precedes on some path."""

SCALAR = ('int', 'uint', 'float', 'bool', 'ptr', 'enum')


class Init:
    def __init__(self, P):
        self.P = P
        self.weakmemo = {}
        self.ctors = {}
        for f in P.fns.values():
            if f.get('ctor'):
                self.ctors.setdefault(f['cls'], []).append(f)
        self.memo = {}

    # fields of a record left without a value by default construction
    def weak(self, rec, depth=0):
        if rec in self.weakmemo:
            return self.weakmemo[rec]
        self.weakmemo[rec] = ()
        r = self.P.recs.get(rec)
        out = []
        if r is not None and depth < 6:
            cs = self.ctors.get(rec)
            for fl in r.get('fields', ()):
                if 'init' in fl:
                    continue
                t = self.P.type(fl['t'])
                if t['k'] in SCALAR:
                    if not cs:
                        out.append(fl['name'])
                    else:
                        for c in cs:
                            if not c['params'] and fl['name'] in self.left(c):
                                out.append(fl['name'])
        self.weakmemo[rec] = tuple(out)
        return self.weakmemo[rec]

    def left(self, c):
        """Scalar fields that constructor c leaves without a value."""
        if c['key'] in self.memo:
            return self.memo[c['key']]
        self.memo[c['key']] = ()
        r = self.P.recs.get(c['cls'])
        if r is None or any(i.get('delegating') for i in c.get('inits') or ()):
            return ()
        done = {i.get('field') for i in c.get('inits') or ()}
        U = {('this', fl['name']) for fl in r.get('fields', ()) if 'init' not in fl and fl['name'] not in done and
             self.P.type(fl['t'])['k'] in SCALAR}
        if U and c.get('body') is not None:
            R = Run(self, c, U)
            U = R.fn() | {u for u, _, _ in R.bad if u[0] == 'this'}
        self.memo[c['key']] = tuple(sorted(x[1] for x in U))
        return self.memo[c['key']]

    def reads(self, f):
        """(token, node) for every read of something that may have no value."""
        R = Run(self, f, set())
        R.fn()
        return R.bad


class Run:
    def __init__(self, I, f, U):
        self.I, self.P, self.f = I, I.P, f
        self.U = set(U)
        self.bad = []
        self.brk = []
        self.names = {}
        self.rets = set()
        self.depth = 0

    def fn(self):
        self.stmt(self.f['body'])
        return (self.U or set()) | self.rets

    # U is None where control does not arrive
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, x):
        if x is None or self.U is None:
            return
        k = x.get('k')
        if k == 'seq':
            for y in x.get('b') or ():
                self.stmt(y)
        elif k == 'expr':
            e = x['e']
            self.expr(e)
            while isinstance(e, dict) and e.get('k') == 'cast':
                e = e['e']
            if isinstance(e, dict) and (e.get('k') == 'throw' or e.get('k') == 'call' and isinstance(e.get('f'), dict) and
                                        e['f'].get('noreturn') or
                                        e.get('k') == 'assert' and strip(e['e']).get('k') == 'bool' and not strip(e['e']).get('v')):
                self.U = None
        elif k == 'decl':
            for v in x.get('d') or ():
                self.decl(v)
        elif k == 'if':
            self.stmt(x.get('init'))
            if x.get('cv'):
                self.decl(x['cv'])
            self.expr(x.get('c'))
            s = set(self.U)
            self.stmt(x.get('then'))
            a, self.U = self.U, s
            self.stmt(x.get('else'))
            self.U = self.join(a, self.U)
        elif k in ('while', 'for', 'foreach'):
            self.stmt(x.get('init'))
            if x.get('cv'):
                self.decl(x['cv'])
            if k == 'foreach':
                self.expr(x.get('range'))
            else:
                self.expr(x.get('c'))
            s = set(self.U)
            self.brk.append(None)
            self.cont = getattr(self, 'cont', [])
            self.stmt(x.get('body'))
            if self.U is not None:
                self.expr(x.get('inc'))
            b = self.brk.pop()
            c = strip(x.get('c')) if k != 'foreach' else None
            forever = k != 'foreach' and (c is None or c == {} or c.get('k') in ('bool', 'int') and c.get('v') in (True, 1, '1'))
            self.U = b if forever else self.join(s, b)
        elif k == 'do':
            self.brk.append(None)
            self.stmt(x.get('body'))
            if self.U is not None:
                self.expr(x.get('c'))
            self.U = self.join(self.U, self.brk.pop())
        elif k == 'switch':
            self.expr(x.get('c'))
            s = set(self.U)
            self.brk.append(None)
            body = x.get('body') or {}
            dflt = False
            self.U = None
            for y in body.get('b') or ():
                while isinstance(y, dict) and y.get('k') in ('case', 'default'):
                    dflt |= y['k'] == 'default'
                    self.U = self.join(self.U, set(s))
                    y = y.get('sub')
                self.stmt(y)
            self.U = self.join(self.U, self.brk.pop())
            # a switch without default is taken to name every value
            if not dflt and self.U is None:
                self.U = s
        elif k == 'break':
            if self.brk:
                self.brk[-1] = self.join(self.brk[-1], set(self.U))
            self.U = None
        elif k == 'continue':
            self.U = None
        elif k == 'return':
            self.expr(x.get('e'))
            self.rets |= self.U
            self.U = None
        elif k == 'try':
            s = set(self.U)
            self.stmt(x.get('body'))
            a = self.U
            for h in x.get('handlers') or ():
                self.U = set(s)
                self.stmt(h)
                a = self.join(a, self.U)
            self.U = a
        elif k in ('case', 'default'):
            self.stmt(x.get('sub'))

    def decl(self, v):
        t = self.P.type(v['t'])
        i = v.get('id')
        self.names[i] = v.get('name')
        if v.get('static') or v.get('bindings'):
            self.expr(v.get('init'))
            return
        init = v.get('init')
        if t['k'] in SCALAR:
            if init is None:
                self.U.add((i,))
            else:
                self.expr(init)
            return
        if t['k'] == 'rec' and t['s'] in self.P.recs or t['k'] == 'rec' and t.get('rec') in self.P.recs:
            rec = t['s'] if t['s'] in self.P.recs else t['rec']
            e = strip(init) if init else None
            if e is None or e.get('k') == 'ctor' and not e.get('args') and not e.get('list') and not e.get('zero'):
                for n in self.I.weak(rec):
                    self.U.add((i, n))
                return
        self.expr(init)

    def forget(self, i):
        self.U -= {u for u in self.U if u[0] == i}

    def read(self, i, node, field=None):
        for u in sorted(self.U, key=str):
            if u[0] == i and (field is None or len(u) == 1 or u[1] == field):
                self.bad.append((u, self.names.get(i) or str(i), node))
                self.U.discard(u)

    def place(self, e):
        """(id, field|None) of a local, a field of a local, or of this."""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'var':
            return e.get('id'), None
        if e.get('k') == 'member':
            b = e.get('base')
            b = strip(b) if b else None
            if b is None or b.get('k') == 'this':
                return 'this', e.get('name')
            if b.get('k') == 'var':
                return b.get('id'), e.get('name')
        return None

    def set(self, e):
        p = self.place(e)
        if p is None:
            self.expr(e)
            return
        if p[1] is None:
            self.forget(p[0])
        else:
            self.U.discard((p[0], p[1]))

    def expr(self, e):
        if e is None or self.U is None:
            return
        if isinstance(e, list):
            for y in e:
                self.expr(y)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'var':
            self.read(e.get('id'), e)
        elif k == 'member':
            p = self.place(e)
            if p is not None:
                self.read(p[0], e, p[1])
            else:
                self.expr(e.get('base'))
        elif k == 'assign':
            if e.get('op') == '':
                self.expr(e.get('rhs'))
                self.set(e['lhs'])
            else:
                self.expr(e['lhs'])
                self.expr(e.get('rhs'))
        elif k == 'un' and e.get('op') == '&':
            p = self.place(e['e'])
            if p is not None:
                self.set(e['e'])
            else:
                self.expr(e['e'])
        elif k == 'bin' and e.get('op') in ('&&', '||'):
            self.expr(e.get('lhs'))
            s = set(self.U)
            self.expr(e.get('rhs'))
            self.U = s
        elif k == 'cond':
            self.expr(e.get('c'))
            s = set(self.U)
            self.expr(e.get('a'))
            a, self.U = self.U, s
            self.expr(e.get('b'))
            self.U = self.join(a, self.U)
        elif k == 'call':
            self.call(e)
        elif k == 'ctor':
            self.args(e)
        elif k == 'lambda':
            # runs later, when its captures may have a value
            pass
        elif k in ('sizeof', 'typeid'):
            pass
        elif k == 'assert':
            s = set(self.U)
            self.expr(e.get('e'))
            self.U &= s
        else:
            for a, v in e.items():
                if isinstance(v, (dict, list)) and a not in ('f',):
                    self.expr(v)

    def args(self, e):
        f = e.get('f') or {}
        ps = f.get('params') or []
        args = e.get('args') or []
        out = []
        off = len(args) - len(ps) if isinstance(ps, list) and f.get('name', '').startswith('operator') and e.get('obj') is None and \
            len(args) > len(ps) else 0
        for n, a in enumerate(args):
            m = n - off
            t = self.P.type(ps[m]) if 0 <= m < len(ps) and isinstance(ps[m], int) else {'k': '?'}
            if t['k'] == 'ref' and not t['s'].endswith('&&') and not t['s'].startswith('const ') and ' const ' not in t['s'] and self.place(a) is not None:
                out.append(a)
            else:
                self.expr(a)
        for a in out:
            self.set(a)

    def call(self, e):
        o = e.get('obj')
        f = e.get('f') or {}
        if isinstance(f, dict) and f.get('name') == 'operator=' and o is not None:
            self.expr(e.get('args'))
            self.set(o)
            return
        self.expr(e.get('fe'))
        if o is not None:
            if isinstance(f, dict) and not f.get('const') and self.place(o) is not None and self.place(o)[1] is None and \
                    self.place(o)[0] != 'this':
                p = self.place(o)
                self.args(e)
                if any(u[0] == p[0] and len(u) > 1 for u in self.U):
                    self.forget(p[0])
                else:
                    self.read(p[0], e)
                return
            p = self.place(o)
            if not (p is not None and p[0] == 'this'):
                self.expr(o)
        self.args(e)


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'temp', 'bind'):
        e = e.get('e')
    return e if isinstance(e, dict) else {}
