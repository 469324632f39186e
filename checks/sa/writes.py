"""Who writes which field: a flow-insensitive map from fields (class, name) to
the functions that assign, increment or structurally change them, looking
through references, pointers, iterators and element access."""

MUT = {'insert', 'erase', 'clear', 'push_back', 'emplace_back', 'emplace', 'try_emplace', 'insert_or_assign', 'pop_back',
       'resize', 'swap', 'merge', 'extract', 'assign', 'push_front', 'pop_front', 'operator=', 'operator+=', 'push', 'pop',
       'emplace_hint', 'append', 'reset', 'remove', 'remove_if'}
ACCESS = {'at', 'operator[]', 'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'operator*', 'operator->',
          'cbegin', 'cend', 'lower_bound', 'upper_bound', 'data', 'value', 'get', 'operator++', 'operator--', 'operator+',
          'next', 'prev'}
ALGOS = {'erase_if', 'swap', 'erase', 'sort', 'reverse', 'fill', 'exchange', 'shuffle', 'transform', 'copy', 'iota',
         'generate', 'remove', 'remove_if', 'iter_swap', 'move_backward', 'partial_sum', 'for_each'}


class Writes:
    def __init__(self, P):
        self.P = P
        self.out = {}        # (clsq, field) -> list of (fn key, how, line)
        self.parm = {}       # fn key -> set of param indexes mutated
        self.passed = []     # (fn key, target, callee key, index, line)
        self.calls = {}      # callee key -> set of caller keys
        for k, f in P.fns.items():
            if f.get('body'):
                One(self, f)
        ch = True
        while ch:
            ch = False
            for fk, tg, ck, i, l in self.passed:
                if i in self.parm.get(ck, ()):
                    if self.note(fk, tg, 'via ' + ck.split('(')[0], l):
                        ch = True

    def note(self, fk, tg, how, line):
        if tg is None:
            return False
        if tg[0] == 'param':
            s = self.parm.setdefault(fk, set())
            if tg[1] in s:
                return False
            s.add(tg[1])
            return True
        e = (fk, how, line)
        l = self.out.setdefault(tg[1:], [])
        if e in l:
            return False
        l.append(e)
        return True

    def writers(self, cls, field):
        """Functions writing the field, most direct first: {fn key: [(how, line)]}."""
        out = {}
        for (c, n), l in self.out.items():
            if n == field and c.split('<')[0] == cls:
                for fk, how, line in l:
                    out.setdefault(fk, []).append((how, line))
        return out

    def callers(self, key):
        return self.calls.get(key, set())

    def only_called_from(self, key, ok, seen=()):
        """Every call chain to `key` starts in a function accepted by ok."""
        if key in seen:
            return True
        cs = self.callers(key)
        if not cs:
            return False
        for c in cs:
            if ok(self.P.fns[c]):
                continue
            if not self.only_called_from(c, ok, seen + (key,)):
                return False
        return True


class One:
    def __init__(self, W, f):
        self.W, self.P, self.f = W, W.P, f
        self.alias = {}
        self.refs = set()
        self.params = {p['id']: i for i, p in enumerate(f['params'])}
        self.prepass(f['body'])
        self.walk(f['body'])

    def prepass(self, x):
        """Bind reference, pointer and iterator locals to what they denote."""
        if isinstance(x, list):
            for y in x:
                self.prepass(y)
            return
        if not isinstance(x, dict):
            return
        if x.get('k') == 'foreach':
            v = x.get('var') or {}
            if self.denotes(v):
                t = x.get('range')
                self.alias[v.get('id')] = t
                for b in v.get('bindings') or ():
                    self.alias[b['id']] = t
        elif x.get('k') == 'vardecl' and x.get('init') is not None:
            if self.denotes(x):
                self.alias.setdefault(x['id'], x['init'])
                for b in x.get('bindings') or ():
                    self.alias.setdefault(b['id'], x['init'])
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                self.prepass(v)

    def denotes(self, v):
        t = v.get('t')
        if t is None:
            return False
        ty = self.P.type(t)
        if ty['k'] in ('ref', 'ptr'):
            return True
        s = ty.get('s', '')
        return 'iterator' in s.lower()

    def target(self, e, depth=0):
        if not isinstance(e, dict) or depth > 30:
            return None
        k = e.get('k')
        if k == 'cast':
            return self.target(e.get('e'), depth + 1)
        if k == 'un' and e.get('op') in ('*', '&', '++', '--'):
            return self.target(e.get('e'), depth + 1)
        if k == 'member':
            if e.get('clsq', '').startswith('std::'):
                return self.target(e.get('base'), depth + 1)
            return ('field', e.get('clsq') or e.get('cls'), e.get('name'))
        if k == 'var':
            i = e.get('id')
            if i in self.alias:
                return self.target(self.alias[i], depth + 1)
            if i in self.params:
                p = self.f['params'][self.params[i]]
                ty = self.P.type(p['t'])
                if ty['k'] in ('ref', 'ptr'):
                    return ('param', self.params[i])
            return None
        if k == 'call':
            nm = e['f']['name'] if isinstance(e.get('f'), dict) else ''
            o = e.get('obj')
            if nm in ACCESS:
                if o is not None:
                    return self.target(o, depth + 1)
                if e.get('args'):
                    return self.target(e['args'][0], depth + 1)
            if nm in ('move', 'forward', 'get', 'as_const') and e.get('args'):
                return self.target(e['args'][0], depth + 1)
            return None
        if k == 'ctor' and len(e.get('args') or ()) == 1 and 'iterator' in (e.get('f') or {}).get('q', '').lower():
            return self.target(e['args'][0], depth + 1)
        if k == 'sub':
            return self.target(e.get('base') or e.get('e') or e.get('lhs'), depth + 1)
        if k == 'cond':
            return self.target(e.get('then'), depth + 1)
        return None

    def hit(self, e, how):
        self.W.note(self.f['key'], self.target(e), how, e.get('l', 0))

    def walk(self, x):
        if isinstance(x, list):
            for y in x:
                self.walk(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k == 'assign':
            self.hit(x['lhs'], '=')
        elif k == 'un' and x.get('op') in ('++', '--'):
            t = self.P.strip(x['e']['t']) if 't' in x.get('e', {}) else {}
            if 'iterator' not in t.get('s', '').lower() and not self.is_var(x['e']):
                self.hit(x['e'], x['op'])
            elif self.is_var(x['e']) and x['e'].get('id') in self.alias and \
                    self.P.type(x['e'].get('t', 0)).get('k') not in ('ptr',) and 'iterator' not in t.get('s', '').lower():
                self.hit(x['e'], x['op'])
        elif k == 'call':
            f = x.get('f')
            if isinstance(f, dict):
                nm = f.get('name', '')
                o = x.get('obj')
                if f.get('repo') and f.get('key'):
                    self.W.calls.setdefault(f['key'], set()).add(self.f['key'])
                if o is not None and nm in MUT and not f.get('repo'):
                    tt = self.P.strip(o['t']) if 't' in o else {}
                    if not (nm == 'operator=' and 'iterator' in tt.get('s', '').lower()):
                        self.hit(o, nm)
                if o is None and nm in ALGOS and not f.get('repo') and x.get('args'):
                    for a in x['args'][:3]:
                        self.hit(a, nm)
                ps = f.get('params') or []
                for i, a in enumerate(x.get('args') or ()):
                    if i < len(ps) and f.get('repo') and f.get('key'):
                        ty = self.P.type(ps[i])
                        if ty['k'] in ('ref', 'ptr') and not self.P.type(ty.get('to', -1)).get('const'):
                            tg = self.target(a)
                            if tg is not None:
                                self.W.passed.append((self.f['key'], tg, f['key'], i, x.get('l', 0)))
        elif k == 'delete':
            self.hit(x['e'], 'delete')
        for kk, v in x.items():
            if kk in ('f',) and k == 'call':
                continue
            if isinstance(v, (dict, list)):
                self.walk(v)

    def is_var(self, e):
        return e.get('k') == 'var'
