"""Containers as places, and what every function does to their structure.

A place is (root, steps).  root: ('v', id) a local object, ('p', n, id) what
reference parameter n designates, ('f', class, field, object) a member, where
object is 'this', ('v', id) or '?'.  steps: '[key]' an element ('[]' when the
key is not a plain expression), '.x' a member.
An effect is (place, kind, key, node): kind 'erase' (one element: key), 'serase'
(of a set), 'eraseall',
'vinsert', 'hinsert', 'minsert' (into a vector, hash table, tree or list)."""
import re

INSERT = {'push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'reserve', 'emplace_hint',
          'push_front', 'append', 'operator+=', 'push', 'rehash', 'emplace_front'}
ERASE = {'erase', 'clear', 'pop_back', 'pop_front', 'extract', 'operator=', 'assign', 'resize', 'pop', 'remove_if', 'remove',
         'swap', 'shrink_to_fit'}
READ = {'at', 'operator[]', 'front', 'back', 'operator*', 'operator->', 'value', 'get', 'top', 'data'}
FIND = {'find', 'begin', 'cbegin', 'end', 'cend', 'rbegin', 'lower_bound', 'upper_bound', 'insert', 'emplace', 'erase', 'crbegin',
        'rend'}
FREE = {'erase_if': 'erase', 'erase': 'erase'}


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'temp', 'bind'):
        e = e.get('e')
    return e if isinstance(e, dict) else {}


def kids(x, skip_specs=True):
    """Sub-expressions; of a generic lambda its instances."""
    for k, v in x.items():
        if k == 'f' and x.get('k') in ('call', 'ctor', 'fn', 'memfn'):
            continue
        if x.get('k') == 'lambda' and k == 'fn' and x.get('specs'):
            continue
        if isinstance(v, (dict, list)):
            yield v


def walk(x):
    if isinstance(x, list):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        if x.get('k') is not None:
            yield x
        for v in kids(x):
            yield from walk(v)


def norm(steps):
    return tuple('[]' if s[0] == '[' else s for s in steps)


class Places:
    def __init__(self, P):
        self.P = P
        self.env = {}          # variable id -> (kind, declaration, extra)
        self.fns = {k: f for k, f in P.fns.items() if f.get('body') is not None and not f['file'].endswith('_test.cc')}
        for f in self.fns.values():
            for n, p in enumerate(f['params']):
                self.env[p['id']] = ('param', p, n)
            for x in walk(f.get('body')):
                if x.get('k') == 'vardecl':
                    if x['id'] not in self.env:
                        self.env[x['id']] = ('local', x, x.get('init'))
                    for n, b in enumerate(x.get('bindings') or ()):
                        self.env.setdefault(b['id'], ('binding', x, n))
                elif x.get('k') == 'foreach':
                    v = x['var']
                    self.env[v['id']] = ('each', v, x)
                    for n, b in enumerate(v.get('bindings') or ()):
                        self.env[b['id']] = ('eachb', v, (x, n))
                if x.get('k') == 'lambda':
                    for g in (x.get('specs') or [x['fn']]):
                        for n, p in enumerate(g.get('params') or ()):
                            self.env[p['id']] = ('lparam', p, n)
        self.retmemo = {}
        self.effmemo = {k: frozenset() for k in self.fns}
        self.solve()

    # ------------------------------------------------------------ types ---
    def T(self, t):
        t = self.P.type(t) if t is not None else {'k': '?', 's': ''}
        while t['k'] in ('ref', 'ptr'):
            t = self.P.type(t['to'])
        return t

    def kind(self, t):
        """'vector', 'map', 'hash', 'list' or None."""
        s = self.T(t)['s'].replace('const ', '')
        if s.startswith(('std::vector<', 'std::basic_string<', 'std::deque<')):
            return 'vector'
        if s.startswith(('std::map<', 'std::set<', 'std::multimap<', 'std::multiset<')):
            return 'map'
        if s.startswith(('std::unordered_map<', 'std::unordered_set<', 'std::unordered_multi')):
            return 'hash'
        if s.startswith(('std::list<', 'std::forward_list<')):
            return 'list'
        return None

    def isptr(self, t):
        return self.P.type(t)['k'] == 'ptr' if t is not None else False

    # ------------------------------------------------------------- keys ---
    def canon(self, e, depth=0):
        """A plain expression as text ('' when it is not one)."""
        e = strip(e)
        k = e.get('k')
        if depth > 6:
            return ''
        if k == 'var':
            d = self.env.get(e.get('id'))
            if d and d[0] == 'local' and self.P.type(d[1]['t'])['k'] == 'ref' and d[2] is not None:
                return self.canon(d[2], depth + 1)
            return '$%s;' % e.get('id') if e.get('id') is not None else ''
        if k in ('int', 'bool') and e.get('v') is not None:
            return str(e['v'])
        if k == 'this':
            return 'this'
        if k == 'member':
            b = self.canon(e['base'], depth + 1) if e.get('base') else 'this'
            return '%s.%s' % (b, e.get('name')) if b else ''
        if k == 'un' and e.get('op') in ('*', '&', '-'):
            b = self.canon(e['e'], depth + 1)
            return '(%s%s)' % (e['op'], b) if b else ''
        if k == 'initlist' and not e.get('args') and e.get('elts'):
            bs = [self.canon(a, depth + 1) for a in e['elts']]
            return '{%s}' % ','.join(bs) if all(bs) else ''
        if k == 'ctor' and e.get('args'):
            bs = [self.canon(a, depth + 1) for a in e['args'] if strip(a).get('k') != 'defarg']
            if all(bs):
                return bs[0] if len(bs) == 1 else '{%s}' % ','.join(bs)
        if k == 'call':
            f = e.get('f') or {}
            if not f.get('repo') and f.get('name') in ('at', 'operator[]', 'operator*', 'operator->', 'front', 'back', 'get', 'move',
                                                        'first', 'forward'):
                o = [e['obj']] if e.get('obj') is not None else []
                bs = [self.canon(a, depth + 1) for a in o + (e.get('args') or [])]
                return '%s(%s)' % ('at' if f['name'] == 'operator[]' else f['name'], ','.join(bs)) if all(bs) else ''
        return ''

    def ksub(self, key, call):
        """A callee's key seen from the call site."""
        if not key:
            return ''
        args = call.get('args') or []
        ob = call.get('obj')

        def one(m):
            d = self.env.get(int(m.group(1)))
            if d and d[0] == 'param' and d[2] < len(args):
                return self.canon(args[d[2]]) or '\0'
            return '\0'
        key = re.sub(r'\$(\d+);', one, key.replace('this', '\1'))
        if '\1' in key:
            o = 'this' if ob is None else self.canon(ob)
            key = key.replace('\1', o or '\0')
        return '' if '\0' in key or len(key) > 60 else key

    def each(self, x):
        """The element a range-for stands at, as a step."""
        v = x['var']
        b = v.get('bindings') or ()
        if 'map' in self.T(x.get('rt'))['s'].split('<')[0]:
            return '[$%s;]' % b[0]['id'] if b else '[$%s;.first]' % v['id']
        return '[@$%s;]' % v['id'] if self.kind(x.get('rt')) == 'vector' else '[$%s;]' % v['id']

    def step(self, key):
        return '[%s]' % self.canon(key) if key is not None else '[]'

    # ----------------------------------------------------------- places ---
    def obj(self, e):
        """The object a pointer expression designates."""
        e = strip(e)
        k = e.get('k')
        if k == 'this':
            return 'this'
        if k == 'var':
            d = self.env.get(e.get('id'))
            if d and d[0] == 'local' and self.P.type(d[1]['t'])['k'] in ('ptr', 'ref') and d[1].get('init') is not None and \
                    strip(d[1]['init']).get('k') in ('this', 'var', 'un'):
                return self.obj(d[1]['init'])
            return ('v', e.get('id'))
        if k == 'un' and e.get('op') in ('&', '*'):
            return self.obj(e['e'])
        return '?'

    def place(self, e, depth=0):
        e = strip(e)
        if depth > 30:
            return None
        k = e.get('k')
        if k == 'member':
            b = e.get('base')
            sb = strip(b) if b else {}
            cls, nm = e.get('clsq') or e.get('cls'), e.get('name')
            if not b or sb.get('k') == 'this':
                return ('f', cls, nm, 'this'), ()
            if e.get('arrow') or sb.get('k') == 'un' and sb.get('op') == '*':
                q = sb if e.get('arrow') else strip(sb['e'])
                if self.isptr(q.get('t')) and not (q.get('k') == 'call' and q.get('op') == '->'):
                    return ('f', cls, nm, self.obj(q)), ()
                p = self.place(sb, depth + 1)
                return (p[0], p[1] + (() if nm == 'second' else ('.%s::%s' % (cls, nm),))) if p else None
            p = self.place(b, depth + 1)
            if p is None:
                if cls in ('std::pair',):
                    return None
                return ('f', cls, nm, '?'), ()
            return p[0], p[1] + (() if nm == 'second' else ('.%s::%s' % (cls, nm),))
        if k == 'var':
            i = e.get('id')
            d = self.env.get(i)
            if d is None:
                return None
            t = self.P.type(d[1]['t'])
            if d[0] == 'local':
                if t['k'] == 'ref' and d[2] is not None:
                    return self.place(d[2], depth + 1)
                if 'iterator' in t['s'].split('<')[0].split('::')[-1].lower() and d[2] is not None:
                    return self.iter(d[2], depth + 1)
                if t['k'] == 'ptr':
                    return ('v', i), ('*',)
                return ('v', i), ()
            if d[0] == 'param':
                return (('p', d[2], i), ()) if t['k'] in ('ref',) else (('v', i), ())
            if d[0] == 'each':
                if t['k'] != 'ref':
                    return ('v', i), ()
                p = self.place(d[2]['range'], depth + 1)
                return (p[0], p[1] + (self.each(d[2]),)) if p else None
            if d[0] == 'eachb':
                if t['k'] != 'ref':
                    return ('v', i), ()
                p = self.place(d[2][0]['range'], depth + 1)
                return (p[0], p[1] + (self.each(d[2][0]),) + (() if d[2][1] else ('.first',))) if p else None
            if d[0] == 'binding':
                if t['k'] != 'ref' or d[1].get('init') is None:
                    return ('v', i), ()
                p = self.place(d[1]['init'], depth + 1)
                return (p[0], p[1] + ('.%d' % d[2],)) if p else None
            return ('v', i), ()
        if k == 'un' and e.get('op') == '*':
            p = self.place(e['e'], depth + 1)
            return p
        if k == 'call':
            f = e.get('f') or {}
            nm = f.get('name') or ''
            o = e.get('obj')
            if o is None and e.get('op') in ('[]', '*', '->') and e.get('args'):
                o = e['args'][0]
            if f.get('repo') and f.get('key') in self.fns:
                r = self.returns(f['key'])
                if r is None:
                    return None
                return self.subst(r, e)
            if o is not None and nm in READ:
                if 'iterator' in self.T(strip(o).get('t'))['s'].split('<')[0].lower() or \
                        self.T(strip(o).get('t'))['s'].split('<')[0].split('::')[-1].lstrip('_').endswith('iterator'):
                    return self.iter(o, depth + 1)
                if self.kind(strip(o).get('t')) is None:
                    return None
                p = self.place(o, depth + 1)
                ka = (e.get('args') or [])[1 if e.get('obj') is None else 0:]
                return (p[0], p[1] + (self.step(ka[0] if ka and nm in ('at', 'operator[]') else None),)) if p else None
            if o is None and nm == 'get' and e.get('args'):
                p = self.place(e['args'][0], depth + 1)
                return (p[0], p[1] + ('.get',)) if p else None
            if o is None and nm in ('move', 'forward', 'as_const', 'ref', 'cref') and e.get('args'):
                return self.place(e['args'][0], depth + 1)
        if k == 'sub':
            p = self.place(e.get('base'), depth + 1)
            return (p[0], p[1] + ('[]',)) if p else None
        return None

    def iter(self, e, depth=0):
        """The element an iterator expression designates."""
        e = strip(e)
        if e.get('k') == 'ctor' and len(e.get('args') or ()) == 1:
            return self.iter(e['args'][0], depth + 1)
        if e.get('k') == 'var':
            d = self.env.get(e.get('id'))
            if d and d[0] == 'local' and d[2] is not None and depth < 20:
                return self.iter(d[2], depth + 1)
            return None
        if e.get('k') == 'call' and e.get('obj') is not None and (e.get('f') or {}).get('name') in FIND:
            p = self.place(e['obj'], depth + 1)
            ka = e.get('args') or []
            return (p[0], p[1] + (self.step(ka[0] if len(ka) == 1 and e['f']['name'] == 'find' else None),)) if p else None
        if e.get('k') == 'call' and (e.get('f') or {}).get('name') in ('next', 'prev', 'operator++', 'operator--', 'operator+', 'operator-'):
            a = e.get('obj') if e.get('obj') is not None else (e.get('args') or [None])[0]
            return self.iter(a, depth + 1) if a is not None else None
        return None

    @staticmethod
    def terminal(p):
        """(owner, name, steps after it) of the last named member."""
        root, steps = p
        for n in range(len(steps) - 1, -1, -1):
            if '::' in steps[n]:
                return (root, steps[:n]), steps[n][1:], steps[n + 1:]
        if root[0] == 'f':
            return root[3], root[1] + '::' + root[2], steps
        return None, root, steps

    def may(self, a, b):
        """'yes', 'maybe' or None: container b is a or holds a."""
        oa, na, sa = self.terminal(a)
        ob, nb, sb = self.terminal(b)
        if na != nb or norm(sa[:len(sb)]) != norm(sb):
            return None
        if oa == ob and oa != '?':
            return 'yes'
        return 'maybe' if '?' in (oa, ob) or not (isinstance(oa, tuple) and isinstance(ob, tuple)) else 'other'

    def returns(self, key):
        """The place a function's result refers to (None: a value)."""
        if key in self.retmemo:
            return self.retmemo[key]
        self.retmemo[key] = None
        f = self.fns[key]
        if self.P.type(f['ret'])['k'] == 'ref':
            rs = [x['e'] for x in walk(f['body']) if x.get('k') == 'return' and x.get('e') is not None]
            ps = {self.place(r) for r in rs}
            if len(ps) == 1:
                self.retmemo[key] = ps.pop()
        return self.retmemo[key]

    def subst(self, p, call):
        """A callee's place seen from the call site (None: gone with it)."""
        root, steps = p
        steps = tuple('[%s]' % self.ksub(s[1:-1], call) if s[0] == '[' and s != '[]' else s for s in steps)
        if root[0] == 'v':
            d = self.env.get(root[1])
            if d and d[0] == 'param' and steps and self.P.type(d[1]['t'])['k'] == 'ptr':
                args = call.get('args') or []
                if d[2] < len(args):
                    a = strip(args[d[2]])
                    if a.get('k') == 'un' and a.get('op') == '&':
                        q = self.place(a['e'])
                    else:
                        q = self.place(a)
                        q = q and (q[0], q[1] + ('*',))
                        if q and q[1][-2:] == ('*', '*'):
                            q = (q[0], q[1][:-1])
                    if q:
                        return q[0], q[1] + steps[1:] if a.get('k') == 'un' else (q[0], q[1] + steps[1:])[1]
            return None
        if root[0] == 'p':
            args = call.get('args') or []
            if root[1] >= len(args):
                return None
            q = self.place(args[root[1]])
            return (q[0], q[1] + steps) if q else None
        if root[0] == 'f':
            o = root[3]
            if o == 'this':
                b = call.get('obj')
                if b is None:
                    o = 'this'
                else:
                    sb = strip(b)
                    o = self.obj(sb)
                    if o == '?' or o != 'this' and not self.isptr(sb.get('t')):
                        # member of an object held by value
                        q = self.place(sb) if not self.isptr(sb.get('t')) else None
                        if q is not None:
                            return q[0], q[1] + ('.%s::%s' % (root[1], root[2]),) + steps
            elif isinstance(o, tuple) and o[0] == 'v':
                d = self.env.get(o[1])
                if d and d[0] == 'param' and d[2] < len(call.get('args') or []):
                    o = self.obj(call['args'][d[2]])
                else:
                    o = '?'
            return ('f', root[1], root[2], o), steps
        return None

    # ---------------------------------------------------------- effects ---
    def targets(self, f):
        out = [f['key']]
        if f.get('virtual'):
            todo = [f['key']]
            while todo:
                for o in self.P.overriders.get(todo.pop(), ()):
                    if o not in out:
                        out.append(o)
                        todo.append(o)
        return [k for k in out if k in self.fns]

    def direct(self, x):
        """Structural effects of this node itself (not its operands)."""
        k = x.get('k')
        if k == 'assign' and x.get('op') == '':
            if self.kind(strip(x['lhs']).get('t')):
                p = self.place(x['lhs'])
                if p:
                    yield p, 'eraseall', '', x
        if k != 'call':
            return
        f = x.get('f')
        if not isinstance(f, dict):
            return
        nm = f.get('name') or ''
        o = x.get('obj')
        args = x.get('args') or []
        if f.get('repo') and f.get('key'):
            for t in self.targets(f):
                for p, kd, key in self.effmemo[t]:
                    q = self.subst(p, x)
                    if q:
                        yield q, kd, self.ksub(key, x), x
            return
        if o is None and x.get('op') in ('[]', '=', '+=') and args:
            o, args = args[0], args[1:]
        if o is not None and self.kind(strip(o).get('t')):
            kd = self.kind(strip(o).get('t'))
            ins = {'vector': 'vinsert', 'hash': 'hinsert'}.get(kd, 'minsert')
            if nm in ERASE or nm in INSERT or nm == 'operator[]' and kd in ('map', 'hash') and not f.get('const') or nm == 'merge':
                p = self.place(o)
                if p:
                    if nm in ERASE:
                        one = nm in ('erase', 'extract') and len(args) == 1
                        isset = 'set<' in self.T(strip(o).get('t'))['s'].split('<')[0] + '<'
                        yield p, ('serase' if isset else 'erase') if one else 'eraseall', self.ekey(args[0]) if one else '', x
                    else:
                        yield p, ins, self.canon(args[0]) if args else '', x
                if nm in ('merge', 'swap') and args:
                    p = self.place(args[0])
                    if p:
                        yield p, 'eraseall', '', x
        elif o is None and nm in FREE and args and self.kind(strip(args[0]).get('t')):
            p = self.place(args[0])
            if p:
                yield p, 'eraseall', '', x
        elif o is None and nm in ('swap', 'exchange') and not f.get('repo'):
            for a in args[:2]:
                if self.kind(strip(a).get('t')):
                    p = self.place(a)
                    if p:
                        yield p, 'eraseall', '', x

    def isiter(self, t):
        s = self.T(t)['s'].replace('const ', '')
        s = s.split('<')[0].split('::')[-1] + ' ' + s.split('::')[-1]
        return 'iterator' in s.lower()

    def ekey(self, a):
        """What erase(a) removes: a key, or the element of an iterator."""
        s = strip(a)
        while s.get('k') == 'ctor' and len(s.get('args') or ()) == 1:
            s = strip(s['args'][0])
        if self.isiter(s.get('t')):
            return 'it:' + self.canon(s) if s.get('k') == 'var' else 'it:'
        return self.canon(a)

    def effects(self, x):
        for y in walk(x):
            yield from self.direct(y)

    def solve(self):
        while True:
            new = {}
            for k, f in self.fns.items():
                s = set()
                own = {p['id'] for p in f['params']}
                for p, kd, key, _ in self.effects([[i.get('e') for i in f.get('inits') or ()], f['body']]):
                    if p[0][0] == 'v':
                        d = self.env.get(p[0][1])
                        if not (d and d[0] == 'param' and p[1][:1] == ('*',)):
                            continue
                    if f.get('ctor') and p[0][0] == 'f' and p[0][3] == 'this':
                        continue
                    if len(p[1]) < 8:
                        s.add(((p[0], tuple(self.own(t, own) for t in p[1])), kd, self.own(key, own)))
                new[k] = frozenset(s)
            if new == self.effmemo:
                break
            self.effmemo = new

    def own(self, key, own):
        """Keys that mention the callee's own locals mean nothing outside."""
        if any(int(i) not in own for i in re.findall(r'\$(\d+);', key)):
            return '[]' if key[0] == '[' else ''
        return key
