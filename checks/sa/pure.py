"""Effects of expressions and functions on the syntax level: what evaluating a
piece of code may change beyond its own temporaries."""

MUT = {'insert', 'erase', 'clear', 'push_back', 'emplace_back', 'emplace', 'try_emplace', 'insert_or_assign', 'pop_back',
       'resize', 'swap', 'merge', 'extract', 'assign', 'push_front', 'pop_front', 'operator=', 'operator+=', 'push', 'pop',
       'emplace_hint', 'append', 'reset', 'remove', 'remove_if', 'replace', 'operator-=', 'operator*=', 'operator/=', 'seed',
       'open', 'close', 'clear', 'getline', 'get', 'read', 'write', 'flush', 'discard', 'str', 'ignore', 'put'}
ALGOS = {'erase_if', 'swap', 'erase', 'sort', 'reverse', 'fill', 'exchange', 'shuffle', 'transform', 'copy', 'iota',
         'generate', 'remove', 'remove_if', 'iter_swap', 'partial_sum', 'getline', 'nth_element', 'stable_sort'}
OUTPUT = {'printf', 'fprintf', 'puts', 'fflush', 'exit', 'abort', 'system', 'putchar', 'fputs', 'scanf', 'fclose', 'fopen'}
CLOCK = {'clock', 'time', 'rand', 'srand', 'random', 'gettimeofday', 'getenv'}


class Pure:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def impure(self, key):
        """What a repo function may change (None when nothing)."""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.P.fns.get(key)
        r = None
        if f is not None and f.get('body') is not None:
            r = next(iter(self.effects(f['body'], f)), None)
        self.memo[key] = r
        return r

    # ------------------------------------------------------------------
    def effects(self, x, f=None, skip_assert=False):
        """Descriptions of effects outside the code's own locals."""
        local = set()
        self.locals_of(x, local)
        if f is not None:
            for p in f['params']:
                if self.P.type(p['t'])['k'] not in ('ref', 'ptr'):
                    local.add(p['id'])
        yield from self.walk(x, local)

    def locals_of(self, x, out):
        if isinstance(x, list):
            for y in x:
                self.locals_of(y, out)
        elif isinstance(x, dict):
            if x.get('k') == 'vardecl' and x.get('id') is not None:
                t = self.P.type(x['t']) if 't' in x else {'k': '?'}
                if t['k'] not in ('ref', 'ptr') and 'iterator' not in t.get('s', '').lower():
                    out.add(x['id'])
            if x.get('k') == 'lambda' or 'params' in x and 'body' in x:
                for p in x.get('params') or ():
                    if isinstance(p, dict) and 't' in p and self.P.type(p['t'])['k'] not in ('ref', 'ptr'):
                        out.add(p['id'])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    self.locals_of(v, out)

    def root(self, e, depth=0):
        """('local', id), ('this',), ('var', id), ('fresh',) or ('?',)."""
        if not isinstance(e, dict) or depth > 40:
            return ('?',)
        k = e.get('k')
        if k in ('cast', 'paren', 'temp', 'bind'):
            return self.root(e.get('e'), depth + 1)
        if k == 'un':
            return self.root(e.get('e'), depth + 1)
        if k == 'member':
            return self.root(e.get('base'), depth + 1) if e.get('base') else ('this',)
        if k == 'this':
            return ('this',)
        if k == 'var':
            return ('var', e.get('id'))
        if k in ('sub',):
            return self.root(e.get('base') or e.get('e') or e.get('lhs'), depth + 1)
        if k == 'call':
            if e.get('obj') is not None:
                return self.root(e['obj'], depth + 1)
            if e.get('args') and (e.get('f') or {}).get('name') in ('get', 'move', 'forward', 'begin', 'end', 'operator[]', 'operator*'):
                return self.root(e['args'][0], depth + 1)
            return ('?',)
        if k in ('ctor', 'new', 'initlist', 'int', 'str'):
            return ('fresh',)
        return ('?',)

    def outside(self, e, local):
        r = self.root(e)
        if r[0] == 'fresh':
            return False
        return not (r[0] == 'var' and r[1] in local)

    def walk(self, x, local):
        if isinstance(x, list):
            for y in x:
                yield from self.walk(y, local)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k == 'assert':
            return
        if k == 'assign' and self.outside(x['lhs'], local):
            yield 'an assignment', x
        elif k == 'un' and x.get('op') in ('++', '--') and self.outside(x['e'], local):
            yield 'a step of a counter', x
        elif k == 'delete':
            yield 'a release', x
        elif k == 'throw':
            pass
        elif k == 'call':
            yield from self.call(x, local)
        for kk, v in x.items():
            if kk == 'f' and k == 'call':
                continue
            if k == 'lambda' and kk == 'fn' and x.get('specs'):
                continue
            if isinstance(v, (dict, list)):
                yield from self.walk(v, local)

    def call(self, x, local):
        f = x.get('f')
        if not isinstance(f, dict):
            return
        nm = f.get('name') or ''
        q = f.get('q') or nm
        o = x.get('obj')
        args = x.get('args') or []
        for a in args:
            t = self.P.strip(a['t'])['s'] if isinstance(a, dict) and 't' in a else ''
            if 'mersenne_twister' in t and a.get('k') != 'null':
                r = self.root(a)
                if not (r[0] == 'var' and r[1] in local):
                    yield 'a use of the random generator (%s)' % nm, x
        if f.get('repo') and f.get('key'):
            if f.get('const') and not f.get('virtual'):
                pass
            if o is None or self.outside(o, local) or f.get('static'):
                why = self.impure(f['key'])
                if why is not None and not (o is None and not args):
                    yield '%s (by calling %s)' % (why[0], q), x
                elif why is not None and o is None:
                    yield '%s (by calling %s)' % (why[0], q), x
            return
        if nm in OUTPUT or nm in CLOCK:
            yield 'a call of %s' % nm, x
            return
        if nm in ('operator<<', 'operator>>'):
            s = args[0] if args and o is None else o
            t = self.P.strip(s['t'])['s'] if isinstance(s, dict) and 't' in s else ''
            if 'stream' in t and self.outside(s, local):
                yield 'stream input or output', x
            return
        if o is not None:
            t = self.P.strip(o['t'])['s'] if 't' in o else ''
            if nm == 'operator()':
                if 'mersenne_twister' in t and self.outside(o, local):
                    yield 'a use of the random generator', x
                return
            if nm == 'operator[]' and 'map<' in t and not f.get('const'):
                yield 'a map entry that may be created', x
                return
            if nm in MUT and not f.get('const') and not (nm in ('get', 'str') and 'stream' not in t) and self.outside(o, local):
                yield 'a call of %s' % nm, x
            return
        if nm in ALGOS:
            for a in args[:3]:
                if self.outside(a, local) and self.root(a)[0] != '?':
                    yield 'a call of %s' % nm, x
                    return
