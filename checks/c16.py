"""C16: release and checked builds compute the same thing.

Parses the program twice, with checks compiled in and out.  Every checked
expression is effect-free, and the two programs differ in nothing else but
effect-free statements."""
import re
from sa import rule, load
from sa.pure import Pure

RULE = ('Every expression inside an assertion is free of effects: no assignment, counter step, release, call of a function '
        'that changes anything but its own temporaries, use of the random generator, input, output, and no map entry created '
        'that the surrounding code does not create or hold anyway.  Parsed with assertions compiled out, every function and '
        'class is the same program but for effect-free statements.')


def main():
    C = rule.Check('C16', RULE, ['calls into the standard library change only objects passed to them'], min_obligations=3)
    P = C.P
    U = Pure(P)
    seen = set()
    for key in sorted(P.fns):
        f = P.fns[key]
        if f.get('body') is None or f['file'].endswith('_test.cc') or f['file'].startswith('tests/'):
            continue
        C.fns.add(key)
        for a, block, loops in asserts(f['body']):
            k = (f['file'], a.get('l'), a.get('c'))
            bad = []
            for why, node in U.effects(a['e']):
                if why == 'a map entry that may be created' and held(P, U, f, a, node, block, loops):
                    continue
                bad.append((why, node))
            C.ob(not bad, '%s|assert %s' % (f['q'], nth(seen, f, a)), '%s: a checked expression performs %s' % (
                f['q'], bad[0][0] if bad else ''), (f['file'], a.get('l', 0)))
    Q = load.load(defs=['-DNDEBUG'])
    V = Pure(Q)
    for key in sorted(set(P.fns) | set(Q.fns)):
        f, g = P.fns.get(key), Q.fns.get(key)
        h = f or g
        if (h['file'] or '').endswith('_test.cc') or h['file'].startswith('tests/'):
            continue
        if f is None or g is None:
            why = (U if g is None else V).impure(key)
            C.ob(why is None, h['q'] + '|one build only', '%s exists in one build only and performs %s' % (
                h['q'], why[0] if why else ''), (h['file'], h['line']))
            continue
        if f.get('body') is None and g.get('body') is None:
            continue
        F, G = Lean(U, f), Lean(V, g)
        same = canonical(F, f) == canonical(G, g)
        l = None if same else first(F.tree, G.tree) or first(G.tree, F.tree) or h['line']
        C.ob(same, h['q'] + '|same', '%s does not do the same in checked and release builds' % h['q'], (h['file'], l))
    for key in sorted(Q.fns):
        g = Q.fns[key]
        if g.get('body') is None or g.get('ctor') or g['name'].startswith('~') or g['name'] == 'main' or \
                Q.type(g['ret'])['k'] == 'void' or g['file'].endswith('_test.cc') or g['file'].startswith('tests/'):
            continue
        C.ob(not falls(g['body']), g['q'] + '|end', '%s can run off its end without a result in release builds' % g['q'],
             (g['file'], g['line']))
    for nm in sorted(set(P.recs) | set(Q.recs)):
        a, b = P.recs.get(nm), Q.recs.get(nm)
        r = a or b
        if a is None or b is None:
            continue
        fa = [(x['name'], P.type(x['t'])['s']) for x in a.get('fields', ())]
        fb = [(x['name'], Q.type(x['t'])['s']) for x in b.get('fields', ())]
        C.ob(fa == fb, 'class %s|fields' % r['q'], 'class %s has other fields in release builds' % r['q'])
    for q in sorted(set(P.globals) & set(Q.globals)):
        a, b = P.globals[q], Q.globals[q]
        C.ob(canon(P, a.get('init'), {}) == canon(Q, b.get('init'), {}), 'constant %s|same' % q,
             'constant %s has another value in release builds' % q, (a.get('file'), a.get('line', 0)))
    C.note('two builds compared: %d and %d functions' % (len(P.fns), len(Q.fns)))
    return C.finish()


_count = {}


def nth(seen, f, a):
    k = (f['q'], a.get('l'))
    if k not in _count:
        _count[k] = sum(1 for x in _count if x[0] == f['q']) + 1
    return _count[k]


def asserts(x, block=None, loops=()):
    """(assert node, statement list around it, enclosing range loops)."""
    if isinstance(x, list):
        b = x if x and all(isinstance(y, dict) for y in x) else block
        for y in x:
            yield from asserts(y, b, loops)
        return
    if not isinstance(x, dict):
        return
    if x.get('k') == 'assert':
        yield x, block, loops
    l = loops + (x,) if x.get('k') == 'foreach' else loops
    for k, v in x.items():
        if isinstance(v, (dict, list)) and k != 'specs':
            yield from asserts(v, block, l)
        elif k == 'specs':
            for s in v:
                yield from asserts(s.get('body'), block, l)


def ids(x):
    """Structure of an expression including variable identity."""
    if isinstance(x, dict):
        if x.get('k') == 'cast':
            return ids(x.get('e'))
        k = [x.get('k'), x.get('op'), x.get('name'), x.get('id') if x.get('k') == 'var' else None]
        return tuple(k) + tuple((a, ids(v)) for a, v in sorted(x.items()) if isinstance(v, (dict, list)) and a not in ('f', 'specs'))
    if isinstance(x, list):
        return tuple(ids(y) for y in x)
    return ()


def held(P, U, f, a, node, block, loops):
    """The entry looked up by a checked m[k] exists or is created anyway."""
    m = node.get('obj')
    args = node.get('args') or []
    if m is None or len(args) != 1:
        return False
    mi, ki = ids(m), ids(args[0])
    # k iterates over m itself
    for l in loops:
        if ids(l.get('range')) == mi:
            v = l.get('var') or {}
            first = (v.get('bindings') or [{}])[0].get('id')
            if args[0].get('k') == 'var' and args[0].get('id') == first:
                return True
    # the same entry is made by an unconditional neighbour

    def has(x):
        if isinstance(x, list):
            return any(has(y) for y in x)
        if not isinstance(x, dict) or x.get('k') in ('assert', 'if', 'while', 'for', 'foreach', 'lambda', 'cond', 'switch'):
            return False
        if x.get('k') == 'call' and x.get('obj') is not None and (x.get('f') or {}).get('name') == 'operator[]' and \
                ids(x['obj']) == mi and ids((x.get('args') or [None])[0]) == ki:
            return True
        return any(has(v) for k, v in x.items() if isinstance(v, (dict, list)))
    if block and has(block):
        return True
    # a local map whose set of entries nothing asks about
    if m.get('k') == 'var' and local(P, f['body'], m.get('id')):
        return not asked(f['body'], m.get('id'))
    return False


def local(P, x, i):
    if isinstance(x, list):
        return any(local(P, y, i) for y in x)
    if not isinstance(x, dict):
        return False
    if x.get('k') == 'vardecl' and x.get('id') == i:
        return P.type(x['t'])['k'] not in ('ref', 'ptr')
    return any(local(P, v, i) for v in x.values() if isinstance(v, (dict, list)))


def asked(x, i):
    """Something depends on which entries the local map has."""
    if isinstance(x, list):
        return any(asked(y, i) for y in x)
    if not isinstance(x, dict) or x.get('k') == 'assert':
        return False
    if x.get('k') == 'call' and isinstance(x.get('obj'), dict) and x['obj'].get('k') == 'var' and x['obj'].get('id') == i:
        if (x.get('f') or {}).get('name') in ('operator[]', 'at'):
            return any(asked(a, i) for a in x.get('args') or ())
        return True
    if x.get('k') == 'call' and isinstance(x.get('obj'), dict) and x['obj'].get('k') == 'cast' and \
            x['obj'].get('e', {}).get('k') == 'var' and x['obj']['e'].get('id') == i:
        if (x.get('f') or {}).get('name') in ('operator[]', 'at'):
            return any(asked(a, i) for a in x.get('args') or ())
        return True
    if x.get('k') == 'var' and x.get('id') == i:
        return True
    return any(asked(v, i) for k, v in x.items() if isinstance(v, (dict, list)) and k != 'specs')


# ------------------------------------------------------------------ builds --
BODY = ('then', 'else', 'body', 'sub')


class Lean:
    """A function without its effect-free statements: assertions, statements
    and locals that change nothing but locals nothing else reads."""

    def __init__(self, U, f):
        self.U = U
        self.P = U.P
        self.f = f
        body = f.get('body')
        self.V = set()
        U.locals_of(body, self.V)
        self.V -= {p['id'] for p in f['params']}
        while True:
            n = len(self.V)
            self.used = set()
            out = self.keep(body)
            self.V -= self.used
            if len(self.V) == n:
                break
        self.tree = out

    def free(self, x):
        local = set(self.V)
        self.U.locals_of(x, local)
        return not jumps(x) and next(iter(self.U.walk(x, local)), None) is None

    def vars(self, x):
        if isinstance(x, list):
            for y in x:
                self.vars(y)
        elif isinstance(x, dict):
            if x.get('k') == 'var':
                self.used.add(x.get('id'))
            for v in x.values():
                if isinstance(v, (dict, list)):
                    self.vars(v)

    def keep(self, x):
        """The statement without what is effect-free (None: nothing left)."""
        if not isinstance(x, dict):
            return None
        k = x.get('k')
        if k in ('null', 'empty', 'assert') or k == 'expr' and self.nothing(x):
            return None
        if k == 'seq':
            b = []
            for y in x.get('b') or ():
                z = self.keep(y)
                if z is None:
                    continue
                b += z['b'] if z.get('k') == 'seq' and not any(w.get('k') == 'decl' for w in z['b']) else [z]
            return dict(x, b=b) if b else None
        if k in ('expr', 'if', 'for', 'foreach', 'while', 'do', 'switch') and self.free(x):
            return None
        if k == 'decl':
            d = []
            for v in x.get('d') or ():
                if v.get('id') in self.V and self.free(v.get('init')) and not v.get('static') and not v.get('bindings'):
                    continue
                self.vars(v.get('init'))
                d.append(self.inner(v))
            return dict(x, d=d) if d else None
        o = {}
        for a, v in x.items():
            if a in BODY and isinstance(v, dict):
                z = self.keep(v)
                if z is not None:
                    if z.get('k') == 'seq' and len(z['b']) == 1 and z['b'][0].get('k') != 'decl':
                        z = z['b'][0]
                    o[a] = z
            elif a == 'handlers':
                o[a] = [self.keep(y) for y in v]
            elif isinstance(v, (dict, list)):
                self.vars(v)
                o[a] = self.inner(v)
            else:
                o[a] = v
        return o

    def inner(self, x):
        """Bodies of lambdas inside an expression."""
        if isinstance(x, list):
            return [self.inner(y) for y in x]
        if not isinstance(x, dict):
            return x
        if x.get('k') == 'lambda':
            fs = x.get('specs') or [x['fn']]
            return {'k': 'lambda', 'l': x.get('l'), 'fns': [{'params': g.get('params'), 'b': self.keep(g.get('body'))} for g in fs]}
        return {k: self.inner(v) if isinstance(v, (dict, list)) else v for k, v in x.items()}

    def nothing(self, x):
        e = x.get('e')
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren'):
            e = e.get('e')
        return isinstance(e, dict) and e.get('k') in ('assert', 'int', 'bool')


LAMBDA = re.compile(r'\(lambda at [^)]*\)')


def spell(P, t):
    return LAMBDA.sub('(lambda)', P.type(t)['s'])


def canon(P, x, names):
    if isinstance(x, list):
        return tuple(canon(P, y, names) for y in x)
    if isinstance(x, dict):
        r = []
        for a in sorted(x):
            v = x[a]
            if a in ('l', 'c', 'line', 'endline', 'key') or v is None:
                continue
            if a == 'id':
                r.append((a, names.setdefault(v, len(names))))
            elif a == 'name' and 'id' in x:
                continue
            elif a in ('t', 'rt', 'ft', 'to', 'ret', 'at', 'ct') and isinstance(v, int):
                r.append((a, spell(P, v)))
            elif a in ('params', 'targs') and isinstance(v, list) and not any(isinstance(y, dict) and 'id' in y for y in v):
                r.append((a, tuple(spell(P, y) if isinstance(y, int) else str(y) for y in v)))
            elif isinstance(v, (dict, list)):
                r.append((a, canon(P, v, names)))
            else:
                r.append((a, LAMBDA.sub('(lambda)', v) if isinstance(v, str) else v))
        return tuple(r)
    return x


def canonical(L, f):
    names = {}
    for p in f['params']:
        names[p['id']] = len(names)
    return canon(L.P, L.tree, names)


def first(x, y):
    """A line in x where it stops resembling y."""
    if isinstance(x, dict) and isinstance(y, dict) and x.get('k') == y.get('k'):
        for a in x:
            if isinstance(x[a], (dict, list)):
                r = first(x[a], y.get(a))
                if r is not None:
                    return r
        return None
    if isinstance(x, list) and isinstance(y, list):
        for p, q in zip(x, y):
            r = first(p, q)
            if r is not None:
                return r
        return lineof(x[len(y)]) if len(x) > len(y) else None
    if isinstance(x, dict):
        return lineof(x)
    return None


def lineof(x):
    if isinstance(x, dict):
        if 'l' in x:
            return x['l']
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            r = lineof(y) if isinstance(y, (dict, list)) else None
            if r is not None:
                return r
    return None


def jumps(S):
    """A return, throw, or a break or continue out of the code."""
    def go(x, inside):
        if isinstance(x, list):
            return any(go(y, inside) for y in x)
        if not isinstance(x, dict):
            return False
        k = x.get('k')
        if k in ('return', 'throw', 'otherstmt'):
            return True
        if k in ('break', 'continue') and not inside:
            return True
        if k == 'lambda':
            return False
        return any(go(v, inside or k in ('for', 'foreach', 'while', 'do', 'switch')) for v in x.values() if isinstance(v, (dict, list)))
    return go(S, False)


def falls(x):
    """The statement can be left at its end."""
    if not isinstance(x, dict):
        return True
    k = x.get('k')
    if k == 'return':
        return False
    if k == 'expr':
        e = x['e']
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren'):
            e = e['e']
        return not (e.get('k') == 'throw' or e.get('k') == 'call' and isinstance(e.get('f'), dict) and e['f'].get('noreturn'))
    if k == 'seq':
        return all(falls(y) for y in x.get('b') or ())
    if k == 'if':
        return falls(x.get('then')) or falls(x.get('else'))
    if k in ('while', 'for', 'do'):
        c = x.get('c')
        while isinstance(c, dict) and c.get('k') == 'cast':
            c = c['e']
        return not (c is None or c.get('k') in ('bool', 'int') and c.get('v') in (True, 1, '1'))
    if k == 'switch':
        b = (x.get('body') or {}).get('b') or []
        return not b or falls(b[-1])
    if k in ('case', 'default'):
        return falls(x.get('sub'))
    if k == 'try':
        return falls(x.get('body')) or any(falls(h) for h in x.get('handlers') or ())
    return True


if __name__ == '__main__':
    rule.main('C16', main)
