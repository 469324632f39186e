"""C15: a run is determined by its inputs and its seed."""
from sa import rule
from sa.init import Init
from sa.pure import Pure

RULE = ('Random engines are made only where they are seeded from the seed option of the program; every random draw and every '
        'engine handed on is the one the function was given; no other entropy source, process or host property, thread, '
        'address order, address value or unset scalar is read; the clock reaches printing and a limit the caller switched on '
        'only.')

ENG = ('mersenne_twister_engine', 'linear_congruential_engine', 'subtract_with_carry_engine', 'discard_block_engine',
       'shuffle_order_engine', 'independent_bits_engine')
ENTROPY = {'rand', 'random', 'srand', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'nrand48', 'rand_r', 'getrandom',
           'getentropy', 'arc4random', 'getpid', 'getppid', 'gettid', 'getenv', 'secure_getenv', 'gethostname', 'uname', 'getuid',
           'pthread_self', 'get_id', 'tmpnam', 'mkstemp', 'getrusage', 'sysconf', 'hardware_concurrency', 'times'}
CLOCK = {'clock', 'time', 'gettimeofday', 'clock_gettime', 'now', 'localtime', 'gmtime', 'difftime', 'ftime', 'timespec_get'}
THREAD = ('std::thread', 'std::jthread', 'std::future', 'std::async', 'std::execution::', 'std::atomic')
CARRY = ('normal_distribution', 'lognormal_distribution', 'gamma_distribution', 'chi_squared_distribution', 'poisson_distribution',
         'student_t_distribution', 'fisher_f_distribution', 'binomial_distribution', 'cauchy_distribution')
PRINT = {'printf', 'fprintf', 'operator<<', 'snprintf', 'puts', 'to_string'}


def engine(s):
    return any(e in s for e in ENG)


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'temp', 'bind'):
        e = e.get('e')
    return e if isinstance(e, dict) else {}


def walk(x):
    if isinstance(x, list):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        if x.get('k') is not None:
            yield x
        for k, v in x.items():
            if isinstance(v, (dict, list)) and not (k == 'f' and x.get('k') == 'call') and \
                    not (x.get('k') == 'lambda' and k == 'fn' and x.get('specs')):
                yield from walk(v)


def parts(f):
    yield from walk([i.get('e') for i in f.get('inits') or ()])
    yield from walk(f.get('body'))


def main():
    C = rule.Check('C15', RULE, ['standard containers of numbers and strings iterate in an order fixed by their history'],
                   min_obligations=20)
    P = C.P
    fns = [P.fns[k] for k in sorted(P.fns) if P.fns[k].get('body') is not None and not P.fns[k]['file'].endswith('_test.cc') and
           not P.fns[k]['file'].startswith('tests/')]
    S = lambda t: P.type(t)['s'] if t is not None else ''
    decls, owner, ret = {}, {}, {}
    for f in fns:
        for p in f['params']:
            decls[p['id']] = ('param', p, f)
        for x in parts(f):
            if x.get('k') == 'vardecl':
                decls[x['id']] = ('local', x, f)
                for b in x.get('bindings') or ():
                    decls[b['id']] = ('binding', b, f)
            for g in ([x['fn']] if x.get('k') == 'lambda' and not x.get('specs') else x.get('specs') or ()) if x.get('k') == 'lambda' else ():
                for p in g.get('params') or ():
                    decls[p['id']] = ('lparam', p, f)
    callers = {}
    for f in fns:
        for x in parts(f):
            if x.get('k') == 'call' and isinstance(x.get('f'), dict) and x['f'].get('key'):
                callers.setdefault(x['f']['key'], []).append((f, x))

    # where the seed of an engine comes from
    def seed_ok(e, f, depth=0):
        """None, or why the expression depends on something but the seed option."""
        if depth > 12:
            return 'something too deep to follow'
        n = 0
        for x in walk(e):
            k = x.get('k')
            if k == 'var':
                d = decls.get(x.get('id'))
                if d is None:
                    return 'a variable that is not local'
                if d[0] == 'param':
                    if d[2]['q'] == 'main':
                        continue
                    i = [p['id'] for p in d[2]['params']].index(x['id'])
                    cs = callers.get(d[2]['key'], [])
                    if not cs:
                        return 'a parameter nobody supplies'
                    for g, c in cs:
                        if i >= len(c.get('args') or []):
                            return 'a parameter left to its default'
                        r = seed_ok(c['args'][i], g, depth + 1)
                        if r:
                            return r
                    n += 1
                elif d[0] == 'local':
                    if 'cxxopts' in S(d[1]['t']):
                        continue
                    if d[1].get('init') is None:
                        return 'a variable set elsewhere'
                    r = seed_ok(d[1]['init'], f, depth + 1)
                    if r:
                        return r
                    for y in parts(d[2]):
                        if y.get('k') == 'assign' and strip(y['lhs']).get('id') == x['id'] or \
                                y.get('k') == 'un' and y.get('op') in ('++', '--') and strip(y['e']).get('id') == x['id']:
                            return 'a variable that changes'
                    n += 1
                else:
                    return 'a bound variable'
            elif k == 'str':
                if str(x.get('v')).strip('"') != 'seed':
                    return 'the option %s' % x.get('v')
                n += 1
            elif k == 'call':
                g = x.get('f') or {}
                if g.get('repo') and 'cxxopts' not in (g.get('q') or ''):
                    return 'the result of %s' % g.get('q')
            elif k in ('this', 'member'):
                return 'a member'
        return None if n else 'no option'

    # the root of an expression that designates an engine
    def root(e):
        e = strip(e)
        k = e.get('k')
        if k == 'un' and e.get('op') in ('&', '*'):
            return root(e['e'])
        if k == 'null':
            return 'null', e
        if k == 'var':
            return 'var', e
        if k == 'cond':
            a, b = root(e.get('a')), root(e.get('b'))
            return a if b[0] == 'null' else b if a[0] == 'null' else (a if a[0] not in ('var', 'null') else b)
        if k == 'call' and (e.get('f') or {}).get('name') in ('ref', 'get', 'operator*', 'operator->', 'addressof', 'move', 'forward'):
            o = e.get('obj') if e.get('obj') is not None else (e.get('args') or [None])[0]
            return root(o)
        if k == 'ctor' and len(e.get('args') or ()) == 1:
            return root(e['args'][0])
        return k, e

    I = Init(P)
    nused = 0
    for f in fns:
        C.fns.add(f['key'])
        here = {}

        def ob(good, kind, msg, node):
            here.setdefault(kind, []).append((good, msg, node.get('l') or f['line']))
        made = set()
        for x in parts(f):
            k = x.get('k')
            if k == 'vardecl' and engine(S(x['t'])) and P.type(x['t'])['k'] not in ('ptr', 'ref'):
                made.add(x['id'])
                e = strip(x.get('init'))
                if x.get('static'):
                    ob(False, 'engine', 'keeps a random engine between calls', x)
                elif e.get('k') in ('ctor', 'initlist') and len(e.get('args') or ()) == 1 and not engine(S(strip(e['args'][0]).get('t'))):
                    r = seed_ok(e['args'][0], f)
                    ob(r is None, 'engine', 'seeds a random engine from %s' % r, x)
                elif e.get('k') == 'call' and (e.get('f') or {}).get('repo'):
                    pass
                else:
                    ob(False, 'engine', 'makes a random engine of its own', x)
            elif k in ('ctor', 'new') and engine(S(x.get('t'))) and not (k == 'ctor' and x.get('args') and
                                                                         root(x)[0] == 'var' and root(x)[1].get('id') in made):
                a = x.get('args') or []
                r = seed_ok(a[0], f) if len(a) == 1 and not engine(S(strip(a[0]).get('t'))) and k == 'ctor' else \
                    'nothing' if not a else 'a copy of another engine'
                ob(r is None, 'engine', 'makes a random engine from %s' % r, x)
            elif k == 'vardecl' and x.get('static') and any(c in S(x['t']) for c in CARRY):
                ob(False, 'carry', 'keeps a sampler, with the draw it holds back, between calls', x)
            if k == 'call':
                g = x.get('f') or {}
                nm, q = g.get('name') or '', g.get('q') or ''
                if not g.get('repo') and (nm in ENTROPY and x.get('obj') is None) or 'random_device' in q:
                    ob(False, 'source', 'reads %s' % (q or nm), x)
                if any(q.startswith(t) for t in THREAD):
                    ob(False, 'thread', 'uses %s' % q, x)
                if nm in ('seed', 'discard') and x.get('obj') is not None and engine(S(strip(x['obj']).get('t'))) and not g.get('repo'):
                    r = seed_ok(x['args'][0], f) if nm == 'seed' and x.get('args') and root(x['obj'])[1].get('id') in made else 'a fixed value'
                    ob(r is None, 'engine', 'reseeds a random engine from %s' % r, x)
                todo = [a for a in x.get('args') or () if isinstance(a, dict)]
                if nm == 'operator()' and x.get('obj') is not None and engine(S(strip(x['obj']).get('t'))):
                    todo.append(x['obj'])
                for a in todo:
                    if not engine(S(a.get('t'))) or '_distribution' in S(a.get('t')) or 'vector<' in S(a.get('t')):
                        continue
                    nused += 1
                    r, e = root(a)
                    d = decls.get(e.get('id')) if r == 'var' else None
                    good = r == 'null' or r == 'var' and (d is not None and d[0] in ('param', 'lparam') or e.get('id') in made or
                                                          d is not None and from_given(P, decls, root, d, 0)) or \
                        r == 'member' and True
                    if r not in ('null', 'var', 'member'):
                        ob(False, 'engine', 'draws with an engine that it was not given', x)
                    else:
                        ob(good, 'engine', 'draws with an engine that it was not given', x)
            if k in ('ctor', 'vardecl') and 'random_device' in S(x.get('t')):
                ob(False, 'source', 'uses std::random_device', x)
            if k in ('ctor', 'vardecl') and any(S(x.get('t')).startswith(t) for t in THREAD):
                ob(False, 'thread', 'uses %s' % S(x.get('t')), x)
            # addresses
            if k == 'foreach' and ptrkey(P, x.get('rt')):
                ob(False, 'order', 'visits a container ordered by address', x)
            if k == 'call' and (x.get('f') or {}).get('name') in ('begin', 'cbegin') and x.get('obj') is not None and \
                    ptrkey(P, strip(x['obj']).get('t')):
                ob(False, 'order', 'visits a container ordered by address', x)
            if k == 'cast' and x.get('ck') == 'PointerToIntegral':
                ob(False, 'order', 'turns an address into a number', x)
            if k == 'bin' and x.get('op') in ('<', '>', '<=', '>='):
                ts = [P.type(strip(x[s]).get('t')) for s in ('lhs', 'rhs')]
                if all(t['k'] == 'ptr' for t in ts) and not all('char' in t['s'] for t in ts):
                    ob(False, 'order', 'compares addresses', x)
            if k == 'call' and (x.get('f') or {}).get('name') in ('sort', 'stable_sort', 'max_element', 'min_element', 'nth_element') and \
                    len(x.get('args') or ()) == 2 and ptrelem(P, strip(x['args'][0]).get('t')):
                ob(False, 'order', 'orders addresses', x)
            if k == 'call' and x.get('obj') is not None and (x.get('f') or {}).get('name') == 'operator()' and \
                    S(strip(x['obj']).get('t')).startswith('std::hash<') and S(strip(x['obj']).get('t')).rstrip('> ').endswith('*'):
                ob(False, 'order', 'hashes an address', x)
        for kind in ('engine', 'carry', 'source', 'thread', 'order'):
            v = here.get(kind)
            if v is None:
                continue
            bad = [y for y in v if not y[0]]
            C.ob(not bad, '%s|%s' % (f['q'], kind), '%s %s' % (f['q'], bad[0][1] if bad else ''), (f['file'], bad[0][2] if bad else f['line']))
        # values that were never set
        r = I.reads(f)
        C.ob(not r, f['q'] + '|unset', '%s reads %s, which may not have been given a value' % (
            f['q'], r[0][1] + ('.' + r[0][0][1] if len(r[0][0]) > 1 else '') if r else ''),
            (f['file'], r[0][2].get('l', f['line']) if r else f['line']))
        if f.get('ctor') and f['params']:
            l = I.left(f)
            C.ob(not l, f['q'] + '|unset field', '%s leaves %s without a value' % (f['q'], ', '.join(l)), (f['file'], f['line']))
        # by-value engines
        for p in f['params']:
            if engine(S(p['t'])) and P.type(p['t'])['k'] not in ('ref', 'ptr'):
                C.ob(False, '%s|copy' % f['q'], '%s works on a copy of the random engine' % f['q'], (f['file'], f['line']))
        C.fns.add(f['key'])
    for q, g in sorted(P.globals.items()):
        C.ob(not engine(S(g.get('t'))) and 'random_device' not in S(g.get('t')), 'global %s|engine' % q, 'a global random engine exists: %s' % q,
             (g.get('file'), g.get('line', 0)))
    for nm, r in sorted(P.recs.items()):
        for fl in r.get('fields', ()):
            s = S(fl['t'])
            if engine(s) and P.type(fl['t'])['k'] not in ('ptr', 'ref'):
                C.ob(False, '%s.%s|engine' % (r['q'], fl['name']), '%s keeps a random engine of its own' % r['q'], (r['file'], fl.get('l', r['line'])))
    clock(C, P, fns, decls, callers)
    C.note('%d uses of a random engine, each traced to the one the function was given' % nused)
    return C.finish()


def from_given(P, decls, root, d, depth):
    """A local pointer or reference to the engine a parameter designates."""
    if d[0] == 'binding' or depth > 6:
        return False
    t = P.type(d[1]['t'])
    if t['k'] not in ('ptr', 'ref') or d[1].get('init') is None:
        return False
    r, e = root(d[1]['init'])
    if r == 'null':
        return True
    if r != 'var':
        return False
    g = decls.get(e.get('id'))
    return g is not None and (g[0] in ('param', 'lparam') or P.type(g[1]['t'])['k'] not in ('ptr', 'ref') or
                              from_given(P, decls, root, g, depth + 1))


def ptrkey(P, t):
    t = P.type(t) if t is not None else {'k': '?', 's': ''}
    while t['k'] in ('ref', 'ptr'):
        t = P.type(t['to'])
    s = t['s'].replace('const ', '')
    if not any(s.startswith('std::' + c) for c in ('map<', 'set<', 'multimap<', 'multiset<', 'unordered_map<', 'unordered_set<',
                                                   'unordered_multimap<', 'unordered_multiset<')):
        return False
    a = t.get('args') or []
    return bool(a) and isinstance(a[0], int) and P.type(a[0])['k'] == 'ptr'


def ptrelem(P, t):
    s = P.type(t)['s'] if t is not None else ''
    return 'normal_iterator<' in s and s.split('normal_iterator<')[1].split(',')[0].strip().endswith('* *')


# ----------------------------------------------------------------- clock --
def clock(C, P, fns, decls, callers):
    """Values derived from the clock: fixpoint over variables, parameters and
    results, then every use is a print or a limit the caller switched on."""
    tv, tf = set(), set()

    def tainted(e):
        if isinstance(e, list):
            return any(tainted(y) for y in e)
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k == 'var':
            return e.get('id') in tv
        if k == 'call':
            g = e.get('f') or {}
            if not g.get('repo') and g.get('name') in CLOCK and (g.get('q') or '').split('::')[0] in (
                    'clock', 'std', 'time', g.get('name')):
                return True
            if g.get('key') in P.fns:
                return g['key'] in tf
        if k == 'lambda' and not e.get('specs'):
            return tainted(e['fn'].get('body'))
        return any(tainted(v) for a, v in e.items() if isinstance(v, (dict, list)) and not (a == 'f' and k == 'call') and
                   not (a == 'fn' and k == 'lambda' and e.get('specs')))

    def gives(x):
        """A lambda that returns the time."""
        if isinstance(x, list):
            return any(gives(y) for y in x)
        if not isinstance(x, dict):
            return False
        return x.get('k') == 'return' and tainted(x.get('e')) or any(gives(v) for v in x.values() if isinstance(v, (dict, list)))

    def switched(c, want=True):
        """Variables that are not zero when c has the truth value."""
        c = strip(c)
        if c.get('k') == 'un' and c.get('op') == '!':
            return switched(c['e'], not want)
        if c.get('k') == 'var':
            return {c['id']} if want else set()
        if c.get('k') != 'bin':
            return set()
        op, a, b = c.get('op'), strip(c['lhs']), strip(c['rhs'])
        if op in ('&&', '||'):
            return switched(a, want) | switched(b, want) if (op == '&&') == want else set()
        if a.get('k') in ('int', 'float') and b.get('k') == 'var':
            a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if a.get('k') != 'var' or b.get('k') not in ('int', 'float'):
            return set()
        if not want:
            op = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(op, op)
        try:
            v = float(b.get('v'))
        except (TypeError, ValueError):
            return set()
        if op == '!=' and v == 0 or op == '>' and v >= 0 or op == '>=' and v > 0:
            return {a['id']}
        return set()

    def given(s):
        return {i for i in s if i not in tv and decls.get(i, ('',))[0] in ('param', 'local', 'lparam')}

    def scan(f):
        bad, used, out = [], [0], [False]

        def decision(c, on):
            """The condition may differ by the clock with no limit set."""
            return tainted(c) and not (on | given(switched(c)))

        def go(x, on):
            if isinstance(x, list):
                on = set(on)
                for y in x:
                    go(y, on)
                    # if (!limit) return/continue: what follows has it on
                    if isinstance(y, dict) and y.get('k') == 'if' and not y.get('else') and leaves(y.get('then')):
                        on |= given(switched(y.get('c'), False))
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k in ('if', 'while', 'for', 'do', 'cond', 'switch'):
                c = x.get('c')
                if c is not None and tainted(c):
                    used[0] += 1
                    if decision(c, on) or k == 'switch':
                        bad.append(('decides by the clock without a limit being set', x))
                yes, no = (given(switched(c)), given(switched(c, False))) if c else (set(), set())
                for a, v in x.items():
                    if isinstance(v, (dict, list)):
                        go(v, on | yes if a in ('then', 'a', 'body', 'c') else on | no if a in ('else', 'b') else on)
                return
            if k == 'return' and x.get('e') is not None and tainted(x['e']):
                if decision(x['e'], on) or P.type(f['ret'])['k'] != 'bool':
                    out[0] = True
            if k == 'call':
                g = x.get('f') or {}
                for a in x.get('args') or ():
                    if isinstance(a, dict) and strip(a).get('k') != 'lambda' and tainted(a):
                        used[0] += 1
                        if g.get('name') in PRINT or g.get('repo') and g.get('key') in P.fns or g.get('name') in CLOCK or \
                                (g.get('name') or '').startswith(('operator-', 'operator/', 'operator+', 'operator*', 'operator<', 'operator>',
                                                                  'duration_cast', 'duration', 'count', 'min', 'max')):
                            continue
                        bad.append(('passes the time to %s' % g.get('name'), x))
            if k == 'assign' and tainted(x.get('rhs')) and strip(x['lhs']).get('k') != 'var':
                bad.append(('stores the time', x))
            if k == 'sub' and tainted(x.get('idx')):
                bad.append(('indexes by the time', x))
            for a, v in x.items():
                if isinstance(v, (dict, list)) and not (a == 'f' and k == 'call'):
                    go(v, on)
        go([i.get('e') for i in f.get('inits') or ()], set())
        go([f.get('body')], set())
        return bad, used[0], out[0]
    while True:
        n = len(tv) + len(tf)
        for f in fns:
            for x in parts(f):
                k = x.get('k')
                if k == 'vardecl' and x.get('init') is not None and x['id'] not in tv and \
                        (tainted(x['init']) if strip(x['init']).get('k') != 'lambda' else gives(strip(x['init']))):
                    tv.add(x['id'])
                elif k == 'assign' and strip(x['lhs']).get('k') == 'var' and strip(x['lhs'])['id'] not in tv and tainted(x['rhs']):
                    tv.add(strip(x['lhs'])['id'])
                elif k == 'call' and isinstance(x.get('f'), dict) and x['f'].get('key') in P.fns:
                    g = P.fns[x['f']['key']]
                    for p, a in zip(g['params'], x.get('args') or ()):
                        if p['id'] not in tv and tainted(a):
                            tv.add(p['id'])
                        if p['id'] in tv and P.type(p['t'])['k'] == 'ref' and strip(a).get('k') == 'var':
                            tv.add(strip(a)['id'])
        for f in fns:
            if f['key'] not in tf and scan(f)[2]:
                tf.add(f['key'])
        if len(tv) + len(tf) == n:
            break
    for f in fns:
        bad, used, _ = scan(f)
        if used or bad:
            C.ob(not bad, f['q'] + '|clock', '%s %s' % (f['q'], bad[0][0] if bad else ''), (f['file'], bad[0][1].get('l', f['line']) if bad else f['line']))


def leaves(x):
    if not isinstance(x, dict):
        return False
    if x.get('k') == 'seq':
        return bool(x.get('b')) and leaves(x['b'][-1])
    return x.get('k') in ('return', 'continue')


if __name__ == '__main__':
    rule.main('C15', main)
