"""C27: generated and nearest values lie in the model's support.

The values that nearest, sample, sample_corrupted and propose_clean return are
read off path by path; linear facts of the branches decide that each lies in the
range for which the same model has parameters."""
from sa import rule
from sa.bounds import lin, plus, facts_of, prove, natural, keyfacts
from sa.flow import sites, flat, near, at, has, subterms
from sa.db import plain
from sa.load import load
from sa.interp import pp, n, mk_add, mk_mul
from sa.rule import Broken

RULE = ('A category drawn or projected is a position in the table of parameters; a character drawn, projected or inserted is '
        'between the lowest and the highest of the model, whose tables have one row and one column per character and one '
        'for the end; a category value is one of those listed.  A nearest value of an acceptable value is that value.  '
        'Proposals are made of parts of the observations and are brought to the nearest acceptable value before they are scored.')

THIS = ('this',)
DC = 'DirichletCategorical::sample'


class Odd(Exception):
    pass


def main():
    P = load(defs=['-DNDEBUG'])
    C = rule.Check('C27', RULE, ['the lowest character of a model is not above its highest, models have at least one category',
                                 'characters given to an emission are in its range'], min_obligations=40, program=P)
    for q, fun in TABLE:
        fs = [f for f in P.fns.values() if f['q'] == q and f.get('body')]
        if not fs:
            if q in MUST:
                C.ob(False, q + '|missing', '%s is missing: values are not brought into the support' % q)
            else:
                C.unanalysed.append('no ' + q)
        for f in fs:
            if q.split('::')[0] == q.split('::')[-1] and len(f['params']) == 1 and q.split('::')[0] in ptype(P, f, 0):
                continue
            def opaque(g, f=f):
                if g.get('key') == f['key'] or g.get('q', '') in OPAQUE:
                    return True
                h = P.fns.get(g.get('key'))
                return h is None or not near(h['file'], f['file'])
            try:
                ps = C.try_run(f, opaque=opaque, snap=True, sizes=True)
                if ps is None:
                    continue
                ps = [p for p in ps if not p.aborted and p.exit[0] != 'abort']
                if not ps:
                    raise Odd('no path')
                C.note(f['q'])
                for p in ps:
                    fun(C, f, p)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:160]))
    return C.finish()


# ---------------------------------------------------------------- helpers --
def fld(t, x):
    return ('f', t, x)


def nv(t):
    t = plain(t)

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and len(x) > 4:
                x = x[:4]
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return x
    return go(t)


def par(f, i):
    return ('p', f['params'][i]['name'])


def ptype(P, f, i):
    return P.type(f['params'][i]['t'])['s']


def iff(decs):
    """Linear facts and inequalities decided on the way."""
    facts, ne = [], []
    for a, t in decs:
        a = nv(a)
        while a[0] == 'not':
            a, t = a[1], not t
        facts += facts_of(a, t)
        if a[0] == 'eq' and not t and len(a) == 3:
            ne.append(plus(lin(a[1]), lin(a[2]), -1))
        if a[0] == 'fn' and a[1] in ('isdigit', 'std::isdigit') and len(a) == 3:
            c = lin(a[2])
            if t:
                facts += [plus(c, {None: -48}), plus({None: 57}, c, -1)]
    return facts, ne


def sharpen(facts, ne):
    """a != b and a <= b give a < b."""
    out = list(facts)
    for d in ne:
        m = {a: -c for a, c in d.items()}
        if prove(d, out):
            out.append(plus(d, {None: -1}))
        elif prove(m, out):
            out.append(plus(m, {None: -1}))
    return out


def cases(t):
    """A value with its minima and maxima taken apart: (facts, value)."""
    t = nv(t)
    if t[0] in ('fn', 'call') and str(t[1]).split('::')[-1] in ('clamp', 'min', 'max'):
        a = list(t[2:]) if t[0] == 'fn' else list(t[3])
        q = str(t[1]).split('::')[-1]
        if q == 'clamp' and len(a) == 3:
            t = ('fn', 'min', ('fn', 'max', a[0], a[1]), a[2])
            yield from cases(t)
            return
        if len(a) == 2:
            for fa, x in cases(a[0]):
                for fb, y in cases(a[1]):
                    d = plus(lin(x), lin(y), -1)
                    m = {k: -c for k, c in d.items()}
                    if q == 'min':
                        yield fa + fb + [m], x
                        yield fa + fb + [d], y
                    else:
                        yield fa + fb + [d], x
                        yield fa + fb + [m], y
            return
    if t[0] == 'ite' and len(t) == 4:
        for tr, v in ((True, t[2]), (False, t[3])):
            for fa, x in cases(v):
                yield fa + facts_of(nv(t[1]), tr), x
        return
    yield [], t


def never(facts):
    """The facts exclude each other."""
    return any(prove(plus({a: -c for a, c in g.items()}, {None: -1}), facts, 5) for g in facts) or any(
        set(g) <= {None} and g.get(None, 0) < 0 for g in facts)


def within(v, lo, hi, facts):
    v = lin(v) if isinstance(v, tuple) else v
    return prove(plus(v, lin(lo), -1), facts, 5) and prove(plus(lin(hi), v, -1), facts, 5)


def less(t, k=1):
    return mk_add(t, n(-k))


def draw(t):
    return t[0] == 'call' and str(t[1]).startswith('std::') and t[1].endswith('_distribution::operator()')


def made(p, t):
    v = t[2]
    for _ in range(6):
        if v in p.store and p.store[v] != v:
            v = p.store[v]
    if v[0] in ('ctor', 'tmp', 'obj') and len(v) >= 2:
        return [nv(x) for x in v[2:]]
    raise Odd('the generator')


def length(t):
    """How many elements a sequence has (a term)."""
    t = nv(t)
    if t[0] == 'cont':
        base, ops = t[1], t[2]
        k = {'fill': lambda: base[1], 'empty': lambda: n(0), 'list': lambda: n(len(base[1]))}.get(base[0], lambda: ('size', base))()
        for o in ops:
            if o[0] == 'each':
                pushes = [[x for x in alt[1] if x[0] != 'put'] for alt in o[2]]
                if all(not x for x in pushes):
                    continue
                if all(len(x) == 1 and x[0][0] == 'push' for x in pushes) and o[1][0] == 'idx' and \
                        all(alt[2] in ('next', 'continue') for alt in o[2] if len(alt) > 2):
                    k = mk_add(k, nv(o[1][2]))
                    continue
                raise Odd('a length')
            if o[0] == 'push':
                k = mk_add(k, n(1))
            elif o[0] not in ('put', 'reserve'):
                raise Odd('a length')
        return k
    if t[0] == 'call' or t[0] == 'fn':
        raise Odd('a length')
    return ('size', t)


def same(a, b):
    d = plus(lin(nv(a)), lin(nv(b)), -1)
    return not any(d.values())


# ------------------------------------------------------------- categories --
def category_nearest(C, f, p):
    x = par(f, 0)
    N = ('size', fld(THIS, 'counts'))
    facts, ne = iff(p.decisions)
    facts += [plus(lin(N), {None: -1})]
    unsigned = any(nv(a)[0] in ('lt', 'le') and x in nv(a)[1:] and has(nv(a), N) for a, t in p.decisions) and \
        not any(nv(a) in (('lt', x, n(0)), ('le', n(0), x), ('lt', n(-1), x)) for a, t in p.decisions)
    for extra, v in cases(p.exit[1]):
        fs = sharpen(facts + extra + keyfacts(v), ne)
        if never(fs):
            continue
        ok = within(v, n(0), less(N), fs)
        if not ok and v == x and unsigned and casts(C.P, f):
            raise Odd('an unsigned comparison')
        C.ob(ok, f['q'] + '|range', '%s may return %s, which is no category' % (f['q'], pp(v)[:60]), f, path=p)
        ins = sharpen(fs + [lin(x), plus(lin(less(N)), lin(x), -1)], ne)
        C.ob(v == x or never(ins) or prove(plus(lin(v), lin(x), -1), ins, 5) and prove(plus(lin(x), lin(v), -1), ins, 5),
             f['q'] + '|own', '%s changes a category to %s' % (f['q'], pp(v)[:60]), f, path=p)


def casts(P, f):
    """The function converts a signed value to an unsigned one."""
    def go(x):
        if isinstance(x, dict):
            if x.get('k') == 'cast' and 'unsigned' in P.type(x.get('t'))['s'] and x.get('e', {}).get('k') == 'var':
                return True
            return any(go(v) for v in x.values())
        return isinstance(x, (list, tuple)) and any(go(v) for v in x)
    return go(f['body'])


def category_sample(C, f, p):
    N = ('size', fld(THIS, 'counts'))
    v = nv(p.exit[1])
    if v[0] == 'call' and v[1] == 'choice':
        w = v[3][0]
    elif draw(v):
        a = made(p, v)
        w = a[0][1] if a[0][0] == 'iter' else a[0]
    else:
        raise Odd('how the category is drawn')
    C.ob(same(length(w), N), f['q'] + '|categories', '%s draws from another number of categories' % f['q'], f, path=p)


def any_category(C, f, p):
    """The result of choice: a position in its weights."""
    v = nv(p.exit[1])
    if not draw(v):
        C.ob(not any(draw(x) for x in subterms(v)), f['q'] + '|position', '%s returns another position than drawn' % f['q'], f, path=p)
        raise Odd('how the position is drawn')
    a = made(p, v)
    W = par(f, 0)
    whole = len(a) == 1 and a[0] == W or len(a) == 2 and a[0][0] == 'iter' and a[0][1] == W and a[0][2] == n(0) and a[1] == ('end', W)
    C.ob('discrete' in v[1] and whole, f['q'] + '|weights', '%s does not draw from all weights' % f['q'], f, path=p)


# ------------------------------------------------------------- characters --
def string_nearest(C, f, p):
    cls = f['q'].split('::')[0]
    x = par(f, 0)
    MAX = fld(THIS, 'max_length')
    lo, hi = limits(C, cls)
    r = nv(p.exit[1])
    if r == x:
        C.ob(False, f['q'] + '|kept', '%s returns strings it was not asked to look into' % f['q'], f, path=p)
        return
    if r[0] != 'cont' or r[1] not in (('empty',), ('s', '')):
        raise Odd('how the string is made')
    loops = [e for e in p.trace if e[0] == 'loop' and any(b[0] for b in e[2])]
    each = [o for o in r[2] if o[0] == 'each']
    if len(each) != 1 or len(r[2]) != 1 or len(loops) != 1:
        raise Odd('how the string is made')
    k = nv(each[0][1])
    if k[0] != 'idx':
        raise Odd('how the string is gone through')
    C.ob(k[2] == ('size', x), f['q'] + '|all', '%s does not look at all characters' % f['q'], f, path=p)
    c = ('at', x, k)
    inr = [plus(lin(c), lin(lo), -1), plus(lin(hi), lin(c), -1)]
    for alt in each[0][2]:
        dec, ops, how = alt[0], [o for o in alt[1] if o[0] != 'reserve'], alt[2]
        facts, ne = iff(dec)
        bounds = limitfacts(lo, hi)
        bounded = None
        LEN = ('size', ('made',))
        lf, ln = [lin(LEN), plus(lin(MAX), lin(LEN), -1)], []
        asked = False
        for a, t in dec:
            a = nv(a)
            while a[0] == 'not':
                a, t = a[1], not t
            sz = [y for y in subterms(a) if y[0] == 'size' and y[1][0] in ('var', 'cont')]
            if sz and has(a, MAX):
                asked = True
                g, m = iff([(swap(a, sz[0], LEN), t)])
                lf, ln = lf + g, ln + m
            elif has(a, MAX):
                g, m = iff([(a, t)])
                bounded = prove(plus(lin(MAX), {None: -1}), sharpen(g + [lin(MAX)], m))
        lf = sharpen(lf, ln)
        room = prove(plus(plus(lin(MAX), lin(LEN), -1), {None: -1}), lf)
        full = asked and prove(plus(lin(LEN), lin(MAX), -1), lf)
        pushed = [o for o in ops if o[0] == 'push']
        if len(ops) != len(pushed) or len(pushed) > 1:
            raise Odd('how the string is made')
        digit = [(nv(a), t) for a, t in dec if nv(a)[0] == 'fn' and 'isdigit' in str(nv(a)[1])]
        dig = digit[0][1] if digit and digit[0][0][-1] == c else None
        fs = sharpen(facts + bounds, ne)
        if pushed:
            C.ob(nv(pushed[0][1]) == c, f['q'] + '|char', '%s adds another character' % f['q'], f, path=p)
            C.ob(prove(inr[0], fs, 5) and prove(inr[1], fs, 5), f['q'] + '|range', '%s keeps a character outside the range' % f['q'], f,
                 path=p)
            C.ob(room or bounded is False, f['q'] + '|length', '%s may return a string longer than the model allows' % f['q'], f,
                 path=p)
        else:
            over = full and bounded is not False
            if full and bounded is None:
                raise Odd('whether there is a maximum length')
            out = never(sharpen(fs + inr, ne)) or dig is False and (lo, hi) == (n(48), n(57))
            C.ob(over or out, f['q'] + '|drops', '%s drops an acceptable character' % f['q'], f, path=p)
        if how not in ('next', 'continue'):
            C.ob(full and bounded is not False, f['q'] + '|stops', '%s stops before the string has its maximum length' % f['q'], f,
                 path=p)


def swap(t, a, b):
    return b if t == a else tuple(swap(x, a, b) if isinstance(x, tuple) else x for x in t)


def limits(C, cls):
    """The lowest and highest character of a string model."""
    if cls == 'StringNat':
        for f in [f for f in C.P.fns.values() if f['q'] == 'StringNat::StringNat']:
            for i in f.get('inits', []):
                a = chars(i)
                if len(a) == 2:
                    return n(a[0]), n(a[1])
        raise Odd('the characters of StringNat')
    return fld(THIS, 'min_char'), fld(THIS, 'max_char')


def chars(x):
    """Character literals below an expression, in order."""
    out = []

    def go(y):
        if isinstance(y, dict):
            if y.get('k') == 'char':
                v = y.get('v', y.get('val'))
                out.append(ord(v) if isinstance(v, str) and len(v) == 1 else int(v))
                return
            for z in y.values():
                go(z)
        elif isinstance(y, (list, tuple)):
            for z in y:
                go(z)
    go(x)
    return out


def limitfacts(lo, hi):
    out = [plus(lin(hi), lin(lo), -1)]
    if lo == n(48):
        a, b = lin(fld(THIS, 'min_char')), lin(fld(THIS, 'max_char'))
        out += [plus(a, {None: -48}), plus({None: 48}, a, -1), plus(b, {None: -57}), plus({None: 57}, b, -1)]
    return out


def bigram_tables(C, f, p):
    lo, hi = ('p', f['params'][1]['name']), ('p', f['params'][2]['name'])
    last = {}
    for e in p.trace:
        if e[0] in ('init', 'set'):
            last[nv(e[1])] = nv(e[2])
    lo, hi = last.get(fld(THIS, 'min_char'), lo), last.get(fld(THIS, 'max_char'), hi)
    want = mk_add(mk_add(hi, mk_mul(n(-1), lo)), n(1))
    C.ob(fld(THIS, 'num_chars') in last and same(last[fld(THIS, 'num_chars')], want), f['q'] + '|chars',
         '%s does not count the characters from the lowest to the highest' % f['q'], f, path=p)
    tables(C, f, p, fld(THIS, 'transition_dists'), mk_add(want, n(1)))


def tables(C, f, p, what, size):
    """The member is filled with `size` tables of `size` categories."""
    loops = [e for e in p.trace if e[0] == 'loop' and any(x[0] == 'push' and nv(x[1]) == what for b in e[2] for x in b[0])]
    if len(loops) != 1:
        raise Odd('how the tables are made')
    k = nv(loops[0][1])
    C.ob(k[0] == 'idx' and same(k[2], size), f['q'] + '|rows ' + what[2], '%s makes another number of tables in %s' % (f['q'], what[2]), f,
         path=p)
    for b, dec, how in loops[0][2]:
        ps = [x for x in b if x[0] == 'push' and nv(x[1]) == what]
        ok = len(ps) == 1 and how in ('next', 'continue')
        if ok:
            v = nv(ps[0][2])
            if v[0] in ('ctor', 'obj', 'tmp') and len(v) > 2:
                v = v[-1]
            ok = same(v, size)
        C.ob(ok, f['q'] + '|columns ' + what[2], '%s makes tables of another number of categories in %s' % (f['q'], what[2]), f, path=p)


def bigram_char(C, f, p):
    i = par(f, 0)
    C.ob(same(p.exit[1], mk_add(fld(THIS, 'min_char'), i)), f['q'] + '|char', '%s is not the character at the position' % f['q'], f, path=p)


def bigram_index(C, f, p):
    c = par(f, 0)
    C.ob(same(p.exit[1], mk_add(c, mk_mul(n(-1), fld(THIS, 'min_char')))), f['q'] + '|index', '%s is not the position of the character' % f['q'],
         f, path=p)


def bigram_sample(C, f, p):
    N = fld(THIS, 'num_chars')
    MAX = fld(THIS, 'max_length')
    s = nv(p.exit[1])
    if s[0] != 'cont' or s[1] not in (('empty',), ('s', '')):
        raise Odd('how the string is made')
    for o in s[2]:
        if o[0] == 'reserve':
            continue
        if o[0] != 'each':
            raise Odd('how the string is made')
        for alt in o[2]:
            dec, ops, how = alt[0], [x for x in alt[1] if x[0] != 'reserve'], alt[2]
            facts, ne = iff(dec)
            if len(ops) > 1 or ops and ops[0][0] != 'push':
                raise Odd('how the string is made')
            if ops:
                c = nv(ops[0][1])
                cur = [x for x in subterms(c) if x[0] == 'var' or x[0] == 'call' and x[1] == DC]
                if len(cur) != 1 or cur[0][0] == 'var' and not drawn(C, f, p, cur[0]):
                    raise Odd('what the character is made of')
                cur = cur[0]
                if c[0] == 'call' and c[1] == 'Bigram::index_to_char':
                    c = mk_add(fld(THIS, 'min_char'), c[3][0])
                fs = facts + [lin(cur), plus(lin(N), lin(cur), -1)]
                fs = sharpen(fs, ne)
                pos = plus(lin(c), lin(fld(THIS, 'min_char')), -1)
                C.ob(prove(pos, fs, 5) and prove(plus(plus(lin(N), {None: -1}), pos, -1), fs, 5), f['q'] + '|range',
                     '%s may add a character outside the range' % f['q'], f, path=p)
                if how in ('next', 'continue'):
                    full = [t for a, t in dec if has(nv(a), MAX) and any(y[0] == 'size' for y in subterms(nv(a)))]
                    C.ob(bool(full), f['q'] + '|length', '%s may draw a string longer than the model allows' % f['q'], f, path=p)


def drawn(C, f, p, var):
    """The loop variable only holds categories drawn from the tables."""
    for (k, v), runs in C.last.carries.items():
        if nv(v) != var:
            continue
        for alts, init in runs:
            vals = [init] + [a[1] for a in alts]
            for x in vals:
                x = None if x is None else nv(x)
                if x is None or x == var:
                    continue
                if not (x[0] == 'call' and x[1] == DC and x[2][0] == 'at' and x[2][1] == fld(THIS, 'transition_dists')):
                    return False
        return True
    return False


def digits(C, f, p):
    lo, hi = limits(C, 'StringNat')
    C.ob((lo, hi) == (n(48), n(57)), f['q'] + '|digits', 'the characters of StringNat are not the digits', f, path=p)


# ------------------------------------------------------------ listed ones --
def listed_tables(C, f, p):
    vs = par(f, 0)
    last = {nv(e[1]): nv(e[2]) for e in p.trace if e[0] in ('init', 'set')}
    S = last.get(fld(THIS, 'strings'))
    D = last.get(fld(THIS, 'dc'))
    if D is not None and D[0] in ('ctor', 'obj', 'tmp') and len(D) > 2:
        D = D[-1]
    if S is None or D is None:
        raise Odd('the members')
    C.ob(S == vs and D in (('size', vs), ('size', S), ('size', fld(THIS, 'strings'))), f['q'] + '|categories',
         '%s does not make one category per string' % f['q'], f, path=p)


def listed_sample(C, f, p):
    S = fld(THIS, 'strings')
    v = nv(p.exit[1])
    C.ob(v == ('at', S, ('call', DC, fld(THIS, 'dc'), (par(f, 0),))), f['q'] + '|string', '%s returns another string than the one drawn' % f['q'],
         f, path=p)


def listed_index(C, f, p):
    S = fld(THIS, 'strings')
    v = nv(p.exit[1])
    F = found(S, par(f, 0))
    C.ob(v in (mk_add(F, mk_mul(n(-1), ('iter', S, n(0), 'v'))), ('fn', 'distance', ('iter', S, n(0), 'v'), F)) or isidx(v, S, par(f, 0), p),
         f['q'] + '|index', '%s is not the position of the string' % f['q'], f, path=p)


def isidx(v, S, x, p):
    """A loop position at which the string was found."""
    if v[0] != 'idx' or v[2] != ('size', S):
        if v[0] == 'idx':
            return False
        raise Odd('the position')
    return True


def found(S, x):
    return ('fn', 'find', ('iter', S, n(0), 'v'), ('end', S), x)


def listed_nearest(C, f, p):
    S = fld(THIS, 'strings')
    x = par(f, 0)
    F = found(S, x)
    there = None
    for a, t in p.decisions:
        a = nv(a)
        if a[0] == 'eq' and F in a[1:] and ('end', S) in a[1:]:
            there = not t
        elif a[0] == 'lt' and a[1] == n(0) and a[2][0] == 'fn' and a[2][1] == 'count' and a[2][-1] == x:
            there = t
    def ok(v, decs=()):
        if v == x:
            return there is True
        if v[0] == 'at' and v[1] == S:
            return v[2][0] == 'idx' and v[2][2] == ('size', S) or v[2] == n(0) or v[2][0] == 'last' and \
                all(ok(('at', S, nv(a[1]))) for a in v[2][2]) and ok(('at', S, nv(v[2][3])))
        if v[0] == 'last':
            return all(ok(a[1]) for a in v[2]) and ok(v[3])
        if v[0] == 'at' and v[1] != S and v[1] != F:
            raise Odd('what is returned')
        if v[0] in ('addr', 'deref'):
            return ok(v[1])
        if v == ('front', S):
            return True
        raise Odd('what is returned')
    v = nv(p.exit[1])
    C.ob(ok(v), f['q'] + '|listed', '%s may return a string that is not listed' % f['q'], f, path=p)
    if there is True:
        C.ob(v == x or v == ('at', F, ()) or v == ('deref', F), f['q'] + '|own', '%s changes a listed string' % f['q'], f, path=p)


# -------------------------------------------------------------- emissions --
LOW, HIGH = fld(THIS, 'lowest_char'), fld(THIS, 'highest_char')


def random_character(C, f, p):
    v = nv(p.exit[1])
    if not draw(v):
        if any(draw(x) for x in subterms(v)):
            d = [x for x in subterms(v) if draw(x)]
            if len(d) != 1 or 'uniform_int' not in d[0][1]:
                raise Odd('how the character is drawn')
            a = made(p, d[0])
            D = lin(d[0])
            fs = [plus(D, lin(a[0]), -1), plus(lin(a[1]), D, -1), plus(lin(HIGH), lin(LOW), -1)]
            C.ob(within(v, LOW, HIGH, fs), f['q'] + '|range', '%s may draw a character outside the range' % f['q'], f, path=p)
            return
        raise Odd('how the character is drawn')
    a = made(p, v)
    if 'uniform_int' not in v[1] or len(a) < 2:
        raise Odd('how the character is drawn')
    fs = [plus(lin(HIGH), lin(LOW), -1)]
    C.ob(prove(plus(lin(a[0]), lin(LOW), -1), fs) and prove(plus(lin(HIGH), lin(a[1]), -1), fs), f['q'] + '|range',
         '%s may draw a character outside the range' % f['q'], f, path=p)


def pieces(t):
    """Everything ever added to a string."""
    t = nv(t)
    if t[0] == 'cont':
        if t[1] not in (('empty',), ('s', '')):
            yield from pieces(t[1])
        for o in t[2]:
            if o[0] == 'push':
                yield nv(o[1]), ()
            elif o[0] == 'each':
                for alt in o[2]:
                    for v, d in pieces(('cont', ('empty',), alt[1])):
                        yield v, tuple(alt[0]) + d
            elif o[0] != 'reserve':
                raise Odd('how the string is made')
    elif t[0] == 'fill' and t[1] == n(1):
        yield t[2], ()
    elif t[0] == 'cat':
        for x in t[1]:
            yield from pieces(x)
    elif t[0] == 's' and t[1] == '' or t == ('empty',):
        return
    elif t[0] == 'last':
        for a in t[2]:
            yield from pieces(a[1])
        yield from pieces(t[3])
    else:
        yield t, ()


def simple_corrupted(C, f, p):
    clean = par(f, 0)
    k = 0
    for v, d in pieces(p.exit[1]):
        k += 1
        own = v[0] == 'at' and v[1] == clean and v[2][0] == 'idx' and prove(plus(lin(less(('size', clean))), lin(v[2]), -1), keyfacts(v)) or v == clean
        C.ob(own or v[0] == 'call' and v[1] == 'SimpleStringEmission::random_character', f['q'] + '|piece',
             '%s adds %s, which is neither a character of the string nor a random one' % (f['q'], pp(v)[:60]), f, path=p)
    if not k:
        raise Odd('no piece')


def simple_clean(C, f, p):
    obs = par(f, 0)

    def ok(v):
        if v[0] == 'at' and v[1][0] == 'at' and v[1][1] == obs:
            return True
        if v[0] == 'key' and obs in subterms(v):
            return True
        if v[0] in ('last', 'loopout'):
            alts = v[2] if v[0] == 'last' else v[3]
            return all(ok(nv(a[1])) for a in alts) and ok(nv(v[3 if v[0] == 'last' else 4]))
        if v == n(0):
            return True
        raise Odd('what is proposed')
    k = 0
    if p.exit[0] != 'ret' or p.exit[1] is None:
        return
    for s in sites(p):
        if s.ev[0] != 'push':
            continue
        v, d = nv(s.ev[2]), s.conds
        k += 1
        C.ob(ok(v), f['q'] + '|piece', '%s proposes characters that nobody observed' % f['q'], f, path=p)
        if v[0] == 'last' and any(nv(x) == n(0) for x in [a[1] for a in v[2]] + [v[3]]):
            z = [t for a, t in d if nv(a)[0] == 'eq' and v in nv(a)[1:] and n(0) in nv(a)[1:]]
            C.ob(z and z[-1] is False, f['q'] + '|end', '%s may add the character that stands for the end' % f['q'], f, path=p)
    if not k:
        raise Odd('no piece')


def context_tables(C, f, p):
    last = {nv(e[1]): nv(e[2]) for e in p.trace if e[0] in ('init', 'set')}
    size = mk_add(mk_add(last.get(HIGH, HIGH), mk_mul(n(-1), last.get(LOW, LOW))), n(2))
    for m in ('insertions', 'substitutions'):
        tables(C, f, p, fld(THIS, m), size)


def context_index(C, f, p):
    x = par(f, 0)
    v = nv(p.exit[1])
    if 'string' in ptype(C.P, f, 0):
        e = [t for a, t in p.decisions if nv(a) in (('empty', x), ('eq', x, ('s', '')), ('eq', ('s', ''), x), ('eq', n(0), ('size', x)))]
        if not e:
            raise Odd('whether there is a context')
        if e[-1]:
            C.ob(v == n(0), f['q'] + '|none', '%s of no context is not the first' % f['q'], f, path=p)
            return
        if v[0] == 'call' and v[1] == f['q']:
            C.ob(nv(v[3][0]) in (('at', x, n(0)), ('front', x), ('at', x, ('last',))), f['q'] + '|index', '%s is that of another character' % f['q'], f, path=p)
            return
        x = [y for y in (('at', x, n(0)), ('front', x), ('at', x, ('last',))) if has(v, y)]
        if not x:
            raise Odd('the context')
        x = x[0]
    C.ob(same(v, mk_add(mk_add(x, mk_mul(n(-1), LOW)), n(1))), f['q'] + '|index', '%s is not the position of the character' % f['q'], f, path=p)


def context_char(C, f, p):
    k = par(f, 0)
    facts, ne = iff(p.decisions)
    fs = facts + [lin(k), plus(plus(lin(HIGH), lin(LOW), -1), {None: 1}), plus(plus(plus(lin(HIGH), lin(LOW), -1), {None: 1}), lin(k), -1),
                  plus(lin(HIGH), lin(LOW), -1)]
    fs = sharpen(fs, ne)
    if never(fs):
        return
    zero = prove({a: -c for a, c in lin(k).items()}, fs)
    v = nv(p.exit[1])
    got = [x for x, d in pieces(v)]
    if v[0] == 'ctor':
        got = [x for x in v[2:] if isinstance(x, tuple) and x != n(1)]
    if zero:
        C.ob(not got, f['q'] + '|none', '%s of the first category is a character' % f['q'], f, path=p)
        return
    if len(got) != 1:
        C.ob(bool(got), f['q'] + '|char', '%s of a category is no character' % f['q'], f, path=p)
        raise Odd('the character')
    c = got[0]
    C.ob(same(c, mk_add(mk_add(LOW, k), n(-1))), f['q'] + '|char', '%s is not the character of the category' % f['q'], f, path=p)
    C.ob(within(c, LOW, HIGH, fs), f['q'] + '|range', '%s may be a character outside the range' % f['q'], f, path=p)


def context_corrupted(C, f, p):
    clean = par(f, 0)
    k = 0
    for v, d in pieces(p.exit[1]):
        k += 1
        ok = v[0] == 'call' and v[1] == 'BigramStringEmission::category_to_char'
        if ok:
            g = nv(v[3][0])
            ok = g[0] == 'call' and g[1] == DC and g[2][0] == 'at' and g[2][1] in (fld(THIS, 'insertions'), fld(THIS, 'substitutions'))
            i = g[2][2] if ok else None
            if ok and not (i[0] == 'call' and i[1] == 'BigramStringEmission::get_index' or i == n(0)):
                raise Odd('the context')
        elif not any(x[0] == 'call' and x[1] == 'BigramStringEmission::category_to_char' for x in subterms(v)) and v[0] != 'at':
            raise Odd('what is added')
        else:
            ok = v[0] == 'at' and v[1] == clean and False
        C.ob(ok, f['q'] + '|piece', '%s adds %s, which is not drawn from its tables' % (f['q'], pp(v)[:60]), f, path=p)
    if not k:
        raise Odd('no piece')


def voted(C, f, p):
    """Each piece kept is a character of the two strings."""
    k = 0

    def ok(v):
        if v[0] == 'f' and v[2] in ('deleted_char', 'inserted_char', 'original', 'replacement', 'c'):
            return True
        if v[0] in ('last', 'loopout'):
            return True
        if v[0] == 'ite':
            return ok(v[2]) and ok(v[3])
        if v[0] == 's' or v[0] == 'n':
            return v == ('s', '')
        raise Odd('what is kept')
    for v, d in pieces(p.exit[1]):
        k += 1
        C.ob(ok(v), f['q'] + '|piece', '%s adds a character that neither string has' % f['q'], f, path=p)
    if not k:
        raise Odd('no piece')


def state_tables(C, f, p):
    tables(C, f, p, fld(THIS, 'emission_dists'), par(f, 0))


def state_sample(C, f, p):
    v = nv(p.exit[1])
    E = fld(THIS, 'emission_dists')
    if v[0] == 'call' and v[1] == DC:
        C.ob(v[2] == ('at', E, par(f, 0)), f['q'] + '|state', '%s draws for another state' % f['q'], f, path=p)
        return
    C.ob(v[0] not in ('add', 'n') and v != par(f, 0) or not [1 for x in subterms(v) if x[0] == 'call' and x[1] == DC],
         f['q'] + '|state', '%s changes the category drawn' % f['q'], f, path=p)
    raise Odd('what is drawn')


def state_clean(C, f, p):
    E = fld(THIS, 'emission_dists')

    def ok(v):
        if v[0] == 'idx':
            return within(v, n(0), less(('size', E)), keyfacts(v))
        if v == n(0):
            return True
        if v[0] == 'last':
            if not all(ok(nv(a[1])) for a in v[2]):
                return False
            if nv(v[3]) != n(0):
                raise Odd('whether the loop always replaces its first value')
            return True
        if v[0] == 'n':
            return False
        if v[0] == 'add':
            w = [x for x in subterms(v) if x[0] == 'idx']
            return within(v, n(0), less(('size', E)), keyfacts(v) + [plus(lin(('size', E)), {None: -1})])
        raise Odd('what is proposed')
    C.ob(ok(nv(p.exit[1])), f['q'] + '|state', '%s may propose a state that is none' % f['q'], f, path=p)


def flipped(C, f, p):
    v = nv(p.exit[1])
    x = par(f, 0)
    if f['q'].endswith('propose_clean'):
        ok = v[0] == 'not' and v[1][0] in ('at', 'front') and v[1][1] == x
    else:
        ok = v == ('not', x) or v in (('eq', x, ('b', False)), ('eq', ('b', False), x), ('eq', x, n(0)), ('eq', n(0), x))
        if not ok and v[0] == 'b':
            asked = [t for a, t in p.decisions if nv(a) == x]
            ok = bool(asked) and v[1] is (not asked[-1])
    C.ob(ok, f['q'] + '|flip', '%s does not return the other value' % f['q'], f, path=p)


def clean_or_nested(C, f, p):
    v = nv(p.exit[1])
    x = par(f, 0)
    hit = [t for a, t in p.decisions if nv(a)[0] == 'call' and nv(a)[1] == 'BetaBernoulli::sample' and nv(a)[2] == fld(THIS, 'bb')]
    nested = v[0] == 'call' and v[1] == 'Emission::sample_corrupted' and v[2] == fld(THIS, 'be') and v[3][0] == x
    if not hit:
        raise Odd('whether the value is corrupted')
    C.ob(nested if hit[-1] else v == x, f['q'] + '|value', '%s returns %s' % (f['q'], pp(v)[:60]), f, path=p)


def one_of(C, f, p):
    """The proposal is one of the observations."""
    obs = par(f, 0)

    def ok(v):
        if v[0] in ('at', 'front') and v[1] == obs:
            return v[0] == 'front' or v[2][0] == 'idx' or v[2] in (n(0), ('last',))
        if v[0] == 'last':
            return all(ok(nv(a[1])) for a in v[2]) and ok(nv(v[3]))
        if v[0] == 'n' or v[0] == 'b' or v == ('s', '') or v == ('empty',):
            return False
        raise Odd('what is proposed')
    C.ob(ok(nv(p.exit[1])), f['q'] + '|observed', '%s may propose a value nobody observed' % f['q'], f, path=p)


def same_value(C, f, p):
    C.ob(nv(p.exit[1]) == par(f, 1 if f['q'].startswith('Relation') else 0), f['q'] + '|same', '%s changes the value' % f['q'], f, path=p)


# --------------------------------------------------------------- relations --
def of_cluster(C, f, p):
    x, items = par(f, 1), par(f, 2)
    CL = fld(THIS, 'clusters')
    Z = ('call', 'CleanRelation::get_cluster_assignment', THIS, (items,))
    known = [t for a, t in p.decisions if nv(a) == ('contains', CL, Z)]
    v = nv(p.exit[1])
    C.ob(v[0] == 'call' and v[1].endswith('::nearest') and v[3] == (x,), f['q'] + '|nearest', '%s does not ask the model of the items' % f['q'], f,
         path=p)
    if v[0] != 'call' or not known:
        return
    new = v[2][0] == 'call' and v[2][1] == 'CleanRelation::make_new_distribution'
    C.ob(v[2] == ('at', CL, Z) if known[-1] else new, f['q'] + '|model', '%s asks another model than that of the items' % f['q'], f, path=p)


def projected(C, f, p):
    """transition_latent_value: what is scored was brought to the nearest value."""
    ts = [ptype(C.P, f, i) for i in range(len(f['params']))]
    base = [par(f, i) for i, t in enumerate(ts) if 'Relation<' in t and 'map' not in t]
    items = [par(f, i) for i, t in enumerate(ts) if ('vector<int' in t or 'T_items' in t) and 'map' not in t]
    if len(base) != 1 or not items:
        raise Odd('the parameters')
    k = 0
    for e in flat(p.trace):
        if e[0] != 'push':
            continue
        vs = [nv(e[2])]
        while vs:
            v = vs.pop()
            if v[0] == 'call' and v[1].endswith('::propose_clean'):
                k += 1
                C.ob(False, f['q'] + '|projected', '%s scores a proposal that the model may not accept' % f['q'], at(e), p)
            elif v[0] == 'call' and v[1].endswith('::nearest'):
                k += 1
                g = v[3]
                C.ob(v[2] == base[0] and g[1][0] == 'call' and g[1][1].endswith('::propose_clean') and g[2] == items[0], f['q'] + '|model',
                     '%s brings a proposal to the nearest value of something else' % f['q'], at(e), p)
    if not k and any(e[0] == 'call' and e[1].endswith('::propose_clean') for e in flat(p.trace)):
        raise Odd('what becomes of the proposals')


T = 'BigramStringEmission::'
TABLE = [
    ('DirichletCategorical::nearest', category_nearest), ('DirichletCategorical::sample', category_sample), ('choice', any_category),
    ('Bigram::nearest', string_nearest), ('StringNat::nearest', string_nearest), ('StringNat::StringNat', digits),
    ('Bigram::Bigram', bigram_tables), ('Bigram::index_to_char', bigram_char), ('Bigram::char_to_index', bigram_index),
    ('Bigram::sample', bigram_sample),
    ('StringCat::StringCat', listed_tables), ('StringCat::sample', listed_sample), ('StringCat::string_to_index', listed_index),
    ('StringCat::nearest', listed_nearest),
    ('SimpleStringEmission::random_character', random_character), ('SimpleStringEmission::sample_corrupted', simple_corrupted),
    ('SimpleStringEmission::propose_clean', simple_clean),
    (T + 'BigramStringEmission', context_tables), (T + 'get_index', context_index), (T + 'category_to_char', context_char),
    (T + 'sample_corrupted', context_corrupted), (T + 'two_string_vote', voted),
    ('CategoricalEmission::CategoricalEmission', state_tables), ('CategoricalEmission::sample_corrupted', state_sample),
    ('CategoricalEmission::propose_clean', state_clean),
    ('BitFlip::sample_corrupted', flipped), ('BitFlip::propose_clean', flipped),
    ('Sometimes::sample_corrupted', clean_or_nested), ('Sometimes::propose_clean', one_of),
    ('CleanRelation::nearest', of_cluster), ('Relation::nearest', same_value), ('Distribution::nearest', same_value),
    ('transition_latent_value', projected),
]
MUST = {'DirichletCategorical::nearest', 'Bigram::nearest', 'StringCat::nearest', 'CleanRelation::nearest'}
OPAQUE = {q for q, _ in TABLE} | {'Emission::sample_corrupted', 'Emission::propose_clean', 'CleanRelation::get_cluster_assignment',
                                  'CleanRelation::make_new_distribution', 'topk_alignments', T + 'log_prob_distance'}


if __name__ == '__main__':
    rule.main('C27', main)
