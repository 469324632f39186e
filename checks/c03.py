"""C03: sampling and scoring use the same parameters.

For every model: the law of the value returned by sample (read off from the
library generator it is drawn from and that generator's parameters, as terms
over the model's fields) must be the law that logp scores."""
import sympy
from sa import rule, models, algebra
from sa.interp import (mk_add, mk_sub, mk_mul, mk_div, mentions, subterms, subst, n, pp, Interp, ZERO, ONE)
from sa.rule import events, islocal, rootof, Broken
from c01 import initial
from c02 import (after, zero, Unsupported, when_empty, impossible, conflict, is_minus_inf, resolve_weights, leaf, norm)

RULE = ('The law of a sampled value equals the law that logp scores: discrete draws have weights proportional to '
        'exp(logp(value)), continuous draws have the location, scale and degrees of freedom of the scored density, '
        'composite models draw from the nested model and with the argument they score, chains carry the drawn symbol '
        'into the next context, and relations sample from the model that scores the same items. The helpers that draw an index '
        'from log weights give every index a probability proportional to the exponential of its own weight.')

X = ('p', 'x')


class Shape(Exception):
    pass


# ---------------------------------------------------------------- laws ----
def draw(t):
    return isinstance(t, tuple) and t and t[0] == 'call' and t[1].startswith('std::') and \
        t[1].endswith('_distribution::operator()')


def gen(t):
    return t[1].split('::')[1]


def args_of(t, p):
    """Constructor arguments of the generator a draw was made from."""
    o = t[2]
    v = p.store.get(o, o)
    seen = 0
    while v[0] == 'var' and v in p.store and seen < 5:
        v = p.store[v]
        seen += 1
    if v[0] in ('ctor', 'tmp', 'obj') and len(v) >= 2:
        return v[2:]
    raise Shape('generator %s' % pp(v)[:80])


def weights_of(t, p):
    a = args_of(t, p)
    if len(a) == 1:
        w = a[0]
    elif len(a) == 2:
        w = a[0][1] if a[0][0] == 'iter' else a[0]
    else:
        raise Shape('weights')
    seen = 0
    while w in p.store and w[0] == 'var' and seen < 5:
        w = p.store[w]
        seen += 1
    return w


def elements(seq, p):
    """Either a list of terms or (key, term) of a generated sequence."""
    seen = 0
    while seq[0] == 'var' and seq in p.store and seen < 5:
        seq = p.store[seq]
        seen += 1
    if seq[0] == 'list':
        return list(seq[1])
    if seq[0] == 'cont':
        base, ops = seq[1], seq[2]
        if base[0] == 'list' and not ops:
            return list(base[1])
        if base[0] in ('empty', 'fill') and all(o[0] == 'push' for o in ops) and base[0] == 'empty' and ops:
            return [o[1] for o in ops]
        if base[0] == 'fill' and ops and all(o[0] == 'put' and o[1][0] == 'n' for o in ops):
            d = {o[1][1]: o[2] for o in ops}
            if set(d) == set(range(len(d))) and base[1] == n(len(d)):
                return [d[i] for i in range(len(d))]
        if base[0] in ('empty', 'fill') and len(ops) == 1 and ops[0][0] == 'each':
            k, brs = ops[0][1], ops[0][2]
            brs = [b for b in brs]
            if len(brs) == 1 and len(brs[0][1]) == 1:
                o = brs[0][1][0]
                if o[0] == 'push':
                    return (k, o[1])
                if o[0] == 'put' and o[1] in (k, ('pos', k)):
                    return (k, o[2])
    if seq[0] == 'f':
        k = ('idx', 0, ('size', seq))
        return (k, ('at', seq, k))
    raise Shape('sequence %s' % pp(seq)[:100])


def resolve(t, p, depth=0):
    """Replace elements of generated local sequences by their values."""
    if not isinstance(t, tuple) or not t or depth > 40:
        return t
    if t[0] == 'at' and len(t) == 3 and t[1][0] in ('cont', 'list') and t[2][0] in ('idx', 'pos', 'n'):
        try:
            e = elements(t[1], p)
            if isinstance(e, list):
                if t[2][0] == 'n' and 0 <= t[2][1] < len(e):
                    return resolve(e[int(t[2][1])], p, depth + 1)
            else:
                k, v = e
                if t[2] == k or (t[2][0] == 'idx' and k[0] == 'idx' and
                                 same_extent(t[2][2], k[2], t[1], p)):
                    return resolve(subst(v, {k: t[2]}), p, depth + 1)
                if t[2] == ('pos', k):
                    return resolve(v, p, depth + 1)
        except Shape:
            pass
    r = tuple(resolve(x, p, depth + 1) if isinstance(x, tuple) else x for x in t)
    if r != t and r[0] == 'add':
        return mk_add(*r[1])
    if r != t and r[0] == 'mul':
        return mk_mul(*r[1])
    return r


def same_extent(d, kd, seq, p):
    if d == kd:
        return True
    # size of a local holding the same sequence
    if d[0] == 'size':
        v = p.store.get(d[1], d[1])
        return v == seq
    return False


# ------------------------------------------------------------- algebra ----
def const_in(term, ks):
    """Is the positive real `term` (given as a log) free of ks after normal form?"""
    c = algebra.Conv()
    c.leaf = leaf(c)
    e = algebra.normal(c.conv(term))
    bad = set()
    for k in list(c.syms):
        pass
    names = {repr(k) for k in ks}
    syms = {s for r, s in c.syms.items() if any(x in r for x in names)}
    e = sympy.expand(e)
    return not (e.free_symbols & syms)


def lg(t):
    return ('fn', 'log', t)


def lgexp(t):
    """log of a weight, undoing exp."""
    if t[0] == 'fn' and t[1] in ('exp', 'std::exp'):
        return t[2]
    return lg(t)


def is_discrete_index(t):
    return draw(t) and gen(t) == 'discrete_distribution'


def bernoulli_p(t, p):
    if draw(t) and gen(t) == 'bernoulli_distribution':
        a = args_of(t, p)
        return a[0] if a else mk_div(ONE, n(2), False)
    return None


def unit_uniform(t, p):
    if draw(t) and gen(t) == 'uniform_real_distribution':
        a = args_of(t, p)
        return len(a) == 0 or (len(a) == 2 and a[0] == ZERO and a[1] == ONE)
    return t[0] == 'call' and t[1] == 'std::generate_canonical'


def branch_prob(atom, taken, p):
    """Probability of a random branch decision, or None if not random."""
    q = bernoulli_p(atom, p) if atom[0] == 'call' else None
    if q is None and atom[0] in ('lt', 'le'):
        if atom[1][0] == 'call' and draw(atom[1]) and unit_uniform(atom[1], p):
            q = atom[2]
        elif atom[2][0] == 'call' and draw(atom[2]) and unit_uniform(atom[2], p):
            q = mk_sub(ONE, atom[1])
    if q is None:
        return None
    return q if taken else mk_sub(ONE, q)


# --------------------------------------------------------------- closed ----
def value_bool(P, f):
    return P.noref(f['ret'])['k'] == 'bool' if 'ret' in f else False


def logps(C, P, cls, lp, x):
    return [q for q in C.run(lp, this_cls=cls, bind={lp['params'][0]['name']: x}) if not q.aborted
            and not impossible(q.decisions)]


def closed(C, P, cls, sc, sm, lp):
    """Models whose sample is built from library generators only."""
    sps = [p for p in C.run(sm, this_cls=cls) if not p.aborted and not impossible(p.decisions)]
    random_branch = any(branch_prob(a, b, p) is not None for p in sps for a, b in p.decisions)
    if random_branch:
        return bernoulli_paths(C, P, cls, sc, sm, lp, sps)
    done = False
    for p in sps:
        v = resolve(p.ret, p)
        if v[0] == 'call' and bernoulli_p(v, p) is not None:
            q = bernoulli_p(v, p)
            compare_list(C, P, cls, sc, sm, lp, p, [('b', False), ('b', True)], [mk_sub(ONE, q), q])
            done = True
            continue
        ix = [s for s in subterms(v) if is_discrete_index(s)]
        if ix:
            ix = ix[0]
            W = elements(weights_of(ix, p), p)
            if v == ix:
                items = None
            elif v[0] == 'at' and v[2] == ix:
                items = elements(v[1], p) if v[1][0] != 'f' else ('field', v[1])
            elif v[0] in ('eq', 'ne') or isinstance(W, list):
                items = None if not isinstance(W, list) else [subst(v, {ix: n(j)}) for j in range(len(W))]
                if items and any(mentions(i, ix) for i in items):
                    raise Shape('value of index')
                items = [fold(i) for i in items] if items else items
            else:
                raise Shape('value %s' % pp(v)[:80])
            if isinstance(W, list):
                if items is None:
                    items = [n(j) for j in range(len(W))]
                if not isinstance(items, list):
                    raise Shape('values')
                if not C.ob(len(items) == len(W), '%s::sample|aligned' % sc,
                            '%d values but %d weights' % (len(items), len(W)), sm, p):
                    continue
                if P.noref(lp['params'][0]['t'])['k'] == 'bool':
                    items = [('b', bool(i[1])) if i[0] == 'n' else i for i in items]
                    C.ob(sorted(map(repr, items)) == sorted(map(repr, [('b', False), ('b', True)])),
                         '%s::sample|values' % sc, 'the values offered are not exactly false and true', sm, p)
                compare_list(C, P, cls, sc, sm, lp, p, items, W)
            else:
                if isinstance(items, list):
                    raise Shape('values')
                compare_gen(C, P, cls, sc, sm, lp, p, items, W)
            done = True
            continue
        if any(draw(s) for s in subterms(v)):
            done = continuous(C, P, cls, sc, sm, lp, p, v) or done
            continue
        raise Shape('no draw in %s' % pp(v)[:80])
    return done


def fold(t):
    if t[0] in ('eq', 'ne') and t[1][0] == 'n' and t[2][0] == 'n':
        return ('b', (t[1] == t[2]) == (t[0] == 'eq'))
    if t[0] == 'not':
        i = fold(t[1])
        return ('b', not i[1]) if i[0] == 'b' else t
    if t[0] == 'ne' and t[2] == ZERO:
        return fold(t[1])
    return t


def bernoulli_paths(C, P, cls, sc, sm, lp, sps):
    prob = {}
    for p in sps:
        q = ONE
        for a, b in p.decisions:
            r = branch_prob(a, b, p)
            if r is None:
                raise Shape('mixed branches')
            q = mk_mul(q, r)
        v = p.ret
        if v[0] not in ('b', 'n'):
            raise Shape('value %s' % pp(v)[:60])
        prob[v] = mk_add(prob.get(v, ZERO), q)
    compare_list(C, P, cls, sc, sm, lp, sps[0], list(prob), list(prob.values()))
    return True


def compare_list(C, P, cls, sc, sm, lp, p, items, W):
    ref = None
    for it, w in zip(items, W):
        for q in logps(C, P, cls, lp, it):
            if conflict(p.decisions, q.decisions) or is_minus_inf(q.ret):
                continue
            d = mk_sub(lgexp(resolve(w, p)), resolve(q.ret, q))
            if ref is None:
                ref = (it, d)
                continue
            C.ob(zero_prob(mk_sub(d, ref[1])), '%s::sample|weights' % sc,
                 'weight of %s relative to %s is not the ratio of their probabilities' % (pp(it), pp(ref[0])), sm, p)
    # the normaliser must be one function of the state: covered by the ratios


def zero_prob(d):
    """Zero test where exp(logp) may occur inside logs."""
    try:
        return zero(unexp(d))
    except (ZeroDivisionError, TypeError):
        return False


def unexp(t):
    """exp(a+b) -> product, exp(c*log x) -> x^c for integer c."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(unexp(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'add':
        return mk_add(*t[1])
    if t[0] == 'mul':
        return mk_mul(*t[1])
    if t[0] == 'fn' and t[1] in ('exp', 'std::exp') and len(t) == 3:
        parts = t[2][1] if t[2][0] == 'add' else (t[2],)
        num, den, rest = [], [], []
        for x in parts:
            c, b = (x[1][0][1], x[1][1:]) if x[0] == 'mul' and x[1][0][0] == 'n' else (1, (x,))
            b = b[0] if len(b) == 1 else ('mul', b)
            if b[0] == 'fn' and b[1] in ('log', 'std::log') and c in (1, -1):
                (num if c == 1 else den).append(b[2])
            else:
                rest.append(x)
        r = mk_mul(*num) if num else ONE
        if rest:
            r = mk_mul(r, ('fn', 'exp', mk_add(*rest)))
        return mk_div(r, mk_mul(*den), False) if den else r
    return t


def compare_gen(C, P, cls, sc, sm, lp, p, items, W):
    k, w = W
    if items is None:
        val = k if k[0] == 'idx' else ('pos', k)
    elif items[0] == 'field':
        val = ('at', items[1], k if k[0] == 'idx' else ('pos', k))
    else:
        ik, iv = items
        if not C.ob(ik == k or same_domain(ik, k, p), '%s::sample|aligned' % sc,
                    'values range over %s but weights over %s' % (pp(ik)[:60], pp(k)[:60]), sm, p):
            return
        val = subst(iv, {ik: k})
    w = resolve(w, p)
    # full support: the generated index runs over the whole container it reads
    conts = [s[1] for s in subterms(w) if s and s[0] == 'at' and s[2] == k]
    if conts:
        C.ob(any(k[2] in (c, ('size', c)) for c in conts), '%s::sample|domain' % sc,
             'weights range over %s instead of all of %s' % (pp(k[2])[:80], pp(conts[0])[:80]), sm, p)
    for q in logps(C, P, cls, lp, X):
        r = q.ret
        if conflict(p.decisions, q.decisions) or is_minus_inf(r):
            continue
        d = mk_sub(lgexp(w), subst(resolve(r, q), {X: val}))
        d = invert(d)
        if any(s and s[0] == 'call' and not s[1].startswith('std::') for s in subterms(d)):
            raise Shape('nested call')
        C.ob(const_in(unexp(d), [k, val]), '%s::sample|weights' % sc,
             'sampling weight over probability depends on the value: %s' % pp(d)[:200], sm, p)


def same_domain(a, b, p):
    return a[0] == b[0] and a[2] == b[2]


def invert(t):
    """find(v, v[i]) - begin(v) -> i (values of a choice list are distinct)."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(invert(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'add':
        ts = list(t[1])
        for f in ts:
            if f[0] == 'fn' and f[1] in ('find', 'std::find') and f[2][0] == 'iter' and f[4][0] == 'at' and \
                    f[4][1] == f[2][1]:
                b = mk_mul(n(-1), f[2])
                if b in ts:
                    ts.remove(f)
                    ts.remove(b)
                    return mk_add(f[4][2], *ts)
        return mk_add(*t[1])
    if t[0] == 'mul':
        return mk_mul(*t[1])
    if t[0] == 'fn' and t[1] in ('distance', 'std::distance') and t[3][0] == 'fn' and t[3][1] in ('find', 'std::find') \
            and t[3][4][0] == 'at' and t[3][4][1] == t[3][2][1]:
        return t[3][4][2]
    return t


# ----------------------------------------------------------- continuous ----
def continuous(C, P, cls, sc, sm, lp, p, v):
    ds = []
    for s in subterms(v):
        if draw(s) and s not in ds:
            ds.append(s)
    if {gen(d) for d in ds} == {'poisson_distribution'} and len(ds) == 2:
        return skellam(C, P, cls, sc, sm, lp, p, v, ds)
    m, s2, df = student(v, p)
    for q in logps(C, P, cls, lp, X):
        if conflict(p.decisions, q.decisions):
            continue
        dx = mk_sub(X, m)
        dens = mk_mul(n(-1) if False else mk_mul(mk_add(df, ONE), mk_div(ONE, n(2), False)),
                      lg(mk_add(ONE, mk_div(mk_mul(dx, dx), mk_mul(df, s2), False))))
        tot = when_empty(P, cls, mk_add(q.ret, dens), q)
        good = const_in(tot, [X])
        C.ob(good, '%s::sample|density%s' % (sc, '' if good else '|loc %s|scale2 %s|df %s' % tuple(
            canon_str(t) for t in (m, s2, df))),
             'sample is Student-t with location %s, scale^2 %s, df %s; logp is not that density' %
             (pp(m)[:80], pp(s2)[:100], pp(df)[:60]), sm, p)
    return True


def canon_str(t):
    """A name for a term that does not depend on how it was written."""
    c = algebra.Conv()
    e = sympy.factor(algebra.normal(c.conv(t)))
    m = {v: sympy.Symbol(pp(eval_term(k)).replace('this.', '').replace(' ', ''), positive=True)
         for k, v in c.syms.items()}
    return str(sympy.factor(e.subs(m))).replace(' ', '')


def linear_in(v, d):
    """v = a*d + b."""
    c = algebra.Conv()
    e = sympy.expand(c.conv(v))
    s = c.sym(d)
    if not e.is_polynomial(s) or sympy.degree(e, s) != 1:
        raise Shape('not linear in the draw')
    return None


def split_linear(v, d):
    a, b = [], []
    for t in (v[1] if v[0] == 'add' else (v,)):
        if t == d:
            a.append(ONE)
        elif t[0] == 'mul' and d in t[1]:
            l = list(t[1])
            l.remove(d)
            if any(mentions(x, d) for x in l):
                raise Shape('nonlinear')
            a.append(mk_mul(*l))
        elif mentions(t, d):
            raise Shape('nonlinear')
        else:
            b.append(t)
    return (mk_add(*a) if a else ZERO), (mk_add(*b) if b else ZERO)


def outer_draw(v, p):
    """The draw in v that no other draw's parameters depend on."""
    ds = {s for s in subterms(v) if draw(s)}
    allp = {d: args_of(d, p) for d in ds}
    for d in ds:
        if not any(d2 != d and any(mentions(a, d) for a in allp[d2]) for d2 in ds):
            return d
    raise Shape('draw order')


def student(v, p):
    """(location, scale^2, df) of a value built from normal/student/gamma draws."""
    mean, var = v, ZERO
    # peel normal draws: v = a*d + b
    for _ in range(6):
        ds = {s for s in subterms(mean) if draw(s)}
        nd = [d for d in ds if gen(d) in ('normal_distribution', 'student_t_distribution')]
        if not nd:
            break
        d = nd[0]
        a, b = split_linear(mean, d)
        pa = args_of(d, p)
        if gen(d) == 'student_t_distribution':
            if var != ZERO:
                raise Shape('sum of draws')
            return b, mk_mul(a, a), (pa[0] if pa else ONE)
        mu = pa[0] if pa else ZERO
        sd = pa[1] if len(pa) > 1 else ONE
        var = mk_add(var, mk_mul(a, a, sd, sd))
        mean = mk_add(mk_mul(a, mu), b)
    gs = {s for s in subterms(mk_add(mean, var)) if draw(s)}
    if not gs:
        raise Shape('normal density')
    if len(gs) != 1 or gen(next(iter(gs))) != 'gamma_distribution' or mentions(mean, next(iter(gs))):
        raise Shape('mixing')
    g = next(iter(gs))
    a, th = args_of(g, p)
    # var must be f/g
    c = algebra.Conv()
    s = c.sym(g)
    e = sympy.simplify(c.conv(var) * s)
    if s in e.free_symbols:
        raise Shape('variance is not inverse to the gamma draw')
    f = back(e, c)
    return mean, mk_div(f, mk_mul(a, th), False), mk_mul(n(2), a)


def back(e, c):
    """sympy -> term"""
    inv = {v: k for k, v in c.syms.items()}
    terms = {}

    def go(x):
        if x.is_Rational:
            return n(x.p) if x.q == 1 else mk_div(n(x.p), n(x.q), False)
        if x.is_Symbol:
            return eval_term(inv[x])
        if x.is_Add:
            return mk_add(*[go(y) for y in x.args])
        if x.is_Mul:
            return mk_mul(*[go(y) for y in x.args])
        if x.is_Pow and x.exp.is_Integer:
            b = go(x.base)
            r = mk_mul(*([b] * abs(int(x.exp))))
            return r if x.exp > 0 else mk_div(ONE, r, False)
        raise Shape('back')
    return go(e)


def eval_term(r):
    from fractions import Fraction
    return eval(r, {'Fraction': Fraction})


def skellam(C, P, cls, sc, sm, lp, p, v, ds):
    coef = {d: split_linear(v, d)[0] for d in ds}
    pos = [d for d in ds if coef[d] == ONE]
    neg = [d for d in ds if coef[d] == n(-1)]
    rest = subst(v, {d: ZERO for d in ds})
    if len(pos) != 1 or len(neg) != 1 or rest != ZERO:
        C.ob(False, '%s::sample|difference' % sc, 'value is not the difference of the two Poisson draws', sm, p)
        return True
    a, b = args_of(pos[0], p)[0], args_of(neg[0], p)[0]
    for q in logps(C, P, cls, lp, X):
        bes = [s for s in subterms(q.ret) if s and s[0] == 'fn' and 'bessel' in str(s[1])]
        if not bes:
            raise Shape('no Bessel term')
        B = bes[0]
        m = mk_add(mk_mul(n(-1), a), mk_mul(n(-1), b),
                   mk_mul(mk_div(ONE, n(2), False), X, lg(mk_div(a, b, False))), lg(B))
        ok = zero(mk_sub(q.ret, m))
        C.ob(ok, '%s::sample|density' % sc, 'sample is Poisson(%s) - Poisson(%s); logp is not that mass function' %
             (pp(a), pp(b)), sm, p)
        order, arg = B[2], B[3]
        c = algebra.Conv()
        ok2 = order in (('fn', 'abs', X), ('fn', 'std::abs', X)) and \
            sympy.simplify(c.conv(arg) ** 2 - 4 * c.conv(a) * c.conv(b)) == 0
        C.ob(ok2, '%s::sample|bessel' % sc, 'Bessel term %s does not match Poisson(%s), Poisson(%s)' %
             (pp(B), pp(a), pp(b)), sm, p)
    return True


# ------------------------------------------------------------ composite ----
DRAW = ('sample', 'sample_corrupted')


def nested(f):
    return f.get('name') in ('logp',) + DRAW and bool(f.get('clsq') or f.get('cls'))


def composite(C, P, cls, sc, sm, lp, emission):
    key = {sm['key'], lp['key']}
    op = lambda g: nested(g) and g['key'] not in key
    if emission:
        clean = ('p', 'clean')
        b = {sm['params'][0]['name']: clean}
    else:
        b = {}
    sps = [p for p in C.run(sm, this_cls=cls, bind=b, opaque=op) if not p.aborted]
    lx = ('p', 'x')
    lps = [p for p in C.run(lp, this_cls=cls, bind={lp['params'][0]['name']: lx}, opaque=op) if not p.aborted]
    laws = []
    for p in sps:
        p.exit = (p.exit[0], written(p.ret, p)) + tuple(p.exit[2:])
        if any(ev[0] == 'loop' for ev in p.trace):
            raise Shape('loop')
        ds = [ev for ev, l, g in events(p.trace) if ev[0] == 'call' and ev[1].split('::')[-1] in DRAW and
              ev[2] is not None and ev[2] != ('this',)]
        if any(draw(ev[:4]) for ev, l, g in events(p.trace) if ev[0] == 'call'):
            raise Shape('library draw')
        facs, rest = [], []
        for a, bb in p.decisions:
            if a[0] == 'call' and a[1].split('::')[-1] in DRAW:
                facs.append((a[2], ('b', bb)))
            else:
                rest.append((a, bb))
        inval = [s for s in subterms(p.ret) if s and s[0] == 'call' and s[1].split('::')[-1] in DRAW]
        for s in inval:
            if (s[2], s) not in facs:
                facs.append((s[2], s))
        if len(facs) != len(ds):
            C.ob(False, '%s::%s|draws' % (sc, sm['name']), 'a nested draw does not reach the returned value', sm, p)
        laws.append((p, facs, rest))
    done = False
    for q in lps:
        want = []
        eqs = None
        for p, facs, rest in laws:
            if emission:
                m = {('f', lx, 'first'): clean, ('f', lx, 'second'): p.ret}
            else:
                m = {lx: p.ret}
            dec = [(fold_eq(subst(a, m)), bb) for a, bb in q.decisions]
            if any(a[0] == 'b' and a[1] != bb for a, bb in dec):
                continue
            # a drawn value differs from the clean one on the unequal branch only
            if conflict([(subst(a, m), bb) for a, bb in q.decisions], rest):
                continue
            want.append((p, facs, m))
        if not want:
            continue
        exact = [w for w in want if w[0].ret == (clean if emission else None)]
        eq_path = emission and any(a[0] == 'eq' and {a[1], a[2]} == {('f', lx, 'first'), ('f', lx, 'second')} and bb
                                   for a, bb in q.decisions)
        ret = q.ret
        for p, facs, m in want:
            terms = []
            for o, val in facs:
                arg = val
                if val[0] == 'call' and val[1].endswith('sample_corrupted'):
                    arg = ('pairof', val[3][0], val)
                terms.append((o, arg))
            got = terms_of(invert(subst(ret, m)))
            if got is None:
                # mixture: every branch that can produce the value must appear
                alts = mixture_terms(subst(ret, m))
                if alts is None:
                    raise Shape('logp %s' % pp(ret)[:100])
                ok = sorted(map(repr, [canon_term(t, emission, m) for t in terms])) in \
                    [sorted(map(repr, [canon_term(t, emission, m) for t in a])) for a in alts]
                C.ob(ok, '%s::%s|mixture' % (sc, sm['name']),
                     'no alternative of the scored mixture matches how the value was drawn', sm, p)
                done = True
                continue
            if eq_path and p.ret != clean:
                continue        # alternative of probability zero by assumption
            a = sorted(map(repr, [canon_term(t, emission, m) for t in terms]))
            b2 = sorted(map(repr, [canon_term(t, emission, m) for t in got]))
            C.ob(a == b2, '%s::%s|nested' % (sc, sm['name']),
                 'draws %s but logp scores %s' % ([pp(o) + ':' + pp(v)[:60] for o, v in terms],
                                                  [pp(o) + ':' + pp(v)[:60] for o, v in got]), sm, p)
            done = True
    return done


def written(v, p):
    """The text of a string stream is what was inserted into it."""
    if v[0] == 'call' and v[1].endswith('stringstream::str'):
        ins = [ev[3][-1] for ev, l, g in events(p.trace) if ev[0] == 'call' and ev[1].endswith('operator<<') and
               v[2] in (ev[2], ev[3][0] if ev[3] else None) and ev[3]]
        if len(ins) == 1:
            return ('text', ins[0])
    return v


def fold_eq(a):
    if a[0] == 'eq' and a[1] == a[2]:
        return ('b', True)
    return a


def terms_of(v):
    out = []
    for t in (v[1] if v[0] == 'add' else (v,)):
        if t == ZERO:
            continue
        if t[0] == 'call' and t[1].endswith('::logp') and t[2] is not None:
            out.append((t[2], t[3][0]))
        else:
            return None
    return out


def mixture_terms(v):
    """log(exp(a)+exp(b)+...) as the alternatives' term lists."""
    if v[0] == 'fn' and v[1] in ('log', 'std::log') and v[2][0] == 'add':
        out = []
        for t in v[2][1]:
            if t[0] == 'fn' and t[1] in ('exp', 'std::exp'):
                r = terms_of(t[2])
                if r is None:
                    return None
                out.append(r)
            else:
                return None
        return out
    return None


def canon_term(t, emission, m):
    o, v = t

    def strip(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and len(x) > 4:
                x = x[:4]
            return tuple(strip(y) if isinstance(y, tuple) else y for y in x)
        return x
    v = strip(v)
    if v[0] == 'pairof':
        return (o, ('pair', v[1], v[2]))
    if v == ('p', 'x') and emission:
        return (o, ('pair', strip(m[('f', ('p', 'x'), 'first')]), strip(m[('f', ('p', 'x'), 'second')])))
    if v[0] in ('tuple', 'ctor', 'struct', 'pair'):
        xs = [y for y in v[1:] if isinstance(y, tuple)]
        if len(xs) == 1 and xs[0] and isinstance(xs[0][0], tuple):
            xs = list(xs[0])
        if len(xs) == 2:
            return (o, ('pair', xs[0], xs[1]))
    v = drop_string(v)
    return (o, v)


def drop_string(v):
    """Text conversion and parsing are inverse: keep what was written."""
    ts = [s for s in subterms(v) if s and s[0] == 'text' and len(s) == 2]
    if len(ts) == 1 and (v[0] == 'read' or v[0] == 'out' and v[1] == 'std::basic_istream::operator>>'):
        return ts[0][1]
    return v


# -------------------------------------------------------------- chains ----
def chain(C, P, cls, sc, sm, lp):
    """Markov chain of symbols: Bigram."""
    opq = lambda g: nested(g) and g['key'] not in (sm['key'], lp['key']) or \
        g.get('name') in ('incorporate', 'unincorporate')
    sps = [p for p in C.run(sm, this_cls=cls, opaque=opq) if not p.aborted]
    I = C.last
    lps = [p for p in C.run(lp, this_cls=cls, bind={lp['params'][0]['name']: X}, opaque=opq) if not p.aborted]
    # what logp scores: transitions along a sequence start, c(x_i)..., stop
    spec = None
    for q in lps:
        for s in subterms(q.ret):
            if s and s[0] == 'sum' and len(s[2]) == 1:
                b = s[2][0][1]
                if b[0] == 'call' and b[1].endswith('::logp') and b[2][0] == 'at':
                    arr, i = b[2][1], b[2][2]
                    if i[0] == 'at' and b[3][0][0] == 'at' and i[1] == b[3][0][1] and \
                            b[3][0][2] == mk_add(i[2], ONE):
                        seq = i[1]
                        spec = (arr, seq_spec(seq, q))
    if spec is None or spec[1] is None:
        raise Shape('scored chain')
    arr, (start, enc, stop) = spec
    for p in sps:
        draws = [ev for ev in p.trace if ev[0] == 'call' and ev[1].endswith('::sample')]
        loops = [ev for ev in p.trace if ev[0] == 'loop' and any(e[0] == 'call' and e[1].endswith('::sample')
                                                                 for e, _, _ in events([ev]))]
        if not loops:
            continue
        if len(loops) != 1 or len(draws) > 1:
            raise Shape('chain shape')
        lk = loops[0][1]
        for tr, dec, how in loops[0][2]:
            for ev in tr:
                if ev[0] != 'call' or not ev[1].endswith('::sample'):
                    continue
                o = ev[2]
                if not C.ob(o[0] == 'at' and o[1] == arr, '%s::sample|family' % sc,
                            'draws from %s but logp scores %s' % (pp(o)[:80], pp(arr)), sm, p):
                    continue
                ctx = o[2]
                if ctx[0] != 'acc' or ctx[1] != lk:
                    C.ob(False, '%s::sample|context' % sc,
                         'the context %s of the next symbol is not the previously drawn symbol' % pp(ctx)[:80], sm, p)
                    continue
                nxt, init = carried(I, lk, ctx[2])
                d = ('call', ev[1], o, ev[3])
                for dec2, v in nxt:
                    C.ob(stripnum(v) == stripnum(d), '%s::sample|carry' % sc,
                         'the context of the following symbol is %s, not the symbol drawn' % pp(v)[:100], sm, p)
                for v in init:
                    first = [('call', e[1], e[2], e[3]) for e in draws]
                    C.ob(stripnum(v) in [stripnum(f) for f in first] or (not first and v == start),
                         '%s::sample|carry-first' % sc, 'the first context is %s, not the first symbol drawn' %
                         pp(v)[:100], sm, p)
            for ev in tr:
                if ev[0] == 'push' and islocal(ev[1]):
                    accs = [s for s in subterms(ev[2]) if s and s[0] == 'acc']
                    if len(set(accs)) == 1:
                        C.ob(inverse(enc, ev[2], accs[0]), '%s::sample|encode' % sc,
                             'character appended %s is not the inverse of the scored index %s' %
                             (pp(ev[2])[:80], pp(enc)), sm, p)
        for ev in draws:
            C.ob(ev[2] == ('at', arr, start), '%s::sample|start' % sc,
                 'first symbol is drawn from %s but scored from %s' % (pp(ev[2])[:80], pp(('at', arr, start))), sm, p)
        # the loop ends exactly on the stop symbol
        stops = [(a, b) for tr, dec, how in loops[0][2] if how == 'break' and len(tr) and
                 not any(e[0] == 'push' for e in tr) for a, b in dec]
        oks = any(a[0] == 'eq' and b and stop in a[1:] for a, b in stops)
        C.ob(oks or not stops, '%s::sample|stop' % sc, 'sampling does not stop at the scored stop symbol %s' % pp(stop),
             sm, p)
    return True


def stripnum(x):
    if isinstance(x, tuple):
        if x and x[0] == 'call' and len(x) > 4:
            x = x[:4]
        return tuple(stripnum(y) if isinstance(y, tuple) else y for y in x)
    return x


def carried(I, lk, loc):
    """Values the location carries into the next iteration, and its initial value."""
    cs = I.carries.get((lk, loc), [])
    nxt = [(dec, v) for fin, init in cs for dec, v, how in fin if how in ('next', 'continue')]
    return nxt, [init for fin, init in cs]


def seq_spec(seq, q):
    seen = 0
    while seq[0] == 'var' and seq in q.store and seen < 5:
        seq = q.store[seq]
        seen += 1
    if seq[0] != 'cont':
        return None
    base, ops = seq[1], seq[2]
    pre = []
    if base[0] == 'list':
        pre = list(base[1])
    elif base[0] == 'fill' and base[1] == ONE:
        pre = [base[2]]
    elif base[0] != 'empty':
        return None
    ops = list(ops)
    while ops and ops[0][0] == 'push':
        pre.append(ops.pop(0)[1])
    if len(pre) != 1 or len(ops) != 2 or ops[0][0] != 'each' or ops[1][0] != 'push':
        return None
    k, brs = ops[0][1], ops[0][2]
    if len(brs) != 1 or len(brs[0][1]) != 1 or brs[0][1][0][0] != 'push':
        return None
    enc = brs[0][1][0][1]
    xs = [s for s in subterms(enc) if s and s[0] == 'at' and s[2] == k]
    enc = subst(enc, {xs[0]: ('p', 'c')}) if xs else enc
    return pre[0], enc, ops[1][1]


def inverse(enc, dec, sym):
    """enc(dec(sym)) == sym."""
    r = subst(enc, {('p', 'c'): dec})
    return mk_sub(r, sym) == ZERO


# ---------------------------------------------------------------- flags ----
def repeats(C, P):
    """An error model that can return the clean value with positive probability
    says so where it is mixed with not making an error, and no other does."""
    for f in P.fns.values():
        if f.get('name') != 'get_prior' or not f.get('body'):
            continue
        try:
            ps = [p for p in C.run(f, opaque=lambda g: g.get('key') != f['key']) if not p.aborted]
        except (Unsupported, Broken, Shape) as e:
            C.unanalysed.append('get_prior [%s]' % str(e)[:80])
            continue
        for p in ps:
            for v in subterms(p.ret) if p.ret else ():
                if not (v and v[0] == 'new' and len(v) > 2 and v[1].startswith('Sometimes<') and len(v[2]) == 2):
                    continue
                be, flag = v[2]
                if be[0] != 'new' or flag[0] != 'b':
                    continue
                if v[1] == 'Sometimes<double>':
                    can = False
                else:
                    sm = models.method(P, be[1], 'sample_corrupted')
                    if sm is None:
                        continue
                    cl = ('p', sm['params'][0]['name'])
                    rs = [q.ret for q in C.run(sm, this_cls=be[1], opaque=nested) if not q.aborted]
                    can = not all(r == ('not', cl) for r in rs)
                C.ob(flag[1] == can, 'get_prior::%s|flag' % be[1], 'builds %s of %s as if the error model %s the clean value' % (
                    v[1], be[1], 'could repeat' if flag[1] else 'never repeated'), f, p)


# -------------------------------------------------------------- helpers ----
def unnorm(t):
    """log_normalize changes its argument by a constant only (checked here)."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[:3] == ('call', 'log_normalize', None) and len(t[3]) == 1:
        return unnorm(t[3][0])
    return tuple(unnorm(x) if isinstance(x, tuple) else x for x in t)


def same_log(t, L):
    """The index whose own log weight t is, up to a constant."""
    ts = list(t[1]) if t[0] == 'add' else [t]
    own = [x for x in ts if x[0] == 'at' and x[1] == L]
    own = [x for x in own if x[2][0] == 'idx']
    if len(own) != 1 or own[0][2] != ('idx', 0, ('size', L)):
        return None
    i = own[0][2]
    return i if not any(mentions(x, i) for x in ts if x is not own[0]) else None


def helpers(C, P):
    for f in sorted(P.fns.values(), key=lambda f: f['key']):
        if f.get('name') not in ('sample_from_logps', 'log_choice', 'choice', 'log_normalize', 'logsumexp') or not f.get('body') or \
                '::' in f['q']:
            continue
        try:
            helper(C, P, f)
        except (Shape, Unsupported, Broken, IndexError, KeyError, TypeError) as e:
            C.unanalysed.append('%s [%s: %s]' % (f['q'], type(e).__name__, str(e)[:100]))


def helper(C, P, f):
    q = f['q']
    L = ('p', f['params'][0]['name'])
    said = False
    for p in C.run(f, opaque=lambda g: g.get('key') != f['key']):
        if p.aborted or p.ret is None:
            continue

        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, '%s %s' % (q, msg), f, p)

        def stored(x):
            while x and x[0] == 'var' and x in p.store:
                x = p.store[x]
            return x

        def each(W, conv):
            """W has one value per index of L: what conv accepts."""
            W = stored(W)
            if W == L:
                return ob(conv is None, 'weights', 'takes log weights for weights' if conv else '')
            if W[0] != 'cont' or len(W[2]) != 1 or W[2][0][0] != 'each':
                raise Shape('weights ' + pp(W)[:60])
            o = W[2][0]
            sized = W[1][0] == 'fill' and unnorm(W[1][1]) == ('size', L)
            if unnorm(o[1]) != ('idx', 0, ('size', L)) or W[1] != ('empty',) and not sized:
                raise Shape('weights over ' + pp(o[1])[:60])
            ob(not o[3], 'every', 'leaves out some of the weights')
            for dec, ops, how in o[2]:
                ops = [x for x in ops if x[0] in ('push', 'put')]
                if not ob(len(ops) == 1 and ops[0][0] == ('put' if sized else 'push'), 'every', 'gives an index no weight of its own'):
                    continue
                v = unnorm(ops[0][-1])
                if sized:
                    ob(unnorm(ops[0][1]) == ('idx', 0, ('size', L)), 'every', 'gives a weight to another index')
                if v == n(0) and any(a[0] == 'fn' and a[1] == 'isfinite' and not b for a, b in dec):
                    continue
                if conv == 'exp':
                    ob(v[0] == 'fn' and v[1] == 'exp' and same_log(v[2], L) is not None, 'weights',
                       'weighs an index by %s' % pp(v)[:80])
                else:
                    ob(same_log(v, L) is not None, 'weights', 'gives an index the log weight %s' % pp(v)[:80])

        r = p.ret
        if f['name'] == 'log_normalize':
            each(r, 'log')
            said = True
        elif f['name'] == 'logsumexp':
            said |= lse(C, f, p, L, ob)
        else:
            logs = f['name'] != 'choice'
            if r[0] != 'call':
                raise Shape('result ' + pp(r)[:60])
            said = True
            if r[1] == 'choice' and logs:
                each(r[3][0], 'exp')
            elif r[1] in ('log_choice', 'sample_from_logps') and logs:
                if unnorm(stored(r[3][0])) != L:
                    each(r[3][0], 'log')
            elif r[1] == 'std::discrete_distribution::operator()':
                d = stored(r[2])
                if d[0] == 'ctor' and len(d) >= 4 and d[2][0] == 'iter' and d[3][0] in ('add', 'iter', 'fn') and \
                        d[3] != ('end', d[2][1]) and ('end', d[2][1]) in subterms(d[3]):
                    ob(False, 'every', 'draws from some of the weights only')
                    continue
                if d[0] != 'ctor' or len(d) < 4 or d[2][0] != 'iter' or d[3][0] != 'end' or d[2][1] != d[3][1]:
                    raise Shape('draw of ' + pp(d)[:60])
                ob(d[2][2] == n(0), 'every', 'draws from some of the weights only')
                each(d[2][1], 'exp' if logs else None)
            else:
                raise Shape('draw ' + r[1])
    if not said:
        raise Shape('no result')


def lse(C, f, p, L, ob):
    ts = list(p.ret[1]) if p.ret[0] == 'add' else [p.ret]
    lg = [t for t in ts if t[0] == 'fn' and t[1] in ('log', 'log1p')]
    if len(lg) != 1:
        if p.decisions and not any(t[0] == 'sum' for t in subterms(p.ret) if t):
            return False        # a special case of the input
        raise Shape('result ' + pp(p.ret)[:60])
    m = mk_add(*[t for t in ts if t is not lg[0]])
    S = lg[0][2]
    one = lg[0][1] == 'log1p'
    if S[0] == 'add' and n(1) in S[1] and not one:
        S = mk_add(*[t for t in S[1] if t != n(1)])
        one = True
    if S[0] != 'sum' or S[1] != ('idx', 0, ('size', L)):
        raise Shape('sum ' + pp(S)[:60])
    i = S[1]
    x = ('at', L, i)
    top = 0
    for dec, v in S[2]:
        own = [(a, b) for a, b in dec if a[0] == 'eq' and i in a[1:] and m == ('at', L, a[2] if a[1] == i else a[1])]
        if v == n(0):
            if one and any(b for a, b in own):
                top += 1
                continue
            ob(any(a[0] == 'fn' and a[1] == 'isfinite' and not b and a[2] == x for a, b in dec) or
               any(a[0] in ('fn',) and a[1] == 'isinf' and b and a[2] == x for a, b in dec), 'every',
               'leaves out a weight when %s' % ', '.join(('' if b else 'not ') + pp(a)[:60] for a, b in dec))
            continue
        if v[0] != 'fn' or v[1] != 'exp':
            raise Shape('summand ' + pp(v)[:60])
        ob(mk_add(v[2], m) == x, 'sum', 'adds %s for a weight' % pp(v)[:80])
        ob(not one or any(not b for a, b in own), 'sum', 'counts the largest weight twice')
    ob(not one or top == 1, 'sum', 'adds one for a weight it does not leave out')
    return True


# ----------------------------------------------------------------- main ----
def main():
    C = rule.Check('C03', RULE, [
        'the C++ library generators follow the laws documented for their parameters',
        'real arithmetic stands for floating point',
        'a normal draw whose mean is normal and whose precision is gamma is Student-t (textbook identity)',
        'text conversion and parsing in DistributionAdapter are inverse (C17 covers malformed text)'], min_obligations=10)
    P = C.P
    decided = {}
    for cls in sorted(models.concrete(P)):
        sc = models.template(cls)
        em = models.method(P, cls, 'sample_corrupted')
        sm = em or models.method(P, cls, 'sample')
        lp = models.method(P, cls, 'logp')
        if not sm or not lp:
            continue
        why = []
        ok = False
        for how, f in (('closed', lambda: closed(C, P, cls, sc, sm, lp) if not em else None),
                       ('composite', lambda: composite(C, P, cls, sc, sm, lp, bool(em))),
                       ('chain', lambda: chain(C, P, cls, sc, sm, lp))):
            if ok:
                break
            try:
                n0 = len(C.obl)
                ok = bool(f()) and len(C.obl) > n0
            except (Shape, Unsupported, Broken, sympy.SympifyError, IndexError, KeyError) as e:
                why.append('%s: %s: %s' % (how, type(e).__name__, str(e)[:120]))
        decided[sc] = ok
        if not ok:
            C.unanalysed.append('%s [%s]' % (sc, '; '.join(why)))
    crp_sample(C, P)
    simple_string(C, P)
    relations(C, P)
    repeats(C, P)
    helpers(C, P)
    C.note('decided: ' + ', '.join(sorted(k for k, v in decided.items() if v)))
    return C.finish()


def crp_sample(C, P):
    sm, lp = P.fn1('CRP::sample'), P.fn1('CRP::logp')
    tab = ('p', 'table')
    try:
        sps = [p for p in C.run(sm, this_cls='CRP') if not p.aborted]
        lps = [p for p in C.run(lp, this_cls='CRP', bind={lp['params'][0]['name']: tab}) if not p.aborted]
        for p in sps:
            v = p.ret
            ix = [s for s in subterms(v) if is_discrete_index(s)]
            if not ix:
                raise Shape('no discrete draw')
            ix = ix[0]
            k, w = elements(weights_of(ix, p), p)
            if v[0] != 'at' or v[2] != ix:
                C.ob(False, 'CRP::sample|value', 'the drawn index is used as a table number', sm, p)
                continue
            ik, iv = elements(v[1], p)
            C.ob(ik == k and iv == k, 'CRP::sample|aligned', 'tables and weights are not listed in the same order', sm, p)
            w = subst(w, {k: tab})
            emp = any(a == ('eq', ('f', ('this',), 'N'), ZERO) and b for a, b in p.decisions)
            ref = None
            for new in (False, True):
                if emp and not new:
                    continue
                for q in lps:
                    if conflict(p.decisions, q.decisions) or is_minus_inf(q.ret):
                        continue
                    d = mk_sub(lg(resolve_weights(w, new, emp)), resolve_weights(q.ret, new, emp))
                    if ref is None:
                        ref = d
                        continue
                    C.ob(zero(mk_sub(d, ref)), 'CRP::sample|weights',
                         'a new table is drawn with another relative weight than it is scored', sm, p)
            C.ob(ref is not None, 'CRP::sample|scored', 'no scored table matches', sm, p)
    except (Shape, Unsupported, Broken, TypeError, ValueError) as e:
        C.unanalysed.append('CRP::sample: %s' % e)


def simple_string(C, P):
    """Random characters are uniform over the alphabet that the score charges."""
    cls = 'SimpleStringEmission'
    ls = models.method(P, cls, 'logp_score') if cls in P.recs else None
    rc = models.method(P, cls, 'random_character') if cls in P.recs else None
    if not ls or not rc:
        C.unanalysed.append('SimpleStringEmission alphabet')
        return
    try:
        score = [p for p in C.run(ls, this_cls=cls, opaque=lambda g: g.get('name') == 'logp_score' and
                                  g['key'] != ls['key']) if not p.aborted]
        rps = [p for p in C.run(rc, this_cls=cls) if not p.aborted]
        for p in rps:
            d = [s for s in subterms(p.ret) if draw(s)]
            if not d or gen(d[0]) != 'uniform_int_distribution':
                raise Shape('not a uniform character')
            lo, hi = args_of(d[0], p)
            size = mk_add(mk_sub(hi, lo), ONE)
            for q in score:
                if not q.ret[0] == 'add':
                    continue
                logs = [s for s in subterms(q.ret) if s and s[0] == 'fn' and s[1] in ('log', 'std::log')]
                for l in set(logs):
                    C.ob(mk_sub(l[2], size) == ZERO, 'SimpleStringEmission::random_character|alphabet',
                         'characters are drawn from %s values but scored as %s' % (pp(size), pp(l[2])), rc, p)
                # sign and count: one factor 1/|alphabet| per random character
                tot = ZERO
                for t in q.ret[1]:
                    for l in set(logs):
                        if mentions(t, l):
                            tot = mk_add(tot, t)
                want = []
                for fld in ('substitutions', 'insertions'):
                    want.append(('f', ('f', ('this',), fld), 's'))
                if logs:
                    expect = mk_mul(n(-1), mk_add(*want), logs[0])
                    good = zero(mk_sub(tot, expect))
                    C.ob(good, 'SimpleStringEmission::logp_score|alphabet-sign' + ('' if good else '|' + canon_str(tot)),
                         'each random character must multiply the probability by 1/|alphabet|; the score adds %s' %
                         pp(tot)[:160], ls, q)
    except (Shape, Broken, ValueError) as e:
        C.unanalysed.append('SimpleStringEmission alphabet: %s' % e)


REL_OPAQUE = ('clusters_contains', 'get_cluster_assignment', 'make_new_distribution', 'get_base_value',
              'get_base_items', 'get_data', 'get_value', 'sample', 'sample_corrupted', 'logp')


def relations(C, P):
    """sample_at_items draws from the model that cluster_or_prior_logp_from_items scores."""
    for base in ('CleanRelation', 'NoisyRelation'):
        for sm in P.fn(base + '::sample_at_items', required=False):
            cls = sm.get('cls')
            lp = [f for f in P.fn(base + '::cluster_or_prior_logp_from_items', required=False) if f.get('cls') == cls]
            if not lp:
                continue
            lp = lp[0]
            it = ('p', 'items')
            keys = (sm['key'], lp['key'])
            op = lambda g: g.get('name') in REL_OPAQUE and g['key'] not in keys

            def bind(f):
                b = {}
                for a in f['params']:
                    t = P.noref(a['t'])
                    if 'mersenne' in t.get('s', ''):
                        b[a['name']] = ('p', 'prng')
                    elif 'vector' in t.get('s', ''):
                        b[a['name']] = it
                    else:
                        b[a['name']] = ('p', 'value')
                return b
            try:
                a = [p for p in C.run(sm, bind=bind(sm), opaque=op) if not p.aborted]
                l = [p for p in C.run(lp, bind=bind(lp), opaque=op) if not p.aborted]
            except Broken as e:
                C.unanalysed.append('%s: %s' % (base, e))
                continue
            got = {}
            for p in l:
                if is_minus_inf(p.ret):
                    continue
                o = [s for s in subterms(p.ret) if s and s[0] == 'call' and s[1].endswith('::logp')]
                for d in relevant(p.decisions):
                    got.setdefault(d, set()).update(canon_obj(s[2], p) for s in o)
            for p in a:
                o = [s for s in subterms(p.ret) if s and s[0] == 'call' and s[1].split('::')[-1] in
                     ('sample', 'sample_corrupted')]
                if len(o) != 1:
                    C.unanalysed.append('%s::sample_at_items' % base)
                    continue
                for d in relevant(p.decisions):
                    if d in got:
                        C.ob(canon_obj(o[0][2], p) in got[d], '%s::sample_at_items|model' % base,
                             'samples from %s but the same items are scored by %s' %
                             (pp(o[0][2])[:100], [pp(x)[:100] for x in got[d]]), sm, p)
                if o[0][1].endswith('sample_corrupted'):
                    v = o[0][3][0]
                    v = p.store.get(v, v)
                    C.ob('base' in pp(v), '%s::sample_at_items|base' % base,
                         'the corrupted value is not drawn from the base value: %s' % pp(v)[:100], sm, p)


def relevant(dec):
    return [(stripnum(a), b) for a, b in dec if 'clusters_contains' in repr(a)]


def canon_obj(o, p):
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'ctor' and len(x) == 3 and x[1].startswith(('std::unique_ptr', 'std::shared_ptr')):
                return go(x[2])
            if x and x[0] == 'var' and x in p.store and p.store[x] != x:
                return go(p.store[x])
            if x and x[0] == 'call' and len(x) > 4:
                x = x[:4]
            if x and x[0] == 'call':
                return ('call', x[1], go(x[2]) if x[2] else None, ())
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return x
    return go(o)


if __name__ == '__main__':
    rule.main('C03', main)
