"""C02: predictive log-probability == change of the log marginal likelihood.

Closed-form models: logp, logp_score and incorporate are summarised as terms
over the model's fields and the identity
    logp_score(state after incorporate(x,1)) - logp_score(state) == logp(x)
is decided by rewriting to a normal form (lgamma/log functional equations,
sums updated at the changed entry).  Models built from nested models: the
nested models and values scored must be exactly those that incorporate feeds,
and the score must add up every nested model once."""
from sa import rule, models, algebra
from sa.interp import (mk_add, mk_sub, mk_mul, mentions, subterms, subst, n, pp, Interp, ZERO, ONE, atom)
from sa.rule import events, islocal, rootof, STATE_OPS, Broken
from c01 import initial, chain, linear

RULE = ('logp(x) is algebraically identical to logp_score after incorporate(x,1) minus logp_score before, and '
        'logp_score of the initial state is zero, for every closed-form model on every path; models composed of nested '
        'models score exactly the nested values they incorporate and sum every nested score once.')


class Unsupported(Exception):
    pass


def sizeof(v, store):
    """Size term of a container value after single-element edits."""
    if v[0] == 'cont':
        base = ZERO if v[1] == ('empty',) else ('size', v[1])
        for o in v[2]:
            if o[0] == 'ins':
                base = mk_add(base, ONE)
            elif o[0] == 'del':
                base = mk_sub(base, ONE)
            else:
                raise Unsupported('size after %s' % o[0])
        return base
    return ('size', v)


def after(term, p):
    """Value of a state-dependent term in the state reached by path p."""
    store = {l: v for l, v in p.store.items() if not islocal(l)}
    facts = dict(p.decisions)
    scal, conts = {}, {}
    for l, v in store.items():
        if v == l:
            continue
        if v[0] == 'cont':
            conts[l] = v
        elif l[0] == 'f' and not any(True for c in store if store[c][0] == 'cont' and l[0] == 'at' and l[1] == c):
            scal[l] = v
        elif l[0] == 'at':
            pass
        else:
            scal[l] = v
    # containers nested in containers are represented at the outer entry
    outer = {}
    for C, v in conts.items():
        if C[0] == 'at':
            outer.setdefault(C[1], []).append((C[2], v))
    res = term
    for C, v in list(conts.items()):
        if C[0] == 'at':
            continue
        if v[1] != C:
            raise Unsupported('container replaced')
        puts = {}
        order = []
        for o in v[2]:
            if o[0] == 'put':
                if o[1] not in puts:
                    order.append(o[1])
                puts[o[1]] = o[2]
            elif o[0] == 'maybeput':
                pass
            else:
                raise Unsupported('container %s' % o[0])
        for k in order:
            val = puts[k]
            if ('at', C, k) in store:
                val = store[('at', C, k)]
            new = facts.get(('contains', C, k)) is False
            res = bump(res, C, k, val, new)
    for C, lst in outer.items():
        if C in conts:
            continue
        for k, v in lst:
            res = bump(res, C, k, v, False)
    # new keys change the number of entries
    out = subst(res, scal)
    return out


def bump(t, C, k, val, new):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'size' and t[1] == C:
        return mk_add(t, ONE) if new else t
    if t[0] == 'sum':
        key, bodies = t[1], t[2]
        hit = any(mentions(b, ('at', C, key)) for _, b in bodies) or \
            (key[0] == 'key' and key[2] == C)
        if not hit:
            return t
        if len(bodies) != 1 or bodies[0][0]:
            raise Unsupported('conditional sum')
        b = bodies[0][1]

        def inst(vv):
            def go(x):
                if isinstance(x, tuple):
                    if x and x[0] == 'size' and x[1] == ('at', C, key):
                        return sizeof(vv, None)
                    if x == ('at', C, key):
                        return vv
                    if x == key:
                        return k
                    r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
                    if r != x and r and r[0] == 'add':
                        return mk_add(*r[1])
                    if r != x and r and r[0] == 'mul':
                        return mk_mul(*r[1])
                    return r
                return x
            return go(b)
        newv = inst(val)
        if new:
            # absent before: contributes nothing
            return mk_add(t, newv)
        return mk_add(t, mk_sub(newv, inst(('at', C, k))))
    r = tuple(bump(x, C, k, val, new) if isinstance(x, tuple) else x for x in t)
    if r == t:
        return t
    if r[0] == 'add':
        return mk_add(*r[1])
    if r[0] == 'mul':
        return mk_mul(*r[1])
    return r


def leaf(conv):
    def f(t):
        if t[0] == 'sum':
            key = t[1]
            if len(t[2]) == 1 and not t[2][0][0]:
                b = t[2][0][1]
                if not mentions(b, key):
                    dom = key[2]
                    if key[0] == 'idx' and dom[0] != 'range':
                        return conv.conv(dom) * conv.conv(b)
                    if key[0] == 'key':
                        return conv.conv(('size', dom)) * conv.conv(b)
                # distribute over sums and pull out factors
                if b[0] == 'add':
                    return sum((conv.conv(('sum', key, (((), x),))) for x in b[1]), algebra.Integer(0))
                if b[0] == 'mul':
                    outp = [x for x in b[1] if not mentions(x, key)]
                    inp = [x for x in b[1] if mentions(x, key)]
                    if outp and inp:
                        r = conv.conv(('sum', key, (((), mk_mul(*inp)),)))
                        for x in outp:
                            r *= conv.conv(x)
                        return r
        return None
    return f


def zero(term):
    c = algebra.Conv()
    c.leaf = leaf(c)
    return algebra.is_zero(c.conv(term))


SCALAR_TYPES = ('bool',)


def main():
    C = rule.Check('C02', RULE, [
        'real arithmetic stands for floating point',
        'a value added to a partition is not already in it (callers check)',
        'lgamma and log are characterised by lgamma(z+1)=lgamma(z)+log z and the logarithm laws'],
        min_obligations=15)
    P = C.P
    decided = {}
    for cls in sorted(models.concrete(P)):
        sc = models.template(cls)
        r = closed_form(C, P, cls, sc)
        if r is None:
            r = composite(C, P, cls, sc)
        decided[sc] = r
    crp(C, P)
    need = ['BetaBernoulli', 'DirichletCategorical', 'Normal', 'ZeroMeanNormal']
    for s in need:
        if s in decided and not decided[s]:
            C.unanalysed.append(s)
    C.note('decided: ' + ', '.join(sorted(k for k, v in decided.items() if v)))
    C.note('not decided (approximate or non-conjugate by design): ' +
           ', '.join(sorted(k for k, v in decided.items() if not v)))
    return C.finish()


def value_cases(P, f):
    t = P.noref(f['params'][0]['t'])
    if t['k'] == 'bool':
        return [('b', True), ('b', False)]
    return [('p', 'x')]


def closed_form(C, P, cls, sc):
    inc = models.method(P, cls, 'incorporate')
    lp = models.method(P, cls, 'logp')
    ls = models.method(P, cls, 'logp_score')
    if not inc or not lp or not ls:
        return False
    try:
        sp = [p for p in C.run(ls, this_cls=cls) if not p.aborted]
        if len(sp) != 1 or any(ev[0] == 'call' and not is_self_logp(ev)
                               for ev, l, g in events(sp[0].trace)):
            return None
        score = sp[0].ret
        obs = []
        for x in value_cases(P, lp):
            lps = [p for p in C.run(lp, this_cls=cls, bind={lp['params'][0]['name']: x}) if not p.aborted]
            incs = [p for p in C.run(inc, this_cls=cls, bind={inc['params'][0]['name']: x,
                                                             inc['params'][1]['name']: ONE}) if not p.aborted]
            for ip in incs:
                if any(ev[0] == 'call' and not (ev[1].startswith('std::')) and ev[2] for ev, l, g in
                       events(ip.trace)):
                    return None
                if impossible(ip.decisions):
                    continue
                s1 = after(score, ip)
                for p in lps:
                    if impossible(p.decisions) or conflict(ip.decisions, p.decisions):
                        continue
                    v = p.ret
                    if any(s and s[0] in ('call',) and not self_logp_term(s) for s in subterms(v)):
                        return None
                    if is_minus_inf(v):
                        continue
                    v = subst_selflogp(v)
                    obs.append((x, ip, p, mk_sub(mk_sub(subst_selflogp(s1), score_self(score)), v)))
        if not obs:
            return None
    except (Unsupported, Broken) as e:
        C.note('%s: %s' % (sc, e))
        return None
    for x, ip, p, d in obs:
        d = when_empty(P, cls, d, p)
        ok = zero(d)
        C.ob(ok, '%s::logp|ratio%s' % (sc, '' if x[0] == 'p' else '|' + pp(x)),
             'predictive log-probability of %s is not the change of the log marginal likelihood' % pp(x), lp, p)
    # empty model
    ini = {}
    empt = True
    for t in set(s for s in subterms(score) if s and s[0] == 'f'):
        v = initial(P, cls, t)
        if v is not None and is_stat(P, cls, t, inc):
            ini[t] = v
    e = subst(score, ini)
    e = zero_containers(e, P, cls, inc, C)
    C.ob(zero(e), '%s::logp_score|empty' % sc, 'log marginal likelihood of the empty model is not zero', ls)
    return True


def when_empty(P, cls, d, p):
    """On paths where the total is zero the statistics are at their initial
    values (C01)."""
    zs = [a for a, b in p.decisions if b and a[0] == 'eq' and n(0) in a[1:] and
          any(x[0] == 'f' and x[2] == 'N' for x in a[1:])]
    if not zs:
        return d
    m = {}
    for t in set(s for s in subterms(d) if s and s[0] == 'f'):
        v = initial(P, cls, t)
        inc = models.method(P, cls, 'incorporate')
        if v is not None and is_stat(P, cls, t, inc):
            m[t] = v
    return subst(d, m)


_stat_cache = {}


def is_stat(P, cls, loc, inc):
    """Is loc written by incorporate (a statistic) rather than a hyperparameter?"""
    k = (cls, inc['key'])
    if k not in _stat_cache:
        w = set()
        for p in Interp(P).run(inc, this_cls=cls):
            for ev, l, g in events(p.trace):
                if ev[0] in STATE_OPS and isinstance(ev[1], tuple) and not islocal(ev[1]):
                    w.add(ev[1])
        _stat_cache[k] = w
    return loc in _stat_cache[k]


def zero_containers(e, P, cls, inc, C):
    """Entries of statistic containers are zero in the initial state."""
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'sum' and x[1][0] == 'key' and is_stat(P, cls, x[1][2], inc):
            return ZERO
        if x[0] == 'at' and is_stat(P, cls, x[1], inc):
            return ZERO
        if x[0] == 'size' and is_stat(P, cls, x[1], inc) and map_field(P, cls, x[1]):
            return ZERO
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if r != x and r[0] == 'add':
            return mk_add(*r[1])
        if r != x and r[0] == 'mul':
            return mk_mul(*r[1])
        return r
    return go(e)


def map_field(P, cls, loc):
    if loc[0] != 'f':
        return False
    for r in P.recs.values():
        for fd in r['fields']:
            if fd['name'] == loc[2]:
                t = P.type(fd['t'])
                if t.get('rec') in ('std::map', 'std::unordered_map'):
                    return True
    return False


def is_self_logp(ev):
    return ev[1].endswith('::logp') and ev[2] == ('this',)


def self_logp_term(s):
    return s[1].endswith('::logp') and s[2] == ('this',)


def subst_selflogp(t):
    """Calls of this->logp(x) with unchanged parameters are one function of x."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and len(t) > 3 and t[1].endswith('::logp') and t[2] == ('this',):
        return ('fn', 'self.logp') + tuple(t[3])
    r = tuple(subst_selflogp(x) if isinstance(x, tuple) else x for x in t)
    if r != t and r[0] == 'add':
        return mk_add(*r[1])
    if r != t and r[0] == 'mul':
        return mk_mul(*r[1])
    return r


def score_self(t):
    return subst_selflogp(t)


def impossible(dec):
    """N + c == 0 with c > 0 cannot hold: total weights are non-negative when
    scoring."""
    for a, b in dec:
        if b and a[0] == 'eq' and n(0) in a[1:]:
            o = a[1] if a[2] == n(0) else a[2]
            if o[0] == 'add' and any(x[0] == 'n' and x[1] > 0 for x in o[1]) and \
                    any(x[0] == 'f' and x[2] == 'N' for x in o[1]):
                return True
    return False


def conflict(a, b):
    fa = dict(a)
    return any(x in fa and fa[x] != v for x, v in b)


def is_minus_inf(v):
    return any(s and s[0] == 'fn' and s[1] == 'numeric_limits::infinity' for s in subterms(v))


# ------------------------------------------------------------- composites --
NESTED = ('incorporate', 'unincorporate', 'logp', 'logp_score')


def nested_opaque(f):
    return f.get('name') in NESTED and (f.get('clsq') or f.get('cls', '')).split('<')[0] not in ('',)


def composite(C, P, cls, sc):
    inc = models.method(P, cls, 'incorporate')
    lp = models.method(P, cls, 'logp')
    ls = models.method(P, cls, 'logp_score')
    if not inc or not lp or not ls:
        return False
    x = ('p', 'x')

    def run(f, extra=()):
        b = {f['params'][0]['name']: x} if f['params'] else {}
        if len(f['params']) > 1:
            b[f['params'][1]['name']] = ('p', 'w')
        key = f['key']
        return [p for p in C.run(f, this_cls=cls, bind=b, opaque=lambda g: nested_opaque(g) and g['key'] != key)
                if not p.aborted]
    try:
        ips, lps, sps = run(inc), run(lp), run(ls)
    except Broken as e:
        C.unanalysed.append('%s: %s' % (sc, e))
        return False
    # by-construction form: score after minus score before
    r = by_difference(C, sc, lp, lps)
    if r:
        return True
    feeds = {}
    for p in ips:
        f = []
        for ev, loops, g in events(p.trace):
            if ev[0] == 'call' and ev[1].endswith('::incorporate') and ev[2] != ('this',):
                f.append((loops, ev[2], ev[3][0], ev[3][1] if len(ev[3]) > 1 else ONE))
        feeds[frozenset(inf(p.decisions))] = (f, p)
    done = False
    for p in lps:
        d = frozenset(inf(p.decisions))
        match = [(f, ip) for k, (f, ip) in feeds.items() if not conflict(k, d)]
        if any(any(dep_weight(w) for _, _, _, w in f) for f, _ in match):
            C.note('%s: mixture path scored approximately by design' % sc)
            continue
        terms = logp_terms(p)
        if terms is None:
            C.ob(False, '%s::logp|nested' % sc, 'predictive log-probability is not a sum of nested '
                 'log-probabilities: %s' % pp(p.ret)[:200], lp, p)
            continue
        for f, ip in match:
            a = sorted(repr(norm((l, o, v), ip.store)) for l, o, v, w in f)
            b = sorted(repr(norm((l, o, v), p.store)) for l, o, v in terms)
            C.ob(a == b, '%s::logp|nested' % sc, 'the nested values scored differ from those incorporated: %s vs %s'
                 % ([pp(o) + '<-' + pp(v)[:60] for _, o, v in terms], [pp(o) + '<-' + pp(v)[:60] for _, o, v, _ in f]),
                 lp, p)
            C.ob(all(w == ('p', 'w') for _, _, _, w in f), '%s::incorporate|weight' % sc,
                 'nested weight is not the given weight', inc, ip)
            done = True
        chained(C, sc, lp, p, terms)
    # score covers every nested model
    for p in sps:
        kids = {norm_root(o) for f, _ in feeds.values() for _, o, _, _ in f}
        terms = score_terms(p.ret)
        if terms is None:
            C.ob(False, '%s::logp_score|sum' % sc, 'score is not a sum of nested scores: %s' % pp(p.ret)[:200], ls, p)
            continue
        got = sorted(repr(t) for t in terms)
        want = sorted(repr(k) for k in kids)
        if not kids:
            continue
        C.ob(got == want, '%s::logp_score|sum' % sc, 'score sums %s but the nested models are %s' % (got, want), ls, p)
        done = True
    return done


def inf(dec):
    return [(a, b) for a, b in dec if not mentions(a, ('p', 'w'))]


def dep_weight(w):
    return w != ('p', 'w') and not (w[0] == 'n')


def norm(t, store={}):
    """Forget call numbering; name local containers by their contents."""
    if isinstance(t, tuple):
        if t and t[0] == 'var' and t in store and store[t][0] in ('cont', 'list', 'fill'):
            return norm(store[t], {})
        if t and t[0] == 'call' and len(t) > 4:
            t = t[:4]
        return tuple(norm(x, store) if isinstance(x, tuple) else x for x in t)
    return t


def norm_root(o):
    if o[0] == 'at':
        return ('each', norm_root(o[1]))
    return o


def logp_terms(p):
    """[(loops, object, value)] such that the return value is their sum."""
    out = []
    v = p.ret
    ts = v[1] if v[0] == 'add' else (v,)
    for t in ts:
        if t == ZERO:
            continue
        if t[0] == 'call' and t[1].endswith('::logp'):
            out.append(((), t[2], t[3][0]))
        elif t[0] == 'sum' and len(t[2]) == 1 and not t[2][0][0]:
            b = t[2][0][1]
            bs = b[1] if b[0] == 'add' else (b,)
            for x in bs:
                if x[0] == 'call' and x[1].endswith('::logp'):
                    out.append(((t[1],), x[2], x[3][0]))
                else:
                    return None
        else:
            return None
    return out


def score_terms(v):
    out = []
    ts = v[1] if v[0] == 'add' else (v,)
    for t in ts:
        if t == ZERO:
            continue
        if t[0] == 'call' and t[1].endswith('::logp_score'):
            out.append(norm_root(t[2]))
        elif t[0] == 'sum' and len(t[2]) == 1 and not t[2][0][0]:
            b = t[2][0][1]
            bs = b[1] if b[0] == 'add' else (b,)
            for x in bs:
                if x[0] == 'call' and x[1].endswith('::logp_score') and mentions(x[2], t[1]):
                    dom = t[1][2]
                    o = x[2]
                    if o[0] == 'at' and o[2] == t[1] and dom in (('size', o[1]), o[1]):
                        out.append(norm_root(o))
                    else:
                        return None
                else:
                    return None
        else:
            return None
    return out


def chained(C, sc, lp, p, terms):
    """Several draws from the same nested family within one value: each must be
    conditioned on the previous ones."""
    fam = {}
    for l, o, v in terms:
        fam.setdefault(repr(norm_root(o)), []).append((l, o, v))
    for k, lst in fam.items():
        if len(lst) < 2 and not lst[0][0]:
            continue
        for l, o, v in lst:
            ok = False
            for ev, loops, g in events(p.trace):
                if ev[0] == 'loop' and l and ev[1] == l[0]:
                    ok = ok or all(cond_in_body(tr, o, v) for tr, dec, how in ev[2])
            if not l:
                ok = cond_in_body(p.trace, o, v)
            C.ob(ok, '%s::logp|chain' % sc, 'part of the value is scored without conditioning on the parts before it',
                 lp, p)


def cond_in_body(tr, o, v):
    i = [j for j, ev in enumerate(tr) if ev[0] == 'call' and ev[1].endswith('::logp') and ev[2] == o and
         ev[3][0] == v]
    a = [j for j, ev in enumerate(tr) if ev[0] == 'call' and ev[1].endswith('::incorporate') and ev[2] == o and
         ev[3][0] == v]
    return bool(i) and bool(a) and len(i) == len(a) and max(i) < min(a)


def by_difference(C, sc, lp, lps):
    """logp computed as logp_score(with x) - logp_score(without x)."""
    done = False
    for p in lps:
        v = p.ret
        cs = [s for s in subterms(v) if s and s[0] == 'call' and s[1].endswith('::logp_score')]
        if not cs:
            return False
        evs = [ev for ev, l, g in events(p.trace) if ev[0] == 'call']
        pos = [t for t in (v[1] if v[0] == 'add' else (v,))]
        plus = [t for t in pos if t[0] == 'call']
        minus = [t[1][1] for t in pos if t[0] == 'mul' and t[1][0] == n(-1) and len(t[1]) == 2]
        done = True
        if len(plus) != 1 or len(minus) != 1 or len(pos) != 2:
            C.ob(False, '%s::logp|difference' % sc, 'not a difference of two scores: %s' % pp(v)[:200], lp, p)
            continue

        def level(t):
            o = t[2]
            ver = next((x[1] for x in t if isinstance(x, tuple) and x and x[0] == 'v'), 0)
            k, lev = 0, 0
            for ev in evs:
                if ev[2] == o and ev[1].endswith('::incorporate'):
                    k += 1
                    if k <= ver:
                        w = ev[3][1] if len(ev[3]) > 1 else ONE
                        lev += 1 if ev[3][0] == ('p', 'x') and w == ONE else 100
                elif ev[2] == o and ev[1].endswith('::unincorporate'):
                    k += 1
                    if k <= ver:
                        lev -= 1 if ev[3][0] == ('p', 'x') else 100
            return lev
        C.ob(level(plus[0]) == 1 and level(minus[0]) == 0, '%s::logp|difference' % sc,
             'scores compared are not those with and without the value', lp, p)
    return done


# -------------------------------------------------------------------- CRP --
def crp(C, P):
    cls = 'CRP'
    inc, lp, ls = (P.fn1('CRP::' + m) for m in ('incorporate', 'logp', 'logp_score'))
    lnew = P.fn('CRP::logp_new_table', required=False)
    T_, N_ = ('f', ('this',), 'tables'), ('f', ('this',), 'N')
    try:
        score = [p for p in C.run(ls, this_cls=cls) if not p.aborted]
        if len(score) != 1:
            raise Unsupported('score has %d paths' % len(score))
        score = score[0].ret
        pi, pt = inc['params'][0]['name'], inc['params'][1]['name']
        incs = [p for p in C.run(inc, this_cls=cls, bind={pi: ('p', 'item'), pt: ('p', 'table')}) if not p.aborted]
        lps = [p for p in C.run(lp, this_cls=cls, bind={lp['params'][0]['name']: ('p', 'table')}) if not p.aborted]
    except (Unsupported, Broken) as e:
        C.unanalysed.append('CRP: %s' % e)
        return
    for ip in incs:
        new = any(a == ('contains', T_, ('p', 'table')) and b is False for a, b in ip.decisions)
        known = any(a == ('contains', T_, ('p', 'table')) for a, b in ip.decisions)
        for p in lps:
            if is_minus_inf(p.ret):
                continue
            emp = dict(p.decisions).get(('eq', N_, n(0)))
            if emp is None:
                emp = dict(p.decisions).get(('empty', T_))
            cases = [False, True] if emp is None else [emp]
            for e in cases:
                if e and not new:
                    continue
                try:
                    d = mk_sub(after(score, ip), score)
                    v = resolve_weights(p.ret, new, e)
                    diff = mk_sub(d, v)
                    m = {}
                    if e:
                        m[N_] = ZERO
                        diff = subst(diff, m)
                except Unsupported as u:
                    C.unanalysed.append('CRP: %s' % u)
                    continue
                C.ob(zero(diff), 'CRP::logp|ratio|%s%s' % ('new' if new else 'existing', '|empty' if e else ''),
                     'seating probability is not the change of the partition score', lp, p)
        if new:
            for f in lnew:
                for p in C.run(f, this_cls=cls):
                    if p.aborted:
                        continue
                    C.ob(zero(mk_sub(mk_sub(after(score, ip), score), p.ret)), 'CRP::logp_new_table|ratio',
                         'probability of a new table is not the change of the partition score', f, p)
    e = subst(score, {N_: ZERO})

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'sum' or x == ('size', T_):
            return ZERO
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if r != x and r[0] == 'add':
            return mk_add(*r[1])
        if r != x and r[0] == 'mul':
            return mk_mul(*r[1])
        return r
    C.ob(zero(go(e)), 'CRP::logp_score|empty', 'score of the empty partition is not zero', ls)


def resolve_weights(t, new, empty):
    """Weight of `table` in the map of seating weights for an existing or for
    the fresh table."""
    T_ = ('f', ('this',), 'tables')
    tab = ('p', 'table')

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'at' and x[2] == tab and x[1] != T_:
            c = x[1]
            if c[0] == 'cont':
                for o in reversed(c[2]):
                    if o[0] == 'put' and not (o[1][0] == 'n' and not empty):
                        # the fresh table: beyond every table in use
                        if new:
                            return o[2]
                        continue
                    if o[0] == 'put' and o[1][0] == 'n' and empty and new:
                        return o[2]
                    if o[0] == 'each' and not new:
                        k = o[1]
                        if not (k[0] == 'key' and k[2] == T_):
                            raise Unsupported('weights not over the tables')
                        for dec, ops, how in o[2]:
                            for q in ops:
                                if q[0] == 'put' and q[1] == k:
                                    return subst(q[2], {k: tab})
            raise Unsupported('weight of the table not found')
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if r != x and r[0] == 'add':
            return mk_add(*r[1])
        if r != x and r[0] == 'mul':
            return mk_mul(*r[1])
        return r
    return go(t)


if __name__ == '__main__':
    rule.main('C02', main)
