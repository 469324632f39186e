"""C05: hyperparameter moves install exactly a candidate that was scored.

transition_hyperparameters of every model and CRP::transition_alpha: each field
that differs afterwards holds the component, at the drawn position, of a
candidate whose pushed weight is the score of the model with those candidate
values in place.  transition_theta: the rejecting path leaves every latent as
it was, the accepting path keeps the proposal.  No observation statistic is
written."""
import sympy
from sa import rule, models, algebra, net
from sa.interp import (mk_add, mk_sub, mk_mul, mk_div, mentions, subterms, subst, n, pp, Interp, ZERO, ONE)
from sa.rule import events, islocal, rootof, Broken
from c02 import impossible, conflict, zero, leaf
from c03 import draw, gen, weights_of, elements, Shape, lgexp, is_discrete_index, args_of, resolve, lg
from c04 import restored

RULE = ('Every field a hyperparameter move changes ends as the component at the drawn index of a candidate list built '
        'in step with the scores of the draw; the score pushed for a candidate is the model score with exactly that '
        'candidate installed; statistics are not written; a rejected proposal restores every latent.')

HELPERS = ('sample_from_logps', 'log_choice')
MOVES = ('transition_hyperparameters', 'transition_theta')


class Odd(Exception):
    pass


def main():
    C = rule.Check('C05', RULE, [
        'helpers sample_from_logps and log_choice draw index i with weight exp(logps[i]) (checked as C03 and C28)',
        'candidate grids are read-only while a move runs'], min_obligations=20)
    P = C.P
    seen = set()
    for cls in models.concrete(P):
        if models.template(cls) in seen:
            continue
        seen.add(models.template(cls))
        f = models.method(P, cls, 'transition_hyperparameters')
        if f is not None:
            guarded(C, P, cls, f, hyper)
        f = models.method(P, cls, 'transition_theta')
        if f is not None:
            guarded(C, P, cls, f, theta)
    for f in P.fn('CRP::transition_alpha'):
        guarded(C, P, 'CRP', f, hyper)
    return C.finish()


def guarded(C, P, cls, f, g):
    sc = models.template(cls)
    try:
        g(C, P, cls, sc, f)
    except (Odd, Shape, Broken, RecursionError, KeyError, IndexError) as e:
        C.unanalysed.append('%s::%s: %s' % (sc, f['name'], str(e)[:120]))


def stats(C, P, cls):
    """Fields the model's incorporate writes (its observation statistics)."""
    out = set()
    for nm in ('incorporate', 'unincorporate'):
        f = models.method(P, cls, nm)
        if f is None:
            continue
        for p in Interp(P, opaque_obj=lambda g, o: g.get('name') in ('incorporate', 'unincorporate') and
                        o != ('this',)).run(f, this_cls=cls):
            for l in net.changed(p):
                r = field_of(l)
                if r is not None:
                    out.add(r)
    return out


def field_of(l):
    while l[0] in ('at', 'elt', 'f'):
        if l[0] == 'f' and l[1] == ('this',):
            return l[2]
        l = l[1]
    return None


def runs(C, P, cls, f):
    def opq(g):
        return g.get('name') in HELPERS

    def opo(g, o):
        return g.get('name') in MOVES and o != ('this',)
    return [p for p in C.run(f, this_cls=cls, opaque=opq, opaque_obj=opo)
            if not p.aborted and not impossible(p.decisions)]


def is_draw(s):
    return isinstance(s, tuple) and s and s[0] == 'call' and (s[1].split('::')[-1] in HELPERS or is_discrete_index(s))


def draws_in(v):
    out = []

    def walk(t, d):
        if not isinstance(t, tuple) or not t or d > 60:
            return
        if is_draw(t):
            if t not in out:
                out.append(t)
            return
        for x in t:
            walk(x, d + 1)
    walk(v, 0)
    return out


def pushes(ops, keys=(), conds=()):
    out = []
    for o in ops:
        if o[0] == 'push':
            out.append((keys, conds, o[1]))
        elif o[0] == 'each':
            for dec, sub, how in o[2]:
                c = conds + (tuple(sorted(net.canon(dec, {}), key=repr)),)
                if how not in ('next', 'continue') and sub:
                    c = c + (how,)
                out += pushes(sub, keys + (o[1],), c)
        elif o[0] == 'put' and keys and o[1] in (keys[-1], ('pos', keys[-1])):
            out.append((keys, conds, o[2]))
        else:
            raise Odd('candidate list built with %s' % o[0])
    return out


def seq(t, p):
    k = 0
    while t[0] == 'var' and t in p.store and k < 5:
        t = p.store[t]
        k += 1
    return t


def scored(d, p):
    """The sequence of log weights a draw was made from, as pushes."""
    if d[1].split('::')[-1] in HELPERS:
        return as_pushes(seq(d[3][0], p), p)
    w = elements(weights_of(d, p), p)
    if isinstance(w, list):
        raise Odd('fixed list of weights')
    k, t = w
    t = lgexp(t)
    for s in subterms(t):
        if s and s[0] == 'at' and s[2] == k and s[1][0] == 'cont':
            rest = mk_sub(t, s)
            if not mentions(rest, k):
                return as_pushes(s[1], p)
    return [((k,), ((),), t)]


def as_pushes(v, p):
    v = seq(v, p)
    if v[0] == 'cont' and v[1][0] in ('empty', 'fill', 'list'):
        return pushes(v[2])
    raise Odd('weights %s' % pp(v)[:60])


def candidates(v, d, p, W):
    """Values of the installed term at each pushed candidate, in step with W,
    or a string saying why they are not in step."""
    ats = [s for s in subterms(v) if s and s[0] == 'at' and s[2] == d]
    if any(s and s[0] == 'at' and s[2] != d and mentions(s[2], d) for s in subterms(v)):
        return 'the candidate installed is not the one at the drawn position'
    if not ats:
        raise Odd('value %s' % pp(v)[:60])
    per = []
    for s in ats:
        c = seq(s[1], p)
        if c[0] == 'cont' and c[1][0] == 'empty':
            try:
                H = pushes(c[2])
            except Odd:
                H = None
            if H is not None:
                if len(H) != len(W):
                    if len(W) == 1 and len(W[0][0]) == 1 and W[0][0][0][0] == 'idx':
                        H = None
                    else:
                        return 'the candidate list and the list of scores are not filled together'
                if H is not None and [(k, c_) for k, c_, _ in H] != [(k, c_) for k, c_, _ in W]:
                    if aligned(c, W, p):
                        H = None
                    else:
                        return 'the candidate list and the list of scores are not filled together'
                if H is not None:
                    per.append((s, [x for _, _, x in H]))
                    continue
        # a grid indexed directly: scores must have been pushed once per element, in order
        if not aligned(c, W, p):
            return 'the drawn index counts scores but is used to index %s' % pp(s[1])[:40]
        per.append((s, [('at', c, W[0][0][0])]))
    out = []
    for j in range(len(W)):
        m = {s: xs[j] for s, xs in per}
        out.append(project(subst(v, m)))
    return out


def aligned(c, W, p):
    """One score per element of c, unconditionally and in order."""
    if len(W) != 1:
        return False
    keys, conds, _ = W[0]
    if len(keys) != 1 or any(x for x in conds):
        return False
    return keys[0][0] == 'idx' and keys[0][2][0] == 'size' and seq(keys[0][2][1], p) == c


def project(t):
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(project(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'f' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'tuple':
        i = {'first': 0, 'second': 1}.get(t[2], t[2][0] if isinstance(t[2], tuple) else t[2])
        if isinstance(i, int) and i + 1 < len(t[1]):
            return t[1][1 + i]
    return t


def hyper(C, P, cls, sc, f):
    name = '%s::%s' % (sc, f['name'])
    ps = runs(C, P, cls, f)
    st = stats(C, P, cls)
    for p in ps:
        ch = {l: v for l, v in net.changed(p).items() if rootof(l) == ('this',)}
        final = {}
        for l, v in ch.items():
            fam = family(l)
            # one family may be written by the candidate loop and again by the installing loop
            if fam in final and draws_in(final[fam][1]) and is_loop_value(v):
                continue
            final[fam] = (l, v)
        bad = sorted(x for x in {field_of(l) for l in ch} if x in st and not is_nested(ch, x))
        C.ob(not bad, name + '|statistics', '%s changes observation statistics %s' % (name, ', '.join(bad)), f, p)
        nested_updates = [ev for ev, lo, co in net.calls(p) if ev[1].split('::')[-1] in ('incorporate', 'unincorporate')
                          and ev[2] is not None and not islocal(ev[2])]
        C.ob(not nested_updates, name + '|data', '%s adds or removes observations' % name, f, p)
        groups = {}
        for fam, (l, v) in final.items():
            v = installed(v, l)
            ds = draws_in(v)
            if is_loop_value(v) and not ds or not ds and scanned(v, p):
                C.ob(False, '%s|%s keeps the last candidate' % (name, pp(l)[:40]),
                     '%s leaves %s at the last value tried instead of the drawn one' % (name, short(l)), f, p)
                continue
            if len(ds) != 1:
                C.ob(False, '%s|%s not from one draw' % (name, short(l)),
                     '%s sets %s to a value that is not one drawn candidate: %s' % (name, short(l), pp(v)[:80]), f, p)
                continue
            groups.setdefault(ds[0], []).append((l, v))
        objs = {}
        for d, lv in groups.items():
            for l, v in lv:
                objs.setdefault(owner(l), set()).add(d)
        for o, s in objs.items():
            C.ob(len(s) == 1, '%s|%s one draw' % (name, short(o)),
                 '%s takes the hyperparameters of %s from different draws' % (name, short(o)), f, p)
        for d, lv in groups.items():
            W = scored(d, p)
            cand = {}
            ok = True
            for l, v in lv:
                c = candidates(v, d, p, W)
                good = not isinstance(c, str)
                C.ob(good, '%s|%s in step' % (name, short(l)), '%s: %s' % (name, c), f, p)
                ok = ok and good
                cand[l] = c
            if ok:
                score(C, P, cls, sc, name, f, p, W, cand)


def is_nested(ch, x):
    """The field is itself a model; its hyperparameters may change."""
    return all(l[0] == 'f' and field_of(l) == x and l != ('f', ('this',), x) for l in ch if field_of(l) == x)


def family(l):
    if l[0] in ('at', 'elt'):
        return ('at', family(l[1]), ('any',))
    if l[0] == 'f':
        return ('f', family(l[1]), l[2])
    return l


def owner(l):
    """Model object whose hyperparameter l is; the cached copy of a whole
    family belongs to the object holding the family."""
    o = family(l)[1] if l[0] == 'f' else family(l)
    while o[0] == 'at':
        o = o[1]
    return o


def is_loop_value(v):
    return v[0] in ('loopout', 'last', 'acc')


def scanned(v, p):
    return any(s and s[0] in ('loopout', 'last', 'acc') for s in subterms(v))


def installed(v, l):
    """A loop storing one value into every element."""
    k = 0
    while v[0] == 'last' and k < 4:
        vs = {b[1] for b in v[2]}
        if len(vs) != 1:
            return v
        x = list(vs)[0]
        if mentions(x, v[1]):
            return v
        if not draws_in(x):
            return v
        v = x
        k += 1
    return v


def short(l):
    return pp(family(l)).replace('this.', '').replace('[(any)]', '').replace('[any()]', '').replace(' ', '')


# --------------------------------------------------------------- scores ----
def score(C, P, cls, sc, name, f, p, W, cand):
    locs = sorted(cand, key=repr)
    own = [l for l in locs if l[0] == 'f' and not any(x and x[0] in ('at', 'elt') for x in subterms(l))]
    for j, (keys, conds, w) in enumerate(W):
        if any(s and s[0] == 'call' and not s[1].startswith('std::') for s in subterms(w)):
            by_order(C, P, name, f, p, w, {l: cand[l][j] for l in locs})
            continue
        key = '%s|score' % name
        at = {l: cand[l][j] for l in own}
        for l in own:
            C.ob(any(mentions(w, s) for s in parts(at[l])), '%s|%s scored' % (name, short(l)),
                 '%s installs a value for %s that the score of the draw does not depend on' % (name, short(l)), f, p)
        ref = reference(C, P, cls, sc, own, p)
        if ref is None:
            C.note('%s: no reference score' % name)
            continue
        for r, dec in ref:
            d = mk_sub(alpha(w), alpha(subst(r, at)))
            ks = [k for k in keys]
            C.ob(independent(d, ks), key,
                 '%s: the weight of a candidate is not the score of the model with that candidate installed' % name, f, p)


def parts(t):
    """Grid elements in a candidate value."""
    xs = [s for s in subterms(t) if s and s[0] in ('at', 'idx')]
    return xs or [t]


def independent(d, ks):
    try:
        if zero(d):
            return True
    except Exception:
        pass
    c = algebra.Conv()
    c.leaf = leaf(c)
    e = sympy.expand(algebra.normal(c.conv(d)))
    names = {repr(k) for k in ks}
    return not {s for r, s in c.syms.items() if any(x in repr(r) for x in names)} & e.free_symbols


def alpha(t, level=0):
    """Name the index of every sum after its own nesting only."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'sum' and len(t) > 2 and isinstance(t[1], tuple) and t[1] and t[1][0] in ('idx', 'key'):
        k2 = (t[1][0], 'b%d' % level) + t[1][2:]
        t = tuple(subst(x, {t[1]: k2}) if isinstance(x, tuple) else x for x in t)
        return tuple(alpha(x, level + 1) if isinstance(x, tuple) else x for x in t)
    r = tuple(alpha(x, level) if isinstance(x, tuple) else x for x in t)
    if r != t and r[0] == 'add':
        return mk_add(*r[1])
    if r != t and r[0] == 'mul':
        return mk_mul(*r[1])
    return r


def reference(C, P, cls, sc, own, p):
    lat = latent_prior(C, P, cls, own)
    if lat is not None:
        return [(lat, ())]
    o = {l[1] for l in own}
    if len(o) != 1:
        return None
    o = list(o)[0]
    c2 = cls
    if o != ('this',):
        return None
    g = models.method(P, c2, 'logp_score') or (P.fn('CRP::logp_score') or [None])[0]
    if g is None:
        return None
    out = []
    for q in C.run(g, this_cls=cls):
        if q.aborted or impossible(q.decisions) or conflict(p.decisions, q.decisions):
            continue
        out.append((q.ret, q.decisions))
    return out or None


def latent_prior(C, P, cls, own):
    """For models whose latents are drawn from the hyperparameters: the log
    prior density of the current latents."""
    f = models.method(P, cls, 'init_theta')
    if f is None:
        return None
    ps = [p for p in C.run(f, this_cls=cls) if not p.aborted]
    if len(ps) != 1:
        raise Odd('init_theta branches')
    tot = ZERO
    if not any(rootof(l) == ('this',) for l in net.changed(ps[0])):
        return None
    for l, v in net.changed(ps[0]).items():
        if rootof(l) != ('this',):
            continue
        x, jac = l, ZERO
        if v[0] == 'fn' and v[1] in ('exp', 'std::exp'):
            x, jac, v = lg(l), lg(l), v[2]
        if not draw(v) or gen(v) != 'normal_distribution':
            raise Odd('latent prior')
        m, s = args_of(v, ps[0])[:2]
        y = mk_div(mk_sub(x, m), s, False)
        tot = mk_add(tot, mk_mul(mk_div(n(-1), n(2), False), y, y), mk_mul(n(-1), lg(s)), mk_mul(n(-1), jac))
    return tot


def by_order(C, P, name, f, p, w, at):
    """The score is computed by nested calls: on the way to each call every
    installed location must just have been given the candidate's value."""
    names = {s[1] for s in subterms(w) if s and s[0] == 'call' and not s[1].startswith('std::')}
    found = []

    def walk(tr, fresh, loops):
        fresh = dict(fresh)
        for ev in tr:
            if ev[0] == 'set':
                fresh[family(ev[1])] = (ev[2], loops)
            elif ev[0] == 'loop':
                outs = []
                for t2, dec, how in ev[2]:
                    outs.append((walk(t2, fresh, loops + (ev[1],)), dec, how))
                for k in set().union(*[set(o[0]) for o in outs]) if outs else ():
                    vs = [o[0].get(k) for o in outs]
                    if all(x is not None and x[0] == vs[0][0] for x in vs):
                        fresh[k] = vs[0]
                    elif fresh.get(k) not in vs or any(v != fresh.get(k) for v in vs):
                        fresh.pop(k, None)
            elif ev[0] == 'call' and ev[1] in names:
                found.append((ev, dict(fresh)))
        return fresh
    walk(p.trace, {}, ())
    if not found:
        raise Odd('score call not found')
    for l, v in at.items():
        fam = family(l)
        good = any(fr.get(fam, (None,))[0] == v for ev, fr in found)
        late = [fr for ev, fr in found if fr.get(fam, (None,))[0] != v]
        # every candidate score uses the same state, so all calls must agree
        C.ob(good and not late, '%s|%s in place when scored' % (name, short(l)),
             '%s scores a candidate while %s does not hold that candidate' % (name, short(l)), f, p)


# ---------------------------------------------------------------- theta ----
def theta(C, P, cls, sc, f):
    name = '%s::%s' % (sc, f['name'])
    init = models.method(P, cls, 'init_theta')
    ps = runs(C, P, cls, f)
    st = stats(C, P, cls)
    latents = set()
    if init is not None:
        for p in C.run(init, this_cls=cls):
            latents |= {l for l in net.changed(p) if rootof(l) == ('this',)}
    outcome = []
    for p in ps:
        ch = {l: v for l, v in net.changed(p).items() if rootof(l) == ('this',) and not restored(P, cls, p, l, v)}
        bad = sorted(x for x in {field_of(l) for l in ch} if x in st and not is_nested(ch, x))
        C.ob(not bad, name + '|statistics', '%s changes observation statistics %s' % (name, ', '.join(bad)), f, p)
        if not latents:
            C.ob(not ch, name + '|no latents', '%s of a model without latents changes %s' %
                 (name, ', '.join(map(short, ch))), f, p)
            continue
        kept = [l for l in latents if l not in ch]
        new = [l for l in latents if l in ch and any(draw(s) for s in subterms(ch[l]))]
        C.ob(len(kept) == len(latents) or len(new) == len(latents), name + '|all or nothing',
             '%s keeps %s but changes %s' % (name, ', '.join(map(short, kept)) or 'nothing', ', '.join(
                 map(short, [l for l in latents if l in ch]))), f, p)
        outcome.append((p, len(new) == len(latents)))
    if latents:
        C.ob(any(o for _, o in outcome), name + '|accepts', '%s never keeps a proposal' % name, f)
        C.ob(any(not o for _, o in outcome), name + '|rejects', '%s never restores the old latents' % name, f)
        # the test compares the new score with the old one
        for p, acc in outcome:
            direction(C, P, cls, name, f, p, acc)


def direction(C, P, cls, name, f, p, acc):
    g = models.method(P, cls, 'logp_score')
    rs = [q for q in C.run(g, this_cls=cls) if not q.aborted]
    ds = [x for x in p.decisions if any(draw(s) for s in subterms(x[0]))]
    if len(rs) != 1 or len(ds) != 1:
        return
    old = rs[0].ret
    a, b = ds[0]
    if a[0] not in ('lt', 'le', 'gt', 'ge'):
        return
    initp = [q for q in C.run(models.method(P, cls, 'init_theta'), this_cls=cls)][0]
    new = subst(old, {l: v for l, v in net.changed(initp).items()})
    us = [s for s in subterms(a) if draw(s) and gen(s) == 'uniform_real_distribution']
    if len(set(us)) != 1:
        return
    lu = lg(us[0])
    want = mk_sub(mk_sub(new, old), lu)          # accept iff >= 0
    d = mk_sub(a[2], a[1]) if a[0] in ('lt', 'le') else mk_sub(a[1], a[2])   # true iff d >= 0
    if not b:
        d = mk_mul(n(-1), d)
    if not acc:
        d = mk_mul(n(-1), d)
    try:
        same, opp = zero(strip(mk_sub(d, want))), zero(strip(mk_add(d, want)))
    except Exception:
        return
    C.ob(same, name + '|threshold', '%s does not accept exactly when log u is at most the gain in score' % name
         if not opp else '%s accepts when it should reject' % name, f, p)


def strip(t):
    """Draw numbering is irrelevant for the comparison."""
    return t


if __name__ == '__main__':
    rule.main('C05', main)
