"""C33: a composite model's score is the sum of its parts, each once.

The value returned by every composite logp_score is put in additive normal
form and compared with the parts the model consists of."""
from fractions import Fraction
from sa import rule
from sa.interp import pp, n, subterms, mentions
from sa.net import base
from sa.rule import Broken
from sa.rel import THIS, strip
from c02 import impossible

RULE = ('The additive normal form of every composite logp_score consists of the scores of exactly the parts of the model '
        '(every cluster model; every domain partition and relation; the relation partition and every view; every entity '
        'partition and the hierarchical model; the emission relation; the nested distributions and the symbols of the string, '
        'categorical, Gaussian and Sometimes models), each with coefficient one and unconditionally.')

# class -> parts: (name, field, over every element, the sub-object)
PARTS = {
    'CleanRelation': [('cluster models', 'clusters', True, None, ())],
    'NoisyRelation': [('emission relation', 'emission_relation', False, None, ())],
    'IRM': [('domain partitions', 'domains', True, 'crp', ('domain_to_relations',)),
            ('relations', 'relations', True, None, ('schema',))],
    'HIRM': [('relation partition', 'crp', False, None, ()), ('views', 'irms', True, None, ('crp.tables',))],
    'Bigram': [('character models', 'transition_dists', True, None, ())],
    'StringCat': [('category model', 'dc', False, None, ())],
    'DistributionAdapter': [('adapted model', 'd', False, None, ())],
    'BigramStringEmission': [('insertion models', 'insertions', True, None, ()), ('substitution models', 'substitutions', True, None, ())],
    'CategoricalEmission': [('category models', 'emission_dists', True, None, ())],
    'GaussianEmission': [('noise model', 'zmn', False, None, ())],
    'Sometimes': [('error rate', 'bb', False, None, ()), ('error model', 'be', False, None, ())],
    'GenDB': [('entity partitions', 'entity_crps', True, None, ()), ('hierarchical model', 'hirm', False, None, ())],
}


class Odd(Exception):
    pass


def main():
    C = rule.Check('C33', RULE, ['the scores of the parts themselves are the obligations of C02',
                                 'each part is registered exactly once (C08, C11, C12, C22)'], min_obligations=3)
    P = C.P
    for cls, parts in PARTS.items():
        fs = [f for f in P.fn(cls + '::logp_score') if f.get('body')]
        for f in fs[:1]:
            try:
                one(C, f, cls, parts)
            except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    return C.finish()


def one(C, f, cls, parts):
    ps = [p for p in C.run(f, opaque=lambda g: g.get('name') == 'logp_score') if not p.aborted and
          not impossible(p.decisions)]
    if not ps:
        raise Odd('no path')
    for p in ps:
        if p.exit[0] != 'ret':
            raise Odd('no result')
        seen = {x[0]: 0 for x in parts}
        ref = {}
        for a, b in p.decisions:
            a = strip(a)
            for x in parts:
                if a == ('empty', ('f', THIS, x[1])) and b:
                    seen[x[0]] = 1      # nothing to add
        for coef, ctx, t in flatten(strip(p.ret)):
            hit = None
            for x in parts:
                if t[0] == 'call' and base(t[1]) == 'logp_score' and matches(t[2], ctx, x):
                    hit = x
            if hit is None:
                if t[0] == 'n' and t[1] == 0:
                    continue
                if not known_shape(t):
                    raise Odd('term ' + pp(t)[:80])
                C.ob(False, f['q'] + '|extra', '%s adds something that is not the score of a part: %s' % (f['q'], pp(t)[:80]),
                     f, p)
                continue
            C.ob(coef == 1, f['q'] + '|coefficient ' + hit[0], '%s does not add the score of its %s with weight one' %
                 (f['q'], hit[0]), f, p)
            conds = [c for c in ctx if c[1]]
            said = [holdings(strip(a), b) for c in conds for a, b in c[1]]
            if conds and all(x is not False and x is not None for x in said) and mentions_count(conds[0][1], t[2]):
                if 'call' in said:
                    raise Odd('conditional part')
                conds = []      # a part that holds nothing scores nothing
            C.ob(not conds, f['q'] + '|every ' + hit[0], '%s leaves out some of its %s' % (f['q'], hit[0]), f, p)
            seen[hit[0]] += 1
        for x in parts:
            C.ob(seen[x[0]] == 1, f['q'] + '|once ' + x[0], '%s counts its %s %d times' % (f['q'], x[0], seen[x[0]]), f, p)


def flatten(t, coef=Fraction(1), ctx=()):
    if t[0] == 'add':
        for x in t[1]:
            yield from flatten(x, coef, ctx)
    elif t[0] == 'mul' and sum(1 for x in t[1] if x[0] != 'n') == 1:
        c = coef
        rest = None
        for x in t[1]:
            if x[0] == 'n':
                c *= x[1]
            else:
                rest = x
        yield from flatten(rest, c, ctx)
    elif t[0] == 'neg':
        yield from flatten(t[1], -coef, ctx)
    elif t[0] == 'sum':
        zero = [c for c in t[2] if c[1] == n(0)]
        full = [c for c in t[2] if c[1] != n(0)]
        for dec, v in full:
            # conditions matter only when some case adds nothing
            yield from flatten(v, coef, ctx + ((t[1], tuple(dec) if zero or len(full) > 1 else ()),))
        if not full:
            return
    else:
        yield coef, ctx, t


def matches(o, ctx, part):
    name, field, every, sub, alias = part
    while o[0] in ('alt', 'cast', 'deref'):
        o = o[-1]
    if sub is not None:
        if o[0] != 'f' or o[2] != sub:
            return False
        o = o[1]
        while o[0] in ('alt', 'cast', 'deref'):
            o = o[-1]
    F = ('f', THIS, field)
    if not every:
        return o == F
    if o[0] != 'at' or o[1] != F or not ctx or o[2] != ctx[-1][0] or len(ctx) != 1:
        return False
    k = o[2]
    over = [F]
    for a in alias:
        t = THIS
        for x in a.split('.'):
            t = ('f', t, x)
        over.append(t)
    return k[0] == 'key' and k[2] in over or k[0] == 'idx' and k[2] == ('size', F)


def known_shape(t):
    """A term understood well enough to say it is no part of the score."""
    return t[0] in ('n', 'call', 'f', 'size', 'at', 'p', 'last') and not any(x[0] in ('fn', 'opaque', 'unk', 'fold')
                                                               for x in subterms(t) if isinstance(x, tuple) and x)


def holdings(a, b):
    """True: the decision says the part holds something; 'call': decided by a call; False: neither."""
    def amount(x):
        return x[0] == 'size' or x[0] == 'f' and x[2] == 'N'
    if a[0] == 'not':
        return holdings(a[1], not b)
    if a[0] == 'empty':
        return not b
    if a[0] in ('eq', 'ne') and n(0) in a[1:] and any(amount(x) for x in a[1:]):
        return b == (a[0] == 'ne')
    # the total weight of a distribution may be a fraction
    if a[0] in ('lt', 'le') and amount(a[2]) and a[1] == n(0 if a[0] == 'lt' else 1) and (a[0] == 'lt' or a[2][0] == 'size'):
        return b
    if a[0] in ('lt', 'le') and amount(a[1]) and a[2] == n(1 if a[0] == 'lt' else 0) and (a[0] == 'le' or a[1][0] == 'size'):
        return not b
    if amount(a):
        return b
    if any(x[0] == 'call' for x in subterms(a) if isinstance(x, tuple) and x) and not any(
            amount(x) for x in subterms(a) if isinstance(x, tuple) and x):
        return 'call'
    return False


def mentions_count(dec, part):
    """Skipping a part that holds nothing is not an omission."""
    return any(mentions(strip(a), part) for a, b in dec)


if __name__ == '__main__':
    rule.main('C33', main)
