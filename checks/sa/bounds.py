"""Positions in sequences stay inside them: linear facts from the branches before an access."""
from fractions import Fraction


def plain(t):
    """A term without conversions; loop-carried values stay apart from the values before the loop."""
    while isinstance(t, tuple) and t and isinstance(t[0], str):
        if t[0] in ('alt', 'as', 'addr', 'deref', 'cast', 'conv') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'ctor' and len(t) == 3 and isinstance(t[2], tuple) and t[2][:1] and isinstance(t[2][0], str):
            t = t[2]
        else:
            break
    if isinstance(t, tuple):
        return tuple(plain(x) if isinstance(x, tuple) else x for x in t)
    return t


def lin(t):
    """Term -> {atom: coefficient} with the constant under None."""
    if t[0] == 'n':
        return {None: t[1]}
    if t[0] == 'add':
        r = {}
        for x in t[1]:
            for a, c in lin(x).items():
                r[a] = r.get(a, Fraction(0)) + c
        return {a: c for a, c in r.items() if c or a is None}
    if t[0] == 'mul' and len(t[1]) == 2:
        for k, x in (t[1], t[1][::-1]):
            if k[0] == 'n':
                return {a: c * k[1] for a, c in lin(x).items()}
    if t[0] == 'neg':
        return {a: -c for a, c in lin(t[1]).items()}
    return {t: Fraction(1)}


def plus(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, Fraction(0)) + k * c
    return {x: c for x, c in r.items() if c}


def const(l):
    return l.get(None, Fraction(0))


def facts_of(c, truth):
    """Linear facts (each >= 0) of one decided condition."""
    if c[0] == 'not':
        return facts_of(c[1], not truth)
    if c[0] == 'lt':
        d = plus(lin(c[2]), lin(c[1]), -1)
        return [plus(d, {None: Fraction(-1)})] if truth else [{a: -x for a, x in d.items()}]
    if c[0] == 'le':
        d = plus(lin(c[2]), lin(c[1]), -1)
        return [d] if truth else [plus({a: -x for a, x in d.items()}, {None: Fraction(-1)})]
    if c[0] == 'eq' and len(c) == 3:
        d = plus(lin(c[1]), lin(c[2]), -1)
        if truth:
            return [d, {a: -x for a, x in d.items()}]
        if any(x[0] == 'size' for x in c[1:]) and any(x == ('n', Fraction(0)) for x in c[1:]):
            s = c[1] if c[1][0] == 'size' else c[2]
            return [{s: Fraction(1), None: Fraction(-1)}]
        return []
    if c[0] == 'empty':
        return [{('size', c[1]): Fraction(-1)}] if truth else [{('size', c[1]): Fraction(1), None: Fraction(-1)}]
    return []


def natural(a):
    """An atom that is never negative: a size, or a position counted up from a natural number."""
    return a is not None and a[0] in ('size', 'idx', 'acc', 'psum', 'last')


def prove(goal, facts, depth=4):
    """goal >= 0 follows from the facts and from sizes and positions being natural."""
    neg = [a for a, c in goal.items() if a is not None and (c < 0 or not natural(a))]
    if not neg and const(goal) >= 0:
        return True
    if depth == 0:
        return False
    for a in neg[:1] or [a for a in goal if a is not None]:
        for f in facts:
            if a in f and f[a] * goal[a] > 0:
                k = goal[a] / f[a]
                if prove(plus(goal, f, -k), facts, depth - 1):
                    return True
    return False


def keyfacts(t):
    """Facts of the loop positions inside a term."""
    out = []
    if isinstance(t, tuple):
        if t and t[0] == 'idx' and len(t) == 3 and isinstance(t[2], tuple):
            hi = t[2]
            if hi[0] == 'range' and len(hi) == 3:
                out.append(plus(lin(hi[2]), {t: Fraction(1), None: Fraction(1)}, -1))
                out.append(plus({t: Fraction(1)}, lin(hi[1]), -1))
            else:
                out.append(plus(lin(hi), {t: Fraction(1), None: Fraction(1)}, -1))
        for x in t:
            if isinstance(x, tuple):
                out += keyfacts(x)
    return out


def unwrapped(t, facts):
    """Every subtraction from a size inside the term stays natural, so machine arithmetic agrees with the linear reading."""
    l = lin(t)
    if const(l) < 0 or any(c < 0 for a, c in l.items() if a is not None):
        return prove(l, facts)
    return True


HIST = ('cont', 'psum', 'out', 'acc', 'last', 'each', 'read', 'struct')


def accesses(t):
    """The (container, position) pairs a term reads, in no particular order; histories of containers are not entered."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            if t[0] in HIST:
                return
            if t[0] == 'at' and len(t) == 3:
                yield t[1], t[2]
        for x in t:
            if isinstance(x, tuple):
                yield from accesses(x)


def position(k):
    """The position is arithmetic over sizes and counters (so the container is a sequence)."""
    if k in (('last',), ('first',)):
        return True
    return all(a is None or natural(a) or a[0] == 'last' for a in lin(k))


def scan(tr, ask, facts=(), loops=()):
    """Asks about every positional access with the facts decided before it and the loops it is in."""
    facts = list(facts)
    for ev in tr:
        if ev[0] == 'loop':
            for b, dec, how in ev[2]:
                scan(b, ask, facts, loops + (ev[1],))
            continue
        w = ev[-2] if ev[0] == 'call' else ev[-1]
        for x in ev[1:]:
            if isinstance(x, tuple):
                for X, k in accesses(plain(x)):
                    ask(X, k, facts + keyfacts(k), w, loops)
        if ev[0] == 'br':
            facts += facts_of(plain(ev[1]), ev[2])
