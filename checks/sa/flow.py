"""Shared queries over interpreted paths: normalised terms, places of events in their loops, coverage of loops."""
from .interp import Interp, pp
from .load import Broken


def core(t):
    """A term without alternatives, conversions, copies and call positions."""
    while isinstance(t, tuple) and t and isinstance(t[0], str):
        if t[0] in ('alt', 'as', 'addr', 'deref', 'cast', 'conv') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'ctor' and len(t) == 3 and isinstance(t[2], tuple) and t[2][:1] and isinstance(t[2][0], str):
            t = t[2]
        elif t[0] == 'acc' and len(t) == 3 and isinstance(t[2], tuple):
            t = t[2]
        else:
            break
    if isinstance(t, tuple):
        return tuple(core(x) if isinstance(x, tuple) else x for x in t)
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def has(t, s):
    return any(x == s for x in subterms(t))


def root(t):
    while isinstance(t, tuple) and t and t[0] in ('f', 'at', 'elt', 'alt') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


class Site:
    def __init__(self, ev, loops, conds, tr, i, alt):
        self.ev, self.loops, self.conds, self.tr, self.i, self.alt = ev, loops, conds, tr, i, alt

    @property
    def before(self):
        return self.tr[:self.i]

    @property
    def after(self):
        return self.tr[self.i + 1:]


def sites(path):
    """Every event with the loops around it, the conditions it is under and its own level."""
    def go(tr, loops, conds, alt):
        c = conds
        alt = alt + tuple((core(e[1]), e[2]) for e in tr if e[0] == 'br')
        for i, ev in enumerate(tr):
            if ev[0] == 'br':
                c = c + ((core(ev[1]), ev[2]),)
            if ev[0] == 'loop':
                for b, dec, how in ev[2]:
                    yield from go(b, loops + (core(ev[1]),), c, alt)
            else:
                yield Site(ev, loops, c, tr, i, alt)
    yield from go(path.trace, (), (), ())


def over(key, cont):
    """The loop key runs over all of the container."""
    return key[0] == 'key' and key[-1] == cont or key[0] == 'idx' and key[-1] == ('size', cont)


def container(key):
    if key[0] == 'key':
        return key[-1]
    if key[0] == 'idx' and isinstance(key[-1], tuple) and key[-1][0] == 'size':
        return key[-1][1]
    return None


def at(ev):
    w = ev[-2] if ev[0] == 'call' else ev[-1]
    return w


def flat(tr):
    for ev in tr:
        if ev[0] == 'loop':
            for b in ev[2]:
                yield from flat(b[0])
        else:
            yield ev


def covered(tr, chain, pred, excuse, decs=(), exits=('next', 'continue'), stop=lambda d: False):
    """Alternatives in which a nest of loops over `chain` fails to do `pred` exactly once per round.

    chain: containers, outermost first, as predicates on normalised loop keys.  Yields (problem, where, decisions)."""
    if not chain:
        n = 0
        w = None
        for ev in tr:
            if ev[0] == 'loop':
                if any(pred(e) for b in ev[2] for e in flat(b[0])):
                    yield 'repeats', ev[3] if len(ev) > 3 else None, decs
                    return
            elif pred(ev):
                n += 1
                w = ev
        if n == 0 and not excuse(tuple(x for e in tr if e[0] == 'br' for x in ((core(e[1]), e[2]),)) + tuple(decs)):
            yield 'skips', None, decs
        if n > 1:
            yield 'repeats', at(w), decs
        return
    found = 0
    for ev in tr:
        if ev[0] == 'loop' and chain[0](core(ev[1])) and any(pred(e) for b in ev[2] for e in flat(b[0])):
            found += 1
            for b, dec, how in ev[2]:
                d = tuple(decs) + tuple((core(a), t) for a, t in dec)
                if how not in exits:
                    if not stop(d):
                        yield 'stops early', ev[3] if len(ev) > 3 else None, d
                    continue
                yield from covered(b, chain[1:], pred, excuse, d, exits, stop)
    if not found:
        own = tuple(x for e in tr if e[0] == 'br' for x in ((core(e[1]), e[2]),)) + tuple(decs)
        if not excuse(own):
            yield 'skips', None, decs
    elif found > 1:
        yield 'repeats', None, decs


class Runner:
    """Interprets functions with the named classes and functions left opaque; everything else is inlined."""

    def __init__(self, C, classes=(), anchors=(), keep=()):
        self.C, self.classes, self.anchors, self.keep = C, set(classes), set(anchors), set(keep)
        self.cache = {}
        self.inlined = {}

    def opaque(self, g):
        q = g.get('q', '')
        if q in self.keep:
            return False
        return q.split('::')[0] in self.classes and '::' in q or q in self.anchors or g.get('name') in self.anchors

    def __call__(self, f):
        if f['key'] not in self.cache:
            seen = set()

            def opq(g):
                if g.get('key') != f['key'] and (self.opaque(g) or not near(self.C.P.fns.get(g.get('key'), {}).get('file', ''), f['file'])):
                    return True
                seen.add(g.get('key'))
                return False
            ps = self.C.try_run(f, opaque=opq)
            self.cache[f['key']] = None if ps is None else [p for p in ps if not p.aborted]
            self.inlined[f['key']] = seen - {f['key']}
        return self.cache[f['key']]


def near(a, b):
    """Defined in the same file, or in the header beside it."""
    return a.rsplit('.', 1)[0] == b.rsplit('.', 1)[0]


def repofns(P):
    return {k: f for k, f in P.fns.items() if f.get('body') is not None and not f['file'].endswith('_test.cc') and
            'playground' not in f['file'] and '/tests/' not in '/' + f['file']}


def thing(t):
    """The object a term is part of, or is a later state of."""
    while True:
        t = root(t)
        if t[0] == 'out' and isinstance(t[2], int) and t[2] < len(t[3]):
            t = t[3][t[2]]
        else:
            return t


def tupled(v):
    parts = [z for z in v[1:] if isinstance(z, tuple)]
    if len(parts) == 1 and parts[0] and isinstance(parts[0][0], tuple):
        parts = list(parts[0])
    return parts


def flatten(x):
    out = []
    for y in x:
        if isinstance(y, tuple) and (not y or not isinstance(y[0], str)):
            out += flatten(y)
        else:
            out.append(y)
    return out


def order(p, s):
    """Position of a site (of the outermost loop around it) on its path."""
    for i, ev in enumerate(p.trace):
        if ev is s.ev or ev[0] == 'loop' and inside(ev, s):
            return i
    return len(p.trace)


def inside(loop, s):
    for b, dec, how in loop[2]:
        if b is s.tr:
            return True
        if any(e[0] == 'loop' and inside(e, s) for e in b):
            return True
    return False


def carried(t):
    """A container that holds what an earlier round of a loop around it put in."""
    if t[0] != 'cont':
        return False
    last = None
    for op in t[2]:
        if op[0] == 'prior':
            last = True
        elif op[0] in ('clear', 'empty'):
            last = None
    return bool(last)
