"""Effects on registries (maps and sets owned by a class), with the loops and
conditions they occur under."""
from .interp import pp, mentions, subterms
from .net import base
from .rel import THIS, strip, fld
from c02 import impossible

KINDS = ('put', 'ins', 'del', 'push', 'pop', 'clear', 'assign', 'swap', 'merge', 'set', 'delete', 'call', 'insrange', 'touch',
         'vinsert', 'resize')


class Eff:
    def __init__(self, kind, loc, args, loops, conds, pos, ev):
        self.kind, self.loc, self.args = kind, loc, args
        self.loops, self.conds, self.pos, self.ev = loops, conds, pos, ev

    def __repr__(self):
        return '%s %s %s' % (self.kind, pp(self.loc)[:60] if self.loc else '', self.args and [pp(a)[:40] for a in self.args])


def effects(trace, loops=(), conds=(), pos=()):
    """All effects, outermost order; conds are (loop key, decisions, how) of
    the enclosing alternatives."""
    for i, ev in enumerate(trace):
        k = ev[0]
        if k == 'loop':
            key = strip(ev[1])
            for j, (tr, dec, how) in enumerate(ev[2]):
                d = tuple((strip(a), b) for a, b in dec)
                if impossible(d):
                    continue
                yield from effects(tr, loops + (key,), conds + ((key, d, how),), pos + (i, j))
        elif k == 'call':
            yield Eff('call', strip(ev[2]) if ev[2] is not None else None, strip(ev[3]), loops, conds, pos + (i,), ev)
        elif k == 'delete':
            yield Eff('delete', strip(ev[1]), (), loops, conds, pos + (i,), ev)
        elif k in KINDS:
            yield Eff(k, strip(ev[1]), tuple(strip(x) if isinstance(x, tuple) else x for x in ev[2:-1]), loops, conds,
                      pos + (i,), ev)


def alternatives(trace, over):
    """(key, loop event, [(sub trace, decisions, how)]) of the loops whose key
    satisfies over, at any depth."""
    for ev in trace:
        if ev[0] != 'loop':
            continue
        key = strip(ev[1])
        alts = [(tr, tuple((strip(a), b) for a, b in dec), how) for tr, dec, how in ev[2]]
        alts = [a for a in alts if not impossible(a[1])]
        if over(key):
            yield key, ev, alts
        for tr, dec, how in alts:
            yield from alternatives(tr, over)


def unalt(o):
    while o[0] in ('alt', 'cast', 'deref', 'altp'):
        o = o[-1]
    return o


def truth(dec, atom):
    """Value the decisions give to the atom (None: not tested)."""
    v = None
    for a, b in dec:
        if a == atom:
            v = b
        elif a == ('not', atom):
            v = not b
    return v


def has(dec, loc, key):
    return truth(dec, ('contains', loc, key))
