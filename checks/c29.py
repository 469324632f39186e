"""C29: string alignments account for every character and are scored as they are learned."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.load import load
from sa.interp import pp
from sa.flow import core, subterms, has, root, at, repofns, flatten, near, sites, flat

RULE = ('In the search over alignments: the queue starts with the empty alignment at (0, 0); each round takes the cheapest entry, removes it once, '
        'and either skips it (only when its own pair of positions was reached more than k times), delivers it once (only with both positions at the '
        'ends, with its cost\'s sign restored), or extends it by every piece that fits: a deletion of s1\'s next character, an insertion of s2\'s, '
        'a match or substitution of both, each moving its own positions by one and costing the cost function\'s value; the search ends only '
        'with an empty queue or k results. Callers pass the clean string first. For each kind of piece, the scored table entries are '
        'the counted ones, under the last clean character before the piece.')
CLS = 'BigramStringEmission'
MEMBER = {0: 'deleted_char', 2: 'original', 3: 'c'}


def N(v):
    return ('n', Fraction(v))


def neg(t):
    if t[0] == 'n':
        return ('n', -t[1])
    if t[0] == 'mul' and t[1][0] == N(-1):
        return t[1][1] if len(t[1]) == 2 else ('mul', t[1][1:])
    return ('mul', (N(-1), t))


def plus1(t):
    return ('add', (t, N(1)))


def terms(t):
    """The summands of a sum, with sign."""
    if t[0] == 'add':
        for x in (t[1] if isinstance(t[1][0], tuple) else t[1:]):
            yield from terms(x)
    elif t[0] == 'mul' and t[1][0] == N(-1):
        for s, x in terms(neg(t)):
            yield -s, x
    else:
        yield 1, t


def fields(t):
    """A record value as (base, changed members)."""
    if t[0] == 'with':
        b, f = fields(t[1])
        f = dict(f)
        f.update(t[2])
        return b, f
    if t[0] == 'struct':
        return None, dict(t[2])
    return t, {}


class C29:
    def __init__(self):
        self.C = Check('C29', RULE, ['the heap functions of the standard library order by the record\'s own comparison',
                                     'positions never run past the ends of their strings, which the rules themselves maintain'],
                       min_obligations=12, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)

    def go(self):
        self.search()
        self.callers()
        self.costs()
        self.bigram()
        return self.C.finish()

    def run(self, f, keep=()):
        def opq(g):
            if g['key'] == f['key']:
                return False
            h = self.P.fns.get(g['key'], {})
            return not near(h.get('file', ''), f['file']) or g.get('q') in ('topk_alignments', CLS + '::get_index') or \
                (g.get('q', '').startswith(CLS + '::') and g.get('q') in self.anchored)
        ps = self.C.try_run(f, opaque=opq, snap=True)
        return None if ps is None else [p for p in ps if not p.aborted and p.exit[0] != 'abort']

    anchored = (CLS + '::incorporate', CLS + '::log_prob_distance', CLS + '::logp', CLS + '::logp_score')

    def one(self, q):
        r = [f for f in self.fns.values() if f['q'] == q]
        return r[0] if len(r) == 1 else None

    def un(self, s):
        self.C.unanalysed.append(s)

    # --------------------------------------------------------------- the search ---
    def search(self):
        C = self.C
        f = self.one('topk_alignments')
        rec = self.P.recs.get('StrAlignment')
        if f is None or rec is None or len(f['params']) != 5:
            C.ob(f is not None, 'C29:topk_alignments', 'no function aligns two strings')
            self.un('topk_alignments: interface')
            return
        names = [x['name'] if isinstance(x, dict) else x for x in rec['fields']]
        C.ob(names[:1] == ['cost'], 'C29:StrAlignment:order', 'alignments are not ordered by cost first', (f['file'].replace('.cc', '.hh'), 0))
        self.k, self.s = ('p', f['params'][0]['name']), [('p', f['params'][1]['name']), ('p', f['params'][2]['name'])]
        self.fn, self.res = f['params'][3]['name'], ('p', f['params'][4]['name'])
        for p in self.run(f) or ():
            self.spath(f, p)

    def spath(self, f, p):
        C = self.C
        loops = [e for e in p.trace if e[0] == 'loop' and any(x[0] == 'push' and core(x[1]) == self.res for b in e[2] for x in flat(b[0]))]
        if not loops:
            C.ob(False, 'C29:results', 'topk_alignments delivers no alignment', f, p) if not any(e[0] == 'loop' for e in p.trace) else self.un('topk_alignments: search loop')
            return
        if len(loops) > 1:
            self.un('topk_alignments: several search loops')
            return
        loop = loops[0]
        i = p.trace.index(loop)
        for e in p.trace[i + 1:]:
            if len(e) > 1 and isinstance(e[1], tuple) and e[0] in ('pop', 'clear', 'push', 'del', 'resize', 'assign') and root(core(e[1])) == self.res:
                C.ob(False, 'C29:results', 'topk_alignments changes its results after the search', at(e), p)
        starts = [e for e in p.trace[:i] if e[0] == 'push' and core(e[2])[0] in ('struct', 'with')]
        heaps = {core(e[1]) for e in starts}
        if len(heaps) != 1 or list(heaps)[0][0] != 'var':
            self.un('topk_alignments: queue')
            return
        self.heap = list(heaps)[0]
        C.ob(len(starts) == 1, 'C29:start', 'the search starts from %d alignments' % len(starts), at(starts[0]), p)
        b, fs = fields(core(starts[0][2]))
        ok = all(fs.get(m) in (N(0), neg(N(0))) for m in ('cost', 's1_position', 's2_position')) and fs.get('align_pieces') == ('cont', ('empty',), ())
        C.ob(ok, 'C29:start', 'the search does not start from the empty alignment: ' + pp(core(starts[0][2]))[:100], at(starts[0]), p)
        Ts = set()
        for b in loop[2]:
            for e in flat(b[0]):
                for x in e[1:]:
                    if isinstance(x, tuple):
                        for t in subterms(core(x)):
                            if t[0] == 'at' and t[1][0] == 'cont' and any(o[0] == 'prior' for o in t[1][2]) and \
                                    any(o[0] == 'push' and fields(o[1])[1].get('align_pieces') is not None for o in t[1][2] if len(o) > 1):
                                Ts.add(t)
        if len(Ts) != 1:
            self.un('topk_alignments: entry taken from the queue')
            return
        T = self.T = Ts.pop()
        ops = list(T[1][2])
        n = max(j for j, o in enumerate(ops) if o[0] == 'prior')
        ords = [o[1] if len(o) > 1 else '' for o in ops[n + 1:] if o[0] == 'order']
        oth = [o for o in ops[n + 1:] if o[0] != 'order']
        if oth or T[2] not in (N(0), ('last',)):
            self.un('topk_alignments: entry taken from the queue')
            return
        good = not ords and T[2] == N(0) or ords == ['pop_heap'] and T[2] == ('last',)
        C.ob(good, 'C29:cheapest', 'a round does not take the cheapest entry of the queue', (f['file'], f.get('line', 0)), p)
        for b in loop[2]:
            self.round(f, p, loop, b)
        # the number of results counts the results
        for (lk, var), v in self.C.last.carries.items():
            if core(lk) != core(loop[1]) or core(var) != getattr(self, 'counter', None):
                continue
            for alts, init in v:
                C.ob(core(init) == N(0), 'C29:count', 'the count of results does not start at 0', f, p)
                for d, val, how in alts:
                    dd = [(core(a), t) for a, t in d]
                    e = self.ends(dd)
                    if e is None or how == 'break' or self.skip(dd):
                        continue
                    want = plus1(core(var)) if e == [True, True] else core(var)
                    C.ob(core(val) == want, 'C29:count', 'the count of results does not count the results', f, p)

    def ends(self, dec):
        """Is each position at its string's end?  None: impossible."""
        out = []
        for j, m in enumerate(('s1_position', 's2_position')):
            pos, size = ('f', self.T, m), ('size', self.s[j])
            vs = set()
            for a, t in dec:
                if a[0] == 'eq' and set(a[1:]) == {pos, size}:
                    vs.add(t)
                elif a == ('lt', pos, size):
                    vs.add(not t)
                elif a == ('lt', size, pos):
                    if t:
                        return None
            if len(vs) > 1:
                return None
            out.append(vs.pop() if vs else None)
        return out

    def skip(self, dec):
        return any(self.seen(a) for a, t in dec) and self.toomany(dec)

    def seen(self, a):
        return any(x[0] == 'at' and len(x) == 3 and x[1][0] in ('var', 'cont') and x != self.T and root(x[1]) != self.heap and
                   (has(x[2], ('f', self.T, 's1_position')) or has(x[2], ('f', self.T, 's2_position'))) for x in subterms(a))

    def toomany(self, dec):
        """The round's decision says its positions were reached more than k times (before this one: k or more)."""
        ok = False
        for a, t in dec:
            if a[0] != 'lt' or not self.seen(a):
                continue
            lo, hi, c = (a[1], a[2], -1) if t else (a[2], a[1], 0)   # hi - lo + c >= 0
            v = k = 0
            for sg, side in ((1, hi), (-1, lo)):
                for s, x in terms(side):
                    s *= sg
                    if x[0] == 'n':
                        c += s * x[1]
                    elif x == self.k:
                        k += s
                    elif x[0] == 'at' and self.seen(x):
                        v += s
                    else:
                        return False
            # v*V + k*K + c >= 0, V counts the earlier visits
            if (v, k) == (1, -1) and c <= 0:
                ok = True
        return ok

    def round(self, f, p, loop, b):
        C = self.C
        tr, dec, how = b
        dd = [(core(a), t) for a, t in dec]
        evs = list(flat(tr))
        w = next((at(e) for e in evs if at(e)), f)
        pushes = [e for e in evs if e[0] in ('push', 'ins') and core(e[1]) == self.heap]
        results = [e for e in evs if e[0] in ('push', 'ins') and core(e[1]) == self.res]
        if how in ('break', 'ret', 'return'):
            ok = False
            for a, t in dd:
                if a == ('empty', self.heap) and t or a == ('lt', N(0), ('size', self.heap)) and not t:
                    ok = True
                if a[0] == 'lt' and a[2] == self.k and not t and a[1][0] in ('var',):
                    self.counter = a[1]
                    ok = True
                if a[0] == 'lt' and a[2] == self.k and not t and a[1][:2] == ('size', self.res):
                    ok = True
            if results or pushes:
                self.un('topk_alignments: a round ends the search')
                return
            C.ob(ok, 'C29:ends', 'the search ends before the queue is empty and k alignments are found', w, p)
            return
        e = self.ends(dd)
        if e is None:
            return
        for a, t in dd:
            if a[0] == 'lt' and a[2] == self.k and t and a[1][0] == 'var':
                self.counter = a[1]
        pops = [x for x in evs if x[0] == 'pop' and core(x[1]) == self.heap]
        ords = [x for x in evs if x[0] == 'order' and core(x[1]) == self.heap]
        C.ob(len(pops) == 1, 'C29:taken', 'a round removes %d entries from the queue' % len(pops), w, p)
        i0 = evs.index(pops[0]) if pops else 0
        C.ob(any(x[2] == 'pop_heap' and evs.index(x) < i0 for x in ords) or self.T[2] != N(0), 'C29:taken', 'a round removes another entry than the one it extends', w, p)
        for x in pushes:
            j = evs.index(x)
            later = [y for y in evs[j + 1:] if y in ords or y in pushes]
            C.ob(bool(later) and later[0] in ords and later[0][2] != 'pop_heap', 'C29:heap', 'an entry is added to the queue without restoring its order', at(x), p)
        keys = [core(x[2]) for x in evs if x[0] in ('put', 'touch') and root(core(x[1]))[0] == 'var' and core(x[1]) != self.heap]
        pos = [('f', self.T, 's1_position'), ('f', self.T, 's2_position')]
        if not pushes and not results:
            sk = any(self.seen(a) for a, t in dd)
            C.ob(sk and self.toomany(dd), 'C29:skipped', 'a round drops an alignment whose positions were not reached more than k times', w, p)
            for kx in keys:
                C.ob(all(has(kx, z) for z in pos), 'C29:skipped', 'visits are counted without both positions: ' + pp(kx)[-80:], w, p)
            return
        if results:
            C.ob(e == [True, True], 'C29:complete', 'an alignment is delivered before both strings are used up', at(results[0]), p)
            C.ob(len(results) == 1, 'C29:once', 'an alignment is delivered %d times' % len(results), at(results[0]), p)
            for x in results:
                base, fs = fields(core(x[2]))
                if base != self.T:
                    self.un('topk_alignments: result')
                    continue
                C.ob(fs.pop('cost', ('f', self.T, 'cost')) == neg(('f', self.T, 'cost')), 'C29:cost', 'an alignment is delivered with a cost that is not its own', at(x), p)
                C.ob(all(v == ('f', self.T, m) for m, v in fs.items()), 'C29:result', 'an alignment is changed when it is delivered', at(x), p)
            return
        got = []
        for x in pushes:
            g = self.extend(f, p, x, dd, e)
            if g is None:
                return
            got.append(g)
        C.ob(e != [True, True], 'C29:delivered', 'a complete alignment is not delivered', w, p)
        if e == [True, True]:
            return
        want = []
        if e[0] is not True:
            want.append('D')
        if e[1] is not True:
            want.append('I')
        if e[0] is not True and e[1] is not True:
            want.append('M')
        C.ob(sorted(got) == sorted(want), 'C29:extensions', 'with %s an alignment is extended by %s, not %s' % (self.say(e), ''.join(sorted(got)), ''.join(sorted(want))), w, p)

    @staticmethod
    def say(e):
        return ', '.join('s%d %s' % (j + 1, 'used up' if x else 'left' if x is False else 'unknown') for j, x in enumerate(e))

    def extend(self, f, p, x, dd, e):
        C = self.C
        T, v = self.T, core(x[2])
        base, fs = fields(v)
        pc = fs.get('align_pieces')
        if base != T or pc is None or pc[0] != 'cont' or pc[1] != ('f', T, 'align_pieces') or len(pc[2]) != 1 or pc[2][0][0] not in ('push', 'ins') or \
                pc[2][0][1][0] != 'struct':
            if base == T and (pc is None or pc == ('f', T, 'align_pieces')):
                C.ob(False, 'C29:piece', 'an alignment is extended without a piece', at(x), p)
                return None
            self.un('topk_alignments: extension ' + pp(pc or v)[-80:])
            return None
        C.ob(pc[2][0][0] == 'push', 'C29:piece', 'a piece is not appended', at(x), p)
        kind, mem = pc[2][0][1][1], dict(pc[2][0][1][2])
        pos = [('f', T, 's1_position'), ('f', T, 's2_position')]
        ch = [('at', self.s[0], pos[0]), ('at', self.s[1], pos[1])]
        ways = {'Deletion': ('D', {'deleted_char': ch[:1]}, (1, 0)), 'Insertion': ('I', {'inserted_char': ch[1:]}, (0, 1)),
                'Match': ('M', {'c': ch}, (1, 1)), 'Substitution': ('M', {'original': ch[:1], 'replacement': ch[1:]}, (1, 1))}
        if kind not in ways:
            self.un('topk_alignments: piece ' + kind)
            return None
        g, want, mv = ways[kind]
        known = all(any(y in ch for y in subterms(z)) for z in mem.values())
        for m, zs in want.items():
            if m in mem and mem[m] not in zs and not known and not any(r in mem[m] for r in self.s) and mem[m][0] not in ('n', 'at'):
                self.un('topk_alignments: character ' + pp(mem[m])[-60:])
                continue
            C.ob(mem.get(m) in zs, 'C29:%s:%s' % (kind, m), 'a %s does not hold its own character: %s' % (kind, pp(mem.get(m, ('none',)))[-80:]), at(x), p)
        for j in (0, 1):
            got = fs.get('s%d_position' % (j + 1), pos[j])
            C.ob(got == (plus1(pos[j]) if mv[j] else pos[j]), 'C29:%s:position %d' % (kind, j + 1), 'a %s does not move along string %d by %d' % (kind, j + 1, mv[j]), at(x), p)
            if mv[j]:
                C.ob(e[j] is False, 'C29:%s:in range %d' % (kind, j + 1), 'a %s is made although string %d may be used up' % (kind, j + 1), at(x), p)
        same = [t for a, t in dd if a[0] == 'eq' and set(a[1:]) == set(ch)]
        if kind == 'Match':
            C.ob(True in same, 'C29:Match:equal', 'a match is made of unequal characters', at(x), p)
        if kind == 'Substitution':
            C.ob(False in same, 'C29:Substitution:unequal', 'a substitution is made of equal characters', at(x), p)
        c = neg(fs.get('cost', ('none',)))
        if c[0] != 'call' or 'operator()' not in c[1]:
            if not any(y[0] == 'call' and 'operator()' in y[1] for y in subterms(c)):
                C.ob(False, 'C29:%s:cost' % kind, 'a %s does not cost what the cost function says' % kind, at(x), p)
            else:
                C.ob(fs['cost'][0] != 'call', 'C29:%s:cost' % kind, 'the cheapest entry is not first in the queue: costs are not negated', at(x), p)
                if fs['cost'][0] != 'call':
                    self.un('topk_alignments: cost ' + pp(c)[:60])
            return g
        args = flatten(c[3:]) if len(c) > 3 else []
        if len(args) != 2:
            self.un('topk_alignments: cost function')
            return g
        ab, af = fields(args[0])
        C.ob(ab == T and af.get('align_pieces') == pc, 'C29:%s:cost' % kind, 'a %s costs what another alignment costs' % kind, at(x), p)
        C.ob(args[1] == neg(('f', T, 'cost')), 'C29:%s:old cost' % kind, 'a %s\'s cost does not start from the cost before it: %s' % (kind, pp(args[1])[-60:]), at(x), p)
        return g

    # ------------------------------------------------------------------ callers ---
    def callers(self):
        C = self.C
        f = self.one(CLS + '::incorporate')
        if f is None:
            return
        x = ('p', f['params'][0]['name'])
        for p in self.run(f) or ():
            for s in sites(p):
                e = s.ev
                if e[0] == 'call' and e[1] == 'topk_alignments':
                    a = [core(z) for z in e[3]]
                    for j, m in ((1, 'first'), (2, 'second')):
                        if any(z == ('f', x, y) for z in subterms(a[j]) for y in ('first', 'second')):
                            C.ob(has(a[j], ('f', x, m)), 'C29:incorporate:%s' % m, 'the clean string is not the first one aligned', at(e), p)
        self.inc = f

    # -------------------------------------------------------------------- costs ---
    def costs(self):
        C = self.C
        f = self.one('edit_distance')
        if f is None:
            return
        al, old = [('p', x['name']) for x in f['params']]
        for p in self.run(f) or ():
            if p.exit[0] != 'ret':
                continue
            v = core(p.exit[1])
            k = self.kinds([(core(a), t) for a, t in p.decisions], lambda t: True)
            if k is None:
                self.un('edit_distance: kind of piece')
                continue
            if k[1] is not None and k[1] != ('at', ('f', al, 'align_pieces'), ('last',)):
                C.ob(not any(x[0] == 'at' and x[1] == ('f', al, 'align_pieces') and x[2][0] == 'n' for x in subterms(k[1])), 'C29:edit_distance:last', 'the edit distance looks at another piece than the last', f, p)
            if k[0]:
                want = plus1(old) if 3 not in k[0] else old if v == old or k[0] == {3} else ('none',)
                if want == old and len(k[0]) > 1:
                    want = ('none',)
                C.ob(v == want, 'C29:edit_distance', 'the edit distance of a %s is %s' % ('match' if k[0] == {3} else 'change', pp(v)[:60]), f, p)

    def kinds(self, dec, isp):
        """Kinds of piece still possible, and the piece."""
        ks, piece = {0, 1, 2, 3}, None
        for a, t in dec:
            if a[0] not in ('eq', 'lt') or len(a) != 3:
                continue
            isix = lambda x: x[0] in ('fn', 'call') and 'index' in str(x[1]) and 'get_index' not in str(x[1])
            if isix(a[1]) and a[2][0] == 'n':
                pc, m = a[1][-1], {j for j in range(4) if (j == a[2][1] if a[0] == 'eq' else j < a[2][1])}
            elif isix(a[2]) and a[1][0] == 'n':
                pc, m = a[2][-1], {j for j in range(4) if (j == a[1][1] if a[0] == 'eq' else a[1][1] < j)}
            else:
                continue
            while isinstance(pc, tuple) and pc and not isinstance(pc[0], str):
                pc = pc[0]
            if not isp(pc):
                continue
            piece = pc
            ks = ks & m if t else ks - m
        return ks, piece

    # ------------------------------------------------------------------- bigram ---
    def role(self, t, piece):
        """What a table index stands for."""
        if t[0] == 'n':
            return int(t[1])
        if t[0] == 'call' and t[1] == CLS + '::get_index':
            a = flatten(t[3:])
            a = a[0] if a else t
            if a[0] == 'f' and a[1] == piece:
                return a[2]
            if a == ('s', ''):
                return 0
            if a[0] in ('last', 'acc', 'var', 'loopout') and not any(x == piece for x in subterms(a) if x[0] != 'last' and a[0] != 'last'):
                self.ctx.add(a)
                return 'context'
            if a[0] == 'cat' and len(a[1]) == 2 and a[1][1][:1] == ('f',) and a[1][1][1] == piece:
                return a[1][1][2]
        return None

    def bigram(self):
        C = self.C
        f, g = self.one(CLS + '::incorporate'), self.one(CLS + '::log_prob_distance')
        if f is None or g is None:
            C.ob(False, 'C29:bigram', 'the bigram emission does not score or learn edits')
            return
        L = self.learned(f)
        S = self.scored(g)
        if not L or not S:
            return
        for k in sorted(MEMBER.keys() | {1}):
            if k not in L or k not in S:
                self.un('bigram: pieces of kind %d' % k)
                continue
            C.ob(sorted(map(str, L[k][0])) == sorted(map(str, S[k][0])), 'C29:entries:%d' % k,
                 'a %s is scored with %s but counted under %s' % (('deletion', 'insertion', 'substitution', 'match')[k], say(S[k][0]), say(L[k][0])), S[k][1])

    def learned(self, f):
        C = self.C
        out = {}
        ps = self.run(f)
        if not ps:
            return None
        I = self.C.last
        for p in ps:
            for s, loop in self.innermost(p.trace):
                evs = [e for b in loop[2] for e in b[0] if e[0] == 'call' and e[1] == 'DirichletCategorical::incorporate']
                if not evs:
                    continue
                lk = core(loop[1])
                pieces = lk[-1][1] if lk[0] in ('idx', 'key') and isinstance(lk[-1], tuple) and lk[-1][0] == 'size' else lk[-1] if lk[0] == 'key' else None
                if pieces is None or not (pieces[0] == 'f' and pieces[2] == 'align_pieces'):
                    self.un('incorporate: pieces ' + pp(lk)[-60:])
                    return None
                self.ctx = set()
                ws = set()
                for tr, dec, how in loop[2]:
                    ks, piece = self.kinds([(core(a), t) for a, t in dec], lambda t: True)
                    if how not in ('next', 'continue'):
                        C.ob(not ks, 'C29:incorporate:every piece', 'learning stops before the last piece', at(evs[0]), p)
                        continue
                    if len(ks) != 1 or piece is None:
                        if ks:
                            self.un('incorporate: kind of piece')
                        continue
                    k = ks.pop()
                    got = []
                    for e in tr:
                        if e[0] != 'call' or e[1] != 'DirichletCategorical::incorporate':
                            continue
                        o, a = core(e[2]), [core(z) for z in e[3]]
                        r = (o[1][2], self.role(o[2], piece), self.role(a[0], piece)) if o[0] == 'at' and o[1][0] == 'f' else None
                        if r is None or None in r:
                            self.un('incorporate: ' + pp(o)[-60:])
                            return None
                        got.append(r)
                        ws.add(a[1] if len(a) > 1 else ('default',))
                    out[k] = (got, at(evs[0]))
                C.ob(len(ws) <= 1, 'C29:incorporate:weight', 'the pieces of an alignment are counted with different weights', at(evs[0]), p)
                for w in ws:
                    C.ob(any(x[0] == 'f' and x[2] == 'cost' for x in subterms(w)) or w[0] == 'acc', 'C29:incorporate:weight', 'alignments are counted without regard to their cost', at(evs[0]), p)
                self.context('incorporate', I, lk, p, forward=True)
        return out or None

    def innermost(self, tr):
        for e in tr:
            if e[0] == 'loop':
                yield e[1], e
                for b in e[2]:
                    yield from self.innermost(b[0])

    def scored(self, g):
        C = self.C
        al, old = [('p', x['name']) for x in g['params']]
        out = {}
        ps = self.run(g)
        if not ps:
            return None
        I = self.C.last
        self.ctx = set()
        last = ('at', ('f', al, 'align_pieces'), ('last',))
        for p in ps:
            if p.exit[0] != 'ret':
                continue
            ks, piece = self.kinds([(core(a), t) for a, t in p.decisions], lambda t: not any(x[0] in ('idx', 'key') for x in subterms(t)))
            if not ks:
                continue
            if len(ks) != 1 or piece is None:
                self.un('log_prob_distance: kind of piece')
                return None
            k = ks.pop()
            if piece != last:
                if piece[0] == 'at' and piece[1] == last[1] and piece[2][0] == 'n':
                    C.ob(False, 'C29:log_prob_distance:last', 'the piece scored is not the last one', g, p)
                self.un('log_prob_distance: piece ' + pp(piece)[-60:])
                return None
            olds, got = 0, []
            for sg, t in terms(core(p.exit[1])):
                if t == old:
                    olds += sg
                elif t[0] == 'call' and t[1] == 'DirichletCategorical::logp':
                    C.ob(sg == -1, 'C29:log_prob_distance:sign:%d' % k, 'the cost is not lowered by a log-probability', g, p)
                    o = t[2]
                    a = flatten(t[3:])
                    r = (o[1][2], self.role(o[2], piece), self.role(a[0], piece)) if o[0] == 'at' and o[1][0] == 'f' and a else None
                    if r is None or None in r:
                        self.un('log_prob_distance: ' + pp(t)[-60:])
                        return None
                    got.append(r)
                elif t[0] == 'n' and t[1] == 0:
                    pass
                else:
                    self.un('log_prob_distance: term ' + pp(t)[:60])
                    return None
            C.ob(olds == 1, 'C29:log_prob_distance:old cost:%d' % k, 'the cost before the piece is not part of the cost', g, p)
            out[k] = (got, g)
        loops = {c[1] for c in self.ctx if c[0] == 'last'}
        if len(loops) == 1:
            self.context('log_prob_distance', I, loops.pop(), ps[0], forward=False, pieces=last[1])
        elif self.ctx:
            self.un('log_prob_distance: context')
        return out

    def context(self, q, I, lk, p, forward, pieces=None):
        """The context is the last clean character: of a deletion, a substitution's original or a match."""
        C = self.C
        n = 0
        for (key, var), v in I.carries.items():
            if core(key) != lk:
                continue
            cv = core(var)
            for alts, init in v:
                vals = [core(val) for d, val, how in alts]
                if not any(x[0] == 'f' and x[2] in ('deleted_char', 'inserted_char', 'original', 'replacement', 'c') for val in vals for x in subterms(val)):
                    continue
                n += 1
                C.ob(init is None or core(init) in (('s', ''), ('cont', ('empty',), ())), 'C29:%s:no context' % q, 'the context before the first piece is not empty', self.inc, p)
                for d, val, how in alts:
                    dd = [(core(a), t) for a, t in d]
                    ks, piece = self.kinds(dd, lambda t: True)
                    val = core(val)
                    while val[0] == 'cat' and val[1][0] in (('cont', ('empty',), ()), ('s', '')) and len(val[1]) == 2:
                        val = val[1][1]
                    if piece is None or not ks:
                        continue
                    if not forward:
                        if not any(a[0] == 'empty' and a[1] == cv and t for a, t in dd) and val != cv and how not in ('break', 'return'):
                            C.ob(False, 'C29:%s:nearest' % q, 'the context is not the nearest clean character before the piece', (None, 0) and self.inc, p)
                            continue
                        ix = piece[2] if piece[0] == 'at' else ('none',)
                        if ix in (('last',), N(0)) or ix[0] in ('idx', 'key'):
                            C.ob(False, 'C29:%s:before' % q, 'the piece scored is taken as its own context', self.inc, p)
                            continue
                        if not (piece[0] == 'at' and piece[1] == pieces and ix == plus1(('last',))):
                            self.un('%s: context from %s' % (q, pp(piece)[-60:]))
                            continue
                    for k in ks:
                        want = ('f', piece, MEMBER[k]) if k != 1 else cv
                        C.ob(val == want or val == cv and len(ks) > 1, 'C29:%s:context:%d' % (q, k), 'after a %s the context is %s' % (
                            ('deletion', 'insertion', 'substitution', 'match')[k], pp(val)[-60:]), self.inc, p)
        if not n and self.ctx:
            self.un('%s: context' % q)


def say(rs):
    return ' and '.join('%s[%s](%s)' % r for r in sorted(rs, key=str)) or 'nothing'


if __name__ == '__main__':
    main('C29', lambda: C29().go())
