"""C26: tables read from or written to files are rectangular."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.load import load
from sa.flow import Runner, sites, core, subterms, has, root, over, container, covered, at, repofns, flat, carried

RULE = ('With assertions compiled out, every path on which a line of a table is kept either adds one cell to every column, or adds cells '
        'to the columns in order, one per counted part, under a bound on the position and with the number of parts equal to the number '
        'of columns.  A written row is one cell per listed column, in the order of the header, separated by exactly one separator and '
        'ended by one line end, for every row of the table.  A table made by the program lists the columns it fills.')


class C26:
    def __init__(self):
        self.C = Check('C26', RULE, ['column names given by a caller are distinct'], min_obligations=10, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.run = Runner(self.C, ('GenDB', 'HIRM'), ())

    def typ(self, t):
        return self.P.type(t)['s'].replace('const ', '')

    def frames(self, t):
        """The normalised data and column members of a table term."""
        return t[0] == 'f' and t[2] in ('data', 'columns')

    # --------------------------------------------------------------- read ---
    def reader(self):
        C = self.C
        n = 0
        for k, f in self.fns.items():
            if self.typ(f['ret']).split('::')[-1] != 'DataFrame' or not any('istream' in self.typ(x['t']) for x in f['params']):
                continue
            n += 1
            q = f['q'] + ':read'
            for p in self.run(f) or ():
                if p.exit[0] != 'ret':
                    continue
                given = any(core(c) [0] == 'empty' and core(c)[1][0] == 'p' and t for c, t in p.decisions)
                for ev in p.trace:
                    if ev[0] == 'loop' and any(e[0] == 'push' and self.cell(e) is not None for b in ev[2] for e in flat(b[0])):
                        self.lines(f, q, p, ev, given)
        C.ob(n > 0, 'C26:reader', 'no function reads a table', None)

    def cell(self, e):
        """(columns, position) of the cell a push adds to, or None."""
        if e[0] != 'push':
            return None
        l = core(e[1])
        if l[0] == 'at' and l[1][0] == 'f' and l[1][2] == 'data':
            c = l[2]
            if c[0] == 'at' and (c[1][0] == 'f' and c[1][2] == 'columns' and c[1][1] == l[1][1] or c[1][0] == 'p'):
                return c[1], c[2]
            return None, c
        return None

    def lines(self, f, q, p, ev, noname):
        C = self.C
        for b, dec, how in ev[2]:
            d = tuple((core(c), t) for c, t in dec) + tuple((core(e[1]), e[2]) for e in b if e[0] == 'br')
            if how == 'break' and not any(self.cell(e) for e in flat(b)):
                continue
            cells = [e for e in flat(b) if self.cell(e) is not None]
            cols = [e for e in flat(b) if e[0] == 'push' and core(e[1])[0] == 'f' and core(e[1])[2] == 'columns']
            if not cells and not cols:
                if not any(t and c[0] == 'empty' for c, t in d):
                    ok = any(c[0] == 'eq' and t and any(x[0] == 'size' for x in c[1:] if isinstance(x, tuple)) for c, t in d) or self.skips(d)
                    C.ob(ok, 'C26:%s:kept' % q, '%s takes a line without comparing the number of its cells with the columns' % f['q'], ev[3], p)
                continue
            # a loop's cell alternatives are merged over modes: keep those the conditions of this line allow
            if noname and self.headerline(d):
                self.header(f, q, p, b, d)
                continue
            self.row(f, q, p, b, d, ev)

    @staticmethod
    def skips(d):
        """Lines that hold no data: comments."""
        return any(t and c[0] == 'eq' and any(x[0] == 'at' for x in c[1:] if isinstance(x, tuple)) and any(
            x[0] == 'n' for x in c[1:] if isinstance(x, tuple)) for c, t in d)

    @staticmethod
    def headerline(d):
        return any(t and c[0] == 'var' for c, t in d) or any(t and c[0] == 'empty' and c[1][0] == 'f' and c[1][2] == 'columns' for c, t in d)

    def header(self, f, q, p, b, d):
        """Each part of the first line becomes a column of its own, without cells."""
        C = self.C
        for e in b:
            if e[0] != 'loop':
                continue
            for t, dec, how in e[2]:
                dd = tuple((core(c), v) for c, v in dec) + tuple((core(x[1]), x[2]) for x in t if x[0] == 'br')
                if how not in ('next', 'continue') or any((c, not v) in d for c, v in dd):
                    continue
                cols = [x for x in t if x[0] == 'push' and core(x[1])[0] == 'f' and core(x[1])[2] == 'columns']
                cells = [x for x in flat(t) if self.cell(x) is not None]
                if not any(x[0] == 'push' for x in flat(t)):
                    continue
                C.ob(len(cols) == 1 and not cells, 'C26:%s:header' % q, '%s does not make one column of each part of the header' % f['q'], e[3], p)
                for x in cols:
                    name = core(x[2])
                    C.ob(any(c[0] == 'contains' and c[2] == name and not v for c, v in dd) or
                         any(c[0] in ('eq', 'count') and has(c, name) for c, v in dd), 'C26:%s:distinct' % q,
                         '%s lists a column twice when the header repeats its name' % f['q'], at(x), p)

    def row(self, f, q, p, b, d, ev):
        C = self.C
        eqs = []
        for c, t in d:
            if c[0] == 'eq' and t and len(c) == 3:
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    if y[0] == 'size' and (y[1][0] == 'f' and y[1][2] == 'columns' or y[1][0] == 'p'):
                        eqs.append((x, y[1]))
        C.ob(bool(eqs), 'C26:%s:compared' % q, '%s keeps a line without comparing the number of its cells with the columns' % f['q'], ev[3], p)
        for x, cols in eqs[:1]:
            extra, base = 0, x
            if x[0] == 'add':
                ts = x[1] if isinstance(x[1][0], tuple) else x[1:]
                extra = sum(int(t[1]) for t in ts if t[0] == 'n')
                rest = [t for t in ts if t[0] != 'n']
                base = rest[0] if len(rest) == 1 else x
            if extra > 0 and (('lt', base, ('size', cols)), False) in d:
                return          # more parts than columns, yet as many as columns with the extra ones
            own = [e for e in b if self.cell(e) is not None]
            if base[0] == 'psum':
                C.ob(len(own) == extra, 'C26:%s:counted' % q, '%s adds cells it does not count, or counts cells it does not add' % f['q'], ev[3], p)
                if any(e[0] == 'loop' and core(e[1]) == base[1] and any(s[0] == 'out' and s[1] == 'std::getline' for x in flat(e[2][0][0] if e[2] else ())
                                                                        for y in x if isinstance(y, tuple) for s in subterms(y)) for e in b):
                    # std::getline does not report an empty last part
                    ends = [t for c, t in d if self.comma(c)]
                    C.ob((extra > 0) in ends if ends else False, 'C26:%s:last part' % q,
                         '%s keeps a line that ends in a comma without counting the empty cell after it' % f['q'], ev[3], p)
                for i, e in enumerate(own):
                    pos = self.cell(e)[1]
                    self.bounded(f, q, p, e, pos, cols, d)
                for e in b:
                    if e[0] == 'loop' and core(e[1]) == base[1]:
                        self.parts(f, q, p, e, base, cols, d)
                    elif e[0] == 'loop' and any(self.cell(z) is not None for z in flat((e,))):
                        C.ob(False, 'C26:%s:counted' % q, '%s adds cells in a loop it does not count' % f['q'], e[3], p)
            elif base[0] == 'size':
                parts = base[1]
                pred = lambda e: self.cell(e) is not None and has(core(e[2]), parts)
                bad = list(covered(b, [lambda z: over(z, parts) or over(z, cols)], pred, lambda dec: False))
                C.ob(not bad and extra == 0 and not own, 'C26:%s:counted' % q, '%s does not add one cell to every column' % f['q'], ev[3], p)
                for e in flat(b):
                    if pred(e):
                        pos, v = self.cell(e)[1], core(e[2])
                        C.ob(v == ('at', parts, pos) or any(s == ('at', parts, pos) for s in subterms(v)), 'C26:%s:own column' % q,
                             '%s puts a cell in another column' % f['q'], at(e), p)
            else:
                C.unanalysed.append('%s: count %s' % (f['q'], pp(base)[:80]))

    @staticmethod
    def comma(c):
        subs = list(subterms(c))
        return any(x[:2] in (('n', ord(',')), ('s', ','), ('str', ',')) for x in subs) and not any(x[0] in ('psum', 'carry') for x in subs)

    def parts(self, f, q, p, e, base, cols, d):
        C = self.C
        alts = [a for a in base[2] if isinstance(a, tuple)]
        for t, dec, how in e[2]:
            dd = tuple((core(c), v) for c, v in dec) + tuple((core(x[1]), x[2]) for x in t if x[0] == 'br')
            if how == 'break' or any((c, not v) in d for c, v in dd):
                continue
            mine = [a for a in alts if all(z in dd for z in ((core(c), v) for c, v in a[0]))]
            delta = {a[1] for a in mine}
            add = [x for x in flat(t) if self.cell(x) is not None]
            C.ob(delta == {('n', 1)} or delta == {('n', one())}, 'C26:%s:every part counted' % q,
                 '%s reads a part of a line without counting it' % f['q'], e[3], p)
            if not add:
                C.ob(any(c[0] in ('lt',) and not v and c[2] == ('size', cols) or c[0] == 'le' and v and c[1] == ('size', cols) for c, v in dd),
                     'C26:%s:every part kept' % q, '%s drops a cell of a line that has a column' % f['q'], e[3], p)
                continue
            C.ob(len(add) == 1 and add[0] in t, 'C26:%s:one cell' % q, '%s adds a part of a line more than once' % f['q'], at(add[-1]), p)
            pos = self.cell(add[0])[1]
            self.bounded(f, q, p, add[0], pos, cols, dd)
            v = core(add[0][2])
            C.ob(any(s[0] == 'out' and s[1] == 'std::getline' for s in subterms(v)) or v[0] in ('var', 'loopout'), 'C26:%s:own text' % q,
                 '%s adds a cell that is not the part it read' % f['q'], at(add[0]), p)

    def bounded(self, f, q, p, e, pos, cols, dd):
        self.C.ob(any(c == ('lt', pos, ('size', cols)) and v or c == ('le', ('size', cols), pos) and not v or c == ('lt', ('size', cols), pos) and False
                      for c, v in dd), 'C26:%s:bounded' % q, '%s adds a cell to a column past the last' % f['q'], at(e), p)

    # -------------------------------------------------------------- write ---
    def writer(self):
        C = self.C
        n = 0
        for k, f in self.fns.items():
            if not any('ostream' in self.typ(x['t']) for x in f['params']) or not f['q'].startswith('DataFrame::'):
                continue
            n += 1
            q = f['q'] + ':write'
            for p in self.run(f) or ():
                loops = [e for e in p.trace if e[0] == 'loop' and any(x[0] == 'out' for x in flat((e,)))]
                if not loops:
                    C.ob(any(t and core(c)[0] == 'empty' and core(c)[1][0] == 'f' for c, t in p.decisions), 'C26:%s:writes' % q,
                         '%s writes no row' % f['q'], f, p)
                    continue
                cols = ('f', ('this',), 'columns')
                data = ('f', ('this',), 'data')
                heads = [e for e in loops if self.isrow(e, cols, lambda v, i: v == ('at', cols, i))]
                C.ob(len(heads) == 1, 'C26:%s:header' % q, '%s does not write the header once' % f['q'], f, p)
                rest = [e for e in loops if e not in heads]
                C.ob(len(rest) == 1, 'C26:%s:rows' % q, '%s does not write the rows in one loop' % f['q'], f, p)
                for h in heads:
                    self.line(f, q, p, p.trace, h, cols, lambda v, i: v == ('at', cols, i), 'header')
                for r in rest:
                    key = core(r[1])
                    c = container(key)
                    C.ob(c is not None and over(key, c) and c[0] == 'at' and c[1] == data and c[2][0] == 'at' and c[2][1] == cols or
                         c is not None and has(c, data), 'C26:%s:every row' % q, '%s does not write every row' % f['q'], r[3], p)
                    for b, dec, how in r[2]:
                        C.ob(how == 'next', 'C26:%s:every row' % q, '%s stops before the last row, or leaves out a row' % f['q'], r[3], p)
                        pred = lambda v, i: self.incell(v, data, cols, i, key)
                        ls = [e for e in b if e[0] == 'loop' and any(x[0] == 'out' for x in flat((e,)))]
                        C.ob(len(ls) == 1, 'C26:%s:cells' % q, '%s does not write a row in one loop over the columns' % f['q'], r[3], p)
                        for l in ls:
                            C.ob(self.isrow(l, cols, pred), 'C26:%s:own cell' % q,
                                 '%s does not write, for each listed column in order, its own cell of the row' % f['q'], l[3], p)
                            self.line(f, q, p, b, l, cols, pred, 'row')
                            raw = [e for e in flat((l,)) if e[0] == 'out' and self.incell(core(e[2]), data, cols, core(l[1]), key)
                                   and core(e[2])[0] == 'at']
                            C.ob(not raw, 'C26:%s:quoted' % q, '%s writes a cell that holds a comma as two cells' % f['q'],
                                 at(raw[0]) if raw else None, p)
        C.ob(n > 0, 'C26:writer', 'no function writes a table', None)

    @staticmethod
    def incell(v, data, cols, i, row):
        return any(s == ('at', ('at', data, ('at', cols, i)), row) for s in [v] + list(subterms(v)))

    @staticmethod
    def isrow(l, cols, pred):
        key = core(l[1])
        if not over(key, cols) or key[0] == 'key':
            return False
        for b, dec, how in l[2]:
            if how not in ('next', 'continue'):
                return False
            if sum(1 for e in flat(b) if e[0] == 'out' and pred(core(e[2]), key)) != 1:
                return False
        return True

    def line(self, f, q, p, tr, l, cols, pred, what):
        """Separators between the cells of a line and the end of the line."""
        C = self.C
        key = core(l[1])
        for b, dec, how in l[2]:
            d = tuple((core(c), t) for c, t in dec) + tuple((core(e[1]), e[2]) for e in b if e[0] == 'br')
            outs = [core(e[2]) for e in b if e[0] == 'out']
            kinds = ['c' if pred(v, key) else 's' if self.lit(v) == ',' else '?' for v in outs]
            first = [t for c, t in d if self.isfirst(c, key)]
            first += [not t for c, t in d if self.notfirst(c, key)]
            lastc = [t for c, t in d if c[0] == 'lt' and has(c, key) and has(c, ('size', cols))]
            ok = kinds == ['c'] and True in first or kinds == ['s', 'c'] and False in first or \
                kinds == ['c', 's'] and True in lastc or kinds == ['c'] and False in lastc
            C.ob(ok, 'C26:%s:%s separators' % (q, what), '%s does not write exactly one separator between the cells of a %s' % (f['q'], what), l[3], p)
        i = next((i for i, e in enumerate(tr) if e is l), None)
        if i is not None:
            after = next((e for e in tr[i + 1:] if e[0] in ('out', 'loop')), None)
            C.ob(after is not None and after[0] == 'out' and (self.lit(core(after[2])) or '').startswith('\n') or
                 after is not None and after[0] == 'out' and 'endl' in pp(after[2]), 'C26:%s:%s end' % (q, what),
                 '%s does not end the %s with a line end' % (f['q'], what), l[3], p)

    @staticmethod
    def lit(v):
        if v[0] in ('s', 'str', 'lit'):
            return v[1] if isinstance(v[1], str) else None
        if v[0] == 'n':
            return chr(int(v[1])) if 0 <= v[1] < 256 else None
        return None

    @staticmethod
    def isfirst(c, key):
        return c[0] == 'eq' and key in c[1:] and any(isinstance(x, tuple) and x[0] == 'n' and x[1] == 0 for x in c[1:])

    @staticmethod
    def notfirst(c, key):
        return c[0] == 'lt' and c[2] == key and c[1][0] == 'n' and c[1][1] == 0

    # --------------------------------------------------------------- make ---
    def makers(self):
        C = self.C
        for k, f in self.fns.items():
            if self.typ(f['ret']).split('::')[-1] != 'DataFrame' or any('istream' in self.typ(x['t']) for x in f['params']) or f['q'].startswith('DataFrame::'):
                continue
            q = f['q'] + ':made'
            for p in self.run(f) or ():
                if p.exit[0] != 'ret':
                    continue
                ss = list(sites(p))
                cells = [s for s in ss if s.ev[0] in ('push', 'resize', 'put') and core(s.ev[1])[0] in ('at', 'f') and
                         has(core(s.ev[1]), self.dataof(core(s.ev[1]))) and self.dataof(core(s.ev[1])) is not None]
                cols = [s for s in ss if s.ev[0] in ('push', 'vinsert', 'set', 'put') and core(s.ev[1])[0] == 'f' and core(s.ev[1])[2] == 'columns']
                if not cells:
                    continue
                C.ob(bool(cols), 'C26:%s:columns' % q, '%s fills a table without listing its columns' % f['q'], at(cells[0].ev), p)
                names = []
                for s in cols:
                    if s.ev[0] != 'push':
                        continue
                    F = container(s.loops[0]) if len(s.loops) == 1 else None
                    ok = F is not None and over(s.loops[0], F)
                    bad = list(covered(p.trace, [lambda z: over(z, F)], lambda e: e[0] == 'push' and core(e[1]) == core(s.ev[1]), lambda d: False)) if ok else [('', None)]
                    C.ob(ok and not bad, 'C26:%s:every column' % q, '%s does not list every column once' % f['q'], at(s.ev), p)
                    names.append((F, core(s.ev[2])))
                for s in cells:
                    if s.ev[0] != 'push' or len(s.loops) != 2:
                        C.ob(s.ev[0] == 'push', 'C26:%s:cells' % q, '%s fills a table other than cell by cell' % f['q'], at(s.ev), p)
                        continue
                    inner = s.loops[1]
                    src = container(inner)
                    bad = list(covered(p.trace, [lambda z: z == s.loops[0], lambda z: z == inner],
                                       lambda e: e[0] == 'push' and core(e[1]) == core(s.ev[1]), lambda d: False))
                    C.ob(not bad, 'C26:%s:every cell' % q, '%s leaves out cells of some rows' % f['q'], at(s.ev), p)
                    # the row is filled, in the same round, for every listed name
                    loc = core(s.ev[1])
                    key = loc[2]
                    F = names[0][0] if names else None
                    nm = names[0][1] if names else None
                    if src == F:
                        C.ob(key == self.rename(nm, inner), 'C26:%s:same names' % q, '%s fills other columns than it lists' % f['q'], at(s.ev), p)
                    else:
                        fill = [x for x in ss if x.ev[0] in ('put', 'ins') and core(x.ev[1]) == src and len(x.loops) == 2 and
                                x.loops[0] == s.loops[0] and container(x.loops[1]) == F]
                        ok = bool(fill) and all(core(x.ev[2]) == self.rename(nm, x.loops[1]) for x in fill)
                        C.ob(ok, 'C26:%s:same names' % q, '%s fills other columns than it lists' % f['q'], at(s.ev), p)
                        for x in fill:
                            bad = list(covered(p.trace, [lambda z: z == x.loops[0], lambda z: z == x.loops[1]],
                                               lambda e: e[0] == x.ev[0] and core(e[1]) == src, lambda d: False))
                            C.ob(not bad, 'C26:%s:every field' % q, '%s leaves out fields of some rows' % f['q'], at(x.ev), p)
                        v = core(s.ev[2])
                        C.ob(v[0] in ('at', 'cont') or v[0] == 'f', 'C26:%s:own value' % q, '%s gives a cell another value' % f['q'], at(s.ev), p)
                        started = any(z[0] == "cont" and z[1] == ("empty",) and not carried(z) for z in subterms(v))
                        if v[0] == 'at' and v[1][0] == 'cont':
                            C.ob(started, 'C26:%s:fresh row' % q, '%s carries cells over from the row before' % f['q'], at(s.ev), p)

    @staticmethod
    def dataof(l):
        for s in [l] + list(subterms(l)):
            if s[0] == 'f' and s[2] == 'data':
                return s
        return None

    @staticmethod
    def rename(name, key):
        """The column name of a loop over the same container, seen from another loop over it."""
        def go(t):
            if isinstance(t, tuple):
                if t[:1] in (('key',), ('idx',)) and container(t) == container(key):
                    return key
                return tuple(go(x) for x in t)
            return t
        return go(name) if name is not None else None

    def go(self):
        self.reader()
        self.writer()
        self.makers()
        return self.C.finish()


def one():
    from fractions import Fraction
    return Fraction(1, 1)


if __name__ == '__main__':
    main('C26', lambda: C26().go())
