"""C30: missing cells are skipped, every other queried cell becomes one observation of its row and field."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.interp import pp
from sa.flow import Runner, sites, core, subterms, has, root, over, container, covered, at, repofns, flat, order, flatten, tupled, carried

RULE = ('On every path through the loader of a table, for every row and every column: a value is recorded for the row under the column\'s '
        'own name, parsed by that column\'s own relation from that row\'s own cell, exactly once, unless the schema has no such query field '
        'or the cell is empty; a recorded row starts empty and is passed on exactly once, under the first row\'s number plus its position.')
CLASSES = ('Domain', 'CRP', 'CleanRelation', 'NoisyRelation', 'Relation', 'IRM', 'HIRM', 'GenDB')


class C30:
    def __init__(self):
        self.C = Check('C30', RULE, ['tables are rectangular (C26)'], min_obligations=8)
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.run = Runner(self.C, CLASSES, ())

    def typ(self, t):
        return self.P.type(t)['s'].replace('const ', '')

    def loaders(self):
        C = self.C
        n = 0
        for k, f in self.fns.items():
            if f['name'] == 'main':
                continue
            df = [('p', x['name']) for x in f['params'] if self.typ(x['t']).rstrip(' &*') == 'DataFrame']
            db = [('p', x['name']) for x in f['params'] if self.typ(x['t']).rstrip(' &*') == 'GenDB']
            if len(df) != 1 or len(db) != 1:
                continue
            n += 1
            self.loader(f, ('f', df[0], 'data'), db[0])
        C.ob(n > 0, 'C30:loader', 'no function loads a table', None)

    def loader(self, f, data, db):
        C = self.C
        q = f['q']
        row0 = [('p', x['name']) for x in f['params'] if self.typ(x['t']) in ('int', 'long', 'unsigned long')]
        isinc = lambda e: e[0] == 'call' and e[1] == 'GenDB::incorporate'
        for p in self.run(f) or ():
            if p.exit[0] == 'abort':
                continue
            ss = list(sites(p))
            incs = [s for s in ss if isinc(s.ev)]
            C.ob(bool(incs), 'C30:%s:rows' % q, '%s passes on no row' % q, f, p)
            for s in incs:
                C.ob(len(s.loops) == 1, 'C30:%s:once' % q, '%s does not pass on a row once' % q, at(s.ev), p)
                rk = s.loops[0] if s.loops else ('none',)
                c = container(rk)
                C.ob(c is not None and c[0] == 'at' and c[1] == data and over(rk, c), 'C30:%s:every row' % q, '%s does not run over every row' % q, at(s.ev), p)
                parts = tupled(core(s.ev[3][1])) if core(s.ev[3][1])[0] in ('tuple', 'ctor', 'struct') else []
                if len(parts) != 2:
                    C.unanalysed.append('%s: row %s' % (q, pp(s.ev[3][1])[:60]))
                    continue
                rid, vals = parts
                C.ob(self.isrow(rid, rk, row0), 'C30:%s:row number' % q, '%s passes a row on under another row\'s number' % q, at(s.ev), p)
                none = lambda d: any(t and x[0] == 'empty' and x[1] in (vals,) or t and x[0] == 'empty' and x[1][0] in ('var', 'cont') for x, t in d)
                bad = list(covered(p.trace, [lambda z: z == rk], isinc, none))
                C.ob(not bad, 'C30:%s:every row' % q, '%s %s some rows' % (q, bad[0][0] if bad else ''), f, p)
                C.ob(vals[0] == 'cont' and vals[1] == ('empty',) and not carried(vals), 'C30:%s:fresh row' % q, '%s carries values over from the row before' % q, at(s.ev), p)
                self.cells(f, q, p, ss, s, rk, data, db)

    @staticmethod
    def isrow(rid, rk, row0):
        """Position in the table plus the first number (when there is one)."""
        if rid == rk:
            return not row0
        if rid[0] == 'add':
            ts = list(rid[1] if isinstance(rid[1][0], tuple) else rid[1:])
            return sorted(map(repr, ts)) == sorted(map(repr, [rk] + row0))
        return False

    def cells(self, f, q, p, ss, inc, rk, data, db):
        C = self.C
        puts = [s for s in ss if s.ev[0] in ('put', 'ins') and len(s.ev) >= 5 and s.loops[:1] == (rk,) and
                any(x[0] == 'call' and x[1].endswith('::from_string') for x in subterms(core(s.ev[3])))]
        C.ob(bool(puts), 'C30:%s:cells' % q, '%s records no cell' % q, f, p)
        for s in puts:
            name, v = core(s.ev[2]), core(s.ev[3])
            C.ob(name[0] == 'key' and len(s.loops) == 2 and s.loops[1] == name, 'C30:%s:own field' % q, '%s records a cell under another field' % q, at(s.ev), p)
            src = container(name)
            F = ('f', ('f', ('f', db, 'schema'), 'query'), 'fields')
            C.ob(src in (data, F), 'C30:%s:every column' % q, '%s does not run over every column' % q, at(s.ev), p)
            cell = ('at', ('at', data, name), rk)
            C.ob(v[0] == 'call' and v[1].endswith('::from_string') and flatten(v[3] if len(v) > 3 else ()) == [cell] or
                 v[0] == 'call' and cell in flatten(v[2:]), 'C30:%s:own cell' % q, '%s records another cell\'s text' % q, at(s.ev), p)
            rel = [x for x in subterms(v) if x[0] == 'call' and x[1].endswith('::get_relation')]
            C.ob(bool(rel) and all(name in flatten(x[2:]) for x in rel), 'C30:%s:own type' % q, '%s parses a cell as another field\'s type' % q, at(s.ev), p)

            def skip(d):
                return any(c == ('contains', F, name) and not t or c == ('contains', data, name) and not t or c == ('empty', cell) and t
                           for c, t in d)
            pred = lambda e: e[0] == s.ev[0] and len(e) >= 5 and core(e[2]) == name and core(e[3]) == v
            bad = list(covered(p.trace, [lambda z: z == rk, lambda z: z == name], pred, skip, exits=('next', 'continue')))
            C.ob(not bad, 'C30:%s:every cell' % q, '%s %s some cells' % (q, bad[0][0] if bad else ''), at(s.ev), p)
            # a missing cell is never parsed
            C.ob((('empty', cell), False) in s.conds, 'C30:%s:missing' % q, '%s makes an observation of a missing cell' % q, at(s.ev), p)
            C.ob(src == F or (('contains', F, name), True) in s.conds, 'C30:%s:queried' % q, '%s makes an observation of a column the schema does not query' % q, at(s.ev), p)
        lost = [s for s in ss if s.ev[0] in ('clear', 'del', 'assign') and s.loops[:1] == (rk,) and root(core(s.ev[1]))[0] == 'var' and
                any(root(core(s.ev[1])) == root(core(z.ev[1])) and order(p, z) <= order(p, s) for z in puts) and s.loops != (rk,)]
        for s in lost:
            C.ob(False, 'C30:%s:kept' % q, '%s drops recorded cells' % q, at(s.ev), p)

    def go(self):
        self.loaders()
        return self.C.finish()


if __name__ == '__main__':
    main('C30', lambda: C30().go())
