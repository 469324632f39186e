"""C19: saved clusterings load back as written."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.load import load
from sa.interp import pp
from sa.flow import core, subterms, has, root, at, repofns, flatten, near, sites, flat, container, covered, order

RULE = ('What the writer of a clustering emits is read as lines of tokens: every domain and every cluster of it on one line (domain, cluster, '
        'its entities\' own names), every relation cluster on one line, every view headed by irm= and its cluster and set off by a blank line; '
        'two tokens always have whitespace between them and a name that could hold whitespace is quoted. The loader files the rest of a line under '
        'the tokens it starts with, reads names as they are written and rejects no written line. Loading moves every relation to, and seats every '
        'entity in, its saved cluster, once, before the observations are incorporated. Programs load and save with one encoding.')
KEEP = ('incorporate_observations', 'load_schema', 'load_observations', 'calculate_encoding', 'base_first_names', 'check_read',
        'check_written', 'load_clusters_irm', 'load_clusters_hirm', 'isnumeric')


def lin(t):
    """A sum as (terms, constant)."""
    ts, c = [], 0
    for x in ((t[1] if isinstance(t[1][0], tuple) else t[1:]) if t[0] == 'add' else (t,)):
        if x[0] == 'n':
            c += x[1]
        else:
            ts.append(x)
    return ts, c


class C19:
    def __init__(self):
        self.C = Check('C19', RULE, ['domain and relation names are identifiers, as the schema grammar requires', 'cluster labels are not negative (C03)',
                                     'entity names and codes correspond one to one (C20)'],
                       min_obligations=15, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)

    def un(self, s):
        self.C.unanalysed.append(s)

    def typ(self, t):
        return self.P.type(t)['s'].replace('const', '').strip()

    def run(self, f, keep=KEEP):
        def opq(g):
            if g['key'] == f['key']:
                return False
            h = self.P.fns.get(g['key'], {})
            return not near(h.get('file', ''), f['file']) or g.get('name') in keep or '::' in g.get('q', '') and not g['q'].startswith('(')
        ps = self.C.try_run(f, opaque=opq, snap=True)
        return None if ps is None else [p for p in ps if not p.aborted and p.exit[0] != 'abort']

    def go(self):
        self.writers()
        self.readers()
        self.loaders()
        self.programs()
        return self.C.finish()

    def param(self, f, *types):
        r = [('p', x['name']) for x in f['params'] if self.typ(x['t']).rstrip(' &*') in types]
        return r[0] if len(r) == 1 else None

    # ------------------------------------------------------------------ writers ---
    def writers(self):
        n = 0
        for f in self.fns.values():
            if f['name'] != 'to_txt' or not self.param(f, 'IRM', 'HIRM'):
                continue
            model = self.param(f, 'IRM', 'HIRM')
            hirm = self.typ(next(x['t'] for x in f['params'] if x['name'] == model[1])).startswith('HIRM')
            self.enc = next((('p', x['name']) for x in f['params'] if x['name'] not in (model[1],) and 'tuple' in self.P.type(x['t'])['s'] or
                             'T_encoding' in self.P.type(x['t'])['s'] or 'pair' in self.P.type(x['t'])['s']), None)
            for p in self.run(f) or ():
                n += 1
                self.p, self.f, self.I = p, f, self.C.last
                pieces = self.pieces(p.trace)
                if pieces is None:
                    continue
                toks = self.tokens(pieces)
                if hirm:
                    self.wholehirm(toks, model)
                else:
                    self.C.ob(not [t for t in toks if t[0] == 'tok'], 'C19:write:extra', 'text is written outside the lines of clusters', f, p)
                    self.section([t for t in toks if t[0] == 'loop'], model, 'irm')
        self.C.ob(n > 0, 'C19:write', 'no function writes a clustering')

    def pieces(self, tr):
        out = []
        for e in tr:
            if e[0] == 'out':
                out += self.text(core(e[2]))
            elif e[0] == 'call' and e[1].startswith('std::basic_ostream::'):
                a = [core(x) for x in e[3]]
                if e[1].endswith('operator<<') and len(a) == 1:
                    if 'endl' in pp(a[0]):
                        out.append(('lit', '\n'))
                    else:
                        out.append(('num', a[0]))
                elif e[1].split('::')[-1] in ('put', 'write'):
                    self.un('writer: %s' % e[1])
                    return None
            elif e[0] == 'loop':
                alts = []
                for b, dec, how in e[2]:
                    q = self.pieces(b)
                    if q is None:
                        return None
                    alts.append((q, [(core(x), t) for x, t in dec], how, b))
                if any(a[0] for a in alts):
                    out.append(('loop', core(e[1]), alts, e))
        return out

    def text(self, v):
        if v[0] == 's':
            return [('lit', v[1])]
        if v[0] == 'n' and v[1].denominator == 1 and 0 < v[1] < 128:
            return [('lit', chr(int(v[1])))]
        if v[0] == 'cat':
            return [x for y in v[1] for x in self.text(y)]
        if v[0] == 'fn' and v[1] == 'quoted':
            return [('str', v[2], True)]
        if v[0] in ('fn', 'call') and 'to_string' in str(v[1]):
            return [('num', flatten(v[2:])[-1])]
        return [('str', v, False)]

    @staticmethod
    def tokens(pieces):
        """Pieces as tokens, separators, line ends and loops."""
        out, cur = [], []
        for x in pieces:
            if x[0] == 'lit':
                for c in x[1]:
                    if c in ' \t\n\r\v\f':
                        if cur:
                            out.append(('tok', tuple(cur)))
                            cur = []
                        out.append(('nl',) if c == '\n' else ('sp',))
                    elif cur and cur[-1][0] == 'lit':
                        cur[-1] = ('lit', cur[-1][1] + c)
                    else:
                        cur.append(('lit', c))
            elif x[0] == 'loop':
                if cur:
                    out.append(('tok', tuple(cur)))
                    cur = []
                out.append(x)
            else:
                cur.append(x)
        if cur:
            out.append(('tok', tuple(cur)))
        return out

    def w(self, loop=None):
        return loop[3][3] if loop is not None and len(loop[3]) > 3 and isinstance(loop[3][3], tuple) else self.f

    def eachof(self, loop, cont, what):
        """The loop runs over all of the container, writing something every time."""
        C = self.C
        k = loop[1]
        if k[0] == 'while' or container(k) is None:
            self.un('writer: loop over ' + what)
            return False
        ok = C.ob(container(k) == cont, 'C19:write:%s' % what, 'the %s written are those of %s' % (what, pp(container(k))[-80:]), self.w(loop), self.p)
        for q, dec, how, b in loop[2]:
            if how not in ('next', 'continue'):
                C.ob(False, 'C19:write:every %s' % what, 'writing stops before the last of the %s' % what, self.w(loop), self.p)
            elif not q and not any(a[0] == 'empty' and t and has(a, k) or a[0] == 'eq' and a[1][0] == 'size' and has(a, k) and t for a, t in dec):
                C.ob(False, 'C19:write:every %s' % what, 'some of the %s are not written' % what, self.w(loop), self.p)
            else:
                C.ob(True, 'C19:write:every %s' % what)
        return ok

    def lastonly(self, dec, key, conts):
        """The conditions hold in the loop's last round at most (True), may hold before (False), or neither is clear (None)."""
        res = None
        for a, t in dec:
            if a[0] not in ('lt', 'eq') or not any(x[0] == 'size' for x in subterms(a)):
                continue
            for lo, hi in ((a[1], a[2]), (a[2], a[1])) if a[0] == 'eq' else ((a[1], a[2]),):
                if (a[0] == 'lt') == t:
                    continue
                (lt, lc), (ht, hc) = lin(lo), lin(hi)
                if len(lt) != 1 or len(ht) != 1 or ht[0][0] != 'size' or lt[0][0] == 'size':
                    continue
                if ht[0][1] not in conts:
                    continue
                pos = lt[0]
                off = self.ahead(pos, key)
                if off is None:
                    continue
                # pos + lc >= size + hc, pos <= rounds done + off
                res = bool(res) or hc - lc - off >= -1
        return res

    @staticmethod
    def ofelement(a, key):
        """The condition is on what the present element holds, which says nothing of whether it is the last."""
        return any(x[0] in ('f', 'size', 'call') and
                   any(y[0] == 'at' and len(y) > 2 and y[2] == key for y in subterms(x) if isinstance(y, tuple) and y)
                   for x in subterms(a) if isinstance(x, tuple) and x)

    def ahead(self, pos, key):
        """How far a counter can be ahead of the number of rounds done."""
        if pos[0] in ('pos', 'fn', 'idx') and (pos == key or has(pos, key)):
            return 0
        for (lk, var), v in self.I.carries.items():
            if core(lk) == key and core(var) == pos:
                best = 0
                for alts, init in v:
                    i = core(init) if init is not None else None
                    if i is None or i[0] != 'n':
                        return None
                    best = max(best, i[1])
                    for d, val, how in alts:
                        ts, c = lin(core(val))
                        if ts != [pos] or c > 1:
                            return None
                return best
        return None

    def names(self, loop, items, name, what, label):
        """The loop writes the name of every one of the items, as a token each."""
        C = self.C
        k = loop[1]
        src = container(k)
        if src is None:
            self.un('writer: names')
            return
        conts = [src, items]
        if src == items:
            get = lambda v: name(v, k)
        else:
            got = self.filled(root(src) if src[0] != 'cont' else src, items, name, what)
            if got is None:
                self.un('writer: names of %s' % what)
                return
            get = lambda v: v == k or v == ('at', src, k)
        seps = []
        for q, dec, how, b in loop[2]:
            ts = self.tokens(q)
            tk = [t for t in ts if t[0] == 'tok']
            if how not in ('next', 'continue') or len(tk) != 1 or len(tk[0][1]) != 1 or any(t[0] in ('loop', 'nl') for t in ts):
                C.ob(False, 'C19:write:names of %s' % what, 'the names of %s are not written one each' % what, self.w(loop), self.p)
                continue
            pc = tk[0][1][0]
            if pc[0] == 'lit':
                C.ob(False, 'C19:write:names of %s' % what, 'text is written in place of a name', self.w(loop), self.p)
                continue
            okn = get(pc[1])
            C.ob(okn, 'C19:write:own name:%s' % what, 'what is written for %s is %s' % (what, pp(pc[1])[-100:]), self.w(loop), self.p)
            if what == 'entities' and okn:
                safe = pc[0] == 'str' and pc[2] or any(self.blank(a, t, pc[1]) for a, t in dec)
                C.ob(safe, 'C19:write:whitespace', 'a name that holds whitespace is written without quotes', self.w(loop), self.p)
                self.quotes = True
            i = ts.index(tk[0])
            lead, trail = ts[:i], ts[i + 1:]
            seps.append((bool(lead), bool(trail), dec))
        if seps and (all(l for l, t, d in seps) or all(t for l, t, d in seps)):
            C.ob(True, 'C19:write:separated:%s' % what)
            return
        for l, t, d in seps:
            if t or l:
                continue
            x = self.lastonly(d, k, conts)
            if x is None:
                if not d or not any(y[0] == 'size' or has(a, k) for a, _ in d for y in subterms(a)):
                    C.ob(False, 'C19:write:separated:%s' % what, 'the names of %s run together' % what, self.w(loop), self.p)
                else:
                    self.un('writer: separators of %s' % what)
                continue
            C.ob(x, 'C19:write:separated:%s' % what, 'the names of %s can run together' % what, self.w(loop), self.p)

    def blank(self, a, t, name):
        """The condition says the name holds no whitespace."""
        for x in subterms(a):
            if x[0] in ('fn', 'call') and 'find_first_of' in str(x[1]) and has(x, name):
                s = [y[1] for y in subterms(x) if y[0] == 's']
                return all(set(' \t"') <= set(y) for y in s) if s else True
            if x[0] in ('fn', 'call') and ('any_of' in str(x[1]) or 'none_of' in str(x[1]) or 'all_of' in str(x[1])) and has(x, name):
                return True
        return False

    def filled(self, src, items, name, what):
        """The local container holds the name of every one of the items."""
        C = self.C
        ok = None
        for s in sites(self.p):
            e = s.ev
            if e[0] in ('ins', 'push') and len(e) == 4 and s.loops and container(s.loops[-1]) == items:
                loc = core(e[1])
                if root(loc)[0] != 'var' or src[0] == 'var' and root(loc) != src:
                    continue
                good = name(core(e[2]), s.loops[-1])
                C.ob(good, 'C19:write:own name:%s' % what, 'what is written for %s is %s' % (what, pp(core(e[2]))[-100:]), at(e), self.p)
                lk = s.loops[-1]
                bad = list(covered(self.p.trace, [lambda z, y=y: z == y for y in s.loops], lambda z: z is e or z[0] == e[0] and len(z) == 4 and core(z[1]) == loc,
                                   lambda d: any(a[0] == 'empty' and t for a, t in d)))
                C.ob(not [b for b in bad if b[0] != 'repeats'], 'C19:write:every name:%s' % what, 'the name of some of the %s is left out' % what, at(e), self.p)
                ok = True
        return ok

    def strip(self, toks):
        """(leading line ends, tokens, trailing line ends)"""
        i = 0
        while i < len(toks) and toks[i][0] in ('nl', 'sp'):
            i += 1
        j = len(toks)
        while j > i and toks[j - 1][0] in ('nl', 'sp'):
            j -= 1
        return sum(t[0] == 'nl' for t in toks[:i]), toks[i:j], sum(t[0] == 'nl' for t in toks[j:])

    def section(self, toks, irm, ctx):
        """The lines of one view."""
        C = self.C
        if len(toks) != 1 or toks[0][0] != 'loop':
            C.ob(bool(toks), 'C19:write:domains', 'the clusters of the domains are not written', self.f, self.p)
            if toks:
                self.un('writer: a view\'s lines')
            return
        doms = ('f', irm, 'domains')
        if not self.eachof(toks[0], doms, 'domains'):
            return
        dk = toks[0][1]
        dom = ('at', doms, dk)
        tabs = ('f', ('f', dom, 'crp'), 'tables')
        isname = lambda v: v in (('f', dom, 'name'), dk)
        for q, dec, how, b in toks[0][2]:
            if not q:
                continue
            ts = self.tokens(q)
            if len(ts) != 1 or ts[0][0] != 'loop':
                C.ob(not any(t[0] in ('tok', 'nl') for t in ts), 'C19:write:lines', 'a domain writes more than the lines of its clusters', self.w(toks[0]), self.p)
                continue
            loop = ts[0]
            if not self.eachof(loop, tabs, 'clusters'):
                continue
            tk = loop[1]

            def nameof(v, elem):
                return v[0] == 'at' and v[2] == elem and v[1][0] == 'at' and isname(v[1][2]) and v[1][1][0] == 'f' and v[1][1][2] in ('second', 1, '1')
            for q2, dec2, how2, b2 in loop[2]:
                if not q2:
                    continue
                self.line(loop, self.tokens(q2), [lambda c: len(c) == 1 and c[0][0] == 'str' and isname(c[0][1]), lambda c: len(c) == 1 and c[0] in (('num', tk), ('str', tk, False))],
                          ['domain', 'cluster'], ('at', tabs, tk), nameof, 'entities')

    def line(self, loop, ts, heads, hnames, items, nameof, what):
        """head tokens, then the names, then one line end."""
        C = self.C
        lead, mid, trail = self.strip(ts)
        inner = [t for t in mid if t[0] == 'loop']
        if len(inner) != 1 or mid[-1] is not inner[0]:
            C.ob(bool(inner), 'C19:write:names of %s' % what, 'the names of %s are not written' % what, self.w(loop), self.p)
            if inner:
                self.un('writer: line of %s' % what)
            return
        C.ob(not any(t[0] == 'nl' for t in mid), 'C19:write:one line:%s' % what, 'the %s of a cluster are split over lines' % what, self.w(loop), self.p)
        C.ob(lead + trail == 1, 'C19:write:line end:%s' % what, 'a line of %s ends with %d line ends' % (what, lead + trail), self.w(loop), self.p)
        hd = [t for t in mid[:-1] if t[0] == 'tok']
        ok = len(hd) == len(heads) and all(h(t[1]) for h, t in zip(heads, hd))
        C.ob(ok, 'C19:write:heads:%s' % what, 'a line of %s starts with %s, not with its %s' % (
            what, ' '.join(pp(x[1])[-40:] if x[0] != 'lit' else x[1] for t in hd for x in t[1]) or 'nothing', ' and '.join(hnames)), self.w(loop), self.p)
        seps = [x[0] for x in mid[:-1]]
        led = all(any(t[0] == 'sp' for t in self.tokens(q)[:1]) for q, d, h, b in inner[0][2] if q)
        C.ob(seps[-1:] == ['sp'] or led, 'C19:write:head separated:%s' % what, 'the first of the %s runs into what precedes it' % what, self.w(loop), self.p)
        self.names(inner[0], items, nameof, what, hnames)

    def wholehirm(self, toks, hirm):
        C = self.C
        loops = [t for t in toks if t[0] == 'loop']
        tabs = ('f', ('f', hirm, 'crp'), 'tables')
        irms = ('f', hirm, 'irms')
        if len(loops) != 2:
            C.ob(len(loops) > 1, 'C19:write:views', 'the relation clusters or the views are not written', self.f, self.p)
            if len(loops) > 2:
                self.un('writer: sections')
            return
        C.ob(not [t for t in toks if t[0] == 'tok'], 'C19:write:extra', 'text is written outside the lines of clusters', self.f, self.p)
        rel, view = loops
        i, j = toks.index(rel), toks.index(view)
        blank = sum(t[0] == 'nl' for t in toks[i:j])
        if self.eachof(rel, tabs, 'relation clusters'):
            k = rel[1]
            names = ('f', hirm, 'code_to_relation')
            for q, dec, how, b in rel[2]:
                if q:
                    self.line(rel, self.tokens(q), [lambda c: len(c) == 1 and c[0] in (('num', k), ('str', k, False))], ['cluster'], ('at', tabs, k),
                              lambda v, elem: v == ('at', names, elem), 'relations')
        if container(view[1]) not in (tabs, irms):
            self.eachof(view, tabs, 'views')
            return
        self.eachof(view, container(view[1]), 'views')
        k = view[1]
        alts = [(self.strip(self.tokens(q)), d) for q, d, h, b in view[2] if q]
        led = all(a[0][0] > 0 for a in alts)
        C.ob(blank > 0 or led, 'C19:write:blank', 'no blank line is written before the first view', self.f, self.p)
        for (lead, mid, trail), dec in alts:
            hd = mid[0][1] if mid and mid[0][0] == 'tok' else ()
            C.ob(len(hd) == 2 and hd[0] == ('lit', 'irm=') and hd[1] in (('num', k), ('str', k, False)), 'C19:write:view head', 'a view is not headed by irm= and its cluster', self.w(view), self.p)
            C.ob(len(mid) > 1 and mid[1][0] == 'nl' and sum(t[0] == 'nl' for t in mid) == 1, 'C19:write:view head end', 'a view\'s head is not on its own line', self.w(view), self.p)
            self.section([t for t in mid[1:] if t[0] != 'nl'], ('at', irms, k), 'hirm')
            if led or trail > 0:
                C.ob(True, 'C19:write:view end')
                continue
            x = self.lastonly(dec, k, (tabs, irms))
            if x is None and dec and not all(self.ofelement(a, k) for a, _ in dec):
                self.un('writer: blank lines between views')
                continue
            C.ob(bool(x), 'C19:write:view end', 'a view can follow another without a blank line between', self.w(view), self.p)

    # ------------------------------------------------------------------ readers ---
    def readers(self):
        for q, n in (('load_clusters_irm', 1), ('load_clusters_hirm', 2)):
            fs = [f for f in self.fns.values() if f['q'] == q]
            if len(fs) != 1:
                self.un('no %s' % q)
                continue
            f = fs[0]
            ps = self.run(f, keep=tuple(x for x in KEEP if not x.startswith('load_clusters')))
            for p in ps or ():
                self.reader(f, p, n, self.C.last)

    def reader(self, f, p, n, I):
        C = self.C
        q = f['q']
        loops = [e for e in p.trace if e[0] == 'loop' and any(x[0] == 'call' and 'getline' in x[1] for b in e[2] for x in b[0])]
        if len(loops) != 1:
            self.un('%s: loop over lines' % q)
            return
        loop = loops[0]
        self.p, self.f = p, f
        kinds = {}
        for tr, dec, how in loop[2]:
            dd = [(core(a), t) for a, t in dec]
            ins = [e for e in tr if e[0] == 'in' or e[0] == 'call' and e[1].endswith('basic_istream::operator>>')]
            reads = self.reads(tr)
            puts = [e for e in tr if (e[0] == 'put' or e[0] == 'ins' and len(e) >= 5)]
            if how in ('break', 'ret', 'return'):
                C.ob(not ins, 'C19:%s:every line' % q, '%s stops before the last line' % q, f, p)
                continue
            if how not in ('next', 'continue'):
                continue
            if not puts:
                nonempty = any(a[0] == 'empty' and not t for a, t in dd) or ins
                C.ob(not nonempty, 'C19:%s:every line' % q, '%s drops a line' % q, f, p)
                continue
            if len(puts) > 1:
                lists = [e for e in puts if core(e[3]) not in (('cont', ('empty',), ()),)]
                puts = lists or puts[-1:]
            if len(puts) != 1:
                self.un('%s: a line is filed in %d places' % (q, len(puts)))
                continue
            self.filed(q, n, tr, dd, reads, puts[0], I, loop, kinds)
        self.accepts(q, kinds, f, p)
        want = {1: {'domain'}, 2: {'relations', 'view', 'domain'}}[n]
        for k in sorted(want):
            C.ob(k in kinds, 'C19:%s:%s' % (q, k), '%s files no line of a %s' % (q, k), f, p) if kinds else None

    def reads(self, tr):
        """The tokens read on a line, in order: terms for each."""
        out = []
        seen = set()

        def terms(t):
            for x in subterms(t):
                if x[0] == 'read' and len(x) == 3:
                    yield x
        allr = sorted({x for e in flat(tr) for y in e[1:] if isinstance(y, tuple) for x in terms(core(y))}, key=lambda x: x[2])
        inner = {x for e in tr if e[0] == 'loop' for b in e[2] for z in flat(b[0]) for y in z[1:] if isinstance(y, tuple) for x in terms(core(y))}
        level = {x for e in tr if e[0] != 'loop' for y in e[1:] if isinstance(y, tuple) for x in terms(core(y))}
        order = []
        for e in tr:
            if e[0] == 'in':
                order.append('in')
            elif e[0] == 'call' and e[1].endswith('basic_istream::operator>>'):
                order.append('num')
            elif e[0] == 'loop':
                order.append('rest')
        lv = [x for x in allr if x in level]
        i = 0
        for o in order:
            if o == 'in':
                out.append(lv[i] if i < len(lv) else None)
                i += 1
            elif o == 'num':
                out.append('num')
        return out

    def istok(self, t, tok):
        """The term is the token, or the number it spells."""
        if tok is None or t is None:
            return False
        if tok == 'num':
            return t[0] == 'out' and 'operator>>' in str(t[1])
        while t[0] in ('fn', 'call') and any(z in str(t[1]) for z in ('stoi', 'stol', 'atoi', 'stoul')):
            t = flatten(t[2:])[0]
        return t == tok

    def filed(self, q, n, tr, dd, reads, put, I, loop, kinds):
        C = self.C
        p, f = self.p, self.f
        loc, key, val = core(put[1]), core(put[2]), core(put[3])
        tok = reads + [None] * 3
        depth, x = 0, loc
        idx = []
        while x[0] == 'at':
            idx.append(x[2])
            x = x[1]
        idx = idx[::-1]
        if n == 1:
            kinds.setdefault('domain', []).append(dd)
            C.ob(len(idx) == 1 and self.istok(idx[0], tok[0]), 'C19:%s:domain' % q, 'a cluster is filed under another domain', at(put), p)
            C.ob(self.istok(key, tok[1]), 'C19:%s:cluster' % q, 'a cluster is filed under another label', at(put), p)
            self.rest(q, tr, val, put, True)
            return
        if len(idx) == 0 and self.istok(key, tok[0]):
            kinds.setdefault('relations', []).append(dd)
            self.rest(q, tr, val, put, False)
            return
        if len(idx) == 0:
            kinds.setdefault('view', []).append(dd)
            s = [y for y in subterms(key) if y[0] in ('fn', 'call') and 'substr' in str(y[1])]
            C.ob(bool(s) and has(s[0], tok[0]) and any(y == ('n', Fraction(4)) for y in subterms(s[0])) if s else has(key, tok[0]) if tok[0] else True,
                 'C19:%s:view' % q, 'a view is filed under another cluster', at(put), p)
            self.viewkey = key
            # the lines after it belong to it
            for (lk, var), v in I.carries.items():
                if core(lk) != core(loop[1]):
                    continue
                for alts, init in v:
                    if not any(core(z) == key for d, z, h in alts):
                        continue
                    self.viewvar = core(var)
            C.ob(hasattr(self, 'viewvar'), 'C19:%s:view lines' % q, 'the lines of a view are not kept with it', at(put), p)
            return
        if len(idx) == 2:
            kinds.setdefault('domain', []).append(dd)
            vv = getattr(self, 'viewvar', None)
            C.ob(vv is None or idx[0] == vv or not (idx[0][0] in ('read', 'fn', 'call', 'n')), 'C19:%s:own view' % q, 'a domain\'s cluster is filed under another view', at(put), p)
            C.ob(self.istok(idx[1], tok[0]), 'C19:%s:domain' % q, 'a cluster is filed under another domain', at(put), p)
            C.ob(self.istok(key, tok[1]), 'C19:%s:cluster' % q, 'a cluster is filed under another label', at(put), p)
            self.rest(q, tr, val, put, True)
            return
        self.un('%s: line filed in %s' % (q, pp(loc)[:60]))

    def rest(self, q, tr, val, put, quoted):
        """The value is the list of the line's remaining tokens."""
        C = self.C
        p = self.p
        loops = [e for e in tr if e[0] == 'loop' and any(x[0] in ('in', 'call') for b in e[2] for x in b[0]) and
                 any(x[0] == 'push' for b in e[2] for x in b[0])]
        if not loops or not any(len(o) > 1 and o[0] == 'each' and core(o[1]) == core(l[1]) for l in loops for y in subterms(val) if y[0] == 'cont'
                                for o in y[2] if isinstance(o, tuple)):
            self.un('%s: names of a line' % q)
            return
        l = loops[0]
        for b, dec, how in l[2]:
            pushes = [e for e in b if e[0] == 'push']
            ins = [e for e in b if e[0] == 'in']
            if how == 'break':
                fail = any('operator bool' in str(core(a)) and not t or core(a)[0] in ('fn', 'call') and 'eof' in str(core(a)[1]) for a, t in dec)
                C.ob(fail and not pushes, 'C19:%s:every name' % q, 'the names of a line are not read to its end', l[3] if len(l) > 3 else None, p)
                continue
            if how not in ('next', 'continue'):
                continue
            C.ob(len(pushes) == 1 and len(ins) == 1 and core(pushes[0][2])[0] == 'read', 'C19:%s:every name' % q,
                 'a name of a line is left out or listed twice', l[3] if len(l) > 3 else None, p)
            if quoted and getattr(self, 'quotes', False):
                C.ob(any(e[0] == 'inq' for e in b), 'C19:%s:quoted' % q, 'quoted names are read as plain words', l[3] if len(l) > 3 else None, p)

    def accepts(self, q, kinds, f, p):
        """Every line as written has an alternative that files it."""
        for k, alts in sorted(kinds.items()):
            for tokn in (0, 1, 7):
                for names in (1, 3):
                    for view in (-1,) if k == 'view' else (0, 5):
                        ok = any(all(self.value(x, tokn, names, view, None) in (None, t) for x, t in dd) for dd in alts)
                        self.C.ob(ok, 'C19:%s:accepts:%s' % (q, k), '%s rejects a written line of a %s (cluster %d, %d names)' % (q, k, tokn, names), f, p)

    def value(self, a, tokn, names, view, reads):
        k = a[0]
        rec = lambda x: self.value(x, tokn, names, view, reads)
        if k == 'n':
            return a[1]
        if k == 'b':
            return a[1]
        if k == 'size':
            return names if a[1][0] in ('var', 'cont') and not any(y[0] == 'at' for y in subterms(a)) else None
        if k == 'empty':
            return False if a[1][0] in ('var', 'cont') else None
        if k in ('contains',):
            return True if self.isview(a[2]) else None if a[2][0] == 'read' else False
        if k in ('fn', 'call') and 'count' in str(a[1]):
            return 1 if self.isview(flatten(a[2:])[-1]) else 0
        if k == 'count':
            return 1 if self.isview(a[-1]) else 0
        if self.isview(a):
            return view
        if k == 'out' and 'operator>>' in str(a[1]) or k in ('fn', 'call') and 'stoi' in str(a[1]):
            return tokn
        if k in ('fn', 'call') and ('isnumeric' in str(a[1])) or k == 'truth':
            return None
        if k == 'call' and 'operator bool' in str(a[1]):
            return None
        if k in ('lt', 'gt', 'le', 'ge', 'eq'):
            x, y = rec(a[1]), rec(a[2])
            if x is None or y is None:
                return None
            return {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y, 'eq': x == y}[k]
        if k in ('and', 'or'):
            xs = [rec(x) for x in (a[1] if isinstance(a[1][0], tuple) else a[1:])]
            if k == 'and':
                return False if False in xs else None if None in xs else all(xs)
            return True if True in xs else None if None in xs else any(xs)
        if k == 'not':
            x = rec(a[1])
            return None if x is None else not x
        return None

    def isview(self, t):
        return t[0] == 'var' and t == getattr(self, 'viewvar', ('var', 'irmc', 0)) or t[0] == 'var' and t[1] == 'irmc'

    # ------------------------------------------------------------------ loaders ---
    def loaders(self):
        n = 0
        for f in self.fns.values():
            model = self.param(f, 'IRM', 'HIRM')
            if model is None or f['name'] == 'main':
                continue
            calls = lambda p: any(e[0] == 'call' and e[1].startswith('load_clusters_') for e in flat(p.trace))
            if f['name'] != 'from_txt':
                continue
            for p in self.run(f) or ():
                if not calls(p):
                    n += any(e[0] == 'call' and e[1] == 'from_txt' for e in flat(p.trace))
                    continue
                n += 1
                self.load(f, p, model)
        self.C.ob(n > 0, 'C19:load', 'no function loads a clustering')

    def load(self, f, p, model):
        C = self.C
        hirm = 'HIRM' in self.typ(next(x['t'] for x in f['params'] if x['name'] == model[1]))
        q = 'hirm' if hirm else 'irm'
        ss = list(sites(p))
        files = {x for s in ss for y in [core(s.ev[2])] + ([core(z) for z in s.ev[3]] if s.ev[0] == 'call' else []) if isinstance(y, tuple) and s.ev[0] == 'call'
                 for x in subterms(y) if x[0] == 'call' and str(x[1]).startswith('load_clusters_')}
        if len(files) != 1:
            self.un('from_txt (%s): saved clusters' % q)
            return
        L = files.pop()
        inc = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'Domain::incorporate']
        obs = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'incorporate_observations']
        C.ob(len(obs) == 1 and not obs[0].loops, 'C19:load %s:observations' % q, 'the observations are not incorporated once', f, p)
        C.ob(bool(inc), 'C19:load %s:entities' % q, 'no entity is seated in its saved cluster', f, p)
        rels = ('f', L, 'first') if hirm else None
        for s in inc:
            w = at(s.ev)
            o, a = core(s.ev[2]), [core(x) for x in s.ev[3]]
            if not (o[0] == 'at' and o[1][0] == 'f' and o[1][2] == 'domains') or len(a) < 3:
                self.un('from_txt (%s): seat %s' % (q, pp(o)[:60]))
                continue
            irm, dk, code, table = o[1][1], o[2], a[1], a[2]
            top = L
            chain = list(s.loops)
            if hirm:
                if not (irm[0] == 'at' and irm[1] == ('f', model, 'irms')):
                    self.un('from_txt (%s): view %s' % (q, pp(irm)[:60]))
                    continue
                vk = irm[2]
                C.ob(container(vk) in (rels, ('f', L, 'second')), 'C19:load hirm:views', 'not every saved view is loaded', w, p)
                top = ('at', ('f', L, 'second'), vk)
            else:
                C.ob(irm == model, 'C19:load irm:model', 'entities are seated in another model', w, p)
            C.ob(container(dk) == top, 'C19:load %s:own view' % q, 'a domain\'s clusters are taken from %s' % pp(container(dk) or ('none',))[-60:], w, p)
            tabs = ('at', top, dk)
            C.ob(container(table) == tabs, 'C19:load %s:own cluster' % q, 'an entity is seated under %s' % pp(table)[-60:], w, p)
            names = ('at', tabs, table)
            elem = s.loops[-1] if s.loops else ('none',)
            C.ob(container(elem) == names, 'C19:load %s:own names' % q, 'the entities of a cluster are taken from %s' % pp(container(elem) or ('none',))[-60:], w, p)
            nm = ('at', names, elem) if elem[0] == 'idx' else elem
            okc = code[0] == 'at' and code[2] == nm and code[1][0] == 'at' and code[1][2] == dk and code[1][1][0] == 'f' and code[1][1][2] == 'first'
            C.ob(okc, 'C19:load %s:own code' % q, 'an entity is seated under the code %s' % pp(code)[-80:], w, p)
            pred = lambda e: e[0] == 'call' and e[1] == 'Domain::incorporate'
            bad = list(covered(p.trace, [lambda z, y=y: z == y for y in chain], pred, lambda d: False))
            C.ob(not bad, 'C19:load %s:every entity' % q, 'loading %s some entities' % (bad[0][0] if bad else ''), w, p)
            if obs:
                C.ob(order(p, s) < order(p, obs[0]), 'C19:load %s:before the observations' % q, 'entities are seated after the observations chose their clusters', w, p)
        if hirm:
            self.moves(f, p, model, ss, L, rels, inc, obs)
        adds = [s for s in ss if s.ev[0] == 'call' and s.ev[1].endswith('::add_relation')]
        C.ob(bool(adds) and all(s.loops for s in adds), 'C19:load %s:relations' % q, 'the relations of the schema are not added', f, p)
        for s in adds:
            a = [core(x) for x in s.ev[3]]
            nm = [x for x in a if x[0] in ('at', 'key', 'f')]
            bad = list(covered(p.trace, [lambda z, y=y: z == y for y in s.loops], lambda e: e[0] == 'call' and e[1].endswith('::add_relation'), lambda d: False))
            C.ob(not [b for b in bad if b[0] == 'skips'], 'C19:load %s:every relation' % q, 'some relations of the schema are not added', at(s.ev), p)
            if inc:
                C.ob(order(p, s) < min(order(p, z) for z in inc), 'C19:load %s:relations first' % q, 'entities are seated before the relations are added', at(s.ev), p)

    def moves(self, f, p, model, ss, L, rels, inc, obs):
        C = self.C
        mv = [s for s in ss if s.ev[0] == 'call' and s.ev[1] == 'HIRM::set_cluster_assignment_gibbs' and
              any(has(core(x), L) for x in s.ev[3])]
        C.ob(bool(mv), 'C19:load hirm:moves', 'no relation is moved to its saved cluster', f, p)
        for s in mv:
            a = [core(x) for x in s.ev[3]]
            r, t = a[1], a[2]
            C.ob(container(t) == rels, 'C19:load hirm:own relation cluster', 'a relation is moved to %s' % pp(t)[-60:], at(s.ev), p)
            elem = s.loops[-1] if s.loops else ('none',)
            C.ob(container(elem) == ('at', rels, t) and r == (('at', ('at', rels, t), elem) if elem[0] == 'idx' else elem), 'C19:load hirm:own relations',
                 'a relation is moved to another\'s cluster', at(s.ev), p)
            here = lambda d: any(c[0] == 'eq' and tr and t in c[1:] and any('relation_to_table' in str(y[1]) and has(y, r) or y[0] == 'at' and 'assignments' in pp(y)
                                                                          for y in subterms(c) if len(y) > 1) for c, tr in d)
            pred = lambda e: e[0] == 'call' and e[1] == 'HIRM::set_cluster_assignment_gibbs' and any(has(core(x), L) for x in e[3])
            bad = list(covered(p.trace, [lambda z, y=y: z == y for y in s.loops], pred, here))
            C.ob(not bad, 'C19:load hirm:every relation moved', 'loading %s some relations' % (bad[0][0] if bad else ''), at(s.ev), p)
            # the view exists before its entities are seated
            for z in inc:
                same = z.loops[:1] == s.loops[:1]
                if same:
                    k = [e for e in p.trace if e[0] == 'loop' and core(e[1]) == s.loops[0]]
                    for e in k:
                        for b, dec, how in e[2]:
                            im = next((i for i, x in enumerate(b) if self.holds(x, s.ev)), None)
                            ii = next((i for i, x in enumerate(b) if self.holds(x, z.ev)), None)
                            if im is not None and ii is not None:
                                C.ob(im < ii, 'C19:load hirm:view first', 'entities are seated in a view before its relations are moved to it', at(z.ev), p)
                elif order(p, z) < order(p, s):
                    C.ob(False, 'C19:load hirm:view first', 'entities are seated before the relations are moved', at(z.ev), p)
            if obs:
                C.ob(order(p, s) < order(p, obs[0]), 'C19:load hirm:before the observations', 'relations are moved after the observations are incorporated', at(s.ev), p)

    def holds(self, x, ev):
        if x is ev:
            return True
        return x[0] == 'loop' and any(any(self.holds(y, ev) for y in b[0]) for b in x[2])

    # ----------------------------------------------------------------- programs ---
    def programs(self):
        C = self.C
        for f in self.fns.values():
            if f['name'] != 'main' or '/playground' in f['file']:
                continue
            ps = self.run(f)
            for p in ps or ():
                got = {}
                for s in sites(p):
                    e = s.ev
                    if e[0] == 'call' and e[1] in ('to_txt', 'from_txt', 'incorporate_observations'):
                        fn = self.P.fns.get(e[5] if len(e) > 5 else None)
                        ps_ = fn['params'] if fn else ()
                        for x, a in zip(ps_, e[3]):
                            if x['name'] == 'encoding':
                                got.setdefault(e[1], []).append((core(a), at(e)))
                saved = got.get('to_txt', ())
                used = got.get('from_txt', []) + got.get('incorporate_observations', [])
                for a, w in saved:
                    for b, w2 in used:
                        C.ob(a == b, 'C19:%s:one encoding' % f['file'], 'the clustering is saved with another encoding than it was made with', w, p)


if __name__ == '__main__':
    main('C19', lambda: C19().go())
