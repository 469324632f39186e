"""C18: every failure to read or write that is reported to a caller is acted upon, up to the exit status."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.rule import Check, main
from sa.load import load
from sa.place import walk
from sa.flow import core, subterms, at, repofns, flat

RULE = ('On the program without assertions: a function that returns bool and fills an out-parameter, or opens a file, reports failure through its '
        'result. Every call of one is decided, and no path on which it was decided false goes on to succeed; a function that opens a file to '
        'read goes on only after deciding that it opened, and after reading decides that no read failed; a function that opens a file to '
        'write flushes or closes it after the last output and decides that the stream is still good; no exception is swallowed; every '
        'exit has a failure status and a program returns 0 only after having read its input, or for --help.')

IN, OUT = ('std::basic_ifstream', 'std::ifstream'), ('std::basic_ofstream', 'std::ofstream')
GOOD = ('good', 'is_open', 'operator bool')
BAD = ('fail', 'operator!')
READERS = ('load_schema', 'load_observations', 'read_schema_file', 'read_schema', 'from_csv')


def name(q):
    return q.rsplit('::', 1)[-1]


class C18:
    def __init__(self):
        self.C = Check('C18', RULE, ['writing to the terminal does not fail',
                                     'an exception that leaves main ends the program with a failure status'],
                       min_obligations=30, program=load(defs=['-DNDEBUG']))
        self.P = self.C.P
        self.fns = repofns(self.P)
        self.fallible = {}
        self.opens = {}
        for k, f in self.fns.items():
            self.opens[k] = self.streams(f)
        for k, f in self.fns.items():
            t = self.typ(f['ret']) if f.get('ret') is not None else ''
            if t != 'bool' or '::operator' in f['q']:
                continue
            outp = [p for p in f['params'] if self.out(p)]
            if outp or self.opens[k]:
                self.fallible[k] = f
        self.calls = {k: [x for x in walk(f['body']) if isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict) and
                          self.callee(x) in self.fallible] for k, f in self.fns.items()}

    def typ(self, t):
        return self.P.type(t)['s']

    def out(self, p):
        """A parameter the function may fill (not a generator, nor a stream)."""
        s = self.typ(p['t']).strip()
        if s.endswith('*const'):
            s = s[:-5].strip()
        return s[-1:] in '*&' and not s.startswith('const ') and 'mersenne' not in s and 'stream' not in s or \
            s[-1:] in '*&' and 'basic_istream' in s or s[-1:] in '*&' and 'basic_ostream' in s

    def callee(self, x):
        return x['f'].get('key')

    def streams(self, f):
        """The local file streams of a function: {name: kind}."""
        r = {}
        for x in walk(f['body']):
            if isinstance(x, dict) and x.get('k') == 'vardecl' and x.get('t') is not None:
                s = self.typ(x['t']).replace('const ', '')
                for kind, names in (('in', IN), ('out', OUT)):
                    if any(s.startswith(n) for n in names):
                        r[(x['name'], x['id'])] = kind
        return r

    def paths(self, f):
        """All paths, with the helpers of the same file inlined, except those that report failure or have streams of their own."""
        def opq(g):
            h = self.P.fns.get(g.get('key'), {})
            if g.get('key') == f['key'] or g.get('key') in self.fallible:
                return True
            if self.opens.get(g.get('key')):
                return True
            if h.get('file', '').rsplit('.', 1)[0] != f['file'].rsplit('.', 1)[0]:
                return True
            return not self.concerned(g.get('key'), f)
        ps = self.C.try_run(f, opaque=opq)
        return None if ps is None else [p for p in ps if not p.aborted]

    def concerned(self, key, f):
        """A helper is looked into if it decides about streams or ends the program, or calls something that reports failure."""
        h = self.fns.get(key)
        if h is None:
            return False
        if self.calls[key] or any(self.typ(p['t']).find('fstream') >= 0 or self.typ(p['t']).find('basic_ios') >= 0 for p in h['params']):
            return True
        if f['q'] == 'main':
            return True
        return False

    # ------------------------------------------------------------------ results ---
    @staticmethod
    def success(f, p):
        v = core(p.exit[1]) if p.exit[0] == 'ret' and len(p.exit) > 1 and p.exit[1] is not None else None
        if p.exit[0] == 'abort':
            return False
        if v == ('b', False):
            return False
        if f['q'] == 'main' and v is not None and v[0] == 'n':
            return v[1] == 0
        return True

    def mentions(self, term, call):
        return any(x == call for x in subterms(term))

    def results(self, f, p):
        C = self.C
        names = {self.fns[k]['q'] for k in self.fallible}
        value = core(p.exit[1]) if p.exit[0] == 'ret' and len(p.exit) > 1 and p.exit[1] is not None else ('n', Fraction(0))

        def go(tr, dec, outer, how):
            for i, e in enumerate(tr):
                if e[0] == 'loop':
                    for b, d, h in e[2]:
                        go(b, d, False, h)
                if e[0] != 'call' or e[1] not in names:
                    continue
                c = core(('call',) + tuple(e[1:4]))
                tag = 'C18:%s:%s' % (f['q'], e[1])
                later = [x for x in flat(tr[i:]) if x[0] == 'br' and self.mentions(core(x[1]), c)]
                decs = [(core(x[1]), x[2]) for x in later] + [(core(a), t) for a, t in dec if self.mentions(core(a), c)]
                direct = [t for a, t in decs if a == c]
                flows = self.mentions(value, c) or any(
                    x[0] in ('set', 'put', 'push') and any(self.mentions(core(y), c) for y in x[1:] if isinstance(y, tuple) and y and isinstance(y[0], str))
                    for x in flat(tr[i:]))
                if not decs and not flows:
                    C.ob(not self.success(f, p), tag, '%s does not look at whether %s succeeded' % (f['q'], e[1]), at(e), p)
                elif False in direct:
                    if outer:
                        C.ob(not self.success(f, p) or self.mentions(value, c), tag, '%s succeeds although %s failed' % (f['q'], e[1]), at(e), p)
                    elif how in ('next', 'continue'):
                        C.ob(not self.success(f, p), tag, '%s goes on although %s failed' % (f['q'], e[1]), at(e), p)
                    else:
                        C.note('%s leaves a loop when %s fails' % (f['q'], e[1]))
                else:
                    C.ob(True, tag)
                    if not direct and not flows:
                        C.unanalysed.append('%s: what %s returned is decided indirectly' % (f['q'], e[1]))
        go(p.trace, p.decisions, True, None)

    # ------------------------------------------------------------------ streams ---
    @staticmethod
    def about(term, var, cls):
        """The term contains this stream."""
        return any(x == ('var',) + var or x[:2] == ('ctor', cls) for x in subterms(term))

    def itself(self, term, var, cls):
        """The term is this stream, in some later state."""
        if term == ('var',) + var or term[:2] == ('ctor', cls):
            return True
        if term[0] == 'out' and len(term) > 3 and isinstance(term[2], int) and term[2] < len(term[3]):
            return self.itself(term[3][term[2]], var, cls)
        if term[0] in ('acc', 'loopout', 'ref', 'addr', 'deref', 'altp') and len(term) > 1:
            return any(isinstance(x, tuple) and x and isinstance(x[0], str) and self.itself(x, var, cls) for x in term[1:])
        return False

    def tests(self, p, var, cls, upto=None, after=-1):
        """The operations that ask for the state of the stream, as (position, name, what was decided)."""
        tr = p.trace
        for i, e in enumerate(tr):
            if i <= after or upto is not None and i >= upto:
                continue
            if e[0] == 'br' and self.about(core(e[1]), var, cls):
                for x in subterms(core(e[1])):
                    if x[0] in ('call', 'fn') and name(x[1]) in GOOD + BAD + ('bad', 'eof') and self.about(x, var, cls):
                        yield i, name(x[1]), e[2]

    def stream(self, f, p, var, kind):
        C = self.C
        tag = 'C18:%s' % f['q']
        cls = (IN if kind == 'in' else OUT)[0]
        value = core(p.exit[1]) if p.exit[0] == 'ret' and len(p.exit) > 1 and p.exit[1] is not None else ('n', Fraction(0))
        use = []
        flush = []
        for i, e in enumerate(p.trace):
            for x in flat([e]):
                if x[0] in ('out', 'in') and self.itself(core(x[1]), var, cls):
                    use.append(i)
                elif x[0] == 'call' and any(isinstance(y, tuple) and y and self.itself(core(y), var, cls)
                                            for y in ((x[2],) if x[2] else ()) + tuple(x[3])):
                    n = name(x[1])
                    if n in ('close', 'flush', 'endl'):
                        flush.append(i)
                    elif n not in GOOD + BAD + ('bad', 'eof', 'open'):
                        use.append(i)
                elif x[0] == 'br' and 'getline' in str(x[1]) and self.about(core(x[1]), var, cls):
                    use.append(i)
        if kind == 'in':
            first, last = (min(use), max(use)) if use else (len(p.trace), -1)
            opened = any(n in GOOD and t or n in BAD and not t for i, n, t in self.tests(p, var, cls, upto=first))
            C.ob(opened or not use, tag + ':open', '%s reads a file that may not have been opened' % f['q'], f, p)
            read = any(n in ('bad', 'fail') and not t or n in ('eof', 'good') and t for i, n, t in self.tests(p, var, cls, after=last))
            C.ob(read or not use, tag + ':read', '%s takes a failed read for the end of the file' % f['q'], f, p)
        else:
            last = max(use) if use else -1
            C.ob(not use or any(i > last for i in flush), tag + ':flush', '%s does not close what it wrote before judging it' % f['q'], f, p)
            fl = max(flush) if flush else last
            ok = any(n in GOOD[:1] + GOOD[2:] and t or n in BAD and not t for i, n, t in self.tests(p, var, cls, after=fl))
            for x in subterms(value):
                if x[0] in ('call', 'fn') and name(x[1]) in GOOD[:1] + GOOD[2:] + BAD and self.about(x, var, cls):
                    ok = True
            asked = any(x[0] == 'call' and name(x[1]) in GOOD + BAD and x[2] and self.itself(core(x[2]), var, cls)
                        for i, e in enumerate(p.trace) if i > fl for x in flat([e]))
            C.ob(ok and asked, tag + ':written', '%s reports success without knowing that what it wrote reached the file' % f['q'], f, p)

    # -------------------------------------------------------------------- exits ---
    def exits(self):
        C = self.C
        for f in self.fns.values():
            for x in walk(f['body']):
                if not isinstance(x, dict):
                    continue
                if x.get('k') == 'call' and isinstance(x.get('f'), dict) and \
                        x['f'].get('q') in ('exit', 'std::exit', '_exit', 'std::quick_exit', 'quick_exit', '_Exit', 'std::_Exit'):
                    a = (x.get('args') or [{}])[0]
                    while a.get('k') != 'int' and isinstance(a.get('e'), dict):
                        a = a['e']
                    v = a.get('v') if a.get('k') == 'int' else None
                    C.ob(v is None or int(v) != 0, 'C18:%s:status' % f['q'], '%s ends the program with success' % f['q'], f)
                if x.get('k') == 'try':
                    for h in x.get('handlers') or ():
                        ends = any(isinstance(y, dict) and (y.get('k') in ('throw', 'return') or y.get('k') == 'call' and isinstance(y.get('f'), dict) and
                                                            name(y['f'].get('q', '')) in ('exit', 'abort', 'terminate')) for y in walk(h))
                        C.ob(ends, 'C18:%s:catch' % f['q'], '%s swallows an exception' % f['q'], f)

    def mains(self):
        C = self.C
        n = 0
        for f in self.fns.values():
            if f['q'] != 'main' or not any(isinstance(x, dict) and x.get('k') == 'call' and isinstance(x.get('f'), dict) and
                                           name(x['f'].get('q', '')) in READERS for x in walk(f['body'])):
                continue
            n += 1
            for p in self.paths(f) or ():
                if not self.success(f, p):
                    continue
                reads = any(e[0] == 'call' and name(e[1]) in READERS for e in flat(p.trace))
                helped = any(t and "'help'" in str(a) for a, t in p.decisions) or any(
                    t is False and core(a)[0] == 'eq' and "'help'" in str(a) for a, t in p.decisions)
                C.ob(reads or helped, 'C18:%s:status' % f['file'], 'the program in %s ends with success although it did nothing' % f['file'], f, p)
        return n

    def all(self):
        C = self.C
        C.ob(len(self.fallible) >= 3, 'C18:fallible', 'no function reports failure through its result', None)
        for k, f in self.fns.items():
            if not self.calls[k] and not self.opens[k]:
                continue
            ps = self.paths(f)
            if ps is None:
                continue
            for p in ps:
                self.results(f, p)
                if self.success(f, p):
                    for var, kind in self.opens[k].items():
                        self.stream(f, p, var, kind)
        self.mains()
        self.exits()
        C.note('functions that report failure: ' + ', '.join(sorted({f['q'] for f in self.fallible.values()})))
        return C.finish()


if __name__ == '__main__':
    main('C18', lambda: C18().all())
