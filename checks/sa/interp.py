"""Path-wise effect dataflow over the resolved syntax tree.

A function is summarised by the set of its structured paths.  A path carries
 - trace: ordered effects (container puts/erases/pushes, field writes, opaque
   calls, allocation, loops with the summaries of one symbolic iteration),
 - decisions: the branch atoms taken,
 - store: final abstract value of every written location,
 - exit: ('ret', value) | ('end',) | ('abort', why).
Values are terms over the function's inputs (global value numbering): helpers
of the repository are inlined, references/iterators/structured bindings are
resolved to access paths, loops are summarised as one generic iteration over
their domain.  Nothing is executed and no solver is asked for feasibility: two
branches on the same atom are correlated syntactically, nothing else is."""
import re
from fractions import Fraction
from .load import Broken

MAXPATHS = 6000


# ---------------------------------------------------------------- terms ----
def n(x):
    return ('n', Fraction(x))


ZERO, ONE = n(0), n(1)
T, F = ('b', True), ('b', False)


def is_num(t):
    return t[0] == 'n'


def _key(t):
    return repr(t)


def asnum(t):
    if t[0] == 'b':
        return n(1 if t[1] else 0)
    return t


def mk_add(*ts):
    c = Fraction(0)
    parts = {}
    for t in ts:
        t = asnum(t)
        if t[0] == 'add':
            sub = t[1]
        else:
            sub = (t,)
        for s in sub:
            if is_num(s):
                c += s[1]
                continue
            k, b = coef(s)
            parts[b] = parts.get(b, Fraction(0)) + k
    out = []
    for b, k in parts.items():
        if k == 0:
            continue
        out.append(b if k == 1 else mk_mul(n(k), b))
    out.sort(key=_key)
    if c != 0 or not out:
        out.append(n(c))
    if len(out) == 1:
        return out[0]
    return ('add', tuple(out))


def coef(t):
    if t[0] == 'mul' and is_num(t[1][0]):
        rest = t[1][1:]
        return t[1][0][1], (rest[0] if len(rest) == 1 else ('mul', rest))
    return Fraction(1), t


def mk_mul(*ts):
    c = Fraction(1)
    out = []
    for t in ts:
        t = asnum(t)
        for s in (t[1] if t[0] == 'mul' else (t,)):
            if is_num(s):
                c *= s[1]
            else:
                out.append(s)
    if c == 0:
        return ZERO
    if not out:
        return n(c)
    if len(out) == 1 and out[0][0] == 'add' and c != 1:
        return mk_add(*[mk_mul(n(c), s) for s in out[0][1]])
    out.sort(key=_key)
    if c != 1:
        out.insert(0, n(c))
    if len(out) == 1:
        return out[0]
    return ('mul', tuple(out))


def mk_sub(a, b):
    return mk_add(a, mk_mul(n(-1), b))


def mk_div(a, b, integral):
    a, b = asnum(a), asnum(b)
    if is_num(b) and b[1] != 0 and not integral:
        return mk_mul(n(1 / b[1]), a)
    if is_num(a) and is_num(b) and b[1] != 0:
        q = a[1] / b[1]
        return n(int(q)) if integral else n(q)
    return ('idiv', a, b) if integral else ('div', a, b)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
        if r == t:
            return t
        if r and r[0] == 'add':
            return mk_add(*r[1])
        if r and r[0] == 'mul':
            return mk_mul(*r[1])
        return r
    return t


def mk_not(c):
    if c[0] == 'not':
        return c[1]
    if c[0] == 'b':
        return ('b', not c[1])
    return ('not', c)


def atom(c):
    """Normalises a condition value to (atom, polarity)."""
    pol = True
    while True:
        k = c[0]
        if k == 'not':
            c, pol = c[1], not pol
        elif k == 'truth':
            v = c[1]
            if v[0] in ('not', 'truth', 'eq', 'ne', 'lt', 'gt', 'le', 'ge', 'and', 'or',
                        'contains', 'empty', 'b'):
                c = v
            elif v[0] == 'n':
                c = ('b', v[1] != 0)
            elif v[0] == 'count':
                c = ('contains', v[1], v[2])
            elif v[0] == 'size':
                c, pol = ('empty', v[1]), not pol
            else:
                return c[1], pol
        elif k == 'ne':
            c, pol = ('eq', c[1], c[2]), not pol
        elif k == 'gt':
            c = ('lt', c[2], c[1])
        elif k == 'ge':
            c, pol = ('lt', c[1], c[2]), not pol
        elif k == 'le':
            c, pol = ('lt', c[2], c[1]), not pol
        elif k == 'eq':
            a, b = asnum(c[1]), asnum(c[2])
            if a[0] in ('end', 'iter') or b[0] in ('end', 'iter'):
                if a[0] == 'end':
                    a, b = b, a
                if b[0] == 'end' and a[0] == 'iter' and a[2][0] != 'pos':
                    if a[2] == ('first',):
                        return ('empty', a[1]), pol
                    c, pol = ('contains', a[1], a[2]), not pol
                    continue
            if a == b:
                return T, pol
            if is_num(a) and is_num(b):
                return ('b', a[1] == b[1]), pol
            if a[0] == 's' and b[0] == 's':
                return ('b', a[1] == b[1]), pol
            if is_num(b) and b[1] == 0 and a[0] == 'size':
                c = ('empty', a[1])
                continue
            if is_num(a) and a[1] == 0 and b[0] == 'size':
                c = ('empty', b[1])
                continue
            if a[0] == 'count' and is_num(b) and b[1] in (0, 1):
                return ('contains', a[1], a[2]), pol if b[1] == 1 else not pol
            if b[0] == 'count' and is_num(a) and a[1] in (0, 1):
                return ('contains', b[1], b[2]), pol if a[1] == 1 else not pol
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x[0] == 'b' and y[0] in ('contains', 'eq', 'lt', 'empty', 'not'):
                    c, pol = y, pol == x[1]
                    break
            else:
                if a[0] == 's' and a[1] == '' and b[0] not in ('n', 's'):
                    return ('empty', b), pol
                if b[0] == 's' and b[1] == '' and a[0] not in ('n', 's'):
                    return ('empty', a), pol
                x, y = sorted((a, b), key=_key)
                if y == ('null',):
                    x, y = y, x
                if x == ('null',) and y[0] == 'altp':
                    c, pol = y, not pol
                    continue
                return ('eq', x, y), pol
        elif k == 'lt':
            a, b = asnum(c[1]), asnum(c[2])
            if is_num(a) and is_num(b):
                return ('b', a[1] < b[1]), pol
            if is_num(a) and a[1] == 0 and b[0] == 'size':
                c, pol = ('empty', b[1]), not pol
                continue
            if is_num(a) and a[1] == 0 and b[0] == 'count':
                return ('contains', b[1], b[2]), pol
            if is_num(b) and b[1] == 1 and a[0] == 'size':
                c = ('empty', a[1])
                continue
            if is_num(b) and b[1] == 0 and a[0] == 'size':
                return F, pol
            # canonical difference form: lt(0, b - a)
            return ('lt', a, b), pol
        elif k == 'b':
            return c, pol
        elif k == 'n':
            return ('b', c[1] != 0), pol
        else:
            return c, pol


# ---------------------------------------------------------------- state ----
class State:
    __slots__ = ('env', 'store', 'facts', 'decisions', 'trace', 'this', 'exit',
                 'dyn', 'fresh')

    def __init__(self):
        self.env = {}
        self.store = {}
        self.facts = {}
        self.decisions = ()
        self.trace = ()
        self.this = ('this',)
        self.exit = None
        self.dyn = {}
        self.fresh = 0

    def fork(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.decisions = self.decisions
        s.trace = self.trace
        s.this = self.this
        s.exit = self.exit
        s.dyn = dict(self.dyn)
        s.fresh = self.fresh
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)

    def new(self):
        self.fresh += 1
        return self.fresh


class Path:
    """Result path handed to rules."""

    def __init__(self, st):
        self.trace = st.trace
        self.decisions = st.decisions
        self.store = st.store
        self.exit = st.exit or ('end',)
        self.facts = st.facts

    @property
    def ret(self):
        return self.exit[1] if self.exit[0] == 'ret' else None

    @property
    def aborted(self):
        return self.exit[0] == 'abort'


PURE_FN = {'log', 'exp', 'lgamma', 'sqrt', 'abs', 'fabs', 'log1p', 'expm1', 'pow', 'floor',
           'ceil', 'round', 'isnan', 'isfinite', 'isinf', 'isalnum', 'isdigit', 'isprint',
           'isspace', 'isupper', 'islower', 'isalpha', 'tolower', 'toupper', 'std::isnan',
           'std::isfinite', 'std::cyl_bessel_i', 'std::to_string', 'std::stoi', 'std::stoul',
           'std::stod', 'std::stol', 'std::stof', 'std::min', 'std::max', 'std::abs', 'std::log', 'std::exp',
           'std::lgamma', 'std::sqrt', 'std::pow', 'std::numeric_limits::epsilon',
           'std::numeric_limits::infinity', 'std::numeric_limits::lowest',
           'std::numeric_limits::max', 'std::numeric_limits::min', 'strchr', 'std::hash', 'clock',
           'std::distance', 'std::max_element', 'std::min_element', 'std::find', 'std::isinf',
           'std::count', 'std::any_of', 'std::all_of', 'std::none_of', 'std::tolower',
           'std::lower_bound', 'std::equal', 'std::numeric_limits::quiet_NaN', 'std::log1p'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap'}
SETS = {'std::set', 'std::unordered_set', 'std::multiset'}
VECS = {'std::vector', 'std::basic_string', 'std::array', 'std::deque', 'std::initializer_list',
        'std::span', 'std::basic_string_view'}


def shape_of(x):
    """Structure of a statement up to variable names and types."""
    if isinstance(x, dict):
        k = [x.get('k'), x.get('op')]
        if x.get('k') not in ('vardecl', 'var'):
            k += [str(x[a]) for a in ('q', 'name', 'key') if a in x]
        return tuple(k) + tuple((a, shape_of(v)) for a, v in sorted(x.items()) if isinstance(v, (dict, list)) and a != 'specs')
    if isinstance(x, list):
        return tuple(shape_of(y) for y in x)
    return ()


class Interp:
    def __init__(self, prog, opaque=(), maxdepth=12, inline=None, pure=(), maxpaths=MAXPATHS,
                 visit='first', opaque_obj=None, snap=False, sizes=False, forget=False, asks=False, local=False):
        self.local = local     # a local container is named by its content in conditions
        self.asks = asks       # asking whether a container has a key is an event
        self.P = prog
        self.forget = forget   # a call that may change this object voids what was known about it
        self.sizes = sizes     # the size of a local container counts what was appended in this round
        self.down = set()      # loops that count down
        self.snap = snap       # a local object read as a whole shows the members set since
        self.opaque_obj = opaque_obj
        self.carries = {}      # (loop, location) -> [(value per iteration, value before)]
        self.opaque = opaque if callable(opaque) else (lambda f, o=frozenset(opaque): f['q'] in o)
        self.inline = inline
        self.maxdepth = maxdepth
        self.lambdas = {}
        self.stack = []
        self.pure = set(pure)
        self.npaths = 0
        self.maxpaths = maxpaths
        self.visit = visit
        self.loopdepth = 0
        self.fns_seen = set()
        self.file = '?'
        self.contish = set()
        self.discard = None

    # ------------------------------------------------------------ entry ---
    def run(self, fn, this_cls=None, bind=None, init=None):
        """All paths of fn.  bind: param name -> value term."""
        st = State()
        if fn.get('cls'):
            st.dyn[('this',)] = this_cls or fn['cls']
        for p in fn['params']:
            t = self.P.type(p['t'])
            v = ('p', p['name'])
            if bind and p['name'] in bind:
                v = bind[p['name']]
            if t['k'] == 'ref':
                st.env[p['id']] = v
            else:
                loc = ('var', p['name'], p['id'])
                st.env[p['id']] = loc
                st.store[loc] = v
        if init:
            init(st)
        outs = self.body(fn, st)
        return [Path(s) for s in outs]

    def body(self, fn, st):
        self.fns_seen.add(fn['key'])
        ofile, self.file = self.file, fn['file']
        self.stack.append(fn['key'])
        try:
            sts = [st]
            for i in fn.get('inits', []):
                if not i.get('e'):
                    continue
                nxt = []
                for s in sts:
                    if 'field' in i:
                        loc = ('f', s.this, i['field'])
                        if self.P.type(i['ft'])['k'] == 'ref':
                            for s2, l in self.lv(i['e'], s):
                                s2.store[loc] = l
                                nxt.append(s2)
                        else:
                            for s2, v in self.ev(i['e'], s):
                                s2.store[loc] = v
                                s2.emit('init', loc, v, self.at(i))
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                sts = nxt
            outs = []
            for s in sts:
                outs += self.ex(fn.get('body'), s, fn)
            return outs
        finally:
            self.stack.pop()
            self.file = ofile

    def at(self, node):
        return (self.file, node.get('l', 0))

    # ------------------------------------------------------------ store ---
    def read(self, st, loc):
        if loc in st.store:
            v = st.store[loc]
            if self.snap and loc[0] in ('var', 'tmp') and v[0] not in ('tuple', 'cont', 'list', 'lambda'):
                sub = {l[2]: x for l, x in st.store.items() if l[0] == 'f' and l[1] == loc}
                if sub:
                    v = self.withf(v, sub)
            return v
        k = loc[0]
        if k == 'f':
            b = loc[1]
            bv = self.read(st, b) if b[0] in ('f', 'at', 'var', 'tmp', 'elt') else b
            if bv != b or bv[0] == 'tuple':
                return self.fieldof(bv, loc[2])
            if b[0] == 'elt':
                if loc[2] == 'first':
                    return b[2]
                if loc[2] == 'second':
                    return self.read(st, ('at', b[1], b[2]))
            if b[0] == 'tuple':
                return self.fieldof(b, loc[2])
            return loc
        if k == 'at':
            c = self.content(st, loc[1])
            return self.atof(c, loc[2])
        return loc

    @staticmethod
    def withf(v, sub):
        if v[0] == 'struct':
            return v[:2] + (tuple((m, sub.get(m, x)) for m, x in v[2]) + tuple(
                (m, x) for m, x in sorted(sub.items(), key=lambda i: str(i[0])) if m not in [y[0] for y in v[2]]),)
        old = dict(v[2]) if v[0] == 'with' else {}
        old.update(sub)
        return ('with', v[1] if v[0] == 'with' else v, tuple(sorted(old.items(), key=lambda i: str(i[0]))))

    def fieldof(self, v, name):
        if v[0] == 'with':
            for k, x in v[2]:
                if k == name:
                    return x
            return self.fieldof(v[1], name)
        if v[0] == 'tuple':
            i = {'first': 0, 'second': 1}.get(name)
            if i is None and isinstance(name, int):
                i = name
            if i is not None and i + 1 < len(v):
                return v[1 + i]
        if v[0] == 'struct':
            for k, x in v[2]:
                if k == name:
                    return x
        if v[0] == 'elt':
            if name in ('first', 0):
                return v[2]
            if name in ('second', 1):
                return ('at', v[1], v[2])
        return ('f', v, name)

    def content(self, st, c):
        """Container value currently held at location c."""
        v = self.read(st, c)
        return v

    def atof(self, c, k):
        if c[0] == 'cont':
            base, ops = c[1], c[2]
            if any(o[0] == 'order' for o in ops):
                return ('at', c, k)
            for o in reversed(ops):
                if o[0] == 'put' and o[1] == k:
                    return o[2]
                if o[0] == 'del' and o[1] == k:
                    return ('absent', base, k)
                if o[0] == 'clear':
                    return ('absent', base, k)
            if k[0] == 'n' and all(o[0] == 'push' for o in ops):
                i = int(k[1])
                if base == ('empty',) and 0 <= i < len(ops):
                    return ops[i][1]
            if k == ('last',) and ops and ops[-1][0] == 'push':
                return ops[-1][1]
            if base == ('empty',) or base[0] == 'fill':
                return ('at', c, k)
            if base[0] == 'list' and any(o[0] != 'put' for o in ops):
                if k[0] == 'n' and 0 <= k[1] < len(base[1]) and all(
                        o[0] in ('push', 'each') and (o[0] == 'push' or all(
                            q[0] == 'push' for _, l, _ in o[2] for q in l)) for o in ops):
                    return base[1][int(k[1])]
                return ('at', c, k)
            return self.atof(base, k)
        if c[0] == 'list':
            if k[0] == 'n' and 0 <= int(k[1]) < len(c[1]):
                return c[1][int(k[1])]
        if c[0] == 'fill' and k[0] != 'last':
            return c[2]
        return ('at', c, k)

    def pristine(self, c):
        """Strip op lists that do not change the container."""
        while c[0] == 'cont' and not [o for o in c[2] if o[0] != 'prior']:
            c = c[1]
        return c

    def kill(self, st, loc):
        for a in [a for a in st.facts if mentions(a, loc)]:
            del st.facts[a]

    def drop_sub(self, st, loc):
        for l in [l for l in st.store if l != loc and self.under(l, loc)]:
            del st.store[l]

    def under(self, l, root):
        while l[0] in ('f', 'at'):
            l = l[1]
            if l == root:
                return True
        return False

    def islocal(self, loc):
        while loc[0] in ('f', 'at'):
            loc = loc[1]
        return loc[0] in ('var', 'tmp')

    def assign(self, st, loc, val, where, op=''):
        if loc[0] == 'at':
            self.cop(st, loc[1], ('put', loc[2], val), where)
            st.store[loc] = val
            return
        if loc[0] == 'f' and loc[1][0] in ('var', 'tmp', 'at') and loc[1] in st.store and \
                st.store[loc[1]][0] == 'tuple' and loc[2] in ('first', 'second'):
            t = list(st.store[loc[1]])
            t[1 + {'first': 0, 'second': 1}[loc[2]]] = val
            st.store[loc[1]] = tuple(t)
            return
        self.kill(st, loc)
        self.drop_sub(st, loc)
        st.store[loc] = val
        if not (loc[0] in ('var', 'tmp')):
            st.emit('set', loc, val, where)

    def cop(self, st, c, op, where):
        """Applies a container operation at location c."""
        self.contish.add(c)
        cur = self.content(st, c)
        self.kill(st, c)
        if cur != c:
            self.kill(st, cur)
        if op[0] in ('del', 'clear', 'put', 'ins'):
            for l in [l for l in st.store if l[0] == 'at' and l[1] == c and
                      (op[0] == 'clear' or l[2] == op[1])]:
                self.drop_sub(st, l)
                del st.store[l]
        if op[0] == 'assign':
            self.drop_sub(st, c)
            st.store[c] = op[1]
        else:
            if cur[0] == 'cont':
                st.store[c] = ('cont', cur[1], cur[2] + (op,))
            else:
                st.store[c] = ('cont', cur, (op,))
        st.emit(op[0], c, *op[1:], where)
        # an element that changed in place is part of a local container's value
        l, sub = c, op
        while l[0] == 'at' and self.islocal(l):
            sub = ('upd', l[2], sub)
            l = l[1]
            cur = self.content(st, l)
            self.contish.add(l)
            st.store[l] = ('cont', cur[1], cur[2] + (sub,)) if cur[0] == 'cont' else ('cont', cur, (sub,))
        # learn
        if op[0] in ('put', 'ins'):
            st.facts[('contains', self.cterm(st, c), op[1])] = True
            st.facts[('empty', self.cterm(st, c))] = False
        elif op[0] == 'del':
            st.facts[('contains', self.cterm(st, c), op[1])] = False
        elif op[0] == 'push':
            st.facts[('empty', self.cterm(st, c))] = False
        elif op[0] == 'clear':
            st.facts[('empty', self.cterm(st, c))] = True

    def cterm(self, st, c):
        """Name of a container in conditions: its location when it is a real
        storage location, its pristine content otherwise."""
        v = self.content(st, c)
        p = self.pristine(v)
        if p == v and p[0] != 'cont':
            return p
        if c[0] in ('var', 'tmp', 'f', 'at'):
            return c if p != ('empty',) else ('list', ()) if v[0] != 'cont' or not v[2] else c
        return p

    # ---------------------------------------------------------- branches --
    def branch(self, st, c, where=None):
        """[(state, bool)]"""
        if c[0] == 'and':
            out = []
            for s, b in self.branch(st, c[1], where):
                out += self.branch(s, c[2], where) if b else [(s, False)]
            return out
        if c[0] == 'or':
            out = []
            for s, b in self.branch(st, c[1], where):
                out += [(s, True)] if b else self.branch(s, c[2], where)
            return out
        if c[0] == 'truth' and c[1][0] in ('and', 'or'):
            return self.branch(st, c[1], where)
        if c[0] == 'not' and c[1][0] in ('and', 'or', 'not', 'truth'):
            return [(s, not b) for s, b in self.branch(st, c[1], where)]
        a, pol = atom(c)
        if a[0] in ('and', 'or'):
            return [(s, b == pol) for s, b in self.branch(st, a, where)]
        if a[0] == 'b':
            return [(st, a[1] == pol)]
        if a in st.facts:
            return [(st, st.facts[a] == pol)]
        # x == c1 known true makes x == c2 false
        if a[0] == 'eq':
            for f, v in st.facts.items():
                if v and f[0] == 'eq':
                    for i in (1, 2):
                        for j in (1, 2):
                            if f[i] == a[j] and f[3 - i][0] in ('n', 's', 'enum') and \
                                    a[3 - j][0] in ('n', 's', 'enum') and f[3 - i] != a[3 - j]:
                                return [(st, (not pol))]
        self.npaths += 1
        if self.npaths > self.maxpaths * 8:
            raise Broken('path budget exceeded in %s' % (self.stack[:1],))
        s1, s2 = st, st.fork()
        s1.facts[a] = True
        s2.facts[a] = False
        s1.decisions += ((a, True),)
        s2.decisions += ((a, False),)
        s1.emit('br', a, True, where)
        s2.emit('br', a, False, where)
        return [(s1, pol), (s2, not pol)]

    def cond(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, v, self.at(e))
        return out

    # ---------------------------------------------------------- lvalues ---
    def lv(self, e, st):
        """[(state, location)] – location term naming the object e denotes."""
        k = e['k']
        if k == 'var':
            if e['kind'] == 'global':
                return [(st, ('g', e['q']))]
            if e['id'] in st.env:
                l = st.env[e['id']]
                return [(st, l)]
            return [(st, ('free', e['name']))]
        if k == 'this':
            return [(st, st.this)]
        if k == 'member':
            out = []
            for s, b in (self.ev(e['base'], st) if e.get('arrow') else self.lv(e['base'], st)):
                out.append((s, self.field(s, b, e['name'])))
            return out
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(s, v)) for s, v in self.ev(e['e'], st)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            return [(s, l) for s, l, _ in self.incdec(e, st)]
        if k == 'sub':
            out = []
            for s, b in self.lv(e['base'], st):
                for s2, i in self.ev(e['idx'], s):
                    out.append((s2, ('at', b, i)))
            return out
        if k == 'assign':
            return [(s, l) for s, l in self.assign_ev(e, st)]
        if k == 'cast':
            return self.lv(e['e'], st) if e['ck'] in ('BaseToDerived', 'Dynamic', 'BitCast',
                                                       'LValueBitCast', 'UncheckedDerivedToBase') \
                else self.tmp(e, st)
        if k == 'call':
            return [(s, self.toloc(s, v)) for s, v in self.call(e, st)]
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                out += self.lv(e['a'] if b else e['b'], s)
            return out
        if k == 'defarg':
            return self.lv(e['e'], st)
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev(e['lhs'], st):
                out += self.lv(e['rhs'], s)
            return out
        return self.tmp(e, st)

    def tmp(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out.append((s, self.toloc(s, v)))
        return out

    def toloc(self, st, v):
        if v[0] == 'LOC':
            return v[1]
        if v[0] in ('cont', 'tuple', 'list', 'fill', 'empty', 'struct'):
            l = ('tmp', st.new())
            st.store[l] = v
            return l
        return v

    def field(self, st, b, name):
        loc = ('f', b, name)
        if loc in st.store and st.store[loc][0] == 'ALIAS':
            return st.store[loc][1]
        if b[0] == 'elt':
            if name == 'first':
                return b[2]
            if name == 'second':
                return ('at', b[1], b[2])
        if b[0] == 'tuple':
            return self.fieldof(b, name)
        return loc

    def deref(self, st, v):
        if v[0] == 'iter':
            c, k, kind = v[1], v[2], v[3]
            if kind == 'm':
                return ('elt', c, k)
            if kind == 's':
                return k
            return ('at', c, k)
        if v[0] == 'LOC':
            return v[1]
        if v[0] == 'addr':
            return v[1]
        return v

    # ------------------------------------------------------------ values --
    def ev1(self, e, st):
        return self.ev(e, st)

    def evs(self, es, st):
        """Evaluate list -> [(state, [values])]"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, e, st):
        if e is None:
            return [(st, ('none',))]
        k = e['k']
        if k in ('int', 'float', 'char'):
            if k == 'float':
                try:
                    return [(st, ('n', Fraction(e['v'])))]
                except ValueError:
                    return [(st, ('flt', e['v']))]
            return [(st, ('n', Fraction(int(e['v']))))]
        if k == 'bool':
            return [(st, ('b', e['v']))]
        if k == 'str':
            return [(st, ('s', e.get('v', '')))]
        if k == 'null':
            return [(st, ('null',))]
        if k == 'zero':
            t = self.P.type(e['t'])
            if t['k'] in ('int', 'uint', 'float', 'bool'):
                return [(st, ZERO)]
            return [(st, self.default(t))]
        if k == 'this':
            return [(st, st.this)]
        if k == 'enumc':
            return [(st, ('enum', e['enum'], e['name']))]
        if k == 'fn':
            return [(st, ('fnref', e['f']['key'] if e.get('f') else '?'))]
        if k == 'sizeof' or k == 'typeid':
            return [(st, ('opaque', k))]
        if k in ('var', 'member', 'sub'):
            return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
        if k == 'defarg':
            return self.ev(e['e'], st)
        if k == 'cast':
            out = []
            ck = e['ck']
            for s, v in self.ev(e['e'], st):
                if ck == 'FloatingToIntegral' and not is_num(v):
                    v = ('trunc', v)
                elif ck == 'FloatingToIntegral' and is_num(v):
                    v = n(int(v[1]))
                elif ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                    v = ('truth', v) if v[0] != 'n' else ('b', v[1] != 0)
                out.append((s, v))
            return out
        if k == 'un':
            return self.unary(e, st)
        if k == 'bin':
            return self.binary(e, st)
        if k == 'assign':
            return [(s, self.read(s, l)) for s, l in self.assign_ev(e, st)]
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                out += self.ev(e['a'] if b else e['b'], s)
            return out
        if k == 'assert':
            return self.do_assert(e, st)
        if k == 'call':
            out = []
            for s, v in self.call(e, st):
                if v[0] == 'LOC':
                    v = self.read(s, v[1])
                out.append((s, v))
            return out
        if k == 'ctor':
            return self.ctor(e, st)
        if k == 'new':
            return self.new(e, st)
        if k == 'delete':
            out = []
            for s, v in self.ev(e['e'], st):
                s.emit('delete', v, self.at(e))
                out.append((s, ('none',)))
            return out
        if k == 'lambda':
            i = (e['fn']['file'], e['fn']['line'], e['fn']['key'])
            self.lambdas[i] = e
            return [(st, ('lambda', i, st.this))]
        if k == 'initlist':
            return self.initlist(e, st)
        if k == 'throw':
            st.emit('abort', 'throw', self.at(e))
            st.exit = ('abort', 'throw')
            return [(st, ('none',))]
        if k == 'depmember' or k == 'depname':
            return [(st, ('dep', e['name']))]
        # unknown expression: evaluate children for effects
        out = []
        for s, vs in self.evs([a for a in e.get('args', []) if a], st):
            out.append((s, ('opaque', e.get('cls', k)) + tuple(vs)))
        return out

    def do_assert(self, e, st):
        mark = st.trace
        st.emit('assert', self.at(e))
        out = []
        for s, v in self.ev(e['e'], st):
            a = v
            todo = [a]
            dead = False
            while todo:
                x = todo.pop()
                if x[0] == 'truth' and x[1][0] in ('and', 'or'):
                    x = x[1]
                if x[0] == 'and':
                    todo += [x[1], x[2]]
                    continue
                at_, pol = atom(x)
                if at_[0] == 'b':
                    if at_[1] != pol:
                        dead = True
                elif at_[0] not in ('and', 'or') and at_ not in s.facts:
                    s.facts[at_] = pol
            if dead:
                s.emit('abort', 'assert', self.at(e))
                s.exit = ('abort', 'assert')
            out.append((s, ('none',)))
        return out

    def default(self, t):
        if t['k'] in ('int', 'uint', 'float', 'bool', 'ptr', 'enum'):
            return ('uninit',)
        rec = t.get('rec', '')
        if rec in MAPS or rec in SETS or rec in VECS:
            return ('cont', ('empty',), ())
        if rec in ('std::pair', 'std::tuple'):
            return ('tuple',) + tuple(self.default0(self.P.type(a)) for a in t.get('args', []))
        return ('obj', t['s'])

    def default0(self, t):
        if t['k'] in ('int', 'uint', 'float'):
            return ZERO
        if t['k'] == 'bool':
            return F
        return self.default(t)

    def initlist(self, e, st):
        t = self.P.noref(e['t'])
        args = [a for a in e.get('args', []) if a]
        out = []
        for s, vs in self.evs(args, st):
            rec = t.get('rec', '')
            if rec in ('std::pair', 'std::tuple'):
                v = ('tuple',) + tuple(vs)
            elif t['k'] == 'rec' and rec not in VECS and rec not in SETS and rec not in MAPS and \
                    t['s'] in self.P.recs:
                fs = [f['name'] for f in self.P.recs[t['s']]['fields']]
                v = ('struct', t['s'], tuple(zip(fs, vs)))
            elif t['k'] in ('int', 'uint', 'float', 'bool', 'ptr', 'enum'):
                v = vs[0] if vs else ZERO
            elif t['k'] == 'array' and t['s'].startswith('const std::pair') or t['k'] == 'array' or \
                    rec in VECS:
                v = ('list', tuple(vs))
            else:
                v = ('list', tuple(vs))
            out.append((s, v))
        return out

    def ctor(self, e, st):
        t = self.P.noref(e['t'])
        rec = t.get('rec', '')
        args = [a for a in e.get('args', []) if a]
        if (e.get('copy') or e.get('move')) and len(args) == 1:
            return self.ev(args[0], st)
        if rec in ('std::pair', 'std::tuple'):
            nt = len(t.get('args', []))
            if not args:
                return [(st, self.default(t))]
            out = []
            for s, vs in self.evs(args, st):
                if len(vs) == nt:
                    out.append((s, ('tuple',) + tuple(vs)))
                else:
                    out.append((s, vs[0]))
            return out
        if rec in MAPS or rec in SETS or rec in VECS:
            real = [a for a in args if not (a['k'] == 'defarg')]
            if not real:
                return [(st, ('cont', ('empty',), ()))]
            out = []
            for s, vs in self.evs(real, st):
                if len(vs) == 1:
                    v = vs[0]
                    if v[0] == 'list':
                        if rec in MAPS:
                            c = ('cont', ('empty',), tuple(('put', x[1], x[2]) for x in v[1]
                                                           if x[0] == 'tuple'))
                        elif rec in SETS:
                            c = ('cont', ('empty',), tuple(('ins', x) for x in v[1]))
                        else:
                            c = v
                        out.append((s, c))
                    elif rec == 'std::vector' and self.P.noref(real[0]['t'])['k'] in ('int', 'uint'):
                        et = self.P.type(t['args'][0])
                        out.append((s, ('fill', v, self.default0(et))))
                    else:
                        out.append((s, v))
                elif len(vs) == 2 and vs[0][0] == 'iter' and vs[1][0] in ('iter', 'end') and \
                        vs[0][2] in (('first',), ZERO):
                    c = vs[0][1]
                    c = self.pristine(self.content(s, c))
                    if vs[1][0] == 'end':
                        v = c
                    else:
                        v = ('prefix', c, vs[1][2])
                    if vs[0][3] == 'v' and rec in SETS or vs[0][3] != 'v' and rec in VECS:
                        v = ('as', rec, v)
                    out.append((s, v))
                elif len(vs) == 2 and rec in VECS and vs[0][0] != 'iter':
                    out.append((s, ('fill', vs[0], vs[1])))
                else:
                    out.append((s, ('ctor', rec) + tuple(vs)))
            return out
        if rec == 'std::variant' or rec == 'std::optional':
            if len(args) == 1:
                return self.ev(args[0], st)
        if rec == 'std::basic_string' and len(args) == 1:
            return self.ev(args[0], st)
        # repository class: inline the constructor on a fresh object
        f = e.get('f')
        fn = self.P.fns.get(f['key']) if f else None
        r = self.P.recs.get(t['s'])
        if r is not None:
            obj = ('tmp', st.new(), t['s'])
            return self.construct(e, st, obj, t['s'], args, fn)
        out = []
        for s, vs in self.evs(args, st):
            if not vs:
                out.append((s, ('obj', t['s'])))
            else:
                out.append((s, ('ctor', rec or t['s']) + tuple(vs)))
        return out

    def construct(self, e, st, obj, cls, args, fn):
        """Value-object construction: ('struct', cls, fields...) when simple."""
        out = []
        r = self.P.recs[cls]
        for s, vs in self.bindargs(fn, args, st):
            env, vals = vs
            if fn is None or fn['key'] in self.stack or len(self.stack) > self.maxdepth or \
                    self.opaque(fn):
                s.emit('construct', cls, tuple(vals), self.at(e))
                fs = []
                if fn is None:
                    for fd in r['fields']:
                        fs.append((fd['name'], None))
                if fn is None and not vals:
                    fields = []
                    for fd in r['fields']:
                        if fd.get('init'):
                            x = self.ev(fd['init'], s)
                            fields.append((fd['name'], x[0][1]))
                        else:
                            fields.append((fd['name'], self.default(self.P.type(fd['t']))))
                    out.append((s, ('struct', cls, tuple(fields))))
                else:
                    out.append((s, ('ctor', cls) + tuple(vals)))
                continue
            saved, othis = dict(s.env), s.this
            s.env.update(env)
            s.this = obj
            s.dyn[obj] = cls
            n0 = len(s.trace)
            for s2 in self.body(fn, s):
                fields = []
                for fd in r['fields']:
                    loc = ('f', obj, fd['name'])
                    fields.append((fd['name'], s2.store.get(loc, ('uninit',))))
                for l in [l for l in s2.store if self.under(l, obj)]:
                    del s2.store[l]
                if s2.exit and s2.exit[0] == 'abort':
                    out.append((s2, ('none',)))
                    continue
                # constructor-local effects on the fresh object are not observable
                s2.trace = s2.trace[:n0] + tuple(ev for ev in s2.trace[n0:]
                                                 if not (len(ev) > 1 and isinstance(ev[1], tuple) and
                                                         (ev[1] == obj or self.under(ev[1], obj))))
                s2.exit = None
                s2.env = dict(saved)
                s2.this = othis
                out.append((s2, ('struct', cls, tuple(fields))))
        return out

    def bindargs(self, fn, args, st):
        """[(state, (env updates, values))] for calling fn with arg exprs."""
        outs = [(st, ({}, []))]
        ps = fn['params'] if fn else []
        for i, a in enumerate(args):
            nxt = []
            p = ps[i] if i < len(ps) else None
            byref = p is not None and self.P.type(p['t'])['k'] == 'ref'
            for s, (env, vals) in outs:
                if byref:
                    for s2, l in self.lv(a, s):
                        nxt.append((s2, (dict(env, **{}) | {p['id']: l}, vals + [self.read(s2, l)])))
                else:
                    for s2, v in self.ev(a, s):
                        if p is not None:
                            loc = ('var', p['name'], p['id'])
                            s2.store[loc] = v
                            nxt.append((s2, (env | {p['id']: loc}, vals + [v])))
                        else:
                            nxt.append((s2, (env, vals + [v])))
            outs = nxt
        return outs

    def new(self, e, st):
        t = self.P.type(e['at'])
        init = e.get('init')
        args = []
        if init:
            args = init.get('args', []) if init['k'] in ('ctor', 'initlist') else [init]
            args = [a for a in args if a]
        out = []
        for s, vs in self.evs(args, st):
            v = ('new', t['s'], tuple(vs), s.new())
            s.emit('new', v, self.at(e))
            s.dyn[v] = t['s']
            out.append((s, v))
        return out

    def unary(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            return [(s, v) for s, _, v in self.incdec(e, st)]
        if op == '*':
            return [(s, self.read(s, self.deref(s, v))) for s, v in self.ev(e['e'], st)]
        if op == '&':
            return [(s, l) for s, l in self.lv(e['e'], st)]
        out = []
        for s, v in self.ev(e['e'], st):
            if op == '!':
                out.append((s, mk_not(v)))
            elif op == '-':
                out.append((s, mk_mul(n(-1), v)))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('un', op, v)))
        return out

    def incdec(self, e, st):
        out = []
        for s, l in self.lv(e['e'], st):
            old = self.read(s, l)
            if old[0] == 'iter':
                out.append((s, l, old))
                continue
            new = mk_add(old, ONE if e['op'] == '++' else n(-1))
            self.assign(s, l, new, self.at(e))
            out.append((s, l, old if e.get('post') else new))
        return out

    def isint(self, e):
        return self.P.noref(e['t'])['k'] in ('int', 'uint', 'bool', 'enum')

    def arith(self, op, a, b, integral):
        if op == '+':
            if a[0] in ('s', 'cat') or b[0] in ('s', 'cat'):
                return self.cat(a, b)
            if a[0] == 'iter':
                return ('iter', a[1], mk_add(ZERO if a[2] == ('first',) else a[2], b)) + a[3:]
            return mk_add(a, b)
        if op == '-':
            return mk_sub(a, b)
        if op == '*':
            return mk_mul(a, b)
        if op == '/':
            return mk_div(a, b, integral)
        return ('op', op, a, b)

    def cat(self, a, b):
        xs = (a[1] if a[0] == 'cat' else (a,)) + (b[1] if b[0] == 'cat' else (b,))
        return ('cat', xs)

    def binary(self, e, st):
        op = e['op']
        if op == ',':
            out = []
            for s, _ in self.ev(e['lhs'], st):
                out += self.ev(e['rhs'], s)
            return out
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(e['lhs'], st):
                tr, sto = s.trace, dict(s.store)
                probe = s.fork()
                rs = self.ev(e['rhs'], probe)
                if len(rs) == 1 and rs[0][0].trace == tr and rs[0][0].store == sto:
                    out.append((s, ('and' if op == '&&' else 'or', a, rs[0][1])))
                else:
                    for s2, b in self.branch(s, a, self.at(e)):
                        if b == (op == '||'):
                            out.append((s2, ('b', b)))
                        else:
                            out += self.ev(e['rhs'], s2)
            return out
        out = []
        for s, (a, b) in self.evs([e['lhs'], e['rhs']], st):
            out.append((s, self.cmp_or_arith(op, a, b, self.isint(e))))
        return out

    def cmp_or_arith(self, op, a, b, integral):
        m = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
        if op in m:
            return (m[op], a, b)
        return self.arith(op, a, b, integral)

    def assign_ev(self, e, st):
        out = []
        op = e['op']
        for s, v in self.ev(e['rhs'], st):
            for s2, l in self.lv(e['lhs'], s):
                if op:
                    old = self.read(s2, l)
                    ct = self.P.type(e.get('ct', -1))
                    lt = self.P.noref(e['lhs']['t'])
                    v2 = self.arith(op, old, v, ct['k'] in ('int', 'uint'))
                    if ct['k'] == 'float' and lt['k'] in ('int', 'uint'):
                        v2 = ('trunc', v2)
                else:
                    v2 = v
                self.assign(s2, l, v2, self.at(e))
                out.append((s2, l))
        return out

    # ------------------------------------------------------------- calls --
    def kind_of(self, clsq):
        if clsq in MAPS:
            return 'm'
        if clsq in SETS:
            return 's'
        if clsq in VECS:
            return 'v'
        return None

    def call(self, e, st):
        f = e.get('f')
        args = [a for a in e.get('args', [])]
        if f is None:
            fe = e.get('fe')
            if fe and fe['k'] in ('depmember',) and fe.get('base'):
                out = []
                for s, o in self.lv(fe['base'], st):
                    for s2, vs in self.evs(args, s):
                        out += self.opaque_call(s2, {'q': '?::' + fe['name'], 'name': fe['name'],
                                                     'key': '?'}, o, vs, args, e)
                return out
            if fe and fe['k'] == 'depname':
                out = []
                for s2, vs in self.evs(args, st):
                    if fe['name'] == 'visit' and vs and vs[0][0] == 'lambda':
                        out += self.visit_call(s2, vs, e)
                    elif fe['name'] == 'ssize':
                        out.append((s2, ('size', vs[0])))
                    else:
                        out += self.opaque_call(s2, {'q': '?' + fe['name'], 'name': fe['name'],
                                                     'key': '?'}, None, vs, args, e)
                return out
            out = []
            for s, v in self.ev(fe, st):
                for s2, vs in self.evs(args, s):
                    if v[0] == 'lambda':
                        out += self.call_lambda(s2, v, vs, e)
                    else:
                        out += self.opaque_call(s2, {'q': '<indirect>', 'name': '<indirect>',
                                                     'key': '?'}, v, vs, args, e)
            return out
        q = f['q']
        cls = f.get('clsq', '')
        kind = self.kind_of(cls) if not f.get('repo') else None
        # ---- object
        if 'obj' in e:
            ptr = e['obj'] and self.P.noref(e['obj'].get('t', -1))['k'] == 'ptr'
            objs = self.ev(e['obj'], st) if ptr else self.lv(e['obj'], st)
            out = []
            for s, o in objs:
                if s.exit:
                    out.append((s, ('none',)))
                    continue
                out += self.mcall(e, f, s, o, args, kind, ptr)
            return out
        return self.fcall(e, f, st, args)

    def mcall(self, e, f, st, o, args, kind, ptr):
        q, name, cls = f['q'], f['name'], f.get('clsq', '')
        ov = self.read(st, o)
        if ov[0] == 'lambda' and name == 'operator()':
            return [r for s, vs in self.evs(args, st) for r in self.call_lambda(s, ov, vs, e)]
        if kind:
            r = self.container(e, f, st, o, args, kind)
            if r is not None:
                return r
        if not f.get('repo'):
            r = self.stdmethod(e, f, st, o, ov, args)
            if r is not None:
                return r
        if f.get('repo') and name == 'operator=' and len(args) == 1 and self.P.fns.get(f['key']) is None:
            # member-wise copy of a record
            out = []
            for s, vs in self.evs(args, st):
                self.assign(s, o, vs[0], self.at(e))
                out.append((s, ('LOC', o)))
            return out
        if f.get('repo'):
            fn = self.target(f, st, o, e)
            if fn is not None and not self.opaque(f) and not self.opaque(fn) and \
                    not (self.opaque_obj and self.opaque_obj(fn, o)) and \
                    fn['key'] not in self.stack and len(self.stack) < self.maxdepth:
                return self.inline_call(fn, st, o, args, e)
        out = []
        for s, vs in self.evs(args, st):
            out += self.opaque_call(s, f, o, vs, args, e)
        return out

    def target(self, f, st, o, e):
        """Function body a call resolves to, or None."""
        if f.get('virtual') and not e.get('qualified'):
            dyn = st.dyn.get(o)
            if dyn is None:
                dyn = self.exact_type(e.get('obj'), st, o)
            if dyn is None:
                return None
            return self.P.resolve_method(dyn, f['name'], f['key'])
        return self.P.fns.get(f['key'])

    def exact_type(self, oe, st, o):
        if oe is None:
            return None
        if oe['k'] == 'member':
            r = self.P.recs.get(oe.get('cls'))
            if r:
                for fd in r['fields']:
                    if fd['name'] == oe['name']:
                        t = self.P.type(fd['t'])
                        if t['k'] == 'rec':
                            return t['s']
        if oe['k'] == 'var' and o[0] == 'var':
            t = self.P.type(oe['t'])
            if t['k'] == 'rec':
                return t['s'].replace('const ', '')
        return None

    def inline_call(self, fn, st, o, args, e):
        out = []
        retref = self.P.type(fn['ret'])['k'] == 'ref'
        for s, (env, vals) in self.bindargs(fn, args, st):
            saved, othis = s.env, s.this
            s.env = dict(s.env)
            s.env.update(env)
            if o is not None:
                s.this = o
                if fn.get('cls') and o not in s.dyn:
                    pass
            for s2 in self.body(fn, s):
                s2.env = dict(saved)
                s2.this = othis
                if s2.exit and s2.exit[0] == 'abort':
                    out.append((s2, ('none',)))
                    continue
                v = s2.exit[1] if s2.exit and s2.exit[0] == 'ret' else ('none',)
                s2.exit = None
                out.append((s2, v))
        return out

    def visit_call(self, st, vs, e):
        """std::visit: one generic alternative, or one path per alternative
        when the visitor treats them differently."""
        vals = [('alt', v) for v in vs[1:]]
        node = self.lambdas[vs[0][1]]
        specs = sorted(node.get('specs') or (), key=lambda x: x['key'])
        if len(vals) == 1 and node.get('generic') and len(specs) == 2:
            names = [self.P.strip(x['params'][0]['t'])['s'].replace('const ', '') if x['params'] else '' for x in specs]
            if all(x in ('T_clean_relation', 'T_noisy_relation', 'IRM', 'HIRM') for x in names) and \
                    shape_of(specs[0].get('body')) != shape_of(specs[1].get('body')):
                i = 0 if names[0] in ('T_noisy_relation', 'HIRM') else 1
                v = vs[1]
                if v[0] == 'LOC':
                    v = self.read(st, v[1])
                out = []
                for s, b in self.branch(st, ('altp', names[i], v), None):
                    out += self.call_lambda(s, vs[0], vals, e, specs[i] if b else specs[1 - i])
                return out
        return self.call_lambda(st, vs[0], vals, e)

    def call_lambda(self, st, lam, vals, e, spec=None):
        node = self.lambdas[lam[1]]
        fn = node['fn']
        if spec is not None:
            fn = spec
        elif node.get('generic') and node.get('specs'):
            specs = sorted(node['specs'], key=lambda x: x['key'])
            fn = specs[0]
        out = []
        saved, othis = st.env, st.this
        st.env = dict(st.env)
        for i, p in enumerate(fn['params']):
            v = vals[i] if i < len(vals) else ('missing',)
            if v[0] == 'LOC':
                st.env[p['id']] = v[1]
            elif self.P.type(p['t'])['k'] == 'ref' and v[0] not in ('n', 'b', 's'):
                st.env[p['id']] = self.toloc(st, v)
            else:
                loc = ('var', p['name'], p['id'])
                st.store[loc] = v
                st.env[p['id']] = loc
        st.this = lam[2]
        key = fn['key']
        self.stack.append(key)
        ofile, self.file = self.file, fn['file']
        try:
            rs = self.ex(fn.get('body'), st, fn)
        finally:
            self.stack.pop()
            self.file = ofile
        for s2 in rs:
            s2.env = dict(saved)
            s2.this = othis
            if s2.exit and s2.exit[0] == 'abort':
                out.append((s2, ('none',)))
                continue
            v = s2.exit[1] if s2.exit and s2.exit[0] == 'ret' else ('none',)
            s2.exit = None
            out.append((s2, v))
        return out

    def opaque_call(self, st, f, o, vals, args, e):
        q = f['q']
        pure = q in self.pure or q in PURE_FN
        vals = tuple(self.pristine(v) if v[0] == 'cont' else v for v in vals)
        usesrng = any(self.prngish(a) for a in args)
        mut = not pure and (not f.get('const') or usesrng)
        val = ('call', q, o, vals)
        if not mut and o is not None and f.get('repo'):
            # the value of an inspector depends on how often its object changed
            ver = self.version(st, o)
            if ver:
                val = val + (('v', ver),)
        if mut:
            cnt = sum(1 for ev in st.trace if ev[0] == 'call' and ev[1] == q)
            val = ('call', q, o, vals, cnt) if cnt else val
        if not pure:
            st.emit('call', q, o, vals, self.at(e), f.get('key'))
        if self.forget and mut and o == ('this',):
            for a in [a for a in st.facts if mentions(a, o)]:
                del st.facts[a]
        if f.get('noreturn') or q in ('exit', 'abort', 'std::exit', 'std::abort', '__assert_fail'):
            st.emit('abort', q, self.at(e))
            st.exit = ('abort', q)
            return [(st, ('none',))]
        # non-const reference and pointer arguments are havocked
        for i, a in enumerate(args):
            ps = f.get('params', [])
            if i < len(ps) and i < len(vals) and not pure and self.P.type(ps[i])['k'] == 'ptr' and \
                    vals[i][0] in ('var', 'tmp') and not self.prngish(a) and \
                    not self.P.type(self.P.type(ps[i]).get('to', -1)).get('const'):
                l = vals[i]
                self.drop_sub(st, l)
                self.kill(st, l)
                st.store[l] = ('out', q, i, vals)
                continue
            if i < len(ps) and a:
                t = self.P.type(ps[i])
                if t['k'] == 'ref' and not self.P.type(t.get('to', -1)).get('const') and \
                        a['k'] in ('var', 'member') and not self.prngish(a):
                    if ps and self.P.type(ps[i])['s'].endswith('&&'):
                        continue
                    for s2, l in self.lv(a, st)[:1]:
                        if l[0] in ('var', 'tmp'):
                            self.drop_sub(st, l)
                            self.kill(st, l)
                            # what a string stream was made of
                            src = st.store.get(o) if q == 'std::basic_istream::operator>>' and isinstance(o, tuple) else None
                            st.store[l] = ('out', q, i, vals + (src,)) if src and src[0] == 'ctor' else ('out', q, i, vals)
        return [(st, val)]

    def version(self, st, o):
        r = self.rootloc(o) if o[0] in ('f', 'at') else o
        return self.changes(st.trace, o, r)

    def changes(self, trace, o, r):
        """How many recorded events may have changed object o (a loop that may
        change it counts once)."""
        n_ = 0
        for ev in trace:
            k = ev[0]
            if k == 'loop':
                n_ += any(self.changes(tr, o, r) for tr, _, _ in ev[2])
            elif k == 'call':
                if ev[2] is None or ev[5] is None:
                    continue
                f = self.P.fns.get(ev[5])
                c = f.get('const') if f is not None else str(ev[5]).endswith('const')
                if c:
                    continue
                b = ev[2]
                if b == o or self.under(b, o) or self.under(o, b) or b == r:
                    n_ += 1
            elif k in ('set', 'put', 'ins', 'del', 'push', 'clear', 'pop'):
                if isinstance(ev[1], tuple) and (ev[1] == o or self.under(ev[1], o)):
                    n_ += 1
        return n_

    def prngish(self, a):
        if not a:
            return False
        t = self.P.strip(a.get('t', -1))
        return 'mersenne_twister' in t.get('s', '')

    # container methods ------------------------------------------------------
    def container(self, e, f, st, o, args, kind):
        name = f['name']
        w = self.at(e)
        outs = []

        def ct(s):
            if self.local and self.islocal(o):
                c = self.content(s, o)
                if c[0] == 'cont' and c[1] != o:
                    return c
            return self.cterm(s, o)

        if name in ('contains', 'count', 'find', 'at', 'operator[]', 'erase', 'insert', 'emplace',
                    'push_back', 'emplace_back', 'try_emplace', 'insert_or_assign', 'append') and args:
            for s, vs in self.evs(args, st):
                if s.exit:
                    outs.append((s, ('none',)))
                    continue
                v0 = vs[0]
                if self.asks and name in ('contains', 'count', 'find'):
                    s.emit('ask', self.cterm(s, o), v0, self.at(e))
                if name == 'contains':
                    outs.append((s, self.known(s, o, v0)))
                elif name == 'count':
                    k = self.known(s, o, v0)
                    outs.append((s, asnum(k) if k[0] == 'b' else ('count', k[1], k[2])))
                elif name == 'find':
                    if kind == 'v':
                        outs.append((s, ('fn', 'find', ct(s)) + tuple(vs)))
                    else:
                        outs.append((s, ('iter', o, v0, kind)))
                elif name in ('at', 'operator[]'):
                    if name == 'operator[]' and kind == 'm':
                        s.emit('touch', o, v0, w)
                        c = self.content(s, o)
                        if c[0] == 'cont' and c[1] == ('empty',) and ('at', o, v0) not in s.store and \
                                self.known(s, o, v0)[0] != 'b' or \
                                self.known(s, o, v0) == F:
                            mt = self.P.type(self.P.noref(e['t']) and e['t'])
                            if self.known(s, o, v0) == F:
                                d = self.default0(self.P.noref(e['t']))
                                if d[0] in ('n', 'b'):
                                    s.store[('at', o, v0)] = d
                    outs.append((s, ('LOC', ('at', o, v0))))
                elif name == 'erase':
                    k = v0[2] if v0[0] == 'iter' else v0
                    if v0[0] == 'iter' and len(vs) == 2:
                        k = ('range', v0, vs[1])
                    self.cop(s, o, ('del', k), w)
                    outs.append((s, ('iter', o, ('next', k), kind)))
                elif kind == 's' and name in ('insert', 'emplace'):
                    if len(vs) == 2 and v0[0] == 'iter':
                        self.cop(s, o, ('insrange', v0, vs[1]), w)
                        was = F
                    else:
                        was = self.known(s, o, v0)
                        if was[0] != 'b' and e is not self.discard:
                            for s2, here in self.branch(s, was, w):
                                if not here:
                                    self.cop(s2, o, ('ins', v0), w)
                                outs.append((s2, ('tuple', ('iter', o, v0, kind), F if here else T)))
                            continue
                        self.cop(s, o, ('ins', v0), w)
                    outs.append((s, ('tuple', ('iter', o, v0, kind), F if was == T else T)))
                elif kind == 'm' and name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                    if len(vs) == 1 and v0[0] == 'tuple':
                        k, v = v0[1], v0[2]
                    elif len(vs) == 2 and v0[0] != 'iter':
                        k, v = v0, vs[1]
                    else:
                        self.cop(s, o, ('insrange',) + tuple(vs), w)
                        outs.append((s, ('none',)))
                        continue
                    kn = self.known(s, o, k)
                    for s, here in [(s, False)] if name == 'insert_or_assign' else self.branch(s, kn, w):
                        if here:
                            outs.append((s, ('tuple', ('iter', o, k, kind), F)))
                            continue
                        self.cop(s, o, ('put', k, v), w)
                        s.store[('at', o, k)] = v
                        outs.append((s, ('tuple', ('iter', o, k, kind), T)))
                elif name in ('push_back', 'emplace_back'):
                    v = v0 if len(vs) == 1 else ('tuple',) + tuple(vs)
                    self.cop(s, o, ('push', v), w)
                    outs.append((s, ('LOC', ('at', o, ('last',)))))
                elif kind == 'v' and name == 'insert':
                    self.cop(s, o, ('vinsert',) + tuple(vs), w)
                    outs.append((s, ('none',)))
                else:
                    return None
            return outs
        if name in ('operator+=',) and kind == 'v':
            for s, vs in self.evs(args, st):
                self.cop(s, o, ('push', vs[0]), w)
                outs.append((s, ('LOC', o)))
            return outs
        if name == 'emplace_back' and not args:
            self.cop(st, o, ('push', ('obj', 'default')), w)
            return [(st, ('LOC', ('at', o, ('last',))))]
        if name == 'operator=':
            for s, vs in self.evs(args, st):
                v = vs[0]
                if o[0] == 'at':
                    self.assign(s, o, v, w)
                elif v[0] == 'list' and kind == 'm':
                    self.assign(s, o, ('cont', ('empty',), tuple(('put', x[1], x[2]) for x in v[1]
                                                                if x[0] == 'tuple')), w)
                else:
                    self.assign(s, o, v, w)
                outs.append((s, ('LOC', o)))
            return outs
        if name in ('size', 'length'):
            c = self.content(st, o)
            if c[0] == 'cont' and c[1] == ('empty',) and all(x[0] == 'push' for x in c[2]):
                return [(st, n(len(c[2])))]
            if c[0] == 'list':
                return [(st, n(len(c[1])))]
            if c[0] == 'fill':
                return [(st, c[1])]
            t = ct(st)
            if self.sizes and c[0] == 'cont' and c[2] and c[1] != ('empty',) and \
                    all(x[0] in ('push', 'pop') for x in c[2]):
                return [(st, mk_add(('size', c[1]), n(sum(1 if x[0] == 'push' else -1 for x in c[2]))))]
            if c[0] == 'cont' and c[2] and t == o and not self.islocal(o):
                # a registry that changed in between has another size
                return [(st, ('size', t, n(len(c[2]))))]
            return [(st, ('size', t))]
        if name == 'empty':
            c = self.content(st, o)
            if c[0] == 'cont' and c[1] == ('empty',) and not c[2]:
                return [(st, T)]
            return [(st, ('empty', ct(st)))]
        if name in ('begin', 'cbegin'):
            return [(st, ('iter', o, ('first',) if kind != 'v' else ZERO, kind))]
        if name in ('end', 'cend', 'rend', 'crend'):
            return [(st, ('end', o))]
        if name in ('rbegin', 'crbegin'):
            return [(st, ('iter', o, ('lastkey', ct(st)) if kind != 'v' else ('last',), kind))]
        if name == 'front':
            return [(st, ('LOC', ('at', o, ZERO)))]
        if name == 'back':
            return [(st, ('LOC', ('at', o, ('last',))))]
        if name == 'clear':
            self.cop(st, o, ('clear',), w)
            return [(st, ('none',))]
        if name == 'pop_back':
            self.cop(st, o, ('pop',), w)
            return [(st, ('none',))]
        if name in ('reserve', 'shrink_to_fit', 'rehash'):
            return [(s, ('none',)) for s, _ in self.evs(args, st)]
        if name in ('c_str', 'data'):
            return [(st, self.read(st, o))]
        if name in ('resize', 'assign', 'swap', 'merge'):
            for s, vs in self.evs(args, st):
                self.cop(s, o, (name,) + tuple(vs), w)
                outs.append((s, ('none',)))
            return outs
        if name in ('substr', 'rfind', 'compare', 'find_first_of', 'find_last_of', 'starts_with',
                    'ends_with', 'find_first_not_of', 'find_last_not_of', 'lower_bound', 'upper_bound',
                    'equal_range'):
            for s, vs in self.evs([a for a in args], st):
                outs.append((s, ('fn', name, self.content(s, o)) + tuple(vs)))
            return outs
        return None

    def known(self, st, o, k):
        c = self.content(st, o)
        t = self.cterm(st, o)
        a = ('contains', t, k)
        if a in st.facts:
            return ('b', st.facts[a])
        if c[0] == 'cont':
            for op in reversed(c[2]):
                if op[0] in ('put', 'ins') and op[1] == k:
                    return T
                if op[0] == 'del' and op[1] == k:
                    return F
                if op[0] == 'clear':
                    return F
            if c[1] == ('empty',) and not c[2]:
                return F
            if t == c:
                t = o
        # a key of an iterated container is contained in it
        if k[0] == 'key' and k[2] == t:
            if not (c[0] == 'cont' and any(x[0] in ('del', 'clear', 'prior') for x in c[2])):
                return T
        return ('contains', t, k)

    def stdmethod(self, e, f, st, o, ov, args):
        q, name, cls = f['q'], f['name'], f.get('clsq', '')
        if 'iterator' in cls or cls == 'std::__shared_ptr_access' or cls == 'std::shared_ptr' or \
                cls == 'std::unique_ptr':
            if name in ('operator*', 'operator->', 'get'):
                v = ov
                d = self.deref(st, v)
                if name == 'operator->' or name == 'get':
                    return [(st, d)]
                return [(st, ('LOC', d))]
            if name in ('operator++', 'operator--'):
                return [(st, ov if ov[0] == 'iter' else o)]
            if name in ('operator+', 'operator-'):
                out = []
                for s, vs in self.evs(args, st):
                    b = vs[0] if name == 'operator+' else mk_mul(n(-1), vs[0])
                    if ov[0] == 'iter':
                        out.append((s, ('iter', ov[1], mk_add(ZERO if ov[2] == ('first',) else ov[2],
                                                              b)) + ov[3:]))
                    else:
                        out.append((s, ('fn', name, ov, vs[0])))
                return out
            if name == 'operator=':
                out = []
                for s, vs in self.evs(args, st):
                    self.assign(s, o, vs[0], self.at(e))
                    out.append((s, ('LOC', o)))
                return out
            if name in ('operator==', 'operator!='):
                return [(s, ('eq' if name == 'operator==' else 'ne', ov, vs[0]))
                        for s, vs in self.evs(args, st)]
        if name == 'operator bool' and cls == 'std::_Bit_reference':
            return [(st, ov)]
        if cls == 'std::_Bit_reference' and name == 'operator=':
            out = []
            for s, vs in self.evs(args, st):
                self.assign(s, o, vs[0], self.at(e))
                out.append((s, ('LOC', o)))
            return out
        if name == 'operator=' and cls in ('std::variant', 'std::pair', 'std::tuple', 'std::optional',
                                           'std::function', 'std::shared_ptr'):
            out = []
            for s, vs in self.evs(args, st):
                if ov[0] == 'tie':
                    v = vs[0]
                    for i, l in enumerate(ov[1:]):
                        nm = {0: 'first', 1: 'second'}.get(i, i)
                        x = v[1 + i] if v[0] == 'tuple' and len(v) > 1 + i else \
                            ('f', v, nm if isinstance(nm, str) else (nm,))
                        if x[0] == 'LOC':
                            x = self.content(s, x[1])
                        self.assign(s, l, x, self.at(e))
                    out.append((s, ('LOC', o)))
                    continue
                self.assign(s, o, vs[0], self.at(e))
                out.append((s, ('LOC', o)))
            return out
        if cls == 'std::variant' and name == 'index':
            return [(st, ('fn', 'index', ov))]
        if name.startswith('operator ') and not args:
            # conversion operators
            return [(st, ('fn', name, ov))] if cls.startswith('std::basic_io') else [(st, ov)]
        return None

    # free functions ---------------------------------------------------------
    def fcall(self, e, f, st, args):
        q, name = f['q'], f['name']
        if f.get('repo'):
            fn = self.P.fns.get(f['key'])
            if fn is not None and not self.opaque(f) and fn['key'] not in self.stack and \
                    len(self.stack) < self.maxdepth and q not in self.pure:
                return self.inline_call(fn, st, None, args, e)
            out = []
            for s, vs in self.evs(args, st):
                out += self.opaque_call(s, f, None, vs, args, e)
            return out
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'):
            return [(s, ('LOC', l)) for s, l in self.lv(args[0], st)]
        if q in ('std::get',) and args:
            ta = f.get('targs', [])
            out = []
            for s, l in self.lv(args[0], st):
                t = self.P.strip(args[0].get('t', -1))
                if t.get('rec') == 'std::variant':
                    out.append((s, ('LOC', ('alt', self.read(s, l)))))
                elif ta and isinstance(ta[0], dict):
                    i = ta[0]['int']
                    nm = {0: 'first', 1: 'second'}.get(i, i)
                    v = self.read(s, l)
                    if v[0] == 'tuple' and i + 1 < len(v):
                        if s.store.get(l) == v and t.get('rec') == 'std::pair':
                            out.append((s, ('LOC', ('f', l, nm))))
                        else:
                            out.append((s, v[1 + i]))
                    else:
                        out.append((s, ('LOC', self.field(s, l, nm))))
                else:
                    out.append((s, ('LOC', ('f', l, 'get'))))
            return out
        if q == 'std::visit':
            out = []
            for s, vs in self.evs(args, st):
                if vs[0][0] == 'lambda':
                    out += self.visit_call(s, vs, e)
                else:
                    out += self.opaque_call(s, f, None, vs, args, e)
            return out
        if q == 'std::tie':
            outs = [(st, ())]
            for a in args:
                outs = [(s2, ls + (l,)) for s, ls in outs for s2, l in self.lv(a, s)]
            return [(s, ('tie',) + ls) for s, ls in outs]
        if q in ('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple'):
            return [(s, ('tuple',) + tuple(vs)) for s, vs in self.evs(args, st)]
        if q in ('std::ssize', 'std::size'):
            out = []
            for s, l in self.lv(args[0], st):
                c = self.content(s, l)
                if c[0] == 'list':
                    out.append((s, n(len(c[1]))))
                elif c[0] == 'fill':
                    out.append((s, c[1]))
                elif c[0] == 'cont' and c[1] == ('empty',) and all(x[0] == 'push' for x in c[2]):
                    out.append((s, n(len(c[2]))))
                else:
                    out.append((s, ('size', self.cterm(s, l))))
            return out
        if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::empty') and args:
            out = []
            t = self.P.strip(args[0].get('t', -1))
            kd = self.kind_of(t.get('rec', '')) or 'v'
            for s, l in self.lv(args[0], st):
                if q.endswith('empty'):
                    out.append((s, ('empty', self.cterm(s, l))))
                elif 'begin' in q:
                    out.append((s, ('iter', l, ('first',) if kd != 'v' else ZERO, kd)))
                else:
                    out.append((s, ('end', l)))
            return out
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') \
                and len(args) == 2:
            op = name[8:]
            return [(s, self.cmp_or_arith(op, vs[0], vs[1], False)) for s, vs in self.evs(args, st)]
        if name == 'operator+' and len(args) == 2:
            return [(s, self.cat(vs[0], vs[1])) for s, vs in self.evs(args, st)]
        if name == 'operator-' and len(args) == 2:
            return [(s, mk_sub(vs[0], vs[1])) for s, vs in self.evs(args, st)]
        if q == 'std::swap' and len(args) == 2:
            out = []
            for s, a in self.lv(args[0], st):
                for s2, b in self.lv(args[1], s):
                    x, y = self.read(s2, a), self.read(s2, b)
                    self.assign(s2, a, y, self.at(e))
                    self.assign(s2, b, x, self.at(e))
                    out.append((s2, ('none',)))
            return out
        if q in ('std::transform', 'std::for_each') and args:
            r = self.algo(e, f, st, args)
            if r is not None:
                return r
        if q == 'std::accumulate' and len(args) >= 3:
            out = []
            for s, vs in self.evs(args, st):
                if vs[0][0] == 'iter' and vs[1][0] == 'end' and len(vs) == 3:
                    c = self.cterm(s, vs[0][1])
                    idx = ('idx', self.loopdepth, ('size', c))
                    out.append((s, mk_add(vs[2], ('sum', idx, (((), ('at', c, idx)),)))))
                else:
                    out += self.opaque_call(s, f, None, vs, args, e)
            return out
        if q == 'std::holds_alternative':
            t = self.P.type(f['targs'][0])['s'] if isinstance(f['targs'][0], int) else str(f['targs'][0])
            out = []
            for s, vs in self.evs(args, st):
                v = self.read(s, vs[0][1]) if vs[0][0] == 'LOC' else vs[0]
                if t == 'T_clean_relation':
                    out.append((s, ('not', ('altp', 'T_noisy_relation', v))))
                else:
                    out.append((s, ('altp', t, v)))
            return out
        if q == 'std::get_if':
            return [(s, ('altp', self.P.type(f['targs'][0])['s'] if isinstance(f['targs'][0], int) else
                         str(f['targs'][0]), self.read(s, vs[0]))) for s, vs in self.evs(args, st)]
        if name == 'operator<<' or name == 'operator>>':
            out = []
            for s, l in self.lv(args[0], st):
                if name == 'operator>>':
                    quoted = args[1].get('k') == 'call' and args[1].get('f', {}).get('q') == 'std::quoted'
                    for s2, l2 in self.lv(args[1]['args'][0] if quoted else args[1], s):
                        if quoted:
                            s2.emit('inq', l, l2, self.at(e))
                        s2.emit('in', l, l2, self.at(e))
                        self.kill(s2, l2)
                        s2.store[l2] = ('read', l, s2.new())
                        out.append((s2, ('LOC', l)))
                else:
                    for s2, v in self.ev(args[1], s):
                        s2.emit('out', l, v, self.at(e))
                        out.append((s2, ('LOC', l)))
            return out
        if q == 'std::quoted' and args:
            return [(s, ('fn', 'quoted', v)) for s, v in self.ev(args[0], st)]
        if q in PURE_FN or q.startswith('std::numeric_limits'):
            out = []
            for s, vs in self.evs(args, st):
                nm = q[5:] if q.startswith('std::') else q
                out.append((s, ('fn', nm) + tuple(vs)))
            return out
        if q in ('std::cmp_equal', 'std::cmp_not_equal', 'std::cmp_less', 'std::cmp_less_equal', 'std::cmp_greater', 'std::cmp_greater_equal') \
                and len(args) == 2:
            op = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}[q[9:]]
            return [(s, self.cmp_or_arith(op, vs[0], vs[1], True)) for s, vs in self.evs(args, st)]
        out = []
        for s, vs in self.evs(args, st):
            r = self.opaque_call(s, f, None, vs, args, e)
            if q in ('std::pop_heap', 'std::push_heap', 'std::make_heap', 'std::sort', 'std::stable_sort') and len(vs) > 1 and \
                    vs[0][0] == 'iter' and vs[1][0] == 'end' and vs[0][1] == vs[1][1] and vs[0][1][0] in ('var', 'f', 'p', 'tmp'):
                for s2, _ in r:
                    self.cop(s2, vs[0][1], ('order', q[5:]), self.at(e))
            out += r
        return out

    def algo(self, e, f, st, args):
        q = f['q']
        out = []
        for s, vs in self.evs(args, st):
            if vs[0][0] != 'iter' or vs[1][0] != 'end':
                return None
            lam = vs[-1]
            if lam[0] != 'lambda':
                return None
            c = vs[0][1]
            kind = vs[0][3]

            def dom(s, c=c, kind=kind):
                return self.dom_of(s, c, kind)

            def body(s, key, c=c, kind=kind, vs=vs, lam=lam):
                el = self.deref(s, ('iter', c, key, kind))
                rs = []
                arg = ('LOC', el) if el[0] in ('at', 'elt') else el
                lp = self.lambdas[lam[1]]['fn']['params']
                if lp and self.P.type(lp[0]['t'])['k'] in ('int', 'uint') and \
                        re.search(r'<(const )?(double|float)\b', self.P.type(args[0]['t'])['s']):
                    arg = ('trunc', self.read(s, el) if arg[0] == 'LOC' else el)
                for s2, v in self.call_lambda(s, lam, [arg], e):
                    if v[0] == 'LOC':
                        v = self.read(s2, v[1])
                    if q == 'std::transform' and not s2.exit:
                        o = vs[2]
                        if o[0] == 'iter':
                            self.cop(s2, o[1], ('put', key, v), self.at(e))
                            s2.store[('at', o[1], key)] = v
                        else:
                            s2.emit('call', 'std::transform.out', o, (v,), self.at(e), None)
                    rs.append(s2)
                return rs
            out += [(s2, ('none',)) for s2 in self.loop(s, dom(s), body, e)]
        return out

    # -------------------------------------------------------- statements --
    def ex(self, s, st, fn):
        """Executes statement s from st; returns states (exit may be set)."""
        if s is None:
            return [st]
        if st.exit:
            return [st]
        k = s['k']
        if k == 'seq':
            return self.exseq(s['b'], [st], fn)
        if k == 'decl':
            sts = [st]
            for d in s['d']:
                nxt = []
                for x in sts:
                    nxt += self.decl(d, x) if not x.exit else [x]
                sts = nxt
            return sts
        if k == 'expr':
            d = s['e']
            while d.get('k') in ('cast', 'paren', 'cleanups') and isinstance(d.get('e'), dict):
                d = d['e']
            old, self.discard = self.discard, d
            r = [x for x, _ in self.ev(s['e'], st)]
            self.discard = old
            return r
        if k == 'null':
            return [st]
        if k == 'if':
            sts = [st]
            if s.get('init'):
                sts = self.ex(s['init'], st, fn)
            out = []
            for x in sts:
                xs = self.decl(s['cv'], x) if s.get('cv') else [x]
                for x in xs:
                    for y, b in self.cond(s['c'], x):
                        if y.exit:
                            out.append(y)
                        elif b:
                            out += self.ex(s['then'], y, fn)
                        elif s.get('else'):
                            out += self.ex(s['else'], y, fn)
                        else:
                            out.append(y)
            return self.dedupe(out)
        if k == 'return':
            out = []
            if s.get('e') is None:
                st.exit = ('ret', ('none',))
                return [st]
            retref = fn is not None and self.P.type(fn['ret'])['k'] == 'ref'
            if retref:
                for x, l in self.lv(s['e'], st):
                    if not x.exit:
                        x.exit = ('ret', ('LOC', l))
                    out.append(x)
            else:
                for x, v in self.ev(s['e'], st):
                    if not x.exit:
                        x.exit = ('ret', v)
                    out.append(x)
            return out
        if k == 'break':
            st.exit = ('break',)
            return [st]
        if k == 'continue':
            st.exit = ('continue',)
            return [st]
        if k == 'foreach':
            return self.foreach(s, st, fn)
        if k == 'for':
            return self.forloop(s, st, fn)
        if k in ('while', 'do'):
            return self.whileloop(s, st, fn)
        if k == 'switch':
            return self.switch(s, st, fn)
        if k in ('case', 'default'):
            return self.ex(s['sub'], st, fn)
        if k == 'try':
            return self.ex(s['body'], st, fn)
        return [st]

    def exseq(self, ss, sts, fn):
        for s in ss:
            nxt = []
            for x in sts:
                nxt += self.ex(s, x, fn) if not x.exit else [x]
            sts = nxt
            if len(sts) > self.maxpaths:
                raise Broken('path budget exceeded in %s' % (fn and fn['key']))
        return sts

    def dedupe(self, sts):
        return sts

    def decl(self, d, st):
        t = self.P.type(d['t'])
        loc = ('var', d['name'], d['id'])
        if d.get('bindings'):
            out = []
            for s, l in self.lv(d['init'], st):
                byval = t['k'] != 'ref'
                v = self.read(s, l)
                for i, b in enumerate(d['bindings']):
                    nm = {0: 'first', 1: 'second'}.get(i, i)
                    if v[0] == 'tuple' and byval:
                        bl = ('var', b['name'], b['id'])
                        s.store[bl] = v[1 + i]
                        s.env[b['id']] = bl
                    else:
                        fl = self.field(s, l, nm)
                        if v[0] == 'tuple' and l[0] in ('tmp', 'var'):
                            fl = v[1 + i]
                        s.env[b['id']] = fl
                out.append(s)
            return out
        if t['k'] == 'ref':
            out = []
            for s, l in self.lv(d['init'], st):
                s.env[d['id']] = l
                out.append(s)
            return out
        if d.get('static'):
            st.env[d['id']] = ('g', 'static:' + d['name'])
            return [st]
        if d.get('init') is None:
            st.env[d['id']] = loc
            st.store[loc] = ('uninit',)
            return [st]
        out = []
        for s, v in self.ev(d['init'], st):
            s.env[d['id']] = loc
            self.kill(s, loc)
            self.drop_sub(s, loc)
            s.store[loc] = v
            out.append(s)
        return out

    # loops --------------------------------------------------------------
    def dom_of(self, st, c, kind):
        t = self.cterm(st, c)
        v = self.content(st, c)
        if v[0] == 'list' or v[0] == 'cont' and c[0] == 'tmp':
            t = v
        if kind == 'v':
            sz = ('size', t)
            if v[0] == 'fill':
                sz = v[1]
            elif v[0] == 'list':
                sz = ('size', v)
            return ('idx', self.loopdepth, sz)
        return ('key', self.loopdepth, t)

    def foreach(self, s, st, fn):
        sts = self.ex(s['init'], st, fn) if s.get('init') else [st]
        out = []
        t = self.P.strip(s['rt'])
        kind = self.kind_of(t.get('rec', '')) or 'v'
        for x in sts:
            for y, c in self.lv(s['range'], x):
                if y.exit:
                    out.append(y)
                    continue
                key = self.dom_of(y, c, kind)
                d = s['var']

                def body(z, key, c=c, kind=kind, d=d):
                    el = self.deref(z, ('iter', c, key, kind))
                    dt = self.P.type(d['t'])
                    if d.get('bindings'):
                        for i, b in enumerate(d['bindings']):
                            nm = {0: 'first', 1: 'second'}.get(i, i)
                            fl = self.field(z, el, nm)
                            if dt['k'] != 'ref' and fl[0] in ('at', 'f'):
                                bl = ('var', b['name'], b['id'])
                                z.store[bl] = self.read(z, fl)
                                fl = bl
                            z.env[b['id']] = fl
                    elif dt['k'] == 'ref' or el[0] in ('elt', 'key'):
                        z.env[d['id']] = el
                    else:
                        bl = ('var', d['name'], d['id'])
                        z.store[bl] = self.read(z, el)
                        z.env[d['id']] = bl
                    return self.ex(s['body'], z, fn)
                out += self.loop(y, key, body, s)
        return out

    def loop(self, st, key, body, node, partial=False, exitfact=None):
        """Summarise a loop.  `body(state, key)` runs one generic iteration."""
        self.loopdepth += 1
        try:
            n0 = len(st.trace)
            d0 = len(st.decisions)
            written = set()
            counters = {}
            for rnd in range(5):
                s1 = self.havoc(st, written, key, counters)
                outs = body(s1.fork(), key)
                w = set()
                for o in outs:
                    if o.exit and o.exit[0] in ('ret', 'abort'):
                        continue
                    for l, v in o.store.items():
                        base = s1.store.get(l)
                        if v != base:
                            if base is None and l[0] in ('var', 'tmp') or \
                                    base is None and self.islocal(l) and self.rootloc(l) not in s1.store:
                                continue
                            w.add(l)
                    for l in s1.store:
                        if l not in o.store:
                            w.add(l)
                if w <= written:
                    # a local stepped by exactly one per iteration is its position
                    cs = {}
                    if not counters and rnd < 4:
                        live = [o for o in outs if not (o.exit and o.exit[0] in ('ret', 'abort'))]
                        for l in sorted(written, key=_key):
                            i0 = st.store.get(l)
                            if l[0] == 'var' and i0 is not None and i0[0] in ('n', 'add', 'p', 'f', 'size') and \
                                    live and all(o.store.get(l) == mk_add(('acc', key, l), ONE)
                                                 for o in live):
                                cs[l] = mk_add(i0, key if key[0] == 'idx' else ('pos', key))
                    if cs:
                        counters = cs
                        continue
                    break
                written |= w
            bodies, escapes = [], []
            brk = False
            for o in outs:
                ex = o.exit
                if ex and ex[0] in ('ret', 'abort'):
                    escapes.append(o)
                    continue
                if ex and ex[0] == 'break':
                    brk = True
                bodies.append((o, ex[0] if ex else 'next'))
            bp = tuple((o.trace[n0:], o.decisions[d0:], how) for o, how in bodies)
            ev = ('loop', key, bp, (self.file, node.get('l', 0)), brk or partial)
            if (self.file, node.get('l', 0)) in self.down:
                ev += ('down',)
            out = []
            # escaping paths
            for o in escapes:
                o.trace = o.trace[:n0] + (('loop', key, bp, (self.file, node.get('l', 0)), True),
                                          ('inloop', key, (self.file, node.get('l', 0)))) + o.trace[n0:]
                out.append(o)
            if bodies or not escapes:
                s = st
                for l in sorted(written, key=_key):
                    fin = [(o.decisions[d0:], o.store.get(l, ('gone',)), how) for o, how in bodies]
                    if l in counters:
                        fin = [(d, subst(v, {counters[l]: ('acc', key, l)}) if v != mk_add(counters[l], ONE)
                                else mk_add(('acc', key, l), ONE), h) for d, v, h in fin]
                    self.carries.setdefault((key, l), []).append((fin, st.store.get(l)))
                    self.merge_out(s, st, l, fin, key, brk or partial)
                for l in written:
                    self.kill(s, l)
                s.trace = st.trace[:n0] + (ev,)
                s.exit = None
                for o, _ in bodies:
                    s.fresh = max(s.fresh, o.fresh)
                if exitfact and not brk:
                    a, pol = atom(exitfact)
                    if a[0] != 'b':
                        s.facts[a] = pol
                out.append(s)
            else:
                # every iteration escapes: zero-iteration path remains
                s = st
                s.trace = st.trace[:n0] + (ev,)
                out.append(s)
            return out
        finally:
            self.loopdepth -= 1

    def rootloc(self, l):
        while l[0] in ('f', 'at'):
            l = l[1]
        return l

    def havoc(self, st, written, key, counters={}):
        s = st.fork()
        for l in written:
            v = s.store.get(l)
            if l in counters:
                s.store[l] = counters[l]
            elif v is not None and v[0] == 'cont':
                s.store[l] = ('cont', v[1], v[2] + (('prior', key),))
            elif v is None and l[0] in ('f', 'at', 'var', 'tmp', 'p', 'alt', 'call', 'g') and \
                    l in self.contish:
                s.store[l] = ('cont', l, (('prior', key),))
            elif v is not None and v[0] in ('fill', 'list', 'p', 'call', 'prefix') and l in self.contish:
                s.store[l] = ('cont', v, (('prior', key),))
            else:
                s.store[l] = ('acc', key, l)
            for a in [a for a in s.facts if mentions(a, l)]:
                del s.facts[a]
        return s

    def merge_out(self, s, st, l, fin, key, partial):
        init = st.store.get(l)
        acc = ('acc', key, l)
        vals = [v for _, v, _ in fin]
        if not vals:
            return
        cont = [v for v in vals if v[0] == 'cont']
        if cont and len(cont) == len(vals):
            ops = []
            for dec, v, how in fin:
                o = v[2]
                i = max([j for j, x in enumerate(o) if x == ('prior', key)], default=-1)
                ops.append((dec, o[i + 1:], how))
            b0 = init if init is not None else l
            if b0[0] == 'cont':
                base, pre = b0[1], b0[2]
            else:
                base, pre = b0, ()
            s.store[l] = ('cont', base, pre + (('each', key, tuple(ops), partial),))
            return
        b0 = init if init is not None else l
        if all(v == acc for v in vals):
            if init is None:
                s.store.pop(l, None)
            else:
                s.store[l] = init
            return
        # additive accumulation
        incs = []
        for dec, v, how in fin:
            d = mk_sub(v, acc) if v[0] not in ('cont', 'tuple', 'list', 's', 'b') else None
            if d is None or mentions(d, acc):
                incs = None
                break
            incs.append((dec, d))
        if incs is not None:
            body = tuple((dec, d) for dec, d in incs)
            if len(body) == 1:
                body = ((), body[0][1]),
            s.store[l] = mk_add(b0, ('sum' if not partial else 'psum', key, body))
            return
        if all(v == acc or not mentions(v, acc) for v in vals):
            s.store[l] = ('last', key, tuple((dec, v) for dec, v, _ in fin if v != acc), b0)
            return
        s.store[l] = ('loopout', key, l, tuple((dec, v) for dec, v, _ in fin), b0)

    def forloop(self, s, st, fn):
        sts = self.ex(s['init'], st, fn) if s.get('init') else [st]
        out = []
        for x in sts:
            h = self.for_header(s, x)
            if h is not None:
                var, key, val = h

                def body(z, key, var=var, val=val):
                    z.store[z.env[var]] = val(key)
                    rs = []
                    for o in self.ex(s['body'], z, fn):
                        rs.append(o)
                    return rs
                # the loop variable must not be seen as an accumulator
                rs = self.loop(x, key, body, s)
                out += rs
            else:
                out += self.genloop(x, s.get('c'), s['body'], s.get('inc'), s, fn)
        return out

    def for_header(self, s, st):
        """Recognises counting and iterator loops; (var id, domain key, value fn)."""
        init, c, inc = s.get('init'), s.get('c'), s.get('inc')
        if not init or init['k'] != 'decl' or c is None:
            return None
        ds = init['d']
        # strip conjunctive extra conditions: not canonical
        def cmpn(c):
            if c['k'] == 'bin' and c['op'] in ('<', '!=', '<=', '>', '>='):
                return c['op'], c['lhs'], c['rhs']
            if c['k'] == 'call' and c.get('f') and c['f']['name'] in (
                    'operator!=', 'operator<', 'std::cmp_less') and len(c['args']) == 2:
                return c['f']['name'][8:], c['args'][0], c['args'][1]
            if c['k'] == 'call' and c.get('f') and c['f']['name'] == 'operator!=' and c.get('obj'):
                return '!=', c['obj'], c['args'][0]
            if c['k'] == 'un' and c['op'] == '!' and c['e']['k'] == 'call' and c['e'].get('f') and \
                    c['e']['f']['name'] == 'operator==':
                a = ([c['e']['obj']] if c['e'].get('obj') else []) + c['e']['args']
                if len(a) == 2:
                    return '!=', a[0], a[1]
            return None
        m = cmpn(c)
        if m is None:
            return None
        op, a, b = m

        def un(x):
            while x['k'] == 'cast':
                x = x['e']
            return x
        a, b = un(a), un(b)
        if a['k'] != 'var':
            if b['k'] == 'var' and op in ('>', '!='):
                a, b, op = b, a, {'>': '<', '!=': '!='}[op]
            else:
                return None
        vid = a['id']
        if vid not in [d['id'] for d in ds]:
            return None
        v0 = self.read(st, st.env[vid])
        if inc is not None:
            i = inc
            iv = None
            if i['k'] == 'un' and i['op'] in ('++', '--'):
                iv = un(i['e'])
                step = 1 if i['op'] == '++' else -1
            elif i['k'] == 'call' and i.get('f') and i['f']['name'] in ('operator++',):
                iv = un(i['obj']) if i.get('obj') else None
                step = 1
            elif i['k'] == 'assign' and i['op'] in ('+', '-') and un(i['rhs'])['k'] == 'int' and \
                    un(i['rhs'])['v'] == '1':
                iv = un(i['lhs'])
                step = 1 if i['op'] == '+' else -1
            if iv is None or iv['k'] != 'var' or iv['id'] != vid:
                return None
        else:
            step = None
        probe = st.fork()
        bs = self.ev(b, probe)
        if len(bs) != 1:
            return None
        bv = bs[0][1]
        if v0[0] == 'iter' and bv[0] == 'end' and op == '!=':
            if v0[2] not in (('first',), ZERO):
                return None
            key = self.dom_of(st, v0[1], v0[3])
            return vid, key, (lambda k, v0=v0: ('iter', v0[1], k, v0[3]))
        if step is None:
            return None
        # is the loop variable assigned in the body?
        if self.assigns(s['body'], vid):
            return None
        if step == 1 and op in ('<', '!='):
            if v0 == ZERO:
                return vid, ('idx', self.loopdepth, bv), (lambda k: k)
            return vid, ('idx', self.loopdepth, ('range', v0, bv)), (lambda k: k)
        if step == 1 and op == '<=':
            return vid, ('idx', self.loopdepth, ('range', v0, mk_add(bv, ONE)) if v0 != ZERO else
                         mk_add(bv, ONE)), (lambda k: k)
        if step == -1 and op in ('>=', '>'):
            lo = bv if op == '>=' else mk_add(bv, ONE)
            hi = mk_add(v0, ONE)
            self.down.add((self.file, s.get('l', 0)))
            return vid, ('idx', self.loopdepth, hi if lo == ZERO else ('range', lo, hi)), (lambda k: k)
        return None

    def assigns(self, node, vid):
        if isinstance(node, dict):
            k = node.get('k')
            if k == 'assign' and _isvar(node['lhs'], vid):
                return True
            if k == 'un' and node['op'] in ('++', '--') and _isvar(node['e'], vid):
                return True
            return any(self.assigns(v, vid) for v in node.values() if isinstance(v, (dict, list)))
        if isinstance(node, list):
            return any(self.assigns(v, vid) for v in node)
        return False

    def whileloop(self, s, st, fn):
        return self.genloop(st, s['c'], s['body'], None, s, fn, do=s['k'] == 'do')

    def genloop(self, st, c, bodys, inc, node, fn, do=False):
        """General loop: condition evaluated inside the generic iteration."""
        it = self.iter_while(st, c) if c is not None and not do else None
        if it is not None:
            loc, v0, key = it

            def body(z, key, loc=loc, v0=v0):
                z.store[loc] = ('iter', v0[1], key, v0[3])
                rs = []
                for o in self.ex(bodys, z, fn):
                    if inc is not None and (not o.exit or o.exit == ('continue',)):
                        o.exit = None
                        rs += [y for y, _ in self.ev(inc, o)]
                    else:
                        rs.append(o)
                return rs
            return self.loop(st, key, body, node)
        key = ('while', self.loopdepth, (node.get('l', 0),))
        exits = []

        def body(z, key):
            del exits[:]
            cs = self.cond(c, z) if (c is not None and not do) else [(z, True)]
            rs = []
            for y, b in cs:
                if y.exit:
                    rs.append(y)
                    continue
                if not b:
                    y.exit = ('break',)
                    y.emit('loopcond', False, self.at(node))
                    exits.append(y)
                    rs.append(y)
                    continue
                for o in self.ex(bodys, y, fn):
                    if (not o.exit or o.exit == ('continue',)):
                        o.exit = None
                        if inc is not None:
                            rs += [w for w, _ in self.ev(inc, o)]
                        elif do and c is not None:
                            for w, b2 in self.cond(c, o):
                                if not b2:
                                    w.exit = ('break',)
                                rs.append(w)
                        else:
                            rs.append(o)
                    else:
                        rs.append(o)
            return rs
        outs = self.loop(st, key, body, node, partial=True)
        # condition is false after normal termination (best effort)
        return outs

    def iter_while(self, st, c):
        def un(x):
            while x['k'] == 'cast':
                x = x['e']
            return x
        a = None
        if c['k'] == 'call' and c.get('f') and c['f']['name'] == 'operator!=':
            aa = ([c['obj']] if c.get('obj') else []) + c['args']
            if len(aa) == 2:
                a, b = un(aa[0]), un(aa[1])
        elif c['k'] == 'un' and c['op'] == '!' and c['e']['k'] == 'call' and c['e'].get('f') and \
                c['e']['f']['name'] == 'operator==':
            aa = ([c['e']['obj']] if c['e'].get('obj') else []) + c['e']['args']
            if len(aa) == 2:
                a, b = un(aa[0]), un(aa[1])
        if a is None or a['k'] != 'var' or a.get('kind') == 'global' or a['id'] not in st.env:
            return None
        loc = st.env[a['id']]
        v0 = self.read(st, loc)
        if v0[0] != 'iter' or v0[2] not in (('first',), ZERO):
            return None
        bs = self.ev(b, st.fork())
        if len(bs) != 1 or bs[0][1][0] != 'end':
            return None
        return loc, v0, self.dom_of(st, v0[1], v0[3])

    # switch --------------------------------------------------------------
    def switch(self, s, st, fn):
        out = []
        body = s['body']['b'] if s['body']['k'] == 'seq' else [s['body']]
        # flatten labels
        flat = []
        for b in body:
            labels = []
            x = b
            while x and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['sub']
            flat.append((labels, x))
        for x, v in self.ev(s['c'], st):
            rem = x
            done = False
            todo = []
            cases = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls]
            default = None
            for i, l in cases:
                if l['k'] == 'default':
                    default = i
                    continue
                if rem is None:
                    break
                cv = self.ev(l['v'], rem)[0][1]
                nrem = None
                for y, b in self.branch(rem, ('eq', v, cv), self.at(s)):
                    if b:
                        todo.append((i, y))
                    else:
                        nrem = y
                rem = nrem
            if rem is not None:
                if default is not None:
                    todo.append((default, rem))
                else:
                    out.append(rem)
            for i, y in todo:
                sts = self.exseq([b for _, b in flat[i:] if b], [y], fn)
                for z in sts:
                    if z.exit == ('break',):
                        z.exit = None
                    out.append(z)
        return out


def _isvar(e, vid):
    while e and e['k'] == 'cast':
        e = e['e']
    return bool(e) and e['k'] == 'var' and e.get('id') == vid


# --------------------------------------------------------------- printing --
def pp(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(pp(x) if isinstance(x, tuple) else str(x) for x in t) + ')'
    if k == 'n':
        return str(t[1])
    if k == 'b':
        return str(t[1]).lower()
    if k == 's':
        return repr(t[1])
    if k == 'this':
        return 'this'
    if k == 'p':
        return t[1]
    if k == 'var':
        return t[1]
    if k == 'f':
        return pp(t[1]) + '.' + str(t[2])
    if k == 'at':
        return '%s[%s]' % (pp(t[1]), pp(t[2]))
    if k == 'add':
        return '(' + ' + '.join(pp(x) for x in t[1]) + ')'
    if k == 'mul':
        return '*'.join(pp(x) for x in t[1])
    if k == 'fn':
        return '%s(%s)' % (t[1], ', '.join(pp(x) for x in t[2:]))
    if k == 'call':
        return '%s%s(%s)%s' % (pp(t[2]) + '->' if t[2] else '', t[1], ', '.join(pp(x) for x in t[3]),
                               '#%s' % (t[4],) if len(t) > 4 else '')
    if k == 'key':
        return 'key%d(%s)' % (t[1], pp(t[2]))
    if k == 'idx':
        return 'i%d<%s' % (t[1], pp(t[2]))
    if k == 'elt':
        return 'elt(%s,%s)' % (pp(t[1]), pp(t[2]))
    return k + '(' + ', '.join(pp(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def show_trace(tr, ind=0):
    out = []
    for ev in tr:
        if ev[0] == 'loop':
            out.append(' ' * ind + 'loop %s %s%s' % (pp(ev[1]), ev[3], ' partial' if ev[4] else ''))
            for b, dec, how in ev[2]:
                out.append(' ' * ind + '  path[%s]' % how)
                out.append(show_trace(b, ind + 4))
        else:
            out.append(' ' * ind + ev[0] + ' ' + ' | '.join(pp(x) if isinstance(x, tuple) else str(x)
                                                           for x in ev[1:-1]) + ' @%s' % (ev[-1],))
    return '\n'.join(o for o in out if o)
