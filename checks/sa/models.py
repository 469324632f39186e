"""Model classes (distributions and emissions) of the analysed program."""
from .load import Broken


def concrete(P, base='Distribution'):
    """Concrete classes deriving from Distribution<T>, name -> record."""
    out = {}
    for n, r in sorted(P.recs.items()):
        if not P.derives(r, base):
            continue
        if pure_left(P, r):
            continue
        out[n] = r
    if len(out) < 8:
        raise Broken('only %d concrete model classes found' % len(out))
    return out


def pure_left(P, r):
    pures, impl = set(), set()

    def walk(x):
        for m in x['methods']:
            (pures if m.get('pure') else impl).add(m['name'])
        for b in x.get('bases', []):
            n = P.type(b)['s']
            if n in P.recs:
                walk(P.recs[n])
    walk(r)
    # a pure method is implemented when some class in the chain defines it
    return bool(pures - impl)


def method(P, cls, name, nparams=None):
    """Function implementing `name` for dynamic class cls."""
    todo, seen = [cls], set()
    while todo:
        c = todo.pop(0)
        if c in seen or c not in P.recs:
            continue
        seen.add(c)
        r = P.recs[c]
        for m in r['methods']:
            if m['name'] == name and not m.get('pure') and m['key'] in P.fns:
                f = P.fns[m['key']]
                if nparams is None or len(f['params']) == nparams:
                    return f
        todo += [P.type(b)['s'] for b in r.get('bases', [])]
    return None


def short(cls):
    """Readable class name without allocator noise."""
    import re
    s = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string', cls)
    return s.replace(' ', '')


def template(cls):
    """Class name without template arguments."""
    return cls.split('<')[0]
