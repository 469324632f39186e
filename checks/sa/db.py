"""Terms of the database (GenDB) shared by the checks of its references and relations."""
from .flow import core, subterms
from .interp import mk_add, n

THIS = ('this',)


class Odd(Exception):
    pass


def fld(o, x):
    return ('f', o, x)


DOM, CRI, RRI = fld(THIS, 'domains'), fld(THIS, 'class_reference_indices'), fld(THIS, 'relation_reference_indices')
REF, SCH = fld(THIS, 'reference_values'), fld(THIS, 'schema')
CLASSES = fld(SCH, 'classes')


def carries(C):
    for kv, runs in C.last.carries.items():
        for alts, init in runs:
            if init is not None:
                yield kv, alts, init


def plain(t):
    """The alternative of a variant and the variant are one thing."""
    t = core(t)

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'altp' and len(x) == 3:
                return go(x[2])
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return x
    return renorm(go(t))


def isclassvar(dec):
    """Whether the decisions say that a field refers to a class; the field's variable."""
    for a, t in dec:
        a = core(a)
        if a[0] == 'altp' and a[1] in ('ClassVar', 'ScalarVar') and a[2][:1] == ('f',) and a[2][2] == 'spec':
            return (a[1] == 'ClassVar') == t, plain(a[2])
        if a[0] == 'fn' and 'holds_alternative' in str(a[1]) and ('ClassVar' in str(a) or 'ScalarVar' in str(a)):
            specs = [x for x in subterms(plain(a)) if x[0] == 'f' and x[-1] == 'spec']
            if len(specs) == 1:
                return ('ClassVar' in str(a[1:])) == t, specs[0]
    return None, None


def tup(t):
    v = list(t[1:])
    if len(v) == 1 and isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], tuple):
        v = list(v[0])
    return v


def renorm(t):
    """Sums are put in order again after a renaming."""
    if isinstance(t, tuple):
        t = tuple(renorm(x) if isinstance(x, tuple) else x for x in t)
        if t and t[0] == 'add':
            r = n(0)
            for x in t[1]:
                r = mk_add(r, x)
            return r
    return t
