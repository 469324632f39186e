"""Exact normal form of real-valued terms: rational functions over named
atoms, with log and lgamma expanded by their functional equations.  Used to
decide algebraic identities by rewriting to a canonical form."""
from fractions import Fraction
import sys

sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import sympy  # noqa: E402
from sympy import Symbol, Rational, Integer  # noqa: E402


class Conv:
    def __init__(self, leaf=None):
        self.syms = {}
        self.leaf = leaf or (lambda t: None)

    def sym(self, t):
        k = repr(t)
        if k not in self.syms:
            self.syms[k] = Symbol('v%d' % len(self.syms), positive=True)
        return self.syms[k]

    def conv(self, t):
        r = self.leaf(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'n':
            return Rational(t[1].numerator, t[1].denominator)
        if k == 'b':
            return Integer(1 if t[1] else 0)
        if k == 'add':
            return sum((self.conv(x) for x in t[1]), Integer(0))
        if k == 'mul':
            r = Integer(1)
            for x in t[1]:
                r *= self.conv(x)
            return r
        if k == 'div':
            return self.conv(t[1]) / self.conv(t[2])
        if k == 'fn' and t[1] in ('log', 'std::log') and len(t) == 3:
            return LOG(sympy.factor(self.conv(t[2])))
        if k == 'fn' and t[1] == 'log1p' and len(t) == 3:
            return LOG(sympy.factor(1 + self.conv(t[2])))
        if k == 'fn' and t[1] == 'exp' and len(t) == 3:
            a = self.conv(t[2])
            if a.func == LOG:
                return a.args[0]
            return EXP(a)
        if k == 'fn' and t[1] == 'lgamma' and len(t) == 3:
            return LG(sympy.expand(self.conv(t[2])))
        if k == 'fn' and t[1] == 'sqrt' and len(t) == 3:
            return sympy.sqrt(self.conv(t[2]))
        if k == 'fn' and t[1] == 'pow' and len(t) == 4:
            return self.conv(t[2]) ** self.conv(t[3])
        return self.sym(t)


class LOG(sympy.Function):
    nargs = 1


class EXP(sympy.Function):
    nargs = 1


class LG(sympy.Function):
    nargs = 1


def shift(z):
    """z = z0 + k, k integer such that the constant term of z0 lies in (0,1]."""
    z = sympy.expand(z)
    c, _ = z.as_coeff_Add()
    if not c.is_Rational:
        return z, 0
    k = sympy.ceiling(c) - 1
    return z - k, int(k)


def normal(e):
    """Canonical form: expand LG by lgamma(z+1) = log z + lgamma(z), LOG over
    products and powers, then expand."""
    e = sympy.expand(e)

    def lg(z):
        z = sympy.expand(z)
        if z == 1 or z == 2:
            return Integer(0)
        z0, k = shift(z)
        out = Integer(0) if z0 == 1 else LG(z0)
        if abs(k) > 50:
            return LG(z)
        if k > 0:
            for i in range(k):
                out += LOG(sympy.factor(z0 + i))
        else:
            for i in range(k, 0):
                out -= LOG(sympy.factor(z0 + i))
        return out

    def lgl(a):
        a = sympy.factor(sympy.together(a))
        return explog(a)

    def explog(a):
        if a == 1:
            return Integer(0)
        if a.is_Mul:
            if a.args[0] == -1:
                # sign moves into a sum factor
                rest = list(a.args[1:])
                for i, r in enumerate(rest):
                    if r.is_Add:
                        rest[i] = sympy.factor(-r)
                        return explog(sympy.Mul(*rest)) if not rest[i].is_Mul or \
                            rest[i].args[0] != -1 else LOG(a)
                return LOG(a)
            return sum((explog(x) for x in a.args), Integer(0))
        if a.is_Pow:
            return a.exp * explog(a.base)
        if a.is_Rational and not a.is_Integer and a > 0:
            return explog(Integer(a.p)) - explog(Integer(a.q))
        if a.is_Integer and a > 1:
            fs = sympy.factorint(int(a))
            if len(fs) > 1 or any(v > 1 for v in fs.values()):
                return sum((v * LOG(Integer(p)) for p, v in fs.items()), Integer(0))
        if a.is_Add:
            # primitive part with positive leading coefficient
            c, p = a.primitive()
            if c != 1 and c > 0:
                return explog(c) + explog(p)
            a = sympy.expand(a)
        if a.func == EXP:
            return a.args[0]
        return LOG(a)

    e = e.replace(LG, lg)
    e = e.replace(LOG, lgl)
    return sympy.expand(e)


def is_zero(e):
    e = normal(e)
    if e == 0:
        return True
    # rational part may need a common denominator
    e = sympy.together(e)
    num, _ = sympy.fraction(e)
    return sympy.expand(num) == 0


def is_zero_rational(e):
    e = sympy.together(e)
    num, _ = sympy.fraction(e)
    return sympy.expand(num) == 0
