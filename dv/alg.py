"""Exact symbolic reals: sparse Laurent polynomials with rational coefficients
over atoms (variables, |p|, sqrt(p), 1/p, max of ...).

Every atom other than a plain variable carries a definition, so that equality
of two values is decided by exact normal forms (see Ctx.eq in ctx.py).
"""
from fractions import Fraction
import numbers

import numpy as np


class Unsupported(BaseException):
    """The verified text leaves the subset the verifier can reason about"""


class Breach(Unsupported):
    """A named obligation is broken by an operation of the code itself"""

    def __init__(self, tags, msg):
        super().__init__(msg)
        self.tags = tags


class Control(BaseException):
    """Control flow of the verifier (never caught by the code under proof)"""


CTX = None          # the active path context (set by ctx.py)


def set_ctx(c):
    global CTX
    CTX = c


def snap(x):
    """Exact rational meant by a floating point number of the source text.

    Decimal literals keep their decimal value, unless they are a truncated
    p/q with q <= 1000 (0.166666666666667 -> 1/6): within 1e-13 relative.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non finite number %r' % x)
    dec = Fraction(repr(x))
    near = dec.limit_denominator(1000)
    if dec != 0 and abs(near - dec) <= abs(dec)*Fraction(1, 10**13):
        return near
    return dec


class Atom:
    __slots__ = ('id', 'name', 'kind', 'defn', 'sign', 'extra')

    def __init__(self, id, name, kind, defn=None, sign=None, extra=None):
        self.id = id
        self.name = name
        self.kind = kind      # var | abs | sqrt | den | max | opaque
        self.defn = defn      # terms dict
        self.sign = sign      # None | '+' (> 0) | '0+' (>= 0)
        self.extra = extra

    def __repr__(self):
        return self.name


ATOMS = []
_BYNAME = {}


EPOCH = [0]


def reset():
    EPOCH[0] += 1
    ATOMS.clear()
    _BYNAME.clear()
    _INTERN.clear()
    R._cache.clear()


_INTERN = {}


def new_atom(name, kind='var', defn=None, sign=None, extra=None):
    a = Atom(len(ATOMS), name, kind, defn, sign, extra)
    ATOMS.append(a)
    return a


def var(name, sign=None, extra=None):
    """The variable called `name` (same name, same variable)"""
    a = _BYNAME.get(name)
    if a is None:
        a = _BYNAME[name] = new_atom(name, 'var', sign=sign, extra=extra)
    return R({((a.id, 1),): Fraction(1)})


def named(x, other):
    """x, or an atom defined as x when x is an average of laminate values (a sum
    of single laminate values with weights free of other variables) that is
    about to be multiplied: keeps the products small.  The definition is
    expanded when equality needs it (Ctx.normal)."""
    t = x.t
    if not 1 < len(t) < 9 or not other.t or (len(other.t) == 1 and () in other.t):
        return x
    for m in t:
        n = 0
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'var':
                if a.extra != 'prop' or e != 1:
                    return x
                n += 1
            elif a.kind not in ('abs', 'den') or a.extra == 'let':
                return x
        if n != 1:
            return x
    c, q = primitive(t)
    k = ('let', pkey(q))
    a = _INTERN.get(k)
    if a is None:
        a = _INTERN[k] = new_atom('L%d' % len(ATOMS), 'den', defn=q, extra='let')
    return R({((a.id, 1),): c})


# -- monomials ---------------------------------------------------------------
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la = len(a)
    lb = len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


_mm = {}


def mmulc(a, b):
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        if len(_mm) > 2000000:
            _mm.clear()
        r = _mm[k] = mmul(a, b)
    return r


# -- polynomials as dicts ----------------------------------------------------
def padd(p, q, c=1):
    out = dict(p)
    for m, v in q.items():
        w = out.get(m, 0) + (v if c == 1 else c*v)
        if w:
            out[m] = w
        else:
            out.pop(m, None)
    return out


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmulc(m1, m2)
            w = out.get(m, 0) + c1*c2
            out[m] = w
    return {m: v for m, v in out.items() if v}


def pscale(p, c):
    return {m: v*c for m, v in p.items()} if c else {}


def ppow(p, n):
    out = {(): Fraction(1)}
    while n:
        if n & 1:
            out = pmul(out, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return out


def primitive(p):
    """(content, primitive part) with leading coefficient +1 scaling"""
    lead = min(p)
    c = p[lead]
    return c, {m: v/c for m, v in p.items()}


def pkey(p):
    return tuple(sorted(p.items()))


def pstr(p, limit=12):
    if not p:
        return '0'
    out = []
    for m, c in list(sorted(p.items()))[:limit]:
        f = '*'.join(ATOMS[i].name + ('' if e == 1 else '**%d' % e) for i, e in m)
        out.append(('%s*%s' % (c, f)) if f and c != 1 else (f or str(c)))
    s = ' + '.join(out)
    if len(p) > limit:
        s += ' + ... (%d terms)' % len(p)
    return s


def is_scalar(x):
    return isinstance(x, (numbers.Number, np.generic))


def lengths(t):
    """the sum of a few absolute values as the one absolute value it is, if
    that one is at hand (on the path |p| is its signed p)"""
    if not 1 < len(t) < 4:
        return t
    for m in t:
        if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != 'abs':
            return t
    p = {}
    for m, c in t.items():
        p = padd(p, ATOMS[m[0][0]].defn, c)
    if not p:
        return p
    c, q = primitive(p)
    for s in (1, -1):
        a = _INTERN.get(('abs', pkey(q if s > 0 else pscale(q, -1))))
        if a is not None:
            return {((a.id, 1),): s*c}
    return t


class R:
    """A symbolic real"""
    __slots__ = ('t', '_k', 'tag', '__weakref__')
    _cache = {}

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(x):
        if isinstance(x, R):
            return x
        if isinstance(x, bool) or isinstance(x, np.bool_):
            return const(int(x))
        if isinstance(x, Fraction) or isinstance(x, (int, float, np.integer, np.floating)):
            return const(snap(x))
        toR = getattr(x, '__toR__', None)
        if toR is not None:
            return toR()
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return R.lift(x.item())
        return None

    # arithmetic, memoised on operand identity
    def _bin(self, op, o, fn):
        c = R._cache
        k = (op, id(self), id(o))
        r = c.get(k)
        if r is not None:
            return r[0]
        res = fn(self.t, o.t)
        if len(c) > 3000000:
            c.clear()
        c[k] = (res, self, o)
        return res

    def __add__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return self._bin('+', o_, lambda a, b: R(lengths(padd(a, b))) if a and b else R(a or b))

    __radd__ = __add__

    def __sub__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return self._bin('-', o_, lambda a, b: R(lengths(padd(a, b, -1))))

    def __rsub__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return o_ - self

    def __neg__(self):
        return self._bin('*', MINUS1, lambda a, b: R(pscale(a, -1)))

    def __pos__(self):
        return self

    def __mul__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        if len(self.t) < 9 and len(o_.t) < 9 or len(self.t) < 2 or len(o_.t) < 2:
            self, o_ = named(self, o_), named(o_, self)
        return self._bin('*', o_, lambda a, b: R(pmul(a, b)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return self._bin('/', o_, lambda a, b: R(pmul(a, inverse(b))))

    def __rtruediv__(self, o):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return o_ / self

    def __pow__(self, n):
        n_ = R.lift(n)
        if n_ is None or not n_.isconst():
            raise Unsupported('power with symbolic exponent')
        n = n_.cval()
        if n.denominator == 1:
            n = n.numerator
            if n >= 0:
                if n > 1:
                    self = named(self, self)
                return self._bin('^%d' % n, self, lambda a, b: R(ppow(a, n)))
            return R(ppow(inverse(self.t), -n))
        if n.denominator == 2:
            return self.sqrt()**n.numerator
        raise Unsupported('power %s' % n)

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        return absval(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    # numpy object-dtype ufunc hooks
    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __repr__(self):
        return 'R(%s)' % pstr(self.t)

    __str__ = __repr__

    def __hash__(self):
        return 7

    # comparisons
    def _cmp(self, o, rel):
        o_ = R.lift(o)
        if o_ is None:
            return NotImplemented
        return CTX.relation(self - o_, rel)

    def __lt__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(o_ - self, '>')

    def __gt__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(self - o_, '>')

    def __le__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(o_ - self, '>=')

    def __ge__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(self - o_, '>=')

    def __eq__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(self - o_, '==')

    def __ne__(self, o):
        o_ = R.lift(o)
        return NotImplemented if o_ is None else CTX.relation(self - o_, '!=')

    def __bool__(self):
        if self.isconst():
            return bool(self.cval())
        return bool(CTX.relation(self, '!='))

    def __float__(self):
        if self.isconst():
            return float(self.cval())
        raise Unsupported('conversion of a symbolic value to float')

    def __int__(self):
        if self.isconst():
            return int(self.cval())
        raise Unsupported('conversion of a symbolic value to int')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self


_CONST = {}


def const(c):
    c = snap(c)
    r = _CONST.get(c)
    if r is None:
        r = _CONST[c] = R({(): c} if c else {})
    return r


MINUS1 = const(-1)
ZERO = const(0)
ONE = const(1)


def inverse(p):
    """terms of 1/p; definedness is an obligation of the path"""
    if not p:
        raise ZeroDivisionError('division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        for i, e in m:
            a = ATOMS[i]
            if a.sign != '+':
                CTX.require_nonzero(R({((i, 1),): Fraction(1)}))
        return {tuple((i, -e) for i, e in m): 1/Fraction(c)}
    # common monomial factor out (keeps atoms like areas cancelling)
    g = None
    for m in p:
        d = dict(m)
        if g is None:
            g = dict(d)
        else:
            for i in set(g) | set(d):
                e = min(g.get(i, 0), d.get(i, 0))
                if e:
                    g[i] = e
                else:
                    g.pop(i, None)
    gm = tuple(sorted(g.items())) if g else ()
    ginv = tuple((i, -e) for i, e in gm)
    if gm:
        for i, e in gm:
            if e > 0 and ATOMS[i].sign != '+':
                CTX.require_nonzero(R({((i, 1),): Fraction(1)}))
        p = {mmul(m, ginv): c for m, c in p.items()}
    c, q = primitive(p)
    k = ('den', pkey(q))
    a = _INTERN.get(k)
    if a is None:
        # an absolute-value atom with the same definition can be reused
        a = new_atom('D%d' % len(ATOMS), 'den', defn=q)
        _INTERN[k] = a
    CTX.require_nonzero(R(q))
    return {mmul(((a.id, -1),), ginv): 1/Fraction(c)}


def absval(x):
    """|x| with the sign decided (or split) on the current path"""
    if x.isconst():
        return const(abs(x.cval()))
    s = CTX.sign_split(x)          # +1, -1 or 0 on this path
    if s == 0:
        return ZERO
    y = x if s > 0 else -x
    if len(y.t) == 1:
        return y
    c, q = primitive(y.t)
    if c < 0:
        c, q = -c, pscale(q, -1)
    k = ('abs', pkey(q))
    a = _INTERN.get(k)
    if a is None:
        a = new_atom('Q%d' % len(ATOMS), 'abs', defn=q, sign='+')
        _INTERN[k] = a
    return R({((a.id, 1),): c})


def _sqfrac(c):
    """sqrt of a rational if rational"""
    import math
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn*rn == n and rd*rd == d:
        return Fraction(rn, rd)
    return None


def _sqrt_const(c):
    """sqrt of a positive rational, as terms: r*sqrt(squarefree-ish)"""
    r = _sqfrac(c)
    if r is not None:
        return {(): r}
    k = ('sqrt', ((), c))
    a = _INTERN.get(k)
    if a is None:
        a = new_atom('sqrt(%s)' % c, 'sqrt', defn={(): c}, sign='+')
        _INTERN[k] = a
    return {((a.id, 1),): Fraction(1)}


def sqrt(x):
    if not x.t:
        return ZERO
    if x.isconst():
        if x.cval() < 0:
            raise Unsupported('square root of a negative constant')
        return R(_sqrt_const(x.cval()))
    CTX.require_nonneg(x)
    # monomial: pull out even powers of positive atoms
    p = x.t
    if len(p) == 1:
        (m, c), = p.items()
        out = dict(_sqrt_const(c)) if c > 0 else None
        if out is None:
            raise Unsupported('square root of a negative value')
        rest = []
        mm = []
        for i, e in m:
            a = ATOMS[i]
            if a.sign == '+':
                if e % 2 == 0:
                    mm.append((i, e//2))
                else:
                    if e != 1:
                        mm.append((i, (e - 1)//2))
                    k = ('sqrt', pkey({((i, 1),): Fraction(1)}))
                    b = _INTERN.get(k)
                    if b is None:
                        b = new_atom('sqrt(%s)' % a.name, 'sqrt',
                                     defn={((i, 1),): Fraction(1)}, sign='+')
                        _INTERN[k] = b
                    mm.append((b.id, 1))
            else:
                rest.append((i, e))
        if not rest:
            return R(pmul(out, {tuple(sorted(mm)): Fraction(1)}))
        if len(rest) == 1 and rest[0][1] == 2:
            y = absval(R({((rest[0][0], 1),): Fraction(1)}))
            return R(pmul(pmul(out, {tuple(sorted(mm)): Fraction(1)}), y.t))
    # perfect square of a linear form? (|v| of one-component vectors)
    c, q = primitive(p)
    r = _perfect_square(q)
    if r is not None and c > 0:
        return R(pmul(_sqrt_const(c), absval(R(r)).t))
    if c < 0:
        c, q = -c, pscale(q, -1)
    k = ('sqrt', pkey(q))
    a = _INTERN.get(k)
    if a is None:
        pos = CTX.is_positive(R(q))
        a = new_atom('S%d' % len(ATOMS), 'sqrt', defn=q, sign='+' if pos else '0+')
        _INTERN[k] = a
    return R(pmul(_sqrt_const(c), {((a.id, 1),): Fraction(1)}))


def _perfect_square(q):
    """q = r**2 for a polynomial with at most 4 terms (linear forms)"""
    if len(q) > 10 or any(e < 0 for m in q for i, e in m):
        return None
    sq = {}
    for m, c in q.items():
        if all(e % 2 == 0 for i, e in m):
            if c < 0:
                return None
            r = _sqfrac(c)
            if r is None:
                return None
            sq[tuple((i, e//2) for i, e in m)] = r
    ms = sorted(sq)
    if not ms or len(ms) > 4:
        return None
    base = {ms[0]: sq[ms[0]]}
    for m in ms[1:]:
        cross = q.get(mmul(ms[0], m), 0)
        v = cross/(2*sq[ms[0]])
        if abs(v) != sq[m]:
            return None
        base[m] = v
    return base if pmul(base, base) == q else None


def numeric(x, env, cache=None, mp=None):
    """value of x for base variable values env: name -> float, in floats or
    with the number type mp (mpmath.mpf)"""
    import math
    if mp is not None:
        import mpmath as math
    cache = {} if cache is None else cache

    def aval(i):
        v = cache.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == 'var':
            v = env[a.name]
        elif a.kind == 'opaque':
            v = env[a.name]
        else:
            if a.kind == 'max':
                v = max(pval(t) for t in a.extra)
            else:
                d = pval(a.defn)
                v = math.sqrt(abs(d)) if a.kind == 'sqrt' else (abs(d) if a.kind == 'abs' else d)
        cache[i] = v
        return v

    def pval(p):
        s = mp(0) if mp else 0.
        for m, c in p.items():
            t = mp(c.numerator)/c.denominator if mp else float(c)
            for i, e in m:
                t *= aval(i)**e
            s += t
        return s
    return pval(x.t)
