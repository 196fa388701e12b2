"""Sequences of unknown length, loops over them, sums and products.

A loop `for i in range(..)`/`for v in seq` whose length is unknown is executed
for one arbitrary index (all local branches); every local of the form
acc := acc + T(i) or acc := acc*T(i) is replaced after the loop by
acc0 + SUM_i T(i) or acc0*PROD_i T(i) (the invariant of the loop, established
by its own induction step).  Sums and products are kept in a canonical form.
"""
import sys
from fractions import Fraction

import numpy as np

from . import alg
from .alg import R, Unsupported, Breach, const, ATOMS
from .ctx import Z, SymBool, NEG


def C():
    return alg.CTX


# -- elements ------------------------------------------------------------------
def zname(key):
    t, c = key
    s = '+'.join('%d*%s' % (e, a) if e != 1 else a for a, e in t)
    return s + ('%+d' % c if c or not s else '')


def elem(seq, zs, cyc=None):
    """R for the element of the named sequence at indices zs"""
    keys = tuple(Z.lift(z).key() if not isinstance(z, tuple) else z for z in zs)
    if cyc is not None:
        keys = tuple(modn(k, cyc) for k in keys)
    nm = '%s[%s]' % (seq, ','.join(zname(k) for k in keys))
    k = ('elem', nm)
    a = alg._INTERN.get(k)
    if a is None:
        a = alg.new_atom(nm, 'elem', extra=(seq, keys, cyc))
        alg._INTERN[k] = a
    return R({((a.id, 1),): Fraction(1)})


# sequences a, b of pairwise distinct values: a[k] == b[j] iff j is the index
# PLACE(k) of a[k] in b (outside the range of b when it has no such value)
PLACES = {}


def place(sa, sb, key):
    nm = '~%s in %s[%s]' % (sa, sb, zname(key))
    PLACES[nm] = (sa, sb, key)
    return nm


def inames(t):
    s = set()
    for x, e in t:
        s.add(x)
        if x in PLACES:
            s |= inames(PLACES[x][2][0])
    return s


def modn(key, n):
    """index modulo n: multiples of the symbol n are dropped"""
    t, c = key
    return (tuple((a, e) for a, e in t if a != n), c)


class Seq:
    """x[0..n-1], n unknown; fn maps an index (Z or int, any residue) to R"""
    __array_priority__ = 2500
    ndim = 1

    def __init__(self, name, n, fn=None, distinct=False):
        self.name, self.n = name, n
        nm = n if isinstance(n, str) else None
        self.fn = fn or (lambda z: elem(name, (z,), cyc=self.natom))
        self.natom = next(iter(Z.lift(n).t)) if Z.lift(n).t and Z.lift(n).c == 0 else None
        if distinct:
            C().distinct.add(name)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __sizeZ__(self):
        return self.n

    def __len__(self):
        raise Unsupported('len of a sequence of unknown length')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        z = Z.lift(i)
        if z is None or isinstance(i, R):
            raise IndexError('only integers are valid indices')
        c = C()
        z = z.norm()
        lo = Z.lift(z + self.n)
        hi = Z.lift(self.n - z)
        ok = c.zdecide(SymBool('Z', lo, '>=')) is True and c.zdecide(SymBool('Z', hi, '>')) is True
        if not ok:
            c.oblig('index of %s within bounds' % self.name, False, 'z3-LIA', 'cannot show -len <= %r < len' % z)
        else:
            c.oblig('index of %s within bounds' % self.name, True, 'z3-LIA')
        if self.natom is None:
            # length not a plain symbol: resolve negative indices explicitly
            if c.zdecide(SymBool('Z', z, '>=')) is not True:
                if not bool(SymBool('Z', z, '>=')):
                    z = Z.lift(z + self.n)
        return self.fn(z)

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                n = self.n
                return Seq(self.name + 'rev', n, lambda z: self.fn(n - 1 - z))
            raise Unsupported('strided slice')
        lo = 0 if s.start is None else s.start
        hi = self.n if s.stop is None else s.stop
        if isinstance(lo, int) and lo < 0:
            lo = self.n + lo
        if isinstance(hi, int) and hi < 0:
            hi = self.n + hi
        m = hi - lo
        if isinstance(m, int):
            from . import shim
            return shim.objarr([self.fn(lo + k) for k in range(m)])
        return Seq(self.name, m, lambda z: self.fn(z + lo))

    def roll(self, k):
        if not isinstance(k, int):
            raise Unsupported('roll')
        if self.natom is None:
            raise Unsupported('roll of a partial sequence')
        return Seq(self.name, self.n, lambda z: self.fn(z - k))

    def _b(self, o, f):
        if isinstance(o, QArr):
            raise Unsupported('array of query points with control coordinates')
        if isinstance(o, Seq):
            if Z.lift(o.n).key() != Z.lift(self.n).key():
                raise Unsupported('operands of different length')
            return Seq('(%s,%s)' % (self.name, o.name), self.n, lambda z: f(self.fn(z), o.fn(z)))
        return Seq(self.name, self.n, lambda z: f(self.fn(z), o))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __neg__(self): return Seq(self.name, self.n, lambda z: -self.fn(z))
    def __pos__(self): return self

    def sum(self, *a, **k):
        b = fresh()
        return bigsum(b, 0, self.n, (), self.fn(Z.atom(b)))

    def dot(self, o):
        return (self*o).sum()

    def mean(self, *a, **k):
        return self.sum()/Z.lift(self.n).__toR__()

    def prod(self, *a, **k):
        b = fresh()
        return bigprod(b, 0, self.n, (), self.fn(Z.atom(b)))

    def copy(self):
        return self

    def astype(self, dtype, *a, **k):
        from . import shim
        shim.plain(dtype)
        return self

    def tolist(self):
        return self

    def ravel(self):
        return self

    def iter(self):
        return Iter(0, self.n, lambda i: self.fn(i))

    def __iter__(self):
        raise Unsupported('direct iteration over a sequence of unknown length')

    def __setitem__(self, i, v):
        raise Breach(('C01', 'C02', 'C03'), 'frame/arguments are unchanged: the given sequence %s is modified' % self.name)

    __iadd__ = __isub__ = __imul__ = __itruediv__ = lambda self, o: self._mod()

    def _mod(self):
        raise Breach(('C01', 'C02', 'C03'), 'frame/arguments are unchanged: the given sequence %s is modified' % self.name)

    def __bool__(self):
        raise ValueError('truth value of an array')


class _Size:
    """number of entries of an array of unknown shape: only compared with zero"""

    def __init__(self, ns):
        self.ns = ns

    def __eq__(self, o):
        if not (isinstance(o, int) and o == 0):
            raise Unsupported('number of entries of an array')
        return any(bool(n == 0) for n in self.ns)

    def __ne__(self, o):
        return not self == o

    def __gt__(self, o):
        return not self == o

    def __bool__(self):
        return not self == 0

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('number of entries of an array')


class _SeqN:
    __array_priority__ = 2500

    def __init__(self, name, *ns):
        self.name, self.ns = name, ns

    @property
    def shape(self):
        return tuple(self.ns)

    @property
    def ndim(self):
        return len(self.ns)

    @property
    def size(self):
        return _Size(self.ns)

    def __sizeZ__(self):
        return self.ns[0]

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        if any(isinstance(k, slice) for k in i):
            raise Unsupported('slice of an array of unknown size')
        zs = [self._chk(k, n) for k, n in zip(i, self.ns)]
        if len(zs) == len(self.ns):
            return elem(self.name, zs)
        return _Part(self, zs)

    def _chk(self, i, n):
        z = Z.lift(i)
        if z is None or isinstance(i, R):
            raise IndexError('only integers are valid indices')
        z = z.norm()
        c = C()
        ok = c.zdecide(SymBool('Z', z, '>=')) if z.t else z.c >= 0
        hi = Z.lift(n - z)
        ok2 = c.zdecide(SymBool('Z', hi, '>'))
        c.oblig('index of %s within bounds' % self.name, ok is True and ok2 is True, 'z3-LIA', repr(z))
        return z

    def copy(self):
        return self

    def astype(self, dtype, *a, **k):
        from . import shim
        shim.plain(dtype)
        return self

    def __setitem__(self, i, v):
        raise Breach(('C02', 'C03'), 'frame/arguments are unchanged: the given array %s is modified' % self.name)

    def __iter__(self):
        raise Unsupported('iteration over an array of unknown size')


class _Part:
    def __init__(self, a, zs):
        self.a, self.zs = a, zs

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        return self.a[tuple(self.zs) + i]

    @property
    def shape(self):
        return self.a.shape[len(self.zs):]

    @property
    def ndim(self):
        return self.a.ndim - len(self.zs)

    def __sizeZ__(self):
        return self.shape[0]


class Seq2(_SeqN):
    pass


class Seq3(_SeqN):
    pass


# -- iteration -------------------------------------------------------------------
class Iter:
    def __init__(self, lo, hi, conv):
        self.lo, self.hi, self.conv = lo, hi, conv

    def enum(self, start):
        lo = self.lo
        conv = self.conv
        return Iter(self.lo, self.hi, lambda i: (i - lo + start, conv(i)))


def range_iter(r):
    if r.step == -1:
        return Iter(r.hi + 1, r.lo + 1, lambda i: i)
    if r.step != 1:
        raise Unsupported('range with a step')
    return Iter(r.lo, r.hi, lambda i: i)


def zip_iter(fs):
    f0 = fs[0]
    n0 = Z.lift(f0.hi - f0.lo).key()
    for f in fs[1:]:
        if Z.lift(f.hi - f.lo).key() != n0:
            raise Unsupported('zip of sequences of different length')
    return Iter(f0.lo, f0.hi, lambda i: tuple(f.conv(i - f0.lo + f.lo) for f in fs))


def fresh():
    c = C()
    c.nfresh = getattr(c, 'nfresh', 0) + 1
    return 'i#%d' % c.nfresh


class QArr:
    """an array of unknown length whose elements are all treated alike: .v is
    the element at one arbitrary position.  In-place operations change the
    object; they are refused if anything else refers to it, as the loop rule
    (and the first iteration, where the local may still be a number) relies on
    the local being the only reference."""
    __array_priority__ = 3000
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, v, real=True):
        from . import shim
        self.v = v
        self.real = real        # surely floating point, not integers
        self._birth = shim.birth()

    def _other(self, o):
        if isinstance(o, QArr):
            return o.v
        if isinstance(o, (int, float, np.integer, np.floating)) and not isinstance(o, bool):
            return R.lift(o)
        if isinstance(o, R):
            return o
        raise Unsupported('array of query points with %s' % type(o).__name__)

    def __add__(self, o): return QArr(self.v + self._other(o), self._real(o))
    def __radd__(self, o): return QArr(self._other(o) + self.v, self._real(o))
    def __sub__(self, o): return QArr(self.v - self._other(o), self._real(o))
    def __rsub__(self, o): return QArr(self._other(o) - self.v, self._real(o))
    def __mul__(self, o): return QArr(self.v * self._other(o), self._real(o))
    def __rmul__(self, o): return QArr(self._other(o) * self.v, self._real(o))
    def __truediv__(self, o): return QArr(self.v / self._other(o))
    def __rtruediv__(self, o): return QArr(self._other(o) / self.v)
    def __neg__(self): return QArr(-self.v, self.real)
    def __pos__(self): return QArr(self.v, self.real)

    def __pow__(self, n):
        if not isinstance(n, int):
            raise Unsupported('power of an array')
        return QArr(self.v ** n, self.real)

    def copy(self, *a, **k):
        return QArr(self.v, self.real)

    def _real(self, o):
        return self.real or isinstance(o, QArr) and o.real

    def astype(self, dtype, *a, **k):
        from . import shim
        if not shim.isfloat_dtype(dtype):
            raise Unsupported('conversion of the query points to %s' % dtype)
        return QArr(self.v)

    def _inpl(f, how):
        def g(self, o):
            from . import shim
            if sys.getrefcount(self) > BASE[how]:
                raise Unsupported('array changed in place while something else refers to it')
            shim.check_write(self._birth, 'array')
            if not self.real and (how == 'idiv' or not isinstance(o, int)):
                raise Unsupported('array that may hold integers changed in place')
            self.v = f(self.v, self._other(o))
            return self
        return g
    __iadd__ = _inpl(lambda a, b: a + b, 'inplace')
    __isub__ = _inpl(lambda a, b: a - b, 'inplace')
    __imul__ = _inpl(lambda a, b: a * b, 'inplace')
    idiv = _inpl(lambda a, b: a / b, 'idiv')

    def _bad(self, *a, **k):
        raise Unsupported('operation on an array of query points')
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __bool__ = __abs__ = _bad
    __iter__ = __len__ = __hash__ = __float__ = __int__ = __index__ = __itruediv__ = _bad
    __getitem__ = __setitem__ = __contains__ = __matmul__ = __rmatmul__ = __array__ = _bad
    __mod__ = __floordiv__ = __rpow__ = __ipow__ = _bad

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('attribute %s of an array of query points' % n)


BASE = {'inplace': 0, 'idiv': 0, 'bottom': 0, 'havoc': 0}


def _refs(pairs):
    return {k: sys.getrefcount(v) for k, v in pairs if isinstance(v, QArr)}


def calibrate():
    """numbers of references to an object that one local alone refers to, at
    the places where they are counted"""
    from . import shim
    seen = {}

    class Probe(QArr):
        def __imul__(self, o):
            seen['inplace'] = sys.getrefcount(self)
            return self

        def idiv(self, o):
            seen['idiv'] = sys.getrefcount(self)
            return self

    class Loop:
        def havoc(self, name, old):
            seen['havoc'] = sys.getrefcount(old)

        def bottom(self, pairs):
            seen['bottom'] = _refs(pairs)['a']

    def run():
        a = Probe.__new__(Probe)
        loop = Loop()
        loop.havoc('a', shim.old_(lambda: a))
        a *= 1
        a = shim.idiv_(a, 1)
        if loop:
            loop.bottom([('a', shim.old_(lambda: a))])
    run()
    BASE.update(seen)


class NumFrame:
    def keyed(self, x):
        return False


class NumLoop:
    sym = True

    def __init__(self, it, lineno):
        self.it = it
        self.lineno = lineno
        self.old = {}
        self.acc = {}
        self.paths = []
        self.done = False
        self.arrays = set()

    def __iter__(self):
        # a second run if a local turns out to hold an array of query points
        for k in range(8):
            n = len(self.arrays)
            for x in self._run():
                yield x
            if len(self.arrays) == n:
                self.done = True
                return
            self.paths = []
        raise Unsupported('arrays of a loop')

    def _run(self):
        c = C()
        b = self.b = fresh()
        i = self.i = Z.atom(b)
        script = []
        while True:
            snap = (list(c.facts), list(c.zfacts), dict(c.zsubst), dict(c.rsubst))
            c.zcache.clear()
            c.zassume(i - self.it.lo, '>=')
            c.zassume(self.it.hi - i - 1, '>=')
            nz, nr = len(c.zfacts), len(c.facts)
            loc = Local(script)
            c.local.append(loc)
            c.loops.append(NumFrame())
            self.cur = None
            self.guards = (nz, nr)
            try:
                yield self.it.conv(i)
            finally:
                c.loops.pop()
                c.local.pop()
                zg = c.zfacts[nz:]
                rg = c.facts[nr:]
                c.facts[:], c.zfacts[:] = snap[0], snap[1]
                c.zcache.clear()
                c.zsubst, c.rsubst = snap[2], snap[3]
            if self.cur is None:
                self.cur = {}
            self.paths.append((zg, rg, self.cur))
            log = loc.log
            k = len(log) - 1
            while k >= 0 and log[k][0] + 1 >= log[k][1]:
                k -= 1
            if k < 0:
                break
            script = [x for x, _, _ in log[:k]] + [log[k][0] + 1]
            if len(self.paths) > 40:
                raise Unsupported('too many branches in a loop')

    def early(self):
        raise Unsupported('loop of unknown length is left early (line %d)' % self.lineno)

    def havoc(self, name, old):
        if name not in self.old:
            if isinstance(old, QArr):
                if sys.getrefcount(old) > BASE['havoc']:
                    raise Unsupported('array with several references at a loop (line %d)' % self.lineno)
                if not old.real:
                    raise Unsupported('array that may hold integers (line %d)' % self.lineno)
                self.arrays.add(name)
            self.old[name] = old
        o = self.old[name]
        from . import shim
        if name in self.arrays:
            if name not in self.acc:
                self.acc[name] = alg.var('acc:%s:%s' % (name, self.b))
            return QArr(self.acc[name])
        if isinstance(o, (int, R)) and not isinstance(o, bool) or isinstance(o, float):
            if name not in self.acc:
                self.acc[name] = alg.var('acc:%s:%s' % (name, self.b))
            return self.acc[name]
        return shim.Poison('local %r of another iteration (line %d)' % (name, self.lineno))

    def bottom(self, pairs):
        for k, n in _refs(pairs).items():
            if n > BASE['bottom']:
                raise Unsupported('array with several references in a loop (line %d)' % self.lineno)
            if k in self.acc:
                self.arrays.add(k)
        for k, v in pairs:
            if isinstance(v, QArr) and k in self.arrays and not v.real:
                raise Unsupported('array that may hold integers (line %d)' % self.lineno)
        self.cur = {k: v.v if isinstance(v, QArr) else v for k, v in pairs}

    def at(self, name, v, k):
        if name not in self.old:
            self.old[name] = v
        return self.old[name] + (self.i - self.it.lo)*k

    def end(self, name, v, k):
        return self.old.get(name, v) + (self.it.hi - self.it.lo)*k

    def after(self, name, cur):
        from . import shim
        bad = shim.Poison('local %r after the loop (line %d)' % (name, self.lineno))
        if not self.done or name not in self.acc:
            return bad
        old = self.old[name]
        if name in self.arrays:
            r = self._after(name, old.v if isinstance(old, QArr) else old, bad)
            return r if r is bad else QArr(R.lift(r))
        return self._after(name, old, bad)

    def _after(self, name, old, bad):
        from . import shim
        A = self.acc[name]
        (am, _), = A.t.items()
        aid = am[0][0]
        accids = set(next(iter(a.t))[0][0] for a in self.acc.values())
        sums, prods = [], []
        for zg, rg, vals in self.paths:
            v = vals.get(name)
            v = R.lift(v) if v is not None and not isinstance(v, shim.Poison) and v is not shim._MISSING else None
            if v is None:
                return bad
            if any(rel not in ('!=',) for t, rel in rg):
                return bad
            d = v - A
            sums.append((zg, d) if sums is not None and not mentions(d, accids) else None)
            f = factor_out(v, aid)
            prods.append((zg, f) if f is not None and not mentions(f, accids) else None)
        if all(s is not None for s in sums):
            if all(not s[1].t for s in sums):
                return old
            out = R.lift(old)
            for zg, d in merge(sums):
                if d.t:
                    out = out + bigsum(self.b, self.it.lo, self.it.hi, guards(zg), d)
            return out
        if all(p is not None for p in prods):
            out = R.lift(old)
            for zg, f in merge(prods):
                if f.t != {(): Fraction(1)}:
                    out = out*bigprod(self.b, self.it.lo, self.it.hi, guards(zg), f)
            return out
        return bad


def merge(branches):
    """same value on all branches: no guard"""
    v0 = branches[0][1]
    if len(branches) > 1 and all(not (v - v0).t for g, v in branches):
        return [((), v0)]
    return branches


def guards(zg):
    out = set()
    for z, rel in zg:
        out.add(gnorm(z.key_raw() if hasattr(z, 'key_raw') else (tuple(sorted(z.t.items())), z.c), rel))
    return tuple(sorted(out))


def gnorm(key, rel):
    t, c = key
    if rel in ('<', '<='):
        rel = {'<': '>', '<=': '>='}[rel]
        t = tuple((a, -e) for a, e in t)
        c = -c
    if rel == '>':
        rel, c = '>=', c - 1
    if rel in ('==', '!=') and t and t[0][1] < 0:
        t = tuple((a, -e) for a, e in t)
        c = -c
    return (rel, t, c)


class Local:
    def __init__(self, prefix):
        self.prefix = prefix
        self.log = []


def mentions(x, ids):
    return any(i in ids for i in atoms_of(x.t))


def atoms_of(t, seen=None):
    seen = set() if seen is None else seen
    for m in t:
        for i, e in m:
            if i in seen:
                continue
            seen.add(i)
            a = ATOMS[i]
            if a.kind in ('den', 'abs', 'sqrt'):
                atoms_of(a.defn, seen)
            elif a.kind == 'big':
                atoms_of(dict(a.extra[3]), seen)
            elif a.kind == 'max':
                for q in a.extra:
                    atoms_of(q, seen)
    return seen


def factor_out(v, aid):
    out = {}
    for m, c in v.t.items():
        d = dict(m)
        if d.get(aid) != 1:
            return None
        del d[aid]
        out[tuple(sorted(d.items()))] = c
    return R(out) if out else None


# -- renaming of bound indices ----------------------------------------------------
def kren(key, mp):
    t, c = key
    out = {}
    for a, e in t:
        if a in PLACES:
            sa, sb, k = PLACES[a]
            a = place(sa, sb, kren(k, mp))
        if a in mp:
            t2, c2 = mp[a]
            for b, f in t2:
                out[b] = out.get(b, 0) + e*f
            c += e*c2
        else:
            out[a] = out.get(a, 0) + e
    return (tuple(sorted((a, e) for a, e in out.items() if e)), c)


def names_in(i):
    """index names occurring in atom i"""
    a = ATOMS[i]
    s = set()
    if a.kind == 'elem':
        for k in a.extra[1]:
            s |= inames(k[0])
    elif a.kind in ('den', 'abs', 'sqrt'):
        for m in a.defn:
            for j, e in m:
                s |= names_in(j)
    elif a.kind == 'big':
        op, bounds, gs, body = a.extra
        for m, c in body:
            for j, e in m:
                s |= names_in(j)
        for r, t, c in gs:
            s |= inames(t)
        for lo, hi, nm in bounds:
            s |= inames(lo[0]) | inames(hi[0])
        s -= {nm for lo, hi, nm in bounds}
    elif a.kind == 'var' and a.name.startswith('int:'):
        s.add(a.name[4:])
    elif a.kind == 'max':
        for q in a.extra:
            for m in q:
                for j, e in m:
                    s |= names_in(j)
    return s


def ren(t, mp):
    """rename indices in terms; returns terms"""
    out = {}
    for m, c in t.items():
        r = {(): c}
        for i, e in m:
            r = alg.pmul(r, ren_atom(i, e, mp))
        out = alg.padd(out, r)
    return out


def ren_atom(i, e, mp):
    a = ATOMS[i]
    if not (names_in(i) & set(mp)):
        return {((i, e),): Fraction(1)}
    if a.kind == 'elem':
        seq, keys, cyc = a.extra
        ks = tuple(kren(k, mp) for k in keys)
        if cyc is not None:
            ks = tuple(modn(k, cyc) for k in ks)
        x = elem(seq, ks, cyc)
        (m, c), = x.t.items()
        return {((m[0][0], e),): Fraction(1)}
    if a.kind == 'den':
        q = ren(a.defn, mp)
        c, q = alg.primitive(q)
        if len(q) == 1:
            (m, cc), = q.items()
            return {tuple((j, f*e) for j, f in m): (c*cc)**e}
        d = intern_den(q)
        return {((d, e),): c**e}
    if a.kind == 'big':
        op, bounds, gs, body = a.extra
        bounds2 = tuple((kren(lo, mp), kren(hi, mp), nm) for lo, hi, nm in bounds)
        gs2 = tuple(sorted(gnorm(kren((t, c), mp), r) for r, t, c in gs))
        return {((mkbig(op, bounds2, gs2, ren(dict(body), mp)), e),): Fraction(1)}
    if a.kind == 'var' and a.name.startswith('int:'):
        t, c = mp[a.name[4:]]
        r = const(c)
        for b, f in t:
            r = r + const(f)*alg.var('int:' + b)
        return (r**e).t
    raise Unsupported('index inside %s' % a.kind)


def intern_den(q):
    k = ('den', alg.pkey(q))
    a = alg._INTERN.get(k)
    if a is None:
        a = alg.new_atom('D%d' % len(ATOMS), 'den', defn=q)
        alg._INTERN[k] = a
    return a.id


def depth(t):
    d = 0
    for m in t:
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'big':
                d = max(d, a_depth(a))
            elif a.kind in ('den', 'abs', 'sqrt'):
                d = max(d, depth(a.defn))
    return d


def a_depth(a):
    return 1 + depth(dict(a.extra[3]))


def mkbig(op, bounds, gs, body):
    k = ('big', op, bounds, gs, alg.pkey(body))
    a = alg._INTERN.get(k)
    if a is None:
        nm = '%s{%s|%s}(%s)' % (op, ';'.join('%s<=%s<%s' % (zname(lo), n, zname(hi)) for lo, hi, n in bounds),
                                ','.join('%s%s0' % (zname((t, c)), r) for r, t, c in gs), alg.pstr(body))
        a = alg.new_atom(nm, 'big', extra=(op, bounds, gs, alg.pkey(body)))
        alg._INTERN[k] = a
    return a.id


def canon(op, bounds, gs, body):
    """canonical names for the bound indices, interned atom"""
    d = 1 + depth(body)
    order = sorted(range(len(bounds)), key=lambda k: (bounds[k][0], bounds[k][1], k))
    mp = {}
    nb = []
    for n, k in enumerate(order):
        lo, hi, nm = bounds[k]
        new = '@%s%d.%d' % (op[0], d, n)
        mp[nm] = (((new, 1),), 0)
        nb.append((lo, hi, new))
    body = ren(body, mp)
    gs = tuple(sorted(gnorm(kren((t, c), mp), r) for r, t, c in gs))
    return mkbig(op, tuple(nb), gs, body)


def bigsum(b, lo, hi, gs, body):
    """SUM_{lo <= b < hi, guards} body as R"""
    lok, hik = Z.lift(lo).key(), Z.lift(hi).key()
    out = {}
    for m, c in R.lift(body).t.items():
        out = alg.padd(out, alg.pscale(_summono(b, lok, hik, gs, m), c))
    return R(out)


def _summono(b, lo, hi, gs, m):
    bounds = [(lo, hi, b)]
    inner = []
    outer = []
    gl = list(gs)
    for i, e in m:
        a = ATOMS[i]
        if a.kind == 'big' and a.extra[0] == 'sum' and e == 1 and not a.extra[2] and not gs:
            op, bs, g2, body = a.extra
            (m2, c2), = dict(body).items() if len(body) == 1 else ((None, None),)
            if m2 is None:
                raise Unsupported('nested sum')
            # make bound names unique
            mp = {}
            for l2, h2, nm in bs:
                f = fresh()
                mp[nm] = (((f, 1),), 0)
                bounds.append((l2, h2, f))
            r = ren({m2: c2}, mp)
            (m3, c3), = r.items()
            if c3 != 1:
                outer.append(((), c3))
            inner += list(m3)
        else:
            inner.append((i, e))
    # combine repeated atoms
    d = {}
    for i, e in inner:
        d[i] = d.get(i, 0) + e
    names = {nm for l, h, nm in bounds}
    inn, out = {}, {(): Fraction(1)}
    for (_, c) in outer:
        out = alg.pscale(out, c)
    for i, e in d.items():
        if e == 0:
            continue
        if names_in(i) & names:
            inn[i] = e
        else:
            out = alg.pmul(out, {((i, e),): Fraction(1)})
    inner = tuple(sorted(inn.items()))
    if not gs and len(bounds) == 1:
        r = cyclic(b, lo, hi, inner)
        if r is not None:
            return alg.pmul(out, r)
    i = canon('sum', bounds, tuple(gs), {inner: Fraction(1)})
    return alg.pmul(out, {((i, 1),): Fraction(1)})


def cyclic(b, lo, hi, m):
    """a sum over a full period of products of cyclic elements at b+const"""
    n = dirn = None
    offs = []
    for i, e in m:
        a = ATOMS[i]
        if a.kind != 'elem' or a.extra[2] is None or e < 1:
            return None
        seq, keys, cyc = a.extra
        if n not in (None, cyc):
            return None
        n = cyc
        (t, c), = keys
        if dict(t) not in ({b: 1}, {b: -1}) or (dirn and dirn != t[0][1]):
            return None
        dirn = t[0][1]
        offs.append((c, seq, e))
    if n is None:
        return None
    # length of the range
    z = Z(dict(hi[0]), hi[1]) - Z(dict(lo[0]), lo[1])
    z = Z.lift(z)
    if dict(z.t) != {n: 1} or abs(z.c) > 4 or (dirn < 0 and z.c):
        return None
    full = offs

    def cyc_atom():
        mn = min(offs)[0]
        nm = tuple(sorted((c - mn, s, e) for c, s, e in offs))
        # canonical rotation: smallest over all shifts to an element
        best = min(tuple(sorted((c - c0, s, e) for c, s, e in offs)) for c0, _, _ in offs)
        # offsets may be negative relative to c0; keep the smallest tuple
        k = ('cyc', n, best)
        a = alg._INTERN.get(k)
        if a is None:
            a = alg.new_atom('CYC{%s}(%s)' % (n, '*'.join('%s[i%+d]%s' % (s, c, '' if e == 1 else '^%d' % e) for c, s, e in best)), 'cyc', extra=(n, best))
            alg._INTERN[k] = a
        return {((a.id, 1),): Fraction(1)}
    r = cyc_atom()
    # z = n + k: add (k > 0) or remove (k < 0) single terms at the end
    k = z.c
    lo_z, hi_z = Z(dict(lo[0]), lo[1]), Z(dict(hi[0]), hi[1])

    def term(at):
        out = {(): Fraction(1)}
        for c, s, e in offs:
            x = elem(s, (Z.lift(at + c),), cyc=n)
            out = alg.pmul(out, alg.ppow(x.t, e))
        return out
    if k < 0:
        for j in range(-k):
            r = alg.padd(r, term(hi_z + j), -1)
    else:
        for j in range(k):
            r = alg.padd(r, term(hi_z - 1 - j))
    return r


def bigprod(b, lo, hi, gs, body):
    """PROD_{lo <= b < hi, guards} body as R, split multiplicatively"""
    lok, hik = Z.lift(lo).key(), Z.lift(hi).key()
    t = R.lift(body).t
    if not t:
        raise Unsupported('product of zeros')
    g = None
    for m in t:
        d = dict(m)
        if g is None:
            g = d
        else:
            g = {i: min(g.get(i, 0), d.get(i, 0)) for i in set(g) | set(d)}
            g = {i: e for i, e in g.items() if e}
    gm = tuple(sorted(g.items())) if g else ()
    ginv = tuple((i, -e) for i, e in gm)
    rest = {alg.mmul(m, ginv): c for m, c in t.items()}
    out = {(): Fraction(1)}
    parts = []
    c, q = alg.primitive(rest)
    if c != 1:
        parts.append(({(): c}, 1))
    if q != {(): Fraction(1)}:
        parts.append((q, 1))
    for i, e in gm:
        a = ATOMS[i]
        parts.append((a.defn if a.kind == 'den' else {((i, 1),): Fraction(1)}, e))
    # leading coefficient 1, by the names after canonical renaming (creation
    # order must not matter)
    norm = []
    for q, e in parts:
        if q.keys() == {()}:
            norm.append(({(): q[()]**e}, 1))
            continue
        q = ren(q, {b: ((('@p%d.0' % (1 + depth(q)), 1),), 0)})
        lead = min(q, key=lambda m: sorted((ATOMS[i].name, k) for i, k in m))
        c = q[lead]
        if c != 1:
            norm.append(({(): c**e}, 1))
        norm.append(({m: v/c for m, v in q.items()}, e))
    for q, e in norm:
        d = depth(q)
        if q.keys() != {()}:
            q = ren(q, {'@p%d.0' % (1 + d): (((b, 1),), 0)})
        i = canon('prod', [(lok, hik, b)], tuple(gs), q)
        out = alg.pmul(out, {((i, e),): Fraction(1)})
    return R(out)


# -- pairwise distinct sequences ---------------------------------------------------
def as_index_relation(x, rel):
    """X[a] - X[b] rel 0 for a sequence of pairwise distinct values"""
    if rel not in ('==', '!=') or len(x.t) != 2:
        return None
    (m1, c1), (m2, c2) = sorted(x.t.items())
    if c1 + c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
    if a.kind == b.kind == 'elem' and (b.extra[0], a.extra[0]) in C().shared:
        a, b = b, a
    if a.kind == b.kind == 'elem' and (a.extra[0], b.extra[0]) in C().shared:
        (ka,), (kb,) = a.extra[1], b.extra[1]
        return Z.lift(Z(dict(kb[0]), kb[1]) - Z.atom(place(a.extra[0], b.extra[0], ka)))
    if a.kind != 'elem' or b.kind != 'elem' or a.extra[0] != b.extra[0] or a.extra[0] not in C().distinct:
        return None
    (k1,), (k2,) = a.extra[1], b.extra[1]
    za, zb = Z(dict(k1[0]), k1[1]), Z(dict(k2[0]), k2[1])
    return Z.lift(za - zb)
