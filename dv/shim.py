"""What the extracted code sees instead of numpy and of the builtins that
iterate, count, sort or hash.  Concrete-shaped arrays are real numpy object
arrays of exact values; collections of unknown size are symbolic."""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import alg
from .alg import R, Unsupported, Breach, const
from .ctx import Z, SymBool
from . import bigop

_MISSING = object()


def C():
    return alg.CTX


# ---------------------------------------------------------------------------
class Poison:
    """A value the contract does not give: stale data of an earlier call, a
    local of another loop iteration, an uninitialised array entry"""
    __slots__ = ('_why',)
    __array_priority__ = 2000

    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _bad(self, *a, **k):
        why = object.__getattribute__(self, '_why')
        if 'earlier call' in why:
            raise Breach(('C17',), 'contract/results do not depend on earlier calls: uses %s' % why)
        raise Unsupported('value not determined by the contract is used: %s' % why)

    def __getattr__(self, n):
        if n.startswith('__array') or n in ('__toR__', 'dtype', 'shape', '__len__'):
            if n in ('__toR__',):
                self._bad()
            raise AttributeError(n)
        self._bad()

    def __setattr__(self, n, v):
        self._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _bad
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __call__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _bad
    __contains__ = __float__ = __int__ = __index__ = __enter__ = _bad
    __floordiv__ = __mod__ = __hash__ = __iadd__ = __isub__ = __imul__ = _bad
    __pos__ = __invert__ = __and__ = __or__ = _bad

    def __repr__(self):
        return 'Poison(%s)' % object.__getattribute__(self, '_why')

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class Opaque:
    """Some value about which nothing is known and nothing may be decided"""
    __array_priority__ = 2000

    def __init__(self, name='?'):
        self.name = name

    def _op(self, *a, **k):
        return Opaque(self.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _op
    __getitem__ = _op

    def sqrt(self):
        return Opaque(self.name)

    def sum(self, *a, **k):
        return Opaque(self.name)
    min = max = mean = sum

    def _bad(self, *a, **k):
        raise Unsupported('decision on an unknown value (%s)' % self.name)
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __bool__ = _bad
    __iter__ = __len__ = __hash__ = __float__ = __int__ = __index__ = _bad
    __setitem__ = _bad


def birth():
    return tuple(C().loops) if C() is not None else ()


def check_write(b, what):
    """writing from inside a loop over an unknown number of elements into a
    container created outside of it"""
    cur = tuple(C().loops) if C() is not None else ()
    if cur[:len(b)] == b and len(cur) > len(b):
        raise Unsupported('%s created outside of a loop over an unknown number '
                          'of elements is modified inside it' % what)


# -- lists -------------------------------------------------------------------
class SList(list):
    """list that notices writes across symbolic loops; appending exactly once
    per iteration makes it a family aligned with the collection"""

    def __init__(self, *a):
        super().__init__(*a)
        self._birth = birth()
        self._fam = None

    def append(self, x):
        cur = tuple(C().loops)
        b = self._birth
        if cur[:len(b)] == b and len(cur) == len(b) + 1 and isinstance(cur[-1], LoopFrame):
            fr = cur[-1]
            if self._fam is None:
                if len(self):
                    raise Unsupported('list with elements is extended in a loop over an unknown number of elements')
                self._fam = (fr.owner, {})
            if self._fam[0] is not fr.owner or fr.rep in self._fam[1]:
                raise Unsupported('list is not filled once per element of a collection')
            self._fam[1][fr.rep] = x
            return
        check_write(b, 'list')
        if self._fam:
            raise Unsupported('append to a per-element list')
        super().append(x)

    def fam(self):
        if self._fam is None:
            return None
        owner, vals = self._fam
        src = owner.src
        if set(vals) != set(builtins.range(len(src.reps))) or owner.open:
            raise Unsupported('list is not filled once per element of a collection')
        return SymFam(src.base, [(vals[k], src.reps[k][1], src.reps[k][2]) for k in builtins.range(len(src.reps))])

    def _w(name):
        def f(self, *a, **k):
            check_write(self._birth, 'list')
            if self._fam:
                raise Unsupported('change of a per-element list')
            return getattr(list, name)(self, *a, **k)
        return f
    extend = _w('extend')
    insert = _w('insert')
    pop = _w('pop')
    remove = _w('remove')
    __setitem__ = _w('__setitem__')
    __delitem__ = _w('__delitem__')
    __iadd__ = _w('__iadd__')
    clear = _w('clear')
    reverse = _w('reverse')

    def sort(self, key=None, reverse=False):
        check_write(self._birth, 'list')
        self[:] = sorted_(self, key=key, reverse=reverse)

    def __getitem__(self, i):
        if self._fam:
            return self.fam()[i]
        if isinstance(i, slice):
            return SList(list.__getitem__(self, i))
        if isinstance(i, Z):
            i = i.__index__()
        return list.__getitem__(self, i)

    def __iter__(self):
        if self._fam:
            raise Unsupported('iteration over a per-element list')
        return list.__iter__(self)

    def index(self, x, *a):
        for i, y in builtins.enumerate(list.__iter__(self)):
            if y is x or bool(y == x):
                return i
        raise ValueError('not in list')

    def __contains__(self, x):
        return any(y is x or bool(y == x) for y in list.__iter__(self))

    def __add__(self, o):
        return SList(list.__add__(builtins.list(self), builtins.list(o)))

    def __mul__(self, n):
        return SList(list.__mul__(builtins.list(self), n))

    def copy(self):
        return SList(builtins.list(self))

    def __reduce__(self):
        raise Unsupported('pickling')


class UList:
    """A list whose order is arbitrary and not yet decided; order-insensitive
    uses do not decide it"""

    def __init__(self, items, token=None):
        self._items = builtins.list(items)
        self._tok = token if token is not None else {'order': None}

    def raw(self):
        return self._items

    def fixed(self):
        n = len(self._items)
        if self._tok['order'] is None:
            if n <= 1:
                self._tok['order'] = tuple(builtins.range(n))
            else:
                if n > 4:
                    raise Unsupported('order of an unordered collection of %d' % n)
                perms = builtins.list(itertools.permutations(builtins.range(n)))
                self._tok['order'] = perms[C().choose(len(perms), 'order of an unordered collection')]
        return [self._items[k] for k in self._tok['order']]

    def __iter__(self):
        return iter(self.fixed())

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        if isinstance(i, Z):
            i = i.__index__()
        r = self.fixed()[i]
        return SList(r) if isinstance(i, slice) else r

    def __contains__(self, x):
        return any(y is x or bool(y == x) for y in self._items)

    def _w(self, *a, **k):
        raise Breach(('C17',), 'frame/connectivity is unchanged: a list of the mesh is changed')
    append = remove = extend = insert = __setitem__ = clear = sort = reverse = pop = add = discard = update = _w

    def index(self, x):
        for i, y in builtins.enumerate(self.fixed()):
            if y is x or bool(y == x):
                return i
        raise ValueError

    def copy(self):
        return UList(self._items, self._tok)


def raw(x):
    """elements for an order-insensitive use"""
    if isinstance(x, UList):
        return x.raw()
    if isinstance(x, SSet):
        return x._it
    if isinstance(x, SymFam) or (isinstance(x, SList) and x._fam):
        raise Unsupported('collection of unknown size where a concrete one is needed')
    return builtins.list(x)


# -- sets and dictionaries with semantic equality ----------------------------
def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Stub, types.FunctionType)) or isinstance(b, (Stub, types.FunctionType)):
        observed(a, b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in builtins.zip(a, b))
    if isinstance(a, frozenset_) and isinstance(b, frozenset_):
        return a == b
    r = a == b
    if r is NotImplemented:
        return False
    return bool(r)


class Stub:
    """identity-compared object of the mesh model"""
    _shareable = False


class IdentityObserved(BaseException):
    """The code asked whether two laminates are one object: the program is
    run again for every way in which its laminates can be shared"""


ALIAS = [False]


def observed(a, b=None):
    if not ALIAS[0]:
        for x in (a, b):
            if isinstance(x, Stub) and x._shareable and not isinstance(b, types.NoneType):
                raise IdentityObserved()


def id_(x):
    if isinstance(x, Stub):
        if x._shareable and not ALIAS[0]:
            raise IdentityObserved()
        return builtins.id(x)
    if isinstance(x, (R, Z, np.ndarray)):
        raise Unsupported('id() of a number or an array')
    return builtins.id(x)


class SSet:
    def __init__(self, it=()):
        self._it = []
        self._birth = birth()
        self._proj = False
        for x in raw(it):
            self._add(x)

    def _add(self, x):
        for y in self._it:
            if same(x, y):
                return
        self._it.append(x)

    def add(self, x):
        check_write(self._birth, 'set')
        self._add(x)

    def update(self, *others):
        for o in others:
            for x in raw(o):
                self.add(x)

    def __contains__(self, x):
        return any(same(x, y) for y in self._it)

    def __len__(self):
        return len(self._it)

    def __bool__(self):
        return bool(self._it)

    def _fix(self):
        if not isinstance(self._it, list):
            return
        if len(self._it) > 1:
            u = UList(self._it)
            self._it = u.fixed()
        return self._it

    def __iter__(self):
        self._fix()
        return iter(self._it)

    def pop(self):
        check_write(self._birth, 'set')
        if not self._it:
            raise KeyError('pop from an empty set')
        if len(self._it) > 1:
            k = C().choose(len(self._it), 'arbitrary element of a set')
            return self._it.pop(k)
        return self._it.pop()

    def remove(self, x):
        check_write(self._birth, 'set')
        for k, y in builtins.enumerate(self._it):
            if same(x, y):
                del self._it[k]
                return
        raise KeyError(x)

    def discard(self, x):
        try:
            self.remove(x)
        except KeyError:
            pass

    def difference(self, *os):
        out = self
        for o in os:
            o = SSet(o) if not isinstance(o, SSet) else o
            out = SSet([x for x in out._it if x not in o])
        return out if os else SSet(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def intersection(self, o):
        o = SSet(o)
        return SSet([x for x in self._it if x in o])

    __and__ = intersection

    def union(self, *os):
        s = SSet(self)
        for o in os:
            s.update(o)
        return s

    __or__ = union

    def symmetric_difference(self, o):
        o = SSet(o)
        return (self - o) | (o - self)

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self._it)

    __le__ = issubset

    def __ge__(self, o):
        return SSet(o).issubset(self)

    def issuperset(self, o):
        return SSet(o).issubset(self)

    def isdisjoint(self, o):
        return not self.intersection(o)

    def __eq__(self, o):
        if not isinstance(o, SSet):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __hash__(self):
        return 0

    def copy(self):
        return SSet(self)

    def __isub__(self, o):
        for x in raw(o):
            self.discard(x)
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return 'SSet(%r)' % (self._it,)


class frozenset_(SSet):
    pass


class SDict:
    def __init__(self, *a, **k):
        self._p = []
        self._birth = birth()
        self._proj = False
        self._factory = None
        if a:
            src = a[0]
            if isinstance(src, SDict):
                self._p = [[x, y] for x, y in src._p]
                self._proj = src._proj
            elif isinstance(src, dict):
                for x, y in src.items():
                    self._set(x, y)
            else:
                for kv in (src if not isinstance(src, (UList, SSet)) else src):
                    x, y = kv
                    self._set(x, y)
        for x, y in k.items():
            self._set(x, y)

    def _find(self, x):
        for p in self._p:
            if p[0] is x:
                return p
        for p in self._p:
            if same(p[0], x):
                return p
        return None

    def _set(self, x, y):
        p = self._find(x)
        if p is None:
            self._p.append([x, y])
        else:
            p[1] = y

    def __setitem__(self, x, y):
        cur = tuple(C().loops) if C() else ()
        b = self._birth
        if cur[:len(b)] == b and len(cur) > len(b):
            fr = cur[-1]
            if len(cur) == len(b) + 1 and isinstance(fr, LoopFrame) and fr.keyed(x):
                self._proj = True
            else:
                check_write(b, 'dict')
        self._set(x, y)

    def __getitem__(self, x):
        p = self._find(x)
        if p is None:
            if self._proj:
                raise Unsupported('lookup of another element in a dictionary filled in a loop over an unknown number of elements')
            if self._factory is not None:
                v = self._factory()
                self[x] = v
                return v
            raise KeyError(x)
        return p[1]

    def get(self, x, d=None):
        p = self._find(x)
        if p is None and self._proj:
            raise Unsupported('lookup of another element in a dictionary filled in a loop over an unknown number of elements')
        return d if p is None else p[1]

    def setdefault(self, x, d=None):
        p = self._find(x)
        if p is None:
            self[x] = d
            return d
        return p[1]

    def pop(self, x, *d):
        check_write(self._birth, 'dict')
        for k, p in builtins.enumerate(self._p):
            if same(p[0], x):
                del self._p[k]
                return p[1]
        if d:
            return d[0]
        raise KeyError(x)

    def __contains__(self, x):
        return self._find(x) is not None

    def _it(self):
        if self._proj:
            raise Unsupported('iteration over a dictionary filled in a loop over an unknown number of elements')
        return self._p

    def __iter__(self):
        return iter([p[0] for p in self._it()])

    def __len__(self):
        return len(self._it())

    def keys(self):
        return SList([p[0] for p in self._it()])

    def values(self):
        return SList([p[1] for p in self._it()])

    def items(self):
        return SList([(p[0], p[1]) for p in self._it()])

    def update(self, o=(), **k):
        for x, y in SDict(o, **k)._p:
            self[x] = y

    def copy(self):
        return SDict(self)

    def __delitem__(self, x):
        self.pop(x)

    def __repr__(self):
        return 'SDict(%r)' % (self._p,)


def defaultdict_(factory=None, *a, **k):
    d = SDict(*a, **k)
    d._factory = factory
    return d


# -- collections of unknown size ---------------------------------------------
class Base:
    """A collection of N elements (N unknown); `reps` are arbitrary elements
    for which the loops are executed"""

    def __init__(self, name, N):
        self.name = name
        self.N = N
        C().bases.append(self)


class SymFam:
    """family of values, one per element of a Base; reps: (value, position, key)"""
    __array_priority__ = 2000

    def __init__(self, base, reps, identity=True):
        self.base = base
        self.reps = builtins.list(reps)
        self._birth = birth()

    @property
    def N(self):
        return self.base.N

    def map(self, f):
        return SymFam(self.base, [(f(v), p, k) for v, p, k in self.reps])

    # arithmetic
    def _b(self, o, f):
        if isinstance(o, SymFam):
            if not aligned(self, o):
                raise Unsupported('arithmetic on unrelated families')
            return SymFam(self.base, [(f(a[0], b[0]), a[1], a[2]) for a, b in builtins.zip(self.reps, o.reps)])
        return self.map(lambda v: f(v, o))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(lambda a: abs(a))

    def sum(self, axis=None, **k):
        return self._agg('sum', axis)

    def mean(self, axis=None, **k):
        return self._agg('mean', axis)

    def min(self, axis=None, **k):
        return self._agg('min', axis)

    def max(self, axis=None, **k):
        return self._agg('max', axis)

    def _agg(self, what, axis):
        if axis is not None and axis != 0:
            def f(v):
                if isinstance(v, np.ndarray) and what in ('sum', 'mean'):
                    return getattr(v, what)(axis=axis if axis < 0 else axis - 1)
                return Opaque(what)
            return self.map(f)
        return Opaque('%s over %s' % (what, self.base.name))

    def argsort(self, *a, **k):
        return SymPerm(self.base, self.reps)

    def astype(self, dtype, *a, **k):
        plain(dtype)
        return self

    def copy(self):
        return SymFam(self.base, self.reps)

    @property
    def shape(self):
        v = self.reps[0][0] if self.reps else None
        return (self.N,) + (v.shape if isinstance(v, np.ndarray) else ())

    @property
    def T(self):
        return Opaque('transposed family')

    @property
    def size(self):
        return self.N

    def __sizeZ__(self):
        return self.N

    def __len__(self):
        raise Unsupported('len')

    def __getitem__(self, i):
        if isinstance(i, SymPerm):
            # self[argsort]: position of each element unknown but distinct
            return i.apply(self)
        if isinstance(i, SymRange):
            if i.isall(self.N):
                return SymFam(self.base, self.reps)
            raise Unsupported('partial selection from a family')
        if isinstance(i, slice):
            if i.start in (None, 0) and i.stop is None and i.step is None:
                return SymFam(self.base, self.reps)
            raise Unsupported('slice of a family')
        if isinstance(i, tuple):
            if i and isinstance(i[0], slice) and i[0] == slice(None):
                return self.map(lambda v: v[i[1:] if len(i) > 2 else i[1]])
            raise Unsupported('index of a family')
        if isinstance(i, Z):
            k = i.key()
            for v, p, kk in self.reps:
                if Z.lift(p).key() == k:
                    return v
            raise Unsupported('element of a family at an unknown position')
        raise Unsupported('element %r of a collection of unknown size' % (i,))

    def __setitem__(self, i, v):
        if isinstance(i, Z):
            cur = tuple(C().loops)
            if cur and isinstance(cur[-1], LoopFrame):
                for n, (old, p, kk) in builtins.enumerate(self.reps):
                    if Z.lift(p).key() == i.key():
                        self.reps[n] = (v, p, kk)
                        return
        raise Unsupported('assignment to a family')

    def __iter__(self):
        raise Unsupported('direct iteration over a collection of unknown size')

    def __contains__(self, x):
        for v, p, k in self.reps:
            if v is x:
                return True
        raise Unsupported('membership in a collection of unknown size')

    def sort(self, *a, **k):
        raise Unsupported('in-place sort of a collection of unknown size')

    def __hash__(self):
        return id(self)


def aligned(a, b):
    return a.base is b.base and len(a.reps) == len(b.reps) and \
        all(Z.lift(x[1]).key() == Z.lift(y[1]).key() and x[2] is y[2] for x, y in builtins.zip(a.reps, b.reps))


_pc = itertools.count()


def sameterm(a, b):
    if isinstance(a, (Z, int, np.integer)) and isinstance(b, (Z, int, np.integer)) and not isinstance(a, bool):
        return Z.lift(a).key() == Z.lift(b).key()
    try:
        return not (R.lift(a) - R.lift(b)).t
    except Exception:
        return False


class SymPerm:
    """unknown permutation of the positions of a base (argsort & co)"""

    def __init__(self, base, reps):
        self.base = base
        c = C()
        # the same values are sorted in the same way every time
        memo = c.__dict__.setdefault('perms', [])
        for b, old, new in memo:
            if b is base and len(old) == len(reps) and builtins.all(
                    Z.lift(x[1]).key() == Z.lift(y[1]).key() and sameterm(x[0], y[0]) for x, y in builtins.zip(old, reps)):
                self.new = new
                return
        c.nperm = getattr(c, 'nperm', 0) + 1
        self.new = {}
        memo.append((base, builtins.list(reps), self.new))
        zs = []
        for v, p, k in reps:
            z = Z.atom('perm%d_%s' % (c.nperm, Z.lift(p).key()))
            c.zassume(z, '>=')
            c.zassume(base.N - z - 1, '>=')
            for y in zs:
                c.zassume(z - y, '!=')
            zs.append(z)
            self.new[Z.lift(p).key()] = z

    def apply(self, fam):
        if fam.base is not self.base:
            raise Unsupported('permutation of another collection')
        return SymFam(fam.base, [(v, self.new[Z.lift(p).key()], k) for v, p, k in fam.reps])

    def __getitem__(self, i):
        raise Unsupported('element of a permutation')

    def __sizeZ__(self):
        return self.base.N


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def isall(self, N):
        return isinstance(self.lo, int) and self.lo == 0 and self.step == 1 and \
            Z.lift(self.hi).key() == Z.lift(N).key()

    def __sizeZ__(self):
        return self.hi - self.lo

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self
        return self.lo + i*self.step

    def __iter__(self):
        raise Unsupported('direct iteration over a range of unknown size')

    def argsort(self, *a, **k):
        return self


class SymMap(Stub):
    """dict of the mesh: keys -> objects, of unknown size"""

    def __init__(self, name, N, entries):
        # entries: (key, value, position)
        self.base = Base(name, N)
        self.name = name
        self.entries = entries

    def values(self):
        return SymFam(self.base, [(v, p, v) for k, v, p in self.entries])

    def keys(self):
        return SymFam(self.base, [(k, p, v) for k, v, p in self.entries])

    def items(self):
        return SymFam(self.base, [((k, v), p, v) for k, v, p in self.entries])

    def __getitem__(self, key):
        for k, v, p in self.entries:
            if same(k, key):
                return v
        raise Unsupported('lookup of an unknown key in %s' % self.name)

    def get(self, key, d=None):
        return self[key]

    def __contains__(self, key):
        for k, v, p in self.entries:
            if same(k, key):
                return True
        raise Unsupported('membership of an unknown key in %s' % self.name)

    def __sizeZ__(self):
        return self.base.N

    def __len__(self):
        raise Unsupported('len')

    def __iter__(self):
        raise Unsupported('direct iteration')

    def __setitem__(self, k, v):
        raise Breach(('C17',), 'frame/connectivity is unchanged: change of mesh.%s' % self.name)

    __delitem__ = pop = clear = update = __setitem__


# -- loops -------------------------------------------------------------------
class LoopFrame:
    def __init__(self, owner, rep, obj, key, pos):
        self.owner = owner
        self.rep = rep
        self.obj = obj
        self.key = key
        self.pos = pos

    def keyed(self, x):
        """x identifies the element of this iteration"""
        if x is self.key:
            return True
        if isinstance(x, Z) and isinstance(self.pos, Z) and x.key() == self.pos.key():
            return True
        for a in ('nid', 'eid'):
            y = getattr(self.key, a, None)
            if isinstance(y, Z) and isinstance(x, Z) and y.key() == x.key():
                return True
        return False


class ConcreteLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def early(self):
        pass


class FamLoop:
    """loop over a collection of unknown size, executed for its representatives"""
    sym = True

    def __init__(self, src, lineno, conv):
        self.src = src
        self.lineno = lineno
        self.conv = conv
        self.cur = None
        self.open = True

    def __iter__(self):
        c = C()
        for k, (v, p, key) in builtins.enumerate(self.src.reps):
            fr = LoopFrame(self, k, v, key, p)
            c.loops.append(fr)
            self.cur = fr
            try:
                yield self.conv(v, p)
            except GeneratorExit:
                raise
            finally:
                c.loops.pop()
        self.open = False
        self.cur = None

    def early(self):
        raise Unsupported('loop over an unknown number of elements is left early (line %d)' % self.lineno)

    def havoc(self, name, old):
        return Poison('local %r of another iteration (line %d)' % (name, self.lineno))

    def after(self, name, old):
        return Poison('local %r after the loop (line %d)' % (name, self.lineno))

    def at(self, name, v, c):
        d = self.__dict__.setdefault('ind', {})
        if name not in d:
            d[name] = v
        return d[name] + c*self.cur.pos

    def end(self, name, v, c):
        d = self.__dict__.setdefault('ind', {})
        return d.get(name, v) + c*self.src.N

    def bottom(self, pairs):
        pass


def fam_of(x):
    """SymFam view of x for iteration, or None"""
    if isinstance(x, SymFam):
        return x
    if isinstance(x, SymMap):
        return x.keys()
    if isinstance(x, SList) and x._fam:
        return x.fam()
    return None


class Zip:
    def __init__(self, parts):
        self.parts = parts


class Enum:
    def __init__(self, x, start):
        self.x = x
        self.start = start


def issym(x):
    if isinstance(x, (SymFam, SymMap, SymRange, bigop.Seq)):
        return True
    if isinstance(x, SList) and x._fam:
        return True
    if isinstance(x, Zip):
        return True
    if isinstance(x, Enum):
        return True
    return False


def flat(x):
    """(SymFam or index loop, conv) for a symbolic iterable"""
    f = fam_of(x)
    if f is not None:
        return f
    if isinstance(x, Enum):
        f = flat(x.x)
        if isinstance(f, SymFam):
            return SymFam(f.base, [((p + x.start, v), p, k) for v, p, k in f.reps])
        if isinstance(f, bigop.Iter):
            return f.enum(x.start)
    if isinstance(x, Zip):
        fs = [flat(p) for p in x.parts]
        if all(isinstance(f, SymFam) for f in fs):
            for f in fs[1:]:
                if not aligned(fs[0], f):
                    raise Unsupported('zip of unrelated collections')
            return SymFam(fs[0].base, [(tuple(f.reps[n][0] for f in fs), r[1], r[2]) for n, r in builtins.enumerate(fs[0].reps)])
        if any(isinstance(f, SymFam) for f in fs):
            base = [f for f in fs if isinstance(f, SymFam)][0]
            fs = [rng_fam(p, base) if isinstance(p, SymRange) else f for p, f in builtins.zip(x.parts, fs)]
            return flat(Zip(fs))
        return bigop.zip_iter(fs)
    if isinstance(x, SymRange):
        for b in C().bases:
            if x.isall(b.N):
                reps = C().reps_of(b)
                return SymFam(b, [(p, p, k) for v, p, k in reps])
        return bigop.range_iter(x)
    if isinstance(x, bigop.Seq):
        return x.iter()
    raise Unsupported('iteration over %r' % (x,))


def rng_fam(r, fam):
    if not r.isall(fam.N):
        raise Unsupported('zip of collections of different size')
    return SymFam(fam.base, [(p, p, k) for v, p, k in fam.reps])


def loop_(x, lineno):
    if isinstance(x, (SList,)) and not x._fam:
        return ConcreteLoop(x)
    if issym(x):
        f = flat(x)
        if isinstance(f, SymFam):
            return FamLoop(f, lineno, lambda v, p: v)
        return bigop.NumLoop(f, lineno)
    return ConcreteLoop(x)


def citer_(x):
    if isinstance(x, UList):
        return x.raw()
    if isinstance(x, SSet):
        return x._it
    if issym(x):
        f = flat(x)
        if isinstance(f, SymFam):
            return _famgen(f)
        raise Unsupported('comprehension over a sequence of unknown length')
    return x


def _famgen(f):
    for v, p, k in f.reps:
        yield v


def comp_(kind, src, vals, filtered):
    if issym(src):
        f = flat(src)
        if filtered or len(vals) != len(f.reps):
            raise Unsupported('filtered comprehension over a collection of unknown size')
        fam = SymFam(f.base, [(v, r[1], r[2]) for v, r in builtins.zip(vals, f.reps)])
        if kind in ('list', 'gen'):
            return fam
        if kind == 'dict':
            return SymPairs(fam)
        return Opaque('set over %s' % f.base.name)
    if isinstance(src, (UList, SSet)) and not filtered and kind in ('list', 'gen'):
        return UList(vals, src._tok if isinstance(src, UList) else None)
    if kind == 'set':
        return SSet(vals)
    if kind == 'dict':
        return SDict(vals)
    if kind == 'gen':
        return SList(vals)
    return SList(vals)


class SymPairs(Stub):
    """dict built by a comprehension over a collection of unknown size"""

    def __init__(self, fam):
        self.fam = fam

    def __getitem__(self, key):
        for (k, v), p, obj in self.fam.reps:
            if same(k, key):
                return v
        raise Unsupported('lookup of an unknown key')

    def items(self):
        return self.fam

    def values(self):
        return self.fam.map(lambda kv: kv[1])

    def keys(self):
        return self.fam.map(lambda kv: kv[0])

    def __sizeZ__(self):
        return self.fam.N


def old_(f):
    try:
        return f()
    except NameError:
        return _MISSING


# -- matrices of unknown size --------------------------------------------------
class MElem:
    """An entry (or block) of a symbolic matrix together with what is added"""
    __array_priority__ = 3000

    def __init__(self, m, key, inc):
        self.m, self.key, self.inc = m, key, inc

    def __add__(self, o):
        return MElem(self.m, self.key, o if self.inc is None else self.inc + o)

    __iadd__ = __radd__ = __add__

    def __sub__(self, o):
        return MElem(self.m, self.key, -o if self.inc is None else self.inc - o)

    __isub__ = __sub__

    def _bad(self, *a, **k):
        raise Breach(('C12',) if not self.m.zero else (), 'contract/added terms are independent of the contents: existing contents of a stiffness matrix are used')
    __mul__ = __rmul__ = __truediv__ = __pow__ = __neg__ = __rsub__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __bool__ = __float__ = _bad
    __iter__ = __getitem__ = __len__ = __abs__ = __hash__ = _bad


class SymMatrix:
    __array_priority__ = 3000

    def __init__(self, nr, nc, name, zero):
        self.nr, self.nc, self.name, self.zero = nr, nc, name, zero
        self.incs = {}          # key -> (rowZ, colZ, value)
        self.returned = False

    @property
    def shape(self):
        return (self.nr, self.nc)

    ndim = 2

    @property
    def dtype(self):
        return np.dtype(float)

    def __sizeZ__(self):
        return self.nr

    def _idx(self, i, n):
        """list of Z indices and whether it is scalar"""
        if isinstance(i, slice):
            lo = 0 if i.start is None else i.start
            if i.step not in (None, 1):
                raise Unsupported('strided slice of a matrix')
            if i.stop is None:
                raise Unsupported('open slice of a matrix')
            k = i.stop - lo
            if not isinstance(k, int):
                raise Unsupported('slice of unknown length')
            return [self._chk(lo + j, n) for j in builtins.range(k)], False
        if isinstance(i, (list, tuple, np.ndarray, UList)):
            return [self._chk(j, n) for j in builtins.list(i)], False
        return [self._chk(i, n)], True

    def _chk(self, i, n):
        if isinstance(i, R):
            raise IndexError('only integers are valid indices')
        z = Z.lift(i)
        if z is None:
            raise Unsupported('matrix index %r' % (i,))
        z = z.norm()
        # numpy: -n <= i < n
        c = C()
        if not z.t and z.c < 0:
            c.prove('index of %s within bounds' % self.name, c_ge(n + z.c))
            return Z.lift(n + z.c)
        ok = c.zdecide(SymBool('Z', z, '>=')) if z.t else z.c >= 0
        hi = n - z
        ok2 = c.zdecide(SymBool('Z', Z.lift(hi), '>')) if isinstance(hi, Z) else hi > 0
        c.oblig('index of %s within bounds' % self.name, ok is True and ok2 is True, 'z3-LIA', repr(z))
        return z

    def _key(self, key):
        if isinstance(key, Ix):
            r, _ = self._idx(key.r, self.nr)
            cc, _ = self._idx(key.c, self.nc)
            return [[(a, b) for b in cc] for a in r], 'block'
        if not isinstance(key, tuple):
            raise Unsupported('row access of a stiffness matrix')
        i, j = key
        fancy = isinstance(i, (list, tuple, np.ndarray)) and isinstance(j, (list, tuple, np.ndarray))
        if fancy:
            ia = np.asarray(i, dtype=object)
            ja = np.asarray(j, dtype=object)
            ia, ja = np.broadcast_arrays(ia, ja)
            if ia.ndim == 2:
                return [[(self._chk(ia[a, b], self.nr), self._chk(ja[a, b], self.nc)) for b in builtins.range(ia.shape[1])] for a in builtins.range(ia.shape[0])], 'block'
            return [[(self._chk(a, self.nr), self._chk(b, self.nc)) for a, b in builtins.zip(ia, ja)]], 'row'
        r, s1 = self._idx(i, self.nr)
        cc, s2 = self._idx(j, self.nc)
        if s1 and s2:
            return [[(r[0], cc[0])]], 'scalar'
        kind = 'block' if not s1 and not s2 else 'row' if s1 else 'col'
        return [[(a, b) for b in cc] for a in r], kind

    def __getitem__(self, key):
        if isinstance(key, slice) and key == slice(None):
            return self
        return MElem(self, key, None)

    def add(self, a, b, v):
        k = (a.key(), b.key())
        o = self.incs.get(k)
        v = R.lift(v)
        if v is None:
            raise Unsupported('value added to a matrix is not a number')
        self.incs[k] = (a, b, v if o is None else o[2] + v)

    def __setitem__(self, key, val):
        if isinstance(val, SymMatrix) and isinstance(key, slice) and key == slice(None) and val is self:
            return
        if not isinstance(val, MElem) or val.m is not self:
            if isinstance(key, slice):
                raise Breach(('C12',) if not self.zero else ('C09', 'C11'), 'contract/terms are added: contents of a stiffness matrix are overwritten')
            ks, _ = self._key(key)
            # writing zero into fresh rows etc. is an overwrite as well
            raise Breach(('C12',) if not self.zero else ('C09', 'C11'), 'contract/terms are added: an entry of a stiffness matrix is overwritten instead of added to')
        if not samekey(val.key, key):
            raise Breach(('C12',) if not self.zero else ('C09', 'C11'), 'contract/terms are added: an entry of a stiffness matrix is overwritten by another entry')
        if val.inc is None:
            return
        self.addblock(key, val.inc, dup=False)

    def addblock(self, key, inc, dup):
        ks, kind = self._key(key)
        inc = np.asarray(inc, dtype=object) if not isinstance(inc, np.ndarray) else inc
        nr, nc = len(ks), len(ks[0])
        if kind == 'scalar':
            if inc.ndim:
                if inc.size != 1:
                    raise ValueError('setting an array element with a sequence')
            inc = np.array(inc.reshape(1, 1), dtype=object)
        elif kind == 'row':
            inc = np.broadcast_to(inc, (nc,)).reshape(1, nc)
        elif kind == 'col':
            inc = np.broadcast_to(inc, (nr,)).reshape(nr, 1)
        else:
            inc = np.broadcast_to(inc, (nr, nc))
        if not dup:
            # fancy assignment with repeated positions keeps only the last
            seen = []
            for row in ks:
                for a, b in row:
                    kk = (a.key(), b.key())
                    if kk in seen and kind != 'scalar':
                        raise Unsupported('repeated positions in one indexed addition')
                    seen.append(kk)
        for a in builtins.range(nr):
            for b in builtins.range(nc):
                self.add(ks[a][b][0], ks[a][b][1], inc[a, b])

    def __iadd__(self, o):
        if isinstance(o, SymMatrix) and o.zero:
            for a, b, v in builtins.list(o.incs.values()):
                self.add(a, b, v)
            return self
        raise Unsupported('addition to a whole stiffness matrix')

    def __isub__(self, o):
        if isinstance(o, SymMatrix) and o.zero:
            for a, b, v in builtins.list(o.incs.values()):
                self.add(a, b, -v)
            return self
        raise Unsupported('addition to a whole stiffness matrix')

    def _comb(self, o, sgn):
        if not isinstance(o, SymMatrix) or not (self.zero or o.zero):
            raise Unsupported('operation on a whole stiffness matrix')
        m = SymMatrix(self.nr, self.nc, self.name, self.zero and o.zero)
        m.of = (self, o)
        for a, b, v in builtins.list(self.incs.values()):
            m.add(a, b, v)
        for a, b, v in builtins.list(o.incs.values()):
            m.add(a, b, v*sgn)
        return m

    def __add__(self, o):
        return self._comb(o, 1)

    @property
    def T(self):
        m = SymMatrix(self.nc, self.nr, self.name, self.zero)
        if not self.zero:
            raise Unsupported('transpose of the given matrix')
        for a, b, v in self.incs.values():
            m.add(b, a, v)
        return m

    def __mul__(self, s):
        if not self.zero:
            raise Unsupported('scaling of the given matrix')
        m = SymMatrix(self.nr, self.nc, self.name, True)
        for a, b, v in self.incs.values():
            m.add(a, b, v*s)
        return m

    __rmul__ = __mul__

    def __truediv__(self, s):
        return self*(const(1)/s)

    def copy(self):
        m = SymMatrix(self.nr, self.nc, self.name + ' (copy)', self.zero)
        for a, b, v in self.incs.values():
            m.add(a, b, v)
        return m

    def __iter__(self):
        raise Unsupported('iteration over a stiffness matrix')

    def __len__(self):
        raise Unsupported('len')

    def __bool__(self):
        raise ValueError('truth value of an array is ambiguous')

    def __eq__(self, o):
        raise Unsupported('comparison of whole matrices')

    def __hash__(self):
        return id(self)


def c_ge(x):
    return x >= 0


def samekey(a, b):
    if a is b:
        return True
    if isinstance(a, Ix) and isinstance(b, Ix):
        return samekey((a.r, a.c), (b.r, b.c))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(samekey(x, y) for x, y in builtins.zip(a, b))
    if isinstance(a, slice) and isinstance(b, slice):
        return samekey(a.start, b.start) and samekey(a.stop, b.stop) and samekey(a.step, b.step)
    if isinstance(a, (list, np.ndarray)) and isinstance(b, (list, np.ndarray)):
        a, b = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
        return len(a) == len(b) and all(samekey(x, y) for x, y in builtins.zip(a, b))
    za, zb = Z.lift(a) if a is not None else None, Z.lift(b) if b is not None else None
    if za is None or zb is None:
        return a is b
    return za.key() == zb.key()


class Ix:
    def __init__(self, r, c):
        self.r, self.c = r, c


class SymVec:
    """Given vector of unknown length: d[k] is the variable d_k"""
    __array_priority__ = 3000
    ndim = 1

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.touched = False

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __sizeZ__(self):
        return self.n

    def at(self, z):
        z = Z.lift(z).norm()
        return alg.var('%s[%s]' % (self.name, zstr(z)))

    def _chk(self, z):
        z = Z.lift(z)
        if z is None:
            raise Unsupported('vector index')
        z = z.norm()
        c = C()
        if not z.t and z.c < 0:
            z = Z.lift(self.n + z.c)
        ok = c.zdecide(SymBool('Z', z, '>=')) if z.t else z.c >= 0
        hi = self.n - z
        ok2 = c.zdecide(SymBool('Z', Z.lift(hi), '>')) if isinstance(hi, Z) else hi > 0
        c.oblig('index of %s within bounds' % self.name, ok is True and ok2 is True, 'z3-LIA', repr(z))
        return z

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self
            if i.step not in (None, 1) or i.stop is None:
                raise Unsupported('strided or open slice of a vector of unknown length')
            lo = 0 if i.start is None else i.start
            k = i.stop - lo
            if not isinstance(k, int):
                raise Unsupported('slice of unknown length')
            return objarr([self.at(self._chk(lo + j)) for j in builtins.range(k)])
        if isinstance(i, (list, np.ndarray)):
            a = np.asarray(i, dtype=object)
            out = np.empty(a.shape, dtype=object)
            for k, z in np.ndenumerate(a):
                out[k] = self.at(self._chk(z))
            return out
        return self.at(self._chk(i))

    def __setitem__(self, i, v):
        self.touched = True
        raise Breach(('C11', 'C17'), 'frame/the displacement vector is unchanged: the given vector %s is modified' % self.name)

    __iadd__ = __isub__ = __imul__ = __setitem__

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        if len(shape) == 2 and isinstance(shape[1], int):
            return SymVec2(self, shape[1])
        raise Unsupported('reshape of a vector of unknown length')

    def copy(self):
        return SymVec(self.name, self.n)

    def ravel(self):
        return self
    flatten = ravel

    def astype(self, dtype, *a, **k):
        plain(dtype)
        return self

    def __iter__(self):
        raise Unsupported('iteration over a vector of unknown length')

    def __len__(self):
        raise Unsupported('len')


class SymVec2:
    def __init__(self, v, k):
        self.v, self.k = v, k

    def __getitem__(self, i):
        if isinstance(i, tuple):
            a, b = i
            if isinstance(b, int) and isinstance(a, (Z, int)):
                return self.v[a*self.k + b]
            r = self[a]
            return r[b] if r.ndim == 1 else r[:, b]
        if isinstance(i, (Z, int)):
            return self.v[i*self.k:i*self.k + self.k]
        if isinstance(i, (list, np.ndarray)):
            return np.array([[self.v[j*self.k + c] for c in builtins.range(self.k)] for j in i], dtype=object)
        raise Unsupported('index of a reshaped vector')


def zstr(z):
    s = '+'.join('%d*%s' % (e, a) if e != 1 else a for a, e in sorted(z.t.items()))
    return s + ('%+d' % z.c if z.c or not s else '')


# -- numpy ---------------------------------------------------------------------
class SArr(np.ndarray):
    """object array that notices writes across symbolic loops"""

    def __array_finalize__(self, obj):
        b = getattr(obj, '_birth', None)
        self._birth = birth() if b is None or obj is None else (b if self.base is obj or self.base is getattr(obj, 'base', 0) else birth())

    def __setitem__(self, k, v):
        check_write(getattr(self, '_birth', ()), 'array')
        k = _ck(k)
        if isinstance(v, (list, tuple, UList)):
            v = arr(v)
        elif not isinstance(v, (np.ndarray, Z, Poison)):
            lv = R.lift(v)
            v = v if lv is None else lv
        super().__setitem__(k, v)

    def __getitem__(self, k):
        return super().__getitem__(_ck(k))

    def astype(self, dtype, *a, **k):
        if self.dtype == object and isfloat_dtype(dtype):
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def _inpl(name):
        def f(self, o):
            check_write(getattr(self, '_birth', ()), 'array')
            return getattr(np.ndarray, name)(self, o)
        return f
    __iadd__ = _inpl('__iadd__')
    __isub__ = _inpl('__isub__')
    __imul__ = _inpl('__imul__')
    __itruediv__ = _inpl('__itruediv__')


def _ck(k):
    if isinstance(k, Z):
        return k.__index__()
    if isinstance(k, tuple):
        return tuple(_ck(x) for x in k)
    return k


def objarr(x):
    a = np.array(x, dtype=object)
    return wrap(a)


def wrap(a):
    b = a.view(SArr)
    b._birth = birth()
    return b


def liftall(a):
    out = np.empty(a.shape, dtype=object)
    for k, v in np.ndenumerate(a):
        if isinstance(v, (Z, Poison, Opaque, MElem)):
            out[k] = v
        else:
            r = R.lift(v)
            out[k] = v if r is None else r
    return wrap(out)


def nested(x):
    """plain nested lists of a python sequence"""
    if isinstance(x, UList):
        x = x.fixed()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        if isinstance(x, SList) and x._fam:
            raise Unsupported('array of a per-element list')
        return [nested(y) for y in builtins.list(x)]
    if isinstance(x, SSet):
        return [nested(y) for y in x]
    return x


def isfloat_dtype(dt):
    if dt is None:
        return False
    if dt is float_ or dt is float:
        return True
    try:
        return np.dtype(dt) in (np.dtype('float64'), np.dtype('longdouble'))
    except TypeError:
        return False


def plain(dt, ints=False):
    """only types that hold the values of the real numbers involved"""
    if dt is None or isfloat_dtype(dt) or dt is object:
        return
    try:
        k = np.dtype(dt).kind
    except TypeError:
        k = '?'
    if not (ints and k in 'iu') and k != 'O':
        raise Unsupported('array of type %s' % (dt,))


def arr(x, dtype=None, copy=True):
    if isinstance(x, (bigop.Seq, bigop.Seq2, bigop.Seq3, SymFam, SymMatrix, SymVec)):
        plain(dtype)
    if isinstance(x, (bigop.Seq, bigop.Seq2, bigop.Seq3)):
        return x
    if isinstance(x, SymFam):
        return SymFam(x.base, x.reps)
    if isinstance(x, SList) and x._fam:
        return x.fam()
    if isinstance(x, (SymMatrix, SymVec)):
        if copy:
            return x.copy()
        return x
    if isinstance(x, SymRange):
        return x
    if isinstance(x, np.ndarray) and x.dtype != object:
        if isfloat_dtype(dtype) or x.dtype.kind == 'f':
            return liftall(x)
        return np.array(x)
    y = nested(x)
    flat_ = builtins.list(_leaves(y))
    if dtype is not None and any(isinstance(v, R) for v in flat_):
        plain(dtype, True)
    if flat_ and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in flat_) and not isfloat_dtype(dtype):
        return np.array(y)
    if dtype is not None and np.dtype(object if dtype in (float_,) else dtype).kind in 'iu':
        a = np.array(y, dtype=object)
        if all(isinstance(v, R) and v.isconst() for v in a.ravel()):
            return np.array([int(v.cval()) for v in a.ravel()]).reshape(a.shape)
        if any(isinstance(v, R) for v in a.ravel()):
            raise Unsupported('truncation of symbolic values to integers')
        return a
    if any(isinstance(v, (str, bytes)) for v in flat_):
        return np.array(y)
    a = np.array(y, dtype=object)
    return liftall(a)


def _leaves(y):
    if isinstance(y, np.ndarray):
        for v in y.ravel():
            yield v
    elif isinstance(y, list):
        for v in y:
            yield from _leaves(v)
    else:
        yield y


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(s)
    return (s,)


def zeros(shape, dtype=None, **k):
    s = _shape(shape)
    if any(isinstance(x, Z) for x in s):
        if len(s) == 2:
            plain(dtype)
            return SymMatrix(s[0], s[1], 'matrix', True)
        raise Unsupported('array of unknown length')
    if dtype is not None and dtype is not float_ and np.dtype(dtype).kind in 'iu':
        return np.zeros(s, dtype=int)
    if dtype is not None and not isfloat_dtype(dtype) and np.dtype(dtype).kind != 'O':
        return np.zeros(s, dtype=dtype) if np.dtype(dtype).kind in 'bUS' else plain(dtype)
    a = np.empty(s, dtype=object)
    a.fill(const(0))
    return wrap(a)


def ones(shape, dtype=None, **k):
    a = zeros(shape, dtype)
    return a + 1


def full(shape, v, dtype=None, **k):
    plain(dtype)
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool) and dtype is None:
        return np.full(_shape(shape), v)
    a = zeros(shape, None)
    a[...] = v
    return a


def empty(shape, dtype=None, **k):
    plain(dtype)
    s = _shape(shape)
    if any(isinstance(x, Z) for x in s):
        raise Unsupported('uninitialised matrix')
    a = np.empty(s, dtype=object)
    a.fill(Poison('uninitialised array entry'))
    return wrap(a)


def zeros_like(x, dtype=None, **k):
    if isinstance(x, bigop.QArr):
        if not isfloat_dtype(dtype):
            raise Unsupported('array of the type of the query points')
        return bigop.QArr(const(0))
    if isinstance(x, SymMatrix):
        plain(dtype)
        return SymMatrix(x.nr, x.nc, 'matrix', True)
    if dtype is None and isinstance(x, np.ndarray) and x.dtype.kind in 'iub':
        return np.zeros_like(x)
    return zeros(np.shape(x), dtype)


def ones_like(x, dtype=None, **k):
    if isinstance(x, bigop.QArr):
        if not isfloat_dtype(dtype):
            raise Unsupported('array of the type of the query points')
        return bigop.QArr(const(1))
    if isinstance(x, (SymMatrix, SymVec, SymFam)):
        raise Unsupported('np.ones_like')
    return ones(np.shape(x), dtype)


def cross(a, b, axis=-1, **k):
    a, b = arr(a), arr(b)
    if a.ndim != 1 or b.ndim != 1:
        if a.ndim == 2 and b.ndim in (1, 2):
            return objarr([cross(x, b[i] if b.ndim == 2 else b) for i, x in builtins.enumerate(a)])
        if b.ndim == 2:
            return objarr([cross(a, y) for y in b])
        raise Unsupported('cross product of higher arrays')
    if len(a) == 2 and len(b) == 2:
        return a[0]*b[1] - a[1]*b[0]
    a = builtins.list(a) + [const(0)]*(3 - len(a))
    b = builtins.list(b) + [const(0)]*(3 - len(b))
    return objarr([R.lift(v) for v in (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])])


def norm(x, ord=None, axis=None, **k):
    if isinstance(x, SymFam):
        return x.map(lambda v: Opaque('norm'))
    if ord not in (None, 2):
        raise Unsupported('norm of order %r' % ord)
    x = arr(x)
    if axis is not None and x.ndim > 1:
        return np.apply_along_axis(lambda v: norm(v), axis, x)
    v = [R.lift(c) for c in x.ravel()]
    v = [c for c in v if c.t]
    if not v:
        return const(0)
    if len(v) == 1:
        return alg.absval(v[0])
    s = v[0]*v[0]
    for c in v[1:]:
        s = s + c*c
    return alg.sqrt(s)


def sqrt(x, **k):
    if isinstance(x, (SymFam,)):
        return x.map(sqrt)
    if isinstance(x, Opaque):
        return x
    if isinstance(x, np.ndarray) and x.ndim:
        return wrap(np.vectorize(lambda v: alg.sqrt(R.lift(v)), otypes=[object])(x))
    if isinstance(x, (list, tuple)):
        return sqrt(arr(x))
    return alg.sqrt(R.lift(x))


def dot(a, b, **k):
    if isinstance(a, bigop.Seq) or isinstance(b, bigop.Seq):
        return (a*b).sum()
    if isinstance(a, SymMatrix) or isinstance(b, SymMatrix):
        raise Unsupported('product with a stiffness matrix')
    a, b = arr(a), arr(b)
    r = np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return wrap(r) if isinstance(r, np.ndarray) and r.ndim else (r.item() if isinstance(r, np.ndarray) else r)


def amax(x, axis=None, **k):
    if isinstance(x, SymFam):
        return x.max(axis=axis)
    if axis is not None:
        x = arr(x)
        return objarr([max_(builtins.list(c)) for c in (x.T if axis in (0, -2) and x.ndim == 2 else x)])
    return max_(builtins.list(_leaves(nested(raw(x)))))


def amin(x, axis=None, **k):
    if isinstance(x, SymFam):
        return x.min(axis=axis)
    if axis is not None:
        x = arr(x)
        return objarr([min_(builtins.list(c)) for c in (x.T if axis in (0, -2) and x.ndim == 2 else x)])
    return min_(builtins.list(_leaves(nested(raw(x)))))


def npsum(x, axis=None, **k):
    if isinstance(x, SymFam):
        return x.sum(axis=axis)
    if isinstance(x, bigop.Seq):
        return x.sum()
    if isinstance(x, Opaque):
        return x
    if isinstance(x, (UList, SSet)):
        x = raw(x)
    x = arr(x)
    return x.sum(axis=axis) if axis is not None else x.sum()


def npmean(x, axis=None, **k):
    if isinstance(x, (SymFam, Opaque)):
        return x.mean(axis=axis) if isinstance(x, SymFam) else x
    if isinstance(x, (UPos,)):
        return x.mean(axis=axis)
    if isinstance(x, UList) and axis in (None, 0):
        x = raw(x)
    x = arr(x)
    return x.mean(axis=axis)


class UPos:
    """node positions of an element in the (undecided) order of its nodes"""
    __array_priority__ = 2500

    def __init__(self, u, f):
        self.u, self.f = u, f

    def _arr(self):
        return objarr([self.f(n) for n in self.u.fixed()])

    def _rawarr(self):
        return objarr([self.f(n) for n in self.u.raw()])

    def mean(self, axis=None, **k):
        if axis == 0:
            return self._rawarr().mean(axis=0)
        return self._arr().mean(axis=axis)

    def sum(self, axis=None, **k):
        if axis == 0:
            return self._rawarr().sum(axis=0)
        return self._arr().sum(axis=axis)

    def __getattr__(self, n):
        return getattr(self._arr(), n)

    def __getitem__(self, i):
        return self._arr()[i]

    def __iter__(self):
        return iter(self._arr())

    def __len__(self):
        return len(self.u)

    def __array__(self, *a, **k):
        return self._arr()

    def __add__(self, o):
        return self._arr() + o

    def __sub__(self, o):
        return self._arr() - o


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, bigop.QArr):
        return asarray(x, dtype) if not copy else asarray(x, dtype).copy()
    if isinstance(x, UPos):
        return x._arr()
    return arr(x, dtype, True)


def asarray(x, dtype=None, **k):
    if isinstance(x, bigop.QArr):
        if dtype is not None and not isfloat_dtype(dtype):
            raise Unsupported('conversion of the query points')
        return x if dtype is None or x.real else bigop.QArr(x.v)
    if isinstance(x, (np.ndarray, SymMatrix, SymVec)) and (dtype is None or isfloat_dtype(dtype) and getattr(x, 'dtype', None) in (object, None)):
        return x
    return array(x, dtype)


def arange(*a, **k):
    a = [x for x in a]
    if any(isinstance(x, Z) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    if any(isinstance(x, R) for x in a):
        raise Unsupported('arange of reals')
    return np.arange(*a)


def argsort(x, *a, **k):
    if isinstance(x, (SymFam, SymRange)):
        return x.argsort()
    y = builtins.list(arr(x))
    return np.array(sorted_(builtins.list(builtins.range(len(y))), key=lambda i: y[i]))


def add_at(m, key, v):
    if isinstance(m, SymMatrix):
        m.addblock(key, v, dup=True)
        return
    if isinstance(m, np.ndarray):
        np.add.at(m, key, v)
        return
    raise Unsupported('np.add.at')


class _Add:
    at = staticmethod(add_at)

    def __call__(self, a, b, **k):
        return a + b

    def reduce(self, x, **k):
        return npsum(x, **k)

    outer = staticmethod(lambda a, b: wrap(np.add.outer(np.asarray(a, dtype=object), np.asarray(b, dtype=object))))


def ix_(a, b):
    return Ix(builtins.list(a), builtins.list(b))


def roll(x, k, axis=None):
    if isinstance(x, bigop.Seq):
        return x.roll(k)
    return np.roll(arr(x), k, axis=axis)


def nplen0(x):
    return np.shape(x)


def unique(x, *a, **k):
    return arr(sorted_(SSet(builtins.list(x))))


def det(m):
    m = arr(m)
    if m.shape == (2, 2):
        return m[0, 0]*m[1, 1] - m[0, 1]*m[1, 0]
    if m.shape == (3, 3):
        return (m[0, 0]*(m[1, 1]*m[2, 2] - m[1, 2]*m[2, 1]) - m[0, 1]*(m[1, 0]*m[2, 2] - m[1, 2]*m[2, 0])
                + m[0, 2]*(m[1, 0]*m[2, 1] - m[1, 1]*m[2, 0]))
    raise Unsupported('determinant')


def inv(m):
    m = arr(m)
    if m.shape == (2, 2):
        d = det(m)
        return objarr([[m[1, 1]/d, -m[0, 1]/d], [-m[1, 0]/d, m[0, 0]/d]])
    if m.shape == (3, 3):
        d = det(m)
        cof = np.empty((3, 3), dtype=object)
        for i in builtins.range(3):
            for j in builtins.range(3):
                r = [k for k in builtins.range(3) if k != i]
                c = [k for k in builtins.range(3) if k != j]
                s = m[r[0], c[0]]*m[r[1], c[1]] - m[r[0], c[1]]*m[r[1], c[0]]
                cof[j, i] = (s if (i + j) % 2 == 0 else -s)/d
        return wrap(cof)
    raise Unsupported('matrix inverse')


def where(c, *ab):
    if not ab:
        raise Unsupported('np.where with one argument')
    a, b = ab
    if isinstance(c, np.ndarray):
        ca, a_, b_ = np.broadcast_arrays(c, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(ca.shape, dtype=object)
        for k, v in np.ndenumerate(ca):
            out[k] = a_[k] if bool(v) else b_[k]
        return wrap(out)
    return a if bool(c) else b


def sign(x):
    if isinstance(x, np.ndarray) and x.ndim:
        return wrap(np.vectorize(sign, otypes=[object])(x))
    return const(1) if bool(x > 0) else const(-1) if bool(x < 0) else const(0)


def copysign(a, b):
    return abs(a) if bool(b >= 0) else -abs(a)


def npabs(x):
    if isinstance(x, np.ndarray) and x.ndim:
        return wrap(np.vectorize(lambda v: abs(v), otypes=[object])(x))
    return abs(x)


def prod(x, axis=None, **k):
    x = arr(x)
    if axis is None:
        r = const(1)
        for v in x.ravel():
            r = r*v
        return r
    return np.prod(x, axis=axis)


def outer(a, b, **k):
    return wrap(np.multiply.outer(np.asarray(arr(a), dtype=object).ravel(), np.asarray(arr(b), dtype=object).ravel()))


def einsum(spec, *ops, **k):
    ops = [np.asarray(arr(o), dtype=object) for o in ops]
    ins, _, out = spec.replace(' ', '').partition('->')
    ins = ins.split(',')
    dims = {}
    for s, o in builtins.zip(ins, ops):
        for c, n in builtins.zip(s, o.shape):
            dims[c] = n
    if not _:
        out = ''.join(sorted(c for c in dims if spec.count(c) == 1))
    rest = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in itertools.product(*[builtins.range(dims[c]) for c in out]):
        e = dict(builtins.zip(out, oi))
        s = const(0)
        for ri in itertools.product(*[builtins.range(dims[c]) for c in rest]):
            e.update(builtins.zip(rest, ri))
            t = const(1)
            for sp, o in builtins.zip(ins, ops):
                t = t*o[tuple(e[c] for c in sp)]
            s = s + t
        res[oi] = s
    return wrap(res) if res.ndim else res.item()


def isclose(a, b, *r, **k):
    raise Unsupported('comparison with a tolerance')


def npround(*a, **k):
    raise Unsupported('rounding')


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(det)
    inv = staticmethod(inv)

    def __getattr__(self, n):
        raise Unsupported('np.linalg.%s' % n)


def _nameof(n):
    return n


class NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__.update(dict(
            array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray,
            asfarray=lambda x, **k: array(x, float),
            zeros=zeros, ones=ones, full=full, ones_like=ones_like, empty=empty, zeros_like=zeros_like,
            cross=cross, dot=dot, matmul=dot, inner=dot, vdot=dot, sqrt=sqrt, linalg=_Linalg(),
            max=amax, amax=amax, min=amin, amin=amin, sum=npsum, mean=npmean, average=npmean,
            arange=arange, argsort=argsort, add=_Add(), ix_=ix_, roll=roll, unique=unique,
            where=where, sign=sign, abs=npabs, absolute=npabs, fabs=npabs, prod=prod, product=prod,
            outer=outer, einsum=einsum, isclose=isclose, allclose=isclose, round=npround, around=npround,
            copysign=copysign, sort=lambda x, **k: arr(sorted_(x)),
            copy=lambda x, **k: x.copy(), square=lambda x: x*x, power=lambda x, n: x**n,
            maximum=lambda a, b: elementwise(max_, a, b), minimum=lambda a, b: elementwise(min_, a, b),
            hypot=lambda a, b: sqrt(a*a + b*b), multiply=lambda a, b: a*b, divide=lambda a, b: div_(a, b),
            true_divide=lambda a, b: div_(a, b), subtract=lambda a, b: a - b, negative=lambda a: -a,
            array_equal=lambda a, b: np.shape(a) == np.shape(b) and all(bool(x == y) for x, y in builtins.zip(arr(a).ravel(), arr(b).ravel())),
            copyto=self._copyto, lexsort=lambda keys, axis=-1: keys[-1].argsort() if isinstance(keys[-1], SymFam) else self._bad('lexsort'),
            ndim=lambda x: x.ndim if hasattr(x, 'ndim') else np.ndim(x),
            shape=lambda x: x.shape if hasattr(x, 'shape') else np.shape(x),
            size=lambda x: x.size if hasattr(x, 'size') else np.size(x),
            float64=float_, float_=float_, double=float_, float32=np.float32,
            isnan=lambda x: False, isfinite=lambda x: True,
            cos=self._t('cos'), sin=self._t('sin'), arctan2=self._t('arctan2'), tan=self._t('tan'), arccos=self._t('arccos'),
            random=self._t('random'), ndarray=np.ndarray, eye=lambda n, *a, **k: liftall(np.eye(n, *a)), identity=lambda n, **k: liftall(np.eye(n)),
        ))

    @staticmethod
    def _copyto(a, b):
        a[...] = b

    @staticmethod
    def _bad(n):
        raise Unsupported('np.%s' % n)

    @staticmethod
    def _t(n):
        def f(*a, **k):
            raise Unsupported('np.%s' % n)
        return f

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(np, n)
        if not callable(v) or isinstance(v, type):
            return v

        def f(*a, **k):
            a = [nested(x) if isinstance(x, (UList, SSet)) else x for x in a]
            for x in a:
                if isinstance(x, (SymFam, SymMatrix, SymVec, SymRange, bigop.Seq, bigop.QArr)):
                    raise Unsupported('np.%s of a symbolic collection' % n)
            r = v(*a, **k)
            if isinstance(r, np.ndarray):
                return liftall(r) if r.dtype.kind == 'f' else (wrap(r) if r.dtype == object else r)
            return r
        return f


def elementwise(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(a.shape, dtype=object)
        for k, v in np.ndenumerate(a):
            out[k] = f(v, b[k])
        return wrap(out)
    return f(a, b)


# -- builtins --------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, R))


class float_(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            return const(Fraction(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        r = R.lift(x)
        if r is None:
            return builtins.float(x)
        return r


def len_(x):
    f = getattr(x, '__sizeZ__', None)
    if f is not None and not (isinstance(x, SList)):
        return f()
    if isinstance(x, SList) and x._fam:
        return x.fam().N
    return len(x)


def range_(*a):
    a = [x.__index__() if isinstance(x, Z) and not x.norm().t else x for x in a]
    if any(isinstance(x, Z) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return builtins.range(*a)


def enumerate_(x, start=0):
    if issym(x):
        return Enum(x, start)
    return builtins.enumerate(x, start)


def zip_(*xs, **k):
    if any(issym(x) for x in xs):
        return Zip(xs)
    return builtins.zip(*xs)


def list_(x=()):
    if isinstance(x, UList):
        return UList(x._items, x._tok)
    if isinstance(x, SSet):
        return UList(x._it)
    if issym(x):
        if isinstance(x, bigop.Seq):
            return x
        f = flat(x)
        if isinstance(f, SymFam):
            return SymFam(f.base, f.reps)
        raise Unsupported('list of a sequence of unknown length')
    return SList(x)


def tuple_(x=()):
    if issym(x) or isinstance(x, (UList, SSet)):
        r = list_(x)
        if isinstance(r, (UList,)):
            return tuple(r.fixed())
        return r
    return tuple(x)


def set_(x=()):
    if issym(x):
        return Opaque('set of %s' % flat(x).base.name)
    return SSet(x)


def sorted_(x, key=None, reverse=False):
    f = None
    if issym(x):
        f = flat(x)
        return f.argsort().apply(f)
    xs = raw(x)
    ks = [key(v) if key else v for v in xs]
    out = []
    for v, k in builtins.zip(xs, ks):
        i = len(out)
        while i > 0 and bool(lt(k, out[i-1][1])):
            i -= 1
        out.insert(i, (v, k))
    r = [v for v, k in out]
    if reverse:
        r.reverse()
    return SList(r)


def lt(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        for x, y in builtins.zip(a, b):
            if bool(lt(x, y)):
                return True
            if bool(lt(y, x)):
                return False
        return len(a) < len(b)
    return a < b


def maxatom(vals, sgn):
    """max of reals (sgn = 1) or min (sgn = -1) as a canonical atom"""
    vs = []
    for v in vals:
        v = R.lift(v)
        if v is None:
            raise Unsupported('max of non-numbers')
        if sgn < 0:
            v = -v
        # flatten max(max(..), ..)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]].kind == 'max':
                vs += [R(dict(t)) for t in alg.ATOMS[m[0][0]].extra]
                continue
        vs.append(v)
    vs = undominated(vs)
    if len(vs) == 1:
        return vs[0] if sgn > 0 else -vs[0]
    # max of square roots: root of the max
    sq = []
    for v in vs:
        if len(v.t) != 1:
            sq = None
            break
        (m, cc), = v.t.items()
        if cc <= 0 or any(alg.ATOMS[i].kind != 'sqrt' or e != 1 for i, e in m):
            sq = None
            break
        t = {(): cc*cc}
        for i, e in m:
            t = alg.pmul(t, alg.ATOMS[i].defn)
        sq.append(R(t))
    if sq is not None and sgn > 0:
        return alg.sqrt(_max(undominated(sq)))
    r = _max(vs)
    return r if sgn > 0 else -r


def undominated(vs):
    flat = []
    for v in vs:
        # flatten max(max(..), ..)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]].kind == 'max':
                flat += [R(dict(t))*c for t in alg.ATOMS[m[0][0]].extra]
                continue
        flat.append(v)
    vs = flat
    out = []
    for v in vs:
        if any(not (v - w).t for w in out):
            continue
        out.append(v)
    c = C()
    keep = []
    for i, v in builtins.enumerate(out):
        dom = False
        for j, w in builtins.enumerate(out):
            if i != j and len((w - v).t) <= 6 and c.sign(w - v) in ('+', '0+', '0') and not (c.sign(w - v) in ('0', '0+') and c.sign(v - w) in ('0', '0+') and i < j):
                dom = True
                break
        if not dom:
            keep.append(v)
    return keep or out[:1]


def _max(vs):
    if len(vs) == 1:
        return vs[0]
    pos = any(C().sign(v) == '+' for v in vs)
    k = ('max', frozenset(alg.pkey(v.t) for v in vs))
    a = alg._INTERN.get(k)
    if a is None:
        a = alg.new_atom('M%d' % len(alg.ATOMS), 'max', sign='+' if pos else None,
                         extra=tuple(v.t for v in vs))
        alg._INTERN[k] = a
    return R({((a.id, 1),): Fraction(1)})


def max_(*a, **k):
    return _mm(a, k, 1)


def min_(*a, **k):
    return _mm(a, k, -1)


def _mm(a, k, sgn):
    key = k.get('key')
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SymFam,)) or issym(x):
            return Opaque('extremum')
        if isinstance(x, np.ndarray):
            x = builtins.list(x.ravel())
        a = raw(x)
    if not a:
        if 'default' in k:
            return k['default']
        raise ValueError('max() arg is an empty sequence')
    if key is not None:
        best = a[0]
        for v in a[1:]:
            if bool(key(v) > key(best)) if sgn > 0 else bool(key(v) < key(best)):
                best = v
        return best
    if all(isinstance(v, int) for v in a):
        return builtins.max(a) if sgn > 0 else builtins.min(a)
    if any(isinstance(v, Z) for v in a):
        best = a[0]
        for v in a[1:]:
            if bool(v > best) if sgn > 0 else bool(v < best):
                best = v
        return best
    return maxatom(a, sgn)


def sum_(x, start=0):
    if issym(x) and isinstance(x, bigop.Seq):
        return x.sum() + start
    if issym(x):
        return Opaque('sum')
    s = start
    for v in raw(x):
        s = s + v
    return s


def _anyall(x, isany):
    if issym(x):
        f = flat(x)
        c = C()
        vals = [v for v, p, k in f.reps]
        if any(isinstance(v, SymBool) for v in vals) or not f.reps:
            raise Unsupported('any()/all() over a collection of unknown size')
        r = any(vals) if isany else all(vals)
        if bool(r) == isany and len(vals) > 0 and not all(bool(v) == isany for v in vals):
            return r
        return r
    for v in raw(x):
        if bool(v) == isany:
            return isany
    return not isany


def any_(x):
    return _anyall(x, True)


def all_(x):
    return _anyall(x, False)


def map_(f, *xs):
    if len(xs) == 1 and (issym(xs[0]) or isinstance(xs[0], (UList, SSet))):
        return comp_('list', xs[0], [f(v) for v in citer_(xs[0])], False)
    return SList([f(*v) for v in builtins.zip(*xs)])


def reversed_(x):
    if issym(x):
        raise Unsupported('reversed collection of unknown size')
    return builtins.reversed(x.fixed() if isinstance(x, UList) else x)


def iter_(x):
    if issym(x):
        raise Unsupported('iter() of a collection of unknown size')
    return iter(x)


def div_(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        return const(Fraction(int(a), int(b)))
    if isinstance(a, np.ndarray) and a.dtype != object:
        a = liftall(a)
    if isinstance(b, np.ndarray) and b.dtype != object:
        b = liftall(b)
    return a / b


def idiv_(a, b):
    if isinstance(a, np.ndarray):
        a /= b
        return a
    if isinstance(a, bigop.QArr):
        return a.idiv(b)
    return div_(a, b)


def pow_(a, b):
    if isinstance(b, R) and b.isconst() and b.cval().denominator == 1 and not isinstance(a, np.ndarray):
        pass
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a**b
    if isinstance(a, int):
        a = const(a)
    if isinstance(a, np.ndarray) and isinstance(b, R):
        return wrap(np.vectorize(lambda v: R.lift(v)**b, otypes=[object])(a))
    return a**b


def is_(a, b):
    if b is None and isinstance(a, Poison):
        a._bad()
    if a is b or a is None or b is None:
        return a is b
    for x, y in ((a, b), (b, a)):
        if type(x).__name__ == 'Flag' and isinstance(y, bool):
            return bool(x) is y
    observed(a, b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and not (a.flags.writeable and b.flags.writeable):
        raise Unsupported('identity of two given arrays')
    return False


def in_(a, b):
    if isinstance(b, (builtins.list, builtins.tuple)) and not isinstance(b, SList):
        return any(a is y or bool(same(a, y)) for y in b)
    if isinstance(b, builtins.str):
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported('decision on a text made of symbolic values')
        return a in b
    return a in b


def lit_(c):
    return const(alg.snap(c))


def isinst_(x, t):
    if isinstance(t, tuple):
        return any(isinst_(x, y) for y in t)
    m = {list_: (list, UList), SDict: (dict, SDict, SymMap), set_: (set, SSet), tuple_: tuple,
         frozenset_: frozenset_, float_: float_, str_: builtins.str}
    try:
        t = m.get(t, t)
    except TypeError:
        pass
    if t is int:
        return isinstance(x, (int, Z))
    return isinstance(x, t)


def round_(x, n=None):
    if isinstance(x, (R, Z)):
        raise Unsupported('rounding')
    return builtins.round(x, n)


def abs_(x):
    return abs(x)


class OpaqueStr(builtins.str):
    """A text that depends on unknown values: it can be put together, printed
    and raised, but nothing can be decided from it"""

    def _bad(self, *a, **k):
        raise Unsupported('decision on a text made of symbolic values')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = _bad
    __len__ = __iter__ = __getitem__ = __contains__ = __bool__ = _bad
    for _n in ('split', 'rsplit', 'find', 'index', 'count', 'startswith', 'endswith', 'encode', 'partition', 'rpartition',
               'isdigit', 'isalpha', 'isspace', 'splitlines', 'translate', 'rfind', 'rindex'):
        locals()[_n] = _bad
    del _n

    def _same(self, *a, **k):
        return OpaqueStr('?')
    __add__ = __radd__ = __mul__ = __rmul__ = __mod__ = __rmod__ = _same
    for _n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'ljust', 'rjust', 'center', 'title', 'capitalize', 'format', 'join'):
        locals()[_n] = _same
    del _n


class _AnyText:
    def __str__(self):
        return '?'
    __repr__ = __str__

    def __format__(self, spec):
        return '?'


def _plain(x):
    """(value that can be formatted, does the text depend on nothing unknown)"""
    if x is None or type(x) in (int, builtins.float, bool, builtins.str, bytes):
        return x, True
    if isinstance(x, OpaqueStr):
        return '?', False
    if isinstance(x, R):
        return (builtins.float(x.cval()), True) if x.isconst() else (1.5, False)
    if isinstance(x, Z):
        z = x.norm()
        return (z.c, True) if not z.t else (1, False)
    if isinstance(x, SymBool):
        return True, False
    if isinstance(x, type) or isinstance(x, (types.ModuleType, types.FunctionType)):
        return x, True
    if type(x) in (tuple, builtins.list):
        ys = [_plain(y) for y in x]
        return type(x)(y for y, _ in ys), builtins.all(p for _, p in ys)
    return _AnyText(), False


def _text(f, *xs):
    ys = [_plain(x) for x in xs]
    p = builtins.all(q for _, q in ys)
    try:
        s = f(*[y for y, _ in ys])
    except (TypeError, ValueError, KeyError, IndexError, AttributeError):
        if p:
            raise
        raise Unsupported('text of symbolic values')
    return s if p else OpaqueStr(s)


def mod_(a, b):
    if isinstance(a, (builtins.str, bytes)):
        if isinstance(a, OpaqueStr):
            return OpaqueStr('?')
        if isinstance(b, dict) or isinstance(b, SDict):
            ks = builtins.list(b)
            return _text(lambda *v: a % dict(builtins.zip(ks, v)), *[b[k] for k in ks])
        return _text(lambda y: a % y, b)
    return a % b


def fstr_(*parts):
    out, plain = '', True
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            f = {-1: lambda y: y, 115: builtins.str, 114: repr, 97: ascii}[conv]
            p = _text(lambda y, s: builtins.format(f(y), s), v, spec)
        plain = plain and not isinstance(p, OpaqueStr)
        out += builtins.str.__str__(p) if plain else '?'
    return out if plain else OpaqueStr(out)


def strm_(o, name):
    if not isinstance(o, builtins.str) or isinstance(o, OpaqueStr):
        return getattr(o, name)
    if name == 'format':
        def fmt(*a, **k):
            ks = builtins.list(k)
            return _text(lambda *v: o.format(*v[:len(a)], **dict(builtins.zip(ks, v[len(a):]))), *(a + tuple(k[x] for x in ks)))
        return fmt

    def join(it):
        xs = [y for y in it]
        return _text(lambda *v: o.join(v), *xs)
    return join


def next_(it, *d):
    """next() of a generator expression, which is evaluated here as a whole"""
    if not isinstance(it, builtins.list):
        raise Unsupported('next() of %s' % type(it).__name__)
    for x in it:
        return x
    if d:
        return d[0]
    raise StopIteration


def str_(x='', *a):
    if a:
        return builtins.str(x, *a)
    return _text(builtins.str, x)


def repr_(x):
    return _text(repr, x)


def format_(x, spec=''):
    return _text(builtins.format, x, spec)


class _TypeShim:
    """callable that also serves in isinstance()"""

    def __init__(self, f, t):
        self.f, self.t = f, t

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.t, n)


BUILTINS = dict(
    __lit__=lit_, __div__=div_, __idiv__=idiv_, __pow__=pow_, __is__=is_, __in__=in_,
    __loop__=loop_, __citer__=citer_, __comp__=comp_, __old__=old_,
    __set__=SSet, __dict__=SDict, __list__=SList, isinstance=isinst_,
    len=len_, range=range_, enumerate=enumerate_, zip=zip_, list=list_, tuple=tuple_,
    set=set_, frozenset=frozenset_, dict=SDict, sorted=sorted_, max=max_, min=min_, sum=sum_,
    any=any_, all=all_, map=map_, reversed=reversed_, iter=iter_, float=float_, round=round_,
    __next__=next_, __mod__=mod_, __fstr__=fstr_, __strm__=strm_, str=str_, repr=repr_, format=format_,
    print=lambda *a, **k: None, id=id_,
)


_NP = None


def numpy():
    global _NP
    if _NP is None:
        _NP = NP()
    return _NP


def stdlib(name):
    if name == 'collections':
        m = types.ModuleType('collections')
        m.defaultdict = defaultdict_
        m.OrderedDict = SDict
        import collections
        m.namedtuple = collections.namedtuple
        m.deque = collections.deque
        m.Counter = collections.Counter
        return m
    return None
