"""Symbolic execution of the code printers (meshless/dev/sympytools.py).

The real functions run on a matrix of unknown size with arbitrary entries.
Symbolic numbers and expressions put into a text become tokens (two private
characters around a number), so that the text the function builds is a real
string whose parts are literal text, tokens, and lines that stand for a block of
lines repeated for every entry (definition, substitution, term).

A loop over an unknown number of elements runs for one arbitrary element, once
per combination of branches inside the body; what it appends to lists becomes a
block, an integer that is only increased by numbers becomes a count, every
other local is unusable afterwards.  Everything else is Unsupported.
"""
import ast
import builtins
import re
import sys
import types

from .ctx import z3
from .alg import Unsupported
from . import load

A, Z = '\ue000', '\ue001'
TOK = re.compile(A + r'(\d+)' + Z)
I = z3.IntSort()
QUO = z3.Function('QUO', I, I, I)
REM = z3.Function('REM', I, I, I)
NZ = z3.Function('NZ', I, I, z3.BoolSort())
BANNED = 'built with a construct outside the subset: %s'


class S:
    """state of the path"""
    c = None
    n = 0

    @classmethod
    def start(cls, c):
        cls.c = c
        cls.reg = []
        cls.bykey = {}
        cls.facts = []
        cls.frames = []
        cls.lists = []
        cls.counts = {}
        cls.ins = {}
        cls.n = 0
        cls.files = []
        cls.keep = []


def fresh(p='q'):
    S.n += 1
    return z3.Int('%s!%d' % (p, S.n))


def tok(key, obj):
    k = S.bykey.get(key)
    if k is None:
        k = S.bykey[key] = len(S.reg)
        S.reg.append(obj)
    return '%s%d%s' % (A, k, Z)


def simp(e):
    return z3.simplify(e)


# -- proving -------------------------------------------------------------------

def apps(e, decl, out):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(decl):
                out[x.get_id()] = x
            todo += x.children()
    return out


def axioms(fs, pairs=()):
    q = {}
    for f in fs:
        for d in (QUO, REM):
            for x in apps(f, d, {}).values():
                q[(x.arg(0).get_id(), x.arg(1).get_id())] = (x.arg(0), x.arg(1))
    out = []
    for a, b in q.values():
        out.append(z3.Implies(b > 0, z3.And(a == b*QUO(a, b) + REM(a, b), 0 <= REM(a, b), REM(a, b) < b, z3.Implies(a >= 0, QUO(a, b) >= 0))))
        for x, y in pairs:
            out.append(z3.Implies(z3.And(b > 0, a == b*x + y, 0 <= y, y < b), z3.And(QUO(a, b) == x, REM(a, b) == y)))
    return out


def check(fs, pairs=(), ms=3000):
    """'unsat', 'sat' or 'unknown'"""
    s = z3.Solver()
    s.set('timeout', ms)
    fs = list(fs)
    for f in fs + axioms(fs, pairs):
        s.add(f)
    r = str(s.check())
    S.c._count('z3', 0.)
    S.model = s.model() if r == 'sat' else None
    return r


def context():
    return S.facts + [g for f in S.frames for g in f.guards]


def proved(goal, extra=(), pairs=()):
    return check(context() + list(extra) + [z3.Not(goal)], pairs)


def branch(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if proved(e) == 'unsat':
        return True
    if proved(z3.Not(e)) == 'unsat':
        return False
    if S.frames:
        f = S.frames[-1]
        k = len(f.log)
        ch = f.prefix[k] if k < len(f.prefix) else 0
        if k > 12:
            raise Unsupported('too many branches in a loop')
        f.log.append(ch)
        f.guards.append(e if ch == 0 else z3.Not(e))
        return ch == 0
    ch = S.c.choose(2, str(e)[:80])
    S.facts.append(e if ch == 0 else z3.Not(e))
    return ch == 0


class B:
    """symbolic truth value"""

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return branch(self.e)

    def __invert__(self):
        return B(z3.Not(self.e))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    __hash__ = None


class N:
    """symbolic integer"""

    def __init__(self, e):
        self.e = e

    @staticmethod
    def mk(e):
        e = simp(e)
        return e.as_long() if z3.is_int_value(e) else N(e)

    def _b(self, o, f):
        if isinstance(o, bool) or not isinstance(o, (int, N)):
            return NotImplemented
        return N.mk(f(self.e, zi(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a*b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b*a)

    def __neg__(self):
        return N.mk(-self.e)

    def _d(self, a, b, f):
        if proved(b > 0) != 'unsat':
            raise Unsupported('division by a number that may be zero or negative')
        return N.mk(f(a, b))

    def __floordiv__(self, o):
        return self._d(self.e, zi(o), QUO)

    def __mod__(self, o):
        return self._d(self.e, zi(o), REM)

    def __rfloordiv__(self, o):
        return self._d(zi(o), self.e, QUO)

    def __rmod__(self, o):
        return self._d(zi(o), self.e, REM)

    def __divmod__(self, o):
        return self // o, self % o

    def __lt__(self, o):
        return B(self.e < zi(o))

    def __le__(self, o):
        return B(self.e <= zi(o))

    def __gt__(self, o):
        return B(self.e > zi(o))

    def __ge__(self, o):
        return B(self.e >= zi(o))

    def __eq__(self, o):
        return B(self.e == zi(o)) if isinstance(o, (int, N)) else False

    def __ne__(self, o):
        return B(self.e != zi(o)) if isinstance(o, (int, N)) else True

    def __bool__(self):
        return branch(self.e != 0)

    def __hash__(self):
        raise Unsupported('symbolic number as a key')

    def __index__(self):
        raise Unsupported('symbolic number where a concrete one is needed')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    __float__ = __int__

    def __str__(self):
        if proved(self.e >= 0) != 'unsat':
            raise Unsupported('text of a number that may be negative')
        return self.token()

    def token(self):
        return tok(('N', self.e.get_id()), self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ('', 'd'):
            raise Unsupported('format %r' % spec)
        return str(self)


def zi(x):
    if isinstance(x, N):
        return x.e
    if isinstance(x, bool) or not isinstance(x, int):
        raise Unsupported('%s instead of an integer' % type(x).__name__)
    return z3.IntVal(x)


class Poison:
    def _bad(self, *a, **k):
        raise Unsupported('a value left over from a loop over an unknown number of elements is used')

    for _n in ('add radd sub rsub mul rmul call getitem iter bool str repr format eq ne lt gt le ge len contains hash iadd neg mod enter').split():
        locals()['__%s__' % _n] = _bad

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()


POISON = Poison()


class E:
    """a symbolic expression of the matrix (or of its substitutions, of its
    common subexpressions): what it is, and where"""

    def __init__(self, kind, at, flags=(), q=None, part=''):
        self.kind, self.at, self.flags, self.q, self.part = kind, tuple(at), frozenset(flags), q, part

    def key(self):
        return ('E', self.kind, tuple(a.get_id() for a in self.at), tuple(sorted(self.flags)), self.q.get_id() if self.q is not None else None, self.part)

    def __str__(self):
        return tok(self.key(), self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec:
            raise Unsupported('format %r' % spec)
        return str(self)

    def __bool__(self):
        if self.kind != 'entry' or self.part or 'subs' in self.flags:
            raise Unsupported('truth of an expression')
        return branch(NZ(*self.at))

    def __eq__(self, o):
        if o == 0 and isinstance(o, int):
            if self.kind == 'entry' and not self.part and 'subs' not in self.flags:
                return B(z3.Not(NZ(*self.at)))
        raise Unsupported('comparison of expressions')

    def __ne__(self, o):
        r = self.__eq__(o)
        return B(z3.Not(r.e))

    __hash__ = None

    def subs(self, d):
        if not isinstance(d, Subs) or self.kind != 'entry' or self.part:
            raise Unsupported('substitution')
        return E('entry', self.at, self.flags | {'subs'})

    def __mul__(self, o):
        if isinstance(o, E) and self.kind == o.kind == 'entry' and {self.part, o.part} == {'key', 'coef'} \
                and self.flags == o.flags and self.at == o.at and self.q.eq(o.q):
            return E('entry', self.at, self.flags, self.q, 'term')
        raise Unsupported('product of expressions')


# -- blocks, lists -------------------------------------------------------------

class Blk:
    """items(binders) for all binders with rng, one of the alternatives each;
    index: position of the element, size: how many there are"""

    def __init__(self, binders, rng, alts, index=None, size=None):
        self.binders, self.rng, self.alts, self.index, self.size = list(binders), rng, alts, index, size
        S.keep.append(self)

    def instance(self):
        m = [(b, fresh('b')) for b in self.binders]
        return Blk([y for _, y in m], sub(self.rng, m), [(sub(g, m), sub(x, m)) for g, x in self.alts],
                   sub(self.index, m) if self.index is not None else None, self.size)

    def __str__(self):
        return tok(('B', id(self)), self)

    def flat(self):
        """alternatives without nested blocks: [(binders, guard, [items])]"""
        out = []
        for g, xs in self.alts:
            if any(isinstance(x, Blk) for x in xs):
                if len(xs) != 1:
                    raise Unsupported('block of blocks and lines')
                for b, g2, ys in xs[0].flat():
                    out.append((self.binders + b, z3.And(self.rng, g, g2), ys))
            elif xs:
                out.append((list(self.binders), z3.And(self.rng, g), xs))
        return out


def sub(x, m):
    if isinstance(x, (bool, int)) or x is None:
        return x
    if isinstance(x, z3.ExprRef):
        return z3.substitute(x, *m) if m else x
    if isinstance(x, N):
        return N.mk(sub(x.e, m))
    if isinstance(x, E):
        return E(x.kind, [sub(a, m) for a in x.at], x.flags, sub(x.q, m), x.part)
    if isinstance(x, str):
        def f(t):
            o = S.reg[int(t.group(1))]
            y = sub(o, m)
            return y.token() if isinstance(y, N) else str(y)
        return TOK.sub(f, x)
    if isinstance(x, tuple):
        return tuple(sub(y, m) for y in x)
    if isinstance(x, Blk):
        return Blk(x.binders, sub(x.rng, m), [(sub(g, m), sub(y, m)) for g, y in x.alts], sub(x.index, m) if x.index is not None else None,
                   sub(x.size, m) if x.size is not None else None)
    if isinstance(x, Joined):
        return Joined(x.sep, sub(x.blk, m))
    if isinstance(x, TList):
        return TList([sub(y, m) for y in x.raw])
    if type(x) is list:
        return [sub(y, m) for y in x]
    if isinstance(x, (Opaque, Matrix, Coll)):
        return x if not isinstance(x, Coll) else Coll(sub(x.e, m))
    raise Unsupported('%s in a loop' % type(x).__name__)


class Opaque:
    """arbitrary text, or an argument that is only passed on"""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return tok(('O', self.name), self)


class Joined:
    def __init__(self, sep, blk):
        self.sep, self.blk = sep, blk

    def __str__(self):
        return tok(('J', self.sep, id(self.blk)), self)


def hastok(x):
    return isinstance(x, str) and A in x


class TList:
    """list that may contain blocks"""

    def __init__(self, it=()):
        self.raw = list(it.raw if isinstance(it, TList) else it)
        S.lists.append(self)
        self.depth = len(S.frames)

    def sym(self):
        return any(isinstance(x, Blk) for x in self.raw)

    def conc(self):
        if self.sym():
            raise Unsupported('list with an unknown number of items')
        return self.raw

    def append(self, x):
        self.raw.append(x)

    def extend(self, o):
        self.raw.extend(rawlist(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return TList(self.raw + rawlist(o))

    def __radd__(self, o):
        return TList(rawlist(o) + self.raw)

    def __mul__(self, k):
        return TList(self.conc()*k)

    def _pos(self, k):
        if not isinstance(k, int):
            raise Unsupported('symbolic position in a list')
        if not self.sym():
            return k
        first = [isinstance(x, Blk) for x in self.raw]
        if k >= 0:
            if True in first[:k]:
                raise Unsupported('position behind an unknown number of items')
            return k
        if True in first[k:] or -k > len(first):
            raise Unsupported('position before an unknown number of items')
        return k

    def insert(self, k, x):
        self._frozen()
        k = self._pos(k)
        if k >= 0:
            self.raw.insert(k, x)
        else:
            self.raw.insert(len(self.raw) + k, x)

    def _frozen(self):
        if self.depth < len(S.frames):
            raise Unsupported('list changed inside a loop other than by appending')

    def pop(self, k=-1):
        self._frozen()
        self._pos(k)
        if isinstance(self.raw[k], Blk):
            raise Unsupported('pop')
        return self.raw.pop(k)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if not self.sym():
                if all(q is None or isinstance(q, int) for q in (k.start, k.stop, k.step)):
                    return TList(self.raw[k])
                raise Unsupported('slice')
            if len(self.raw) == 1:
                return TList([slice_(self.raw[0], k)])
            if k.step is not None:
                raise Unsupported('slice')
            for q in (k.start, k.stop):
                if q is not None:
                    self._pos(q)
            return TList(self.raw[k])
        if isinstance(k, N):
            if len(self.raw) == 1 and self.sym():
                return element(self.raw[0], k.e)
            raise Unsupported('symbolic position in a list')
        k2 = self._pos(k)
        if k2 >= 0 and k2 >= len(self.raw):
            if self.sym():
                raise Unsupported('position')
            raise IndexError(k)
        x = self.raw[k2]
        if isinstance(x, Blk):
            if len(self.raw) == 1 and k >= 0:
                return element(x, z3.IntVal(k))
            raise Unsupported('position in an unknown number of items')
        return x

    def __setitem__(self, k, v):
        self._frozen()
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice')
            for q in (k.start, k.stop):
                if q is not None:
                    self._pos(q)
            if self.sym() and (k.stop is None or k.start is None and k.stop != 0):
                raise Unsupported('slice')
            self.raw[k] = rawlist(v)
            return
        k = self._pos(k)
        if isinstance(self.raw[k], Blk):
            raise Unsupported('assignment to an unknown number of items')
        self.raw[k] = v

    def __iter__(self):
        return iter(list(self.conc()))

    def __len__(self):
        return len(self.conc())

    def __bool__(self):
        if any(not isinstance(x, Blk) for x in self.raw):
            return True
        n = size(self)
        return branch(zi(n) != 0)

    def copy(self):
        return TList(self.raw)

    def __eq__(self, o):
        return self.conc() == rawlist(o)

    __hash__ = None

    def index(self, x):
        return self.conc().index(x)

    def count(self, x):
        return self.conc().count(x)

    def reverse(self):
        self._frozen()
        self.conc().reverse()

    def sort(self, key=None, reverse=False):
        self._frozen()
        if self.sym():
            if len(self.raw) != 1:
                raise Unsupported('sort')
            self.raw[0] = unordered(self.raw[0])
        else:
            self.raw.sort(key=key, reverse=reverse)


def rawlist(o):
    if isinstance(o, TList):
        return list(o.raw)
    if isinstance(o, Blk):
        return [o]
    s = symbolic(o)
    if s is not None:
        return [s]
    return list(o)


def unordered(b):
    return Blk(b.binders, b.rng, b.alts)


def single(b):
    """alternatives with one item each"""
    if b.index is None or len(b.alts) != 1 or len(b.alts[0][1]) != 1 or len(b.binders) != 1 or not z3.is_true(simp(b.alts[0][0])) \
            or not b.index.eq(b.binders[0]) or b.size is None:
        raise Unsupported('position in a filtered sequence')
    return b.alts[0][1][0]


def element(b, k):
    x = single(b)
    if proved(z3.And(0 <= k, k < b.size)) != 'unsat':
        raise Unsupported('position may be outside of the sequence')
    return sub(x, [(b.binders[0], k)])


def slice_(b, s):
    x = single(b)
    start = zi(s.start) if s.start is not None else z3.IntVal(0)
    stop = zi(s.stop) if s.stop is not None else b.size
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step < 1:
        raise Unsupported('step of a slice')
    for q in (start, stop):
        if proved(q >= 0) != 'unsat':
            raise Unsupported('slice from the end')
    t = fresh('b')
    at = simp(start + step*t)
    end = z3.If(stop < b.size, stop, b.size)
    return Blk([t], z3.And(0 <= t, at < end), [(z3.BoolVal(True), [sub(x, [(b.binders[0], at)])])], index=t)


# -- counts --------------------------------------------------------------------

def count(binders, guard):
    """how many binders satisfy the guard, as a term in the other variables"""
    guard = simp(guard)
    free = []
    todo, seen = [guard], set()
    own = {b.get_id() for b in binders}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == I and x.get_id() not in own and '!' in str(x):
            free.append(x)
        todo += x.children()
    free.sort(key=str)
    nm = 'COUNT%d' % len(S.counts)
    f = z3.Function(nm, *([I]*len(free) + [I])) if free else None
    t = f(*free) if free else z3.Int(nm)
    S.counts[nm] = (free, list(binders), guard)
    S.facts.append(z3.ForAll(free, t >= 0) if free else t >= 0)
    return t


def total(binders, guard, e):
    """sum of the integer term e over the binders with the guard"""
    e = simp(e)
    out = z3.IntVal(0)
    own = {b.get_id() for b in binders}
    for term in (e.children() if z3.is_add(e) else [e]):
        k, x = 1, term
        if z3.is_mul(term) and term.num_args() == 2 and z3.is_int_value(term.arg(0)):
            k, x = term.arg(0).as_long(), term.arg(1)
        if z3.is_int_value(x):
            v = x.as_long()*k
            if v:
                out = out + v*count(binders, guard)
            continue
        nm = x.decl().name()
        if nm not in S.counts:
            raise Unsupported('sum of %s' % x)
        free, b2, g2 = S.counts[nm]
        g2 = z3.substitute(g2, *zip(free, x.children())) if free else g2
        out = out + k*count(list(binders) + b2, z3.And(guard, g2))
    return simp(out)


def size(x):
    if isinstance(x, TList):
        out = 0
        for y in x.raw:
            out = out + (size(y) if isinstance(y, Blk) else 1)
        return out
    if isinstance(x, Blk):
        if x.size is not None:
            return N.mk(x.size)
        out = z3.IntVal(0)
        for g, xs in x.alts:
            k = size(TList(xs))
            out = out + total(x.binders, z3.And(x.rng, g), zi(k))
        return N.mk(out)
    raise Unsupported('length')


# -- arguments -----------------------------------------------------------------

R, CC = z3.Int('nrows'), z3.Int('ncols')
NSUB, NCSE = z3.Int('nsubs'), z3.Int('ncse')
TERMS = z3.Function('nterms', I, I, I)


class Matrix:
    def __init__(self, mine=False, flags=(), T=False, array=False):
        self.mine, self.flags, self.t, self.array = mine, frozenset(flags), T, array

    @property
    def T(self):
        return Matrix(True, self.flags, not self.t, self.array)

    def transpose(self):
        return self.T

    @property
    def rows(self):
        return N(CC if self.t else R)

    @property
    def cols(self):
        return N(R if self.t else CC)

    @property
    def shape(self):
        return (self.rows, self.cols)

    @property
    def size(self):
        return N.mk(R*CC)

    ndim = 2

    def at(self, i, j):
        i, j = zi(i), zi(j)
        if proved(z3.And(0 <= i, i < self.rows.e, 0 <= j, j < self.cols.e)) != 'unsat':
            raise Unsupported('index may be outside of the matrix')
        return E('entry', (j, i) if self.t else (i, j), self.flags)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and not any(isinstance(q, slice) for q in k):
            return self.at(*k)
        if isinstance(k, (int, N)) and not self.array:
            k = zi(k)
            if proved(z3.And(0 <= k, k < R*CC)) != 'unsat':
                raise Unsupported('index may be outside of the matrix')
            c = self.cols.e
            return E('entry', (REM(k, c), QUO(k, c)) if self.t else (QUO(k, c), REM(k, c)), self.flags)
        raise Unsupported('index of a matrix')

    def __setitem__(self, k, v):
        if not self.mine:
            S.c.oblig('C19 %s/the given matrix is not modified' % S.name, False, 'undecided', 'assignment to the given matrix')
            raise Unsupported('assignment to the given matrix')
        if S.frames:
            raise Unsupported('assignment in a loop')
        if k == 0 and isinstance(v, Matrix) and not v.t and not self.t:
            # a matrix assigned at the first position is copied in
            self.flags = v.flags
            return
        raise Unsupported('assignment to a matrix')

    def copy(self):
        return Matrix(True, self.flags, self.t, self.array)

    __copy__ = copy

    def entries(self, kind):
        i, j = fresh('i'), fresh('j')
        n, m = self.rows.e, self.cols.e
        e = E('entry', (j, i) if self.t else (i, j), self.flags)
        pair = (N(i), N(j))
        item = {'pairs': pair, 'all': (pair, e), 'values': e}[kind]
        return Blk([i, j], z3.And(0 <= i, i < n, 0 <= j, j < m), [(z3.BoolVal(True), [item])], index=i*m + j, size=R*CC)

    def __iter__(self):
        raise Unsupported('iteration over a matrix')

    def ravel(self, order='C'):
        if order not in ('C', 'F'):
            raise Unsupported('order %r' % order)
        return Flat(self if order == 'C' else self.T)

    flatten = ravel

    def flat(self):
        return Flat(self)

    def __len__(self):
        raise Unsupported('len of a matrix')

    def __bool__(self):
        raise Unsupported('truth of a matrix')


class Flat:
    """all entries, row by row"""

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        return self.m[k]

    def __iter__(self):
        raise Unsupported('iteration')


class Subs:
    """the substitutions: any number of pairs"""

    def items(self):
        return self.fam(lambda s: (E('subkey', [s]), E('subval', [s])))

    def keys(self):
        return self.fam(lambda s: E('subkey', [s]))

    def values(self):
        return self.fam(lambda s: E('subval', [s]))

    def fam(self, f):
        s = fresh('s')
        return TList([Blk([s], z3.And(0 <= s, s < NSUB), [(z3.BoolVal(True), [f(s)])], size=NSUB)])

    def __getitem__(self, k):
        if isinstance(k, E) and k.kind == 'subkey':
            return E('subval', k.at)
        raise Unsupported('item of the substitutions')

    def __bool__(self):
        return branch(NSUB != 0)

    def __iter__(self):
        raise Unsupported('iteration')

    def __len__(self):
        raise Unsupported('len')

    def copy(self):
        return self


class Coll:
    """collect(v, symbols, evaluate=False): terms key*coefficient, their sum is v"""

    def __init__(self, e):
        self.e = e

    def fam(self, f):
        q = fresh('t')
        return TList([Blk([q], z3.And(0 <= q, q < TERMS(*self.e.at)), [(z3.BoolVal(True), [f(q)])])])

    def _p(self, q, part):
        return E('entry', self.e.at, self.e.flags, q, part)

    def items(self):
        return self.fam(lambda q: (self._p(q, 'key'), self._p(q, 'coef')))

    def keys(self):
        return self.fam(lambda q: self._p(q, 'key'))

    def values(self):
        return self.fam(lambda q: self._p(q, 'coef'))

    def __getitem__(self, k):
        if isinstance(k, E) and k.part == 'key' and k.at == self.e.at:
            return E('entry', k.at, k.flags, k.q, 'coef')
        raise Unsupported('item of the collected terms')

    def __iter__(self):
        raise Unsupported('iteration')


class Enum:
    def __init__(self, b, start):
        self.b, self.start = b, start


def symbolic(x):
    """the block a loop over x runs through, None if x is concrete"""
    if isinstance(x, TList):
        if not x.sym():
            return None
        if len(x.raw) != 1:
            raise Unsupported('loop over a list with known and unknown items')
        return x.raw[0]
    if isinstance(x, Blk):
        return x
    if isinstance(x, Matrix):
        if x.array:
            raise Unsupported('iteration over an array')
        return x.entries('values')
    if isinstance(x, Flat):
        return x.m.entries('values')
    if isinstance(x, (Subs, Coll)):
        return x.keys().raw[0]
    if isinstance(x, Enum):
        b = x.b
        if b.index is None or any(len(xs) != 1 for g, xs in b.alts):
            raise Unsupported('position in a filtered sequence')
        return Blk(b.binders, b.rng, [(g, [(N.mk(b.index + x.start), xs[0])]) for g, xs in b.alts], b.index, b.size)
    return None


# -- loops ---------------------------------------------------------------------

class Frame:
    def __init__(self, guards, prefix):
        self.guards, self.prefix, self.log = guards, prefix, []
        self.base = len(guards)


class Concrete:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def early(self):
        pass

    def bottom(self, pairs):
        pass


def explore(b, run):
    """run(item) for one arbitrary element of the block and every combination
    of branches; yields nothing, run is called with the frame on the stack"""
    for g, xs in b.alts:
        if len(xs) == 0:
            continue
        if len(xs) != 1:
            raise Unsupported('loop over groups of items')
        if isinstance(xs[0], Blk):
            raise Unsupported('loop over nested sequences')
        prefix = []
        for _ in range(64):
            f = Frame([b.rng] + ([] if z3.is_true(simp(g)) else [g]), prefix)
            S.frames.append(f)
            yield f, xs[0]
            if S.frames.pop() is not f:
                raise Unsupported('loops are not nested')
            k = len(f.log) - 1
            while k >= 0 and f.log[k] == 1:
                k -= 1
            if k < 0:
                break
            prefix = f.log[:k] + [1]
        else:
            raise Unsupported('too many branches in a loop')


class Loop:
    sym = True

    def __init__(self, b):
        self.b = b.instance()
        self.old = {}
        self.fin = []
        self.h = {}

    def __iter__(self):
        lists = list(S.lists)
        snap = [list(x.raw) for x in lists]
        out = {}
        for f, item in explore(self.b, None):
            self.now = None
            yield item
            g = z3.And(*f.guards[1:]) if len(f.guards) > 1 else z3.BoolVal(True)
            self.fin.append((g, self.now or {}))
            for k, (x, s) in enumerate(zip(lists, snap)):
                if len(x.raw) < len(s) or any(a is not b for a, b in zip(x.raw, s)):
                    raise Unsupported('list changed inside a loop other than by appending')
                new = x.raw[len(s):]
                if new:
                    out.setdefault(k, []).append((g, new))
                x.raw[:] = s
        for k, alts in out.items():
            lists[k].raw.append(Blk(self.b.binders, self.b.rng, alts))

    def early(self):
        raise Unsupported('loop over an unknown number of elements left early')

    def havoc(self, name, old):
        old = self.old.setdefault(name, old)
        if isinstance(old, TList):
            return old
        if isinstance(old, N) or (isinstance(old, int) and not isinstance(old, bool)):
            if name not in self.h:
                self.h[name] = fresh('h')
            return N(self.h[name])
        return POISON

    def at(self, name, v, c):
        self.old.setdefault(name, v)
        v = self.old[name]
        if self.b.index is None:
            return self.havoc(name, v)
        return v + N.mk(self.b.index*c)

    def end(self, name, v, c):
        if not self.fin:
            return self.old.get(name, v)
        if self.b.index is None:
            return self.after(name, v)
        n = self.b.size
        return self.old[name] + N.mk((n if n is not None else zi(size(self.b)))*c)

    def bottom(self, pairs):
        self.now = dict(pairs)

    def after(self, name, old):
        v = self.old.get(name)
        if isinstance(v, TList):
            return v if all(d.get(name) is v for g, d in self.fin) else POISON
        if name in self.h:
            out = zi(v)
            for g, d in self.fin:
                x = d.get(name)
                if not isinstance(x, N):
                    return POISON
                dx = simp(x.e - self.h[name])
                if mentions(dx, self.h[name]):
                    return POISON
                try:
                    out = out + total(self.b.binders, z3.And(self.b.rng, g), dx)
                except Unsupported:
                    return POISON
            return N.mk(out)
        return POISON


def mentions(e, v):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        todo += x.children()
    return False


def loop_(x, lineno=0):
    b = symbolic(x)
    return Concrete(x) if b is None else Loop(b)


def comp_(kind, src, f):
    b = symbolic(src)
    if b is None:
        out = []
        for e in src:
            out += f(e)
        if any(isinstance(x, Blk) for x in out) and kind in ('set', 'dict'):
            raise Unsupported('collection of unknown size')
        if kind == 'set':
            return set(out)
        if kind == 'dict':
            return dict(out)
        return TList(out)
    if kind in ('set', 'dict'):
        raise Unsupported('collection of unknown size')
    b = b.instance()
    alts = []
    plain = True
    for fr, item in explore(b, None):
        r = f(item)
        g = z3.And(*fr.guards[1:]) if len(fr.guards) > 1 else z3.BoolVal(True)
        plain = plain and len(fr.guards) == 1 and len(r) == 1
        if r:
            alts.append((g, r))
    return TList([Blk(b.binders, b.rng, alts, b.index if plain else None, b.size if plain else None)])


# -- builtins ------------------------------------------------------------------

def meth_(o, name):
    if isinstance(o, str):
        if name == 'join':
            return lambda it: join_(o, it)
        if name in ('format', 'format_map'):
            if hastok(o):
                raise Unsupported('format of a text with unknown parts')

            def fmt(*a, **k):
                for x in list(a) + list(k.values()):
                    if isinstance(x, TList):
                        x.conc()
                return o.format(*a, **k)
            return fmt

        def f(*a, **k):
            if hastok(o) or any(hastok(x) for x in a):
                raise Unsupported('str.%s of a text with unknown parts' % name)
            if any(isinstance(x, (N, E, TList)) for x in a):
                raise Unsupported('str.%s' % name)
            return getattr(o, name)(*a, **k)
        return f
    if isinstance(o, (dict, set)) and S.frames and name in ('update', 'setdefault', 'add', 'pop', 'popitem', 'clear', 'remove', 'discard'):
        raise Unsupported('collection changed in a loop')
    return getattr(o, name)


def join_(sep, it):
    b = rawlist(it)
    if not any(isinstance(x, Blk) for x in b):
        return sep.join(b)
    if sep == '\n':
        return sep.join(str(x) for x in b)
    if len(b) == 1:
        return str(Joined(sep, b[0]))
    raise Unsupported('text joined from known and unknown parts')


def cmp_(op, a, b):
    if op == 'in':
        if isinstance(b, str) and (hastok(a) or hastok(b)):
            t = TOK.fullmatch(a)
            if t and isinstance(S.reg[int(t.group(1))], E):
                e = S.reg[int(t.group(1))]
                nm = 'IN%d' % len(S.ins)
                f = z3.Function(nm, I, z3.BoolSort())
                for k, (kind, text, fl) in S.ins.items():
                    if kind == e.kind and text == b:
                        nm = k
                        f = z3.Function(nm, I, z3.BoolSort())
                S.ins[nm] = (e.kind, b, e.flags)
                return B(f(e.at[0]))
            if a in b and not hastok(a):
                # the literal parts contain it
                if any(a in q for q in TOK.split(b)[::2]):
                    return True
            raise Unsupported('search in a text with unknown parts')
        if isinstance(b, TList):
            return a in b.conc()
        if isinstance(a, (N, E)):
            raise Unsupported('membership')
        return a in b
    if isinstance(a, str) and isinstance(b, str) and (hastok(a) or hastok(b)):
        if a == b:
            return True
        ta, tb = TOK.sub('', a), TOK.sub('', b)
        if not hastok(a) and len(tb) > len(a) or not hastok(b) and len(ta) > len(b) or (a == '' or b == ''):
            return False
        raise Unsupported('comparison of texts with unknown parts')
    return a == b


def item_(o, k):
    if hastok(o):
        raise Unsupported('part of a text with unknown parts')
    return o[k]


def mod_(a, b):
    if isinstance(a, str):
        if hastok(a):
            raise Unsupported('% of a text with unknown parts')
        args = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (N, E)) for x in args):
            specs = re.findall(r'%(.)', a)
            if len([q for q in specs if q != '%']) != len(args) or any(q not in 'dsi%r' for q in specs):
                raise Unsupported('format %r' % a)
            it = iter(args)

            def f(m):
                if m.group(1) == '%':
                    return '%'
                x = next(it)
                return str(x)
            return re.sub(r'%(.)', f, a)
        return a % b
    return a % b


def add_(a, b):
    if type(a) is list and isinstance(b, TList):
        return TList(a) + b
    return a + b


class TypeLike(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)


def typelike(real, make):
    return TypeLike(make.__name__, (), dict(_real=real, _make=staticmethod(make)))


def mklist(x=()):
    return TList(rawlist(x))


def mktuple(x=()):
    if symbolic(x) is not None:
        return TList(rawlist(x))
    return tuple(x)


def len_(x):
    if isinstance(x, (TList, Blk)):
        return size(x) if symbolic_or_mixed(x) else len(x.raw)
    if isinstance(x, Matrix):
        return x.rows if x.array else N.mk(R*CC)
    if isinstance(x, Flat):
        return N.mk(R*CC)
    if isinstance(x, Subs):
        return N(NSUB)
    if hastok(x):
        raise Unsupported('length of a text with unknown parts')
    return len(x)


def symbolic_or_mixed(x):
    return isinstance(x, Blk) or x.sym()


def range_(*a):
    if not any(isinstance(x, N) for x in a):
        return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    step = a[2] if len(a) > 2 else 1
    if not isinstance(step, int) or step < 1:
        raise Unsupported('step of a range')
    t = fresh('b')
    if step == 1 and isinstance(lo, int) and lo == 0:
        if proved(zi(hi) >= 0) != 'unsat':
            raise Unsupported('range')
        return TList([Blk([t], z3.And(0 <= t, t < zi(hi)), [(z3.BoolVal(True), [N(t)])], index=t, size=zi(hi))])
    at = simp(zi(lo) + step*t)
    return TList([Blk([t], z3.And(0 <= t, at < zi(hi)), [(z3.BoolVal(True), [N.mk(at)])], index=t)])


def enumerate_(x, start=0):
    b = symbolic(x)
    return enumerate(x, start) if b is None else TList([symbolic(Enum(b, zi(start)))])


def sorted_(x, key=None, reverse=False):
    b = symbolic(x)
    if b is None:
        x = list(x)
        if any(hastok(y) for y in x):
            raise Unsupported('order of texts with unknown parts')
        return TList(sorted(x, key=key, reverse=reverse))
    return TList([unordered(b)])


def map_(f, x, *more):
    if more:
        if any(symbolic(y) is not None for y in (x,) + more):
            raise Unsupported('map of several sequences')
        return map(f, x, *more)
    return comp_('list', x, lambda e: [f(e)])


def filter_(f, x):
    f = f or bool
    return comp_('list', x, lambda e: [e] if f(e) else [])


def sum_(x, start=0):
    if isinstance(x, TList) and x.sym() or isinstance(x, Blk):
        out = zi(start)
        for y in rawlist(x):
            if not isinstance(y, Blk):
                out = out + zi(y if not isinstance(y, bool) else int(y))
                continue
            for b, g, xs in y.flat():
                for q in xs:
                    out = out + total(b, g, zi(int(q) if isinstance(q, bool) else q))
        return N.mk(out)
    return sum(x, start)


def any_(x):
    if symbolic(x) is not None:
        raise Unsupported('any')
    return any(x)


def all_(x):
    if symbolic(x) is not None:
        raise Unsupported('all')
    return all(x)


def bool_(x=False):
    if isinstance(x, (N, B, E, TList, Subs)):
        return x.__bool__()
    return bool(x)


def int_(x=0, *a):
    if isinstance(x, N):
        return x
    if isinstance(x, B):
        return int(bool(x))
    return int(x, *a)


def str_(x=''):
    if isinstance(x, (TList, Blk, Matrix, Flat, Coll, Subs)):
        raise Unsupported('text of a collection')
    return str(x)


def divmod_(a, b):
    return (a // b, a % b)


class File:
    def __init__(self, name, mode):
        self.name, self.mode, self.text, self.open = name, mode, [], True
        if S.frames:
            raise Unsupported('file opened in a loop')
        S.files.append(self)

    def write(self, s):
        if S.frames:
            raise Unsupported('file written in a loop')
        if not self.open:
            raise ValueError('closed')
        self.text.append(s)

    def writelines(self, x):
        self.write(join_('', x))

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open_(name, mode='r', *a, **k):
    if mode not in ('w', 'wt', 'w+'):
        raise Unsupported('open(%r)' % mode)
    return File(name, mode)


def zip_(*a):
    if any(symbolic(x) is not None for x in a):
        raise Unsupported('zip of unknown sequences')
    return zip(*a)


def reversed_(x):
    b = symbolic(x)
    return reversed(list(x)) if b is None else TList([unordered(b)])


def is_(a, b):
    return a is b


def print_(*a, **k):
    if k.get('file') is not None:
        raise Unsupported('print to a file')


def no(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def lit_(x):
    return x


def div_(a, b):
    if isinstance(a, (N, E)) or isinstance(b, (N, E)):
        raise Unsupported('division')
    return a/b


class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of a library' % n)


def collect(v, syms, evaluate=True, **k):
    if not isinstance(v, E) or v.kind != 'entry' or v.part or not isinstance(syms, Opaque) or evaluate is not False or k:
        raise Unsupported('collect')
    return Coll(v)


def cse(m, **k):
    """definitions (name, expression) to be executed in order, and the matrices
    written with them"""
    if not isinstance(m, Matrix) or m.t or m.flags or k:
        raise Unsupported('cse')
    s = fresh('b')
    d = Blk([s], z3.And(0 <= s, s < NCSE), [(z3.BoolVal(True), [(E('csename', [s]), E('csedef', [s]))])], index=s, size=NCSE)
    return TList([d]), TList([Matrix(True, {'cse'})])


def _nd(x):
    if not isinstance(x, Matrix):
        raise Unsupported('numpy of something else than the matrix')
    return x


def ravel(m, order='C'):
    return _nd(m).ravel(order)


def ndindex(*a):
    if len(a) == 1 and isinstance(a[0], tuple):
        a = a[0]
    if len(a) != 2:
        raise Unsupported('ndindex')
    i, j = fresh('i'), fresh('j')
    n, m = zi(a[0]), zi(a[1])
    return TList([Blk([i, j], z3.And(0 <= i, i < n, 0 <= j, j < m), [(z3.BoolVal(True), [(N(i), N(j))])], index=i*m + j, size=n*m)])


def asarray(m, *a, **k):
    if k.get('dtype', object) is not object or a:
        raise Unsupported('dtype')
    return Matrix(True, _nd(m).flags, m.t, True)


NUMPY = Bag(ndenumerate=lambda m: TList([_nd(m).entries('all')]), ravel=ravel, ndindex=ndindex, asarray=asarray, array=asarray,
            shape=lambda m: _nd(m).shape, size=lambda m: _nd(m).size, transpose=lambda m: _nd(m).T, ndarray=type('ndarray', (), {}))
SYMPY = Bag(collect=collect, cse=cse, MatrixBase=Matrix, Matrix=Matrix, Basic=E, Expr=E)


class Rewrite(load.Rewrite):
    """loops and comprehensions as in load.py; texts and lists through the
    functions above"""

    def visit_Constant(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [q for q in (n.args.vararg, n.args.kwarg) if q]:
            a.annotation = None
        return super().visit_FunctionDef(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.call('__mod__', n.left, n.right), n)
        if isinstance(n.op, ast.Add):
            return ast.copy_location(self.call('__add__', n.left, n.right), n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self.call('__div__', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return n

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load):
            raise Unsupported(BANNED % 'assignment to an attribute')
        self.generic_visit(n)
        return ast.copy_location(self.call('__meth__', n.value, ast.Constant(n.attr)), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Slice):
                none = ast.Constant(None)
                k = ast.Call(ast.Name('__slice__', ast.Load()), [k.lower or none, k.upper or none, k.step or none], [])
            elif isinstance(k, ast.Tuple) and any(isinstance(q, ast.Slice) for q in k.elts):
                return n
            return ast.copy_location(self.call('__item__', n.value, k), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        op = n.ops[0]
        for kinds, name in (((ast.Is, ast.IsNot), 'is'), ((ast.In, ast.NotIn), 'in'), ((ast.Eq, ast.NotEq), '==')):
            if isinstance(op, kinds):
                c = self.call('__is__', n.left, n.comparators[0]) if name == 'is' else \
                    self.call('__cmp__', ast.Constant(name), n.left, n.comparators[0])
                if isinstance(op, kinds[1]):
                    c = ast.UnaryOp(ast.Not(), c)
                return ast.copy_location(c, n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return n

    def _banned(self, n):
        raise Unsupported(BANNED % type(n).__name__)

    visit_Yield = visit_YieldFrom = visit_Await = visit_Nonlocal = visit_Global = visit_ClassDef = visit_NamedExpr = _banned

    def _comp(self, n, kind):
        elt = ast.Tuple([n.key, n.value], ast.Load()) if kind == 'dict' else n.elt
        return ast.copy_location(self._nest(elt, n.generators, kind), n)

    def _nest(self, elt, gens, kind):
        g, rest = gens[0], gens[1:]
        self.n += 1
        var = '__e%d' % self.n
        src = self.visit(g.iter)
        one = ast.comprehension(g.target, ast.Tuple([ast.Name(var, ast.Load())], ast.Load()), [self.visit(q) for q in g.ifs], 0)
        if rest:
            self.n += 1
            y = '__y%d' % self.n
            inner = self.call('__raw__', self._nest(elt, rest, 'list'))
            body = ast.ListComp(ast.Name(y, ast.Load()), [one, ast.comprehension(ast.Name(y, ast.Store()), inner, [], 0)])
        else:
            body = ast.ListComp(self.visit(elt), [one])
        lam = ast.Lambda(ast.arguments([], [ast.arg(var)], None, [], [], None, []), body)
        return self.call('__comp__', ast.Constant(kind), src, lam)


def module(path):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src, path)
    keep = [s for s in tree.body if not isinstance(s, ast.FunctionDef)]
    fns = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            try:
                fns.append(Rewrite().visit(s))
            except Unsupported as e:
                fns.append((s.name, str(e)))
    tree.body = [Rewrite().visit(s) for s in keep if not isinstance(s, ast.ClassDef)]
    tree.body += [f for f in fns if isinstance(f, ast.AST)]
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    m = types.ModuleType('meshless.dev.sympytools')
    b = dict(vars(builtins))
    b.update(BUILTINS)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == 'numpy':
            return NUMPY
        if name == 'sympy':
            return SYMPY
        if name in ('re', 'os', 'os.path', 'itertools', 'functools', 'collections', 'string', 'math', 'operator', 'sys', 'warnings', 'typing'):
            return Bag() if name != 'typing' else __import__('typing')
        raise Unsupported('import of %s' % name)
    b['__import__'] = imp
    m.__dict__['__builtins__'] = b
    exec(code, m.__dict__)
    for f in fns:
        if not isinstance(f, ast.AST):
            setattr(m, f[0], no('%s: %s' % f))
    return m


BUILTINS = dict(
    __loop__=loop_, __comp__=comp_, __list__=TList, __meth__=meth_, __cmp__=cmp_, __item__=item_, __mod__=mod_, __add__=add_, __is__=is_,
    __slice__=slice, __raw__=rawlist, __div__=div_, __lit__=lit_,
    __old__=lambda f: _old(f),
    list=typelike((list, TList), mklist), tuple=typelike(tuple, mktuple), str=typelike(str, str_), int=typelike((int, N), int_), bool=typelike(bool, bool_),
    len=len_, range=range_, enumerate=enumerate_, sorted=sorted_, map=map_, filter=filter_, sum=sum_, any=any_, all=all_, zip=zip_, reversed=reversed_,
    divmod=divmod_, open=open_, print=print_, iter=no('iter'), next=no('next'), max=no('max'), min=no('min'), eval=no('eval'), exec=no('exec'),
    locals=no('locals'), globals=no('globals'), vars=no('vars'), setattr=no('setattr'), repr=str_, format=no('format'))


def _old(f):
    try:
        return f()
    except NameError:
        return POISON
