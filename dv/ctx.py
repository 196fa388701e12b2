"""Path contexts: facts, forking, integer reasoning, obligations."""
import os
import sys
import time
import random
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import alg  # noqa: E402
from .alg import R, Unsupported, Control, ATOMS, pstr  # noqa: E402

REALT = int(os.environ.get('DV_NRA_MS', '4000'))


class Infeasible(Control):
    """this combination of choices is excluded by the precondition"""


class PathLimit(Control):
    pass


class SymBool:
    """A condition: R rel 0 or Z rel 0"""
    __slots__ = ('kind', 'x', 'rel')

    def __init__(self, kind, x, rel):
        self.kind = kind
        self.x = x
        self.rel = rel

    def __bool__(self):
        return alg.CTX.branch(self)

    def neg(self):
        return SymBool(self.kind, self.x, NEG[self.rel])

    def __invert__(self):
        return self.neg()

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __repr__(self):
        return '%r %s 0' % (self.x, self.rel)

    def __hash__(self):
        return 3

    def __eq__(self, o):
        return bool(self) == bool(o)


NEG = {'>': '<=', '>=': '<', '<': '>=', '<=': '>', '==': '!=', '!=': '=='}


class Z:
    """A symbolic integer: integer combination of integer atoms"""
    __slots__ = ('t', 'c')

    def __init__(self, t, c=0):
        self.t = t
        self.c = c

    @staticmethod
    def atom(name):
        return Z({name: 1})

    @staticmethod
    def lift(x):
        import numpy as np
        if isinstance(x, Z):
            return x
        if isinstance(x, bool):
            return Z({}, int(x))
        if isinstance(x, (int, np.integer)):
            return Z({}, int(x))
        if isinstance(x, Fraction) and x.denominator == 1:
            return Z({}, int(x))
        if isinstance(x, float) and x == int(x):
            return Z({}, int(x))
        return None

    def norm(self):
        """with the equalities of the path applied; int if constant"""
        t, c = dict(self.t), self.c
        for _ in range(20):
            hit = [a for a in t if a in alg.CTX.zsubst]
            if not hit:
                break
            for a in hit:
                k = t.pop(a)
                s = alg.CTX.zsubst[a]
                for b, e in s.t.items():
                    t[b] = t.get(b, 0) + k*e
                c += k*s.c
            t = {a: e for a, e in t.items() if e}
        return Z(t, c)

    def key(self):
        z = self.norm()
        return (tuple(sorted(z.t.items())), z.c)

    def _mk(self, t, c):
        t = {a: e for a, e in t.items() if e}
        return Z(t, c) if t else int(c)

    def __add__(self, o):
        b = Z.lift(o)
        if b is None:
            return self.__toR__() + o if isinstance(o, (R, float, Fraction)) else NotImplemented
        t = dict(self.t)
        for a, e in b.t.items():
            t[a] = t.get(a, 0) + e
        return self._mk(t, self.c + b.c)

    __radd__ = __add__

    def __neg__(self):
        return self._mk({a: -e for a, e in self.t.items()}, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = Z.lift(o)
        if b is None:
            return self.__toR__() - o if isinstance(o, (R, float, Fraction)) else NotImplemented
        return self + (-b)

    def __rsub__(self, o):
        b = Z.lift(o)
        if b is None:
            return o - self.__toR__() if isinstance(o, (float, Fraction)) else NotImplemented
        return b + (-self)

    def __mul__(self, o):
        b = Z.lift(o)
        if b is None:
            return self.__toR__()*o if isinstance(o, (R, float, Fraction)) else NotImplemented
        if b.t and self.t:
            raise Unsupported('product of symbolic integers')
        if self.t:
            return self._mk({a: e*b.c for a, e in self.t.items()}, self.c*b.c)
        return self._mk({a: e*self.c for a, e in b.t.items()}, self.c*b.c)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        b = Z.lift(o)
        z = self.norm()
        if b is None or b.t or b.c <= 0:
            raise Unsupported('floor division of symbolic integers')
        if any(e % b.c for e in z.t.values()):
            raise Unsupported('floor division of a symbolic integer')
        return self._mk({a: e//b.c for a, e in z.t.items()}, z.c//b.c)

    def __mod__(self, o):
        b = Z.lift(o)
        z = self.norm()
        if b is not None and not b.t and b.c > 0 and not any(e % b.c for e in z.t.values()):
            return z.c % b.c
        if b is not None and b.t:
            # x % n for a symbolic n: decided by the range of x
            C = alg.CTX
            for k in (0, -1, 1, -2, 2):
                y = z - k*b if k else z
                y = Z.lift(y)
                if C.zdecide(SymBool('Z', y, '>=')) is True and \
                        C.zdecide(SymBool('Z', Z.lift(b - y), '>')) is True:
                    return y if y.t else y.c
            for k in (0, 1, -1):
                y = Z.lift(z - k*b if k else z)
                if bool(SymBool('Z', y, '>=')) and bool(SymBool('Z', Z.lift(b - y), '>')):
                    return y if y.t else y.c
        raise Unsupported('modulo of a symbolic integer')

    def __divmod__(self, o):
        return self // o, self % o

    def __rmod__(self, o):
        b = Z.lift(o)
        if b is None:
            return NotImplemented
        return b % self

    def __truediv__(self, o):
        return self.__toR__() / o

    def __rtruediv__(self, o):
        return o / self.__toR__()

    def __pow__(self, n):
        return self.__toR__()**n

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __toR__(self):
        z = self.norm()
        out = alg.const(z.c)
        for a, e in z.t.items():
            out = out + alg.const(e)*alg.var('int:' + a)
        return out

    def _cmp(self, o, rel, swap=False):
        b = Z.lift(o)
        if b is None:
            if isinstance(o, (R, float, Fraction)):
                x = self.__toR__() - o
                return alg.CTX.relation(-x if swap else x, rel)
            return NotImplemented
        d = (b - self) if swap else (self - b)
        d = Z.lift(d)
        if not d.t:
            return OPS[rel](d.c)
        return SymBool('Z', d, rel)

    def __lt__(self, o):
        return self._cmp(o, '>', True)

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __le__(self, o):
        return self._cmp(o, '>=', True)

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        z = self.norm()
        if not z.t:
            return z.c
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __int__(self):
        raise Unsupported('int() of a symbolic integer')

    def __float__(self):
        raise Unsupported('float() of a symbolic integer')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        s = '+'.join(('%s' % a) if e == 1 else '%d*%s' % (e, a) for a, e in sorted(self.t.items()))
        return 'Z(%s%s)' % (s, '%+d' % self.c if self.c or not s else '')


OPS = {'>': lambda v: v > 0, '>=': lambda v: v >= 0, '<': lambda v: v < 0,
       '<=': lambda v: v <= 0, '==': lambda v: v == 0, '!=': lambda v: v != 0}


def z3rel(e, rel):
    return {'>': lambda: e > 0, '>=': lambda: e >= 0, '<': lambda: e < 0,
            '<=': lambda: e <= 0, '==': lambda: e == 0, '!=': lambda: e != 0}[rel]()


_QCACHE = {}


class Obl:
    __slots__ = ('name', 'ok', 'backend', 'detail', 't', 'cex')

    def __init__(self, name, ok, backend, detail='', t=0., cex=None):
        self.name = name
        self.ok = ok
        self.backend = backend
        self.detail = detail
        self.t = t
        self.cex = cex

    def row(self):
        return dict(name=self.name, ok=self.ok, backend=self.backend,
                    detail=self.detail, cex=self.cex)


class Ctx:
    count = 0

    def __init__(self, prefix=(), maxforks=400):
        self.prefix = list(prefix)
        self.log = []            # (choice, n, label)
        self.facts = []          # (terms, rel)   over reals
        self.zfacts = []         # (Z, rel)
        self.zsubst = {}
        self.rsubst = {}         # atom id -> terms
        self.obls = []
        self.maxforks = maxforks
        self.solver_s = 0.
        self.queries = {}
        self.loops = []          # stack of symbolic loops being executed
        self.writes = []         # frame log
        self.events = []
        self.notes = []
        self.assume_defined = False
        self.bases = []
        self.base_reps = {}
        self.distinct = set()
        self.shared = set()      # sequences that may have values in common
        self.local = []
        self.zcache = {}
        self.verdicts = []
        self._samples = None
        Ctx.count += 1
        self.uid = Ctx.count

    def reps_of(self, b):
        return self.base_reps[b.name]

    # -- choices -------------------------------------------------------------
    def choose(self, n, label=''):
        if self.local:
            loc = self.local[-1]
            i = len(loc.log)
            c = loc.prefix[i] if i < len(loc.prefix) else 0
            loc.log.append((c, n, label))
            return c
        i = len(self.log)
        if i >= self.maxforks:
            raise PathLimit('more than %d choices on a path' % self.maxforks)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((c, n, label))
        return c

    # -- facts ---------------------------------------------------------------
    def assume(self, x, rel):
        x = R.lift(x)
        if x.isconst():
            if not OPS[rel](x.cval()):
                raise Infeasible()
            return
        self._addfact(x.t, rel)

    def _addfact(self, t, rel):
        self.facts.append((t, rel))
        if rel == '==':
            for m, c in t.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'var':
                    i = m[0][0]
                    if all(i not in [k for k, e in mm] for mm in t if mm != m):
                        self.rsubst[i] = {mm: -v/c for mm, v in t.items() if mm != m}
                        break

    def zassume(self, z, rel):
        z = Z.lift(z)
        if not z.t:
            if not OPS[rel](z.c):
                raise Infeasible()
            return
        self.zfacts.append((z, rel))
        if rel == '==':
            self._zsub(z)

    def _zsub(self, z):
        z = z.norm()
        for a in sorted(z.t):
            if abs(z.t[a]) == 1:
                k = z.t[a]
                rest = Z({b: e for b, e in z.t.items() if b != a}, z.c)
                self.zsubst[a] = Z.lift(rest*(-k))
                return

    # -- deciding ------------------------------------------------------------
    def relation(self, x, rel):
        x = R.lift(x)
        if x.isconst():
            return OPS[rel](x.cval())
        if self.distinct:
            from .bigop import as_index_relation
            z = as_index_relation(x, rel)
            if z is not None:
                return SymBool('Z', z, rel) if z.t else OPS[rel](z.c)
        return SymBool('R', x, rel)

    def branch(self, b):
        if b.kind == 'Z':
            d = self.zdecide(b)
        else:
            d = self.decide(b.x, b.rel)
        if d is not None:
            return d
        c = self.choose(2, repr(b)[:120])
        b2 = b if c == 0 else b.neg()
        if b.kind == 'Z':
            self.zassume(b2.x, b2.rel)
        else:
            self.assume(b2.x, b2.rel)
        return c == 0

    def _zsolver(self):
        s = z3.Solver()
        s.set('timeout', 3000)
        vs = {}

        def term(z):
            e = z3.IntVal(z.c)
            for a, k in z.t.items():
                if a not in vs:
                    vs[a] = z3.Int(a)
                e = e + k*vs[a]
            return e
        for z, rel in self.zfacts:
            s.add(z3rel(term(z), rel))
        return s, term

    def zdecide(self, b):
        z = b.x.norm()
        if not z.t:
            return OPS[b.rel](z.c)
        key = (z.key(), b.rel)
        hit = self.zcache.get(key)
        if hit is not None and (hit[0] is not None or hit[1] == len(self.zfacts)):
            return hit[0]
        out = self._zdecide(z, b.rel)
        self.zcache[key] = (out, len(self.zfacts))
        return out

    def _zdecide(self, z, rel):
        t0 = time.time()
        s, term = self._zsolver()
        e = term(z)
        s.push()
        s.add(z3rel(e, NEG[rel]))
        r = s.check()
        out = None
        if r == z3.unsat:
            out = True
        else:
            s.pop()
            s.add(z3rel(e, rel))
            if s.check() == z3.unsat:
                out = False
        self._count('z3-LIA', time.time() - t0)
        return out

    def _count(self, k, dt):
        self.solver_s += dt
        self.queries[k] = self.queries.get(k, 0) + 1

    def decide(self, x, rel):
        """True / False / None for  x rel 0  under the facts of the path"""
        x = self.apply_subst(x)
        if x.isconst():
            return OPS[rel](x.cval())
        if rel in ('<', '<='):
            return self.decide(-x, {'<': '>', '<=': '>='}[rel])
        if rel == '!=':
            r = self.decide(x, '==')
            return None if r is None else not r
        if rel == '==':
            if self.iszero(x.t):
                return True
            s = self.sign(x)
            if s in ('+', '-'):
                return False
            return self._entails(x, '!=', False)
        s = self.sign(x)
        if rel == '>':
            if s == '+':
                return True
            if s in ('-', '0-', '0'):
                return False
        else:
            if s in ('+', '0+', '0'):
                return True
            if s == '-':
                return False
        return None

    def _entails(self, x, rel, result):
        return result if self._prove(x, rel) else None

    def apply_subst(self, x):
        if not self.rsubst:
            return x
        t = x.t
        for _ in range(10):
            hit = [i for m in t for i, e in m if i in self.rsubst]
            if not hit:
                break
            for i in set(hit):
                t = subst_terms(t, i, self.rsubst[i])
        return R(t)

    def is_positive(self, x):
        return self.sign(x) == '+'

    def sign(self, x):
        """'+', '-', '0', '0+', '0-' or None"""
        x = self.apply_subst(x)
        if x.isconst():
            v = x.cval()
            return '+' if v > 0 else '-' if v < 0 else '0'
        if self.iszero(x.t):
            return '0'
        s0 = self._monosign(x.t)
        if s0 in ('+', '-'):
            return s0
        # proportional to a fact
        c, q = alg.primitive(x.t)
        for t, rel in self.facts:
            if len(t) == len(q):
                c2, q2 = alg.primitive(t)
                if q2 == q:
                    k = c/c2
                    if rel in ('>', '<'):
                        pos = (k > 0) == (rel == '>')
                        return '+' if pos else '-'
                    if rel == '==':
                        return '0'
        key = self._qkey(x)
        if key in _QCACHE:
            return _QCACHE[key]
        if s0:
            out = s0
            if self._prove(x, '>' if s0 == '0+' else '<', False):
                out = '+' if s0 == '0+' else '-'
            _QCACHE[key] = out
            return out
        out = None
        for linear in (True, False):
            for rel, res in (('>', '+'), ('<', '-'), ('>=', '0+'), ('<=', '0-')):
                if not linear and rel not in ('>', '<') and len(x.t) > 12:
                    continue
                if self._prove(x, rel, linear):
                    out = res
                    break
            if out:
                break
        _QCACHE[key] = out
        return out

    def _qkey(self, x):
        """key of a sign query: by names when only variables occur, else private
        to this path"""
        plain = True
        names = {}
        for t in [x.t] + [t for t, rel in self.facts]:
            for m in t:
                for i, e in m:
                    if i not in names:
                        a = ATOMS[i]
                        names[i] = (a.name, a.sign)
                        if a.kind != 'var':
                            plain = False
        if not plain:
            return (self.uid, len(self.facts), alg.pkey(x.t))

        def k(t):
            return frozenset((tuple(sorted((names[i], e) for i, e in m)), c) for m, c in t.items())
        return (frozenset((k(t), rel) for t, rel in self.facts), k(x.t))

    def _monosign(self, t):
        signs = set()
        for m, c in t.items():
            s = 1 if c > 0 else -1
            strict = True
            for i, e in m:
                a = ATOMS[i]
                if a.sign == '+':
                    continue
                if a.sign == '0+':
                    strict = False
                    continue
                if e % 2 == 0:
                    strict = False
                    continue
                if a.kind == 'den':
                    ds = self.sign(R(a.defn)) if a.defn else None
                    if ds == '+':
                        continue
                    if ds == '-':
                        s = -s
                        continue
                return None
            signs.add((s, strict))
        ss = {s for s, _ in signs}
        if len(ss) != 1:
            return None
        s = ss.pop()
        strict = any(st for _, st in signs)
        return ('+' if s > 0 else '-') if strict else ('0+' if s > 0 else '0-')

    def _prove(self, x, rel, linear=True):
        t0 = time.time()
        s = z3.Solver() if linear else z3.SolverFor('QF_NRA')
        s.set('timeout', 1000 if linear else REALT)
        vs = {}
        pos = []

        def mono(m):
            if m in vs:
                return vs[m]
            if linear or not m:
                v = z3.Real('m%d' % len(vs))
                vs[m] = v
                sg = self._monosign({m: Fraction(1)})
                if sg == '+':
                    pos.append(v > 0)
                elif sg == '0+':
                    pos.append(v >= 0)
                return v
            e = z3.RealVal(1)
            for i, k in m:
                key = ((i, 1),)
                if key not in vs:
                    a = ATOMS[i]
                    v = z3.Real('a%d' % i)
                    vs[key] = v
                    if a.sign == '+':
                        pos.append(v > 0)
                    elif a.sign == '0+':
                        pos.append(v >= 0)
                    if a.kind in ('den', 'abs'):
                        pos.append(v == term(a.defn))
                    elif a.kind == 'sqrt':
                        pos.append(v*v == term(a.defn))
                v = vs[key]
                if k < 0:
                    ik = ('inv', i)
                    if ik not in vs:
                        vs[ik] = z3.Real('i%d' % i)
                        pos.append(vs[ik]*v == 1)
                    v = vs[ik]
                for _ in range(abs(k)):
                    e = e*v
            return e

        def term(t):
            e = z3.RealVal(0)
            for m, c in t.items():
                q = z3.Q(c.numerator, c.denominator)
                e = e + (q*mono(m) if m else q)
            return e
        goal = z3rel(term(x.t), NEG[rel])
        for t, r in self.facts:
            s.add(z3rel(term(t), r))
        s.add(goal)
        for p in list(pos):
            s.add(p)
        r = s.check()
        self._count('z3-LRA' if linear else 'z3-NRA', time.time() - t0)
        return r == z3.unsat

    def sign_split(self, x):
        s = self.sign(x)
        if s == '+':
            return 1
        if s == '-':
            return -1
        if s == '0':
            return 0
        opts = []
        if s != '0-':
            opts.append((1, '>'))
        if s != '0+':
            opts.append((-1, '<'))
        opts.append((0, '=='))
        k, rel = opts[self.choose(len(opts), 'sign of %s' % pstr(x.t, 4))]
        self.assume(x, rel)
        return k

    def require_nonzero(self, x):
        x = self.apply_subst(x)
        if self.distinct:
            b = self.relation(x, '!=')
            if b is True:
                self.oblig('definedness/nonzero divisor', True, 'precondition')
                return
            if isinstance(b, SymBool) and b.kind == 'Z' and self.zdecide(b) is True:
                self.oblig('definedness/nonzero divisor', True, 'z3-LIA')
                return
        if not self.iszero(x.t) and self.sign(x) in ('+', '-'):
            self.oblig('definedness/nonzero divisor', True, 'sign')
            return
        if self.iszero(x.t):
            raise ZeroDivisionError('division by zero')
        for t, rel in self.facts:
            if rel == '!=' and alg.primitive(t)[1] == alg.primitive(x.t)[1]:
                return
        if self.decide(x, '==') is False:
            self.oblig('definedness/nonzero divisor', True, 'z3')
            return
        self.oblig('definedness/nonzero divisor', self.assume_defined, 'assumed' if self.assume_defined else 'z3',
                   'cannot show %s != 0' % pstr(x.t))
        self._addfact(x.t, '!=')

    def require_nonneg(self, x):
        s = self.sign(x)
        if s in ('+', '0+', '0'):
            self.oblig('definedness/sqrt of non-negative', True, 'sign')
            return
        self.oblig('definedness/sqrt of non-negative', self.assume_defined, 'z3',
                   'cannot show %s >= 0' % pstr(x.t))
        self._addfact(x.t, '>=')

    # -- equality by exact normal form ---------------------------------------
    def iszero(self, t):
        """True iff t is identically zero under the definitions (exact); a
        numeric evaluation at a generic point rejects quickly"""
        if not t:
            return True
        if self.rsubst:
            t = self.apply_subst(R(t)).t
        if not t:
            return True
        if generic_nonzero(t):
            return False
        return not self.normal(t)

    def normal(self, t):
        """terms with the definitions expanded ({} iff identically zero);
        the result is t multiplied by a non-zero value"""
        if not t:
            return t
        if self.rsubst:
            t = self.apply_subst(R(t)).t
        # averages of laminate values first stay abbreviated: zero with the
        # abbreviations as free symbols is zero
        for stage in (0, 1):
            t = self._normal(t, stage)
            if not t:
                return t
        return t

    def _normal(self, t, stage):
        t = ints(t)
        for _ in range(200):
            mins = {}
            maxs = {}
            for m in t:
                for i, e in m:
                    if e < 0:
                        if e < mins.get(i, 0):
                            mins[i] = e
                    else:
                        if e > maxs.get(i, 0):
                            maxs[i] = e
            if mins:
                f = tuple(sorted((i, -e) for i, e in mins.items()))
                t = {alg.mmul(m, f): c for m, c in t.items()}
                continue
            done = True
            for i in sorted(maxs, reverse=True):
                a = ATOMS[i]
                if a.kind in ('den', 'abs'):
                    if stage == 0 and heavy(i):
                        continue
                    t = subst_ints(t, i, a.defn)
                    done = False
                    break
                if a.kind == 'sqrt' and maxs[i] >= 2:
                    if stage == 0 and heavy(i):
                        continue
                    t = ints(subst_sqrt(t, i, a.defn))
                    done = False
                    break
            if done:
                if self.rsubst:
                    t2 = self.apply_subst(R(t)).t
                    if t2 != t:
                        t = ints(t2)
                        continue
                break
            if not t:
                break
        return t

    def eq(self, a, b):
        a = R.lift(a)
        b = R.lift(b)
        if a is None or b is None:
            return False, 'type'
        d = a - b
        if not d.t:
            return True, 'normal form'
        g = d
        if self.rsubst:
            g = self.apply_subst(g)
        nz = bool(g.t) and generic_nonzero(g.t)
        if not nz and not self.normal(g.t):
            return True, 'normal form (expanded)'
        v = self.witness(a, b)
        if nz and v[0] != 'differs' and not self.normal(g.t):
            return True, 'normal form (expanded)'
        self.verdicts.append(v)
        return False, 'undecided' if v[0] != 'differs' else 'normal form + numeric witness'

    def sample(self, rng, mode=0):
        """random values of the variables that satisfy the facts of the path;
        mode > 0: other magnitudes than about one"""
        from .alg import numeric
        env = {}
        s = 10.**rng.uniform(-9, 4) if mode else 1.
        for a in ATOMS:
            if a.kind == 'var':
                n = a.name
                if a.sign in ('+', '0+'):
                    env[n] = 10.**rng.uniform(-6, 5) if mode > 1 else rng.uniform(0.3, 2.5)
                else:
                    env[n] = (10.**rng.uniform(-9, 4)*rng.choice([-1, 1]) if mode == 3 else s*rng.uniform(-2, 2))
        self.dependent(env)
        if any(rel == '==' for t, rel in self.facts):
            env = self.solved(env, rng)
            if env is None:
                return None
        if self.fits(env, 1e-3 if not mode else 0., {}):
            return env
        return None

    def dependent(self, env, mp=None):
        from .alg import numeric
        for k in range(len(self.rsubst)):
            for i, t in self.rsubst.items():
                env[ATOMS[i].name] = numeric(R(t), env, {}, mp)
            if len(self.rsubst) == 1:
                break

    def solved(self, env, rng):
        """these values, changed such that the equations of the path which do
        not define a variable hold to 50 digits; None if that fails"""
        from .alg import numeric
        import mpmath
        taken = {ATOMS[i].name for i in self.rsubst}
        with mpmath.workdps(60):
            menv = {k: mpmath.mpf(v) for k, v in env.items()}
            self.dependent(menv, mpmath.mpf)
            eqs = [R(t) for t, rel in self.facts if rel == '==' and not self.zero(t, menv, {}, mpmath.mpf)]
            if not eqs:
                return env
            if self._solves <= 0:
                return None
            self._solves -= 1
            names = []
            for e in eqs:
                c = sorted(basevars(e.t) - taken - set(names))
                if not c:
                    return None
                names.append(rng.choice(c))

            def f(*x):
                menv.update(zip(names, x))
                self.dependent(menv, mpmath.mpf)
                r = [numeric(e, menv, {}, mpmath.mpf) for e in eqs]
                return r if len(r) > 1 else r[0]
            try:
                x = [menv[n] for n in names]
                if len(x) == 1:
                    r = [mpmath.findroot(f, x[0], tol=1e-90, maxsteps=8, verify=False)]
                else:
                    r = list(mpmath.findroot(f, x, tol=1e-90, maxsteps=8, verify=False))
            except (ValueError, ZeroDivisionError, TypeError, KeyError, OverflowError):
                return None
            f(*r)
            env = dict(env)
            for n in names + sorted(taken):
                env[n] = menv[n]
            return env

    def zero(self, t, env, cache, mp=None):
        """is this sum zero up to the rounding of the numbers"""
        from .alg import numeric
        v = numeric(R(t), env, cache, mp)
        big = max([abs(numeric(R({m: c}), env, cache, mp)) for m, c in t.items()] + [0])
        return abs(v) <= (mp('1e-45') if mp else 1e-12)*big

    def fits(self, env, margin, cache, mp=None):
        """do these values satisfy the facts of the path"""
        from .alg import numeric
        for t, rel in self.facts:
            if rel == '==':
                if not self.zero(t, env, cache, mp):
                    return False
                continue
            v = numeric(R(t), env, cache, mp)
            if rel in ('!=', '<', '>'):
                if margin:
                    if abs(v) < margin:
                        return False
                elif abs(v) <= 1e-9*max([abs(numeric(R({m: c}), env, cache, mp)) for m, c in t.items()] + [0]):
                    return False
            if rel != '!=' and not OPS[rel](v):
                return False
        return True

    def model(self):
        """values from the solver (QF_NRA), as a sample"""
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 3000)
        vs = {}
        side = []

        def atom(i):
            if i not in vs:
                a = ATOMS[i]
                v = vs[i] = z3.Real('a%d' % i)
                if a.sign == '+':
                    side.append(v > 0)
                elif a.sign == '0+':
                    side.append(v >= 0)
                if a.kind in ('den', 'abs') and a.kind == 'den':
                    side.append(v == term(a.defn))
                elif a.kind == 'abs':
                    d = term(a.defn)
                    side.append(v == z3.If(d < 0, -d, d))
                elif a.kind == 'sqrt':
                    side.append(v*v == term(a.defn))
                elif a.kind == 'max':
                    ts = [term(t) for t in a.extra]
                    side.append(z3.Or([v == t for t in ts]))
                    side.extend(v >= t for t in ts)
            return vs[i]

        def term(t):
            e = z3.RealVal(0)
            for m, c in t.items():
                q = z3.Q(c.numerator, c.denominator)
                for i, k in m:
                    for _ in range(abs(k)):
                        q = q*atom(i) if k > 0 else q/atom(i)
                e = e + q
            return e
        t0 = time.time()
        for t, r in self.facts:
            s.add(z3rel(term(t), r))
        s.add(*side)
        r = s.check()
        self._count('z3-NRA', time.time() - t0)
        if r != z3.sat:
            return None
        m = s.model()
        env = {}
        for a in ATOMS:
            if a.kind == 'var':
                v = m[vs[a.id]] if a.id in vs else None
                if v is None:
                    env[a.name] = 1.25 if a.sign in ('+', '0+') else 0.75
                elif z3.is_algebraic_value(v):
                    w = v.approx(70)
                    env[a.name] = Fraction(w.numerator_as_long(), w.denominator_as_long())
                else:
                    env[a.name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        import mpmath
        with mpmath.workdps(60):
            env = {k: mpmath.mpf(v.numerator)/v.denominator if isinstance(v, Fraction) else v for k, v in env.items()}
            return env if self.fits(env, 0., {}) else None

    def samples(self, n=3):
        key = (len(ATOMS) and sum(1 for a in ATOMS if a.kind == 'var'), len(self.facts))
        if self._samples is not None and self._samples[0] == key:
            return self._samples[1]
        rng = random.Random(20)
        out = []
        self._solves = 12
        t0 = time.time()
        bad = (KeyError, ZeroDivisionError, OverflowError, TypeError, AttributeError, ValueError)
        try:
            for mode, tries in ((0, 3000), (1, 600), (2, 600), (3, 600), (0, 15000), (1, 3000), (2, 3000), (3, 3000)):
                got = 0
                for k in range(tries):
                    e = self.sample(rng, mode)
                    if e is not None:
                        out.append((e, {}))
                        got += 1
                        if got == n:
                            break
                    if k % 50 == 0 and time.time() - t0 > 5:
                        break
                if out and mode == 3:
                    break
        except bad:
            pass
        if not out:
            try:
                e = self.model()
                if e is not None:
                    out.append((e, {}))
            except bad + (z3.Z3Exception,):
                pass
        self._samples = (key, out)
        return out

    def witness(self, a, b):
        """('differs', env) with values at which a != b (40 digits); ('equal',
        None) when the two agree numerically; ('unknown', None) without samples"""
        from .alg import numeric
        import mpmath
        n = 0
        with mpmath.workdps(60):
            for env, cache in self.samples():
                try:
                    menv = {k: mpmath.mpf(v) for k, v in env.items()}
                    self.dependent(menv, mpmath.mpf)
                    if 'fits' not in cache:
                        cache['fits'] = self.fits(menv, 0., cache, mpmath.mpf)
                    if not cache['fits']:
                        continue
                    x = numeric(a, menv, cache, mpmath.mpf)
                    y = numeric(b, menv, cache, mpmath.mpf)
                except (KeyError, ZeroDivisionError, OverflowError, TypeError, AttributeError):
                    return ('unknown', None)
                n += 1
                if abs(x - y) > mpmath.mpf('1e-9')*(abs(x) + abs(y)) and abs(x - y) > mpmath.mpf('1e-30'):
                    return ('differs', {k: float(v) for k, v in env.items()})
        return ('equal' if n else 'unknown', None)

    # -- obligations ---------------------------------------------------------
    def oblig(self, name, ok, backend='', detail='', cex=None):
        if not ok and self.verdicts and backend.startswith('normal form'):
            d = [v for v in self.verdicts if v[0] == 'differs']
            if d:
                cex = cex or d[0][1]
            else:
                backend = 'undecided'
        self.verdicts = []
        self.obls.append(Obl(name, bool(ok), backend, detail, cex=cex))
        return ok

    def prove_eq(self, name, a, b, detail=''):
        try:
            ok, be = self.eq(a, b)
        except ZeroDivisionError:
            ok, be = False, 'division by zero'
        if ok:
            self.oblig(name, True, be)
            return True
        a_ = R.lift(a)
        b_ = R.lift(b)
        txt = detail
        if a_ is not None and b_ is not None:
            txt = '%s got %s, contract %s' % (detail, pstr(a_.t, 8), pstr(b_.t, 8))
        else:
            txt = '%s got %r, contract %r' % (detail, a, b)
        cex = None
        if self.verdicts and self.verdicts[-1][0] == 'differs':
            cex = self.verdicts[-1][1]
        self.oblig(name, False, be, txt[:1500], cex=cex)
        return False

    def prove(self, name, cond, backend='path', detail=''):
        """cond: bool or SymBool; never forks"""
        if isinstance(cond, SymBool):
            d = self.zdecide(cond) if cond.kind == 'Z' else self.decide(cond.x, cond.rel)
            self.oblig(name, d is True, 'z3', detail or ('cannot show %r' % (cond,))[:600])
            return d is True
        self.oblig(name, bool(cond), backend, detail)
        return bool(cond)


def ints(t):
    """t times a positive number such that the coefficients are coprime integers"""
    from math import gcd
    d = 1
    for c in t.values():
        k = c.denominator
        if k != 1:
            d = d*k//gcd(d, k)
    out = {m: (c.numerator*(d//c.denominator)) for m, c in t.items()}
    g = 0
    for c in out.values():
        g = gcd(g, c)
        if g == 1:
            return out
    return {m: c//g for m, c in out.items()} if g > 1 else out


def subst_ints(t, i, q):
    """t (integer coefficients, non-negative powers) times a positive number
    with atom i replaced by q"""
    from math import gcd
    d = 1
    for c in q.values():
        k = c.denominator
        d = d*k//gcd(d, k)
    q = {m: c.numerator*(d//c.denominator) for m, c in q.items()}
    by = {}
    for m, c in t.items():
        e = 0
        rest = m
        for k, (j, ee) in enumerate(m):
            if j == i:
                e = ee
                rest = m[:k] + m[k+1:]
                break
        by.setdefault(e, {})[rest] = c
    top = max(by)
    # Horner: out = (...(by[top]*q + d*by[top-1])*q + ...)
    out = by[top]
    mm = alg.mmul
    for e in range(top - 1, -1, -1):
        new = {}
        get = new.get
        for m2, c2 in q.items():
            for m1, c1 in out.items():
                m = mm(m1, m2)
                new[m] = get(m, 0) + c1*c2
        if e in by:
            f = d**(top - e)
            for m, c in by[e].items():
                new[m] = get(m, 0) + c*f
        out = {m: c for m, c in new.items() if c}
    return ints(out)


def basevars(t):
    """names of the variables of a sum, through the definitions of its atoms"""
    out, seen, todo = set(), set(), [t]
    while todo:
        for m in todo.pop():
            for i, e in m:
                if i not in seen:
                    seen.add(i)
                    a = ATOMS[i]
                    if a.kind == 'var':
                        out.add(a.name)
                    elif a.kind == 'max':
                        todo.extend(a.extra)
                    elif a.kind != 'opaque':
                        todo.append(a.defn)
    return out


_HEAVY = {}


def heavy(i):
    """does the definition of atom i contain laminate values?"""
    a = ATOMS[i]
    if a.extra in ('let', 'prop'):
        return True
    if not a.defn:
        return False
    k = (alg.EPOCH[0], i)
    h = _HEAVY.get(k)
    if h is None:
        if len(_HEAVY) > 100000:
            _HEAVY.clear()
        h = _HEAVY[k] = any(heavy(j) for m in a.defn for j, e in m)
    return h


_GEN = {}


def generic_nonzero(t):
    """True only if t is a non-zero function: value at a fixed generic point,
    definitions evaluated as written (|p| as its signed p, roots as free)"""
    if _GEN.get('epoch') != alg.EPOCH[0]:
        _GEN.clear()
        _GEN['epoch'] = alg.EPOCH[0]

    def aval(i):
        v = _GEN.get(i)
        if v is None:
            a = ATOMS[i]
            if a.kind in ('den', 'abs'):
                v = pval(a.defn)[0]
            elif a.kind in ('var', 'max', 'opaque', 'elem', 'big', 'cyc'):
                v = random.Random(1000 + i).uniform(0.5, 2)
            elif a.kind == 'sqrt':
                v = pval(a.defn)[0]
                v = v**0.5 if v >= 0 else (-v)**0.5*1j
            else:
                raise KeyError
            _GEN[i] = v
        return v

    def pval(p):
        s = 0.
        g = 0.
        for m, c in p.items():
            v = float(c)
            for i, e in m:
                v *= aval(i)**e
            s += v
            g += abs(v)
        return s, g
    try:
        s, g = pval(t)
    except (KeyError, ZeroDivisionError, OverflowError, TypeError):
        return False
    return abs(s) > 1e-6*g and abs(s) > 1e-12


def subst_terms(t, i, q):
    """replace atom i (non-negative exponents) by terms q"""
    by = {}
    for m, c in t.items():
        e = 0
        rest = m
        for k, (j, ee) in enumerate(m):
            if j == i:
                e = ee
                rest = m[:k] + m[k+1:]
                break
        by.setdefault(e, {})[rest] = c
    if any(e < 0 for e in by):
        # negative powers stay
        keep = {alg.mmulc(m, ((i, e),)): c for e in by if e < 0 for m, c in by[e].items()}
    else:
        keep = {}
    out = keep
    pw = {0: {(): Fraction(1)}}
    last = 0
    for e in sorted(k for k in by if k >= 0):
        while last < e:
            pw[last+1] = alg.pmul(pw[last], q)
            last += 1
        out = alg.padd(out, alg.pmul(by[e], pw[e]) if e else by[e])
    return out


def subst_sqrt(t, i, q):
    out = {}
    pw = {}
    for m, c in t.items():
        e = 0
        rest = m
        for k, (j, ee) in enumerate(m):
            if j == i:
                e = ee
                rest = m[:k] + m[k+1:]
                break
        if e < 2:
            out = alg.padd(out, {m: c})
            continue
        h, r = divmod(e, 2)
        if h not in pw:
            pw[h] = alg.ppow(q, h)
        if r:
            rest = alg.mmul(rest, ((i, 1),))
        out = alg.padd(out, alg.pmul({rest: c}, pw[h]))
    return out


class PathResult:
    __slots__ = ('log', 'obls', 'out', 'exc', 'err', 'wall', 'queries', 'solver_s', 'notes')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def explore(program, maxpaths=4000, deadline=None, first=()):
    """Run `program(ctx)` over all feasible combinations of choices.

    Yields PathResult.  `program` returns an object or raises; Infeasible paths
    are dropped; Unsupported is reported in .err.
    """
    prefix = list(first)
    fixed = len(prefix)
    n = 0
    while True:
        alg.reset()
        ctx = Ctx(prefix)
        alg.set_ctx(ctx)
        t0 = time.time()
        out = exc = err = None
        drop = False
        try:
            out = program(ctx)
        except Infeasible:
            drop = True
        except PathLimit as e:
            err = 'path limit: %s' % e
        except alg.Breach as e:
            err = 'breach: %s' % e
            for t in e.tags or ('C00',):
                ctx.oblig('%s %s' % (t, str(e).partition(':')[0]), False, 'symbolic execution', str(e))
        except Unsupported as e:
            err = 'unsupported: %s' % e
        except RecursionError as e:
            err = 'recursion: %s' % e
        except Exception as e:
            import traceback
            exc = e
            err = 'exception %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
        if not drop:
            n += 1
            yield PathResult(log=list(ctx.log), obls=ctx.obls, out=out, exc=exc, err=err,
                             wall=time.time()-t0, queries=ctx.queries, solver_s=ctx.solver_s,
                             notes=ctx.notes)
        log = ctx.log
        i = len(log) - 1
        while i >= fixed and log[i][0] + 1 >= log[i][1]:
            i -= 1
        if i < fixed:
            return
        prefix = [c for c, _, _ in log[:i]] + [log[i][0] + 1]
        if n >= maxpaths:
            yield PathResult(log=[], obls=[], err='path limit: more than %d paths' % maxpaths, queries={}, solver_s=0., notes=[], wall=0.)
            return
        if deadline and time.time() > deadline:
            yield PathResult(log=[], obls=[], err='time limit', queries={}, solver_s=0., notes=[], wall=0.)
            return
