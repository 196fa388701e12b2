"""Deductive verification of code that builds object graphs (the mesh readers).

The functions are parsed from the working tree on every run and executed on a
symbolic heap.  Nothing is unrolled that depends on the input:

  objects     (allocation site, values of the loop variables at the allocation)
  effects     attribute writes, list/set insertions, dictionary entries; what a
              loop does for an arbitrary element is executed once for a fresh
              variable and becomes, at the end of the loop, an effect quantified
              over that variable under its path condition
  loops       a loop is accepted when no iteration reads what another iteration
              writes (z3); counters `c += k` get their closed form, other
              locals assigned in the body are unknown after the loop
  reads       the write that is read is found by matching the object against the
              targets of the effects; the match has to be certain (z3), writes
              of other effects have to be impossible (z3)

Whatever cannot be decided raises Unsupported: the property is then left to the
bounded layer.  Postconditions are z3 queries over uninterpreted functions (the
triangulation or the deck), quantified over all triangles and nodes.
"""
import ast
import itertools
import os

from .ctx import z3

from .alg import Unsupported

_n = itertools.count()


def fresh(name='b', sort=None):
    return z3.Const('%s!%d' % (name, next(_n)), z3.IntSort() if sort is None else sort)


class Obj:
    __slots__ = ('cls', 'site', 'args')

    def __init__(self, cls, site, args=()):
        self.cls, self.site, self.args = cls, site, tuple(args)

    def __repr__(self):
        return '%s@%s(%s)' % (self.cls if isinstance(self.cls, str) else self.cls.name, '/'.join(map(str, self.site)), ','.join(map(str, self.args)))


class Vec:
    """tuple, or a short array that nobody writes to"""
    def __init__(self, items, kind='tuple'):
        self.items, self.kind = list(items), kind

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)


class Seq:
    """input array of unknown length; fn(i) is element i"""
    def __init__(self, n, fn, name, width=None):
        self.n, self.fn, self.name, self.width = n, fn, name, width


class Rng:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class View:
    def __init__(self, kind, d):
        self.kind, self.d = kind, d


class Lazy:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


class Str:
    """text of unknown content"""


class TypeName:
    """name of the card of an element"""
    def __init__(self, o):
        self.o = o


class Poison:
    def __init__(self, why):
        self.why = why


class Frozen:
    """frozenset of two integers"""
    def __init__(self, a, b):
        self.items = [imin(a, b), imax(a, b)]


class Func:
    def __init__(self, node, mod, name, cls=None):
        self.node, self.mod, self.name, self.cls = node, mod, name, cls
        self.defaults = None
        self.kwdefaults = None


class Cls:
    def __init__(self, name, ns, bases=()):
        self.name, self.ns, self.bases = name, ns, bases


class Ext:
    """contract of something outside the repository"""
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Mod:
    def __init__(self, name):
        self.name, self.ns = name, {}


class Effect:
    __slots__ = ('kind', 'obj', 'name', 'value', 'binders', 'guard', 'order')

    def __init__(self, kind, obj, name, value, binders, guard, order):
        self.kind, self.obj, self.name, self.value = kind, obj, name, value
        self.binders, self.guard, self.order = list(binders), guard, order


class Raised:
    def __init__(self, exc, binders, guard):
        self.exc, self.binders, self.guard = exc, list(binders), guard


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Cont(Exception):
    pass


class _Dead(Exception):
    """the path raises"""


def isz(x):
    return isinstance(x, z3.ExprRef)


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))


def isbool(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


def isnum(x):
    return isint(x) or isinstance(x, float) or (isz(x) and z3.is_real(x))


def simp(x):
    if not isz(x):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zr(x):
    if isinstance(x, (int, float)):
        from fractions import Fraction
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return z3.ToReal(x) if z3.is_int(x) else x


def imin(a, b):
    return simp(z3.If(zi(a) <= zi(b), zi(a), zi(b)))


def imax(a, b):
    return simp(z3.If(zi(a) <= zi(b), zi(b), zi(a)))


def conj(l):
    l = [zb(x) for x in l]
    return simp(z3.And(*l)) if l else True


def subst(v, sub):
    """sub: list of (const, term)"""
    if not sub:
        return v
    if isz(v):
        return simp(z3.substitute(v, *[(a, zi(b) if z3.is_int(a) else zb(b)) for a, b in sub]))
    if isinstance(v, Obj):
        return Obj(v.cls, v.site, [subst(a, sub) for a in v.args]) if v.args else v
    if isinstance(v, Vec):
        return Vec([subst(a, sub) for a in v.items], v.kind)
    if isinstance(v, Frozen):
        return Frozen(*[subst(a, sub) for a in v.items])
    if isinstance(v, (View, Lazy, Rng)):
        raise Unsupported('substitution in a %s' % type(v).__name__)
    if isinstance(v, TypeName):
        return TypeName(subst(v.o, sub))
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.self_, sub))
    return v


def consts(x, out=None):
    """free constants of a term"""
    out = set() if out is None else out
    todo = [x]
    seen = set()
    while todo:
        t = todo.pop()
        if not isz(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        else:
            todo += t.children()
    return out


def occurs(v, names):
    if isz(v):
        return bool(consts(v) & names)
    if isinstance(v, Obj):
        return any(occurs(a, names) for a in v.args)
    if isinstance(v, (Vec, Frozen)):
        return any(occurs(a, names) for a in v.items)
    if isinstance(v, TypeName):
        return occurs(v.o, names)
    if isinstance(v, Bound):
        return occurs(v.self_, names)
    if isinstance(v, View):
        return occurs(v.d, names)
    if isinstance(v, Rng):
        return occurs(v.lo, names) or occurs(v.hi, names)
    if isinstance(v, Lazy):
        return any(occurs(a, names) for a in v.a)
    return False


class Heap:
    """one run of the verified functions"""

    def __init__(self, repo, contracts, c=None):
        self.repo = repo
        self.contracts = contracts      # (module, name) -> value
        self.c = c
        self.log = []
        self.reads = []                 # (kind, obj, name/key, pc, position)
        self.axioms = []
        self.facts = []
        self.pc = []
        self.binders = []               # binders of the enclosing loops
        self.orders = []                # (binder, lo, hi) of the enclosing loops
        self.raises = []
        self.mods = {}
        self.depth = 0
        self.stack = []
        self.steps = 0
        self.queries = 0
        self.functions = set()
        self.rec = True
        self.real = {}                  # modules outside the repository that are executed, too
        self.loopbase = []
        self.frames = []

    # -- logic

    def solver(self, ms=8000):
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 1)
        for a in self.axioms + self.facts + [zb(x) for x in self.pc]:
            s.add(a)
        return s

    def prove(self, goal, extra=(), ms=8000):
        """True: valid, False: refuted, None: unknown"""
        goal = simp(goal) if isz(goal) else goal
        if goal is True:
            return True
        self.queries += 1
        s = self.solver(ms)
        for x in extra:
            s.add(zb(x))
        s.add(z3.Not(zb(goal)))
        import time
        t0 = time.time()
        r = s.check()
        if self.c is not None:
            self.c._count('z3 with quantifiers', time.time() - t0)
        self.last = s
        return True if r == z3.unsat else False if r == z3.sat else None

    def must(self, goal, what):
        r = self.prove(goal)
        if r is not True:
            raise Unsupported(what)

    # -- equality and matching

    def eqs(self, a, b):
        """conditions (list of pairs of terms) for a and b being the same value,
        or None when they cannot be"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.site != b.site or len(a.args) != len(b.args):
                return None
            return list(zip(a.args, b.args))
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, (Seq, View, Lazy)) or isinstance(b, (Seq, View, Lazy)):
                raise Unsupported('comparison of %r and %r' % (a, b))
            return None
        if isint(a) and isint(b):
            return [(a, b)]
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.items) != len(b.items) or a.kind != b.kind:
                return None
            out = []
            for x, y in zip(a.items, b.items):
                e = self.eqs(x, y)
                if e is None:
                    return None
                out += e
            return out
        if isinstance(a, Frozen) and isinstance(b, Frozen):
            return list(zip(a.items, b.items))
        if a is None or b is None:
            if a is b:
                return []
            if isinstance(a if b is None else b, (Str, bool, str, float, int, Vec, Frozen, Seq)) or isz(a if b is None else b):
                return None
        if isinstance(a, str) and isinstance(b, str):
            return [] if a == b else None
        if isinstance(a, (Vec, Frozen)) != isinstance(b, (Vec, Frozen)) and not isinstance(a, Str) and not isinstance(b, Str):
            return None
        if isinstance(a, str) and isint(b) or isinstance(b, str) and isint(a):
            return None
        raise Unsupported('comparison of %r and %r' % (a, b))

    def solve(self, eqs, binders):
        """Solve the equations for the binders: (substitution, residual
        conditions, unsolved binders)."""
        sub = []
        left = list(binders)
        eqs = list(eqs)
        progress = True
        while progress and left:
            progress = False
            for i, (a, b) in enumerate(eqs):
                d = simp(zi(a) - zi(b))
                if isinstance(d, int):
                    continue
                for x in left:
                    nm = {x.decl().name()}
                    for s in (1, -1):
                        rest = simp(zi(d) - s*x)
                        if not occurs(rest, nm):
                            # s*x + rest == 0
                            t = simp(-zi(rest)) if s == 1 else rest
                            # t may use other binders that are still open
                            if any(occurs(t, {y.decl().name()}) for y in left if not y.eq(x)):
                                continue
                            sub = [(y, subst(u, [(x, t)])) for y, u in sub] + [(x, t)]
                            left = [y for y in left if not y.eq(x)]
                            eqs = [(subst(p, [(x, t)]), subst(q, [(x, t)])) for j, (p, q) in enumerate(eqs) if j != i]
                            progress = True
                            break
                    if progress:
                        break
                if progress:
                    break
        res = []
        for a, b in eqs:
            e = simp(zi(a) == zi(b))
            if e is not True:
                res.append(e)
        return sub, res, left

    def renamed(self, e):
        """the effect with fresh binders"""
        sub = [(b, fresh(b.decl().name().split('!')[0])) for b in e.binders]
        r = Effect(e.kind, subst(e.obj, sub), subst(e.name, sub), subst(e.value, sub), [y for _, y in sub], subst(e.guard, sub), None)
        if e.order:
            b, lo, hi = e.order
            r.order = (subst(b, sub), lo, hi)
        return r

    # -- effects

    def emit(self, kind, obj, name, value):
        self.log.append(Effect(kind, obj, name, value, [], True, None))
        # the guard of the enclosing loops is added when they end; what holds
        # inside the iteration is added here
        self.log[-1].guard = conj(self.pc[self.base():])

    def base(self):
        return self.loopbase[-1] if self.loopbase else 0

    def note(self, kind, obj, name):
        if self.rec and self.binders:
            self.reads.append((kind, obj, name, list(self.pc), len(self.log)))

    def alloc(self, cls, node, extra=()):
        return Obj(cls, (node if isinstance(node, str) else '%s:%d:%d' % (self.where(), node.lineno, node.col_offset),) + tuple(self.stack) + tuple(extra), self.binders)

    def where(self):
        return self.frames[-1].mod.name if self.frames else 'module'

    def match(self, e, eqs):
        """(substitution, condition, open binders) under which the renamed
        effect e satisfies the equations"""
        sub, res, left = self.solve(eqs, e.binders)
        cond = conj([subst(e.guard, sub)] + [subst(zb(r), sub) for r in res])
        return sub, cond, left

    def find(self, kinds, obj, name=None, key=None):
        """the last certain write, as a value; None when there is none"""
        for e in reversed(self.log):
            if e.kind not in kinds or e.obj.site != obj.site:
                continue
            if name is not None and e.name != name:
                continue
            if len(e.obj.args) != len(obj.args):
                raise Unsupported('objects of one place with different numbers of loop variables')
            e = self.renamed(e)
            eqs = list(zip(e.obj.args, obj.args))
            if key is not None:
                q = self.eqs(e.name, key)
                if q is None:
                    continue
                eqs += q
            sub, cond, left = self.match(e, eqs)
            if cond is False:
                continue
            if left:
                ex = z3.Exists(left, zb(cond))
                if self.prove(z3.Not(ex)) is True:
                    continue
                if e.kind == 'attr' and not occurs(subst(e.value, sub), {x.decl().name() for x in left}) and self.prove(ex) is True:
                    # written several times, always with the same value
                    return [subst(e.value, sub)]
                raise Unsupported('several loop iterations write %s' % (name or 'an entry'))
            r = self.prove(cond)
            if r is True:
                return [subst(e.value, sub)]
            if self.prove(z3.Not(zb(cond))) is True:
                continue
            raise Unsupported('it depends on the input whether %s of %r has been written' % (name or 'the entry', obj))
        return None

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Obj):
            self.note('attr', o, name)
            v = self.find(('attr',), o, name=name)
            if v is not None:
                return v[0]
            cls = o.cls
            if cls == 'elem' and 'elemcls' in self.contracts:
                if name == 'type' and self.prove(self.contracts['kind'](o) == 0) is not True:
                    return TypeName(o)
                self.must(self.contracts['kind'](o) == 0, 'use of an element that may not be a triangle')
                cls = self.contracts['elemcls'](self)
            if isinstance(cls, Cls):
                m = self.clsattr(cls, name)
                if m is not None:
                    m = m[0]
                    if isinstance(m, Poison):
                        raise Unsupported(m.why)
                    if isinstance(m, Func):
                        if any(isinstance(d, ast.Name) and d.id == 'property' for d in m.node.decorator_list):
                            return self.call(Bound(m, o), [], {}, m.node)
                        if m.node.decorator_list:
                            raise Unsupported('decorated method')
                        return Bound(m, o)
                    return m
                if name == '__class__':
                    return cls
                raise Unsupported('attribute %s that is not set' % name)
            m = self.method(o, name)
            if m is not None:
                return m
            raise Unsupported('attribute %s of a %s that is not set' % (name, cls))
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, Ext):
            if (o.name, name) in self.contracts:
                return self.contracts[o.name, name]
            raise Unsupported('%s.%s has no contract' % (o.name, name))
        if isinstance(o, Seq):
            if name == 'shape':
                return Vec([o.n] + ([o.width] if o.width is not None else []))
            if name == 'ndim':
                return 2
            if name in ('tolist', 'copy'):
                return Ext('same', lambda h, a, k, n: o)
            if name == 'astype':
                return Ext('same', lambda h, a, k, n: o)
        if isinstance(o, Vec):
            if o.kind == 'array' and name in ('copy', 'tolist', 'astype'):
                return Ext('same', lambda h, a, k, n: o)
            if o.kind == 'array' and name == 'shape':
                return Vec([len(o.items)])
            if o.kind == 'array' and name == 'size':
                return len(o.items)
        if isinstance(o, (Str, str)):
            return Ext('text', lambda h, a, k, n: Str())
        if isinstance(o, Cls):
            m = self.clsattr(o, name)
            if m is not None:
                return m[0]
            if name == '__name__':
                return o.name
        raise Unsupported('attribute %s of %r' % (name, o))

    def clsattr(self, cls, name):
        if name in cls.ns:
            return [cls.ns[name]]
        for b in cls.bases:
            if isinstance(b, Cls):
                m = self.clsattr(b, name)
                if m is not None:
                    return m
            elif not (isinstance(b, Ext) and b.name == 'object'):
                raise Unsupported('class with the base %r' % b)
        return None

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            if isinstance(b, Cls):
                out += self.mro(b)
        return out

    def setattr(self, o, name, v):
        if not isinstance(o, Obj):
            raise Unsupported('attribute %s of %r is set' % (name, o))
        if isinstance(o.cls, Cls) and (self.clsattr(o.cls, '__setattr__') or self.clsattr(o.cls, '__slots__')):
            raise Unsupported('class with own attribute handling')
        if isinstance(o.cls, Cls):
            m = self.clsattr(o.cls, name)
            if m is not None and isinstance(m[0], Func):
                raise Unsupported('attribute %s hides a method' % name)
        if o.cls == 'elem' and 'elemcls' in self.contracts:
            m = self.clsattr(self.contracts['elemcls'](self), name)
            if m is not None and isinstance(m[0], Func):
                raise Unsupported('attribute %s hides a method' % name)
        self.emit('attr', o, name, v)

    # -- containers

    def elements(self, o, note=True):
        """insertions of a list or set: list of (binders, guard, value, order)"""
        if note:
            self.note('content', o, None)
        out = []
        for e in self.log:
            if e.obj.site != o.site:
                continue
            if e.kind in ('scramble',):
                raise Unsupported('a reordered or reduced list')
            if e.kind != 'put':
                continue
            e = self.renamed(e)
            sub, cond, left = self.match(e, list(zip(e.obj.args, o.args)))
            if cond is False:
                continue
            if not left:
                r = self.prove(cond)
                if r is True:
                    out.append(([], True, subst(e.value, sub), None))
                    continue
                if self.prove(z3.Not(zb(cond))) is True:
                    continue
            order = None
            if e.order and not sub:
                order = e.order
            out.append((left, cond, subst(e.value, sub), order))
        return out

    def count(self, o, v):
        """how often v has been put into the container, as a list of
        conditions (each counts once)"""
        out = []
        for e in self.log:
            if e.obj.site != o.site or e.kind not in ('put', 'scramble'):
                continue
            if e.kind == 'scramble':
                raise Unsupported('a reordered or reduced list')
            e = self.renamed(e)
            q = self.eqs(e.value, v)
            if q is None:
                continue
            sub, cond, left = self.match(e, list(zip(e.obj.args, o.args)) + q)
            if cond is False:
                continue
            if left:
                if self.prove(z3.Not(z3.Exists(left, zb(cond)))) is True:
                    continue
                raise Unsupported('insertions that are not told apart by what is inserted')
            out.append(zb(cond))
        return out

    def entries(self, d):
        """entries of a dictionary: list of (binders, guard, key, value, order)"""
        self.note('content', d, None)
        sets, touches = [], []
        for e in self.log:
            if e.obj.site != d.site:
                continue
            if e.kind == 'scramble':
                raise Unsupported('entries are removed')
            if e.kind in ('item', 'touch'):
                e = self.renamed(e)
                sub, cond, left = self.match(e, list(zip(e.obj.args, d.args)))
                if cond is False:
                    continue
                (sets if e.kind == 'item' else touches).append((left, cond, subst(e.name, sub), subst(e.value, sub), e.order if not sub else None))
        if sets and touches:
            raise Unsupported('dictionary filled in two ways')
        if sets:
            for i, (B, g, k, v, o) in enumerate(sets):
                ks = self.keyterms(k)
                kk = [fresh('k') for _ in ks]
                sub, res, left = self.solve(list(zip(ks, kk)), B)
                if left:
                    B2 = [fresh('b') for _ in B]
                    s2 = list(zip(B, B2))
                    same = conj([zi(a) == zi(subst(a, s2)) for a in ks])
                    if self.prove(z3.Implies(z3.And(zb(g), zb(subst(g, s2)), zb(same)), z3.And(*[a == b for a, b in s2]))) is not True:
                        raise Unsupported('entries of a dictionary that overwrite one another')
                for B2, g2, k2, v2, o2 in sets[:i]:
                    q = self.eqs(k, k2)
                    if q is not None and self.prove(z3.Not(z3.And(zb(g), zb(g2), *[zi(a) == zi(b) for a, b in q]))) is not True:
                        raise Unsupported('entries of a dictionary that overwrite one another')
            return sets
        if touches:
            shapes = {(type(k).__name__, getattr(k, 'kind', ''), len(self.keyterms(k))) for _, _, k, _, _ in touches}
            if len(shapes) != 1:
                raise Unsupported('keys of different kinds')
            k0 = touches[0][2]
            nk = len(self.keyterms(k0))
            kk = [fresh('k') for _ in range(nk)]
            key = self.keylike(k0, kk)
            g = []
            for B, gg, k, v, o in touches:
                c = conj([gg] + [zi(a) == b for a, b in zip(self.keyterms(k), kk)])
                g.append(z3.Exists(B, zb(c)) if B else zb(c))
            val = self.defaultobj(d, touches[0][3], kk)
            return [(kk, z3.Or(*g) if len(g) > 1 else g[0], key, val, None)]
        return []

    def defaultobj(self, d, proto, kk):
        return Obj(proto.cls, proto.site, tuple(d.args) + tuple(kk))

    def keyterms(self, k):
        if isint(k):
            return [k]
        if isinstance(k, Frozen) or isinstance(k, Vec) and k.kind == 'tuple' and all(isint(x) for x in k.items):
            return list(k.items)
        if isinstance(k, Obj):
            raise Unsupported('objects as keys')
        raise Unsupported('key %r' % (k,))

    def keylike(self, k, kk):
        if isint(k):
            return kk[0]
        if isinstance(k, Vec):
            return Vec(kk)
        f = Frozen(0, 0)
        f.items = list(kk)
        return f

    def getitem(self, d, k, default=None):
        self.keyterms(k)
        if d.cls == 'defaultdict' and not any(e.kind == 'item' and e.obj.site == d.site for e in self.log):
            # presence is monotone: entries are never removed
            if self.prove(self.present(d, k)) is True:
                return Obj(self.factory(d), d.site + ('default',), tuple(d.args) + tuple(self.keyterms(k)))
            return self.touch(d, k, self.factory(d))
        self.note('item', d, k)
        if any(e.kind in ('touch', 'scramble') and e.obj.site == d.site for e in self.log):
            if any(e.kind in ('item', 'scramble') and e.obj.site == d.site for e in self.log):
                raise Unsupported('dictionary filled in two ways')
            cond = self.haskey(d, k)
            self.must(cond, 'an entry that may be missing is read')
            e = [e for e in self.log if e.kind == 'touch' and e.obj.site == d.site][0]
            return self.defaultobj(d, e.value, self.keyterms(k))
        v = self.find(('item',), d, key=k)
        if v is None:
            raise Unsupported('an entry that is not there is read')
        return v[0]

    def haskey(self, d, k):
        """condition for k being a key"""
        self.note('has', d, k)
        return self.present(d, k)

    def present(self, d, k):
        out = []
        for e in self.log:
            if e.obj.site != d.site or e.kind not in ('item', 'touch', 'scramble'):
                continue
            if e.kind == 'scramble':
                raise Unsupported('entries are removed')
            e = self.renamed(e)
            q = self.eqs(e.name, k)
            if q is None:
                continue
            sub, cond, left = self.match(e, list(zip(e.obj.args, d.args)) + q)
            if cond is False:
                continue
            out.append(z3.Exists(left, zb(cond)) if left else zb(cond))
        return z3.Or(*out) if out else False

    def factory(self, d):
        v = self.find(('factory',), d, name='factory')
        if v is None:
            raise Unsupported('default of a dictionary')
        return v[0]

    def touch(self, d, k, cls):
        if any(e.kind == 'item' and e.obj.site == d.site for e in self.log):
            raise Unsupported('dictionary filled in two ways')
        o = Obj(cls, d.site + ('default',), tuple(d.args) + tuple(self.keyterms(k)))
        self.emit('touch', d, k, o)
        return o

    def setitem(self, d, k, v):
        self.keyterms(k)
        if d.cls not in ('dict', 'defaultdict'):
            raise Unsupported('assignment to an entry of a %s' % d.cls)
        if any(e.kind == 'touch' and e.obj.site == d.site for e in self.log):
            raise Unsupported('dictionary filled in two ways')
        self.emit('item', d, k, v)

    # -- iteration

    def families(self, v):
        """what iterating v yields: list of (binders, guard, value, order)"""
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (Vec,)):
            return [([], True, x, None) for x in v.items]
        if isinstance(v, Frozen):
            raise Unsupported('iteration of a frozenset')
        if isinstance(v, Rng):
            lo, hi = simp(v.lo), simp(v.hi)
            if isinstance(lo, int) and isinstance(hi, int):
                if hi - lo > 64:
                    raise Unsupported('long range')
                return [([], True, i, None) for i in range(lo, hi)]
            b = fresh('i')
            return [([b], conj([zi(lo) <= b, b < zi(hi)]), b, (b, lo, hi))]
        if isinstance(v, Seq):
            b = fresh('t' if v.name == 'simplices' else 'p')
            return [([b], conj([0 <= b, b < zi(v.n)]), v.fn(b), (b, 0, v.n))]
        if isinstance(v, Obj) and v.cls in ('list', 'set'):
            return self.elements(v)
        if isinstance(v, Obj) and v.cls in ('dict', 'defaultdict'):
            return [(B, g, k, o) for B, g, k, x, o in self.entries(v)]
        if isinstance(v, View):
            return [(B, g, k if v.kind == 'keys' else x if v.kind == 'values' else Vec([k, x]), o) for B, g, k, x, o in self.entries(v.d)]
        if isinstance(v, Lazy) and v.kind == 'enumerate':
            f = self.families(v.a[0])
            if all(not B for B, g, x, o in f):
                return [([], True, Vec([simp(zi(v.a[1]) + i), x]), None) for i, (B, g, x, o) in enumerate(f)]
            if len(f) == 1 and f[0][3]:
                B, g, x, o = f[0]
                return [(B, g, Vec([simp(zi(v.a[1]) + o[0] - zi(o[1])), x]), o)]
            raise Unsupported('numbering of a collection without order')
        if isinstance(v, Lazy) and v.kind == 'zip':
            fs = [self.families(x) for x in v.a]
            if all(not B for f in fs for B, g, x, o in f):
                return [([], True, Vec([q[2] for q in z]), None) for z in zip(*fs)]
            if all(len(f) == 1 and f[0][3] for f in fs):
                B, g, x, o = fs[0][0]
                vals = [x]
                gs = [g]
                for f in fs[1:]:
                    B2, g2, x2, o2 = f[0]
                    self.must(zi(o2[2]) - zi(o2[1]) == zi(o[2]) - zi(o[1]), 'sequences of different lengths in parallel')
                    s = [(o2[0], simp(o[0] - zi(o[1]) + zi(o2[1])))]
                    vals.append(subst(x2, s))
                    gs.append(subst(g2, s))
                return [(B, conj(gs), Vec(vals), o)]
            raise Unsupported('parallel iteration')
        if isinstance(v, Lazy) and v.kind == 'chain':
            return [f[:3] + (None,) for x in v.a for f in self.families(x)]
        if isinstance(v, Lazy) and v.kind == 'reversed':
            f = self.families(v.a[0])
            return [(B, g, x, None) for B, g, x, o in reversed(f)]
        raise Unsupported('iteration over %r' % (v,))

    def index(self, v, i):
        """v[i]"""
        if isinstance(v, Vec):
            if isinstance(i, int):
                if not -len(v.items) <= i < len(v.items):
                    raise Unsupported('index out of range')
                return v.items[i]
            raise Unsupported('symbolic index of a tuple')
        if isinstance(v, Seq):
            if not isint(i):
                raise Unsupported('index %r' % (i,))
            self.must(conj([zi(i) >= 0, zi(i) < zi(v.n)]), 'index that may be out of range')
            return v.fn(zi(i))
        if isinstance(v, Obj) and v.cls in ('dict', 'defaultdict'):
            return self.getitem(v, i)
        if isinstance(v, Obj) and v.cls == 'list':
            f = self.elements(v)
            if not isint(i):
                raise Unsupported('index %r' % (i,))
            if all(not B and g is True for B, g, x, o in f) and isinstance(i, int):
                if not -len(f) <= i < len(f):
                    raise Unsupported('index out of range')
                return f[i][2]
            if len(f) == 1 and f[0][3] and len(f[0][0]) == 1:
                B, g, x, o = f[0]
                b, lo, hi = o
                full = conj([zi(lo) <= b, b < zi(hi)])
                self.must(z3.Implies(zb(full), zb(g)), 'index into a filtered list')
                self.must(conj([zi(i) >= 0, zi(i) < zi(hi) - zi(lo)]), 'index that may be out of range')
                return subst(x, [(b, simp(zi(i) + zi(lo)))])
            raise Unsupported('index into a list without known order')
        raise Unsupported('subscript of %r' % (v,))

    def length(self, v):
        if isinstance(v, Vec):
            return len(v.items)
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Obj) and v.cls == 'list':
            f = self.elements(v)
            if all(not B and g is True for B, g, x, o in f):
                return len(f)
            if len(f) == 1 and f[0][3] and len(f[0][0]) == 1:
                b, lo, hi = f[0][3]
                self.must(z3.Implies(zb(conj([zi(lo) <= b, b < zi(hi)])), zb(f[0][1])), 'length of a filtered list')
                return simp(z3.If(zi(hi) >= zi(lo), zi(hi) - zi(lo), 0))
        if isinstance(v, Frozen):
            return simp(z3.If(zi(v.items[0]) == zi(v.items[1]), z3.IntVal(1), z3.IntVal(2)))
        if isinstance(v, str):
            return len(v)
        if self.intext:
            # only ever becomes part of a text about which nothing is decided
            return Poison('length of %r in a message' % (v,))
        raise Unsupported('length of %r' % (v,))

    intext = 0

    def text(self, *nodes):
        """evaluates what is put into a text"""
        self.intext += 1
        try:
            for x in nodes:
                self.ev(x)
        finally:
            self.intext -= 1
        return Str()

    def method(self, o, name):
        m = getattr(self, 'm_%s_%s' % ({'defaultdict': 'dict'}.get(o.cls, o.cls), name), None)
        if m is not None:
            return Ext('%s.%s' % (o.cls, name), lambda h, a, k, n, m=m: m(o, a, k, n))
        f = self.contracts.get((o.cls, name))
        if f is not None:
            if isinstance(f, Ext) and f.name == 'property':
                return f.fn(self, o)
            return Ext('%s.%s' % (o.cls, name), lambda h, a, k, n: f(h, o, a, k, n))
        return None

    def m_list_append(self, o, a, k, n):
        if len(a) != 1 or k:
            raise Unsupported('append with %d arguments' % len(a))
        self.emit('put', o, None, a[0])

    def m_list_extend(self, o, a, k, n):
        self.fill(o, a[0], n)

    def m_list_copy(self, o, a, k, n):
        return self.newlist('list', o, n)

    def m_set_add(self, o, a, k, n):
        self.byidentity(a[0])
        self.emit('put', o, None, a[0])

    def byidentity(self, v):
        """objects in sets are told apart by identity"""
        if isinstance(v, Obj) and (v.cls == 'elem' or not isinstance(v.cls, Cls) or self.clsattr(v.cls, '__eq__') or self.clsattr(v.cls, '__hash__')):
            raise Unsupported('%r in a set' % (v,))
        if isinstance(v, Vec):
            for x in v.items:
                self.byidentity(x)

    def m_set_update(self, o, a, k, n):
        for x in a:
            self.fill(o, x, n)

    def m_set_copy(self, o, a, k, n):
        return self.newlist('set', o, n)

    def m_dict_items(self, o, a, k, n):
        return View('items', o)

    def m_dict_keys(self, o, a, k, n):
        return View('keys', o)

    def m_dict_values(self, o, a, k, n):
        return View('values', o)

    def m_dict_setdefault(self, o, a, k, n):
        if len(a) != 2 or not isinstance(a[1], Obj) or a[1].cls not in ('list', 'set') or not isinstance(n.args[1], (ast.List, ast.Call)) or \
                (isinstance(n.args[1], ast.Call) and n.args[1].args):
            raise Unsupported('setdefault')
        if isinstance(n.args[1], ast.List) and n.args[1].elts:
            raise Unsupported('setdefault')
        self.keyterms(a[0])
        return self.touch(o, a[0], a[1].cls)

    def m_dict_get(self, o, a, k, n):
        c = self.haskey(o, a[0])
        if self.prove(c) is True:
            return self.getitem(o, a[0])
        if self.prove(z3.Not(zb(c))) is True:
            return a[1] if len(a) > 1 else None
        raise Unsupported('an entry that may be missing is read')

    def fill(self, o, v, node):
        for B, g, x, order in self.families(v):
            if o.cls == 'set':
                self.byidentity(x)
            if not B:
                if g is not True:
                    self.under(g, lambda: self.emit('put', o, None, x))
                else:
                    self.emit('put', o, None, x)
            else:
                self.family(B, g, order, lambda: self.emit('put', o, None, x), node)

    def newlist(self, cls, v, node):
        fam = self.families(v) if v is not None else []
        o = self.alloc(cls, node)
        for B, g, x, order in fam:
            if cls == 'set':
                self.byidentity(x)
            if not B:
                self.under(g, lambda x=x: self.emit('put', o, None, x))
            else:
                self.family(B, g, order, lambda x=x: self.emit('put', o, None, x), node)
        return o

    def under(self, g, f):
        if g is True:
            return f()
        n = len(self.pc)
        self.pc.append(g)
        try:
            return f()
        finally:
            del self.pc[n:]

    # -- loops

    def family(self, B, guard, order, body, node):
        """execute body for an arbitrary member of a family"""
        if self.prove(z3.Not(zb(guard))) is True:
            return
        start, rstart, pc0 = len(self.log), len(self.reads), len(self.pc)
        self.pc.append(guard)
        self.loopbase.append(len(self.pc))
        self.binders = self.binders + list(B)
        self.orders.append(order)
        try:
            body()
        finally:
            self.binders = self.binders[:len(self.binders) - len(B)]
            self.orders.pop()
            self.loopbase.pop()
            del self.pc[pc0:]
        effs = self.log[start:]
        reads = self.reads[rstart:]
        self.carried(B, guard, effs, reads, start)
        inner = conj(self.pc[self.base():])
        for e in effs:
            e.order = None
            if order and e.kind in ('put', 'item') and not e.binders and e.guard is True and len(B) == 1:
                e.order = order
            e.binders = list(B) + e.binders
            e.guard = conj([inner, guard, e.guard])

    def carried(self, B, guard, effs, reads, start):
        """no iteration reads what another one writes; writes of one place
        do not interleave"""
        sub = [(b, fresh('o')) for b in B]
        differ = z3.Or(*[a != b for a, b in sub])
        g2 = subst(zb(guard), sub)

        def clash(o1, k1, g1, e, what):
            """may iteration B touch o1/k1 while another iteration does e?"""
            f = self.renamed(e)
            f = Effect(f.kind, subst(f.obj, sub), subst(f.name, sub), subst(f.value, sub), f.binders, subst(f.guard, sub), None)
            q = list(zip(o1.args, f.obj.args))
            if k1 is not None:
                k = self.eqs(k1, f.name)
                if k is None:
                    return
                q += k
            if self.prove(z3.Not(z3.And(differ, zb(guard), zb(g1), zb(g2), zb(f.guard), *[zi(a) == zi(b) for a, b in q]))) is not True:
                raise Unsupported('an iteration of a loop depends on another one (%s)' % what)

        for kind, obj, name, pc, pos in reads:
            for e in effs:
                if e.obj.site != obj.site:
                    continue
                if kind == 'attr' and e.kind == 'attr' and e.name == name:
                    clash(obj, None, conj(pc), e, 'attribute %s' % name)
                elif kind == 'content' and e.kind in ('put', 'scramble', 'item', 'touch'):
                    clash(obj, None, conj(pc), e, 'content of a container')
                elif kind == 'item' and e.kind in ('item',) or kind == 'has' and e.kind in ('item', 'touch', 'scramble'):
                    clash(obj, name, conj(pc), e, 'entry of a dictionary')
        w = [e for e in effs if e.kind in ('attr', 'item')]
        for i, e in enumerate(w):
            for f in w[i + 1:]:
                if e.kind == f.kind and e.obj.site == f.obj.site and (e.kind == 'item' or e.name == f.name):
                    clash(e.obj, e.name if e.kind == 'item' else None, e.guard, f, 'order of the writes')

    # -- modules

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', os.sep)
        p = self.real.get(name) or os.path.join(self.repo, rel + '.py')
        if not os.path.exists(p):
            p = os.path.join(self.repo, rel, '__init__.py')
        m = Mod(name)
        m.pkg = name.rpartition('.')[0] if not p.endswith('__init__.py') else name
        self.mods[name] = m
        tree = ast.parse(open(p).read())
        fr = Frame(m, m.ns)
        self.frames.append(fr)
        try:
            for s in tree.body:
                try:
                    self.stmt(s)
                except Unsupported as e:
                    for t in bound(s):
                        m.ns[t] = Poison('%s: %s' % (t, e))
        finally:
            self.frames.pop()
        return m

    def importing(self, s):
        ns = self.frames[-1].ns
        if isinstance(s, ast.Import):
            for a in s.names:
                ns[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
            return
        mod = s.module or ''
        if s.level:
            parts = self.frames[-1].mod.pkg.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            nm = a.asname or a.name
            if (mod, a.name) in self.contracts:
                ns[nm] = self.contracts[mod, a.name]
            elif mod.split('.')[0] == 'meshless' or mod in self.real:
                if a.name == '*':
                    raise Unsupported('import *')
                m = self.module(mod)
                if a.name in m.ns:
                    ns[nm] = m.ns[a.name]
                elif mod in self.real:
                    ns[nm] = Poison('%s.%s' % (mod, a.name))
                else:
                    ns[nm] = self.module(mod + '.' + a.name)
            else:
                ns[nm] = Ext('%s.%s' % (mod, a.name))

    # -- statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        self.importing(s)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        f = Func(s, fr.mod, s.name)
        f.closure = None if fr.ns is fr.mod.ns else dict(fr.ns)
        if s.decorator_list and not isinstance(fr, ClassFrame):
            raise Unsupported('decorated function')
        f.defaults = [self.ev(d) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d) if d is not None else None for d in s.args.kw_defaults]
        fr.ns[s.name] = f

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        ns = {}
        bases = [self.ev(b) for b in s.bases]
        self.frames.append(ClassFrame(fr.mod, ns))
        try:
            for b in s.body:
                try:
                    self.stmt(b)
                except Unsupported as e:
                    for t in bound(b):
                        ns[t] = Poison('%s: %s' % (t, e))
        finally:
            self.frames.pop()
        fr.ns[s.name] = Cls(s.name, ns, bases)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            if isinstance(old, Obj) and old.cls == 'list' and isinstance(s.op, ast.Add):
                return self.fill(old, self.ev(s.value), s)
            if not (isnum(old) or isinstance(old, (str, Str)) or isinstance(old, Vec) and old.kind == 'tuple'):
                raise Unsupported('augmented assignment of %r' % (old,))
            self.frames[-1].ns[t.id] = self.binop(s.op, old, self.ev(s.value))
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            if isinstance(old, Obj) and old.cls == 'list' and isinstance(s.op, ast.Add):
                return self.fill(old, self.ev(s.value), s)
            if not isnum(old):
                raise Unsupported('augmented assignment of %r' % (old,))
            return self.setattr(o, t.attr, self.binop(s.op, old, self.ev(s.value)))
        raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].ns[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            f = self.families(v)
            if any(B or g is not True for B, g, x, o in f):
                raise Unsupported('unpacking of a collection of unknown size')
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(f) != len(t.elts):
                raise Unsupported('unpacking of %d values into %d names' % (len(f), len(t.elts)))
            if isinstance(v, Obj) and v.cls in ('set',):
                raise Unsupported('unpacking of a set')
            for a, (B, g, x, o) in zip(t.elts, f):
                self.assign(a, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(o, Obj) and o.cls in ('dict', 'defaultdict'):
                return self.setitem(o, self.ev(t.slice), v)
            raise Unsupported('assignment to an element of %r' % (o,))
        else:
            raise Unsupported('assignment target')

    def s_Return(self, s):
        raise _Ret(self.ev(s.value) if s.value is not None else None)

    def s_Continue(self, s):
        raise _Cont()

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c is True:
            return
        self.must(c, 'assertion')

    def s_Try(self, s):
        n = len(self.raises)
        self.block(s.body)
        if len(self.raises) != n:
            raise Unsupported('exception inside try')
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_Raise(self, s):
        exc = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a)
                e = e.func
            if isinstance(e, ast.Name):
                exc = e.id
        g = conj(self.pc)
        self.raises.append(Raised(exc, self.binders, g))
        self.facts.append(z3.ForAll(self.binders, z3.Not(zb(g))) if self.binders else z3.Not(zb(g)))
        raise _Dead()

    def s_If(self, s):
        if (isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotIn) and not s.orelse and len(s.body) == 1
                and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 and isinstance(s.body[0].targets[0], ast.Subscript)
                and ast.dump(s.body[0].targets[0].value) == ast.dump(s.test.comparators[0])
                and ast.dump(s.body[0].targets[0].slice) == ast.dump(s.test.left)):
            # if k not in d: d[k] = []
            d = self.ev(s.test.comparators[0])
            v = s.body[0].value
            empty = isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'set') and not v.args
            if isinstance(d, Obj) and d.cls in ('dict', 'defaultdict') and empty:
                k = self.ev(s.test.left)
                self.keyterms(k)
                self.touch(d, k, 'set' if isinstance(v, ast.Call) and v.func.id == 'set' else 'list')
                return
        c = self.truth(self.ev(s.test))
        if isinstance(c, bool):
            return self.block(s.body if c else s.orelse)
        r = self.prove(c)
        if r is True:
            return self.block(s.body)
        if self.prove(z3.Not(c)) is True:
            return self.block(s.orelse)
        fr = self.frames[-1]
        base = dict(fr.ns)
        ends = []
        rets = []
        for cond, body in ((c, s.body), (simp(z3.Not(c)), s.orelse)):
            fr.ns.clear()
            fr.ns.update(base)
            n = len(self.pc)
            self.pc.append(cond)
            how = None
            extra = []
            try:
                self.block(body)
            except _Ret as e:
                how = 'return'
                rets.append((cond, e.v))
            except _Cont:
                how = 'continue'
            except _Dead:
                how = 'raise'
            extra = self.pc[n + 1:]
            del self.pc[n:]
            ends.append((how, dict(fr.ns), cond, extra))
        (h1, n1, c1, x1), (h2, n2, c2, x2) = ends
        if h1 is None and h2 is None:
            fr.ns.clear()
            fr.ns.update(merge(c, n1, n2))
            for cc, x in ((c1, x1), (c2, x2)):
                if x:
                    self.pc.append(simp(z3.Implies(cc, zb(conj(x)))))
            return
        if h1 is not None and h2 is not None:
            if h1 == h2 == 'return':
                raise _Ret(mergev(c, rets[0][1], rets[1][1]))
            if h1 == h2 == 'continue':
                raise _Cont()
            if h1 == h2 == 'raise':
                raise _Dead()
            if 'raise' in (h1, h2):
                other = h2 if h1 == 'raise' else h1
                self.pc.append(c2 if h1 == 'raise' else c1)
                if other == 'return':
                    raise _Ret(rets[0][1])
                raise _Cont()
            raise Unsupported('return and continue in one branch')
        how, ns, cond, x = (h2, n1, c1, x1) if h1 is None else (h1, n2, c2, x2)
        fr.ns.clear()
        fr.ns.update(ns)
        if how == 'return':
            if len(self.loopbase) > fr.loops:
                raise Unsupported('return inside a loop')
            fr.rets.append((conj(self.pc[fr.pc0:] + [simp(z3.Not(zb(cond)))]), rets[0][1]))
        self.pc.append(cond)
        self.pc += x

    def s_For(self, s):
        if s.orelse:
            raise Unsupported('for/else')
        for x in ast.walk(s):
            if isinstance(x, ast.Break):
                raise Unsupported('break')
        it = self.ev(s.iter)
        fams = self.families(it)
        mark = len(self.log)
        self.forbody(s, fams)
        self.unchanged(it, mark)

    def unchanged(self, it, mark):
        """the iterated collection is not changed on the way"""
        if isinstance(it, Obj):
            for e in self.log[mark:]:
                if e.obj.site == it.site and e.kind in ('put', 'item', 'touch', 'scramble'):
                    raise Unsupported('a collection is changed while it is iterated')
        elif isinstance(it, View):
            self.unchanged(it.d, mark)
        elif isinstance(it, Lazy):
            for x in it.a:
                self.unchanged(x, mark)

    def forbody(self, s, fams):
        fr = self.frames[-1]
        for B, g, v, order in fams:
            if not B:
                def one(v=v):
                    n = len(self.pc)
                    self.assign(s.target, v)
                    try:
                        self.block(s.body)
                    except _Cont:
                        pass
                    del self.pc[n:]
                if g is True:
                    one()
                else:
                    base = dict(fr.ns)
                    self.under(g, one)
                    new = merge(zb(g), dict(fr.ns), base)
                    fr.ns.clear()
                    fr.ns.update(new)
                continue
            self.loop(s, B, g, v, order)

    def loop(self, s, B, g, v, order):
        fr = self.frames[-1]
        from .load import assigned_names
        names = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        before = {n: fr.ns[n] for n in names if n in fr.ns}
        place = {}
        for n, old in before.items():
            if isint(old):
                place[n] = fresh('c_' + n)
                fr.ns[n] = place[n]
            elif old is None or isinstance(old, (Obj, Vec, Str, str, float, bool, Poison)) or isz(old):
                fr.ns[n] = Poison('the value of %s from an earlier iteration' % n)
        # counters: the closed form is guessed from the text, and verified below
        closed = {}
        for n, p in place.items():
            d = step(s.body, n)
            if d is not None and order and len(B) == 1:
                b, lo, hi = order
                full = conj([zi(lo) <= b, b < zi(hi)])
                if self.prove(z3.Implies(zb(full), zb(g))) is True:
                    closed[n] = (simp(zi(before[n]) + d*(b - zi(lo))), simp(zi(before[n]) + d*z3.If(zi(hi) >= zi(lo), zi(hi) - zi(lo), 0)), d)
            fr.ns[n] = closed[n][0] if n in closed else Poison('the value of %s from an earlier iteration' % n)

        def body():
            self.assign(s.target, v)
            n = len(self.pc)
            try:
                self.block(s.body)
                plain = len(self.pc) == n
            except (_Cont, _Dead):
                plain = False
            except _Ret:
                raise Unsupported('return inside a loop')
            for x, (first, last, d) in closed.items():
                if not plain or not isint(fr.ns[x]) or simp(zi(fr.ns[x]) - zi(first)) != d:
                    raise Unsupported('counter %s' % x)

        self.family(B, g, order, body, s)
        for n in names:
            if n in closed:
                fr.ns[n] = closed[n][1]
            elif n in fr.ns or n in before:
                fr.ns[n] = Poison('the value of %s after a loop' % n)

    # -- expressions

    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n)

    def name(self, x):
        fr = self.frames[-1]
        if x in fr.ns:
            v = fr.ns[x]
        elif fr.closure and x in fr.closure:
            v = fr.closure[x]
        elif x in fr.mod.ns:
            v = fr.mod.ns[x]
        elif x in BUILTINS:
            return BUILTINS[x]
        else:
            raise Unsupported('name %s' % x)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.name(n.id)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def e_Tuple(self, n):
        return Vec([self.ev(x) for x in n.elts])

    def e_List(self, n):
        items = [self.ev(x) for x in n.elts]
        o = self.alloc('list', n)
        for x in items:
            self.emit('put', o, None, x)
        return o

    def e_Set(self, n):
        items = [self.ev(x) for x in n.elts]
        o = self.alloc('set', n)
        for x in items:
            self.byidentity(x)
            self.emit('put', o, None, x)
        return o

    def e_Dict(self, n):
        o = self.alloc('dict', n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('** in a dictionary')
            self.setitem(o, self.ev(k), self.ev(v))
        return o

    def e_Subscript(self, n):
        o = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            if isinstance(o, Vec):
                b = [self.ev(x) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                if all(x is None or isinstance(x, int) for x in b):
                    return Vec(o.items[slice(*b)], o.kind)
            if isinstance(o, Obj) and o.cls == 'list' and n.slice.lower is n.slice.upper is n.slice.step is None:
                return self.newlist('list', o, n)
            if isinstance(o, Obj) and o.cls == 'list':
                x = ones(self, o)
                b = [self.ev(y) if y is not None else None for y in (n.slice.lower, n.slice.upper, n.slice.step)]
                if all(y is None or isinstance(y, int) for y in b):
                    l = self.alloc('list', n)
                    for y in x[slice(*b)]:
                        self.emit('put', l, None, y)
                    return l
            raise Unsupported('slice of %r' % (o,))
        i = self.ev(n.slice)
        if isinstance(o, Seq) and isinstance(i, Vec) and len(i.items) == 2:
            return self.index(self.index(o, i.items[0]), i.items[1])
        return self.index(o, i)

    def e_JoinedStr(self, n):
        return self.text(*[v.value for v in n.values if isinstance(v, ast.FormattedValue)])

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse)
        if self.prove(c) is True:
            return self.ev(n.body)
        if self.prove(z3.Not(c)) is True:
            return self.ev(n.orelse)
        a = self.under(c, lambda: self.ev(n.body))
        b = self.under(simp(z3.Not(c)), lambda: self.ev(n.orelse))
        v = mergev(c, a, b)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_BoolOp(self, n):
        vals = []
        cs = []
        for x in n.values:
            v = self.under(conj(cs), lambda: self.ev(x)) if cs else self.ev(x)
            t = self.truth(v)
            if isinstance(t, bool):
                if t == isinstance(n.op, ast.Or):
                    if not cs:
                        return v
                    cs.append(z3.BoolVal(not t))
                    vals.append(z3.BoolVal(t))
                    break
                if x is n.values[-1] and not vals:
                    return v
                if not isinstance(v, bool):
                    raise Unsupported('and/or of other values')
                continue
            if not isbool(v):
                raise Unsupported('and/or of other values')
            vals.append(t)
            cs.append(t if isinstance(n.op, ast.And) else simp(z3.Not(t)))
        return simp((z3.And if isinstance(n.op, ast.And) else z3.Or)(*vals))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isz(v) and not z3.is_bool(v):
                return simp(-v)
        if isinstance(n.op, ast.UAdd) and isnum(v):
            return v
        raise Unsupported('unary operator')

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isz(v) and z3.is_bool(v):
            return simp(v)
        if isz(v):
            return simp(v != 0)
        if isinstance(v, Vec):
            if v.kind == 'array':
                raise Unsupported('truth of an array')
            return bool(v.items)
        if isinstance(v, Obj):
            if v.cls in ('list', 'set'):
                f = self.elements(v)
                if any(not B and g is True for B, g, x, o in f):
                    return True
                if not f:
                    return False
                raise Unsupported('whether a container is empty')
            if v.cls in ('dict', 'defaultdict'):
                raise Unsupported('whether a container is empty')
            if isinstance(v.cls, Cls) and (self.clsattr(v.cls, '__bool__') or self.clsattr(v.cls, '__len__')):
                raise Unsupported('truth of an object')
            return True
        raise Unsupported('truth of %r' % (v,))

    def e_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return self.text(n.right)
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if isinstance(op, (ast.Add, ast.Mod, ast.Mult)):
                return Str()
        if isinstance(a, bool) or isinstance(b, bool):
            raise Unsupported('arithmetic of truth values')
        if isint(a) and isint(b):
            za, zb_ = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return simp(za + zb_)
            if isinstance(op, ast.Sub):
                return simp(za - zb_)
            if isinstance(op, ast.Mult) and (isinstance(simp(za), int) or isinstance(simp(zb_), int)):
                return simp(za*zb_)
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
                return simp(za % zb_)
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
                return simp(za/zb_)
        if isinstance(a, Vec) and isinstance(b, Vec) and a.kind == b.kind == 'tuple' and isinstance(op, ast.Add):
            return Vec(a.items + b.items)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls == 'list' and isinstance(op, ast.Add):
            l = self.newlist('list', a, 'sum%d' % next(_n))
            self.fill(l, b, None)
            return l
        if isnum(a) and isnum(b):
            x, y = zr(a), zr(b)
            if isinstance(op, ast.Add):
                return z3.simplify(x + y)
            if isinstance(op, ast.Sub):
                return z3.simplify(x - y)
            if isinstance(op, ast.Mult):
                return z3.simplify(x*y)
        if isinstance(a, Vec) and a.kind == 'array' and isinstance(b, Vec) and b.kind == 'array' and len(a.items) == len(b.items):
            return Vec([self.binop(op, x, y) for x, y in zip(a.items, b.items)], 'array')
        if isinstance(a, Vec) and a.kind == 'array' and isnum(b):
            return Vec([self.binop(op, x, b) for x in a.items], 'array')
        if isinstance(b, Vec) and b.kind == 'array' and isnum(a):
            return Vec([self.binop(op, a, x) for x in b.items], 'array')
        raise Unsupported('operator on %r and %r' % (a, b))

    def e_Compare(self, n):
        left = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            out.append(self.compare(op, left, right))
            left = right
        if all(isinstance(x, bool) for x in out):
            return all(out)
        return conj(out)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            neg = isinstance(op, (ast.NotEq, ast.IsNot))
            if isinstance(a, TypeName) or isinstance(b, TypeName):
                t, s = (a, b) if isinstance(a, TypeName) else (b, a)
                if s != 'CTRIA3':
                    raise Unsupported('name of a card')
                c = self.contracts['kind'](t.o) == 0
            elif isinstance(a, TypeOf) or isinstance(b, TypeOf):
                t, s = (a, b) if isinstance(a, TypeOf) else (b, a)
                c = zb(self.isinst(t.o, s))
            elif isbool(a) and isbool(b):
                c = zb(a) == zb(b)
            elif isnum(a) and isnum(b) and not (isint(a) and isint(b)):
                c = zr(a) == zr(b)
            else:
                if isinstance(op, (ast.Is, ast.IsNot)) and not (a is None or b is None or isinstance(a, Obj) or isinstance(b, Obj)):
                    raise Unsupported('identity of %r' % (a,))
                if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(op, (ast.Eq, ast.NotEq)):
                    if isinstance(a.cls, Cls) and self.clsattr(a.cls, '__eq__') or a.cls in ('list', 'set', 'dict', 'defaultdict', 'elem'):
                        raise Unsupported('equality of objects')
                e = self.eqs(a, b)
                c = False if e is None else conj([zi(x) == zi(y) for x, y in e])
            c = simp(zb(c))
            if neg:
                c = (not c) if isinstance(c, bool) else simp(z3.Not(c))
            return c
        if isinstance(op, (ast.In, ast.NotIn)):
            self.byidentity(a)
            if isinstance(b, Obj) and b.cls in ('dict', 'defaultdict'):
                self.keyterms(a)
                c = self.haskey(b, a)
            elif isinstance(b, View) and b.kind == 'keys':
                c = self.haskey(b.d, a)
            else:
                f = self.families(b)
                if any(B for B, g, x, o in f):
                    if isinstance(b, Obj) and b.cls in ('list', 'set'):
                        c = z3.Or(*self.count(b, a))
                        self.note('content', b, None)
                    else:
                        raise Unsupported('membership')
                else:
                    alts = []
                    for B, g, x, o in f:
                        e = self.eqs(x, a)
                        if e is not None:
                            alts.append(zb(conj([g] + [zi(p) == zi(q) for p, q in e])))
                    c = z3.Or(*alts) if alts else False
            c = simp(zb(c))
            if isinstance(op, ast.NotIn):
                c = (not c) if isinstance(c, bool) else simp(z3.Not(c))
            return c
        if isnum(a) and isnum(b):
            x, y = (zi(a), zi(b)) if isint(a) and isint(b) else (zr(a), zr(b))
            return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        raise Unsupported('comparison of %r and %r' % (a, b))

    def isinst(self, o, cls):
        if isinstance(cls, Vec):
            r = [self.isinst(o, x) for x in cls.items]
            if all(isinstance(x, bool) for x in r):
                return any(r)
            return simp(z3.Or(*[zb(x) for x in r]))
        nm = cls.name.split('.')[-1] if isinstance(cls, (Ext, Cls)) else None
        if isinstance(o, Obj) and o.cls == 'elem':
            if nm == 'CTRIA3':
                return simp(self.contracts['kind'](o) == 0)
            if nm in ('int', 'str', 'float', 'list', 'tuple', 'dict', 'GRID', 'integer_types'):
                return False
            raise Unsupported('isinstance of %s' % nm)
        if isinstance(o, Obj):
            if nm in ('int', 'str', 'float', 'tuple', 'integer_types'):
                return False
            if isinstance(o.cls, str) and nm == o.cls:
                return True
            if isinstance(o.cls, Cls) and isinstance(cls, Cls):
                return cls in self.mro(o.cls)
            if isinstance(o.cls, str) and nm in ('CTRIA3', 'GRID', 'list', 'set'):
                return False
        if isint(o) and nm in ('int', 'integer_types'):
            return True
        if isint(o) and nm in ('GRID', 'CTRIA3', 'str', 'list', 'tuple'):
            return False
        raise Unsupported('isinstance(%r, %s)' % (o, nm))

    # comprehensions

    def comp(self, n, emit):
        fr = self.frames[-1]
        base = dict(fr.ns)

        def go(i):
            if i == len(n.generators):
                return emit()
            gen = n.generators[i]
            if gen.is_async:
                raise Unsupported('async')
            it = self.ev(gen.iter)
            mark = len(self.log)
            for B, g, v, order in self.families(it):
                def body(v=v):
                    self.assign(gen.target, v)
                    cs = []
                    for t in gen.ifs:
                        c = self.under(conj(cs), lambda: self.truth(self.ev(t)))
                        if c is False:
                            return
                        cs.append(c)
                    self.under(conj(cs), lambda: go(i + 1))
                if not B:
                    self.under(g, body)
                else:
                    self.family(B, g, order, body, gen.target)
            self.unchanged(it, mark)
        try:
            go(0)
        finally:
            fr.ns.clear()
            fr.ns.update(base)

    def e_ListComp(self, n):
        o = self.alloc('list', n)
        self.comp(n, lambda: self.emit('put', o, None, self.ev(n.elt)))
        return o

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        o = self.alloc('set', n)

        def put():
            v = self.ev(n.elt)
            self.byidentity(v)
            self.emit('put', o, None, v)
        self.comp(n, put)
        return o

    def e_DictComp(self, n):
        o = self.alloc('dict', n)
        self.comp(n, lambda: self.setitem(o, self.ev(n.key), self.ev(n.value)))
        return o

    # calls

    def e_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                and isinstance(n.func.value.value, str) and not any(isinstance(a, ast.Starred) for a in n.args):
            return self.text(*(list(n.args) + [k.value for k in n.keywords]))
        f = self.ev(n.func)
        if any(isinstance(a, ast.Starred) for a in n.args):
            args = []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    fam = self.families(self.ev(a.value))
                    if any(B or g is not True for B, g, x, o in fam):
                        raise Unsupported('* of a collection of unknown size')
                    args += [x for B, g, x, o in fam]
                else:
                    args.append(self.ev(a))
        else:
            args = [self.ev(a) for a in n.args]
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** in a call')
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, n):
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Ext):
            if f.fn is None:
                raise Unsupported('%s has no contract' % f.name)
            return f.fn(self, args, kw, n)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw, n)
        if isinstance(f, Cls):
            for m in ('__new__', '__setattr__', '__getattr__', '__getattribute__', '__slots__'):
                if self.clsattr(f, m):
                    raise Unsupported('class %s defines %s' % (f.name, m))
            o = self.alloc(f, n)
            init = self.clsattr(f, '__init__')
            if init:
                self.call(Bound(init[0], o), args, kw, n)
            elif args or kw:
                raise Unsupported('constructor without arguments')
            return o
        if isinstance(f, Func):
            return self.inline(f, args, kw, n)
        raise Unsupported('call of %r' % (f,))

    def inline(self, f, args, kw, n):
        if self.depth > 20:
            raise Unsupported('recursion')
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                raise Unsupported('function with %s' % type(x).__name__)
        a = f.node.args
        if a.vararg or a.kwarg:
            raise Unsupported('variable arguments')
        ns = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(params):
            raise Unsupported('too many arguments')
        for p, v in zip(params, args):
            ns[p] = v
        for k, v in kw.items():
            if k in ns or k not in params + [x.arg for x in a.kwonlyargs]:
                raise Unsupported('argument %s' % k)
            ns[k] = v
        for p, d in zip(params[len(params) - len(f.defaults):], f.defaults):
            ns.setdefault(p, d)
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            ns.setdefault(p.arg, d)
        if set(params) - set(ns):
            raise Unsupported('missing arguments')
        self.functions.add('%s.%s' % (f.mod.name, f.name))
        fr = Frame(f.mod, ns)
        fr.closure = getattr(f, 'closure', None)
        fr.loops = len(self.loopbase)
        fr.pc0 = len(self.pc)
        self.frames.append(fr)
        self.depth += 1
        site = '%s:%d:%d' % (f.name, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        self.stack.append(site)
        pc0 = len(self.pc)
        try:
            try:
                self.block(f.node.body)
                v = None
            except _Ret as e:
                v = e.v
        finally:
            self.stack.pop()
            self.frames.pop()
            self.depth -= 1
        if fr.rets:
            del self.pc[pc0:]
            for c, r in reversed(fr.rets):
                v = mergev(zb(c), r, v)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        return v


def step(body, name):
    """c when the only assignment to the name is `name += c` or `name = name + c`
    in the body itself"""
    from .load import assigned_names
    out = None
    for st in body:
        if name not in assigned_names([st]):
            continue
        if out is not None:
            return None
        c = None
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)):
            c, sg = st.value, 1 if isinstance(st.op, ast.Add) else -1
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp) and \
                isinstance(st.value.op, ast.Add) and isinstance(st.value.left, ast.Name) and st.value.left.id == name:
            c, sg = st.value.right, 1
        if not isinstance(c, ast.Constant) or not isinstance(c.value, int) or isinstance(c.value, bool):
            return None
        out = sg*c.value
    return out


class TypeOf:
    def __init__(self, o):
        self.o = o


class Frame:
    def __init__(self, mod, ns):
        self.mod, self.ns, self.closure = mod, ns, None
        self.rets = []
        self.loops = 0
        self.pc0 = 0


class ClassFrame(Frame):
    pass


def bound(s):
    from .load import assigned_names
    return assigned_names([s])


def mergev(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if isint(a) and isint(b):
        return simp(z3.If(c, zi(a), zi(b)))
    if isbool(a) and isbool(b):
        return simp(z3.If(c, zb(a), zb(b)))
    if isnum(a) and isnum(b):
        return z3.simplify(z3.If(c, zr(a), zr(b)))
    if isinstance(a, (str, float)) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.site == b.site and len(a.args) == len(b.args):
        return Obj(a.cls, a.site, [mergev(c, x, y) for x, y in zip(a.args, b.args)])
    if isinstance(a, Vec) and isinstance(b, Vec) and a.kind == b.kind and len(a.items) == len(b.items):
        items = [mergev(c, x, y) for x, y in zip(a.items, b.items)]
        if not any(isinstance(x, Poison) for x in items):
            return Vec(items, a.kind)
    return Poison('a value that depends on a branch')


def merge(c, n1, n2):
    out = {}
    for k in set(n1) | set(n2):
        if k in n1 and k in n2:
            out[k] = mergev(c, n1[k], n2[k])
        else:
            out[k] = Poison('a name that is set in one branch only')
    return out


# -- builtins

def b_len(h, a, k, n):
    return h.length(a[0])


def b_range(h, a, k, n):
    if len(a) == 3:
        raise Unsupported('range with a step')
    if not all(isint(x) for x in a):
        raise Unsupported('range')
    return Rng(0, a[0]) if len(a) == 1 else Rng(*a)


def b_enumerate(h, a, k, n):
    s = a[1] if len(a) > 1 else k.get('start', 0)
    if not isint(s):
        raise Unsupported('enumerate')
    return Lazy('enumerate', a[0], s)


def b_zip(h, a, k, n):
    return Lazy('zip', *a)


def b_coll(cls):
    def f(h, a, k, n):
        if k or len(a) > 1:
            raise Unsupported(cls)
        return h.newlist(cls, a[0] if a else None, n)
    return f


def ones(h, v):
    f = h.families(v)
    if any(B or g is not True for B, g, x, o in f):
        raise Unsupported('collection of unknown size')
    return [x for B, g, x, o in f]


def b_tuple(h, a, k, n):
    return Vec(ones(h, a[0]) if a else [])


def b_sorted(h, a, k, n):
    if k:
        raise Unsupported('sorted with a key')
    try:
        x = ones(h, a[0])
    except Unsupported:
        f = h.newlist('list', a[0], n)
        for e in h.log:
            if e.obj.site == f.site:
                e.order = None
        return f
    if not all(isint(y) for y in x):
        raise Unsupported('sorted')
    x = list(x)
    for i in range(len(x)):
        for j in range(len(x) - 1 - i):
            x[j], x[j + 1] = imin(x[j], x[j + 1]), imax(x[j], x[j + 1])
    o = h.alloc('list', n)
    for y in x:
        h.emit('put', o, None, y)
    return o


def b_minmax(f):
    def g(h, a, k, n):
        if k:
            raise Unsupported('min/max with a key')
        x = list(a) if len(a) > 1 else ones(h, a[0])
        if not x or not all(isint(y) for y in x):
            raise Unsupported('min/max')
        r = x[0]
        for y in x[1:]:
            r = f(r, y)
        return r
    return g


def b_frozenset(h, a, k, n):
    x = ones(h, a[0])
    if len(x) != 2 or not all(isint(y) for y in x):
        raise Unsupported('frozenset')
    return Frozen(*x)


def b_int(h, a, k, n):
    if len(a) == 1 and isint(a[0]):
        return a[0]
    raise Unsupported('int')


def b_float(h, a, k, n):
    if len(a) == 1 and isnum(a[0]):
        return a[0] if not isint(a[0]) else zr(a[0])
    raise Unsupported('float')


def b_abs(h, a, k, n):
    if isint(a[0]):
        return simp(z3.If(zi(a[0]) >= 0, zi(a[0]), -zi(a[0])))
    if isnum(a[0]):
        return simp(z3.If(zr(a[0]) >= 0, zr(a[0]), -zr(a[0])))
    raise Unsupported('abs')


def b_dict(h, a, k, n):
    if a or k:
        raise Unsupported('dict of something')
    return h.alloc('dict', n)


def b_defaultdict(h, a, k, n):
    if len(a) != 1 or k or not isinstance(a[0], Ext) or a[0].name not in ('list', 'set'):
        raise Unsupported('defaultdict')
    o = h.alloc('defaultdict', n)
    h.emit('factory', o, 'factory', a[0].name)
    return o


def b_type(h, a, k, n):
    return TypeOf(a[0])


def b_isinstance(h, a, k, n):
    return h.isinst(a[0], a[1])


def b_print(h, a, k, n):
    return None


def b_str(h, a, k, n):
    return Str()


def b_setattr(h, a, k, n):
    if not isinstance(a[1], str):
        raise Unsupported('setattr')
    return h.setattr(a[0], a[1], a[2])


def b_getattr(h, a, k, n):
    if not isinstance(a[1], str) or len(a) > 2:
        raise Unsupported('getattr')
    return h.getattr(a[0], a[1])


def b_reversed(h, a, k, n):
    return Lazy('reversed', a[0])


def b_bool(h, a, k, n):
    return h.truth(a[0])


def b_chain(h, a, k, n):
    return Lazy('chain', *a)


def b_iter(h, a, k, n):
    return a[0]


def np_array(h, a, k, n):
    v = a[0]
    if set(k) - {'dtype', 'copy', 'order'} or len(a) > 2:
        raise Unsupported('numpy array with options')
    if isinstance(v, Seq):
        return v
    x = ones(h, v)
    if not all(isnum(y) for y in x):
        raise Unsupported('numpy array of %r' % (x,))
    return Vec([zr(y) if not isz(y) or z3.is_int(y) else y for y in x] if not all(isint(y) for y in x) else x, 'array')


def np_zeros(h, a, k, n):
    raise Unsupported('numpy array that is filled')


def np_append(h, a, k, n):
    if len(a) != 2 or k:
        raise Unsupported('numpy append')
    x = ones(h, a[0])
    y = [a[1]] if isnum(a[1]) else ones(h, a[1])
    return Vec(x + y, 'array')


BUILTINS = {k: Ext(k, v) for k, v in dict(
    len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, list=b_coll('list'), set=b_coll('set'), tuple=b_tuple, sorted=b_sorted,
    min=b_minmax(imin), max=b_minmax(imax), frozenset=b_frozenset, int=b_int, float=b_float, abs=b_abs, dict=b_dict, type=b_type,
    isinstance=b_isinstance, print=b_print, str=b_str, repr=b_str, setattr=b_setattr, getattr=b_getattr, reversed=b_reversed, bool=b_bool, iter=b_iter,
    object=None, property=None).items()}
for _e in ('NotImplementedError', 'ValueError', 'TypeError', 'RuntimeError', 'Exception', 'KeyError', 'AssertionError'):
    BUILTINS[_e] = Ext(_e, None)


def base_contracts():
    return {
        ('collections', 'defaultdict'): Ext('defaultdict', b_defaultdict),
        ('numpy', 'array'): Ext('array', np_array), ('numpy', 'asarray'): Ext('array', np_array), ('numpy', 'zeros'): Ext('zeros', np_zeros),
        ('numpy', 'append'): Ext('append', np_append), ('numpy', 'hstack'): Ext('hstack', None),
        ('numpy', 'atleast_2d'): Ext('array', np_array),
        ('itertools', 'chain'): Ext('chain', b_chain),
        ('collections', 'OrderedDict'): Ext('dict', b_dict),
    }
