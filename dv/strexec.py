"""Symbolic execution of the real text-processing functions (C18).

The functions are parsed from the current source and interpreted as they stand.
A text is a sequence of pieces: literal characters and segments (a run of word
characters, a balanced block, the trailers of an operand, ...) of which only
the grammar and a regular language are known.  Loops over the characters of a
segment are handled by lemmas: "started at one end of the segment, the loop
arrives at the other end with the other variables unchanged", proved by
structural induction on the grammar of the segment with the real loop body.
Whatever is not understood ends in Unsupported: undecided, never accepted.
"""
import ast
import builtins
import copy
import itertools
import operator
import time

from . import rx
from .alg import Unsupported

ids = itertools.count()


# -- texts ---------------------------------------------------------------------------
class Seg:
    """unknown text; kind: name of its grammar (None: not inspected by loops)"""

    def __init__(self, name, lang, kind=None, base=None, length=None, char=False):
        self.name = name
        self.lang = lang
        self.kind = kind
        self.base = base or self         # the segment this was derived from by removing blanks
        self.char = char
        self._len = length
        self.id = next(ids)
        self._null = None
        self._lasts = self._firsts = None

    @property
    def nullable(self):
        if self._null is None:
            self._null = rx.null(self.lang, None)
        return self._null

    @property
    def lasts(self):
        if self._lasts is None:
            self._lasts = rx.lasts(self.lang)
        return self._lasts

    @property
    def firsts(self):
        if self._firsts is None:
            self._firsts = rx.firsts(self.lang)
        return self._firsts

    def length(self):
        if self.char:
            return Lin(1)
        return self._len if self._len is not None else Lin(0, {('len', self): 1})

    def __repr__(self):
        return '<%s>' % self.name


class Rep:
    """x sep x sep ... x, n times (n >= 1)"""
    kind = None
    char = False
    nullable = False

    def __init__(self, x, sep, n):
        self.x, self.sep, self.n = x, sep, n
        self.base = self
        self.id = next(ids)

    def length(self):
        raise Unsupported('length of a product')

    @property
    def lang(self):
        raise Unsupported('language of a product')

    lasts = firsts = lang

    def __repr__(self):
        return '<%r * %r>' % (self.x, self.n)


def charseg(cset, name='c'):
    return Seg(name, rx.cls(cset), char=True)


class Txt:
    def __init__(self, pieces):
        self.p = tuple(pieces)

    def __repr__(self):
        return 'Txt%r' % (self.p,)


def mk(pieces):
    """text from pieces, through the rewriting rules of the current run"""
    out = []
    for q in pieces:
        if isinstance(q, str):
            if not q:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += q
                continue
        out.append(q)
    for lhs, rhs in RUN.rules:
        n = len(lhs)
        if len(out) >= n and all(a is b for a, b in zip(out, lhs)):
            return mk(list(rhs) + out[n:])
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Txt(out)


def pieces(t):
    if isinstance(t, str):
        return [t] if t else []
    if isinstance(t, Txt):
        return list(t.p)
    raise Unsupported('text expected, got %r' % (t,))


def istext(v):
    return isinstance(v, (str, Txt))


def plen(q):
    return Lin(len(q)) if isinstance(q, str) else q.length()


def tlen(ps):
    r = Lin(0)
    for q in ps:
        r = r + plen(q)
    return r


def lang(q):
    return rx.lit(q) if isinstance(q, str) else q.lang


def tlang(ps):
    return rx.cat(rx.EPS, *[lang(q) for q in ps])


# -- integers --------------------------------------------------------------------------
class Lin:
    """linear integer term over lengths, exponents and loop variables"""

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def lift(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, bool):
            return Lin(int(x))
        if isinstance(x, int):
            return Lin(x)
        raise Unsupported('integer expected, got %r' % (x,))

    def __add__(self, o):
        o = Lin.lift(o)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Lin.lift(o))

    def scale(self, n):
        return Lin(self.c*n, {k: v*n for k, v in self.t.items()})

    def const(self):
        return None if self.t else self.c

    def same(self, o):
        o = Lin.lift(o)
        return self.c == o.c and self.t == o.t

    def subst(self, m):
        r = Lin(self.c)
        for k, v in self.t.items():
            r = r + (m[k].scale(v) if k in m else Lin(0, {k: v}))
        return r

    def __repr__(self):
        return ' + '.join(['%s%r' % ('' if v == 1 else '%d*' % v, k) for k, v in self.t.items()] + [str(self.c)])


def norm(x):
    if isinstance(x, Lin) and not x.t:
        return x.c
    return x


def lo_atom(k):
    b = RUN.bounds.get(k)
    if b is not None and b[0] is not None:
        return b[0]
    if k[0] == 'len':
        return 0 if k[1].nullable else 1
    if k[0] == 'int':
        return 0
    return GEN.get(k)


def hi_atom(k):
    b = RUN.bounds.get(k)
    return b[1] if b else None


PEEK = {}
GEN = {}       # lower bounds of generalised loop variables


def lo(x):
    r = x.c
    for k, v in x.t.items():
        b = lo_atom(k) if v > 0 else hi_atom(k)
        if b is None:
            return None
        r += v*b
    return r


def hi(x):
    r = lo(-x)
    return None if r is None else -r


def positive(x):
    """x >= 1, by the bounds or by a choice"""
    a, b = lo(x), hi(x)
    if a is not None and a >= 1:
        return True
    if b is not None and b <= 0:
        return False
    if len(x.t) == 1:
        (k, v), = x.t.items()
        if abs(v) == 1:
            # v*k + c >= 1
            l, h = RUN.bounds.get(k, (None, None))
            l = lo_atom(k) if l is None else l
            if v == 1:
                cut = 1 - x.c                 # k >= cut
                yes = (max(cut, l) if l is not None else cut, h)
                no = (l, min(cut - 1, h) if h is not None else cut - 1)
            else:
                cut = x.c - 1                 # k <= cut
                yes = (l, min(cut, h) if h is not None else cut)
                no = (max(cut + 1, l) if l is not None else cut + 1, h)
            r = RUN.choose(2)
            RUN.bounds[k] = (yes, no)[r]
            return not r
    raise Unsupported('comparison with %r' % (x,))


def compare(op, a, b):
    a, b = Lin.lift(a), Lin.lift(b)
    d = a - b
    if op is ast.Gt:
        return positive(d)
    if op is ast.Lt:
        return positive(-d)
    if op is ast.GtE:
        return positive(d + 1)
    if op is ast.LtE:
        return positive(-d + 1)
    if op in (ast.Eq, ast.NotEq):
        if not d.t:
            r = d.c == 0
        else:
            l, h = lo(d), hi(d)
            if (l is not None and l > 0) or (h is not None and h < 0):
                r = False
            else:
                r = not positive(d) and not positive(-d)
        return r if op is ast.Eq else not r
    raise Unsupported('comparison')


# -- runs ------------------------------------------------------------------------------
class Run:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.log = []
        self.bounds = {}
        self.rules = []
        self.chars = {}

    def choose(self, n):
        i = len(self.log)
        if i > 60:
            raise Unsupported('too many choices')
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((c, n))
        return c


RUN = Run()


def explore(fn, limit=400, fresh=False):
    """fn on every combination of choices; fresh: without the facts of this path"""
    global RUN
    old = RUN
    prefix = []
    out = []
    try:
        for _ in range(limit):
            RUN = Run(prefix)
            RUN.rules = list(old.rules)
            if not fresh:
                RUN.bounds = dict(old.bounds)
                RUN.chars = dict(old.chars)
            out.append(fn())
            log = RUN.log
            k = len(log) - 1
            while k >= 0 and log[k][0] == log[k][1] - 1:
                k -= 1
            if k < 0:
                return out
            prefix = [c for c, _ in log[:k]] + [log[k][0] + 1]
    finally:
        RUN = old
    raise Unsupported('too many paths')


# -- values ----------------------------------------------------------------------------
class PoisonT:
    def __repr__(self):
        return 'POISON'


POISON = PoisonT()


class Cell:
    """character of a text, known by a set"""

    def __init__(self, cset, key=None):
        self.cset = frozenset(cset)
        self.key = key


def decide(seg, pred):
    """predicate of an unknown character (a char segment or a set)"""
    s = RUN.chars.get(seg.id)
    if s is None:
        s = frozenset(ch for ch in rx.SIGMA if rx.der(seg.lang, None, ch) is not rx.EMPTY)
    yes = frozenset(ch for ch in s if pred(ch))
    no = s - yes
    if not no:
        return True
    if not yes:
        return False
    r = RUN.choose(2)
    RUN.chars[seg.id] = (yes, no)[r]
    return not r


class Match:
    def __init__(self, ps, start, end, groups):
        self.ps, self.start, self.end, self.groups = ps, start, end, groups


class Pat:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        self._l = {}

    def lang(self, marks=True, group=None, rest=rx.TEXT):
        k = (marks, group, rest)
        if k not in self._l:
            self._l[k] = rx.Pattern(self.pattern, self.flags).lang(marks, group, rest)
        return self._l[k]


class Matches:
    """result of finditer"""

    def __init__(self, pat, text, back=False):
        self.pat, self.text, self.back = pat, text, back


class UList:
    """list of which only the length is known"""

    def __init__(self, n):
        self.n = n

    @staticmethod
    def atleast(m):
        a = ('gen', next(ids))
        GEN[a] = m
        return UList(Lin(0, {a: 1}))


class RepList:
    def __init__(self, x, n):
        self.x, self.n = x, n


class SymRange:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class Fn:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Meth:
    def __init__(self, o, name):
        self.o, self.name = o, name


class ReMod:
    pass


class Builtin:
    def __init__(self, name):
        self.name = name


# -- control ---------------------------------------------------------------------------
class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    """the code raises"""


class NeedJump(Exception):
    def __init__(self, loop, seg, side, at):
        self.loop, self.seg, self.side, self.at = loop, seg, side, at


class Reached(Exception):
    def __init__(self, loop):
        self.loop = loop


class Frame:
    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.local = None

    def snapshot(self):
        return {k: (v, list(v) if isinstance(v, list) else v.n if isinstance(v, UList) else None) for k, v in self.vars.items()}

    def restore(self, s):
        self.vars.clear()
        for k, (v, l) in s.items():
            if isinstance(v, UList):
                v.n = l
            elif l is not None:
                v[:] = l
            self.vars[k] = v


class LoopCtx:
    def __init__(self, node, frame, head, target=None):
        self.node, self.frame, self.head, self.target = node, frame, head, target


def assigned(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Nonlocal, ast.Global, ast.Delete, ast.With, ast.Try, ast.Import)):
            raise Unsupported('%s in a loop' % type(n).__name__)
    if isinstance(node, ast.For):
        out.add(itname(node))
    return out


def itname(node):
    return '%%it%d' % node.lineno


class Lemma:
    def __init__(self, node, kind, side):
        self.node, self.kind, self.side = node, kind, side
        self.pos = {}        # variable -> offset from the boundary
        self.exact = {}      # variable -> value
        self.gen = {}        # variable -> lower bound
        self.texts = set()   # variables holding the text
        self.context = None  # pieces kept on the side the loop moves to
        self.some = (False, False)   # something must be on the left, on the right
        self.dead = set()
        self.lists = {}      # lists that may grow -> lower bound of the length
        self.done = False


BUILTINS = {'len', 'int', 'str', 'range', 'list', 'tuple', 'reversed', 'enumerate', 'min', 'max', 'abs', 'bool', 'any', 'all', 'sum', 'sorted', 'zip', 'map', 'isinstance', 'set', 'frozenset', 'iter', 'next'}


class Interp:
    def __init__(self, tree, grammar):
        self.grammar = grammar
        self.globals = Frame()
        self.loops = []
        self.lemmas = []
        self.proving = []
        self.rule = None        # handler of loops over matches
        self.stats = dict(lemmas=0, steps=0)
        self.names = set()
        self.until = time.time() + 60
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                if st.decorator_list or st.name in self.globals.vars:
                    self.globals.vars[st.name] = POISON
                else:
                    self.globals.vars[st.name] = Fn(st, self.globals)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.name == 're':
                        self.globals.vars[a.asname or 're'] = ReMod()
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                try:
                    self.globals.vars[st.targets[0].id] = self.ev(st.value, self.globals)
                except Unsupported:
                    self.globals.vars[st.targets[0].id] = POISON
            elif isinstance(st, (ast.Expr, ast.ImportFrom)):
                pass
            else:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.globals.vars[n.id] = POISON

    # -- calls
    def call(self, name, *args):
        f = self.globals.vars.get(name)
        if not isinstance(f, Fn):
            raise Unsupported('no function %s' % name)
        return self.apply(f, list(args), {})

    def apply(self, f, args, kw):
        if len(self.proving) + len(self.loops) > 40:
            raise Unsupported('recursion')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported('signature')
        fr = Frame(f.frame)
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            raise Unsupported('arguments')
        fr.vars.update(zip(names, args))
        for k, v in kw.items():
            fr.vars[k] = v
        for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in fr.vars:
                fr.vars[x] = self.ev(d, f.frame)
        if any(x not in fr.vars for x in names):
            raise Unsupported('arguments')
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        fr.local = self.locals(f.node)
        try:
            self.block(f.node.body, fr)
        except Return_ as r:
            return r.v
        return None

    def locals(self, node):
        out = {a.arg for a in node.args.args}
        for st in ast.walk(node):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                out.add(st.id)
            if isinstance(st, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global)):
                raise Unsupported('%s' % type(st).__name__)
            if isinstance(st, ast.FunctionDef) and st is not node:
                out.add(st.name)
        return out

    # -- statements
    def block(self, body, fr):
        for st in body:
            self.stats['steps'] += 1
            if self.stats['steps'] > 3000000 or time.time() > self.until:
                raise Unsupported('too many steps')
            self.stmt(st, fr)

    def stmt(self, st, fr):
        t = type(st)
        if t is ast.Expr:
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, fr)
        elif t is ast.Assign:
            v = self.ev(st.value, fr)
            for tg in st.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign and st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        elif t is ast.AugAssign:
            if isinstance(st.target, ast.Name):
                old = self.name(st.target.id, fr)
                if isinstance(old, list):
                    if not isinstance(st.op, ast.Add):
                        raise Unsupported('list operator')
                    new = self.ev(st.value, fr)
                    if not isinstance(new, (list, tuple)):
                        raise Unsupported('list +=')
                    old.extend(new)
                    return
                fr.vars[st.target.id] = self.binop(type(st.op), old, self.ev(st.value, fr))
            else:
                raise Unsupported('augmented assignment')
        elif t is ast.If:
            self.block(st.body if self.truth(self.ev(st.test, fr)) else st.orelse, fr)
        elif t is ast.While:
            self.while_(st, fr)
        elif t is ast.For:
            self.for_(st, fr)
        elif t is ast.Return:
            raise Return_(self.ev(st.value, fr) if st.value is not None else None)
        elif t is ast.Break:
            raise Break_()
        elif t is ast.Continue:
            raise Continue_()
        elif t is ast.Pass:
            pass
        elif t is ast.FunctionDef:
            if st.decorator_list:
                raise Unsupported('decorator')
            fr.vars[st.name] = Fn(st, fr)
        elif t is ast.Assert:
            if not self.truth(self.ev(st.test, fr)):
                raise Raised('assert')
        elif t is ast.Raise:
            raise Raised('raise')
        elif t is ast.Import and all(a.name == 're' for a in st.names):
            for a in st.names:
                fr.vars[a.asname or 're'] = ReMod()
        else:
            raise Unsupported('statement %s' % t.__name__)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            fr.vars[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in tg.elts):
            if not isinstance(v, (tuple, list)) or len(v) != len(tg.elts):
                raise Unsupported('unpacking')
            for e, x in zip(tg.elts, v):
                self.assign(e, x, fr)
        elif isinstance(tg, ast.Subscript):
            o, i = self.ev(tg.value, fr), self.ev(tg.slice, fr)
            if isinstance(o, list) and isinstance(i, int):
                o[i] = v
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment target')

    def while_(self, st, fr, target=None):
        self.loop(st, fr, lambda: self.truth(self.ev(st.test, fr)), target)

    def loop(self, st, fr, test, target=None):
        n = 0
        while True:
            n += 1
            if n > 300:
                raise Unsupported('loop of unknown length')
            head = fr.snapshot()
            ctx = LoopCtx(st, fr, head, target)
            if target is not None and all(k in fr.vars and isinstance(fr.vars[k], (int, Lin)) and Lin.lift(fr.vars[k]).same(v) for k, v in target.items()):
                raise Reached(ctx)
            self.loops.append(ctx)
            depth = len(self.loops)
            try:
                if not test():
                    del self.loops[depth - 1:]
                    self.block(st.orelse, fr)
                    return
                self.block(st.body, fr)
            except NeedJump as j:
                del self.loops[depth - 1:]
                if j.loop is not ctx:
                    raise
                fr.restore(head)
                self.jump(st, fr, j)
            except Break_:
                del self.loops[depth - 1:]
                return
            except Continue_:
                pass
            finally:
                del self.loops[depth - 1:]

    def for_(self, st, fr, target=None, resume=False):
        it = itname(st)
        if resume:
            return self.forloop(st, fr, fr.vars[it + 's'], target)
        src = self.ev(st.iter, fr)
        if isinstance(src, Matches):
            if self.rule is None or self.loops or self.proving:
                raise Unsupported('loop over matches')
            return self.rule(self, st, fr, src)
        if isinstance(src, (list, tuple)) or (isinstance(src, str)):
            for x in list(src):
                self.assign(st.target, x, fr)
                try:
                    self.block(st.body, fr)
                except Break_:
                    return
                except Continue_:
                    pass
            self.block(st.orelse, fr)
            return
        if isinstance(src, SymRange):
            fr.vars[it] = norm(src.a)
            fr.vars[it + 's'] = src
            return self.forloop(st, fr, src, target)
        if isinstance(src, Txt):
            src = ('chars', src, None)
        if isinstance(src, tuple) and src and src[0] == 'chars':
            fr.vars[it] = 0
            fr.vars[it + 's'] = src
        raise Unsupported('loop over %r' % (src,))

    def forloop(self, st, fr, src, target=None):
        it = itname(st)

        def test():
            i = fr.vars[it]
            if src.step > 0:
                ok = compare(ast.Lt, i, src.b)
            else:
                ok = compare(ast.Gt, i, src.b)
            if ok:
                self.assign(st.target, i, fr)
                fr.vars[it] = norm(Lin.lift(i) + src.step)
            return ok
        return self.loop(st, fr, test, target)

    # -- jumps over segments
    def jump(self, st, fr, j):
        seg, side = j.seg, j.side
        if self.proving and not any(seg is s for s in self.proving[-1].subs):
            raise Unsupported('loop over the context of a lemma')
        L = self.find(st, fr, seg, side)
        if L is None:
            L = self.prove(st, fr, seg, side)
        d = seg.length() if side == 'first' else -seg.length()
        for v in L.pos:
            fr.vars[v] = norm(Lin.lift(fr.vars[v]) + d)
        for v in L.dead:
            fr.vars[v] = POISON
        for v, m in L.lists.items():
            fr.vars[v] = UList.atleast(m)

    def around(self, fr, seg):
        """texts containing the segment: (left, right, variables)"""
        out = {}
        for k, v in fr.vars.items():
            if isinstance(v, Txt):
                at = [i for i, q in enumerate(v.p) if q is seg]
                if len(at) == 1:
                    key = (v.p[:at[0]], v.p[at[0] + 1:])
                    out.setdefault(tuple(tuple(x if isinstance(x, str) else x.id for x in y) for y in key), (key[0], key[1], []))[2].append(k)
        return list(out.values())

    def boundary(self, left, seg, side):
        b = tlen(left)
        return b + seg.length() if side == 'last' else b

    def posvars(self, fr, names, b):
        out = {}
        for k in names:
            v = fr.vars.get(k)
            if isinstance(v, (int, Lin)) and not isinstance(v, bool):
                d = (Lin.lift(v) - b)
                if not d.t and abs(d.c) <= 3 and Lin.lift(v).t:
                    out[k] = d.c
        return out

    def find(self, st, fr, seg, side):
        for L in self.lemmas:
            if L.node is st and L.kind == seg.kind and L.side == side and self.applies(L, st, fr, seg, side):
                return L
        return None

    def applies(self, L, st, fr, seg, side):
        ar = self.around(fr, seg)
        hit = None
        for left, right, names in ar:
            if L.texts <= set(names):
                hit = (left, right, names)
        if hit is None:
            return False
        left, right, names = hit
        if L.context is not None:
            ctx = left if side == 'last' else right
            if len(ctx) != len(L.context) or not all(a is b or (isinstance(a, str) and a == b) for a, b in zip(ctx, L.context)):
                return False
        if (L.some[0] and not some(left)) or (L.some[1] and not some(right)):
            return False
        b = self.boundary(left, seg, side)
        for v, k in L.pos.items():
            x = fr.vars.get(v)
            if not isinstance(x, (int, Lin)) or not Lin.lift(x).same(b + k):
                return False
        for v, e in L.exact.items():
            if v not in fr.vars or not samevalue(fr.vars[v], e):
                return False
        for v, l in L.gen.items():
            x = fr.vars.get(v)
            if not isinstance(x, (int, Lin)) or isinstance(x, bool):
                return False
            m = lo(Lin.lift(x))
            if m is None or m < l:
                return False
        for v, l in L.lists.items():
            if not isinstance(fr.vars.get(v), (list, UList)) or lo(listlen(fr.vars[v])) is None or lo(listlen(fr.vars[v])) < l:
                return False
        return True

    def prove(self, st, fr, seg, side):
        if seg.kind not in self.grammar:
            raise Unsupported('loop over %r' % seg)
        if len(self.proving) > 12:
            raise Unsupported('lemma depth')
        err = None
        for keep, general, grow in ((False, True, False), (False, False, False), (True, True, False), (True, False, False), (False, True, True), (True, True, True)):
            dead = set()
            for _ in range(8):
                n = len(self.lemmas)
                loops = self.loops
                self.loops = []
                try:
                    L, more = self.attempt(st, fr, seg, side, keep, general, dead, grow)
                except (Unsupported, NeedJump, Raised) as e:
                    err = e
                    del self.lemmas[n:]
                    break
                finally:
                    self.loops = loops
                if not more:
                    L.done = True
                    self.stats['lemmas'] += 1
                    return L
                del self.lemmas[n:]
                dead |= more
        raise Unsupported('no lemma for the loop in line %d over %r: %s' % (st.lineno, seg, err))

    def attempt(self, st, fr, seg, side, keep, general, dead, grow=False):
        """one form of the lemma; returns (lemma, further variables that must be dead)"""
        names = assigned(st)
        ar = self.around(fr, seg)
        if not ar:
            raise Unsupported('no text at hand')
        left, right, tv = max(ar, key=lambda x: len(x[2]))
        b = self.boundary(left, seg, side)
        pos = self.posvars(fr, names, b)
        if not pos:
            raise Unsupported('no position at the boundary')
        L = Lemma(st, seg.kind, side)
        L.pos = pos
        L.dead = set(dead)
        L.texts = {v for v in tv if v not in dead}
        L2, R2 = [anything(left)], [anything(right)]
        L.some = (some(left), some(right))
        if keep and side == 'last':
            L2 = list(left)
        if keep and side == 'first':
            R2 = list(right)
        if keep:
            L.context = tuple(left if side == 'last' else right)
        base = {}
        bad = {('len', seg)} | {('len', q) for q in right if isinstance(q, Seg)}
        if not (keep and side == 'last'):
            bad |= {('len', q) for q in left if isinstance(q, Seg)}
        gens = {}
        ls = [id(v) for v in fr.vars.values() if isinstance(v, (list, UList))]
        if len(set(ls)) < len(ls):
            raise Unsupported('two names of one list')
        for k, v in fr.vars.items():
            if k in pos or k in L.texts:
                continue
            if k in dead:
                base[k] = POISON
                continue
            if grow and isinstance(v, (list, UList)):
                m = lo(listlen(v))
                if m is None:
                    raise Unsupported('length of a list')
                m = min(m, 2)
                L.lists[k] = m
                base[k] = UList.atleast(m)
                continue
            w = self.canon(k, v, names, general, bad, L, gens)
            base[k] = w
        for k in dead:
            base[k] = POISON
        self.lemmas.append(L)
        more = set()
        for prod in self.grammar[seg.kind]:
            ps = prod(side)
            if not ps:
                continue
            text = L2 + ps + R2
            b0 = tlen(L2)
            b1 = b0 + tlen(ps)
            start, stop = (b1, b0) if side == 'last' else (b0, b1)
            L.subs_ = None

            def run():
                f2 = Frame(fr.parent)
                f2.local = fr.local
                for k, v in base.items():
                    f2.vars[k] = list(v) if isinstance(v, list) else UList(v.n) if isinstance(v, UList) else v
                t = mk(text)
                for k in L.texts:
                    f2.vars[k] = t
                for k, d in pos.items():
                    f2.vars[k] = norm(start + d)
                before = {k: (list(v) if isinstance(v, list) else v) for k, v in f2.vars.items()}
                ctx = ProofCtx([q for q in ps if isinstance(q, Seg)], f2)
                self.proving.append(ctx)
                target = {k: stop + d for k, d in pos.items()}
                out = set()
                try:
                    if isinstance(st, ast.While):
                        self.while_(st, f2, target)
                    else:
                        self.for_(st, f2, target, resume=True)
                    raise Unsupported('the loop ends inside %r' % seg)
                except Reached as r:
                    if r.loop.frame is not f2:
                        raise Unsupported('inner target')
                except Return_:
                    raise Unsupported('the loop returns inside %r' % seg)
                finally:
                    self.proving.pop()
                for k, v in f2.vars.items():
                    if k in pos:
                        continue
                    if k in L.lists:
                        if not isinstance(v, UList) or lo(v.n) is None or lo(v.n) < L.lists[k]:
                            raise Unsupported('list %s' % k)
                        continue
                    if k not in before or not samevalue(v, before[k]):
                        out.add(k)
                return out
            for o in explore(run, fresh=True):
                more |= o
        if more & (set(pos) | L.texts):
            raise Unsupported('position lost')
        return L, more - dead

    def canon(self, k, v, names, general, bad, L, gens):
        if v is POISON:
            return POISON
        if isinstance(v, bool) or v is None or isinstance(v, str):
            L.exact[k] = v
            return v
        if isinstance(v, (int, Lin)):
            x = Lin.lift(v)
            if k in names and general and not any(a[0] == 'len' for a in x.t):
                m = lo(x)
                if m is not None:
                    a = ('gen', next(ids))
                    GEN[a] = m
                    L.gen[k] = m
                    return Lin(0, {a: 1})
            if any(a in bad for a in x.t) or (x.t and any(a[0] == 'gen' for a in x.t)):
                return POISON
            L.exact[k] = v
            return v
        if isinstance(v, UList):
            return POISON
        if isinstance(v, list):
            if all(isinstance(e, (int, str)) for e in v):
                L.exact[k] = list(v)
                return v
            return POISON
        if isinstance(v, (Fn, ReMod, Pat, Builtin)) or (isinstance(v, SymRange) and isinstance(v.b, int)):
            L.exact[k] = v
            return v
        return POISON

    # -- expressions
    def truth(self, v):
        if isinstance(v, (bool, int, str, list, tuple)) or v is None:
            return bool(v)
        if isinstance(v, Lin):
            return compare(ast.NotEq, v, 0)
        if isinstance(v, Txt):
            if any((isinstance(q, str) and q) or not q.nullable for q in v.p):
                return True
            raise Unsupported('truth of %r' % (v,))
        if isinstance(v, UList):
            return compare(ast.Gt, v.n, 0)
        if isinstance(v, Match):
            return True
        if v is POISON:
            raise Unsupported('unknown value')
        raise Unsupported('truth of %r' % (v,))

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if v is POISON:
                    raise Unsupported('variable %s unknown' % n)
                if f is not fr and (self.proving or self.loops) and isinstance(v, (list, UList)):
                    raise Unsupported('outer list %s in a loop' % n)
                if f is not fr and self.proving and isinstance(v, (Txt, Lin)):
                    raise Unsupported('outer variable %s in a lemma' % n)
                return v
            if f.local and n in f.local and f is fr:
                raise Unsupported('variable %s not assigned' % n)
            f = f.parent
        if n in BUILTINS:
            return Builtin(n)
        raise Unsupported('name %s' % n)

    def ev(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, (int, str, bool)) or e.value is None:
                return e.value
            raise Unsupported('constant')
        if t is ast.Name:
            return self.name(e.id, fr)
        if t is ast.BinOp:
            return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, fr)
                b = self.truth(v)
                if b == isinstance(e.op, ast.Or):
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.ev(e.operand, fr)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                return norm(-Lin.lift(v))
            raise Unsupported('operator')
        if t is ast.Compare:
            l = self.ev(e.left, fr)
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, fr)
                if not self.cmp(type(op), l, r):
                    return False
                l = r
            return True
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)
        if t is ast.Subscript:
            return self.item(self.ev(e.value, fr), e.slice, fr)
        if t is ast.Attribute:
            o = self.ev(e.value, fr)
            return Meth(o, e.attr)
        if t is ast.Call:
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                raise Unsupported('star arguments')
            f = self.ev(e.func, fr)
            args = [a if isinstance(a, (ast.GeneratorExp, ast.ListComp)) else self.ev(a, fr) for a in e.args]
            args = [self.comp(a, fr) if isinstance(a, ast.AST) else a for a in args]
            kw = {k.arg: self.ev(k.value, fr) for k in e.keywords}
            return self.docall(f, args, kw)
        if t is ast.List:
            return [self.ev(x, fr) for x in e.elts]
        if t is ast.Tuple:
            return tuple(self.ev(x, fr) for x in e.elts)
        if t is ast.Set:
            return tuple(self.ev(x, fr) for x in e.elts)
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.comp(e, fr)
        if t is ast.Lambda:
            return Fn(e, fr)
        if t is ast.JoinedStr:
            r = ''
            for x in e.values:
                if isinstance(x, ast.Constant):
                    r = self.binop(ast.Add, r, x.value)
                else:
                    if x.format_spec is not None or x.conversion not in (-1, 115):
                        raise Unsupported('format')
                    v = self.ev(x.value, fr)
                    if isinstance(v, int):
                        v = str(v)
                    r = self.binop(ast.Add, r, v)
            return r
        if t is ast.NamedExpr:
            v = self.ev(e.value, fr)
            fr.vars[e.target.id] = v
            return v
        raise Unsupported('expression %s' % t.__name__)

    def comp(self, e, fr):
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported('comprehension')
        g = e.generators[0]
        src = self.ev(g.iter, fr)
        f2 = Frame(fr)
        if isinstance(src, SymRange):
            if g.ifs or src.step != 1:
                raise Unsupported('comprehension')
            self.assign(g.target, POISON, f2)
            return RepList(self.ev(e.elt, f2), norm(Lin.lift(src.b) - src.a))
        if isinstance(src, (list, tuple, str)):
            out = []
            for x in src:
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    out.append(self.ev(e.elt, f2))
            return out
        raise Unsupported('comprehension over %r' % (src,))

    def binop(self, op, a, b):
        if op is ast.Add:
            if istext(a) and istext(b):
                return mk(pieces(a) + pieces(b))
            if isinstance(a, list) and isinstance(b, list):
                return a + b
        if op is ast.Mult:
            for x, n in ((a, b), (b, a)):
                if isinstance(x, list) and isinstance(n, (int, Lin)):
                    if isinstance(n, int):
                        return x*n
                    if len(x) == 1:
                        return RepList(x[0], n)
                    raise Unsupported('repetition')
                if istext(x) and isinstance(n, (int, Lin)) and not istext(n):
                    n = Lin.lift(n)
                    c = n.const()
                    if c is None and lo(n) is not None and lo(n) == hi(n):
                        c = lo(n)
                    if c is not None:
                        return mk(pieces(x)*c)
                    if lo(n) is None or lo(n) < 1:
                        if not positive(n):
                            return ''
                        return self.binop(op, x, n)
                    return mk([Rep(tuple(pieces(x)), '', n)])
        if op is ast.Mod and isinstance(a, str):
            vals = b if isinstance(b, tuple) else (b,)
            parts = a.split('%s')
            if len(parts) != len(vals) + 1 or any('%' in q for q in parts):
                raise Unsupported('format')
            r = parts[0]
            for v, q in zip(vals, parts[1:]):
                r = self.binop(ast.Add, self.binop(ast.Add, r, self.tostr(v)), q)
            return r
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if op is ast.Add:
                return norm(Lin.lift(a) + b)
            if op is ast.Sub:
                return norm(Lin.lift(a) - b)
            if op is ast.Mult:
                if isinstance(a, int):
                    return norm(Lin.lift(b).scale(a))
                if isinstance(b, int):
                    return norm(a.scale(b))
            if isinstance(a, int) and isinstance(b, int):
                f = {ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow}.get(op)
                if f and not (b == 0) and abs(a) < 1000 and abs(b) < 1000:
                    return f(int(a), int(b))
        raise Unsupported('%s of %r and %r' % (op.__name__, a, b))

    def tostr(self, v):
        if istext(v):
            return v
        if isinstance(v, int):
            return str(v)
        raise Unsupported('text of %r' % (v,))

    def cmp(self, op, a, b):
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else not r
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None:
                return (a is b) if op is ast.Is else (a is not b)
            raise Unsupported('identity')
        if istext(a) and istext(b):
            if op not in (ast.Eq, ast.NotEq):
                raise Unsupported('order of texts')
            r = self.eqtext(a, b)
            return r if op is ast.Eq else not r
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return compare(op, a, b)
        if op in (ast.Eq, ast.NotEq) and (a is None or b is None):
            r = a is b
            return r if op is ast.Eq else not r
        raise Unsupported('comparison of %r and %r' % (a, b))

    def eqtext(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            if len(a.p) == 1 and getattr(a.p[0], 'char', False):
                return decide(a.p[0], lambda ch: ch == b)
            if any(isinstance(q, Rep) for q in a.p):
                raise Unsupported('comparison of texts')
            t = tlang(a.p)
            if rx.member([t, rx.lit(b)]) is None:
                return False
            raise Unsupported('comparison of texts')
        raise Unsupported('comparison of texts')

    def contains(self, box, x):
        if isinstance(box, (list, tuple)):
            for q in box:
                if self.cmp(ast.Eq, x, q):
                    return True
            return False
        if isinstance(box, str) and isinstance(x, str):
            return x in box
        if isinstance(box, str) and isinstance(x, Txt) and len(x.p) == 1 and getattr(x.p[0], 'char', False):
            return decide(x.p[0], lambda ch: ch in box)
        if isinstance(box, Txt) and isinstance(x, str) and x:
            t = tlang(box.p)
            inside = rx.cat(rx.TEXT, rx.lit(x), rx.TEXT)
            if rx.member([t, inside]) is None:
                return False
            if rx.member([t, rx.neg(inside)]) is None:
                return True
        raise Unsupported('membership')

    # positions
    def locate(self, ps, pos, what='cut'):
        """(piece, offset) of a position that falls on a boundary or in a literal"""
        pos = Lin.lift(pos)
        at = Lin(0)
        for i, q in enumerate(ps):
            d = pos - at
            if not d.t:
                if d.c == 0:
                    return i, 0
                if isinstance(q, str) and 0 < d.c < len(q):
                    return i, d.c
            at = at + plen(q)
        if pos.same(at):
            return len(ps), 0
        return None

    def char(self, ps, pos, neg=False):
        """character at a position"""
        pos = Lin.lift(pos)
        at = Lin(0)
        for i, q in enumerate(ps):
            end = at + plen(q)
            d = pos - at
            if not d.t and isinstance(q, str) and 0 <= d.c < len(q):
                return q[d.c]
            if not d.t and d.c == 0:
                if q.char:
                    return mk([q])
                return self.inside(ps, i, 'first', at)
            d = pos - end
            if not d.t and d.c == -1 and not isinstance(q, str):
                if q.char:
                    return mk([q])
                return self.inside(ps, i, 'last', end)
            at = end
        raise Unsupported('character at %r of %r' % (pos, ps))

    def inside(self, ps, i, side, b):
        seg = ps[i]
        if self.loops and seg.kind in self.grammar:
            ctx = self.loops[-1]
            names = assigned(ctx.node)
            keep = ctx.frame.vars
            ctx.frame.vars = {k: v for k, (v, l) in ctx.head.items()}
            try:
                ok = bool(self.posvars(ctx.frame, names, b)) and bool(self.around(ctx.frame, seg))
            finally:
                ctx.frame.vars = keep
            if ok:
                raise NeedJump(ctx, seg, side, b)
        # otherwise: one of the characters possible there
        s = frozenset()
        rest = ps[i::-1] if side == 'last' else ps[i:]
        for q in rest:
            if isinstance(q, str):
                s |= {q[-1] if side == 'last' else q[0]}
                break
            s |= q.lasts if side == 'last' else q.firsts
            if not q.nullable:
                break
        else:
            raise Unsupported('character of a text that may be empty')
        # the same place of the same text holds the same character
        key = (side,) + tuple(q if isinstance(q, str) else q.id for q in rest)
        if key not in PEEK:
            PEEK[key] = charseg(s)
        return mk([PEEK[key]])

    def item(self, o, sl, fr):
        if isinstance(sl, ast.Slice):
            if sl.step is not None:
                st = self.ev(sl.step, fr)
                if st != 1 and not (isinstance(o, (str, list, tuple))):
                    raise Unsupported('step')
            else:
                st = None
            a = self.ev(sl.lower, fr) if sl.lower is not None else None
            b = self.ev(sl.upper, fr) if sl.upper is not None else None
            if isinstance(o, (list, tuple)):
                return o[a:b:st]
            if istext(o):
                if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (a, b)):
                    return o[a:b:st]
                return self.cut(o, a, b)
            raise Unsupported('slice')
        i = self.ev(sl, fr)
        if isinstance(o, (list, tuple)) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise Raised('IndexError')
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise Raised('IndexError')
        if istext(o):
            if isinstance(i, int) and i < 0:
                i = tlen(pieces(o)) + i
            return self.char(pieces(o), i)
        if isinstance(o, Match) and isinstance(i, int):
            return self.group(o, i)
        raise Unsupported('item')

    def cut(self, o, a, b):
        ps = pieces(o)
        n = tlen(ps) if any(x is not None and isinstance(x, int) and x < 0 for x in (a, b)) else None

        def fix(x):
            return n + x if isinstance(x, int) and x < 0 else x
        la = (0, 0) if a is None else self.locate(ps, fix(a))
        lb = (len(ps), 0) if b is None else self.locate(ps, fix(b))
        if la is None or lb is None:
            raise Unsupported('cut of %r at %r:%r' % (ps, a, b))
        if la > lb:
            if a is not None and b is not None and positive(Lin.lift(fix(a)) - fix(b)):
                return ''
            raise Unsupported('cut')
        out = []
        for i, q in enumerate(ps):
            if i < la[0] or i > lb[0] or (i == lb[0] and lb[1] == 0):
                continue
            if isinstance(q, str):
                s = q
                if i == lb[0]:
                    s = s[:lb[1]]
                if i == la[0]:
                    s = s[la[1]:]
                out.append(s)
            else:
                out.append(q)
        return mk(out)

    # -- calls
    def docall(self, f, args, kw):
        if isinstance(f, Fn):
            return self.apply(f, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw)
        if isinstance(f, Meth):
            return self.method(f.o, f.name, args, kw)
        raise Unsupported('call of %r' % (f,))

    def builtin(self, n, a, kw):
        if kw:
            raise Unsupported('keyword arguments')
        if n == 'len':
            if istext(a[0]):
                return norm(tlen(pieces(a[0])))
            if isinstance(a[0], (list, tuple)):
                return len(a[0])
            if isinstance(a[0], UList):
                return norm(a[0].n)
        if n == 'int' and len(a) == 1:
            x = a[0]
            if isinstance(x, (int, Lin)):
                return norm(Lin.lift(x))
            if isinstance(x, str):
                return int(x)
            if isinstance(x, Txt) and len(x.p) == 1 and isinstance(x.p[0], Seg) and \
                    rx.member([x.p[0].lang, rx.neg(rx.plus(rx.cls(rx.DIGIT)))]) is None:
                return Lin(0, {('int', x.p[0].base): 1})
        if n == 'str' and len(a) == 1 and istext(a[0]):
            return a[0]
        if n == 'str' and len(a) == 1 and isinstance(a[0], int):
            return str(a[0])
        if n == 'range':
            lo_, hi_, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            if all(isinstance(x, int) for x in (lo_, hi_, st)):
                return list(range(lo_, hi_, st))
            if isinstance(st, int) and st != 0:
                return SymRange(lo_, hi_, st)
        if n in ('list', 'tuple', 'iter'):
            if not a:
                return []
            if isinstance(a[0], Matches):
                return a[0]
            if isinstance(a[0], (list, tuple, str)):
                return list(a[0]) if n != 'tuple' else tuple(a[0])
        if n == 'reversed':
            if isinstance(a[0], Matches):
                return Matches(a[0].pat, a[0].text, not a[0].back)
            if isinstance(a[0], (list, tuple, str)):
                return list(reversed(a[0]))
        if n == 'bool':
            return self.truth(a[0])
        if n == 'abs' and isinstance(a[0], int):
            return abs(a[0])
        if n in ('any', 'all') and isinstance(a[0], (list, tuple)):
            for x in a[0]:
                if self.truth(x) == (n == 'any'):
                    return n == 'any'
            return n == 'all'
        if n in ('min', 'max', 'sum') and all(isinstance(x, int) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)):
            return getattr(builtins, n)(*a)
        if n in ('set', 'frozenset') and isinstance(a[0], (str, list, tuple)):
            return tuple(a[0])
        if n == 'enumerate' and isinstance(a[0], (list, tuple, str)):
            return [tuple(x) for x in enumerate(a[0], *a[1:])]
        if n == 'zip' and all(isinstance(x, (list, tuple, str)) for x in a):
            return [tuple(x) for x in zip(*a)]
        raise Unsupported('%s%r' % (n, tuple(a)))

    def method(self, o, n, a, kw):
        if isinstance(o, ReMod):
            return self.re(n, a, kw)
        if isinstance(o, Pat):
            return self.re(n, [o] + a, kw)
        if kw:
            raise Unsupported('keyword arguments')
        if isinstance(o, Match):
            if n in ('start', 'end', 'span'):
                g = a[0] if a else 0
                s, e = self.extent(o, g)
                return norm(s) if n == 'start' else norm(e) if n == 'end' else (norm(s), norm(e))
            if n == 'group':
                if len(a) > 1:
                    return tuple(self.group(o, x) for x in a)
                return self.group(o, a[0] if a else 0)
            if n == 'groups' and not a:
                return tuple(self.group(o, k) for k in sorted(o.groups))
            raise Unsupported('match.%s' % n)
        if isinstance(o, UList) and n == 'append' and len(a) == 1:
            o.n = o.n + 1
            return None
        if isinstance(o, list):
            if n == 'append':
                o.append(a[0])
                return None
            if n == 'insert' and isinstance(a[0], int):
                o.insert(a[0], a[1])
                return None
            if n == 'extend' and isinstance(a[0], (list, tuple)):
                o.extend(a[0])
                return None
            if n == 'pop' and o and (not a or isinstance(a[0], int)):
                return o.pop(*a)
            if n == 'reverse':
                o.reverse()
                return None
            raise Unsupported('list.%s' % n)
        if isinstance(o, Matches) and n == 'reverse':
            o.back = not o.back
            return None
        if istext(o):
            return self.textmethod(o, n, a)
        raise Unsupported('%r.%s' % (o, n))

    def group(self, m, g):
        s, e = self.extent(m, g)
        return self.cut(Txt(m.ps), norm(s), norm(e))

    def extent(self, m, g):
        if g == 0:
            return m.start, m.end
        if g in m.groups:
            return m.groups[g]
        raise Unsupported('group %r' % (g,))

    def textmethod(self, o, n, a):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and n in (
                'strip', 'lstrip', 'rstrip', 'replace', 'isdigit', 'isalnum', 'isalpha', 'isspace', 'startswith', 'endswith', 'split', 'find', 'rfind', 'count', 'isdecimal', 'lower', 'upper', 'isnumeric', 'isidentifier', 'index'):
            try:
                return getattr(o, n)(*a)
            except (ValueError, TypeError) as e:
                raise Raised(str(e))
        ps = pieces(o)
        if n == 'join' and isinstance(o, str):
            x = a[0]
            if isinstance(x, (list, tuple)):
                out = []
                for i, q in enumerate(x):
                    out += ([o] if i else []) + pieces(q)
                return mk(out)
            if isinstance(x, RepList):
                k = Lin.lift(x.n)
                c = k.const()
                if c is None and lo(k) is not None and lo(k) == hi(k):
                    c = lo(k)
                if c is None:
                    if lo(k) is None or lo(k) < 1:
                        if not positive(k):
                            return ''
                        return self.textmethod(o, n, a)
                    return mk([Rep(tuple(pieces(x.x)), o, k)])
                return self.textmethod(o, n, [[x.x]*max(c, 0)])
            raise Unsupported('join of %r' % (x,))
        if n == 'replace' and a[0] == ' ' and a[1] == '' and len(a) == 2:
            return mk([q.replace(' ', '') if isinstance(q, str) else noblank(q) for q in ps])
        if n in ('strip', 'rstrip', 'lstrip') and (not a or a[0] == ' '):
            ps = list(ps)
            if n in ('strip', 'rstrip'):
                ps = self.rstrip(ps, 'last')
            if n in ('strip', 'lstrip'):
                ps = self.rstrip(ps[::-1], 'first')[::-1]
            return mk(ps)
        if n in ('isdigit', 'isalnum', 'isalpha', 'isspace', 'isdecimal', 'isnumeric') and not a:
            pred = {'isdigit': rx.DIGIT, 'isdecimal': rx.DIGIT, 'isnumeric': rx.DIGIT, 'isalnum': rx.WORD - {'_'}, 'isalpha': rx.WORD - {'_'} - rx.DIGIT, 'isspace': rx.SPACE}[n]
            if len(ps) == 1 and getattr(ps[0], 'char', False):
                return decide(ps[0], lambda ch: ch in pred)
            t = tlang(ps)
            good = rx.plus(rx.cls(pred))
            if rx.member([t, rx.neg(good)]) is None:
                return True
            if rx.member([t, good]) is None:
                return False
            raise Unsupported('%s of %r' % (n, ps))
        if n in ('startswith', 'endswith') and len(a) == 1 and isinstance(a[0], str):
            t = tlang(ps)
            good = rx.cat(rx.lit(a[0]), rx.TEXT) if n == 'startswith' else rx.cat(rx.TEXT, rx.lit(a[0]))
            if rx.member([t, rx.neg(good)]) is None:
                return True
            if rx.member([t, good]) is None:
                return False
            raise Unsupported('%s' % n)
        if n == 'format' and isinstance(o, str):
            parts = o.split('{}')
            if len(parts) == len(a) + 1 and not any('{' in q or '}' in q for q in parts):
                r = parts[0]
                for v, q in zip(a, parts[1:]):
                    r = self.binop(ast.Add, self.binop(ast.Add, r, self.tostr(v)), q)
                return r
        raise Unsupported('text method %s' % n)

    def rstrip(self, ps, side):
        """pieces without blanks at their end (list given in the order that ends there)"""
        ps = list(ps)
        while ps:
            q = ps[-1]
            if isinstance(q, str):
                s = q.rstrip(' ') if side == 'last' else q.lstrip(' ')
                if s:
                    ps[-1] = s
                    return ps
                ps.pop()
                continue
            if isinstance(q, Rep):
                raise Unsupported('strip of a product')
            if rx.member([q.lang, rx.neg(rx.SPACES)]) is None:
                ps.pop()
                continue
            ends = q.lasts if side == 'last' else q.firsts
            if ' ' not in ends:
                if not q.nullable:
                    return ps
                # when empty, what is before must not need stripping either
                r = ps[:-1]
                r2 = self.rstrip(r, side)
                if len(r2) == len(r) and all(x is y or x == y for x, y in zip(r, r2)):
                    return ps
                raise Unsupported('strip')
            d = blankless(q, side)
            if d.nullable:
                raise Unsupported('strip')
            ps[-1] = d
            return ps
        return ps

    def re(self, n, a, kw):
        flags = kw.pop('flags', 0) if kw else 0
        if kw or flags:
            raise Unsupported('arguments of re.%s' % n)
        if n == 'compile' and len(a) == 1 and isinstance(a[0], str):
            return Pat(a[0])
        pat = a[0] if isinstance(a[0], Pat) else Pat(a[0]) if isinstance(a[0], str) else None
        if pat is None or len(a) != 2 or not istext(a[1]):
            raise Unsupported('re.%s' % n)
        if n == 'finditer':
            return Matches(pat, a[1])
        if n in ('search', 'match', 'fullmatch'):
            return self.search(pat, a[1], n)
        raise Unsupported('re.%s' % n)

    def search(self, pat, text, how):
        ps = pieces(text)
        t = tlang(ps)
        if how == 'search':
            pl = rx.cat(rx.TEXT, pat.lang(marks=False))
        elif how == 'match':
            pl = pat.lang(marks=False)
        else:
            pl = pat.lang(marks=False, rest=rx.EPS)
        if rx.member([t, pl]) is None:
            return None
        if rx.null(pl, None):
            raise Unsupported('pattern that matches the empty text')
        # start at a boundary, in every text
        opt = rx.opt(rx.cls(rx.MARKS))
        p = rx.Pattern(pat.pattern)
        p.group, p.inahead = None, True
        loose = p.seq(list(p.tree), rx.star(rx.cls(rx.SIGMA | rx.MARKS)))
        at = Lin(0)
        end = how == 'fullmatch' or pat.pattern.endswith('$')
        for i in range(len(ps) + 1):
            if how != 'search' and i:
                break
            marked = rx.cat(tlang(ps[:i]), rx.cls('\x01'), tlang(ps[i:]))
            here = rx.cat(rx.TEXT, rx.cls('\x01'), pat.lang(marks=False) if how != 'fullmatch' else pat.lang(marks=False, rest=rx.EPS))
            if rx.member([marked, rx.neg(here)], marks='\x01') is None:
                early = rx.cat(rx.TEXT, rx.both(rx.cat(rx.cls(rx.SIGMA), rx.ALL), loose, rx.cat(rx.TEXT, rx.cls('\x01'), rx.ALL)))
                if how != 'search' or rx.member([marked, early], marks='\x01') is None:
                    stop = tlen(ps) if end else None
                    return Match(tuple(ps), at, stop, {})
            if i < len(ps):
                at = at + plen(ps[i])
        raise Unsupported('search of %r in %r' % (pat.pattern, ps))


def listlen(v):
    return v.n if isinstance(v, UList) else Lin(len(v))


def some(ps):
    return any(bool(q) if isinstance(q, str) else not q.nullable for q in ps)


def anything(ps):
    return Seg('any', rx.plus(rx.cls(rx.SIGMA)) if some(ps) else rx.TEXT)


class ProofCtx:
    def __init__(self, subs, frame):
        self.subs, self.frame = subs, frame


rx.SPACES = rx.star(rx.cls(' '))
_nb = {}


def noblank(q):
    """segment with the blanks removed"""
    if isinstance(q, Rep):
        return Rep(tuple(x.replace(' ', '') if isinstance(x, str) else noblank(x) for x in q.x), q.sep.replace(' ', ''), q.n)
    if rx.member([q.lang, rx.cat(rx.TEXT, rx.cls(' '), rx.TEXT)]) is None:
        return q
    if rx.member([q.lang, rx.neg(rx.SPACES)]) is None:
        return ''
    k = (q, 'noblank')
    if k not in _nb:
        _nb[k] = Seg(q.name + ' without blanks', rx.both(rx.star(rx.cls(rx.SIGMA - {' '})), rx.TEXT if q.nullable or not solid(q) else rx.plus(rx.cls(rx.SIGMA))), base=q.base)
    return _nb[k]


def solid(q):
    """every member has a character other than a blank"""
    return rx.member([q.lang, rx.SPACES]) is None


def blankless(q, side):
    k = (q, side)
    if k not in _nb:
        nb = rx.cls(rx.SIGMA - {' '})
        if not solid(q):
            raise Unsupported('strip of a text that may be blank')
        b = rx.alt(nb, rx.cat(nb, rx.TEXT, nb)) if False else rx.TEXT
        # q = blanks + rest (first) or rest + blanks (last): keep what is known
        t = rx.both(rx.cat(rx.TEXT, nb) if side == 'last' else rx.cat(nb, rx.TEXT), stripped(q.lang, side))
        _nb[k] = Seg(q.name + ' stripped', t, base=q.base)
    return _nb[k]


def stripped(t, side):
    """language of the members without blanks on one side (over-approximation)"""
    if side == 'first':
        out = []
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            d = rx.der(x, None, ' ')
            if d is not rx.EMPTY:
                todo.append(d)
            if len(seen) > 50:
                return rx.TEXT
        return rx.alt(*out)
    return rx.rev(stripped(rx.rev(t), 'first'))


def samevalue(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return Lin.lift(a).same(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(samevalue(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Txt) and isinstance(b, Txt):
        return len(a.p) == len(b.p) and all(x is y or (isinstance(x, str) and isinstance(y, str) and x == y) for x, y in zip(a.p, b.p))
    return False
