"""Regular languages over ASCII texts with marks: derivatives with boolean
operations, one-character look-behind, and the translation of the patterns of
Python's `re` (as parsed by `re` itself).

Decides questions of the form: is there a text (with marks) that ... ?
"""
import string
from re import _parser as P, _constants as K

from .alg import Unsupported

SPACE = frozenset(' ')
DIGIT = frozenset(string.digits)
WORD = frozenset(string.ascii_letters + string.digits + '_')
ALPHA = frozenset(string.ascii_letters + '_')
SIGMA = frozenset(chr(i) for i in range(32, 127))
MARKS = frozenset('\x01\x02\x03\x04')   # match start, group start, group end, match end



class Node(tuple):
    __slots__ = ()
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_memo = {}


def intern(t):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = Node(t)
    return r


EMPTY = intern(('0',))
EPS = intern(('e',))


def cls(s):
    s = frozenset(s)
    return intern(('c', s)) if s else EMPTY


def lit(s):
    r = EPS
    for ch in reversed(s):
        r = cat(cls(ch), r)
    return r


def cat(*ts):
    r = ts[-1]
    for a in reversed(ts[:-1]):
        r = _cat(a, r)
    return r


def _cat(a, b):
    if a is EMPTY or b is EMPTY:
        return EMPTY
    if a is EPS:
        return b
    if b is EPS:
        return a
    if a[0] == '.':
        return _cat(a[1], _cat(a[2], b))
    return intern(('.', a, b))


def alt(*ts):
    s = set()
    for t in ts:
        if t[0] == '|':
            s |= t[1]
        elif t is not EMPTY:
            s.add(t)
    if ALL in s:
        return ALL
    cs = [t for t in s if t[0] == 'c']
    if len(cs) > 1:
        u = frozenset().union(*[t[1] for t in cs])
        s -= set(cs)
        s.add(cls(u))
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    return intern(('|', frozenset(s)))


def both(*ts):
    s = set()
    for t in ts:
        if t[0] == '&':
            s |= t[1]
        elif t is EMPTY:
            return EMPTY
        elif t is not ALL:
            s.add(t)
    if not s:
        return ALL
    if len(s) == 1:
        return next(iter(s))
    return intern(('&', frozenset(s)))


def neg(t):
    if t[0] == '!':
        return t[1]
    return intern(('!', t))


def star(t):
    if t is EPS or t is EMPTY:
        return EPS
    if t[0] == '*':
        return t
    return intern(('*', t))


def plus(t):
    return cat(t, star(t))


def opt(t):
    return alt(EPS, t)


def behind(s):
    return intern(('b', frozenset(s)))


ALL = intern(('!', EMPTY))
TEXT = star(cls(SIGMA))


_null = {}


def null(t, prev):
    k = (t, prev)
    r = _null.get(k)
    if r is None:
        o = t[0]
        if o == '0' or o == 'c':
            r = False
        elif o == 'e' or o == '*':
            r = True
        elif o == '.':
            r = null(t[1], prev) and null(t[2], prev)
        elif o == '|':
            r = any(null(x, prev) for x in t[1])
        elif o == '&':
            r = all(null(x, prev) for x in t[1])
        elif o == '!':
            r = not null(t[1], prev)
        else:
            r = prev in t[1]
        _null[k] = r
    return r


_der = {}


def der(t, prev, ch):
    k = (t, prev, ch)
    r = _der.get(k)
    if r is None:
        o = t[0]
        if o in ('0', 'e', 'b'):
            r = EMPTY
        elif o == 'c':
            r = EPS if ch in t[1] else EMPTY
        elif o == '.':
            r = cat(der(t[1], prev, ch), t[2])
            if null(t[1], prev):
                r = alt(r, der(t[2], prev, ch))
        elif o == '|':
            r = alt(*[der(x, prev, ch) for x in t[1]])
        elif o == '&':
            r = both(*[der(x, prev, ch) for x in t[1]])
        elif o == '!':
            r = neg(der(t[1], prev, ch))
        else:
            r = cat(der(t[1], prev, ch), t)
        _der[k] = r
    return r


def classes(t, out, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    o = t[0]
    if o in 'cb':
        out.add(t[1])
    elif o in '.':
        classes(t[1], out, seen)
        classes(t[2], out, seen)
    elif o in '|&':
        for x in t[1]:
            classes(x, out, seen)
    elif o in '!*':
        classes(t[1], out, seen)


def atoms(ts, sigma=SIGMA):
    """representatives of the character classes told apart by the terms"""
    cl = set()
    for t in ts:
        classes(t, cl)
    sig = {}
    cl = sorted(cl, key=lambda c: sorted(map(str, c)))
    for ch in sorted(sigma):
        sig.setdefault(tuple(ch in c for c in cl), ch)
    return sorted(sig.values())


def witness(step, accept, init, alphabet, limit=200000):
    """breadth first search: a text leading from init to acceptance, or None;
    step(state, ch) -> iterable of states; accept(state)"""
    seen = {init: None}
    todo = [init]
    while todo:
        nxt = []
        for s in todo:
            if accept(s):
                out = []
                while seen[s] is not None:
                    s, ch = seen[s]
                    out.append(ch)
                return ''.join(reversed(out))
            for ch in alphabet:
                for q in step(s, ch):
                    if q not in seen:
                        seen[q] = (s, ch)
                        nxt.append(q)
                        if len(seen) > limit:
                            raise Unsupported('too many states')
        todo = nxt
    return None


def member(ts, marks=(), text=None, prev=None):
    """a text (with marks, which `text` terms do not see) in all the terms ts"""
    alphabet = atoms(list(ts) + ([text] if text is not None else [])) + list(marks)
    t0 = both(*ts)

    def step(s, ch):
        t, x, p = s
        d = der(t, p, ch)
        if d is EMPTY:
            return
        if ch in MARKS:
            yield d, x, p
            return
        if x is not None:
            x = der(x, p, ch)
            if x is EMPTY:
                return
        yield d, x, ch
    return witness(step, lambda s: null(s[0], s[2]) and (s[1] is None or null(s[1], s[2])), (t0, text, prev), alphabet)


def empty(t):
    return member([t]) is None


def firsts(t):
    """characters a nonempty member can start with (over-approximation)"""
    return frozenset(ch for ch in SIGMA if der(t, None, ch) is not EMPTY and live(der(t, None, ch), ch))


_live = {}


def live(t, prev):
    k = (t, prev)
    if k not in _live:
        _live[k] = member([t], prev=prev) is not None
    return _live[k]


def rev(t):
    o = t[0]
    if o == '.':
        return cat(rev(t[2]), rev(t[1]))
    if o == '|':
        return alt(*[rev(x) for x in t[1]])
    if o == '&':
        return both(*[rev(x) for x in t[1]])
    if o == '!':
        return neg(rev(t[1]))
    if o == '*':
        return star(rev(t[1]))
    if o == 'b':
        raise Unsupported('reverse of an assertion')
    return t


def lasts(t):
    return firsts(rev(t))


# -- patterns of Python ---------------------------------------------------------------
CAT = {K.CATEGORY_DIGIT: DIGIT, K.CATEGORY_NOT_DIGIT: SIGMA - DIGIT, K.CATEGORY_SPACE: SPACE, K.CATEGORY_NOT_SPACE: SIGMA - SPACE,
       K.CATEGORY_WORD: WORD, K.CATEGORY_NOT_WORD: SIGMA - WORD}


def inset(items):
    s = set()
    no = False
    for op, av in items:
        if op == K.NEGATE:
            no = True
        elif op == K.LITERAL:
            s.add(chr(av))
        elif op == K.RANGE:
            s |= {chr(i) for i in range(av[0], av[1] + 1)}
        elif op == K.CATEGORY:
            s |= CAT[av]
        else:
            raise Unsupported('pattern %s' % op)
    return frozenset(SIGMA - s if no else SIGMA & s)


def width1(sub):
    """class of a one-character pattern"""
    if len(sub) != 1:
        raise Unsupported('look-behind of several characters')
    op, av = sub[0]
    if op == K.LITERAL:
        return frozenset(chr(av))
    if op == K.NOT_LITERAL:
        return SIGMA - {chr(av)}
    if op == K.IN:
        return inset(av)
    if op == K.ANY:
        return SIGMA
    if op == K.BRANCH:
        return frozenset().union(*[width1(list(x)) for x in av[1]])
    if op == K.SUBPATTERN:
        return width1(list(av[3]))
    raise Unsupported('look-behind %s' % op)


class Pattern:
    """language of "match, then the rest of the text" with marks"""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        try:
            self.tree = P.parse(pattern, flags)
        except Exception as e:
            raise Unsupported('pattern: %s' % e)
        bad = self.tree.state.flags & ~(P.SRE_FLAG_UNICODE if hasattr(P, 'SRE_FLAG_UNICODE') else 32)
        if bad & (2 | 8 | 16 | 64):
            raise Unsupported('flags of the pattern')
        self.ngroups = self.tree.state.groups - 1
        self.lazy = False

    def sym(self, s):
        return cat(opt(cls(MARKS)), cls(s)) if self.inahead else cls(s)

    def seq(self, items, k):
        for it in reversed(items):
            k = self.one(it, k)
        return k

    def one(self, it, k):
        op, av = it
        if op == K.LITERAL:
            return cat(self.sym(chr(av)), k)
        if op == K.NOT_LITERAL:
            return cat(self.sym(SIGMA - {chr(av)}), k)
        if op == K.ANY:
            return cat(self.sym(SIGMA), k)
        if op == K.IN:
            return cat(self.sym(inset(av)), k)
        if op == K.BRANCH:
            return alt(*[self.seq(list(x), k) for x in av[1]])
        if op == K.SUBPATTERN:
            g, add, dl, sub = av
            if add or dl:
                raise Unsupported('flags of a group')
            if g == self.group and not self.inahead:
                return cat(cls('\x02'), self.seq(list(sub), cat(cls('\x03'), k)))
            return self.seq(list(sub), k)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            if op == K.MIN_REPEAT:
                self.lazy = True
            body = self.seq(list(sub), EPS)
            if has(body):
                raise Unsupported('assertion in a repetition')
            r = EPS
            for _ in range(lo):
                r = cat(body, r)
            if hi == K.MAXREPEAT:
                r = cat(r, star(body))
            else:
                if hi > 20:
                    raise Unsupported('large repetition')
                t = EPS
                for _ in range(hi - lo):
                    t = opt(cat(body, t))
                r = cat(r, t)
            return cat(r, k)
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d < 0:
                s = width1(list(sub))
                return cat(behind(s) if op == K.ASSERT else behind((SIGMA - s) | {None}), k)
            old = self.inahead
            self.inahead = True
            x = self.seq(list(sub), ALL)
            self.inahead = old
            return both(k, x if op == K.ASSERT else neg(x))
        if op == K.AT:
            if av in (K.AT_END, K.AT_END_STRING):
                return both(k, star(cls(MARKS)))
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                return cat(behind({None}), k)
            if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                w = cat(opt(cls(MARKS)), opt(cls(MARKS)), cls(WORD), ALL)
                r = alt(cat(behind(WORD), both(k, neg(w))), cat(behind((SIGMA - WORD) | {None}), both(k, w)))
                if av == K.AT_BOUNDARY:
                    return r
                return alt(cat(behind(WORD), both(k, w)), cat(behind((SIGMA - WORD) | {None}), both(k, neg(w))))
        raise Unsupported('pattern %s' % op)

    def lang(self, marks=True, group=None, rest=TEXT):
        """mark, match (with the group marked), mark, rest of the text"""
        self.group = group
        self.inahead = False
        k = rest
        if marks:
            return cat(cls('\x01'), self.seq(list(self.tree), cat(cls('\x04'), k)))
        return self.seq(list(self.tree), k)


def has(t):
    """contains an assertion"""
    o = t[0]
    if o in 'b&!':
        return True
    if o == '.':
        return has(t[1]) or has(t[2])
    if o == '|':
        return any(has(x) for x in t[1])
    if o == '*':
        return has(t[1])
    return False


def anywhere(t):
    """mark-free text, then t"""
    return cat(TEXT, t)
