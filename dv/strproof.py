"""Contracts of the power expansion (C18) on the real code.

Grammar of the texts (assumed of the caller): arithmetic expressions over names,
numbers, calls, indexing, attributes, brackets, the operators + - * / // % **,
commas, blanks.  Trusted lemma about this grammar: in a text, a power whose base
is a complete operand and whose exponent is an integer literal not followed by
another power (or a call pow(v, n) with an integer literal n) may be replaced by
a bracketed product of n copies of the operand (of the bracketed argument), and
blanks may be removed inside an operand: the value stays the same.
"""
import ast
import os

from . import load, rx, strexec as X
from .alg import Unsupported
from .strexec import Lin, Seg, Txt, Match, Matches, charseg, mk, pieces, tlen, samevalue, explore

PATH = 'meshless/dev/sympytools.py'

# -- languages ------------------------------------------------------------------------
c, lit, cat, alt, star, plus, opt = rx.cls, rx.lit, rx.cat, rx.alt, rx.star, rx.plus, rx.opt
SP = star(c(' '))
NAME = cat(c(rx.ALPHA), star(c(rx.WORD)))
INT = plus(c(rx.DIGIT))
DEC = alt(cat(INT, opt(cat(c('.'), star(c(rx.DIGIT))))), cat(c('.'), INT))
EXP = cat(DEC, c('eE'), opt(c('+-')), INT)
NUM = alt(DEC, EXP)
BINARY = alt(c('+-*/%'), lit('**'), lit('//'))
PRE = star(c(' +-(['))                       # before an operand
FL = star(alt(cat(SP, c(')]')), cat(SP, c('('), SP, c(')')), cat(c('.'), NAME)))
FE = cat(FL, SP, alt(BINARY, c(',([')), PRE)   # from after a name or bracket to the next operand
NE = cat(SP, alt(BINARY, c(',')), PRE)         # from after a number
NF = cat(SP, c(')]'))
EE = alt(cat(NAME, FE), cat(NUM, alt(NE, cat(NF, FE))))
HEAD = cat(PRE, star(EE))                      # what can stand before an operand
TEXT = cat(HEAD, alt(cat(NAME, FL), cat(NUM, opt(cat(NF, FL)))), SP)
INSIDE = alt(SP, TEXT)                         # between brackets
BLOCK = alt(cat(c('('), INSIDE, c(')')), cat(c('['), INSIDE, c(']')))
TRAILERS = star(alt(cat(SP, BLOCK), cat(c('.'), NAME)))
NOTBR = rx.SIGMA - frozenset('()[]')

# specification of the two kinds of places, with marks
M1, G1, G2, M2 = (c(x) for x in '\x01\x02\x03\x04')
SOLID_END = rx.SIGMA - {' '}
POWER = cat(alt(rx.EPS, cat(rx.TEXT, c(SOLID_END))), M1, SP, lit('**'), SP, G1, INT, G2, M2,
            rx.both(rx.TEXT, rx.neg(cat(c(rx.WORD | {'.'}), rx.ALL)), rx.neg(cat(SP, lit('**'), rx.ALL))))
POWER_ANY = cat(rx.TEXT, M1, SP, lit('**'), SP, G1, INT, G2, M2,
                rx.both(rx.TEXT, rx.neg(cat(c(rx.WORD | {'.'}), rx.ALL)), rx.neg(cat(SP, lit('**'), rx.ALL))))
CALL = cat(alt(rx.EPS, cat(rx.TEXT, c(rx.SIGMA - rx.WORD - {'.'}))), M1, lit('pow('), M2, rx.TEXT)
ALLMARKS = '\x01\x02\x03\x04'


def equivalent(pat, spec, group):
    """texts (with marks) where pattern and specification differ, or None"""
    got = cat(rx.TEXT, pat.lang(True, group))
    for a, b, nm in ((got, spec, 'the pattern matches'), (spec, got, 'the pattern does not match')):
        w = rx.member([a, rx.neg(b)], marks=ALLMARKS, text=TEXT)
        if w is not None:
            return '%s %s' % (nm, show(w))
    return None


def show(w):
    return ''.join({'\x01': '<', '\x02': '{', '\x03': '}', '\x04': '>'}.get(ch, ch) for ch in w)


# -- grammars of the segments: productions, read from the side the loop comes from -----------
def word(side):
    return charseg(rx.WORD)


def g_word(side):
    s = Seg('word', star(c(rx.WORD)), 'word')
    return [s, charseg(rx.WORD)] if side == 'last' else [charseg(rx.WORD), s]


def g_name(side):
    if side == 'last':
        return [Seg('name', NAME, 'name'), charseg(rx.WORD)]
    return [charseg(rx.ALPHA), Seg('word', star(c(rx.WORD)), 'word')]


def g_digits(side):
    d, ch = Seg('digits', INT, 'digits'), charseg(rx.DIGIT)
    return [d, ch] if side == 'last' else [ch, d]


def g_digits0(side):
    d, ch = Seg('digits', star(c(rx.DIGIT)), 'digits0'), charseg(rx.DIGIT)
    return [d, ch] if side == 'last' else [ch, d]


def g_blanks(side):
    s = Seg('blanks', SP, 'blanks')
    return [s, ' '] if side == 'last' else [' ', s]


def inside(name='inside'):
    return Seg(name, INSIDE, 'balanced')


def bal(o, cl):
    def p(side):
        a, b = Seg('balanced', rx.TEXT, 'balanced'), Seg('balanced', rx.TEXT, 'balanced')
        return [a, o, b, cl] if side == 'last' else [o, a, cl, b]
    return p


def balc(side):
    a, ch = Seg('balanced', rx.TEXT, 'balanced'), charseg(NOTBR)
    return [a, ch] if side == 'last' else [ch, a]


def arg(o, cl):
    def p(side):
        a, b = Seg('argument', rx.TEXT, 'argument'), Seg('balanced', rx.TEXT, 'balanced')
        return [a, o, b, cl] if side == 'last' else [o, b, cl, a]
    return p


def argc(side):
    a, ch = Seg('argument', rx.TEXT, 'argument'), charseg(NOTBR - {','})
    return [a, ch] if side == 'last' else [ch, a]


def tr(*how):
    def p(side):
        t = Seg('trailers', TRAILERS, 'trailers')
        if how[0] == '.':
            q = ['.', Seg('name', NAME, 'name')]
        else:
            q = [Seg('blanks', SP, 'blanks'), how[0], inside(), how[1]]
        return [t] + q if side == 'last' else q + [t]
    return p


GRAMMAR = {
    'word': [lambda s: [], g_word],
    'name': [lambda s: [charseg(rx.ALPHA)] if s == 'last' else [], g_name],
    'digits': [lambda s: [charseg(rx.DIGIT)], g_digits],
    'digits0': [lambda s: [], g_digits0],
    'blanks': [lambda s: [], g_blanks],
    'balanced': [lambda s: [], balc, bal('(', ')'), bal('[', ']')],
    'argument': [lambda s: [], argc, arg('(', ')'), arg('[', ']')],
    'trailers': [lambda s: [], tr('(', ')'), tr('[', ']'), tr('.')],
}


def digits():
    return Seg('digits', INT, 'digits')


def operands():
    """kinds of complete operands"""
    n = Seg('name', NAME, 'name')
    yield 'name with trailers', [n, Seg('trailers', TRAILERS, 'trailers')], True
    yield 'bracket with trailers', ['(', inside(), ')', Seg('trailers', TRAILERS, 'trailers')], True
    yield 'integer', [digits()], False
    yield 'decimal number', [digits(), '.', Seg('digits', star(c(rx.DIGIT)), 'digits0')], False
    yield 'decimal number without integer part', ['.', digits()], False
    for nm, man in (('integer', [digits()]), ('decimal', [digits(), '.', Seg('digits', star(c(rx.DIGIT)), 'digits0')]), ('fraction', ['.', digits()])):
        for sg in ('', '+', '-'):
            yield 'number with exponent (%s, sign %r)' % (nm, sg), man + [charseg('eE')] + ([sg] if sg else []) + [digits()], False


def heads():
    yield 'at the start', []
    yield 'after blanks', [Seg('blanks', plus(c(' ')))]
    yield 'after other tokens', [Seg('head', rx.both(HEAD, cat(rx.TEXT, c(SOLID_END)))), Seg('blanks', SP)]


# -- value of what was put in place ------------------------------------------------------------
def flat(ps):
    out = []
    for q in ps:
        if isinstance(q, str):
            out += [ch for ch in q if ch != ' ']
        elif isinstance(q, X.Rep):
            out.append(q)
        elif q.base.kind == 'blanks' or rx.member([q.base.lang, rx.neg(SP)]) is None:
            continue
        else:
            out.append(q.base)
    return out


class NotProduct(Exception):
    pass


class Reader:
    """reads a product of copies of the operand; atom: the operand may stand without brackets"""

    def __init__(self, unit, atom):
        self.unit, self.atom = flat(unit), atom

    def factor(self, ts, i):
        u = self.unit
        if ts[i:i + len(u)] == u and self.atom:
            return Lin(1), i + len(u), True
        if i < len(ts) and isinstance(ts[i], X.Rep):
            q = ts[i]
            if q.sep.replace(' ', '') != '*':
                raise NotProduct('copies joined by %r' % q.sep)
            return self.copies(q, flat(q.x)), i + 1, False
        if i < len(ts) and ts[i] == '(':
            if not self.atom and ts[i + 1:i + 1 + len(u)] == u and ts[i + 1 + len(u):i + 2 + len(u)] == [')']:
                return Lin(1), i + 2 + len(u), True
            e, j, at = self.product(ts, i + 1)
            if ts[j:j + 1] != [')']:
                raise NotProduct('unbalanced')
            return e, j + 1, True
        if ts[i:i + 1] == ['1'] and not (i + 1 < len(ts) and isinstance(ts[i + 1], str) and (ts[i + 1].isalnum() or ts[i + 1] in '._')):
            return Lin(0), i + 1, True
        raise NotProduct('at %r' % (ts[i:i + 3],))

    def product(self, ts, i):
        pre = Lin(0)
        start = i
        # (v*)(v*)...(v*)v
        while i < len(ts) and isinstance(ts[i], X.Rep) and ts[i].sep.strip() == '' and flat(ts[i].x)[-1:] == ['*']:
            pre = pre + self.copies(ts[i], flat(ts[i].x)[:-1])
            i += 1
        e, i, at = self.factor(ts, i)
        e = e + pre
        at = at and i == start + 1 or at and pre.const() == 0
        while i < len(ts):
            q = ts[i]
            if q == '*' and ts[i + 1:i + 2] != ['*']:
                e2, i, _ = self.factor(ts, i + 1)
            elif isinstance(q, X.Rep) and q.sep.strip() == '' and flat(q.x)[:1] == ['*'] and flat(q.x)[1:2] != ['*']:
                e2, i = self.copies(q, flat(q.x)[1:]), i + 1
            else:
                break
            e = e + e2
            at = False
        return e, i, at

    def copies(self, rep, ts):
        e, j, at = self.product(ts, 0)
        if j != len(ts) or e.const() is None:
            raise NotProduct('repeated %r' % (rep.x,))
        return rep.n.scale(e.const())

    def read(self, ps):
        """exponent of an atom equal to a power of the unit"""
        ts = flat(ps)
        e, i, at = self.product(ts, 0)
        if i != len(ts):
            raise NotProduct('followed by %r' % (ts[i:i + 3],))
        if not at:
            raise NotProduct('the product is not bracketed')
        return e


def exponent_ok(e, n):
    """e == n on this path"""
    d = e - n
    l, h = X.lo(d), X.hi(d)
    return l == 0 and h == 0 or (not d.t and d.c == 0)


# -- loops over matches --------------------------------------------------------------------------
class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.done = set()       # rewriting steps proved, in the order of the code
        self.texts = {}         # expression text -> steps behind it
        self.seen = {}
        self.failed = []
        self.replay = []

    def places(self, w):
        """expressions around the place where the patterns differ"""
        t = w.split(' ', 3)[-1] if w.startswith('the pattern') else w
        t = ''.join(ch for ch in t if ch not in '<>{}')
        for k in ('**', 'pow('):
            if k in t:
                a, b = t.split(k, 1)
                for x in (a, a + 'x', 'x', '(x+y)'):
                    for y in (b, b + 'x', b + '2', '2' + b, '2)', 'x, 2)', b + ', 2)', b + 'x, 2)', '12' + b, '12' + b + '5', b + '*y', '123'):
                        self.replay.append([x + k + y, int(y.isdigit() and k == '**' and x in ('x', '(x+y)'))])

    def exponents(self, n):
        """texts whose exponent takes this path"""
        l, h = X.lo(n), X.hi(n)
        for k in sorted({q for q in (l, (l or 0) + 1, (l or 0) + 2, h) if q is not None and 0 <= q <= 20000 and (h is None or q <= h)}):
            for b in ('x', '(x-y)', '2', 'f(x)', '.25E-1'):
                self.replay += [['%s**%d' % (b, k), int(b[0] in 'x(')], ['pow(%s, %d)' % (b, k), int(b[0] in 'x(')]]

    def ok(self, name, ok, detail=''):
        if not ok:
            self.failed.append(name)
        self.seen.setdefault(name, [0, True, ''])
        s = self.seen[name]
        s[0] += 1
        s[1] = s[1] and bool(ok)
        if not ok:
            s[2] = detail

    def whole(self, t):
        """the expression a text stands for"""
        ps = pieces(t)
        if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0] in self.texts:
            return ps[0]
        raise Unsupported('a text that is not a whole expression')

    def rule(self, I, st, fr, src):
        E = self.whole(src.text)
        if src.back:
            self.backward(I, st, fr, src, E)
        else:
            self.forward(I, st, fr, src, E)

    def replaced(self, fr, E, ps):
        """variables of the frame with the expression E written out"""
        out = {}
        for k, v in fr.vars.items():
            if isinstance(v, Txt):
                if any(isinstance(q, X.Rep) for q in v.p):
                    v = X.POISON
                elif any(q is E for q in v.p):
                    v = mk([y for q in v.p for y in (ps if q is E else [q])])
            elif isinstance(v, Lin) and ('len', E) in v.t:
                v = v.subst({('len', E): tlen(ps)})
            elif isinstance(v, (list, Match, Matches)):
                v = X.POISON
            out[k] = v
        return out

    # every match of a power, left to right: text so far + rest of the text
    def forward(self, I, st, fr, src, E):
        w = equivalent(src.pat, POWER_ANY, 1)
        if w is not None:
            self.places(w)
            # the first characters may be blanks left to the gap
            raise Unsupported('places of the powers: %s' % w)
        self.ok('powers/the pattern finds exactly the powers with an integer literal as exponent', True)
        names = X.assigned(st) - {X.itname(st)}
        acc = [k for k in names if fr.vars.get(k) == '' and isinstance(fr.vars.get(k), str)]
        pos = [k for k in names if isinstance(fr.vars.get(k), int) and not isinstance(fr.vars[k], bool) and fr.vars[k] == 0]
        if len(acc) != 1 or len(pos) != 1:
            raise Unsupported('text so far and position are not recognised')
        acc, pos = acc[0], pos[0]
        self.ok('powers/before the first match nothing is written and nothing is read', True)
        if st.orelse:
            raise Unsupported('else of a loop over matches')
        base = dict(fr.vars)
        O = Seg('written', rx.TEXT)
        D = Seg('read', rx.TEXT)
        Rr = Seg('rest', rx.TEXT)
        I2 = Seg('exponent', INT, 'digits')
        B1, B2 = Seg('blanks', SP, 'blanks'), Seg('blanks', SP, 'blanks')
        steps = []
        for nm, P, _ in operands():
            for hn, A in heads():
                def run(nm=nm, P=P, hn=hn, A=A):
                    # written so far + gap = head + operand
                    G = Seg('gap', rx.TEXT)
                    G._len = tlen(A) + tlen(P) - tlen([O])
                    X.RUN.rules.append(([O, G], A + P))
                    M = [B1, '**', B2, I2]
                    full = [D, G] + M + [Rr]
                    f2 = X.Frame(fr.parent)
                    f2.local = fr.local
                    f2.vars.update(self.replaced(fr, E, full))
                    for k in names:
                        f2.vars[k] = X.POISON
                    f2.vars[acc] = mk([O])
                    f2.vars[pos] = tlen([D])
                    s = tlen([D, G])
                    e = s + tlen(M)
                    m = Match(tuple(full), s, e, {1: (e - tlen([I2]), e)})
                    I.assign(st.target, m, f2)
                    try:
                        I.block(st.body, f2)
                    except X.Continue_:
                        pass
                    except (X.Break_, X.Return_):
                        raise Unsupported('the loop over the powers ends early')
                    for k, v in fr.vars.items():
                        if k not in names and k in f2.vars and isinstance(v, (list, bool, int, str)) and not samevalue(f2.vars[k], v) and f2.vars[k] is not X.POISON:
                            raise Unsupported('variable %s changed' % k)
                    at = 'powers of a %s, %s' % (nm, hn)
                    self.ok('%s/the match is read to its end' % at, isinstance(f2.vars[pos], (int, Lin)) and Lin.lift(f2.vars[pos]).same(e), repr(f2.vars[pos]))
                    out = f2.vars[acc]
                    if not X.istext(out):
                        raise Unsupported('text so far')
                    ps = pieces(out)
                    na = len(A)
                    if not all(a is b for a, b in zip(ps[:na], A)):
                        self.ok('%s/the text before the operand stays' % at, False, repr(ps))
                        return
                    self.ok('%s/the text before the operand stays' % at, True)
                    n = Lin(0, {('int', I2): 1})
                    bad = len(self.failed)
                    try:
                        ex = Reader(P, True).read(ps[na:])
                        self.ok('%s/replaced by a bracketed product of exactly as many copies' % at, exponent_ok(ex, n), 'exponent %r' % ex)
                        steps.append(1)
                        # must not be accepted
                        self.ok('canary', not exponent_ok(ex, n + 1))
                    except NotProduct as x:
                        self.ok('%s/replaced by a bracketed product of exactly as many copies' % at, False, '%s: %r' % (x, ps[na:]))
                    if len(self.failed) > bad:
                        self.exponents(n)
                explore(run)
        for k in names:
            fr.vars[k] = X.POISON
        D2, R2 = Seg('read', rx.TEXT), Seg('rest', rx.TEXT)
        O2 = Seg('written', rx.TEXT)
        E2 = Seg('expression', TEXT)
        self.texts[E2] = self.texts[E] | {'power'}
        new = self.replaced(fr, E, [D2, R2])
        fr.vars.update(new)
        fr.vars[acc] = mk([O2])
        fr.vars[pos] = tlen([D2])
        X.RUN.rules.append(([O2, R2], [E2]))

    # every call, right to left, in place
    def backward(self, I, st, fr, src, E):
        w = equivalent(src.pat, CALL, None)
        if w is not None:
            self.places(w)
            raise Unsupported('places of the calls: %s' % w)
        self.ok('calls/the pattern finds exactly the calls of pow', True)
        names = X.assigned(st) - {X.itname(st)}
        var = [k for k in names if isinstance(fr.vars.get(k), Txt) and fr.vars[k].p == (E,)]
        if len(var) != 1 or st.orelse:
            raise Unsupported('the rewritten text is not recognised')
        var = var[0]

        def arg(nm='argument', lang=None):
            return Seg(nm, lang if lang is not None else rx.both(INSIDE, rx.neg(SP)), 'argument')
        n = Seg('exponent', INT, 'digits')
        V = arg()
        other = arg('other exponent', rx.both(INSIDE, rx.neg(SP), rx.neg(cat(SP, INT, SP))))
        Z = Seg('rest', rx.TEXT)
        B1, B2 = Seg('blanks', SP, 'blanks'), Seg('blanks', SP, 'blanks')
        shapes = [('an integer literal', [V, ',', B1, n, B2, ')'], True), ('another exponent', [V, ',', other, ')'], False),
                  ('one argument', [V, ')'], False), ('no argument', [Seg('blanks', SP, 'blanks'), ')'], False),
                  ('three arguments', [V, ',', arg(), ',', arg(), ')'], False),
                  ('more arguments', [V, ',', arg(), ',', arg(), ',', Seg('balanced', rx.TEXT, 'balanced'), ')'], False)]
        CH = Seg('before the call', rx.TEXT)
        for nm, ps, isint in shapes:
            for hn, A in (('anywhere', [CH]),):
                def run(nm=nm, ps=ps, isint=isint, hn=hn, A=A):
                    full = A + ['pow('] + ps + [Z]
                    f2 = X.Frame(fr.parent)
                    f2.local = fr.local
                    f2.vars.update(self.replaced(fr, E, full))
                    for k, v in list(f2.vars.items()):
                        if isinstance(v, Txt) and any(q is Z for q in v.p):
                            f2.vars[k] = X.POISON
                    for k in names:
                        f2.vars[k] = X.POISON
                    f2.vars[var] = mk(full)
                    m = Match(tuple(pieces(mk(full))), tlen(A), tlen(A) + 4, {})
                    I.assign(st.target, m, f2)
                    try:
                        I.block(st.body, f2)
                    except X.Continue_:
                        pass
                    except (X.Break_, X.Return_):
                        raise Unsupported('the loop over the calls ends early')
                    at = 'calls with %s, %s' % (nm, hn)
                    out = f2.vars[var]
                    if not X.istext(out):
                        raise Unsupported('rewritten text')
                    same = samevalue(out, mk(full))
                    if not isint:
                        self.ok('%s/unchanged' % at, same, repr(out))
                        return
                    q = pieces(out)
                    good = len(q) > len(A) and all(a is b for a, b in zip(q, A)) and q[-1] is Z
                    if same or not good:
                        self.ok('%s/only the call is replaced' % at, False, repr(q))
                        return
                    self.ok('%s/only the call is replaced' % at, True)
                    k = Lin(0, {('int', n): 1})
                    bad = len(self.failed)
                    try:
                        ex = Reader([V], False).read(q[len(A):-1])
                        self.ok('%s/replaced by a bracketed product of exactly as many copies' % at, exponent_ok(ex, k), 'exponent %r' % ex)
                        self.ok('canary', not exponent_ok(ex, k + 1))
                    except NotProduct as x:
                        self.ok('%s/replaced by a bracketed product of exactly as many copies' % at, False, '%s: %r' % (x, q))
                    if len(self.failed) > bad:
                        self.exponents(k)
                explore(run)
        E2 = Seg('expression', TEXT)
        self.texts[E2] = self.texts[E] | {'call'}
        for k, v in list(fr.vars.items()):
            if k in names or isinstance(v, (list, Match, Matches)):
                fr.vars[k] = X.POISON
        fr.vars[var] = mk([E2])


# -- the program --------------------------------------------------------------------------------
def tree():
    p = os.path.join(load.REPO, PATH)
    with open(p) as f:
        return ast.parse(f.read(), p)


def prog_pow2mul(ctx):
    ch = Check(ctx)
    I = X.Interp(tree(), GRAMMAR)
    if isinstance(I.globals.vars.get('_operand_start'), X.Fn):
        try:
            operand(ch, I)
        except Unsupported:
            pass            # decided, or not, where it is used
    I.rule = ch.rule
    E = Seg('expression', TEXT)
    ch.texts[E] = frozenset()

    def run():
        try:
            r = I.call('pow2mul', mk([E]))
        except X.Raised as e:
            raise Unsupported('raises %s' % e)
        w = ch.whole(r) if X.istext(r) else None
        ch.ok('pow2mul/returns the expression with all its powers and calls rewritten', w is not None and ch.texts[w] >= {'power', 'call'}, repr(r))
    try:
        explore(run)
    except Unsupported as e:
        ch.ok('pow2mul/within reach', False, str(e))
    emit(ctx, ch, I)


def operand(ch, I):
    """_operand_start(head + operand) is the length of the head"""
    for nm, P, _ in operands():
        for hn, A in heads():
            def run(nm=nm, P=P, hn=hn, A=A):
                r = I.call('_operand_start', mk(A + P))
                ch.ok('_operand_start/%s, %s: its first character' % (nm, hn), isinstance(r, (int, Lin)) and Lin.lift(r).same(tlen(A)), repr(r))
                ch.ok('canary', not (isinstance(r, (int, Lin)) and Lin.lift(r).same(tlen(A) + 1)))
            explore(run)


def emit(ctx, ch, I):
    cex = {'case': {'texts': [list(t) for t in sorted({tuple(t) for t in ch.replay}, key=lambda t: (len(t[0]), t))][:200]}} if ch.replay else None
    for k, (n, ok, d) in sorted(ch.seen.items()):
        if k == 'canary':
            ctx.oblig('C18 canary/a false contract is refused', ok, 'canary')
        else:
            ctx.oblig('C18 ' + k, ok, 'text proof' if ok else 'undecided', d, cex=None if ok else cex)
    for L in I.lemmas:
        form = ', '.join('%s %s' % (w, ' '.join(sorted(v))) for w, v in (('position', L.pos), ('kept', L.exact), ('any', L.gen), ('lists', L.lists), ('unknown after', L.dead)) if v)
        ctx.oblig('C18 lemma/loop in line %d passes %s from its %s character (%s)' % (L.node.lineno, L.kind, L.side, form), L.done, 'structural induction')
