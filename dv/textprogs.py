"""Contract of the code printers (C19): the text, read as a program, rebuilds
the matrix."""
import ast
import itertools
import os
import re

from .ctx import z3
from .alg import Unsupported
from . import load, text
from .text import S, E, N, Blk, Joined, Opaque, TOK, NZ, R, CC, NSUB, NCSE, TERMS, check, fresh, sub, simp, A, Z

PATH = 'meshless/dev/sympytools.py'
TRUE = z3.BoolVal(True)


def payload(t):
    m = TOK.fullmatch(t)
    return S.reg[int(m.group(1))] if m else None


def nodes(items):
    """lines (str) and blocks of a list of texts"""
    out = []
    for x in items:
        if isinstance(x, Blk):
            out.append(x)
            continue
        for l in x.split('\n'):
            o = payload(l)
            if isinstance(o, Blk):
                out.append(o)
            else:
                if any(isinstance(S.reg[int(k)], Blk) for k in TOK.findall(l)):
                    raise Unsupported('block of lines inside a line')
                out.append(l)
    return out


def blank(l):
    if not isinstance(l, str):
        return False
    t = l.strip()
    return t == '' or t.startswith('#') or isinstance(payload(t), Opaque)


class Rec:
    """one printed entry: where (terms in the binders), what"""

    def __init__(self, binders, guard, value, pos, where):
        self.binders, self.guard, self.value, self.pos, self.where = binders, guard, value, pos, where


def ident(l):
    """tokens as identifiers"""
    return TOK.sub(lambda m: 'TOK%s_' % m.group(1), l)


def tokname(n):
    m = re.fullmatch(r'TOK(\d+)_', n)
    return S.reg[int(m.group(1))] if m else None


class Text:
    def __init__(self, kind, string, opts, name, op):
        self.kind, self.opts, self.name, self.op = kind, opts, name, op
        self.announced = []
        self.recs = []
        self.defs = []
        self.decl = []
        self.subs = []
        self.order = []
        self.top = nodes([string])
        self.walk(self.top, [], TRUE)

    def walk(self, ns, binders, guard):
        rest = []
        for k, x in enumerate(ns):
            if isinstance(x, str):
                if blank(x):
                    m = re.search(r'_num=(.*)$', x)
                    if m:
                        if binders:
                            raise Unsupported('number announced in a loop')
                        self.announced.append(m.group(1).strip())
                    rest.append(x)
                elif x.strip() == 'subs' and not binders:
                    pass
                else:
                    rest.append(x)
            else:
                rest.append(x)
        live = [x for x in rest if not blank(x)]
        if not binders:
            for x in live:
                if isinstance(x, str):
                    raise Unsupported('line %r' % x)
                self.block(x, binders, guard)
            return
        raise AssertionError

    def block(self, b, binders, guard):
        b = b.instance()
        bs = binders + b.binders
        for g, items in b.alts:
            ns = nodes(items)
            gg = z3.And(guard, b.rng, g)
            live = [x for x in ns if not blank(x)]
            for x in ns:
                if isinstance(x, str) and blank(x) and '_num=' in x:
                    raise Unsupported('number announced in a loop')
            if all(isinstance(x, Blk) for x in live) and not any(self.isub(x) for x in ns):
                for x in live:
                    self.block(x, bs, gg)
                if not live:
                    # comments only: announcements of substitutions
                    for x in ns:
                        self.announce(x, bs, gg)
                continue
            if len(live) == 1 and isinstance(live[0], str) and self.definition(live[0], bs, gg, b):
                continue
            self.entry(ns, bs, gg)

    def isub(self, x):
        return False

    def announce(self, l, bs, g):
        m = re.fullmatch(r'\s*#?\s*(%s\d+%s) = (%s\d+%s)\s*' % (A, Z, A, Z), l)
        if m:
            u, v = payload(m.group(1)), payload(m.group(2))
            if isinstance(u, E) and isinstance(v, E) and u.kind in ('subval', 'subkey'):
                self.subs.append((u, v, bs, g))
                return True
        return False

    def definition(self, l, bs, g, b):
        if self.announce(l, bs, g):
            return True
        m = re.fullmatch(r'\s*cdef double (%s\d+%s)\s*' % (A, Z), l)
        if m:
            j = payload(m.group(1))
            if isinstance(j, Joined) and j.sep.strip() == ',':
                self.decl.append((j.blk, bs, g))
                return True
            if isinstance(j, E) and j.kind == 'csename':
                self.decl.append((Blk([], TRUE, [(TRUE, [m.group(1)])]), bs, g))
                return True
            raise Unsupported('declaration')
        m = re.fullmatch(r'\s*(%s\d+%s) = (%s\d+%s)\s*' % (A, Z, A, Z), l)
        if m:
            u, v = payload(m.group(1)), payload(m.group(2))
            if isinstance(u, E) and u.kind == 'csename':
                self.defs.append((u, v, bs, g, len(self.recs), b))
                return True
        return False

    def entry(self, ns, bs, g):
        """statements of one entry"""
        stmts = []
        k = 0
        while k < len(ns):
            l = ns[k]
            if isinstance(l, Blk):
                raise Unsupported('block inside an entry')
            if blank(l):
                k += 1
                continue
            if l.rstrip().endswith('='):
                # collected terms follow
                terms = []
                k += 1
                while k < len(ns):
                    x = ns[k]
                    if isinstance(x, Blk):
                        terms.append(x)
                    elif not (isinstance(x, str) and blank(x)):
                        break
                    k += 1
                stmts.append((self.parse(l.rstrip() + ' TERMS_'), terms))
                continue
            stmts.append((self.parse(l), None))
            k += 1
        if not stmts:
            return
        where = 'entry'
        N0 = lambda n: isinstance(n, ast.Name) and n.id
        if self.kind == 'sparse':
            if len(stmts) != 4:
                raise Unsupported('%d statements for an entry' % len(stmts))
            s0 = stmts[0][0]
            ok = isinstance(s0, ast.AugAssign) and N0(s0.target) == 'c' and isinstance(s0.op, ast.Add) and isinstance(s0.value, ast.Constant) and s0.value.value == 1
            got = {}
            for s, t in stmts[1:]:
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) else None
                if not (isinstance(tg, ast.Subscript) and N0(tg.slice) == 'c' and N0(tg.value)):
                    raise Unsupported('statement of an entry')
                m = re.fullmatch(r'(TOK\d+_)([rcv])', tg.value.id)
                if not m or tokname(m.group(1)) is not self.name or m.group(2) in got or (m.group(2) in 'rc') != isinstance(s, ast.Assign):
                    raise Unsupported('statement of an entry')
                got[m.group(2)] = (s.value, t)
            if not ok or len(got) != 3:
                raise Unsupported('statements of an entry')
            r, c = (self.ev(got[q][0]) for q in 'rc')
            if not self.opts['dof']:
                r, c = r - z3.Int('row'), c - z3.Int('col')
            self.recs.append(Rec(bs, g, self.value(*got['v'], bs, g), (simp(r), simp(c)), where))
            return
        if len(stmts) != 1:
            raise Unsupported('%d statements for an entry' % len(stmts))
        s, t = stmts[0]
        op = '+='
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
            tg = s.target
        elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.MatMult):
            tg, op = s.target, 'op'
        else:
            raise Unsupported('statement of an entry')
        if t is None and op != self.op:
            raise Unsupported('operator of the statement')
        if not (isinstance(tg, ast.Subscript) and N0(tg.value) and tokname(tg.value.id) is self.name):
            raise Unsupported('target of the statement')
        if self.kind == 'dense':
            if not (isinstance(tg.slice, ast.Tuple) and len(tg.slice.elts) == 2):
                raise Unsupported('position')
            pos = tuple(simp(self.ev(q)) for q in tg.slice.elts)
        else:
            pos = (simp(self.ev(tg.slice) - z3.Int('pos')),)
        self.recs.append(Rec(bs, g, self.value(s.value, t, bs, g), pos, where))

    def parse(self, l):
        l = l.strip()
        if self.op == 'op':
            for k in set(TOK.findall(l)):
                o = S.reg[int(k)]
                if isinstance(o, Opaque) and o.name == 'op':
                    l = l.replace(A + k + Z, '@=')
        try:
            t = ast.parse(ident(l)).body
        except SyntaxError:
            raise Unsupported('line %r' % l)
        if len(t) != 1:
            raise Unsupported('line %r' % l)
        return t[0]

    def ev(self, n):
        """integer value of a position"""
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return z3.IntVal(n.value)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a*b
        if isinstance(n, ast.Name):
            o = tokname(n.id)
            if isinstance(o, N):
                return o.e
            if n.id in ('row', 'col', 'pos'):
                return z3.Int(n.id)
            if n.id == 'dof' and self.opts['dof']:
                return z3.Int('dofs')
            m = re.fullmatch(r'i(TOK\d+_|\d+)', n.id)
            if m and self.opts['dof']:
                if m.group(1).isdigit():
                    return z3.IntVal(int(m.group(1)) - 1)
                o = tokname(m.group(1))
                if isinstance(o, N):
                    return o.e - 1
        raise Unsupported('position %s' % ast.dump(n))

    def value(self, n, terms, bs, g):
        if terms is None:
            o = tokname(n.id) if isinstance(n, ast.Name) else None
            if not isinstance(o, E) or o.kind != 'entry' or o.part:
                raise Unsupported('value of an entry: %s' % ast.dump(n))
            return o
        if len(terms) != 1 or not (isinstance(n, ast.Name) and n.id == 'TERMS_'):
            raise Unsupported('collected terms')
        b = terms[0]
        if len(b.binders) != 1 or len(b.alts) != 1:
            raise Unsupported('collected terms')
        live = [x for x in nodes(b.alts[0][1]) if not blank(x)]
        if len(live) != 1 or not isinstance(live[0], str) or not live[0].startswith('    '):
            raise Unsupported('collected terms')
        o = payload(live[0].strip())
        if not isinstance(o, E) or o.kind != 'entry' or o.part != 'term':
            raise Unsupported('collected terms')
        q = fresh('z')
        m = [(b.binders[0], q)]
        want = z3.And(0 <= q, q < TERMS(*o.at))
        have = z3.And(sub(b.rng, m), sub(b.alts[0][0], m))
        ok = o.q.eq(b.binders[0]) and not any(text.mentions(a, b.binders[0]) for a in o.at)
        if not ok:
            raise Unsupported('collected terms')
        self.ob('all collected terms are printed', S.facts + [g, want != have])
        return E('entry', o.at, o.flags)

    def ob(self, name, fs, pairs=(), detail=''):
        r = check(fs, pairs)
        if r == 'unsat':
            S.c.oblig('C19 %s/%s' % (S.name, name), True, 'z3')
            return True
        be = 'countermodel' if r == 'sat' else 'undecided'
        S.c.oblig('C19 %s/%s' % (S.name, name), False, be, '%s %s' % (detail, str(S.model)[:400] if r == 'sat' else ''), cex=S.cex)
        return False


def struct(name, ok, detail=''):
    S.c.oblig('C19 %s/%s' % (S.name, name), ok, 'text structure' if ok else 'undecided', detail, cex=S.cex)


def instance(rec):
    m = [(b, fresh('w')) for b in rec.binders]
    f = lambda x: sub(x, m)
    return [y for _, y in m], f(rec.guard), [f(a) for a in rec.value.at], [f(p) for p in rec.pos]


def witnesses(binders, i, j):
    n = len(binders)
    if n == 2:
        c = [(i, j), (j, i)]
    elif n == 1:
        c = [(i*CC + j,), (j*R + i,)]
    else:
        c = []
    for w in c:
        yield list(zip(binders, w))


def judge(T, cex_of):
    o, recs = T.opts, T.recs
    F = S.facts
    ob = T.ob
    up = o['up']
    if not recs:
        raise Unsupported('no entries in the text')
    i, j = fresh('i'), fresh('j')
    rng = z3.And(0 <= i, i < R, 0 <= j, j < CC)
    wanted = z3.And(rng, NZ(i, j), i <= j if up else TRUE)
    for r in recs:
        bs, g, at, pos = instance(r)
        inside = [0 <= at[0], at[0] < R, 0 <= at[1], at[1] < CC]
        ob('printed entries are entries of the matrix', F + [g, z3.Not(z3.And(*inside))])
        ob('zero entries are not printed', F + [g, z3.Not(NZ(*at))])
        if up:
            ob('only the upper triangle is printed', F + [g, at[0] > at[1]])
        if T.kind == 'array':
            want = [at[0]*CC + at[1] if o['order'] == 'C' else at[1]*R + at[0]]
        else:
            want = at
        prs = [(at[0], at[1]), (at[1], at[0])]
        ob('entries are printed at their place', F + inside + [g, z3.Or(*[p != w for p, w in zip(pos, want)])], prs, 'position %s' % (pos,))
        if bool(o['subs']) != ('subs' in r.value.flags):
            ob('entries are substituted', F + [g, NSUB > 0])
        else:
            struct('entries are substituted', True)
    # complete
    alts = []
    prs = [(i, j), (j, i)]
    for r in recs:
        for w in witnesses(r.binders, i, j):
            alts.append(z3.And(sub(r.guard, w), *[sub(a, w) == b for a, b in zip(r.value.at, (i, j))]))
    flatten = [z3.And(i*CC + j >= 0, i*CC + j < R*CC, j*R + i >= 0, j*R + i < R*CC)]
    ob('every entry is printed', F + [wanted, z3.Not(z3.Or(*alts))] + flatten, prs)
    # once
    for x, y in itertools.combinations_with_replacement(range(len(recs)), 2):
        b1, g1, a1, p1 = instance(recs[x])
        b2, g2, a2, p2 = instance(recs[y])
        diff = z3.Or(*[p != q for p, q in zip(b1, b2)]) if x == y else TRUE
        ob('no entry is printed twice', F + [g1, g2, a1[0] == a2[0], a1[1] == a2[1], diff])
    # announced
    same_count(T, i, j, rng, alts, ob)
    # substitutions
    if o['subs']:
        k = fresh('s')
        alts = []
        for u, v, bs, g in T.subs:
            if u.kind != 'subval' or v.kind != 'subkey' or len(bs) != 1 or not u.at[0].eq(bs[0]) or not v.at[0].eq(bs[0]):
                struct('substitutions are announced as new = old', False, '%s %s' % (u.kind, v.kind))
                continue
            alts.append(sub(g, [(bs[0], k)]))
        used = []
        for nm, (kind, hay, fl) in S.ins.items():
            if kind == 'subval' and all(any(same_value(r, q) for q in records_in(T, hay)) for r in recs):
                used.append(nm)
        none = [n for n in S.counts.values() if len(n[1]) == 1]
        OCC = z3.Function('OCC', z3.IntSort(), z3.BoolSort())
        ax = [z3.Implies(OCC(k), z3.Function(nm, z3.IntSort(), z3.BoolSort())(k)) for nm in used]
        for nm, (free, b, g) in S.counts.items():
            if len(b) == 1 and not free:
                # a count of zero: nobody satisfies the guard
                ax.append(z3.Implies(z3.Int(nm) == 0, z3.Not(sub(g, [(b[0], k)]))))
        del none
        ob('substitutions in use are announced', F + ax + [0 <= k, k < NSUB, OCC(k), z3.Not(z3.Or(*alts)) if alts else TRUE])
    if o.get('cse'):
        cse(T, ob)


def same_value(r, q):
    return r is q or (str(r.value) == str(q.value) and r.guard.eq(q.guard))


def records_in(T, hay):
    """the records of the text if hay has their blocks"""
    b1 = {k for k in TOK.findall(hay) if isinstance(S.reg[int(k)], Blk)}
    b2 = set()
    for x in T.top:
        if isinstance(x, Blk):
            b2.add(str(x)[1:-1])
    entry = {k for k in b2 if not isinst_subs(S.reg[int(k)])}
    return T.recs if entry and entry <= b1 else []


def isinst_subs(b):
    for g, items in b.alts:
        for x in items:
            if isinstance(x, str) and any(isinstance(S.reg[int(k)], E) and S.reg[int(k)].kind.startswith('sub') for k in TOK.findall(x)):
                return True
    return False


def same_count(T, i, j, rng, alts, ob):
    name = 'C19 %s/announced number of terms' % S.name
    if len(T.announced) != 1:
        S.c.oblig(name, False, 'undecided', 'announced %d times' % len(T.announced), cex=S.cex)
        return
    a = T.announced[0]
    o = payload(a)
    if not isinstance(o, N):
        S.c.oblig(name, False, 'undecided', 'announced %r' % a, cex=S.cex)
        return
    e = simp(o.e)
    preds = []
    for t in (e.children() if z3.is_add(e) else [e]):
        nm = t.decl().name() if z3.is_app(t) else ''
        if nm not in S.counts or S.counts[nm][0]:
            S.c.oblig(name, False, 'undecided', 'announced %s' % e, cex=S.cex)
            return
        preds.append(S.counts[nm])
    want = z3.And(rng, z3.Or(*alts))
    prs = [(i, j), (j, i)]
    flatten = [z3.Implies(rng, z3.And(i*CC + j >= 0, i*CC + j < R*CC, j*R + i >= 0, j*R + i < R*CC))]
    best = None
    for ws in itertools.product(*[list(witnesses(b, i, j)) for free, b, g in preds]):
        gs = [sub(p[2], w) for p, w in zip(preds, ws)]
        ok = True
        for p, w, g in zip(preds, ws, gs):
            if len(p[1]) == 1:
                # the flat positions outside of the matrix are not counted
                q = p[1][0]
                ok = ok and check(S.facts + [p[2], z3.Not(z3.And(0 <= q, q < R*CC))]) == 'unsat'
                g_ = z3.And(rng, g)
                gs[gs.index(g)] = g_
        fs = S.facts + flatten + [z3.Or(*gs) != want] if len(gs) > 1 else S.facts + flatten + [gs[0] != want]
        ok = ok and check(fs, prs) == 'unsat'
        ok = ok and all(check(S.facts + flatten + [g1, g2], prs) == 'unsat' for g1, g2 in itertools.combinations(gs, 2))
        if ok:
            best = ws
            break
    if best is not None:
        S.c.oblig(name, True, 'z3')
        return
    if len(preds) == 1 and len(preds[0][1]) == 2:
        w = list(zip(preds[0][1], (i, j)))
        ob('announced number of terms', S.facts + [sub(preds[0][2], w) != want], prs, 'announced %s' % (preds[0][2],))
        return
    S.c.oblig(name, False, 'undecided', 'announced %s' % e, cex=S.cex)


def cse(T, ob):
    if any('cse' not in r.value.flags for r in T.recs):
        if T.defs and any('cse' in r.value.flags for r in T.recs):
            raise Unsupported('entries with and without common subexpressions')
        if T.defs:
            raise Unsupported('definitions without use')
        return
    l = fresh('l')
    alts = []
    for u, v, bs, g, n, b in T.defs:
        ok = isinstance(v, E) and v.kind == 'csedef' and len(bs) == 1 and u.at[0].eq(bs[0]) and v.at[0].eq(bs[0]) and b.index is not None or len(T.defs) == 1 and isinstance(v, E) and v.kind == 'csedef' and u.at[0].eq(v.at[0]) and u.at[0].eq(bs[0])
        if not ok:
            raise Unsupported('definition')
        struct('definitions come before their use', n == 0)
        alts.append(sub(g, [(bs[0], l)]))
    dom = z3.And(0 <= l, l < NCSE)
    ob('every common subexpression is defined', S.facts + [dom, z3.Not(z3.Or(*alts)) if alts else TRUE])
    ob('definitions are those of the subexpressions', S.facts + [z3.Or(*alts) if alts else z3.BoolVal(False), z3.Not(dom)])
    struct('definitions in order', len(T.defs) <= 1)
    # declarations
    fam = []
    for blk, bs, g in T.decl:
        for b2, g2, items in blk.flat() if blk.binders else [([], TRUE, blk.alts[0][1])]:
            if len(items) != 1:
                raise Unsupported('declaration')
            x = items[0]
            o = payload(x) if isinstance(x, str) else x
            if not isinstance(o, E) or o.kind != 'csename':
                raise Unsupported('declaration')
            fam.append((bs + b2, z3.And(g, g2), o.at[0]))
    if len(fam) != 1:
        raise Unsupported('declarations')
    bs, g, at = fam[0]
    m1 = [(b, fresh('u')) for b in bs]
    m2 = [(b, fresh('u')) for b in bs]
    ob('declared names are defined', S.facts + [g, z3.Not(z3.And(0 <= at, at < NCSE))])
    ob('no name is declared twice', S.facts + [sub(g, m1), sub(g, m2), sub(at, m1) == sub(at, m2), z3.Or(*[x != y for (_, x), (_, y) in zip(m1, m2)])])
    # every name: by its chunk
    alts = []
    for k in sorted({1, 9} | {x.as_long() for x in consts(g) if 1 < x.as_long() < 64}):
        w = (l,) if len(bs) == 1 else (text.QUO(l, z3.IntVal(k)), text.REM(l, z3.IntVal(k)))
        for w2 in ((w,) if len(bs) == 1 else (w, (text.QUO(l, z3.IntVal(k)), l))):
            m = list(zip(bs, w2))
            alts.append(z3.And(sub(g, m), sub(at, m) == l))
    ob('every name is declared', S.facts + [dom, z3.Not(z3.Or(*alts))])


def consts(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x):
            out.append(x)
        todo += x.children()
    return out


MATRICES = ('six10', 'six', 'rect', 'ten', 'many', 'cse', 'tall')


def prog_printer(c, kind):
    S.start(c)
    S.name = 'mprint_as_%s' % kind
    m = text.module(os.path.join(load.REPO, PATH))
    if not hasattr(m, S.name):
        raise Unsupported('no %s' % S.name)

    def pow2mul(s):
        o = payload(s) if isinstance(s, str) else None
        if isinstance(s, str) and not text.hastok(s):
            return s
        if not isinstance(o, E):
            raise Unsupported('pow2mul of a text with several parts')
        return str(E(o.kind, o.at, o.flags | {'pow'}, o.q, o.part))
    if hasattr(m, 'pow2mul'):
        m.pow2mul = pow2mul
    S.facts += [R >= 1, CC >= 1, NSUB >= 0, NCSE >= 0]
    name = Opaque('name')
    kw = {}
    conc = {}
    o = dict(dof=None, up=False, subs=False, order='C', cse=False)
    op = '+='

    def opt(key, values, cvalues=None):
        k = c.choose(len(values), key)
        if k:
            kw[key] = values[k]
            if cvalues is not None:
                conc[key] = cvalues[k]
            elif isinstance(values[k], (bool, str)):
                conc[key] = values[k]
        return k
    if kind in ('sparse', 'dense'):
        opt('dofpernode', [None, N(z3.Int('dofs'))], [None, 2])
        o['dof'] = kw.get('dofpernode')
        S.facts.append(z3.Int('dofs') >= 1)
        o['subs'] = bool(opt('subs', [None, text.Subs()], [None, 1]))
    if kind == 'sparse':
        o['up'] = bool(opt('is_symmetric', [False, True]))
    if kind == 'array':
        o['cse'] = bool(opt('use_cse', [False, True]))
        o['order'] = 'CF'[opt('order', ['C', 'F'])]
        if opt('op', ['+=', str(Opaque('op'))], ['+=', '-=']):
            op = 'op'
    if kind in ('sparse', 'array'):
        opt('sufix', [None, str(Opaque('sufix'))], [None, 's'])
    opt('header', [None, str(Opaque('header'))], [None, '# header'])
    opt('collect_for', [None, Opaque('symbols')], [None, ['x', 'y']])
    opt('pow_by_mul', [True, False])
    file = not opt('print_file', [True, False])
    S.cex = [dict(printer=kind, matrix=mm, opts=conc, np=False) for mm in MATRICES]
    S.cex = dict(cases=S.cex)
    M = text.Matrix(False)
    string = getattr(m, S.name)(M, str(name), **kw)
    if not isinstance(string, str):
        raise Unsupported('the printer returns %s' % type(string).__name__)
    # the file
    fs = S.files
    if file:
        ok = len(fs) == 1 and ''.join(fs[0].text) == string
        struct('the text is written to one file', ok, '%d files' % len(fs))
    else:
        struct('no file is written', not fs, '%d files' % len(fs))
    S.c.oblig('C19 %s/the given matrix is not modified' % S.name, True, 'frame log')
    T = Text(kind, string, o, name, op)
    judge(T, None)
    # the prover must refuse what is false
    i, j = fresh('i'), fresh('j')
    S.c.oblig('C19 %s canary: one column' % S.name, check(S.facts + [0 <= i, i < R, 0 <= j, j < CC, j != 0]) != 'unsat', 'canary')
    S.c.oblig('C19 %s canary: entries' % S.name, check(S.facts + [z3.Or(*[r.guard for r in T.recs])]) != 'unsat', 'canary')
