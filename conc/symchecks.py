"""Bounded checks of meshless.dev.sympytools: power expansion and printers."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

from . import meshes  # noqa: F401
from .mechchecks import Fail


# -- C18 -----------------------------------------------------------------------
class Val(F):
    pass


def env(seed):
    r = np.random.default_rng(seed)

    def v():
        return F(int(r.integers(2, 9)), int(r.integers(1, 7)))
    e = {k: v() for k in ('x', 'y', 'x1', 'x_2', 'ab', 'p', 'e1', 'power', 'mypow', 'E', 'e', '_q', 'x1e5', 'e2', 'xE3', 'k_', 'B2e')}
    e['n'] = int(r.integers(2, 4))
    e['a'] = [v() for _ in range(4)]
    e['m'] = {(i, j): v() for i in range(3) for j in range(3)}
    e['f'] = lambda *a: sum((i + 2)*q for i, q in enumerate(a)) + F(1, 3)
    e['sin'] = lambda q: q*q + F(1, 7)
    e['cos2'] = lambda q: 3*q - F(2, 5)

    class O:
        pass
    o = O()
    o.c = v()
    o.pow = lambda a, b: a + b
    o.e5 = v()
    o.x1e2 = v()
    e['a_'] = e['f']
    e['_pow'] = e['Apow'] = e['pow2'] = lambda a, b: 2*a - b
    e['g'] = lambda q: (lambda w: 2*q - 3*w)
    e['t'] = [[v() for _ in range(3)] for _ in range(3)]
    e['o'] = o
    e['pow'] = pow
    return e


def value(text, e):
    """exact value; decimal literals are exact"""
    t = re.sub(r'(?<![\w.])(\d+\.\d*|\.\d+|\d+(?=[eE]))([eE][+-]?\d+)?(?!\w)', lambda m: "D('%s')" % m.group(0), text)
    try:
        return eval(compile(t, '<text>', 'eval'), dict(e, D=lambda s: F(s)), {})
    except Exception as x:
        return 'error %s' % type(x).__name__


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b if type(a) is type(b) else False
    if isinstance(a, (int, F)) and isinstance(b, (int, F)):
        return a == b
    try:
        return abs(complex(a) - complex(b)) <= 1e-9*(1 + abs(complex(a)))
    except (OverflowError, TypeError):
        return a == b


def c18(case):
    from meshless.dev.sympytools import pow2mul
    f = Fail()
    for text, plain in case['texts']:
        try:
            out = pow2mul(text)
        except Exception as x:
            f.add('%r: %r' % (text, x))
            continue
        if not isinstance(out, str):
            f.add('%r: %r' % (text, out))
            continue
        nerr = 0
        for s in range(3):
            e = env(s)
            a = value(text, e)
            if isinstance(a, str):
                nerr += 1
                continue
            b = value(out, e)
            if not same(a, b):
                f.add('%r becomes %r: value %s instead of %s' % (text, out, b, a))
                break
        if plain and ('**' in out or re.search(r'(?<![\w.])pow\(', out)):
            f.add('%r becomes %r: power operator left' % (text, out))
    return f


BASES = [('x', 1), ('x1', 1), ('x_2', 1), ('_q', 1), ('e1', 1), ('E', 1), ('2', 0), ('12', 0), ('2.5', 0), ('.5', 0), ('3.', 0), ('1e3', 0), ('2.5e-1', 0), ('1.5E+1', 0),
         ('(x+y)', 1), ('( x - y )', 1), ('(x)', 1), ('((x+1)*(y-2))', 1), ('(a[1]+x)', 1), ('(-x)', 1), ('f(x)', 0), ('f(x, y)', 0), ('f(x, (y+1))', 0), ('sin(x+y)', 0), ('cos2(x)', 0),
         ('f (x)', 0), ('a [1]', 0), ('sin (f (x))', 0), ('a[0]', 0), ('a[1+1]', 0), ('m[0, 1]', 0), ('o.c', 0), ('(x**2)', 0), ('(x**2+y**3)', 0), ('f(x**2)', 0), ('sin(x**3)', 0), ('(x**n)', 0), ('f(pow(x, 2))', 0), ('(f(x)*y)', 1),
         ('x1e5', 1), ('xE3', 1), ('k_', 1), ('B2e', 1), ('o.e5', 0), ('o.x1e2', 0), ('.5e1', 0), ('.25E-1', 0), ('a_ (x)', 0), ('g(x)(y)', 0), ('g(x) (y)', 0), ('t[1][2]', 0), ('t[1] [2]', 0), ('((a[1]))', 1), ('(f(x, y))', 1), ('(m[0, 1])', 1), ('(x1e5+.5e1)', 1), ('f(m[0, 1], (y))', 0)]
INTS = ['0', '1', '2', '3', '5', '11']
OTHEREXP = ['-1', '-2', '(-2)', 'n', '(n)', '(n+1)', '-n', '0.5', '2.', '2.5', '.5', '(2)', '(1+1)', '2e0', 'x1', '(1/2)']
PRE = ['%s', '-%s', '2*%s', 'x*%s', 'y-%s', '3/%s', '%s+1', '%s*y', '%s/x', '(%s)', '(%s)+x', 'f(%s)', '1-(y*%s)', 'a[0]*%s', '2.0*%s', 'x+2*%s*y', 'f(y, %s)', '-(%s)', '1e2*%s', '(x+1)*%s', '(x)/%s']


def texts(rng, deep):
    for b, pl in BASES:
        for e in INTS:
            yield '%s**%s' % (b, e), pl
            yield 'pow(%s, %s)' % (b.strip(), e), pl and ('**' not in b)
            yield 'pow(%s,%s)' % (b, e), pl
        yield '%s ** 2' % b, pl
        yield '%s** 3' % b, pl
        yield '%s **2' % b, pl
        yield 'pow( %s , 3 )' % b, pl
        for e in OTHEREXP:
            yield '%s**%s' % (b, e), 0
            yield 'pow(%s, %s)' % (b, e), 0
            yield '%s**%s*x**2' % (b, e), 0
            yield 'x**2+%s**%s' % (b, e), 0
        yield '%s**2**3' % b, 0
        yield '%s**2**n' % b, 0
        yield '%s**12**2/x**30' % b, 0
        yield '%s**12.5+1' % b, 0
        yield '%s**2**1' % b, 0
        for e in ('2', '4', '17'):
            for q in ('*y', '/x', '+x', '-y', ' * y', ' + x', '*2', '-1', ')*y', ',x)'):
                if q[0] in '),':
                    yield ('f(x,' if q[0] == ',' else '(') + '%s**%s%s' % (b, e, q.replace(',x)', ')')), pl
                else:
                    yield '%s**%s%s' % (b, e, q), pl
        yield '%s**n**2' % b, 0
        yield '%s**-x**2' % b, 0
        yield '(%s**2)**3' % b, 0
        yield '((%s**2)**3)**2' % b, 0
        yield 'pow(%s**2, 3)' % b, 0
        yield 'pow(%s, 2)**3' % b, 0
        yield 'pow(pow(%s, 2), 3)' % b, 0
        yield 'pow(pow(%s, 2)+1, 2)' % b, 0
        yield 'pow(f(%s, y), 2)' % b, 0
        yield 'pow(%s, n)*pow(x, 2)' % b, 0
        for p in PRE:
            for e in ('2', '3'):
                yield p % ('%s**%s' % (b, e)), 0
        yield '1/%s**2' % b, 0
        yield 'x/%s**2/y**2' % b, 0
        yield 'x-%s**2-y**3' % b, 0
    for n in list(range(31)) + [32, 36, 40, 48, 50, 60, 64, 99, 100, 101, 120, 128, 200, 256, 500, 1000]:
        for b in ('x', '(x-y)', 'x_2'):
            yield '%s**%d' % (b, n), 1
            yield 'pow(%s, %d)' % (b, n), 1
            yield '2*%s**%d*y' % (b, n), 1
            yield 'y - pow(%s,%d)/x' % (b, n), 1
        yield 'x**%03d' % n if n < 2 else 'x**%d**2' % min(n, 30), 0
    for t in ('_pow(x, 2)', 'Apow(x, 2)', 'pow2(x, 2)', 'x*_pow(x, 2)**2', 'pow(n, 2, 5)', 'pow(n, 3, 7)**2', 'f(x, 2, 3)', 'pow(x, (2))', 'pow(f(x, y), 2)', 'pow((f(x, y)), 2)', 'pow(m[0, 1], 2)', 'pow(m[0, 1]*f(x, y), 2)*pow(y, 2)',
              'f(x**2, x**3)**2', 'f(x,y)**2*f(y,x)**2', 'x**+2', '-x**2', '--x**2', '-(-x)**2', 'x*-y**2', 'x%2**2', 'x//y**2', 'x**2*x1**2*x1e5**2', 'x1e5**2-1e5**2', '3*1e1**2', 'x-1e1**2', '1.e1**2', 'x+1.e1**2*3'):
        yield t, 0
    for t in ('x', 'x*y', '2*x+y', '1e-3*x', 'power+1', 'mypow*2', 'o.pow(x, 2)', 'o.pow(x, 2)**2', 'pow(x, 2)*pow(y, 3)', 'x**2*y**3', 'x**2*x**2', '-x**2-x**2', 'x**2**2', 'x**10', 'x**2*y**n*x1**3',
              'pow(x**2, y-y+2)', 'a[0]**2*a[1]**2', 'm[0, 1]**2', 'f(x)**2*f(y)**2', 'f(x**2)**2', 'f(x**2, y**3)**2', 'x1**2', 'x_2**2+x1**2', 'x**2.0', 'x**2e0', 'x**1.5*y**2', 'x**-1*y**2',
              'pow(x, 2)', 'pow(x+1, 2)', 'pow(2*x, 2)', 'pow(-x, 2)', 'pow(x, -1)', 'pow(x, n)', 'pow(x, 2.5)', 'pow(x*y, 3)/pow(x/y, 2)', 'pow(a[0], 2)', 'pow((x, y)[0], 2)', 'pow(f(x, y), 2)', 'x - y**2*3 - 2**x1',
              '2**n', '2**3', '2.5**2', '1e3**2', '2*1e3**2', 'x+1e3**2', '10**2', '0.5*x**2', '5**2*x', 'x*5**2', 'x-1e-2**2', 'x**0', 'x**1', '(x)**0', '3*x**0*y'):
        yield t, 0

    def gen(d):
        k = rng.integers(0, 10)
        if d == 0 or k == 0:
            return str(rng.choice(['x', 'y', 'x1', '2', '3.5', 'a[1]', 'm[1, 2]', 'o.c', 'n', '1e1']))
        if k <= 3:
            return gen(d - 1) + str(rng.choice(['+', '-', '*', '/', ' + ', ' * ', ' - '])) + gen(d - 1)
        if k <= 5:
            return '(' + gen(d - 1) + ')' if rng.random() < 0.7 else 'f(' + gen(d - 1) + ', ' + gen(d - 1) + ')'
        if k <= 8:
            b = gen(0) if rng.random() < 0.5 else '(' + gen(d - 1) + ')'
            return b + str(rng.choice(['**', ' ** ', '**', '**'])) + str(rng.choice(['2', '3', '2', '0', '1', '(2)', 'n', '-1', '2', '3', '-2']))
        return 'pow(' + gen(d - 1) + ', ' + str(rng.choice(['2', '3', 'n', '0', '-1', '1'])) + ')'
    for k in range(2500 if not deep else 40000):
        t = gen(int(rng.integers(1, 5)))
        if len(t) < 160:
            yield t, 0


def grammar(n, leaves, memo={}):
    """every expression text with n operators"""
    k = (n, leaves)
    if k not in memo:
        if n == 0:
            memo[k] = list(leaves)
        else:
            out = []
            for e in grammar(n - 1, leaves):
                out += ['-' + e, '(' + e + ')', 'f(' + e + ')', 'a[%s]' % e if n == 1 and e == '2' else '(-' + e + ')']
            for i in range(n):
                for l in grammar(i, leaves):
                    for r in grammar(n - 1 - i, leaves):
                        out += [l + '+' + r, l + '*' + r, l + '/' + r, l + '**' + r, l + ' ** ' + r, 'pow(%s, %s)' % (l, r), l + ' - ' + r]
            memo[k] = out
    return memo[k]


def cases_c18(rng, deep):
    buf = []
    src = texts(rng, deep)
    small = itertools.chain(*[grammar(n, ('x', 'y1', '2', '.5')) for n in range(3)])
    if deep:
        small = itertools.chain(small, grammar(3, ('x', '2', '.5')))
    for t in itertools.chain(src, ((t, 0) for t in small)):
        buf.append([t[0], int(bool(t[1]))])
        if len(buf) == 100:
            yield 'expression texts', dict(texts=buf)
            buf = []
    yield 'expression texts', dict(texts=buf)


# -- C19 -----------------------------------------------------------------------
class Rec:
    """receives += at symbolic rows"""

    def __init__(self):
        self.d = {}
        self.n = 0

    def __getitem__(self, k):
        return self.d.get(k, 0)

    def __setitem__(self, k, v):
        if k in self.d:
            self.dup = k
        self.d[k] = v
        self.n += 1


class Arr(dict):
    def __missing__(self, k):
        return 0


def pyexec(text, ns):
    """run generated code; a line ending in '+=' continues with its collected
    terms; cdef declarations are checked to be declarations"""
    out = []
    lines = text.split('\n')
    i = 0
    decl = []
    while i < len(lines):
        l = lines[i]
        if l.strip().startswith('cdef double'):
            decl += [q.strip() for q in l.strip()[len('cdef double'):].split(',')]
            i += 1
            continue
        if l.rstrip().endswith('+='):
            terms = []
            i += 1
            while i < len(lines) and (lines[i].startswith('#   collected') or lines[i].startswith('    ')):
                if lines[i].startswith('    '):
                    terms.append('(%s)' % lines[i].strip())
                i += 1
            out.append(l.rstrip() + ' ' + ('+'.join(terms) or '0'))
            continue
        if l.strip() and not l.strip().startswith('#'):
            out.append(l)
        i += 1
    exec(compile('\n'.join(out), '<generated>', 'exec'), ns)
    return decl


def symbols_of(m):
    import sympy
    s = set()
    for v in m:
        s |= sympy.sympify(v).free_symbols
    return sorted(s, key=str)


MATS = {
    'one': lambda S: S.Matrix([[S.Symbol('x')]]),
    'two': lambda S: S.Matrix([[S.Symbol('x')**2, 0], [S.Symbol('x')*S.Symbol('y')**3, 5]]),
    'zeros': lambda S: S.zeros(2, 3),
    'rect': lambda S: S.Matrix(2, 5, lambda i, j: (S.Symbol('x') + i)**(j % 3)*(S.Symbol('y') - j)*((i + j) % 3)),
    'tall': lambda S: S.Matrix(5, 2, lambda i, j: (S.Symbol('a') + i)**2/(S.Symbol('b') + j + 1)),
    'sym': lambda S: S.Matrix(4, 4, lambda i, j: (S.Symbol('a')**(1 + abs(i - j)) + S.Symbol('b')*(i + j))*(1 if (i + j) % 4 else 0)),
    'six': lambda S: S.Matrix(6, 6, lambda i, j: (S.Symbol('x')*(i + j + 1) + S.Symbol('y')**2*(i*j) - S.Symbol('z')**3) if (i*j) % 3 != 1 else 0),
    'six10': lambda S: S.Matrix(6, 10, lambda i, j: S.Symbol('x')**(i % 4)*(j + 1) - S.Symbol('y')**2*i if (i + 2*j) % 3 else 0),
    'ten': lambda S: S.Matrix(10, 10, lambda i, j: S.Symbol('E')*(i + j + 1) if abs(i - j) < 3 else 0),
    'frac': lambda S: S.Matrix(3, 3, lambda i, j: S.Rational(i + 1, j + 2)*S.Symbol('x')**(-j)*S.sqrt(S.Symbol('p') + 1)**i),
    'cse': lambda S: S.Matrix(4, 4, lambda i, j: (S.Symbol('x') + S.Symbol('y'))**2*(i + 1) + S.sin(S.Symbol('x') + S.Symbol('y'))*(j + 1) + (S.Symbol('x') - S.Symbol('z')*i)**3),
    'many': lambda S: S.Matrix(12, 2, lambda i, j: (S.Symbol('x') + i)**2*(S.Symbol('y') + j) + 1/((S.Symbol('x') + i)**2 + 1)),
    'numbers': lambda S: S.Matrix([[1, 0, -3], [S.Rational(1, 3), 2, 0]]),
    # structures: entries in one block, at a side of the diagonal, in a corner; equal and repeated entries
    'upblock': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')*S.Symbol('y')*(j + 1) + S.Symbol('x') if i < 2 <= j else 0),
    'lowblock': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')*(i + 1) + S.Symbol('y') + j if j < 2 <= i else 0),
    'strictlow': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**(i - j) + S.Symbol('y') if i > j else 0),
    'strictup': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**(j - i)*(i + 2) - S.Symbol('y') if i < j else 0),
    'diag': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')*(i + 1) + S.Symbol('y')**i if i == j else 0),
    'antidiag': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')*(i + 1) + S.Symbol('y')**i if i + j == 3 else 0),
    'unit': lambda S: S.eye(4),
    'antisym': lambda S: S.Matrix(4, 4, lambda i, j: (i - j)*(S.Symbol('x')*(i + j) + S.Symbol('y'))),
    'same': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**2 + S.Symbol('y')),
    'equalrows': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**2*(j + 1) + S.Symbol('y') if i % 2 else 0),
    'corner': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**2 + S.Symbol('y') if (i, j) == (3, 3) else 0),
    'corner2': lambda S: S.Matrix(4, 4, lambda i, j: S.Symbol('x')**2 - S.Symbol('y') if (i, j) == (3, 0) else 0),
    'lastcol': lambda S: S.Matrix(6, 4, lambda i, j: S.Symbol('x')*(i + 1) - S.Symbol('y')**2 if j == 3 else 0),
    'lastrow': lambda S: S.Matrix(4, 6, lambda i, j: S.Symbol('x')*(j + 1) - S.Symbol('y')**2 if i == 3 else 0),
    'row': lambda S: S.Matrix(1, 6, lambda i, j: S.Symbol('x')**j*(j % 3) + S.Symbol('y')*(j % 2)),
    'col': lambda S: S.Matrix(6, 1, lambda i, j: S.Symbol('x')**i*(i % 3) + S.Symbol('y')*(i % 2)),
    'neg': lambda S: S.Matrix([[-S.Symbol('x')**2, -S.Symbol('x') - S.Symbol('y')], [S.Symbol('x')**3 - 1, 0]]),
}


def c19(case):
    import sympy as S
    from meshless.dev import sympytools as st
    f = Fail()
    kind = case['printer']
    o = dict(case['opts'])
    m = MATS[case['matrix']](S)
    if kind == 'random':
        pass
    nr, nc = m.shape
    if case.get('np'):
        m = np.array(m.tolist(), dtype=object)
    keep = [str(v) for v in (m.ravel() if case.get('np') else m)]
    shape = m.shape
    x, y, a = S.symbols('x y a')
    subs = {k: v for k, v in zip((x, y, a), S.symbols('s1 s2 s3'))} if o.pop('subs', 0) == 1 else None
    if case['opts'].get('subs') == 2:
        # substituted expressions
        subs = {x**2: S.Symbol('t1'), x*y: S.Symbol('t2'), S.sin(x): S.Symbol('t3')}
    coll = None
    if o.get('collect_for'):
        coll = [S.Symbol(v) for v in o.pop('collect_for')]
    else:
        o.pop('collect_for', None)
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix='dvprint')
    try:
        os.chdir(d)
        kw = dict(o)
        if subs is not None:
            kw['subs'] = subs
        if coll is not None:
            kw['collect_for'] = coll
        name = 'K'
        if o.get('print_file', True):
            # a file of an earlier, longer print is replaced
            getattr(st, 'mprint_as_' + kind)(S.ones(3, 10), name, **dict(kw, collect_for=None))
        try:
            text = getattr(st, 'mprint_as_' + kind)(m, name, **kw)
        except Exception as e:
            f.add('%s %s %s: %r' % (kind, case['matrix'], case['opts'], e))
            return f
        files = os.listdir(d)
        want = o.get('print_file', True)
        if bool(files) != bool(want):
            f.add('files %r written although print_file=%s' % (files, want))
        for q in files:
            if open(os.path.join(d, q)).read() != text:
                f.add('the file differs from the returned text')
            ns = name + ('_%s' % o['sufix'] if o.get('sufix') else '')
            if q != 'print_%s.txt' % ns:
                f.add('file name %s' % q)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    if m.shape != shape or [str(v) for v in (m.ravel() if case.get('np') else m)] != keep:
        f.add('the given matrix was modified')
    if o.get('header') and o['header'] not in text:
        f.add('header missing')
    L = [S.sympify(v) for v in (np.ravel(m) if case.get('np') else list(m))]
    get = lambda i, j: L[i*nc + j]
    up = o.get('is_symmetric')
    exp = {(i, j): get(i, j) for i in range(nr) for j in range(nc) if get(i, j) != 0 and not (up and i > j)}
    announced = re.findall(r'_num=(\d+)', text)
    if len(announced) != 1 or int(announced[0]) != len(exp):
        f.add('announced number of terms %r, expected %d' % (announced, len(exp)))
    for seed in range(2):
        rng = np.random.default_rng(seed + 5)
        syms = sorted(set().union(*[v.free_symbols for v in L]), key=str) if L else []
        num = {s: S.Rational(int(rng.integers(3, 40)), int(rng.integers(2, 11))) for s in syms}
        ns = {str(k): F(int(v.p), int(v.q)) for k, v in num.items()}
        ns.update(sqrt=lambda q: float(q)**0.5, sin=lambda q: float(S.sin(float(q))), cos=lambda q: float(S.cos(float(q))))
        if subs:
            for k, v in subs.items():
                if k in num:
                    ns[str(v)] = F(int(num[k].p), int(num[k].q))
                    # the text must use the substituted names
                    ns.pop(str(k), None)
                elif not k.is_Symbol:
                    e = k.subs(num)
                    if e.is_Rational:
                        ns[str(v)] = F(int(e.p), int(e.q))
                    elif not e.free_symbols:
                        ns[str(v)] = float(e)
        tol = lambda e: 1e-9*(1 + abs(float(e)))
        body = text
        if subs:
            pre = {str(v): k for k, v in subs.items()}
            # definitions 'new = old' must be stated for the names in use
            lines = []
            for l in text.split('\n'):
                q = re.match(r'^(?:# )?(\w+) = (.+)$', l)
                if q and q.group(1) in pre:
                    if S.sympify(q.group(2)) != pre[q.group(1)]:
                        f.add('substitution announced as %s' % l)
                    continue
                if l in ('subs', 'subs\n', '# subs'):
                    continue
                lines.append(l)
            body = '\n'.join(lines)
        try:
            if kind == 'sparse':
                ndof = o.get('dofpernode')
                r, c, v = {}, {}, Arr()
                ns.update(c=-1, Kr=r, Kc=c, Kv=v, row=1000, col=2000, dof=ndof or 0)
                for k in range(1, 30):
                    ns['i%d' % k] = k - 1
                pyexec(body, ns)
                got = {}
                cnt = 0
                if set(r) != set(v) or set(c) != set(v) or sorted(v) != list(range(len(v))):
                    f.add('terms are not numbered consecutively')
                for k in sorted(v):
                    ij = (r.get(k, -1) - (0 if ndof else 1000), c.get(k, -1) - (0 if ndof else 2000))
                    if ij in got:
                        f.add('entry %r printed twice' % (ij,))
                    got[ij] = v[k]
                    cnt += 1
            elif kind == 'dense':
                v = Arr()
                ns.update(K=v, dof=o.get('dofpernode') or 0)
                for k in range(1, 30):
                    ns['i%d' % k] = k - 1
                pyexec(body, ns)
                got = dict(v)
                cnt = len(got)
            else:
                v = Arr()
                ns.update(K=v, pos=7)
                op = o.get('op', '+=')
                decl = pyexec(body, ns)
                if o.get('use_cse'):
                    used = re.findall(r'^(x\d+) = ', body, re.M)
                    if sorted(set(decl)) != sorted(set(used)) or len(decl) != len(set(decl)):
                        f.add('declared %r, defined %r' % (decl, used))
                got = {}
                for k, w in v.items():
                    k -= 7
                    ij = (k // nc, k % nc) if o.get('order', 'C') == 'C' else (k % nr, k // nr)
                    got[ij] = -w if op == '-=' else w
                cnt = len(got)
        except Exception as e:
            f.add('%s %s %s: the text cannot be run: %r' % (kind, case['matrix'], case['opts'], e))
            return f
        if set(got) != set(exp):
            f.add('%s %s %s: entries %r missing, %r superfluous' % (kind, case['matrix'], case['opts'], sorted(set(exp) - set(got))[:4], sorted(set(got) - set(exp))[:4]))
            return f
        for ij, e in exp.items():
            ev = e.subs(num)
            if ev.is_Rational:
                gv = got[ij]
                ok = (F(int(ev.p), int(ev.q)) == gv) if isinstance(gv, (int, F)) else abs(float(gv) - float(ev)) <= tol(ev)
            else:
                ok = abs(float(got[ij]) - float(ev)) <= tol(ev)
            if not ok:
                f.add('%s %s %s: entry %r has value %s instead of %s' % (kind, case['matrix'], case['opts'], ij, got[ij], ev))
                break
    if o.get('pow_by_mul', True) and coll is None:
        code = '\n'.join(l for l in text.split('\n') if not l.strip().startswith('#') and re.match(r'^(Kv|K\[)', l))
        if re.search(r'\w\*\*\d', code):
            f.add('power left in the text although pow_by_mul: %s' % re.search(r'.{0,20}\*\*\d', code).group(0))
    return f


# texts that mean something to str.format and to the % operator
HEADERS = ['# header', '# C = {1, 2}, {}, {mname} 100% %s %(a)s \\n']


def cases_c19(rng, deep):
    def prod(**k):
        out = [{}]
        for a, vs in k.items():
            out = [dict(q, **({a: v} if v is not None else {})) for q in out for v in vs]
        return out
    for nm in MATS:
        dn = {'rect': (None, 1, 2), 'six': (None, 1, 2, 3), 'six10': (None, 2, 3, 5), 'ten': (None, 5)}.get(nm, (None, 1, 2))
        sp = prod(dofpernode=dn, is_symmetric=(None, True), pow_by_mul=(None, False), subs=(None, 1, 2), collect_for=(None, ['x', 'y']), print_file=(None, False), sufix=(None, 's'), header=(None, HEADERS[nm != 'rect']))
        de = prod(dofpernode=dn, pow_by_mul=(None, False), subs=(None, 1, 2), collect_for=(None, ['x', 'y']), print_file=(None, False), header=(None, HEADERS[nm != 'rect']))
        ar = prod(use_cse=(None, True), order=(None, 'F'), op=(None, '=', '-='), pow_by_mul=(None, False), collect_for=(None, ['x', 'y']), print_file=(None, False), sufix=(None, 's'), header=(None, HEADERS[nm != 'rect']))
        for kind, opts in (('sparse', sp), ('dense', de), ('array', ar)):
            keep = opts if deep else [q for q in opts if len(q) <= 2] + [q for q in opts if len(q) > 2 and rng.random() < 0.04]
            for q in keep:
                if q.get('op') in ('=', '-=') and q.get('collect_for'):
                    continue
                if q.get('collect_for') and nm in ('numbers',):
                    pass
                yield '%s %s' % (kind, nm), dict(printer=kind, matrix=nm, opts=q, np=False)


SUITE = {'C18': (c18, cases_c18), 'C19': (c19, cases_c19)}
