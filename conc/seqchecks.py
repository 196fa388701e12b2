"""Concrete checks of area_of_polygon and the Lagrange interpolations against
exact rational oracles."""
from fractions import Fraction as F

import numpy as np

from . import meshes  # noqa: F401  (path of the repository)
from .mechchecks import Fail


def shoelace(x, y):
    x, y = [F(float(v)) for v in x], [F(float(v)) for v in y]
    n = len(x)
    return abs(sum(x[i]*y[(i + 1) % n] - x[(i + 1) % n]*y[i] for i in range(n)))/2


def c01(case):
    from meshless.utils import area_of_polygon
    f = Fail()
    x, y = case['x'], case['y']
    n = len(x)
    ex = float(shoelace(x, y))
    size = max(np.ptp(x), np.ptp(y))
    pos = max(np.max(np.abs(x)), np.max(np.abs(y)))
    sc = ex + 1e-6*n*(pos + size)**2 # rounding of the products
    forms = [('lists', list(x), list(y)), ('arrays', np.array(x, dtype=float), np.array(y, dtype=float)), ('tuples', tuple(x), tuple(y))]
    big = np.column_stack([x, np.zeros(n), y]).astype(float)
    forms.append(('columns', big[:, 0], big[:, 2]))
    for nm, a, b in forms:
        keep = (list(a), list(b))
        r = area_of_polygon(a, b)
        f.close('area of %d vertices as %s' % (n, nm), r, ex, scale=sc, tol=1e-9)
        if not r >= 0:
            f.add('negative area %r' % r)
        if (list(a), list(b)) != keep:
            f.add('coordinates changed')
        r2 = area_of_polygon(a, b)
        if r2 != r:
            f.add('second call gives %r after %r' % (r2, r))
    for s in sorted({1 % n, n//2, n - 1}):
        f.close('start at vertex %d' % s, area_of_polygon(x[s:] + x[:s], y[s:] + y[:s]), ex, scale=sc, tol=1e-9)
    f.close('reversed', area_of_polygon(x[::-1], y[::-1]), ex, scale=sc, tol=1e-9)
    dx, dy = 3*size + 0.5, -2*size - 1.25
    f.close('translated', area_of_polygon([v + dx for v in x], [v + dy for v in y]), ex, scale=ex + 1e-6*n*(pos + 4*size + 2)**2, tol=1e-9)
    return f


def cases_c01(rng, deep):
    def out(nm, x, y):
        return nm, dict(x=[float(v) for v in x], y=[float(v) for v in y])
    yield out('triangle', [0, 1, 0], [0, 0, 1])
    yield out('triangle, clockwise', [0, 0, 1], [0, 1, 0])
    yield out('square', [0, 2, 2, 0], [0, 0, 2, 2])
    yield out('L', [0, 4, 4, 1, 1, 0], [0, 0, 1, 1, 3, 3])
    yield out('U', [0, 5, 5, 4, 4, 1, 1, 0], [0, 0, 3, 3, 1, 1, 3, 3])
    yield out('midpoint vertices', [0, 1, 2, 2, 2, 1, 0, 0], [0, 0, 0, 1, 2, 2, 2, 1])
    yield out('zero area', [0, 1, 2], [0, 1, 2])
    yield out('negative quadrant', [-3, -1, -2], [-5, -4, -1])
    yield out('small', [0, 1e-5, 0], [0, 0, 1e-5])
    yield out('huge', [0, 1e6, 0], [0, 0, 1e6])
    for n in list(range(3, 24)) + [50, 101] + ([500, 2001] if deep else []):
        for rep in range(3 if not deep else 25):
            a = np.sort(rng.uniform(0, 2*np.pi, n))
            r = rng.uniform(0.2, 2, n)
            x, y = r*np.cos(a), r*np.sin(a)
            o = rng.uniform(-5, 5, 2)
            s = rng.choice([1., 1., 1e-3, 100.])
            x, y = s*x + o[0], s*y*rng.uniform(0.05, 1) + o[1]
            if rep % 2:
                x, y = x[::-1], y[::-1]
            k = int(rng.integers(n))
            yield out('star shaped, %d vertices' % n, np.roll(x, k), np.roll(y, k))
        yield out('integer coordinates, %d vertices' % n, rng.integers(-9, 9, n), rng.integers(-9, 9, n))


# -- interpolation ---------------------------------------------------------------
def basis(q, nodes, m):
    r = F(1)
    for i, v in enumerate(nodes):
        if i != m:
            r *= (q - v)/(nodes[m] - v)
    return r


def defect_basis(q, znodes, ynodes, m):
    """recorded defect: product over y_nodes"""
    r = F(1)
    for k, v in enumerate(ynodes):
        if k != m and znodes[m] != v:
            r *= (q - v)/(znodes[m] - v)
    return r


def exact(case, pt, defect=False):
    nodes = [[F(v) for v in ns] for ns in case['nodes']]
    q = [F(v) for v in pt]
    Fn = np.array(case['field'], dtype=float)
    B = [[basis(qq, ns, m) for m in range(len(ns))] for qq, ns in zip(q, nodes)]
    if defect:
        B[2] = [defect_basis(q[2], nodes[2], nodes[1], m) for m in range(len(nodes[2]))]
    tot = F(0)
    mag = F(0)
    for ix in np.ndindex(*Fn.shape):
        v = F(float(Fn[ix]))
        for k, i in enumerate(ix):
            v *= B[k][i]
        tot += v
        mag += abs(v)
    return tot, mag


def lag(case):
    from meshless import interpolate
    f = Fail()
    dim = len(case['nodes'])
    fn = getattr(interpolate, 'interpolate_lagrange_%dD' % dim)
    pts = case['pts']
    nodes = [np.array(v, dtype=float) for v in case['nodes']]
    field = np.array(case['field'], dtype=float)
    keep = [a.tobytes() for a in nodes + [field]]
    q = [np.array([p[k] for p in pts], dtype=float) for k in range(dim)]
    keepq = [a.tobytes() for a in q]
    ex, mag, dex = [], [], []
    for p in pts:
        e, m = exact(case, p)
        ex.append(float(e))
        mag.append(float(m))
        if dim == 3:
            e, m = exact(case, p, defect=True)
            dex.append(float(e))
            mag[-1] = max(mag[-1], float(m))
    sc = np.array(mag)*case.get('loose', 1.) + 1e-300
    known = False

    def cmp(what, got, ex, sc, dx=None, zero=False):
        nonlocal known
        got = np.asarray(got, dtype=float)
        if got.shape != np.shape(ex):
            # a constant is allowed when nothing depends on the query
            if got.shape == () and all(len(n) == 1 for n in nodes):
                got = np.full(np.shape(ex), float(got))
            else:
                f.add('%s: shape %r instead of %r' % (what, got.shape, np.shape(ex)))
                return
        if np.all(np.abs(got - ex) <= 1e-9*sc):
            return
        if dx is not None and np.all(np.abs(got - dx) <= 1e-9*sc):
            known = True
            return
        k = int(np.argmax(np.abs(got - ex)/sc)) if got.ndim else 0
        f.add('%s at %r: got %r, expected %r' % (what, pts[k] if len(pts) == got.size else pts, float(np.ravel(got)[k]), float(np.ravel(ex)[k])))
    ex, dex = np.array(ex), np.array(dex) if dim == 3 else None
    cmp('arrays', fn(*(q + nodes + [field])), ex, sc, dex)
    if [a.tobytes() for a in nodes + [field]] != keep or [a.tobytes() for a in q] != keepq:
        f.add('arguments changed')
    cmp('lists of nodes', fn(*(q + [list(v) for v in nodes] + [field.tolist()])), ex, sc, dex)
    for k in (0, len(pts)//2, len(pts) - 1):
        cmp('single point', fn(*(list(map(float, pts[k])) + nodes + [field])), ex[k], sc[k], dex[k] if dim == 3 else None)
    order = list(range(len(pts)))[::-1]
    cmp('reversed order of the points', np.asarray(fn(*([a[order] for a in q] + nodes + [field])))*np.ones(len(pts)), ex[order], sc[order], dex[order] if dim == 3 else None)
    if len(pts) % 2 == 0 and len(pts) > 3:
        sh = (2, len(pts)//2)
        cmp('grid of points', np.asarray(fn(*([a.reshape(sh) for a in q] + nodes + [field])))*np.ones(sh), ex.reshape(sh), sc.reshape(sh), dex.reshape(sh) if dim == 3 else None)
    if case.get('integer'):
        inodes = [np.array(v, dtype=int) for v in case['nodes']]
        cmp('integer coordinates', fn(*(q + inodes + [field.astype(int)])), ex, sc, dex)
    if not dim == 3 or not known:
        g2 = np.cos(np.arange(field.size)).reshape(field.shape)
        a = np.asarray(fn(*(q + nodes + [2*field - 3*g2])))*np.ones(len(pts))
        b = 2*np.asarray(fn(*(q + nodes + [field]))) - 3*np.asarray(fn(*(q + nodes + [g2])))
        c2 = dict(case, field=g2.tolist())
        m2 = np.array([float(exact(c2, p)[1]) for p in pts])
        f.close('linear in the field', a, b*np.ones(len(pts)), scale=np.max((2*sc + 3*m2*case.get('loose', 1.) + 1e-300)))
    f.known = known
    return f


def cases_lag(dim):
    def gen(rng, deep):
        def coords(n, kind):
            if kind == 'int':
                v = rng.choice(np.arange(-6, 7), n, replace=False).astype(float)
            elif kind == 'close':
                v = np.cumsum(rng.uniform(0.5, 1.5, n))*1e-5
                rng.shuffle(v)
            elif kind == 'mixed':
                v = np.cumsum(rng.uniform(0.5, 1.5, n))
                if n > 1:
                    v[1] = v[0] + 1e-9
                rng.shuffle(v)
            elif kind == 'large':
                v = np.cumsum(rng.uniform(0.5, 1.5, n))*1e4
            elif kind == 'zero':
                v = np.cumsum(rng.uniform(0.5, 1.5, n))
                v -= v[n//2]
            else:
                v = np.cumsum(rng.uniform(0.3, 1.5, n)) + rng.uniform(-3, 0)
                if rng.random() < 0.6:
                    rng.shuffle(v)
            return [float(x) for x in v]
        shapes = [(1,)*dim, (2,)*dim, (3,)*dim, (1, 2, 3)[:dim], (4, 1, 2)[:dim], (2, 5, 3)[:dim], (5, 2, 4)[:dim], (3, 4, 5)[:dim]]
        long = [(9, 2, 2), (2, 9, 2), (2, 2, 9), (13, 1, 2), (1, 12, 1), (2, 1, 11), (17, 2, 1), (2, 18, 1)]
        kinds = ['', 'int', 'close', 'mixed', 'large', 'zero']
        for rep in range(2 if not deep else 12):
            for sh in shapes:
                for kind in kinds:
                    nodes = [coords(n, kind) for n in sh]
                    if dim == 3 and rep % 2 == 0 and sh[1] == sh[2]:
                        nodes[2] = list(nodes[1])
                    yield '%s %s' % (kind or 'random', sh), mk(rng, nodes, kind)
            for sh in dict.fromkeys(sh[:dim] for sh in long):
                for kind in ('', 'zero'):
                    nodes = [coords(n, kind) for n in sh]
                    if dim == 3 and sh[1] == sh[2]:
                        nodes[2] = list(nodes[1])
                    yield '%s %s' % (kind or 'random', sh), mk(rng, nodes, kind)
            if dim == 3:
                for n in (1, 2, 3, 4):
                    v = coords(n, '')
                    yield 'z_nodes = y_nodes', mk(rng, [coords(3, ''), v, list(v)], '')
                    yield 'z_nodes = y_nodes, integers', mk(rng, [coords(2, 'int'), [float(i) for i in range(n)], [float(i) for i in range(n)]], 'int')

    def mk(rng, nodes, kind):
        sh = tuple(len(v) for v in nodes)
        field = rng.integers(-5, 6, sh).astype(float) if kind == 'int' else rng.normal(size=sh)
        pts = []
        for k in range(3):
            pts.append([nodes[d][int(rng.integers(sh[d]))] for d in range(len(sh))])
        for k in range(5):
            pts.append([float(rng.uniform(min(v) - 1e-3 - 0.3*np.ptp(v), max(v) + 0.3*np.ptp(v))) for v in nodes])
        return dict(nodes=nodes, field=field.tolist(), pts=pts, integer=kind == 'int', loose=1e3 if kind == 'mixed' else 1.)
    return gen


SUITE = {'C01': (c01, cases_c01), 'C02': (lag, cases_lag(2)), 'C03': (lag, cases_lag(3))}
