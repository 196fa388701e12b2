"""Concrete meshes: JSON-able descriptions, builders, generators.

The meshes are built here from pyNastran objects and the Edge class of the code
under test, following the mesh contract (C04/C05) and not the readers, in any
order and numbering the contract allows.
"""
import os
import sys

REPO = os.environ.get('DV_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np


class Lam:
    """laminate: what the analysis functions read"""

    def __init__(self, d):
        C = np.array(d['C'], dtype=float)
        self.A = C[:3, :3].copy()
        self.B = C[:3, 3:].copy()
        self.D = C[3:, 3:].copy()
        self.E = np.array(d['E'], dtype=float)
        self.h = float(d['h'])
        self.scf_k13 = float(d['k13'])
        self.scf_k23 = float(d['k23'])

    def C(self):
        return np.block([[self.A, self.B], [self.B, self.D]])

    def state(self):
        return (self.A.tobytes(), self.B.tobytes(), self.D.tobytes(), self.E.tobytes(), self.h, self.scf_k13, self.scf_k23,
                tuple(sorted(self.__dict__)))


def special_lam(rng, kind):
    """laminates in which some differences vanish or are extreme"""
    d = random_lam(rng)
    C = np.array(d['C'])
    if kind == 'equal h':
        d['h'] = 0.25
        d['k13'] = d['k23'] = 5/6
    elif kind == 'orthotropic':
        # no coupling between shear and extension, nor membrane and bending
        C[:3, 3:] = C[3:, :3] = 0.
        for i in (2, 5):
            for j in range(6):
                if j != i:
                    C[i, j] = C[j, i] = 0.
        d['E'][0][1] = d['E'][1][0] = 0.
    elif kind == 'shear':
        # strongly coupled shear stiffness, very different correction factors
        e = rng.choice([-0.97, 0.97])*np.sqrt(d['E'][0][0]*d['E'][1][1])
        d['E'][0][1] = d['E'][1][0] = float(e)
        d['k13'], d['k23'] = (1., 0.2) if rng.random() < 0.5 else (0.2, 1.)
    elif kind == 'same A':
        C[:3, :3] = np.diag([2., 3., 1.])
        C[:3, 3:] *= 0.1
        C[3:, :3] *= 0.1
        C[3:, 3:] += np.eye(3)
    elif kind == 'metal':
        E, nu, h = rng.uniform(1e9, 2e11), 0.3, rng.uniform(1e-3, 5e-3)
        Q = E/(1 - nu**2)*np.array([[1, nu, 0], [nu, 1, 0], [0, 0, (1 - nu)/2]])
        C = np.zeros((6, 6))
        C[:3, :3], C[3:, 3:] = Q*h, Q*h**3/12
        G = E/2/(1 + nu)*h
        d = dict(C=C, E=[[G, 0.], [0., G]], h=float(h), k13=5/6, k23=5/6)
    elif kind == 'antisymmetric':
        # angle-ply: membrane and bending coupled by B16 and B26 only
        for i in range(3):
            for j in range(3):
                if (i == 2) == (j == 2):
                    C[i, 3 + j] = C[3 + j, i] = 0.
    elif kind == 'cross-ply':
        # coupled by B11 = -B22 only, no shear-extension terms
        C[:3, 3:] = C[3:, :3] = 0.
        C[0, 3] = C[3, 0] = 0.08
        C[1, 4] = C[4, 1] = -0.08
        for i in (2, 5):
            for j in range(6):
                if j != i:
                    C[i, j] = C[j, i] = 0.
    elif kind == 'membrane':
        C[3:, :] = C[:, 3:] = 0.
        C[3:, 3:] = np.eye(3)*1e-3
    elif kind in THICK:
        t = THICK[kind]
        C[:3, :3] *= t
        C[:3, 3:] *= t**2
        C[3:, :3] *= t**2
        C[3:, 3:] *= t**3
        d['E'] = (np.array(d['E'])*t).tolist()
        d['h'] *= t
    elif kind == 'soft':
        C *= 1e-11
        d['E'] = (np.array(d['E'])*1e-11).tolist()
    d['C'] = C.tolist()
    return d


THICK = {'thin': 1e-3, 'very thin': 1e-7, 'thick': 1e3}
KINDS = ('equal h', 'orthotropic', 'shear', 'same A', 'metal', 'antisymmetric', 'cross-ply', 'membrane', 'soft') + tuple(THICK)


def random_lam(rng, coupling=True):
    G = rng.normal(size=(6, 6))
    C = G @ G.T/6 + np.eye(6)*0.2
    # B must be symmetric
    B = (C[:3, 3:] + C[3:, :3])/2
    C[:3, 3:] = C[3:, :3] = B*(0.5 if coupling else 0.)
    w = np.linalg.eigvalsh(C)
    if w.min() < 0.05:
        C += np.eye(6)*(0.05 - w.min() + 0.05)
    E = np.array([[rng.uniform(0.5, 3), 0.], [0., rng.uniform(0.5, 3)]])
    e = rng.uniform(-0.4, 0.4)*np.sqrt(E[0, 0]*E[1, 1])
    E[0, 1] = E[1, 0] = e
    return dict(C=C.tolist(), E=E.tolist(), h=float(rng.uniform(0.05, 0.6)), k13=float(rng.uniform(0.5, 1.2)), k23=float(rng.uniform(0.5, 1.2)))


def sides(tris):
    """unordered pair -> triangle indices, in order of appearance"""
    out = {}
    for t, tri in enumerate(tris):
        for k in range(3):
            p = tuple(sorted((tri[k], tri[(k + 1) % 3])))
            out.setdefault(p, []).append(t)
    return out


def build(case):
    """mesh object of the case, with nodes in .nodelist, trias in .trialist"""
    from pyNastran.bdf.bdf import BDF, CTRIA3, GRID
    from meshless.espim.classes import Edge
    mesh = BDF(debug=None)
    z = case.get('z', 0.)
    nids = case['nids']
    nl = []
    lams = [Lam(d) for d in case['lams']]
    for i, (x, y) in enumerate(case['xy']):
        n = GRID(nids[i], cp=0, cd=0, xyz=np.array([x, y, z], dtype=float))
        n.trias = set()
        n.edges = set()
        n.index = set()
        n.prop = None
        nl.append(n)
    for i in case.get('norder') or range(len(nl)):
        mesh.nodes[nids[i]] = nl[i]
    tl = []
    for t, tri in enumerate(case['tris']):
        e = CTRIA3(case['eids'][t], 0, tuple(nids[i] for i in tri))
        e.nodes = [nl[i] for i in tri]
        e.nodes_ref = e.nodes
        e.edges = []
        e.prop = None
        tl.append(e)
    for t in case.get('torder') or range(len(tl)):
        mesh.elements[case['eids'][t]] = tl[t]
    edges = {}
    sd = sides(case['tris'])
    for k, (a, b) in enumerate(case['edges']):
        e = Edge(nl[a], nl[b])
        ts = list(sd[tuple(sorted((a, b)))])
        if k in case.get('etrev', ()):
            ts.reverse()
        e.trias = [tl[t] for t in ts]
        edges[nids[a], nids[b]] = e
        nl[a].edges.add(e)
        nl[b].edges.add(e)
        for t in ts:
            tl[t].edges.append(e)
    for t, tri in enumerate(case['tris']):
        for i in tri:
            nl[i].trias.add(case['eids'][t])
    mesh.edges = edges
    mesh.nodelist, mesh.trialist, mesh.lams = nl, tl, lams
    setprops(mesh, case, case['nodemode'])
    return mesh


def setprops(mesh, case, nodemode):
    for i, n in enumerate(mesh.nodelist):
        n.prop = mesh.lams[case['nprop'][i]] if nodemode else None
    for t, e in enumerate(mesh.trialist):
        e.prop = None if nodemode else mesh.lams[case['tprop'][t]]


# -- generators -----------------------------------------------------------------
def finish(rng, xy, tris, nodemode=True, z=None, shuffle=True, nlam=None, flip=True, ids=True, kind=None):
    """random numbering, orders, directions, laminates for a triangulation"""
    xy = np.array(xy, dtype=float)
    n, m = len(xy), len(tris)
    tris = [list(map(int, t)) for t in tris]
    if flip:
        tris = [t[::-1] if rng.random() < 0.4 else t for t in tris]
    if shuffle:
        tris = [[t[(k + s) % 3] for k in range(3)] for t, s in zip(tris, rng.integers(0, 3, m))]
        perm = rng.permutation(n)          # new position of node i
        inv = np.argsort(perm)
        xy = xy[inv]
        tris = [[int(perm[i]) for i in t] for t in tris]
    sd = list(sides(tris))
    if shuffle:
        rng.shuffle(sd)
    edges = [[int(v) for v in (p if rng.random() < 0.5 else p[::-1])] for p in sd]
    nlam = nlam or max(n, m)
    lams = [special_lam(rng, kind) if kind else random_lam(rng) for _ in range(min(nlam, 40))]
    L = len(lams)
    nprop = [int(i) % L for i in range(n)] if nlam > 1 else [0]*n
    tprop = [int(i) % L for i in range(m)] if nlam > 1 else [0]*m
    if nlam > 1 and rng.random() < 0.4:
        # a few laminates, shared by neighbours
        k = int(rng.integers(2, 4))
        nprop = [int(i) for i in rng.integers(0, min(k, L), n)]
        tprop = [int(i) for i in rng.integers(0, min(k, L), m)]
    return dict(xy=xy.tolist(), z=float(rng.choice([0., 0., 0.7, -3.])) if z is None else float(z),
                nids=[int(v) for v in (rng.choice(np.arange(1, 10*n + 1), n, replace=False) if ids else range(1, n + 1))],
                tris=tris, eids=[int(v) for v in (rng.choice(np.arange(1, 10*m + 1), m, replace=False) if ids else range(1, m + 1))],
                norder=[int(v) for v in rng.permutation(n)] if shuffle else None,
                torder=[int(v) for v in rng.permutation(m)] if shuffle else None,
                edges=edges, etrev=[k for k in range(len(edges)) if rng.random() < 0.5],
                lams=lams, nprop=nprop,
                tprop=tprop, nodemode=bool(nodemode))


def single(rng):
    while True:
        p = rng.uniform(-1, 1, (3, 2))
        if abs(np.linalg.det(np.c_[p, np.ones(3)])) > 0.15:
            return p, [[0, 1, 2]]


def pair(rng):
    while True:
        p = rng.uniform(-1, 1, (4, 2))
        d = p[1] - p[0]
        s = [d[0]*(q[1] - p[0][1]) - d[1]*(q[0] - p[0][0]) for q in p[2:]]
        if s[0]*s[1] < 0 and min(map(abs, s)) > 0.2:
            return p, [[0, 1, 2], [1, 0, 3]]


def fan(rng, k=6, closed=True):
    a = np.linspace(0, 2*np.pi, k + 1)[:-1] + rng.uniform(-0.25, 0.25, k)*2*np.pi/k
    r = rng.uniform(0.6, 1.4, k)
    p = np.vstack([[[0.05, -0.1]], np.c_[r*np.cos(a), r*np.sin(a)]])
    return p, [[0, 1 + i, 1 + (i + 1) % k] for i in range(k if closed else k - 1)]


def grid(rng, nx, ny, jitter=0.25, lx=1., ly=1.):
    x, y = np.meshgrid(np.linspace(0, lx, nx), np.linspace(0, ly, ny), indexing='ij')
    p = np.c_[x.ravel(), y.ravel()]
    p += rng.uniform(-jitter, jitter, p.shape)*np.array([lx/(nx - 1), ly/(ny - 1)])
    t = []
    for i in range(nx - 1):
        for j in range(ny - 1):
            a, b, c, d = i*ny + j, (i + 1)*ny + j, (i + 1)*ny + j + 1, i*ny + j + 1
            t += [[a, b, c], [a, c, d]] if rng.random() < 0.5 else [[a, b, d], [b, c, d]]
    return p, t


def delaunay(rng, n):
    from scipy.spatial import Delaunay
    p = rng.uniform(0, 1, (n, 2))
    d = Delaunay(p)
    t = []
    for s in d.simplices:
        q = p[s]
        if abs(np.linalg.det(np.c_[q, np.ones(3)])) > 1e-3:
            t.append([int(v) for v in s])
    return p, t


def transform(rng, p, how):
    p = np.array(p, dtype=float)
    if how == 'far':
        p = p + np.array([37., -52.])
    elif how == 'flat':
        p = p*np.array([1., 0.02])
    elif how == 'small':
        p = p*1e-2
    elif how == 'big':
        p = p*50.
    elif how == 'tiny':
        p = p*1e-6
    elif how == 'huge':
        p = p*1e5
    elif how == 'rot':
        a = rng.uniform(0, 6.3)
        p = p @ np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return p


def meshes(rng, deep=False, small=False):
    """(name, case) pairs; both assignment modes; deterministic for a seed"""
    def emit(name, g, **k):
        p, t = g
        for nm in (True, False):
            yield '%s/%s' % (name, 'node' if nm else 'tria'), finish(rng, p, t, nodemode=nm, **k)
    for i in range(3):
        yield from emit('single', single(rng))
    yield from emit('single plain', ([[0., 0.], [1., 0.], [0., 1.]], [[0, 1, 2]]), shuffle=False, flip=False, z=0., ids=False)
    yield from emit('single cw', ([[0., 0.], [1., 0.], [0., 1.]], [[0, 2, 1]]), shuffle=False, flip=False, z=0., ids=False)
    for i in range(8 if not deep else 40):
        yield from emit('pair', pair(rng))
    for how in ('far', 'flat', 'small', 'big', 'rot', 'tiny', 'huge'):
        p, t = pair(rng)
        yield from emit('pair ' + how, (transform(rng, p, how), t))
    yield from emit('square', ([[0., 0.], [1., 0.], [1., 1.], [0., 1.]], [[0, 1, 2], [0, 2, 3]]))
    yield from emit('fan', fan(rng, 6))
    yield from emit('open fan', fan(rng, 5, False))
    # nodes that belong to no triangle, before and after
    p, t = fan(rng, 5)
    yield from emit('unused nodes', (np.vstack([[[3., 3.]], p, [[4., -1.]]]), [[i + 1 for i in s] for s in t]))
    p, t = pair(rng)
    yield from emit('unused nodes, given order', (np.vstack([[[3., 3.]], p, [[4., -1.]]]), [[i + 1 for i in s] for s in t]), shuffle=False, ids=False)
    # two parts
    p, t = pair(rng)
    q, u = single(rng)
    yield from emit('two parts', (np.vstack([p, q + [5., 1.]]), t + [[i + 4 for i in s] for s in u]))
    # a crack: different nodes at the same positions
    yield from emit('crack', ([[0., 0.], [1., 0.1], [0., 1.], [1., 0.1], [1.2, 1.], [0., 1.]], [[0, 1, 2], [3, 4, 5]]))
    p, t = grid(rng, 3, 3, 0.1)
    q, u = grid(rng, 3, 2, 0.1)
    q = np.array(q)
    q[1::2] = [[p[i][0], p[i][1]] for i in (0, 3, 6)]
    q[0::2] = q[1::2] + np.array([0.1, -0.6])
    yield from emit('closed crack', (np.vstack([p, q]), t + [[i + 9 for i in s] for s in u]))
    # a hole
    p, t = grid(rng, 4, 4, 0.15)
    yield from emit('hole', (p, [s for s in t if not set(s) & {5}]))
    yield from emit('regular grid', grid(rng, 3, 3, 0.))
    for kind in KINDS:
        yield from emit('pair, ' + kind, pair(rng), kind=kind)
        yield from emit('grid, ' + kind, grid(rng, 3, 3), kind=kind)
    if not small:
        yield from emit('grid', grid(rng, 4, 3))
        for how in ('far', 'flat', 'small'):
            p, t = grid(rng, 3, 4)
            yield from emit('grid ' + how, (transform(rng, p, how), t))
        yield from emit('delaunay', delaunay(rng, 14))
        yield from emit('equal laminates', grid(rng, 3, 4), nlam=1)
        yield from emit('larger grid', grid(rng, 8, 7))
    if deep:
        for i in range(12):
            yield from emit('delaunay %d' % i, delaunay(rng, int(rng.integers(5, 40))))
        for i in range(6):
            p, t = grid(rng, int(rng.integers(2, 7)), int(rng.integers(2, 7)))
            yield from emit('grid %d' % i, (transform(rng, p, ['far', 'flat', 'small', 'big', 'rot', ''][i]), t))
        yield from emit('large grid', grid(rng, 15, 14))


def from_cex(env, rng):
    """two-triangle and one-triangle meshes with the coordinates of a solver
    counterexample"""
    out = []

    def g(n):
        return float(env.get(n, rng.uniform(-1, 1)))
    X, Y = g('X'), g('Y')
    P = [[X, Y], [X + g('px'), Y + g('py')], [X + g('qx'), Y + g('qy')]]
    tr = [[[0, 1, 2]]]
    if 'rx' in env:
        P2 = P + [[X + g('rx'), Y + g('ry')]]
        tr.append([[0, 1, 2], [0, 1, 3]])
    for t in tr:
        pts = P if len(t) == 1 else P2
        for nm in (True, False):
            for rep in range(3):
                out.append(('counterexample coordinates', finish(rng, pts, t, nodemode=nm, shuffle=rep > 0, flip=rep > 0, z=float(env.get('Z', 0.)))))
    return out
