"""Bounded exhaustive checks of the mesh readers."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from . import meshes  # noqa: F401
from .mechchecks import Fail, quiet


class Tri:
    def __init__(self, s):
        self.simplices = s


def connectivity(f, mesh, nids, coords, eids, tris, renum):
    """tris: triples of node ids"""
    if list(mesh.nodes) != list(nids) if renum else set(mesh.nodes) != set(nids):
        f.add('node identifiers %r instead of %r' % (list(mesh.nodes)[:8], list(nids)[:8]))
        return
    if list(mesh.elements) != list(eids) if renum else set(mesh.elements) != set(eids):
        f.add('triangle identifiers %r instead of %r' % (list(mesh.elements)[:8], list(eids)[:8]))
        return
    for n, c in zip(nids, coords):
        nd = mesh.nodes[n]
        if nd.nid != n:
            f.add('node %d says it is %d' % (n, nd.nid))
        if np.shape(nd.xyz) != (3,) or not np.array_equal(np.asarray(nd.xyz, dtype=float), np.asarray(c, dtype=float)):
            f.add('node %d at %r instead of %r' % (n, nd.xyz, c))
        if nd.prop is not None:
            f.add('node %d starts with a property' % n)
    if len({id(n) for n in mesh.nodes.values()}) != len(nids):
        f.add('nodes share objects')
    exp = {}
    for e, t in zip(eids, tris):
        el = mesh.elements[e]
        if el.eid != e:
            f.add('triangle %d says it is %d' % (e, el.eid))
        if [n.nid for n in el.nodes] != list(t) or any(mesh.nodes[i] is not n for i, n in zip(t, el.nodes)) or list(el.node_ids) != list(t):
            f.add('triangle %d has corners %r instead of %r' % (e, [n.nid for n in el.nodes], t))
        if el.prop is not None:
            f.add('triangle %d starts with a property' % e)
        for k in range(3):
            exp.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(e)
    got = {}
    for key, e in mesh.edges.items():
        p = frozenset((e.n1.nid, e.n2.nid))
        if p in got:
            f.add('two edges for nodes %r' % (sorted(p),))
        got[p] = e
        if mesh.nodes.get(e.n1.nid) is not e.n1 or mesh.nodes.get(e.n2.nid) is not e.n2:
            f.add('edge %r refers to other nodes' % (sorted(p),))
        if list(e.nodes) != [e.n1, e.n2] or list(e.node_ids) != [e.n1.nid, e.n2.nid]:
            f.add('edge %r: node lists differ' % (sorted(p),))
        if frozenset(key) != p:
            f.add('edge %r stored as %r' % (sorted(p), key))
    if set(got) != set(exp):
        f.add('edges %r missing, %r superfluous' % ([sorted(x) for x in set(exp) - set(got)][:4], [sorted(x) for x in set(got) - set(exp)][:4]))
        return
    for p, e in got.items():
        ids = [t.eid for t in e.trias]
        if sorted(ids) != sorted(exp[p]) or any(mesh.elements[t.eid] is not t for t in e.trias):
            f.add('edge %r lists triangles %r instead of %r' % (sorted(p), sorted(ids), sorted(exp[p])))
    for e, t in zip(eids, tris):
        el = mesh.elements[e]
        ex = [got[frozenset((t[k], t[(k + 1) % 3]))] for k in range(3)]
        if sorted(map(id, el.edges)) != sorted(map(id, ex)):
            f.add('triangle %d lists edges %r' % (e, list(el.edges)))
    en, tn = {}, {}
    for p, e in got.items():
        for n in p:
            en.setdefault(n, []).append(e)
    for e, t in zip(eids, tris):
        for n in set(t):
            tn.setdefault(n, []).append(e)
    for n in nids:
        nd = mesh.nodes[n]
        exe = en.get(n, [])
        if len(list(nd.edges)) != len(exe) or {id(x) for x in nd.edges} != {id(x) for x in exe}:
            f.add('node %d lists edges %r' % (n, list(nd.edges)))
        ext = sorted(tn.get(n, []))
        if sorted(nd.trias) != ext:
            f.add('node %d lists triangles %r instead of %r' % (n, sorted(nd.trias), ext))
    cont = [x for n in mesh.nodes.values() for x in (n.trias, n.edges)] + [t.edges for t in mesh.elements.values()] + [e.trias for e in mesh.edges.values()] + \
        [e.nodes for e in mesh.edges.values()] + [t.nodes for t in mesh.elements.values()]
    if len({id(x) for x in cont}) != len(cont):
        f.add('connectivity containers are shared')


def c04(case):
    from meshless.espim.read_mesh import read_delaunay
    f = Fail()
    for form in ('array', 'list'):
        pts = np.array(case['points'], dtype=float)
        s = np.array(case['tris'], dtype=np.int32).reshape(-1, 3)
        keep = pts.tobytes(), s.tobytes()
        P = pts if form == 'array' else [list(map(float, p)) for p in case['points']]
        if form == 'list' and pts.shape[1] == 3:
            P = list(pts)
        mesh = quiet(read_delaunay, P, Tri(s)) if form == 'array' else read_delaunay(P, Tri(s))
        co = [list(p) + [0.]*(3 - len(p)) for p in case['points']]
        connectivity(f, mesh, range(1, len(co) + 1), co, range(1, len(s) + 1), [tuple(int(i) + 1 for i in t) for t in s], True)
        if (pts.tobytes(), s.tobytes()) != keep:
            f.add('arguments changed')
        m2 = read_delaunay(P, Tri(s))
        if {id(n) for n in m2.nodes.values()} & {id(n) for n in mesh.nodes.values()} or len(m2.edges) != len(mesh.edges):
            f.add('a second mesh shares nodes or differs')
        connectivity(f, mesh, range(1, len(co) + 1), co, range(1, len(s) + 1), [tuple(int(i) + 1 for i in t) for t in s], True)
    return f


def trilists(rng, n, most, exhaustive):
    """lists of triangles over n points, sides used at most twice"""
    al = [t for t in itertools.permutations(range(n), 3)]

    def ok(ts):
        cnt = {}
        keys = set()
        for t in ts:
            if frozenset(t) in keys:
                return False
            keys.add(frozenset(t))
            for k in range(3):
                p = frozenset((t[k], t[(k + 1) % 3]))
                cnt[p] = cnt.get(p, 0) + 1
                if cnt[p] > 2:
                    return False
        return True
    for r in range(1, exhaustive + 1):
        for ts in itertools.product(al, repeat=r):
            if ok(ts):
                yield [list(t) for t in ts]
    for r in range(exhaustive + 1, most + 1):
        for k in range(25):
            for tries in range(60):
                ts = [al[i] for i in rng.integers(0, len(al), r)]
                if ok(ts):
                    yield [list(t) for t in ts]
                    break


def cases_c04(rng, deep):
    # every list of up to two triangles over four points (first triangle up to
    # renaming), three in the deep run
    pts = [[0., 0.], [1., 0.], [1., 1.5], [0., 2.]]
    for ts in trilists(rng, 4, 3, 2):
        if deep or ts[0] in ([0, 1, 2], [3, 1, 0], [2, 3, 1]):
            yield 'all lists over four points', dict(points=pts, tris=ts)
    for n in (5, 6, 8):
        p = rng.normal(size=(n, 2))
        for ts in trilists(rng, n, 6, 0):
            if deep or rng.random() < 0.35:
                yield 'random lists over %d points' % n, dict(points=p.tolist(), tris=ts)
    # sides used by three triangles are still read exactly
    yield 'three triangles at a side', dict(points=rng.normal(size=(5, 2)).tolist(), tris=[[0, 1, 2], [1, 0, 3], [0, 1, 4]])
    from scipy.spatial import Delaunay
    for n in (3, 4, 7, 12, 40) + ((200, 400) if deep else ()):
        for d3 in (False, True):
            p = rng.uniform(-1, 1, (n, 2))
            t = Delaunay(p).simplices.tolist()
            if d3:
                p = np.c_[p, rng.choice([0., 0.3], n)]
            yield 'Delaunay %d' % n, dict(points=p.tolist(), tris=t)
    # unused points
    p = rng.normal(size=(9, 2))
    yield 'unused points', dict(points=p.tolist(), tris=[[7, 2, 4], [4, 2, 5]])
    # clouds in space: flat at other heights, in other planes, of other sizes
    for k, z in enumerate((2.5, -1e-7, 1e6, 0.)):
        p = rng.uniform(-1, 1, (7, 2))*(1., 1e-6, 1e5, 30.)[k] + (0., 0., 3e5, -40.)[k]
        t = Delaunay(p).simplices.tolist()
        for ax in range(3):
            q = np.insert(p, ax, z, axis=1)
            yield 'flat at %r' % z, dict(points=q.tolist(), tris=t)
        yield 'slanted', dict(points=np.c_[p, z + 0.3*p[:, 0]].tolist(), tris=t)
    # heights and coordinates of very different size
    for k in range(4):
        p = rng.uniform(-1, 1, (9, 3))*(1., 1., 1e6, 1e-5)[k]
        t = Delaunay(p[:, :2]).simplices.tolist()
        q = p*rng.choice([0., 1e-18, 1e-13, -1e-10, 1e-9, 1e-7, 1e-5, 1e-3, 1., -0.], (9, 1 if k == 3 else 3))
        yield 'heights of very different size', dict(points=np.c_[p[:, :2], q[:, 2]].tolist(), tris=t)
        yield 'coordinates of very different size', dict(points=q.tolist(), tris=t)
        if k < 2:
            yield 'coordinates of very different size', dict(points=q[:, :2].tolist(), tris=t)
    # coinciding points keep their own nodes
    yield 'coinciding points', dict(points=[[0., 0.], [1., 0.], [1., 1.], [0., 1.], [1., 0.], [1., 1.]], tris=[[0, 1, 2], [0, 5, 3], [4, 2, 5]])
    # long strips: numbers beyond 10**3 and 10**4
    for n in (1100,) + ((10100,) if deep else ()):
        p = np.c_[np.arange(n)//2, np.arange(n) % 2].astype(float)
        yield 'strip of %d points' % n, dict(points=p.tolist(), tris=[[0, 1, n - 1], [1, 2, n - 2], [1, n - 1, n - 2]] + [[i, i + 1, i + 2] if i % 2 else [i + 1, i, i + 2] for i in range(3, n - 5)])


OTHERS = {
    'CQUAD4': 'CQUAD4,{e},1,{a},{b},{c},{d}', 'CBAR': 'CBAR,{e},2,{a},{b},0.,0.,1.', 'CROD': 'CROD,{e},3,{a},{b}',
    'CTRIA6': 'CTRIA6,{e},1,{a},{b},{c}', 'CELAS2': 'CELAS2,{e},100.,{a},1,{b},1', 'CONROD': 'CONROD,{e},{a},{b},1,1.', 'CSHEAR': 'CSHEAR,{e},4,{a},{b},{c},{d}',
    'CONM2': 'CONM2,{e},{a},,10.', 'CMASS2': 'CMASS2,{e},1.,{a},1', 'RBE2': 'RBE2,{e},{a},123456,{b},{c}', 'RBAR': 'RBAR,{e},{a},{b},123456', 'CBUSH': 'CBUSH,{e},7,{a},{b},,,,0',
    'CVISC': 'CVISC,{e},8,{a},{b}', 'CDAMP2': 'CDAMP2,{e},1.,{a},1,{b},1', 'CTRIAR': 'CTRIAR,{e},1,{a},{b},{c}', 'CQUADR': 'CQUADR,{e},1,{a},{b},{c},{d}',
    'CTETRA': 'CTETRA,{e},9,{a},{b},{c},{d}', 'CELAS1': 'CELAS1,{e},10,{a},1,{b},1', 'CELAS4': 'CELAS4,{e},5.,{a},{b}', 'RBE3': 'RBE3,{e},,{a},123456,1.,123,{b},{c}', 'CBEAM': 'CBEAM,{e},11,{a},{b},0.,0.,1.',
    'CMASS4': 'CMASS4,{e},5.,{a}'}


def deck(case):
    L = ['SOL 101', 'CEND', 'BEGIN BULK', 'MAT1,1,70.E9,,0.3', 'PSHELL,1,1,0.01,1,,1', 'PBAR,2,1,1.,1.,1.,1.', 'PROD,3,1,1.', 'PSHEAR,4,1,0.01', 'PBUSH,7,K,1.,1.,1.', 'PVISC,8,1.,1.', 'PSOLID,9,1', 'PELAS,10,5.', 'PBEAM,11,1,1.,1.,1.,,1.']
    g = ['GRID,%d,,%r,%r,%r' % (n, *map(float, c)) for n, c in zip(case['nids'], case['coords'])]
    t = ['CTRIA3,%d,1,%d,%d,%d' % ((e,) + tuple(x)) for e, x in zip(case['eids'], case['tris'])]
    if case.get('other'):
        a = case['nids']
        o = OTHERS[case['other']].format(e=case['oid'], a=a[0], b=a[1], c=a[2], d=a[3])
        t.insert(case.get('opos', 0), o)
    L += (t + g) if case.get('elemsfirst') else (g + t)
    return '\n'.join(L + ['ENDDATA', ''])


def c05(case):
    from meshless.espim.read_mesh import read_mesh
    f = Fail()
    d = tempfile.mkdtemp(prefix='dvdeck')
    try:
        p = os.path.join(d, 'deck.dat')
        with open(p, 'w') as fh:
            fh.write(deck(case))
        try:
            mesh = quiet(read_mesh, p) if sum(case['nids']) % 2 else read_mesh(p)
        except NotImplementedError:
            if not case.get('other'):
                f.add('deck of grid points and linear triangles rejected')
            return f
        except Exception as e:
            f.add('%s%r' % ('with %s: ' % case['other'] if case.get('other') else '', e))
            return f
        if case.get('other'):
            f.add('a deck with %s is read' % case['other'])
            return f
        connectivity(f, mesh, case['nids'], case['coords'], case['eids'], [tuple(t) for t in case['tris']], False)
        m2 = quiet(read_mesh, p)
        if {id(n) for n in m2.nodes.values()} & {id(n) for n in mesh.nodes.values()}:
            f.add('a second mesh shares nodes')
        connectivity(f, mesh, case['nids'], case['coords'], case['eids'], [tuple(t) for t in case['tris']], False)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f


def cases_c05(rng, deep):
    def mk(coords, tris, **k):
        n, m = len(coords), len(tris)
        nids = [int(v) for v in rng.choice(np.arange(1, 300), n, replace=False)]
        eids = [int(v) for v in rng.choice(np.arange(1, 300), m, replace=False)]
        if k.pop('same', False):
            # identifiers of nodes and triangles overlap
            eids = nids[:m] if m <= n else nids + eids[n:]
        c = dict(nids=nids, coords=coords, eids=eids, tris=[[nids[i] for i in t] for t in tris], elemsfirst=bool(rng.random() < 0.3))
        c.update(k)
        if 'nids' in k:
            c['tris'] = [[k['nids'][i] for i in t] for t in tris]
        return c

    def xyz(n):
        return [[float(v) for v in np.round(rng.uniform(-9, 9, 3), 3)] for _ in range(n)]
    for ts in trilists(rng, 4, 3, 2):
        if ts[0] == [0, 1, 2] and (deep or len(ts) == 1 or rng.random() < 0.6):
            yield 'all lists over four points', mk(xyz(4), ts, same=bool(rng.random() < 0.5))
    for n in (5, 7):
        for ts in trilists(rng, n, 6, 0):
            if deep or rng.random() < 0.15:
                yield 'random lists over %d points' % n, mk(xyz(n), ts)
    yield 'three triangles at a side', mk(xyz(5), [[0, 1, 2], [1, 0, 3], [0, 1, 4]])
    from scipy.spatial import Delaunay
    for n in (8, 25) + ((150,) if deep else ()):
        p = rng.uniform(-1, 1, (n, 2))
        yield 'Delaunay %d' % n, mk([[round(float(a), 4), round(float(b), 4), 0.] for a, b in p], Delaunay(p).simplices.tolist())
    # magnitudes of the coordinates
    t = [[0, 1, 2], [0, 2, 3]]
    for sc in (1e-3, 1e-7, 1e-12, 1e4, 1e9):
        yield 'coordinates of size %g' % sc, mk([[float('%.12g' % (v*sc)) for v in rng.uniform(-9, 9, 3)] for _ in range(4)], t)
        yield 'height of size %g' % sc, mk([[float(v) for v in np.round(rng.uniform(-9, 9, 2), 3)] + [float('%.12g' % (rng.uniform(1, 9)*sc))] for _ in range(4)], t)
    yield 'close coordinates', mk([[float('%.13g' % (7.5 + 1e-9*v)) for v in rng.uniform(-9, 9, 3)] for _ in range(4)], t)
    # large identifiers, and pairs of identifiers that agree in composed keys
    t = [[0, 1, 2], [0, 2, 3]]
    for n in ((100000000, 99999999, 1, 2), (99999989, 5, 99999979, 77)):
        yield 'large identifiers', mk(xyz(4), t, nids=list(n), eids=[99999999, 100000000])
    for base in (10, 100, 1000, 10000, 100000, 1000000, 256, 1024, 4096, 65536):
        for a, b in ((1, 2), (3, 7)):
            # sides (a, base + x), (b, y) with a*base + base + x == b*base + y
            w = a + b + 2
            n = [a, (b - a)*base + w, b, w, (b - a)*base + 2*w, 2*w]
            tt = [[0, 1, 4], [2, 3, 5], [0, 4, 2]]
            if len(set(n)) == 6 and min(n) > 0:
                yield 'identifiers composed with base %d' % base, mk(xyz(6), tt, nids=n, eids=[base, base + 1, 3*base + 7])
    for n in ([1, 11, 111, 12, 112, 2], [1, 23, 12, 3, 123, 4]):
        tt = [[0, 1, 3], [0, 4, 5], [2, 1, 5], [2, 3, 4]]
        yield 'identifiers composed as text', mk(xyz(6), tt, nids=n, eids=[1, 11, 111, 1111])
    for o in OTHERS:
        for pos in (0, 1, 2):
            yield 'other element %s' % o, mk(xyz(4), [[0, 1, 2], [0, 2, 3]], other=o, oid=int(rng.integers(400, 500)), opos=pos)
        yield 'other element %s, first id' % o, mk(xyz(4), [[0, 1, 2], [0, 2, 3]], other=o, oid=999, opos=1)


SUITE = {'C04': (c04, cases_c04), 'C05': (c05, cases_c05)}
