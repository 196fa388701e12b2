"""Contract stubs of the mesh handed to the analysis functions.

The stubs stand for an arbitrary mesh: the loops of the code run for one
arbitrary edge (or triangle) together with the nodes it refers to.  They carry
exactly what the mesh contract (C04/C05) and the pyNastran interface give.
Everything an earlier analysis call may have left behind is stale (Poison).
"""
import builtins

import numpy as np

from . import alg, shim, load
from .alg import R, Unsupported, const, var, absval
from .ctx import Z
from .shim import UList, UPos, SymMap, Poison, Stub, SList, objarr, wrap, SymFam, Base

STALE = 'left behind by an earlier call'


class Ghost:
    """attribute log of one run"""

    def __init__(self):
        self.initial_reads = set()
        self.writes = []
        self.init_map = {}

    def stale(self):
        w = {(c, a) for c, o, a, v in self.writes}
        return sorted(self.initial_reads & w)


G = None


class Tracked(Stub):
    """mesh object: logs reads of initial attribute values and writes"""
    _known = ()

    def __getattribute__(self, n):
        if n.startswith('__') or n in ('_label', '_fresh'):
            return object.__getattribute__(self, n)
        try:
            v = object.__getattribute__(self, n)
        except AttributeError:
            G.initial_reads.add((type(self).__name__, n))
            if n in self._api:
                raise Unsupported('%s.%s is not part of the mesh model' % (type(self).__name__, n))
            raise
        fresh = object.__getattribute__(self, '__dict__').get('_fresh')
        if fresh and n in fresh:
            G.initial_reads.add((type(self).__name__, n))
        return v

    def __setattr__(self, n, v):
        fr = object.__getattribute__(self, '__dict__').get('_fresh')
        if fr is not None:
            fr.discard(n)
            G.writes.append((type(self).__name__, self, n, v))
        object.__setattr__(self, n, v)

    _api = ()

    def seal(self):
        d = object.__getattribute__(self, '__dict__')
        object.__setattr__(self, '_fresh', {k for k in d if k not in ('_label', '_fresh')})
        return self

    def __repr__(self):
        return object.__getattribute__(self, '__dict__').get('_label', '?')


_GRID_API = {'get_position', 'cp', 'cd', 'ps', 'seid', 'cp_ref', 'cd_ref', 'Position', 'type', 'comment'}
_TRIA_API = {'Normal', 'unit_normal', 'pid', 'theta_mcid', 'Mass', 'get_edge_ids', 'type', 'pid_ref', 'node_positions', 'n_nodes', 'nids', 'comment', 'AreaCentroidNormal', 'AreaCentroid', 'Thickness', 'faces'}


class Node(Tracked):
    _api = _GRID_API

    def get_position(self):
        return self.xyz


class Tria(Tracked):
    _api = _TRIA_API

    def get_node_positions(self, *a, **k):
        if not isinstance(self.nodes, UList):
            return objarr([list(n.xyz) for n in list.__iter__(self.nodes)])
        return UPos(self.nodes, lambda n: n.xyz)

    def get_area(self):
        a, b, c = [n.xyz for n in self.nodes.raw()] if isinstance(self.nodes, UList) else [n.xyz for n in self.nodes]
        if (b[2] - a[2]).t or (c[2] - a[2]).t:
            raise Unsupported('area of a triangle that is not at constant height')
        s = (b[0] - a[0])*(c[1] - a[1]) - (b[1] - a[1])*(c[0] - a[0])
        return absval(s)/2

    Area = get_area

    def Centroid(self):
        return shim.npmean(self.get_node_positions(), axis=0)

    center_of_mass = Centroid

    @property
    def node_ids(self):
        ns = self.nodes
        if isinstance(ns, UList):
            return UList([n.nid for n in ns.raw()], ns._tok)
        return SList([n.nid for n in ns])


class Mesh(Tracked):
    _api = {'properties', 'coords', 'cross_reference', 'materials', 'node_ids', 'element_ids', 'nnodes', 'nelements'}


class Prop(Stub):
    """laminate: symmetric A, B, D (3x3), E (2x2), h > 0, correction factors"""
    _shareable = True

    def __eq__(self, o):
        if self is not o:
            shim.observed(self, o)
        return self is o

    def __hash__(self):
        if not shim.ALIAS[0]:
            raise shim.IdentityObserved()
        return id(self)

    def __init__(self, name):
        d = self.__dict__
        d['name'] = name

        def sym(m, n):
            a = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    a[i, j] = var('%s.%s%d%d' % (name, m, min(i, j) + 1, max(i, j) + 1), extra='prop')
            a = wrap(a)
            a.flags.writeable = False
            return a
        d['A'] = sym('A', 3)
        d['B'] = sym('B', 3)
        d['D'] = sym('D', 3)
        d['E'] = sym('E', 2)
        d['scf_k13'] = var('%s.k13' % name, sign='+', extra='prop')
        d['scf_k23'] = var('%s.k23' % name, sign='+', extra='prop')
        d['h'] = var('%s.h' % name, sign='+', extra='prop')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('laminate attribute %s is not part of the contract' % n)

    def __setattr__(self, n, v):
        G.writes.append(('Prop', self, n, v))
        self.__dict__[n] = v


def V(name):
    return var(name)


def xyz(x, y, z):
    a = objarr([x, y, z])
    a.flags.writeable = False
    return a


class ManyTrias(SymFam):
    """three or more triangles at one edge; the first two by position"""

    def __init__(self, base, reps, first):
        SymFam.__init__(self, base, reps)
        self.first = list(first)

    def __getitem__(self, i):
        if isinstance(i, int) and 0 <= i < len(self.first):
            return self.first[i]
        return SymFam.__getitem__(self, i)


class Laminates:
    """laminates of the holders; with shim.ALIAS, shared in every possible way"""

    def __init__(self, c, uniform):
        self.c, self.blocks = c, []
        self.uniform = Prop('P') if uniform else None

    def __call__(self, name):
        if self.uniform:
            return self.uniform
        if shim.ALIAS[0] and self.blocks:
            k = self.c.choose(len(self.blocks) + 1, 'laminate of %s' % name)
            if k < len(self.blocks):
                return self.blocks[k]
        self.blocks.append(Prop(name))
        return self.blocks[-1]


class World:
    """one arbitrary edge (boundary or interior) or one arbitrary triangle"""

    def __init__(self, c, kind, nodemode, generic=0, uniform=False, fields=True, modcls=None, zplane=False, extra=()):
        global G
        G = self.G = Ghost()
        self.c = c
        self.kind = kind
        self.nodemode = nodemode
        N = self.N = Z.atom('N')
        NE = self.NE = Z.atom('NE')
        NT = self.NT = Z.atom('NT')
        c.zassume(NE - 1, '>=')
        c.zassume(NT - 1, '>=')
        names = {'boundary': ['n1', 'n2', 'o1'], 'interior': ['n1', 'n2', 'o1', 'o2'],
                 'tria': ['n1', 'n2', 'n3'], 'many': ['n1', 'n2', 'o1', 'o2'], 'none': ['n1', 'n2']}[kind]
        names = names + ['m%d' % (k + 1) for k in range(generic)]
        c.zassume(N - (3 if kind in ('boundary', 'tria', 'interior') else 2), '>=')
        X0, Y0, Z0 = V('X'), V('Y'), V('Z')
        if zplane and kind == 'interior':
            # the plane z = y of the first end node in boundary order
            self.orient = 1 if c.choose(2, 'orientation') == 0 else -1
            Z0 = Y0 if self.orient > 0 else Y0 + V('py')
        off = {'n1': None, 'n2': 'p', 'o1': 'q', 'n3': 'q', 'o2': 'r'}
        self.nodes = {}
        self.xy = {}
        pos = []
        nids = []
        self.newprop = Laminates(c, uniform)
        prop_u = self.newprop.uniform
        for nm in names:
            n = Node()
            n._label = nm
            o = off.get(nm, nm)
            if o is None:
                n.xyz = xyz(X0, Y0, Z0)
            else:
                n.xyz = xyz(X0 + V(o + 'x'), Y0 + V(o + 'y'), Z0)
            n.nid = Z.atom('nid_' + nm)
            self.xy[nm] = (n.xyz[0], n.xyz[1])
            n.prop = self.newprop(nm) if nodemode else None
            n.index = Poison('node index %s' % STALE)
            n.trias = Poison('unordered set of triangle ids')
            n.edges = Poison('unordered set of edges')
            p = Z.atom('pos_' + nm)
            c.zassume(p, '>=')
            c.zassume(N - p - 1, '>=')
            for q, i in builtins.zip(pos, nids):
                c.zassume(p - q, '!=')
                c.zassume(n.nid - i, '!=')
            pos.append(p)
            nids.append(n.nid)
            self.nodes[nm] = n
        self.pos = dict(builtins.zip(names, pos))
        d = self.d = self.nodes
        # orientation of the first triangle and side of the second one
        self.trias = []
        self.sgn = []
        if kind in ('boundary', 'interior', 'tria', 'many'):
            px, py, qx, qy = V('px'), V('py'), V('qx'), V('qy')
            s1 = px*qy - py*qx
            if not (zplane and kind == 'interior'):
                self.orient = 1 if c.choose(2, 'orientation') == 0 else -1
            c.assume(s1, '>' if self.orient > 0 else '<')
            t1 = self.newtria('t1', [d['n1'], d['n2'], d['o1'] if kind != 'tria' else d['n3']],
                              prop_u, ordered=(kind == 'tria'))
            self.T1 = absval(s1)/2
            self.sgn.append(self.orient)
            self.trias.append(t1)
            if kind in ('interior', 'many'):
                rx, ry = V('rx'), V('ry')
                s2 = px*ry - py*rx
                c.assume(s2, '!=' if kind == 'many' else '<' if self.orient > 0 else '>')
                t2 = self.newtria('t2', [d['n1'], d['n2'], d['o2']], prop_u)
                self.T2 = absval(s2)/2
                self.trias.append(t2)
                self.sgn.append(-self.orient)
                c.zassume(NT - 2, '>=')
        self.tpos = []
        for k, t in enumerate(self.trias):
            p = Z.atom('tpos%d' % k)
            c.zassume(p, '>=')
            c.zassume(NT - p - 1, '>=')
            for q in self.tpos:
                c.zassume(p - q, '!=')
            self.tpos.append(p)
        if len(self.trias) == 2:
            c.zassume(self.trias[0].eid - self.trias[1].eid, '!=')
        # edges
        Edge = modcls
        self.edges = []
        self.epos = []
        ebase = Edge
        ES = make_edge_class(ebase) if ebase is not None else None
        if kind in ('boundary', 'interior', 'many', 'none'):
            pairs = [('n1', 'n2')]
        elif kind == 'tria':
            pairs = [('n1', 'n2'), ('n2', 'n3'), ('n3', 'n1')]
        pairs = pairs + list(extra)
        for k, (a, b) in enumerate(pairs):
            e = ES(d[a], d[b]) if ES is not None else self.plain_edge(d[a], d[b])
            e._label = 'edge(%s,%s)' % (a, b)
            if (a, b) in extra:
                e.trias = Poison('triangles of another edge')
            elif kind in ('boundary', 'interior'):
                e.trias = SList(list(self.trias))
            elif kind == 'tria':
                e.trias = Poison('triangles of an edge of the triangle')
            elif kind == 'none':
                e.trias = SList([])
            for a_ in ('sdomain', 'ipts', 'Ac', 'othernode1', 'othernode2'):
                setattr(e, a_, Poison('edge.%s %s' % (a_, STALE)))
            self.edges.append(e)
            p = Z.atom('epos%d' % k)
            c.zassume(p, '>=')
            c.zassume(NE - p - 1, '>=')
            for q in self.epos:
                c.zassume(p - q, '!=')
            self.epos.append(p)
        if kind == 'tria':
            self.trias[0].edges = UList(self.edges)
            c.zassume(NE - 3, '>=')
        for t in self.trias:
            if kind != 'tria':
                t.edges = Poison('edges of a triangle')
        if kind == 'many':
            K = self.K = Z.atom('K')
            c.zassume(K - 3, '>=')
            t = Tria()
            t._label = 'tk'
            t.nodes = t.nodes_ref = Poison('nodes of a triangle')
            t.eid = Z.atom('eid_tk')
            t.prop = None if nodemode else self.newprop('tk')
            t.seal()
            kb = Base('trias of an edge', K)
            self.edges[0].trias = ManyTrias(kb, [(t, Z.atom('kpos'), t)], self.trias)
            c.zassume(Z.atom('kpos'), '>=')
            c.zassume(K - Z.atom('kpos') - 1, '>=')
            c.base_reps[kb.name] = self.edges[0].trias.reps
            self.many_tria = t
        # mesh
        m = self.mesh = Mesh()
        m._label = 'mesh'
        m.nodes = SymMap('nodes', N, [(d[nm].nid, d[nm], self.pos[nm]) for nm in names])
        m.edges = SymMap('edges', NE, [((e.n1.nid, e.n2.nid), e, p) for e, p in builtins.zip(self.edges, self.epos)])
        m.elements = SymMap('elements', NT, [(t.eid, t, p) for t, p in builtins.zip(self.trias, self.tpos)])
        for mp in (m.nodes, m.edges, m.elements):
            c.base_reps[mp.name] = mp.values().reps
        for n in d.values():
            n.seal()
        for t in self.trias:
            t.seal()
        for e in self.edges:
            e.seal()
        m.seal()
        self.prop_u = prop_u
        self.names = names

    def newtria(self, label, nodes, prop_u, ordered=False):
        t = Tria()
        t._label = label
        u = SList(nodes) if ordered else UList(nodes)
        t.nodes = u
        t.nodes_ref = u
        t.eid = Z.atom('eid_' + label)
        t.pid = 0
        t.prop = None if self.nodemode else self.newprop(label)
        return t

    def plain_edge(self, a, b):
        raise Unsupported('no edge class')

    # frame: what may not change
    def frame(self, allowed, prop='C17'):
        c = self.c
        bad = []
        for cls, o, a, v in self.G.writes:
            if (cls, a) not in allowed:
                bad.append('%r.%s' % (o, a))
        c.oblig('%s frame: only derived data of edges and node indices are written' % prop,
                not bad, 'frame log', 'written: %s' % ', '.join(sorted(set(bad))))
        st = self.G.stale()
        c.oblig('%s no attribute written by the analysis is read before it is written' % prop,
                not st, 'frame log', 'stale reads: %s' % (st,))


_edge_classes = {}


def make_edge_class(base):
    class Edge(Tracked, base):
        pass
    Edge.__name__ = 'Edge'
    return Edge


def modules_state(loader):
    """fingerprint of the mutable state of the loaded modules"""
    out = {}

    def fp(v, depth=0):
        if isinstance(v, np.ndarray):
            return ('arr', v.shape, tuple(str(x) for x in v.ravel()[:1000]))
        if isinstance(v, (list, tuple)) and depth < 4:
            return (type(v).__name__, tuple(fp(x, depth+1) for x in list.__iter__(v))) if isinstance(v, list) else (type(v).__name__, tuple(fp(x, depth+1) for x in v))
        if isinstance(v, shim.SDict):
            return ('dict', tuple((str(a), fp(b, depth+1)) for a, b in v._p), v._proj)
        if isinstance(v, shim.SSet):
            return ('set', len(v._it))
        if isinstance(v, dict):
            return ('dict', len(v))
        if isinstance(v, (int, float, str, bool, type(None), R)):
            return str(v)
        return id(v)
    import types
    for mn, m in loader.mods.items():
        for k, v in vars(m).items():
            if k.startswith('__'):
                continue
            out[mn, k] = fp(v)
            fs = []
            if isinstance(v, types.FunctionType):
                fs = [v]
            elif isinstance(v, type):
                fs = [f for f in vars(v).values() if isinstance(f, types.FunctionType)]
                for kk, vv in vars(v).items():
                    if not kk.startswith('__'):
                        out[mn, k, kk] = fp(vv)
            for f in fs:
                out[mn, k, f.__name__, 'd'] = fp(f.__defaults__ or ())
                out[mn, k, f.__name__, 'a'] = tuple((a, fp(b)) for a, b in f.__dict__.items())
                if f.__closure__:
                    for ci, cell in enumerate(f.__closure__):
                        try:
                            out[mn, k, f.__name__, 'c', ci] = fp(cell.cell_contents)
                        except ValueError:
                            pass
    return out
