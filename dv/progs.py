"""Programs under proof: real functions of /repo run on an arbitrary mesh, with
their contracts as obligations.

Obligation names start with the property they establish ('C09 ...').  A second
word 'soft:' marks a proof attempt whose failure is no refutation (it is then
decided by the bounded layer).
"""
import numpy as np

from . import alg, load, shim, bigop, mesh, specs
from .alg import R, const, var, Unsupported
from .ctx import Z, SymBool, Infeasible
from .shim import SymMatrix, SymVec, Poison  # noqa: E402
from .mesh import World, Prop                # noqa: E402

CALC = 'meshless.espim.plate2d_calc_k0'
KG = 'meshless.espim.plate2d_calc_kG'
ADD = 'meshless.espim.plate2d_add_k0s'
METHODS = ('cell-based', 'cell-based-no-smoothing', 'edge-based')

PROTECTED = {'Node': {'xyz', 'nid', 'prop', 'trias', 'edges'},
             'Tria': {'nodes', 'nodes_ref', 'eid', 'prop', 'edges', 'pid'},
             'Edge': {'n1', 'n2', 'nodes', 'node_ids', 'trias'},
             'Mesh': {'nodes', 'edges', 'elements'}}


class Text(shim.Stub):
    """what a logging function returns: any text"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('text of a message')


class Logger:
    """contract of meshless.logger (proved by prog_logger): the functions do
    nothing to their arguments, print at most, and return a text"""
    __name__ = 'meshless.logger'

    @staticmethod
    def msg(msg, level=0, silent=False):
        if not isinstance(msg, str) or not isinstance(level, int) or not isinstance(silent, (bool, Flag)):
            raise Unsupported('message that is no text')
        return Text()

    warn = error = msg


class Flag:
    """an unknown boolean; both values are explored when the code asks"""

    def __init__(self, c, label):
        self.c, self.label, self.v = c, label, None

    def __bool__(self):
        if self.v is None:
            self.v = not self.c.choose(2, self.label)
        return self.v

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))


def newloader(logger=False):
    st = {'numpy': shim.numpy()}
    if not logger:
        st['meshless.logger'] = Logger
    return load.Loader(shim=shim, stubs=st)


def prog_logger(c, tag):
    """the functions of meshless.logger fulfil the contract of Logger"""
    L = newloader(logger=True)
    m = L.load('meshless.logger')
    state = mesh.modules_state(L)
    f = ('msg', 'warn', 'error')[c.choose(3, 'function')]
    flag = (None, True, False)[c.choose(3, 'silent')]
    level = (None, 1)[c.choose(2, 'level')]
    kw = {}
    if flag is not None:
        kw['silent'] = flag
    if level is not None:
        kw['level'] = level
    r = getattr(m, f)('text %d {0} %s', **kw)
    c.oblig('%s logger/%s returns a text and keeps its module as it is' % (tag, f),
            isinstance(r, str) and mesh.modules_state(L) == state, 'symbolic execution', repr(r))


class Run:
    """loader + world + frame checking"""

    def __init__(self, c, kind, nodemode, mods, **kw):
        self.c = c
        self.L = newloader()
        edge = self.L.load('meshless.espim.classes').Edge
        self.mods = [self.L.load(m) for m in mods]
        self.W = World(c, kind, nodemode, modcls=edge, **kw)
        self.state = mesh.modules_state(self.L)
        self.lists = [(o, a, list.__getitem__(o.__dict__[a], slice(None)), o.__dict__[a])
                      for o in self.W.edges for a in ('nodes', 'node_ids', 'trias')
                      if isinstance(o.__dict__.get(a), list)]
        self.W.G.initial_reads.clear()

    def frame(self, derived=True, tags=('C17',)):
        c, W = self.c, self.W
        bad = []
        for cls, o, a, v in W.G.writes:
            if cls == 'Prop' or a in PROTECTED.get(cls, ()):
                bad.append('%r.%s' % (o, a))
            elif not derived and cls in ('Node', 'Edge') and a in ('index', 'sdomain', 'ipts', 'Ac', 'othernode1', 'othernode2'):
                bad.append('%r.%s' % (o, a))
        for o, a, old, lst in self.lists:
            cur = list.__getitem__(lst, slice(None))
            if len(cur) != len(old) or any(x is not y for x, y in zip(cur, old)):
                bad.append('%r.%s' % (o, a))
        for t in tags:
            c.oblig('%s frame/coordinates, connectivity, laminates unchanged' % t, not bad, 'frame log', 'written: %s' % ', '.join(sorted(set(bad))))
        st = W.G.stale()
        c.oblig('C17 frame/no attribute is read before the call writes it', not st, 'frame log', 'read: %s' % (st,))
        ns = mesh.modules_state(self.L)
        ch = [k for k in ns if ns[k] != self.state.get(k)]
        c.oblig('C17 frame/no state kept in the modules', not ch, 'frame log', 'changed: %s' % (ch,))


def dofkey(W, n, k):
    return Z.lift(W.pos[n]*5 + k).key()


def entries(W, M):
    """node, dof, node, dof -> increment; the rest under 'other'"""
    names = {}
    for n in W.names:
        for k in range(5):
            names[dofkey(W, n, k)] = (n, k)
    out, other = {}, []
    for (ka, kb), (a, b, v) in M.incs.items():
        na, nb = names.get(ka), names.get(kb)
        if na is None or nb is None:
            other.append((a, b, v))
        else:
            k = na + nb
            out[k] = out[k] + v if k in out else v
    return out, other


ZERO = const(0)


def zero(c, x):
    return c.eq(x, ZERO)[0]


def check_matrix(c, W, M, what, tag):
    """shape, storage, locality"""
    ok = isinstance(M, SymMatrix) and M.zero
    c.oblig('%s %s/returns a new matrix' % (tag, what), ok, 'type', repr(type(M)))
    if not ok:
        raise Unsupported('%s does not return a matrix allocated by the call' % what)
    n5 = Z.lift(W.N*5).key()
    c.oblig('C07 %s/square, five rows per node' % what,
            Z.lift(M.nr).key() == n5 and Z.lift(M.nc).key() == n5, 'z3-LIA', '%r x %r' % (M.nr, M.nc))
    return locality(c, W, M, what)


def locality(c, W, M, what, tags=('C07',)):
    inc, other = entries(W, M)
    bad = [(a, b, v) for a, b, v in other if not zero(c, v)]
    for t in tags:
        c.oblig('%s %s/only rows and columns of the nodes involved' % (t, what), not bad, 'normal form',
                'also written: %s' % ([(a, b) for a, b, v in bad][:4],))
    return inc


def symmetric(c, tag, what, inc):
    bad = []
    for k, v in inc.items():
        t = k[2:] + k[:2]
        if t < k:
            continue
        w = inc.get(t, ZERO)
        if v is not w and not c.eq(v, w)[0]:
            bad.append(k)
    for k in inc:
        if k[2:] + k[:2] not in inc and not zero(c, inc[k]):
            bad.append(k)
    c.oblig('%s %s/symmetric' % (tag, what), not bad, 'normal form', 'entries %s' % (bad[:6],))


def compare(c, tag, what, inc, spec, soft=False):
    bad = []
    n = 0
    for k in set(inc) | set(spec):
        n += 1
        ok, be = c.eq(inc.get(k, ZERO), spec.get(k, ZERO))
        if not ok:
            bad.append(k)
    bad.sort()
    for k in bad[:6]:
        c.prove_eq('%s %s%s/entry %s' % (tag, 'soft: ' if soft else '', what, k), inc.get(k, ZERO), spec.get(k, ZERO))
    if not bad:
        c.oblig('%s %s%s/all %d entries' % (tag, 'soft: ' if soft else '', what, n), True, 'normal form')
        c.nent = getattr(c, 'nent', 0) + n
        for k in sorted(spec):
            if R.lift(spec[k]).t and not zero(c, spec[k]):
                canary(c, tag, inc.get(k, ZERO), spec[k]*2)
                break
    return not bad


def canary(c, tag, got, wrong):
    """a contract known to be false must not be accepted"""
    ok = c.eq(got, wrong)[0]
    c.verdicts = []
    c.oblig('%s canary/a false contract is refused' % tag, not ok, 'canary')


def wantset(want):
    return lambda *ps: want is None or any(p in want for p in ps)


# -- C06 -------------------------------------------------------------------------
def check_domain(c, W, S, e):
    d = W.nodes
    others = [e.othernode1, e.othernode2]
    exp = [d['o1'], d.get('o2')]
    c.oblig('C06 othernode1, othernode2 are the opposite corners', others[0] is exp[0] and others[1] is exp[1], 'identity',
            repr(others))
    z0 = d['n1'].xyz[2]
    mids = [S.mid(k) for k in range(len(W.trias))]
    cyc = [W.xy['n1'], mids[0], W.xy['n2']] + ([mids[1]] if len(mids) == 2 else [])
    # polygon stored with the edge
    try:
        poly = [(p[0], p[1], p[2]) for p in e.sdomain]
    except (TypeError, IndexError):
        poly = []

    def same(p, q, zz=True):
        return c.eq(p[0], q[0])[0] and c.eq(p[1], q[1])[0] and (not zz or c.eq(p[2], z0)[0])
    if len(poly) > 1 and same(poly[0], poly[-1][:2]) and same(poly[-1], poly[0][:2]):
        poly = poly[:-1]
    ok = False
    n = len(cyc)
    if len(poly) == n:
        for dirn in (1, -1):
            for s in range(n):
                if all(same(poly[i], cyc[(s + dirn*i) % n]) for i in range(n)):
                    ok = True
                    break
    c.oblig('C06 sdomain/polygon of end points and centroids', ok, 'normal form', '%d points' % len(poly))
    if c.prove_eq('C06 Ac/one third of the area of the triangles', e.Ac, S.Ac()):
        canary(c, 'C06', e.Ac, S.Ac()*2)
    # segments with their triangle
    segs = []
    for k in range(len(W.trias)):
        for nm in ('n1', 'n2'):
            segs.append((W.xy[nm], mids[k], k, '%s-centroid%d' % (nm, k + 1)))
    if len(W.trias) == 1:
        segs.append((W.xy['n1'], W.xy['n2'], 0, 'n1-n2'))
    ipts = list(e.ipts)
    c.oblig('C06 ipts/one point per boundary segment', len(ipts) == len(segs), 'count', '%d points for %d segments' % (len(ipts), len(segs)))
    left = list(ipts)
    sx = sy = ZERO
    for p, q, k, nm in segs:
        mx, my = (p[0] + q[0])/2, (p[1] + q[1])/2
        hit = [i for i in left if same((i.xyz[0], i.xyz[1], i.xyz[2]), (mx, my))]
        c.oblig('C06 ipts/%s has a point at its midpoint' % nm, len(hit) >= 1, 'normal form', '')
        if not hit:
            continue
        i = hit[0]
        left.remove(i)
        tn, s, T = S.tri(k)
        c.oblig('C06 ipts/%s refers to a triangle containing it' % nm,
                i.tria is W.trias[k] and {id(x) for x in (i.n1, i.n2, i.n3)} == {id(d[x]) for x in tn}, 'identity', '')
        fs = R.lift(i.f1) + i.f2 + i.f3
        c.prove_eq('C06 ipts/%s shape functions sum to one' % nm, fs, const(1))
        for ax in (0, 1, 2):
            c.prove_eq('C06 ipts/%s shape functions give the point' % nm, i.f1*i.n1.xyz[ax] + i.f2*i.n2.xyz[ax] + i.f3*i.n3.xyz[ax],
                       (mx, my, z0)[ax])
        dx, dy = q[0] - p[0], q[1] - p[1]
        c.prove_eq('C06 ipts/%s length' % nm, i.le*i.le, dx*dx + dy*dy)
        c.oblig('C06 ipts/%s length positive' % nm, c.sign(R.lift(i.le)) == '+', 'sign', '')
        c.prove_eq('C06 ipts/%s normal in the plane' % nm, i.nz, ZERO)
        # outward: normal*length = rotation of the segment, interior on the left
        # interior of the domain lies on the other side than ... : use the
        # centroid direction: third point of the sub-triangle (other end, centroid)
        if nm == 'n1-n2':
            inner = mids[0]
        else:
            o = 'n2' if nm.startswith('n1') else 'n1'
            inner = W.xy[o]
        cr = dx*(inner[1] - p[1]) - dy*(inner[0] - p[0])
        sg = c.sign(cr)
        if sg == '+':
            ex, ey = dy, -dx
        elif sg == '-':
            ex, ey = -dy, dx
        else:
            c.oblig('C06 ipts/%s side decided' % nm, False, 'sign', 'undecided')
            continue
        c.prove_eq('C06 ipts/%s outward normal' % nm, i.nx*i.le, ex)
        c.prove_eq('C06 ipts/%s outward normal' % nm, i.ny*i.le, ey)
        c.prove_eq('C06 ipts/%s unit normal' % nm, i.nx*i.nx + i.ny*i.ny, const(1))
        sx = sx + i.nx*i.le
        sy = sy + i.ny*i.le
    c.prove_eq('C06 ipts/length-weighted normals sum to zero', sx, ZERO)
    c.prove_eq('C06 ipts/length-weighted normals sum to zero', sy, ZERO)


def linfields(W):
    """basis of linear displacement fields: (name, values(node, dof), strain)"""
    out = []
    for comp, dof in (('u', 0), ('v', 1), ('phix', 3), ('phiy', 4)):
        for f in ('1', 'x', 'y'):
            def val(n, k, dof=dof, f=f):
                if k != dof:
                    return ZERO
                # coordinates relative to n1 would hide a dependence on the
                # position: absolute coordinates are used
                return const(1) if f == '1' else W.xy[n][0] if f == 'x' else W.xy[n][1]
            e = [ZERO]*6
            one = const(1)
            if f == 'x':
                e[{0: 0, 1: 2, 3: 3, 4: 5}[dof]] = one
            if f == 'y':
                e[{0: 2, 1: 1, 3: 5, 4: 4}[dof]] = one
            out.append(('%s=%s' % (comp, f), val, e))
    return out


def matvec(W, inc, val):
    """(node, dof) -> sum of increments times val"""
    u = {(n, k): R.lift(val(n, k)) for n in W.names for k in range(5)}
    out = {}
    for (n, i, m, j), v in inc.items():
        x = u[m, j]
        if x.t:
            out[n, i] = out.get((n, i), ZERO) + v*x
    return out


def check_linear(c, W, S, inc, tagE='C08'):
    """K u = Ac B^T C eps for linear fields, and their energies"""
    C = S.C()
    Ac = S.Ac()
    fl = linfields(W)
    Ku = [matvec(W, inc, val) for nm, val, e in fl]
    for i, (nm, val, e) in enumerate(fl):
        for j in range(i, len(fl)):
            nm2, val2, e2 = fl[j]
            en = ZERO
            for (n, k), x in Ku[i].items():
                y = val2(n, k)
                if y.t:
                    en = en + x*y
            ex = ZERO
            for a in range(6):
                if e[a].t:
                    for b in range(6):
                        if e2[b].t:
                            ex = ex + e[a]*e2[b]*C[a][b]*Ac
            for t in tagE:
                if c.prove_eq('%s energy of linear fields %s and %s' % (t, nm, nm2), en, ex) and (nm, nm2) == ('u=x', 'u=x'):
                    canary(c, t, en, ex*2)
    bad = [k for k, v in inc.items() if (k[1] == 2 or k[3] == 2) and not zero(c, v)]
    if 'C08' in tagE:
        c.oblig('C08 no stiffness attached to the deflection', not bad, 'normal form', '%s' % (bad[:4],))


def prog_k0(c, kind, nodemode, want=None, twice=False):
    w = wantset(want)
    r = Run(c, kind, nodemode, [CALC], generic=(2 if kind == 'boundary' and w('C07') else 0))
    W = r.W
    calc = r.mods[0].calc_k0
    K = calc(W.mesh, nodemode, silent=Flag(c, 'silent'))
    if not w('C07'):
        set_positions(W)
    if twice:
        K1 = K
        set_positions(W)
        d1, _ = entries(W, K1)
        K = calc(W.mesh, nodemode, silent=Flag(c, 'silent'))
        set_positions(W)
        c.oblig('C17 calc_k0/two results do not share storage', K is not K1, 'identity', '')
        d1b, _ = entries(W, K1)
        d2, _ = entries(W, K)
        same = all(k in d1 and not (d1b[k] - d1[k]).t for k in d1b)
        c.oblig('C17 calc_k0/the first result is not changed by the second call', same, 'normal form', '')
        c.oblig('C17 calc_k0/a second call gives the same matrix', set(d1) == set(d2) and all(c.eq(d1[k], d2[k])[0] for k in d1), 'normal form', '')
        return
    r.frame()
    S = specs.Spec(W)
    e = W.edges[0]
    if w('C07'):
        check_index(c, W)
        set_positions(W)
    inc = check_matrix(c, W, K, 'calc_k0', 'C07')
    if w('C06'):
        check_domain(c, W, S, e)
    if w('C09'):
        compare(c, 'C09', 'calc_k0', inc, S.k0())
        symmetric(c, 'C09', 'calc_k0', inc)
    if w('C08') or w('C10'):
        check_linear(c, W, S, inc, [t for t in ('C08', 'C10') if w(t)])


def check_index(c, W):
    """indices of two arbitrary nodes: in range, different (injective on a
    finite set of n elements with range 0..n-1: a bijection)"""
    idx = []
    for n in W.names:
        i = W.nodes[n].index
        if isinstance(i, (np.integer, int)) and not isinstance(i, bool):
            i = Z.lift(i)
        if not isinstance(i, Z):
            c.oblig('C07 index/every node gets an integer index', False, 'type', '%s: %r' % (n, i))
            return
        c.prove('C07 index/at least zero', SymBool('Z', i, '>='))
        c.prove('C07 index/below the number of nodes', SymBool('Z', Z.lift(W.N - i), '>'))
        for j in idx:
            df = i - j
            if isinstance(df, int):
                c.oblig('C07 index/different for different nodes', df != 0, 'LIA', '')
            else:
                c.prove('C07 index/different for different nodes', SymBool('Z', Z.lift(df), '!='))
        idx.append(i)


def set_positions(W):
    """positions of the nodes in the matrices are their indices"""
    for n in W.names:
        i = W.nodes[n].index
        if not isinstance(i, (Z, int, np.integer)):
            raise Unsupported('node without index')
        W.pos[n] = Z.lift(i)


# -- lemma: weights -----------------------------------------------------------------
def prog_weights(c, kind, nodemode):
    """the weights sum to one: with one laminate everywhere both modes see it"""
    edge = newloader().load('meshless.espim.classes').Edge
    S = specs.Spec(World(c, kind, nodemode, modcls=edge))
    s = ZERO
    for p, w in S.weights():
        s = s + w
    c.prove_eq('C10 lemma/weights sum to one (%s, per %s)' % (kind, 'node' if nodemode else 'triangle'), s, const(1))


# -- lemmas about the contracts ------------------------------------------------------
def pynastran(names):
    """the real methods, cut out of the source of the installed pyNastran and
    put together as classes; rewritten and run like the code of /repo"""
    import ast
    import builtins
    import importlib.util
    import os
    import types
    base = list(importlib.util.find_spec('pyNastran').submodule_search_locations)[0]
    out, seen = [ast.parse('from __future__ import annotations').body[0]], []
    for mod, owner, fs, bases in names:
        src = open(os.path.join(base, 'bdf', 'cards', *mod.split('.')) + '.py').read()
        tree = ast.parse(src)
        if owner is None:
            body = [f for f in tree.body if isinstance(f, ast.FunctionDef) and f.name in fs]
            out += body
        else:
            cls = [q for q in tree.body if isinstance(q, ast.ClassDef) and q.name == owner]
            if len(cls) != 1:
                raise Unsupported('pyNastran: class %s' % owner)
            have = [b.id for b in cls[0].bases if isinstance(b, ast.Name)]
            if have != bases[0]:
                raise Unsupported('pyNastran: bases %s of %s' % (have, owner))
            body = [f for f in cls[0].body if isinstance(f, ast.FunctionDef) and f.name in fs
                    and not any(isinstance(d, ast.Attribute) for d in f.decorator_list)]
            if any(isinstance(f, ast.FunctionDef) and f.name in fs for f in cls[0].body if f not in body):
                raise Unsupported('pyNastran: %s' % owner)
            out.append(ast.ClassDef(owner, [ast.Name(b, ast.Load()) for b in bases[1]], [], body or [ast.Pass()], [], type_params=[]))
        got = [f.name for f in body]
        if sorted(got) != sorted(f for f in fs if f not in bases[2]):
            raise Unsupported('pyNastran: %s has %s' % (owner, got))
    tree = ast.Module(out, [])
    ast.fix_missing_locations(tree)
    m = types.ModuleType('pynastran')
    b = dict(vars(builtins))
    b.update(shim.BUILTINS)
    np_ = shim.numpy()
    from .ctx import Z
    m.__dict__.update(__builtins__=b, np=np_, norm=np_.linalg.norm, cross=np_.cross, integer_types=(int, np.int32, np.int64))
    exec(load.rewrite(ast.unparse(tree), 'pyNastran'), m.__dict__)
    return m


POSITIONS = ('get_node_positions', 'Area', 'get_area', 'Centroid', 'center_of_mass', 'node_ids', '_node_ids')


def prog_pynastran(c, tag, nodemode=True):
    """the contracts of CTRIA3 and GRID used by the mesh model (dv/mesh.py) hold
    for the real methods, any planar triangle, any order of its nodes"""
    m = pynastran([('base_card', None, ('_node_ids',), ([], [], ())),
                   ('base_card', 'Element', ('get_node_positions', '_node_ids'), (['BaseCard'], [], ())),
                   ('elements.shell', 'ShellElement', POSITIONS[:1] + POSITIONS[-1:], (['Element'], ['Element'], POSITIONS)),
                   ('elements.shell', 'TriShell', ('get_node_positions', 'Area', 'get_area', 'Centroid', 'center_of_mass', '_node_ids'),
                    (['ShellElement'], ['ShellElement'], ('get_node_positions', '_node_ids'))),
                   ('elements.shell', 'CTRIA3', POSITIONS, (['TriShell'], ['TriShell'], POSITIONS[:5] + POSITIONS[-1:])),
                   ('nodes', 'GRID', ('get_position',), (['BaseCard'], [], ()))])
    W = World(c, 'tria', nodemode, modcls=newloader().load('meshless.espim.classes').Edge)
    t = W.trias[0]
    names = ('n1', 'n2', 'n3')
    ns = [W.nodes[k] for k in names]
    for q in ns:
        c.zassume(q.nid - 1, '>=')       # identifiers are positive
    order = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][c.choose(6, 'order of the nodes')]
    cp = c.choose(2, 'reference to the basic coordinate system')

    class Basic:
        """the basic coordinate system: positions are global already"""
        def transform_node_to_global(self, xyz):
            return xyz
    real = []
    for k in order:
        g = m.GRID()
        g.nid, g.cp, g.xyz = ns[k].nid, 0, ns[k].xyz
        g.cp_ref = Basic() if cp else None
        real.append(g)
    e = m.CTRIA3()
    e.eid, e.nodes, e.nodes_ref = t.eid, list(real), list(real)
    same = lambda a, b: len(a) == len(b) and all(zero(c, R.lift(x) - R.lift(y)) for x, y in zip(a, b))
    ok = all(same(g.get_position(), ns[k].get_position()) for g, k in zip(real, order))
    c.oblig('%s pyNastran/GRID.get_position is the position' % tag, ok, 'normal form')
    P = e.get_node_positions()
    ok = len(P) == 3 and all(same(list(P[i]), ns[k].xyz) for i, k in enumerate(order))
    c.oblig('%s pyNastran/get_node_positions lists the positions in the order of the nodes' % tag, ok, 'normal form')
    for f in ('Area', 'get_area'):
        c.oblig('%s pyNastran/%s is the area' % (tag, f), c.eq(R.lift(getattr(e, f)()), R.lift(getattr(t, f)()))[0], 'normal form')
    for f in ('Centroid', 'center_of_mass'):
        c.oblig('%s pyNastran/%s is the mean position' % (tag, f), same(list(getattr(e, f)()), list(getattr(t, f)())), 'normal form')
    ids = e.node_ids
    c.oblig('%s pyNastran/node_ids lists the identifiers of the nodes' % tag,
            type(ids) in (list, shim.SList) and len(ids) == 3 and all(Z.lift(x - ns[k].nid).key() == Z.lift(0).key() for x, k in zip(ids, order)), 'z3-LIA')


def prog_psd(c):
    """over the contracts, with z3 (nonlinear real arithmetic): the corrected shear
    stiffness is positive semidefinite and falls with alpha; averages keep it"""
    import z3
    k13, k23, e00, e11, e01, h, al, a2, l2, f, f2, w = z3.Reals('k13 k23 E00 E11 E01 h alpha alpha2 l2 f f2 w')
    base = [k13 > 0, k23 > 0, e00 > 0, e11 > 0, e00*e11 > e01*e01, h > 0, al >= 0, a2 >= al, l2 > 0,
            f*(h*h + al*l2) == h*h, f2*(h*h + a2*l2) == h*h]

    def lemma(names, goal, hyp):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp)
        r0 = s.check()
        s.add(z3.Not(goal))
        r = s.check()
        for nm in names:
            c.oblig(nm, r == z3.unsat and r0 == z3.sat, 'z3-NRA', 'negation: %s, hypotheses: %s' % (r, r0))
    lemma(['C12 lemma/factor in (0, 1]', 'C15 lemma/factor in (0, 1]'], z3.And(f > 0, f <= 1), base)
    lemma(['C15 lemma/alpha zero gives the full stiffness'], z3.Implies(al == 0, f == 1), base)
    lemma(['C15 lemma/factor never increases with alpha'], f2 <= f, base)
    for nm, m in (('without', z3.RealVal(0)), ('with', z3.If(k13 < k23, k13, k23))):
        lemma(['C12 lemma/shear stiffness %s coupling is positive semidefinite' % nm],
              z3.And(k13*e11 > 0, k23*e00 > 0, k13*e11*k23*e00 - m*m*e01*e01 >= 0),
              [k13 > 0, k23 > 0, e00 > 0, e11 > 0, e00*e11 > e01*e01])
    # convex combinations of positive semidefinite 2x2 matrices
    p, q, r, p2, q2, r2 = z3.Reals('p q r p2 q2 r2')
    lemma(['C12 lemma/averages of positive semidefinite matrices are positive semidefinite'],
          z3.And(w*p + (1 - w)*p2 >= 0, w*q + (1 - w)*q2 >= 0),
          [w >= 0, w <= 1, p >= 0, q >= 0, p2 >= 0, q2 >= 0, p*q >= r*r, p2*q2 >= r2*r2])
    x, y = z3.Reals('x y')
    lemma(['C12 lemma/B^T E B is nonnegative'], p*x*x + 2*r*x*y + q*y*y >= 0, [p > 0, q > 0, p*q >= r*r])
    lemma(['C12 lemma/form of an average'], w*p*x*x + 2*w*r*x*y + w*q*y*y + (1 - w)*(p2*x*x + 2*r2*x*y + q2*y*y) >= 0,
          [w >= 0, w <= 1, p*x*x + 2*r*x*y + q*y*y >= 0, p2*x*x + 2*r2*x*y + q2*y*y >= 0])


# -- geometric stiffness ----------------------------------------------------------------
def prog_kG(c, kind, nodemode, want=None):
    w = wantset(want)
    r = Run(c, kind, nodemode, [CALC, KG])
    W = r.W
    r.mods[0].calc_k0(W.mesh, nodemode, silent=Flag(c, 'silent'))
    set_positions(W)
    W.G.writes.clear()
    W.G.initial_reads.clear()
    d = SymVec('d', W.N*5)
    K = r.mods[1].calc_kG(d, W.mesh, nodemode, silent=Flag(c, 'silent'))
    r.frame(derived=False, tags=('C11', 'C17'))
    c.oblig('C17 calc_kG/displacement vector unchanged', not d.touched, 'frame log', '')
    S = specs.Spec(W)
    inc = check_matrix(c, W, K, 'calc_kG', 'C11')

    def disp(n, k):
        return d.at(W.pos[n]*5 + k)
    bad = [k for k, v in inc.items() if (k[1] != 2 or k[3] != 2) and not zero(c, v)]
    c.oblig('C11 calc_kG/touches only deflection entries', not bad, 'normal form', '%s' % (bad[:5],))
    if w('C11'):
        N = S.resultants(disp)
        sp = {(a, 2, b, 2): v for (a, b), v in S.kG(N).items()}
        compare(c, 'C11', 'calc_kG', inc, sp)
        symmetric(c, 'C11', 'calc_kG', inc)
        # linear in d: every monomial has exactly one displacement
        ids = {next(iter(disp(n, k).t))[0][0] for n in W.names for k in range(5)}
        lin = True
        for v in inc.values():
            for m in c.normal(R.lift(v).t):
                if sum(e for i, e in m if i in ids) != 1:
                    lin = False
        c.oblig('C11 calc_kG/linear in the displacement vector', lin, 'normal form', '')
        # linear displacement fields: exact uniform resultants
        C = S.C()
        for nm, val, e in linfields(W):
            n_ex = [sum((C[i][j]*e[j] for j in range(6) if e[j].t), ZERO) for i in range(3)]
            n_got = S.resultants(val)
            for i in range(3):
                c.prove_eq('C11 lemma/resultant of the linear field %s' % nm, n_got[i], n_ex[i])
    if w('C10'):
        # response of the work of w = x, y to linear states reveals averaged A, B
        Ac = S.Ac()
        C = S.C()
        sub = {}
        for n in W.names:
            for k in range(5):
                (m, _), = disp(n, k).t.items()
                sub[n, k] = m[0][0]
        px = lambda n, k: W.xy[n][0] if k == 2 else ZERO
        py = lambda n, k: W.xy[n][1] if k == 2 else ZERO
        from .ctx import subst_terms
        xx, yy, xy = ZERO, ZERO, ZERO
        for (a, i, b, j), v in inc.items():
            if i == 2 and j == 2:
                xx = xx + px(a, 2)*v*px(b, 2)
                yy = yy + py(a, 2)*v*py(b, 2)
                xy = xy + px(a, 2)*v*py(b, 2)
        for nm, val, e in linfields(W):
            n_ex = [sum((C[i][j]*e[j] for j in range(6) if e[j].t), ZERO) for i in range(3)]
            for q, ex in ((xx, n_ex[0]), (yy, n_ex[1]), (xy, n_ex[2])):
                t = c.normal_keep(q).t if hasattr(c, 'normal_keep') else q.t
                for key, i in sub.items():
                    t = subst_terms(t, i, R.lift(val(*key)).t)
                c.prove_eq('C10 calc_kG/averaged A and B seen through %s' % nm, R(t), ex*Ac)


# -- transverse shear ----------------------------------------------------------------------
def patch_states(W, curvature):
    """(name, values, (gamma_xz, gamma_yz)) of the patch tests"""
    one = const(1)
    out = []
    if not curvature:
        sts = [('w=1', (1, 0, 0), 0, 0), ('w=x', (0, 1, 0), 0, 0), ('w=y', (0, 0, 1), 0, 0),
               ('phix=1', (0, 0, 0), 1, 0), ('phiy=1', (0, 0, 0), 0, 1)]
        for nm, (a, b, g), px, py in sts:
            def val(n, k, a=a, b=b, g=g, px=px, py=py):
                x, y = W.xy[n]
                if k == 2:
                    return a*one + b*x + g*y
                if k == 3:
                    return px*one
                if k == 4:
                    return py*one
                return ZERO
            out.append((nm, val, (b + px, g + py)))
    else:
        for nm, f in (('w=x^2/2', lambda x, y: (x*x/2, -x, ZERO)),
                      ('w=y^2/2', lambda x, y: (y*y/2, ZERO, -y)),
                      ('w=xy', lambda x, y: (x*y, -y, -x))):
            def val(n, k, f=f):
                x, y = W.xy[n]
                v = f(x, y)
                return v[k - 2] if k in (2, 3, 4) else ZERO
            out.append((nm, val, (0, 0)))
    return out


def prog_add(c, kind, nodemode, method, area, want=None, zplane=False, defaults=False, alpha0=False):
    """method on an arbitrary triangle (per-triangle variants) or edge"""
    w = wantset(want)
    edge = method == 'edge-based'
    r = Run(c, kind, nodemode, [CALC, ADD] if edge else [ADD], zplane=zplane)
    W = r.W
    alpha = ZERO if alpha0 else var('alpha', sign='0+')
    if edge:
        r.mods[0].calc_k0(W.mesh, nodemode, silent=Flag(c, 'silent'))
        set_positions(W)
    else:
        for n in W.names:
            W.nodes[n].__dict__['index'] = W.pos[n]
    W.G.writes.clear()
    W.G.initial_reads.clear()
    r.state = mesh.modules_state(r.L)
    K = SymMatrix(W.N*5, W.N*5, 'k0', False)
    add = r.mods[-1].add_k0s
    if defaults:
        res = add(K, W.mesh, nodemode)
        alpha = const(load_frac('0.08'))
    else:
        res = add(K, W.mesh, nodemode, method=method, alpha=alpha, maxl_from_area=area)
    c.oblig('C12 add_k0s/returns the given matrix', res is K, 'identity', repr(type(res)))
    if res is not K:
        raise Unsupported('add_k0s returns another object')
    r.frame(derived=False, tags=('C12', 'C17'))
    inc = locality(c, W, K, 'add_k0s', ('C07', 'C12'))
    what = 'add_k0s(%s)' % method
    S = specs.Spec(W)
    E = S.E(alpha, area)
    Ac = S.Ac()
    defect = None
    if kind == 'interior':
        a, b = S.oriented()
        z0 = W.nodes['n1'].xyz[2]
        defect = z0 - S.mid(0)[1]

    if w('C12'):
        bad = [k for k, v in inc.items() if (k[1] not in (2, 3, 4) or k[3] not in (2, 3, 4)) and not zero(c, v)]
        c.oblig('C12 %s/only deflection and rotations' % what, not bad, 'normal form', '%s' % (bad[:5],))
        symmetric(c, 'C12', what, inc)
        one = patch_states(W, False)[0]
        for k, v in matvec(W, inc, one[1]).items():
            c.prove_eq('C12 %s/uniform deflection has no energy' % what, v, ZERO)
        # sum of squares => positive semidefinite
        B0 = S.AcBs(smoothing=method != 'cell-based-no-smoothing', defect=defect)
        ok = compare(c, 'C12', what + ' is B^T E B', inc, S.k0s(B0, E), soft=True)
    if w('C15'):
        # with the laminate direction: stiffness seen by constant shear states
        energies(c, W, 'C15', what, inc, S, E, Ac, defect if not zplane else None, skip_defect=True, method=method)
    if w('C10'):
        energies(c, W, 'C10', what, inc, S, E, Ac, defect if not zplane else None, skip_defect=True, method=method)
    tag = 'C14' if edge else 'C13'
    if w(tag):
        energies(c, W, tag, what, inc, S, E, Ac, defect if not zplane else None, skip_defect=False, method=method)
        if not edge:
            for nm, val, g in patch_states(W, True):
                for k, v in sorted(matvec(W, inc, val).items()):
                    c.prove_eq('%s %s/constant curvature %s has no shear energy' % (tag, what, nm), v, ZERO)
        if method == 'cell-based':
            # lemma: the contract is invariant under cyclic renaming
            if compare(c, tag, what + ' is the smoothed operator', inc, S.k0s(S.AcBs(), E), soft=True):
                cyclic_lemma(c, W, S, tag)


def specmv(W, Bs, E, Ac, val):
    gx = gy = ZERO
    for (n, k), (bx, by) in Bs.items():
        u = R.lift(val(n, k))
        if u.t:
            gx = gx + bx*u
            gy = gy + by*u
    sx = (E[0]*gx + E[2]*gy)/Ac
    sy = (E[2]*gx + E[1]*gy)/Ac
    return {k: bx*sx + by*sy for k, (bx, by) in Bs.items()}


def energies(c, W, tag, what, inc, S, E, Ac, defect, skip_defect, method):
    sts = patch_states(W, False)
    Bd = S.AcBs(defect=defect) if defect is not None else None
    for i, (nm, val, g) in enumerate(sts):
        Ku = matvec(W, inc, val)
        Kd = None
        for j in range(i, len(sts)):
            nm2, val2, g2 = sts[j]
            en = ZERO
            for (n, k), x in Ku.items():
                y = R.lift(val2(n, k))
                if y.t:
                    en = en + x*y
            ex = Ac*(E[0]*g[0]*g2[0] + E[1]*g[1]*g2[1] + E[2]*(g[0]*g2[1] + g[1]*g2[0]))
            name = '%s %s/shear energy of %s and %s' % (tag, what, nm, nm2)
            ok, be = c.eq(en, ex)
            if ok:
                c.oblig(name, True, be)
                if i == j == 1:
                    canary(c, tag, en, ex*2)
            elif Bd is not None:
                if Kd is None:
                    Kd = specmv(W, Bd, E, Ac, val)
                ed = ZERO
                for (n, k), x in Kd.items():
                    y = R.lift(val2(n, k))
                    if y.t:
                        ed = ed + x*y
                c.verdicts = []          # what counts is the comparison with the recorded defect
                ok = c.eq(en, ed)[0]
                if ok and not skip_defect:
                    c.notes.append('known')
                c.oblig(name + ' (known finding: zmid for ymid)', ok, 'normal form', '')
            else:
                c.prove_eq(name, en, ex)


def cyclic_lemma(c, W, S, tag):
    """the smoothed contract does not depend on the corner the list starts with"""
    base = S.AcBs()
    perm = {'n1': 'n2', 'n2': 'n3', 'n3': 'n1'}
    S2 = specs.Spec(W)
    S2.xy = {a: W.xy[perm[a]] for a in perm}
    rot = S2.AcBs()
    ok = True
    for (n, k), v in rot.items():
        u = base[perm[n], k]
        ok = ok and c.eq(v[0], u[0])[0] and c.eq(v[1], u[1])[0]
    c.oblig('%s lemma/smoothed operator is invariant under cyclic corner order' % tag, ok, 'normal form', '')


def load_frac(s):
    from fractions import Fraction
    return Fraction(s)


# -- errors ---------------------------------------------------------------------------------
def prog_err_prop(c, kind, nodemode, where):
    """a missing property of the selected mode raises ValueError; every corner
    of a triangle is an end of an edge of the mesh (contract C04/C05)"""
    extra = [('n1', where)] if nodemode and where in ('o1', 'o2') else []
    r = Run(c, kind, nodemode, [CALC], extra=extra)
    W = r.W
    if nodemode:
        W.nodes[where].__dict__['prop'] = None
    else:
        W.trias[int(where)].__dict__['prop'] = None
    try:
        r.mods[0].calc_k0(W.mesh, nodemode, silent=Flag(c, 'silent'))
        got = 'no error'
    except Exception as e:
        got = type(e).__name__
    c.oblig('C16 calc_k0/missing property (%s, per %s) raises ValueError' % (where, 'node' if nodemode else 'triangle'),
            got == 'ValueError', 'symbolic execution', got)


def prog_err_trias(c, nodemode, kind):
    """edges with no or more than two triangles"""
    r = Run(c, kind, nodemode, [CALC])
    W = r.W
    try:
        r.mods[0].calc_k0(W.mesh, nodemode, silent=Flag(c, 'silent'))
        got = 'no error'
    except Exception as e:
        got = type(e).__name__
    c.oblig('C16 calc_k0/edge with %s triangles raises NotImplementedError' % ('0' if kind == 'none' else 'K >= 3'),
            got == 'NotImplementedError', 'symbolic execution', got)


def prog_err_edge(c, nodemode):
    """edge-based shear with more than two triangles at an edge"""
    r = Run(c, 'many', nodemode, [ADD])
    W = r.W
    K = SymMatrix(W.N*5, W.N*5, 'k0', False)
    try:
        r.mods[0].add_k0s(K, W.mesh, nodemode, method='edge-based', alpha=var('alpha', sign='0+'))
        got = 'no error'
    except Exception as e:
        got = type(e).__name__
    if got == 'Unsupported':
        raise Unsupported('add_k0s on an edge with K >= 3 triangles')
    c.oblig('C16 add_k0s(edge-based)/edge with K >= 3 triangles raises NotImplementedError', got == 'NotImplementedError', 'symbolic execution', got)


def prog_err_method(c, kind, nodemode):
    """any other variant name"""
    r = Run(c, kind, nodemode, [ADD])
    W = r.W
    K = SymMatrix(W.N*5, W.N*5, 'k0', False)
    name = OtherStr()
    try:
        r.mods[0].add_k0s(K, W.mesh, nodemode, method=name, alpha=var('alpha', sign='0+'))
        got = 'no error'
    except Exception as e:
        got = type(e).__name__
    c.oblig('C16 add_k0s/any other method raises ValueError', got == 'ValueError', 'symbolic execution', got)
    c.oblig('C16 add_k0s/matrix unchanged', not K.incs, 'frame log', '')
    c.oblig('C16 add_k0s/mesh unchanged', not W.G.writes, 'frame log', '%s' % ([x[2] for x in W.G.writes],))


class OtherStr:
    """an arbitrary string different from the three documented names"""

    def __eq__(self, o):
        if isinstance(o, str):
            if o in METHODS:
                return False
            c = alg.CTX
            raise Unsupported('comparison of an unknown method name with %r' % o)
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 12345

    def __str__(self):
        return 'other'
    __repr__ = __str__

    def __format__(self, f):
        return 'other'

    def __add__(self, o):
        return self
    __radd__ = __add__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('string operation on the method name')


# -- sequences of unknown length ---------------------------------------------------------------
UTILS = 'meshless.utils'
INTERP = 'meshless.interpolate'


def prog_area(c):
    """polygon with any number n >= 3 of vertices"""
    L = newloader()
    m = L.load(UTILS)
    n = Z.atom('n')
    c.zassume(n - 3, '>=')
    x, y = bigop.Seq('x', n), bigop.Seq('y', n)
    st = mesh.modules_state(L)
    r = m.area_of_polygon(x, y)
    i = Z.atom(bigop.fresh())
    b = next(iter(i.t))
    S = bigop.bigsum(b, 0, n, (), x.fn(i)*y.fn(i + 1) - x.fn(i + 1)*y.fn(i))
    r_ = R.lift(r)
    if r_ is None:
        c.oblig('C01 area_of_polygon/returns a number', False, 'type', repr(type(r)))
        return
    if c.prove_eq('C01 area_of_polygon/absolute shoelace sum', r_, alg.absval(S)/2):
        canary(c, 'C01', r_, alg.absval(S)/2 + const(1))
    c.oblig('C01 area_of_polygon/never negative', c.sign(r_) in ('+', '0+', '0'), 'sign', repr(r_))
    c.oblig('C01 frame/no state kept in the modules', mesh.modules_state(L) == st, 'frame log')
    # lemmas: the contract itself is invariant
    b2 = bigop.fresh()
    j = Z.atom(b2)
    for nm, f in (('start vertex', lambda s, k: s.fn(k + 1)), ('direction', lambda s, k: s.fn(n - 1 - k)),
                  ('translation', lambda s, k: s.fn(k) + var('shift_' + s.name))):
        g = lambda s, k: f(s, Z.lift(k))
        S2 = bigop.bigsum(b2, 0, n, (), g(x, j)*g(y, j + 1) - g(x, j + 1)*g(y, j))
        if nm == 'direction':
            S2 = -S2
        c.prove_eq('C01 lemma/shoelace sum and %s' % nm, S2, S)


def lagrange(c, q, nodes, n, m, at=None):
    """PROD_{i != m} (q - nodes[i])/(nodes[m] - nodes[i]); at: (a, name) takes
    the value a for nodes[m] and leaves out the factor with nodes[i] == a"""
    b = bigop.fresh()
    i = Z.atom(b)
    nz = len(c.zfacts)
    c.zcache.clear()
    c.zassume(i, '>=')
    c.zassume(n - i - 1, '>=')
    gs = [(Z.lift(i - m), '!=')]
    if at is not None:
        gs.append((Z.lift(i - Z.atom(bigop.place(at[1], nodes.name, Z.lift(m).key()))), '!='))
    for z, rel in gs:
        c.zassume(z, rel)
    body = (q - nodes.fn(i))/((nodes.fn(m) if at is None else at[0]) - nodes.fn(i))
    del c.zfacts[nz:]
    c.zcache.clear()
    return bigop.bigprod(b, 0, n, bigop.guards(gs), body)


def prog_lagrange(c, dim, same=False, shared=False, array=False):
    """any number of pairwise distinct control coordinates per direction; one
    query point or an array of them (one arbitrary element of the result)"""
    tag = 'C02' if dim == 2 else 'C03'
    L = newloader()
    mod = L.load(INTERP)
    ax = 'xyz'[:dim]
    q = [var(a) for a in ax]
    N = [Z.atom('n_' + a) for a in ax]
    nodes = []
    for a, n in zip(ax, N):
        c.zassume(n - 1, '>=')
        nodes.append(bigop.Seq(a + '_nodes', n, distinct=True))
    if same:
        N[2] = N[1]
        nodes[2] = nodes[1]
    if shared:
        c.shared.add(('z_nodes', 'y_nodes'))
    F = (bigop.Seq2 if dim == 2 else bigop.Seq3)('F', *N)
    st = mesh.modules_state(L)
    f = getattr(mod, 'interpolate_lagrange_%dD' % dim)
    if array:
        bigop.calibrate()
    Q = [bigop.QArr(a, False) for a in q] if array else q
    r = f(*(Q + nodes + [F]))
    if array:
        c.oblig('%s frame/the query points are not changed' % tag, all(a.v is b for a, b in zip(Q, q)), 'frame log')
        if not isinstance(r, bigop.QArr):
            raise Unsupported('no array of results for an array of query points')
        r = r.v
    c.oblig('%s frame/no state kept in the modules' % tag, mesh.modules_state(L) == st, 'frame log')
    r = R.lift(r) if not isinstance(r, Poison) else None
    if r is None:
        raise Unsupported('the interpolation does not return a number')

    def spec(zn=None):
        bs = [bigop.fresh() for a in ax]
        ms = [Z.atom(b) for b in bs]
        body = bigop.elem('F', ms)
        for k in range(dim):
            if k == 2 and zn is not None:
                body = body*lagrange(c, q[k], zn, zn.n, ms[k], (nodes[k].fn(ms[k]), nodes[k].name))
            else:
                body = body*lagrange(c, q[k], nodes[k], N[k], ms[k])
        for k in reversed(range(dim)):
            body = bigop.bigsum(bs[k], 0, N[k], (), body)
        return body

    name = '%s interpolate_lagrange_%dD/tensor-product Lagrange interpolant%s%s' % (tag, dim, ', every element of an array of query points' if array else '', ' (z_nodes = y_nodes)' if same else '')
    s = spec()
    if c.eq(r, s)[0]:
        c.oblig(name, True, 'canonical sums and products')
        canary(c, tag, r, s + const(1))
    elif shared and c.eq(r, spec(nodes[1]))[0]:
        # recorded defect: the z product runs over y_nodes
        c.notes.append('known')
        c.oblig(name + ' (known finding: y_nodes in the z product)', True, 'canonical sums and products')
    else:
        c.oblig(name, False, 'undecided', 'got %s, contract %s' % (alg.pstr(r.t, 3)[:800], alg.pstr(s.t, 3)[:800]))


from .heapprogs import prog_deck, prog_delaunay  # noqa: E402,F401
from .textprogs import prog_printer  # noqa: E402,F401
from .strproof import prog_pow2mul  # noqa: E402,F401

PROGRAMS = {k[5:]: v for k, v in list(globals().items()) if k.startswith('prog_')}
